package types

import "testing"

func TestVerifC16(t *testing.T) {
	vfLoop(t, "C16", 20, 500, func(r *vfRun) {
		for n := 0; n < 30; n++ {
			for i := 0; i < 40; i++ {
				k := r.Bytes(n)
				s := GetShardID(k)
				if n != 8 {
					r.Check(s == 0, "key of %d bytes is in shard %d", n, s)
				} else {
					r.Check(s == int(k[7])/32, "key %x is in shard %d", k, s)
				}
			}
		}
		count := map[int]int{}
		last, lastC := 0, 0
		for b := 0; b < 256; b++ {
			k := r.Bytes(8)
			k[7] = byte(b)
			s := GetShardID(k)
			r.Check(s >= last && s < ShardCount, "shard of last byte %d is %d after %d", b, s, last)
			last = s
			count[s]++
			c := GetIndexChanID(byte(b))
			r.Check(c >= lastC && c < IndexChanCount, "channel of byte %d is %d after %d", b, c, lastC)
			lastC = c
			l := LimitRange(byte(b))
			r.Check(l >= 64 && l < 192, "byte %d is limited to %d", b, l)
			for x := 0; x < 256; x++ {
				r.Check((LimitRange(byte(x)) == l) == (x&127 == b&127), "bytes %d and %d are limited to %d and %d", b, x, l, LimitRange(byte(x)))
			}
		}
		for s := 0; s < ShardCount; s++ {
			r.Check(count[s] == 256/ShardCount, "shard %d has %d of 256 last bytes", s, count[s])
		}
		r.Check(GetIndexChanID(0) == 0 && GetIndexChanID(255) == IndexChanCount-1, "guards")
		seen := map[int]bool{}
		for b := 64; b < 192; b++ {
			seen[GetIndexChanID(byte(b))] = true
		}
		r.Check(len(seen) == 8 && !seen[0] && !seen[9], "channels of hash-derived keys: %v", seen)
	})
}
