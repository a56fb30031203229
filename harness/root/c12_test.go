package moeingads

import (
	"bytes"
	"testing"

	"github.com/smartbch/moeingads/types"
)

func TestVerifC12(t *testing.T) {
	vfLoop(t, "C12", 60, 2000, func(r *vfRun) {
		s := newSim(r, false, 5+r.Intn(40))
		defer s.close()
		for i := 0; i < 12; i++ {
			s.block(s.ops(r.Intn(14)))
			s.checkChain()
		}
	})
}

func TestVerifC13(t *testing.T) {
	vfLoop(t, "C13", 60, 2000, func(r *vfRun) {
		s := newSim(r, false, 5+r.Intn(40))
		defer s.close()
		for i := 0; i < 10; i++ {
			s.block(s.ops(r.Intn(14)))
			s.checkRecords()
			s.checkSerials()
		}
		// serial numbers are consecutive in the log of each shard
		s.close()
		s.mads = simOpen(s.dir, false)
		for sh := 0; sh < types.ShardCount; sh++ {
			ch := make(chan types.KeyAndPos, 100)
			done := make(chan struct{})
			want := s.mads.meta.GetOldestActiveTwigID(sh) * 2048
			var bad string
			go func() {
				defer close(done)
				for e := range ch {
					if e.SerialNum != want && bad == "" {
						bad = "gap"
					}
					want++
				}
			}()
			simQuiet(func() { s.mads.datTree[sh].ScanEntriesLite(s.mads.meta.GetOldestActiveTwigID(sh), ch) })
			<-done
			r.Check(bad == "" && want == s.mads.meta.GetMaxSerialNum(sh), "shard %d: serial numbers in the log are not consecutive up to %d (%s, reached %d)", sh, s.mads.meta.GetMaxSerialNum(sh), bad, want)
		}
	})
}

func TestVerifC15(t *testing.T) {
	vfLoop(t, "C15", 200, 5000, func(r *vfRun) {
		s := newSim(r, false, 20)
		defer s.close()
		for i := 0; i < 3; i++ {
			s.block(s.ops(6))
			want := simRoot(s.mads)
			got := s.mads.GetRootHash()
			r.Check(bytes.Equal(want, got), "root %x, Merkle root of the shard roots %x", got, want)
			r.Check(bytes.Equal(s.mads.GetRootHash(), got), "reading the root twice differs")
			r.Check(bytes.Equal(want, simRoot(s.mads)), "reading the root changed a shard root")
		}
		for i := 0; i < 50; i++ { // arbitrary shard roots
			var h [32]byte
			copy(h[:], r.Bytes(32))
			s.mads.meta.SetRootHash(r.Intn(8), h)
			r.Check(bytes.Equal(simRoot(s.mads), s.mads.GetRootHash()), "root is not the Merkle root of the shard roots")
		}
	})
}
