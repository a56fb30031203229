package indextree

import (
	"encoding/binary"
	"fmt"
	"sort"
	"testing"
)

func itKey(r *vfRun, style int) uint64 {
	switch style {
	case 0:
		return r.Uint64()
	case 1:
		return uint64(r.Intn(40)) << 48
	case 2:
		return uint64(r.Intn(5))<<48 | uint64(r.Intn(6))
	case 3:
		return uint64(r.Intn(300))
	}
	return uint64([]uint64{0, 1, ^uint64(0), ^uint64(0) - 1, 1 << 63, 1 << 48, 1<<48 - 1, 0xffff << 48, 0xffff<<48 - 1}[r.Intn(9)])
}

func itRange(r *vfRun, tree *NVTreeMem, m map[uint64]int64, start, end uint64) {
	var want []uint64
	for k := range m {
		if start <= k && k < end {
			want = append(want, k)
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	it := tree.Iterator(u64ToBz(start), u64ToBz(end))
	i := 0
	for ; it.Valid(); it.Next() {
		r.Check(i < len(want), "forward iterator over [%x,%x) yields extra key %x", start, end, it.Key())
		r.Check(binary.BigEndian.Uint64(it.Key()) == want[i], "forward iterator over [%x,%x): key %d is %x, expected %x", start, end, i, it.Key(), want[i])
		r.Check(it.Value() == m[want[i]], "forward iterator: position of %x is %d, set %d", want[i], it.Value(), m[want[i]])
		i++
	}
	it.Close()
	r.Check(i == len(want), "forward iterator over [%x,%x) yields %d of %d keys", start, end, i, len(want))
	it = tree.ReverseIterator(u64ToBz(start), u64ToBz(end))
	i = len(want) - 1
	for ; it.Valid(); it.Next() {
		r.Check(i >= 0, "reverse iterator over [%x,%x) yields extra key %x", start, end, it.Key())
		r.Check(binary.BigEndian.Uint64(it.Key()) == want[i], "reverse iterator over [%x,%x): key is %x, expected %x", start, end, it.Key(), want[i])
		r.Check(it.Value() == m[want[i]], "reverse iterator: position of %x is %d, set %d", want[i], it.Value(), m[want[i]])
		i--
	}
	it.Close()
	r.Check(i == -1, "reverse iterator over [%x,%x) misses %d keys", start, end, i+1)
}

func TestVerifC19(t *testing.T) {
	vfLoop(t, "C19", 80, 3000, func(r *vfRun) {
		tree := NewNVTreeMem(nil)
		defer tree.Close()
		m := map[uint64]int64{}
		style := r.Intn(5)
		var pool []uint64
		for i := 0; i < 60; i++ {
			pool = append(pool, itKey(r, style))
			if r.Intn(8) == 0 {
				pool = append(pool, itKey(r, r.Intn(5)))
			}
		}
		for blk := 0; blk < 12; blk++ {
			tree.BeginWrite(int64(blk))
			n := r.Intn(40)
			if r.Intn(6) == 0 {
				n = 400
			}
			for ; n > 0; n-- {
				k := pool[r.Intn(len(pool))]
				if _, ok := m[k]; ok && r.Intn(2) == 0 {
					tree.Delete(u64ToBz(k))
					delete(m, k)
				} else {
					v := r.Int63n(1 << 47)
					tree.Set(u64ToBz(k), v)
					m[k] = v
				}
			}
			for k := range m {
				kk := k
				r.Check(r.Panics(func() { tree.Get(u64ToBz(kk)) }), "read during a write phase")
				break
			}
			r.Check(r.Panics(func() { tree.Iterator(u64ToBz(0), u64ToBz(9)) }), "iterator during a write phase")
			r.Check(r.Panics(func() { tree.ReverseIterator(u64ToBz(0), u64ToBz(9)) }), "reverse iterator during a write phase")
			tree.EndWrite()
			r.Check(tree.ActiveCount() == len(m), "%d keys, expected %d", tree.ActiveCount(), len(m))
			r.Check(r.Panics(func() { tree.Set(u64ToBz(1), 1) }) && r.Panics(func() { tree.Delete(u64ToBz(1)) }), "write outside a write phase")
			for _, k := range pool {
				v, ok := tree.Get(u64ToBz(k))
				w, had := m[k]
				r.Check(ok == had && (!ok || v == w), "key %x: %d %v, expected %d %v", k, v, ok, w, had)
			}
			for i := 0; i < 25; i++ {
				a, b := itKey(r, style), itKey(r, style)
				if r.Intn(2) == 0 {
					a = pool[r.Intn(len(pool))]
				}
				if r.Intn(2) == 0 {
					b = pool[r.Intn(len(pool))]
				}
				if a > b && r.Intn(8) != 0 {
					a, b = b, a
				}
				itRange(r, tree, m, a, b)
			}
			itRange(r, tree, m, 0, ^uint64(0))
			// an iterator left open and re-read after the tree is changed
			tree.BeginWrite(int64(blk))
			tree.EndWrite()
		}
	})
}

// key-position records with history
func TestVerifC20(t *testing.T) {
	vfLoop(t, "C20", 40, 1000, func(r *vfRun) {
		kv, err := NewRocksDB("idx", r.Scratch())
		if err != nil {
			panic(err)
		}
		defer kv.Close()
		tree := NewNVTreeMem(kv)
		defer tree.Close()
		type ver struct {
			h int64
			v int64
		}
		hist := map[string][]ver{}
		meta := map[string]string{}
		var pool [][]byte
		for i := 0; i < 12; i++ {
			k := u64ToBz(itKey(r, r.Intn(5)))
			pool = append(pool, k)
			k2 := append([]byte{}, k...)
			k2[7] ^= 1
			pool = append(pool, k2)
		}
		live := map[string]bool{}
		h := int64(r.Intn(3))
		pruneTo := int64(-1)
		check := func() {
			for i := 0; i < 60; i++ {
				k := pool[r.Intn(len(pool))]
				at := r.Int63n(h + 4)
				if at <= pruneTo && pruneTo >= 0 {
					_, ok := tree.GetAtHeight(k, uint64(at))
					r.Check(!ok, "key %x at %d is answered, pruned to %d", k, at, pruneTo)
					continue
				}
				want, ok := int64(-1), false
				for _, v := range hist[string(k)] {
					if v.h <= at {
						want, ok = v.v, v.v >= 0
					}
				}
				if pruneTo >= 0 { // only versions at or above the prune height are promised
					recent := false
					for _, v := range hist[string(k)] {
						recent = recent || (v.h <= at && v.h >= pruneTo)
					}
					if !recent {
						continue
					}
				}
				got, found := tree.GetAtHeight(k, uint64(at))
				r.Check(found == ok && (!ok || got == want), "key %x at height %d: %d %v, expected %d %v", k, at, got, found, want, ok)
			}
			for k, v := range meta {
				r.Check(string(kv.Get([]byte(k))) == v, "metadata record %x changed", k)
			}
		}
		for blk := 0; blk < 12; blk++ {
			h += 1 + int64(r.Intn(2))
			kv.OpenNewBatch()
			tree.BeginWrite(h)
			used := map[string]bool{}
			for n := r.Intn(14); n > 0; n-- {
				k := pool[r.Intn(len(pool))]
				if used[string(k)] {
					continue
				}
				used[string(k)] = true
				if live[string(k)] && r.Intn(2) == 0 {
					tree.Delete(k)
					delete(live, string(k))
					hist[string(k)] = append(hist[string(k)], ver{h, -1})
				} else {
					v := r.Int63n(1 << 46)
					tree.Set(k, v)
					live[string(k)] = true
					hist[string(k)] = append(hist[string(k)], ver{h, v})
				}
			}
			mk := append([]byte{byte(0x10 + r.Intn(10))}, r.Bytes(r.Intn(12))...)
			mv := fmt.Sprint(blk)
			kv.LockBatch()
			kv.CurrBatch().Set(mk, []byte(mv))
			kv.UnlockBatch()
			meta[string(mk)] = mv
			tree.EndWrite()
			kv.CloseOldBatch()
			check()
			if blk > 6 && r.Intn(4) == 0 {
				p := r.Int63n(h)
				if p > pruneTo {
					pruneTo = p
				}
				kv.SetPruneHeight(uint64(p))
				check()
			}
		}
		f := &HeightCompactionFilter{pruneHeight: uint64(r.Intn(50)), pruneEnable: r.Intn(4) != 0}
		for i := 0; i < 200; i++ {
			key := r.Bytes(r.Intn(20))
			if len(key) >= 8 {
				binary.BigEndian.PutUint64(key[len(key)-8:], uint64(r.Intn(60)))
			}
			if len(key) > 0 && r.Intn(2) == 0 {
				key[0] = 0
			}
			val := r.Bytes(8)
			rm, _ := f.Filter(0, key, val)
			if rm {
				r.Check(f.pruneEnable && len(key) >= 8 && key[0] == 0 && binary.BigEndian.Uint64(key[len(key)-8:]) < f.pruneHeight, "record %x is dropped at prune height %d", key, f.pruneHeight)
			}
		}
	})
}
