package store

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store/types"
)

type stOp struct {
	key, value []byte
	del        bool
}

// stRoot records what is written back.
type stRoot struct {
	*MockRootStore
	mtx sync.Mutex
	log []stOp
}

func (s *stRoot) Set(k, v []byte) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	s.log = append(s.log, stOp{append([]byte{}, k...), append([]byte{}, v...), false})
	s.MockRootStore.Set(k, v)
}

func (s *stRoot) Delete(k []byte) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	s.log = append(s.log, stOp{append([]byte{}, k...), nil, true})
	s.MockRootStore.Delete(k)
}

func stKeys(r *vfRun, n int) (ks [][]byte) {
	for i := 0; i < n; i++ {
		k := r.Bytes(8)
		k[0] = 64 + k[0]%128
		ks = append(ks, k)
	}
	return
}

func TestVerifC17(t *testing.T) {
	vfLoop(t, "C17", 200, 5000, func(r *vfRun) {
		root := &stRoot{MockRootStore: NewMockRootStore()}
		base := map[string][]byte{}
		keys := stKeys(r, 3+r.Intn(30))
		for blk := 0; blk < 6; blk++ {
			over := map[string][]byte{}
			tr := &TrunkStore{cache: NewCacheStore(10), root: root}
			for tx := 0; tx < 5; tx++ {
				check := func(where string) {
					for _, k := range keys {
						want, ok := over[string(k)]
						if !ok {
							want = base[string(k)]
						}
						got := tr.Get(k)
						r.Check((got == nil) == (want == nil) && bytes.Equal(got, want), "%s: key %x reads %x, expected %x", where, k, got, want)
						for i := range got { // the slice is the caller's own
							got[i] ^= 0xff
						}
						again := tr.Get(k)
						r.Check(bytes.Equal(again, want), "%s: changing a returned slice changed the store: key %x reads %x, expected %x", where, k, again, want)
					}
				}
				check("before tx")
				var ops []stOp
				for n := r.Intn(10); n > 0; n-- {
					k := keys[r.Intn(len(keys))]
					if r.Intn(3) == 0 {
						ops = append(ops, stOp{k, nil, true})
						tr.PrepareForDeletion(k)
					} else {
						ops = append(ops, stOp{k, r.Bytes(1 + r.Intn(20)), false})
						tr.PrepareForUpdate(k)
					}
				}
				// a key finally deleted may have been prepared for update and vice versa
				for _, k := range keys {
					tr.PrepareForUpdate(k)
					tr.PrepareForDeletion(k)
				}
				tr.Update(func(db types.SetDeleter) {
					for _, o := range ops {
						if o.del {
							db.Delete(o.key)
							over[string(o.key)] = nil
						} else {
							v := append([]byte{}, o.value...)
							db.Set(o.key, v)
							over[string(o.key)] = o.value
							for i := range v { // the store keeps its own copy
								v[i] ^= 0x55
							}
						}
					}
				})
				r.Logf("tx with %d ops", len(ops))
				check("after tx")
			}
			root.log = nil
			wb := r.Intn(3) != 0
			r.Logf("close, write back %v", wb)
			tr.Close(wb)
			if !wb {
				r.Check(len(root.log) == 0, "closing without write-back wrote %d keys", len(root.log))
			} else {
				seen := map[string]bool{}
				for _, o := range root.log {
					r.Check(!seen[string(o.key)], "key %x written back twice", o.key)
					seen[string(o.key)] = true
					want, ok := over[string(o.key)]
					r.Check(ok, "key %x written back though never written", o.key)
					r.Check(o.del == (want == nil) && bytes.Equal(o.value, want), "key %x written back as %x, final %x", o.key, o.value, want)
				}
				r.Check(len(seen) == len(over), "%d of %d keys written back", len(seen), len(over))
				for k, v := range over {
					if v == nil {
						delete(base, k)
					} else {
						base[k] = v
					}
				}
			}
			for _, k := range keys {
				got, want := root.Get(k), base[string(k)]
				r.Check((got == nil) == (want == nil) && bytes.Equal(got, want), "parent has %x for %x, expected %x", got, k, want)
			}
		}
	})
}

func stQuiet(fn func()) {
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	fn()
}

// the read cache of the real root store
func TestVerifC17Root(t *testing.T) {
	vfLoop(t, "C17", 15, 300, func(r *vfRun) {
		var mads *moeingads.MoeingADS
		stQuiet(func() {
			var err error
			mads, err = moeingads.NewMoeingADS(filepath.Join(r.Scratch(), "ads"), false, [][]byte{{0, 0, 0, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 255, 255, 255, 255}})
			if err != nil {
				panic(err)
			}
		})
		odd := r.Intn(2)
		root := NewRootStore(mads, func(k []byte) bool { return odd == 0 || k[1]&1 == 1 })
		defer root.Close()
		keys := stKeys(r, 5+r.Intn(40))
		limit := moeingads.RootCacheSizeLimit
		_ = limit
		base := map[string][]byte{}
		for blk := int64(1); blk < 12; blk++ {
			root.SetHeight(blk)
			tr := root.GetTrunkStore(100).(*TrunkStore)
			over := map[string][]byte{}
			final := map[string]bool{}
			for n := r.Intn(20); n > 0; n-- {
				k := keys[r.Intn(len(keys))]
				if final[string(k)] {
					continue
				}
				final[string(k)] = true
				if r.Intn(3) == 0 {
					tr.PrepareForDeletion(k)
					tr.Update(func(db types.SetDeleter) { db.Delete(k) })
					over[string(k)] = nil
				} else {
					v := r.Bytes(1 + r.Intn(20))
					tr.PrepareForUpdate(k)
					tr.Update(func(db types.SetDeleter) { db.Set(k, v) })
					over[string(k)] = v
				}
			}
			tr.Close(true)
			for k, v := range over {
				if v == nil {
					delete(base, k)
				} else {
					base[k] = v
				}
			}
			for _, k := range keys {
				want := base[string(k)]
				got := root.Get(k)
				r.Check((got == nil) == (want == nil) && bytes.Equal(got, want), "block %d: key %x reads %x, expected %x", blk, k, got, want)
				for i := range got {
					got[i] ^= 0xff
				}
				e := mads.GetEntry(k)
				r.Check((e == nil) == (want == nil) && (e == nil || bytes.Equal(e.Value, want)), "block %d: database has another value for %x", blk, k)
				again := root.Get(k)
				r.Check(bytes.Equal(again, want), "block %d: changing a returned slice changed the store", blk)
			}
		}
	})
}

var _ = fmt.Sprint
