package metadb

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
)

type mdShard struct {
	mt, ef, last, max, old int64
	root                   [32]byte
	edges                  []byte
}

func TestVerifC11(t *testing.T) {
	vfLoop(t, "C11", 60, 1500, func(r *vfRun) {
		dir := r.Scratch()
		kv, err := indextree.NewRocksDB("idx", dir)
		if err != nil {
			panic(err)
		}
		defer func() { kv.Close() }()
		m := NewMetaDB(kv)
		kv.OpenNewBatch()
		m.Init()
		kv.CloseOldBatch()
		var sh [types.ShardCount]mdShard
		for i := range sh {
			sh[i].last = -1
		}
		twigH := map[string]int64{}
		tk := func(i int, id int64) string { return fmt.Sprintf("%d/%d", i, id) }
		height := int64(0)
		check := func(when string) {
			r.Check(m.GetCurrHeight() == height, "%s: height %d, set %d", when, m.GetCurrHeight(), height)
			for i := range sh {
				s := &sh[i]
				r.Check(m.GetTwigMtFileSize(i) == s.mt, "%s: twig file size of shard %d is %d, set %d", when, i, m.GetTwigMtFileSize(i), s.mt)
				r.Check(m.GetEntryFileSize(i) == s.ef, "%s: entry file size of shard %d is %d, set %d", when, i, m.GetEntryFileSize(i), s.ef)
				r.Check(m.GetLastPrunedTwig(i) == s.last, "%s: last pruned twig of shard %d is %d, set %d", when, i, m.GetLastPrunedTwig(i), s.last)
				r.Check(m.GetMaxSerialNum(i) == s.max, "%s: serial number of shard %d is %d, set %d", when, i, m.GetMaxSerialNum(i), s.max)
				r.Check(m.GetYoungestTwigID(i) == s.max/2048, "%s: youngest twig of shard %d", when, i)
				r.Check(m.GetOldestActiveTwigID(i) == s.old, "%s: oldest twig of shard %d is %d, set %d", when, i, m.GetOldestActiveTwigID(i), s.old)
				r.Check(m.GetRootHash(i) == s.root, "%s: root of shard %d", when, i)
				r.Check(bytes.Equal(m.GetEdgeNodes(i), s.edges), "%s: edge nodes of shard %d", when, i)
				for id := int64(0); id < 300; id += 1 + r.Int63n(40) {
					want, ok := twigH[tk(i, id)]
					if !ok {
						want = -1
					}
					r.Check(m.GetTwigHeight(i, id) == want, "%s: height of twig %d of shard %d is %d, expected %d", when, id, i, m.GetTwigHeight(i, id), want)
				}
				for k, want := range twigH {
					var a int
					var b int64
					fmt.Sscanf(k, "%d/%d", &a, &b)
					if a == i {
						r.Check(m.GetTwigHeight(i, b) == want, "%s: height of twig %d of shard %d is %d, expected %d", when, b, i, m.GetTwigHeight(i, b), want)
					}
				}
			}
		}
		check("after Init")
		for blk := 0; blk < 8; blk++ {
			kv.OpenNewBatch()
			height += 1 + r.Int63n(1<<uint(r.Intn(40)))
			m.SetCurrHeight(height)
			for n := r.Intn(12); n > 0; n-- {
				i := r.Intn(types.ShardCount)
				s := &sh[i]
				switch r.Intn(8) {
				case 0:
					s.mt = r.Int63()
					m.SetTwigMtFileSize(i, s.mt)
				case 1:
					s.ef = r.Int63()
					m.SetEntryFileSize(i, s.ef)
				case 2:
					s.last = r.Int63n(300)
					m.SetLastPrunedTwig(i, s.last)
				case 3, 4:
					k := 1 + r.Intn(5000)
					r.Logf("shard %d: %d serial numbers", i, k)
					for ; k > 0; k-- {
						s.max++
						m.IncrMaxSerialNum(i)
						if s.max%2048 == 0 {
							twigH[tk(i, s.max/2048)] = height
						}
					}
				case 5:
					s.old++
					m.IncrOldestActiveTwigID(i)
				case 6:
					r.Read(s.root[:])
					m.SetRootHash(i, s.root)
				case 7:
					s.edges = r.Bytes(40 * (1 + r.Intn(5)))
					m.SetEdgeNodes(i, s.edges)
					if len(twigH) > 0 && r.Intn(2) == 0 {
						id := r.Int63n(5)
						m.DeleteTwigHeight(i, id)
						delete(twigH, tk(i, id))
					}
				}
			}
			m.Commit()
			kv.CloseOldBatch()
			check(fmt.Sprintf("block %d", blk))
			if r.Intn(3) == 0 {
				kv.Close()
				kv, err = indextree.NewRocksDB("idx", dir)
				if err != nil {
					panic(err)
				}
				m = NewMetaDB(kv)
				m.ReloadFromKVDB()
				check("after reopening")
			}
		}
	})
}
