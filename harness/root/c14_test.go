package moeingads

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"testing"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
)

// shardKey gives the i-th key of a pool that lives in one shard.
func shardKey(i int, shard int) []byte {
	k := make([]byte, 8)
	k[0] = byte(64 + i%128)
	binary.BigEndian.PutUint32(k[2:6], uint32(i*2654435761))
	k[7] = byte(shard*32 + i%32)
	return k
}

type recView struct {
	value, next        []byte
	height, lastHeight int64
}

func viewAll(m *MoeingADS) map[string]recView {
	res := map[string]recView{}
	it := m.idxTree.Iterator(simStart, simEnd)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		e := m.datTree[types.GetShardID(it.Key())].ReadEntry(it.Value())
		res[string(it.Key())] = recView{e.Value, e.NextKey, e.Height, e.LastHeight}
	}
	return res
}

func fillShard(r *vfRun, s *sim, shard, keys, blocks int) {
	n := 0
	for b := 0; b < blocks; b++ {
		var ops []simOp
		for i := 0; i < keys; i++ {
			k := shardKey(i, shard)
			if b > 0 && r.Intn(60) == 0 {
				ops = append(ops, simOp{key: k, del: true})
			} else if b == 0 || r.Intn(4) != 0 {
				ops = append(ops, simOp{key: k, value: s.value()})
			}
			n++
		}
		s.block(ops)
	}
}

// compaction called directly, between two snapshots of every live record
func TestVerifC14(t *testing.T) {
	vfLoop(t, "C14", 6, 60, func(r *vfRun) {
		s := newSim(r, false, 10)
		defer s.close()
		shard := r.Intn(8)
		fillShard(r, s, shard, 1500+r.Intn(1500), 13)
		for round := 0; round < 6; round++ {
			m := s.mads
			before := viewAll(m)
			oldest := m.meta.GetOldestActiveTwigID(shard)
			young := m.meta.GetYoungestTwigID(shard)
			sn0 := m.meta.GetMaxSerialNum(shard)
			moved := map[string]bool{}
			for k := range before {
				e := m.GetEntry([]byte(k))
				if types.GetShardID([]byte(k)) == shard && e.SerialNum>>datatree.TwigShift == oldest {
					moved[k] = true
				}
			}
			r.Logf("compact shard %d twig %d (youngest %d), %d live records in it", shard, oldest, young, len(moved))
			m.BeginWrite(s.height)
			m.runIdxTreeJobs()
			m.compactForShard(shard)
			m.flushIdxTreeJobs()
			m.allShardEndBlock()
			for i := 0; i < types.ShardCount; i++ {
				m.datTree[i].WaitForFlushing()
			}
			m.meta.Commit()
			m.idxTree.EndWrite()
			m.kvdb.CloseOldBatch()
			after := viewAll(m)
			r.Check(len(after) == len(before), "compaction changed the number of live keys from %d to %d", len(before), len(after))
			for k, a := range before {
				b, ok := after[k]
				r.Check(ok, "key %x was lost by compaction", k)
				r.Check(bytes.Equal(a.value, b.value) && bytes.Equal(a.next, b.next) && a.height == b.height && a.lastHeight == b.lastHeight,
					"key %x changed by compaction: %v -> %v", k, a, b)
				e := m.GetEntry([]byte(k))
				r.Check(string(e.Key) == k, "index of %x leads to the record of %x", k, e.Key)
				r.Check(m.datTree[types.GetShardID([]byte(k))].GetActiveBit(e.SerialNum), "record of %x is not active after compaction", k)
				if moved[k] && young-oldest >= MinKeptTwigs {
					r.Check(e.SerialNum >= sn0, "key %x was not moved out of twig %d", k, oldest)
				}
			}
			if young-oldest >= MinKeptTwigs {
				r.Check(m.meta.GetOldestActiveTwigID(shard) == oldest+1, "oldest twig is %d after compacting %d", m.meta.GetOldestActiveTwigID(shard), oldest)
				r.Check(m.datTree[shard].TwigCanBePruned(oldest), "twig %d is still in memory", oldest)
			} else {
				r.Check(m.meta.GetOldestActiveTwigID(shard) == oldest && m.meta.GetMaxSerialNum(shard) == sn0, "compacted a shard with too few twigs")
			}
			// active records = live keys
			n := 0
			for sh := 0; sh < types.ShardCount; sh++ {
				for sn := m.meta.GetOldestActiveTwigID(sh) * 2048; sn < m.meta.GetMaxSerialNum(sh); sn++ {
					if m.datTree[sh].GetActiveBit(sn) {
						n++
					}
				}
			}
			r.Check(n == len(s.live)+2, "%d active records for %d live keys", n, len(s.live))
			simQuiet(func() { m.CheckHashConsistency() })
			for k := range moved {
				_, _, err := m.GetProof([]byte(k))
				r.Check(err == nil, "no proof for moved key %x: %v", k, err)
			}
			s.checkChain()
		}
		s.reopen()
		s.checkChain()
	})
}

// the compaction loop of EndWrite
func TestVerifC14End(t *testing.T) {
	vfLoop(t, "C14", 1, 8, func(r *vfRun) {
		s := newSim(r, false, 10)
		defer s.close()
		fillShard(r, s, r.Intn(8), 11000+r.Intn(1000), 4)
		comp := false
		for sh := 0; sh < 8; sh++ {
			comp = comp || s.mads.meta.GetOldestActiveTwigID(sh) > 0
		}
		r.Check(comp, "no compaction happened")
		s.checkChain()
		s.checkRecords()
		simQuiet(func() { s.mads.CheckHashConsistency() })
		s.reopen()
		s.checkChain()
		s.checkRecords()
	})
}

func TestVerifC20(t *testing.T) {
	vfLoop(t, "C20", 40, 1000, func(r *vfRun) {
		s := newSim(r, true, 4+r.Intn(20))
		defer s.close()
		for i := 0; i < 14; i++ {
			s.block(s.ops(r.Intn(10)))
			if r.Intn(8) == 0 {
				s.reopen()
			}
			s.checkHistory()
		}
	})
}

func (s *sim) checkHistory() {
	r := s.r
	for i := 0; i < 60; i++ {
		k := s.pool[r.Intn(len(s.pool))]
		h := int64(r.Intn(int(s.height) + 4))
		want := s.at(string(k), h)
		e := s.mads.GetEntryAtHeight(k, uint64(h))
		if want == nil {
			r.Check(e == nil, "key %x at height %d: found %v, expected nothing (now %d)", k, h, e, s.height)
		} else {
			r.Check(e != nil, "key %x at height %d: not found, expected %x (now %d)", k, h, want, s.height)
			r.Check(bytes.Equal(e.Value, want) && bytes.Equal(e.Key, k), "key %x at height %d: key %x value %x, expected %x (now %d)", k, h, e.Key, e.Value, want, s.height)
		}
	}
}

func TestVerifC21(t *testing.T) {
	vfLoop(t, "C21", 20, 400, func(r *vfRun) {
		s := newSim(r, r.Intn(2) == 0, 5+r.Intn(60))
		defer s.close()
		twin := simOpen(filepath.Join(r.Scratch(), "twin"), false) // never closed
		defer twin.Close()
		big := r.Intn(3) == 0
		shard := r.Intn(8)
		for i := 0; i < 8; i++ {
			ops := s.ops(r.Intn(20))
			if big && i < 5 { // cross twig boundaries
				for j := 0; j < 700; j++ {
					ops = append(ops, simOp{key: shardKey(j, shard), value: s.value()})
				}
			}
			s.block(ops)
			runOps(twin, ops, s.height)
			r.Check(bytes.Equal(s.mads.GetRootHash(), twin.GetRootHash()), "block %d: root %x, never-closed store %x", s.height, s.mads.GetRootHash(), twin.GetRootHash())
			if r.Intn(2) == 0 {
				s.snapshotReopen()
			}
		}
		s.checkChain()
		s.checkRecords()
	})
}

// with evicted twigs
func TestVerifC21Evict(t *testing.T) {
	vfLoop(t, "C21", 3, 40, func(r *vfRun) {
		s := newSim(r, false, 10)
		defer s.close()
		shard := r.Intn(8)
		fillShard(r, s, shard, 1800+r.Intn(1000), 13)
		for round := 0; round < 1+r.Intn(6); round++ {
			s.compact(shard)
		}
		for i := 0; i < 4; i++ {
			s.snapshotReopen()
			if r.Intn(2) == 0 {
				s.compact(shard)
			}
			s.block(s.ops(10))
		}
		s.snapshotReopen()
		s.checkChain()
	})
}

func (s *sim) compact(shard int) {
	m := s.mads
	s.r.Logf("compact shard %d twig %d of %d", shard, m.meta.GetOldestActiveTwigID(shard), m.meta.GetYoungestTwigID(shard))
	m.BeginWrite(s.height)
	m.runIdxTreeJobs()
	m.compactForShard(shard)
	m.flushIdxTreeJobs()
	m.allShardEndBlock()
	for i := 0; i < types.ShardCount; i++ {
		m.datTree[i].WaitForFlushing()
	}
	m.meta.Commit()
	m.idxTree.EndWrite()
	m.kvdb.CloseOldBatch()
}

// snapshotReopen compares everything observable before and after a restart.
func (s *sim) snapshotReopen() {
	r := s.r
	before := viewAll(s.mads)
	var bits [8]map[int64]bool
	for sh := range bits {
		bits[sh] = map[int64]bool{}
		for sn := s.mads.meta.GetOldestActiveTwigID(sh) * 2048; sn < s.mads.meta.GetMaxSerialNum(sh); sn++ {
			bits[sh][sn] = s.mads.datTree[sh].GetActiveBit(sn)
		}
	}
	proofs := map[string][]byte{}
	for k := range before {
		if len(proofs) < 40 {
			_, p, err := s.mads.GetProof([]byte(k))
			r.Check(err == nil, "no proof for %x: %v", k, err)
			proofs[k] = p
		}
	}
	s.reopen()
	after := viewAll(s.mads)
	r.Check(len(before) == len(after), "%d keys before the restart, %d after", len(before), len(after))
	for k, a := range before {
		b, ok := after[k]
		r.Check(ok && bytes.Equal(a.value, b.value) && bytes.Equal(a.next, b.next) && a.height == b.height && a.lastHeight == b.lastHeight, "key %x differs after the restart: %v -> %v", k, a, b)
	}
	for sh := range bits {
		for sn, b := range bits[sh] {
			r.Check(s.mads.datTree[sh].GetActiveBit(sn) == b, "activity bit %d of shard %d was %v before the restart", sn, sh, b)
		}
	}
	for k, p := range proofs {
		_, q, err := s.mads.GetProof([]byte(k))
		r.Check(err == nil && bytes.Equal(p, q), "proof of %x differs after the restart (%v)", k, err)
	}
	simQuiet(func() { s.mads.CheckHashConsistency() })
}

// ---------------------------------------------------------------- crashes

func copyDir(src, dst string) {
	if out, err := exec.Command("cp", "-a", src, dst).CombinedOutput(); err != nil {
		panic(fmt.Sprintf("cp: %v %s", err, out))
	}
}

type crashKV struct {
	fn func(when string)
}

// commitProbe calls back around the metadata commit.
type commitProbe struct {
	types.MetaDB
	probe func()
}

func (c *commitProbe) Commit() { c.probe(); c.MetaDB.Commit() }

func TestVerifC22(t *testing.T) {
	vfLoop(t, "C22", 12, 300, func(r *vfRun) {
		s := newSim(r, false, 10+r.Intn(30))
		defer s.close()
		big := r.Intn(2) == 0
		shard := r.Intn(8)
		for i := 0; i < 5; i++ {
			prevRoot := append([]byte{}, s.mads.GetRootHash()...)
			prevView := viewAll(s.mads)
			var prevSizes [8][2]int64
			for sh := range prevSizes {
				prevSizes[sh] = [2]int64{s.mads.meta.GetEntryFileSize(sh), s.mads.meta.GetTwigMtFileSize(sh)}
			}
			img := filepath.Join(r.Scratch(), "img")
			inner := s.mads.meta
			var mu sync.Mutex
			crashed := false
			s.mads.meta = &commitProbe{inner, func() {
				mu.Lock()
				defer mu.Unlock()
				if crashed {
					return
				}
				crashed = true
				// everything below the sizes that become durable is in the files
				for sh := 0; sh < 8; sh++ {
					e, tm := s.mads.datTree[sh].GetFileSizes()
					for j, want := range []int64{e, tm} {
						have := fileBytes(s.dir, []string{"entries", "twigmt"}[j], sh)
						r.Check(have >= want, "at commit %d bytes of file %d of shard %d are on disk, metadata will say %d", have, j, sh, want)
					}
				}
				copyDir(s.dir, img)
			}}
			ops := s.ops(r.Intn(14))
			if big {
				for j := 0; j < 500; j++ {
					ops = append(ops, simOp{key: shardKey(j, shard), value: s.value()})
				}
			}
			s.block(ops)
			s.mads.meta = inner
			r.Check(crashed, "metadata was not committed")
			r.Check(s.mads.GetCurrHeight() == s.height, "height")
			for sh := 0; sh < 8; sh++ {
				e, tm := s.mads.datTree[sh].GetFileSizes()
				r.Check(s.mads.meta.GetEntryFileSize(sh) == e && s.mads.meta.GetTwigMtFileSize(sh) == tm,
					"shard %d: durable sizes %d/%d, log sizes %d/%d", sh, s.mads.meta.GetEntryFileSize(sh), s.mads.meta.GetTwigMtFileSize(sh), e, tm)
			}
			// crash just before the commit, new file bytes present in any prefix
			for sh := 0; sh < 8; sh++ {
				for j, d := range []string{"entries", "twigmt"} {
					f := filepath.Join(img, fmt.Sprintf("%s.%d", d, sh), fmt.Sprintf("0-%d", DefaultHPFileSize))
					if st, err := os.Stat(f); err == nil && st.Size() > prevSizes[sh][j] && r.Intn(2) == 0 {
						_ = os.Truncate(f, prevSizes[sh][j]+r.Int63n(st.Size()-prevSizes[sh][j]+1))
					}
				}
			}
			r.Logf("crash before the commit of block %d", s.height)
			m := simOpen(img, false)
			r.Check(bytes.Equal(m.GetRootHash(), prevRoot), "after a crash before the commit the root is %x, previous block %x", m.GetRootHash(), prevRoot)
			v := viewAll(m)
			r.Check(len(v) == len(prevView), "after a crash %d keys, previous block %d", len(v), len(prevView))
			for k, a := range prevView {
				b := v[k]
				r.Check(bytes.Equal(a.value, b.value) && bytes.Equal(a.next, b.next) && a.height == b.height, "key %x after the crash: %v, previous block %v", k, b, a)
			}
			if r.Intn(2) == 0 { // it goes on from there
				runOps(m, ops, s.height)
				r.Check(bytes.Equal(m.GetRootHash(), s.mads.GetRootHash()), "redoing block %d after the crash gives root %x, expected %x", s.height, m.GetRootHash(), s.mads.GetRootHash())
			}
			m.Close()
			// crash just after: the new block is there
			img2 := filepath.Join(r.Scratch(), "img")
			copyDir(s.dir, img2)
			m = simOpen(img2, false)
			r.Check(bytes.Equal(m.GetRootHash(), s.mads.GetRootHash()), "after a crash behind the commit the root is %x, block %x", m.GetRootHash(), s.mads.GetRootHash())
			m.Close()
		}
	})
}

func fileBytes(dir, kind string, sh int) (n int64) {
	fs, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("%s.%d", kind, sh), "*"))
	for _, f := range fs {
		if st, err := os.Stat(f); err == nil {
			n += st.Size()
		}
	}
	return
}

// ---------------------------------------------------------------- pruning

func TestVerifC24(t *testing.T) {
	vfLoop(t, "C24", 4, 60, func(r *vfRun) {
		s := newSim(r, r.Intn(2) == 0, 10)
		defer s.close()
		shard := r.Intn(8)
		fillShard(r, s, shard, 1800+r.Intn(1000), 14+r.Intn(6))
		n := 4 + r.Intn(8)
		for round := 0; round < n; round++ {
			s.compact(shard)
		}
		twin := filepath.Join(r.Scratch(), "twin")
		if s.hist == false {
			copyDir(s.dir, twin)
		}
		for round := 0; round < 3; round++ {
			root := append([]byte{}, s.mads.GetRootHash()...)
			before := viewAll(s.mads)
			h := s.height - int64(r.Intn(3))
			if r.Intn(3) == 0 {
				h = 1 + r.Int63n(s.height)
			}
			lastBefore := s.mads.meta.GetLastPrunedTwig(shard)
			r.Logf("prune below %d (now %d)", h, s.height)
			simQuiet(func() { s.mads.PruneBeforeHeight(h) })
			last := s.mads.meta.GetLastPrunedTwig(shard)
			r.Logf("last pruned twig %d -> %d", lastBefore, last)
			for sh := 0; sh < 8; sh++ {
				r.Check(s.mads.meta.GetLastPrunedTwig(sh) < s.mads.meta.GetOldestActiveTwigID(sh), "pruned twig %d of shard %d, oldest active %d", s.mads.meta.GetLastPrunedTwig(sh), sh, s.mads.meta.GetOldestActiveTwigID(sh))
			}
			r.Check(bytes.Equal(root, s.mads.GetRootHash()), "pruning changed the root")
			s.sameView(before)
			for k := range before {
				_, _, err := s.mads.GetProof([]byte(k))
				r.Check(err == nil, "no proof for %x after pruning: %v", k, err)
			}
			if r.Intn(3) != 0 {
				s.reopen()
				r.Check(s.mads.meta.GetLastPrunedTwig(shard) == last, "last pruned twig is %d after reopening, was %d", s.mads.meta.GetLastPrunedTwig(shard), last)
				s.sameView(before)
			}
			s.block(s.ops(8))
			s.checkChain()
			if r.Intn(2) == 0 {
				s.compact(shard)
			}
			if r.Intn(2) == 0 {
				s.reopen()
			}
		}
	})
}

func (s *sim) sameView(before map[string]recView) {
	after := viewAll(s.mads)
	s.r.Check(len(before) == len(after), "%d keys before, %d after", len(before), len(after))
	for k, a := range before {
		b, ok := after[k]
		s.r.Check(ok && bytes.Equal(a.value, b.value) && bytes.Equal(a.next, b.next) && a.height == b.height && a.lastHeight == b.lastHeight, "key %x: %v -> %v", k, a, b)
	}
}
