package moeingads

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	sha256 "github.com/minio/sha256-simd"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
)

// A reference map driven in step with a real store.

type simEntry struct {
	value              []byte
	height, lastHeight int64
	sn, pos            int64
	written            int64 // height of the last Set
	obs                int   // block after which the record's fields were last read
}

type simOp struct {
	key, value []byte
	del        bool
}

type simVer struct {
	height int64
	value  []byte // nil: deleted
}

type sim struct {
	r        *vfRun
	dir      string
	hist     bool
	mads     *MoeingADS
	live     map[string]simEntry
	vers     map[string][]simVer
	height   int64
	pool     [][]byte
	blocks   int
	pruned   int64
	lastBlk  map[string]bool // keys written in the last block
	before   map[string]simEntry
	snBefore [types.ShardCount]int64
}

var simStart = []byte{0, 0, 0, 0, 0, 0, 0, 0}
var simEnd = []byte{255, 255, 255, 255, 255, 255, 255, 255}

func simQuiet(fn func()) {
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	fn()
}

func simOpen(dir string, hist bool) (m *MoeingADS) {
	simQuiet(func() {
		var err error
		m, err = NewMoeingADS(dir, hist, [][]byte{simStart, simEnd})
		if err != nil {
			panic(err)
		}
	})
	return
}

func newSim(r *vfRun, hist bool, poolSize int) *sim {
	s := &sim{r: r, dir: filepath.Join(r.Scratch(), "ads"), hist: hist, live: map[string]simEntry{}, vers: map[string][]simVer{}, pruned: -1, lastBlk: map[string]bool{}}
	style := r.Intn(3)
	seen := map[string]bool{}
	for len(s.pool) < poolSize {
		k := make([]byte, 8)
		switch style {
		case 0: // spread
			copy(k, r.Bytes(8))
			k[0] = 64 + k[0]%128
		case 1: // dense neighbours, all shards
			k[0] = byte(64 + r.Intn(3)*63)
			k[5] = byte(r.Intn(3))
			k[6] = byte(r.Intn(4))
			k[7] = byte(r.Intn(256))
		default: // one or two shards only, shared prefixes
			k[0] = 100
			k[4] = byte(r.Intn(2) * 255)
			k[5], k[6] = byte(r.Intn(256)), byte(r.Intn(256))
			k[7] = byte(r.Intn(2)*32 + r.Intn(4))
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			s.pool = append(s.pool, k)
		}
	}
	s.mads = simOpen(s.dir, hist)
	r.Logf("new store hist=%v pool=%d style=%d", hist, poolSize, style)
	return s
}

func (s *sim) value() []byte {
	r := s.r
	switch r.Intn(8) {
	case 0:
		return append([]byte{}, datatree.MagicBytes[:]...)
	case 1:
		return append(append(r.Bytes(r.Intn(9)), datatree.MagicBytes[:]...), r.Bytes(r.Intn(9))...)
	case 2:
		return append(append([]byte{1}, datatree.MagicBytes[:5]...), datatree.MagicBytes[:]...)
	}
	return append(r.Bytes(1+r.Intn(40)), byte(1+r.Intn(255)))
}

// ops draws a random block; a key may appear more than once.
func (s *sim) ops(n int) []simOp {
	var res []simOp
	for i := 0; i < n; i++ {
		k := s.pool[s.r.Intn(len(s.pool))]
		if len(res) > 0 && s.r.Intn(8) == 0 {
			k = res[s.r.Intn(len(res))].key
		}
		if s.r.Intn(3) == 0 {
			res = append(res, simOp{key: k, del: true})
		} else {
			res = append(res, simOp{key: k, value: s.value()})
		}
	}
	return res
}

func opStr(ops []simOp) string {
	var b bytes.Buffer
	for i, o := range ops {
		if i > 40 {
			fmt.Fprintf(&b, " ...%d more", len(ops)-i)
			break
		}
		if o.del {
			fmt.Fprintf(&b, " del(%x)", o.key)
		} else {
			fmt.Fprintf(&b, " set(%x)", o.key)
		}
	}
	return b.String()
}

func runOps(m *MoeingADS, ops []simOp, height int64) {
	for _, o := range ops {
		if o.del {
			m.PrepareForDeletion(o.key)
		} else {
			m.PrepareForUpdate(o.key)
		}
	}
	m.BeginWrite(height)
	for _, o := range ops {
		if o.del {
			m.Delete(o.key)
		} else {
			m.Set(o.key, append([]byte{}, o.value...))
		}
	}
	m.EndWrite()
}

func (s *sim) block(ops []simOp) {
	s.height += 1 + int64(s.r.Intn(2))
	s.blocks++
	s.r.Logf("block %d:%s", s.height, opStr(ops))
	s.before = map[string]simEntry{}
	for k, e := range s.live {
		s.before[k] = e
	}
	for i := range s.snBefore {
		s.snBefore[i] = s.mads.meta.GetMaxSerialNum(i)
	}
	runOps(s.mads, ops, s.height)
	s.apply(ops)
}

func (s *sim) apply(ops []simOp) {
	s.lastBlk = map[string]bool{}
	last := map[string]simOp{}
	for _, o := range ops {
		last[string(o.key)] = o
	}
	for k, o := range last {
		old, had := s.live[k]
		if o.del {
			if had {
				delete(s.live, k)
				s.vers[k] = append(s.vers[k], simVer{s.height, nil})
				s.lastBlk[k] = true
			}
			continue
		}
		s.lastBlk[k] = true
		e := simEntry{value: o.value, written: s.height}
		e.height, e.lastHeight, e.sn, e.pos, e.obs = old.height, old.lastHeight, old.sn, old.pos, old.obs
		s.live[k] = e
		s.vers[k] = append(s.vers[k], simVer{s.height, o.value})
	}
}

func (s *sim) sortedLive() []string {
	ks := make([]string, 0, len(s.live))
	for k := range s.live {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkChain: C12.
func (s *sim) checkChain() {
	ks := s.sortedLive()
	r := s.r
	all := append([]string{string(simStart)}, ks...)
	for i, k := range all {
		next := string(simEnd)
		if i+1 < len(all) {
			next = all[i+1]
		}
		e := s.mads.GetEntry([]byte(k))
		r.Check(e != nil, "height %d: live key %x cannot be found", s.height, k)
		r.Check(string(e.Key) == k, "height %d: entry of %x has key %x", s.height, k, e.Key)
		r.Check(string(e.NextKey) == next, "height %d: next key of %x is %x, smallest live key above it is %x", s.height, k, e.NextKey, next)
	}
	e := s.mads.GetEntry(simEnd)
	r.Check(e != nil && bytes.Equal(e.NextKey, simEnd), "end guard broken: %v", e)
	// walking the chain visits exactly the live keys
	k, n := string(simStart), 0
	for k != string(simEnd) {
		e := s.mads.GetEntry([]byte(k))
		r.Check(e != nil, "chain leads to %x which does not exist", k)
		k = string(e.NextKey)
		n++
		r.Check(n <= len(ks)+1, "chain visits more than the %d live keys", len(ks))
	}
	r.Check(n == len(ks)+1, "chain visits %d keys, live %d", n-1, len(ks))
	r.Check(s.mads.ActiveCount() == len(ks)+2, "index holds %d keys, live %d", s.mads.ActiveCount(), len(ks))
	for i := 0; i < 20 && i < len(s.pool); i++ {
		k := s.pool[r.Intn(len(s.pool))]
		if _, ok := s.live[string(k)]; !ok {
			r.Check(s.mads.GetEntry(k) == nil, "height %d: absent key %x is found", s.height, k)
		}
	}
	s.mads.CheckConsistency()
}

// checkRecords: C13.
func (s *sim) checkRecords() {
	r := s.r
	bySn := map[string]string{}
	for k, m := range s.live {
		e := s.mads.GetEntry([]byte(k))
		r.Check(e != nil, "height %d: live key %x cannot be found", s.height, k)
		r.Check(bytes.Equal(e.Value, m.value), "height %d: key %x has value %x, last set %x", s.height, k, e.Value, m.value)
		r.Check(e.Height >= m.written, "key %x: height %d, but it was set at %d", k, e.Height, m.written)
		sh := types.GetShardID([]byte(k))
		id := fmt.Sprintf("%d/%d", sh, e.SerialNum)
		r.Check(bySn[id] == "", "keys %x and %x share serial number %s", k, bySn[id], id)
		bySn[id] = k
		r.Check(e.SerialNum < s.mads.meta.GetMaxSerialNum(sh), "key %x has serial number %d beyond the counter", k, e.SerialNum)
		r.Check(s.mads.datTree[sh].GetActiveBit(e.SerialNum), "record %s of key %x is not active", id, k)
		pos, ok := s.mads.idxTree.Get([]byte(k))
		r.Check(ok, "key %x not indexed", k)
		if old, had := s.before[k]; had && old.obs != s.blocks-1 {
			// fields not read after the previous block: nothing to compare with
		} else if had {
			if e.SerialNum == old.sn {
				r.Check(e.Height == old.height && e.LastHeight == old.lastHeight && pos == old.pos,
					"key %x kept its record but height/last/pos changed: %d/%d/%d -> %d/%d/%d", k, old.height, old.lastHeight, old.pos, e.Height, e.LastHeight, pos)
				r.Check(!s.lastBlk[k], "key %x was set in block %d but kept its record", k, s.height)
			} else if s.lastBlk[k] {
				r.Check(e.Height == s.height && e.LastHeight == old.height, "key %x set at %d (before: %d) records height %d, last height %d", k, s.height, old.height, e.Height, e.LastHeight)
			} else if e.Height != old.height { // touched because a neighbour changed
				r.Check(e.Height == s.height && e.LastHeight == old.height, "touched key %x at %d (before: %d) records height %d, last height %d", k, s.height, old.height, e.Height, e.LastHeight)
				r.Check(s.neighbourChanged(k), "key %x was rewritten at height %d though neither it nor its next key was written", k, s.height)
			} else { // moved by compaction
				r.Check(e.LastHeight == old.lastHeight, "moved key %x changed last height %d -> %d", k, old.lastHeight, e.LastHeight)
			}
		} else if s.lastBlk[k] {
			r.Check(e.Height == s.height, "new key %x set at %d records height %d", k, s.height, e.Height)
			r.Check(e.LastHeight == 0, "new key %x records last height %d", k, e.LastHeight)
		}
		m.height, m.lastHeight, m.sn, m.pos = e.Height, e.LastHeight, e.SerialNum, pos
		m.obs = s.blocks
		s.live[k] = m
	}
	// every active bit belongs to exactly one live key or guard
	g := s.mads.GetEntry(simStart)
	bySn[fmt.Sprintf("0/%d", g.SerialNum)] = "start"
	g = s.mads.GetEntry(simEnd)
	bySn[fmt.Sprintf("%d/%d", types.GetShardID(simEnd), g.SerialNum)] = "end"
	for sh := 0; sh < types.ShardCount; sh++ {
		lo := s.mads.meta.GetOldestActiveTwigID(sh) * datatree.LeafCountInTwig
		for sn := lo; sn < s.mads.meta.GetMaxSerialNum(sh); sn++ {
			if s.mads.datTree[sh].GetActiveBit(sn) {
				r.Check(bySn[fmt.Sprintf("%d/%d", sh, sn)] != "", "height %d: record %d of shard %d is active but no live key has it", s.height, sn, sh)
			}
		}
	}
}

// neighbourChanged reports whether a key between k and its next live key
// (before or after the block) was written in the last block.
func (s *sim) neighbourChanged(k string) bool {
	hi := string(simEnd)
	for x := range s.before {
		if x > k && x < hi {
			if _, still := s.live[x]; still && !s.lastBlk[x] {
				hi = x
			}
		}
	}
	for x := range s.lastBlk {
		if x > k && x < hi {
			return true
		}
	}
	return s.extraTouched(k, hi)
}

func (s *sim) extraTouched(k, hi string) bool {
	for _, x := range s.pool { // set then deleted in the same block
		if string(x) > k && string(x) < hi {
			if _, ok := s.live[string(x)]; !ok {
				return true
			}
		}
	}
	return false
}

func simRoot(m *MoeingADS) []byte {
	var cur [][]byte
	for i := 0; i < 8; i++ {
		h := m.meta.GetRootHash(i)
		cur = append(cur, append([]byte{}, h[:]...))
	}
	for len(cur) > 1 {
		var nx [][]byte
		for i := 0; i < len(cur); i += 2 {
			h := sha256.Sum256(append(append([]byte{}, cur[i]...), cur[i+1]...))
			nx = append(nx, append([]byte{}, h[:]...))
		}
		cur = nx
	}
	return cur[0]
}

func (s *sim) checkSerials() {
	for i := range s.snBefore {
		now := s.mads.meta.GetMaxSerialNum(i)
		s.r.Check(now >= s.snBefore[i], "serial counter of shard %d went back", i)
	}
}

func (s *sim) close() {
	if s.mads != nil {
		s.mads.Close()
		s.mads = nil
	}
}

func (s *sim) reopen() {
	s.r.Logf("close and reopen")
	root := append([]byte{}, s.mads.GetRootHash()...)
	s.mads.Close()
	s.mads = simOpen(s.dir, s.hist)
	s.r.Check(bytes.Equal(root, s.mads.GetRootHash()), "root after reopening %x, before %x", s.mads.GetRootHash(), root)
	s.before = map[string]simEntry{}
	s.lastBlk = map[string]bool{}
}

func (s *sim) at(k string, h int64) []byte {
	var res []byte
	for _, v := range s.vers[k] {
		if v.height <= h {
			res = v.value
		}
	}
	return res
}

func u64(b []byte) uint64 { return binary.BigEndian.Uint64(b) }
