package datatree

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"testing"

	sha256 "github.com/minio/sha256-simd"
)

func vfQuiet(fn func()) {
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	fn()
}

// ------------------------------------------------------------ entries

// strings made of magic bytes, parts of them, and noise
func vfStr(r *vfRun) []byte {
	var b []byte
	for n := r.Intn(6); n > 0; n-- {
		switch r.Intn(7) {
		case 0, 1:
			b = append(b, MagicBytes[:]...)
		case 2:
			b = append(b, MagicBytes[:r.Intn(9)]...)
		case 3:
			b = append(b, MagicBytes[r.Intn(8):]...)
		case 4:
			b = append(b, make([]byte, r.Intn(10))...)
		case 5:
			b = append(b, 255, 255, 255, 255)
		default:
			b = append(b, r.Bytes(r.Intn(20))...)
		}
	}
	if r.Intn(40) == 0 {
		b = append(b, r.Bytes(3000)...)
	}
	if r.Intn(40) == 0 {
		for i := 0; i < 64; i++ {
			b = append(b, MagicBytes[:]...)
		}
	}
	return b
}

func vfEntry(r *vfRun, sn int64) *Entry {
	num := func() int64 {
		switch r.Intn(5) {
		case 0:
			return int64(r.Intn(100))
		case 1:
			return int64(binary.LittleEndian.Uint64(MagicBytes[:]))
		case 2:
			return -1 - int64(r.Intn(3))
		}
		return int64(r.Uint64())
	}
	k := vfStr(r)
	if len(k) < 8 {
		k = append(k, r.Bytes(8-len(k))...)
	}
	n := vfStr(r)
	if len(n) < 8 {
		n = append(n, r.Bytes(8-len(n))...)
	}
	return &Entry{Key: k, Value: vfStr(r), NextKey: n, Height: num(), LastHeight: num(), SerialNum: sn}
}

func vfSNs(r *vfRun) []int64 {
	n := r.Intn(5)
	switch r.Intn(12) {
	case 0:
		n = DeactivedSNListMaxLen
	case 1:
		n = 255
	case 2:
		n = 128 + r.Intn(127)
	case 3, 4:
		n = 0
	}
	l := make([]int64, n)
	for i := range l {
		l[i] = int64(r.Uint64())
		if r.Intn(6) == 0 {
			l[i] = int64(binary.LittleEndian.Uint64(MagicBytes[:]))
		}
	}
	return l
}

func vfSameEntry(a, b *Entry) bool {
	return bytes.Equal(a.Key, b.Key) && bytes.Equal(a.Value, b.Value) && bytes.Equal(a.NextKey, b.NextKey) &&
		a.Height == b.Height && a.LastHeight == b.LastHeight && a.SerialNum == b.SerialNum
}

func vfSameSNs(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vfEntryFile(r *vfRun, small bool) *EntryFile {
	bs := 64 * 1024
	if small {
		bs = 1 << (15 + r.Intn(2))
	}
	ef, err := NewEntryFile(bs, bs*(1+r.Intn(3)), r.Scratch())
	if err != nil {
		panic(err)
	}
	return &ef
}

func TestVerifC01(t *testing.T) {
	vfLoop(t, "C01", 400, 8000, func(r *vfRun) {
		ef := vfEntryFile(r, true)
		defer ef.Close()
		type rec struct {
			e   *Entry
			sns []int64
			pos int64
		}
		var recs []rec
		for i := 0; i < 60; i++ {
			e, sns := vfEntry(r, int64(r.Intn(1<<20))), vfSNs(r)
			bz := EntryToBytes(*e, sns)
			if r.Intn(2) == 0 {
				recs = append(recs, rec{e, sns, ef.Append([2][]byte{bz, nil})})
			} else {
				n := len(bz) - 8*len(sns)
				recs = append(recs, rec{e, sns, ef.Append([2][]byte{append([]byte{}, bz[:n]...), SNListToBytes(sns)})})
			}
			r.Check(bytes.Equal(bz[len(bz)-8*len(sns):], SNListToBytes(sns)), "serial-number list is not the end of the bytes")
		}
		ef.Flush()
		for i, x := range recs {
			r.Logf("record %d at %d key %x value %x next %x sns %d", i, x.pos, x.e.Key, x.e.Value, x.e.NextKey, len(x.sns))
			e, sns, next := ef.ReadEntryAndSNList(x.pos)
			r.Check(vfSameEntry(e, x.e), "entry %d read back differs: %v, written %v", i, e, x.e)
			r.Check(vfSameSNs(sns, x.sns), "serial numbers of entry %d read back differ: %v, written %v", i, sns, x.sns)
			if i+1 < len(recs) && recs[i+1].pos/int64(ef.blockSize) == x.pos/int64(ef.blockSize) {
				r.Check(next == recs[i+1].pos, "next position after entry %d is %d, written at %d", i, next, recs[i+1].pos)
			}
			r.Check(vfSameEntry(ef.ReadEntry(x.pos), x.e), "ReadEntry %d differs", i)
			var magic [8]byte
			if err := ef.HPFile.ReadAt(magic[:], x.pos, false); err != nil || magic != MagicBytes {
				r.Failf("no magic bytes before entry %d", i)
			}
			// no magic bytes between the header and the integers
			raw := ef.ReadEntryBytesForProof(x.pos)
			stop := len(raw) - 24 - 8*len(x.sns)
			r.Check(bytes.Index(raw[8:stop-0], MagicBytes[:]) < 0 || bytes.Index(raw[8:stop], MagicBytes[:])+16 >= stop, "magic bytes inside entry %d", i)
		}
		// scanning from the first record visits all, up to a segment boundary
		pos := recs[0].pos
		for i := 0; i < len(recs) && recs[i].pos/int64(ef.blockSize) == 0; i++ {
			r.Check(pos == recs[i].pos, "scan reaches %d, record %d is at %d", pos, i, recs[i].pos)
			_, pos = ef.ReadEntryRawBytes(pos)
		}
	})
}

func TestVerifC02(t *testing.T) {
	vfLoop(t, "C02", 400, 8000, func(r *vfRun) {
		ef := vfEntryFile(r, true)
		defer ef.Close()
		for i := 0; i < 60; i++ {
			e, sns := vfEntry(r, int64(r.Uint64()>>1)), vfSNs(r)
			bz := EntryToBytes(*e, sns)
			r.Logf("entry %d key %x value %x next %x sns %d", i, e.Key, e.Value, e.NextKey, len(sns))
			pos := ef.Append([2][]byte{append([]byte{}, bz...), nil})
			ef.Flush()
			r.Check(bytes.Equal(ef.ReadEntryBytesForProof(pos), bz), "bytes for proof differ from the bytes that were hashed")
			raw, next := ef.ReadEntryRawBytes(pos)
			r.Check(next == getNextPos(pos, int64(len(bz))-4), "next position %d", next)
			r.Check(bytes.Equal(ExtractKeyFromRawBytes(raw), e.Key), "key from raw bytes %x, key %x", ExtractKeyFromRawBytes(raw), e.Key)
			r.Check(ExtractSerialNum(raw) == e.SerialNum, "serial number from raw bytes %d, %d", ExtractSerialNum(raw), e.SerialNum)
			sn2, list2 := int64(r.Uint64()>>1), vfSNs(r)
			UpdateSerialNum(raw, sn2)
			raw[0] = byte(len(list2))
			e2 := *e
			e2.SerialNum = sn2
			got := append(append([]byte{}, raw...), SNListToBytes(list2)...)
			want := EntryToBytes(e2, list2)
			r.Check(bytes.Equal(got, want), "re-numbered raw bytes %x, encoding %x", got, want)
		}
	})
}

// ------------------------------------------------------------ log file

func TestVerifC03(t *testing.T) {
	vfLoop(t, "C03", 400, 8000, func(r *vfRun) {
		dir := r.Scratch()
		buf := 64 << r.Intn(5)
		block := buf * (1 + r.Intn(4))
		open := func() *HPFile {
			f, err := NewHPFile(buf, block, dir)
			if err != nil {
				r.Failf("open: %v", err)
			}
			f.InitPreReader()
			return f
		}
		f := open()
		r.Logf("buffer %d block %d", buf, block)
		type chunk struct {
			pos  int64
			data []byte
		}
		var chunks []chunk
		size, pruned, flushed := int64(0), int64(0), 0
		for step := 0; step < 80; step++ {
			switch k := r.Intn(16); {
			case k < 10:
				var parts [][]byte
				var all []byte
				left := buf
				for n := 1 + r.Intn(4); n > 0; n-- {
					m := r.Intn(left/2 + 1)
					if r.Intn(6) == 0 {
						m = left
					}
					left -= m
					p := r.Bytes(m)
					parts = append(parts, p)
					all = append(all, p...)
				}
				pos, err := f.Append(parts)
				if err != nil {
					r.Failf("append: %v", err)
				}
				r.Logf("append %d bytes at %d", len(all), pos)
				r.Check(pos == size, "append returned position %d, size was %d", pos, size)
				size += int64(len(all))
				r.Check(f.Size() == size, "size %d after appending, expected %d", f.Size(), size)
				if len(all) > 0 {
					chunks = append(chunks, chunk{pos, all})
				}
			case k == 10:
				r.Logf("flush")
				f.Flush()
				flushed = len(chunks)
			case k == 11:
				r.Logf("start flushing")
				f.StartFlushing()
				f.WaitForFlushing()
				flushed = len(chunks)
			case k == 12 && len(chunks) > 0:
				f.Flush()
				i := r.Intn(len(chunks))
				at := chunks[i].pos
				if at/int64(block) < pruned/int64(block) {
					continue
				}
				r.Logf("truncate to %d", at)
				if err := f.Truncate(at); err != nil {
					r.Failf("truncate: %v", err)
				}
				chunks = chunks[:i]
				size, flushed = at, len(chunks)
				r.Check(f.Size() == size, "size %d after truncating to %d", f.Size(), size)
				if r.Intn(2) == 0 { // as recovery does it: on a fresh handle
					_ = f.Close()
					f = open()
				} else {
					f.InitPreReader()
				}
			case k == 13:
				r.Logf("reopen")
				f.Flush()
				if err := f.Close(); err != nil {
					r.Failf("close: %v", err)
				}
				f = open()
				flushed = len(chunks)
				r.Check(f.Size() == size, "size %d after reopening, was %d", f.Size(), size)
			case k == 14 && r.Intn(3) == 0 && len(chunks) > 0:
				f.Flush()
				flushed = len(chunks)
				off := chunks[r.Intn(len(chunks))].pos
				r.Logf("prune below %d", off)
				if err := f.PruneHead(off); err != nil {
					r.Failf("prune: %v", err)
				}
				if off > pruned {
					pruned = off
				}
				r.Check(f.Size() == size, "size %d after pruning, was %d", f.Size(), size)
				for id := int64(0); id < pruned/int64(block); id++ {
					_, err := os.Stat(fmt.Sprintf("%s/%d-%d", dir, id, block))
					r.Check(err != nil, "segment %d still exists after pruning below %d", id, pruned)
				}
			}
			for n := 0; n < 4 && flushed > 0; n++ {
				c := chunks[r.Intn(flushed)]
				if c.pos/int64(block) < pruned/int64(block) {
					continue
				}
				i := r.Intn(len(c.data))
				j := i + 1 + r.Intn(len(c.data)-i)
				if (c.pos+int64(i))/int64(block) != c.pos/int64(block) {
					continue // starts beyond the end of the segment
				}
				b := make([]byte, j-i)
				wb := r.Intn(2) == 0
				err := f.ReadAt(b, c.pos+int64(i), wb)
				r.Check(err == nil, "read %d bytes at %d (buffered %v): %v", j-i, c.pos+int64(i), wb, err)
				r.Check(bytes.Equal(b, c.data[i:j]), "read %d bytes at %d (buffered %v): %x, written %x", j-i, c.pos+int64(i), wb, b, c.data[i:j])
			}
		}
		// everything that was appended and neither truncated nor pruned
		f.Flush()
		for _, c := range chunks {
			if c.pos/int64(block) < pruned/int64(block) {
				continue
			}
			b := make([]byte, len(c.data))
			err := f.ReadAt(b, c.pos, false)
			r.Check(err == nil && bytes.Equal(b, c.data), "read %d bytes at %d: %v %x, written %x", len(b), c.pos, err, b, c.data)
		}
		_ = f.Close()
	})
}

// ------------------------------------------------------------ twig file

func vfMT(r *vfRun) (mt [4096][32]byte) {
	for i := 2048; i < 4096; i++ {
		r.Read(mt[i][:])
	}
	level := byte(0)
	for base := 1024; base >= 1; base >>= 1 {
		for i := base; i < 2*base; i++ {
			copy(mt[i][:], vfH2(level, mt[2*i][:], mt[2*i+1][:]))
		}
		level++
	}
	return
}

func vfH2(level byte, a, b []byte) []byte {
	h := sha256.Sum256(append(append([]byte{level}, a...), b...))
	return h[:]
}

func TestVerifC04(t *testing.T) {
	vfLoop(t, "C04", 60, 1200, func(r *vfRun) {
		buf := 1024 << r.Intn(4)
		block := buf * (3 + r.Intn(60))
		dir := r.Scratch()
		tf, err := NewTwigMtFile(buf, block, dir)
		if err != nil {
			panic(err)
		}
		var mts [][4096][32]byte
		var first []int64
		for i := 0; i < 3; i++ {
			mts = append(mts, vfMT(r))
			first = append(first, int64(r.Uint64()>>1))
			tf.AppendTwig(mts[i][1:], first[i])
			r.Check(tf.Size() == int64(i+1)*TwigMtSize, "size %d after %d twigs", tf.Size(), i+1)
		}
		tf.Flush()
		if r.Intn(2) == 0 {
			tf.Close()
			tf, err = NewTwigMtFile(buf, block, dir)
			if err != nil {
				panic(err)
			}
		}
		for i := range mts {
			p := tf.GetFirstEntryPos(int64(i))
			r.Check(p == first[i], "first entry position of twig %d is %d, stored %d", i, p, first[i])
			for n := 0; n < 600; n++ {
				id := 1 + r.Intn(4095)
				if n < 300 {
					id = 256 + r.Intn(1792)
				}
				cache := map[int][]byte{}
				h := tf.GetHashNode(int64(i), id, cache)
				r.Check(bytes.Equal(h, mts[i][id][:]), "node %d of twig %d is %x, stored %x", id, i, h, mts[i][id][:])
				for k, v := range cache {
					r.Check(bytes.Equal(v, mts[i][k][:]), "cached node %d of twig %d is %x, stored %x", k, i, v, mts[i][k][:])
				}
			}
			sn := int64(r.Intn(2048))
			a, b := getLeftPathOnDisk(&tf, int64(i), sn), getLeftPathInMem(mts[i], sn)
			r.Check(a == b, "left path of %d in twig %d from disk differs from memory", sn, i)
		}
		tf.Close()
	})
}

// ------------------------------------------------------------ tree

type vfTree struct {
	r      *vfRun
	tree   *Tree
	dir    string
	buf    int
	block  int
	leaf   [][32]byte // hash of every appended entry
	enc    [][]byte
	pos    []int64
	active []bool
	first  map[int64]int64
	oldest int64
	pruned int64 // first twig kept
	edges  []byte
	null   [32]byte
	pend   []int64
}

func newVfTree(r *vfRun) *vfTree {
	v := &vfTree{r: r, dir: r.Scratch(), buf: 4096 << r.Intn(4), first: map[int64]int64{}}
	v.block = v.buf * (4 + r.Intn(40))
	v.tree = NewEmptyTree(v.buf, v.block, v.dir, "")
	v.null = sha256.Sum256(EntryToBytes(NullEntry(), nil))
	r.Logf("tree buffer %d block %d", v.buf, v.block)
	return v
}

func (v *vfTree) append(kind int) {
	sn := int64(len(v.leaf))
	r := v.r
	list := append([]int64{}, v.pend...)
	var e *Entry
	if kind == 0 {
		e = DummyEntry(sn)
	} else {
		e = &Entry{Key: r.Bytes(8 + r.Intn(4)), Value: vfStr(r), NextKey: r.Bytes(8), Height: int64(r.Intn(1000)), LastHeight: int64(r.Intn(1000)), SerialNum: sn}
	}
	if len(e.Value) > 600 {
		e.Value = e.Value[:600]
	}
	r.Check(v.tree.DeactivedSNListSize() == len(list), "%d pending deactivations, expected %d", v.tree.DeactivedSNListSize(), len(list))
	want := EntryToBytes(*e, list)
	var pos int64
	if kind == 2 {
		pos = v.tree.AppendEntryRawBytes(EntryToBytes(*e, nil), sn)
	} else {
		pos = v.tree.AppendEntry(e)
	}
	r.Check(v.tree.DeactivedSNListSize() == 0, "pending deactivations not cleared")
	v.pend = nil
	if sn&TwigMask == 0 {
		v.first[sn>>TwigShift] = pos
	}
	v.leaf = append(v.leaf, sha256.Sum256(want))
	v.enc = append(v.enc, want)
	v.pos = append(v.pos, pos)
	v.active = append(v.active, kind != 0)
}

func (v *vfTree) deactivate(sn int64) {
	v.tree.DeactiviateEntry(sn)
	v.active[sn] = false
	v.pend = append(v.pend, sn)
	if len(v.pend) >= DeactivedSNListMaxLen {
		v.append(0)
	}
}

func (v *vfTree) youngest() int64 { return int64(len(v.leaf)) >> TwigShift }

// naive tree
func (v *vfTree) mt(twig int64) (mt [4096][32]byte) {
	for i := 0; i < 2048; i++ {
		sn := int(twig)*2048 + i
		if sn < len(v.leaf) {
			mt[2048+i] = v.leaf[sn]
		} else {
			mt[2048+i] = v.null
		}
	}
	level := byte(0)
	for base := 1024; base >= 1; base >>= 1 {
		for i := base; i < 2*base; i++ {
			copy(mt[i][:], vfH2(level, mt[2*i][:], mt[2*i+1][:]))
		}
		level++
	}
	return
}

func (v *vfTree) bitTree(twig int64) (bits [256]byte, l1 [4][32]byte, l2 [2][32]byte, l3 [32]byte) {
	for i := 0; i < 2048; i++ {
		sn := int(twig)*2048 + i
		if sn < len(v.active) && v.active[sn] {
			bits[i/8] |= 1 << (i % 8)
		}
	}
	for i := 0; i < 4; i++ {
		copy(l1[i][:], vfH2(8, bits[64*i:64*i+32], bits[64*i+32:64*i+64]))
	}
	for i := 0; i < 2; i++ {
		copy(l2[i][:], vfH2(9, l1[2*i][:], l1[2*i+1][:]))
	}
	copy(l3[:], vfH2(10, l2[0][:], l2[1][:]))
	return
}

// the reference tree of every twig, remembered once it is full
type vfRef struct{ roots map[int64][32]byte }

func (v *vfTree) nullTop() (b []byte) {
	mt := [][32]byte{v.null}
	h := v.null[:]
	for l := 0; l < 11; l++ {
		h = vfH2(byte(l), h, h)
	}
	_ = mt
	z := make([]byte, 32)
	a := vfH2(8, z, z)
	a = vfH2(9, a, a)
	a = vfH2(10, a, a)
	return vfH2(11, h, a)
}

func (v *vfTree) root(twigRoot func(n int64) []byte) (root []byte, nodes map[[2]int64][]byte) {
	y := v.youngest()
	maxLevel := int64(FirstLevelAboveTwig) + 63 - int64(bits.LeadingZeros64(uint64(y)))
	nodes = map[[2]int64][]byte{}
	nt := v.nullTop()
	nulls := map[int64][]byte{12: nt}
	for l := int64(13); l < 64; l++ {
		nulls[l] = vfH2(byte(l-1), nulls[l-1], nulls[l-1])
	}
	var rec func(level, n int64) []byte
	rec = func(level, n int64) (h []byte) {
		if n<<uint(level-12) > y {
			if level == 12 {
				return nt
			}
			return nulls[level+1] // the padding this tree uses at its right edge
		}
		if level == 12 {
			h = twigRoot(n)
		} else {
			h = vfH2(byte(level-1), rec(level-1, 2*n), rec(level-1, 2*n+1))
		}
		nodes[[2]int64{level, n}] = h
		return
	}
	root = rec(maxLevel, 0)
	return
}

func (v *vfTree) check(root [32]byte, ref map[int64][4096][32]byte) {
	r, tree, y := v.r, v.tree, v.youngest()
	r.Check(tree.youngestTwigID == y, "youngest twig %d, expected %d", tree.youngestTwigID, y)
	// C05
	for i := 0; i < 200; i++ {
		sn := v.oldest*2048 + r.Int63n(int64(len(v.leaf))-v.oldest*2048)
		r.Check(tree.GetActiveBit(sn) == v.active[sn], "activity bit of %d is %v", sn, tree.GetActiveBit(sn))
	}
	roots := map[int64][]byte{}
	for id := int64(0); id <= y; id++ {
		mt, ok := ref[id]
		if !ok {
			mt = v.mt(id)
			if id < y {
				ref[id] = mt
			}
		}
		b, l1, l2, l3 := v.bitTree(id)
		roots[id] = vfH2(11, mt[1][:], l3[:])
		tw, act := tree.activeTwigs[id]
		r.Check(act == (id >= v.oldest), "twig %d in memory: %v (oldest %d)", id, act, v.oldest)
		if act { // C06, C07
			r.Check(tw.activeBits == b, "activity bits of twig %d differ", id)
			r.Check(tw.activeBitsMTL1 == l1 && tw.activeBitsMTL2 == l2 && tw.activeBitsMTL3 == l3, "activity-bit hashes of twig %d are stale", id)
			r.Check(tw.leftRoot == mt[1], "left root of twig %d is stale", id)
			r.Check(bytes.Equal(tw.twigRoot[:], roots[id]), "root of twig %d is stale", id)
			if _, ok := v.first[id]; ok {
				r.Check(tw.FirstEntryPos == v.first[id], "first position of twig %d is %d, expected %d", id, tw.FirstEntryPos, v.first[id])
			}
		}
		if id == y {
			for i := 1; i < 4096; i++ {
				r.Check(tree.mtree4YoungestTwig[i] == mt[i], "node %d of the youngest twig is stale", i)
			}
		}
	}
	want, nodes := v.root(func(n int64) []byte { return roots[n] })
	r.Check(bytes.Equal(root[:], want), "root %x, recomputed %x (youngest %d oldest %d)", root, want, y, v.oldest)
	for k, h := range nodes {
		if k[0] == 12 {
			continue
		}
		p, ok := tree.nodes[Pos(int(k[0]), k[1])]
		if (k[1]+1)<<uint(k[0]-12) > v.oldest { // some twig below it is active
			r.Check(ok, "node %d-%d is missing", k[0], k[1])
		}
		if ok {
			r.Check(bytes.Equal(p[:], h), "node %d-%d is stale", k[0], k[1])
		}
	}
}

func (v *vfTree) proofs(root [32]byte, n int) {
	r := v.r
	for i := 0; i < n; i++ {
		lo := v.pruned * 2048
		sn := lo + r.Int63n(int64(len(v.leaf))-lo)
		if r.Intn(3) == 0 && int64(len(v.leaf)) < (v.youngest()+1)*2048 { // not yet written
			sn = int64(len(v.leaf)) + r.Int63n((v.youngest()+1)*2048-int64(len(v.leaf)))
		}
		leaf, enc := v.null, EntryToBytes(NullEntry(), nil)
		act := false
		if sn < int64(len(v.leaf)) {
			leaf, enc, act = v.leaf[sn], v.enc[sn], v.active[sn]
		}
		path := v.tree.GetProof(sn)
		r.Check(path != nil, "no proof for %d", sn)
		r.Check(path.Root == root, "proof of %d has root %x, tree %x", sn, path.Root, root)
		r.Check(path.SerialNum == sn, "proof of %d is for %d", sn, path.SerialNum)
		r.Check(path.LeftOfTwig[0].SelfHash == leaf, "proof of %d has leaf %x, entry hashes to %x", sn, path.LeftOfTwig[0].SelfHash, leaf)
		bit := path.RightOfTwig[0].SelfHash[(sn%256)/8]>>(uint(sn)%8)&1 == 1
		r.Check(bit == act, "proof of %d shows activity %v", sn, bit)
		bz, err := v.tree.GetProofBytesAndCheck(sn, enc)
		r.Check(err == nil, "proof of %d does not check: %v", sn, err)
		r.Check(len(bz) == 8+32*(len(path.UpperPath)+OtherNodeCount), "length of proof %d", len(bz))
		vfCheckProofBytes(r, bz, sn, leaf, root)
		p2, err := BytesToProofPath(bz)
		r.Check(err == nil, "decode: %v", err)
		r.Check(bytes.Equal(p2.ToBytes(), bz), "re-encoding of the proof of %d differs", sn)
		r.Check(p2.Check(true) == nil, "decoded proof of %d is rejected", sn)
		r.Check(p2.Check(false) == nil, "completed proof of %d is rejected", sn)
		// the completed path is the original one
		r.Check(p2.LeftOfTwig == path.LeftOfTwig && p2.RightOfTwig == path.RightOfTwig && p2.Root == path.Root && p2.SerialNum == sn, "decoded proof of %d differs", sn)
		for j := range path.UpperPath {
			r.Check(p2.UpperPath[j] == path.UpperPath[j], "upper node %d of the proof of %d differs", j, sn)
		}
		// any change of a hash is rejected
		x := append([]byte{}, bz...)
		j := 8 + r.Intn(len(x)-8)
		x[j] ^= 1 << uint(r.Intn(8))
		p3, err := BytesToProofPath(x)
		r.Check(err != nil || p3.Check(true) != nil, "proof of %d with byte %d changed is accepted", sn, j)
		p4 := *path
		p4.UpperPath = append([]ProofNode{}, path.UpperPath...)
		var nd *ProofNode
		switch k := r.Intn(14 + len(p4.UpperPath)); {
		case k < 11:
			nd = &p4.LeftOfTwig[k]
		case k < 14:
			nd = &p4.RightOfTwig[k-11]
		default:
			nd = &p4.UpperPath[k-14]
		}
		switch r.Intn(3) {
		case 0:
			nd.SelfHash[r.Intn(32)] ^= 4
		case 1:
			nd.PeerHash[r.Intn(32)] ^= 4
		default:
			if nd.PeerHash != nd.SelfHash {
				nd.PeerAtLeft = !nd.PeerAtLeft
			} else {
				nd.SelfHash[3] ^= 8
			}
		}
		r.Check(p4.Check(false) != nil, "changed proof of %d is accepted", sn)
		if len(enc) > 0 {
			y := append([]byte{}, enc...)
			y[r.Intn(len(y))] ^= 2
			_, err = v.tree.GetProofBytesAndCheck(sn, y)
			r.Check(err != nil, "proof of %d accepts other entry bytes", sn)
		}
	}
	r.Check(v.tree.GetProof((v.youngest()+1)*2048) == nil, "proof beyond the youngest twig")
	r.Check(v.tree.GetProof(-1) == nil, "proof of -1")
}

// independent verifier of the serialized proof
func vfCheckProofBytes(r *vfRun, bz []byte, sn int64, leaf, root [32]byte) {
	r.Check(int64(binary.LittleEndian.Uint64(bz)) == sn, "serial number in proof bytes")
	at := 8
	next := func() []byte { at += 32; return bz[at-32 : at] }
	up := func(level int, self []byte, bit int64) []byte {
		p := next()
		if bit == 1 {
			return vfH2(byte(level), p, self)
		}
		return vfH2(byte(level), self, p)
	}
	self := next()
	r.Check(bytes.Equal(self, leaf[:]), "leaf in the proof bytes of %d", sn)
	for l := 0; l < 11; l++ {
		self = up(l, self, sn>>uint(l)&1)
	}
	left := self
	self = next()
	for l := 0; l < 3; l++ {
		self = up(8+l, self, sn>>uint(8+l)&1)
	}
	self = vfH2(11, left, self)
	for l := 12; at < len(bz)-32; l++ {
		self = up(l, self, sn>>uint(l-1)&1)
	}
	r.Check(bytes.Equal(self, root[:]) && bytes.Equal(next(), root[:]), "proof bytes of %d do not lead to the root", sn)
}

func (v *vfTree) saveLoad(root [32]byte) {
	r := v.r
	v.tree.SaveMemToDisk()
	t2 := LoadTree(v.buf, v.block, v.dir)
	r.Check(len(t2.activeTwigs) == len(v.tree.activeTwigs), "%d twigs loaded, %d saved", len(t2.activeTwigs), len(v.tree.activeTwigs))
	for id, tw := range v.tree.activeTwigs {
		r.Check(t2.activeTwigs[id] != nil && *t2.activeTwigs[id] == *tw, "twig %d loaded differs", id)
	}
	r.Check(len(t2.nodes) == len(v.tree.nodes), "%d nodes loaded, %d saved", len(t2.nodes), len(v.tree.nodes))
	for p, h := range v.tree.nodes {
		r.Check(t2.nodes[p] != nil && *t2.nodes[p] == *h, "node %d-%d loaded differs", p.Level(), p.Nth())
	}
	r.Check(t2.mtree4YoungestTwig == v.tree.mtree4YoungestTwig, "youngest twig's tree loaded differs")
	r.Check(t2.youngestTwigID == v.tree.youngestTwigID, "youngest twig loaded %d, saved %d", t2.youngestTwigID, v.tree.youngestTwigID)
	r.Check(*t2.nodes[Pos(calcMaxLevel(t2.youngestTwigID), 0)] == root, "root loaded differs")
	t2.Close()
	// a flipped byte is noticed
	files := []string{twigsPath, nodesPath, mtree4YTPath}
	name := filepath.Join(v.dir, files[r.Intn(3)])
	bz, _ := os.ReadFile(name)
	if len(bz) > 0 {
		i := r.Intn(len(bz))
		bz[i] ^= 1 << uint(r.Intn(8))
		_ = os.WriteFile(name, bz, 0700)
		r.Check(r.Panics(func() { LoadTree(v.buf, v.block, v.dir) }), "byte %d of %s changed and the load succeeds", i, name)
	}
}

func (v *vfTree) recover(root [32]byte) {
	r := v.r
	v.tree.entryFile.Flush()
	v.tree.twigMtFile.Flush()
	es, ts := v.tree.GetFileSizes()
	old := v.tree
	img := r.Scratch()
	vfCopy(v.dir, img)
	if r.Intn(2) == 0 { // bytes of an unfinished block
		a := v.garbage(filepath.Join(img, entriesPath), es)
		b := v.garbage(filepath.Join(img, twigMtPath), ts)
		r.Logf("unfinished bytes %d %d", a, b)
	}
	var edges []*EdgeNode
	if len(v.edges) > 0 {
		edges = BytesToEdgeNodes(v.edges)
	}
	r.Logf("recover: pruned below %d, oldest %d, youngest %d", v.pruned, v.oldest, v.youngest())
	var t2 *Tree
	var rt [32]byte
	vfQuiet(func() {
		t2, rt = RecoverTree(v.buf, v.block, img, "", edges, v.pruned-1, v.oldest, v.youngest(), []int64{es, ts})
	})
	r.Check(rt == root, "recovered root %x, was %x", rt, root)
	vfQuiet(func() { CompareTreeTwigs(old, t2) })
	r.Check(len(old.activeTwigs) == len(t2.activeTwigs), "%d twigs recovered of %d", len(t2.activeTwigs), len(old.activeTwigs))
	r.Check(old.mtree4YoungestTwig == t2.mtree4YoungestTwig, "youngest twig's tree recovered differs")
	r.Check(len(t2.deactivedSNList) == 0 && len(t2.touchedPosOf512b) == 0 && t2.mtree4YTChangeStart == -1, "recovered tree has pending work")
	e2, s2 := t2.GetFileSizes()
	r.Check(e2 == es && s2 == ts, "file sizes %d/%d after recovery, %d/%d before", e2, s2, es, ts)
	for i := 0; i < 60; i++ { // positions and contents
		sn := v.oldest*2048 + r.Int63n(int64(len(v.pos))-v.oldest*2048)
		r.Check(bytes.Equal(t2.ReadEntryBytesForProof(v.pos[sn]), v.enc[sn]), "entry %d after recovery", sn)
	}
	old.Close()
	v.tree, v.dir = t2, img
}

func (v *vfTree) garbage(dir string, size int64) int {
	id := size / int64(v.block)
	name := fmt.Sprintf("%s/%d-%d", dir, id, v.block)
	st, err := os.Stat(name)
	if err != nil {
		return 0
	}
	room := int64(v.block) - st.Size()
	if room <= 0 {
		return 0
	}
	n := 1 + v.r.Intn(int(room)+200)
	f, _ := os.OpenFile(name, os.O_RDWR|os.O_APPEND, 0700)
	_, _ = f.Write(v.r.Bytes(n))
	f.Close()
	if int64(n) >= room { // the unfinished block rolled over
		_ = os.WriteFile(fmt.Sprintf("%s/%d-%d", dir, id+1, v.block), v.r.Bytes(v.r.Intn(300)), 0700)
	}
	return n
}

func vfCopy(src, dst string) {
	_ = filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if info.IsDir() {
			return os.MkdirAll(q, 0700)
		}
		bz, _ := os.ReadFile(p)
		return os.WriteFile(q, bz, 0700)
	})
}

func vfTreeRun(r *vfRun, twigs int, each func(v *vfTree, root [32]byte, ref map[int64][4096][32]byte)) {
	v := newVfTree(r)
	defer func() {
		if v.tree.entryFile != nil {
			v.tree.Close()
		}
	}()
	for i := 0; i < 2048; i++ {
		v.append(0)
	}
	ref := map[int64][4096][32]byte{}
	first := true
	for v.youngest() < int64(twigs) {
		n := r.Intn(300)
		switch r.Intn(6) {
		case 0:
			n = 1500 + r.Intn(1200)
		case 1:
			n = 2048 - len(v.leaf)%2048 + r.Intn(3) - 1
		case 2:
			n = r.Intn(3)
		}
		if first {
			n += 1
			first = false
		}
		style := r.Intn(3)
		for ; n > 0; n-- {
			v.append(1 + r.Intn(2))
			if r.Intn(5) == 0 {
				v.append(0)
			}
			k := 0
			switch style {
			case 0:
				k = r.Intn(2)
			case 1:
				k = r.Intn(40) / 20
			}
			for ; k > 0; k-- {
				sn := v.oldest*2048 + r.Int63n(int64(len(v.leaf))-v.oldest*2048)
				if sn >= 2048 && v.active[sn] {
					v.deactivate(sn)
				}
			}
		}
		if len(v.pend) > 0 {
			v.append(0)
		}
		// evict the oldest twig, as compaction does
		if v.youngest()-v.oldest >= 2 && r.Intn(2) == 0 {
			id := v.oldest
			for i := int64(0); i < 2048; i++ {
				if v.active[id*2048+i] {
					v.deactivate(id*2048 + i)
				}
			}
			if len(v.pend) > 0 {
				v.append(0)
			}
			r.Logf("evict twig %d", id)
			v.tree.EvictTwig(id)
			v.oldest++
		}
		root := v.tree.EndBlock()
		v.tree.WaitForFlushing()
		r.Logf("block ends with %d leaves, oldest %d youngest %d", len(v.leaf), v.oldest, v.youngest())
		each(v, root, ref)
	}
}

func TestVerifC05(t *testing.T) {
	vfLoop(t, "C05", 10, 200, func(r *vfRun) {
		vfTreeRun(r, 2+r.Intn(3), func(v *vfTree, root [32]byte, ref map[int64][4096][32]byte) {
			for sn := v.oldest * 2048; sn < int64(len(v.leaf)); sn++ {
				r.Check(v.tree.GetActiveBit(sn) == v.active[sn], "activity bit of %d is %v", sn, v.tree.GetActiveBit(sn))
			}
			for id := v.oldest; id <= v.youngest(); id++ {
				b, _, _, _ := v.bitTree(id)
				r.Check(v.tree.activeTwigs[id].activeBits == b, "activity bits of twig %d", id)
			}
		})
	})
}

func vfFull(t *testing.T, prop string, q, th int, twigs func(r *vfRun) int) {
	vfLoop(t, prop, q, th, func(r *vfRun) {
		vfTreeRun(r, twigs(r), func(v *vfTree, root [32]byte, ref map[int64][4096][32]byte) { v.check(root, ref) })
	})
}

func TestVerifC06(t *testing.T) {
	vfFull(t, "C06", 6, 100, func(r *vfRun) int { return 2 + r.Intn(3) })
}
func TestVerifC07(t *testing.T) {
	vfFull(t, "C07", 6, 100, func(r *vfRun) int { return 2 + r.Intn(2) })
}
func TestVerifC08(t *testing.T) {
	vfFull(t, "C08", 4, 60, func(r *vfRun) int { return 3 + r.Intn(15) })
}

func TestVerifC07Sync(t *testing.T) {
	vfLoop(t, "C07", 60, 2000, func(r *vfRun) {
		mt := NullMT4Twig
		end := -1
		for end < 2047 {
			start := end + 1
			end = start + r.Intn(2048-start)
			if r.Intn(3) == 0 {
				end = start
			}
			for i := start; i <= end; i++ {
				r.Read(mt[2048+i][:])
			}
			r.Logf("sync %d..%d", start, end)
			syncMTree(mt[:], start, end)
			for i := 1; i < 2048; i++ {
				lv := byte(10)
				for j := i; j > 1; j >>= 1 {
					lv--
				}
				r.Check(bytes.Equal(mt[i][:], vfH2(lv, mt[2*i][:], mt[2*i+1][:])), "node %d is stale after sync %d..%d", i, start, end)
			}
			if start > 100 && r.Intn(4) != 0 {
				return
			}
		}
	})
}

func TestVerifC09(t *testing.T) {
	vfLoop(t, "C09", 6, 100, func(r *vfRun) {
		vfTreeRun(r, 2+r.Intn(5), func(v *vfTree, root [32]byte, ref map[int64][4096][32]byte) { v.proofs(root, 60) })
		// malformed input is answered with an error
		for n := 0; n < 1500; n++ {
			bz := make([]byte, n)
			r.Check(!r.Panics(func() {
				pp, err := BytesToProofPath(bz)
				if err == nil {
					_ = pp.Check(true)
					_ = pp.Check(false)
				}
			}), "a proof of %d bytes crashes the verifier", n)
		}
	})
}

func TestVerifC10(t *testing.T) {
	vfLoop(t, "C10", 6, 100, func(r *vfRun) {
		vfTreeRun(r, 2+r.Intn(5), func(v *vfTree, root [32]byte, ref map[int64][4096][32]byte) {
			if r.Intn(3) == 0 {
				v.saveLoad(root)
			}
		})
		for i := 0; i < 500; i++ {
			l, n := r.Intn(64), r.Int63()>>uint(8+r.Intn(55))
			p := Pos(l, n)
			r.Check(p.Level() == int64(l) && p.Nth() == n, "Pos(%d,%d) unpacks to %d,%d", l, n, p.Level(), p.Nth())
		}
		var es []*EdgeNode
		for i := 0; i < r.Intn(40); i++ {
			es = append(es, &EdgeNode{Pos: Pos(12+r.Intn(40), r.Int63n(1<<40)), Value: r.Bytes(32)})
		}
		back := BytesToEdgeNodes(EdgeNodesToBytes(es))
		r.Check(len(back) == len(es), "%d edge nodes of %d", len(back), len(es))
		for i := range es {
			r.Check(back[i].Pos == es[i].Pos && bytes.Equal(back[i].Value, es[i].Value), "edge node %d differs", i)
		}
	})
}

// restart after compaction and pruning, with segments small enough to be dropped
func vfRestart(t *testing.T, prop string, prune bool, q, th int) {
	vfLoop(t, prop, q, th, func(r *vfRun) {
		vfTreeRun(r, 5+r.Intn(10), func(v *vfTree, root [32]byte, ref map[int64][4096][32]byte) {
			v.check(root, ref)
			if prune && r.Intn(2) == 0 && v.oldest-1-v.pruned >= MinPruneCount+1 {
				end := v.pruned + MinPruneCount + 1 + r.Int63n(v.oldest-v.pruned-MinPruneCount-1)
				r.Logf("prune twigs %d to %d", v.pruned, end)
				v.edges = v.tree.PruneTwigs(v.pruned, end)
				v.pruned = end
				v.check(root, ref)
			}
			if v.pruned > 0 || !prune {
				if r.Intn(2) == 0 {
					v.recover(root)
					v.check(root, ref)
				}
			}
			lo := v.oldest
			save := v.pruned
			v.pruned = lo
			v.proofs(root, 10)
			v.pruned = save
		})
	})
}

func TestVerifC21(t *testing.T) { vfRestart(t, "C21", false, 6, 80) }
func TestVerifC24(t *testing.T) { vfRestart(t, "C24", true, 8, 120) }
