package indextree

import (
	"encoding/binary"

	"github.com/smartbch/moeingads/indextree/b/cppbtree"
)

// C20: versions.

// versionKey is the record key of key k at a height.
func versionKey(k []byte, height uint64) string {
	var b [17]byte
	copy(b[1:9], k)
	binary.BigEndian.PutUint64(b[9:], height)
	return string(b[:])
}

// The answer is the last record below the version after the asked height, if
// it is a version of the key.
func contract_NVTreeMem_GetAtHeight(tree *NVTreeMem, k []byte, height uint64) {
	vcRequires(tree.kvdb != nil && len(k) == 8 && height < 18446744073709551615)
	d := GhostDB(tree.kvdb)
	end := versionKey(k, height+1)
	some, last := uf_anyBelow(d, end), uf_lastBelow(d, end)
	vcRequires(!some || len(last) >= 17 && (len(d.Disk[last]) == 0 || len(d.Disk[last]) == 8))
	refused := uf_pruneOn(tree.kvdb) && height <= uf_pruneHeight(tree.kvdb)
	pos, ok := tree.GetAtHeight(k, height)
	if refused {
		vcEnsures("refused at or below the prune height", !ok)
	} else {
		v := d.Disk[last]
		vcEnsures("found unless never written or deleted", ok == (some && last[1:9] == string(k) && len(v) != 0))
		vcEnsures("the position written last", !ok || pos == int64(binary.BigEndian.Uint64([]byte(v))))
	}
}

func contract_HeightCompactionFilter_Filter(f *HeightCompactionFilter, level int, key, val []byte) {
	remove, newVal := f.Filter(level, key, val)
	n := len(key)
	index := n >= 8 && key[0] == 0
	vcEnsures("only old index records", remove == (index && f.pruneEnable && binary.BigEndian.Uint64(key[n-8:]) < f.pruneHeight))
	vcEnsures("kept as they are", remove || vcSameMem(newVal, val) && len(newVal) == len(val))
}

func contract_NVTreeMem_Set(tree *NVTreeMem, k []byte, v int64) {
	vcRequires(okIdx(tree) && len(k) == 8)
	g := cppbtree.Uf_tree(tree.bt)
	record := tree.kvdb != nil && !tree.duringInit
	vcModifies(g.M)
	d := GhostDB(tree.kvdb)
	if record {
		vcRequires(d.PendSet != nil && d.PendDel != nil)
		vcModifies(d.PendSet, d.PendDel)
	}
	vcPanicsIf(!tree.isWriting) // refused
	tree.Set(k, v)
	x := binary.BigEndian.Uint64(k)
	vcEnsures("current position", live(tree, x) && posOf(tree, x) == v)
	vcEnsures("other keys", vcAll(func(y uint64) bool {
		return y == x || live(tree, y) == vcOld(func() bool { return live(tree, y) }) && posOf(tree, y) == vcOld(func() int64 { return posOf(tree, y) })
	}))
	if record {
		w, ok := d.PendSet[versionKey(k, binary.BigEndian.Uint64(tree.currHeight[:]))]
		vcEnsures("a version at the current height", ok && len(w) == 8 && binary.BigEndian.Uint64([]byte(w)) == uint64(v))
	}
}

func contract_NVTreeMem_Delete(tree *NVTreeMem, k []byte) {
	vcRequires(okIdx(tree) && len(k) == 8)
	x := binary.BigEndian.Uint64(k)
	g := cppbtree.Uf_tree(tree.bt)
	record := tree.kvdb != nil && !tree.duringInit
	vcModifies(g.M)
	d := GhostDB(tree.kvdb)
	if record {
		vcRequires(d.PendSet != nil && d.PendDel != nil)
		vcModifies(d.PendSet, d.PendDel)
	}
	vcPanicsIf(!tree.isWriting || !live(tree, x)) // refused
	tree.Delete(k)
	vcEnsures("gone", !live(tree, x))
	vcEnsures("other keys", vcAll(func(y uint64) bool {
		return y == x || live(tree, y) == vcOld(func() bool { return live(tree, y) }) && posOf(tree, y) == vcOld(func() int64 { return posOf(tree, y) })
	}))
	if record {
		w, ok := d.PendSet[versionKey(k, binary.BigEndian.Uint64(tree.currHeight[:]))]
		vcEnsures("a deletion mark at the current height", ok && len(w) == 0)
	}
}
