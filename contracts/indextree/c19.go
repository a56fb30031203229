package indextree

import (
	"encoding/binary"

	"github.com/smartbch/moeingads/indextree/b/cppbtree"
)

// C19: lookups and range iterators.

func live(tree *NVTreeMem, k uint64) bool { return cppbtree.Has(cppbtree.Uf_tree(tree.bt), k) }

func posOf(tree *NVTreeMem, k uint64) int64 { return cppbtree.Uf_tree(tree.bt).M[k] }

func okIdx(tree *NVTreeMem) bool {
	return tree.bt != nil && cppbtree.Uf_tree(tree.bt) != nil && cppbtree.Uf_tree(tree.bt).M != nil
}

func contract_NVTreeMem_Get(tree *NVTreeMem, k []byte) {
	vcRequires(okIdx(tree) && len(k) == 8)
	vcPanicsIf(tree.isWriting) // refused
	v, ok := tree.Get(k)
	x := binary.BigEndian.Uint64(k)
	vcEnsures("found", ok == live(tree, x))
	vcEnsures("position", !ok || v == posOf(tree, x))
}

// ---- forward

// fwdOK: the enumerator stands behind the current key.
func fwdOK(iter *ForwardIterMem) bool {
	if iter.err != nil {
		return true
	}
	g := cppbtree.Uf_enum(iter.enumerator)
	return iter.enumerator != nil && g != nil && g.T == cppbtree.Uf_tree(iter.tree.bt) && live(iter.tree, iter.key) && iter.key < iter.end &&
		g.FwdDone == (iter.key == 18446744073709551615) && (g.FwdDone || g.Fwd == iter.key+1) && iter.value == posOf(iter.tree, iter.key)
}

func fwdReady(iter *ForwardIterMem) bool {
	g := cppbtree.Uf_enum(iter.enumerator)
	return iter.err != nil || iter.enumerator != nil && g != nil && g.T == cppbtree.Uf_tree(iter.tree.bt)
}

func contract_ForwardIterMem_Next(iter *ForwardIterMem) {
	vcRequires(iter.tree != nil && okIdx(iter.tree) && fwdReady(iter))
	vcPanicsIf(iter.tree.isWriting) // refused
	valid := iter.err == nil
	g := cppbtree.Uf_enum(iter.enumerator)
	f, done := g.Fwd, g.FwdDone
	vcModifies(&iter.key, &iter.value, &iter.err)
	if valid {
		vcModifies(iter.enumerator, &g.Fwd, &g.FwdDone, &g.Bwd, &g.BwdDone)
	}
	iter.Next()
	if valid && iter.err == nil {
		vcEnsures("a live key of the range", live(iter.tree, iter.key) && f <= iter.key && iter.key < iter.end && !done)
		vcEnsures("none skipped", vcAll(func(x uint64) bool { return !live(iter.tree, x) || x < f || x >= iter.key }))
		vcEnsures("its position", iter.value == posOf(iter.tree, iter.key))
	} else {
		vcEnsures("ended stays ended", iter.err != nil)
		vcEnsures("no more in the range", !valid || done || vcAll(func(x uint64) bool { return !live(iter.tree, x) || x < f || x >= iter.end }))
	}
	vcEnsures("stands at the key", fwdOK(iter))
}

// The key after a key is the next one of the range.
func contract_ForwardIterMem_Next__step(iter *ForwardIterMem) {
	vcRequires(iter.tree != nil && okIdx(iter.tree) && fwdOK(iter) && iter.err == nil && !iter.tree.isWriting)
	k := iter.key
	g := cppbtree.Uf_enum(iter.enumerator)
	vcModifies(&iter.key, &iter.value, &iter.err, iter.enumerator, &g.Fwd, &g.FwdDone, &g.Bwd, &g.BwdDone)
	iter.Next()
	if iter.err == nil {
		vcEnsures("a live key of the range", live(iter.tree, iter.key) && k < iter.key && iter.key < iter.end)
		vcEnsures("none between", vcAll(func(x uint64) bool { return !live(iter.tree, x) || x <= k || x >= iter.key }))
	} else {
		vcEnsures("no more in the range", vcAll(func(x uint64) bool { return !live(iter.tree, x) || x <= k || x >= iter.end }))
	}
	vcEnsures("stands at the key", fwdOK(iter))
}

func contract_NVTreeMem_Iterator(tree *NVTreeMem, start, end []byte) {
	vcRequires(okIdx(tree) && len(start) == 8 && len(end) == 8)
	vcPanicsIf(tree.isWriting) // refused
	g := cppbtree.Uf_enum(nil)
	vcModifiesField(&g.Fwd, &g.FwdDone, &g.Bwd, &g.BwdDone)
	it := tree.Iterator(start, end).(*ForwardIterMem)
	a, b := binary.BigEndian.Uint64(start), binary.BigEndian.Uint64(end)
	vcEnsures("its domain", it.tree == tree && it.start == a && it.end == b)
	if it.err == nil {
		vcEnsures("a live key of the range", live(tree, it.key) && a <= it.key && it.key < b)
		vcEnsures("the first one", vcAll(func(x uint64) bool { return !live(tree, x) || x < a || x >= it.key }))
		vcEnsures("its position", it.value == posOf(tree, it.key))
	} else {
		vcEnsures("the range is empty", vcAll(func(x uint64) bool { return !live(tree, x) || x < a || x >= b }))
	}
	vcEnsures("stands behind the key", fwdOK(it))
}

// ---- backward

func bwdOK(iter *BackwardIterMem) bool {
	if iter.err != nil {
		return true
	}
	g := cppbtree.Uf_enum(iter.enumerator)
	return iter.enumerator != nil && g != nil && g.T == cppbtree.Uf_tree(iter.tree.bt) && live(iter.tree, iter.key) && iter.key >= iter.start &&
		g.BwdDone == (iter.key == 0) && (g.BwdDone || g.Bwd == iter.key-1) && iter.value == posOf(iter.tree, iter.key)
}

func bwdReady(iter *BackwardIterMem) bool {
	g := cppbtree.Uf_enum(iter.enumerator)
	return iter.err != nil || iter.enumerator != nil && g != nil && g.T == cppbtree.Uf_tree(iter.tree.bt)
}

func contract_BackwardIterMem_Next(iter *BackwardIterMem) {
	vcRequires(iter.tree != nil && okIdx(iter.tree) && bwdReady(iter))
	vcPanicsIf(iter.tree.isWriting) // refused
	valid := iter.err == nil
	g := cppbtree.Uf_enum(iter.enumerator)
	f, done := g.Bwd, g.BwdDone
	vcModifies(&iter.key, &iter.value, &iter.err)
	if valid {
		vcModifies(iter.enumerator, &g.Fwd, &g.FwdDone, &g.Bwd, &g.BwdDone)
	}
	iter.Next()
	if valid && iter.err == nil {
		vcEnsures("a live key of the range", live(iter.tree, iter.key) && f >= iter.key && iter.key >= iter.start && !done)
		vcEnsures("none skipped", vcAll(func(x uint64) bool { return !live(iter.tree, x) || x > f || x <= iter.key }))
		vcEnsures("its position", iter.value == posOf(iter.tree, iter.key))
	} else {
		vcEnsures("ended stays ended", iter.err != nil)
		vcEnsures("no more in the range", !valid || done || vcAll(func(x uint64) bool { return !live(iter.tree, x) || x > f || x < iter.start }))
	}
	vcEnsures("stands at the key", bwdOK(iter))
}

// The key after a key is the next one of the range.
func contract_BackwardIterMem_Next__step(iter *BackwardIterMem) {
	vcRequires(iter.tree != nil && okIdx(iter.tree) && bwdOK(iter) && iter.err == nil && !iter.tree.isWriting)
	k := iter.key
	g := cppbtree.Uf_enum(iter.enumerator)
	vcModifies(&iter.key, &iter.value, &iter.err, iter.enumerator, &g.Fwd, &g.FwdDone, &g.Bwd, &g.BwdDone)
	iter.Next()
	if iter.err == nil {
		vcEnsures("a live key of the range", live(iter.tree, iter.key) && k > iter.key && iter.key >= iter.start)
		vcEnsures("none between", vcAll(func(x uint64) bool { return !live(iter.tree, x) || x >= k || x <= iter.key }))
	} else {
		vcEnsures("no more in the range", vcAll(func(x uint64) bool { return !live(iter.tree, x) || x >= k || x < iter.start }))
	}
	vcEnsures("stands at the key", bwdOK(iter))
}

func contract_NVTreeMem_ReverseIterator(tree *NVTreeMem, start, end []byte) {
	vcRequires(okIdx(tree) && len(start) == 8 && len(end) == 8)
	vcPanicsIf(tree.isWriting) // refused
	g := cppbtree.Uf_enum(nil)
	vcModifiesField(&g.Fwd, &g.FwdDone, &g.Bwd, &g.BwdDone)
	it := tree.ReverseIterator(start, end).(*BackwardIterMem)
	a, b := binary.BigEndian.Uint64(start), binary.BigEndian.Uint64(end)
	vcEnsures("its domain", it.tree == tree && it.start == a && it.end == b)
	if it.err == nil {
		vcEnsures("a live key of the range", live(tree, it.key) && a <= it.key && it.key < b)
		vcEnsures("the last one", vcAll(func(x uint64) bool { return !live(tree, x) || x >= b || x <= it.key }))
		vcEnsures("its position", it.value == posOf(tree, it.key))
	} else {
		vcEnsures("the range is empty", vcAll(func(x uint64) bool { return !live(tree, x) || x < a || x >= b }))
	}
	vcEnsures("stands before the key", bwdOK(it))
}

func contract_ForwardIterMem_Valid(iter *ForwardIterMem) {
	r := iter.Valid()
	vcEnsures("not ended", r == (iter.err == nil))
}

func contract_BackwardIterMem_Valid(iter *BackwardIterMem) {
	r := iter.Valid()
	vcEnsures("not ended", r == (iter.err == nil))
}

func contract_ForwardIterMem_Value(iter *ForwardIterMem) {
	r := iter.Value()
	vcEnsures("position", r == iter.value)
}

func contract_BackwardIterMem_Value(iter *BackwardIterMem) {
	r := iter.Value()
	vcEnsures("position", r == iter.value)
}

func contract_ForwardIterMem_Key(iter *ForwardIterMem) {
	vcFreshResult(0)
	r := iter.Key()
	vcEnsures("the key, big endian", len(r) == 8 && binary.BigEndian.Uint64(r) == iter.key)
}

func contract_BackwardIterMem_Key(iter *BackwardIterMem) {
	vcFreshResult(0)
	r := iter.Key()
	vcEnsures("the key, big endian", len(r) == 8 && binary.BigEndian.Uint64(r) == iter.key)
}
