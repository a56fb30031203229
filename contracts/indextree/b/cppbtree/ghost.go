package cppbtree

// The ordered map behind the cgo binding (C++ code, outside the verified
// text): assumed contracts over a ghost map.

type GhostTree struct {
	M map[uint64]int64
}

// GhostEnum: Next yields the smallest key from Fwd on, Prev the largest up to Bwd.
type GhostEnum struct {
	T       *GhostTree
	Fwd     uint64
	FwdDone bool
	Bwd     uint64
	BwdDone bool
}

func Uf_tree(t *Tree) *GhostTree       { return nil }
func Uf_enum(e *Enumerator) *GhostEnum { return nil }

func Has(g *GhostTree, k uint64) bool { _, ok := g.M[k]; return ok }

func contract_Tree_Get(tree *Tree, key uint64) {
	vcTrusted("C++ btree")
	g := Uf_tree(tree)
	v, ok := tree.Get(key)
	w, ok2 := g.M[key]
	vcEnsures("found", ok == ok2)
	vcEnsures("value", !ok || v == w)
}

func contract_Tree_Set(tree *Tree, key uint64, value int64) {
	vcTrusted("C++ btree")
	g := Uf_tree(tree)
	vcModifies(g.M)
	tree.Set(key, value)
	vcEnsures("stored", Has(g, key) && g.M[key] == value)
	vcEnsures("others", vcAll(func(k uint64) bool {
		return k == key || Has(g, k) == vcOld(func() bool { return Has(g, k) }) && g.M[k] == vcOld(func() int64 { return g.M[k] })
	}))
}

func contract_Tree_Delete(tree *Tree, key uint64) {
	vcTrusted("C++ btree")
	g := Uf_tree(tree)
	vcModifies(g.M)
	tree.Delete(key)
	vcEnsures("gone", !Has(g, key))
	vcEnsures("others", vcAll(func(k uint64) bool {
		return k == key || Has(g, k) == vcOld(func() bool { return Has(g, k) }) && g.M[k] == vcOld(func() int64 { return g.M[k] })
	}))
}

func contract_Tree_Seek(tree *Tree, key uint64) {
	vcTrusted("C++ btree")
	vcFreshResult(0)
	e, hit := tree.Seek(key)
	g := Uf_enum(e)
	vcEnsures("enumerator", e != nil && g != nil && g.T == Uf_tree(tree))
	vcEnsures("hit", hit == Has(g.T, key))
	vcEnsures("at the key", g.Fwd == key && g.Bwd == key && !g.FwdDone && !g.BwdDone)
}

func contract_Enumerator_Next(e *Enumerator) {
	vcTrusted("C++ btree")
	g := Uf_enum(e)
	vcRequires(g != nil && g.T != nil)
	f, done := g.Fwd, g.FwdDone
	vcModifies(&g.Fwd, &g.FwdDone, &g.Bwd, &g.BwdDone, &e.iter, &e.largerThanTarget, &e.ending)
	k, v, err := e.Next()
	if err == nil {
		vcEnsures("a key", Has(g.T, k) && v == g.T.M[k] && k >= f && !done)
		vcEnsures("the first", vcAll(func(x uint64) bool { return !Has(g.T, x) || x < f || x >= k }))
		vcEnsures("moved", g.FwdDone == (k == 18446744073709551615) && (g.FwdDone || g.Fwd == k+1))
	} else {
		vcEnsures("none left", done || vcAll(func(x uint64) bool { return !Has(g.T, x) || x < f }))
	}
}

func contract_Enumerator_Prev(e *Enumerator) {
	vcTrusted("C++ btree")
	g := Uf_enum(e)
	vcRequires(g != nil && g.T != nil)
	f, done := g.Bwd, g.BwdDone
	vcModifies(&g.Fwd, &g.FwdDone, &g.Bwd, &g.BwdDone, &e.iter, &e.largerThanTarget, &e.ending)
	k, v, err := e.Prev()
	if err == nil {
		vcEnsures("a key", Has(g.T, k) && v == g.T.M[k] && k <= f && !done)
		vcEnsures("the last", vcAll(func(x uint64) bool { return !Has(g.T, x) || x > f || x <= k }))
		vcEnsures("moved", g.BwdDone == (k == 0) && (g.BwdDone || g.Bwd == k-1))
	} else {
		vcEnsures("none left", done || vcAll(func(x uint64) bool { return !Has(g.T, x) || x > f }))
	}
}
