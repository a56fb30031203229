package main

// Models of built-in and library functions. Everything here is trusted.

import (
	"fmt"
	"go/token"
	"math/big"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

type model func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut

var models = map[string]model{}

func intT(k types.BasicKind) types.Type { return types.Typ[k] }

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
	switch b.Name() {
	case "len":
		v := args[0]
		switch v.k {
		case vStr, vSlice:
			return one(st, mkInt(v.ln))
		case vBytes, vSArr, vSnap:
			return one(st, mkInt(K(under(v.ty).(*types.Array).Len())))
		case vScalar:
			if mt, ok := under(c.Args[0].Type()).(*types.Map); ok {
				n := Ite(Eq(v.t, Null), Zero, card(st, st.mem().mapDom(v.t, mt)))
				st.assume(Ge0(n))
				return one(st, mkInt(Ite(Eq(v.t, Null), Zero, n)))
			}
			if pt, ok := under(c.Args[0].Type()).(*types.Pointer); ok {
				return one(st, mkInt(K(under(pt.Elem()).(*types.Array).Len())))
			}
			if _, ok := under(c.Args[0].Type()).(*types.Chan); ok {
				return one(st, mkInt(NewVar("chanlen", SI64)))
			}
		}
	case "cap":
		v := args[0]
		if v.k == vSlice {
			return one(st, mkInt(v.cp))
		}
		if v.k == vBytes || v.k == vSArr {
			return one(st, mkInt(K(under(v.ty).(*types.Array).Len())))
		}
	case "append":
		return x.doAppend(st, fr, args, c, pos)
	case "copy":
		d, s := args[0], args[1]
		n := minTerm(d.ln, s.ln)
		el := under(d.ty).(*types.Slice).Elem()
		if s.k == vStr {
			h := st.heap("B", bytesSort(-1))
			st.setHeap("B", Store(h, d.t, WriteArr(Select(h, d.t), d.off, s.t, Zero, n)))
			return one(st, mkInt(n))
		}
		st.copyRange(d.t, d.off, st.heaps, s.t, s.off, n, el)
		return one(st, mkInt(n))
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		if st.facts.decide(Eq(args[0].t, Null), true) == 1 {
			return one(st, Val{})
		}
		st.mapDelete(args[0].t, mt, keyTerm(args[1]))
		return one(st, Val{})
	case "panic":
		x.doPanic(st, fr, pos, "panic")
		return nil
	case "print", "println":
		return one(st, Val{})
	case "close":
		return one(st, Val{})
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = minTerm(r, a.t)
			} else {
				r = Ite(Ge(r, a.t), r, a.t)
			}
		}
		return one(st, mkScalar(r, args[0].ty))
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "recover":
		return one(st, zeroVal(types.NewInterfaceType(nil, nil)))
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) callBuiltinClosure(st *State, fr *Frame, cl *Closure, args []Val, pos token.Pos) []callOut {
	panic(unsupported("builtin closure " + cl.builtin))
}

func minTerm(a, b *Term) *Term {
	if a == b {
		return a
	}
	switch ctxDecide(Le(a, b)) {
	case 1:
		return a
	case 0:
		return b
	}
	return Ite(Le(a, b), a, b)
}

func (x *Exec) doAppend(st *State, fr *Frame, args []Val, c *ssa.CallCommon, pos token.Pos) []callOut {
	s, e := args[0], args[1]
	st0 := under(c.Args[0].Type()).(*types.Slice)
	el := st0.Elem()
	k := e.ln
	if k == Zero {
		return one(st, s)
	}
	n := Add(s.ln, k)
	if fr.spec {
		// specification appends always build a new slice
		return one(st, x.growAppend(st, s, e, n, el))
	}
	st.assume(Le(n, KB(pow2(62))))
	fits := Le(n, s.cp)
	switch st.facts.decide(fits, true) {
	case 1:
		return one(st, x.inplaceAppend(st, s, e, n, el))
	case 0:
		return one(st, x.growAppend(st, s, e, n, el))
	}
	var out []callOut
	s2 := st.clone()
	st.assume(Not(fits))
	if st.feasible() {
		st.activate()
		out = append(out, callOut{st, x.growAppend(st, s, e, n, el)})
	}
	s2.assume(fits)
	if s2.feasible() {
		s2.activate()
		out = append(out, callOut{s2, x.inplaceAppend(s2, s, e, n, el)})
	}
	return out
}

func (x *Exec) writeElems(st *State, base, off *Term, e Val, el types.Type, srcHeaps map[string]*Term) {
	if e.k == vStr {
		h := st.heap("B", bytesSort(-1))
		st.setHeap("B", Store(h, base, WriteArr(Select(h, base), off, e.t, Zero, e.ln)))
		return
	}
	st.copyRange(base, off, srcHeaps, e.t, e.off, e.ln, el)
}

func (x *Exec) inplaceAppend(st *State, s, e Val, n *Term, el types.Type) Val {
	x.writeElems(st, s.t, Add(s.off, s.ln), e, el, st.heaps)
	s.ln = n
	return s
}

func (x *Exec) growAppend(st *State, s, e Val, n *Term, el types.Type) Val {
	src := make(map[string]*Term, len(st.heaps))
	for k, v := range st.heaps {
		src[k] = v
	}
	r := st.newBacking(el)
	st.copyRange(r, Zero, src, s.t, s.off, s.ln, el)
	x.writeElems(st, r, s.ln, e, el, src)
	cp := NewVar("cap", SI64)
	st.assume(Ge(cp, n))
	return Val{k: vSlice, ty: s.ty, t: r, off: Zero, ln: n, cp: cp}
}

// ---------------------------------------------------------------- helpers

func leBytes(get func(i int64) *Term, n int64) *Term {
	var ts []*Term
	for i := int64(0); i < n; i++ {
		ts = append(ts, MulC(pow2(uint(8*i)), get(i)))
	}
	return Add(ts...)
}

func putLE(A, off, v *Term, n int64, big bool) *Term {
	for i := int64(0); i < n; i++ {
		sh := uint(8 * i)
		if big {
			sh = uint(8 * (n - 1 - i))
		}
		b := Div(v, pow2(sh))
		if i < n-1 && !big || big && i > 0 {
			b = Mod(b, pow2(8))
		} else {
			b = Mod(b, pow2(8))
		}
		A = Store(A, AddC(off, i), b)
	}
	return A
}

// getLE reads n bytes as an integer; a value just written by putLE folds back.
func getLE(A, off *Term, n int64, big bool) *Term {
	r := leBytes(func(i int64) *Term {
		j := i
		if big {
			j = n - 1 - i
		}
		return Select(A, AddC(off, j))
	}, n)
	return r
}

func binModel(n int64, put, big bool) model {
	return func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		b := args[1]
		x.check(st, fr, "bounds", "binary", pos, Ge(b.ln, K(n)))
		if put {
			h := st.heap("B", bytesSort(-1))
			st.setHeap("B", Store(h, b.t, putLE(Select(h, b.t), b.off, args[2].t, n, big)))
			return one(st, Val{})
		}
		ty := map[int64]types.BasicKind{2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[n]
		return one(st, mkScalar(getLE(st.mem().region(b.t), b.off, n, big), intT(ty)))
	}
}

var errType = types.Universe.Lookup("error").Type()

func freshError(st *State) Val {
	return Val{k: vIface, ty: errType, tag: typeTag(types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "modelError", nil), types.NewStruct(nil, nil), nil))), t: NewRoot()}
}

func nilError() Val { return Val{k: vIface, ty: errType, tag: Zero, t: Null} }

// maybeError: nil or some error, undetermined.
func maybeError(name string) (Val, *Term) {
	ok := NewVar(name+"ok", SBool)
	return Val{k: vIface, ty: errType, tag: Ite(ok, Zero, K(999983)), t: Ite(ok, Null, NewRoot())}, ok
}

func shaTerm(arr, n *Term) *Term { return App("sha256", bytesSort(32), arr, n) }

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// catBytes concatenates canonical byte strings.
func catBytes(parts [][2]*Term) (*Term, *Term) {
	a, n := emptyBytes, Zero
	for _, p := range parts {
		a = WriteArr(a, n, p[0], Zero, p[1])
		n = Add(n, p[1])
	}
	return a, n
}

func init() {
	for _, e := range []struct {
		name string
		big  bool
	}{{"littleEndian", false}, {"bigEndian", true}} {
		for _, n := range []int64{2, 4, 8} {
			models[fmt.Sprintf("(encoding/binary.%s).PutUint%d", e.name, n*8)] = binModel(n, true, e.big)
			models[fmt.Sprintf("(encoding/binary.%s).Uint%d", e.name, n*8)] = binModel(n, false, e.big)
		}
	}
	models["bytes.Equal"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		return one(st, mkBool(bytesEqTerm(st, args[0], args[1])))
	}
	models["bytes.Index"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		s, sep := args[0], args[1]
		if st.facts.decide(Eq(sep.ln, K(8)), true) != 1 {
			panic(unsupported("bytes.Index with a separator of unknown length"))
		}
		m := st.mem()
		a, b := m.region(s.t), m.region(sep.t)
		r := App("bytes.Index", intSort("index", big.NewInt(-1), nil), m.bytesOf(s), s.ln, m.bytesOf(sep))
		at := func(q *Term) *Term {
			var cs []*Term
			for t := int64(0); t < 8; t++ {
				cs = append(cs, Eq(Select(a, Add(s.off, AddC(q, t))), Select(b, AddC(sep.off, t))))
			}
			return And(cs...)
		}
		found := Ge0(r)
		st.assume(Implies(found, And(Le(AddC(r, 8), s.ln), at(r))))
		q := NewBound("i", SInt)
		st.assume(Forall([]*Term{q}, Implies(And(Ge0(q), Le(AddC(q, 8), s.ln), Or(Not(found), Lt(q, r))), Not(at(q)))))
		return one(st, mkInt(r))
	}
	models["bytes.Compare"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		m := st.mem()
		return one(st, mkInt(bytesCmp(m.bytesOf(args[0]), args[0].ln, m.bytesOf(args[1]), args[1].ln)))
	}
	noop := func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut { return one(st, Val{}) }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		nm := n
		models[n] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
			x.note("locks and wait groups are no-ops in the sequential semantics (" + nm + ")")
			return one(st, Val{})
		}
	}
	_ = noop
	models["fmt.Printf"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		return one(st, Val{k: vTuple, a: []Val{mkInt(NewVar("n", SI64)), nilError()}})
	}
	models["fmt.Println"] = models["fmt.Printf"]
	models["fmt.Errorf"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		return one(st, freshError(st))
	}
	models["errors.New"] = models["fmt.Errorf"]
	models["fmt.Sprintf"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		var ts []*Term
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(unsup); !is {
						panic(r)
					}
					ok = false
				}
			}()
			for _, v := range x.variadic(st, args[1]) {
				ts = append(ts, comps(v)...)
			}
		}()
		nm := "sprintf:" + constString(args[0])
		if !ok {
			v := symVal("sprintf", types.Typ[types.String], func(t *Term) { st.assume(t) })
			return one(st, v)
		}
		n := App(nm+".len", intSort("nat", Zero.i, nil), ts...)
		return one(st, Val{k: vStr, ty: types.Typ[types.String], t: Ext(App(nm, bytesSort(-1), ts...), Zero, n), ln: n})
	}
	sum := func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		b := args[0]
		return one(st, Val{k: vBytes, ty: types.NewArray(types.Typ[types.Uint8], 32), t: shaTerm(st.mem().bytesOf(b), b.ln)})
	}
	for _, p := range []string{"github.com/minio/sha256-simd", "crypto/sha256"} {
		models[p+".Sum256"] = sum
		models[p+".New"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
			return one(st, newHash(st, "sha256"))
		}
	}
	models["github.com/mmcloughlin/meow.New32"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		return one(st, newHash(st, "meow32"))
	}
	for _, ifc := range []string{"hash.Hash", "hash.Hash32", "io.Writer"} {
		models["iface:"+ifc+".Write"] = hashWrite
		models["iface:"+ifc+".Sum"] = hashSum
	}
	models["sync/atomic.AddInt64"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		t := types.Typ[types.Int64]
		v := st.mem().load(args[0].t, t)
		r := x.wrap(st, fr, Add(v.t, args[1].t), t)
		st.store(args[0].t, t, r)
		return one(st, r)
	}
	models["sync/atomic.LoadInt64"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		return one(st, st.mem().load(args[0].t, types.Typ[types.Int64]))
	}
	models["sync/atomic.StoreInt64"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		st.store(args[0].t, types.Typ[types.Int64], args[1])
		return one(st, Val{})
	}
	models["math/bits.LeadingZeros64"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		return one(st, mkInt(clz64(st, args[0].t)))
	}
	models["runtime.NumCPU"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		n := NamedVar("numcpu", SI64)
		st.assume(Ge(n, One))
		return one(st, mkInt(n))
	}
}

// clz64 introduces the defining inequalities of the leading-zero count.
func clz64(st *State, v *Term) *Term {
	if n, ok := v.int64(); ok && n >= 0 {
		c := int64(64)
		for n > 0 {
			n >>= 1
			c--
		}
		return K(c)
	}
	s := intSort("clz", K(0).i, K(64).i)
	c := App("clz64", s, v)
	e := pow2Term(Sub(K(64), c)) // v < 2^(64-c)
	st.assume(Or(Eq(v, Zero), And(Lt(v, e), Ge(MulI(2, v), e))))
	st.assume(Implies(Eq(v, Zero), Eq(c, K(64))))
	return c
}

// ---------------------------------------------------------------- hashes

// A hash object accumulates the written bytes in heaps "hash.a"/"hash.n".
var hashTag = map[string]*Term{}

func newHash(st *State, alg string) Val {
	r := NewRoot()
	if hashTag[alg] == nil {
		hashTag[alg] = typeTag(types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "model_"+alg, nil), types.NewStruct(nil, nil), nil)))
		tagTypes[mustInt(hashTag[alg])] = nil
	}
	st.put("hash.a", bytesSort(-1), r, emptyBytes)
	st.put("hash.n", SI64, r, Zero)
	return Val{k: vIface, tag: hashTag[alg], t: r}
}

func mustInt(t *Term) int64 { n, _ := t.int64(); return n }

func hashAlg(v Val) string {
	for a, t := range hashTag {
		if t == v.tag {
			return a
		}
	}
	panic(unsupported("hash of unknown algorithm"))
}

func hashWrite(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
	h, b := args[0], args[1]
	hashAlg(h)
	a := Select(st.heap("hash.a", bytesSort(-1)), h.t)
	n := Select(st.heap("hash.n", SI64), h.t)
	st.put("hash.a", bytesSort(-1), h.t, WriteArr(a, n, st.mem().region(b.t), b.off, b.ln))
	st.put("hash.n", SI64, h.t, Add(n, b.ln))
	return one(st, Val{k: vTuple, a: []Val{mkInt(b.ln), nilError()}})
}

// zeroTail: the written bytes followed by zeros, so that equal contents are
// equal terms whatever path built them.
func zeroTail(a, n *Term) *Term {
	b := a
	for b.op == OpWrite {
		b = b.args[0]
	}
	if b == emptyBytes {
		return a
	}
	return WriteArr(emptyBytes, Zero, a, Zero, n)
}

func hashSum(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
	h, b := args[0], args[1]
	alg := hashAlg(h)
	a := Select(st.heap("hash.a", bytesSort(-1)), h.t)
	n := Select(st.heap("hash.n", SI64), h.t)
	size := int64(32)
	if alg == "meow32" {
		size = 4
	}
	d := App(alg, bytesSort(size), zeroTail(a, n), n)
	e := types.Typ[types.Uint8]
	sl := types.NewSlice(e)
	if st.facts.decide(Eq(b.ln, Zero), true) == 1 {
		r := st.newBacking(e)
		st.put("B", bytesSort(-1), r, d)
		return one(st, Val{k: vSlice, ty: sl, t: r, off: Zero, ln: K(size), cp: K(size)})
	}
	r := st.newBacking(e)
	content := WriteArr(st.mem().bytesOf(b), b.ln, d, Zero, K(size))
	st.put("B", bytesSort(-1), r, content)
	return one(st, Val{k: vSlice, ty: sl, t: r, off: Zero, ln: AddC(b.ln, size), cp: AddC(b.ln, size)})
}

// ---------------------------------------------------------------- channels

func (x *Exec) newChan(st *State, r *Term, t types.Type) {}

func (x *Exec) chanSend(st *State, fr *Frame, ch, v Val, in *ssa.Send) {
	panic(unsupported("channel send in " + fr.fn.String()))
}

func (x *Exec) chanRecv(st *State, fr *Frame, ch Val, in *ssa.UnOp) Val {
	panic(unsupported("channel receive in " + fr.fn.String()))
}

// ---------------------------------------------------------------- pending hash jobs

func (x *Exec) checkPending(st *State, fr *Frame, pos token.Pos) {}

var _ = strings.Join
