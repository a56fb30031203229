package main

// Contracts: intrinsics of the specification language, contract
// verification (the target's body against its contract) and contract use.

import (
	"os"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type handler func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut

func one(st *State, v Val) []callOut { return []callOut{{st, v}} }

func (x *Exec) prepFrame(fr *Frame, st *State) {}

func baseName(fn *ssa.Function) string {
	n := fn.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}

func (x *Exec) intrinsic(fn *ssa.Function) handler {
	n := baseName(fn)
	if len(n) < 4 {
		return nil
	}
	if strings.HasPrefix(n, "vc") && n[2] >= 'A' && n[2] <= 'Z' {
		if h, ok := intrinsics[n]; ok {
			return h
		}
	}
	if strings.HasPrefix(n, "uf_") || strings.HasPrefix(n, "Uf_") {
		return ufHandler
	}
	return nil
}

// cstFrame finds the innermost contract frame.
func cstFrame(fr *Frame) *Frame {
	for f := fr; f != nil; f = f.parent {
		if f.cst != nil {
			return f
		}
	}
	return nil
}

func constString(v Val) string {
	n, ok := v.ln.int64()
	if !ok {
		return "?"
	}
	b := make([]byte, n)
	for i := range b {
		c, _ := Select(v.t, K(int64(i))).int64()
		b[i] = byte(c)
	}
	return string(b)
}

// boolClosure evaluates a closure in spec mode on a scratch copy of the state.
func (x *Exec) evalClosure(st *State, fr *Frame, f Val, args []Val, heaps map[string]*Term, pos token.Pos, extra ...*Term) Val {
	s := st.clone()
	if heaps != nil {
		s.heaps = heaps
	}
	for _, e := range extra {
		s.assume(e)
	}
	s.activate()
	base := s.facts
	if f.clo == nil || f.clo.fn == nil {
		panic(unsupported("spec closure unknown"))
	}
	outs := x.callFn(s, fr, f.clo.fn, args, f.clo.binds, true, pos)
	if len(outs) != 1 {
		panic(unsupported(fmt.Sprintf("spec closure %s has %d outcomes", f.clo.fn.Name(), len(outs))))
	}
	for _, t := range newFacts(base, outs[0].st.facts) {
		if !t.bnd {
			st.assume(t)
		} else if x.qfacts != nil {
			*x.qfacts = append(*x.qfacts, t)
		}
	}
	st.activate()
	return outs[0].ret
}

// mixHeaps gives an old heap extended with the objects allocated since.
func mixHeaps(old, cur map[string]*Term, clk int) map[string]*Term {
	out := map[string]*Term{}
	for hn := range allHeapNames(old, cur) {
		o := getHeap(old, hn, heapSorts[hn].Elem)
		c := getHeap(cur, hn, heapSorts[hn].Elem)
		if o == c {
			out[hn] = o
		} else {
			out[hn] = HMerge(c, o, []Region{{Kind: "N", Fid: clk}})
		}
	}
	return out
}

func quantInt(op Op) handler {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
		lo, hi, f := args[0].t, args[1].t, args[2]
		// small constant ranges are expanded
		if a, ok := lo.int64(); ok {
			if b, ok := hi.int64(); ok && b-a <= 16 {
				var cs []*Term
				for i := a; i < b; i++ {
					cs = append(cs, x.evalClosure(st, fr, f, []Val{mkInt(K(i))}, nil, pos).t)
				}
				if op == OpForall {
					return one(st, mkBool(And(cs...)))
				}
				return one(st, mkBool(Or(cs...)))
			}
		}
		b := NewBound("i", SInt)
		r := And(Ge(b, lo), Lt(b, hi))
		body := x.evalClosure(st, fr, f, []Val{mkInt(b)}, nil, pos, Ge(b, lo), Lt(b, hi)).t
		if op == OpForall {
			return one(st, mkBool(Forall([]*Term{b}, Implies(r, body))))
		}
		return one(st, mkBool(Exists([]*Term{b}, And(r, body))))
	}
}

// vcAll / vcSome quantify over all values of the closure's parameter types.
func quantAll(op Op) handler {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
		f := args[0]
		sig := f.clo.fn.Signature
		var bs []*Term
		var vs []Val
		var extra []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			pt := sig.Params().At(i).Type()
			switch u := under(pt).(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					a, n := NewBound("s", bytesSort(-1)), NewBound("n", SI64)
					bs = append(bs, a, n)
					extra = append(extra, Ge0(n))
					vs = append(vs, Val{k: vStr, ty: pt, t: Ext(a, Zero, n), ln: n})
					continue
				}
				b := NewBound("q", basicSort(u))
				bs = append(bs, b)
				vs = append(vs, mkScalar(b, pt))
			case *types.Pointer:
				b := NewBound("p", SRef)
				bs = append(bs, b)
				vs = append(vs, mkScalar(b, pt))
			case *types.Array:
				b := NewBound("a", bytesSort(u.Len()))
				bs = append(bs, b)
				vs = append(vs, Val{k: vBytes, ty: pt, t: b})
			case *types.Slice:
				if !isByteType(u.Elem()) {
					panic(unsupported("vcAll over slice"))
				}
				// a byte slice is quantified as a fresh region with any content
				r := NewRoot()
				a, n := NewBound("s", bytesSort(-1)), NewBound("n", SI64)
				bs = append(bs, a, n)
				extra = append(extra, Ge0(n))
				s2 := st.clone()
				s2.put("B", bytesSort(-1), r, a)
				st = s2
				vs = append(vs, Val{k: vSlice, ty: pt, t: r, off: Zero, ln: n, cp: n})
			default:
				panic(unsupported("vcAll over " + pt.String()))
			}
		}
		body := x.evalClosure(st, fr, f, vs, nil, pos, extra...).t
		if op == OpForall {
			return one(st, mkBool(Forall(bs, Implies(And(extra...), body))))
		}
		return one(st, mkBool(Exists(bs, And(append(extra, body)...))))
	}
}

func bytesEqTerm(st *State, a, b Val) *Term {
	get := func(v Val) (*Term, *Term) {
		switch v.k {
		case vSlice:
			return st.mem().bytesOf(v), v.ln
		case vStr:
			return v.t, v.ln
		}
		panic(unsupported("vcBytesEq"))
	}
	x, n := get(a)
	y, m := get(b)
	return And(Eq(n, m), Eq(x, y))
}

// variadic interface arguments: the dynamic values behind a []interface{}
func (x *Exec) variadic(st *State, v Val) []Val {
	n, ok := v.ln.int64()
	if !ok {
		panic(unsupported("variadic length"))
	}
	var out []Val
	el := under(v.ty).(*types.Slice).Elem()
	for i := int64(0); i < n; i++ {
		iv := st.mem().loadElem(v.t, AddC(v.off, i), el)
		if _, isI := under(el).(*types.Interface); !isI {
			out = append(out, iv)
			continue
		}
		tag, ok := iv.tag.int64()
		if !ok {
			panic(unsupported("variadic element type"))
		}
		t := tagTypes[tag]
		if isPtrLike(t) {
			out = append(out, mkScalar(iv.t, t))
		} else {
			out = append(out, st.mem().load(iv.t, t))
		}
	}
	return out
}

func regionOf(v Val) Region {
	heaps := func(t types.Type) map[string]bool {
		m := map[string]bool{}
		for _, h := range leafHeaps(t) {
			m[h.name] = true
		}
		return m
	}
	switch v.k {
	case vSlice:
		el := under(v.ty).(*types.Slice).Elem()
		m := heaps(types.NewArray(el, 1))
		if isScalarType(el) {
			return Region{Kind: "X", Ref: v.t, Heaps: m, Off: v.off, Len: v.ln}
		}
		return Region{Kind: "U", Ref: v.t, Heaps: m}
	case vScalar:
		if mt, ok := under(v.ty).(*types.Map); ok {
			m := map[string]bool{}
			for _, h := range mapHeaps(mt) {
				m[h.name] = true
			}
			return Region{Kind: "X", Ref: v.t, Heaps: m}
		}
		if pt, ok := under(v.ty).(*types.Pointer); ok && !hasOpaque(pt.Elem()) {
			kind := "X" // a single cell: nothing lies inside it
			switch under(pt.Elem()).(type) {
			case *types.Struct, *types.Array:
				kind = "U"
			}
			return Region{Kind: kind, Ref: v.t, Heaps: heaps(pt.Elem())}
		}
		return Region{Kind: "U", Ref: v.t}
	case vEPtr:
		return Region{Kind: "X", Ref: v.t}
	}
	panic(unsupported("vcModifies argument"))
}

// hasOpaque: the type contains a struct whose fields are not modelled.
func hasOpaque(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && opaqueStructs[tyName(n)] {
		return true
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasOpaque(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasOpaque(u.Elem())
	}
	return false
}

var intrinsics map[string]handler

func init() {
	intrinsics = map[string]handler{
		"vcRequires": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			g := args[0].t
			if cf == nil || cf.mode == "verify" {
				st.assume(g)
				return one(st, Val{})
			}
			cf.cst.requires++
			for i, cj := range conjuncts(g) {
				x.oblige(st, cf.caller(), "pre", fmt.Sprintf("%s.req%d.%d", cf.fn.Name(), cf.cst.requires, i), cf.callPos, cj)
			}
			return one(st, Val{})
		},
		"vcAssume": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			x.note("vcAssume in " + fr.fn.Name())
			st.assume(args[0].t)
			return one(st, Val{})
		},
		"vcEnsures": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			if cf != nil && cf.mode == "use" {
				st.assume(args[1].t)
				return one(st, Val{})
			}
			for i, cj := range conjuncts(args[1].t) {
				nm := constString(args[0])
				if i > 0 {
					nm = fmt.Sprintf("%s.%d", nm, i)
				}
				x.oblige(st, fr, "ensures", nm, pos, cj)
			}
			return one(st, Val{})
		},
		// vcDefine(c): the defining property of a specification function that
		// exists for every argument
		"vcDefine": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			if args[0].t.bnd {
				panic(unsupported("vcDefine under a quantifier"))
			}
			st.assume(args[0].t)
			return one(st, Val{})
		},
		// vcDefineLocal: vcDefine that callers do not get to see
		"vcDefineLocal": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			if cf := cstFrame(fr); cf == nil || cf.mode == "verify" {
				st.assume(args[0].t)
			}
			return one(st, Val{})
		},
		"vcAssert": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			if cf != nil && cf.mode == "use" {
				return one(st, Val{})
			}
			for i, cj := range conjuncts(args[1].t) {
				nm := constString(args[0])
				if i > 0 {
					nm = fmt.Sprintf("%s.%d", nm, i)
				}
				x.oblige(st, fr, "assert", nm, pos, cj)
			}
			return one(st, Val{})
		},
		"vcForall": quantInt(OpForall),
		"vcExists": quantInt(OpExists),
		"vcAll":    quantAll(OpForall),
		"vcAll2":   quantAll(OpForall),
		"vcSome":   quantAll(OpExists),
		"vcBytesEq": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			return one(st, mkBool(bytesEqTerm(st, args[0], args[1])))
		},
		"vcImplies": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			return one(st, mkBool(Implies(args[0].t, args[1].t)))
		},
		"vcMayPanic": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cstFrame(fr).cst.mayPanic = true
			return one(st, Val{})
		},
		"vcPanicsIf": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			if cf.mode == "verify" {
				cf.cst.panicIf = args[0].t
				return one(st, Val{})
			}
			cf.cst.requires++
			x.oblige(st, cf.caller(), "pre", fmt.Sprintf("%s.req%d.0", cf.fn.Name(), cf.cst.requires), cf.callPos, Not(args[0].t))
			return one(st, Val{})
		},
		"vcModifies": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			cf.cst.modSet = true
			for _, v := range x.variadic(st, args[0]) {
				r := regionOf(v)
				cf.cst.modifies = append(cf.cst.modifies, r)
				if r.Off != nil && cf.mode == "verify" {
					x.partMods = append(x.partMods, r)
				}
			}
			return one(st, Val{})
		},
		// vcModifiesArray(x): the whole array behind the slice x
		"vcModifiesArray": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			cf.cst.modSet = true
			for _, v := range x.variadic(st, args[0]) {
				r := regionOf(v)
				r.Off, r.Len = nil, nil
				cf.cst.modifies = append(cf.cst.modifies, r)
			}
			return one(st, Val{})
		},
		"vcModifiesField": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			cf.cst.modSet = true
			for _, v := range x.variadic(st, args[0]) {
				if v.t.op != OpFa {
					panic(unsupported("vcModifiesField wants &x.f"))
				}
				cf.cst.modifies = append(cf.cst.modifies, Region{Kind: "F", Fid: int(v.t.i.Int64())}, Region{Kind: "E", Fid: int(v.t.i.Int64())})
			}
			return one(st, Val{})
		},
		// vcReturns(r, v): the call returns exactly v
		"vcReturns": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			if cf != nil && cf.mode == "use" {
				v := args[1]
				v.ty = cf.cst.res.ty
				cf.cst.res = v
				return one(st, Val{})
			}
			a, b := comps(args[0]), comps(args[1])
			for i := range a {
				x.oblige(st, fr, "ensures", "returns", pos, Eq(a[i], b[i]))
			}
			return one(st, Val{})
		},
		// vcTrusted(reason): the contract is assumed, its target not verified
		"vcTrusted": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			if cf := cstFrame(fr); cf != nil && x.dry == 0 {
				x.trusted[cf.fn] = true
				x.note("trusted contract " + cf.fn.Name() + ": " + constString(args[0]))
			}
			return one(st, Val{})
		},
		"vcModifiesAll": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			cf.cst.modSet, cf.cst.modAll = true, true
			return one(st, Val{})
		},
		// vcFreshResult(i...): the i-th results are freshly allocated objects
		"vcFreshResult": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			for _, v := range x.variadic(st, args[0]) {
				n, _ := v.t.int64()
				if cf.cst.freshRes == nil {
					cf.cst.freshRes = map[int]bool{}
				}
				cf.cst.freshRes[int(n)] = true
			}
			return one(st, Val{})
		},
		// vcFreshOrNil(i...): nil or freshly allocated
		"vcFreshOrNil": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			for _, v := range x.variadic(st, args[0]) {
				n, _ := v.t.int64()
				if cf.cst.freshRes == nil {
					cf.cst.freshRes = map[int]bool{}
				}
				if cf.cst.nilRes == nil {
					cf.cst.nilRes = map[int]bool{}
				}
				cf.cst.freshRes[int(n)] = true
				cf.cst.nilRes[int(n)] = true
			}
			return one(st, Val{})
		},
		"vcOld": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			cf := cstFrame(fr)
			if cf == nil || cf.cst.pre == nil {
				panic(unsupported("vcOld before the target call"))
			}
			return one(st, x.evalClosure(st, fr, args[0], nil, mixHeaps(cf.cst.pre, st.heaps, cf.cst.clockPre), pos))
		},
		"vcEntry": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			f := x.invFrame
			if f == nil {
				panic(unsupported("vcEntry outside an invariant"))
			}
			return one(st, x.evalClosure(st, fr, args[0], nil, mixHeaps(f.entry, st.heaps, f.entryClk), pos))
		},
		"vcPre": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			if x.inv == nil {
				panic(unsupported("vcPre outside an invariant"))
			}
			return one(st, x.evalClosure(st, fr, args[0], nil, mixHeaps(x.inv.pre, st.heaps, x.inv.clk), pos))
		},
		"vcIter": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			if x.inv == nil {
				panic(unsupported("vcIter outside an invariant"))
			}
			return one(st, mkInt(x.inv.iter))
		},
		// vcHashed(h): the bytes written to a hash so far
		"vcHashed": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			a := Select(st.heap("hash.a", bytesSort(-1)), args[0].t)
			n := Select(st.heap("hash.n", SI64), args[0].t)
			return one(st, Val{k: vStr, ty: types.Typ[types.String], t: Ext(a, Zero, n), ln: n})
		},
		// vcVisited(m, k): the running range loop over m has passed key k
		"vcVisited": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			best := -1
			f := x.invFrame
			if f == nil {
				panic(unsupported("vcVisited outside an invariant"))
			}
			for _, v := range x.invEnv {
				if v.k == vIter && v.iter.m == args[0].t && v.iter.id > best {
					best = v.iter.id
				}
			}
			if best < 0 {
				panic(unsupported("vcVisited: no iterator over this map"))
			}
			vis := st.ghost[fmt.Sprintf("vis%d", best)].t
			return one(st, mkBool(Select(vis, keyTerm(args[1]))))
		},
		// vcCount(m): the number of keys the running range loop over m has passed
		"vcCount": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			best := -1
			f := x.invFrame
			if f == nil {
				panic(unsupported("vcCount outside an invariant"))
			}
			for _, v := range x.invEnv {
				if v.k == vIter && v.iter.m == args[0].t && v.iter.id > best {
					best = v.iter.id
				}
			}
			if best < 0 {
				panic(unsupported("vcCount: no iterator over this map"))
			}
			return one(st, mkInt(st.ghost[fmt.Sprintf("cnt%d", best)].t))
		},
		// vcSameMem(a, b): two slices start at the same memory
		"vcSameMem": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			a, b := args[0], args[1]
			return one(st, mkBool(And(Eq(a.t, b.t), Eq(a.off, b.off))))
		},
		"vcSep": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			vs := x.variadic(st, args[0])
			var cs []*Term
			for i := range vs {
				for j := 0; j < i; j++ {
					cs = append(cs, Not(Eq(vs[i].t, vs[j].t)))
				}
			}
			return one(st, mkBool(And(cs...)))
		},
		// vcFresh(x): the object x points to was allocated by the call
		"vcBytes": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			v := args[0]
			var t *Term
			if v.k == vStr {
				t = v.t
			} else {
				t = st.mem().bytesOf(v)
			}
			return one(st, Val{k: vMath, ty: fn.Signature.Results().At(0).Type(), t: t})
		},
		"vcGet": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			return one(st, mkScalar(Select(args[0].t, args[1].t), types.Typ[types.Uint8]))
		},
		"vcWrite": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			b := args[2]
			r := args[0]
			if b.k == vMath {
				panic(unsupported("vcWrite of vcArr"))
			}
			r.t = WriteArr(args[0].t, args[1].t, st.mem().region(b.t), b.off, b.ln)
			return one(st, r)
		},
		"vcSub": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			r := args[0]
			r.t = Ext(args[0].t, args[1].t, args[2].t)
			return one(st, r)
		},
		"vcSame": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			return one(st, mkBool(Eq(args[0].t, args[1].t)))
		},
		"vcNondet": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			return one(st, symVal("nd", fn.Signature.Results().At(0).Type(), func(t *Term) { st.assume(t) }))
		},
		"vcPow2": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			return one(st, mkInt(pow2Term(args[0].t)))
		},
		"vcPendingClear": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
			return one(st, Val{})
		},
	}
}

func ufHandler(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
	var ts []*Term
	for _, a := range args {
		if a.k == vSlice && isByteType(under(a.ty).(*types.Slice).Elem()) {
			ts = append(ts, st.mem().bytesOf(a), a.ln)
			continue
		}
		ts = append(ts, comps(a)...)
	}
	rt := fn.Signature.Results().At(0).Type()
	ls := valLeaves(rt)
	var rs []*Term
	for _, l := range ls {
		rs = append(rs, App(fn.Name()+l.name, l.sort, ts...))
	}
	v, _ := fromComps(rt, rs)
	if v.k == vStr {
		v.t = Ext(v.t, Zero, v.ln)
	}
	return one(st, v)
}

// ---------------------------------------------------------------- contracts

// verifyUnit checks one contract or lemma.
func (x *Exec) verifyUnit(u *Unit) {
	x.unit = u.Name
	st := &State{heaps: map[string]*Term{}, env: map[ssa.Value]Val{}, ghost: map[string]Val{}}
	st.facts = nil
	fn := u.fn
	fr := &Frame{fn: fn, spec: true, unit: u, mode: "verify", cst: &contractState{target: u.target, ifaceM: ""}}
	fr.entry = st.heaps
	fr.entryClk = clock
	st.activate()
	var args []Val
	for _, p := range fn.Params {
		v := symVal(p.Name(), p.Type(), func(t *Term) { st.assume(t) })
		args = append(args, v)
		st.env[p] = v
	}
	// distinct inputs of pointer type do not lie inside each other
	x.assumeInputs(st, fn, args)
	fr.args = args
	x.assumeGlobals(st, fr)
	as := x.runBlock(st, fr, fn.Blocks[0], nil)
	n := 0
	for _, a := range as {
		if a.st.feasible() {
			n++
		}
	}
	if u.Kind == "contract" && !fr.cst.everCalled {
		x.problem(u.Name + ": the contract never calls its target")
	}
	x.exits[u.Name] = append(x.exits[u.Name], exitFacts(as)...)
}

func exitFacts(as []Arrival) []*Facts {
	var out []*Facts
	for _, a := range as {
		out = append(out, a.st.facts)
	}
	return out
}

func (x *Exec) problem(s string) { x.problems = append(x.problems, s) }

func (x *Exec) assumeInputs(st *State, fn *ssa.Function, args []Val) {}

// assumeGlobals assumes the global invariants (ginv_*): facts about package
// variables established by package initialisation and never changed.
func (x *Exec) assumeGlobals(st *State, fr *Frame) {
	for _, g := range x.ginvs {
		outs := x.callFn(st.clone(), fr, g, nil, nil, true, g.Pos())
		if len(outs) == 1 {
			for _, t := range newFacts(st.facts, outs[0].st.facts) {
				st.assume(t)
			}
			st.assume(outs[0].ret.t)
			x.note("package variables keep their initial values: " + g.Name())
		}
	}
}

func (f *Frame) caller() *Frame {
	if f.parent != nil {
		return f.parent
	}
	return f
}

func (x *Exec) useContract(st *State, fr *Frame, con *ssa.Function, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
	if x.dry == 0 {
		x.usedConts[con.Name()] = true
		if !x.usedSet[con] {
			x.usedSet[con] = true
			x.usedOrder = append(x.usedOrder, con)
			if fn == nil {
				x.note("assumed contract of the interface method " + x.ifaceTarget[con])
			}
		}
	}
	x.frameID++
	nf := &Frame{fn: con, spec: true, parent: fr, depth: fr.depth + 1, args: args, id: x.frameID, mode: "use",
		cst: &contractState{target: fn}, callPos: pos}
	if fn == nil {
		nf.cst.ifaceM = x.ifaceTarget[con]
	}
	nf.entry = st.heaps
	nf.entryClk = clock
	outer := st.env
	outerDefers := st.defers
	ns := st.clone()
	ns.env = map[ssa.Value]Val{}
	ns.defers = nil
	for i, p := range con.Params {
		ns.env[p] = args[i]
	}
	as := x.runBlock(ns, nf, con.Blocks[0], nil)
	var outs []callOut
	for _, a := range as {
		a.st.env = make(map[ssa.Value]Val, len(outer)+4)
		for k, v := range outer {
			a.st.env[k] = v
		}
		a.st.defers = append([]deferred(nil), outerDefers...)
		outs = append(outs, callOut{a.st, nf.cst.res})
	}
	return outs
}

func allKnownHeaps(st *State) []string {
	var out []string
	for n := range heapSorts {
		out = append(out, n)
	}
	return out
}

// contractTarget handles the call of the target inside its contract.
func (x *Exec) contractTarget(st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
	cst := fr.cst
	if fr.mode == "verify" {
		cst.everCalled = true
		pre := st.heaps
		clk := clock
		x.vacuity(st, fr)
		outs := x.callFn(st, fr, fn, args, nil, false, pos)
		var res []callOut
		for _, o := range outs {
			if !o.st.feasible() {
				continue
			}
			cst.pre = pre
			cst.clockPre = clk
			x.checkPending(o.st, fr, pos)
			if cst.panicIf != nil {
				x.oblige(o.st, fr, "ensures", "panics when it must", pos, Not(cst.panicIf))
			}
			x.checkFrame(o.st, fr, pre, clk, pos)
			x.checkFreshRes(o, fr, clk, pos)
			res = append(res, o)
		}
		return res
	}
	// use: havoc
	pre := st.heaps
	cst.pre = pre
	cst.clockPre = clock
	ns := st.clone()
	if cst.modAll {
		for _, hn := range allKnownHeaps(ns) {
			ns.heaps[hn] = NewVar("C:"+hn, heapSorts[hn])
		}
	} else {
		regs := append([]Region(nil), cst.modifies...)
		for _, hn := range allKnownHeaps(ns) {
			h := getHeap(ns.heaps, hn, heapSorts[hn].Elem)
			rs := relevantRegions(hn, regs)
			if len(rs) == 0 {
				continue
			}
			var whole, part []Region
			for _, r := range rs {
				if r.Off != nil && heapSorts[hn].Elem.Kind == "arr" {
					part = append(part, r)
				} else {
					whole = append(whole, r)
				}
			}
			if len(whole) > 0 {
				h = HMerge(NewVar("C:"+hn, heapSorts[hn]), h, whole)
			}
			for _, r := range part {
				c := NewVar("C:"+hn, heapSorts[hn].Elem)
				h = Store(h, r.Ref, WriteArr(Select(h, r.Ref), r.Off, c, r.Off, r.Len))
			}
			ns.heaps[hn] = h
		}
	}
	// fresh objects: contents of newly allocated memory are unknown; they are
	// distinguished by clock, so heaps at newer roots read from new variables
	clkNew := clock
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	} else {
		sig = x.ifaceSig(cst.ifaceM)
	}
	var ret Val
	var rts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		rts = append(rts, sig.Results().At(i).Type())
	}
	var vals []Val
	fresh := map[int]*Term{}
	for i, t := range rts {
		v := symVal("r", t, func(t *Term) { ns.assume(t) })
		if cst.freshRes[i] {
			r := NewRoot()
			v.t = r
			if v.k == vSlice {
				v.off = Zero
				maybeNil[r] = true
			}
			if v.k == vScalar && cst.nilRes[i] {
				fresh[i] = r
				v.t = Ite(NewVar("isnil", SBool), Null, r)
			}
		}
		vals = append(vals, v)
	}
	if clock > clkNew || true {
		for _, hn := range allKnownHeaps(ns) {
			h := getHeap(ns.heaps, hn, heapSorts[hn].Elem)
			_ = h
		}
	}
	fvals := append([]Val{}, vals...)
	for i, r := range fresh {
		fvals[i].t = r
	}
	x.freshContents(ns, fvals, rts, cst.freshRes)
	switch len(vals) {
	case 0:
	case 1:
		ret = vals[0]
	default:
		ret = Val{k: vTuple, ty: sig.Results(), a: vals}
	}
	cst.res = ret
	cst.called = true
	return one(ns, ret)
}

// freshContents: the memory of fresh results holds unknown values.
func (x *Exec) freshContents(st *State, vals []Val, rts []types.Type, fresh map[int]bool) {
	for i, v := range vals {
		if !fresh[i] {
			continue
		}
		var hs []heapInfo
		switch u := under(rts[i]).(type) {
		case *types.Pointer:
			hs = leafHeaps(u.Elem())
		case *types.Slice:
			if isByteType(u.Elem()) {
				hs = []heapInfo{{"B", bytesSort(-1)}}
			} else if isScalarType(u.Elem()) {
				hs = []heapInfo{{"a:" + scalarHeap(u.Elem()), arrSort(SInt, scalarSort(u.Elem()), -1)}}
			} else {
				hs = leafHeaps(u.Elem())
			}
		case *types.Map:
			hs = mapHeaps(u)
		}
		for _, h := range hs {
			cur := st.heap(h.name, h.elem)
			st.setHeap(h.name, HMerge(NewVar("N:"+h.name, heapSorts[h.name]), cur, []Region{{Kind: "U", Ref: v.t}}))
		}
	}
}

// relevantRegions filters regions that cannot lie in a heap.
func relevantRegions(hn string, regs []Region) []Region {
	var out []Region
	for _, r := range regs {
		if r.Heaps == nil || r.Heaps[hn] {
			out = append(out, r)
		}
	}
	return out
}

func (x *Exec) checkFreshRes(o callOut, fr *Frame, clk int, pos token.Pos) {
	if fr.cst.freshRes == nil {
		return
	}
	vals := []Val{o.ret}
	if o.ret.k == vTuple {
		vals = o.ret.a
	}
	for i := range vals {
		if !fr.cst.freshRes[i] {
			continue
		}
		var leaves []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.op == OpIte {
				walk(t.args[1])
				walk(t.args[2])
				return
			}
			leaves = append(leaves, t)
		}
		walk(vals[i].t)
		for _, t := range leaves {
			r := t
			ok := r.op == OpRoot && r.i.Sign() > 0 && r.i.Int64() > int64(clk)
			if r == Null && (vals[i].k == vSlice || fr.cst.nilRes[i]) {
				ok = true
			}
			x.oblige(o.st, fr, "fresh", fmt.Sprintf("result%d", i), pos, KBool(ok))
		}
	}
}

// checkFrame: everything that existed before and is not listed is unchanged.
func (x *Exec) checkFrame(st *State, fr *Frame, pre map[string]*Term, clk int, pos token.Pos) {
	cst := fr.cst
	if cst.modAll || x.dry > 0 {
		return
	}
	st.activate()
	for _, hn := range sortedKeys(allHeapNames(st.heaps, pre)) {
		h := getHeap(st.heaps, hn, heapSorts[hn].Elem)
		b := getHeap(pre, hn, heapSorts[hn].Elem)
		if h == b {
			continue
		}
		seen := map[string]bool{}
		collectMods(h, b, func(r Region) {
			if seen[regKey(r)] {
				return
			}
			seen[regKey(r)] = true
			goal := x.regionCovered(r, relevantRegions(hn, cst.modifies), clk, h, b)
			if goal == True {
				return
			}
			if r.Kind == "X" && goal != True {
				// or the value is unchanged
				goal = Or(goal, Eq(Select(h, r.Ref), Select(b, r.Ref)))
			}
			if os.Getenv("GDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "FRAME", hn, regKey(r), r.Kind, r.Fid, r.Ref, clk)
			}
			x.oblige(st, fr, "frame", hn, pos, goal)
		}, map[*Term]bool{})
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func (x *Exec) regionCovered(r Region, mods []Region, clk int, h, b *Term) *Term {
	fresh := func(a *Term) bool {
		rt := rootOf(a)
		return rt.op == OpRoot && rt.i.Sign() > 0 && rt.i.Int64() > int64(clk)
	}
	switch r.Kind {
	case "N":
		return KBool(r.Fid >= clk)
	case "X", "U":
		if r.Ref.op == OpIte {
			return Ite(r.Ref.args[0], x.regionCovered(Region{Kind: r.Kind, Ref: r.Ref.args[1]}, mods, clk, h, b), x.regionCovered(Region{Kind: r.Kind, Ref: r.Ref.args[2]}, mods, clk, h, b))
		}
		if fresh(r.Ref) {
			return True
		}
		var cs []*Term
		for _, m := range mods {
			if m.Kind == "X" && r.Kind == "U" {
				continue
			}
			if r.Kind == "U" && m.Kind == "F" {
				// everything under a field is covered when the base is that field
				if r.Ref.op == OpFa && int(r.Ref.i.Int64()) == m.Fid {
					return True
				}
				continue
			}
			in := inRegion(m, r.Ref)
			if m.Off != nil && r.Kind == "X" && in != False && h.sort.Elem.Kind == "arr" {
				i := NewBound("i", SInt)
				in = And(in, Forall([]*Term{i}, Or(And(Le(m.Off, i), Lt(i, Add(m.Off, m.Len))), Eq(Select(Select(h, r.Ref), i), Select(Select(b, r.Ref), i)))))
			}
			cs = append(cs, in)
		}
		return Or(cs...)
	case "F", "E":
		for _, m := range mods {
			if m.Kind == r.Kind && m.Fid == r.Fid {
				return True
			}
		}
	}
	return False
}

func (x *Exec) vacuity(st *State, fr *Frame) {
	x.vac = append(x.vac, vacCheck{fr.unit.Name, st.facts})
}

type vacCheck struct {
	unit  string
	facts *Facts
}

func (x *Exec) ifaceSig(m string) *types.Signature { return x.ifaceSigs[m] }

var _ = constant.MakeBool
