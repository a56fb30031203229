package main

// Loops: unrolling when the trip count is decided, otherwise cutting by
// invariants with automatic frame discovery.

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 80

func (x *Exec) enterLoop(st *State, fr *Frame, l *loopInfo, stops map[*ssa.BasicBlock]bool) []Arrival {
	inv := x.findInv(fr, l)
	if inv == nil || !x.exactInv(fr, l, inv) {
		if outs, ok := x.tryUnroll(st, fr, l, stops); ok {
			return outs
		}
	}
	return x.cutLoop(st, fr, l, inv, stops)
}

func nPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

// peek decides the header condition without side effects: 1 stays, 0 leaves.
func (x *Exec) peek(st *State, fr *Frame, l *loopInfo) (d int) {
	last, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	for _, in := range l.header.Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Next, *ssa.Go, *ssa.Send:
			return -1
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsup); ok {
				d = -1
				return
			}
			panic(r)
		}
	}()
	s := st.clone()
	x.dry++
	defer func() { x.dry-- }()
	s.activate()
	for _, in := range l.header.Instrs[nPhis(l.header) : len(l.header.Instrs)-1] {
		x.doInstr(s, fr, in)
	}
	c := x.val(s, fr, last.Cond).t
	r := s.facts.decide(c, true)
	if r < 0 {
		return -1
	}
	stay := l.body[l.header.Succs[0]]
	if (r == 1) == stay {
		return 1
	}
	return 0
}

func (x *Exec) tryUnroll(st0 *State, fr *Frame, l *loopInfo, stops map[*ssa.BasicBlock]bool) ([]Arrival, bool) {
	mark := len(x.obligs)
	occ := map[string]int{}
	for k, v := range x.occ {
		occ[k] = v
	}
	fail := func() ([]Arrival, bool) {
		x.obligs = x.obligs[:mark]
		x.occ = occ
		return nil, false
	}
	if x.peek(st0, fr, l) < 0 {
		return nil, false
	}
	inner := withStop(stops, l.header)
	work := []*State{st0.clone()}
	var out []Arrival
	for iter := 0; len(work) > 0; iter++ {
		if iter > maxUnroll || len(work) > 24 {
			return fail()
		}
		var next []*State
		for _, s := range work {
			if !s.feasible() {
				continue
			}
			if x.peek(s, fr, l) < 0 {
				return fail()
			}
			for _, a := range x.runFrom(s, fr, l.header, nPhis(l.header), inner) {
				if a.block == l.header {
					next = append(next, a.st)
				} else {
					out = append(out, a)
				}
			}
		}
		work = next
	}
	return out, true
}

// ---------------------------------------------------------------- invariants

func baseFuncName(fn *ssa.Function) string {
	n := fn.Name()
	if fn.Parent() != nil {
		return strings.ReplaceAll(n, "$", "_")
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nm, ok := types.Unalias(t).(*types.Named); ok {
			return nm.Obj().Name() + "_" + n
		}
	}
	return n
}

func (x *Exec) findInv(fr *Frame, l *loopInfo) *ssa.Function {
	fn := fr.fn
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg == nil {
		return nil
	}
	name := baseFuncName(fn)
	if fn.Parent() != nil {
		// closures: <outer>_<n>
		outer := baseFuncName(p)
		name = outer + strings.ReplaceAll(strings.TrimPrefix(fn.Name(), p.Name()), "$", "_")
	}
	cands := []*ssa.Function{}
	if f := p.Pkg.Func(fmt.Sprintf("inv_%s_%d", name, l.index)); f != nil {
		cands = append(cands, f)
	}
	// after a change of loop structure the numbering may shift: any invariant
	// of this function (or, for helpers without one, of a caller) whose
	// parameters resolve here is a candidate
	for k := 0; k < 8; k++ {
		if k == l.index {
			continue
		}
		if f := p.Pkg.Func(fmt.Sprintf("inv_%s_%d", name, k)); f != nil {
			cands = append(cands, f)
		}
	}
	if len(cands) == 0 && fr.parent != nil && !fr.spec {
		for q := fr.parent; q != nil && q.fn != nil && q.cst == nil; q = q.parent {
			if q.fn.Pkg != p.Pkg {
				continue
			}
			for k := 0; k < 8; k++ {
				if f := p.Pkg.Func(fmt.Sprintf("inv_%s_%d", baseFuncName(q.fn), k)); f != nil {
					cands = append(cands, f)
				}
			}
		}
	}
	exact := fmt.Sprintf("inv_%s_%d", name, l.index)
	for _, f := range cands {
		if f.Name() != exact && !x.invResolves(fr, l, f) {
			continue
		}
		return f
	}
	return nil
}

// exactInv: the invariant was written for this very loop.
func (x *Exec) exactInv(fr *Frame, l *loopInfo, f *ssa.Function) bool {
	if fr.fn.Parent() != nil {
		return true
	}
	return f.Name() == fmt.Sprintf("inv_%s_%d", baseFuncName(fr.fn), l.index)
}

func (x *Exec) invResolves(fr *Frame, l *loopInfo, f *ssa.Function) bool {
	phiNeeded := false
	for _, p := range f.Params {
		src := x.findName(fr, l, p.Name(), p.Type())
		if src == nil {
			return false
		}
		if ph, ok := src.(*ssa.Phi); ok && ph.Block() == l.header {
			phiNeeded = true
		}
	}
	return phiNeeded || len(l.header.Instrs) > 0 && nPhis(l.header) == 0
}

// findName resolves a source-level name at a loop header.
func (x *Exec) findName(fr *Frame, l *loopInfo, name string, t types.Type) ssa.Value {
	if strings.HasPrefix(name, "in_") { // a parameter's value at entry
		for _, p := range fr.fn.Params {
			if p.Name() == name[3:] {
				return p
			}
		}
	}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == name {
			return p
		}
	}
	// DebugRefs naming a phi of this header
	var best ssa.Value
	var bestBlk *ssa.BasicBlock
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok {
				continue
			}
			id, ok := d.Expr.(*ast.Ident)
			if !ok || id.Name != name {
				continue
			}
			if ph, ok := d.X.(*ssa.Phi); ok && ph.Block() == l.header && !d.IsAddr {
				return ph
			}
			if d.IsAddr {
				if a, ok := d.X.(*ssa.Alloc); ok {
					return a
				}
				if f, ok := d.X.(*ssa.FreeVar); ok {
					return f
				}
				continue
			}
			if v, ok := d.X.(ssa.Instruction); ok {
				vb := v.Block()
				if vb != nil && vb.Dominates(l.header) && vb != l.header || vb == l.header && isPhi(d.X) {
					if !types.Identical(d.X.Type(), t) {
						continue
					}
					if best == nil || bestBlk.Dominates(vb) {
						best, bestBlk = d.X, vb
					}
				}
			}
		}
	}
	if best != nil {
		return best
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			return p
		}
	}
	for _, p := range fr.fn.FreeVars {
		if p.Name() == name {
			return p
		}
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				return a
			}
		}
	}
	return nil
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }

func (x *Exec) invArgs(st *State, fr *Frame, l *loopInfo, inv *ssa.Function) ([]Val, error) {
	var args []Val
	for _, p := range inv.Params {
		src := x.findName(fr, l, p.Name(), p.Type())
		if src == nil {
			return nil, fmt.Errorf("invariant %s: no variable %s in %s", inv.Name(), p.Name(), fr.fn.Name())
		}
		v, ok := st.env[src]
		if !ok {
			return nil, fmt.Errorf("invariant %s: %s not defined at the loop in %s", inv.Name(), p.Name(), fr.fn.Name())
		}
		if !types.Identical(src.Type(), p.Type()) {
			if pt, ok := src.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), p.Type()) {
				v = st.mem().load(v.t, p.Type())
			} else {
				return nil, fmt.Errorf("invariant %s: %s has type %s", inv.Name(), p.Name(), src.Type())
			}
		}
		args = append(args, v)
	}
	return args, nil
}

type invCtx struct {
	pre  map[string]*Term
	clk  int
	iter *Term
	prev *invCtx
}

func (x *Exec) evalInv(st *State, fr *Frame, l *loopInfo, inv *ssa.Function, pre map[string]*Term, clk int, iter *Term) *Term {
	args, err := x.invArgs(st, fr, l, inv)
	if err != nil {
		panic(unsupported(err.Error()))
	}
	saved := x.inv
	x.inv = &invCtx{pre: pre, clk: clk, iter: iter, prev: saved}
	savedFr := x.invFrame
	x.invFrame = fr
	savedEnv := x.invEnv
	x.invEnv = st.env
	defer func() { x.inv = saved; x.invFrame = savedFr; x.invEnv = savedEnv }()
	outs := x.callFn(st.clone(), fr, inv, args, nil, true, inv.Pos())
	if len(outs) != 1 {
		panic(unsupported(fmt.Sprintf("invariant %s has %d outcomes", inv.Name(), len(outs))))
	}
	// well-formedness facts learnt while reading are kept
	f := st.facts
	for _, t := range newFacts(f, outs[0].st.facts) {
		if !t.bnd {
			f = f.with(t)
		}
	}
	st.facts = f
	return outs[0].ret.t
}

func newFacts(base, f *Facts) []*Term {
	var out []*Term
	for p := f; p != base && p != nil; p = p.parent {
		out = append(out, p.t)
	}
	return reverseT(out)
}

func conjuncts(t *Term) []*Term {
	if t.op == OpAnd {
		return t.args
	}
	return []*Term{t}
}

// ---------------------------------------------------------------- cutting

type phiPlan struct {
	phi    *ssa.Phi
	entry  Val
	stable []bool  // per component
	stride []*Term // non-nil: counter with this constant stride
	// a slice that starts nil and only grows by append: its elements are in an
	// object allocated by the loop
	grown bool
}

// maybeNil: objects standing for a slice that may also still be nil.
var maybeNil = map[*Term]bool{}

func isNewRoot(t *Term, clk int) bool { return t.op == OpRoot && t.i.Sign() > 0 && t.birth > clk }

func safeComps(v Val) (cs []*Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsup); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	if v.k == vEPtr {
		return []*Term{v.t, v.off}, true
	}
	if v.k == vIter || v.k == vFunc {
		return nil, false
	}
	return comps(v), true
}

func (x *Exec) havocPhi(p *phiPlan, iter *Term, assume func(*Term)) Val {
	cs, ok := safeComps(p.entry)
	if !ok {
		return p.entry // must stay identical; checked at back edges
	}
	all := true
	for i := range cs {
		if !p.stable[i] {
			all = false
		}
	}
	if all {
		return p.entry
	}
	name := p.phi.Comment
	if name == "" {
		name = p.phi.Name()
	}
	fresh := symVal(name, p.phi.Type(), func(*Term) {})
	fcs := comps(fresh)
	for i := range cs {
		if p.stable[i] {
			fcs[i] = cs[i]
		} else if p.stride[i] != nil {
			fcs[i] = Add(cs[i], Mul(p.stride[i], iter))
		}
	}
	v, _ := fromComps(p.phi.Type(), fcs)
	if p.grown {
		v.t = NewRoot()
		v.off = Zero
		maybeNil[v.t] = true
	}
	if v.k == vSlice {
		wfSlice(v, assume)
	}
	if v.k == vStr {
		assume(Ge0(v.ln))
		v.t = Ext(v.t, Zero, v.ln)
	}
	for i := range fcs {
		if p.stride[i] != nil && !p.stable[i] && fcs[i].sort.Lo == nil {
			// a counter stays inside its type
			if s := phiCompSort(p.phi.Type()); s != nil && s.Lo != nil {
				assume(And(Ge(fcs[i], KB(s.Lo)), Le(fcs[i], KB(s.Hi))))
			}
		}
	}
	return v
}

func phiCompSort(t types.Type) *Sort {
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return basicSort(b)
	}
	return nil
}

// loopVarStable: t mentions nothing created after the mark.
func stableTerm(t *Term, mark int, memo map[*Term]bool) bool {
	if t.id <= mark {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := true
	switch t.op {
	case OpVar:
		r = strings.HasPrefix(t.name, "H0:") || !strings.Contains(t.name, "!")
	case OpRoot:
		r = t.i.Sign() < 0
	case OpBound:
		r = true
	default:
		for _, a := range t.args {
			if !stableTerm(a, mark, memo) {
				r = false
				break
			}
		}
	}
	memo[t] = r
	return r
}

func collectMods(h, base *Term, add func(Region), seen map[*Term]bool) {
	for {
		if h == base || seen[h] {
			return
		}
		seen[h] = true
		switch h.op {
		case OpStore:
			add(Region{Kind: "X", Ref: h.args[1]})
			h = h.args[0]
		case OpHMerge:
			for _, r := range hmRegions(h) {
				add(r)
			}
			h = h.args[1]
		case OpHCopy:
			add(Region{Kind: "U", Ref: h.args[1]})
			h = h.args[0]
		case OpHRange:
			add(Region{Kind: "U", Ref: h.args[1]})
			h = h.args[0]
		case OpIte:
			collectMods(h.args[1], base, add, seen)
			h = h.args[2]
		default:
			// the base may have writes which h has overwritten
			var rs []Region
			for b := base; b != h; {
				switch b.op {
				case OpStore:
					rs = append(rs, Region{Kind: "X", Ref: b.args[1]})
					b = b.args[0]
				case OpHMerge:
					rs = append(rs, hmRegions(b)...)
					b = b.args[1]
				case OpHCopy, OpHRange:
					rs = append(rs, Region{Kind: "U", Ref: b.args[1]})
					b = b.args[0]
				default:
					add(Region{Kind: "A"})
					return
				}
			}
			for _, r := range rs {
				add(r)
			}
			return
		}
	}
}

func generalize(r Region, mark, clk int, memo map[*Term]bool) []Region {
	switch r.Kind {
	case "X", "U":
		a := r.Ref
		if a.op == OpIte {
			var out []Region
			for _, b := range a.args[1:] {
				out = append(out, generalize(Region{Kind: r.Kind, Ref: b}, mark, clk, memo)...)
			}
			return out
		}
		if stableTerm(a, mark, memo) {
			return []Region{r}
		}
		rt := rootOf(a)
		if rt.op == OpRoot && rt.i.Sign() > 0 && rt.i.Int64() > int64(clk) {
			return []Region{{Kind: "N", Fid: clk}}
		}
		if a.op == OpFa && r.Kind == "X" {
			// fields inside an element of a stable array
			for t := a.args[0]; ; t = t.args[0] {
				if t.op == OpEl && stableTerm(t.args[0], mark, memo) {
					return []Region{{Kind: "U", Ref: t.args[0]}}
				}
				if t.op != OpFa && t.op != OpEl {
					break
				}
			}
			return []Region{{Kind: "F", Fid: int(a.i.Int64())}}
		}
		if a.op == OpEl {
			for t := a; t.op == OpFa || t.op == OpEl; t = t.args[0] {
				if t.op == OpEl && stableTerm(t.args[0], mark, memo) {
					return []Region{{Kind: "U", Ref: t.args[0]}}
				}
			}
			if r.Kind == "X" && a.args[0].op == OpFa {
				return []Region{{Kind: "E", Fid: int(a.args[0].i.Int64())}}
			}
		}
		return []Region{{Kind: "A"}}
	case "N":
		if r.Fid >= clk {
			return []Region{{Kind: "N", Fid: clk}}
		}
		return []Region{r}
	}
	return []Region{r}
}

func regKey(r Region) string {
	k := fmt.Sprintf("%s%d", r.Kind, r.Fid)
	if r.Ref != nil {
		k += fmt.Sprintf("@%d", r.Ref.id)
	}
	return k
}

func addRegions(regs map[string][]Region, heap string, rs []Region) bool {
	changed := false
outer:
	for _, r := range rs {
		for _, o := range regs[heap] {
			if regKey(o) == regKey(r) || o.Kind == "A" {
				continue outer
			}
			if o.Kind == "U" && r.Kind == "X" && underRegion(r.Ref, o.Ref) {
				continue outer
			}
		}
		if r.Kind == "A" {
			regs[heap] = []Region{r}
		} else {
			regs[heap] = append(regs[heap], r)
		}
		changed = true
	}
	return changed
}

func underRegion(a, base *Term) bool {
	for {
		if a == base {
			return true
		}
		if a.op != OpFa && a.op != OpEl {
			return false
		}
		a = a.args[0]
	}
}

func (x *Exec) cutLoop(st *State, fr *Frame, l *loopInfo, inv *ssa.Function, stops map[*ssa.BasicBlock]bool) []Arrival {
	st.activate()
	pre := st.heaps
	preClk := clock
	var plans []*phiPlan
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pl := &phiPlan{phi: p, entry: st.env[p]}
		if cs, ok := safeComps(pl.entry); ok {
			pl.stable = make([]bool, len(cs))
			pl.stride = make([]*Term, len(cs))
		}
		pl.grown = pl.entry.k == vSlice && pl.entry.t == Null && !fr.spec
		plans = append(plans, pl)
	}
	if inv != nil {
		g := x.evalInv(st, fr, l, inv, pre, preClk, Zero)
		for i, c := range conjuncts(g) {
			x.oblige(st, fr, "inv-entry", fmt.Sprintf("%s.%d", inv.Name(), i), l.header.Instrs[0].Pos(), c)
		}
	} else if !fr.spec {
		x.noInv[fmt.Sprintf("%s loop %d", fr.fn.String(), l.index)] = true
	}
	mark := termCount
	regs := map[string][]Region{}
	ghostMod := map[string]bool{}
	inner := withStop(stops, l.header)

	setup := func() (*State, *Term) {
		s := st.clone()
		iter := NewVar("iter", intSort("nat", K(0).i, nil))
		for _, p := range plans {
			s.env[p.phi] = x.havocPhi(p, iter, func(t *Term) { s.assume(t) })
		}
		for hn, rs := range regs {
			h := getHeap(s.heaps, hn, heapSorts[hn].Elem)
			f := NewVar("L:"+hn, heapSorts[hn])
			m := HMerge(f, h, rs)
			for _, r := range relevantRegions(hn, x.partMods) {
				// elements outside the declared range stay; checked at back edges
				if heapSorts[hn].Elem.Kind == "arr" && Select(m, r.Ref) != Select(h, r.Ref) {
					m = Store(m, r.Ref, WriteArr(Select(h, r.Ref), r.Off, Select(m, r.Ref), r.Off, r.Len))
				}
			}
			s.heaps[hn] = m
		}
		for g := range ghostMod {
			v := s.ghost[g]
			s.ghost[g] = Val{k: vMath, ty: v.ty, t: NewVar(g, v.t.sort)}
		}
		s.activate()
		x.autoBounds(s, fr, l, plans)
		if inv != nil {
			g := x.evalInv(s, fr, l, inv, pre, preClk, iter)
			s.assume(g)
			// where the invariant says a cell of pointers (a slice's memory) still
			// holds an old value, use that value
			memo := map[*Term]bool{}
			for _, c := range conjuncts(g) {
				if c.op != OpEq || len(c.args) != 2 || c.args[0].sort != SRef {
					continue
				}
				for k, t := range c.args {
					o := c.args[1-k]
					if t.op != OpSelect || t.args[0].op != OpVar || t.args[0].id <= mark || !stableTerm(t.args[1], mark, memo) || !stableTerm(o, mark, memo) {
						continue
					}
					for hn, h := range s.heaps {
						if h.op == OpHMerge && h.args[0] == t.args[0] {
							s.heaps[hn] = Store(h, t.args[1], o)
						}
					}
				}
			}
		}
		return s, iter
	}
	// discovery
	first := true
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop frame discovery does not converge in " + fr.fn.String()))
		}
		changed := false
		s, _ := setup()
		base := s.heaps
		baseGhost := s.ghost
		head := map[*phiPlan]Val{}
		for _, p := range plans {
			head[p] = s.env[p.phi]
		}
		x.dry++
		markR := mark
		clkR := preClk
		as := x.runFrom(s.clone(), fr, l.header, nPhis(l.header), inner)
		x.dry--
		memo := map[*Term]bool{}
		nstable := map[*phiPlan][]bool{}
		nstride := map[*phiPlan][]*Term{}
		firstArr := true
		for _, a := range as {
			if a.block != l.header {
				continue
			}
			for hn := range allHeapNames(a.st.heaps, base) {
				h := getHeap(a.st.heaps, hn, heapSorts[hn].Elem)
				b := getHeap(base, hn, heapSorts[hn].Elem)
				if h == b {
					continue
				}
				collectMods(h, b, func(r Region) {
					if addRegions(regs, hn, generalize(r, markR, clkR, memo)) {
						changed = true
					}
				}, map[*Term]bool{})
			}
			for g, v := range a.st.ghost {
				if w, ok := baseGhost[g]; ok && v.t != w.t && !ghostMod[g] {
					ghostMod[g] = true
					changed = true
				}
			}
			a.st.activate()
			for _, p := range plans {
				if p.stable == nil {
					continue
				}
				hc, _ := safeComps(head[p])
				bc, ok := safeComps(a.st.env[p.phi])
				if !ok {
					continue
				}
				if p.grown {
					if bv := a.st.env[p.phi]; !isNewRoot(bv.t, preClk) && bv.t != Null || bv.off != Zero && bv.t != Null {
						p.grown = false
						changed = true
					}
				}
				if nstable[p] == nil {
					nstable[p] = make([]bool, len(hc))
					nstride[p] = make([]*Term, len(hc))
				}
				for i := range hc {
					same := hc[i] == bc[i]
					var stride *Term
					if hc[i].sort.Kind == "int" {
						d := Sub(bc[i], hc[i])
						if d.op == OpConst {
							stride = d
						}
					}
					if firstArr {
						nstable[p][i] = same
						nstride[p][i] = stride
					} else {
						nstable[p][i] = nstable[p][i] && same
						if nstride[p][i] != stride {
							nstride[p][i] = nil
						}
					}
				}
			}
			firstArr = false
		}
		if first {
			for _, p := range plans {
				if p.stable != nil && nstable[p] != nil {
					p.stable, p.stride = nstable[p], nstride[p]
				} else if p.stable != nil {
					// no back edge reached
					for i := range p.stable {
						p.stable[i] = true
					}
				}
			}
			first = false
			changed = true
			regs = map[string][]Region{} // found with every loop variable unknown
		} else {
			// verify the plan still holds, weaken where it does not
			for _, p := range plans {
				if p.stable == nil || nstable[p] == nil {
					continue
				}
				for i := range p.stable {
					if p.stable[i] && !nstable[p][i] {
						p.stable[i] = false
						changed = true
					}
					if p.stride[i] != nil && nstride[p][i] != p.stride[i] && !p.stable[i] {
						p.stride[i] = nil
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// the real iteration
	s, iter := setup()
	base := s.heaps
	head := map[*phiPlan]Val{}
	for _, p := range plans {
		head[p] = s.env[p.phi]
	}
	as := x.runFrom(s.clone(), fr, l.header, nPhis(l.header), inner)
	var out []Arrival
	memo := map[*Term]bool{}
	for _, a := range as {
		if a.block != l.header {
			out = append(out, a)
			continue
		}
		a.st.activate()
		// frame and phi plans must hold for the real run
		for hn := range allHeapNames(a.st.heaps, base) {
			h := getHeap(a.st.heaps, hn, heapSorts[hn].Elem)
			b := getHeap(base, hn, heapSorts[hn].Elem)
			if h == b {
				continue
			}
			collectMods(h, b, func(r Region) {
				tmp := map[string][]Region{hn: append([]Region(nil), regs[hn]...)}
				if addRegions(tmp, hn, generalize(r, mark, preClk, memo)) {
					panic(unsupported("loop frame changed between discovery and proof in " + fr.fn.String()))
				}
			}, map[*Term]bool{})
		}
		for hn := range regs {
			for _, r := range relevantRegions(hn, x.partMods) {
				if heapSorts[hn].Elem.Kind != "arr" {
					continue
				}
				h, b := Select(getHeap(a.st.heaps, hn, heapSorts[hn].Elem), r.Ref), Select(getHeap(base, hn, heapSorts[hn].Elem), r.Ref)
				if h == b {
					continue
				}
				i := NewBound("i", SInt)
				x.obligeQuiet(a.st, fr, "loop-frame", hn, Forall([]*Term{i}, Or(And(Le(r.Off, i), Lt(i, Add(r.Off, r.Len))), Eq(Select(h, i), Select(b, i)))))
			}
		}
		for _, p := range plans {
			bv := a.st.env[p.phi]
			if p.stable == nil {
				if !sameVal(bv, head[p]) {
					panic(unsupported("loop-carried function or iterator value in " + fr.fn.String()))
				}
				continue
			}
			if p.grown {
				if !isNewRoot(bv.t, preClk) && bv.t != Null || bv.off != Zero && bv.t != Null {
					panic(unsupported("slice that grows in the loop changes its origin in " + fr.fn.String()))
				}
				for _, q := range plans {
					if q != p && q.grown && a.st.env[q.phi].t == bv.t && bv.t != Null {
						panic(unsupported("two growing slices share elements in " + fr.fn.String()))
					}
				}
				if bv.t == Null {
					bv = head[p]
				}
			}
			hc, _ := safeComps(head[p])
			bc, ok := safeComps(bv)
			if !ok || len(bc) != len(hc) {
				panic(unsupported("loop-carried value of changing kind in " + fr.fn.String()))
			}
			for i := range hc {
				if p.stable[i] && bc[i] != hc[i] {
					x.oblige(a.st, fr, "loop-stable", p.phi.Comment, p.phi.Pos(), Eq(bc[i], hc[i]))
				} else if !p.stable[i] && p.stride[i] != nil {
					x.obligeQuiet(a.st, fr, "loop-stride", p.phi.Comment, Eq(bc[i], Add(hc[i], p.stride[i])))
				}
			}
		}
		if inv != nil {
			g := x.evalInv(a.st, fr, l, inv, pre, preClk, Add(iter, One))
			for i, c := range conjuncts(g) {
				x.oblige(a.st, fr, "inv-preserved", fmt.Sprintf("%s.%d", inv.Name(), i), l.header.Instrs[0].Pos(), c)
			}
		}
	}
	return out
}

func (x *Exec) obligeQuiet(st *State, fr *Frame, kind, name string, g *Term) {
	if g == True {
		return
	}
	x.oblige(st, fr, kind, name, fr.fn.Pos(), g)
}

func allHeapNames(a, b map[string]*Term) map[string]bool {
	out := map[string]bool{}
	for k := range a {
		out[k] = true
	}
	for k := range b {
		out[k] = true
	}
	return out
}

// autoBounds assumes i <= n for a header test i < n (or i+1 < n in range
// loops) whose right side does not change: inductive because the body only
// runs under the test and the stride is one.
func (x *Exec) autoBounds(s *State, fr *Frame, l *loopInfo, plans []*phiPlan) {
	last, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || !l.body[l.header.Succs[0]] || l.body[l.header.Succs[1]] {
		return
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	op := cmp.Op.String()
	if op != "<" && op != "<=" && op != ">" && op != ">=" && op != "!=" {
		return
	}
	for _, p := range plans {
		if len(p.stride) != 1 || p.stride[0] == nil || p.stable[0] {
			continue
		}
		st := p.stride[0]
		if st != One && st != K(-1) {
			continue
		}
		lhs := cmp.X
		plus := int64(0)
		if b, ok := lhs.(*ssa.BinOp); ok && b.Op.String() == "+" && b.X == ssa.Value(p.phi) && b.Block() == l.header {
			if c, ok := b.Y.(*ssa.Const); ok && c.Int64() == 1 {
				lhs = p.phi
				plus = 1
			}
		}
		if lhs != ssa.Value(p.phi) {
			continue
		}
		// the bound must be a constant or a value defined outside the loop
		rv := cmp.Y
		if in, ok := rv.(ssa.Instruction); ok && l.body[in.Block()] {
			continue
		}
		var bound Val
		if c, ok := rv.(*ssa.Const); ok {
			bound = x.constVal(c)
		} else if v, ok := s.env[rv]; ok {
			bound = v
		} else {
			continue
		}
		cur := s.env[p.phi].t
		init := p.entry.t
		iterPos := Gt(Sub(cur, init), Zero)
		switch {
		case st == One && op == "<":
			s.assume(Or(Eq(cur, init), Le(AddC(cur, plus), AddC(bound.t, plus-1+1-plus))))
		case st == One && op == "<=":
			s.assume(Or(Eq(cur, init), Le(AddC(cur, plus), AddC(bound.t, 1))))
		case st == K(-1) && plus == 0 && op == ">=":
			s.assume(Or(Eq(cur, init), Ge(AddC(cur, 1), bound.t)))
		case st == K(-1) && plus == 0 && op == ">":
			s.assume(Or(Eq(cur, init), Ge(cur, bound.t)))
		}
		_ = iterPos
	}
}
