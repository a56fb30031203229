package main

// Symbolic execution of go/ssa with loop cutting and contracts at calls.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name  string
	Kind  string
	Pos   string
	facts *Facts
	goal  *Term
	failGoal  *Term
	failFacts *Facts
	// result
	Status  string // proved, failed, unknown
	Backend string
	Secs    float64
	Output  string
}

type Frame struct {
	fn       *ssa.Function
	spec     bool
	parent   *Frame
	depth    int
	entry    map[string]*Term // heaps at function entry
	args     []Val
	mayPanic bool
	unit     *Unit // set in a contract/lemma frame
	id       int
	binds    []Val
	loopPre  []map[string]*Term
	iters    []*Term
	mode     string // for contract frames: "verify" or "use"
	cst      *contractState
	callPos  token.Pos
	entryClk int
}

type Unit struct {
	Name string
	fn   *ssa.Function
	target *ssa.Function
	Kind string // contract, lemma
}

type contractState struct {
	target   *ssa.Function
	requires int
	modifies []Region
	modSet   bool
	modAll   bool
	pre      map[string]*Term
	called   bool
	clockPre int
	res      Val
	ifaceM   string
	mayPanic bool
	panicIf  *Term // the function panics exactly when this held at entry
	everCalled bool
	freshRes map[int]bool
	nilRes   map[int]bool
}

type Arrival struct {
	st    *State
	block *ssa.BasicBlock // stop block, nil: function exit
	ret   Val
}

type Exec struct {
	prog       *ssa.Program
	contracts  map[*ssa.Function]*ssa.Function
	ifaceCons  map[string]*ssa.Function // "pkg.Iface.Method"
	invs       map[string]*ssa.Function // "<pkg>.<func>#<k>"
	ginvs      []*ssa.Function
	partMods   []Region // array ranges the verified contract may modify
	obligs     []*Oblig
	dry        int
	unit       string
	usedConts  map[string]bool
	usedSet    map[*ssa.Function]bool
	usedOrder  []*ssa.Function
	trusted    map[*ssa.Function]bool
	inlined    map[string]bool
	assumed    map[string]bool // assumptions used
	modelsUsed map[string]bool
	steps      int
	maxSteps   int
	tick       func()
	cfgs       map[*ssa.Function]*cfgInfo
	occ        map[string]int
	trace      bool
	frameID    int
	inv        *invCtx
	invFrame   *Frame
	invEnv     map[ssa.Value]Val
	qfacts     *[]*Term
	noInv      map[string]bool
	problems   []string
	exits      map[string][]*Facts
	vac        []vacCheck
	ifaceTarget map[*ssa.Function]string
	ifaceSigs  map[string]*types.Signature
}

func (x *Exec) note(s string) { x.assumed[s] = true }

// ---------------------------------------------------------------- CFG info

type cfgInfo struct {
	ipdom   map[*ssa.BasicBlock]*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*loopInfo // by header
	ordered []*loopInfo
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	index  int
	pos    token.Pos
}

func (x *Exec) cfg(fn *ssa.Function) *cfgInfo {
	if c, ok := x.cfgs[fn]; ok {
		return c
	}
	c := &cfgInfo{ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	x.cfgs[fn] = c
	n := len(fn.Blocks)
	// blocks that can reach a return
	ok := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if ok[b.Index] {
				continue
			}
			r := false
			if _, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
				r = true
			}
			for _, s := range b.Succs {
				if ok[s.Index] {
					r = true
				}
			}
			if r {
				ok[b.Index] = true
				ch = true
			}
		}
	}
	// post-dominator sets (bitsets as big.Int); exit = n
	full := new(big.Int).Sub(pow2(uint(n+1)), bigOne)
	pd := make([]*big.Int, n)
	for i := range pd {
		pd[i] = full
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !ok[i] {
				continue
			}
			var m *big.Int
			if len(b.Succs) == 0 {
				m = pow2(uint(n))
			}
			for _, s := range b.Succs {
				if !ok[s.Index] {
					continue
				}
				if m == nil {
					m = new(big.Int).Set(pd[s.Index])
				} else {
					m = new(big.Int).And(m, pd[s.Index])
				}
			}
			if m == nil {
				m = pow2(uint(n))
			}
			m = new(big.Int).SetBit(m, i, 1)
			if m.Cmp(pd[i]) != 0 {
				pd[i] = m
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		if !ok[i] {
			continue
		}
		// the closest strict post-dominator: the one whose pd set is largest
		best, bestN := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i].Bit(j) == 1 {
				cnt := 0
				for k := 0; k <= n; k++ {
					if pd[j].Bit(k) == 1 {
						cnt++
					}
				}
				if cnt > bestN {
					best, bestN = j, cnt
				}
			}
		}
		if best >= 0 {
			c.ipdom[b] = fn.Blocks[best]
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
					c.ordered = append(c.ordered, l)
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	for _, l := range c.ordered {
		l.pos = token.Pos(1 << 60)
		for b := range l.body {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && p < l.pos {
					l.pos = p
				}
			}
		}
	}
	sort.Slice(c.ordered, func(i, j int) bool {
		if c.ordered[i].pos != c.ordered[j].pos {
			return c.ordered[i].pos < c.ordered[j].pos
		}
		return c.ordered[i].header.Index < c.ordered[j].header.Index
	})
	for i, l := range c.ordered {
		l.index = i
	}
	return c
}

// ---------------------------------------------------------------- obligations

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) oblige(st *State, fr *Frame, kind, name string, pos token.Pos, goal *Term) {
	if x.dry > 0 {
		st.assume(goal)
		return
	}
	st.activate()
	where := fr.fn.Name()
	full := fmt.Sprintf("%s/%s:%s@%s", x.unit, kind, name, where)
	x.occ[full]++
	if n := x.occ[full]; n > 1 {
		full = fmt.Sprintf("%s#%d", full, n)
	}
	o := &Oblig{Name: full, Kind: kind, Pos: x.posStr(pos), facts: st.facts, goal: goal}
	if st.facts.dead0() {
		o.Status, o.Backend = "proved", "simplifier(dead path)"
		x.obligs = append(x.obligs, o)
		return
	}
	x.obligs = append(x.obligs, o)
	if r := st.facts.decide(goal, true); r == 1 {
		o.Status, o.Backend = "proved", "simplifier"
		if goal != True {
			o.Backend = "simplifier+z3(live)"
		}
	}
	if debugOb {
		fmt.Fprintf(os.Stderr, "  oblig %s @%s %s\n", o.Name, o.Pos, o.Status)
		if s := os.Getenv("GSHOW"); s != "" && strings.Contains(o.Name, s) {
			for _, t := range o.facts.list() {
				fmt.Fprintln(os.Stderr, "      fact", t)
			}
		}
	}
	st.assume(goal)
}

var debugOb bool

func (f *Facts) dead0() bool { return f != nil && f.dead }

// feasible reports whether a path condition is not obviously contradictory.
func (st *State) feasible() bool { return st.facts == nil || !st.facts.dead }

// ---------------------------------------------------------------- running blocks

func (x *Exec) runBlock(st *State, fr *Frame, b *ssa.BasicBlock, stops map[*ssa.BasicBlock]bool) []Arrival {
	return x.runFrom(st, fr, b, 0, stops)
}

// goTo follows an edge: evaluates phis, stops or enters loops.
func (x *Exec) goTo(st *State, fr *Frame, from, to *ssa.BasicBlock, stops map[*ssa.BasicBlock]bool) []Arrival {
	if !st.feasible() {
		return nil
	}
	// phis
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(st, fr, p.Edges[idx]))
	}
	for i, p := range phis {
		st.env[p] = vals[i]
	}
	if stops[to] {
		return []Arrival{{st: st, block: to}}
	}
	c := x.cfg(fr.fn)
	if l, ok := c.loops[to]; ok && !l.body[from] {
		return x.enterLoop(st, fr, l, stops)
	}
	return x.runFrom(st, fr, to, len(phis), stops)
}

func withStop(stops map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if b == nil || stops[b] {
		return stops
	}
	n := make(map[*ssa.BasicBlock]bool, len(stops)+1)
	for k := range stops {
		n[k] = true
	}
	n[b] = true
	return n
}

type execAbort struct{ msg string }

func (x *Exec) runFrom(st *State, fr *Frame, b *ssa.BasicBlock, start int, stops map[*ssa.BasicBlock]bool) []Arrival {
	for i := start; i < len(b.Instrs); i++ {
		if !st.feasible() {
			return nil
		}
		x.steps++
		if x.maxSteps > 0 && x.steps > x.maxSteps {
			panic(execAbort{"step limit"})
		}
		st.activate()
		in := b.Instrs[i]
		if x.trace {
			fmt.Fprintf(os.Stderr, "%s b%d: %s\n", fr.fn.Name(), b.Index, in.String())
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue // evaluated on the edge
		case *ssa.If:
			return x.doIf(st, fr, b, in, stops)
		case *ssa.Jump:
			return x.goTo(st, fr, b, b.Succs[0], stops)
		case *ssa.Return:
			var ret Val
			switch len(in.Results) {
			case 0:
			case 1:
				ret = x.val(st, fr, in.Results[0])
			default:
				ret = Val{k: vTuple, ty: fr.fn.Signature.Results()}
				for _, r := range in.Results {
					ret.a = append(ret.a, x.val(st, fr, r))
				}
			}
			return []Arrival{{st: st, ret: ret}}
		case *ssa.Panic:
			x.doPanic(st, fr, in.Pos(), "panic")
			return nil
		case *ssa.Call:
			outs := x.doCall(st, fr, in, &in.Call, in.Pos())
			if len(outs) == 1 {
				st = outs[0].st
				st.env[in] = outs[0].ret
				continue
			}
			var res []Arrival
			for _, o := range outs {
				o.st.env[in] = o.ret
				res = append(res, x.runFrom(o.st, fr, b, i+1, stops)...)
			}
			return res
		case *ssa.Defer:
			d := deferred{call: &in.Call}
			if in.Call.IsInvoke() {
				d.clo = x.val(st, fr, in.Call.Value)
			} else if _, isB := in.Call.Value.(*ssa.Builtin); !isB {
				d.clo = x.val(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			st.defers = append(st.defers, d)
			continue
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			sts := []*State{st}
			for k := len(ds) - 1; k >= 0; k-- {
				var next []*State
				for _, s := range sts {
					for _, o := range x.callDeferred(s, fr, ds[k], in.Pos()) {
						next = append(next, o.st)
					}
				}
				sts = next
			}
			if len(sts) == 1 {
				st = sts[0]
				continue
			}
			var res []Arrival
			for _, s := range sts {
				res = append(res, x.runFrom(s, fr, b, i+1, stops)...)
			}
			return res
		case *ssa.Go:
			x.note("goroutines started with `go` are executed to completion at the go statement (sequential schedule)")
			outs := x.doCall(st, fr, nil, &in.Call, in.Pos())
			if len(outs) == 1 {
				st = outs[0].st
				continue
			}
			var res []Arrival
			for _, o := range outs {
				res = append(res, x.runFrom(o.st, fr, b, i+1, stops)...)
			}
			return res
		case *ssa.Next:
			return x.doNext(st, fr, b, i, in, stops)
		default:
			x.doInstr(st, fr, in)
		}
	}
	panic("block without terminator")
}

func (x *Exec) doPanic(st *State, fr *Frame, pos token.Pos, what string) {
	if fr.spec {
		return
	}
	for f := fr; f != nil; f = f.parent {
		if f.cst != nil && f.mode == "verify" && f.cst.mayPanic {
			return
		}
		if f.cst != nil && f.mode == "verify" && f.cst.panicIf != nil {
			x.oblige(st, fr, "nopanic", what, pos, f.cst.panicIf)
			return
		}
	}
	x.oblige(st, fr, "nopanic", what, pos, False)
}

func (x *Exec) doIf(st *State, fr *Frame, b *ssa.BasicBlock, in *ssa.If, stops map[*ssa.BasicBlock]bool) []Arrival {
	c := x.val(st, fr, in.Cond).t
	switch st.facts.decide(c, true) {
	case 1:
		return x.goTo(st, fr, b, b.Succs[0], stops)
	case 0:
		return x.goTo(st, fr, b, b.Succs[1], stops)
	}
	p := x.cfg(fr.fn).ipdom[b]
	inner := withStop(stops, p)
	clk := clock
	s1 := st.clone()
	s2 := st.clone()
	s1.assume(c)
	s2.assume(Not(c))
	a1 := x.goTo(s1, fr, b, b.Succs[0], inner)
	a2 := x.goTo(s2, fr, b, b.Succs[1], inner)
	var out []Arrival
	var at1, at2 []Arrival
	pick := func(as []Arrival, at *[]Arrival) {
		for _, a := range as {
			if a.block == p {
				*at = append(*at, a)
			} else {
				out = append(out, a)
			}
		}
	}
	pick(a1, &at1)
	pick(a2, &at2)
	merged := append(append([]Arrival{}, at1...), at2...)
	if len(at1) == 1 && len(at2) == 1 {
		if m, ok := x.merge(st, fr, c, clk, at1[0], at2[0]); ok {
			merged = []Arrival{m}
		}
	}
	if p == nil || stops[p] {
		return append(out, merged...)
	}
	nph := 0
	for _, q := range p.Instrs {
		if _, ok := q.(*ssa.Phi); ok {
			nph++
		} else {
			break
		}
	}
	cinfo := x.cfg(fr.fn)
	for _, m := range merged {
		if l, ok := cinfo.loops[p]; ok && !l.body[b] {
			out = append(out, x.enterLoop(m.st, fr, l, stops)...)
		} else {
			out = append(out, x.runFrom(m.st, fr, p, nph, stops)...)
		}
	}
	return out
}

const mergeHeapLimit = 1

// merge joins two arrivals that differ by condition c (true for a, false for b).
func (x *Exec) merge(base *State, fr *Frame, c *Term, clk int, a, b Arrival) (Arrival, bool) {
	heapsSame := true
	for k, v := range a.st.heaps {
		if w := getHeap(b.st.heaps, k, v.sort.Elem); w != v {
			heapsSame = false
		}
	}
	for k, v := range b.st.heaps {
		if w := getHeap(a.st.heaps, k, v.sort.Elem); w != v {
			heapsSame = false
		}
	}
	var joined map[string]*Term
	if !heapsSame && !fr.spec {
		var ok bool
		if joined, ok = joinNew(a.st.heaps, b.st.heaps, clk); !ok {
			return Arrival{}, false
		}
	}
	if len(a.st.defers) != len(b.st.defers) {
		return Arrival{}, false
	}
	base.activate()
	m := base.clone()
	ctx = factCtx{base.facts}
	var ret Val
	if a.ret.ty != nil || a.ret.k != vScalar || a.ret.t != nil {
		r, ok := mergeVal(c, a.ret, b.ret)
		if !ok {
			return Arrival{}, false
		}
		ret = r
	}
	m.env = make(map[ssa.Value]Val, len(a.st.env))
	for k, v := range a.st.env {
		w, ok := b.st.env[k]
		if !ok {
			continue
		}
		if r, ok := mergeVal(c, v, w); ok {
			m.env[k] = r
		} else if a.block != nil {
			if _, isPhi := k.(*ssa.Phi); isPhi && k.(*ssa.Phi).Block() == a.block {
				return Arrival{}, false
			}
		}
	}
	if heapsSame {
		m.heaps = a.st.heaps
	} else if joined != nil {
		m.heaps = joined
	} else {
		m.heaps = map[string]*Term{}
		for k, v := range a.st.heaps {
			m.heaps[k] = Ite(c, v, getHeap(b.st.heaps, k, v.sort.Elem))
		}
		for k, v := range b.st.heaps {
			if _, ok := m.heaps[k]; !ok {
				m.heaps[k] = Ite(c, getHeap(a.st.heaps, k, v.sort.Elem), v)
			}
		}
	}
	for k, v := range a.st.ghost {
		if w, ok := b.st.ghost[k]; ok {
			if r, ok := mergeVal(c, v, w); ok {
				m.ghost[k] = r
			}
		}
	}
	m.defers = a.st.defers
	suffix := func(s *State) []*Term {
		var out []*Term
		for p := s.facts; p != base.facts; p = p.parent {
			if p == nil {
				return nil
			}
			out = append(out, p.t)
		}
		return out
	}
	// facts of each side hold under its condition
	f := m.facts
	for _, t := range reverseT(suffix(a.st)) {
		f = f.with(Implies(c, t))
	}
	for _, t := range reverseT(suffix(b.st)) {
		f = f.with(Or(c, t))
	}
	m.facts = f
	return Arrival{st: m, block: a.block, ret: ret}, true
}

// joinNew joins heaps that differ only in objects allocated after clk: the
// objects of both sides exist side by side.
func joinNew(a, b map[string]*Term, clk int) (map[string]*Term, bool) {
	out := map[string]*Term{}
	for k, v := range a {
		w := getHeap(b, k, v.sort.Elem)
		if v == w {
			out[k] = v
			continue
		}
		in := map[*Term]bool{}
		for t := v; ; t = t.args[below(t)] {
			in[t] = true
			if below(t) < 0 {
				break
			}
		}
		var ops []*Term
		t := w
		for !in[t] {
			if !onlyNew(t, clk) {
				return nil, false
			}
			ops = append(ops, t)
			t = t.args[below(t)]
		}
		for u := v; u != t; u = u.args[below(u)] {
			if !onlyNew(u, clk) {
				return nil, false
			}
		}
		r := v
		for i := len(ops) - 1; i >= 0; i-- {
			o := ops[i]
			if o.op == OpStore {
				r = Store(r, o.args[1], o.args[2])
			} else {
				r = HMerge(o.args[0], r, hmRegions(o))
			}
		}
		out[k] = r
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			v := getHeap(a, k, w.sort.Elem)
			t := w
			for ; t != v; t = t.args[below(t)] {
				if !onlyNew(t, clk) {
					return nil, false
				}
			}
			out[k] = w
		}
	}
	return out, true
}

// below: the argument that is the heap before the last operation.
func below(t *Term) int {
	switch t.op {
	case OpStore:
		return 0
	case OpHMerge:
		return 1
	}
	return -1
}

func onlyNew(t *Term, clk int) bool {
	isNew := func(a *Term) bool {
		if a.op == OpIte {
			return false
		}
		r := rootOf(a)
		return r.op == OpRoot && r.i.Sign() > 0 && r.i.Int64() > int64(clk)
	}
	switch t.op {
	case OpStore:
		return isNew(t.args[1])
	case OpHMerge:
		for _, r := range hmRegions(t) {
			if r.Kind != "U" && r.Kind != "X" || !isNew(r.Ref) {
				return false
			}
		}
		return true
	}
	return false
}

func reverseT(ts []*Term) []*Term {
	for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
		ts[i], ts[j] = ts[j], ts[i]
	}
	return ts
}

// ---------------------------------------------------------------- calls

type callOut struct {
	st  *State
	ret Val
}

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, args []Val, binds []Val, spec bool, pos token.Pos) []callOut {
	depth := 0
	if fr != nil {
		depth = fr.depth + 1
	}
	if depth > 60 {
		panic(unsupported("call depth (recursion without contract): " + fn.String()))
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	x.frameID++
	nf := &Frame{fn: fn, spec: spec, parent: fr, depth: depth, args: args, binds: binds, id: x.frameID}
	nf.entry = st.heaps
	nf.entryClk = clock
	if !spec && x.dry == 0 {
		x.inlined[fnKey(fn)] = true
	}
	outer := st.env
	outerDefers := st.defers
	ns := st.clone()
	ns.env = map[ssa.Value]Val{}
	ns.defers = nil
	for i, p := range fn.Params {
		ns.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		ns.env[f] = binds[i]
	}
	x.prepFrame(nf, ns)
	as := x.runBlock(ns, nf, fn.Blocks[0], nil)
	var outs []callOut
	for _, a := range as {
		a.st.env = make(map[ssa.Value]Val, len(outer)+4)
		for k, v := range outer {
			a.st.env[k] = v
		}
		a.st.defers = append([]deferred(nil), outerDefers...)
		outs = append(outs, callOut{a.st, a.ret})
	}
	return outs
}

func (x *Exec) callDeferred(st *State, fr *Frame, d deferred, pos token.Pos) []callOut {
	if b, ok := d.call.Value.(*ssa.Builtin); ok {
		return x.builtin(st, fr, b, d.call, d.args, pos)
	}
	return x.dispatch(st, fr, nil, d.call, d.clo, d.args, pos)
}

func (x *Exec) doCall(st *State, fr *Frame, in *ssa.Call, c *ssa.CallCommon, pos token.Pos) []callOut {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, fr, b, c, args, pos)
	}
	var clo Val
	if c.IsInvoke() {
		clo = x.val(st, fr, c.Value)
	} else if _, ok := c.Value.(*ssa.Function); !ok {
		clo = x.val(st, fr, c.Value)
	} else {
		clo = Val{k: vFunc, clo: &Closure{fn: c.Value.(*ssa.Function)}}
	}
	return x.dispatch(st, fr, in, c, clo, args, pos)
}

func fnKey(fn *ssa.Function) string {
	return fn.String()
}

func (x *Exec) dispatch(st *State, fr *Frame, in *ssa.Call, c *ssa.CallCommon, clo Val, args []Val, pos token.Pos) []callOut {
	if c.IsInvoke() {
		return x.invoke(st, fr, c, clo, args, pos)
	}
	if clo.clo == nil {
		panic(unsupported("call of nil/unknown function value in " + fr.fn.String()))
	}
	cl := clo.clo
	if cl.builtin == "opaque" {
		panic(unsupported("call of opaque function value in " + fr.fn.String()))
	}
	if cl.builtin != "" {
		return x.callBuiltinClosure(st, fr, cl, args, pos)
	}
	return x.callStatic(st, fr, c, cl.fn, args, cl.binds, pos)
}

func (x *Exec) callClosure(st *State, fr *Frame, v Val, args []Val, pos token.Pos) []callOut {
	if v.clo == nil || v.clo.fn == nil {
		panic(unsupported("callClosure of unknown function"))
	}
	return x.callStatic(st, fr, nil, v.clo.fn, args, v.clo.binds, pos)
}

func (x *Exec) callStatic(st *State, fr *Frame, c *ssa.CallCommon, fn *ssa.Function, args, binds []Val, pos token.Pos) []callOut {
	if h := x.intrinsic(fn); h != nil {
		return h(x, st, fr, fn, c, args, pos)
	}
	key := fnKey(fn)
	// the target call inside a contract body
	if fr.cst != nil && fr.cst.target == fn && !fr.cst.called {
		return x.contractTarget(st, fr, fn, args, pos)
	}
	if con := x.contracts[fn]; con != nil && (!fr.spec || fr.unit != nil && fr.unit.Kind == "lemma" && fr.unit.fn == fr.fn) {
		if !x.inlineNow(fr, fn) {
			return x.useContract(st, fr, con, fn, args, pos)
		}
	}
	if m, ok := models[key]; ok {
		x.modelsUsed[key] = true
		return m(x, st, fr, args, pos)
	}
	if fn.Origin() != nil {
		if m, ok := models[fnKey(fn.Origin())]; ok {
			x.modelsUsed[fnKey(fn.Origin())] = true
			return m(x, st, fr, args, pos)
		}
	}
	if fn.Blocks == nil {
		panic(unsupported("external function " + key))
	}
	if fn.Pkg != nil && !x.inModule(fn) && !inlineOK[key] {
		panic(unsupported("library function without model: " + key))
	}
	return x.callFn(st, fr, fn, args, binds, fr.spec, pos)
}

var inlineOK = map[string]bool{}

func (x *Exec) inModule(fn *ssa.Function) bool {
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg == nil {
		return true // synthetic wrapper
	}
	return strings.HasPrefix(p.Pkg.Pkg.Path(), modPrefix)
}

const modPrefix = "github.com/smartbch/moeingads"

func (x *Exec) inlineNow(fr *Frame, fn *ssa.Function) bool { return false }

// ---------------------------------------------------------------- values

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return mkScalar(GlobalRoot(v.String()), v.Type())
	case *ssa.Function:
		return Val{k: vFunc, ty: v.Type(), clo: x.fnClosure(v)}
	case *ssa.Builtin:
		return Val{k: vFunc, clo: &Closure{builtin: v.Name()}}
	}
	r, ok := st.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s = %s not available in %s", v.Name(), v.String(), fr.fn.String())))
	}
	return r
}

var fnClos = map[*ssa.Function]*Closure{}

func (x *Exec) fnClosure(f *ssa.Function) *Closure {
	c := fnClos[f]
	if c == nil {
		c = &Closure{fn: f}
		fnClos[f] = c
	}
	return c
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkScalar(KBool(constant.BoolVal(c.Value)), t)
	case constant.String:
		return strConst(constant.StringVal(c.Value), t)
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			panic(unsupported("const " + c.String()))
		}
		return mkScalar(KB(n), t)
	case constant.Float:
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(i.ExactString(), 10)
			if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return mkScalar(KB(n), t)
			}
		}
		return mkScalar(App("float:"+c.Value.ExactString(), intSort("float", nil, nil)), t)
	}
	panic(unsupported("const " + c.String()))
}

func bytesConst(b []byte) *Term {
	a := emptyBytes
	for i, c := range b {
		if c != 0 {
			a = Store(a, K(int64(i)), K(int64(c)))
		}
	}
	return a
}

func strConst(s string, t types.Type) Val {
	if len(s) > 200 {
		return Val{k: vStr, ty: t, t: NamedVar("strconst:"+s[:40], bytesSort(-1)), ln: K(int64(len(s)))}
	}
	return Val{k: vStr, ty: t, t: bytesConst([]byte(s)), ln: K(int64(len(s)))}
}

// ---------------------------------------------------------------- simple instructions

func (x *Exec) deref(st *State, fr *Frame, p Val, pos token.Pos) {
	if p.k == vScalar && !fr.spec {
		st.assume(Not(Eq(p.t, Null)))
	}
}

func ptrElem(t types.Type) types.Type { return under(t).(*types.Pointer).Elem() }

func (x *Exec) doInstr(st *State, fr *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		r := NewRoot()
		st.env[in] = mkScalar(r, in.Type())
		st.zeroInit(r, ptrElem(in.Type()))
	case *ssa.BinOp:
		st.env[in] = x.binop(st, fr, in.Op, x.val(st, fr, in.X), x.val(st, fr, in.Y), in.X.Type(), in.Type(), in.Pos())
	case *ssa.UnOp:
		st.env[in] = x.unop(st, fr, in)
	case *ssa.ChangeInterface:
		v := x.val(st, fr, in.X)
		v.ty = in.Type()
		st.env[in] = v
	case *ssa.ChangeType:
		v := x.val(st, fr, in.X)
		v.ty = in.Type()
		st.env[in] = v
	case *ssa.Convert:
		st.env[in] = x.convert(st, fr, x.val(st, fr, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.Extract:
		if len(x.val(st, fr, in.Tuple).a) <= in.Index {
			panic(fmt.Sprint("extract ", in, " of ", in.Tuple, " in ", fr.fn))
		}
		st.env[in] = x.val(st, fr, in.Tuple).a[in.Index]
	case *ssa.Field:
		st.env[in] = x.val(st, fr, in.X).a[in.Field]
	case *ssa.FieldAddr:
		p := x.val(st, fr, in.X)
		x.deref(st, fr, p, in.Pos())
		st.env[in] = mkScalar(fieldAddr(p.t, ptrElem(in.X.Type()), in.Field), in.Type())
	case *ssa.Index:
		st.env[in] = x.index(st, fr, in)
	case *ssa.IndexAddr:
		st.env[in] = x.indexAddr(st, fr, in)
	case *ssa.Lookup:
		st.env[in] = x.lookup(st, fr, in)
	case *ssa.MakeChan:
		r := NewRoot()
		st.env[in] = mkScalar(r, in.Type())
		x.newChan(st, r, in.Type())
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(st, fr, b))
		}
		st.env[in] = Val{k: vFunc, ty: in.Type(), clo: c}
	case *ssa.MakeInterface:
		st.env[in] = x.makeIface(st, x.val(st, fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeMap:
		st.env[in] = mkScalar(st.newMap(under(in.Type()).(*types.Map)), in.Type())
	case *ssa.MakeSlice:
		n := x.val(st, fr, in.Len).t
		c := x.val(st, fr, in.Cap).t
		x.check(st, fr, "bounds", "makeslice", in.Pos(), And(Ge0(n), Le(n, c)))
		el := under(in.Type()).(*types.Slice).Elem()
		r := st.newBacking(el)
		st.env[in] = Val{k: vSlice, ty: in.Type(), t: r, off: Zero, ln: n, cp: c}
	case *ssa.MapUpdate:
		m := x.val(st, fr, in.Map)
		mt := under(in.Map.Type()).(*types.Map)
		x.check(st, fr, "nopanic", "nil map write", in.Pos(), Not(Eq(m.t, Null)))
		st.mapSet(m.t, mt, keyTerm(x.val(st, fr, in.Key)), x.val(st, fr, in.Value))
	case *ssa.Range:
		v := x.val(st, fr, in.X)
		it := &Iter{}
		x.frameID++
		it.id = x.frameID
		if mt, ok := under(in.X.Type()).(*types.Map); ok {
			it.m, it.mty = v.t, mt
			st.ghost[fmt.Sprintf("vis%d", it.id)] = Val{k: vMath, t: CArr(mapDomSort(mt), False)}
			st.ghost[fmt.Sprintf("cnt%d", it.id)] = Val{k: vMath, t: Zero}
			it.dom0 = st.mem().mapDom(v.t, mt)
		} else {
			panic(unsupported("range over string"))
		}
		st.env[in] = Val{k: vIter, iter: it}
	case *ssa.Slice:
		st.env[in] = x.slice(st, fr, in)
	case *ssa.Store:
		x.doStore(st, fr, x.val(st, fr, in.Addr), x.val(st, fr, in.Val), in.Val.Type(), in.Pos())
	case *ssa.TypeAssert:
		st.env[in] = x.typeAssert(st, fr, in)
	case *ssa.Send:
		x.chanSend(st, fr, x.val(st, fr, in.Chan), x.val(st, fr, in.X), in)
	case *ssa.SliceToArrayPointer:
		v := x.val(st, fr, in.X)
		if v.off != Zero {
			panic(unsupported("slice to array pointer with offset"))
		}
		st.env[in] = mkScalar(v.t, in.Type())
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", in, fr.fn.String())))
	}
}

// check: a run-time check of the language (bounds etc.).
func (x *Exec) check(st *State, fr *Frame, kind, name string, pos token.Pos, goal *Term) {
	if fr.spec {
		return
	}
	if goal == True {
		return
	}
	for f := fr; f != nil; f = f.parent {
		if f.cst != nil && f.mode == "verify" && f.cst.mayPanic {
			st.assume(goal)
			return
		}
		if f.cst != nil && f.mode == "verify" && f.cst.panicIf != nil {
			x.oblige(st, fr, kind, name, pos, Or(goal, f.cst.panicIf))
			st.assume(goal)
			return
		}
	}
	x.oblige(st, fr, kind, name, pos, goal)
}

func (x *Exec) doStore(st *State, fr *Frame, p, v Val, t types.Type, pos token.Pos) {
	if p.k == vEPtr {
		st.storeElem(p.t, p.off, t, v)
		return
	}
	x.deref(st, fr, p, pos)
	if v.k == vSnap && v.snap.addr != nil && p.t == v.snap.addr {
		// self copy
		same := true
		for _, hn := range leafHeaps(t) {
			if st.heap(hn.name, hn.elem) != getHeap(v.snap.heaps, hn.name, hn.elem) {
				same = false
			}
		}
		if same {
			return
		}
	}
	st.store(p.t, t, v)
}

func (x *Exec) loadPtr(st *State, fr *Frame, p Val, t types.Type, pos token.Pos) Val {
	if p.k == vEPtr {
		return st.mem().loadElem(p.t, p.off, t)
	}
	x.deref(st, fr, p, pos)
	return x.normLoad(st, st.mem().load(p.t, t))
}

// normLoad gives loaded function values etc. their identity.
func (x *Exec) normLoad(st *State, v Val) Val { return v }

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	v := x.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if c, ok := x.globalConst(g); ok {
				return c
			}
		}
		return x.loadPtr(st, fr, v, ptrElem(in.X.Type()), in.Pos())
	case token.NOT:
		return mkScalar(Not(v.t), in.Type())
	case token.SUB:
		return x.wrap(st, fr, Neg(v.t), in.Type())
	case token.XOR:
		s := basicSort(under(in.Type()).(*types.Basic))
		if s.Lo.Sign() < 0 {
			return mkScalar(AddC(Neg(v.t), -1), in.Type())
		}
		return mkScalar(Sub(KB(s.Hi), v.t), in.Type())
	case token.ARROW:
		return x.chanRecv(st, fr, v, in)
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (x *Exec) globalConst(g *ssa.Global) (Val, bool) { return Val{}, false }

func intBits(s *Sort) (uint, bool) {
	if s.Lo == nil {
		return 0, false
	}
	signed := s.Lo.Sign() < 0
	d := new(big.Int).Sub(s.Hi, s.Lo)
	return uint(d.BitLen()), signed
}

// wrap brings an arithmetic result into the type's range.
func (x *Exec) wrap(st *State, fr *Frame, t *Term, ty types.Type) Val {
	s := scalarSort(ty)
	bits, signed := intBits(s)
	if bits == 0 {
		return mkScalar(t, ty)
	}
	lo, hi := Range(t)
	if lo != nil && hi != nil && lo.Cmp(s.Lo) >= 0 && hi.Cmp(s.Hi) <= 0 {
		return mkScalar(t, ty)
	}
	if fr.spec && signed {
		// specification arithmetic on signed integers is mathematical
		return mkScalar(t, ty)
	}
	if signed && bits == 64 {
		if !t.bnd {
			x.note("signed 64-bit arithmetic (int, int64) does not overflow")
			st.assume(And(Ge(t, KB(s.Lo)), Le(t, KB(s.Hi))))
		}
		return mkScalar(t, ty)
	}
	if ctxDecide(And(Ge(t, KB(s.Lo)), Le(t, KB(s.Hi)))) == 1 {
		return mkScalar(t, ty)
	}
	if signed {
		return mkScalar(WrapS(t, bits), ty)
	}
	return mkScalar(WrapU(t, bits), ty)
}

func (x *Exec) binop(st *State, fr *Frame, op token.Token, a, b Val, xt, rt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.eqVal(st, a, b)
		if op == token.NEQ {
			e = Not(e)
		}
		return mkScalar(e, rt)
	}
	if a.k == vStr {
		switch op {
		case token.ADD:
			return Val{k: vStr, ty: rt, t: strExt2(WriteArr(a.t, a.ln, b.t, Zero, b.ln)), ln: Add(a.ln, b.ln)}
		case token.LSS:
			return mkScalar(Lt(bytesCmp(a.t, a.ln, b.t, b.ln), Zero), rt)
		case token.GTR:
			return mkScalar(Gt(bytesCmp(a.t, a.ln, b.t, b.ln), Zero), rt)
		case token.LEQ:
			return mkScalar(Le(bytesCmp(a.t, a.ln, b.t, b.ln), Zero), rt)
		case token.GEQ:
			return mkScalar(Ge(bytesCmp(a.t, a.ln, b.t, b.ln), Zero), rt)
		}
	}
	if bt, ok := under(xt).(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return mkScalar(App("fcmp"+op.String(), SBool, a.t, b.t), rt)
		}
		return mkScalar(App("fop"+op.String(), a.t.sort, a.t, b.t), rt)
	}
	switch op {
	case token.LSS:
		return mkScalar(Lt(a.t, b.t), rt)
	case token.GTR:
		return mkScalar(Gt(a.t, b.t), rt)
	case token.LEQ:
		return mkScalar(Le(a.t, b.t), rt)
	case token.GEQ:
		return mkScalar(Ge(a.t, b.t), rt)
	case token.ADD:
		return x.wrap(st, fr, Add(a.t, b.t), rt)
	case token.SUB:
		return x.wrap(st, fr, Sub(a.t, b.t), rt)
	case token.MUL:
		return x.wrap(st, fr, Mul(a.t, b.t), rt)
	case token.QUO, token.REM:
		x.check(st, fr, "nopanic", "division by zero", pos, Not(Eq(b.t, Zero)))
		q := goQuo(a.t, b.t)
		if op == token.QUO {
			return x.wrap(st, fr, q, rt)
		}
		return mkScalar(Sub(a.t, Mul(q, b.t)), rt)
	case token.SHL:
		r := Mul(a.t, pow2Term(b.t))
		if s := scalarSort(rt); s.Lo != nil && s.Lo.Sign() < 0 {
			// shifts wrap exactly, also on signed integers
			if bits, _ := intBits(s); bits > 0 && ctxDecide(And(Ge(r, KB(s.Lo)), Le(r, KB(s.Hi)))) != 1 {
				return mkScalar(WrapS(r, bits), rt)
			}
			return mkScalar(r, rt)
		}
		return x.wrap(st, fr, r, rt)
	case token.SHR:
		if n, ok := b.t.int64(); ok && n < 256 {
			return mkScalar(Div(a.t, pow2(uint(n))), rt)
		}
		return mkScalar(shrTerm(a.t, b.t), rt)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return mkScalar(bitop(op, a.t, b.t, scalarSort(rt)), rt)
	}
	panic(unsupported("binop " + op.String()))
}

func strExt2(t *Term) *Term { return t }

// goQuo is Go's truncated division.
func goQuo(a, b *Term) *Term {
	if b.op == OpConst && b.i.Sign() > 0 {
		if ctxDecide(Ge0(a)) == 1 {
			return Div(a, b.i)
		}
		return Ite(Ge0(a), Div(a, b.i), Neg(Div(Neg(a), b.i)))
	}
	if ctxDecide(Ge0(a)) == 1 && ctxDecide(Gt(b, Zero)) == 1 {
		return DivS(a, b)
	}
	return App("quo", SInt, a, b)
}

func pow2Term(k *Term) *Term {
	if n, ok := k.int64(); ok && n >= 0 && n < 300 {
		return KB(pow2(uint(n)))
	}
	lo, hi := Range(k)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(8)) < 0 {
		r := KB(pow2(uint(hi.Int64())))
		for i := hi.Int64() - 1; i >= lo.Int64(); i-- {
			r = Ite(Eq(k, K(i)), KB(pow2(uint(i))), r)
		}
		return r
	}
	if k.op == OpIte {
		return Ite(k.args[0], pow2Term(k.args[1]), pow2Term(k.args[2]))
	}
	// factor out the constant part
	if k.op == OpLin && k.i.Sign() != 0 && k.i.IsInt64() && k.i.Int64() > 0 && k.i.Int64() < 64 {
		l := toLin(k)
		c := l.c.Int64()
		l.c = new(big.Int)
		if ctxDecide(Ge0(l.term())) == 1 {
			return MulC(pow2(uint(c)), pow2Term(l.term()))
		}
	}
	return App("pow2", sPow, k)
}

var sPow = intSort("pow", big.NewInt(1), nil)

func shrTerm(a, k *Term) *Term {
	if k.op == OpIte {
		return Ite(k.args[0], shrTerm(a, k.args[1]), shrTerm(a, k.args[2]))
	}
	if n, ok := k.int64(); ok && n >= 0 && n < 300 {
		return Div(a, pow2(uint(n)))
	}
	p := pow2Term(k)
	if p.op == OpIte {
		return divIte(a, p)
	}
	return DivS(a, p)
}

func divIte(a, p *Term) *Term {
	if p.op == OpIte {
		return Ite(p.args[0], divIte(a, p.args[1]), divIte(a, p.args[2]))
	}
	return DivS(a, p)
}

func bitN(t *Term, b uint) *Term { return Mod(Div(t, pow2(b)), big.NewInt(2)) }

func bitop(op token.Token, a, b *Term, s *Sort) *Term {
	bits, signed := intBits(s)
	if a.op == OpConst && b.op == OpConst {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.i, b.i)
		case token.OR:
			r.Or(a.i, b.i)
		case token.XOR:
			r.Xor(a.i, b.i)
		case token.AND_NOT:
			r.AndNot(a.i, b.i)
		}
		return KB(r)
	}
	if a.op == OpConst && op != token.AND_NOT {
		a, b = b, a
	}
	if b.op == OpIte && iteConstLeaves(b) {
		return Ite(b.args[0], bitop(op, a, b.args[1], s), bitop(op, a, b.args[2], s))
	}
	if op == token.AND_NOT && b.op == OpConst {
		m := new(big.Int).AndNot(new(big.Int).Sub(pow2(bits), bigOne), b.i)
		if b.i.Sign() >= 0 && !signed {
			return bitop(token.AND, a, KB(m), s)
		}
		// a &^ b = a - (a & b)
		return Sub(a, bitop(token.AND, a, b, s))
	}
	if b.op == OpConst && (b.i.Sign() >= 0) {
		m := b.i
		switch op {
		case token.AND:
			// runs of ones
			var parts []*Term
			for i := uint(0); i < uint(m.BitLen()); {
				if m.Bit(int(i)) == 0 {
					i++
					continue
				}
				j := i
				for m.Bit(int(j)) == 1 {
					j++
				}
				if j >= bits && !signed {
					parts = append(parts, MulC(pow2(i), Div(a, pow2(i))))
				} else {
					parts = append(parts, MulC(pow2(i), Mod(Div(a, pow2(i)), pow2(j-i))))
				}
				i = j
			}
			return Add(parts...)
		case token.OR:
			// a | m = a + (m - (a & m))
			return Add(a, Sub(b, bitop(token.AND, a, b, s)))
		case token.XOR:
			return Sub(Add(a, b), MulI(2, bitop(token.AND, a, b, s)))
		}
	}
	if a == b {
		switch op {
		case token.AND, token.OR:
			return a
		case token.XOR, token.AND_NOT:
			return Zero
		}
	}
	// disjoint ranges: (x << k) | y with y < 2^k
	if op == token.OR || op == token.XOR {
		if disjointBits(a, b) || disjointBits(b, a) || disjointByFacts(a, b) || disjointByFacts(b, a) {
			return Add(a, b)
		}
	}
	if op == token.OR && signed {
		for _, q := range [][2]*Term{{a, b}, {b, a}} {
			// x | -1 = -1
			if minusOneOrDisjoint(q[0], q[1]) {
				return Ite(Lt(q[1], Zero), K(-1), Add(a, b))
			}
		}
	}
	if bits == 8 {
		var parts []*Term
		for i := uint(0); i < 8; i++ {
			x, y := bitN(a, i), bitN(b, i)
			x1, y1 := Eq(x, One), Eq(y, One)
			var c *Term
			switch op {
			case token.AND:
				c = And(x1, y1)
			case token.OR:
				c = Or(x1, y1)
			case token.XOR:
				c = Not(Iff(x1, y1))
			case token.AND_NOT:
				c = And(x1, Not(y1))
			}
			parts = append(parts, Ite(c, KB(pow2(i)), Zero))
		}
		return Add(parts...)
	}
	switch op {
	case token.AND_NOT:
		return Sub(a, bitop(token.AND, a, b, s))
	case token.OR:
		return Sub(Add(a, b), bitop(token.AND, a, b, s))
	case token.XOR:
		return Sub(Add(a, b), MulI(2, bitop(token.AND, a, b, s)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("and", s, a, b)
}

// minusOneOrDisjoint: a is a multiple of 2^k and the facts put b between -1 and 2^k.
func minusOneOrDisjoint(a, b *Term) bool {
	if a.op != OpLin || a.i.Sign() != 0 || ctxDecide(Ge(b, K(-1))) != 1 {
		return false
	}
	k := uint(63)
	for _, c := range a.coefs {
		if z := c.TrailingZeroBits(); z < k {
			k = z
		}
	}
	return k > 0 && ctxDecide(Lt(b, KB(pow2(k)))) == 1
}

func iteConstLeaves(t *Term) bool {
	if t.op == OpConst {
		return true
	}
	return t.op == OpIte && iteConstLeaves(t.args[1]) && iteConstLeaves(t.args[2])
}

// disjointBits: a is a multiple of 2^k and 0 <= b < 2^k.
func disjointBits(a, b *Term) bool {
	lo, hi := Range(b)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	k := uint(hi.BitLen())
	m := pow2(k)
	return Mod(a, m) == Zero
}

// disjointByFacts: a is a multiple of a power of two which the facts put above b.
func disjointByFacts(a, b *Term) bool {
	if a.op != OpLin || a.i.Sign() != 0 {
		return false
	}
	k := uint(63)
	for _, c := range a.coefs {
		if z := c.TrailingZeroBits(); z < k {
			k = z
		}
	}
	return k > 0 && ctxDecide(Ge0(b)) == 1 && ctxDecide(Lt(b, KB(pow2(k)))) == 1
}

func bytesCmp(a, la, b, lb *Term) *Term {
	if a == b && la == lb {
		return Zero
	}
	for n := int64(1); n <= 8; n++ {
		// of the same known length: compare the big-endian numbers
		if (la == K(n) || la.op != OpConst && ctxDecide(Eq(la, K(n))) == 1) && (lb == K(n) || lb.op != OpConst && ctxDecide(Eq(lb, K(n))) == 1) {
			x, y := Zero, Zero
			for i := int64(0); i < n; i++ {
				x = Add(MulI(256, x), Select(a, K(i)))
				y = Add(MulI(256, y), Select(b, K(i)))
			}
			return Ite(Lt(x, y), K(-1), Ite(Eq(x, y), Zero, One))
		}
	}
	return App("bytescmp", intSort("cmp", big.NewInt(-1), big.NewInt(1)), a, la, b, lb)
}

func isNilTerm(st *State, v Val) *Term {
	return isNilAt(st, v, v.t, True)
}

func isNilAt(st *State, v Val, r, cond *Term) *Term {
	if v.k == vSlice && maybeNil[r] {
		b := NamedVar(fmt.Sprintf("isnil:%d", r.id), SBool)
		st.assume(Implies(And(cond, b), Eq(v.cp, Zero)))
		return b
	}
	if r.op == OpIte && v.k == vSlice {
		c := r.args[0]
		return Ite(c, isNilAt(st, v, r.args[1], And(cond, c)), isNilAt(st, v, r.args[2], And(cond, Not(c))))
	}
	return Eq(r, Null)
}

func (x *Exec) eqVal(st *State, a, b Val) *Term {
	switch {
	case a.k == vIface || b.k == vIface:
		if a.k != vIface || b.k != vIface {
			if a.k == vIface && b.k == vScalar && b.t == Null {
				return Eq(a.tag, Zero)
			}
			if b.k == vIface && a.k == vScalar && a.t == Null {
				return Eq(b.tag, Zero)
			}
			panic(unsupported("mixed interface comparison"))
		}
		if b.tag == Zero {
			return Eq(a.tag, Zero)
		}
		if a.tag == Zero {
			return Eq(b.tag, Zero)
		}
		return And(Eq(a.tag, b.tag), Eq(a.t, b.t))
	case a.k == vSlice:
		return isNilTerm(st, a)
	case b.k == vSlice:
		return isNilTerm(st, b)
	case a.k == vFunc || b.k == vFunc:
		isNil := func(v Val) bool { return v.k == vFunc && v.clo == nil || v.k == vScalar && v.t == Null }
		if isNil(a) && isNil(b) {
			return True
		}
		op := func(v Val) bool { return v.k == vFunc && v.clo != nil && v.clo.builtin == "opaque" }
		if op(a) || op(b) {
			return NewVar("funcnil", SBool)
		}
		return False
	case a.k == vStruct:
		var cs []*Term
		for i := range a.a {
			cs = append(cs, x.eqVal(st, a.a[i], b.a[i]))
		}
		return And(cs...)
	case a.k == vStr:
		if a.ln == Zero || b.ln == Zero {
			return Eq(a.ln, b.ln)
		}
		return And(Eq(a.ln, b.ln), Eq(a.t, b.t))
	case a.k == vEPtr || b.k == vEPtr:
		if a.k == b.k {
			return And(Eq(a.t, b.t), Eq(a.off, b.off))
		}
		return False
	case a.k == vSnap:
		panic(unsupported("array comparison"))
	}
	return Eq(a.t, b.t)
}

func (x *Exec) convert(st *State, fr *Frame, v Val, from, to types.Type, pos token.Pos) Val {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			s := basicSort(tb)
			fs := basicSort(fb)
			if fs.Lo != nil && s.Lo != nil && s.Lo.Cmp(fs.Lo) <= 0 && s.Hi.Cmp(fs.Hi) >= 0 {
				if lo, hi := Range(v.t); lo != nil && hi != nil {
					return mkScalar(v.t, to)
				}
			}
			if ctxDecide(And(Ge(v.t, KB(s.Lo)), Le(v.t, KB(s.Hi)))) == 1 {
				return mkScalar(v.t, to)
			}
			if fr.spec && s.Lo.Sign() < 0 && fb.Info()&types.IsUnsigned == 0 {
				if b1, _ := intBits(s); b1 == 64 {
					return mkScalar(v.t, to)
				}
			}
			bits, signed := intBits(s)
			if signed {
				return mkScalar(WrapS(v.t, bits), to)
			}
			return mkScalar(WrapU(v.t, bits), to)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			v.ty = to
			return v
		case fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
			return mkScalar(App("cvt:"+tb.Name(), scalarSort(to), v.t), to)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok && isByteType(sl.Elem()) {
			r := st.newBacking(sl.Elem())
			st.put("B", bytesSort(-1), r, v.t)
			return Val{k: vSlice, ty: to, t: r, off: Zero, ln: v.ln, cp: v.ln}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok && isByteType(sl.Elem()) {
			return Val{k: vStr, ty: to, t: st.mem().bytesOf(v), ln: v.ln}
		}
	}
	if _, ok := fu.(*types.Slice); ok {
		if _, ok := tu.(*types.Slice); ok {
			v.ty = to
			return v
		}
	}
	v.ty = to
	if fr.spec {
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
}

func (x *Exec) index(st *State, fr *Frame, in *ssa.Index) Val {
	v := x.val(st, fr, in.X)
	i := x.val(st, fr, in.Index).t
	switch v.k {
	case vStr:
		x.check(st, fr, "bounds", "index", in.Pos(), And(Ge0(i), Lt(i, v.ln)))
		return mkScalar(Select(v.t, i), in.Type())
	case vBytes, vSArr:
		n := under(in.X.Type()).(*types.Array).Len()
		x.check(st, fr, "bounds", "index", in.Pos(), And(Ge0(i), Lt(i, K(n))))
		return mkScalar(Select(v.t, i), in.Type())
	case vSnap:
		n := under(in.X.Type()).(*types.Array).Len()
		x.check(st, fr, "bounds", "index", in.Pos(), And(Ge0(i), Lt(i, K(n))))
		el := under(in.X.Type()).(*types.Array).Elem()
		if v.snap.addr == nil {
			return zeroVal(el)
		}
		return mem{v.snap.heaps, nil}.load(elAddr(v.snap.addr, el, i), el)
	}
	panic(unsupported("index"))
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Val {
	v := x.val(st, fr, in.X)
	i := x.val(st, fr, in.Index).t
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		x.check(st, fr, "bounds", "index", in.Pos(), And(Ge0(i), Lt(i, v.ln)))
		idx := Add(v.off, i)
		if isScalarType(u.Elem()) {
			return Val{k: vEPtr, ty: in.Type(), t: v.t, off: idx}
		}
		return mkScalar(elAddr(v.t, u.Elem(), idx), in.Type())
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		x.deref(st, fr, v, in.Pos())
		x.check(st, fr, "bounds", "index", in.Pos(), And(Ge0(i), Lt(i, K(at.Len()))))
		if isScalarType(at.Elem()) {
			return Val{k: vEPtr, ty: in.Type(), t: v.t, off: i}
		}
		return mkScalar(elAddr(v.t, at.Elem(), i), in.Type())
	}
	panic(unsupported("indexAddr"))
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) Val {
	v := x.val(st, fr, in.X)
	if v.k == vStr {
		i := x.val(st, fr, in.Index).t
		x.check(st, fr, "bounds", "index", in.Pos(), And(Ge0(i), Lt(i, v.ln)))
		return mkScalar(Select(v.t, i), in.Type())
	}
	mt := under(in.X.Type()).(*types.Map)
	k := keyTerm(x.val(st, fr, in.Index))
	r, has := st.mem().mapGet(v.t, mt, k)
	z := zeroVal(mt.Elem())
	if st.facts.decide(has, true) == 0 {
		r = z
	} else if st.facts.decide(has, true) != 1 {
		m, ok := mergeVal(has, r, z)
		if !ok {
			panic(unsupported("map lookup value merge"))
		}
		r = m
	}
	if in.CommaOk {
		return Val{k: vTuple, ty: in.Type(), a: []Val{r, mkBool(has)}}
	}
	return r
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	v := x.val(st, fr, in.X)
	lo := Zero
	if in.Low != nil {
		lo = x.val(st, fr, in.Low).t
	}
	var hi, max *Term
	if in.High != nil {
		hi = x.val(st, fr, in.High).t
	}
	if in.Max != nil {
		max = x.val(st, fr, in.Max).t
	}
	if v.k == vStr {
		if hi == nil {
			hi = v.ln
		}
		x.check(st, fr, "bounds", "slice", in.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, v.ln)))
		return Val{k: vStr, ty: in.Type(), t: Ext(v.t, lo, Sub(hi, lo)), ln: Sub(hi, lo)}
	}
	var base, off, ln, cp *Term
	if pt, ok := under(in.X.Type()).(*types.Pointer); ok {
		at := under(pt.Elem()).(*types.Array)
		x.deref(st, fr, v, in.Pos())
		base, off, ln, cp = v.t, Zero, K(at.Len()), K(at.Len())
	} else {
		base, off, ln, cp = v.t, v.off, v.ln, v.cp
	}
	if hi == nil {
		hi = ln
	}
	if max == nil {
		max = cp
	}
	x.check(st, fr, "bounds", "slice", in.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, max), Le(max, cp)))
	return Val{k: vSlice, ty: in.Type(), t: base, off: Add(off, lo), ln: Sub(hi, lo), cp: Sub(max, lo)}
}

// ---------------------------------------------------------------- interfaces

var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	t = canon(t)
	k := types.TypeString(t, nil)
	if id, ok := typeTags[k]; ok {
		return K(id)
	}
	id := int64(len(typeTags) + 1)
	typeTags[k] = id
	tagTypes[id] = t
	return K(id)
}

func isPtrLike(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (x *Exec) makeIface(st *State, v Val, from, to types.Type) Val {
	if isPtrLike(from) && v.k == vScalar {
		return Val{k: vIface, ty: to, tag: typeTag(from), t: v.t}
	}
	r := NewRoot()
	if v.k == vFunc {
		return Val{k: vIface, ty: to, tag: typeTag(from), t: r}
	}
	st.store(r, from, v)
	return Val{k: vIface, ty: to, tag: typeTag(from), t: r}
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) Val {
	v := x.val(st, fr, in.X)
	t := in.AssertedType
	if _, ok := under(t).(*types.Interface); ok {
		r := v
		r.ty = t
		okT := Not(Eq(v.tag, Zero))
		if in.CommaOk {
			ok2 := NewVar("assertok", SBool)
			return Val{k: vTuple, a: []Val{r, mkBool(And(okT, ok2))}}
		}
		return r
	}
	c := Eq(v.tag, typeTag(t))
	var r Val
	if isPtrLike(t) {
		r = mkScalar(v.t, t)
	} else {
		r = st.mem().load(v.t, t)
	}
	if in.CommaOk {
		m, ok := mergeVal(c, r, zeroVal(t))
		if !ok {
			panic(unsupported("type assert merge"))
		}
		return Val{k: vTuple, a: []Val{m, mkBool(c)}}
	}
	x.check(st, fr, "nopanic", "type assertion", in.Pos(), c)
	return r
}

func (x *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos) []callOut {
	if n, ok := recv.tag.int64(); ok && n > 0 {
		ct := tagTypes[n]
		if ct != nil {
			sel := x.prog.MethodSets.MethodSet(ct).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel != nil {
				fn := x.prog.MethodValue(sel)
				var rv Val
				if isPtrLike(ct) {
					rv = mkScalar(recv.t, ct)
				} else {
					rv = st.mem().load(recv.t, ct)
				}
				return x.callStatic(st, fr, c, fn, append([]Val{rv}, args...), nil, pos)
			}
		}
	}
	it := c.Value.Type()
	key := ifaceKey(it) + "." + c.Method.Name()
	if con := x.ifaceCons[key]; con != nil && !(fr.spec && fr.cst != nil && fr.cst.ifaceM == key) {
		return x.useContract(st, fr, con, nil, append([]Val{recv}, args...), pos)
	}
	if fr.cst != nil && fr.cst.ifaceM == key {
		return x.contractTarget(st, fr, nil, append([]Val{recv}, args...), pos)
	}
	if m, ok := models["iface:"+key]; ok {
		x.modelsUsed["iface:"+key] = true
		return m(x, st, fr, append([]Val{recv}, args...), pos)
	}
	if impls := x.implementations(it); len(impls) > 0 {
		var ct types.Type
		for _, t := range impls {
			if st.facts.decide(Eq(recv.tag, typeTag(t)), true) == 1 {
				ct = t
			}
		}
		if ct == nil && len(impls) == 1 {
			ct = impls[0]
			x.check(st, fr, "nopanic", "nil interface", pos, Not(Eq(recv.tag, Zero)))
			x.note("closed world: " + ifaceKey(it) + " is implemented only by " + ct.String() + " in this module")
			st.assume(Eq(recv.tag, typeTag(ct)))
		}
		if ct != nil {
			r2 := recv
			r2.tag = typeTag(ct)
			return x.invoke(st, fr, c, r2, args, pos)
		}
	}
	panic(unsupported("interface call " + key + " in " + fr.fn.String()))
}

var implCache = map[string][]types.Type{}

// implementations of an interface in the module under verification.
func (x *Exec) implementations(it types.Type) []types.Type {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
		return nil
	}
	k := types.TypeString(it, nil)
	if r, ok := implCache[k]; ok {
		return r
	}
	var r []types.Type
	for _, p := range x.prog.AllPackages() {
		if !inModule(p.Pkg.Path()) {
			continue
		}
		for _, nm := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, under(it).(*types.Interface)) {
					r = append(r, t)
				}
			}
		}
	}
	implCache[k] = r
	return r
}

func ifaceKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return tyName(t)
}

// ---------------------------------------------------------------- map iteration

func (x *Exec) doNext(st *State, fr *Frame, b *ssa.BasicBlock, i int, in *ssa.Next, stops map[*ssa.BasicBlock]bool) []Arrival {
	it := x.val(st, fr, in.Iter).iter
	if it == nil || it.m == nil {
		panic(unsupported("string iteration"))
	}
	vk := fmt.Sprintf("vis%d", it.id)
	vis := st.ghost[vk].t
	ks := keySort(it.mty.Key())
	dom := st.mem().mapDom(it.m, it.mty)
	// exhausted
	s2 := st.clone()
	ck := fmt.Sprintf("cnt%d", it.id)
	cnt := st.ghost[ck].t
	if dom == it.dom0 {
		// not modified meanwhile: each key was passed once
		s2.assume(Eq(cnt, Ite(Eq(it.m, Null), Zero, card(s2, dom))))
	}
	bd := NewBound("k", ks)
	s2.assume(Forall([]*Term{bd}, Implies(Select(dom, bd), Select(vis, bd))))
	tt := in.Type().(*types.Tuple)
	mk := func(ok *Term, k, v Val) Val {
		return Val{k: vTuple, ty: tt, a: []Val{mkBool(ok), k, v}}
	}
	zk := zeroVal(it.mty.Key())
	s2.env[in] = mk(False, zk, zeroVal(it.mty.Elem()))
	var out []Arrival
	if it.m != Null {
		kv := symVal("key", it.mty.Key(), func(t *Term) { st.assume(t) })
		k := keyTerm(kv)
		st.assume(Select(dom, k))
		st.assume(Not(Select(vis, k)))
		st.assume(Not(Eq(it.m, Null)))
		st.ghost[vk] = Val{k: vMath, t: Store(vis, k, True)}
		st.ghost[ck] = Val{k: vMath, t: Add(cnt, One)}
		v, _ := st.mem().mapGet(it.m, it.mty, k)
		st.env[in] = mk(True, kv, v)
		out = append(out, x.runFrom(st, fr, b, i+1, stops)...)
	}
	out = append(out, x.runFrom(s2, fr, b, i+1, stops)...)
	return out
}

func inModule(path string) bool { return path == modPrefix || strings.HasPrefix(path, modPrefix+"/") }
