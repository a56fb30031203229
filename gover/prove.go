package main

// Discharging obligations: clause preparation, ground instantiation of
// quantified facts, extensionality, SMT-LIB printing, solver portfolio.

import (
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type prover struct {
	clauses []*Term        // ground formulas
	have    map[*Term]bool
	foralls []*qlit
	qmap    map[*Term]*qlit
	insts   map[string]bool
	nInst   int
	level   int
	base    *Facts
	maxInst int
	deadline time.Time
	goalWits []*Term // witnesses of the array equalities of the goal
}

type qlit struct {
	q   *Term // the Forall
	lit *Term // True for top-level
}

func newProver(level int) *prover {
	return &prover{have: map[*Term]bool{}, qmap: map[*Term]*qlit{}, insts: map[string]bool{}, level: level, maxInst: 1500 + 2500*level}
}

func (p *prover) add(t *Term) {
	t = p.prep(t, true)
	p.push(t)
}

func (p *prover) push(t *Term) {
	if t == True || p.have[t] {
		return
	}
	if t.op == OpAnd {
		for _, a := range t.args {
			p.push(a)
		}
		return
	}
	p.have[t] = true
	p.clauses = append(p.clauses, t)
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if t.op == OpForall || t.op == OpExists {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	quantMemo[t] = r
	return r
}

// prep removes quantifiers: existentials become constants, universals become
// literals with registered instances. Formulas are in negation normal form.
func (p *prover) prep(t *Term, top bool) *Term {
	if !hasQuant(t) {
		return t
	}
	switch t.op {
	case OpAnd:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = p.prep(a, top)
		}
		return And(as...)
	case OpOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = p.prep(a, false)
		}
		return Or(as...)
	case OpIte: // boolean ite with quantifiers
		c, a, b := t.args[0], t.args[1], t.args[2]
		return And(p.prep(Or(Not(c), a), top), p.prep(Or(c, b), top))
	case OpExists:
		m := map[*Term]*Term{}
		for _, b := range t.args[:len(t.args)-1] {
			m[b] = p.skolem(t, b)
		}
		return p.prep(Subst(t.args[len(t.args)-1], m), top)
	case OpForall:
		l := p.qmap[t]
		if l == nil {
			l = &qlit{q: t, lit: True}
			if !top {
				l.lit = App(fmt.Sprintf("q!%d", t.id), SBool)
			}
			p.qmap[t] = l
			p.foralls = append(p.foralls, l)
		} else if top {
			if l.lit != True {
				p.push(l.lit)
			}
		}
		return l.lit
	case OpNot, OpEq:
		// a quantifier below an equality or negation that could not be pushed
		return p.opaque(t)
	}
	return p.opaque(t)
}

var skMemo = map[string]*Term{}

func (p *prover) skolem(q, b *Term) *Term {
	k := fmt.Sprintf("%d/%d", q.id, b.id)
	if s, ok := skMemo[k]; ok {
		return s
	}
	s := NewVar("sk", b.sort)
	skMemo[k] = s
	return s
}

func (p *prover) opaque(t *Term) *Term { return App(fmt.Sprintf("opaque!%d", t.id), SBool) }

// ---------------------------------------------------------------- matching

type ground struct {
	selects map[*Term][]*Term // array -> indices
	bySort  map[*Sort][]*Term // array sort -> select terms
	apps    map[string][]*Term
	els     map[string][]*Term
	ints    []*Term
	all     map[*Term]bool
	eqs     []*Term // array equalities
	comps   []*Term
	byOp    map[Op][]*Term
	idxBySort map[*Sort][]*Term
	idxSeen map[*Term]bool
	skolems []*Term
}

func newGround() *ground {
	return &ground{selects: map[*Term][]*Term{}, bySort: map[*Sort][]*Term{}, apps: map[string][]*Term{}, els: map[string][]*Term{}, all: map[*Term]bool{}, byOp: map[Op][]*Term{}, idxBySort: map[*Sort][]*Term{}, idxSeen: map[*Term]bool{}}
}

func (g *ground) walk(t *Term) {
	if g.all[t] || t.bnd {
		return
	}
	g.all[t] = true
	switch t.op {
	case OpSelect:
		g.selects[t.args[0]] = append(g.selects[t.args[0]], t.args[1])
		g.bySort[t.args[0].sort] = append(g.bySort[t.args[0].sort], t)
		if !g.idxSeen[t.args[1]] {
			g.idxSeen[t.args[1]] = true
			g.idxBySort[t.args[1].sort] = append(g.idxBySort[t.args[1].sort], t.args[1])
		}
	case OpApp:
		g.apps[t.name] = append(g.apps[t.name], t)
	case OpEl, OpFa:
		k := fmt.Sprintf("%d:%s", t.op, t.i)
		g.els[k] = append(g.els[k], t)
	case OpEq:
		if t.args[0].sort.Kind == "arr" {
			g.eqs = append(g.eqs, t)
		}
	case OpVar:
		if strings.HasPrefix(t.name, "sk!") {
			g.skolems = append(g.skolems, t)
		}
	}
	for _, a := range t.args {
		g.walk(a)
	}
}

// match extends the binding so that pattern p equals ground term g.
func match(p, g *Term, b map[*Term]*Term) bool {
	if !p.bnd {
		return p == g
	}
	if p.op == OpBound {
		if v, ok := b[p]; ok {
			return v == g
		}
		if p.sort.Kind != g.sort.Kind {
			return false
		}
		b[p] = g
		return true
	}
	if p.sort.Kind == "int" && (p.op == OpLin || p.op == OpMul || p.op == OpDiv) {
		if p.op != OpLin {
			if p.op == g.op && p.op == OpDiv && p.i.Cmp(g.i) == 0 {
				return match(p.args[0], g.args[0], b)
			}
			return p == g
		}
		// solve for a single unbound variable
		var v *Term
		var k *big.Int
		rest := &lin{c: new(big.Int).Set(p.i), m: map[*Term]*big.Int{}}
		for j, a := range p.args {
			if a.op == OpBound {
				if val, ok := b[a]; ok {
					rest.add(val, p.coefs[j])
					continue
				}
				if v != nil {
					return false
				}
				v, k = a, p.coefs[j]
				continue
			}
			if a.bnd {
				sub := substAll(a, b)
				if sub.bnd {
					return false
				}
				rest.add(sub, p.coefs[j])
				continue
			}
			rest.addAtom(a, p.coefs[j])
		}
		if v == nil {
			return rest.term() == g
		}
		d := Sub(g, rest.term())
		if k.CmpAbs(bigOne) == 0 {
			b[v] = MulC(k, d)
			return true
		}
		if k.Sign() > 0 {
			b[v] = Div(d, k)
			return true
		}
		return false
	}
	if p.op == OpExt && g.op != OpExt && p.args[0].op == OpBound && p.args[1] == Zero {
		// the content of a quantified string: any string content
		if v, ok := b[p.args[0]]; ok {
			return v == g
		}
		b[p.args[0]] = g
		return true
	}
	if p.op != g.op || len(p.args) != len(g.args) || p.name != g.name {
		return false
	}
	if (p.i == nil) != (g.i == nil) || p.i != nil && p.i.Cmp(g.i) != 0 {
		return false
	}
	for i := range p.args {
		if !match(p.args[i], g.args[i], b) {
			return false
		}
	}
	return true
}

func substAll(t *Term, b map[*Term]*Term) *Term {
	if !t.bnd {
		return t
	}
	return Subst(t, b)
}

// patterns of a quantifier body: subterms Select/App/El mentioning bound vars.
func patterns(q *Term) []*Term {
	own := map[*Term]bool{}
	for _, b := range q.args[:len(q.args)-1] {
		own[b] = true
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bnd {
			return
		}
		seen[t] = true
		if t.op == OpForall || t.op == OpExists {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		switch t.op {
		case OpSelect, OpApp, OpEl:
			if mentions(t, own) {
				out = append(out, t)
			}
		}
	}
	walk(q.args[len(q.args)-1])
	return out
}

func mentions(t *Term, own map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if own[t] {
			return true
		}
		if seen[t] || !t.bnd {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

var patMemo = map[*Term][]*Term{}

func (p *prover) instantiate(g *ground) bool {
	changed := false
	for qi := 0; qi < len(p.foralls); qi++ {
		l := p.foralls[qi]
		q := l.q
		bs := q.args[:len(q.args)-1]
		pats, ok := patMemo[q]
		if !ok {
			pats = patterns(q)
			patMemo[q] = pats
		}
		var binds []map[*Term]*Term
		try := func(pt, gt *Term, loose bool) {
			b := map[*Term]*Term{}
			if loose {
				if !match(pt.args[1], gt, b) {
					return
				}
			} else if !match(pt, gt, b) {
				return
			}
			binds = append(binds, b)
		}
		for _, pt := range pats {
			switch pt.op {
			case OpSelect:
				A := pt.args[0]
				if !A.bnd {
					for _, i := range g.selects[A] {
						b := map[*Term]*Term{}
						if match(pt.args[1], i, b) {
							binds = append(binds, b)
						}
					}
				} else {
					for _, s := range g.bySort[A.sort] {
						try(pt, s, false)
					}
				}
				if p.level >= 1 && pt.args[1].bnd {
					// any index used with an array of a compatible sort
					for _, i := range g.idxBySort[pt.args[1].sort] {
						try(pt, i, true)
					}
					if pt.args[1].sort.Kind == "int" {
						for _, is := range g.idxBySort {
							for _, i := range is {
								if i.sort.Kind == "int" && i.sort != pt.args[1].sort {
									try(pt, i, true)
								}
							}
						}
					}
				}
			case OpApp:
				for _, s := range g.apps[pt.name] {
					try(pt, s, false)
				}
			case OpEl:
				for _, s := range g.els[fmt.Sprintf("%d:%s", pt.op, pt.i)] {
					try(pt, s, false)
				}
			}
		}
		// skolem constants of the goal are always candidates
		for _, b := range bs {
			for _, s := range g.skolems {
				if s.sort.Kind == b.sort.Kind && (s.sort.Kind != "arr" || s.sort == b.sort) {
					binds = append(binds, map[*Term]*Term{b: s})
				}
			}
		}
		// complete partial bindings
		cands := map[*Term][]*Term{}
		for _, b := range bs {
			seen := map[*Term]bool{}
			for _, m := range binds {
				if v, ok := m[b]; ok && !seen[v] && !v.bnd {
					seen[v] = true
					cands[b] = append(cands[b], v)
				}
			}
		}
		emit := func(m map[*Term]*Term) {
			if p.nInst > p.maxInst || time.Now().After(p.deadline) {
				return
			}
			var kb strings.Builder
			fmt.Fprintf(&kb, "%d", q.id)
			for _, b := range bs {
				if m[b].bnd {
					return
				}
				fmt.Fprintf(&kb, ",%d", m[b].id)
			}
			if p.insts[kb.String()] {
				return
			}
			p.insts[kb.String()] = true
			p.nInst++
			inst := Subst(q.args[len(q.args)-1], m)
			if l.lit != True {
				inst = Or(Not(l.lit), inst)
			}
			n := len(p.clauses)
			p.add(inst)
			if len(p.clauses) > n {
				changed = true
			}
		}
		for _, m := range binds {
			full := true
			var missing []*Term
			for _, b := range bs {
				if _, ok := m[b]; !ok {
					full = false
					missing = append(missing, b)
				}
			}
			if full {
				emit(m)
				continue
			}
			// cross product over the missing variables
			var rec func(i int, cur map[*Term]*Term)
			n := 0
			rec = func(i int, cur map[*Term]*Term) {
				if n > 400 {
					return
				}
				if i == len(missing) {
					n++
					c := map[*Term]*Term{}
					for k, v := range cur {
						c[k] = v
					}
					emit(c)
					return
				}
				for _, v := range cands[missing[i]] {
					cur[missing[i]] = v
					rec(i+1, cur)
				}
				delete(cur, missing[i])
			}
			cur := map[*Term]*Term{}
			for k, v := range m {
				cur[k] = v
			}
			rec(0, cur)
		}
	}
	return changed
}

// ---------------------------------------------------------------- extensionality

func isComposite(t *Term) bool {
	switch t.op {
	case OpStore, OpWrite, OpExt, OpCArr, OpHMerge, OpHCopy, OpHRange, OpIte:
		return true
	}
	return false
}

func (p *prover) extensionality(g *ground) bool {
	n := len(p.clauses)
	var pairs []*Term
	seen := map[*Term]bool{}
	addPair := func(a, b *Term) {
		if a == b {
			return
		}
		e := Eq(a, b)
		if e != False && !e.bnd && (e.op != OpEq || e.args[0].sort.Kind != "arr") {
			// decomposed equality: the solver must learn that the terms are equal
			x, y := a, b
			if x.id > y.id {
				x, y = y, x
			}
			if !e.bnd && !x.bnd && !y.bnd {
				p.add(Or(Not(e), intern(&Term{op: OpEq, sort: SBool, args: []*Term{x, y}})))
			}
			return
		}
		if e.op != OpEq || seen[e] || e.bnd {
			return
		}
		seen[e] = true
		pairs = append(pairs, e)
	}
	for _, e := range g.eqs {
		addPair(e.args[0], e.args[1])
	}
	// arguments of the same function
	var names []string
	for nm := range g.apps {
		names = append(names, nm)
	}
	sort.Strings(names)
	for _, nm := range names {
		as := g.apps[nm]
		hasArr := false
		if len(as) > 0 {
			for _, a := range as[0].args {
				if a.sort.Kind == "arr" {
					hasArr = true
				}
			}
		}
		if !hasArr || len(as) > 60 {
			continue
		}
		for i := range as {
			for j := 0; j < i; j++ {
				if len(as[i].args) != len(as[j].args) {
					continue
				}
				// only when the integer arguments may agree
				ok := true
				for k := range as[i].args {
					x, y := as[i].args[k], as[j].args[k]
					if x.sort.Kind == "int" && Eq(x, y) == False {
						ok = false
					}
				}
				if !ok {
					continue
				}
				for k := range as[i].args {
					x, y := as[i].args[k], as[j].args[k]
					if x.sort.Kind == "arr" && x != y {
						addPair(x, y)
					}
				}
			}
		}
	}
	// array-indexed arrays and string keys
	for _, is := range g.idxBySort {
		if len(is) == 0 || is[0].sort.Kind != "arr" && is[0].sort.Kind != "str" || len(is) > 40 {
			continue
		}
		for i := range is {
			for j := 0; j < i; j++ {
				if is[i].sort.Kind == "arr" {
					addPair(is[i], is[j])
				} else if is[i].op == OpMkStr && is[j].op == OpMkStr {
					addPair(is[i].args[0], is[j].args[0])
				}
			}
		}
	}
	for _, e := range pairs {
		a, b := e.args[0], e.args[1]
		d := p.skolem(e, e) // sort wrong kind: make an index constant
		d = p.extWitness(e)
		// differ at the witness unless equal
		p.add(Or(e, Not(Eq(Select(a, d), Select(b, d)))))
		// equal arrays agree at every index used with either
		idx := map[*Term]bool{d: true}
		collect := func(t *Term) {
			for _, i := range g.selects[t] {
				idx[i] = true
			}
			// a slice of bytes: the indices used with the bytes it is cut from
			if t.op == OpExt && t.args[0].op != OpExt && len(g.selects[t.args[0]]) < 60 {
				for _, i := range g.selects[t.args[0]] {
					idx[Sub(i, t.args[1])] = true
				}
			}
		}
		collect(a)
		collect(b)
		for _, w := range p.goalWits {
			idx[w] = true
		}
		if p.level >= 1 {
			if len(pairs)*len(g.skolems) < 1500 {
				for _, w := range g.skolems {
					idx[w] = true
				}
			}
			cnt := 0
			for _, is := range g.idxBySort[a.sort.Idx] {
				if cnt < 40 {
					idx[is] = true
					cnt++
				}
			}
			if a.sort.Idx.Kind == "int" {
				for s, is := range g.idxBySort {
					if s.Kind != "int" || s == a.sort.Idx {
						continue
					}
					for _, i := range is {
						if cnt < 60 {
							idx[i] = true
							cnt++
						}
					}
				}
			}
		}
		var ord []*Term
		for i := range idx {
			if !i.bnd {
				ord = append(ord, i)
			}
		}
		sort.Slice(ord, func(i, j int) bool { return ord[i].id < ord[j].id })
		for _, i := range ord {
			if i.sort.Kind != a.sort.Idx.Kind {
				continue
			}
			p.add(Or(Not(e), Eq(Select(a, i), Select(b, i))))
		}
	}
	return len(p.clauses) > n
}

var extWit = map[*Term]*Term{}

func (p *prover) extWitness(e *Term) *Term {
	if w, ok := extWit[e]; ok {
		return w
	}
	w := NewVar("sk", e.args[0].sort.Idx)
	extWit[e] = w
	return w
}

// ---------------------------------------------------------------- building the query

func (p *prover) run(facts []*Term, goal *Term) {
	for _, f := range facts {
		p.add(f)
	}
	p.add(Not(goal))
	gg := newGround()
	gg.walk(goal)
	for _, e := range gg.eqs {
		p.goalWits = append(p.goalWits, p.extWitness(e))
	}
	rounds := 3
	if p.level >= 1 {
		rounds = 4
	}
	p.deadline = time.Now().Add(12 * time.Second)
	for r := 0; r < rounds && time.Now().Before(p.deadline); r++ {
		g := newGround()
		for _, c := range p.clauses {
			g.walk(c)
		}
		ch := p.instantiate(g)
		if p.extensionality(g) {
			ch = true
		}
		if !ch {
			break
		}
	}
}

// ---------------------------------------------------------------- SMT-LIB

type smt struct {
	b        strings.Builder
	decls    strings.Builder
	names    map[*Term]string
	done     map[*Term]bool
	ufs      map[string]bool
	sorts    map[string]bool
	axioms   []string
	mulOpaque bool
}

func smtSort(s *Sort) string {
	switch s.Kind {
	case "int":
		return "Int"
	case "bool":
		return "Bool"
	case "ref":
		return "Ref"
	case "str":
		return "Str"
	case "arr":
		return "A" + sanit(baseArrName(s))
	}
	panic("smtSort")
}

// arrays of the same index and element kind share one SMT sort
func baseArrName(s *Sort) string {
	k := func(t *Sort) string {
		switch t.Kind {
		case "int":
			return "I"
		case "bool":
			return "B"
		case "ref":
			return "R"
		case "str":
			return "S"
		}
		return "a" + baseArrName(t) + "e"
	}
	return k(s.Idx) + k(s.Elem)
}

func sanit(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func newSMT() *smt {
	return &smt{names: map[*Term]string{}, done: map[*Term]bool{}, ufs: map[string]bool{}, sorts: map[string]bool{}}
}

func (s *smt) needSort(t *Sort) {
	if t.Kind != "arr" {
		return
	}
	s.needSort(t.Elem)
	s.needSort(t.Idx)
	n := smtSort(t)
	if !s.sorts[n] {
		s.sorts[n] = true
		fmt.Fprintf(&s.decls, "(declare-sort %s 0)\n(declare-fun sel_%s (%s %s) %s)\n", n, n, n, smtSort(t.Idx), smtSort(t.Elem))
	}
}

func (s *smt) rangeFact(name string, t *Term) {
	if t.sort.Kind != "int" {
		return
	}
	lo, hi := Range(t)
	if lo != nil {
		s.axioms = append(s.axioms, fmt.Sprintf("(<= %s %s)", smtInt(lo), name))
	}
	if hi != nil {
		s.axioms = append(s.axioms, fmt.Sprintf("(<= %s %s)", name, smtInt(hi)))
	}
}

func (s *smt) term(t *Term) string {
	if n, ok := s.names[t]; ok {
		return n
	}
	var r string
	a := func(i int) string { return s.term(t.args[i]) }
	list := func(op string) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for i := range t.args {
			b.WriteString(" " + a(i))
		}
		b.WriteString(")")
		return b.String()
	}
	constant := func(prefix string) string {
		s.needSort(t.sort)
		n := fmt.Sprintf("%s%d", prefix, t.id)
		fmt.Fprintf(&s.decls, "(declare-const %s %s)\n", n, smtSort(t.sort))
		s.names[t] = n
		s.rangeFact(n, t)
		return n
	}
	define := func(r string) string {
		if n, ok := s.names[t]; ok { // emitted while emitting an argument
			return n
		}
		n := fmt.Sprintf("t%d", t.id)
		s.names[t] = n
		fmt.Fprintf(&s.decls, "(define-fun %s () %s %s)\n", n, smtSort(t.sort), r)
		return n
	}
	switch t.op {
	case OpConst:
		return smtInt(t.i)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpVar, OpBound:
		return constant("v")
	case OpLin:
		var b strings.Builder
		b.WriteString("(+ " + smtInt(t.i))
		for j := range t.args {
			if t.coefs[j].Cmp(bigOne) == 0 {
				b.WriteString(" " + a(j))
			} else {
				b.WriteString(" (* " + smtInt(t.coefs[j]) + " " + a(j) + ")")
			}
		}
		b.WriteString(")")
		return define(b.String())
	case OpMul:
		if s.mulOpaque {
			n := constant("m")
			s.mulAxioms(t, n)
			return n
		}
		r = list("*")
		if n, ok := s.names[t]; ok {
			return n
		}
		n := define(r)
		s.mulAxioms(t, n)
		return n
	case OpDiv:
		n := fmt.Sprintf("d%d", t.id)
		x := a(0)
		fmt.Fprintf(&s.decls, "(declare-const %s Int)\n", n)
		s.names[t] = n
		m := smtInt(t.i)
		s.axioms = append(s.axioms, fmt.Sprintf("(and (<= (* %s %s) %s) (< %s (+ (* %s %s) %s)))", m, n, x, x, m, n, m))
		s.rangeFact(n, t)
		return n
	case OpDivS:
		n := constant("ds")
		x, d := a(0), a(1)
		m := Mul(t, t.args[1])
		ms := s.term(m)
		s.axioms = append(s.axioms, fmt.Sprintf("(=> (> %s 0) (and (<= %s %s) (< %s (+ %s %s))))", d, ms, x, x, ms, d))
		s.axioms = append(s.axioms, fmt.Sprintf("(=> (and (> %s 0) (>= %s 0)) (and (>= %s 0) (<= %s %s)))", d, x, n, n, x))
		return n
	case OpGe0:
		return define("(>= " + a(0) + " 0)")
	case OpEq0:
		return define("(= " + a(0) + " 0)")
	case OpEq:
		return define("(= " + a(0) + " " + a(1) + ")")
	case OpNot:
		return "(not " + a(0) + ")"
	case OpAnd:
		return define(list("and"))
	case OpOr:
		return define(list("or"))
	case OpIte:
		if t.sort.Kind == "arr" {
			c, x, y := a(0), a(1), a(2)
			return define("(ite " + c + " " + x + " " + y + ")")
		}
		return define(list("ite"))
	case OpSelect:
		arr, i := t.args[0], a(1)
		s.needSort(arr.sort)
		x := s.term(arr)
		n := define("(sel_" + smtSort(arr.sort) + " " + x + " " + i + ")")
		s.rangeFact(n, t)
		if arr.sort.N >= 0 && t.sort.Kind == "int" && (arr.op == OpVar || arr.op == OpApp || arr.op == OpSelect) {
			s.axioms = append(s.axioms, fmt.Sprintf("(=> (or (< %s 0) (>= %s %d)) (= %s 0))", i, i, arr.sort.N, n))
		}
		return n
	case OpApp:
		if len(t.args) == 0 {
			return constant("c")
		}
		s.needSort(t.sort)
		var as []string
		var ss []string
		for i := range t.args {
			as = append(as, a(i))
			s.needSort(t.args[i].sort)
			ss = append(ss, smtSort(t.args[i].sort))
		}
		fnm := "f_" + sanit(t.name) + "_" + fmt.Sprint(len(ss))
		key := fnm + strings.Join(ss, ",")
		if !s.ufs[key] {
			s.ufs[key] = true
			fmt.Fprintf(&s.decls, "(declare-fun %s (%s) %s)\n", fnm, strings.Join(ss, " "), smtSort(t.sort))
		}
		n := define("(" + fnm + " " + strings.Join(as, " ") + ")")
		s.rangeFact(n, t)
		return n
	case OpNull:
		return "null"
	case OpRoot:
		return "(root " + smtInt(t.i) + ")"
	case OpFa:
		return define("(fa " + t.i.String() + " " + a(0) + ")")
	case OpEl:
		return define("(el " + t.i.String() + " " + a(0) + " " + a(1) + ")")
	case OpMkStr:
		s.needSort(t.args[0].sort)
		k := "mkstr_" + smtSort(t.args[0].sort)
		if !s.ufs[k] {
			s.ufs[k] = true
			fmt.Fprintf(&s.decls, "(declare-fun %s (%s Int) Str)\n", k, smtSort(t.args[0].sort))
		}
		return define("(" + k + " " + a(0) + " " + a(1) + ")")
	case OpStore, OpWrite, OpExt, OpCArr, OpHMerge, OpHCopy, OpHRange:
		return constant("A")
	}
	panic("smt term " + t.String())
}

func (s *smt) mulAxioms(t *Term, n string) {
	if len(t.args) != 2 {
		return
	}
	x, y := t.args[0], t.args[1]
	f := And(Implies(And(Ge0(x), Ge(y, One)), Ge(t, x)), Implies(And(Ge(x, One), Ge0(y)), Ge(t, y)), Implies(And(Ge0(x), Ge0(y)), Ge0(t)),
		Implies(Eq(x, Zero), Eq(t, Zero)), Implies(Eq(y, Zero), Eq(t, Zero)), Implies(Eq(x, One), Eq(t, y)), Implies(Eq(y, One), Eq(t, x)))
	s.names[t] = n
	s.axioms = append(s.axioms, s.term(f))
}

const smtPrelude = `(set-logic ALL)
(declare-datatypes ((Ref 0)) (((null) (root (rid Int)) (fa (fid Int) (fbase Ref)) (el (etid Int) (ebase Ref) (eidx Int)))))
(declare-sort Str 0)
`

func (p *prover) smtText(mulOpaque bool) string {
	s := newSMT()
	s.mulOpaque = mulOpaque
	var asserts []string
	for _, c := range p.clauses {
		asserts = append(asserts, s.term(c))
	}
	for _, ax := range p.theoryAxioms(s) {
		asserts = append(asserts, s.term(ax))
	}
	var b strings.Builder
	b.WriteString(smtPrelude)
	b.WriteString(s.decls.String())
	for _, a := range s.axioms {
		b.WriteString("(assert " + a + ")\n")
	}
	for _, a := range asserts {
		if a != "true" {
			b.WriteString("(assert " + a + ")\n")
		}
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// theoryAxioms: defining facts of pow2 and products sharing factors.
func (p *prover) theoryAxioms(s *smt) []*Term {
	var out []*Term
	var pows []*Term
	g := newGround()
	for _, c := range p.clauses {
		g.walk(c)
	}
	for _, t := range g.apps["pow2"] {
		pows = append(pows, t)
	}
	sort.Slice(pows, func(i, j int) bool { return pows[i].id < pows[j].id })
	for i, t := range pows {
		k := t.args[0]
		out = append(out, Implies(Ge0(k), Ge(t, One)), Implies(Ge0(k), Ge(t, AddC(k, 1))), Implies(Eq(k, Zero), Eq(t, One)),
			Implies(Ge(k, One), Ge(t, K(2))))
		for j := 0; j < i; j++ {
			u := pows[j]
			d := Sub(k, u.args[0])
			if n, ok := d.int64(); ok && n > -64 && n < 64 {
				if n >= 0 {
					out = append(out, Implies(Ge0(u.args[0]), Eq(t, MulC(pow2(uint(n)), u))))
				} else {
					out = append(out, Implies(Ge0(k), Eq(u, MulC(pow2(uint(-n)), t))))
				}
			} else {
				out = append(out, Implies(And(Ge0(u.args[0]), Ge(k, u.args[0])), Ge(t, u)))
				out = append(out, Implies(And(Ge0(k), Ge(u.args[0], k)), Ge(u, t)))
				out = append(out, Implies(And(Ge0(u.args[0]), Gt(k, u.args[0])), Ge(t, MulI(2, u))))
				out = append(out, Implies(And(Ge0(k), Gt(u.args[0], k)), Ge(u, MulI(2, t))))
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- solvers

type solver struct {
	name string
	args []string
}

func solvers(timeout int) []solver {
	return []solver{
		{"z3-5.3", []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", timeout)}},
		{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout*1000)}},
		{"z3-4.8", []string{"z3", "-smt2", fmt.Sprintf("-T:%d", timeout)}},
	}
}

func runSolver(c context.Context, s solver, file string) (string, string) {
	args := append(append([]string{}, s.args[1:]...), file)
	cmd := exec.CommandContext(c, s.args[0], args...)
	out, _ := cmd.CombinedOutput()
	txt := string(out)
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			return l, txt
		}
		if strings.HasPrefix(l, "(error") {
			return "error", txt
		}
	}
	return "unknown", txt
}

// portfolio runs the solvers on the query: first z3 briefly, then all.
func portfolio(text string, dir, name string, timeout int) (res, backend, output string) {
	f := dir + "/" + name + ".smt2"
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		panic(err)
	}
	if !keepSMT {
		defer os.Remove(f)
	}
	ctxx := context.Background()
	quick := timeout / 4
	if quick < 2 {
		quick = 2
	}
	r, o := runSolver(ctxx, solvers(quick)[0], f)
	if r == "unsat" || r == "sat" {
		return r, "z3-5.3", o
	}
	if r == "error" {
		return r, "z3-5.3", o
	}
	type ans struct{ r, b, o string }
	ch := make(chan ans, 3)
	cc, cancel := context.WithCancel(ctxx)
	defer cancel()
	ss := solvers(timeout)
	for _, s := range ss {
		s := s
		go func() {
			r, o := runSolver(cc, s, f)
			ch <- ans{r, s.name, o}
		}()
	}
	last := ans{"unknown", "portfolio", o}
	for range ss {
		a := <-ch
		if a.r == "unsat" || a.r == "sat" {
			return a.r, a.b, a.o
		}
		if a.o != "" {
			last = a
		}
	}
	return "unknown", last.b, last.o
}

var keepSMT = false

// query is a prepared SMT text for one obligation at one effort level.
type query struct {
	ob    *Oblig
	texts []string
}

func hasMul(p *prover) bool {
	g := newGround()
	for _, c := range p.clauses {
		g.walk(c)
	}
	for t := range g.all {
		if t.op == OpMul || t.op == OpDivS {
			return true
		}
	}
	return false
}

var proveTimeout = 20

// prepare builds the SMT texts of an obligation (single threaded: uses the
// term table).
func prepare(ob *Oblig, level int) (texts []string, trivially bool) {
	start := time.Now()
	defer func() { ob.Secs += time.Since(start).Seconds() }()
	ctx = nil
	var fs []*Term
	// re-simplify the goal under the facts first
	goal := ob.goal
	if level >= 0 {
		ctx = factCtx{ob.facts}
		goal = Simplify(goal)
		ctx = nil
	}
	if goal == True {
		return nil, true
	}
	fs = ob.facts.list()
	p := newProver(level)
	p.run(fs, goal)
	for _, c := range p.clauses {
		if c == False {
			return nil, true
		}
	}
	texts = append(texts, p.smtText(true))
	if hasMul(p) {
		texts = append(texts, p.smtText(false))
	}
	return texts, false
}
