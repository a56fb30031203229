package main

// Path conditions (Facts), quick entailment, and a live z3 process used for
// linear-arithmetic entailment while executing.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

// Facts is a persistent list of assumptions.
type Facts struct {
	parent *Facts
	t      *Term
	n      int
	dead   bool // contradictory
	memo   map[*Term]int
}

func (f *Facts) list() []*Term {
	var out []*Term
	for p := f; p != nil && p.t != nil; p = p.parent {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (f *Facts) with(t *Term) *Facts {
	if t == True {
		return f
	}
	if t.op == OpAnd {
		for _, a := range t.args {
			f = f.with(a)
		}
		return f
	}
	for p := f; p != nil; p = p.parent {
		if p.t == t {
			return f
		}
	}
	n := 1
	if f != nil {
		n = f.n + 1
	}
	r := &Facts{parent: f, t: t, n: n}
	if f != nil && f.dead || t == False {
		r.dead = true
	}
	return r
}

type factCtx struct{ f *Facts }

func (c factCtx) decide(t *Term) int { return c.f.decide(t, true) }

var deciding bool

func (f *Facts) decide(t *Term, live bool) int {
	if t == True {
		return 1
	}
	if t == False {
		return 0
	}
	if f == nil {
		return -1
	}
	if f.memo == nil {
		f.memo = map[*Term]int{}
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	if deciding {
		return -1
	}
	deciding = true
	r := f.decide1(t, live)
	deciding = false
	f.memo[t] = r
	return r
}

func (f *Facts) decide1(t *Term, live bool) int {
	switch t.op {
	case OpTrue:
		return 1
	case OpFalse:
		return 0
	case OpAnd:
		all := true
		for _, a := range t.args {
			switch f.decide1(a, live) {
			case 0:
				return 0
			case -1:
				all = false
			}
		}
		if all {
			return 1
		}
		return -1
	case OpOr:
		all := true
		for _, a := range t.args {
			switch f.decide1(a, live) {
			case 1:
				return 1
			case -1:
				all = false
			}
		}
		if all {
			return 0
		}
		return -1
	case OpForall, OpExists:
		for p := f; p != nil; p = p.parent {
			if p.t == t {
				return 1
			}
		}
		return -1
	}
	nt := Not(t)
	for p := f; p != nil; p = p.parent {
		if p.t == t {
			return 1
		}
		if p.t == nt {
			return 0
		}
	}
	if t.op == OpGe0 || t.op == OpEq0 {
		if r := f.light(t); r >= 0 {
			return r
		}
	}
	if !live {
		return -1
	}
	if t.size > 3000 {
		return -1
	}
	return liveDecide(f, t)
}

// light: one-hypothesis linear reasoning.
func (f *Facts) light(t *Term) int {
	x := t.args[0]
	if t.op == OpEq0 {
		for p := f; p != nil; p = p.parent {
			switch p.t.op {
			case OpGe0: // h >= 0; x == 0 impossible if x - h > 0 or -x - h > 0
				h := p.t.args[0]
				if lo, _ := Range(Sub(x, h)); lo != nil && lo.Sign() > 0 {
					return 0
				}
				if lo, _ := Range(Sub(Neg(x), h)); lo != nil && lo.Sign() > 0 {
					return 0
				}
			case OpEq0:
				h := p.t.args[0]
				d := Sub(x, h)
				if d.op == OpConst {
					if d.i.Sign() == 0 {
						return 1
					}
					return 0
				}
			}
		}
		return -1
	}
	nx := AddC(Neg(x), -1)
	for p := f; p != nil; p = p.parent {
		switch p.t.op {
		case OpGe0:
			h := p.t.args[0]
			if lo, _ := Range(Sub(x, h)); lo != nil && lo.Sign() >= 0 {
				return 1
			}
			if lo, _ := Range(Sub(nx, h)); lo != nil && lo.Sign() >= 0 {
				return 0
			}
		case OpEq0:
			h := p.t.args[0]
			for _, hh := range []*Term{h, Neg(h)} {
				if lo, _ := Range(Sub(x, hh)); lo != nil && lo.Sign() >= 0 {
					return 1
				}
				if lo, _ := Range(Sub(nx, hh)); lo != nil && lo.Sign() >= 0 {
					return 0
				}
			}
		}
	}
	return -1
}

// ---------------------------------------------------------------- live z3

type liveZ3 struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	decl  map[*Term]bool
	stack []*Facts
	queries int
	sent  int // pushed levels in the process
	dur   time.Duration
}

var live *liveZ3

func startLive() *liveZ3 {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	l := &liveZ3{cmd: cmd, in: in, out: bufio.NewReader(out), decl: map[*Term]bool{}}
	fmt.Fprintf(in, "(set-option :timeout 150)\n(set-option :smt.arith.solver 2)\n")
	return l
}

func (l *liveZ3) close() {
	l.in.Close()
	l.cmd.Process.Kill()
	l.cmd.Wait()
}

// purify prints t for the arithmetic solver; foreign atoms become constants.
func (l *liveZ3) pr(b *strings.Builder, t *Term) {
	atom := func() {
		n := fmt.Sprintf("a%d", t.id)
		b.WriteString(n)
	}
	switch t.op {
	case OpConst:
		b.WriteString(smtInt(t.i))
	case OpTrue:
		b.WriteString("true")
	case OpFalse:
		b.WriteString("false")
	case OpLin:
		b.WriteString("(+ ")
		b.WriteString(smtInt(t.i))
		for j, a := range t.args {
			b.WriteString(" ")
			if t.coefs[j].Cmp(bigOne) == 0 {
				l.pr(b, a)
			} else {
				b.WriteString("(* " + smtInt(t.coefs[j]) + " ")
				l.pr(b, a)
				b.WriteString(")")
			}
		}
		b.WriteString(")")
	case OpDiv:
		b.WriteString("(div ")
		l.pr(b, t.args[0])
		b.WriteString(" " + smtInt(t.i) + ")")
	case OpGe0:
		b.WriteString("(>= ")
		l.pr(b, t.args[0])
		b.WriteString(" 0)")
	case OpEq0:
		b.WriteString("(= ")
		l.pr(b, t.args[0])
		b.WriteString(" 0)")
	case OpNot:
		b.WriteString("(not ")
		l.pr(b, t.args[0])
		b.WriteString(")")
	case OpAnd, OpOr:
		if t.op == OpAnd {
			b.WriteString("(and")
		} else {
			b.WriteString("(or")
		}
		for _, a := range t.args {
			b.WriteString(" ")
			l.pr(b, a)
		}
		b.WriteString(")")
	case OpIte:
		if t.sort.Kind != "int" && t.sort.Kind != "bool" {
			atom()
			return
		}
		b.WriteString("(ite ")
		l.pr(b, t.args[0])
		b.WriteString(" ")
		l.pr(b, t.args[1])
		b.WriteString(" ")
		l.pr(b, t.args[2])
		b.WriteString(")")
	default:
		atom()
	}
}

func (l *liveZ3) declare(t *Term, seen map[*Term]bool, out *strings.Builder) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case OpConst, OpTrue, OpFalse:
		return
	case OpLin, OpDiv, OpGe0, OpEq0, OpNot, OpAnd, OpOr:
		for _, a := range t.args {
			l.declare(a, seen, out)
		}
		return
	case OpIte:
		if t.sort.Kind == "int" || t.sort.Kind == "bool" {
			for _, a := range t.args {
				l.declare(a, seen, out)
			}
			return
		}
	}
	if l.decl[t] {
		return
	}
	l.decl[t] = true
	if t.sort.Kind == "bool" {
		fmt.Fprintf(out, "(declare-const a%d Bool)\n", t.id)
		return
	}
	fmt.Fprintf(out, "(declare-const a%d Int)\n", t.id)
	lo, hi := Range(t)
	if lo != nil {
		fmt.Fprintf(out, "(assert (>= a%d %s))\n", t.id, smtInt(lo))
	}
	if hi != nil {
		fmt.Fprintf(out, "(assert (<= a%d %s))\n", t.id, smtInt(hi))
	}
	if t.op == OpDivS {
		// axioms when divisor positive
		a, d := t.args[0], t.args[1]
		m := Mul(t, d)
		for _, x := range []*Term{a, d, m} {
			l.declare(x, seen, out)
		}
		var b strings.Builder
		l.pr(&b, Implies(Gt(d, Zero), And(Le(m, a), Lt(a, Add(m, d)))))
		b2 := b.String()
		out.WriteString("(assert " + b2 + ")\n")
		var b3 strings.Builder
		l.pr(&b3, Implies(And(Gt(d, Zero), Ge0(a)), And(Ge0(t), Le(t, a))))
		out.WriteString("(assert " + b3.String() + ")\n")
	}
	if t.op == OpMul && len(t.args) == 2 {
		x, y := t.args[0], t.args[1]
		l.declare(x, seen, out)
		l.declare(y, seen, out)
		var b strings.Builder
		// x>=0 & y>=1 => xy>=x etc
		l.pr(&b, And(Implies(And(Ge0(x), Ge(y, One)), Ge(t, x)), Implies(And(Ge(x, One), Ge0(y)), Ge(t, y)), Implies(And(Ge0(x), Ge0(y)), Ge0(t)),
			Implies(Eq(x, Zero), Eq(t, Zero)), Implies(Eq(y, Zero), Eq(t, Zero)), Implies(Eq(x, One), Eq(t, y)), Implies(Eq(y, One), Eq(t, x))))
		out.WriteString("(assert " + b.String() + ")\n")
	}
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func liveUsable(t *Term) bool {
	return t.op != OpForall && t.op != OpExists && t.size < 2000
}

// arithmetic content reachable? only facts with some Ge0/Eq0 or bool structure matter
func liveDecide(f *Facts, t *Term) int {
	if live == nil {
		live = startLive()
	}
	l := live
	start := time.Now()
	defer func() { l.dur += time.Since(start); l.queries++ }()
	var b strings.Builder
	// sync the stack of facts
	var chain []*Facts
	for p := f; p != nil && p.t != nil; p = p.parent {
		chain = append(chain, p)
	}
	for i, j := 0, len(chain)-1; i < j; i, j = i+1, j-1 {
		chain[i], chain[j] = chain[j], chain[i]
	}
	k := 0
	for k < len(chain) && k < len(l.stack) && chain[k] == l.stack[k] {
		k++
	}
	if n := len(l.stack) - k; n > 0 {
		fmt.Fprintf(&b, "(pop %d)\n", n)
	}
	l.stack = append(l.stack[:k], chain[k:]...)
	var body strings.Builder
	var decls strings.Builder
	seen := map[*Term]bool{}
	// declarations must be global: pop everything is costly, so use :global-declarations
	for _, p := range chain[k:] {
		body.WriteString("(push 1)\n")
		if liveUsable(p.t) {
			l.declare(p.t, seen, &decls)
			body.WriteString("(assert ")
			l.pr(&body, p.t)
			body.WriteString(")\n")
		}
	}
	l.declare(t, seen, &decls)
	nt := Not(t)
	l.declare(nt, seen, &decls)
	// declarations are asserted inside scopes: range facts must be global, so
	// they are emitted with the stack emptied when new atoms appear
	if decls.Len() > 0 {
		b.Reset()
		if l.sent > 0 {
			fmt.Fprintf(&b, "(pop %d)\n", l.sent)
		}
		b.WriteString(decls.String())
		body.Reset()
		for _, p := range chain {
			body.WriteString("(push 1)\n")
			if liveUsable(p.t) {
				body.WriteString("(assert ")
				l.pr(&body, p.t)
				body.WriteString(")\n")
			}
		}
	}
	b.WriteString(body.String())
	b.WriteString("(push 1)\n(assert ")
	l.pr(&b, nt)
	b.WriteString(")\n(check-sat)\n(pop 1)\n(push 1)\n(assert ")
	l.pr(&b, t)
	b.WriteString(")\n(check-sat)\n(pop 1)\n")
	l.sent = len(chain)
	io.WriteString(l.in, b.String())
	r1 := l.read()
	r2 := l.read()
	if r1 == "unsat" {
		return 1
	}
	if r2 == "unsat" {
		return 0
	}
	return -1
}

func (l *liveZ3) read() string {
	for {
		s, err := l.out.ReadString('\n')
		if err != nil {
			panic("live z3 died: " + err.Error())
		}
		s = strings.TrimSpace(s)
		if s == "sat" || s == "unsat" || s == "unknown" || s == "timeout" {
			return s
		}
		if strings.HasPrefix(s, "(error") {
			panic("live z3: " + s)
		}
	}
}
