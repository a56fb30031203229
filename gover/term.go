package main

// Hash-consed terms of the verification logic and their simplifying
// constructors. Every constructor returns a term equal to the naive one in
// every interpretation (that satisfies the current context, when one is set).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst  Op = iota // integer constant
	OpTrue             //
	OpFalse            //
	OpVar              // free constant
	OpBound            // bound variable (unique per quantifier)
	OpLin              // sum coef*atom + const
	OpMul              // product of atoms (non-linear)
	OpDiv              // floor(arg / i), i > 0 constant
	OpDivS             // floor(a / b), symbolic divisor
	OpGe0              // arg >= 0
	OpEq0              // arg == 0 (Int)
	OpEq               // equality, non-Int sorts
	OpNot              //
	OpAnd              //
	OpOr               //
	OpIte              //
	OpSelect           //
	OpStore            //
	OpWrite            // write(A,d,B,s,n): A with [d,d+n) replaced by B[s..s+n)
	OpExt              // ext(A,o,n)[i] = 0<=i<n ? A[o+i] : 0
	OpCArr             // constant array
	OpApp              // uninterpreted function
	OpForall           // args: bound vars..., body
	OpExists           //
	OpNull             // null ref
	OpRoot             // allocation / global, i = id
	OpFa               // field address: i = field id, arg base
	OpEl               // element address: i = elem type id, args base, idx
	OpMkStr            // string from (arr,len), used as a map key
	OpHMerge           // heap merge: args F, H, reg... ; name encodes region kinds
	OpHCopy            // heap copy: args Hdst, dst, Hsrc, src
	OpHRange           // element range copy: args H, dBase, dOff, Hs, sBase, sOff, n; i = elem id
)

type Sort struct {
	Kind   string // int bool ref arr str other
	Name   string
	Lo, Hi *big.Int // for int
	Idx    *Sort
	Elem   *Sort
	N      int64 // arrays: content is zero outside [0,N) when N >= 0
}

var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	if o, ok := sortTab[s.Name]; ok {
		return o
	}
	o := &s
	sortTab[s.Name] = o
	return o
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intSort(name string, lo, hi *big.Int) *Sort {
	return mkSort(Sort{Kind: "int", Name: name, Lo: lo, Hi: hi, N: -1})
}

func uSort(bits uint) *Sort {
	return intSort(fmt.Sprintf("u%d", bits), big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1)))
}
func sSort(bits uint) *Sort {
	return intSort(fmt.Sprintf("i%d", bits), new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1)))
}

var (
	SInt  = intSort("Int", nil, nil)
	SBool = mkSort(Sort{Kind: "bool", Name: "Bool", N: -1})
	SRef  = mkSort(Sort{Kind: "ref", Name: "Ref", N: -1})
	SStr  = mkSort(Sort{Kind: "str", Name: "Str", N: -1})
	SU8   = uSort(8)
	SU32  = uSort(32)
	SU64  = uSort(64)
	SI32  = sSort(32)
	SI64  = sSort(64)
)

func arrSort(idx, elem *Sort, n int64) *Sort {
	name := "[" + idx.Name + "]" + elem.Name
	if n >= 0 {
		name = fmt.Sprintf("[%s#%d]%s", idx.Name, n, elem.Name)
	}
	return mkSort(Sort{Kind: "arr", Name: name, Idx: idx, Elem: elem, N: n})
}
func bytesSort(n int64) *Sort { return arrSort(SInt, SU8, n) }

func (s *Sort) smt() string {
	switch s.Kind {
	case "int":
		return "Int"
	case "bool":
		return "Bool"
	case "ref":
		return "Ref"
	case "str":
		return "Str"
	case "arr":
		return "(Array " + s.Idx.smt() + " " + s.Elem.smt() + ")"
	}
	panic("sort " + s.Kind)
}

type Term struct {
	op    Op
	sort  *Sort
	args  []*Term
	coefs []*big.Int
	i     *big.Int
	name  string
	id    int
	birth int  // no reference denoted by this term was allocated after `birth`
	bnd   bool // contains bound variables
	size  int
	lo, hi *big.Int // cached range
	rng   bool
}

var termTab = map[string]*Term{}
var termCount int

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(t.op) + 'A')
	b.WriteString(t.sort.Name)
	b.WriteByte('|')
	b.WriteString(t.name)
	if t.i != nil {
		b.WriteByte('|')
		b.WriteString(t.i.String())
	}
	for k, a := range t.args {
		b.WriteByte(',')
		if t.coefs != nil {
			b.WriteString(t.coefs[k].String())
			b.WriteByte('*')
		}
		fmt.Fprintf(&b, "%d", a.id)
	}
	key := b.String()
	if o, ok := termTab[key]; ok {
		return o
	}
	t.size = 1
	for _, a := range t.args {
		if a.birth > t.birth {
			t.birth = a.birth
		}
		if a.bnd {
			t.bnd = true
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if !holdsRefs(t.sort) && !t.bnd {
		t.birth = 0
	}
	termCount++
	t.id = termCount
	termTab[key] = t
	return t
}

// holdsRefs: values of the sort denote or contain references.
func holdsRefs(s *Sort) bool {
	for s.Kind == "arr" {
		s = s.Elem
	}
	return s.Kind == "ref"
}

// ---------------------------------------------------------------- leaves

var (
	True  = intern(&Term{op: OpTrue, sort: SBool})
	False = intern(&Term{op: OpFalse, sort: SBool})
	Null  = intern(&Term{op: OpNull, sort: SRef})
	Zero  = K(0)
	One   = K(1)
)

func K(n int64) *Term         { return KB(big.NewInt(n)) }
func KB(n *big.Int) *Term     { return intern(&Term{op: OpConst, sort: SInt, i: n}) }
func KBool(b bool) *Term {
	if b {
		return True
	}
	return False
}

var varCount int
var clock int // allocation clock: births and root ids

func NewVar(prefix string, s *Sort) *Term {
	varCount++
	return intern(&Term{op: OpVar, sort: s, name: fmt.Sprintf("%s!%d", prefix, varCount), birth: clock})
}
func NamedVar(name string, s *Sort) *Term {
	return intern(&Term{op: OpVar, sort: s, name: name, birth: 0})
}
func NewBound(prefix string, s *Sort) *Term {
	varCount++
	b := 1 << 60
	if s.Kind == "int" || s.Kind == "bool" {
		b = 0 // indexing an array with it yields nothing newer than the array
	}
	return intern(&Term{op: OpBound, sort: s, name: fmt.Sprintf("%s?%d", prefix, varCount), bnd: true, birth: b})
}
func NewRoot() *Term {
	clock++
	return intern(&Term{op: OpRoot, sort: SRef, i: big.NewInt(int64(clock)), birth: clock})
}
func GlobalRoot(name string) *Term {
	return intern(&Term{op: OpRoot, sort: SRef, i: big.NewInt(-int64(globalID(name))), name: name})
}

var globalIDs = map[string]int{}

func globalID(name string) int {
	if id, ok := globalIDs[name]; ok {
		return id
	}
	globalIDs[name] = len(globalIDs) + 1
	return globalIDs[name]
}

func Fa(fid int, base *Term) *Term {
	if base.op == OpIte {
		return Ite(base.args[0], Fa(fid, base.args[1]), Fa(fid, base.args[2]))
	}
	return intern(&Term{op: OpFa, sort: SRef, i: big.NewInt(int64(fid)), args: []*Term{base}})
}
func El(tid int, base, idx *Term) *Term {
	if base.op == OpIte {
		return Ite(base.args[0], El(tid, base.args[1], idx), El(tid, base.args[2], idx))
	}
	return intern(&Term{op: OpEl, sort: SRef, i: big.NewInt(int64(tid)), args: []*Term{base, idx}})
}

func App(name string, s *Sort, args ...*Term) *Term {
	return intern(&Term{op: OpApp, sort: s, name: name, args: args})
}

// ---------------------------------------------------------------- context

// Decider answers entailment questions under the current path condition.
type Decider interface {
	// decide returns 1 if c is entailed, 0 if its negation is, -1 if unknown
	decide(c *Term) int
}

var ctx Decider

func ctxDecide(c *Term) int {
	if c == True {
		return 1
	}
	if c == False {
		return 0
	}
	if ctx == nil || c.bnd && !ctxAllowsBound {
		return -1
	}
	return ctx.decide(c)
}

var ctxAllowsBound = true

// ---------------------------------------------------------------- integers

func (t *Term) isConst() bool { return t.op == OpConst }

func (t *Term) int64() (int64, bool) {
	if t.op == OpConst && t.i.IsInt64() {
		return t.i.Int64(), true
	}
	return 0, false
}

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}

func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case OpConst:
		l.c.Add(l.c, new(big.Int).Mul(t.i, k))
	case OpLin:
		l.c.Add(l.c, new(big.Int).Mul(t.i, k))
		for j, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coefs[j], k))
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(a *Term, k *big.Int) {
	if o, ok := l.m[a]; ok {
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = n
		}
	} else if k.Sign() != 0 {
		l.m[a] = new(big.Int).Set(k)
	}
}

func (l *lin) term() *Term {
	if len(l.m) == 0 {
		return KB(l.c)
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.c.Sign() == 0 && l.m[atoms[0]].IsInt64() && l.m[atoms[0]].Int64() == 1 {
		return atoms[0]
	}
	coefs := make([]*big.Int, len(atoms))
	for i, a := range atoms {
		coefs[i] = l.m[a]
	}
	return intern(&Term{op: OpLin, sort: SInt, i: l.c, args: atoms, coefs: coefs})
}

func Add(ts ...*Term) *Term {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	for _, t := range ts {
		l.add(t, bigOne)
	}
	return l.term()
}

var bigOne = big.NewInt(1)
var bigMinus = big.NewInt(-1)

func AddC(t *Term, n int64) *Term { return Add(t, K(n)) }
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, bigMinus)
	return l.term()
}
func MulC(k *big.Int, t *Term) *Term {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	l.add(t, k)
	return l.term()
}
func MulI(k int64, t *Term) *Term { return MulC(big.NewInt(k), t) }
func Neg(t *Term) *Term           { return MulC(bigMinus, t) }

// Mul multiplies two terms, expanding over sums.
func Mul(a, b *Term) *Term {
	if a.op == OpConst {
		return MulC(a.i, b)
	}
	if b.op == OpConst {
		return MulC(b.i, a)
	}
	la, lb := toLin(a), toLin(b)
	r := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	r.add(KB(new(big.Int).Mul(la.c, lb.c)), bigOne)
	for x, kx := range la.m {
		r.add(x, new(big.Int).Mul(kx, lb.c))
		for y, ky := range lb.m {
			r.add(mono(x, y), new(big.Int).Mul(kx, ky))
		}
	}
	for y, ky := range lb.m {
		r.add(y, new(big.Int).Mul(ky, la.c))
	}
	return r.term()
}

func mono(x, y *Term) *Term {
	var fs []*Term
	for _, t := range []*Term{x, y} {
		if t.op == OpMul {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return intern(&Term{op: OpMul, sort: SInt, args: fs})
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b > 0 so floor
	return q
}

// Div is floor division by a positive constant.
func Div(t *Term, m *big.Int) *Term {
	if m.Cmp(bigOne) == 0 {
		return t
	}
	if t.op == OpConst {
		return KB(floorDiv(t.i, m))
	}
	if t.op == OpIte && (t.args[1].op == OpConst || t.args[2].op == OpConst) {
		return Ite(t.args[0], Div(t.args[1], m), Div(t.args[2], m))
	}
	l := toLin(t)
	// pull out multiples of m
	out := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	rest := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	qc := floorDiv(l.c, m)
	out.c = qc
	rest.c = new(big.Int).Sub(l.c, new(big.Int).Mul(qc, m))
	for a, k := range l.m {
		q := floorDiv(k, m)
		r := new(big.Int).Sub(k, new(big.Int).Mul(q, m))
		if r.Sign() == 0 {
			out.addAtom(a, q)
		} else {
			// keep small negative coefficients as they are
			rest.addAtom(a, k)
		}
	}
	if len(rest.m) == 0 {
		return out.term()
	}
	// common factor
	g := new(big.Int).Set(m)
	for _, k := range rest.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if g.Cmp(bigOne) > 0 {
		r2 := &lin{c: floorDiv(rest.c, g), m: map[*Term]*big.Int{}}
		for a, k := range rest.m {
			r2.addAtom(a, new(big.Int).Div(k, g))
		}
		m2 := new(big.Int).Div(m, g)
		return Add(out.term(), Div(r2.term(), m2))
	}
	rt := rest.term()
	lo, hi := Range(rt)
	if lo != nil && hi != nil {
		ql, qh := floorDiv(lo, m), floorDiv(hi, m)
		if ql.Cmp(qh) == 0 {
			return Add(out.term(), KB(ql))
		}
	}
	if rt.op == OpDiv {
		return Add(out.term(), Div(rt.args[0], new(big.Int).Mul(rt.i, m)))
	}
	if rt.op == OpConst {
		return Add(out.term(), KB(floorDiv(rt.i, m)))
	}
	// the context may bound it
	if ctx != nil {
		if ctxDecide(Ge0(rt)) == 1 && ctxDecide(Ge0(Sub(KB(new(big.Int).Sub(m, bigOne)), rt))) == 1 {
			return out.term()
		}
		// x = m*d + r with the atom Div... handled by normal form
	}
	d := intern(&Term{op: OpDiv, sort: SInt, i: m, args: []*Term{rt}})
	return Add(out.term(), d)
}

// Mod is the Euclidean remainder for a positive constant.
func Mod(t *Term, m *big.Int) *Term { return Sub(t, MulC(m, Div(t, m))) }

func WrapU(t *Term, bits uint) *Term { return Mod(t, pow2(bits)) }
func WrapS(t *Term, bits uint) *Term {
	h := KB(pow2(bits - 1))
	return Sub(Mod(Add(t, h), pow2(bits)), h)
}

// DivS: floor division by a symbolic positive divisor.
func DivS(a, b *Term) *Term {
	if b.op == OpConst && b.i.Sign() > 0 {
		return Div(a, b.i)
	}
	if a == b {
		return One
	}
	if a.op == OpConst && a.i.Sign() == 0 {
		return Zero
	}
	// exact multiples: a = q*b + r with 0 <= r < b decided by context
	l := toLin(a)
	q := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	r := &lin{c: new(big.Int).Set(l.c), m: map[*Term]*big.Int{}}
	for x, k := range l.m {
		if x == b {
			q.add(KB(k), bigOne)
			continue
		}
		if x.op == OpMul {
			for j, f := range x.args {
				if f == b {
					var fs []*Term
					fs = append(fs, x.args[:j]...)
					fs = append(fs, x.args[j+1:]...)
					var ft *Term
					if len(fs) == 1 {
						ft = fs[0]
					} else {
						ft = intern(&Term{op: OpMul, sort: SInt, args: fs})
					}
					q.add(ft, k)
					goto next
				}
			}
		}
		r.addAtom(x, k)
	next:
	}
	rt := r.term()
	qt := q.term()
	if ctxDecide(Ge0(rt)) == 1 && ctxDecide(Gt(b, rt)) == 1 {
		return qt
	}
	if len(q.m) > 0 || q.c.Sign() != 0 {
		return Add(qt, DivS(rt, b))
	}
	return intern(&Term{op: OpDivS, sort: SInt, args: []*Term{a, b}})
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}
func scaleRange(lo, hi, k *big.Int) (*big.Int, *big.Int) {
	mul := func(x *big.Int) *big.Int {
		if x == nil {
			return nil
		}
		return new(big.Int).Mul(x, k)
	}
	if k.Sign() >= 0 {
		return mul(lo), mul(hi)
	}
	return mul(hi), mul(lo)
}
func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// Range gives context-free bounds of an integer term (nil = unbounded).
func Range(t *Term) (lo, hi *big.Int) {
	if t.rng {
		return t.lo, t.hi
	}
	defer func() { t.lo, t.hi, t.rng = lo, hi, true }()
	switch t.op {
	case OpConst:
		return t.i, t.i
	case OpLin:
		lo, hi = new(big.Int).Set(t.i), new(big.Int).Set(t.i)
		for j, a := range t.args {
			l, h := Range(a)
			l, h = scaleRange(l, h, t.coefs[j])
			lo, hi = addB(lo, l), addB(hi, h)
		}
		// recognise c*(y - m*div(y,m)) = c*mod
		for j, a := range t.args {
			if a.op != OpDiv {
				continue
			}
			q, r := new(big.Int).QuoRem(t.coefs[j], a.i, new(big.Int))
			if r.Sign() != 0 {
				continue
			}
			c := new(big.Int).Neg(q)
			// subtract c*(y - m*div)
			l := toLin(t)
			l.add(a.args[0], new(big.Int).Neg(c))
			l.add(a, new(big.Int).Mul(c, a.i))
			rest := l.term()
			if rest.size >= t.size+a.size {
				continue
			}
			n := 0
			if rest.op == OpLin {
				n = len(rest.args)
			} else if rest.op != OpConst {
				n = 1
			}
			if n >= len(t.args) {
				continue
			}
			l2, h2 := Range(rest)
			ml, mh := scaleRange(new(big.Int), new(big.Int).Sub(a.i, bigOne), c)
			l2, h2 = addB(l2, ml), addB(h2, mh)
			if lo == nil || l2 != nil && l2.Cmp(lo) > 0 {
				lo = l2
			}
			if hi == nil || h2 != nil && h2.Cmp(hi) < 0 {
				hi = h2
			}
		}
		return
	case OpDiv:
		l, h := Range(t.args[0])
		if l != nil {
			lo = floorDiv(l, t.i)
		}
		if h != nil {
			hi = floorDiv(h, t.i)
		}
		return
	case OpIte:
		l1, h1 := Range(t.args[1])
		l2, h2 := Range(t.args[2])
		return minB(l1, l2), maxB(h1, h2)
	case OpMul:
		lo, hi = bigOne, bigOne
		for _, a := range t.args {
			l, h := Range(a)
			if lo == nil || hi == nil || l == nil || h == nil {
				if lo != nil && lo.Sign() >= 0 && l != nil && l.Sign() >= 0 {
					lo, hi = new(big.Int).Mul(lo, l), nil
					continue
				}
				return nil, nil
			}
			var c []*big.Int
			for _, x := range []*big.Int{lo, hi} {
				for _, y := range []*big.Int{l, h} {
					c = append(c, new(big.Int).Mul(x, y))
				}
			}
			lo, hi = c[0], c[0]
			for _, x := range c[1:] {
				lo, hi = minB(lo, x), maxB(hi, x)
			}
		}
		return
	}
	return t.sort.Lo, t.sort.Hi
}

// ---------------------------------------------------------------- booleans

func Ge0(t *Term) *Term {
	lo, hi := Range(t)
	if lo != nil && lo.Sign() >= 0 {
		return True
	}
	if hi != nil && hi.Sign() < 0 {
		return False
	}
	if t.op == OpConst {
		return KBool(t.i.Sign() >= 0)
	}
	if t.op == OpLin {
		// normalise by gcd of coefficients
		g := new(big.Int)
		for _, k := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bigOne) > 0 {
			l := &lin{c: floorDiv(t.i, g), m: map[*Term]*big.Int{}}
			for j, a := range t.args {
				l.addAtom(a, new(big.Int).Div(t.coefs[j], g))
			}
			return Ge0(l.term())
		}
		if r := splitIte(t, Ge0); r != nil {
			return r
		}
	} else if t.op == OpIte {
		return Ite(t.args[0], Ge0(t.args[1]), Ge0(t.args[2]))
	}
	return intern(&Term{op: OpGe0, sort: SBool, args: []*Term{t}})
}

// splitIte lifts one ite atom with a constant branch out of a linear term.
func splitIte(t *Term, f func(*Term) *Term) *Term {
	for _, a := range t.args {
		if a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
			return Ite(a.args[0], f(substAtom(t, a, a.args[1])), f(substAtom(t, a, a.args[2])))
		}
	}
	return nil
}

func substAtom(t, a, v *Term) *Term {
	l := &lin{c: new(big.Int).Set(t.i), m: map[*Term]*big.Int{}}
	for j, x := range t.args {
		if x == a {
			l.add(v, t.coefs[j])
		} else {
			l.addAtom(x, t.coefs[j])
		}
	}
	return l.term()
}

func Ge(a, b *Term) *Term { return Ge0(Sub(a, b)) }
func Gt(a, b *Term) *Term { return Ge0(AddC(Sub(a, b), -1)) }
func Le(a, b *Term) *Term { return Ge(b, a) }
func Lt(a, b *Term) *Term { return Gt(b, a) }

func eq0(t *Term) *Term {
	if t.op == OpConst {
		return KBool(t.i.Sign() == 0)
	}
	lo, hi := Range(t)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return False
	}
	if t.op == OpIte {
		return Ite(t.args[0], eq0(t.args[1]), eq0(t.args[2]))
	}
	if t.op == OpLin {
		g := new(big.Int)
		for _, k := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		neg := t.coefs[0].Sign() < 0
		if g.Cmp(bigOne) > 0 || neg {
			q, r := new(big.Int).QuoRem(t.i, g, new(big.Int))
			if r.Sign() != 0 {
				return False
			}
			if neg {
				q.Neg(q)
			}
			l := &lin{c: q, m: map[*Term]*big.Int{}}
			for j, a := range t.args {
				k := new(big.Int).Quo(t.coefs[j], g)
				if neg {
					k.Neg(k)
				}
				l.addAtom(a, k)
			}
			return eq0(l.term())
		}
		if r := splitIte(t, eq0); r != nil {
			return r
		}
	}
	return intern(&Term{op: OpEq0, sort: SBool, args: []*Term{t}})
}

func Not(t *Term) *Term {
	switch t.op {
	case OpTrue:
		return False
	case OpFalse:
		return True
	case OpNot:
		return t.args[0]
	case OpGe0:
		return Ge0(AddC(Neg(t.args[0]), -1))
	case OpAnd, OpOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = Not(a)
		}
		if t.op == OpAnd {
			return Or(as...)
		}
		return And(as...)
	case OpForall:
		n := len(t.args)
		return mkQuant(OpExists, t.args[:n-1], Not(t.args[n-1]))
	case OpExists:
		n := len(t.args)
		return mkQuant(OpForall, t.args[:n-1], Not(t.args[n-1]))
	case OpIte:
		return Ite(t.args[0], Not(t.args[1]), Not(t.args[2]))
	}
	return intern(&Term{op: OpNot, sort: SBool, args: []*Term{t}})
}

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{op: op, sort: SBool, args: out})
}

func And(ts ...*Term) *Term      { return nary(OpAnd, True, False, ts) }
func Or(ts ...*Term) *Term       { return nary(OpOr, False, True, ts) }
func Implies(a, b *Term) *Term   { return Or(Not(a), b) }
func Iff(a, b *Term) *Term       { return Ite(a, b, Not(b)) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return Ite(c.args[0], b, a)
	}
	if a.sort.Kind == "bool" {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		if a == c {
			return Or(c, b)
		}
		if b == c {
			return And(c, a)
		}
		if a == Not(c) {
			return And(Not(c), b)
		}
		if b == Not(c) {
			return Or(Not(c), a)
		}
	}
	if a.op == OpIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	s := a.sort
	if b.sort != s {
		if s.Kind == "int" {
			s = SInt
		} else if s.Kind == "arr" && b.sort.Kind == "arr" {
			s = arrSort(s.Idx, s.Elem, -1)
		}
	}
	return intern(&Term{op: OpIte, sort: s, args: []*Term{c, a, b}})
}

// ---------------------------------------------------------------- equality

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	switch a.sort.Kind {
	case "int":
		return eq0(Sub(a, b))
	case "bool":
		return Iff(a, b)
	case "ref":
		return eqRef(a, b)
	case "str":
		if a.op == OpMkStr && b.op == OpMkStr {
			return And(Eq(a.args[1], b.args[1]), Eq(a.args[0], b.args[0]))
		}
	case "arr":
		if a.op == OpIte && (a.args[1] == b || a.args[2] == b) {
			if a.args[1] == b {
				return Or(a.args[0], Eq(a.args[2], b))
			}
			return Or(Not(a.args[0]), Eq(a.args[1], b))
		}
		if b.op == OpIte && (b.args[1] == a || b.args[2] == a) {
			return Eq(b, a)
		}
		if constDiffer(a, b) || constDiffer(b, a) {
			return False
		}
		if ix, ok := commonChain(a, b); ok {
			var cs []*Term
			for _, i := range ix {
				cs = append(cs, Eq(Select(a, i), Select(b, i)))
			}
			return And(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OpEq, sort: SBool, args: []*Term{a, b}})
}

// commonChain: two store chains with literal indices over the same array; the
// indices written.
func commonChain(a, b *Term) ([]*Term, bool) {
	if a.op != OpStore && b.op != OpStore {
		return nil, false
	}
	seen := map[*Term]bool{}
	var ix []*Term
	walk := func(t *Term) *Term {
		for n := 0; t.op == OpStore; t, n = t.args[0], n+1 {
			i := t.args[1]
			if i.op != OpConst || n > 64 {
				return nil
			}
			if !seen[i] {
				seen[i] = true
				ix = append(ix, i)
			}
		}
		return t
	}
	x := walk(a)
	if x == nil || x != walk(b) {
		return nil, false
	}
	return ix, true
}

// constDiffer: two short store chains hold different constants at some index.
func constDiffer(a, b *Term) bool {
	if a.sort.Elem.Kind != "int" {
		return false
	}
	t := a
	for n := 0; t.op == OpStore && n < 16; n++ {
		i := t.args[1]
		if i.op == OpConst {
			x, y := Select(a, i), Select(b, i)
			if x.op == OpConst && y.op == OpConst && x != y {
				return true
			}
		}
		t = t.args[0]
	}
	return false
}

func eqRef(a, b *Term) *Term {
	if a.op == OpIte {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == OpIte {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	con := func(t *Term) bool { return t.op == OpNull || t.op == OpRoot || t.op == OpFa || t.op == OpEl }
	if con(a) && con(b) {
		if a.op != b.op {
			return False
		}
		switch a.op {
		case OpNull:
			return True
		case OpRoot:
			return KBool(a.i.Cmp(b.i) == 0)
		case OpFa:
			if a.i.Cmp(b.i) != 0 {
				return False
			}
			return Eq(a.args[0], b.args[0])
		case OpEl:
			if a.i.Cmp(b.i) != 0 {
				return False
			}
			return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
		}
	}
	// freshness: the root of one side was allocated after the other side's birth
	ra, rb := rootOf(a), rootOf(b)
	if ra.op == OpRoot && ra.i.Sign() > 0 && ra.i.IsInt64() && int64(b.birth) < ra.i.Int64() {
		return False
	}
	if rb.op == OpRoot && rb.i.Sign() > 0 && rb.i.IsInt64() && int64(a.birth) < rb.i.Int64() {
		return False
	}
	// an address inside an object is never a symbolic pointer of another type:
	// not decided here (left to the type tags of the executor)
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OpEq, sort: SBool, args: []*Term{a, b}})
}

func rootOf(t *Term) *Term {
	for t.op == OpFa || t.op == OpEl {
		t = t.args[0]
	}
	return t
}

// ---------------------------------------------------------------- quantifiers

func mkQuant(op Op, bs []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	var used []*Term
	for _, b := range bs {
		if occurs(b, body) {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	if op == OpForall && body.op == OpAnd {
		as := make([]*Term, len(body.args))
		for i, a := range body.args {
			as[i] = mkQuant(op, used, a)
		}
		return And(as...)
	}
	if op == OpExists && body.op == OpOr {
		as := make([]*Term, len(body.args))
		for i, a := range body.args {
			as[i] = mkQuant(op, used, a)
		}
		return Or(as...)
	}
	args := append(append([]*Term{}, used...), body)
	t := &Term{op: op, sort: SBool, args: args}
	r := intern(t)
	// bound-ness: recompute without own variables
	r.bnd = hasFreeBound(r)
	return r
}

func Forall(bs []*Term, body *Term) *Term { return mkQuant(OpForall, bs, body) }
func Exists(bs []*Term, body *Term) *Term { return mkQuant(OpExists, bs, body) }

func hasFreeBound(t *Term) bool {
	own := map[*Term]bool{}
	var collect func(t *Term)
	seenc := map[*Term]bool{}
	collect = func(t *Term) {
		if seenc[t] {
			return
		}
		seenc[t] = true
		if t.op == OpForall || t.op == OpExists {
			for _, b := range t.args[:len(t.args)-1] {
				own[b] = true
			}
		}
		for _, a := range t.args {
			collect(a)
		}
	}
	collect(t)
	for s := range seenc {
		if s.op == OpBound && !own[s] {
			return true
		}
	}
	return false
}

func occurs(v, t *Term) bool {
	if v.op == OpBound && !t.bnd && t.op != OpForall && t.op != OpExists {
		return false
	}
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// ---------------------------------------------------------------- arrays

func zeroOf(s *Sort) *Term {
	switch s.Kind {
	case "int":
		return Zero
	case "bool":
		return False
	case "ref":
		return Null
	case "arr":
		return CArr(s, zeroOf(s.Elem))
	case "str":
		return MkStr(CArr(bytesSort(-1), Zero), Zero)
	}
	panic("zeroOf " + s.Name)
}

func CArr(s *Sort, v *Term) *Term {
	return intern(&Term{op: OpCArr, sort: s, args: []*Term{v}})
}

func MkStr(arr, n *Term) *Term {
	return intern(&Term{op: OpMkStr, sort: SStr, args: []*Term{arr, n}})
}

func inRange(i, lo, n *Term) *Term { return And(Ge(i, lo), Lt(i, Add(lo, n))) }

var (
	selDepth int
	selMemo  map[[2]*Term]*Term
)

// Select memoises within one outermost call: the fact context is fixed there.
func Select(a, i *Term) *Term {
	switch a.op {
	case OpIte, OpHMerge, OpHCopy, OpHRange, OpWrite, OpExt, OpStore:
	default:
		return select1(a, i)
	}
	k := [2]*Term{a, i}
	if selDepth == 0 {
		selMemo = nil
	} else if r, ok := selMemo[k]; ok {
		return r
	}
	selDepth++
	r := select1(a, i)
	selDepth--
	if selDepth > 0 {
		if selMemo == nil {
			selMemo = map[[2]*Term]*Term{}
		}
		selMemo[k] = r
	}
	return r
}

func select1(a, i *Term) *Term {
	for {
		switch a.op {
		case OpStore:
			c := Eq(a.args[1], i)
			d := ctxDecide(c)
			if d == 1 {
				return a.args[2]
			}
			if d == 0 {
				a = a.args[0]
				continue
			}
			return Ite(c, a.args[2], Select(a.args[0], i))
		case OpWrite:
			A, d, B, s, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
			c1, c2 := Ge(i, d), Lt(i, Add(d, n))
			d1, d2 := ctxDecide(c1), ctxDecide(c2)
			if d1 == 0 || d2 == 0 {
				a = A
				continue
			}
			if d1 == 1 && d2 == 1 {
				i = Add(Sub(i, d), s)
				a = B
				continue
			}
			if d1 == 1 {
				c1 = True
			}
			if d2 == 1 {
				c2 = True
			}
			return Ite(And(c1, c2), Select(B, Add(Sub(i, d), s)), Select(A, i))
		case OpExt:
			A, o, n := a.args[0], a.args[1], a.args[2]
			c1, c2 := Ge0(i), Lt(i, n)
			d1, d2 := ctxDecide(c1), ctxDecide(c2)
			if d1 == 0 || d2 == 0 {
				return Zero
			}
			if d1 == 1 && d2 == 1 {
				a, i = A, Add(o, i)
				continue
			}
			if d1 == 1 {
				c1 = True
			}
			if d2 == 1 {
				c2 = True
			}
			return Ite(And(c1, c2), Select(A, Add(o, i)), Zero)
		case OpCArr:
			return a.args[0]
		case OpIte:
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		case OpHMerge:
			c := inRegions(a, i)
			switch ctxDecide(c) {
			case 1:
				a = a.args[0]
				continue
			case 0:
				a = a.args[1]
				continue
			}
			return Ite(c, Select(a.args[0], i), Select(a.args[1], i))
		case OpHCopy:
			dst, src := a.args[1], a.args[3]
			c, ni := underRebase(i, dst, src)
			switch ctxDecide(c) {
			case 1:
				a, i = a.args[2], ni
				continue
			case 0:
				a = a.args[0]
				continue
			}
			return Ite(c, Select(a.args[2], ni), Select(a.args[0], i))
		case OpHRange:
			c, ni := rangeRebase(i, a)
			switch ctxDecide(c) {
			case 1:
				a, i = a.args[3], ni
				continue
			case 0:
				a = a.args[0]
				continue
			}
			return Ite(c, Select(a.args[3], ni), Select(a.args[0], i))
		}
		break
	}
	if i.op == OpIte && i.sort.Kind == "ref" {
		return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
	}
	if a.sort.N >= 0 && i.sort.Kind == "int" {
		lo, hi := Range(i)
		if lo != nil && lo.Cmp(big.NewInt(a.sort.N)) >= 0 || hi != nil && hi.Sign() < 0 {
			return Zero
		}
	}
	return intern(&Term{op: OpSelect, sort: a.sort.Elem, args: []*Term{a, i}})
}

func Store(a, i, v *Term) *Term {
	if a.op == OpStore && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == OpSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(&Term{op: OpStore, sort: a.sort, args: []*Term{a, i, v}})
}

// WriteArr is memcpy on array values.
func WriteArr(A, d, B, s, n *Term) *Term {
	if n.op == OpConst && n.i.Sign() <= 0 {
		return A
	}
	if ctxDecide(Eq(n, Zero)) == 1 {
		return A
	}
	if n == One {
		return Store(A, d, Select(B, s))
	}
	// look through B
	for {
		if B.op == OpExt {
			o, k := B.args[1], B.args[2]
			if ctxDecide(Ge0(s)) == 1 && ctxDecide(Le(Add(s, n), k)) == 1 {
				B, s = B.args[0], Add(s, o)
				continue
			}
		}
		if B.op == OpWrite {
			d2, B2, s2, n2 := B.args[1], B.args[2], B.args[3], B.args[4]
			if ctxDecide(Ge(s, d2)) == 1 && ctxDecide(Le(Add(s, n), Add(d2, n2))) == 1 {
				B, s = B2, Add(s2, Sub(s, d2))
				continue
			}
			if ctxDecide(Le(Add(s, n), d2)) == 1 || ctxDecide(Ge(s, Add(d2, n2))) == 1 {
				B = B.args[0]
				continue
			}
		}
		if B.op == OpStore {
			j := B.args[1]
			if ctxDecide(Or(Lt(j, s), Ge(j, Add(s, n)))) == 1 {
				B = B.args[0]
				continue
			}
		}
		break
	}
	// overwritten layers of A
	for {
		if A.op == OpWrite {
			d2, n2 := A.args[1], A.args[4]
			if ctxDecide(Ge(d2, d)) == 1 && ctxDecide(Le(Add(d2, n2), Add(d, n))) == 1 {
				A = A.args[0]
				continue
			}
			// adjacent pieces of one source merge
			if A.args[2] == B && ctxDecide(Eq(Add(d2, n2), d)) == 1 && ctxDecide(Eq(Add(A.args[3], n2), s)) == 1 && ctxDecide(Ge0(n2)) == 1 && ctxDecide(Ge0(n)) == 1 {
				return WriteArr(A.args[0], d2, B, A.args[3], Add(n2, n))
			}
		}
		if A.op == OpStore {
			if ctxDecide(inRange(A.args[1], d, n)) == 1 {
				A = A.args[0]
				continue
			}
		}
		break
	}
	srt := A.sort
	return intern(&Term{op: OpWrite, sort: srt, args: []*Term{A, d, B, s, n}})
}

// Ext is the canonical sub-array A[o..o+n).
func Ext(A, o, n *Term) *Term {
	N := int64(-1)
	if k, ok := n.int64(); ok {
		N = k
		if N < 0 {
			N = 0
		}
	}
	if n.op == OpConst && n.i.Sign() <= 0 || ctxDecide(Eq(n, Zero)) == 1 {
		return CArr(bytesSortLike(A.sort, -1), zeroOf(A.sort.Elem))
	}
	for {
		if o == Zero && N >= 0 && A.sort.N == N {
			return A
		}
		switch A.op {
		case OpExt:
			p, k := A.args[1], A.args[2]
			if ctxDecide(Ge0(o)) == 1 && ctxDecide(Le(Add(o, n), k)) == 1 {
				A, o = A.args[0], Add(o, p)
				continue
			}
		case OpWrite:
			d, B, s, k := A.args[1], A.args[2], A.args[3], A.args[4]
			if ctxDecide(Ge(o, d)) == 1 && ctxDecide(Le(Add(o, n), Add(d, k))) == 1 {
				A, o = B, Add(s, Sub(o, d))
				continue
			}
			if ctxDecide(Le(Add(o, n), d)) == 1 || ctxDecide(Ge(o, Add(d, k))) == 1 {
				A = A.args[0]
				continue
			}
		case OpStore:
			j := A.args[1]
			if ctxDecide(Lt(j, o)) == 1 || ctxDecide(Ge(j, Add(o, n))) == 1 {
				A = A.args[0]
				continue
			}
			if ctxDecide(inRange(j, o, n)) == 1 {
				return Store(Ext(A.args[0], o, n), Sub(j, o), A.args[2])
			}
		case OpCArr:
			if A.args[0] == Zero {
				return CArr(bytesSortLike(A.sort, -1), Zero)
			}
		case OpIte:
			return Ite(A.args[0], Ext(A.args[1], o, n), Ext(A.args[2], o, n))
		}
		break
	}
	return intern(&Term{op: OpExt, sort: bytesSortLike(A.sort, N), args: []*Term{A, o, n}})
}

func bytesSortLike(s *Sort, n int64) *Sort { return arrSort(s.Idx, s.Elem, n) }

// ---------------------------------------------------------------- heap regions

// A region is described by kind and a ref argument.
//  X:addr   exactly addr
//  U:base   any address strictly inside base (elements / fields), or base itself
//  F:fid    any address whose outermost constructor is field fid
//  N:k      objects allocated after clock k (roots > k)
//  A        everything
type Region struct {
	Kind string
	Ref  *Term
	Fid  int
	// Off, Len: only these elements of the array at Ref (nil: all)
	Off, Len *Term
	// Heaps limits a declared region to the heaps its type can live in (nil: all)
	Heaps map[string]bool
}

func HMerge(F, H *Term, regs []Region) *Term {
	if len(regs) == 0 {
		return H
	}
	args := []*Term{F, H}
	var names []string
	for _, r := range regs {
		switch r.Kind {
		case "A":
			return F
		case "F", "N", "E":
			names = append(names, fmt.Sprintf("%s%d", r.Kind, r.Fid))
		default:
			names = append(names, r.Kind)
		}
		if r.Ref != nil {
			args = append(args, r.Ref)
		} else {
			args = append(args, Null)
		}
	}
	return intern(&Term{op: OpHMerge, sort: H.sort, args: args, name: strings.Join(names, ",")})
}

func hmRegions(h *Term) []Region {
	var out []Region
	for k, n := range strings.Split(h.name, ",") {
		r := Region{Kind: n[:1], Ref: h.args[2+k]}
		if len(n) > 1 {
			fmt.Sscanf(n[1:], "%d", &r.Fid)
		}
		out = append(out, r)
	}
	return out
}

func inRegions(h, i *Term) *Term {
	var cs []*Term
	for _, r := range hmRegions(h) {
		cs = append(cs, inRegion(r, i))
	}
	return Or(cs...)
}

func inRegion(r Region, i *Term) *Term {
	switch r.Kind {
	case "A":
		return True
	case "X":
		return Eq(i, r.Ref)
	case "U":
		var cs []*Term
		t := i
		for {
			if t.op == OpIte {
				cs = append(cs, Ite(t.args[0], inRegion(r, t.args[1]), inRegion(r, t.args[2])))
				break
			}
			cs = append(cs, Eq(t, r.Ref))
			if t.op == OpFa || t.op == OpEl {
				t = t.args[0]
				continue
			}
			// symbolic pointer: may point inside; unknown unless different birth
			if t.op != OpRoot && t.op != OpNull {
				rr := rootOf(r.Ref)
				if rr.op == OpRoot && rr.i.Sign() > 0 && int64(t.birth) < rr.i.Int64() {
					break
				}
				cs = append(cs, App("inside", SBool, t, r.Ref))
			}
			break
		}
		return Or(cs...)
	case "F":
		t := i
		if t.op == OpIte {
			return Ite(t.args[0], inRegion(r, t.args[1]), inRegion(r, t.args[2]))
		}
		if t.op == OpFa {
			return KBool(t.i.Int64() == int64(r.Fid))
		}
		if t.op == OpEl || t.op == OpRoot || t.op == OpNull {
			return False
		}
		return App(fmt.Sprintf("isfield%d", r.Fid), SBool, t)
	case "E": // any element address below field fid: el(fa(fid,_),_)
		t := i
		if t.op == OpIte {
			return Ite(t.args[0], inRegion(r, t.args[1]), inRegion(r, t.args[2]))
		}
		if t.op == OpEl && t.args[0].op == OpFa {
			return KBool(t.args[0].i.Int64() == int64(r.Fid))
		}
		if t.op == OpFa || t.op == OpRoot || t.op == OpNull {
			return False
		}
		return App(fmt.Sprintf("iselfield%d", r.Fid), SBool, t)
	case "N":
		if i.op == OpIte {
			return Ite(i.args[0], inRegion(r, i.args[1]), inRegion(r, i.args[2]))
		}
		t := rootOf(i)
		if t.op == OpIte {
			return App(fmt.Sprintf("newer%d", r.Fid), SBool, i)
		}
		if t.op == OpRoot {
			return KBool(t.i.Sign() > 0 && t.i.Int64() > int64(r.Fid))
		}
		if t.op == OpNull || t.birth <= r.Fid {
			return False
		}
		return App(fmt.Sprintf("newer%d", r.Fid), SBool, t)
	}
	panic("region " + r.Kind)
}

func HCopy(Hd, dst, Hs, src *Term) *Term {
	return intern(&Term{op: OpHCopy, sort: Hd.sort, args: []*Term{Hd, dst, Hs, src}})
}

// HRange copies elements [sOff,sOff+n) of sBase in Hs over [dOff,dOff+n) of dBase.
func HRange(H, dBase, dOff, Hs, sBase, sOff, n *Term, eid int) *Term {
	if n == Zero {
		return H
	}
	return intern(&Term{op: OpHRange, sort: H.sort, i: big.NewInt(int64(eid)), args: []*Term{H, dBase, dOff, Hs, sBase, sOff, n}})
}

func rangeRebase(i, h *Term) (*Term, *Term) {
	dBase, dOff, sBase, sOff, n := h.args[1], h.args[2], h.args[4], h.args[5], h.args[6]
	switch i.op {
	case OpIte:
		c1, n1 := rangeRebase(i.args[1], h)
		c2, n2 := rangeRebase(i.args[2], h)
		return Ite(i.args[0], c1, c2), Ite(i.args[0], n1, n2)
	case OpFa:
		c, ni := rangeRebase(i.args[0], h)
		if c == False {
			return False, i
		}
		return c, Fa(int(i.i.Int64()), ni)
	case OpEl:
		if i.i.Cmp(h.i) == 0 {
			c := Eq(i.args[0], dBase)
			if c != False {
				k := i.args[1]
				ni := El(int(i.i.Int64()), sBase, Add(Sub(k, dOff), sOff))
				return And(c, Ge(k, dOff), Lt(k, Add(dOff, n))), ni
			}
		}
		c, ni := rangeRebase(i.args[0], h)
		if c == False {
			return False, i
		}
		return c, El(int(i.i.Int64()), ni, i.args[1])
	case OpRoot, OpNull:
		return False, i
	}
	rr := rootOf(dBase)
	if rr.op == OpRoot && rr.i.Sign() > 0 && int64(i.birth) < rr.i.Int64() {
		return False, i
	}
	return App("insideRange", SBool, i, dBase, dOff, n), App("rebaseRange", SRef, i, dBase, dOff, sBase, sOff)
}

// underRebase: condition that i lies under dst, and i rebased to src.
func underRebase(i, dst, src *Term) (*Term, *Term) {
	if i.op == OpIte {
		c1, n1 := underRebase(i.args[1], dst, src)
		c2, n2 := underRebase(i.args[2], dst, src)
		return Ite(i.args[0], c1, c2), Ite(i.args[0], n1, n2)
	}
	c := Eq(i, dst)
	if c == True {
		return True, src
	}
	switch i.op {
	case OpFa:
		c2, n2 := underRebase(i.args[0], dst, src)
		if c2 == False {
			return c, src
		}
		return Or(c, c2), Ite(c, src, Fa(int(i.i.Int64()), n2))
	case OpEl:
		c2, n2 := underRebase(i.args[0], dst, src)
		if c2 == False {
			return c, src
		}
		return Or(c, c2), Ite(c, src, El(int(i.i.Int64()), n2, i.args[1]))
	case OpRoot, OpNull:
		return c, src
	}
	rr := rootOf(dst)
	if rr.op == OpRoot && rr.i.Sign() > 0 && int64(i.birth) < rr.i.Int64() {
		return False, src
	}
	in := App("inside", SBool, i, dst)
	return Or(c, in), Ite(c, src, App("rebase", SRef, i, dst, src))
}

// ---------------------------------------------------------------- rebuild / subst

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OpLin:
		l := &lin{c: new(big.Int).Set(t.i), m: map[*Term]*big.Int{}}
		for j, a := range as {
			l.add(a, t.coefs[j])
		}
		return l.term()
	case OpMul:
		r := as[0]
		for _, a := range as[1:] {
			r = Mul(r, a)
		}
		return r
	case OpDiv:
		return Div(as[0], t.i)
	case OpDivS:
		return DivS(as[0], as[1])
	case OpGe0:
		return Ge0(as[0])
	case OpEq0:
		return eq0(as[0])
	case OpEq:
		return Eq(as[0], as[1])
	case OpNot:
		return Not(as[0])
	case OpAnd:
		return And(as...)
	case OpOr:
		return Or(as...)
	case OpIte:
		return Ite(as[0], as[1], as[2])
	case OpSelect:
		return Select(as[0], as[1])
	case OpStore:
		return Store(as[0], as[1], as[2])
	case OpWrite:
		return WriteArr(as[0], as[1], as[2], as[3], as[4])
	case OpExt:
		return Ext(as[0], as[1], as[2])
	case OpCArr:
		return CArr(t.sort, as[0])
	case OpApp:
		if r := evalApp(t.name, as); r != nil {
			return r
		}
		return App(t.name, t.sort, as...)
	case OpForall, OpExists:
		n := len(as)
		return mkQuant(t.op, as[:n-1], as[n-1])
	case OpFa:
		return Fa(int(t.i.Int64()), as[0])
	case OpEl:
		return El(int(t.i.Int64()), as[0], as[1])
	case OpMkStr:
		return MkStr(as[0], as[1])
	case OpHMerge:
		regs := hmRegions(t)
		for k := range regs {
			regs[k].Ref = as[2+k]
		}
		return HMerge(as[0], as[1], regs)
	case OpHCopy:
		return HCopy(as[0], as[1], as[2], as[3])
	case OpHRange:
		return HRange(as[0], as[1], as[2], as[3], as[4], as[5], as[6], int(t.i.Int64()))
	}
	return t
}

func evalApp(name string, as []*Term) *Term { return nil }

// Subst replaces terms (usually variables) by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substMemo(t, m, memo)
}

func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = substMemo(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

// Simplify rebuilds the term bottom-up under the current context.
func Simplify(t *Term) *Term { return simplifyMemo(t, map[*Term]*Term{}) }

func simplifyMemo(t *Term, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = simplifyMemo(a, memo)
	}
	r := rebuild(t, as)
	if r.sort.Kind == "bool" {
		switch r.op {
		case OpGe0, OpEq0, OpEq, OpNot, OpApp, OpSelect, OpVar:
			if d := ctxDecide(r); d >= 0 {
				r = KBool(d == 1)
			}
		}
	}
	if r.op == OpIte {
		if d := ctxDecide(r.args[0]); d == 1 {
			r = r.args[1]
		} else if d == 0 {
			r = r.args[2]
		}
	}
	memo[t] = r
	return r
}

// ---------------------------------------------------------------- printing (debug)

func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	as := func() string {
		var ss []string
		for _, a := range t.args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OpConst:
		return t.i.String()
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpVar, OpBound:
		return t.name
	case OpLin:
		var b strings.Builder
		b.WriteString("(")
		for j, a := range t.args {
			if j > 0 {
				b.WriteString(" + ")
			}
			if t.coefs[j].Cmp(bigOne) != 0 {
				b.WriteString(t.coefs[j].String() + "*")
			}
			b.WriteString(a.str(d + 1))
		}
		if t.i.Sign() != 0 {
			b.WriteString(" + " + t.i.String())
		}
		return b.String() + ")"
	case OpMul:
		return "mul(" + as() + ")"
	case OpDiv:
		return "div(" + as() + ", " + t.i.String() + ")"
	case OpDivS:
		return "divs(" + as() + ")"
	case OpGe0:
		return as() + " >= 0"
	case OpEq0:
		return as() + " == 0"
	case OpEq:
		return "(" + t.args[0].str(d+1) + " == " + t.args[1].str(d+1) + ")"
	case OpNot:
		return "!" + as()
	case OpAnd:
		return "and(" + as() + ")"
	case OpOr:
		return "or(" + as() + ")"
	case OpIte:
		return "ite(" + as() + ")"
	case OpSelect:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OpStore:
		return "store(" + as() + ")"
	case OpWrite:
		return "write(" + as() + ")"
	case OpExt:
		return "ext(" + as() + ")"
	case OpCArr:
		return "const(" + as() + ")"
	case OpApp:
		return t.name + "(" + as() + ")"
	case OpForall:
		return "forall(" + as() + ")"
	case OpExists:
		return "exists(" + as() + ")"
	case OpNull:
		return "null"
	case OpRoot:
		return "obj" + t.i.String() + t.name
	case OpFa:
		return as() + "." + fieldName(int(t.i.Int64()))
	case OpEl:
		return "&" + t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OpMkStr:
		return "str(" + as() + ")"
	case OpHMerge:
		return "hmerge<" + t.name + ">(" + as() + ")"
	case OpHCopy:
		return "hcopy(" + as() + ")"
	case OpHRange:
		return "hrange(" + as() + ")"
	}
	return "?"
}
