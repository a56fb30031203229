package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Report struct {
	Units       []string            `json:"units"`
	Functions   []string            `json:"functions_under_contract"`
	Inlined     []string            `json:"functions_inlined"`
	Obligations int                 `json:"obligations"`
	Proved      int                 `json:"proved"`
	Failed      []FailedOb          `json:"failed"`
	ByBackend   map[string]int      `json:"by_backend"`
	ByKind      map[string]int      `json:"by_kind"`
	SolverSecs  float64             `json:"solver_seconds"`
	LiveQueries int                 `json:"live_queries"`
	LiveSecs    float64             `json:"live_seconds"`
	TotalSecs   float64             `json:"total_seconds"`
	Assumptions []string            `json:"assumptions"`
	Models      []string            `json:"library_models"`
	Contracts   []string            `json:"contracts_used_at_calls"`
	NoInv       []string            `json:"loops_without_invariant"`
	Problems    []string            `json:"problems"`
	Names       []string            `json:"obligation_names,omitempty"`
	UnitObs     map[string]int      `json:"obligations_per_unit"`
}

type FailedOb struct {
	Name   string `json:"name"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Goal   string `json:"goal"`
	Output string `json:"output"`
	Facts  []string `json:"facts,omitempty"`
}

var crash = flag.Bool("crash", false, "let internal errors crash the verifier")

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	pkgsF := flag.String("pkgs", "", "comma separated package dirs relative to the repository")
	unitsF := flag.String("units", "", "comma separated units (contract_X / lemma_Y), pkgdir:unit")
	outF := flag.String("out", "", "report file")
	verbose := flag.Bool("v", false, "")
	dump := flag.String("dump", "", "dump SSA of a function")
	trace := flag.Bool("trace", false, "")
	keep := flag.Bool("keep", false, "")
	jobs := flag.Int("j", 7, "")
	timeout := flag.Int("t", 20, "")
	showFacts := flag.Bool("facts", false, "")
	closure := flag.Bool("closure", false, "also verify every contract used at a call")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(30 * time.Second); pprof.StopCPUProfile(); f.Close() }()
	}
	keepSMT = *keep
	proveTimeout = *timeout
	debugOb = *verbose
	start := time.Now()
	// overlay: contract files
	overlay := map[string][]byte{}
	filepath.Walk(*cdir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*cdir, path)
		b, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		d := filepath.Dir(rel)
		if strings.HasPrefix(d, "root") {
			d = "." + strings.TrimPrefix(d, "root")
		}
		overlay[filepath.Join(*repo, d, "zz_verif_"+filepath.Base(rel))] = b
		return nil
	})
	var pats []string
	for _, p := range strings.Split(*pkgsF, ",") {
		if p != "" {
			pats = append(pats, "./"+strings.TrimPrefix(p, "./"))
		}
	}
	// add the prelude of intrinsics to every package with contracts
	prelude, err := os.ReadFile(*cdir + "/prelude.txt")
	if err != nil {
		panic(err)
	}
	dirs := map[string]string{}
	for f, b := range overlay {
		dirs[filepath.Dir(f)] = pkgClause(string(b))
	}
	for d, pc := range dirs {
		overlay[filepath.Join(d, "zz_verif_prelude.go")] = []byte("package " + pc + "\n" + string(prelude))
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: *repo, BuildFlags: []string{"-tags=cppbtree"}, Overlay: overlay}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	for _, p := range ps {
		if p != nil {
			p.Build()
		}
	}
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPrefix) {
			p.Build()
		}
	}
	if *dump != "" {
		for _, p := range prog.AllPackages() {
			for f := range ssautil.AllFunctions(prog) {
				if f.Pkg == p && f.Name() == *dump {
					f.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	loadSecs := time.Since(start).Seconds()
	x := &Exec{prog: prog}
	x.trace = *trace
	x.setup()
	var units []*Unit
	for _, u := range strings.Split(*unitsF, ",") {
		if u == "" {
			continue
		}
		fn := x.findUnit(u)
		if fn == nil {
			x.problem("no unit " + u)
			continue
		}
		un := &Unit{Name: fn.Name(), fn: fn, Kind: "lemma"}
		if strings.HasPrefix(fn.Name(), "contract_") {
			un.Kind = "contract"
			un.target = x.targetOf(fn)
			if un.target == nil {
				x.problem("contract without target: " + u)
				continue
			}
		}
		units = append(units, un)
	}
	rep := &Report{ByBackend: map[string]int{}, ByKind: map[string]int{}, UnitObs: map[string]int{}}
	dir, err := os.MkdirTemp("", "gover")
	if err != nil {
		panic(err)
	}
	if !*keep {
		defer os.RemoveAll(dir)
	} else {
		fmt.Fprintln(os.Stderr, "smt files in", dir)
	}
	var all []*Oblig
	for i := 0; i < len(units); i++ {
		u := units[i]
		t0 := time.Now()
		obs := x.runUnit(u)
		rep.UnitObs[u.Name] = len(obs)
		if len(obs) == 0 {
			x.problem("unit " + u.Name + " has no obligations")
		}
		all = append(all, obs...)
		if *verbose {
			fmt.Fprintf(os.Stderr, "unit %s: %d obligations, %d steps, %.1fs exec\n", u.Name, len(obs), x.steps, time.Since(t0).Seconds())
		}
		if *closure && i == len(units)-1 {
			for _, c := range x.usedOrder {
				known := x.trusted[c] || x.ifaceTarget[c] != ""
				for _, o := range units {
					known = known || o.fn == c
				}
				if !known {
					units = append(units, &Unit{Name: c.Name(), fn: c, Kind: "contract", target: x.targetOf(c)})
				}
			}
		}
	}
	dischargeAll(all, dir, *jobs, *verbose)
	// vacuity: preconditions must be satisfiable as far as the solvers can tell
	for _, v := range x.vac {
		p := newProver(0)
		p.run(v.facts.list(), False)
		bad := false
		for _, c := range p.clauses {
			if c == False {
				bad = true
			}
		}
		if !bad {
			r, _, _ := portfolio(p.smtText(true), dir, "vac", 4)
			bad = r == "unsat"
		}
		if bad {
			x.problem("precondition of " + v.unit + " is contradictory")
		}
	}
	for un, fs := range x.exits {
		okExit := len(fs) == 0
		for _, f := range fs {
			p := newProver(0)
			p.run(f.list(), False)
			bad := false
			for _, c := range p.clauses {
				if c == False {
					bad = true
				}
			}
			if !bad {
				r, _, _ := portfolio(p.smtText(true), dir, "vac", 3)
				bad = r == "unsat"
			}
			if !bad {
				okExit = true
				break
			}
		}
		if !okExit {
			x.problem("no reachable end of " + un)
		}
	}
	for _, o := range all {
		rep.Obligations++
		rep.ByKind[o.Kind]++
		rep.SolverSecs += o.Secs
		rep.Names = append(rep.Names, o.Name)
		if o.Status == "proved" {
			rep.Proved++
			rep.ByBackend[o.Backend]++
		} else {
			if o.failGoal != nil {
				o.goal, o.facts = o.failGoal, o.failFacts
			}
			f := FailedOb{Name: o.Name, Pos: o.Pos, Status: o.Status, Goal: o.goal.String(), Output: clip(o.Output, 4000)}
			if *showFacts {
				for _, t := range o.facts.list() {
					f.Facts = append(f.Facts, t.String())
				}
			}
			rep.Failed = append(rep.Failed, f)
		}
	}
	for _, u := range units {
		rep.Units = append(rep.Units, u.Name)
		if u.target != nil {
			rep.Functions = append(rep.Functions, u.target.String())
		}
	}
	rep.Inlined = keys(x.inlined)
	rep.Assumptions = keys(x.assumed)
	rep.Models = keys(x.modelsUsed)
	rep.Contracts = keys(x.usedConts)
	rep.NoInv = keys(x.noInv)
	rep.Problems = x.problems
	if live != nil {
		rep.LiveQueries = live.queries
		rep.LiveSecs = live.dur.Seconds()
		live.close()
	}
	rep.TotalSecs = time.Since(start).Seconds()
	js, _ := json.MarshalIndent(rep, "", " ")
	if *outF != "" {
		os.WriteFile(*outF, js, 0o644)
	}
	fmt.Printf("load %.1fs total %.1fs: %d obligations, %d proved, %d failed, problems %d\n", loadSecs, rep.TotalSecs, rep.Obligations, rep.Proved, len(rep.Failed), len(rep.Problems))
	for _, f := range rep.Failed {
		fmt.Printf("FAILED %s @%s (%s)\n   goal %s\n", f.Name, f.Pos, f.Status, clip(f.Goal, 700))
		for _, t := range f.Facts {
			fmt.Println("      fact", clip(t, 400))
		}
	}
	for _, p := range rep.Problems {
		fmt.Println("PROBLEM", p)
	}
	if len(rep.Failed) > 0 || len(rep.Problems) > 0 {
		os.Exit(1)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func pkgClause(src string) string {
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "package ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "package "))
		}
	}
	panic("no package clause")
}

func (x *Exec) setup() {
	x.contracts = map[*ssa.Function]*ssa.Function{}
	x.ifaceCons = map[string]*ssa.Function{}
	x.ifaceTarget = map[*ssa.Function]string{}
	x.ifaceSigs = map[string]*types.Signature{}
	x.cfgs = map[*ssa.Function]*cfgInfo{}
	x.usedConts = map[string]bool{}
	x.usedSet = map[*ssa.Function]bool{}
	x.trusted = map[*ssa.Function]bool{}
	x.inlined = map[string]bool{}
	x.assumed = map[string]bool{}
	x.modelsUsed = map[string]bool{}
	x.noInv = map[string]bool{}
	x.exits = map[string][]*Facts{}
	x.maxSteps = 3000000
	for _, p := range x.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modPrefix) {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f, ok := p.Members[n].(*ssa.Function)
			if !ok {
				continue
			}
			switch {
			case strings.HasPrefix(n, "contract_iface_"):
				parts := strings.Split(strings.TrimPrefix(n, "contract_iface_"), "_")
				it := f.Params[0].Type()
				key := ifaceKey(it) + "." + parts[len(parts)-1]
				x.ifaceCons[key] = f
				x.ifaceTarget[f] = key
				iface := it.Underlying().(*types.Interface)
				for i := 0; i < iface.NumMethods(); i++ {
					if iface.Method(i).Name() == parts[len(parts)-1] {
						x.ifaceSigs[key] = iface.Method(i).Type().(*types.Signature)
					}
				}
			case strings.HasPrefix(n, "contract_"):
				if strings.Contains(n, "__") {
					continue // additional contract, verified but not used at calls
				}
				if t := x.targetOf(f); t != nil {
					x.contracts[t] = f
				} else {
					x.problem("contract without target: " + n)
				}
			case strings.HasPrefix(n, "ginv_"):
				x.ginvs = append(x.ginvs, f)
			}
		}
	}
}

// targetOf: contract_Name or contract_Type_Method (an optional __suffix
// distinguishes several contracts of one function).
func (x *Exec) targetOf(c *ssa.Function) *ssa.Function {
	n := strings.TrimPrefix(c.Name(), "contract_")
	if i := strings.Index(n, "__"); i >= 0 {
		n = n[:i]
	}
	if f := c.Pkg.Func(n); f != nil {
		return f
	}
	if i := strings.Index(n, "_"); i > 0 {
		tn, m := n[:i], n[i+1:]
		if t := c.Pkg.Type(tn); t != nil {
			for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
				sel := x.prog.MethodSets.MethodSet(ty).Lookup(c.Pkg.Pkg, m)
				if sel != nil {
					f := x.prog.MethodValue(sel)
					if f != nil && f.Synthetic != "" {
						continue
					}
					return f
				}
			}
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				sel := x.prog.MethodSets.MethodSet(ty).Lookup(c.Pkg.Pkg, m)
				if sel != nil {
					return x.prog.MethodValue(sel)
				}
			}
		}
	}
	return nil
}

func (x *Exec) findUnit(u string) *ssa.Function {
	pk := ""
	if i := strings.Index(u, ":"); i >= 0 {
		pk, u = u[:i], u[i+1:]
	}
	for _, p := range x.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modPrefix) {
			continue
		}
		if pk != "" && p.Pkg.Name() != pk {
			continue
		}
		if f := p.Func(u); f != nil {
			return f
		}
	}
	return nil
}

// runUnit executes a unit until no new heap is discovered.
func (x *Exec) runUnit(u *Unit) (obs []*Oblig) {
	for try := 0; ; try++ {
		n := len(heapSorts)
		x.obligs = nil
		x.occ = map[string]int{}
		np := len(x.problems)
		nv := len(x.vac)
		x.partMods = nil
		delete(x.exits, u.Name)
		x.steps, selDepth = 0, 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch e := r.(type) {
					case unsup:
						x.obligs = append(x.obligs, &Oblig{Name: u.Name + "/translate", Kind: "translate", Status: "failed", goal: False, Output: e.msg, Pos: ""})
						if debugOb {
							fmt.Fprintln(os.Stderr, "  UNSUPPORTED:", e.msg)
						}
					case execAbort:
						x.obligs = append(x.obligs, &Oblig{Name: u.Name + "/translate", Kind: "translate", Status: "failed", goal: False, Output: e.msg})
					default:
						if *crash {
							panic(r)
						}
						x.problem(fmt.Sprintf("%s: verifier error: %v", u.Name, r))
						x.obligs = append(x.obligs, &Oblig{Name: u.Name + "/translate", Kind: "translate", Status: "failed", goal: False, Output: fmt.Sprint(r)})
					}
				}
			}()
			x.dry = 0
			x.verifyUnit(u)
		}()
		if len(heapSorts) == n || try > 6 {
			return x.obligs
		}
		x.problems = x.problems[:np]
		x.vac = x.vac[:nv]
	}
}

// introGoal splits a goal into simpler ones: quantified variables become
// constants, the side disjuncts become facts.
func introGoal(goal *Term, facts *Facts, depth int) [][2]interface{} {
	if depth > 8 {
		return [][2]interface{}{{goal, facts}}
	}
	ctx = factCtx{facts}
	goal = Simplify(goal)
	ctx = nil
	if facts.dead0() || goal == True {
		return nil
	}
	switch goal.op {
	case OpForall:
		m := map[*Term]*Term{}
		// the last element of the range on its own
		if body := goal.args[len(goal.args)-1]; splitLast && len(goal.args) == 2 && body.op == OpOr {
			b := goal.args[0]
			for _, d := range body.args {
				if d.op != OpGe0 {
					continue
				}
				u := Sub(b, d.args[0])
				if occurs(b, u) {
					continue
				}
				last := Subst(body, map[*Term]*Term{b: Sub(u, One)})
				rest := Forall([]*Term{b}, Or(body, Ge(b, Sub(u, One))))
				splitLast = false
				out := append(introGoal(last, facts, depth+1), introGoal(rest, facts, depth+1)...)
				splitLast = true
				return out
			}
		}
		for _, b := range goal.args[:len(goal.args)-1] {
			k := fmt.Sprintf("%d/%d", goal.id, b.id)
			if skMemo[k] == nil {
				skMemo[k] = NewVar("sk", b.sort)
			}
			m[b] = skMemo[k]
		}
		return introGoal(Subst(goal.args[len(goal.args)-1], m), facts, depth+1)
	case OpExists:
		// the bounds of the variable simplify the rest
		if body := goal.args[len(goal.args)-1]; body.op == OpAnd {
			f := facts
			var rest []*Term
			var bounds []*Term
			for _, d := range body.args {
				if d.op == OpGe0 {
					f = f.with(d)
					bounds = append(bounds, d)
				} else {
					rest = append(rest, d)
				}
			}
			ctx = factCtx{f}
			for i, d := range rest {
				rest[i] = Simplify(d)
			}
			ctx = nil
			goal = Exists(goal.args[:len(goal.args)-1], And(append(bounds, rest...)...))
			if goal.op != OpExists {
				return introGoal(goal, facts, depth+1)
			}
		}
		if body := goal.args[len(goal.args)-1]; splitLast && len(goal.args) == 2 && body.op == OpAnd {
			b := goal.args[0]
			for _, d := range body.args {
				if d.op != OpGe0 {
					continue
				}
				u := Add(d.args[0], b)
				if occurs(b, u) {
					continue
				}
				last := Subst(body, map[*Term]*Term{b: u})
				rest := Exists([]*Term{b}, And(body, Lt(b, u)))
				splitLast = false
				out := introGoal(Or(last, rest), facts, depth+1)
				splitLast = true
				return out
			}
		}
	case OpAnd:
		var out [][2]interface{}
		for _, a := range goal.args {
			out = append(out, introGoal(a, facts, depth+1)...)
			facts = facts.with(a)
		}
		return out
	case OpIte:
		if goal.sort.Kind == "bool" && goal.args[1].op != OpIte && goal.args[2].op != OpIte && goal.size < 400 {
			return append(introGoal(goal.args[1], facts.with(goal.args[0]), depth+1),
				introGoal(goal.args[2], facts.with(Not(goal.args[0])), depth+1)...)
		}
	case OpOr:
		// one disjunct stays the goal, the others become facts
		main, best := -1, -1
		for i, a := range goal.args {
			v := 0
			switch a.op {
			case OpForall, OpAnd:
				v = 3
			case OpIte:
				v = 2
			case OpEq:
				v = 1
			case OpExists:
				v = 4
			}
			if v > 0 && v >= best {
				main, best = i, v
			}
		}
		if main < 0 {
			return [][2]interface{}{{goal, facts}}
		}
		f := facts
		for i, a := range goal.args {
			if i != main {
				f = f.with(Not(a))
			}
		}
		return introGoal(goal.args[main], f, depth+1)
	}
	return [][2]interface{}{{goal, facts}}
}

var splitLast bool

type solvedFacts struct {
	facts *Facts
	m     map[*Term]*Term
}

var solvedMemo = map[*Facts]solvedFacts{}

// solveFacts eliminates terms that the facts define by an equation.
func solveFacts(f0 *Facts) solvedFacts {
	if r, ok := solvedMemo[f0]; ok {
		return r
	}
	m := map[*Term]*Term{}
	fs := f0.list()
	ge := map[*Term]bool{}
	for _, f := range fs {
		if f.op == OpGe0 {
			ge[f.args[0]] = true
		}
	}
	for _, f := range fs {
		if f.op == OpGe0 && f.args[0].op == OpLin && ge[Neg(f.args[0])] {
			f = Eq(f.args[0], Zero)
		}
		f = Subst(f, m)
		var s, v *Term
		switch f.op {
		case OpEq0:
			l := f.args[0]
			if l.op != OpLin {
				continue
			}
			for i, a := range l.args {
				if a.bnd || a.op != OpVar && a.op != OpSelect || l.coefs[i].CmpAbs(One.i) != 0 || s != nil && s.id > a.id {
					continue
				}
				s = a
				v = Sub(a, l)
				if l.coefs[i].Sign() < 0 {
					v = Add(a, l)
				}
			}
		case OpEq:
			for i := 0; i < 2; i++ {
				a, b := f.args[i], f.args[1-i]
				if a.op == OpVar && (s == nil || a.id > s.id) {
					s, v = a, b
				}
			}
		}
		if s == nil || occurs(s, v) {
			continue
		}
		one := map[*Term]*Term{s: v}
		for k, w := range m {
			m[k] = Subst(w, one)
		}
		m[s] = v
	}
	var out *Facts
	add := func(t *Term) { out = out.with(t) }
	if len(m) == 0 {
		out = f0
	} else {
		var keys []*Term
		for s := range m {
			keys = append(keys, s)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		for _, s := range keys {
			if s.op == OpSelect {
				add(Eq(s, m[s])) // its index may equal another
			}
			if s.sort.Kind != "int" {
				continue
			}
			lo, hi := Range(s)
			if lo != nil {
				add(Ge(m[s], KB(lo)))
			}
			if hi != nil {
				add(Le(m[s], KB(hi)))
			}
		}
		for _, f := range fs {
			add(Subst(f, m))
		}
	}
	r := solvedFacts{out, m}
	solvedMemo[f0] = r
	return r
}

// dischargeAll decides the obligations, each by its split goals.
func dischargeAll(all []*Oblig, dir string, jobs int, verbose bool) {
	var leaves []*Oblig
	kids := map[*Oblig][]*Oblig{}
	for _, o := range all {
		if o.Status != "" {
			continue
		}
		t0 := time.Now()
		splitLast = o.Kind == "inv-preserved"
		sf := solveFacts(o.facts)
		ls := introGoal(Subst(o.goal, sf.m), sf.facts, 0)
		if len(ls) > 24 {
			ls = [][2]interface{}{{o.goal, o.facts}}
		}
		o.Secs += time.Since(t0).Seconds()
		if len(ls) == 0 {
			o.Status, o.Backend = "proved", "simplifier+instantiation"
			continue
		}
		for i, l := range ls {
			n := o.Name
			if i > 0 {
				n += fmt.Sprintf(" part %d", i+1)
			}
			k := &Oblig{Name: n, Kind: o.Kind, Pos: o.Pos, goal: l[0].(*Term), facts: l[1].(*Facts)}
			kids[o] = append(kids[o], k)
			leaves = append(leaves, k)
		}
	}
	dischargeSplit(leaves, dir, jobs, verbose)
	for _, o := range all {
		if o.Status != "" {
			continue
		}
		o.Status = "proved"
		for _, k := range kids[o] {
			o.Secs += k.Secs
			if k.Status != "proved" {
				if o.Status == "proved" || k.Status == "failed" {
					o.Status, o.Output, o.failGoal, o.failFacts = k.Status, k.Output, k.goal, k.facts
				}
			} else if o.Backend == "" || !strings.HasPrefix(k.Backend, "simplifier") {
				o.Backend = k.Backend
			}
		}
	}
}

// iteCond finds the condition of a conditional inside t that has no variable
// bound in t.
func iteCond(t *Term, seen map[*Term]bool) *Term {
	if seen[t] || t.op == OpForall || t.op == OpExists {
		return nil
	}
	seen[t] = true
	if t.op == OpIte && !hasQuant(t.args[0]) {
		c := t.args[0]
		if c.op == OpAnd || c.op == OpOr {
			for _, a := range c.args {
				if x := iteCond(a, seen); x != nil {
					return x
				}
			}
		}
		return c
	}
	for _, a := range t.args {
		if x := iteCond(a, seen); x != nil {
			return x
		}
	}
	return nil
}

// dischargeSplit tries the leaves as they are, then those left by cases on the
// conditionals in their goals, then again with deeper instantiation.
func dischargeSplit(all []*Oblig, dir string, jobs int, verbose bool) {
	dischargeLeaves(all, dir, jobs, verbose, 0, 10)
	type split struct {
		o    *Oblig
		kids []*Oblig
	}
	var splits []split
	var kids []*Oblig
	for _, o := range all {
		if o.Status != "unknown" {
			continue
		}
		type gf struct {
			g *Term
			f *Facts
		}
		work := []gf{{o.goal, o.facts}}
		var done []gf
		did := false
		for len(work) > 0 && len(work)+len(done) < 12 {
			w := work[0]
			work = work[1:]
			c := iteCond(w.g, map[*Term]bool{})
			if c == nil {
				done = append(done, w)
				continue
			}
			did = true
			splitLast = false
			for _, v := range []*Term{c, Not(c)} {
				g := Subst(w.g, map[*Term]*Term{c: map[bool]*Term{true: True, false: False}[v == c]})
				for _, l := range introGoal(g, w.f.with(v), 0) {
					work = append(work, gf{l[0].(*Term), l[1].(*Facts)})
				}
			}
		}
		if !did {
			continue
		}
		sp := split{o: o}
		for i, w := range append(done, work...) {
			k := &Oblig{Name: fmt.Sprintf("%s case %d", o.Name, i+1), Kind: o.Kind, Pos: o.Pos, goal: w.g, facts: w.f}
			sp.kids = append(sp.kids, k)
			kids = append(kids, k)
		}
		splits = append(splits, sp)
	}
	dischargeLeaves(kids, dir, jobs, verbose, 0, 15)
	for _, sp := range splits {
		ok := true
		for _, k := range sp.kids {
			sp.o.Secs += k.Secs
			ok = ok && k.Status == "proved"
		}
		if ok {
			sp.o.Status, sp.o.Backend = "proved", "simplifier+case split"
			for _, k := range sp.kids {
				if !strings.HasPrefix(k.Backend, "simplifier") {
					sp.o.Backend = k.Backend
				}
			}
		}
	}
	for _, again := range []struct{ level, timeout int }{{1, proveTimeout}, {0, proveTimeout + 15}} {
		for _, o := range all {
			if o.Status != "proved" {
				o.Status = ""
			}
		}
		dischargeLeaves(all, dir, jobs, verbose, again.level, again.timeout)
	}
}

func dischargeLeaves(all []*Oblig, dir string, jobs int, verbose bool, level, timeout int) {
	type job struct {
		ob    *Oblig
		texts []string
		level int
		n     int
	}
	pending := []*Oblig{}
	for _, o := range all {
		if o.Status == "" {
			pending = append(pending, o)
		}
	}
	if len(pending) > 0 {
		ch := make(chan job)
		var wg sync.WaitGroup
		var mu sync.Mutex
		for w := 0; w < jobs; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for j := range ch {
					t0 := time.Now()
					for k, txt := range j.texts {
						r, b, o := portfolio(txt, dir, fmt.Sprintf("q%d_%d_%d", j.n, j.level, k), timeout)
						mu.Lock()
						j.ob.Output = r + " (" + b + ")\n" + clip(o, 3000)
						mu.Unlock()
						if r == "unsat" {
							j.ob.Status, j.ob.Backend = "proved", b
							break
						}
						if r == "error" {
							fmt.Fprintln(os.Stderr, "solver error:", clip(o, 500))
							if os.Getenv("GDEBUG") != "" {
								os.WriteFile("/tmp/err.smt2", []byte(txt), 0644)
							}
						}
					}
					j.ob.Secs += time.Since(t0).Seconds()
					if verbose {
						mu.Lock()
						fmt.Fprintf(os.Stderr, "  [%d] %s: %s %s %.2fs\n", j.level, j.ob.Name, j.ob.Status, j.ob.Backend, time.Since(t0).Seconds())
						mu.Unlock()
					}
				}
			}(w)
		}
		for n, o := range pending {
			texts, triv := prepare(o, level)
			if triv {
				o.Status, o.Backend = "proved", "simplifier+instantiation"
				continue
			}
			ch <- job{o, texts, level, n}
		}
		close(ch)
		wg.Wait()
		var next []*Oblig
		for _, o := range pending {
			if o.Status == "" {
				next = append(next, o)
			}
		}
		pending = next
	}
	for _, o := range pending {
		if strings.HasPrefix(o.Output, "sat") {
			o.Status = "failed"
		} else {
			o.Status = "unknown"
		}
	}
}
