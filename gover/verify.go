package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// Unit is one thing to verify: a function, a lemma or a recursive definition.
type Unit struct {
	id     string
	kind   string // func lemma def
	con    *SContract
	lemma  *SLemma
	def    *SDef
	cands  map[string]bool
	slow   map[string]bool // candidates that died when a solver ran out of time
	obs    []*Oblig
	smoke  []string
	err    string // unsupported construct
	used   map[string]bool
	lemmas map[string]bool
	paths  int
	rounds int
	loops  []string
	pos    string
}

type Verifier struct {
	l     *Loader
	db    *SpecDB
	cache sync.Map // script -> SolveResult
	prop  string
	t1    int
	t2    int
	verb  bool
}

func newExec(v *Verifier, con *SContract) *Exec {
	x := &Exec{
		l: v.l, db: v.db, sp: NewSpecs(v.db), con: con,
		entry: map[string]*Term{}, heapSort: map[string]Sort{}, writes: map[string]bool{},
		cands: map[string]bool{}, candSeen: map[string]bool{}, inl: map[string]bool{}, used: map[string]bool{},
		reveal: map[string]bool{}, globals: nil, usedLemmas: map[string]bool{}, maxOrder: 1 << 30,
		ghosts: map[string]Val{}, env0: map[string]Val{},
		closures: map[*Term]*closure{},
		v:        v, wrapFail: map[string]int{},
	}
	return x
}

func (v *Verifier) findFunc(key string) *FuncDecl {
	if fd := v.l.funcs[key]; fd != nil {
		return fd
	}
	pre := key
	if i := strings.Index(key, "."); i >= 0 {
		pre = key[:i]
	}
	var paths []string
	for p, lp := range v.l.list {
		base := lp.Name
		if lp.Name == "main" {
			base = p[strings.LastIndex(p, "/")+1:]
		}
		if base == pre {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		if _, err := v.l.Load(p); err != nil {
			fmt.Fprintf(os.Stderr, "load %s: %v\n", p, err)
		}
		if fd := v.l.funcs[key]; fd != nil {
			return fd
		}
	}
	return nil
}

// exec runs the symbolic execution of one unit from scratch.
func (v *Verifier) exec(u *Unit) {
	resetUniverse()
	u.obs, u.smoke, u.err = nil, nil, ""
	defer func() {
		if r := recover(); r != nil {
			un, ok := r.(Unsupported)
			if !ok {
				panic(r)
			}
			u.err = un.msg
		}
	}()
	switch u.kind {
	case "func":
		v.execFunc(u)
	case "lemma":
		v.execLemma(u)
	case "def":
		v.execDef(u)
	}
}

func (v *Verifier) execFunc(u *Unit) {
	con := u.con
	fd := v.findFunc(con.target)
	if fd == nil {
		panic(unsup("function %s not found", con.target))
	}
	u.pos = v.l.pos(fd.decl.Pos())
	x := newExec(v, con)
	x.fn = fd
	x.cands = u.cands
	x.strMode = con.strmode == "on"
	simplify = x.strMode
	x.globals = map2()
	x.addAuto()
	s := &State{x: x, env: map[*goVar]Val{}, box: map[*goVar]*Term{}, heap: map[string]*Term{}, bnd: map[int]ival{}}
	s.next = Const("next@0", SInt)
	setBound(s.next, Int(objStride).iv, nil)
	s.allocs = Const("allocs@0", SInt)
	setBound(s.allocs, Int(0).iv, nil)
	sig := fd.sig()
	var args []Val
	names := con.params
	i := 0
	add := func(t goType) {
		if i >= len(names) {
			panic(unsup("contract of %s names %d parameters", con.target, len(names)))
		}
		a := s.fresh(names[i], t)
		args = append(args, a)
		x.env0[names[i]] = a
		i++
	}
	if r := sig.Recv(); r != nil {
		add(r.Type())
	}
	for j := 0; j < sig.Params().Len(); j++ {
		add(sig.Params().At(j).Type())
	}
	if i != len(names) {
		panic(unsup("contract of %s names %d parameters, the function has %d", con.target, len(names), i))
	}
	for _, g := range con.ghosts {
		x.env0[g.name] = specVal(Const("ghost$"+g.name, specSort(g.sort)))
	}
	x.st0 = s.clone()
	ev0 := &SEnv{x: x, names: x.env0, cur: x.st0, old: x.st0}
	for _, l := range con.lets {
		x.env0[l.name] = ev0.eval(l.x)
		if l.x.kind == "deref" {
			s.wf(x.env0[l.name])
		}
	}
	for _, r := range con.requires {
		t := ev0.evalBool(r.x)
		if simplify {
			noteMark(t, x.st0.next)
		}
		s.assume(t)
	}
	if s.dead {
		panic(unsup("the precondition of %s is contradictory", con.target))
	}
	fr := &frame{fd: fd, info: fd.pkg.info, sig: sig, esc: escapingVars(fd.pkg.info, fd.decl.Body)}
	x.frames = append(x.frames, fr)
	x.curPos = fd.decl.Pos()
	u.smoke = append(u.smoke, x.smokeScript(s))
	ms := x.modTargets(con, ev0)
	nexit := 0
	x.hints(s, con.entry, ev0, meta{kind: "hint", name: "entry"}, func(s *State, e0 *SEnv) {
		x.bindParams(fd, args, s)
		x.block(fd.decl.Body.List, s, func(s *State, c Ctl) {
			nexit++
			vals := c.vals
			if c.k != ctlRet && sig.Results().Len() > 0 {
				panic(unsup("%s falls off its end", con.target))
			}
			x.checkExit(u, s, vals, ms, e0)
		})
	})
	u.paths = nexit
	u.used = x.used
	u.lemmas = x.usedLemmas
	u.obs = x.obs
}

func (x *Exec) smokeScript(s *State) string {
	q := &Query{hyps: s.hyps(), goal: False, maxOrder: x.maxOrder, reveal: x.reveal}
	return q.Script()
}

func (x *Exec) checkExit(u *Unit, s *State, vals []Val, ms *modSet, e0 *SEnv) {
	con := x.con
	env := map[string]Val{}
	for k, v := range e0.names {
		env[k] = v
	}
	if len(con.results) > 0 && len(con.results) != len(vals) {
		panic(unsup("contract of %s names %d results, the function has %d", con.target, len(con.results), len(vals)))
	}
	for i, n := range con.results {
		env[n] = vals[i]
	}
	// ghosts the path did not set have an arbitrary value
	for _, a := range con.after {
		for _, st := range a.body {
			if st.kind == "ghost" {
				if v, ok := s.ghost[st.name]; ok {
					env[st.name] = v
				} else if _, ok := env[st.name]; !ok {
					env[st.name] = specVal(Fresh("ghost$"+st.name, specSort(st.vars[0].sort)))
				}
			}
		}
	}
	post := &SEnv{x: x, names: env, cur: s, old: x.st0}
	u.smoke = append(u.smoke, x.smokeScript(s))
	s = s.clone()
	post.cur = s
	if con.panics != nil {
		x.oblige(s, "panic", "the call panics when the contract says so", Not((&SEnv{x: x, names: x.env0, cur: x.st0, old: x.st0}).evalBool(con.panics)))
	}
	x.hints(s, con.exit, post, meta{kind: "hint", name: "exit"}, func(s *State, post *SEnv) {
		p := *post
		p.cur = s
		for i, c := range con.ensures {
			name := c.name
			if name == "" {
				name = fmt.Sprintf("ensures #%d", i+1)
			}
			if !x.v.visible(c) {
				continue
			}
			x.proveClause(s, "ensures", name, c.x, &p, c.tags, "", c.using)
		}
	})
	for _, n := range sortedKeys(s.heap) {
		if ms.any[n] {
			continue
		}
		x.frameOblig(s, n, ms.addrs[n], "only the listed memory changes: ")
	}
	if !ms.fresh && (x.v.prop == "" || x.v.prop == "C11") {
		x.oblige(s, "frame", "no heap allocation", Eq(s.allocs, x.st0.allocs))
	}
}

func (v *Verifier) execLemma(u *Unit) {
	l := u.lemma
	con := &SContract{target: "lemma " + l.name, pos: l.pos}
	x := newExec(v, con)
	x.globals = map2()
	x.lemma = l
	x.strMode = true
	x.maxOrder = l.order
	x.addAuto()
	s := &State{x: x, heap: map[string]*Term{}, bnd: map[int]ival{}, next: Int(0), allocs: Int(0)}
	x.st0 = s
	u.pos = l.pos
	for _, p := range l.params {
		x.env0[p.name] = specVal(Const(p.name, specSort(p.sort)))
	}
	ev := &SEnv{x: x, names: x.env0}
	for _, r := range l.requires {
		s.assume(ev.evalBool(r.x))
	}
	u.smoke = append(u.smoke, x.smokeScript(s))
	x.hints(s, l.proof, ev, meta{kind: "hint", name: "proof"}, func(s *State, e *SEnv) {
		for i, c := range l.ensures {
			name := c.name
			if name == "" {
				name = fmt.Sprintf("ensures #%d", i+1)
			}
			x.proveClause(s, "lemma", name, c.x, e, nil, "", c.using)
		}
	})
	u.obs = x.obs
	u.lemmas = x.usedLemmas
}

// execDef proves that a recursive definition is well founded.
func (v *Verifier) execDef(u *Unit) {
	d := u.def
	con := &SContract{target: "definition " + d.name, pos: d.pos}
	x := newExec(v, con)
	x.globals = map2()
	x.strMode = true
	u.pos = d.pos
	// only automatic lemmas that cannot mention d are safe: use none
	x.maxOrder = 0
	s := &State{x: x, heap: map[string]*Term{}, bnd: map[int]ival{}, next: Int(0), allocs: Int(0)}
	x.st0 = s
	for _, p := range d.params {
		x.env0[p.name] = specVal(Const(p.name, specSort(p.sort)))
	}
	ev := &SEnv{x: x, names: x.env0}
	m0 := ev.eval(d.dec).one()
	n := 0
	var walk func(sx *SX, e *SEnv, s *State)
	walk = func(sx *SX, e *SEnv, s *State) {
		switch {
		case sx.kind == "bin" && (sx.name == "&&" || sx.name == "==>"):
			walk(sx.args[0], e, s)
			s2 := s.clone()
			s2.assume(e.evalBool(sx.args[0]))
			walk(sx.args[1], e, s2)
			return
		case sx.kind == "bin" && sx.name == "||":
			walk(sx.args[0], e, s)
			s2 := s.clone()
			s2.assume(Not(e.evalBool(sx.args[0])))
			walk(sx.args[1], e, s2)
			return
		case sx.kind == "cond":
			walk(sx.args[0], e, s)
			c := e.evalBool(sx.args[0])
			s2, s3 := s.clone(), s.clone()
			s2.assume(c)
			walk(sx.args[1], e, s2)
			s3.assume(Not(c))
			walk(sx.args[2], e, s3)
			return
		case sx.kind == "let":
			walk(sx.args[0], e, s)
			walk(sx.args[1], e.with(sx.name, e.eval(sx.args[0])), s)
			return
		case sx.kind == "forall" || sx.kind == "exists":
			e2 := e
			for _, q := range sx.vars {
				e2 = e2.with(q.name, specVal(Fresh(q.name, specSort(q.sort))))
			}
			walk(sx.args[0], e2, s)
			return
		case sx.kind == "call":
			for _, a := range sx.args {
				walk(a, e, s)
			}
			if sx.name == d.name {
				c := &SEnv{x: x, names: map[string]Val{}}
				for i, p := range d.params {
					c.names[p.name] = e.eval(sx.args[i])
				}
				m1 := c.eval(d.dec).one()
				n++
				x.oblige(s, "lemma", fmt.Sprintf("recursive call %d decreases", n), And(Le(Int(0), m0), Lt(m1, m0)))
				return
			}
			if o := v.db.defs[sx.name]; o != nil && o.kind == "macro" {
				c := &SEnv{x: x, names: map[string]Val{}}
				for i, p := range o.params {
					c.names[p.name] = e.eval(sx.args[i])
				}
				walk(o.body, c, s)
			} else if o != nil && (o.kind == "rec" || o.kind == "opaque") && v.reaches(o, d.name, map[string]bool{}) {
				panic(unsup("definition %s is recursive through %s", d.name, o.name))
			}
			return
		}
		for _, a := range sx.args {
			walk(a, e, s)
		}
	}
	walk(d.body, ev, s)
	u.obs = x.obs
}

func (v *Verifier) reaches(d *SDef, name string, seen map[string]bool) bool {
	if seen[d.name] {
		return false
	}
	seen[d.name] = true
	found := false
	var walk func(sx *SX)
	walk = func(sx *SX) {
		if sx == nil {
			return
		}
		if sx.kind == "call" {
			if sx.name == name {
				found = true
			}
			if o := v.db.defs[sx.name]; o != nil && o != d && v.reaches(o, name, seen) {
				found = true
			}
		}
		for _, a := range sx.args {
			walk(a)
		}
	}
	walk(d.body)
	return found
}

// checkOpaque: opaque and macro definitions must not be recursive.
func (v *Verifier) checkDefs() error {
	for _, d := range v.db.defs {
		if d.kind == "rec" || d.kind == "uninterp" {
			continue
		}
		if v.reaches(d, d.name, map[string]bool{}) {
			return fmt.Errorf("%s: definition %s is recursive", d.pos, d.name)
		}
	}
	return nil
}

func (v *Verifier) solve(ctx context.Context, script string, t1, t2 int) SolveResult {
	if r, ok := v.cache.Load(script); ok {
		res := r.(SolveResult)
		if res.status == "unsat" || res.budget >= t1+t2 {
			return res
		}
	}
	r := solveScript(ctx, script, t1, t2)
	r.budget = t1 + t2
	if ctx.Err() != nil {
		r.budget = 0
	}
	v.cache.Store(script, r)
	return r
}

// visible: is the clause part of the run? A run for one property proves and
// uses the clauses without a tag and those tagged with the property, so that
// what it relies on is what it proves.
func (v *Verifier) visible(c *SClause) bool {
	return v.prop == "" || len(c.tags) == 0 || hasTag(c.tags, v.prop)
}

func isGuess(id string) bool { return strings.Contains(id, "=") || strings.Contains(id, "auto ") }

// Verify brings all units to a fixpoint and solves every obligation. A unit
// that fails after losing candidates to the clock is tried once more with
// time for them.
func (v *Verifier) Verify(units []*Unit) {
	start := time.Now()
	v.verify(units, false)
	if !deadline.IsZero() && time.Since(start) > time.Until(deadline) {
		return
	}
	var again []*Unit
	for _, u := range units {
		failed := false
		for _, o := range u.obs {
			failed = failed || o.cand == "" && o.status != "unsat" && o.status != "skipped"
		}
		if !failed || len(u.slow) == 0 || u.err != "" {
			continue
		}
		for c := range u.cands {
			if u.slow[c] || strings.Contains(c, "auto ") {
				delete(u.cands, c)
			}
		}
		if v.verb {
			fmt.Fprintf(os.Stderr, "  [%s] once more, with time for %d candidates\n", u.id, len(u.slow))
		}
		again = append(again, u)
	}
	v.verify(again, true)
}

func (v *Verifier) verify(units []*Unit, patient bool) {
	active := units
	for _, u := range units {
		if u.cands == nil {
			u.cands = map[string]bool{}
		}
	}
	for round := 1; len(active) > 0 && round < 30; round++ {
		type job struct {
			u    *Unit
			o    *Oblig
			rank int
		}
		var mu sync.Mutex
		killed := map[*Unit]map[string]bool{}
		ctxs := map[string]context.Context{}
		stop := map[string]context.CancelFunc{}
		var jobs []job
		for _, u := range active {
			u.rounds++
			v.exec(u)
			if u.err != "" {
				continue
			}
			n := map[string]int{}
			for _, o := range u.obs {
				if o.cand == "" || o.status != "" {
					continue
				}
				k := u.id + "\x00" + o.cand
				if ctxs[k] == nil {
					ctxs[k], stop[k] = context.WithCancel(context.Background())
				}
				// every candidate gets a first try before any gets a second
				jobs = append(jobs, job{u, o, n[o.cand]})
				n[o.cand]++
			}
		}
		sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].rank < jobs[j].rank })
		parallel(len(jobs), func(i int) {
			u, o := jobs[i].u, jobs[i].o
			k := u.id + "\x00" + o.cand
			ctx := ctxs[k]
			if ctx.Err() != nil {
				return
			}
			t1, t2 := v.t1, v.t2
			if isGuess(o.cand) {
				t1, t2 = 3, 0
				if v.t1 > 10 {
					t1 = 8
				}
				if u.con != nil && u.con.strmode == "on" && !strings.Contains(o.cand, "auto ") {
					t1, t2 = 4, 5
				}
				if patient && u.slow[o.cand] {
					t1, t2 = v.t1, v.t2
				}
			}
			r := v.solve(ctx, o.script, t1, t2)
			if r.status != "unsat" && ctx.Err() != nil {
				return
			}
			o.fill(r)
			if r.status != "unsat" {
				stop[k]()
				mu.Lock()
				first := !killed[u][o.cand]
				if killed[u] == nil {
					killed[u] = map[string]bool{}
				}
				killed[u][o.cand] = true
				if r.slow && !patient && isGuess(o.cand) && !strings.Contains(o.cand, "auto ") {
					if u.slow == nil {
						u.slow = map[string]bool{}
					}
					u.slow[o.cand] = true
				}
				mu.Unlock()
				if v.verb && first && !strings.Contains(o.cand, "auto ") {
					fmt.Fprintf(os.Stderr, "  [%s] candidate dies: %s: %s (%s) %s\n", u.id, o.pos, o.name, r.status, dump(o))
				}
			}
		})
		for _, f := range stop {
			f()
		}
		var next []*Unit
		for _, u := range active {
			if len(killed[u]) > 0 {
				for c := range killed[u] {
					u.cands[c] = false
				}
				next = append(next, u)
			}
		}
		active = next
	}
	var rest []*Oblig
	for _, u := range units {
		for _, o := range u.obs {
			if o.cand != "" || o.status != "" {
				continue
			}
			if obMatch != "" && !strings.Contains(o.pos+" "+o.name, obMatch) {
				o.status = "skipped"
				continue
			}
			rest = append(rest, o)
		}
	}
	parallel(len(rest), func(i int) {
		rest[i].fill(v.solve(context.Background(), rest[i].script, v.t1, v.t2))
	})
}

// parallel runs f for 0..n-1, eight at a time.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Smoke looks for contradictory assumptions: false must not be provable at
// entry, nor at every exit.
func (v *Verifier) Smoke(units []*Unit) []string {
	var bad []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, u := range units {
		if u.err != "" || len(u.smoke) == 0 {
			continue
		}
		u := u
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := solveScript(context.Background(), u.smoke[0], 2, 0)
			if r.status == "unsat" {
				mu.Lock()
				bad = append(bad, u.id+": the precondition is contradictory")
				mu.Unlock()
				return
			}
			if len(u.smoke) == 1 {
				return
			}
			for _, sc := range u.smoke[1:] {
				if r := solveScript(context.Background(), sc, 2, 0); r.status != "unsat" {
					return
				}
			}
			mu.Lock()
			bad = append(bad, u.id+": no exit is reachable")
			mu.Unlock()
		}()
	}
	wg.Wait()
	sort.Strings(bad)
	return bad
}

func (o *Oblig) fill(r SolveResult) {
	o.status, o.solver, o.ms, o.out = r.status, r.solver, r.dur.Milliseconds(), r.out
}

func (u *Unit) failed() []*Oblig {
	var out []*Oblig
	for _, o := range u.obs {
		if o.cand == "" && o.status != "unsat" && o.status != "skipped" {
			out = append(out, o)
		}
	}
	return out
}

var dumpDir, obMatch string

func dump(o *Oblig) string {
	if dumpDir == "" {
		return ""
	}
	dumpMu.Lock()
	defer dumpMu.Unlock()
	dumpN++
	p := fmt.Sprintf("%s/%03d.smt2", dumpDir, dumpN)
	_ = os.WriteFile(p, []byte("; "+o.unit+": "+o.name+"\n"+o.script), 0o644)
	return p
}

var (
	dumpMu sync.Mutex
	dumpN  int
)

var startTime = time.Now()
