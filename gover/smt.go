package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Axiom is a quantified fact about spec symbols. It is included in a query
// when one of its trigger symbols is reachable from the query.
type Axiom struct {
	name  string
	t     *Term
	syms  map[string]bool // symbols in the triggers
	order int             // declaration order, for lemmas used as axioms (0: definitional)
	kind  string          // "def", "lemma", "trusted"
}

var axioms []*Axiom

func appSyms(t *Term, out map[string]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "app" {
		out[t.name] = true
	}
	for _, a := range t.args {
		appSyms(a, out, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			appSyms(x, out, seen)
		}
	}
}

type Query struct {
	hyps     []*Term
	goal     *Term
	maxOrder int             // lemma axioms with order < maxOrder may be used
	reveal   map[string]bool // opaque definitions revealed
}

var revealAx = map[string]*Axiom{}

func collectConsts(t *Term, consts map[string]Sort, funs map[string]*Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	switch t.op {
	case "const":
		consts[t.name] = t.sort
	case "app":
		if !strings.HasPrefix(t.name, "str.") && !strings.HasPrefix(t.name, "int.to") {
			funs[t.name] = t
		}
	}
	for _, a := range t.args {
		collectConsts(a, consts, funs, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			collectConsts(x, consts, funs, seen)
		}
	}
}

// Script renders the query as SMT-LIB (unsat = proved).
func (q *Query) Script() string {
	// flatten hypotheses, drop duplicates
	var hyps []*Term
	seenH := map[int]bool{}
	var addH func(t *Term)
	addH = func(t *Term) {
		if t == True || seenH[t.id] {
			return
		}
		if t.op == "and" {
			for _, a := range t.args {
				addH(a)
			}
			return
		}
		seenH[t.id] = true
		hyps = append(hyps, t)
	}
	for _, h := range q.hyps {
		addH(h)
	}
	goal := q.goal
	syms := map[string]bool{}
	sseen := map[int]bool{}
	for _, h := range hyps {
		appSyms(h, syms, sseen)
	}
	appSyms(goal, syms, sseen)
	used := map[*Axiom]bool{}
	var ax []*Axiom
	for changed := true; changed; {
		changed = false
		try := func(a *Axiom) {
			if used[a] {
				return
			}
			hit := len(a.syms) == 0
			for s := range a.syms {
				if syms[s] {
					hit = true
					break
				}
			}
			if hit {
				used[a] = true
				ax = append(ax, a)
				appSyms(a.t, syms, sseen)
				changed = true
			}
		}
		for _, a := range axioms {
			if a.kind == "lemma" && a.order >= q.maxOrder {
				continue
			}
			try(a)
		}
		for n := range q.reveal {
			if a := revealAx[n]; a != nil {
				try(a)
			}
		}
	}
	var all []*Term
	for _, a := range ax {
		all = append(all, a.t)
	}
	nax := len(all)
	all = append(all, hyps...)
	all = append(all, Not(goal))
	consts, funs := map[string]Sort{}, map[string]*Term{}
	seen := map[int]bool{}
	for _, t := range all {
		collectConsts(t, consts, funs, seen)
	}
	var b strings.Builder
	var names []string
	for n := range consts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", symb(n), consts[n])
	}
	names = names[:0]
	for n := range funs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-fun %s (", symb(n))
		for i, a := range funs[n].args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(a.sort))
		}
		fmt.Fprintf(&b, ") %s)\n", funs[n].sort)
	}
	// sharing: ground terms used more than once become define-funs
	count := map[int]int{}
	byID := map[int]*Term{}
	var cnt func(t *Term)
	cnt = func(t *Term) {
		count[t.id]++
		byID[t.id] = t
		if count[t.id] > 1 {
			return
		}
		for _, a := range t.args {
			cnt(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				cnt(x)
			}
		}
	}
	for _, t := range all {
		cnt(t)
	}
	var share []int
	for id, c := range count {
		t := byID[id]
		if c > 1 && len(t.args) > 0 && !t.bound {
			share = append(share, id)
		}
	}
	// dependency order (not id order: rewriting may create parents first)
	sharedSet := map[int]bool{}
	for _, id := range share {
		sharedSet[id] = true
	}
	nm := map[int]string{}
	done := map[int]bool{}
	var emit func(t *Term)
	emit = func(t *Term) {
		if done[t.id] {
			return
		}
		done[t.id] = true
		for _, a := range t.args {
			emit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				emit(x)
			}
		}
		if sharedSet[t.id] {
			fmt.Fprintf(&b, "(define-fun $t%d () %s ", t.id, t.sort)
			writeTerm(&b, t, nm)
			b.WriteString(")\n")
			nm[t.id] = fmt.Sprintf("$t%d", t.id)
		}
	}
	for i, t := range all {
		emit(t)
		if i < nax {
			fmt.Fprintf(&b, "; axiom %s\n", ax[i].name)
		}
		b.WriteString("(assert ")
		writeTerm(&b, t, nm)
		b.WriteString(")\n")
	}
	// floor division composes: x div c = k * (x div ck) + (x div c) mod k
	divs := map[int][]*Term{}
	addDiv := func(base *Term, c *big.Int) {
		if c.Sign() <= 0 {
			return
		}
		for _, d := range divs[base.id] {
			if d.iv.Cmp(c) == 0 {
				return
			}
		}
		divs[base.id] = append(divs[base.id], IntB(c))
	}
	var dids []int
	for id, t := range byID {
		if (t.op == "div" || t.op == "mod") && t.args[1].op == "int" && !t.bound {
			dids = append(dids, id)
		}
	}
	sort.Ints(dids)
	baseOf := map[int]*Term{}
	for _, id := range dids {
		t := byID[id]
		a, c := t.args[0], t.args[1].iv
		if t.op == "mod" {
			baseOf[a.id] = a
			addDiv(a, c)
		} else {
			baseOf[a.id] = a
			addDiv(a, one)
			addDiv(a, c)
		}
		if a.op == "div" && a.args[1].op == "int" && a.args[1].iv.Sign() > 0 {
			baseOf[a.args[0].id] = a.args[0]
			addDiv(a.args[0], a.args[1].iv)
			addDiv(a.args[0], new(big.Int).Mul(a.args[1].iv, c))
		}
	}
	var bk []int
	for id, ds := range divs {
		if len(ds) > 2 {
			bk = append(bk, id)
		}
	}
	sort.Ints(bk)
	for _, id := range bk {
		ds := divs[id]
		sort.Slice(ds, func(i, j int) bool { return ds[i].iv.Cmp(ds[j].iv) < 0 })
		base := baseOf[id]
		q := func(c *big.Int) string {
			var sb strings.Builder
			if c.Cmp(one) == 0 {
				writeTerm(&sb, base, nm)
				return sb.String()
			}
			sb.WriteString("(div ")
			writeTerm(&sb, base, nm)
			sb.WriteString(" " + intLit(c) + ")")
			return sb.String()
		}
		for i := 0; i+1 < len(ds); i++ {
			for j := i + 1; j < len(ds); j++ {
				k, r := new(big.Int).QuoRem(ds[j].iv, ds[i].iv, new(big.Int))
				if r.Sign() != 0 {
					continue
				}
				fmt.Fprintf(&b, "(assert (= %s (+ (* %s %s) (mod %s %s))))\n", q(ds[i].iv), intLit(k), q(ds[j].iv), q(ds[i].iv), intLit(k))
				break
			}
		}
	}
	// unconditional type ranges of the terms that occur
	var bids []int
	for id := range byID {
		if _, ok := atomBounds[id]; ok && !byID[id].bound {
			bids = append(bids, id)
		}
	}
	sort.Ints(bids)
	for _, id := range bids {
		t, r := byID[id], atomBounds[id]
		if t.op == "int" || t.op == "mod" {
			continue
		}
		if r.lo != nil {
			b.WriteString("(assert (<= " + intLit(r.lo) + " ")
			writeTerm(&b, t, nm)
			b.WriteString("))\n")
		}
		if r.hi != nil {
			b.WriteString("(assert (<= ")
			writeTerm(&b, t, nm)
			b.WriteString(" " + intLit(r.hi) + "))\n")
		}
	}
	// and of the values in the heap
	names = names[:0]
	for n := range consts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		base := n
		if i := strings.IndexAny(base, "@!"); i >= 0 {
			base = base[:i]
		}
		base = strings.TrimSuffix(base, ".h")
		hr, ok := heapRanges.Load(base)
		if !ok {
			continue
		}
		r := hr.(ival)
		vars, acc := "((k Int))", "(select "+symb(n)+" k)"
		switch consts[n] {
		case arrOf(SInt):
		case arrOf(arrOf(SInt)):
			vars, acc = "((b Int) (k Int))", "(select (select "+symb(n)+" b) k)"
		default:
			continue
		}
		var cs []string
		if r.lo != nil {
			cs = append(cs, "(<= "+intLit(r.lo)+" "+acc+")")
		}
		if r.hi != nil {
			cs = append(cs, "(<= "+acc+" "+intLit(r.hi)+")")
		}
		c := cs[0]
		if len(cs) > 1 {
			c = "(and " + cs[0] + " " + cs[1] + ")"
		}
		fmt.Fprintf(&b, "(assert (forall %s (! %s :pattern (%s))))\n", vars, c, acc)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

type SolveResult struct {
	status string // "unsat","sat","unknown"
	solver string
	dur    time.Duration
	out    string
	budget int
	slow   bool // the first solver ran out of time
}

type solverCfg struct {
	name string
	bin  string
	args func(sec int) []string
	pre  string
}

var z3pre = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

var (
	solvZ3new  = solverCfg{"z3-5.3.2", "z3-new", func(s int) []string { return []string{"-in", fmt.Sprintf("-T:%d", s)} }, z3pre}
	solvZ3new2 = solverCfg{"z3-5.3.2(seed)", "z3-new", func(s int) []string {
		return []string{"-in", fmt.Sprintf("-T:%d", s), "smt.random_seed=7", "smt.arith.solver=2"}
	}, z3pre}
	solvZ3   = solverCfg{"z3-4.8.12", "z3", func(s int) []string { return []string{"-in", fmt.Sprintf("-T:%d", s)} }, z3pre}
	solvZ3q  = solverCfg{"z3-4.8.12(auto)", "z3", func(s int) []string { return []string{"-in", fmt.Sprintf("-T:%d", s)} }, "(set-option :smt.mbqi false)\n"}
	solvCVC5 = solverCfg{"cvc5-1.1.2", "cvc5", func(s int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--strings-exp", "-"}
	}, "(set-logic ALL)\n"}
	solvZ3str = solverCfg{"z3-5.3.2(mbqi)", "z3-new", func(s int) []string { return []string{"-in", fmt.Sprintf("-T:%d", s)} }, ""}
)

func runSolver(ctx context.Context, c solverCfg, script string, sec int) SolveResult {
	start := time.Now()
	cctx, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, c.bin, c.args(sec)...)
	cmd.Stdin = strings.NewReader(c.pre + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	r := SolveResult{status: "unknown", solver: c.name, dur: time.Since(start), out: out.String()}
	r.slow = strings.Contains(r.out, "timeout") || r.dur >= time.Duration(sec)*time.Second
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			r.status = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			r.status = "error"
			break
		}
	}
	return r
}

type SolveStats struct {
	sync.Mutex
	queries  int
	bySolver map[string]int
	time     map[string]time.Duration
	maxDur   time.Duration
}

var stats = &SolveStats{bySolver: map[string]int{}, time: map[string]time.Duration{}}

func (s *SolveStats) note(r SolveResult) {
	s.Lock()
	defer s.Unlock()
	s.queries++
	s.time[r.solver] += r.dur
	if r.status == "unsat" {
		s.bySolver[r.solver]++
		if r.dur > s.maxDur {
			s.maxDur = r.dur
		}
	}
}

var procSem = make(chan struct{}, 8)

// Solve runs the portfolio.
func Solve(q *Query, t1, t2 int) SolveResult {
	if q.goal == True {
		return SolveResult{status: "unsat", solver: "simplifier"}
	}
	for _, h := range q.hyps {
		if h == False {
			return SolveResult{status: "unsat", solver: "simplifier"}
		}
	}
	script := q.Script()
	return solveScript(context.Background(), script, t1, t2)
}

// deadline, if set, ends the run: what is open then is undischarged.
var deadline time.Time

var allN int64

func solveScript(parent context.Context, script string, t1, t2 int) (res0 SolveResult) {
	run := func(c solverCfg, ctx context.Context, sec int) SolveResult {
		procSem <- struct{}{}
		defer func() { <-procSem }()
		if ctx.Err() != nil || !deadline.IsZero() && time.Now().After(deadline) {
			return SolveResult{status: "unknown", solver: c.name}
		}
		r := runSolver(ctx, c, script, sec)
		stats.note(r)
		return r
	}
	if d := os.Getenv("GOVER_ALL"); d != "" {
		t0 := time.Now()
		n := atomic.AddInt64(&allN, 1)
		defer func() {
			_ = os.WriteFile(fmt.Sprintf("%s/%05d.%05d.%s.%s.smt2", d, time.Since(t0).Milliseconds(), n, strings.ReplaceAll(res0.status, " ", ""), strings.ReplaceAll(res0.solver, " ", "")), []byte(script), 0o644)
		}()
	}
	hasStr := strings.Contains(script, "String")
	first := solvZ3new
	slow := false
	defer func() { res0.slow = slow }()
	if hasStr {
		// most string obligations are easy for one of the two
		quick := 4
		if t1 < quick {
			quick = t1
		}
		r := run(solvZ3q, parent, quick)
		if r.status == "unsat" || r.status == "error" {
			return r
		}
		if slow = r.slow; slow {
			// the same solver, differently configured
			if r = run(solvZ3, parent, 2); r.status == "unsat" || r.status == "error" {
				return r
			}
		}
		first = solvCVC5
	}
	r := run(first, parent, t1)
	if !hasStr {
		slow = r.slow
	}
	if r.status == "unsat" || t2 <= 0 {
		return r
	}
	if r.status == "error" {
		return r
	}
	res := r
	ctx, cancel := context.WithCancel(parent)
	defer cancel()
	cfgs := []solverCfg{solvZ3, solvCVC5, solvZ3new2}
	if hasStr {
		cfgs = []solverCfg{solvZ3new, solvZ3q, solvZ3str}
	}
	ch := make(chan SolveResult, len(cfgs))
	for _, c := range cfgs {
		c := c
		go func() { ch <- run(c, ctx, t2) }()
	}
	for range cfgs {
		r := <-ch
		if r.status == "unsat" {
			return r
		}
		if r.status == "sat" && res.status != "sat" {
			res = r
		}
	}
	return res
}
