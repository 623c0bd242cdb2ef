package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type loopDesc struct {
	id      string
	scan    []ast.Node
	head    func(s *State, body, exit func(*State))
	body    *ast.BlockStmt
	post    ast.Stmt
	advance func(s *State)
	hidden  func(s *State) // re-havoc the hidden counters
	ranged  bool
	cond    ast.Expr
	fixed   int // the number of iterations, if it is fixed and small
}

func (x *Exec) assignedVars(s *State, ns []ast.Node) []*types.Var {
	set := map[*types.Var]bool{}
	var info *types.Info
	add := func(e ast.Expr) {
		for {
			switch y := unparen(e).(type) {
			case *ast.SelectorExpr:
				if info.Selections[y] == nil || isPtr(info.TypeOf(y.X)) {
					return
				}
				e = y.X
				continue
			case *ast.IndexExpr:
				if _, ok := info.TypeOf(y.X).Underlying().(*types.Array); ok {
					e = y.X
					continue
				}
				return
			case *ast.Ident:
				if v, ok := info.ObjectOf(y).(*types.Var); ok && v != nil {
					set[v] = true
				}
			}
			return
		}
	}
	// a call of a function value may run any function literal so far
	infos := map[ast.Node]*types.Info{}
	for _, cl := range x.closures {
		if cl.lit != nil {
			ns = append(ns[:len(ns):len(ns)], cl.lit.Body)
			infos[cl.lit.Body] = cl.fr.info
		}
	}
	for _, n := range ns {
		if n == nil {
			continue
		}
		if info = infos[n]; info == nil {
			info = x.info()
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					add(l)
				}
			case *ast.IncDecStmt:
				add(y.X)
			case *ast.RangeStmt:
				if y.Key != nil {
					add(y.Key)
				}
				if y.Value != nil {
					add(y.Value)
				}
			}
			return true
		})
	}
	var out []*types.Var
	for v := range set {
		if _, ok := s.env[v]; ok {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (x *Exec) forLoop(n *ast.ForStmt, s *State, label string, k Cont) {
	d := &loopDesc{id: x.l.pos(n.Pos()), scan: []ast.Node{n.Body, n.Cond, n.Post}, body: n.Body, post: n.Post, cond: n.Cond}
	if n.Cond == nil {
		d.scan[1] = nil
	}
	if n.Post == nil {
		d.scan[2] = nil
	}
	d.head = func(s *State, body, exit func(*State)) {
		if n.Cond == nil {
			body(s)
			return
		}
		x.cond(n.Cond, s, body, exit)
	}
	d.fixed = x.fixedCount(n, s)
	cnt := Int(0)
	d.hidden = func(s *State) {
		f := Fresh("iter", SInt)
		setBound(f, Int(0).iv, nil)
		s.assume(Le(Int(0), f))
		s.loopi[len(s.loopi)-1].i = f
	}
	d.advance = func(s *State) {
		l := &s.loopi[len(s.loopi)-1]
		l.i = Add(l.i, Int(1))
	}
	s.loopi = append(s.loopi, loopCtx{i: cnt})
	x.loop(d, s, label, func(s *State, c Ctl) {
		x.popLoop(s)
		k(s, c)
	})
}

// maxFixed bounds the loops that are unrolled because the number of their
// iterations is evident.
const maxFixed = 10

// fixedCount recognizes loops like "for i := 0; i < 4; i++". That the loop
// ends after so many iterations is an obligation.
func (x *Exec) fixedCount(n *ast.ForStmt, s *State) int {
	c, ok := n.Cond.(*ast.BinaryExpr)
	if !ok {
		return 0
	}
	p, ok := n.Post.(*ast.IncDecStmt)
	if !ok {
		return 0
	}
	id, ok := unparen(c.X).(*ast.Ident)
	pid, ok2 := unparen(p.X).(*ast.Ident)
	if !ok || !ok2 {
		return 0
	}
	v, ok := x.info().Uses[id].(*types.Var)
	tv := x.info().Types[c.Y]
	if !ok || x.info().Uses[pid] != v || tv.Value == nil || !isInteger(v.Type()) {
		return 0
	}
	for _, w := range x.assignedVars(s, []ast.Node{n.Body}) {
		if w == v {
			return 0
		}
	}
	a := s.env[v]
	b := x.constVal(c.Y, tv)
	if len(a.ts) != 1 || a.ts[0].op != "int" || len(b.ts) != 1 || b.ts[0].op != "int" {
		return 0
	}
	k := new(big.Int).Sub(b.ts[0].iv, a.ts[0].iv)
	if k.Abs(k); !k.IsInt64() || k.Int64() > maxFixed {
		return 0
	}
	return int(k.Int64()) + 2
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) popLoop(s *State) { s.loopi = s.loopi[:len(s.loopi)-1] }

func (x *Exec) rangeLoop(n *ast.RangeStmt, s *State, label string, k Cont) {
	xt := x.typeOf(n.X).Underlying()
	if p, ok := xt.(*types.Pointer); ok {
		xt = p.Elem().Underlying()
	}
	setKV := func(s *State, key, val func() Val, f func(*State)) {
		set := func(e ast.Expr, v func() Val, s *State, f func(*State)) {
			if e == nil {
				f(s)
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					f(s)
					return
				}
				if n.Tok == token.DEFINE {
					if vr, ok := x.info().Defs[id].(*types.Var); ok && vr != nil {
						x.declare(s, vr, Val{vr.Type(), v().ts})
						f(s)
						return
					}
				}
			}
			x.lval(e, s, func(s *State, lv LV) {
				x.store(s, lv, Val{lv.t, v().ts})
				f(s)
			})
		}
		set(n.Key, key, s, func(s *State) { set(n.Value, val, s, f) })
	}
	d := &loopDesc{id: x.l.pos(n.Pos()), scan: []ast.Node{n.Body}, body: n.Body, ranged: true}
	if n.Tok == token.ASSIGN {
		d.scan = append(d.scan, n)
	}
	done := func(s *State, c Ctl) {
		x.popLoop(s)
		k(s, c)
	}
	var seqKey func(i *Term) func() Val
	seq := func(s *State, length *Term, elem func(s *State, i *Term) Val) {
		s.loopi = append(s.loopi, loopCtx{i: Int(0)})
		if length.op == "int" && length.iv.IsInt64() && length.iv.Int64() <= maxFixed {
			d.fixed = int(length.iv.Int64()) + 1
		}
		d.hidden = func(s *State) {
			f := Fresh("i", SInt)
			setBound(f, Int(0).iv, maxMem)
			s.assume(And(Le(Int(0), f), Le(f, length)))
			s.loopi[len(s.loopi)-1].i = f
		}
		d.head = func(s *State, body, exit func(*State)) {
			i := s.loopi[len(s.loopi)-1].i
			x.fork(s, Lt(i, length), func(s *State) {
				key := func() Val { return Val{tInt, []*Term{i}} }
				if seqKey != nil {
					key = seqKey(i)
				}
				setKV(s, key, func() Val { return elem(s, i) }, body)
			}, exit)
		}
		d.advance = func(s *State) {
			l := &s.loopi[len(s.loopi)-1]
			l.i = Add(l.i, Int(1))
		}
		x.loop(d, s, label, done)
	}
	switch u := xt.(type) {
	case *types.Slice:
		x.ev(n.X, s, func(s *State, v Val) {
			seq(s, v.ts[2], func(s *State, i *Term) Val { return s.readMem(u.Elem(), v.ts[0], Add(v.ts[1], i)) })
		})
	case *types.Array:
		if n.Value == nil || n.Value.(ast.Expr) == nil {
			seq(s, Int(u.Len()), nil)
			return
		}
		x.ev(n.X, s, func(s *State, v Val) {
			if isPtr(v.t) {
				p := v.one()
				seq(s, Int(u.Len()), func(s *State, i *Term) Val { return s.readMem(u.Elem(), p, i) })
				return
			}
			seq(s, Int(u.Len()), func(s *State, i *Term) Val {
				e := Val{t: u.Elem()}
				for _, t := range v.ts {
					e.ts = append(e.ts, Select(t, i))
				}
				return s.wf(e)
			})
		})
	case *types.Map:
		x.ev(n.X, s, func(s *State, mv Val) {
			ref := mv.one()
			ks := keySort(x, u)
			vs := mapSort(ks, SBool)
			dom0 := s.mapDom(u, ref)
			s.loopi = append(s.loopi, loopCtx{i: Int(0), visited: ConstArr(vs, False)})
			d.hidden = func(s *State) {
				l := &s.loopi[len(s.loopi)-1]
				l.visited = Fresh("visited", vs)
				f := Fresh("iter", SInt)
				setBound(f, Int(0).iv, nil)
				l.i = f
			}
			d.head = func(s *State, body, exit func(*State)) {
				l := s.loopi[len(s.loopi)-1]
				key := Fresh("key", ks)
				kt := Val{u.Key(), []*Term{key}}
				s.wf(kt)
				s2 := s.clone()
				dom := s.mapDom(u, ref)
				s.assume(Ne(ref, Int(0)))
				s.assume(Select(dom, key))
				s.assume(Not(Select(l.visited, key)))
				s.loopi[len(s.loopi)-1].visited = Store(l.visited, key, True)
				// advance happens at the end of the iteration; remember the old set
				s.loopi[len(s.loopi)-1].visited = l.visited
				pend := key
				if !s.dead {
					setKV(s, func() Val { return kt }, func() Val { v, _ := x.mapGet(s, u, ref, key); return v }, func(s *State) {
						s.loopi[len(s.loopi)-1].i = pend // carried to advance
						body(s)
					})
				}
				q := BVar("k", ks)
				d2 := s2.mapDom(u, ref)
				pats := [][]*Term{{Select(l.visited, q)}, {Select(dom0, q)}}
				if l.visited.op == "constarr" {
					pats = [][]*Term{{Select(dom0, q)}}
				}
				s2.assume(Or(Eq(ref, Int(0)), Forall([]*Term{q}, pats,
					Implies(And(Select(dom0, q), Select(d2, q)), Select(l.visited, q)))))
				if !s2.dead {
					exit(s2)
				}
			}
			d.advance = func(s *State) {
				l := &s.loopi[len(s.loopi)-1]
				l.visited = Store(l.visited, l.i, True)
			}
			x.loop(d, s, label, done)
		})
	case *types.Basic:
		if !isString(xt) || !x.strMode {
			panic(x.unsup(n, "range over %v", xt))
		}
		x.ev(n.X, s, func(s *State, v Val) {
			cnt := App("runecount", SInt, v.one())
			s.assume(And(Le(Int(0), cnt), Le(cnt, IntB(maxMem))))
			pos := func(i *Term) func() Val {
				return func() Val {
					p := App("runepos", SInt, v.one(), i)
					s.assume(And(Le(Int(0), p), Le(Add(p, Int(1)), IntB(maxMem))))
					return Val{tInt, []*Term{p}}
				}
			}
			seqKey = pos
			seq(s, cnt, func(s *State, i *Term) Val {
				r := App("runeat", SInt, v.one(), i)
				s.assume(And(Le(Int(0), r), Le(r, Int(0x10FFFF))))
				return Val{types.Typ[types.Rune], []*Term{r}}
			})
		})
	default:
		panic(x.unsup(n, "range over %v", xt))
	}
}

func (x *Exec) loop(d *loopDesc, s *State, label string, k Cont) {
	if s.dead {
		return
	}
	mine := func(c Ctl) bool { return c.label == "" || c.label == label }
	if x.con.unroll > 0 || d.fixed > 0 {
		x.unrolled(d, s, mine, k, 0)
		return
	}
	vars := x.assignedVars(s, d.scan)
	entryS := s.clone()
	// which heap components does the loop write?
	written := map[string]bool{}
	x.dry++
	for round := 0; round < 4; round++ {
		save := x.writes
		x.writes = map[string]bool{}
		s0 := s.clone()
		x.havocLoop(s0, d, vars, written)
		d.head(s0, func(s *State) {
			x.block(d.body.List, s, func(s *State, c Ctl) {
				if d.post != nil && (c.k == ctlNext || c.k == ctlCont && mine(c)) {
					x.stmt(d.post, s, "", func(*State, Ctl) {})
				}
			})
		}, func(*State) {})
		n := 0
		for w := range x.writes {
			save[w] = true
			if !written[w] {
				written[w] = true
				n++
			}
		}
		x.writes = save
		if n == 0 {
			break
		}
	}
	x.dry--
	insts := x.candidates(d, entryS, vars, written)
	x.at(d.body)
	for _, c := range insts {
		if x.alive(c.id) && !c.dec {
			x.candOblig(s, c, "loop invariant holds on entry", c.eval(s))
		}
	}
	s = s.clone()
	x.havocLoop(s, d, vars, written)
	if x.strMode {
		ms := x.modTargets(x.con, &SEnv{x: x, names: x.env0, cur: x.st0, old: x.st0})
		for w := range written {
			if !strings.HasPrefix(w, "g:") && x.alive(d.id+" auto loop frame "+w) {
				if h := s.heap[w]; h.op == "const" {
					derived[h.id] = &derivation{entryS.hp(w, x.heapSort[w]), entryS.next, ms.addrs[w]}
				}
			}
		}
	}
	if x.strMode {
		// invariants that say what a changed value is: use the value itself
		fresh := map[*Term]func(*Term){}
		for w := range written {
			w := w
			if strings.HasPrefix(w, "g:") {
				fresh[s.heap[w]] = func(t *Term) { s.setHp(w, t) }
			}
		}
		for _, v := range vars {
			v := v
			if val := s.env[v]; len(val.ts) == 1 {
				fresh[val.ts[0]] = func(t *Term) { s.env[v] = Val{val.t, []*Term{t}} }
			}
		}
		// only where a single invariant says so: the others may not hold
		count := map[*Term]int{}
		probe := map[*Term]func(*Term){}
		for sym := range fresh {
			sym := sym
			probe[sym] = func(*Term) { count[sym]++ }
		}
		each := func(f map[*Term]func(*Term), s *State, probing bool) {
			for _, c := range insts {
				if x.alive(c.id) && !c.dec {
					if e := c.eval(s); e.t == nil {
						g := f
						if probing {
							g = map[*Term]func(*Term){}
							for k, v := range f {
								g[k] = v
							}
						}
						x.defining(s, e.ev, e.sx, g)
					}
				}
			}
		}
		each(probe, s.clone(), true)
		for sym, n := range count {
			if n > 1 {
				delete(fresh, sym)
			}
		}
		each(fresh, s, false)
	}
	for _, c := range insts {
		if x.alive(c.id) && !c.dec {
			s.assume(c.eval(s).whole())
		}
	}
	headS := s.clone()
	nDec := 0
	for _, c := range insts {
		if c.dec && x.alive(c.id) {
			nDec++
		}
	}
	if !d.ranged && nDec == 0 {
		x.at(d.body)
		x.oblige(s, "termination", "loop has a decreasing measure", False)
	}
	d.head(s, func(s *State) {
		x.block(d.body.List, s, func(s *State, c Ctl) {
			end := func(s *State) {
				d.advance(s)
				x.at(d.body)
				for _, c := range insts {
					if !x.alive(c.id) {
						continue
					}
					if c.dec {
						m0, m1 := c.measure(headS), c.measure(s)
						x.obligeT(s, "cand", "loop measure decreases", And(Le(Int(0), m0), Lt(m1, m0)), nil, c.id)
						continue
					}
					x.candOblig2(s, headS, c, "loop invariant is preserved")
				}
			}
			switch {
			case c.k == ctlNext || c.k == ctlCont && mine(c):
				if d.post != nil {
					x.stmt(d.post, s, "", func(s *State, _ Ctl) { end(s) })
				} else {
					end(s)
				}
			case c.k == ctlBreak && mine(c):
				k(s, Ctl{})
			default:
				k(s, c)
			}
		})
	}, func(s *State) { k(s, Ctl{}) })
}

func (x *Exec) unrolled(d *loopDesc, s *State, mine func(Ctl) bool, k Cont, n int) {
	d.head(s, func(s *State) {
		max := x.con.unroll
		if max < d.fixed {
			max = d.fixed
		}
		if n >= max {
			x.at(d.body)
			x.oblige(s, "termination", fmt.Sprintf("loop ends within %d iterations", max), False)
			return
		}
		x.block(d.body.List, s, func(s *State, c Ctl) {
			end := func(s *State) {
				d.advance(s)
				x.unrolled(d, s, mine, k, n+1)
			}
			switch {
			case c.k == ctlNext || c.k == ctlCont && mine(c):
				if d.post != nil {
					x.stmt(d.post, s, "", func(s *State, _ Ctl) { end(s) })
				} else {
					end(s)
				}
			case c.k == ctlBreak && mine(c):
				k(s, Ctl{})
			default:
				k(s, c)
			}
		})
	}, func(s *State) { k(s, Ctl{}) })
}

func (x *Exec) havocLoop(s *State, d *loopDesc, vars []*types.Var, written map[string]bool) {
	old := s.next
	s.next = Fresh("next", SInt)
	nextPred[s.next.id] = old
	s.assume(Le(old, s.next))
	oa := s.allocs
	s.allocs = Fresh("allocs", SInt)
	s.assume(Le(oa, s.allocs))
	var ws []string
	for w := range written {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	for _, w := range ws {
		h := Fresh(w, x.heapSort[w])
		heapMark[h.id] = s.next
		s.setHp(w, h)
	}
	for _, v := range vars {
		s.env[v] = s.fresh(v.Name(), v.Type())
	}
	d.hidden(s)
}

// ---- invariant candidates ----

type candInst struct {
	id      string
	eval    func(s *State) *clauseEval
	dec     bool
	measure func(s *State) *Term
}

// clauseEval is an evaluated invariant: the formula, and how to prove it.
type clauseEval struct {
	sx    *SX
	ev    *SEnv
	using []*SStmt
	t     *Term
	// prove, if set, gives the state and goal that prove t
	prove func(s *State) (*State, *Term)
}

func (c *clauseEval) whole() *Term {
	if c.t != nil {
		return c.t
	}
	return c.ev.evalBool(c.sx)
}

func (x *Exec) alive(id string) bool {
	x.candSeen[id] = true
	a, ok := x.cands[id]
	return !ok || a
}

func (x *Exec) candOblig(s *State, c *candInst, what string, e *clauseEval) {
	if x.dry > 0 {
		return
	}
	if e.prove != nil {
		s, g := e.prove(s)
		x.obligeT(s, "cand", what+": "+c.id, g, nil, c.id)
		return
	}
	if e.t != nil {
		x.obligeT(s, "cand", what+": "+c.id, e.t, nil, c.id)
		return
	}
	x.proveClause(s, "cand", what+": "+c.id, e.sx, e.ev, nil, c.id, e.using)
}

// candOblig2 proves preservation; the hints see the state at the loop head.
func (x *Exec) candOblig2(s, head *State, c *candInst, what string) {
	if x.dry > 0 {
		return
	}
	e := c.eval(s)
	if e.prove != nil {
		s, g := e.prove(s)
		x.obligeT(s, "cand", what+": "+c.id, g, nil, c.id)
		return
	}
	if e.t != nil {
		x.obligeT(s, "cand", what+": "+c.id, e.t, nil, c.id)
		return
	}
	h := c.eval(head)
	x.proveClauseAt(s, "cand", what+": "+c.id, e.sx, e.ev, nil, c.id, e.using, h.ev)
}

// atloopGhosts: the ghosts that e compares with their values at the loop.
func atloopGhosts(e *SX) []string {
	var out []string
	var walk func(e *SX, in bool)
	walk = func(e *SX, in bool) {
		if e == nil {
			return
		}
		if in && e.kind == "call" && e.name == "ghost" && len(e.args) == 1 {
			out = append(out, e.args[0].name)
		}
		in = in || e.kind == "call" && e.name == "atloop"
		for _, a := range e.args {
			walk(a, in)
		}
	}
	walk(e, false)
	return out
}

func conjuncts(e ast.Expr) []ast.Expr {
	if e == nil {
		return nil
	}
	if b, ok := unparen(e).(*ast.BinaryExpr); ok && b.Op == token.LAND {
		return append(conjuncts(b.X), conjuncts(b.Y)...)
	}
	return []ast.Expr{e}
}

func (x *Exec) candidates(d *loopDesc, le *State, vars []*types.Var, written map[string]bool) []*candInst {
	var out []*candInst
	con := x.con
	// integer variables in scope
	var ints []*types.Var
	for v, val := range le.env {
		if len(val.ts) == 1 && val.ts[0].sort == SInt {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ints = append(ints, v)
			}
		}
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i].Pos() < ints[j].Pos() })
	mod := map[*types.Var]bool{}
	for _, v := range vars {
		mod[v] = true
	}
	var slices []*types.Var
	for v := range le.env {
		if isByteSlice(v.Type()) {
			slices = append(slices, v)
		}
	}
	sort.Slice(slices, func(i, j int) bool { return slices[i].Pos() < slices[j].Pos() })
	var anySlices []*types.Var
	for v := range le.env {
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			anySlices = append(anySlices, v)
		}
	}
	sort.Slice(anySlices, func(i, j int) bool { return anySlices[i].Pos() < anySlices[j].Pos() })
	type bind struct {
		name string
		get  func(s *State) Val
		lbl  string
	}
	options := func(v SVar) []bind {
		var o []bind
		switch v.sort {
		case "Int", "ModInt":
			for _, w := range ints {
				w := w
				if v.sort == "ModInt" && !mod[w] {
					continue
				}
				o = append(o, bind{v.name, func(s *State) Val { return x.readVar(s, w) }, w.Name()})
			}
			if d.ranged || v.sort == "ModInt" {
				o = append(o, bind{v.name, func(s *State) Val {
					i := s.loopi[len(s.loopi)-1].i
					if i.sort != SInt {
						return Val{tInt, []*Term{Int(0)}}
					}
					return Val{tInt, []*Term{i}}
				}, "$i"})
			}
			if v.sort == "ModInt" {
				// elements consumed from a slice that the loop shortens
				for _, w := range anySlices {
					w, n0 := w, le.env[w].ts[1]
					if mod[w] {
						o = append(o, bind{v.name, func(s *State) Val { return Val{tInt, []*Term{Sub(x.readVar(s, w).ts[1], n0)}} }, "used(" + w.Name() + ")"})
					}
				}
			}
		case "ModStr", "ModBool":
			for _, w := range vars {
				w := w
				val := le.env[w]
				if len(val.ts) == 1 && (v.sort == "ModStr" && val.ts[0].sort == SStr || v.sort == "ModBool" && val.ts[0].sort == SBool) {
					o = append(o, bind{v.name, func(s *State) Val { return x.readVar(s, w) }, w.Name()})
				}
			}
		case "SliceVar", "MapVar", "PtrVar":
			for w := range le.env {
				w := w
				m, isMap := w.Type().Underlying().(*types.Map)
				if (v.sort == "SliceVar" || v.sort == "PtrVar") && types.TypeString(w.Type(), qual) == v.typ || v.sort == "MapVar" && isMap && isString(m.Key()) {
					o = append(o, bind{v.name, func(s *State) Val { return x.readVar(s, w) }, w.Name()})
				}
			}
			sort.Slice(o, func(i, j int) bool { return o[i].lbl < o[j].lbl })
		case "Slice":
			for _, w := range slices {
				w := w
				o = append(o, bind{v.name, func(s *State) Val { return x.readVar(s, w) }, w.Name()})
			}
		default:
			panic(unsup("metavariable sort %s", v.sort))
		}
		return o
	}
	inst := func(cl *SClause, idx int, dec bool) {
		var rec func(i int, bs []bind)
		rec = func(i int, bs []bind) {
			// two metavariables stand for different things
			if i > 0 {
				for _, b := range bs[:i-1] {
					if b.lbl == bs[i-1].lbl {
						return
					}
				}
			}
			if i == len(cl.vars) {
				lbl := fmt.Sprintf("inv%d", idx)
				if dec {
					lbl = fmt.Sprintf("dec%d", idx)
				}
				if cl.name != "" {
					lbl = cl.name
				}
				for _, b := range bs {
					lbl += "," + b.name + "=" + b.lbl
				}
				bs2 := append([]bind{}, bs...)
				mkEnv := func(s *State) *SEnv {
					names := map[string]Val{}
					for k, v := range x.env0 {
						names[k] = v
					}
					for _, b := range bs2 {
						names[b.name] = b.get(s)
					}
					return &SEnv{x: x, names: names, cur: s, old: x.st0, loop: le}
				}
				c := &candInst{id: d.id + " " + lbl, dec: dec}
				if dec {
					c.measure = func(s *State) *Term { return mkEnv(s).eval(cl.x).one() }
				} else {
					c.eval = func(s *State) *clauseEval { return &clauseEval{sx: cl.x, ev: mkEnv(s), using: cl.using} }
				}
				out = append(out, c)
				return
			}
			for _, b := range options(cl.vars[i]) {
				rec(i+1, append(bs[:len(bs):len(bs)], b))
			}
		}
		rec(0, nil)
	}
	for i, cl := range con.loopinv {
		if !x.v.visible(cl) {
			continue
		}
		if g := atloopGhosts(cl.x); len(g) > 0 {
			// about what the loop adds to a ghost it does not touch
			any := false
			for _, n := range g {
				any = any || written["g:"+n]
			}
			if !any {
				continue
			}
		}
		inst(cl, i+1, false)
	}
	for i, cl := range con.loopdec {
		inst(cl, i+1, true)
	}
	auto := func(name string, f func(s *State) *Term) {
		out = append(out, &candInst{id: d.id + " " + name, eval: func(s *State) *clauseEval { return &clauseEval{t: f(s)} }})
	}
	autoDec := func(name string, f func(s *State) *Term) {
		out = append(out, &candInst{id: d.id + " " + name, dec: true, measure: f})
	}
	for _, v := range vars {
		v := v
		val := le.env[v]
		if len(val.ts) == 1 && val.ts[0].sort == SInt {
			auto("auto "+v.Name()+">=0", func(s *State) *Term { return Le(Int(0), s.env[v].ts[0]) })
			if !d.ranged {
				auto("auto "+v.Name()+">=-1", func(s *State) *Term { return Le(Int(-1), s.env[v].ts[0]) })
				auto("auto "+v.Name()+" down", func(s *State) *Term { return Le(s.env[v].ts[0], val.ts[0]) })
			}
			auto("auto "+v.Name()+" up", func(s *State) *Term { return Le(val.ts[0], s.env[v].ts[0]) })
			for _, w := range anySlices {
				w := w
				if mod[w] {
					continue
				}
				auto("auto "+v.Name()+"<=len("+w.Name()+")", func(s *State) *Term { return Le(s.env[v].ts[0], s.env[w].ts[2]) })
				if !d.ranged {
					autoDec("auto len("+w.Name()+")-"+v.Name(), func(s *State) *Term { return Sub(s.env[w].ts[2], s.env[v].ts[0]) })
				}
			}
		}
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			auto("auto same base "+v.Name(), func(s *State) *Term { return Eq(s.env[v].ts[0], val.ts[0]) })
			auto("auto same end "+v.Name(), func(s *State) *Term {
				w := s.env[v]
				return Eq(Add(w.ts[1], w.ts[2]), Add(val.ts[1], val.ts[2]))
			})
			auto("auto same cap end "+v.Name(), func(s *State) *Term {
				w := s.env[v]
				return Eq(Add(w.ts[1], w.ts[3]), Add(val.ts[1], val.ts[3]))
			})
			auto("auto forward "+v.Name(), func(s *State) *Term { return Le(val.ts[1], s.env[v].ts[1]) })
			if !d.ranged {
				autoDec("auto len("+v.Name()+")", func(s *State) *Term { return s.env[v].ts[2] })
			}
		}
	}
	for ci, cj := range conjuncts(d.cond) {
		if b, ok := unparen(cj).(*ast.BinaryExpr); ok {
			pure := func(e ast.Expr) bool {
				ok := true
				ast.Inspect(e, func(n ast.Node) bool {
					switch c := n.(type) {
					case *ast.CallExpr:
						if id, isID := unparen(c.Fun).(*ast.Ident); !isID || id.Name != "len" {
							ok = false
						}
					case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.BinaryExpr:
						if _, isB := n.(*ast.BinaryExpr); !isB {
							ok = false
						}
					}
					return ok
				})
				return ok
			}
			if pure(b.X) && pure(b.Y) {
				get := func(e ast.Expr) func(s *State) *Term {
					return func(s *State) *Term {
						var r *Term
						x.dry++
						x.ev(e, s.clone(), func(_ *State, v Val) { r = v.ts[0] })
						x.dry--
						if r == nil || r.sort != SInt {
							r = Int(0)
						}
						return r
					}
				}
				a, c := get(b.X), get(b.Y)
				switch b.Op {
				case token.LSS, token.LEQ, token.NEQ:
					autoDec("auto cond"+itoa(ci), func(s *State) *Term { return Add(Sub(c(s), a(s)), Int(1)) })
				case token.GTR, token.GEQ:
					autoDec("auto cond"+itoa(ci), func(s *State) *Term { return Add(Sub(a(s), c(s)), Int(1)) })
				}
			}
		}
	}
	auto("auto no allocation", func(s *State) *Term { return Eq(s.allocs, le.allocs) })
	auto("auto no new object", func(s *State) *Term { return Eq(s.next, le.next) })
	ev := &SEnv{x: x, names: x.env0, cur: x.st0, old: x.st0}
	ms := x.modTargets(con, ev)
	var ws []string
	for w := range written {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	for _, w := range ws {
		w := w
		if strings.HasPrefix(w, "g:") {
			continue
		}
		srt := x.heapSort[w]
		old := le.hp(w, srt)
		fr := func(lim *Term, ref *Term) func(s *State) *clauseEval {
			return func(s *State) *clauseEval {
				cur := s.hp(w, srt)
				if cur == ref {
					return &clauseEval{t: True}
				}
				prove := func(s *State) (*State, *Term) {
					s = s.clone()
					b := Fresh("b", SInt)
					ptrBelow[b.id] = lim
					s.assume(Lt(b, lim))
					s.assume(addressed(b))
					for _, a := range ms.addrs[w] {
						s.assume(Ne(b, a))
					}
					return s, Eq(x.selSimp(s, cur, b), Select(ref, b))
				}
				if !simplify {
					prove = nil
				}
				b := BVar("b", SInt)
				h := []*Term{Lt(b, lim), addressed(b)}
				for _, a := range ms.addrs[w] {
					h = append(h, Ne(b, a))
				}
				// pattern must not be interpreted away
				sel := mk(&Term{op: "select", args: []*Term{cur, b}, sort: elemSort(cur.sort)})
				return &clauseEval{t: Forall([]*Term{b}, [][]*Term{{sel}}, Implies(And(h...), Eq(Select(cur, b), Select(ref, b)))), prove: prove}
			}
		}
		out = append(out, &candInst{id: d.id + " auto frame " + w, eval: fr(x.st0.next, x.entryHeap(w, srt))})
		out = append(out, &candInst{id: d.id + " auto loop frame " + w, eval: fr(le.next, old)})
	}
	return out
}
