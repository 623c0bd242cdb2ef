package main

import (
	"context"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"sync"
)

// Oblig is one proof obligation.
type Oblig struct {
	unit   string
	name   string
	kind   string // ensures requires panic frame cand lemma hint termination unsupported smoke
	tags   []string
	goal   *Term
	script string
	status string
	solver string
	ms     int64
	out    string
	pos    string
	cand   string // candidate instance this belongs to
	paths  int
}

// Exec verifies one function against its contract.
type Exec struct {
	l        *Loader
	db       *SpecDB
	sp       *Specs
	con      *SContract
	fn       *FuncDecl
	strMode  bool
	entry    map[string]*Term
	heapSort map[string]Sort
	writes   map[string]bool
	obs      []*Oblig
	dry      int
	depth    int
	st0      *State
	env0     map[string]Val
	ghosts   map[string]Val
	cands    map[string]bool // candidate id -> alive
	candSeen map[string]bool
	inl      map[string]bool
	used     map[string]bool // contracts used
	infos    []*types.Info
	maxOrder int
	reveal   map[string]bool
	paths    int
	frames   []*frame
	curPos   token.Pos
	globals  map[types.Object]Val
	closures map[*Term]*closure
	iters    map[ast.Node]int

	usedLemmas map[string]bool
	lemma      *SLemma
	exits      int
	v          *Verifier
	wrapFail   map[string]int
	exitQ      []string // scripts that must not be provable (vacuity)
}

// closure is the code of a function value.
type closure struct {
	lit  *ast.FuncLit
	fr   *frame // the frame the literal stands in
	fobj *types.Func
}

// funcValue is a declared function used as a value.
func (x *Exec) funcValue(s *State, f *types.Func) Val {
	h := Const("func$"+funcKey(f), SInt)
	s.assume(Lt(Int(0), h))
	x.closures[h] = &closure{fobj: f}
	return Val{f.Type(), []*Term{h}}
}

type frame struct {
	fd   *FuncDecl
	info *types.Info
	sig  *types.Signature
	esc  map[*types.Var]bool
}

func (x *Exec) fr() *frame        { return x.frames[len(x.frames)-1] }
func (x *Exec) info() *types.Info { return x.fr().info }
func (x *Exec) at(n ast.Node)     { x.curPos = n.Pos() }
func (x *Exec) where() string     { return x.l.pos(x.curPos) }
func (x *Exec) typeOf(e ast.Expr) types.Type {
	t := x.info().TypeOf(e)
	if t == nil {
		panic(unsup("no type"))
	}
	return t
}

func (x *Exec) unsup(n ast.Node, f string, a ...interface{}) Unsupported {
	u := unsup(f, a...)
	u.msg = x.l.pos(n.Pos()) + ": " + u.msg
	return u
}

func (x *Exec) oblige(s *State, kind, name string, goal *Term) {
	x.obligeT(s, kind, name, goal, nil, "")
}

func (x *Exec) obligeT(s *State, kind, name string, goal *Term, tags []string, cand string) {
	if x.dry > 0 || s.dead {
		return
	}
	o := &Oblig{unit: x.con.target, name: name, kind: kind, tags: tags, pos: x.where(), cand: cand, goal: goal}
	if v, k := s.decide(goal); k && v {
		o.status = "unsat"
		o.solver = "simplifier"
	} else {
		q := &Query{hyps: s.hyps(), goal: goal, maxOrder: x.maxOrder, reveal: x.reveal}
		o.script = q.Script()
		if os.Getenv("GOVER_ALL") != "" {
			o.script = "; " + o.unit + ": " + o.name + " @" + o.pos + "\n" + o.script
		}
	}
	x.obs = append(x.obs, o)
}

// require is an obligation that execution then relies on.
func (x *Exec) require(s *State, kind, name string, goal *Term) {
	x.oblige(s, kind, name, goal)
	s.assume(goal)
}

type ctlKind int

const (
	ctlNext ctlKind = iota
	ctlBreak
	ctlCont
	ctlRet
)

type Ctl struct {
	k     ctlKind
	label string
	vals  []Val
}

type Cont func(*State, Ctl)

const maxPaths = 4000

func (x *Exec) fork(s *State, c *Term, kt, kf func(*State)) {
	if s.dead {
		return
	}
	if v, k := s.decide(c); k {
		s.assume(c2(c, v))
		if v {
			kt(s)
		} else {
			kf(s)
		}
		return
	}
	x.paths++
	if x.paths > maxPaths {
		panic(unsup("too many paths"))
	}
	s2 := s.clone()
	s.assume(c)
	if !s.dead {
		kt(s)
	}
	s2.assume(Not(c))
	if !s2.dead {
		kf(s2)
	}
}

func c2(c *Term, v bool) *Term {
	if v {
		return c
	}
	return Not(c)
}

// ---- statements ----

func (x *Exec) block(list []ast.Stmt, s *State, k Cont) {
	if s.dead {
		return
	}
	if len(list) == 0 {
		k(s, Ctl{})
		return
	}
	x.stmt(list[0], s, "", func(s2 *State, c Ctl) {
		if c.k != ctlNext {
			k(s2, c)
			return
		}
		x.block(list[1:], s2, k)
	})
}

func (x *Exec) stmt(n ast.Stmt, s *State, label string, k Cont) {
	if s.dead {
		return
	}
	x.at(n)
	next := func(s *State) { k(s, Ctl{}) }
	switch n := n.(type) {
	case *ast.EmptyStmt:
		next(s)
	case *ast.BlockStmt:
		x.block(n.List, s, k)
	case *ast.LabeledStmt:
		x.stmt(n.Stmt, s, n.Label.Name, func(s *State, c Ctl) {
			if c.k == ctlBreak && c.label == n.Label.Name {
				c = Ctl{}
			}
			k(s, c)
		})
	case *ast.ExprStmt:
		if call, ok := unparen(n.X).(*ast.CallExpr); ok {
			x.call(call, s, func(s *State, _ []Val) { next(s) })
			return
		}
		x.ev(n.X, s, func(s *State, _ Val) { next(s) })
	case *ast.DeclStmt:
		gd := n.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			next(s)
			return
		}
		x.varSpecs(gd.Specs, s, next)
	case *ast.AssignStmt:
		x.assign(n, s, next)
	case *ast.IncDecStmt:
		x.lval(n.X, s, func(s *State, lv LV) {
			v := x.load(s, lv)
			d := Int(1)
			if n.Tok == token.DEC {
				d = Int(-1)
			}
			x.store(s, lv, Val{v.t, []*Term{x.wrap(s, Add(v.one(), d), v.t)}})
			next(s)
		})
	case *ast.ReturnStmt:
		sig := x.fr().sig
		if len(n.Results) == 0 {
			var vals []Val
			for i := 0; i < sig.Results().Len(); i++ {
				vals = append(vals, x.readVar(s, sig.Results().At(i)))
			}
			k(s, Ctl{k: ctlRet, vals: vals})
			return
		}
		x.exprs(n.Results, s, func(s *State, vs []Val) {
			var out []Val
			for i, v := range vs {
				rt := sig.Results().At(i).Type()
				out = append(out, x.convAssign(s, v, rt))
			}
			for i := range out {
				if r := sig.Results().At(i); r.Name() != "" && r.Name() != "_" {
					x.writeVar(s, r, out[i])
				}
			}
			k(s, Ctl{k: ctlRet, vals: out})
		})
	case *ast.BranchStmt:
		l := ""
		if n.Label != nil {
			l = n.Label.Name
		}
		switch n.Tok {
		case token.BREAK:
			k(s, Ctl{k: ctlBreak, label: l})
		case token.CONTINUE:
			k(s, Ctl{k: ctlCont, label: l})
		default:
			panic(x.unsup(n, "%s statement", n.Tok))
		}
	case *ast.IfStmt:
		x.opt(n.Init, s, func(s *State) {
			x.cond(n.Cond, s, func(s *State) {
				x.block(n.Body.List, s, k)
			}, func(s *State) {
				if n.Else == nil {
					next(s)
				} else {
					x.stmt(n.Else, s, "", k)
				}
			})
		})
	case *ast.SwitchStmt:
		x.switchStmt(n, s, label, k)
	case *ast.TypeSwitchStmt:
		x.typeSwitch(n, s, label, k)
	case *ast.ForStmt:
		x.opt(n.Init, s, func(s *State) {
			x.forLoop(n, s, label, k)
		})
	case *ast.RangeStmt:
		x.rangeLoop(n, s, label, k)
	default:
		panic(x.unsup(n, "statement %T", n))
	}
}

func (x *Exec) opt(n ast.Stmt, s *State, k func(*State)) {
	if n == nil {
		k(s)
		return
	}
	x.stmt(n, s, "", func(s *State, _ Ctl) { k(s) })
}

func (x *Exec) varSpecs(specs []ast.Spec, s *State, k func(*State)) {
	if len(specs) == 0 {
		k(s)
		return
	}
	vs := specs[0].(*ast.ValueSpec)
	rest := func(s *State) { x.varSpecs(specs[1:], s, k) }
	if len(vs.Values) == 0 {
		for _, n := range vs.Names {
			if v, ok := x.info().Defs[n].(*types.Var); ok {
				x.declare(s, v, x.zero(v.Type()))
			}
		}
		rest(s)
		return
	}
	x.exprs(vs.Values, s, func(s *State, vals []Val) {
		for i, n := range vs.Names {
			if v, ok := x.info().Defs[n].(*types.Var); ok {
				x.declare(s, v, x.convAssign(s, vals[i], v.Type()))
			}
		}
		rest(s)
	})
}

func (x *Exec) declare(s *State, v *types.Var, val Val) {
	if v.Name() == "_" {
		return
	}
	if x.fr().esc[v] {
		a := s.alloc()
		s.box[v] = a
		s.storeCell(v.Type(), a, val)
		return
	}
	delete(s.box, v)
	s.env[v] = Val{v.Type(), val.ts}
}

func (x *Exec) readVar(s *State, v *types.Var) Val {
	if a, ok := s.box[v]; ok {
		return s.loadCell(v.Type(), a)
	}
	if val, ok := s.env[v]; ok {
		return val
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return x.globalVar(s, v)
	}
	panic(unsup("variable %s has no value", v.Name()))
}

func (x *Exec) writeVar(s *State, v *types.Var, val Val) {
	if a, ok := s.box[v]; ok {
		s.storeCell(v.Type(), a, val)
		return
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		panic(unsup("assignment to package variable %s", v.Name()))
	}
	s.env[v] = Val{v.Type(), val.ts}
}

func (x *Exec) assign(n *ast.AssignStmt, s *State, next func(*State)) {
	switch n.Tok {
	case token.DEFINE, token.ASSIGN:
		// left operands first (addresses), then right, then stores
		finish := func(s *State, lvs []LV, vals []Val) {
			for i, lv := range lvs {
				if lv.kind == "blank" {
					continue
				}
				if lv.kind == "def" {
					x.declare(s, lv.v, x.convAssign(s, vals[i], lv.v.Type()))
					continue
				}
				x.store(s, lv, x.convAssign(s, vals[i], lv.t))
			}
			next(s)
		}
		x.lvals(n.Lhs, n.Tok == token.DEFINE, s, nil, func(s *State, lvs []LV) {
			if len(n.Rhs) == 1 && len(n.Lhs) == 2 {
				x.commaOk(n.Rhs[0], s, func(s *State, vals []Val) { finish(s, lvs, vals) })
				return
			}
			x.exprs(n.Rhs, s, func(s *State, vals []Val) { finish(s, lvs, vals) })
		})
	default:
		op := assignOp(n.Tok)
		x.lval(n.Lhs[0], s, func(s *State, lv LV) {
			a := x.load(s, lv)
			x.ev(n.Rhs[0], s, func(s *State, b Val) {
				r := x.binop(s, n, op, a, b, lv.t)
				x.store(s, lv, r)
				next(s)
			})
		})
	}
}

func assignOp(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.AND_ASSIGN:
		return token.AND
	case token.OR_ASSIGN:
		return token.OR
	case token.XOR_ASSIGN:
		return token.XOR
	case token.SHL_ASSIGN:
		return token.SHL
	case token.SHR_ASSIGN:
		return token.SHR
	case token.AND_NOT_ASSIGN:
		return token.AND_NOT
	}
	panic(unsup("assignment %s", t))
}

// commaOk evaluates the right-hand side of a two-value assignment.
func (x *Exec) commaOk(e ast.Expr, s *State, k func(*State, []Val)) {
	switch y := unparen(e).(type) {
	case *ast.IndexExpr:
		if m, ok := x.typeOf(y.X).Underlying().(*types.Map); ok {
			x.ev(y.X, s, func(s *State, mv Val) {
				x.ev(y.Index, s, func(s *State, kv Val) {
					kv = x.convAssign(s, kv, m.Key())
					v, ok := x.mapGet(s, m, mv.one(), kv.one())
					k(s, []Val{v, {types.Typ[types.Bool], []*Term{ok}}})
				})
			})
			return
		}
	case *ast.TypeAssertExpr:
		x.ev(y.X, s, func(s *State, v Val) {
			t := x.typeOf(y.Type)
			c := x.typeTest(s, v.one(), t)
			r := x.unbox(s, v.one(), t)
			z := x.zero(t)
			out := Val{t: t}
			for i := range r.ts {
				out.ts = append(out.ts, Ite(c, r.ts[i], z.ts[i]))
			}
			k(s, []Val{out, {types.Typ[types.Bool], []*Term{c}}})
		})
		return
	}
	x.exprs([]ast.Expr{e}, s, k)
}

func (x *Exec) switchStmt(n *ast.SwitchStmt, s *State, label string, k Cont) {
	done := func(s *State, c Ctl) {
		if c.k == ctlBreak && (c.label == "" || c.label == label) {
			c = Ctl{}
		}
		k(s, c)
	}
	x.opt(n.Init, s, func(s *State) {
		withTag := func(s *State, tag *Val) {
			var def *ast.CaseClause
			var clauses []*ast.CaseClause
			for _, c := range n.Body.List {
				cc := c.(*ast.CaseClause)
				clauses = append(clauses, cc)
				if cc.List == nil {
					def = cc
				}
			}
			var body func(s *State, i int)
			body = func(s *State, i int) {
				cc := clauses[i]
				list := cc.Body
				ft := false
				if len(list) > 0 {
					if b, ok := list[len(list)-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
						ft = true
						list = list[:len(list)-1]
					}
				}
				x.block(list, s, func(s *State, c Ctl) {
					if ft && c.k == ctlNext {
						body(s, i+1)
						return
					}
					done(s, c)
				})
			}
			var try func(s *State, i, j int)
			try = func(s *State, i, j int) {
				if i == len(clauses) {
					if def == nil {
						done(s, Ctl{})
						return
					}
					for q, c := range clauses {
						if c == def {
							body(s, q)
						}
					}
					return
				}
				cc := clauses[i]
				if cc.List == nil || j == len(cc.List) {
					try(s, i+1, 0)
					return
				}
				e := cc.List[j]
				if tag == nil {
					x.cond(e, s, func(s *State) { body(s, i) }, func(s *State) { try(s, i, j+1) })
					return
				}
				x.ev(e, s, func(s *State, v Val) {
					v = x.convAssign(s, v, tag.t)
					x.fork(s, x.eqVals(s, *tag, v), func(s *State) { body(s, i) }, func(s *State) { try(s, i, j+1) })
				})
			}
			try(s, 0, 0)
		}
		if n.Tag == nil {
			withTag(s, nil)
			return
		}
		x.ev(n.Tag, s, func(s *State, v Val) {
			if b, ok := v.t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				v.t = types.Default(v.t)
			}
			withTag(s, &v)
		})
	})
}

func (x *Exec) typeSwitch(n *ast.TypeSwitchStmt, s *State, label string, k Cont) {
	done := func(s *State, c Ctl) {
		if c.k == ctlBreak && (c.label == "" || c.label == label) {
			c = Ctl{}
		}
		k(s, c)
	}
	x.opt(n.Init, s, func(s *State) {
		var e ast.Expr
		switch a := n.Assign.(type) {
		case *ast.ExprStmt:
			e = a.X.(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			e = a.Rhs[0].(*ast.TypeAssertExpr).X
		}
		x.ev(e, s, func(s *State, v Val) {
			h := v.one()
			var def *ast.CaseClause
			var try func(s *State, i, j int)
			run := func(s *State, cc *ast.CaseClause, t types.Type) {
				if obj, ok := x.info().Implicits[cc].(*types.Var); ok && obj != nil {
					if t == nil || types.IsInterface(t) {
						x.declare(s, obj, Val{obj.Type(), []*Term{h}})
					} else {
						x.declare(s, obj, x.unbox(s, h, t))
					}
				}
				x.block(cc.Body, s, done)
			}
			try = func(s *State, i, j int) {
				if i == len(n.Body.List) {
					if def != nil {
						run(s, def, nil)
					} else {
						done(s, Ctl{})
					}
					return
				}
				cc := n.Body.List[i].(*ast.CaseClause)
				if cc.List == nil {
					def = cc
					try(s, i+1, 0)
					return
				}
				if j == len(cc.List) {
					try(s, i+1, 0)
					return
				}
				tv := x.info().Types[cc.List[j]]
				var c *Term
				var t types.Type
				if tv.IsNil() {
					c = Eq(h, Int(0))
				} else {
					t = tv.Type
					c = x.typeTest(s, h, t)
				}
				if len(cc.List) > 1 {
					t = nil
				}
				x.fork(s, c, func(s *State) { run(s, cc, t) }, func(s *State) { try(s, i, j+1) })
			}
			try(s, 0, 0)
		})
	})
}

// ---- interfaces ----

// Interface values are handles; ityp(h) is the dynamic type's code (0: nil).
// tname is the same text for identical types.
func tname(t types.Type) string {
	return aliasRE.ReplaceAllStringFunc(types.TypeString(t, qual), func(a string) string {
		if a == "byte" {
			return "uint8"
		}
		return "int32"
	})
}

var aliasRE = regexp.MustCompile(`\b(byte|rune)\b`)

func (x *Exec) typeCode(t types.Type) *Term {
	return Int(x.sp.typeCode(tname(t)))
}

func (x *Exec) ityp(h *Term) *Term {
	if b := boxOf(h); b != nil {
		return Int(b.code)
	}
	return App("ityp", SInt, h)
}

// boxes describes the functions box$T that make an interface value from the
// parts of a value of type T (string mode; otherwise handles are fresh).
var boxes sync.Map // name -> *boxInfo

func boxOf(h *Term) *boxInfo {
	if h.op != "app" {
		return nil
	}
	if b, ok := boxes.Load(h.name); ok {
		return b.(*boxInfo)
	}
	return nil
}

type boxInfo struct {
	code int64
	typ  string
}

// unboxPart is the i-th part of the value of type t in h.
func (x *Exec) unboxPart(h *Term, t types.Type, i int) *Term {
	n := tname(t)
	if b := boxOf(h); b != nil && b.typ == n {
		return h.args[i]
	}
	c := x.flat(t)[i]
	return App("unbox$"+n+c.suf, c.sort, h)
}

func (x *Exec) typeTest(s *State, h *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.Empty() {
			return Ne(h, Int(0))
		}
		name := "impl$" + tname(t)
		// known dynamic types
		ty := x.ityp(h)
		if ty.op == "int" {
			if rt := x.sp.codeType[ty.iv.Int64()]; rt != nil {
				if types.Implements(rt, it) {
					return True
				}
				return False
			}
		}
		p := App(name, SBool, ty)
		for code, rt := range x.sp.codeType {
			if rt == nil {
				continue
			}
			v := types.Implements(rt, it)
			s.assume(Implies(Eq(ty, Int(code)), c2(p, v)))
		}
		return And(Ne(h, Int(0)), p)
	}
	x.sp.codeType[x.typeCode(t).iv.Int64()] = t
	return And(Ne(h, Int(0)), Eq(x.ityp(h), x.typeCode(t)))
}

func (x *Exec) unbox(s *State, h *Term, t types.Type) Val {
	v := Val{t: t}
	for i := range x.flat(t) {
		v.ts = append(v.ts, x.unboxPart(h, t, i))
	}
	return s.wf(v)
}

func (x *Exec) boxIface(s *State, v Val) Val {
	// the handle is a function of the value
	n := tname(v.t)
	code := x.typeCode(v.t)
	x.sp.codeType[code.iv.Int64()] = v.t
	var h *Term
	if x.strMode {
		name := "box$" + n
		boxes.Store(name, &boxInfo{code.iv.Int64(), n})
		h = App(name, SInt, v.ts...)
	} else {
		h = Fresh("box", SInt)
	}
	s.assume(Lt(Int(0), h))
	s.assume(Eq(App("ityp", SInt, h), code))
	for i, c := range x.flat(v.t) {
		s.assume(Eq(App("unbox$"+n+c.suf, c.sort, h), v.ts[i]))
	}
	return Val{types.NewInterfaceType(nil, nil), []*Term{h}}
}

// convAssign converts for assignability (untyped constants, nil, interfaces).
func (x *Exec) convAssign(s *State, v Val, t types.Type) Val {
	if v.t == nil {
		return Val{t, v.ts}
	}
	if b, ok := v.t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return x.zero(t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, isI := v.t.Underlying().(*types.Interface); isI {
			return Val{t, v.ts}
		}
		b, isBasic := v.t.(*types.Basic)
		if isBasic && b.Info()&types.IsUntyped != 0 {
			v.t = types.Default(v.t)
		}
		r := x.boxIface(s, v)
		r.t = t
		return r
	}
	if isFloat(t) && v.t != nil && !isFloat(v.t) {
		if b, ok := v.t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && v.ts[0].op == "int" && v.ts[0].iv.Sign() == 0 {
			return Val{t, v.ts}
		}
	}
	return Val{t, v.ts}
}

// ---- l-values ----

type LV struct {
	kind string // var cell mem map blank def field
	v    *types.Var
	lo   int
	hi   int
	addr *Term
	base *Term
	idx  *Term
	m    *types.Map
	t    types.Type
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *Exec) lvals(es []ast.Expr, def bool, s *State, acc []LV, k func(*State, []LV)) {
	if len(es) == 0 {
		k(s, acc)
		return
	}
	id, isID := es[0].(*ast.Ident)
	if isID && id.Name == "_" {
		x.lvals(es[1:], def, s, append(acc[:len(acc):len(acc)], LV{kind: "blank"}), k)
		return
	}
	if def && isID {
		if v, ok := x.info().Defs[id].(*types.Var); ok && v != nil {
			x.lvals(es[1:], def, s, append(acc[:len(acc):len(acc)], LV{kind: "def", v: v}), k)
			return
		}
	}
	x.lval(es[0], s, func(s *State, lv LV) {
		x.lvals(es[1:], def, s, append(acc[:len(acc):len(acc)], lv), k)
	})
}

func (x *Exec) lval(e ast.Expr, s *State, k func(*State, LV)) {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		v, ok := x.info().ObjectOf(e).(*types.Var)
		if !ok {
			panic(x.unsup(e, "assignment to %s", e.Name))
		}
		if a, ok := s.box[v]; ok {
			k(s, LV{kind: "cell", addr: a, t: v.Type()})
			return
		}
		k(s, LV{kind: "var", v: v, lo: 0, hi: len(x.flat(v.Type())), t: v.Type()})
	case *ast.StarExpr:
		x.ev(e.X, s, func(s *State, p Val) {
			x.nilCheck(s, p.one())
			k(s, LV{kind: "cell", addr: p.one(), t: x.typeOf(e)})
		})
	case *ast.SelectorExpr:
		sel := x.info().Selections[e]
		if sel == nil {
			if v, ok := x.info().ObjectOf(e.Sel).(*types.Var); ok {
				k(s, LV{kind: "var", v: v, t: v.Type(), hi: len(x.flat(v.Type()))})
				return
			}
			panic(x.unsup(e, "selector"))
		}
		x.fieldLV(e.X, sel.Index(), s, k)
	case *ast.IndexExpr:
		xt := x.typeOf(e.X).Underlying()
		switch u := xt.(type) {
		case *types.Map:
			x.ev(e.X, s, func(s *State, m Val) {
				x.ev(e.Index, s, func(s *State, kv Val) {
					kv = x.convAssign(s, kv, u.Key())
					k(s, LV{kind: "map", m: u, base: m.one(), idx: kv.one(), t: u.Elem()})
				})
			})
		case *types.Slice:
			x.ev(e.X, s, func(s *State, sl Val) {
				x.ev(e.Index, s, func(s *State, iv Val) {
					x.at(e)
					x.require(s, "panic", "index in range", And(Le(Int(0), iv.one()), Lt(iv.one(), sl.ts[2])))
					k(s, LV{kind: "mem", base: sl.ts[0], idx: Add(sl.ts[1], iv.one()), t: u.Elem()})
				})
			})
		case *types.Array:
			x.lval(e.X, s, func(s *State, a LV) {
				x.ev(e.Index, s, func(s *State, iv Val) {
					x.at(e)
					x.require(s, "panic", "index in range", And(Le(Int(0), iv.one()), Lt(iv.one(), Int(u.Len()))))
					if a.kind != "cell" {
						panic(x.unsup(e, "array value"))
					}
					k(s, LV{kind: "mem", base: a.addr, idx: iv.one(), t: u.Elem()})
				})
			})
		case *types.Pointer:
			ar, ok := u.Elem().Underlying().(*types.Array)
			if !ok {
				panic(x.unsup(e, "index of %v", xt))
			}
			x.ev(e.X, s, func(s *State, p Val) {
				x.nilCheck(s, p.one())
				x.ev(e.Index, s, func(s *State, iv Val) {
					x.require(s, "panic", "index in range", And(Le(Int(0), iv.one()), Lt(iv.one(), Int(ar.Len()))))
					k(s, LV{kind: "mem", base: p.one(), idx: iv.one(), t: ar.Elem()})
				})
			})
		default:
			panic(x.unsup(e, "index of %v", xt))
		}
	default:
		panic(x.unsup(e, "l-value %T", e))
	}
}

// fieldLV follows a field path from the expression base.
func (x *Exec) fieldLV(base ast.Expr, path []int, s *State, k func(*State, LV)) {
	bt := x.typeOf(base)
	start := func(s *State, lv LV) {
		for _, i := range path {
			t := lv.t
			if p, ok := t.Underlying().(*types.Pointer); ok {
				v := x.load(s, lv)
				x.nilCheck(s, v.one())
				lv = LV{kind: "cell", addr: v.one(), t: p.Elem()}
				t = p.Elem()
			}
			st := t.Underlying().(*types.Struct)
			ft := st.Field(i).Type()
			switch lv.kind {
			case "cell":
				lv = LV{kind: "cell", addr: Add(lv.addr, Int(x.fieldAddrOff(t, i))), t: ft}
			case "var":
				lo, hi := x.fieldRange(t, i)
				lv = LV{kind: "var", v: lv.v, lo: lv.lo + lo, hi: lv.lo + hi, t: ft}
			default:
				panic(unsup("field of %s place", lv.kind))
			}
		}
		k(s, lv)
	}
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		x.ev(base, s, func(s *State, v Val) {
			x.at(base)
			x.nilCheck(s, v.one())
			start(s, LV{kind: "cell", addr: v.one(), t: p.Elem()})
		})
		return
	}
	x.lval(base, s, start)
}

func (x *Exec) nilCheck(s *State, p *Term) {
	x.require(s, "panic", "nil pointer", Ne(p, Int(0)))
}

func (x *Exec) load(s *State, lv LV) Val {
	switch lv.kind {
	case "var":
		v := x.readVar(s, lv.v)
		return Val{lv.t, v.ts[lv.lo:lv.hi]}
	case "cell":
		return s.loadCell(lv.t, lv.addr)
	case "mem":
		return s.readMem(lv.t, lv.base, lv.idx)
	case "map":
		v, _ := x.mapGet(s, lv.m, lv.base, lv.idx)
		return v
	}
	panic(unsup("load of %s", lv.kind))
}

func (x *Exec) store(s *State, lv LV, v Val) {
	switch lv.kind {
	case "var":
		old := x.readVar(s, lv.v)
		ts := append([]*Term{}, old.ts...)
		copy(ts[lv.lo:lv.hi], v.ts)
		x.writeVar(s, lv.v, Val{old.t, ts})
	case "cell":
		s.storeCell(lv.t, lv.addr, v)
	case "mem":
		s.writeMem(lv.t, lv.base, lv.idx, v)
	case "map":
		x.require(s, "panic", "write to nil map", Ne(lv.base, Int(0)))
		x.mapSet(s, lv.m, lv.base, lv.idx, v)
	case "blank":
	default:
		panic(unsup("store to %s", lv.kind))
	}
}

// ---- maps ----

func (x *Exec) mapGet(s *State, m *types.Map, ref, key *Term) (Val, *Term) {
	ok := And(Ne(ref, Int(0)), Select(s.mapDom(m, ref), key))
	v := Val{t: m.Elem()}
	raw := Val{t: m.Elem()}
	z := x.zero(m.Elem())
	for i := range x.flat(m.Elem()) {
		r := Select(s.mapVal(m, i, ref), key)
		raw.ts = append(raw.ts, r)
	}
	s.wf(raw)
	for i := range raw.ts {
		v.ts = append(v.ts, Ite(ok, raw.ts[i], z.ts[i]))
	}
	return v, ok
}

func (x *Exec) mapSet(s *State, m *types.Map, ref, key *Term, v Val) {
	s.setMapDom(m, ref, Store(s.mapDom(m, ref), key, True))
	for i := range v.ts {
		s.setMapVal(m, i, ref, Store(s.mapVal(m, i, ref), key, v.ts[i]))
	}
	// the runtime may allocate when a map grows
	a := Fresh("allocs", SInt)
	s.assume(Le(s.allocs, a))
	s.allocs = a
}

// ---- expressions ----

func (x *Exec) exprs(es []ast.Expr, s *State, k func(*State, []Val)) {
	if len(es) == 1 {
		if c, ok := unparen(es[0]).(*ast.CallExpr); ok {
			x.call(c, s, k)
			return
		}
	}
	var rec func(i int, s *State, acc []Val)
	rec = func(i int, s *State, acc []Val) {
		if i == len(es) {
			k(s, acc)
			return
		}
		x.ev(es[i], s, func(s *State, v Val) {
			rec(i+1, s, append(acc[:len(acc):len(acc)], v))
		})
	}
	rec(0, s, nil)
}

func (x *Exec) constVal(e ast.Expr, tv types.TypeAndValue) Val {
	t := tv.Type
	v := tv.Value
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return Val{t, []*Term{True}}
		}
		return Val{t, []*Term{False}}
	case constant.String:
		return x.strLit(constant.StringVal(v), t)
	case constant.Int, constant.Float:
		if isFloat(t) {
			f, _ := constant.Float64Val(v)
			if f == 0 {
				return Val{t, []*Term{Int(0)}}
			}
			panic(x.unsup(e, "float constant"))
		}
		iv := constant.ToInt(v)
		b, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			panic(x.unsup(e, "constant %s", v))
		}
		return Val{t, []*Term{IntB(b)}}
	}
	panic(x.unsup(e, "constant"))
}

func (x *Exec) strLit(str string, t types.Type) Val {
	if x.strMode {
		return Val{t, []*Term{StrLit(str)}}
	}
	if str == "" {
		return Val{t, []*Term{Int(0), Int(0), Int(0)}}
	}
	b := Const("strlit$"+sanitize(strconv.Quote(str)), SInt)
	return Val{t, []*Term{b, Int(0), Int(int64(len(str)))}}
}

func (x *Exec) ev(e ast.Expr, s *State, k func(*State, Val)) {
	if s.dead {
		return
	}
	e = unparen(e)
	if tv, ok := x.info().Types[e]; ok && tv.Value != nil {
		k(s, x.constVal(e, tv))
		return
	}
	switch e := e.(type) {
	case *ast.Ident:
		if e.Name == "nil" {
			if _, ok := x.info().Uses[e].(*types.Nil); ok {
				k(s, Val{types.Typ[types.UntypedNil], []*Term{Int(0)}})
				return
			}
		}
		if f, ok := x.info().ObjectOf(e).(*types.Func); ok {
			k(s, x.funcValue(s, f))
			return
		}
		v, ok := x.info().ObjectOf(e).(*types.Var)
		if !ok {
			panic(x.unsup(e, "identifier %s", e.Name))
		}
		k(s, x.readVar(s, v))
	case *ast.SelectorExpr:
		sel := x.info().Selections[e]
		if sel == nil {
			if f, ok := x.info().ObjectOf(e.Sel).(*types.Func); ok {
				k(s, x.funcValue(s, f))
				return
			}
			v, ok := x.info().ObjectOf(e.Sel).(*types.Var)
			if !ok {
				panic(x.unsup(e, "selector %s", e.Sel.Name))
			}
			k(s, x.readVar(s, v))
			return
		}
		if sel.Kind() != types.FieldVal {
			panic(x.unsup(e, "method value"))
		}
		if x.addressable(e.X) || isPtr(x.typeOf(e.X)) {
			x.fieldLV(e.X, sel.Index(), s, func(s *State, lv LV) {
				k(s, x.load(s, lv))
			})
			return
		}
		x.ev(e.X, s, func(s *State, v Val) {
			for _, i := range sel.Index() {
				if p, ok := v.t.Underlying().(*types.Pointer); ok {
					x.nilCheck(s, v.one())
					v = s.loadCell(p.Elem().Underlying().(*types.Struct).Field(i).Type(), Add(v.one(), Int(x.fieldAddrOff(p.Elem(), i))))
					continue
				}
				lo, hi := x.fieldRange(v.t, i)
				v = Val{v.t.Underlying().(*types.Struct).Field(i).Type(), v.ts[lo:hi]}
			}
			k(s, v)
		})
	case *ast.StarExpr:
		if r, ok := x.unsafeCast(e); ok {
			r(s, k)
			return
		}
		x.lval(e, s, func(s *State, lv LV) { k(s, x.load(s, lv)) })
	case *ast.IndexExpr:
		switch u := x.typeOf(e.X).Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			x.lval(e, s, func(s *State, lv LV) { k(s, x.load(s, lv)) })
		case *types.Array:
			if x.addressable(e.X) {
				x.lval(e, s, func(s *State, lv LV) { k(s, x.load(s, lv)) })
				return
			}
			x.ev(e.X, s, func(s *State, a Val) {
				x.ev(e.Index, s, func(s *State, iv Val) {
					x.require(s, "panic", "index in range", And(Le(Int(0), iv.one()), Lt(iv.one(), Int(u.Len()))))
					v := Val{t: u.Elem()}
					for _, t := range a.ts {
						v.ts = append(v.ts, Select(t, iv.one()))
					}
					k(s, s.wf(v))
				})
			})
		case *types.Basic: // string
			if x.strMode {
				panic(x.unsup(e, "index of string"))
			}
			x.ev(e.X, s, func(s *State, sv Val) {
				x.ev(e.Index, s, func(s *State, iv Val) {
					x.at(e)
					x.require(s, "panic", "index in range", And(Le(Int(0), iv.one()), Lt(iv.one(), sv.ts[2])))
					k(s, s.readMem(types.Typ[types.Uint8], sv.ts[0], Add(sv.ts[1], iv.one())))
				})
			})
		default:
			panic(x.unsup(e, "index"))
		}
	case *ast.SliceExpr:
		x.sliceExpr(e, s, k)
	case *ast.UnaryExpr:
		x.unary(e, s, k)
	case *ast.BinaryExpr:
		if e.Op == token.LAND || e.Op == token.LOR {
			x.cond(e, s, func(s *State) { k(s, Val{x.typeOf(e), []*Term{True}}) }, func(s *State) { k(s, Val{x.typeOf(e), []*Term{False}}) })
			return
		}
		if p, q := x.bytesAsString(e.X), x.bytesAsString(e.Y); p != nil && q != nil && !x.strMode && (e.Op == token.EQL || e.Op == token.NEQ) {
			// the compiler compares the bytes without converting them
			x.ev(p, s, func(s *State, a Val) {
				x.ev(q, s, func(s *State, b Val) {
					x.at(e)
					mem := s.mem(types.Typ[types.Uint8], 0)
					r := And(Eq(a.ts[2], b.ts[2]), Eqb(Select(mem, a.ts[0]), a.ts[1], Select(mem, b.ts[0]), b.ts[1], a.ts[2]))
					if e.Op == token.NEQ {
						r = Not(r)
					}
					k(s, Val{x.typeOf(e), []*Term{r}})
				})
			})
			return
		}
		x.ev(e.X, s, func(s *State, a Val) {
			x.ev(e.Y, s, func(s *State, b Val) {
				x.at(e)
				k(s, x.binop(s, e, e.Op, a, b, x.typeOf(e)))
			})
		})
	case *ast.CallExpr:
		x.call(e, s, func(s *State, vs []Val) {
			if len(vs) != 1 {
				panic(x.unsup(e, "call with %d results as a value", len(vs)))
			}
			k(s, vs[0])
		})
	case *ast.CompositeLit:
		x.composite(e, s, k)
	case *ast.TypeAssertExpr:
		x.ev(e.X, s, func(s *State, v Val) {
			t := x.typeOf(e.Type)
			x.at(e)
			x.require(s, "panic", "type assertion", x.typeTest(s, v.one(), t))
			if types.IsInterface(t) {
				k(s, Val{t, v.ts})
				return
			}
			k(s, x.unbox(s, v.one(), t))
		})
	case *ast.FuncLit:
		h := Fresh("func", SInt)
		s.assume(Lt(Int(0), h))
		x.closures[h] = &closure{lit: e, fr: x.fr()}
		k(s, Val{x.typeOf(e), []*Term{h}})
	default:
		panic(x.unsup(e, "expression %T", e))
	}
}

// bytesAsString returns b if e is string(b) for a byte slice b.
func (x *Exec) bytesAsString(e ast.Expr) ast.Expr {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 || !x.info().Types[unparen(c.Fun)].IsType() || !isString(x.typeOf(e)) || !isByteSlice(x.typeOf(c.Args[0])) {
		return nil
	}
	return c.Args[0]
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (x *Exec) addressable(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		_, ok := x.info().ObjectOf(e).(*types.Var)
		return ok
	case *ast.StarExpr:
		_, cast := x.unsafeCast(e)
		return !cast
	case *ast.SelectorExpr:
		sel := x.info().Selections[e]
		if sel == nil {
			return true
		}
		return isPtr(x.typeOf(e.X)) || x.addressable(e.X)
	case *ast.IndexExpr:
		switch x.typeOf(e.X).Underlying().(type) {
		case *types.Slice:
			// element places do not support field paths
			return false
		case *types.Array:
			return x.addressable(e.X)
		}
	}
	return false
}

func (x *Exec) sliceExpr(e *ast.SliceExpr, s *State, k func(*State, Val)) {
	bounds := func(s *State, f func(s *State, lo, hi, max *Term)) {
		var list []ast.Expr
		for _, b := range []ast.Expr{e.Low, e.High, e.Max} {
			if b != nil {
				list = append(list, b)
			}
		}
		var rec func(i int, s *State, acc []*Term)
		rec = func(i int, s *State, acc []*Term) {
			if i == len(list) {
				var lo, hi, max *Term
				j := 0
				if e.Low != nil {
					lo = acc[j]
					j++
				}
				if e.High != nil {
					hi = acc[j]
					j++
				}
				if e.Max != nil {
					max = acc[j]
				}
				f(s, lo, hi, max)
				return
			}
			x.ev(list[i], s, func(s *State, v Val) { rec(i+1, s, append(acc[:len(acc):len(acc)], v.one())) })
		}
		rec(0, s, nil)
	}
	do := func(s *State, base, off, ln, cp *Term, rt types.Type) {
		bounds(s, func(s *State, lo, hi, max *Term) {
			x.at(e)
			if lo == nil {
				lo = Int(0)
			}
			if hi == nil {
				hi = ln
			}
			if max == nil {
				x.require(s, "panic", "slice bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, cp)))
				max = cp
			} else {
				x.require(s, "panic", "slice bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, max), Le(max, cp)))
			}
			nb := base
			no := Add(off, lo)
			if base.op != "int" {
				// slicing a nil slice stays nil (only 0:0 is possible)
				no = Add(off, lo)
			}
			v := Val{rt, []*Term{nb, no, Sub(hi, lo), Sub(max, lo)}}
			k(s, v)
		})
	}
	xt := x.typeOf(e.X)
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		x.ev(e.X, s, func(s *State, v Val) { do(s, v.ts[0], v.ts[1], v.ts[2], v.ts[3], x.typeOf(e)) })
	case *types.Array:
		x.lval(e.X, s, func(s *State, lv LV) {
			if lv.kind != "cell" {
				panic(x.unsup(e, "slice of array value"))
			}
			do(s, lv.addr, Int(0), Int(u.Len()), Int(u.Len()), x.typeOf(e))
		})
	case *types.Pointer:
		ar, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			panic(x.unsup(e, "slice of %v", xt))
		}
		x.ev(e.X, s, func(s *State, p Val) {
			x.nilCheck(s, p.one())
			do(s, p.one(), Int(0), Int(ar.Len()), Int(ar.Len()), x.typeOf(e))
		})
	case *types.Basic:
		if x.strMode {
			x.ev(e.X, s, func(s *State, v Val) {
				bounds(s, func(s *State, lo, hi, max *Term) {
					n := App("str.len", SInt, v.one())
					if lo == nil {
						lo = Int(0)
					}
					if hi == nil {
						hi = n
					}
					x.at(e)
					x.require(s, "panic", "slice bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
					k(s, Val{x.typeOf(e), []*Term{App("str.substr", SStr, v.one(), lo, Sub(hi, lo))}})
				})
			})
			return
		}
		x.ev(e.X, s, func(s *State, v Val) {
			bounds(s, func(s *State, lo, hi, max *Term) {
				if lo == nil {
					lo = Int(0)
				}
				if hi == nil {
					hi = v.ts[2]
				}
				x.at(e)
				x.require(s, "panic", "slice bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, v.ts[2])))
				k(s, Val{x.typeOf(e), []*Term{v.ts[0], Add(v.ts[1], lo), Sub(hi, lo)}})
			})
		})
	default:
		panic(x.unsup(e, "slice of %v", xt))
	}
}

func (x *Exec) unary(e *ast.UnaryExpr, s *State, k func(*State, Val)) {
	switch e.Op {
	case token.AND:
		inner := unparen(e.X)
		if cl, ok := inner.(*ast.CompositeLit); ok {
			x.composite(cl, s, func(s *State, v Val) {
				a := s.alloc()
				s.allocs = Add(s.allocs, Int(1))
				s.storeCell(v.t, a, v)
				k(s, Val{x.typeOf(e), []*Term{a}})
			})
			return
		}
		x.lval(inner, s, func(s *State, lv LV) {
			if lv.kind != "cell" {
				panic(x.unsup(e, "address of %s", lv.kind))
			}
			k(s, Val{x.typeOf(e), []*Term{lv.addr}})
		})
	case token.NOT:
		x.ev(e.X, s, func(s *State, v Val) { k(s, Val{v.t, []*Term{Not(v.one())}}) })
	case token.SUB:
		x.ev(e.X, s, func(s *State, v Val) {
			if isFloat(v.t) {
				panic(x.unsup(e, "float arithmetic"))
			}
			k(s, Val{v.t, []*Term{x.wrap(s, Neg(v.one()), v.t)}})
		})
	case token.ADD:
		x.ev(e.X, s, k)
	case token.XOR:
		x.ev(e.X, s, func(s *State, v Val) {
			b, ok := v.t.Underlying().(*types.Basic)
			if !ok {
				panic(x.unsup(e, "^"))
			}
			lo, hi, _ := intRange(b)
			if lo != nil && lo.Sign() == 0 {
				k(s, Val{v.t, []*Term{Sub(IntB(hi), v.one())}})
			} else {
				k(s, Val{v.t, []*Term{Sub(Int(-1), v.one())}})
			}
		})
	default:
		panic(x.unsup(e, "unary %s", e.Op))
	}
}

func (x *Exec) cond(e ast.Expr, s *State, kt, kf func(*State)) {
	if s.dead {
		return
	}
	switch y := unparen(e).(type) {
	case *ast.BinaryExpr:
		switch y.Op {
		case token.LAND:
			x.cond(y.X, s, func(s *State) { x.cond(y.Y, s, kt, kf) }, kf)
			return
		case token.LOR:
			x.cond(y.X, s, kt, func(s *State) { x.cond(y.Y, s, kt, kf) })
			return
		}
	case *ast.UnaryExpr:
		if y.Op == token.NOT {
			x.cond(y.X, s, kf, kt)
			return
		}
	}
	x.ev(e, s, func(s *State, v Val) { x.fork(s, v.one(), kt, kf) })
}

func (x *Exec) eqVals(s *State, a, b Val) *Term {
	if a.t != nil {
		if bt, ok := a.t.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
			a, b = b, a
		}
	}
	if b.t != nil {
		if bt, ok := b.t.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
			return Eq(a.ts[0], Int(0)) // nil pointer, slice (base), map, interface
		}
	}
	if len(a.ts) != len(b.ts) {
		// concrete value against interface
		panic(unsup("comparison of %v and %v", a.t, b.t))
	}
	if a.t != nil {
		if bt, ok := a.t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && !x.strMode {
			return And(Eq(a.ts[2], b.ts[2]), Eqb(Select(s.mem(types.Typ[types.Uint8], 0), a.ts[0]), a.ts[1], Select(s.mem(types.Typ[types.Uint8], 0), b.ts[0]), b.ts[1], a.ts[2]))
		}
		if isFloat(a.t) {
			panic(unsup("float comparison"))
		}
	}
	var cs []*Term
	for i := range a.ts {
		cs = append(cs, Eq(a.ts[i], b.ts[i]))
	}
	return And(cs...)
}

// wrapTime bounds (in seconds) the question whether an operation can overflow.
const wrapTime = 3

func (x *Exec) wrap(s *State, t *Term, typ types.Type) *Term {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intRange(b)
	if !ok || lo == nil {
		return t
	}
	r, _ := intervalIn(t, s.bnd)
	if r.lo != nil && r.hi != nil && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return t
	}
	w := new(big.Int).Add(new(big.Int).Sub(hi, lo), one)
	var exact *Term
	if lo.Sign() == 0 {
		exact = Mod(t, IntB(w))
	} else {
		exact = Add(Mod(Sub(t, IntB(lo)), IntB(w)), IntB(lo))
	}
	if exact.op == "int" {
		return exact
	}
	if r.lo != nil && r.hi != nil && lo.Sign() == 0 && new(big.Int).Sub(r.hi, r.lo).Cmp(new(big.Int).Mul(w, big.NewInt(16))) > 0 {
		return exact // a truncation
	}
	// name the result; state the common case so that solvers need not divide
	f := Fresh("w", SInt)
	setBound(f, lo, hi)
	s.assume(And(Le(IntB(lo), f), Le(f, IntB(hi))))
	in := And(Le(IntB(lo), t), Le(t, IntB(hi)))
	if v, k := s.decide(in); k && v {
		return t
	}
	// ask the solver now: later queries are much easier without the division
	if key := x.where() + "|" + b.Name(); x.dry == 0 && !s.dead && x.wrapFail[key] < 2 {
		q := &Query{hyps: s.hyps(), goal: in, maxOrder: x.maxOrder, reveal: x.reveal}
		if r := x.v.solve(context.Background(), q.Script(), wrapTime, 0); r.status == "unsat" {
			x.obs = append(x.obs, &Oblig{unit: x.con.target, name: "no overflow in " + b.Name() + " arithmetic", kind: "overflow", pos: x.where(), goal: in, script: q.Script()})
			s.assume(in)
			return t
		}
		x.wrapFail[key]++
	}
	s.assume(Implies(in, Eq(f, t)))
	s.assume(Implies(Not(in), Eq(f, exact)))
	return f
}

func lowZeros(t *Term, extra map[int]ival) int {
	// number of trailing zero bits guaranteed
	switch t.op {
	case "int":
		if t.iv.Sign() == 0 {
			return 1000
		}
		return int(t.iv.TrailingZeroBits())
	case "lin":
		n := 1000
		if t.iv.Sign() != 0 {
			n = int(t.iv.TrailingZeroBits())
		}
		for i, a := range t.args {
			z := lowZeros(a, extra) + int(t.coef[i].TrailingZeroBits())
			if z < n {
				n = z
			}
		}
		return n
	}
	return 0
}

func (x *Exec) binop(s *State, n ast.Node, op token.Token, a, b Val, rt types.Type) Val {
	bt := types.Type(types.Typ[types.Bool])
	switch op {
	case token.EQL:
		return Val{bt, []*Term{x.eqVals(s, x.harm(s, a, b), x.harm(s, b, a))}}
	case token.NEQ:
		return Val{bt, []*Term{Not(x.eqVals(s, x.harm(s, a, b), x.harm(s, b, a)))}}
	}
	if a.t != nil && isFloat(a.t) {
		panic(x.unsup(n, "float arithmetic"))
	}
	if len(a.ts) == 1 && a.ts[0].sort == SStr && op == token.ADD {
		return Val{rt, []*Term{Concat(a.one(), b.one())}}
	}
	if bb, ok := a.t.Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
		panic(x.unsup(n, "string operation"))
	}
	p, q := a.one(), b.one()
	switch op {
	case token.LSS:
		return Val{bt, []*Term{Lt(p, q)}}
	case token.LEQ:
		return Val{bt, []*Term{Le(p, q)}}
	case token.GTR:
		return Val{bt, []*Term{Gt(p, q)}}
	case token.GEQ:
		return Val{bt, []*Term{Ge(p, q)}}
	}
	res := func(t *Term) Val { return Val{rt, []*Term{x.wrap(s, t, rt)}} }
	opaque := func() Val {
		return s.fresh("bits", rt)
	}
	pi, _ := intervalIn(p, s.bnd)
	qi, _ := intervalIn(q, s.bnd)
	switch op {
	case token.ADD:
		return res(Add(p, q))
	case token.SUB:
		return res(Sub(p, q))
	case token.MUL:
		return res(Mul(p, q))
	case token.QUO, token.REM:
		x.require(s, "panic", "division by zero", Ne(q, Int(0)))
		if pi.lo != nil && pi.lo.Sign() >= 0 && q.op == "int" && q.iv.Sign() > 0 {
			if op == token.QUO {
				return res(Div(p, q))
			}
			return res(Mod(p, q))
		}
		return opaque()
	case token.SHL:
		if q.op == "int" && q.iv.Sign() >= 0 && q.iv.IsInt64() {
			c := q.iv.Int64()
			if c >= 64 {
				return Val{rt, []*Term{Int(0)}}
			}
			return res(MulC(p, pow2(uint(c))))
		}
		return opaque()
	case token.SHR:
		if q.op == "int" && q.iv.Sign() >= 0 && q.iv.IsInt64() {
			c := q.iv.Int64()
			if c > 200 {
				c = 200
			}
			return res(Div(p, IntB(pow2(uint(c)))))
		}
		return opaque()
	case token.AND:
		if q.op != "int" {
			p, q = q, p
			pi, qi = qi, pi
		}
		if q.op == "int" {
			m := new(big.Int).Add(q.iv, one)
			if q.iv.Sign() >= 0 && new(big.Int).And(m, q.iv).Sign() == 0 { // 2^k-1
				return res(Mod(p, IntB(m)))
			}
			if q.iv.Sign() > 0 && pi.lo != nil && pi.lo.Sign() >= 0 && new(big.Int).And(q.iv, new(big.Int).Sub(q.iv, one)).Sign() == 0 { // single bit
				return res(Sub(Mod(p, IntB(new(big.Int).Mul(q.iv, big.NewInt(2)))), Mod(p, IntB(q.iv))))
			}
		}
		return opaque()
	case token.AND_NOT:
		if q.op == "int" {
			m := new(big.Int).Add(q.iv, one)
			if q.iv.Sign() >= 0 && new(big.Int).And(m, q.iv).Sign() == 0 {
				return res(Sub(p, Mod(p, IntB(m))))
			}
		}
		return opaque()
	case token.OR, token.XOR:
		disj := func(a *Term, ai ival, b *Term) bool {
			if ai.lo == nil || ai.lo.Sign() < 0 || ai.hi == nil {
				return false
			}
			return ai.hi.BitLen() <= lowZeros(b, s.bnd)
		}
		nonneg := pi.lo != nil && pi.lo.Sign() >= 0 && qi.lo != nil && qi.lo.Sign() >= 0
		if disj(p, pi, q) || disj(q, qi, p) {
			return res(Add(p, q))
		}
		if op == token.OR && q.op == "int" && q.iv.Sign() > 0 && nonneg && new(big.Int).And(q.iv, new(big.Int).Sub(q.iv, one)).Sign() == 0 {
			// set a single bit
			two := IntB(new(big.Int).Mul(q.iv, big.NewInt(2)))
			if pi.hi != nil && pi.hi.Cmp(new(big.Int).Mul(q.iv, big.NewInt(2))) < 0 {
				return res(Add(Mod(p, q), q))
			}
			return res(Add(Sub(p, Mod(p, two)), Mod(p, q), q))
		}
		return opaque()
	}
	panic(x.unsup(n, "operator %s", op))
}

// harm gives an untyped operand the type of the other.
func (x *Exec) harm(s *State, a, b Val) Val {
	if a.t == nil || b.t == nil {
		return a
	}
	_, ai := a.t.Underlying().(*types.Interface)
	_, bi := b.t.Underlying().(*types.Interface)
	if bt, ok := a.t.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
		return a
	}
	if bi && !ai {
		return x.convAssign(s, a, b.t)
	}
	return a
}

func (x *Exec) composite(e *ast.CompositeLit, s *State, k func(*State, Val)) {
	t := x.typeOf(e)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := x.zero(t)
		ts := append([]*Term{}, v.ts...)
		var rec func(i int, s *State)
		rec = func(i int, s *State) {
			if i == len(e.Elts) {
				k(s, Val{t, append([]*Term{}, ts...)})
				return
			}
			fi := i
			el := e.Elts[i]
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fi = j
					}
				}
				el = kv.Value
			}
			x.ev(el, s, func(s *State, v Val) {
				v = x.convAssign(s, v, u.Field(fi).Type())
				lo, hi := x.fieldRange(t, fi)
				save := append([]*Term{}, ts...)
				copy(ts[lo:hi], v.ts)
				rec(i+1, s)
				ts = save
			})
		}
		rec(0, s)
	case *types.Slice:
		a := s.alloc()
		s.allocs = Add(s.allocs, Int(1))
		n := int64(len(e.Elts))
		var rec func(i int, s *State)
		rec = func(i int, s *State) {
			if i == len(e.Elts) {
				k(s, Val{t, []*Term{a, Int(0), Int(n), Int(n)}})
				return
			}
			if _, ok := e.Elts[i].(*ast.KeyValueExpr); ok {
				panic(x.unsup(e, "keyed slice literal"))
			}
			x.ev(e.Elts[i], s, func(s *State, v Val) {
				s.writeMem(u.Elem(), a, Int(int64(i)), x.convAssign(s, v, u.Elem()))
				rec(i+1, s)
			})
		}
		rec(0, s)
	case *types.Map:
		ref := s.alloc()
		s.allocs = Add(s.allocs, Int(1))
		ks := keySort(x, u)
		s.setMapDom(u, ref, ConstArr(mapSort(ks, SBool), False))
		var rec func(i int, s *State)
		rec = func(i int, s *State) {
			if i == len(e.Elts) {
				k(s, Val{t, []*Term{ref}})
				return
			}
			kv := e.Elts[i].(*ast.KeyValueExpr)
			x.ev(kv.Key, s, func(s *State, key Val) {
				put := func(s *State, v Val) {
					x.mapSet(s, u, ref, x.convAssign(s, key, u.Key()).one(), x.convAssign(s, v, u.Elem()))
					rec(i+1, s)
				}
				if cl, ok := kv.Value.(*ast.CompositeLit); ok {
					x.composite(cl, s, put)
					return
				}
				x.ev(kv.Value, s, put)
			})
		}
		rec(0, s)
	case *types.Array:
		v := x.zero(t)
		if len(e.Elts) == 0 {
			k(s, v)
			return
		}
		ts := append([]*Term{}, v.ts...)
		var rec func(i int, s *State)
		rec = func(i int, s *State) {
			if i == len(e.Elts) {
				k(s, Val{t, append([]*Term{}, ts...)})
				return
			}
			x.ev(e.Elts[i], s, func(s *State, v Val) {
				v = x.convAssign(s, v, u.Elem())
				save := append([]*Term{}, ts...)
				for j := range ts {
					ts[j] = Store(ts[j], Int(int64(i)), v.ts[j])
				}
				rec(i+1, s)
				ts = save
			})
		}
		rec(0, s)
	default:
		panic(x.unsup(e, "composite literal of %v", t))
	}
}

// unsafeCast recognises *(*T)(unsafe.Pointer(&v)), which reinterprets the
// header of v; v is a string, slice or header struct.
func (x *Exec) unsafeCast(e *ast.StarExpr) (func(*State, func(*State, Val)), bool) {
	c1, ok := unparen(e.X).(*ast.CallExpr)
	if !ok || len(c1.Args) != 1 || !x.info().Types[c1.Fun].IsType() {
		return nil, false
	}
	c2, ok := unparen(c1.Args[0]).(*ast.CallExpr)
	if !ok || len(c2.Args) != 1 {
		return nil, false
	}
	if tv := x.info().Types[c2.Fun]; !tv.IsType() {
		return nil, false
	} else if b, ok := tv.Type.Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
		return nil, false
	}
	u, ok := unparen(c2.Args[0]).(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		return nil, false
	}
	pt, ok := x.typeOf(c1.Fun).Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return func(s *State, k func(*State, Val)) {
		x.ev(u.X, s, func(s *State, v Val) { k(s, x.reinterpret(s, e, v, pt.Elem())) })
	}, true
}

// reinterpret maps headers onto each other through (address, length, cap).
func (x *Exec) reinterpret(s *State, n ast.Node, v Val, t types.Type) Val {
	kind := func(t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 && !x.strMode {
				return "string"
			}
		case *types.Slice:
			return "slice"
		case *types.Struct:
			nm := types.TypeString(t, qual)
			if nm == "reflect.StringHeader" || nm == "reflect.SliceHeader" {
				return nm
			}
		}
		panic(x.unsup(n, "unsafe conversion involving %v", t))
	}
	if sl, ok := v.t.Underlying().(*types.Slice); ok && typeName(sl.Elem()) != "uint8" {
		panic(x.unsup(n, "unsafe conversion from %v", v.t))
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && typeName(sl.Elem()) != "uint8" {
		panic(x.unsup(n, "unsafe conversion to %v", t))
	}
	var base, off, ln, cp *Term
	unaddr := func(a *Term) (*Term, *Term) {
		if a.op == "app" && a.name == "addr" {
			return a.args[0], a.args[1]
		}
		if a.op == "int" && a.iv.Sign() == 0 {
			return Int(0), Int(0)
		}
		return App("addr.base", SInt, a), App("addr.off", SInt, a)
	}
	switch kind(v.t) {
	case "string":
		base, off, ln = v.ts[0], v.ts[1], v.ts[2]
	case "slice":
		base, off, ln, cp = v.ts[0], v.ts[1], v.ts[2], v.ts[3]
	case "reflect.StringHeader":
		base, off = unaddr(v.ts[0])
		ln = v.ts[1]
	case "reflect.SliceHeader":
		base, off = unaddr(v.ts[0])
		ln, cp = v.ts[1], v.ts[2]
	}
	needCap := func() *Term {
		if cp == nil {
			// reading past the string header: arbitrary
			cp = Fresh("junkcap", SInt)
		}
		return cp
	}
	switch kind(t) {
	case "string":
		return Val{t, []*Term{base, off, ln}}
	case "slice":
		c := needCap()
		// the result must be a real slice of the underlying object
		x.require(s, "panic", "unsafe slice header is valid", And(Le(Int(0), ln), Le(ln, c), Le(Add(off, c), IntB(maxMem))))
		return Val{t, []*Term{base, off, ln, c}}
	case "reflect.StringHeader":
		return Val{t, []*Term{App("addr", SInt, base, off), ln}}
	default:
		return Val{t, []*Term{App("addr", SInt, base, off), ln, needCap()}}
	}
}
