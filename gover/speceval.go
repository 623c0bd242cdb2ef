package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

// Specs is per-unit specification state.
type Specs struct {
	db       *SpecDB
	codes    map[string]int64
	codeType map[int64]types.Type
}

func NewSpecs(db *SpecDB) *Specs {
	return &Specs{db: db, codes: map[string]int64{}, codeType: map[int64]types.Type{}}
}

func (sp *Specs) typeCode(n string) int64 {
	if c, ok := sp.codes[n]; ok {
		return c
	}
	c := int64(len(sp.codes) + 1)
	sp.codes[n] = c
	return c
}

// constMap gives the keys of a package-level map variable that is initialised
// by a literal and never touched otherwise except by reading.
func (sp *Specs) constMap(l *Loader, v *types.Var) ([]*Term, bool) {
	p := l.pkgs[v.Pkg().Path()]
	if p == nil {
		var err error
		p, err = l.Load(v.Pkg().Path())
		if err != nil {
			return nil, false
		}
	}
	var lit *ast.CompositeLit
	ok := true
	for _, f := range p.files {
		for _, d := range f.Decls {
			if gd, isG := d.(*ast.GenDecl); isG {
				for _, s := range gd.Specs {
					vs, isV := s.(*ast.ValueSpec)
					if !isV {
						continue
					}
					for i, n := range vs.Names {
						if p.info.Defs[n] == v && i < len(vs.Values) {
							lit, _ = unparen(vs.Values[i]).(*ast.CompositeLit)
						}
					}
				}
			}
		}
		// uses other than as a plain value (argument) or being read
		ast.Inspect(f, func(n ast.Node) bool {
			isV := func(e ast.Expr) bool {
				id, is := unparen(e).(*ast.Ident)
				return is && p.info.Uses[id] == v
			}
			switch y := n.(type) {
			case *ast.AssignStmt:
				for _, e := range y.Lhs {
					if ix, is := unparen(e).(*ast.IndexExpr); is && isV(ix.X) || isV(e) {
						ok = false
					}
				}
				for _, e := range y.Rhs {
					if isV(e) {
						ok = false
					}
				}
			case *ast.UnaryExpr:
				if y.Op.String() == "&" && isV(y.X) {
					ok = false
				}
			case *ast.CallExpr:
				if id, is := unparen(y.Fun).(*ast.Ident); is && id.Name == "delete" && isV(y.Args[0]) {
					ok = false
				}
			}
			return true
		})
	}
	if lit == nil || !ok || v.Exported() {
		return nil, false
	}
	var keys []*Term
	for _, e := range lit.Elts {
		kv, is := e.(*ast.KeyValueExpr)
		if !is {
			return nil, false
		}
		tv := p.info.Types[kv.Key]
		if tv.Value == nil {
			return nil, false
		}
		var n int64
		if _, err := fmt.Sscan(tv.Value.ExactString(), &n); err != nil {
			return nil, false
		}
		keys = append(keys, Int(n))
	}
	return keys, true
}

// ---- evaluation ----

type SEnv struct {
	x     *Exec
	names map[string]Val
	cur   *State
	old   *State
	loop  *State
	head  *SEnv
	depth int
}

func (e *SEnv) with(n string, v Val) *SEnv {
	r := *e
	r.names = make(map[string]Val, len(e.names)+1)
	for k, v := range e.names {
		r.names[k] = v
	}
	r.names[n] = v
	return &r
}

func specSort(n string) Sort {
	switch n {
	case "Int":
		return SInt
	case "Bool":
		return SBool
	case "Arr":
		return SArr
	case "Set":
		return SSet
	case "H":
		return SH
	case "HS":
		return SHS
	case "Str":
		return SStr
	case "AStr":
		return SAStr
	case "StrSet":
		return SSSet
	}
	panic(unsup("unknown sort %s", n))
}

func (e *SEnv) fail(x *SX, f string, a ...interface{}) Unsupported {
	return Unsupported{"spec " + x.pos + ": " + fmt.Sprintf(f, a...)}
}

func (e *SEnv) evalBool(x *SX) *Term {
	v := e.eval(x)
	t := v.one()
	if t.sort != SBool {
		panic(e.fail(x, "boolean expected"))
	}
	return t
}

func (e *SEnv) evalInt(x *SX) *Term {
	v := e.eval(x)
	if len(v.ts) != 1 {
		panic(e.fail(x, "scalar expected, have %v", v.t))
	}
	return v.ts[0]
}

func (e *SEnv) st(x *SX) *State {
	if e.cur == nil {
		panic(e.fail(x, "no program state here"))
	}
	return e.cur
}

// fieldOf resolves a field name or alias.
func (e *SEnv) fieldOf(x *SX, t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(e.fail(x, "%v has no fields", t))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	want := ""
	for _, n := range []string{types.TypeString(t, qual), "*"} {
		if a := e.x.db.aliases[n]; a != nil && a[name] != "" {
			want = a[name]
			break
		}
	}
	if want != "" {
		hit := -1
		for i := 0; i < st.NumFields(); i++ {
			fs := types.TypeString(st.Field(i).Type(), qual)
			m := fs == want
			if strings.HasPrefix(want, "[*]") {
				if a, ok := st.Field(i).Type().Underlying().(*types.Array); ok {
					m = types.TypeString(a.Elem(), qual) == want[3:]
				}
			}
			if m {
				if hit >= 0 {
					hit = -2
					break
				}
				hit = i
			}
		}
		if hit >= 0 {
			return hit
		}
	}
	panic(e.fail(x, "no field %s in %v", name, t))
}

func (e *SEnv) addrOf(x *SX) (*Term, types.Type) {
	switch x.kind {
	case "sel":
		if x.args[0].kind == "ident" || x.args[0].kind == "call" {
			v := e.eval(x.args[0])
			p, ok := v.t.Underlying().(*types.Pointer)
			if !ok {
				panic(e.fail(x, "pointer expected"))
			}
			i := e.fieldOf(x, p.Elem(), x.name)
			return Add(v.one(), Int(e.x.fieldAddrOff(p.Elem(), i))), p.Elem().Underlying().(*types.Struct).Field(i).Type()
		}
		a, t := e.addrOf(x.args[0])
		i := e.fieldOf(x, t, x.name)
		return Add(a, Int(e.x.fieldAddrOff(t, i))), t.Underlying().(*types.Struct).Field(i).Type()
	case "deref":
		v := e.eval(x.args[0])
		return v.one(), v.t.Underlying().(*types.Pointer).Elem()
	}
	panic(e.fail(x, "address of this expression"))
}

// typeNamed gives the type written in a string literal: a basic type, []byte,
// pkg.T, or a pointer to one.
func (e *SEnv) typeNamed(x *SX) types.Type {
	n := x.name
	if strings.HasPrefix(n, "*") {
		y := *x
		y.name = n[1:]
		return types.NewPointer(e.typeNamed(&y))
	}
	if n == "[]byte" {
		return types.NewSlice(types.Universe.Lookup("byte").Type())
	}
	if o, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
		return o.Type()
	}
	t := e.x.l.namedType(n)
	if t == nil {
		panic(e.fail(x, "unknown type %s", n))
	}
	return t
}

// varNamed finds a package-level variable, "pkg.Var".
func (e *SEnv) varNamed(x *SX) *types.Var {
	i := strings.LastIndex(x.name, ".")
	if i < 0 {
		panic(e.fail(x, "unknown variable %s", x.name))
	}
	tp, err := e.x.l.Import(x.name[:i])
	if err != nil {
		panic(e.fail(x, "%s: %v", x.name, err))
	}
	if v, ok := tp.Scope().Lookup(x.name[i+1:]).(*types.Var); ok {
		return v
	}
	panic(e.fail(x, "unknown variable %s", x.name))
}

func (e *SEnv) bin(x *SX) Val {
	b := func(t *Term) Val { return specVal(t) }
	switch x.name {
	case "&&":
		l := e.evalBool(x.args[0])
		if l == False {
			return b(False)
		}
		return b(And(l, e.evalBool(x.args[1])))
	case "||":
		return b(Or(e.evalBool(x.args[0]), e.evalBool(x.args[1])))
	case "==>":
		return b(Implies(e.evalBool(x.args[0]), e.evalBool(x.args[1])))
	case "<==>":
		return b(Eq(e.evalBool(x.args[0]), e.evalBool(x.args[1])))
	}
	l, r := e.eval(x.args[0]), e.eval(x.args[1])
	switch x.name {
	case "==", "!=":
		var t *Term
		isNil := func(s *SX) bool { return s.kind == "ident" && s.name == "nil" }
		switch {
		case isNil(x.args[1]):
			t = Eq(l.ts[0], Int(0))
		case isNil(x.args[0]):
			t = Eq(r.ts[0], Int(0))
		default:
			if len(l.ts) != len(r.ts) {
				panic(e.fail(x, "comparison of %v and %v", l.t, r.t))
			}
			var cs []*Term
			for i := range l.ts {
				if l.ts[i].sort != r.ts[i].sort {
					panic(e.fail(x, "comparison of sorts %s and %s", l.ts[i].sort, r.ts[i].sort))
				}
				cs = append(cs, Eq(l.ts[i], r.ts[i]))
			}
			t = And(cs...)
		}
		if x.name == "!=" {
			t = Not(t)
		}
		return b(t)
	}
	if len(l.ts) != 1 || len(r.ts) != 1 {
		panic(e.fail(x, "operator %s on %v and %v", x.name, l.t, r.t))
	}
	p, q := l.ts[0], r.ts[0]
	if p.sort == SStr && x.name == "+" {
		return b(Concat(p, q))
	}
	if p.sort != SInt || q.sort != SInt {
		panic(e.fail(x, "operator %s on %s and %s", x.name, p.sort, q.sort))
	}
	switch x.name {
	case "<":
		return b(Lt(p, q))
	case "<=":
		return b(Le(p, q))
	case ">":
		return b(Gt(p, q))
	case ">=":
		return b(Ge(p, q))
	case "+":
		return b(Add(p, q))
	case "-":
		return b(Sub(p, q))
	case "*":
		return b(Mul(p, q))
	case "/":
		return b(Div(p, q))
	case "%":
		return b(Mod(p, q))
	}
	panic(e.fail(x, "operator %s", x.name))
}

func (e *SEnv) eval(x *SX) Val {
	switch x.kind {
	case "int":
		return specVal(IntB(x.iv))
	case "str":
		return specVal(StrLit(x.name))
	case "ident":
		if v, ok := e.names[x.name]; ok {
			return v
		}
		switch x.name {
		case "true":
			return specVal(True)
		case "false":
			return specVal(False)
		case "nil":
			return specVal(Int(0))
		case "next":
			return specVal(e.st(x).next)
		case "allocs":
			return specVal(e.st(x).allocs)
		case "$i":
			s := e.st(x)
			return specVal(s.loopi[len(s.loopi)-1].i)
		case "$visited":
			s := e.st(x)
			v := s.loopi[len(s.loopi)-1].visited
			if v == nil {
				v = ConstArr(SSet, False)
			}
			return specVal(v)
		}
		if d := e.x.db.defs[x.name]; d != nil && len(d.params) == 0 {
			return e.applyDef(x, d, nil)
		}
		panic(e.fail(x, "unknown name %s", x.name))
	case "bin":
		return e.bin(x)
	case "un":
		v := e.evalInt(x.args[0])
		if x.name == "!" {
			return specVal(Not(v))
		}
		return specVal(Neg(v))
	case "cond":
		c := e.evalBool(x.args[0])
		if c == True {
			return e.eval(x.args[1])
		}
		if c == False {
			return e.eval(x.args[2])
		}
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		if len(a.ts) != len(b.ts) {
			panic(e.fail(x, "branches differ"))
		}
		r := Val{t: a.t}
		for i := range a.ts {
			if a.ts[i].sort != b.ts[i].sort {
				panic(e.fail(x, "branches differ in sort"))
			}
			r.ts = append(r.ts, Ite(c, a.ts[i], b.ts[i]))
		}
		return r
	case "let":
		return e.with(x.name, e.eval(x.args[0])).eval(x.args[1])
	case "old":
		n := *e
		if e.old == nil {
			panic(e.fail(x, "no old state"))
		}
		n.cur = e.old
		return n.eval(x.args[0])
	case "deref":
		v := e.eval(x.args[0])
		if v.t == nil {
			panic(e.fail(x, "pointer expected"))
		}
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			panic(e.fail(x, "pointer expected"))
		}
		return e.st(x).loadCell(p.Elem(), v.one())
	case "sel":
		return e.sel(x)
	case "index":
		v := e.eval(x.args[0])
		i := e.evalInt(x.args[1])
		if v.t != nil {
			if sl, ok := v.t.Underlying().(*types.Slice); ok {
				r := Val{t: sl.Elem()}
				for c := range e.x.flat(sl.Elem()) {
					r.ts = append(r.ts, Select(Select(e.st(x).mem(sl.Elem(), c), v.ts[0]), Add(v.ts[1], i)))
				}
				return r
			}
			if a, ok := v.t.Underlying().(*types.Array); ok {
				r := Val{t: a.Elem()}
				for _, t := range v.ts {
					r.ts = append(r.ts, Select(t, i))
				}
				return r
			}
		}
		a := v.one()
		if !strings.HasPrefix(string(a.sort), "(Array") {
			panic(e.fail(x, "index of %s", a.sort))
		}
		return specVal(Select(a, i))
	case "forall", "exists":
		n := *e
		n.names = make(map[string]Val, len(e.names)+len(x.vars))
		for k, v := range e.names {
			n.names[k] = v
		}
		n.depth++
		var vs []*Term
		for _, v := range x.vars {
			b := BVar(fmt.Sprintf("%s$%d", v.name, n.depth), specSort(v.sort))
			vs = append(vs, b)
			n.names[v.name] = specVal(b)
		}
		body := n.evalBool(x.args[0])
		var pats [][]*Term
		for _, p := range x.pats {
			var ps []*Term
			for _, y := range p {
				ps = append(ps, n.evalInt(y))
			}
			pats = append(pats, ps)
		}
		if x.kind == "exists" {
			return specVal(Not(Forall(vs, pats, Not(body))))
		}
		return specVal(Forall(vs, pats, body))
	case "call":
		return e.call(x)
	}
	panic(e.fail(x, "expression %s", x.kind))
}

func (e *SEnv) sel(x *SX) Val {
	v := e.eval(x.args[0])
	if v.t == nil {
		panic(e.fail(x, "selection .%s from a specification value", x.name))
	}
	part := func(i int) Val { return specVal(v.ts[i]) }
	switch u := v.t.Underlying().(type) {
	case *types.Slice:
		switch x.name {
		case "base":
			return part(0)
		case "off":
			return part(1)
		case "len":
			return part(2)
		case "cap":
			return part(3)
		case "end":
			return specVal(Add(v.ts[1], v.ts[2]))
		case "lim":
			return specVal(Add(v.ts[1], v.ts[3]))
		}
	case *types.Basic:
		if len(v.ts) == 3 {
			switch x.name {
			case "base":
				return part(0)
			case "off":
				return part(1)
			case "len":
				return part(2)
			case "end":
				return specVal(Add(v.ts[1], v.ts[2]))
			}
		}
		if len(v.ts) == 1 && v.ts[0].sort == SStr && x.name == "len" {
			return specVal(App("str.len", SInt, v.ts[0]))
		}
	case *types.Struct:
		i := e.fieldOf(x, v.t, x.name)
		lo, hi := e.x.fieldRange(v.t, i)
		return Val{u.Field(i).Type(), v.ts[lo:hi]}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			i := e.fieldOf(x, u.Elem(), x.name)
			ft := u.Elem().Underlying().(*types.Struct).Field(i).Type()
			return e.st(x).loadCell(ft, Add(v.one(), Int(e.x.fieldAddrOff(u.Elem(), i))))
		}
	case *types.Array:
		if x.name == "len" {
			return specVal(Int(u.Len()))
		}
	}
	panic(e.fail(x, "no .%s in %v", x.name, v.t))
}

func (e *SEnv) applyDef(x *SX, d *SDef, args []Val) Val {
	if len(args) != len(d.params) {
		panic(e.fail(x, "%s takes %d arguments, have %d", d.name, len(d.params), len(args)))
	}
	if d.kind == "macro" {
		n := *e
		n.names = map[string]Val{}
		for i, p := range d.params {
			n.names[p.name] = args[i]
			if p.sort != "Any" && (len(args[i].ts) != 1 || args[i].ts[0].sort != specSort(p.sort)) {
				panic(e.fail(x, "argument %s of %s: sort %s expected", p.name, d.name, p.sort))
			}
		}
		n.head = nil
		return n.eval(d.body)
	}
	var ts []*Term
	for i, p := range d.params {
		if len(args[i].ts) != 1 || args[i].ts[0].sort != specSort(p.sort) {
			panic(e.fail(x, "argument %s of %s: sort %s expected", p.name, d.name, p.sort))
		}
		ts = append(ts, args[i].ts[0])
	}
	if d.kind == "rec" && d.sort == "Str" && d.dec != nil {
		// a known number of steps: the text itself
		n := &SEnv{x: e.x, names: map[string]Val{}, depth: e.depth}
		for i, p := range d.params {
			n.names[p.name] = args[i]
		}
		if m := n.eval(d.dec).one(); m.op == "int" && (m.iv.Sign() <= 0 || m.iv.IsInt64() && m.iv.Int64() <= 24) {
			return n.eval(d.body)
		}
	}
	return specVal(App(d.name, specSort(d.sort), ts...))
}

// defBody is the definition's right-hand side for the given arguments.
func (e *SEnv) defBody(d *SDef, args []*Term) *Term {
	n := &SEnv{x: e.x, names: map[string]Val{}, depth: e.depth}
	for i, p := range d.params {
		n.names[p.name] = specVal(args[i])
	}
	return n.eval(d.body).one()
}

func (e *SEnv) call(x *SX) Val {
	if d := e.x.db.defs[x.name]; d != nil {
		var args []Val
		for _, a := range x.args {
			args = append(args, e.eval(a))
		}
		return e.applyDef(x, d, args)
	}
	need := func(n int) {
		if len(x.args) != n {
			panic(e.fail(x, "%s takes %d arguments", x.name, n))
		}
	}
	arg := func(i int) Val { return e.eval(x.args[i]) }
	targ := func(i int) *Term { return e.evalInt(x.args[i]) }
	switch x.name {
	case "head":
		need(1)
		h := e.head
		if h == nil {
			return e.eval(x.args[0])
		}
		n := *h
		n.names = map[string]Val{}
		for k, v := range e.names {
			n.names[k] = v
		}
		for k, v := range h.names {
			n.names[k] = v
		}
		n.depth = e.depth
		return n.eval(x.args[0])
	case "atloop":
		need(1)
		n := *e
		if e.loop != nil {
			n.cur = e.loop
		}
		return n.eval(x.args[0])
	case "arr":
		v := arg(0)
		if v.t == nil {
			return v
		}
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			return specVal(Select(e.st(x).mem(u.Elem(), 0), v.ts[0]))
		case *types.Array:
			return specVal(v.ts[0])
		case *types.Basic:
			return specVal(Select(e.st(x).mem(tByte, 0), v.ts[0]))
		}
		panic(e.fail(x, "arr of %v", v.t))
	case "addr":
		need(1)
		a, t := e.addrOf(x.args[0])
		return Val{types.NewPointer(t), []*Term{a}}
	case "slice": // slice(p.f): the slice p.f[:] of an array in memory
		need(1)
		a, t := e.addrOf(x.args[0])
		u, ok := t.Underlying().(*types.Array)
		if !ok {
			panic(e.fail(x, "slice of %v", t))
		}
		return Val{types.NewSlice(u.Elem()), []*Term{a, Int(0), Int(u.Len()), Int(u.Len())}}
	case "mk": // mk("pkg.Type", v...): a struct of that type; the values are matched with its fields by type
		t := e.x.l.namedType(x.args[0].name)
		if t == nil {
			panic(e.fail(x, "unknown type %s", x.args[0].name))
		}
		st := t.Underlying().(*types.Struct)
		r := Val{t: t}
		used := 0
		for i := 0; i < st.NumFields(); i++ {
			hit := -1
			for j := 1; j < len(x.args); j++ {
				if v := arg(j); v.t != nil && types.Identical(v.t, st.Field(i).Type()) {
					hit = j
				}
			}
			if hit < 0 {
				panic(e.fail(x, "no value for field %s", st.Field(i).Name()))
			}
			used++
			r.ts = append(r.ts, arg(hit).ts...)
		}
		if used != len(x.args)-1 {
			panic(e.fail(x, "%d values for %d fields", len(x.args)-1, used))
		}
		return r
	case "comp": // comp(v, i): i-th component memory of a slice's elements
		v := arg(0)
		u := v.t.Underlying().(*types.Slice)
		return specVal(Select(e.st(x).mem(u.Elem(), int(x.args[1].iv.Int64())), v.ts[0]))
	case "part": // part(v, i): i-th scalar of a value
		v := arg(0)
		return specVal(v.ts[int(x.args[1].iv.Int64())])
	case "mem8":
		return specVal(e.st(x).mem(tByte, 0))
	case "dom":
		v := arg(0)
		m, ok := v.t.Underlying().(*types.Map)
		if !ok {
			panic(e.fail(x, "dom of %v", v.t))
		}
		return specVal(e.st(x).mapDom(m, v.one()))
	case "mval":
		v := arg(0)
		m, ok := v.t.Underlying().(*types.Map)
		if !ok {
			panic(e.fail(x, "mval of %v", v.t))
		}
		return specVal(e.st(x).mapVal(m, 0, v.one()))
	case "store":
		need(3)
		return specVal(Store(targ(0), targ(1), targ(2)))
	case "emptyset":
		return specVal(ConstArr(SSet, False))
	case "emptystrset":
		return specVal(ConstArr(SSSet, False))
	case "eqb":
		need(5)
		return specVal(Eqb(targ(0), targ(1), targ(2), targ(3), targ(4)))
	case "strof":
		need(3)
		return specVal(App("strof", SStr, targ(0), targ(1), targ(2)))
	case "itoa":
		need(1)
		return specVal(App("itoa", SStr, targ(0)))
	case "strlen":
		return specVal(App("str.len", SInt, targ(0)))
	case "substr":
		return specVal(App("str.substr", SStr, targ(0), targ(1), targ(2)))
	case "prefixof":
		return specVal(App("str.prefixof", SBool, targ(0), targ(1)))
	case "suffixof":
		return specVal(App("str.suffixof", SBool, targ(0), targ(1)))
	case "ghost":
		need(1)
		n := x.args[0].name
		return specVal(e.st(x).hp("g:"+n, e.x.ghostSort(n)))
	case "typeof":
		return specVal(e.x.ityp(targ(0)))
	case "tcode":
		t := e.typeNamed(x.args[0])
		c := e.x.typeCode(t)
		e.x.sp.codeType[c.iv.Int64()] = t
		return specVal(c)
	case "box": // box(v, "T"): the interface value made from v of type T
		need(2)
		t := e.typeNamed(x.args[1])
		name := "box$" + tname(t)
		c := e.x.typeCode(t)
		e.x.sp.codeType[c.iv.Int64()] = t
		boxes.Store(name, &boxInfo{c.iv.Int64(), tname(t)})
		have := false
		for _, a := range axioms {
			have = have || a.name == "box "+name
		}
		if !have {
			var vs []*Term
			for i, c := range e.x.flat(t) {
				vs = append(vs, BVar("b"+itoa(i), c.sort))
			}
			h := mk(&Term{op: "app", name: name, args: vs, sort: SInt})
			facts := []*Term{Lt(Int(0), h), Eq(mk(&Term{op: "app", name: "ityp", args: []*Term{h}, sort: SInt}), c)}
			for i, cp := range e.x.flat(t) {
				facts = append(facts, Eq(mk(&Term{op: "app", name: "unbox$" + tname(t) + cp.suf, args: []*Term{h}, sort: cp.sort}), vs[i]))
			}
			axioms = append(axioms, &Axiom{name: "box " + name, t: Forall(vs, [][]*Term{{h}}, And(facts...)), syms: map[string]bool{name: true}, kind: "def"})
		}
		return specVal(App(name, SInt, arg(0).ts...))
	case "global": // global("pkg.Var"): a package-level variable
		need(1)
		return e.x.globalVar(e.st(x), e.varNamed(x.args[0]))
	case "ptr": // ptr(a, "T"): the address a as a pointer to T
		need(2)
		return Val{types.NewPointer(e.typeNamed(x.args[1])), []*Term{targ(0)}}
	case "contains":
		return specVal(App("str.contains", SBool, targ(0), targ(1)))
	case "unboxas": // unboxas(h, "T"): the value of type T in the interface value h
		need(2)
		t := e.typeNamed(x.args[1])
		v := Val{t: t}
		h := targ(0)
		for i := range e.x.flat(t) {
			v.ts = append(v.ts, e.x.unboxPart(h, t, i))
		}
		return v
	}
	panic(e.fail(x, "unknown function %s", x.name))
}

// ---- proving clauses ----

type meta struct {
	kind, name string
	tags       []string
	cand       string
	sks        []*Term  // symbols introduced for bound variables
	heads      []string // the functions in the patterns of their quantifiers
}

func (x *Exec) proveClause(s *State, kind, name string, sx *SX, ev *SEnv, tags []string, cand string, using []*SStmt) {
	x.proveClauseAt(s, kind, name, sx, ev, tags, cand, using, nil)
}

func (x *Exec) proveClauseAt(s *State, kind, name string, sx *SX, ev *SEnv, tags []string, cand string, using []*SStmt, head *SEnv) {
	if x.dry > 0 || s.dead {
		return
	}
	m := meta{kind: kind, name: name, tags: tags, cand: cand}
	h := *ev
	h.cur = s
	if ev.cur != nil && ev.cur != s {
		h.cur = ev.cur
	}
	h.head = head
	n := 0
	x.split(s.clone(), sx, ev, &h, using, m, &n)
}

// instantiate adds the instances, for the symbols sks, of the universal facts
// on the path that have a pattern with one of the functions heads.
func (s *State) instantiate(sks []*Term, heads []string) {
	var fs []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		switch {
		case t.op == "and":
			for _, a := range t.args {
				visit(a)
			}
		case t.op == "=>":
			// a fact whose condition the path has since settled
			if v, k := s.decide(t.args[0]); k && v {
				visit(t.args[1])
			}
		case t.op == "forall" && len(t.args) == 2:
			for _, p := range t.pats {
				for _, h := range heads {
					if len(p) == 1 && p[0].op == "app" && p[0].name == h {
						fs = append(fs, t)
						return
					}
				}
			}
		}
	}
	for n := s.pc; n != nil; n = n.prev {
		visit(n.t)
	}
	for _, f := range fs {
		for _, sk := range sks {
			if f.args[0].sort == sk.sort {
				s.assume(Subst(f.args[1], map[*Term]*Term{f.args[0]: sk}))
			}
		}
	}
}

// split proves sx, evaluated in ev; h is the environment of the hints.
func (x *Exec) split(s *State, sx *SX, ev, h *SEnv, using []*SStmt, m meta, n *int) {
	if s.dead {
		return
	}
	switch sx.kind {
	case "bin":
		switch sx.name {
		case "&&":
			x.split(s.clone(), sx.args[0], ev, h, using, m, n)
			x.split(s, sx.args[1], ev, h, using, m, n)
			return
		case "==>":
			p := ev.evalBool(sx.args[0])
			if simplify {
				for _, sk := range m.sks {
					noteObject(p, sk)
				}
			}
			s.assume(p)
			if simplify {
				s.instantiate(m.sks, m.heads)
			}
			x.split(s, sx.args[1], ev, h, using, m, n)
			return
		case "<==>":
			a, b := ev.evalBool(sx.args[0]), ev.evalBool(sx.args[1])
			if a == b {
				return
			}
			s2 := s.clone()
			s.assume(a)
			x.split(s, sx.args[1], ev, h, using, m, n)
			s2.assume(b)
			x.split(s2, sx.args[0], ev, h, using, m, n)
			return
		}
	case "forall":
		for _, v := range sx.vars {
			c := specVal(Fresh("sk."+v.name, specSort(v.sort)))
			m.sks = append(m.sks[:len(m.sks):len(m.sks)], c.one())
			ev = ev.with(v.name, c)
			h = h.with(v.name, c)
			if h.head != nil {
				h.head = h.head.with(v.name, c)
			}
		}
		if simplify {
			// the terms that hypotheses of the same form are instantiated for
			for _, pt := range sx.pats {
				for _, p := range pt {
					if t := ev.eval(p); len(t.ts) == 1 && (t.ts[0].sort == SInt || t.ts[0].sort == SStr) {
						s.assume(Eq(Fresh("pat", t.ts[0].sort), t.ts[0]))
						if t.ts[0].op == "app" {
							m.heads = append(m.heads[:len(m.heads):len(m.heads)], t.ts[0].name)
						}
					}
				}
			}
		}
		x.split(s, sx.args[0], ev, h, using, m, n)
		return
	case "let":
		v := ev.eval(sx.args[0])
		x.split(s, sx.args[1], ev.with(sx.name, v), h.with(sx.name, v), using, m, n)
		return
	case "cond":
		c := ev.evalBool(sx.args[0])
		s2 := s.clone()
		s.assume(c)
		x.split(s, sx.args[1], ev, h, using, m, n)
		s2.assume(Not(c))
		x.split(s2, sx.args[2], ev, h, using, m, n)
		return
	case "call":
		if d := x.db.defs[sx.name]; d != nil && d.kind == "macro" && d.sort == "Bool" {
			e2 := *ev
			e2.names = map[string]Val{}
			for i, p := range d.params {
				e2.names[p.name] = ev.eval(sx.args[i])
			}
			x.split(s, d.body, &e2, h, using, m, n)
			return
		}
	}
	goal := ev.evalBool(sx)
	if v, k := s.decide(goal); k && v {
		x.leaf(s, goal, m, n)
		return
	}
	if len(using) == 0 {
		x.leaf(s, goal, m, n)
		return
	}
	x.hints(s, using, h, m, func(s *State, _ *SEnv) { x.leaf(s, goal, m, n) })
}

func (x *Exec) leaf(s *State, goal *Term, m meta, n *int) {
	*n++
	name := m.name
	if *n > 1 {
		name += fmt.Sprintf(" (part %d)", *n)
	}
	x.obligeT(s, m.kind, name, goal, m.tags, m.cand)
}

// ---- hints ----

func (x *Exec) hints(s *State, list []*SStmt, e *SEnv, m meta, k func(*State, *SEnv)) {
	if s.dead {
		return
	}
	if len(list) == 0 {
		k(s, e)
		return
	}
	st := list[0]
	rest := list[1:]
	switch st.kind {
	case "use", "unfold", "reveal", "forall":
		s.assume(x.hintFact(st, e))
		x.hints(s, rest, e, m, k)
	case "let":
		x.hints(s, rest, e.with(st.name, e.eval(st.x)), m, k)
	case "assert":
		nm := m
		nm.kind = "hint"
		if m.cand != "" {
			nm.kind = m.kind
		}
		nm.name = m.name + ": assertion " + st.name + " (" + short(st.pos, 60) + ")"
		n := 0
		x.split(s.clone(), st.x, e, e, st.body, nm, &n)
		s.assume(e.evalBool(st.x))
		x.hints(s, rest, e, m, k)
	case "if":
		c := e.evalBool(st.x)
		after := func(s *State, _ *SEnv) { x.hints(s, rest, e, m, k) }
		if v, known := s.decide(c); known {
			if v {
				x.hints(s, st.body, e, m, after)
			} else {
				x.hints(s, st.els, e, m, after)
			}
			return
		}
		s2 := s.clone()
		s.assume(c)
		x.hints(s, st.body, e, m, after)
		s2.assume(Not(c))
		x.hints(s2, st.els, e, m, after)
	default:
		panic(unsup("%s: hint %s", st.pos, st.kind))
	}
}

// hintFact is a fact that holds by a lemma or a definition.
func (x *Exec) hintFact(st *SStmt, e *SEnv) *Term {
	switch st.kind {
	case "use":
		l := x.db.lemmas[st.name]
		if l == nil {
			panic(unsup("%s: unknown lemma %s", st.pos, st.name))
		}
		var args []Val
		for _, a := range st.args {
			args = append(args, e.eval(a))
		}
		return x.lemmaFact(l, args, e, st.pos)
	case "unfold":
		d := x.db.defs[st.name]
		if d == nil || d.kind != "opaque" && d.kind != "rec" {
			panic(unsup("%s: unfold of %s", st.pos, st.name))
		}
		var ts []*Term
		for _, a := range st.args {
			ts = append(ts, e.evalInt(a))
		}
		if len(ts) != len(d.params) {
			panic(unsup("%s: unfold %s: %d arguments", st.pos, st.name, len(ts)))
		}
		for i, p := range d.params {
			if ts[i].sort != specSort(p.sort) {
				panic(unsup("%s: unfold %s: argument %s", st.pos, st.name, p.name))
			}
		}
		return Eq(App(d.name, specSort(d.sort), ts...), e.defBody(d, ts))
	case "reveal":
		d := x.db.defs[st.name]
		if d == nil || d.kind != "opaque" && d.kind != "rec" {
			panic(unsup("%s: reveal of %s", st.pos, st.name))
		}
		var vs []*Term
		for _, p := range d.params {
			vs = append(vs, BVar(p.name+"$r", specSort(p.sort)))
		}
		f := App(d.name, specSort(d.sort), vs...)
		return Forall(vs, [][]*Term{{f}}, Eq(f, e.defBody(d, vs)))
	case "forall":
		n := *e
		n.names = map[string]Val{}
		for k, v := range e.names {
			n.names[k] = v
		}
		n.depth++
		var vs []*Term
		for _, v := range st.vars {
			b := BVar(fmt.Sprintf("%s$h%d", v.name, n.depth), specSort(v.sort))
			vs = append(vs, b)
			n.names[v.name] = specVal(b)
		}
		var pats []*Term
		for _, p := range st.args {
			pats = append(pats, n.evalInt(p))
		}
		en := &n
		var facts []*Term
		for _, b := range st.body {
			if b.kind == "let" {
				en = en.with(b.name, en.eval(b.x))
				continue
			}
			facts = append(facts, x.hintFact(b, en))
		}
		return Forall(vs, [][]*Term{pats}, And(facts...))
	}
	panic(unsup("%s: hint %s inside forall", st.pos, st.kind))
}

func (x *Exec) lemmaFact(l *SLemma, args []Val, e *SEnv, pos string) *Term {
	if len(args) != len(l.params) {
		panic(unsup("%s: lemma %s takes %d arguments, have %d", pos, l.name, len(l.params), len(args)))
	}
	n := &SEnv{x: x, names: map[string]Val{}, depth: e.depth}
	for i, p := range l.params {
		if len(args[i].ts) != 1 || args[i].ts[0].sort != specSort(p.sort) {
			panic(unsup("%s: lemma %s: argument %s has another sort", pos, l.name, p.name))
		}
		n.names[p.name] = specVal(args[i].ts[0])
	}
	var pre, post []*Term
	for _, r := range l.requires {
		pre = append(pre, n.evalBool(r.x))
	}
	for _, c := range l.ensures {
		post = append(post, n.evalBool(c.x))
	}
	x.usedLemmas[l.name] = true
	if x.lemma == l {
		if l.dec == nil {
			panic(unsup("%s: lemma %s uses itself without a decreasing measure", pos, l.name))
		}
		me := &SEnv{x: x, names: x.env0}
		d0, d1 := me.eval(l.dec).one(), n.eval(l.dec).one()
		pre = append(pre, Le(Int(0), d0), Lt(d1, d0))
	} else if l.order >= x.maxOrder {
		panic(unsup("%s: lemma %s is used before it is proved", pos, l.name))
	}
	return Implies(And(pre...), And(post...))
}

// addAuto registers the automatic lemmas that come before the given one.
func (x *Exec) addAuto() {
	for _, l := range x.db.lemOrder {
		if len(l.auto) == 0 || l.order >= x.maxOrder {
			continue
		}
		n := &SEnv{x: x, names: map[string]Val{}, depth: 50}
		var vs []*Term
		for _, p := range l.params {
			b := BVar(p.name+"$l", specSort(p.sort))
			vs = append(vs, b)
			n.names[p.name] = specVal(b)
		}
		var pre, post []*Term
		for _, r := range l.requires {
			pre = append(pre, n.evalBool(r.x))
		}
		for _, c := range l.ensures {
			post = append(post, n.evalBool(c.x))
		}
		var pats [][]*Term
		syms := map[string]bool{}
		for _, p := range l.auto {
			var ps []*Term
			for _, y := range p {
				t := n.evalInt(y)
				appSyms(t, syms, map[int]bool{})
				ps = append(ps, t)
			}
			pats = append(pats, ps)
		}
		axioms = append(axioms, &Axiom{name: "lemma " + l.name, t: Forall(vs, pats, Implies(And(pre...), And(post...))), syms: syms, order: l.order, kind: "lemma"})
	}
}

func sortedSet(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
