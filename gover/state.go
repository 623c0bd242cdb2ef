package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
	"sync"
)

// Val is a Go value flattened into scalar terms (or, with t == nil, a pure
// specification value of one term).
type Val struct {
	t  types.Type
	ts []*Term
}

func specVal(t *Term) Val { return Val{nil, []*Term{t}} }

func (v Val) one() *Term {
	if len(v.ts) != 1 {
		panic(unsup("scalar expected, have %d components of %v", len(v.ts), v.t))
	}
	return v.ts[0]
}

// Comp is one scalar component of a flattened Go type.
type Comp struct {
	suf    string
	sort   Sort
	lo, hi *big.Int
	kind   string // int bool str ptr map iface base off len cap arr
	typ    types.Type
}

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) Unsupported { return Unsupported{fmt.Sprintf(f, a...)} }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(one, n) }

const objStride = 4096

var maxMem = pow2(50)

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type State struct {
	x      *Exec
	env    map[*types.Var]Val
	box    map[*types.Var]*Term
	heap   map[string]*Term
	next   *Term
	allocs *Term
	pc     *pcNode
	bnd    map[int]ival
	dead   bool
	loopi  []loopCtx // enclosing loops, innermost last
	ghost  map[string]Val
	rw     *rwNode
}

// rwNode: what a memory read is known to give (an equation on the path).
type rwNode struct {
	read, val *Term
	prev      *rwNode
}

func (s *State) known(read *Term) *Term {
	for n := s.rw; n != nil; n = n.prev {
		if n.read == read {
			return n.val
		}
	}
	return read
}

type loopCtx struct {
	i       *Term // completed iterations / hidden index (may be nil)
	visited *Term // visited set of a map range (may be nil)
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[*types.Var]Val, len(s.env)+4)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.box = make(map[*types.Var]*Term, len(s.box))
	for k, v := range s.box {
		n.box[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.bnd = make(map[int]ival, len(s.bnd)+4)
	for k, v := range s.bnd {
		n.bnd[k] = v
	}
	n.loopi = append([]loopCtx{}, s.loopi...)
	n.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (s *State) has(t *Term) bool {
	for n := s.pc; n != nil; n = n.prev {
		if n.t == t {
			return true
		}
	}
	return false
}

// decide tries to settle a condition from the path condition without a solver.
func (s *State) decide(c *Term) (val, known bool) {
	if c == True {
		return true, true
	}
	if c == False {
		return false, true
	}
	if s.has(c) {
		return true, true
	}
	if s.has(Not(c)) {
		return false, true
	}
	switch c.op {
	case "<=":
		d := Sub(c.args[1], c.args[0])
		if r, ok := intervalIn(d, s.bnd); ok {
			if r.lo != nil && r.lo.Sign() >= 0 {
				return true, true
			}
			if r.hi != nil && r.hi.Sign() < 0 {
				return false, true
			}
		}
	case "=":
		if c.args[0].sort == SInt {
			d := Sub(c.args[0], c.args[1])
			if r, ok := intervalIn(d, s.bnd); ok {
				if r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
					return false, true
				}
				if r.lo != nil && r.hi != nil && r.lo.Sign() == 0 && r.hi.Sign() == 0 {
					return true, true
				}
			}
		}
	case "not":
		v, k := s.decide(c.args[0])
		return !v, k
	case "and":
		all := true
		for _, a := range c.args {
			v, k := s.decide(a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "or":
		all := true
		for _, a := range c.args {
			v, k := s.decide(a)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (s *State) assume(t *Term) {
	if t == True || t.bound {
		return
	}
	if t == False {
		s.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.has(t) {
		return
	}
	if simplify && t.op == "=>" {
		if v, k := s.decide(t.args[0]); k {
			if v {
				s.assume(t.args[1])
			}
			return
		}
	}
	if v, k := s.decide(t); k {
		if !v {
			s.dead = true
		}
		// still record it: the solver does not see our intervals otherwise
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &pcNode{t, s.pc, n + 1}
	s.learn(t)
}

func (s *State) learn(t *Term) {
	switch t.op {
	case "<=":
		d := Sub(t.args[1], t.args[0]) // d >= 0
		s.learnGe0(d)
	case "=":
		if simplify {
			for i := range t.args {
				if a, b := t.args[i], t.args[1-i]; a.op == "select" && (boxOf(b) != nil || b.op == "int" || b.op == "str") {
					s.rw = &rwNode{a, b, s.rw}
				}
			}
		}
		if t.args[0].sort == SInt {
			d := Sub(t.args[0], t.args[1])
			s.learnGe0(d)
			s.learnGe0(Neg(d))
		}
	case "not":
		// x != bound: tighten
		e := t.args[0]
		if e.op == "=" && e.args[0].sort == SInt {
			d := Sub(e.args[0], e.args[1])
			var atom *Term
			var k, c *big.Int
			if d.op == "lin" && len(d.args) == 1 {
				atom, k, c = d.args[0], d.coef[0], d.iv
			} else if d.op != "int" && d.op != "lin" {
				atom, k, c = d, one, new(big.Int)
			} else {
				return
			}
			// k*atom + c != 0
			q, r := euclid(new(big.Int).Neg(c), new(big.Int).Abs(k))
			if r.Sign() != 0 {
				return
			}
			if k.Sign() < 0 {
				q = new(big.Int).Neg(q)
			}
			iv, _ := intervalIn(atom, s.bnd)
			if iv.lo != nil && iv.lo.Cmp(q) == 0 {
				s.bnd[atom.id] = isect(s.bnd[atom.id], ival{new(big.Int).Add(q, one), nil})
			}
			if iv.hi != nil && iv.hi.Cmp(q) == 0 {
				s.bnd[atom.id] = isect(s.bnd[atom.id], ival{nil, new(big.Int).Sub(q, one)})
			}
		}
	}
}

func (s *State) learnGe0(d *Term) {
	var atom *Term
	var k, c *big.Int
	switch {
	case d.op == "int":
		return
	case d.op == "lin" && len(d.args) == 1:
		atom, k, c = d.args[0], d.coef[0], d.iv
	case d.op == "lin":
		return
	default:
		atom, k, c = d, one, new(big.Int)
	}
	// k*atom + c >= 0
	nc := new(big.Int).Neg(c)
	if k.Sign() > 0 { // atom >= ceil(-c/k)
		q, r := euclid(nc, k)
		if r.Sign() != 0 {
			q.Add(q, one)
		}
		s.bnd[atom.id] = isect(s.bnd[atom.id], ival{q, nil})
	} else { // atom <= floor(c/|k|)
		q, _ := euclid(c, new(big.Int).Abs(k))
		s.bnd[atom.id] = isect(s.bnd[atom.id], ival{nil, q})
	}
}

func (s *State) hyps() []*Term {
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	out := make([]*Term, n)
	for p := s.pc; p != nil; p = p.prev {
		n--
		out[n] = p.t
	}
	return out
}

// ---- flattening of types ----

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	u := func(n uint) (*big.Int, *big.Int, bool) { return new(big.Int), new(big.Int).Sub(pow2(n), one), true }
	i := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), one), true
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return i(64)
	case types.Int32, types.UntypedRune:
		return i(32)
	case types.Int16:
		return i(16)
	case types.Int8:
		return i(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	case types.Float32:
		return u(32)
	case types.Float64:
		return u(64)
	case types.UntypedInt:
		return nil, nil, true
	}
	return nil, nil, false
}

func (x *Exec) flat(t types.Type) []Comp {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Comp{{"", SBool, nil, nil, "bool", t}}
		case u.Info()&types.IsString != 0:
			if x.strMode {
				return []Comp{{"", SStr, nil, nil, "str", t}}
			}
			return []Comp{
				{".base", SInt, new(big.Int), nil, "base", t},
				{".off", SInt, new(big.Int), maxMem, "off", t},
				{".len", SInt, new(big.Int), maxMem, "len", t},
			}
		case u.Kind() == types.UnsafePointer:
			return []Comp{{"", SInt, new(big.Int), nil, "ptr", t}}
		case u.Kind() == types.UntypedNil:
			return []Comp{{"", SInt, new(big.Int), new(big.Int), "ptr", t}}
		}
		if lo, hi, ok := intRange(u); ok {
			return []Comp{{"", SInt, lo, hi, "int", t}}
		}
	case *types.Pointer:
		return []Comp{{"", SInt, new(big.Int), nil, "ptr", t}}
	case *types.Map, *types.Chan:
		return []Comp{{"", SInt, new(big.Int), nil, "map", t}}
	case *types.Interface, *types.Signature:
		return []Comp{{"", SInt, new(big.Int), nil, "iface", t}}
	case *types.Slice:
		return []Comp{
			{".base", SInt, new(big.Int), nil, "base", t},
			{".off", SInt, new(big.Int), maxMem, "off", t},
			{".len", SInt, new(big.Int), maxMem, "len", t},
			{".cap", SInt, new(big.Int), maxMem, "cap", t},
		}
	case *types.Array:
		var out []Comp
		for _, c := range x.flat(u.Elem()) {
			out = append(out, Comp{c.suf + "[]", arrOf(c.sort), nil, nil, "arr", t})
		}
		return out
	case *types.Struct:
		var out []Comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range x.flat(f.Type()) {
				c.suf = "." + f.Name() + c.suf
				out = append(out, c)
			}
		}
		return out
	}
	panic(unsup("type %v", t))
}

// fieldRange gives the component range of field i of struct type t.
func (x *Exec) fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	n := 0
	for j := 0; j < i; j++ {
		n += len(x.flat(st.Field(j).Type()))
	}
	return n, n + len(x.flat(st.Field(i).Type()))
}

// cellSize is the number of addresses a value of type t takes.
func (x *Exec) cellSize(t types.Type) int64 {
	if s, ok := t.Underlying().(*types.Struct); ok {
		var n int64
		for i := 0; i < s.NumFields(); i++ {
			n += x.cellSize(s.Field(i).Type())
		}
		if n == 0 {
			n = 1
		}
		return n
	}
	return 1
}

func (x *Exec) fieldAddrOff(t types.Type, i int) int64 {
	st := t.Underlying().(*types.Struct)
	var n int64
	for j := 0; j < i; j++ {
		n += x.cellSize(st.Field(j).Type())
	}
	return n
}

func qual(p *types.Package) string { return pkgLabel(p) }

func typeName(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return "uint8"
		}
		return u.Name()
	case *types.Struct:
		return types.TypeString(t, qual)
	case *types.Slice:
		return "[]" + typeName(u.Elem())
	case *types.Pointer:
		return "*" // all pointers are addresses
	case *types.Map:
		return "map[" + typeName(u.Key()) + "]" + typeName(u.Elem())
	case *types.Interface:
		return "iface"
	}
	return types.TypeString(t.Underlying(), qual)
}

func (x *Exec) zero(t types.Type) Val {
	v := Val{t: t}
	for _, c := range x.flat(t) {
		v.ts = append(v.ts, zeroTerm(c.sort))
	}
	return v
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return StrLit("")
	}
	return ConstArr(s, zeroTerm(elemSort(s)))
}

func setBound(t *Term, lo, hi *big.Int) {
	if t.op == "int" || lo == nil && hi == nil || t.sort != SInt {
		return
	}
	if t.op == "lin" || t.op == "ite" {
		return
	}
	atomBounds[t.id] = isect(atomBounds[t.id], ival{lo, hi})
}

func (s *State) belowMark(t *Term) {
	m := markOf(t)
	if m == nil {
		m = s.next
	}
	s.assume(Le(Add(t, Int(64)), m))
	if ptrBelow[t.id] == nil {
		ptrBelow[t.id] = m
	}
}

// wf adds the facts every well-formed value of its type satisfies.
func (s *State) wf(v Val) Val {
	if v.t == nil {
		return v
	}
	cs := s.x.flat(v.t)
	for i, c := range cs {
		t := v.ts[i]
		if c.sort == SInt {
			setBound(t, c.lo, c.hi)
			if t.op == "lin" || t.op == "ite" {
				if c.lo != nil {
					s.assume(Le(IntB(c.lo), t))
				}
				if c.hi != nil {
					s.assume(Le(t, IntB(c.hi)))
				}
			}
		}
		switch c.kind {
		case "ptr", "map", "iface":
			s.assume(Le(Int(0), t))
			if t.op != "int" && c.kind != "iface" {
				s.belowMark(t)
			}
		case "base":
			s.assume(Le(Int(0), t))
			if t.op != "int" {
				s.belowMark(t)
			}
			off, ln := v.ts[i+1], v.ts[i+2]
			if i+3 < len(cs) && cs[i+3].kind == "cap" {
				cp := v.ts[i+3]
				s.assume(Le(ln, cp))
				s.assume(Le(Add(off, cp), IntB(maxMem)))
				s.assume(Implies(Eq(t, Int(0)), And(Eq(cp, Int(0)), Eq(off, Int(0)), Eq(ln, Int(0)))))
			} else {
				s.assume(Le(Add(off, ln), IntB(maxMem)))
				s.assume(Implies(Eq(t, Int(0)), And(Eq(off, Int(0)), Eq(ln, Int(0)))))
			}
		}
	}
	return v
}

func (s *State) fresh(name string, t types.Type) Val {
	v := Val{t: t}
	for _, c := range s.x.flat(t) {
		v.ts = append(v.ts, Fresh(name+c.suf, c.sort))
	}
	return s.wf(v)
}

// ---- heap ----

func (s *State) hp(name string, sort Sort) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	return s.x.entryHeap(name, sort)
}

func (x *Exec) entryHeap(name string, sort Sort) *Term {
	if t, ok := x.entry[name]; ok {
		return t
	}
	t := Const(sanitize(name)+"@0", sort)
	x.entry[name] = t
	heapMark[t.id] = Const("next@0", SInt)
	x.heapSort[name] = sort
	return t
}

func (s *State) setHp(name string, t *Term) {
	s.x.heapSort[name] = t.sort
	s.x.entryHeap(name, t.sort)
	s.heap[name] = t
	s.x.writes[name] = true
}

// heapRanges holds the type ranges of the values stored in each heap component.
var heapRanges sync.Map // string -> ival

func leafRange(name string, c Comp) string {
	if c.sort == SInt && (c.lo != nil || c.hi != nil) {
		heapRanges.Store(sanitize(name), ival{c.lo, c.hi})
	}
	return name
}

func memName(elem types.Type, c Comp) string { return leafRange("m:"+typeName(elem)+c.suf, c) }
func cellName(t types.Type, c Comp) string   { return leafRange("c:"+typeName(t)+c.suf, c) }
func domName(m *types.Map) string            { return "d:" + typeName(m) }
func mvalName(m *types.Map, c Comp) string   { return leafRange("v:"+typeName(m)+c.suf, c) }
func keySort(x *Exec, m *types.Map) Sort {
	cs := x.flat(m.Key())
	if len(cs) != 1 {
		panic(unsup("map key type %v", m.Key()))
	}
	return cs[0].sort
}

func mapSort(key, val Sort) Sort {
	if key == SInt {
		return arrOf(val)
	}
	if key == SStr && val == SBool {
		return SSSet
	}
	panic(unsup("map sorts %s -> %s", key, val))
}

// memory of elements: base -> offset -> value
func (s *State) mem(elem types.Type, i int) *Term {
	c := s.x.flat(elem)[i]
	return s.hp(memName(elem, c), arrOf(arrOf(c.sort)))
}

func (s *State) readMem(elem types.Type, base, idx *Term) Val {
	v := Val{t: elem}
	for i := range s.x.flat(elem) {
		v.ts = append(v.ts, Select(Select(s.mem(elem, i), base), idx))
	}
	return s.wf(v)
}

func (s *State) writeMem(elem types.Type, base, idx *Term, v Val) {
	for i, c := range s.x.flat(elem) {
		m := s.mem(elem, i)
		s.setHp(memName(elem, c), Store(m, base, Store(Select(m, base), idx, v.ts[i])))
	}
}

func (s *State) loadCell(t types.Type, addr *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := Val{t: t}
		for i := 0; i < u.NumFields(); i++ {
			f := s.loadCell(u.Field(i).Type(), Add(addr, Int(s.x.fieldAddrOff(t, i))))
			v.ts = append(v.ts, f.ts...)
		}
		return v
	case *types.Array:
		v := Val{t: t}
		for i := range s.x.flat(u.Elem()) {
			v.ts = append(v.ts, Select(s.mem(u.Elem(), i), addr))
		}
		return v
	}
	v := Val{t: t}
	for _, c := range s.x.flat(t) {
		v.ts = append(v.ts, s.known(Select(s.hp(cellName(t, c), arrOf(c.sort)), addr)))
	}
	return s.wf(v)
}

func (s *State) storeCell(t types.Type, addr *Term, v Val) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			k := len(s.x.flat(ft))
			s.storeCell(ft, Add(addr, Int(s.x.fieldAddrOff(t, i))), Val{ft, v.ts[n : n+k]})
			n += k
		}
		return
	case *types.Array:
		for i, c := range s.x.flat(u.Elem()) {
			s.setHp(memName(u.Elem(), c), Store(s.mem(u.Elem(), i), addr, v.ts[i]))
		}
		return
	}
	for i, c := range s.x.flat(t) {
		n := cellName(t, c)
		s.setHp(n, Store(s.hp(n, arrOf(c.sort)), addr, v.ts[i]))
	}
}

func (s *State) alloc() *Term {
	r := s.next
	s.next = Add(s.next, Int(objStride))
	return r
}

func (s *State) mapDom(m *types.Map, ref *Term) *Term {
	return Select(s.hp(domName(m), arrOf(mapSort(keySort(s.x, m), SBool))), ref)
}

func (s *State) setMapDom(m *types.Map, ref, d *Term) {
	n := domName(m)
	s.setHp(n, Store(s.hp(n, arrOf(mapSort(keySort(s.x, m), SBool))), ref, d))
}

func (s *State) mapVal(m *types.Map, i int, ref *Term) *Term {
	c := s.x.flat(m.Elem())[i]
	return Select(s.hp(mvalName(m, c), arrOf(mapSort(keySort(s.x, m), c.sort))), ref)
}

func (s *State) setMapVal(m *types.Map, i int, ref, a *Term) {
	c := s.x.flat(m.Elem())[i]
	n := mvalName(m, c)
	s.setHp(n, Store(s.hp(n, arrOf(mapSort(keySort(s.x, m), c.sort))), ref, a))
}

// ---- eqb: equality of byte ranges ----

func Eqb(a, i, b, j, n *Term) *Term {
	useEqb()
	if a == b && i == j {
		return True
	}
	if n.op == "int" && n.iv.Sign() <= 0 {
		return True
	}
	return App("eqb", SBool, a, i, b, j, n)
}

func useEqb() {
	for _, a := range axioms {
		if a.name == "eqb1" {
			return
		}
	}
	A, B := BVar("A", SArr), BVar("B", SArr)
	i, j, n, y := BVar("i", SInt), BVar("j", SInt), BVar("n", SInt), BVar("y", SInt)
	e := App("eqb", SBool, A, i, B, j, n)
	add := func(name string, vars []*Term, pats [][]*Term, body *Term) {
		ax := &Axiom{name: name, t: Forall(vars, pats, body), syms: map[string]bool{"eqb": true}, kind: "def"}
		axioms = append(axioms, ax)
	}
	add("eqb1", []*Term{A, i, B, j, n, y}, [][]*Term{{e, Select(A, y)}},
		Implies(And(e, Le(i, y), Lt(y, Add(i, n))), Eq(Select(A, y), Select(B, Add(y, Neg(i), j)))))
	add("eqb2", []*Term{A, i, B, j, n, y}, [][]*Term{{e, Select(B, y)}},
		Implies(And(e, Le(j, y), Lt(y, Add(j, n))), Eq(Select(B, y), Select(A, Add(y, Neg(j), i)))))
	d := App("eqb$d", SInt, A, i, B, j, n)
	add("eqb3", []*Term{A, i, B, j, n}, [][]*Term{{e}},
		Or(e, And(Le(Int(0), d), Lt(d, n), Ne(Select(A, Add(i, d)), Select(B, Add(j, d))))))
}

// ---- misc ----

func escapingVars(info *types.Info, body ast.Node) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	root := func(e ast.Expr) *types.Var {
		for {
			switch y := e.(type) {
			case *ast.ParenExpr:
				e = y.X
			case *ast.SelectorExpr:
				sel := info.Selections[y]
				if sel == nil {
					return nil
				}
				if _, ok := info.TypeOf(y.X).Underlying().(*types.Pointer); ok {
					return nil
				}
				e = y.X
			case *ast.IndexExpr:
				if _, ok := info.TypeOf(y.X).Underlying().(*types.Array); ok {
					e = y.X
				} else {
					return nil
				}
			case *ast.Ident:
				v, _ := info.ObjectOf(y).(*types.Var)
				return v
			default:
				return nil
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.UnaryExpr:
			if y.Op.String() == "&" {
				if v := root(y.X); v != nil {
					out[v] = true
				}
			}
		case *ast.SliceExpr:
			if _, ok := info.TypeOf(y.X).Underlying().(*types.Array); ok {
				if v := root(y.X); v != nil {
					out[v] = true
				}
			}
		case *ast.SelectorExpr:
			if sel := info.Selections[y]; sel != nil && sel.Kind() == types.MethodVal {
				f := sel.Obj().(*types.Func)
				if r := f.Type().(*types.Signature).Recv(); r != nil {
					if _, ok := r.Type().(*types.Pointer); ok {
						if _, isp := info.TypeOf(y.X).Underlying().(*types.Pointer); !isp {
							if v := root(y.X); v != nil {
								out[v] = true
							}
						}
					}
				}
			}
		case *ast.Ident:
			// every array variable lives in memory
			if v, ok := info.Defs[y].(*types.Var); ok && v != nil {
				if _, ok := v.Type().Underlying().(*types.Array); ok && !v.IsField() {
					out[v] = true
				}
			}
		}
		return true
	})
	return out
}

func short(s string, n int) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
