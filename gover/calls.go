package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

var tByte = types.Typ[types.Uint8]
var tInt = types.Typ[types.Int]

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeName(s.Elem()) == "uint8"
}

func (x *Exec) call(e *ast.CallExpr, s *State, k func(*State, []Val)) {
	if s.dead {
		return
	}
	k1 := func(s *State, v Val) { k(s, []Val{v}) }
	fun := unparen(e.Fun)
	if tv, ok := x.info().Types[e]; ok && tv.Value != nil {
		k1(s, x.constVal(e, tv))
		return
	}
	// conversion
	if tv := x.info().Types[fun]; tv.IsType() {
		x.ev(e.Args[0], s, func(s *State, v Val) {
			x.at(e)
			k1(s, x.convert(s, e, v, tv.Type))
		})
		return
	}
	// builtin
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := x.info().Uses[id].(*types.Builtin); ok {
			x.builtin(e, b.Name(), s, k)
			return
		}
	}
	var fobj *types.Func
	var recvExpr ast.Expr
	switch f := fun.(type) {
	case *ast.Ident:
		fobj, _ = x.info().Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if sel := x.info().Selections[f]; sel != nil {
			if sel.Kind() == types.MethodVal {
				fobj = sel.Obj().(*types.Func)
				recvExpr = f.X
				if len(sel.Index()) != 1 {
					panic(x.unsup(e, "promoted method"))
				}
			}
		} else {
			fobj, _ = x.info().Uses[f.Sel].(*types.Func)
		}
	}
	if fobj == nil {
		if _, ok := x.typeOf(fun).Underlying().(*types.Signature); !ok {
			panic(x.unsup(e, "call of a function value"))
		}
		x.ev(fun, s, func(s *State, fv Val) {
			cl := x.closures[fv.one()]
			if cl == nil {
				panic(x.unsup(e, "call of a function value"))
			}
			sig := x.typeOf(fun).Underlying().(*types.Signature)
			x.argList(e, sig, s, func(s *State, as []Val) {
				x.at(e)
				if cl.fobj != nil {
					x.invoke(e, cl.fobj, as, s, k)
					return
				}
				if x.depth > 8 {
					panic(x.unsup(e, "inlining too deep at a function literal"))
				}
				x.inlineBody("", &frame{fd: cl.fr.fd, info: cl.fr.info, sig: cl.fr.info.TypeOf(cl.lit).(*types.Signature), esc: cl.fr.esc}, cl.lit.Body, as, s, k)
			})
		})
		return
	}
	sig := fobj.Type().(*types.Signature)
	withRecv := func(s *State, f func(*State, []Val)) {
		if recvExpr == nil {
			f(s, nil)
			return
		}
		rt := sig.Recv().Type()
		xt := x.typeOf(recvExpr)
		_, wantPtr := rt.Underlying().(*types.Pointer)
		switch {
		case types.IsInterface(xt):
			x.ev(recvExpr, s, func(s *State, v Val) { f(s, []Val{v}) })
		case wantPtr && !isPtr(xt):
			x.lval(recvExpr, s, func(s *State, lv LV) {
				if lv.kind != "cell" {
					panic(x.unsup(e, "address of receiver"))
				}
				f(s, []Val{{rt, []*Term{lv.addr}}})
			})
		case !wantPtr && isPtr(xt):
			x.ev(recvExpr, s, func(s *State, v Val) {
				x.nilCheck(s, v.one())
				f(s, []Val{s.loadCell(rt, v.one())})
			})
		default:
			x.ev(recvExpr, s, func(s *State, v Val) { f(s, []Val{v}) })
		}
	}
	withRecv(s, func(s *State, args []Val) {
		x.argList(e, sig, s, func(s *State, as []Val) {
			x.at(e)
			all := append(args[:len(args):len(args)], as...)
			x.invoke(e, fobj, all, s, k)
		})
	})
}

func (x *Exec) argList(e *ast.CallExpr, sig *types.Signature, s *State, k func(*State, []Val)) {
	np := sig.Params().Len()
	fin := func(s *State, vs []Val) {
		var out []Val
		if sig.Variadic() && e.Ellipsis == token.NoPos {
			for i := 0; i < np-1; i++ {
				out = append(out, x.convAssign(s, vs[i], sig.Params().At(i).Type()))
			}
			st := sig.Params().At(np - 1).Type().(*types.Slice)
			rest := vs[np-1:]
			if len(rest) == 0 {
				out = append(out, x.zero(st))
			} else {
				a := s.alloc()
				for i, v := range rest {
					s.writeMem(st.Elem(), a, Int(int64(i)), x.convAssign(s, v, st.Elem()))
				}
				n := Int(int64(len(rest)))
				out = append(out, Val{st, []*Term{a, Int(0), n, n}})
			}
		} else {
			for i, v := range vs {
				out = append(out, x.convAssign(s, v, sig.Params().At(i).Type()))
			}
		}
		k(s, out)
	}
	if len(e.Args) == 0 {
		fin(s, nil)
		return
	}
	x.exprs(e.Args, s, fin)
}

func (x *Exec) convert(s *State, e ast.Node, v Val, t types.Type) Val {
	if v.t == nil {
		return Val{t, v.ts}
	}
	if b, ok := v.t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return x.zero(t)
	}
	if types.IsInterface(t) {
		return x.convAssign(s, v, t)
	}
	tb, tok := t.Underlying().(*types.Basic)
	vb, vok := v.t.Underlying().(*types.Basic)
	if tok && vok {
		if tb.Info()&types.IsInteger != 0 && vb.Info()&types.IsInteger != 0 {
			return Val{t, []*Term{x.wrap(s, v.one(), t)}}
		}
		if tb.Info()&types.IsString != 0 && vb.Info()&types.IsString != 0 {
			return Val{t, v.ts}
		}
		if tb.Info()&types.IsString != 0 && vb.Info()&types.IsInteger != 0 && x.strMode {
			return Val{t, []*Term{App("chr", SStr, v.one())}}
		}
		if tb.Info()&types.IsBoolean != 0 && vb.Info()&types.IsBoolean != 0 {
			return Val{t, v.ts}
		}
		if isFloat(t) && isFloat(v.t) && tb.Kind() == vb.Kind() {
			return Val{t, v.ts}
		}
		if tb.Kind() == types.UnsafePointer || vb.Kind() == types.UnsafePointer {
			panic(x.unsup(e, "unsafe.Pointer conversion"))
		}
		// float arithmetic conversions: arbitrary result
		return s.fresh("conv", t)
	}
	if isByteSlice(t) && isString(v.t) {
		base := s.alloc()
		s.allocs = Add(s.allocs, Int(1))
		c := Fresh("bytes", SArr)
		m := s.mem(tByte, 0)
		s.setHp("m:uint8", Store(m, base, c))
		if x.strMode {
			n := Fresh("slen", SInt)
			setBound(n, Int(0).iv, maxMem)
			s.assume(Eq(n, App("str.len", SInt, v.one())))
			s.assume(Eq(App("strof", SStr, c, Int(0), n), v.one()))
			return Val{t, []*Term{base, Int(0), n, n}}
		}
		s.assume(Eqb(c, Int(0), Select(m, v.ts[0]), v.ts[1], v.ts[2]))
		cp := Fresh("cap", SInt)
		s.assume(And(Le(v.ts[2], cp), Le(cp, IntB(maxMem))))
		return Val{t, []*Term{base, Int(0), v.ts[2], cp}}
	}
	if isString(t) && isByteSlice(v.t) {
		if x.strMode {
			return Val{t, []*Term{App("strof", SStr, Select(s.mem(tByte, 0), v.ts[0]), v.ts[1], v.ts[2])}}
		}
		base := s.alloc()
		s.allocs = Add(s.allocs, Int(1))
		c := Fresh("bytes", SArr)
		m := s.mem(tByte, 0)
		s.setHp("m:uint8", Store(m, base, c))
		s.assume(Eqb(c, Int(0), Select(m, v.ts[0]), v.ts[1], v.ts[2]))
		return Val{t, []*Term{base, Int(0), v.ts[2]}}
	}
	if types.Identical(t.Underlying(), v.t.Underlying()) {
		return Val{t, v.ts}
	}
	if isPtr(t) && isPtr(v.t) && typeName(t.Underlying().(*types.Pointer).Elem()) == typeName(v.t.Underlying().(*types.Pointer).Elem()) {
		return Val{t, v.ts}
	}
	panic(x.unsup(e, "conversion from %v to %v", v.t, t))
}

func (x *Exec) builtin(e *ast.CallExpr, name string, s *State, k func(*State, []Val)) {
	k1 := func(s *State, v Val) { k(s, []Val{v}) }
	arg := func(i int, f func(*State, Val)) { x.ev(e.Args[i], s, f) }
	switch name {
	case "len", "cap":
		arg(0, func(s *State, v Val) {
			switch u := v.t.Underlying().(type) {
			case *types.Slice:
				if name == "len" {
					k1(s, Val{tInt, []*Term{v.ts[2]}})
				} else {
					k1(s, Val{tInt, []*Term{v.ts[3]}})
				}
			case *types.Basic:
				if x.strMode {
					n := App("str.len", SInt, v.one())
					setBound(n, Int(0).iv, maxMem)
					k1(s, Val{tInt, []*Term{n}})
				} else {
					k1(s, Val{tInt, []*Term{v.ts[2]}})
				}
			case *types.Array:
				k1(s, Val{tInt, []*Term{Int(u.Len())}})
			case *types.Map:
				f := s.fresh("maplen", tInt)
				s.assume(And(Le(Int(0), f.one()), Le(f.one(), IntB(maxMem))))
				k1(s, f)
			default:
				panic(x.unsup(e, "%s of %v", name, v.t))
			}
		})
	case "append":
		x.ev(e.Args[0], s, func(s *State, d Val) {
			rt := x.typeOf(e)
			st := rt.Underlying().(*types.Slice)
			if len(e.Args) == 1 {
				k1(s, d)
				return
			}
			d = x.convAssign(s, d, rt)
			if e.Ellipsis != token.NoPos {
				x.ev(e.Args[1], s, func(s *State, v Val) {
					x.at(e)
					if b, ok := v.t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
						v = x.zero(rt)
					}
					if isString(v.t) && x.strMode {
						panic(x.unsup(e, "append of a string"))
					}
					r := x.appendSlice(s, e, st, d, v)
					x.afterCall(s, "append", []Val{d, v}, []Val{r})
					k1(s, r)
				})
				return
			}
			// element by element
			var rec func(i int, s *State, vs []Val)
			rec = func(i int, s *State, vs []Val) {
				if i == len(e.Args) {
					x.at(e)
					a := s.alloc()
					for j, v := range vs {
						s.writeMem(st.Elem(), a, Int(int64(j)), v)
					}
					n := Int(int64(len(vs)))
					k1(s, x.appendSlice(s, e, st, d, Val{rt, []*Term{a, Int(0), n, n}}))
					return
				}
				x.ev(e.Args[i], s, func(s *State, v Val) {
					rec(i+1, s, append(vs[:len(vs):len(vs)], x.convAssign(s, v, st.Elem())))
				})
			}
			rec(1, s, nil)
		})
	case "copy":
		arg(0, func(s *State, d Val) {
			x.ev(e.Args[1], s, func(s *State, v Val) {
				x.at(e)
				if isString(v.t) && x.strMode {
					panic(x.unsup(e, "copy of a string"))
				}
				n := x.minTerm(s, d.ts[2], v.ts[2])
				x.memmove(s, d.t.Underlying().(*types.Slice).Elem(), d.ts[0], d.ts[1], v.ts[0], v.ts[1], n)
				r := Val{tInt, []*Term{n}}
				x.afterCall(s, "copy", []Val{d, v}, []Val{r})
				k1(s, r)
			})
		})
	case "make":
		t := x.typeOf(e.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Map:
			fin := func(s *State) {
				ref := s.alloc()
				s.allocs = Add(s.allocs, Int(1))
				s.setMapDom(u, ref, ConstArr(mapSort(keySort(x, u), SBool), False))
				k1(s, Val{t, []*Term{ref}})
			}
			if len(e.Args) > 1 {
				// a negative size hint for a map does not panic
				x.ev(e.Args[1], s, func(s *State, _ Val) { fin(s) })
				return
			}
			fin(s)
		case *types.Slice:
			x.ev(e.Args[1], s, func(s *State, n Val) {
				fin := func(s *State, cp *Term) {
					x.at(e)
					x.require(s, "panic", "make size", And(Le(Int(0), n.one()), Le(n.one(), cp), Le(cp, IntB(maxMem))))
					a := s.alloc()
					s.allocs = Add(s.allocs, Int(1))
					for i, c := range x.flat(u.Elem()) {
						m := s.mem(u.Elem(), i)
						s.setHp(memName(u.Elem(), c), Store(m, a, ConstArr(arrOf(c.sort), zeroTerm(c.sort))))
					}
					k1(s, Val{t, []*Term{a, Int(0), n.one(), cp}})
				}
				if len(e.Args) > 2 {
					x.ev(e.Args[2], s, func(s *State, c Val) { fin(s, c.one()) })
				} else {
					fin(s, n.one())
				}
			})
		default:
			panic(x.unsup(e, "make of %v", t))
		}
	case "new":
		t := x.typeOf(e.Args[0])
		a := s.alloc()
		s.allocs = Add(s.allocs, Int(1))
		s.storeCell(t, a, x.zero(t))
		k1(s, Val{x.typeOf(e), []*Term{a}})
	case "delete":
		arg(0, func(s *State, m Val) {
			mt := m.t.Underlying().(*types.Map)
			x.ev(e.Args[1], s, func(s *State, kv Val) {
				kv = x.convAssign(s, kv, mt.Key())
				ref := m.one()
				x.fork(s, Eq(ref, Int(0)), func(s *State) { k(s, nil) }, func(s *State) {
					s.setMapDom(mt, ref, Store(s.mapDom(mt, ref), kv.one(), False))
					k(s, nil)
				})
			})
		})
	case "panic":
		arg(0, func(s *State, v Val) {
			x.at(e)
			if x.con.panics != nil {
				x.panicExit(s)
				return
			}
			x.require(s, "panic", "explicit panic is unreachable", False)
		})
	default:
		panic(x.unsup(e, "builtin %s", name))
	}
}

func (x *Exec) minTerm(s *State, a, b *Term) *Term {
	if v, k := s.decide(Le(a, b)); k {
		if v {
			return a
		}
		return b
	}
	n := Fresh("n", SInt)
	setBound(n, Int(0).iv, maxMem)
	s.assume(And(Le(n, a), Le(n, b)))
	s.assume(Or(Eq(n, a), Eq(n, b)))
	return n
}

// memmove copies n elements; overlapping ranges behave as in Go.
func (x *Exec) memmove(s *State, elem types.Type, db, do, sb, so, n *Term) {
	if n.op == "int" && n.iv.Sign() == 0 {
		return
	}
	for i, c := range x.flat(elem) {
		m := s.mem(elem, i)
		D, S := Select(m, db), Select(m, sb)
		C := Fresh("mem", arrOf(c.sort))
		y := BVar("y", SInt)
		s.assume(Forall([]*Term{y}, [][]*Term{{Select(C, y)}},
			Implies(Or(Lt(y, do), Le(Add(do, n), y)), Eq(Select(C, y), Select(D, y)))))
		x.rangeEq(s, C, do, S, so, n)
		s.setHp(memName(elem, c), Store(m, db, C))
	}
}

// rangeEq assumes C[co..co+n) = S[so..so+n).
func (x *Exec) rangeEq(s *State, C, co, S, so, n *Term) {
	if C.sort == SArr {
		s.assume(Eqb(C, co, S, so, n))
		if n.op == "int" && n.iv.IsInt64() && n.iv.Int64() <= 12 {
			for i := int64(0); i < n.iv.Int64(); i++ {
				s.assume(Eq(Select(C, Add(co, Int(i))), Select(S, Add(so, Int(i)))))
			}
		}
		return
	}
	y := BVar("y", SInt)
	s.assume(Forall([]*Term{y}, [][]*Term{{Select(C, y)}},
		Implies(And(Le(co, y), Lt(y, Add(co, n))), Eq(Select(C, y), Select(S, Add(y, Neg(co), so))))))
}

func (x *Exec) appendSlice(s *State, e ast.Node, st *types.Slice, d, v Val) Val {
	n := v.ts[2]
	if n.op == "int" && n.iv.Sign() == 0 {
		return d
	}
	newLen := Add(d.ts[2], n)
	in := Le(newLen, d.ts[3])
	var base, off, cp *Term
	fresh := s.alloc()
	known, isK := s.decide(in)
	switch {
	case isK && known:
		base, off, cp = d.ts[0], d.ts[1], d.ts[3]
	default:
		base, off, cp = Fresh("app.base", SInt), Fresh("app.off", SInt), Fresh("app.cap", SInt)
		setBound(off, Int(0).iv, maxMem)
		setBound(cp, Int(0).iv, maxMem)
		s.assume(Implies(in, And(Eq(base, d.ts[0]), Eq(off, d.ts[1]), Eq(cp, d.ts[3]))))
		s.assume(Implies(Not(in), And(Eq(base, fresh), Eq(off, Int(0)))))
		s.assume(Le(newLen, cp))
		s.assume(Le(Add(off, cp), IntB(maxMem)))
		s.assume(Le(Int(0), base))
		s.assume(Le(Add(base, Int(64)), s.next))
		s.assume(Implies(Eq(base, Int(0)), And(Eq(cp, Int(0)), Eq(off, Int(0)))))
		a := Fresh("allocs", SInt)
		s.assume(Implies(in, Eq(a, s.allocs)))
		s.assume(Implies(Not(in), Eq(a, Add(s.allocs, Int(1)))))
		s.allocs = a
	}
	for i, c := range x.flat(st.Elem()) {
		m := s.mem(st.Elem(), i)
		D, S := Select(m, d.ts[0]), Select(m, v.ts[0])
		C := Fresh("mem", arrOf(c.sort))
		x.rangeEq(s, C, off, D, d.ts[1], d.ts[2])
		x.rangeEq(s, C, Add(off, d.ts[2]), S, v.ts[1], n)
		y := BVar("y", SInt)
		s.assume(Forall([]*Term{y}, [][]*Term{{Select(C, y)}},
			Implies(Or(Lt(y, Add(off, d.ts[2])), Le(Add(off, newLen), y)), Implies(in, Eq(Select(C, y), Select(D, y))))))
		s.setHp(memName(st.Elem(), c), Store(m, base, C))
	}
	return Val{d.t, []*Term{base, off, newLen, cp}}
}

// ---- functions ----

func (x *Exec) invoke(e *ast.CallExpr, f *types.Func, args []Val, s *State, k func(*State, []Val)) {
	key := funcKey(f)
	sig := f.Type().(*types.Signature)
	ret := func(i int, ts ...*Term) Val { return Val{sig.Results().At(i).Type(), ts} }
	switch key {
	case "math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits":
		k(s, []Val{ret(0, args[0].ts...)})
		return
	}
	con := x.db.contracts[key]
	if m := x.l.model(key); m != nil && con == nil && x.strMode {
		x.used[key] = true
		x.inlineCall(m, args, s, k)
		return
	}
	if con != nil && !con.inline {
		x.used[key] = true
		x.applyContract(e, con, key, sig, args, s, k)
		return
	}
	fd := x.l.funcs[key]
	if fd == nil && f.Pkg() != nil && x.l.isRepo(f.Pkg().Path()) {
		if _, err := x.l.Load(f.Pkg().Path()); err == nil {
			fd = x.l.funcs[key]
		}
	}
	if fd == nil || fd.pkg.std && con == nil {
		panic(x.unsup(e, "call of %s, which has no contract", key))
	}
	if x.inl[key] {
		panic(x.unsup(e, "recursive function %s needs a contract", key))
	}
	if x.depth > 8 {
		panic(x.unsup(e, "inlining too deep at %s", key))
	}
	x.inlineCall(fd, args, s, k)
}

func (x *Exec) inlineCall(fd *FuncDecl, args []Val, s *State, k func(*State, []Val)) {
	fr := &frame{fd: fd, info: fd.pkg.info, sig: fd.obj.Type().(*types.Signature)}
	fr.esc = escapingVars(fd.pkg.info, fd.decl.Body)
	x.inlineBody(fd.key, fr, fd.decl.Body, args, s, k)
}

// inlineBody runs the body of a function or function literal in place.
func (x *Exec) inlineBody(key string, fr *frame, body *ast.BlockStmt, args []Val, s *State, k func(*State, []Val)) {
	push := func() {
		x.frames = append(x.frames, fr)
		x.depth++
		if key != "" {
			x.inl[key] = true
		}
	}
	pop := func() {
		x.frames = x.frames[:len(x.frames)-1]
		x.depth--
		delete(x.inl, key)
	}
	push()
	x.bindSig(fr.sig, args, s)
	x.block(body.List, s, func(s *State, c Ctl) {
		vals := c.vals
		if c.k != ctlRet {
			vals = nil
			for i := 0; i < fr.sig.Results().Len(); i++ {
				panic(unsup("function %s falls off its end", fr.fd.key))
			}
		}
		pos := x.curPos
		pop()
		k(s, vals)
		push()
		x.curPos = pos
	})
	pop()
}

func (x *Exec) bindParams(fd *FuncDecl, args []Val, s *State) { x.bindSig(fd.sig(), args, s) }

func (x *Exec) bindSig(sig *types.Signature, args []Val, s *State) {
	i := 0
	if r := sig.Recv(); r != nil {
		x.declare(s, r, x.convAssign(s, args[0], r.Type()))
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		p := sig.Params().At(j)
		x.declare(s, p, x.convAssign(s, args[i+j], p.Type()))
	}
	for j := 0; j < sig.Results().Len(); j++ {
		r := sig.Results().At(j)
		if r.Name() != "" && r.Name() != "_" {
			x.declare(s, r, x.zero(r.Type()))
		}
	}
}

// ---- contracts at call sites ----

type modSet struct {
	addrs map[string][]*Term // component -> addresses
	any   map[string]bool    // whole component
	fresh bool
	ghost map[string]bool
}

// modTargets evaluates a modifies list in the given environment.
func (x *Exec) modTargets(con *SContract, ev *SEnv) *modSet {
	ms := &modSet{addrs: map[string][]*Term{}, any: map[string]bool{}, ghost: map[string]bool{}}
	var cells func(t types.Type, addr *Term)
	cells = func(t types.Type, addr *Term) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				cells(u.Field(i).Type(), Add(addr, Int(x.fieldAddrOff(t, i))))
			}
		case *types.Array:
			for _, c := range x.flat(u.Elem()) {
				n := memName(u.Elem(), c)
				ms.addrs[n] = append(ms.addrs[n], addr)
			}
		default:
			for _, c := range x.flat(t) {
				n := cellName(t, c)
				ms.addrs[n] = append(ms.addrs[n], addr)
			}
		}
	}
	for _, m := range con.mods {
		switch {
		case m.kind == "ident" && m.name == "fresh":
			ms.fresh = true
		case m.kind == "call" && m.name == "ghost":
			ms.ghost[m.args[0].name] = true
			ms.any["g:"+m.args[0].name] = true
		case m.kind == "call" && m.name == "elems":
			v := ev.eval(m.args[0])
			sl, ok := v.t.Underlying().(*types.Slice)
			if !ok {
				panic(unsup("%s: elems of %v", m.pos, v.t))
			}
			for _, c := range x.flat(sl.Elem()) {
				n := memName(sl.Elem(), c)
				ms.addrs[n] = append(ms.addrs[n], v.ts[0])
			}
		case m.kind == "call" && m.name == "mapof":
			v := ev.eval(m.args[0])
			mt := v.t.Underlying().(*types.Map)
			ms.addrs[domName(mt)] = append(ms.addrs[domName(mt)], v.one())
			for _, c := range x.flat(mt.Elem()) {
				ms.addrs[mvalName(mt, c)] = append(ms.addrs[mvalName(mt, c)], v.one())
			}
		case m.kind == "deref":
			v := ev.eval(m.args[0])
			pt := v.t.Underlying().(*types.Pointer)
			cells(pt.Elem(), v.one())
		case m.kind == "sel":
			addr, t := ev.addrOf(m)
			cells(t, addr)
		default:
			panic(unsup("%s: modifies item", m.pos))
		}
	}
	return ms
}

func (x *Exec) ghostSort(name string) Sort {
	switch name {
	case "out", "lastout":
		return SAStr
	case "nfail", "lasterr":
		return SArr
	case "encoded", "parsed":
		return SStr
	}
	return SInt
}

func (x *Exec) applyContract(e *ast.CallExpr, con *SContract, key string, sig *types.Signature, args []Val, s *State, k func(*State, []Val)) {
	env := map[string]Val{}
	if len(con.params) != len(args) {
		panic(unsup("contract of %s has %d parameters, the function %d", key, len(con.params), len(args)))
	}
	for i, n := range con.params {
		env[n] = args[i]
	}
	for _, g := range con.ghosts {
		v, ok := x.ghosts[g.name]
		if !ok {
			v, ok = x.env0[g.name]
		}
		if !ok {
			panic(unsup("no ghost argument %s for %s", g.name, key))
		}
		env[g.name] = v
	}
	pre := s.clone()
	ev := &SEnv{x: x, names: env, cur: pre, old: pre}
	for _, l := range con.lets {
		env[l.name] = ev.eval(l.x)
	}
	for i, r := range con.requires {
		name := "precondition of " + key
		if r.name != "" {
			name += ": " + r.name
		} else {
			name += " #" + itoa(i+1)
		}
		x.proveClause(s, "requires", name, r.x, ev, nil, "", nil)
	}
	// keep what the preconditions established
	for _, r := range con.requires {
		s.assume(ev.evalBool(r.x))
	}
	if con.panics != nil {
		x.require(s, "panic", key+" does not panic", Not(ev.evalBool(con.panics)))
	}
	ms := x.modTargets(con, ev)
	x.havoc(s, ms, pre)
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		n := "r"
		if i < len(con.results) {
			n = con.results[i]
		}
		res = append(res, s.fresh(f2(key)+"."+n, sig.Results().At(i).Type()))
	}
	for i, n := range con.results {
		env[n] = res[i]
	}
	post := &SEnv{x: x, names: env, cur: s, old: pre}
	if x.strMode {
		// clauses that say what a new value is: use the value itself
		fresh := map[*Term]func(*Term){}
		for n := range ms.any {
			n := n
			if h := s.heap[n]; h != nil && strings.HasPrefix(n, "g:") {
				fresh[h] = func(t *Term) { s.setHp(n, t) }
			}
		}
		for i := range con.results {
			i := i
			if len(res[i].ts) == 1 {
				c := x.flat(res[i].t)[0]
				fresh[res[i].ts[0]] = func(t *Term) {
					if c.sort == SInt && c.lo != nil {
						s.assume(Le(IntB(c.lo), t))
					}
					if c.sort == SInt && c.hi != nil {
						s.assume(Le(t, IntB(c.hi)))
					}
					res[i] = Val{res[i].t, []*Term{t}}
					env[con.results[i]] = res[i]
				}
			}
		}
		for _, c := range con.ensures {
			if x.v.visible(c) {
				x.defining(s, post, c.x, fresh)
			}
		}
	}
	for _, c := range con.ensures {
		if !x.v.visible(c) {
			continue
		}
		s.assume(post.evalBool(c.x))
	}
	x.afterCall(s, key, args, res)
	k(s, res)
}

// defining looks for equations sym == term in a clause known to hold, where
// sym is one of the symbols a call introduced, and has sym replaced.
func (x *Exec) defining(s *State, ev *SEnv, sx *SX, fresh map[*Term]func(*Term)) {
	switch {
	case sx.kind == "bin" && sx.name == "&&":
		x.defining(s, ev, sx.args[0], fresh)
		x.defining(s, ev, sx.args[1], fresh)
	case sx.kind == "bin" && sx.name == "==>":
		if v, k := s.decide(ev.evalBool(sx.args[0])); k && v {
			x.defining(s, ev, sx.args[1], fresh)
		}
	case sx.kind == "bin" && sx.name == "==":
		a, b := ev.eval(sx.args[0]), ev.eval(sx.args[1])
		if len(a.ts) != 1 || len(b.ts) != 1 || a.ts[0].sort != b.ts[0].sort {
			return
		}
		l, r := a.ts[0], b.ts[0]
		set := fresh[l]
		if set == nil {
			l, r = r, l
			set = fresh[l]
		}
		if set == nil || occurs(l, r) {
			return
		}
		s.assume(Eq(l, r))
		delete(fresh, l)
		set(r)
	}
}

func occurs(a, t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, u := range t.args {
			if walk(u) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// afterCall runs the hints the contract gives for the state after a call of key.
func (x *Exec) afterCall(s *State, key string, args, res []Val) {
	for _, a := range x.con.after {
		if a.target != key {
			continue
		}
		if len(a.params) != len(args) || len(a.results) > len(res) {
			panic(unsup("%s: after %s: parameters", a.pos, key))
		}
		names := map[string]Val{}
		for n, v := range x.env0 {
			names[n] = v
		}
		for n, v := range s.ghost {
			names[n] = v
		}
		for i, n := range a.params {
			names[n] = args[i]
		}
		for i, n := range a.results {
			names[n] = res[i]
		}
		for _, st := range a.body {
			he := &SEnv{x: x, names: names, cur: s, old: x.st0}
			switch st.kind {
			case "let":
				names[st.name] = he.eval(st.x)
			case "ghost":
				v := he.eval(st.x)
				if len(v.ts) != 1 || v.ts[0].sort != specSort(st.vars[0].sort) {
					panic(unsup("%s: ghost %s: sort", st.pos, st.name))
				}
				if s.ghost == nil {
					s.ghost = map[string]Val{}
				}
				s.ghost[st.name] = v
			case "use", "unfold", "reveal", "forall":
				s.assume(x.hintFact(st, he))
			case "assert":
				n := 0
				x.split(s.clone(), st.x, he, he, st.body, meta{kind: "hint", name: "after " + key + ": assertion " + st.name}, &n)
				s.assume(he.evalBool(st.x))
			default:
				panic(unsup("%s: after %s: hint %s", st.pos, key, st.kind))
			}
		}
	}
}

func f2(key string) string {
	if i := strings.LastIndex(key, "."); i >= 0 {
		return key[i+1:]
	}
	return key
}

func (x *Exec) havoc(s *State, ms *modSet, pre *State) {
	oldNext := s.next
	if ms.fresh {
		s.next = Fresh("next", SInt)
		nextPred[s.next.id] = oldNext
		s.assume(Le(oldNext, s.next))
		a := Fresh("allocs", SInt)
		s.assume(Le(s.allocs, a))
		s.allocs = a
	}
	names := map[string]bool{}
	for n := range ms.addrs {
		names[n] = true
	}
	for n := range ms.any {
		names[n] = true
	}
	var list []string
	for n := range names {
		list = append(list, n)
	}
	sort.Strings(list)
	for _, n := range list {
		if strings.HasPrefix(n, "g:") {
			s.hp(n, x.ghostSort(n[2:]))
		}
		srt, ok := x.heapSort[n]
		if !ok {
			srt = x.compSort(n)
		}
		old := s.hp(n, srt)
		if ms.any[n] {
			h := Fresh(n, srt)
			heapMark[h.id] = s.next
			s.setHp(n, h)
			continue
		}
		if !ms.fresh {
			h := old
			for _, a := range ms.addrs[n] {
				h = Store(h, a, Fresh(n+".h", elemSort(srt)))
			}
			s.setHp(n, h)
			continue
		}
		h := Fresh(n, srt)
		heapMark[h.id] = s.next
		derived[h.id] = &derivation{old, oldNext, ms.addrs[n]}
		b := BVar("b", SInt)
		var ne []*Term
		ne = append(ne, Lt(b, oldNext))
		for _, a := range ms.addrs[n] {
			ne = append(ne, Ne(b, a))
		}
		s.assume(Forall([]*Term{b}, [][]*Term{{Select(h, b)}}, Implies(And(ne...), Eq(Select(h, b), Select(old, b)))))
		s.setHp(n, h)
	}
	if ms.fresh {
		// components of newly allocated objects in components the callee did
		// not declare stay unconstrained only beyond the old allocation mark,
		// where nothing is known anyway
		_ = pre
	}
}

// compSort recovers the sort of a component from its name when it has not
// been touched yet.
func (x *Exec) compSort(n string) Sort {
	switch {
	case strings.HasPrefix(n, "m:"):
		return SH
	case strings.HasPrefix(n, "c:"):
		if strings.HasSuffix(n, ":bool") {
			return SSet
		}
		if n == "c:string" {
			return SAStr
		}
		return SArr
	case strings.HasPrefix(n, "d:map[string]"):
		return SHSS
	case strings.HasPrefix(n, "d:"):
		return SHS
	case strings.HasPrefix(n, "v:"):
		return SH
	}
	panic(unsup("sort of %s", n))
}

func itoa(i int) string {
	return Int(int64(i)).iv.String()
}

// panicExit handles an explicit panic in a function whose contract allows one.
func (x *Exec) panicExit(s *State) {
	ev := &SEnv{x: x, names: x.env0, cur: x.st0, old: x.st0}
	x.oblige(s, "panic", "panics only when the contract says so", ev.evalBool(x.con.panics))
	for _, n := range sortedKeys(s.heap) {
		x.frameOblig(s, n, nil, "nothing changes before a panic: ")
	}
}

func sortedKeys(m map[string]*Term) []string {
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// addressed: where a frame condition speaks, which includes address 0 (the
// memory of empty slices) in simplify mode.
func addressed(b *Term) *Term {
	if simplify {
		return Le(Int(0), b)
	}
	return Lt(Int(0), b)
}

// frameOblig: component n is unchanged outside addrs and new objects.
func (x *Exec) frameOblig(s *State, n string, addrs []*Term, pre string) {
	cur := s.heap[n]
	old := x.entry[n]
	if cur == old || cur == nil {
		return
	}
	if strings.HasPrefix(n, "g:") && cur.sort == SInt {
		x.oblige(s, "frame", pre+n+" is unchanged", Eq(cur, old))
		return
	}
	b := Fresh("b", SInt)
	if simplify {
		ptrBelow[b.id] = x.st0.next
	}
	hy := []*Term{Lt(b, x.st0.next), addressed(b)}
	for _, a := range addrs {
		hy = append(hy, Ne(b, a))
	}
	s2 := s.clone()
	for _, h := range hy {
		s2.assume(h)
	}
	x.oblige(s2, "frame", pre+n, Eq(x.selSimp(s2, cur, b), Select(old, b)))
}

// selSimp reads through stores at addresses known to differ.
func (x *Exec) selSimp(s *State, a, b *Term) *Term {
	for a.op == "store" || simplify && a.op == "const" {
		if a.op == "const" {
			d := derived[a.id]
			if d == nil || !below(b, d.mark) {
				break
			}
			apart := true
			for _, ad := range d.addrs {
				if v, k := s.decide(Ne(ad, b)); !k || !v {
					apart = false
				}
			}
			if !apart {
				break
			}
			a = d.old
			continue
		}
		ne := Ne(a.args[1], b)
		if v, k := s.decide(ne); k && v {
			a = a.args[0]
			continue
		}
		// fresh object: address >= next0 > b
		if d := Sub(a.args[1], x.st0.next); d.op == "int" && d.iv.Sign() >= 0 {
			a = a.args[0]
			continue
		}
		break
	}
	return Select(a, b)
}

// ---- package-level variables ----

func (x *Exec) globalVar(s *State, v *types.Var) Val {
	if g, ok := x.globals[v]; ok {
		x.globalFacts(s, v, g)
		return g
	}
	g := Val{t: v.Type()}
	for _, c := range x.flat(v.Type()) {
		g.ts = append(g.ts, Const("global$"+sanitize(pkgLabel(v.Pkg())+"."+v.Name()+c.suf), c.sort))
	}
	x.globals[v] = g
	x.globalFacts(s, v, g)
	return g
}

func (x *Exec) globalFacts(s *State, v *types.Var, g Val) {
	// the value existed before the call
	save := s.next
	s.next = x.st0.next
	s.wf(g)
	s.next = save
	if types.Implements(v.Type(), errorIface()) || types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
		s.assume(Lt(Int(0), g.one())) // package error values are not nil
		return
	}
	m, ok := v.Type().Underlying().(*types.Map)
	if !ok || !x.l.isRepo(v.Pkg().Path()) {
		return
	}
	keys, ok := x.sp.constMap(x.l, v)
	if !ok {
		return
	}
	s.assume(Lt(Int(0), g.one()))
	srt := arrOf(mapSort(keySort(x, m), SBool))
	dom := ConstArr(elemSort(srt), False)
	for _, kk := range keys {
		dom = Store(dom, kk, True)
	}
	s.assume(Eq(Select(x.entryHeap(domName(m), srt), g.one()), dom))
}

func errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}
