package main

// Hash-consed SMT terms with light, sound simplification. Integer sums are
// kept in a linear normal form, so that syntactically different ways of
// writing the same offset are the same term.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SArr  Sort = "(Array Int Int)"
	SSet  Sort = "(Array Int Bool)"
	SH    Sort = "(Array Int (Array Int Int))"
	SHS   Sort = "(Array Int (Array Int Bool))"
	SStr  Sort = "String"
	SAStr Sort = "(Array Int String)"
	SHStr Sort = "(Array Int (Array Int String))"
	SSSet Sort = "(Array String Bool)"
	SHSS  Sort = "(Array Int (Array String Bool))"
)

func elemSort(s Sort) Sort {
	switch s {
	case SArr:
		return SInt
	case SSet, SSSet:
		return SBool
	case SH:
		return SArr
	case SHS:
		return SSet
	case SAStr:
		return SStr
	case SHStr:
		return SAStr
	case SHSS:
		return SSSet
	}
	panic("elemSort " + string(s))
}

func arrOf(s Sort) Sort {
	switch s {
	case SInt:
		return SArr
	case SBool:
		return SSet
	case SArr:
		return SH
	case SSet:
		return SHS
	case SStr:
		return SAStr
	case SAStr:
		return SHStr
	case SSSet:
		return SHSS
	}
	panic("arrOf " + string(s))
}

type Term struct {
	op    string // "int","true","false","const","bvar","app","lin","*","div","mod","ite","and","or","not","=>","=","<=","select","store","forall","constarr","str","str.++"...
	name  string
	args  []*Term
	sort  Sort
	iv    *big.Int   // int literal / lin constant
	coef  []*big.Int // lin coefficients
	id    int
	bound bool // contains bvar
	pats  [][]*Term
	key   string
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(string(t.sort))
	if t.iv != nil {
		b.WriteByte('#')
		b.WriteString(t.iv.String())
	}
	for i, a := range t.args {
		b.WriteByte(',')
		if t.coef != nil {
			b.WriteString(t.coef[i].String())
			b.WriteByte('*')
		}
		fmt.Fprintf(&b, "%d", a.id)
	}
	for _, p := range t.pats {
		b.WriteByte('{')
		for _, x := range p {
			fmt.Fprintf(&b, "%d,", x.id)
		}
	}
	k := b.String()
	if e, ok := termTab[k]; ok {
		return e
	}
	t.key = k
	termSeq++
	t.id = termSeq
	if t.op == "bvar" {
		t.bound = true
	}
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
	}
	termTab[k] = t
	return t
}

var True, False *Term

// resetUniverse forgets every term, so that each verified unit produces the
// same scripts whatever else is verified in the same run.
func resetUniverse() {
	termTab = map[string]*Term{}
	termSeq = 0
	freshSeq = map[string]int{}
	atomBounds = map[int]ival{}
	ptrBelow = map[int]*Term{}
	nextPred = map[int]*Term{}
	heapMark = map[int]*Term{}
	derived = map[int]*derivation{}
	simplify = false
	axioms = nil
	revealAx = map[string]*Axiom{}
	True = mk(&Term{op: "true", sort: SBool})
	False = mk(&Term{op: "false", sort: SBool})
}

func IntB(v *big.Int) *Term        { return mk(&Term{op: "int", iv: v, sort: SInt}) }
func Int(v int64) *Term            { return IntB(big.NewInt(v)) }
func StrLit(s string) *Term        { return mk(&Term{op: "str", name: s, sort: SStr}) }
func Const(n string, s Sort) *Term { return mk(&Term{op: "const", name: n, sort: s}) }
func BVar(n string, s Sort) *Term  { return mk(&Term{op: "bvar", name: n, sort: s}) }

var freshSeq = map[string]int{}

func sanitize(n string) string {
	var b strings.Builder
	for _, r := range n {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func Fresh(n string, s Sort) *Term {
	n = sanitize(n)
	freshSeq[n]++
	return Const(fmt.Sprintf("%s!%d", n, freshSeq[n]), s)
}

func App(f string, s Sort, args ...*Term) *Term {
	return mk(&Term{op: "app", name: f, args: args, sort: s})
}

// ---- linear integer arithmetic ----

type lin struct {
	c  *big.Int
	m  map[int]*big.Int
	ts map[int]*Term
}

func newLin() *lin { return &lin{c: new(big.Int), m: map[int]*big.Int{}, ts: map[int]*Term{}} }

func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.iv, k))
	case "lin":
		l.c.Add(l.c, new(big.Int).Mul(t.iv, k))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coef[i], k))
		}
	default:
		l.addAtom(t, k)
	}
}

func (l *lin) addAtom(t *Term, k *big.Int) {
	if e, ok := l.m[t.id]; ok {
		e = new(big.Int).Add(e, k)
		if e.Sign() == 0 {
			delete(l.m, t.id)
			delete(l.ts, t.id)
		} else {
			l.m[t.id] = e
		}
		return
	}
	if k.Sign() == 0 {
		return
	}
	l.m[t.id] = new(big.Int).Set(k)
	l.ts[t.id] = t
}

func (l *lin) term() *Term {
	if len(l.m) == 0 {
		return IntB(l.c)
	}
	ids := make([]int, 0, len(l.m))
	for i := range l.m {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.c.Sign() == 0 && l.m[ids[0]].Cmp(one) == 0 {
		return l.ts[ids[0]]
	}
	t := &Term{op: "lin", sort: SInt, iv: l.c}
	for _, i := range ids {
		t.args = append(t.args, l.ts[i])
		t.coef = append(t.coef, l.m[i])
	}
	return mk(t)
}

var (
	one  = big.NewInt(1)
	mone = big.NewInt(-1)
)

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, one)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }
func MulC(a *Term, k *big.Int) *Term {
	l := newLin()
	l.add(a, k)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.op == "int" {
		return MulC(b, a.iv)
	}
	if b.op == "int" {
		return MulC(a, b.iv)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: "*", args: []*Term{a, b}, sort: SInt})
}

func euclid(a, b *big.Int) (q, r *big.Int) {
	q, r = new(big.Int), new(big.Int)
	q.DivMod(a, b, r)
	return
}

func Div(a, b *Term) *Term {
	if b.op == "int" && b.iv.Sign() > 0 {
		if b.iv.Cmp(one) == 0 {
			return a
		}
		if a.op == "int" {
			q, _ := euclid(a.iv, b.iv)
			return IntB(q)
		}
		if r, ok := interval(a); ok && r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(b.iv) < 0 {
			return Int(0)
		}
		if a.op == "div" && a.args[1].op == "int" && a.args[1].iv.Sign() > 0 {
			return Div(a.args[0], IntB(new(big.Int).Mul(a.args[1].iv, b.iv)))
		}
		// (k*b*x + r) div b
		l := newLin()
		l.add(a, one)
		rest, quo := newLin(), newLin()
		for id, k := range l.m {
			q, r := euclid(k, b.iv)
			if r.Sign() == 0 {
				quo.addAtom(l.ts[id], q)
			} else {
				rest.addAtom(l.ts[id], k)
			}
		}
		if len(quo.m) > 0 {
			rest.c = l.c
			rr := rest.term()
			return Add(quo.term(), Div(rr, b))
		}
	}
	return mk(&Term{op: "div", args: []*Term{a, b}, sort: SInt})
}

func Mod(a, b *Term) *Term {
	if b.op == "int" && b.iv.Sign() > 0 {
		if a.op == "int" {
			_, r := euclid(a.iv, b.iv)
			return IntB(r)
		}
		if r, ok := interval(a); ok && r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(b.iv) < 0 {
			return a
		}
		l := newLin()
		l.add(a, one)
		rest := newLin()
		changed := false
		for id, k := range l.m {
			_, r := euclid(k, b.iv)
			if r.Cmp(k) != 0 {
				changed = true
			}
			if r.Sign() != 0 {
				rest.addAtom(l.ts[id], r)
			}
		}
		_, rc := euclid(l.c, b.iv)
		if rc.Cmp(l.c) != 0 {
			changed = true
		}
		rest.c = rc
		if changed {
			return Mod(rest.term(), b)
		}
		if a.op == "mod" && a.args[1].op == "int" {
			_, r := euclid(a.args[1].iv, b.iv)
			if r.Sign() == 0 {
				return Mod(a.args[0], b)
			}
		}
	}
	return mk(&Term{op: "mod", args: []*Term{a, b}, sort: SInt})
}

// ---- intervals (only from the shape of the term and declared atom bounds) ----

type ival struct{ lo, hi *big.Int }

// atomBounds holds permanent, unconditional bounds of atoms (type ranges).
var atomBounds = map[int]ival{}

func interval(t *Term) (ival, bool) { return intervalIn(t, nil) }

func intervalIn(t *Term, extra map[int]ival) (ival, bool) {
	get := func(t *Term) ival {
		r, _ := intervalIn(t, extra)
		return r
	}
	merge := func(r ival) ival {
		if b, ok := atomBounds[t.id]; ok {
			r = isect(r, b)
		}
		if extra != nil {
			if b, ok := extra[t.id]; ok {
				r = isect(r, b)
			}
		}
		return r
	}
	switch t.op {
	case "int":
		return ival{t.iv, t.iv}, true
	case "lin":
		lo, hi := new(big.Int).Set(t.iv), new(big.Int).Set(t.iv)
		for i, a := range t.args {
			r := get(a)
			k := t.coef[i]
			l, h := r.lo, r.hi
			if k.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(k, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(k, h))
				}
			}
		}
		r := merge(ival{lo, hi})
		return r, r.lo != nil || r.hi != nil
	case "mod":
		if t.args[1].op == "int" && t.args[1].iv.Sign() > 0 {
			r := merge(ival{new(big.Int), new(big.Int).Sub(t.args[1].iv, one)})
			return r, true
		}
	case "div":
		if t.args[1].op == "int" && t.args[1].iv.Sign() > 0 {
			r := get(t.args[0])
			var o ival
			if r.lo != nil {
				o.lo, _ = euclid(r.lo, t.args[1].iv)
			}
			if r.hi != nil {
				o.hi, _ = euclid(r.hi, t.args[1].iv)
			}
			o = merge(o)
			return o, o.lo != nil || o.hi != nil
		}
	case "ite":
		a, b := get(t.args[1]), get(t.args[2])
		var o ival
		if a.lo != nil && b.lo != nil {
			o.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				o.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			o.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				o.hi = b.hi
			}
		}
		o = merge(o)
		return o, o.lo != nil || o.hi != nil
	}
	r := merge(ival{})
	return r, r.lo != nil || r.hi != nil
}

func isect(a, b ival) ival {
	r := a
	if r.lo == nil || (b.lo != nil && b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if r.hi == nil || (b.hi != nil && b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	case "<=": // !(a<=b)  ->  b+1<=a
		return Le(Add(a.args[1], Int(1)), a.args[0])
	}
	return mk(&Term{op: "not", args: []*Term{a}, sort: SBool})
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk(&Term{op: "and", args: out, sort: SBool})
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk(&Term{op: "or", args: out, sort: SBool})
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk(&Term{op: "=>", args: []*Term{a, b}, sort: SBool})
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return mk(&Term{op: "ite", args: []*Term{c, a, b}, sort: a.sort})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", show(a), a.sort, show(b), b.sort))
	}
	switch a.sort {
	case SInt:
		d := Sub(a, b)
		if d.op == "int" {
			if d.iv.Sign() == 0 {
				return True
			}
			return False
		}
		if r, ok := interval(d); ok {
			if r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
				return False
			}
		}
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case SStr:
		if a.op == "str" && b.op == "str" {
			return False
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: "=", args: []*Term{a, b}, sort: SBool})
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Le(a, b *Term) *Term {
	d := Sub(b, a) // want d >= 0
	if d.op == "int" {
		if d.iv.Sign() >= 0 {
			return True
		}
		return False
	}
	if r, ok := interval(d); ok {
		if r.lo != nil && r.lo.Sign() >= 0 {
			return True
		}
		if r.hi != nil && r.hi.Sign() < 0 {
			return False
		}
	}
	return mk(&Term{op: "<=", args: []*Term{a, b}, sort: SBool})
}
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- arrays ----

// ptrBelow maps an address to an allocation mark above it, nextPred an
// allocation mark to an earlier one (both hold on every path).
var (
	ptrBelow = map[int]*Term{}
	nextPred = map[int]*Term{}
	// heapMark maps the symbol of a heap component to the allocation mark at its creation
	heapMark = map[int]*Term{}
	// derived tells what a heap component was before the call that gave it
	// its new symbol (only used when simplify is on)
	derived = map[int]*derivation{}
	// simplify makes reads of unchanged cells go back to the older symbol
	simplify bool
)

// derivation: the new symbol agrees with old below mark, except at addrs.
type derivation struct {
	old, mark *Term
	addrs     []*Term
}

// unchangedAt tells whether address i is below the mark and not listed.
func (d *derivation) unchangedAt(i *Term) bool {
	if i.op == "lin" {
		if len(i.args) != 1 || i.coef[0].Cmp(one) != 0 || i.iv.Sign() < 0 || i.iv.Cmp(big.NewInt(64)) >= 0 || !below(i.args[0], d.mark) {
			return false
		}
	} else if !below(i, d.mark) {
		return false
	}
	for _, a := range d.addrs {
		if Eq(a, i) != False {
			return false
		}
	}
	return true
}

// markOf returns an allocation mark above the address t if t was loaded from an
// object that is older than the mark of the heap it was loaded from.
func markOf(t *Term) *Term {
	if t.op != "select" {
		return nil
	}
	h, a := t.args[0], t.args[1]
	if h.op == "select" {
		h, a = h.args[0], h.args[1]
	}
	if h.op != "const" {
		return nil
	}
	if m := heapMark[h.id]; m != nil && below(a, m) {
		return m
	}
	return nil
}

// isMark: b is a ghost mark, which separates older objects from newer ones.
func isMark(b *Term) bool {
	return b.op == "const" && (strings.HasPrefix(b.name, "ghost$") || b.name == "g_top@0")
}

// noteMark: t says that a ghost mark lies below the allocation mark next.
func noteMark(t, next *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			noteMark(a, next)
		}
		return
	}
	if t.op != "<=" || nextPred[next.id] != nil {
		return
	}
	d := Sub(t.args[1], t.args[0])
	if d.op != "lin" || len(d.args) != 2 || d.iv.Sign() != 0 {
		return
	}
	for i := range d.args {
		if a, b := d.args[i], d.args[1-i]; a == next && d.coef[i].Cmp(one) == 0 && d.coef[1-i].Cmp(new(big.Int).Neg(one)) == 0 && isMark(b) {
			nextPred[next.id] = b
		}
	}
}

// noteObject: t says that the new symbol sk is an object below a ghost mark.
func noteObject(t, sk *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			noteObject(a, sk)
		}
		return
	}
	if t.op != "<=" {
		return
	}
	d := Sub(t.args[1], t.args[0])
	if d.op != "lin" || len(d.args) != 2 || d.iv.Cmp(big.NewInt(-64)) > 0 {
		return
	}
	for i := range d.args {
		if a, b := d.args[i], d.args[1-i]; b == sk && d.coef[1-i].Cmp(new(big.Int).Neg(one)) == 0 && d.coef[i].Cmp(one) == 0 && isMark(a) {
			ptrBelow[sk.id] = a
		}
	}
}

// below tells whether address i lies below the object at allocation mark j.
func below(i, j *Term) bool {
	n := ptrBelow[i.id]
	if n == nil && i.op == "lin" && len(i.args) == 1 && i.coef[0].Cmp(one) == 0 && i.iv.Sign() >= 0 && i.iv.Cmp(big.NewInt(64)) < 0 {
		n = ptrBelow[i.args[0].id] // part of an object
	}
	if n == nil {
		return false
	}
	for k := 0; k < 100; k++ {
		if d := Sub(j, n); d.op == "int" {
			return d.iv.Sign() >= 0
		}
		// replace the mark in j by an earlier one
		var sym *Term
		c := j
		if j.op == "lin" {
			if len(j.args) != 1 || j.coef[0].Cmp(one) != 0 {
				return false
			}
			sym = j.args[0]
		} else {
			sym = j
		}
		p := nextPred[sym.id]
		if p == nil {
			return false
		}
		j = Add(Sub(c, sym), p)
	}
	return false
}

func Select(a, i *Term) *Term {
	for a.op == "store" || simplify && a.op == "const" {
		if a.op == "const" {
			if d := derived[a.id]; d != nil && d.unchangedAt(i) {
				a = d.old
				continue
			}
			break
		}
		j := a.args[1]
		if j == i {
			return a.args[2]
		}
		if i.sort == SInt {
			e := Eq(i, j)
			if e == False || below(i, j) || below(j, i) {
				a = a.args[0]
				continue
			}
		} else if i.op == "str" && j.op == "str" {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk(&Term{op: "select", args: []*Term{a, i}, sort: elemSort(a.sort)})
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return mk(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}
func ConstArr(s Sort, v *Term) *Term {
	return mk(&Term{op: "constarr", args: []*Term{v}, sort: s})
}

// ---- strings ----

func Concat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		var parts []*Term
		if t.op == "str.++" {
			parts = t.args
		} else {
			parts = []*Term{t}
		}
		for _, p := range parts {
			if p.op == "str" && p.name == "" {
				continue
			}
			if n := len(out); n > 0 && p.op == "str" && out[n-1].op == "str" {
				out[n-1] = StrLit(out[n-1].name + p.name)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return StrLit("")
	case 1:
		return out[0]
	}
	return mk(&Term{op: "str.++", args: out, sort: SStr})
}

// ---- quantifiers ----

// elemRange bounds the values an array holds.
func elemRange(a *Term) ival {
	switch a.op {
	case "const":
		n := a.name
		if i := strings.IndexAny(n, "@!"); i >= 0 {
			n = strings.TrimSuffix(n[:i], ".h")
			if r, ok := heapRanges.Load(n); ok {
				return r.(ival)
			}
		}
	case "select":
		return elemRange(a.args[0])
	case "store":
		r := elemRange(a.args[0])
		var q ival
		if a.args[2].sort == SInt {
			q, _ = interval(a.args[2])
		} else {
			q = elemRange(a.args[2])
		}
		return union(r, q)
	case "ite":
		return union(elemRange(a.args[1]), elemRange(a.args[2]))
	}
	return ival{}
}

func union(a, b ival) ival {
	var r ival
	if a.lo != nil && b.lo != nil {
		r.lo = a.lo
		if b.lo.Cmp(a.lo) < 0 {
			r.lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		r.hi = a.hi
		if b.hi.Cmp(a.hi) > 0 {
			r.hi = b.hi
		}
	}
	return r
}

// rangeFact tells whether body only states ranges of array elements that hold
// by the type of the array.
func rangeFact(v, body *Term) bool {
	cs := []*Term{body}
	if body.op == "and" {
		cs = body.args
	}
	for _, c := range cs {
		if c.op != "<=" {
			return false
		}
		d := Sub(c.args[1], c.args[0])
		var sel *Term
		switch {
		case d.op == "select":
			sel = d
		case d.op == "lin" && len(d.args) == 1:
			sel = d.args[0]
		}
		if sel == nil || sel.op != "select" || sel.args[1] != v || sel.args[0].bound {
			return false
		}
		r := elemRange(sel.args[0])
		if r.lo == nil || r.hi == nil {
			return false
		}
		ok := true
		for _, x := range []*big.Int{r.lo, r.hi} {
			w := Subst(d, map[*Term]*Term{sel: IntB(x)})
			ok = ok && w.op == "int" && w.iv.Sign() >= 0
		}
		if !ok {
			return false
		}
	}
	return len(cs) > 0
}

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || len(vars) == 1 && rangeFact(vars[0], body) {
		return True
	}
	// patterns with arithmetic do not match reliably: shift the variable
	var keep [][]*Term
	var parts []*Term
	for _, p := range pats {
		v, rest := shiftable(vars, p)
		if v == nil {
			keep = append(keep, p)
			continue
		}
		w := BVar(v.name+"'", SInt)
		m := map[*Term]*Term{v: Sub(w, rest)}
		vs := make([]*Term, len(vars))
		for i, x := range vars {
			vs[i] = x
			if x == v {
				vs[i] = w
			}
		}
		np := make([]*Term, len(p))
		for i, x := range p {
			np[i] = Subst(x, m)
		}
		parts = append(parts, Forall(vs, [][]*Term{np}, Subst(body, m)))
	}
	if len(parts) > 0 {
		if len(keep) > 0 {
			parts = append(parts, Forall(vars, keep, body))
		}
		return And(parts...)
	}
	t := &Term{op: "forall", args: append(append([]*Term{}, vars...), body), sort: SBool, pats: pats}
	t = mk(t)
	// recompute boundness: free bvars other than vars
	fv := map[int]*Term{}
	freeB(body, fv, map[int]bool{})
	for _, v := range vars {
		delete(fv, v.id)
	}
	t.bound = len(fv) > 0
	return t
}

// shiftable finds a variable v that occurs in the pattern only as array index
// v + rest, where rest does not mention the variables.
func shiftable(vars []*Term, pat []*Term) (*Term, *Term) {
	isVar := map[int]*Term{}
	for _, v := range vars {
		isVar[v.id] = v
	}
	mentions := func(t *Term) bool {
		fv := map[int]*Term{}
		freeB(t, fv, map[int]bool{})
		for id := range fv {
			if isVar[id] != nil {
				return true
			}
		}
		return false
	}
	n := map[*Term]int{} // occurrences of the variable outside the index
	idx := map[*Term]map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound {
			return
		}
		if v := isVar[t.id]; v != nil {
			n[v]++
			return
		}
		if t.op == "select" && t.args[1].op == "lin" {
			ix := t.args[1]
			for i, a := range ix.args {
				v := isVar[a.id]
				if v == nil || v.sort != SInt || ix.coef[i].Cmp(one) != 0 {
					continue
				}
				if rest := Sub(ix, v); !mentions(rest) {
					walk(t.args[0])
					if idx[v] == nil {
						idx[v] = map[*Term]bool{}
					}
					idx[v][rest] = true
					return
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range pat {
		walk(t)
	}
	for _, v := range vars {
		if n[v] == 0 && len(idx[v]) == 1 {
			for r := range idx[v] {
				return v, r
			}
		}
	}
	return nil, nil
}

func freeB(t *Term, out map[int]*Term, seen map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "bvar" {
		out[t.id] = t
		return
	}
	if t.op == "forall" {
		in := map[int]*Term{}
		n := len(t.args)
		freeB(t.args[n-1], in, map[int]bool{})
		for _, v := range t.args[:n-1] {
			delete(in, v.id)
		}
		for k, v := range in {
			out[k] = v
		}
		return
	}
	for _, a := range t.args {
		freeB(a, out, seen)
	}
}

// Subst replaces terms (by identity) in t.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case "lin":
		l := newLin()
		l.c = new(big.Int).Set(t.iv)
		for i := range a {
			l.add(a[i], t.coef[i])
		}
		return l.term()
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "str.++":
		return Concat(a...)
	case "forall":
		n := len(a)
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			pats = append(pats, q)
		}
		return Forall(a[:n-1], pats, a[n-1])
	}
	return mk(&Term{op: t.op, name: t.name, args: a, sort: t.sort, iv: t.iv, coef: t.coef})
}

// ---- printing ----

func show(t *Term) string {
	var b strings.Builder
	writeTerm(&b, t, nil)
	s := b.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func intLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range []byte(s) {
		switch {
		case r == '"':
			b.WriteString(`""`)
		case r < 32 || r > 126 || r == '\\':
			fmt.Fprintf(&b, `\u{%x}`, r)
		default:
			b.WriteByte(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func symb(n string) string { return "|" + n + "|" }

func writeTerm(b *strings.Builder, t *Term, names map[int]string) {
	if n, ok := names[t.id]; ok {
		b.WriteString(n)
		return
	}
	switch t.op {
	case "int":
		b.WriteString(intLit(t.iv))
	case "true", "false":
		b.WriteString(t.op)
	case "str":
		b.WriteString(smtStr(t.name))
	case "const", "bvar":
		b.WriteString(symb(t.name))
	case "app":
		if len(t.args) == 0 {
			b.WriteString(symb(t.name))
			return
		}
		b.WriteByte('(')
		if strings.HasPrefix(t.name, "str.") || strings.HasPrefix(t.name, "int.to") {
			b.WriteString(t.name)
		} else {
			b.WriteString(symb(t.name))
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			writeTerm(b, a, names)
		}
		b.WriteByte(')')
	case "lin":
		b.WriteString("(+")
		for i, a := range t.args {
			b.WriteByte(' ')
			if t.coef[i].Cmp(one) == 0 {
				writeTerm(b, a, names)
			} else {
				b.WriteString("(* " + intLit(t.coef[i]) + " ")
				writeTerm(b, a, names)
				b.WriteByte(')')
			}
		}
		if t.iv.Sign() != 0 || len(t.args) == 1 {
			b.WriteByte(' ')
			b.WriteString(intLit(t.iv))
		}
		b.WriteByte(')')
	case "constarr":
		b.WriteString("((as const " + string(t.sort) + ") ")
		writeTerm(b, t.args[0], names)
		b.WriteByte(')')
	case "forall":
		b.WriteString("(forall (")
		n := len(t.args)
		for _, v := range t.args[:n-1] {
			b.WriteString("(" + symb(v.name) + " " + string(v.sort) + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		writeTerm(b, t.args[n-1], names)
		for _, p := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				writeTerm(b, x, names)
			}
			b.WriteByte(')')
		}
		if len(t.pats) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
	default:
		b.WriteByte('(')
		b.WriteString(t.op)
		for _, a := range t.args {
			b.WriteByte(' ')
			writeTerm(b, a, names)
		}
		b.WriteByte(')')
	}
}
