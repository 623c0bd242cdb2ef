package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

// ---- specification AST ----

type SX struct {
	kind string // int str ident call sel index un bin cond forall exists let old deref lit
	name string
	iv   *big.Int
	args []*SX
	vars []SVar
	pats [][]*SX
	pos  string
}

type SVar struct {
	name string
	sort string
	typ  string
}

type SDef struct {
	name   string
	params []SVar
	sort   string
	body   *SX
	dec    *SX
	kind   string // macro opaque rec uninterp
	pos    string
}

type SStmt struct {
	kind string // use assert let unfold if reveal
	name string
	args []*SX
	x    *SX
	body []*SStmt
	els  []*SStmt
	vars []SVar
	pos  string
}

type SClause struct {
	tags  []string
	name  string
	x     *SX
	using []*SStmt
	vars  []SVar // loop candidates: metavariables
	pos   string
}

type SLemma struct {
	name     string
	params   []SVar
	requires []*SClause
	ensures  []*SClause
	dec      *SX
	auto     [][]*SX
	proof    []*SStmt
	order    int
	tags     []string
	trusted  bool
	pos      string
}

type SLet struct {
	name string
	x    *SX
}

// SAfter holds hints for the state after each call of a function under contract.
type SAfter struct {
	target, pos     string
	params, results []string
	body            []*SStmt
}

type SContract struct {
	after    []*SAfter
	target   string
	params   []string
	results  []string
	ghosts   []SVar
	lets     []SLet
	requires []*SClause
	mods     []*SX
	ensures  []*SClause
	entry    []*SStmt
	exit     []*SStmt
	loopinv  []*SClause
	loopdec  []*SClause
	unroll   int
	extern   bool // no body verified: trusted
	inline   bool
	panics   *SX
	tags     []string
	note     string
	strmode  string
	pos      string
	model    string // name of Go model function to inline instead
}

type SpecDB struct {
	defs      map[string]*SDef
	lemmas    map[string]*SLemma
	lemOrder  []*SLemma
	contracts map[string]*SContract
	conOrder  []*SContract
	aliases   map[string]map[string]string // struct type -> alias -> field type string
}

func NewSpecDB() *SpecDB {
	return &SpecDB{defs: map[string]*SDef{}, lemmas: map[string]*SLemma{}, contracts: map[string]*SContract{}, aliases: map[string]map[string]string{}}
}

// ---- lexer ----

type tok struct {
	k    string // id int str op eof
	s    string
	line int
}

type sparser struct {
	file string
	toks []tok
	p    int
	db   *SpecDB
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ":", ";", "+", "-", "*", "/", "%", "<", ">", "!", "?", ".", "=", "#"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == '_') {
				j++
			}
			out = append(out, tok{"int", strings.ReplaceAll(src[i:j], "_", ""), line})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[j])
					}
					j++
					continue
				}
				b.WriteByte(src[j])
				j++
			}
			out = append(out, tok{"str", b.String(), line})
			i = j + 1
		case c == '`':
			j := i + 1
			for src[j] != '`' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], line})
			i = j + 1
		case c == '_' || c == '$' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i + 1
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] == '\'' || src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				panic(fmt.Sprintf("%s:%d: bad character %q", file, line, c))
			}
		}
	}
	out = append(out, tok{"eof", "", line})
	return out
}

func (p *sparser) cur() tok { return p.toks[p.p] }
func (p *sparser) pos() string {
	return fmt.Sprintf("%s:%d", p.file, p.cur().line)
}
func (p *sparser) fail(m string) {
	panic(fmt.Sprintf("%s: %s (at %q)", p.pos(), m, p.cur().s))
}
func (p *sparser) is(s string) bool {
	t := p.cur()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *sparser) id() string {
	t := p.cur()
	if t.k != "id" {
		p.fail("expected identifier")
	}
	p.p++
	return t.s
}

// ---- expressions ----

func (p *sparser) expr() *SX { return p.iff() }

func (p *sparser) bin(op string, a, b *SX, pos string) *SX {
	return &SX{kind: "bin", name: op, args: []*SX{a, b}, pos: pos}
}

func (p *sparser) iff() *SX {
	a := p.impl()
	for p.is("<==>") {
		pos := p.pos()
		p.p++
		a = p.bin("<==>", a, p.impl(), pos)
	}
	return a
}
func (p *sparser) impl() *SX {
	a := p.cond()
	if p.is("==>") {
		pos := p.pos()
		p.p++
		return p.bin("==>", a, p.impl(), pos)
	}
	return a
}
func (p *sparser) cond() *SX {
	a := p.or()
	if p.is("?") {
		pos := p.pos()
		p.p++
		b := p.cond()
		p.expect(":")
		c := p.cond()
		return &SX{kind: "cond", args: []*SX{a, b, c}, pos: pos}
	}
	return a
}
func (p *sparser) or() *SX {
	a := p.and()
	for p.is("||") {
		pos := p.pos()
		p.p++
		a = p.bin("||", a, p.and(), pos)
	}
	return a
}
func (p *sparser) and() *SX {
	a := p.cmp()
	for p.is("&&") {
		pos := p.pos()
		p.p++
		a = p.bin("&&", a, p.cmp(), pos)
	}
	return a
}
func (p *sparser) cmp() *SX {
	a := p.sum()
	var out *SX
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.is(o) {
				op = o
				break
			}
		}
		if op == "" {
			break
		}
		pos := p.pos()
		p.p++
		b := p.sum()
		c := p.bin(op, a, b, pos)
		if out == nil {
			out = c
		} else {
			out = p.bin("&&", out, c, pos)
		}
		a = b
	}
	if out != nil {
		return out
	}
	return a
}
func (p *sparser) sum() *SX {
	a := p.prod()
	for p.is("+") || p.is("-") {
		pos := p.pos()
		op := p.cur().s
		p.p++
		a = p.bin(op, a, p.prod(), pos)
	}
	return a
}
func (p *sparser) prod() *SX {
	a := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		pos := p.pos()
		op := p.cur().s
		p.p++
		a = p.bin(op, a, p.unary(), pos)
	}
	return a
}
func (p *sparser) unary() *SX {
	pos := p.pos()
	if p.accept("!") {
		return &SX{kind: "un", name: "!", args: []*SX{p.unary()}, pos: pos}
	}
	if p.accept("-") {
		return &SX{kind: "un", name: "-", args: []*SX{p.unary()}, pos: pos}
	}
	if p.accept("*") {
		return &SX{kind: "deref", args: []*SX{p.unary()}, pos: pos}
	}
	return p.postfix()
}
func (p *sparser) postfix() *SX {
	a := p.primary()
	for {
		pos := p.pos()
		if p.accept(".") {
			if p.cur().k == "int" {
				a = &SX{kind: "sel", name: p.cur().s, args: []*SX{a}, pos: pos}
				p.p++
				continue
			}
			a = &SX{kind: "sel", name: p.id(), args: []*SX{a}, pos: pos}
			continue
		}
		if p.is("[") {
			p.p++
			i := p.expr()
			p.expect("]")
			a = &SX{kind: "index", args: []*SX{a, i}, pos: pos}
			continue
		}
		return a
	}
}

func (p *sparser) svars(end string) []SVar {
	var out []SVar
	for !p.is(end) {
		names := []string{p.id()}
		for p.accept(",") {
			names = append(names, p.id())
		}
		p.expect(":")
		s := p.id()
		typ := ""
		if p.cur().k == "str" { // the Go type of a metavariable
			typ = p.cur().s
			p.p++
		}
		for _, n := range names {
			out = append(out, SVar{n, s, typ})
		}
		if !p.accept(",") && !p.accept(";") {
			break
		}
	}
	return out
}

func (p *sparser) primary() *SX {
	pos := p.pos()
	t := p.cur()
	switch {
	case t.k == "int":
		p.p++
		v, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("bad int")
		}
		return &SX{kind: "int", iv: v, pos: pos}
	case t.k == "str":
		p.p++
		return &SX{kind: "str", name: t.s, pos: pos}
	case p.accept("("):
		e := p.expr()
		p.expect(")")
		return e
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		p.p++
		vs := p.svars("::")
		p.expect("::")
		var pats [][]*SX
		for p.is("{") {
			p.p++
			var pt []*SX
			pt = append(pt, p.expr())
			for p.accept(",") {
				pt = append(pt, p.expr())
			}
			p.expect("}")
			pats = append(pats, pt)
		}
		return &SX{kind: t.s, vars: vs, pats: pats, args: []*SX{p.expr()}, pos: pos}
	case t.k == "id" && t.s == "let":
		p.p++
		n := p.id()
		p.expect("=")
		v := p.expr()
		if !p.accept("in") {
			p.expect(";")
		}
		return &SX{kind: "let", name: n, args: []*SX{v, p.expr()}, pos: pos}
	case t.k == "id" && t.s == "old":
		p.p++
		p.expect("(")
		e := p.expr()
		p.expect(")")
		return &SX{kind: "old", args: []*SX{e}, pos: pos}
	case t.k == "id":
		p.p++
		if p.is("(") {
			p.p++
			x := &SX{kind: "call", name: t.s, pos: pos}
			for !p.is(")") {
				x.args = append(x.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return x
		}
		return &SX{kind: "ident", name: t.s, pos: pos}
	}
	p.fail("expected expression")
	return nil
}

// ---- statements (proof hints) ----

func (p *sparser) block() []*SStmt {
	p.expect("{")
	var out []*SStmt
	for !p.accept("}") {
		out = append(out, p.stmt())
	}
	return out
}

func (p *sparser) stmt() *SStmt {
	pos := p.pos()
	switch {
	case p.accept("use"), p.accept("unfold"):
		kind := p.toks[p.p-1].s
		n := p.id()
		p.expect("(")
		s := &SStmt{kind: kind, name: n, pos: pos}
		for !p.is(")") {
			s.args = append(s.args, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		p.accept(";")
		return s
	case p.accept("reveal"):
		s := &SStmt{kind: "reveal", name: p.id(), pos: pos}
		p.accept(";")
		return s
	case p.accept("assert"):
		s := &SStmt{kind: "assert", pos: pos}
		if p.cur().k == "id" && p.toks[p.p+1].s == ":" && p.toks[p.p+1].k == "op" {
			s.name = p.id()
			p.p++
		}
		s.x = p.expr()
		if p.is("by") {
			p.p++
			s.body = p.block()
		}
		p.accept(";")
		return s
	case p.accept("let"):
		s := &SStmt{kind: "let", name: p.id(), pos: pos}
		p.expect("=")
		s.x = p.expr()
		p.accept(";")
		return s
	case p.accept("ghost"):
		// ghost g: Sort = e : remembers e under the name g until the exit (after blocks only)
		s := &SStmt{kind: "ghost", name: p.id(), pos: pos}
		p.expect(":")
		s.vars = []SVar{{s.name, p.id(), ""}}
		p.expect("=")
		s.x = p.expr()
		p.accept(";")
		return s
	case p.accept("forall"):
		// forall x: Int { use L(..x..) } : adds the quantified instance, pattern given
		s := &SStmt{kind: "forall", vars: p.svars("::"), pos: pos}
		p.expect("::")
		p.expect("{")
		for !p.accept("}") {
			s.args = append(s.args, p.expr())
			p.accept(",")
		}
		s.body = p.block()
		return s
	case p.accept("if"):
		s := &SStmt{kind: "if", x: p.expr(), pos: pos}
		s.body = p.block()
		if p.accept("else") {
			if p.is("if") {
				s.els = []*SStmt{p.stmt()}
			} else {
				s.els = p.block()
			}
		}
		return s
	}
	p.fail("expected proof statement")
	return nil
}

// ---- declarations ----

func (p *sparser) params() []SVar {
	p.expect("(")
	vs := p.svars(")")
	p.expect(")")
	return vs
}

func (p *sparser) clauseHead() *SClause {
	c := &SClause{pos: p.pos()}
	if p.is("[") {
		p.p++
		for !p.accept("]") {
			c.tags = append(c.tags, p.id())
			p.accept(",")
		}
	}
	if p.cur().k == "id" && p.toks[p.p+1].k == "op" && p.toks[p.p+1].s == ":" {
		c.name = p.id()
		p.p++
	}
	return c
}

func (p *sparser) nameList() []string {
	var out []string
	p.expect("(")
	for !p.accept(")") {
		out = append(out, p.id())
		p.accept(",")
	}
	return out
}

func (p *sparser) file_() {
	for p.cur().k != "eof" {
		pos := p.pos()
		switch {
		case p.accept("opaque"):
			p.expect("def")
			p.def("opaque", pos)
		case p.accept("def"):
			p.def("macro", pos)
		case p.accept("rec"):
			p.def("rec", pos)
		case p.accept("uninterp"):
			p.def("uninterp", pos)
		case p.accept("lemma"), p.accept("axiom"):
			tr := p.toks[p.p-1].s == "axiom"
			l := &SLemma{name: p.id(), pos: pos, trusted: tr}
			l.params = p.params()
			for {
				if p.accept("requires") {
					c := p.clauseHead()
					c.x = p.expr()
					l.requires = append(l.requires, c)
				} else if p.accept("ensures") {
					c := p.clauseHead()
					c.x = p.expr()
					if p.accept("using") {
						c.using = p.block()
					}
					l.ensures = append(l.ensures, c)
				} else if p.accept("decreases") {
					l.dec = p.expr()
				} else if p.accept("auto") {
					p.expect("{")
					var pt []*SX
					pt = append(pt, p.expr())
					for p.accept(",") {
						pt = append(pt, p.expr())
					}
					p.expect("}")
					l.auto = append(l.auto, pt)
				} else if p.accept("tags") {
					for p.cur().k == "id" && len(p.cur().s) == 3 && p.cur().s[0] == 'C' {
						l.tags = append(l.tags, p.id())
					}
				} else if p.accept("proof") {
					l.proof = p.block()
				} else {
					break
				}
			}
			if p.db.lemmas[l.name] != nil {
				p.fail("duplicate lemma " + l.name)
			}
			l.order = len(p.db.lemOrder) + 1
			p.db.lemmas[l.name] = l
			p.db.lemOrder = append(p.db.lemOrder, l)
		case p.accept("fieldalias"):
			t := p.cur().s
			p.p++
			a := p.id()
			ft := p.cur().s
			p.p++
			if p.db.aliases[t] == nil {
				p.db.aliases[t] = map[string]string{}
			}
			p.db.aliases[t][a] = ft
		case p.accept("contract"), p.accept("extern"):
			p.contract(p.toks[p.p-1].s == "extern", pos)
		default:
			p.fail("expected declaration")
		}
	}
}

func (p *sparser) def(kind, pos string) {
	d := &SDef{kind: kind, name: p.id(), pos: pos}
	d.params = p.params()
	p.expect(":")
	d.sort = p.id()
	if p.accept("decreases") {
		d.dec = p.expr()
	}
	if kind != "uninterp" {
		p.expect("=")
		d.body = p.expr()
	}
	if p.db.defs[d.name] != nil {
		p.fail("duplicate def " + d.name)
	}
	p.db.defs[d.name] = d
}

func (p *sparser) contract(ext bool, pos string) {
	t := p.cur()
	if t.k != "str" && t.k != "id" {
		p.fail("expected target")
	}
	p.p++
	for p.accept(".") {
		t.s += "." + p.id()
	}
	c := &SContract{target: t.s, extern: ext, pos: pos}
	c.params = p.nameList()
	if p.is("(") {
		c.results = p.nameList()
	}
	for {
		switch {
		case p.accept("ghost"):
			n := p.id()
			p.expect(":")
			c.ghosts = append(c.ghosts, SVar{n, p.id(), ""})
		case p.accept("let"):
			n := p.id()
			p.expect("=")
			c.lets = append(c.lets, SLet{n, p.expr()})
		case p.accept("requires"):
			cl := p.clauseHead()
			cl.x = p.expr()
			c.requires = append(c.requires, cl)
		case p.accept("ensures"):
			cl := p.clauseHead()
			cl.x = p.expr()
			if p.accept("using") {
				cl.using = p.block()
			}
			c.ensures = append(c.ensures, cl)
		case p.accept("modifies"):
			for {
				c.mods = append(c.mods, p.unary())
				if !p.accept(",") {
					break
				}
			}
		case p.accept("tags"):
			for p.cur().k == "id" && len(p.cur().s) == 3 && p.cur().s[0] == 'C' {
				c.tags = append(c.tags, p.id())
			}
		case p.accept("entry"):
			c.entry = append(c.entry, p.block()...)
		case p.accept("after"):
			a := &SAfter{target: p.cur().s, pos: p.pos()}
			p.p++
			for p.accept(".") {
				a.target += "." + p.id()
			}
			a.params = p.nameList()
			if p.is("(") {
				a.results = p.nameList()
			}
			a.body = p.block()
			c.after = append(c.after, a)
		case p.accept("exit"):
			c.exit = append(c.exit, p.block()...)
		case p.accept("loopinv"), p.accept("loopdec"):
			isInv := p.toks[p.p-1].s == "loopinv"
			cl := &SClause{pos: p.pos()}
			if p.accept("for") {
				for p.cur().k == "id" && len(p.cur().s) == 3 && p.cur().s[0] == 'C' {
					cl.tags = append(cl.tags, p.id())
				}
			}
			if p.accept("[") {
				cl.vars = p.svars("]")
				p.expect("]")
			}
			if p.cur().k == "id" && p.toks[p.p+1].k == "op" && p.toks[p.p+1].s == ":" {
				cl.name = p.id()
				p.p++
			}
			cl.x = p.expr()
			if p.accept("using") {
				cl.using = p.block()
			}
			if isInv {
				c.loopinv = append(c.loopinv, cl)
			} else {
				c.loopdec = append(c.loopdec, cl)
			}
		case p.accept("unroll"):
			fmt.Sscan(p.cur().s, &c.unroll)
			p.p++
		case p.accept("inline"):
			c.inline = true
		case p.accept("panics"):
			p.expect("when")
			c.panics = p.expr()
		case p.accept("note"):
			c.note = p.cur().s
			p.p++
		case p.accept("model"):
			c.model = p.cur().s
			p.p++
		case p.accept("strings"):
			c.strmode = p.id()
		default:
			if p.db.contracts[c.target] != nil {
				panic(pos + ": duplicate contract " + c.target)
			}
			p.db.contracts[c.target] = c
			p.db.conOrder = append(p.db.conOrder, c)
			return
		}
	}
}

func (db *SpecDB) ParseFile(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	db.ParseString(path, string(b))
}

func (db *SpecDB) ParseString(path, src string) {
	p := &sparser{file: path, toks: lexSpec(path, src), db: db}
	p.file_()
}
