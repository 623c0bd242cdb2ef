package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	root := flag.String("root", "/repo", "")
	specs := flag.String("specs", "/verif/contracts", "")
	prop := flag.String("prop", "", "")
	only := flag.String("only", "", "comma separated unit id prefixes")
	verb := flag.Bool("v", false, "")
	t1 := flag.Int("t1", 10, "")
	t2 := flag.Int("t2", 20, "")
	jsonOut := flag.String("json", "", "")
	flag.StringVar(&dumpDir, "dump", "", "")
	flag.StringVar(&obMatch, "match", "", "only check the obligations whose position and name contain this (development)")
	smoke := flag.Bool("smoke", false, "")
	dl := flag.Int("deadline", 0, "seconds after which open obligations count as undischarged")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *dl > 0 {
		deadline = startTime.Add(time.Duration(*dl) * time.Second)
	}
	resetUniverse()
	if dumpDir != "" {
		_ = os.MkdirAll(dumpDir, 0o755)
	}
	db := NewSpecDB()
	var files []string
	for _, d := range strings.Split(*specs, ",") {
		fs, _ := filepath.Glob(filepath.Join(d, "*.spec"))
		files = append(files, fs...)
	}
	sort.Slice(files, func(i, j int) bool { return filepath.Base(files[i]) < filepath.Base(files[j]) })
	for _, f := range files {
		db.ParseFile(f)
	}
	l, err := NewLoader(*root)
	if err != nil {
		fmt.Println("LOAD-ERROR", err)
		os.Exit(3)
	}
	for _, d := range strings.Split(*specs, ",") {
		if err := l.loadModels(d); err != nil {
			fmt.Println("SPEC-ERROR", err)
			os.Exit(3)
		}
	}
	var rp []string
	for p := range l.list {
		if l.isRepo(p) {
			rp = append(rp, p)
		}
	}
	sort.Strings(rp)
	v := &Verifier{l: l, db: db, prop: *prop, t1: *t1, t2: *t2, verb: *verb}
	for _, gen := range generators {
		gen(v, rp)
	}
	if err := v.checkDefs(); err != nil {
		fmt.Println("SPEC-ERROR", err)
		os.Exit(3)
	}
	units := v.units(*prop, *only)
	if *list {
		for _, u := range units {
			fmt.Println(u.id)
		}
		return
	}
	v.Verify(units)
	res := v.report(units, *smoke)
	if *jsonOut != "" {
		res.write(*jsonOut)
	}
	for _, f := range res.Failures {
		fmt.Printf("FAILED %s | %s | %s | %s %s\n", f.Unit, f.Pos, f.Name, f.Status, f.Dump)
	}
	for _, f := range res.Errors {
		fmt.Printf("UNSUPPORTED %s\n", f)
	}
	for _, f := range res.Vacuous {
		fmt.Printf("VACUOUS %s\n", f)
	}
	fmt.Printf("units=%d obligations=%d proved=%d failed=%d unsupported=%d queries=%d wall=%.1fs solver=%.1fs max=%dms\n", len(units), res.Total, res.Proved, len(res.Failures), len(res.Errors), stats.queries, res.Wall, res.SolverTime, stats.maxDur.Milliseconds())
	if len(res.Failures)+len(res.Errors)+len(res.Vacuous) > 0 {
		os.Exit(1)
	}
}

// generators derive further contracts from the repository's own schema files.
var generators []func(v *Verifier, repoPkgs []string)

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func (c *SContract) about(p string) bool {
	if p == "" || hasTag(c.tags, p) {
		return true
	}
	for _, e := range c.ensures {
		if hasTag(e.tags, p) {
			return true
		}
	}
	return false
}

// units selects what a property's check verifies: its contracts and every
// lemma and definition they can rely on.
func (v *Verifier) units(prop, only string) []*Unit {
	var out []*Unit
	match := func(id string) bool {
		if only == "" {
			return true
		}
		for _, p := range strings.Split(only, ",") {
			if p == id || strings.HasSuffix(p, "*") && strings.HasPrefix(id, p[:len(p)-1]) {
				return true
			}
		}
		return false
	}
	needL := map[string]bool{}
	needD := map[string]bool{}
	var sx func(x *SX)
	var st func(list []*SStmt)
	var lem func(n string)
	var def func(n string)
	def = func(n string) {
		d := v.db.defs[n]
		if d == nil || needD[n] {
			return
		}
		needD[n] = true
		sx(d.body)
	}
	sx = func(x *SX) {
		if x == nil {
			return
		}
		if x.kind == "call" || x.kind == "ident" {
			def(x.name)
		}
		for _, a := range x.args {
			sx(a)
		}
		for _, p := range x.pats {
			for _, y := range p {
				sx(y)
			}
		}
	}
	st = func(list []*SStmt) {
		for _, s := range list {
			if s.kind == "use" {
				lem(s.name)
			}
			if s.kind == "unfold" || s.kind == "reveal" {
				def(s.name)
			}
			sx(s.x)
			for _, a := range s.args {
				sx(a)
			}
			st(s.body)
			st(s.els)
		}
	}
	cls := func(cs []*SClause) {
		for _, c := range cs {
			if !v.visible(c) {
				continue
			}
			sx(c.x)
			st(c.using)
		}
	}
	lem = func(n string) {
		l := v.db.lemmas[n]
		if l == nil || needL[n] {
			return
		}
		needL[n] = true
		cls(l.requires)
		cls(l.ensures)
		sx(l.dec)
		st(l.proof)
	}
	// A run for one property also verifies the contracts it relies on: those
	// of every function under contract that its functions call.
	in := map[string]bool{}
	for _, c := range v.db.conOrder {
		if c.about(prop) && match(c.target) {
			in[c.target] = true
			if prop != "" && only == "" {
				v.callees(c.target, in, map[string]bool{})
			}
		}
	}
	for _, c := range v.db.conOrder {
		if !in[c.target] {
			continue
		}
		if !c.extern && !c.inline && match(c.target) {
			out = append(out, &Unit{id: c.target, kind: "func", con: c})
		}
		cls(c.requires)
		cls(c.ensures)
		cls(c.loopinv)
		cls(c.loopdec)
		st(c.entry)
		st(c.exit)
		for _, a := range c.after {
			st(a.body)
		}
		for _, l := range c.lets {
			sx(l.x)
		}
	}
	for _, l := range v.db.lemOrder {
		if hasTag(l.tags, prop) {
			lem(l.name)
		}
	}
	// automatic lemmas about a needed definition
	for changed := true; changed; {
		changed = false
		for _, l := range v.db.lemOrder {
			if len(l.auto) == 0 || needL[l.name] {
				continue
			}
			hit := prop == ""
			var chk func(x *SX)
			chk = func(x *SX) {
				if x == nil {
					return
				}
				if x.kind == "call" && (needD[x.name] || v.db.defs[x.name] == nil) {
					hit = true
				}
				for _, a := range x.args {
					chk(a)
				}
			}
			for _, p := range l.auto {
				for _, y := range p {
					chk(y)
				}
			}
			if hit {
				lem(l.name)
				changed = true
			}
		}
	}
	for _, l := range v.db.lemOrder {
		if l.trusted || (prop != "" && !needL[l.name]) {
			continue
		}
		if id := "lemma:" + l.name; match(id) {
			out = append(out, &Unit{id: id, kind: "lemma", lemma: l})
		}
	}
	var ds []string
	for n, d := range v.db.defs {
		if d.kind == "rec" && (prop == "" || needD[n]) {
			ds = append(ds, n)
		}
	}
	sort.Strings(ds)
	for _, n := range ds {
		if id := "def:" + n; match(id) {
			out = append(out, &Unit{id: id, kind: "def", def: v.db.defs[n]})
		}
	}
	return out
}

// callees adds the functions under contract that the function calls, also
// through functions without one.
func (v *Verifier) callees(key string, in, seen map[string]bool) {
	if seen[key] {
		return
	}
	seen[key] = true
	if c := v.db.contracts[key]; c != nil && !c.extern && !c.inline {
		in[key] = true
	}
	fd := v.findFunc(key)
	if fd == nil || fd.pkg.std {
		return
	}
	ast.Inspect(fd.decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if f, ok := fd.pkg.info.Uses[id].(*types.Func); ok {
				v.callees(funcKey(f), in, seen)
			}
		}
		return true
	})
}
