package main

import (
	"encoding/json"
	"os"
	"sort"
	"time"
)

type Failure struct {
	Unit, Pos, Name, Kind, Status, Solver, Output, Dump string
	Script                                              string `json:",omitempty"`
}

type UnitReport struct {
	ID, Kind, Pos string
	Obligations   int
	Proved        int
	ByKind        map[string]int
	Skipped       int
	Paths         int
	Rounds        int
	Invariants    []string `json:",omitempty"`
	Uses          []string `json:",omitempty"`
	Lemmas        []string `json:",omitempty"`
	Ms            int64
	Error         string `json:",omitempty"`
}

type Result struct {
	Prop       string
	Units      []UnitReport
	Total      int
	Proved     int
	Failures   []Failure
	Errors     []string
	Vacuous    []string
	Trusted    []string
	Wall       float64
	SolverTime float64
	BySolver   map[string]int
	Queries    int
	MaxMs      int64
}

func (r *Result) write(p string) {
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
}

func (v *Verifier) report(units []*Unit, smoke bool) *Result {
	r := &Result{Prop: v.prop, BySolver: map[string]int{}}
	trusted := map[string]bool{}
	for _, u := range units {
		ur := UnitReport{ID: u.id, Kind: u.kind, Pos: u.pos, ByKind: map[string]int{}, Paths: u.paths, Rounds: u.rounds, Error: u.err}
		if u.err != "" {
			r.Errors = append(r.Errors, u.id+": "+u.err)
		}
		inv := map[string]bool{}
		if u.err == "" {
			for _, o := range u.obs {
				if o.status == "skipped" {
					ur.Skipped++
					continue
				}
				r.Total++
				ur.Obligations++
				ur.Ms += o.ms
				ur.ByKind[o.kind]++
				if o.cand != "" {
					inv[o.cand] = true
				}
				if o.status == "unsat" {
					r.Proved++
					ur.Proved++
					r.BySolver[o.solver]++
					continue
				}
				f := Failure{u.id, o.pos, o.name, o.kind, o.status, o.solver, short(o.out, 400), dump(o), ""}
				f.Script = o.script
				r.Failures = append(r.Failures, f)
			}
		}
		ur.Invariants = sortedSet(inv)
		ur.Uses = sortedSet(u.used)
		ur.Lemmas = sortedSet(u.lemmas)
		for c := range u.used {
			if d := v.db.contracts[c]; d == nil || d.extern {
				trusted[c] = true
			}
		}
		r.Units = append(r.Units, ur)
	}
	if smoke {
		r.Vacuous = v.Smoke(units)
	}
	r.Trusted = sortedSet(trusted)
	r.Wall = time.Since(startTime).Seconds()
	var names []string
	for n, d := range stats.time {
		r.SolverTime += d.Seconds()
		names = append(names, n)
	}
	sort.Strings(names)
	r.Queries = stats.queries
	r.MaxMs = stats.maxDur.Milliseconds()
	return r
}
