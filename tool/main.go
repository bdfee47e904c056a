package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type oblReport struct {
	Function string  `json:"function"`
	Kind     string  `json:"kind"`
	Name     string  `json:"obligation"`
	Status   string  `json:"status"`
	Backend  string  `json:"backend"`
	Ms       float64 `json:"ms"`
	Where    string  `json:"where,omitempty"`
	Goal     string  `json:"goal,omitempty"`
	Output   string  `json:"output,omitempty"`
}

type report struct {
	Property    string             `json:"property"`
	OK          bool               `json:"ok"`
	Error       string             `json:"error,omitempty"`
	Functions   []string           `json:"functions"`
	Inlined     []string           `json:"inlined"`
	Obligations int                `json:"obligations"`
	Discharged  int                `json:"discharged"`
	Kinds       map[string]int     `json:"kinds"`
	Backends    map[string]int     `json:"backends"`
	SolverSec   map[string]float64 `json:"solver_seconds"`
	Failed      []oblReport        `json:"failed"`
	Unsupported []string           `json:"unsupported"`
	Trusted     []string           `json:"trusted"`
	Externs     []string           `json:"externs_unconstrained"`
	Axioms      []string           `json:"axioms"`
	Lemmas      []string           `json:"lemmas"`
	Loops       int                `json:"loops"`
	Invariants  []string           `json:"invariants"`
	Paths       int                `json:"paths"`
	Sec         float64            `json:"seconds"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property")
	only := flag.String("func", "", "verify only this function")
	out := flag.String("out", "", "report file")
	dump := flag.String("dump", "", "directory for failed queries")
	verbose := flag.Bool("v", false, "verbose")
	list := flag.Bool("list", false, "list functions of the module")
	listProps := flag.Bool("props", false, "list the contracts of each property")
	learnedFile := flag.String("learned", "", "what earlier runs learned")
	flag.BoolVar(&smoke, "smoke", false, "look for contradictory assumptions")
	learn := flag.Bool("learn", false, "write what this run learns")
	flag.Parse()
	t0 := time.Now()
	rep := &report{Property: *prop, Kinds: map[string]int{}, Backends: map[string]int{}, SolverSec: map[string]float64{}}
	finish := func(code int) {
		rep.Sec = time.Since(t0).Seconds()
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			if err := os.WriteFile(*out, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
		os.Exit(code)
	}
	activeProp = *prop
	v, err := load(*repo)
	if err != nil {
		rep.Error = "load: " + err.Error()
		fmt.Println(rep.Error)
		finish(2)
	}
	v.verbose = *verbose
	if *learnedFile != "" {
		v.learned = loadLearned(*learnedFile)
	}
	v.dumpDir = *dump
	if smoke {
		v.firstMs, v.secondMs = 1500, 1500
	}
	if *list {
		for _, k := range sortedKeys(v.funcs) {
			fmt.Println(k, v.pos(v.funcs[k].Pos()))
		}
		return
	}
	db, err := loadSpecsSafe(*specs)
	if err != nil {
		rep.Error = "contracts: " + err.Error()
		fmt.Println(rep.Error)
		finish(1)
	}
	v.db = db
	if *listProps {
		for _, k := range db.order {
			fmt.Println(k, db.funcs[k].kind, db.funcs[k].props)
		}
		return
	}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(specErr); ok {
				rep.Error = "contracts: " + s.msg
				fmt.Println("contract error:", s.msg)
				finish(1)
			}
			panic(e)
		}
	}()
	var queue []string
	if *only != "" {
		queue = []string{*only}
	} else {
		for _, k := range db.order {
			f := db.funcs[k]
			if f.kind != "func" || f.flags["inline"] || f.flags["trusted"] {
				continue
			}
			for _, p := range f.props {
				if *prop == "" || p == *prop {
					queue = append(queue, k)
					break
				}
			}
		}
	}
	done := map[string]bool{}
	bad := 0
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if done[k] {
			continue
		}
		done[k] = true
		sp := db.funcs[k]
		if sp == nil {
			fmt.Println("no contract for", k)
			finish(2)
		}
		var frs []*FuncResult
		if !*learn {
			v.skip = v.skipSet(*prop, k, v.funcs[k])
		}
		v.skipped = 0
		frs = v.verifySafe(sp)
		if v.skipped > 0 {
			bad := false
			for _, fr := range frs {
				bad = bad || len(fr.errs) > 0 || len(fr.failed()) > 0
			}
			if bad {
				v.skip = nil
				frs = v.verifySafe(sp)
			}
		}
		v.skip = nil
		if *learn {
			v.learn(*prop, sp, frs)
		}
		for _, fr := range frs {
			rep.Functions = append(rep.Functions, fr.key)
			rep.Paths += fr.paths
			rep.Loops += fr.loops
			if smoke {
				n, dead := 0, 0
				for _, o := range fr.obls {
					if o.kind == "smoke" {
						n++
						if o.res != nil && o.res.status == "unsat" {
							dead++
						}
					}
				}
				w := ""
				if dead == n {
					w = "VACUOUS"
				}
				fmt.Printf("%-50s returns %d, unreachable %d %s\n", fr.key, n, dead, w)
				continue
			}
			failed := fr.failed()
			if len(fr.errs) > 0 || len(failed) > 0 {
				bad++
			}
			status := "ok"
			if len(fr.errs) > 0 || len(failed) > 0 {
				status = "FAILED"
			}
			fmt.Printf("%-50s %-6s obligations %d/%d paths %d loops %d %.2fs\n", fr.key, status, len(fr.obls)-len(failed), len(fr.obls), fr.paths, fr.loops, fr.time.Seconds())
			for _, e := range fr.errs {
				fmt.Println("    ", e)
				rep.Unsupported = append(rep.Unsupported, fr.key+": "+e)
			}
			for _, o := range fr.obls {
				rep.Obligations++
				rep.Kinds[o.kind]++
				if o.res != nil && o.res.status == "unsat" {
					rep.Discharged++
					rep.Backends[strings.TrimPrefix(o.res.backend, "quick:")]++
				}
			}
			seen := map[string]int{}
			for _, o := range failed {
				key := o.kind + o.name
				seen[key]++
				if seen[key] > 3 {
					continue
				}
				fmt.Printf("     failed %s %s %s (%s)\n", o.kind, o.name, o.where, o.res.status)
				if *verbose {
					fmt.Println("       goal:", o.goal)
					for _, p := range o.pc {
						fmt.Println("         pc:", p)
					}
				}
				rep.Failed = append(rep.Failed, oblReport{Function: o.fn, Kind: o.kind, Name: o.name, Status: o.res.status, Backend: o.res.backend,
					Ms: float64(o.res.time.Microseconds()) / 1000, Where: o.where, Goal: o.goal.String(), Output: firstN(o.res.out, 2000)})
			}
			if *verbose || status != "ok" {
				for _, cd := range fr.dropped {
					if cd.user || *verbose {
						fmt.Println("     not invariant:", cd.loop.key, cd.text, "--", cd.why)
					}
				}
			}
			if *verbose {
				for _, cd := range fr.kept {
					fmt.Println("     invariant:", cd.loop.key, cd.text)
				}
			}
			for _, cd := range fr.kept {
				rep.Invariants = append(rep.Invariants, fr.key+" "+cd.text)
			}
		}
		for _, u := range sortedKeys(v.used) {
			if us := db.funcs[u]; us != nil && us.kind == "func" && !us.flags["trusted"] && !us.flags["inline"] && !done[u] && *only == "" {
				queue = append(queue, u)
			}
		}
	}
	// lemmas that were used, or stated for the property
	ldone := map[*LemmaDecl]bool{}
	for {
		progress := false
		for i, l := range db.lemmas {
			want := v.usedLemmas[l]
			for _, p := range l.props {
				if p == *prop || *prop == "" && *only == "" {
					want = true
				}
			}
			if !want || ldone[l] {
				continue
			}
			ldone[l] = true
			progress = true
			if l.axiom {
				rep.Axioms = append(rep.Axioms, l.name)
				continue
			}
			rep.Lemmas = append(rep.Lemmas, l.name)
			// only earlier lemmas may be used
			v.lemmaLimit = map[*LemmaDecl]bool{}
			for _, m := range db.lemmas[i:] {
				if !m.axiom || m == l {
					v.lemmaLimit[m] = true
				}
			}
			obls := v.lemmaObligations(l)
			v.solveAll(obls, false)
			nb := 0
			for _, o := range obls {
				rep.Obligations++
				rep.Kinds["lemma"]++
				if o.res.status == "unsat" {
					rep.Discharged++
					rep.Backends[o.res.backend]++
					continue
				}
				nb++
				rep.Failed = append(rep.Failed, oblReport{Function: o.fn, Kind: o.kind, Name: o.name, Status: o.res.status, Backend: o.res.backend, Goal: o.goal.String(), Output: firstN(o.res.out, 2000)})
				fmt.Printf("     failed lemma %s %s (%s)\n", l.name, o.name, o.res.status)
				if *verbose {
					fmt.Println("       goal:", o.goal)
				}
			}
			v.lemmaLimit = nil
			st := "ok"
			if nb > 0 {
				st = "FAILED"
				bad++
			}
			fmt.Printf("lemma %-44s %-6s obligations %d/%d\n", l.name, st, len(obls)-nb, len(obls))
		}
		if !progress {
			break
		}
	}
	for _, k := range sortedKeys(v.used) {
		f := db.funcs[k]
		if f == nil {
			continue
		}
		if f.kind != "func" || f.flags["trusted"] {
			rep.Trusted = append(rep.Trusted, f.kind+" "+k)
			continue
		}
		for _, cl := range f.of("ensures") {
			if provedElsewhere(cl) && activeClause(cl) {
				rep.Trusted = append(rep.Trusted, fmt.Sprintf("clause %s of %s, proved by the check of %s", cl.label, k, strings.Join(cl.by, ", ")))
			}
		}
	}
	rep.Inlined = sortedKeys(v.inlined)
	rep.Externs = sortedKeys(v.externs)
	for k, d := range solverTime {
		rep.SolverSec[k] = d.Seconds()
	}
	sort.Strings(rep.Trusted)
	if rep.Obligations == 0 && *only == "" {
		rep.Error = "no obligations"
		fmt.Println("no obligations for", *prop)
		finish(2)
	}
	rep.OK = bad == 0
	if *learn && *only == "" {
		if err := v.learned.save(*learnedFile); err != nil {
			fmt.Println(err)
		}
	}
	fmt.Printf("%s: %d/%d obligations discharged, %.1fs\n", *prop, rep.Discharged, rep.Obligations, time.Since(t0).Seconds())
	if bad > 0 {
		finish(1)
	}
	finish(0)
}

func loadSpecsSafe(dir string) (db *SpecDB, err error) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(specErr); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(e)
		}
	}()
	return loadSpecs(dir)
}

// verifySafe turns a contract that no longer fits the code into a failure.
func (v *Verifier) verifySafe(sp *FuncSpec) (out []*FuncResult) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case specErr:
				out = append(out, &FuncResult{key: sp.key, errs: []string{"contract error: " + e.msg}})
			case unsupported:
				out = append(out, &FuncResult{key: sp.key, errs: []string{"outside the supported subset: " + e.msg}})
			default:
				panic(e)
			}
		}
	}()
	return v.verifySpec(sp)
}
