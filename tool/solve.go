package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// SolveResult is a back end's answer.
type SolveResult struct {
	status  string // unsat (proved), sat, unknown
	backend string
	time    time.Duration
	out     string
	query   string
}

type solver struct {
	name string
	args func(ms int) []string
}

var solvers = map[string]solver{
	"z3": {"z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false"}
	}},
	"z3-nra": {"z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms)}
	}},
	"z3-mbqi": {"z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms)}
	}},
	"z3-4.8": {"z3", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false"}
	}},
	// the same with other random choices: for an obligation nothing else decided
	"z3-seed1": {"z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false", "smt.random_seed=7", "sat.random_seed=7"}
	}},
	"z3-seed2": {"z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false", "smt.random_seed=42", "smt.relevancy=0"}
	}},
	"cvc5": {"cvc5", func(ms int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}
	}},
}

var (
	solveMu    sync.Mutex
	solveCache = map[[32]byte]*SolveResult{}
	solverSem  = make(chan bool, 8)
	solverTime = map[string]time.Duration{}
	solverN    = map[string]int{}
)

// qlog records every query's back end, time, size and answer (GOVC_QLOG)
var qlog = func() *os.File {
	if n := os.Getenv("GOVC_QLOG"); n != "" {
		f, _ := os.Create(n)
		return f
	}
	return nil
}()

func runSolver(name, q string, ms int) *SolveResult {
	s := solvers[name]
	if _, err := exec.LookPath(s.name); err != nil {
		return &SolveResult{status: "unknown", backend: name, out: err.Error()}
	}
	solverSem <- true
	defer func() { <-solverSem }()
	t0 := time.Now()
	cx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+3*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cx, s.name, s.args(ms)...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	d := time.Since(t0)
	solveMu.Lock()
	solverTime[name] += d
	solveMu.Unlock()
	o := strings.TrimSpace(out.String())
	if qlog != nil {
		solveMu.Lock()
		fmt.Fprintf(qlog, "%s %d %d %.40s\n", name, d.Milliseconds(), len(q), o)
		solveMu.Unlock()
	}
	for strings.HasPrefix(o, "WARNING") {
		fmt.Fprintf(os.Stderr, "solver %s: %s\n", name, strings.SplitN(o, "\n", 2)[0])
		if i := strings.IndexByte(o, '\n'); i >= 0 {
			o = strings.TrimSpace(o[i+1:])
		} else {
			o = ""
		}
	}
	res := &SolveResult{status: "unknown", backend: name, time: d, out: o}
	line := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		line = strings.TrimSpace(o[:i])
	}
	switch line {
	case "unsat":
		res.status = "unsat"
	case "sat":
		res.status = "sat"
	}
	if strings.Contains(o, "(error") && res.status != "unsat" {
		res.status = "error"
	}
	return res
}

// prove checks that the goal follows from the hypotheses.
func (v *Verifier) prove(pc []*Term, goal *Term, quick bool) *SolveResult {
	if goal == tTrue {
		return &SolveResult{status: "unsat", backend: "simplifier"}
	}
	for _, p := range pc {
		if p == tFalse {
			return &SolveResult{status: "unsat", backend: "simplifier"}
		}
	}
	termMu.Lock()
	q := v.query(pc, goal)
	nq := ""
	if nonlinear(goal, map[*Term]bool{}) {
		nq = nraQuery(pc, goal)
	}
	termMu.Unlock()
	if nq != "" {
		if r := v.solveNRA(nq, quick); r.status == "unsat" {
			return r
		}
	}
	return v.solve(q, quick)
}

func (v *Verifier) solveNRA(q string, quick bool) *SolveResult {
	h := sha256.Sum256([]byte(q))
	solveMu.Lock()
	r, ok := solveCache[h]
	solveMu.Unlock()
	if ok {
		return r
	}
	ms := 4000
	if quick {
		ms = 800
	}
	r = runSolver("z3-nra", q, ms)
	r.query = q
	solveMu.Lock()
	solveCache[h] = r
	if r.status == "unsat" {
		solverN[r.backend]++
	}
	solveMu.Unlock()
	if v.dumpDir != "" && r.status != "unsat" {
		os.MkdirAll(v.dumpDir, 0o755)
		os.WriteFile(fmt.Sprintf("%s/nra-%x.smt2", v.dumpDir, h[:6]), []byte(q), 0o644)
	}
	return r
}

func (v *Verifier) solve(q string, quick bool) *SolveResult {
	h := sha256.Sum256([]byte(q))
	solveMu.Lock()
	if r, ok := solveCache[h]; ok && (r.status == "unsat" || quick == r.quickOnly() || !r.quickOnly()) {
		solveMu.Unlock()
		return r
	}
	solveMu.Unlock()
	var res *SolveResult
	if quick {
		res = runSolver("z3", q, v.quickMs)
		if res.status != "unsat" {
			res.backend = "quick:" + res.backend
		}
	} else {
		res = runSolver("z3", q, v.firstMs)
		if res.status != "unsat" && res.status != "error" {
			type rr struct{ r *SolveResult }
			ch := make(chan *SolveResult, 3)
			names := []string{"cvc5", "z3-4.8", "z3-mbqi"}
			for _, n := range names {
				n := n
				go func() { ch <- runSolver(n, q, v.secondMs) }()
			}
			for range names {
				r := <-ch
				if r.status == "unsat" {
					res = r
					break
				}
				if r.status == "sat" && res.status != "unsat" {
					res = r
				}
			}
		}
	}
	res.query = q
	solveMu.Lock()
	solveCache[h] = res
	if res.status == "unsat" {
		solverN[res.backend]++
	}
	solveMu.Unlock()
	if v.dumpDir != "" && res.status != "unsat" {
		os.MkdirAll(v.dumpDir, 0o755)
		os.WriteFile(fmt.Sprintf("%s/%x.smt2", v.dumpDir, h[:6]), []byte(q), 0o644)
	}
	return res
}

func (r *SolveResult) quickOnly() bool { return strings.HasPrefix(r.backend, "quick:") }

var termMu sync.Mutex

// ---- query construction ----

type queryBuilder struct {
	v       *Verifier
	terms   []*Term // asserted
	seen    map[*Term]bool
	fields  map[string]bool
	decls   map[string]string
	order   []string
	seqs    map[Sort]bool
	structs map[string]bool
	datas   map[string]bool
	iface   bool
	subs    map[*Term]bool
	cats    map[*Term]bool
	lastIdx map[*Term]bool
	lits    map[*Term]bool
	folds   map[string]bool
	ops     map[string]bool // function symbols of interest
	extra   []*Term
	asserts map[*Term]bool
}

var coreOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "ite": true, "=": true, "+": true, "*": true, "/": true,
	"<": true, "<=": true, "to_real": true, "to_int": true, "select": true, "store": true, "constarr": true, "div": true, "mod": true,
	"forall": true, "exists": true, "true": true, "false": true, "#num": true, "-": true,
	"seqempty": true, "seqpush": true, "seqlen": true, "seqidx": true, "seqcat": true, "seqsub": true, "sequpd": true,
	"itag": true, "iref": true, "mkI": true}

func (b *queryBuilder) needSort(s Sort) {
	switch {
	case s == SIface:
		b.iface = true
	case isSeqSort(s):
		if !b.seqs[s] {
			b.seqs[s] = true
			b.needSort(seqElem[s])
		}
	case strings.HasPrefix(string(s), "(Array "):
		e := arrElem(s)
		k := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), " "+string(e)+")")
		b.needSort(Sort(k))
		b.needSort(e)
	case structSort[s] != nil:
		if !b.structs[string(s)] {
			b.structs[string(s)] = true
			for _, f := range structSort[s].fields {
				b.needSort(f.sort)
			}
		}
	case dataSort[s] != nil:
		if !b.datas[string(s)] {
			b.datas[string(s)] = true
			for _, c := range dataSort[s].ctors {
				for _, f := range c.fields {
					b.needSort(f.typ.sort())
				}
			}
		}
	}
}

func (b *queryBuilder) visit(t *Term) {
	if b.seen[t] {
		return
	}
	b.seen[t] = true
	for _, a := range t.args {
		b.visit(a)
	}
	for _, v := range t.vars {
		b.seen[v] = true
		b.needSort(v.sort)
	}
	for _, tr := range t.trigs {
		for _, x := range tr {
			b.visit(x)
		}
	}
	b.needSort(t.sort)
	if t.bound && len(t.args) == 0 {
		return
	}
	switch t.op {
	case "seqsub":
		if !t.bound {
			b.subs[t] = true
		}
	case "seqcat":
		if !t.bound {
			b.cats[t] = true
		}
	case "seqidx":
		if !t.bound {
			if d, ok := constDiff(t.args[1], SeqLen(t.args[0])); ok && d.Cmp(ratInt(-1)) == 0 {
				b.lastIdx[t] = true
			}
		}
	}
	if coreOps[t.op] {
		return
	}
	if _, ok := litOf[t]; ok {
		b.lits[t] = true
	}
	if _, ok := ctorOf[t.op]; ok {
		b.needSort(t.sort)
		return
	}
	if r, _, ok := selOf(t.op); ok {
		b.needSort(r.sort())
		return
	}
	if _, ok := dctorTab[t.op]; ok {
		return
	}
	if strings.HasPrefix(t.op, "D_") || strings.HasPrefix(t.op, "is-") {
		return
	}
	if foldTab[t.op] != nil {
		b.folds[t.op] = true
	}
	b.ops[t.op] = true
	if _, ok := b.decls[t.op]; !ok {
		var as []string
		for _, a := range t.args {
			as = append(as, string(a.sort))
			b.needSort(a.sort)
		}
		b.decls[t.op] = fmt.Sprintf("(declare-fun %s (%s) %s)", quoteSym(t.op), strings.Join(as, " "), t.sort)
		b.order = append(b.order, t.op)
	}
}

func (b *queryBuilder) assert(t *Term) {
	if t == tTrue || b.asserts[t] {
		return
	}
	b.asserts[t] = true
	b.terms = append(b.terms, t)
	b.visit(t)
}

func (v *Verifier) query(pc []*Term, goal *Term) string {
	b := &queryBuilder{v: v, seen: map[*Term]bool{}, decls: map[string]string{}, seqs: map[Sort]bool{}, structs: map[string]bool{}, datas: map[string]bool{},
		subs: map[*Term]bool{}, cats: map[*Term]bool{}, lastIdx: map[*Term]bool{}, lits: map[*Term]bool{}, folds: map[string]bool{}, ops: map[string]bool{}, asserts: map[*Term]bool{}}
	goal, ghyps := v.skolemize(goal)
	for _, t := range relevant(pc, append([]*Term{goal}, ghyps...)) {
		b.assert(t)
	}
	for _, h := range ghyps {
		b.assert(h)
	}
	b.assert(Not(goal))
	for _, e := range seqEqs(goal, map[*Term]bool{}) {
		b.assert(extInstance(e))
	}
	doneFold := map[string]bool{}
	doneLem := map[*LemmaDecl]bool{}
	doneSub := map[*Term]bool{}
	doneLast := map[*Term]bool{}
	doneLit := map[*Term]bool{}
	for round := 0; round < 12; round++ {
		n := len(b.terms)
		for _, f := range sortedKeys(b.folds) {
			if !doneFold[f] {
				doneFold[f] = true
				for _, a := range foldAxioms(foldTab[f]) {
					b.assert(a)
				}
			}
		}
		for _, l := range v.db.lemmas {
			if doneLem[l] || v.lemmaLimit != nil && v.lemmaLimit[l] {
				continue
			}
			t := v.lemmaTerm(l)
			if t == nil || !v.lemmaRelevant(l, b.ops) {
				continue
			}
			doneLem[l] = true
			if v.usedLemmas != nil {
				v.usedLemmas[l] = true
			}
			b.assert(t)
		}
		var ls []*Term
		for t := range b.lastIdx {
			if !doneLast[t] {
				ls = append(ls, t)
			}
		}
		sortTerms(ls)
		for _, t := range ls {
			doneLast[t] = true
			s := t.args[0]
			if s.op == "seqpush" {
				continue
			}
			n := SeqLen(s)
			b.assert(Implies(Lt(IntLit(0), n), Eq(s, SeqPush(SeqSub(s, IntLit(0), Sub(n, IntLit(1))), t))))
		}
		var ss []*Term
		for t := range b.subs {
			ss = append(ss, t)
		}
		sortTerms(ss)
		for _, t := range ss {
			if doneSub[t] {
				continue
			}
			doneSub[t] = true
			for _, u := range ss {
				if u == t || u.args[0] != t.args[0] {
					continue
				}
				// u = t plus one element
				for _, p := range [][2]*Term{{t, u}, {u, t}} {
					x, y := p[0], p[1]
					if x.args[1] == y.args[1] {
						if d, ok := constDiff(y.args[2], x.args[2]); ok && d.Cmp(ratInt(1)) == 0 {
							s, a, e := x.args[0], x.args[1], x.args[2]
							b.assert(Implies(And(Le(IntLit(0), a), Le(a, e), Lt(e, SeqLen(s))), Eq(y, SeqPush(x, SeqIdx(s, e)))))
						}
					}
					if x.args[2] == y.args[2] {
						if d, ok := constDiff(x.args[1], y.args[1]); ok && d.Cmp(ratInt(1)) == 0 {
							s, a, e := y.args[0], y.args[1], y.args[2]
							b.assert(Implies(And(Le(IntLit(0), a), Lt(a, e), Le(e, SeqLen(s))), Eq(y, SeqCat(SeqPush(SeqEmpty(s.sort), SeqIdx(s, a)), x))))
						}
					}
				}
			}
			// the empty prefix plus one
			s, a, e := t.args[0], t.args[1], t.args[2]
			// a part of a sequence with one element replaced
			if s.op == "sequpd" {
				o, i, x := s.args[0], s.args[1], s.args[2]
				in := And(Le(IntLit(0), a), Le(e, SeqLen(o)))
				b.assert(Implies(And(in, Or(Le(e, i), Lt(i, a))), Eq(t, SeqSub(o, a, e))))
				b.assert(Implies(And(in, Le(a, i), Eq(e, Add(i, IntLit(1)))), Eq(t, SeqPush(SeqSub(o, a, i), x))))
			}
			if d, ok := constDiff(e, a); ok && d.Cmp(ratInt(1)) == 0 {
				b.assert(Implies(And(Le(IntLit(0), a), Lt(a, SeqLen(s))), Eq(t, SeqPush(SeqEmpty(s.sort), SeqIdx(s, a)))))
			}
			if d, ok := constDiff(SeqLen(s), e); ok && d.Cmp(ratInt(1)) == 0 && a == IntLit(0) {
				b.assert(Implies(Lt(IntLit(0), SeqLen(s)), Eq(s, SeqPush(t, SeqIdx(s, e)))))
			}
		}
		var lt []*Term
		for t := range b.lits {
			if !doneLit[t] {
				lt = append(lt, t)
			}
		}
		sortTerms(lt)
		for _, t := range lt {
			doneLit[t] = true
			l := litOf[t]
			b.assert(Eq(mk("seqlen", SInt, t), IntLit(int64(len(l)))))
			for i := 0; i < len(l) && i < 48; i++ {
				b.assert(Eq(mk("seqidx", SInt, t, IntLit(int64(i))), IntLit(int64(l[i]))))
			}
		}
		if len(b.terms) == n {
			break
		}
	}
	return b.print()
}

// relevant drops hypotheses that share no symbol with the goal, transitively.
func relevant(pc []*Term, goals []*Term) []*Term {
	return pc
}

// skolemize turns a goal forall x. A => B into B with hypotheses A.
func (v *Verifier) skolemize(goal *Term) (*Term, []*Term) {
	var hyps []*Term
	for {
		switch {
		case goal.op == "forall":
			m := map[*Term]*Term{}
			for _, x := range goal.vars {
				m[x] = Fresh("sk."+strings.SplitN(x.op, "?", 2)[0], x.sort)
			}
			goal = Subst(goal.args[0], m)
			continue
		case goal.op == "=>":
			h := goal.args[0]
			if h.op == "exists" {
				m := map[*Term]*Term{}
				for _, x := range h.vars {
					m[x] = Fresh("sk."+strings.SplitN(x.op, "?", 2)[0], x.sort)
				}
				h = Subst(h.args[0], m)
			}
			hyps = append(hyps, h)
			goal = goal.args[1]
			continue
		}
		return goal, hyps
	}
}

func seqEqs(t *Term, seen map[*Term]bool) []*Term {
	if seen[t] || t.sort != SBool || len(t.vars) > 0 {
		return nil
	}
	seen[t] = true
	if t.op == "=" && isSeqSort(t.args[0].sort) && !t.bound {
		return []*Term{t}
	}
	if t.op == "=" && !t.bound && (structSort[t.args[0].sort] != nil) {
		// compare fields
		var out []*Term
		si := structSort[t.args[0].sort]
		for i, f := range si.fields {
			if isSeqSort(f.sort) {
				if e := Eq(Sel(t.args[0], si, i), Sel(t.args[1], si, i)); e.op == "=" {
					out = append(out, e)
				}
			}
		}
		return out
	}
	var out []*Term
	for _, a := range t.args {
		out = append(out, seqEqs(a, seen)...)
	}
	return out
}

func extInstance(e *Term) *Term {
	a, b := e.args[0], e.args[1]
	if a.sort != b.sort {
		return tTrue
	}
	d := mk("seqdiff."+string(a.sort), SInt, a, b)
	return Or(e, Not(Eq(SeqLen(a), SeqLen(b))), And(Le(IntLit(0), d), Lt(d, SeqLen(a)), Not(mkEqRaw(SeqIdx(a, d), SeqIdx(b, d)))))
}

func mkEqRaw(a, b *Term) *Term { return Eq(a, b) }

func foldAxioms(f *foldInst) []*Term {
	if f.axioms != nil {
		return f.axioms
	}
	m := map[*Term]*Term{}
	var vars []*Term
	var args []*Term
	for _, p := range f.pargs {
		bv := BoundVar("a", p.sort)
		vars = append(vars, bv)
		m[p] = bv
		args = append(args, bv)
	}
	es := f.px.sort
	x := BoundVar("x", es)
	s := args[0]
	raw := mk(f.op(), f.res.sort(), append([]*Term{mk("seqpush", s.sort, s, x)}, args[1:]...)...)
	out := []*Term{Forall(append(vars[:len(vars):len(vars)], x), [][]*Term{{raw}}, mkEq(raw, f.unfold(args, s, x)))}
	if len(vars) > 1 {
		r0 := mk(f.op(), f.res.sort(), append([]*Term{SeqEmpty(s.sort)}, args[1:]...)...)
		out = append(out, Forall(vars[1:], [][]*Term{{r0}}, mkEq(r0, f.app(append([]*Term{SeqEmpty(s.sort)}, args[1:]...)))))
	} else {
		r0 := mk(f.op(), f.res.sort(), SeqEmpty(s.sort))
		out = append(out, mkEq(r0, f.app([]*Term{SeqEmpty(s.sort)})))
	}
	if a := foldFrame(f); a != nil {
		out = append(out, a)
	}
	f.axioms = out
	return out
}

// foldFrame: a fold over objects has the same value in two heaps that agree on
// everything its step reads of the elements. It follows by induction over the
// sequence; there is none if a read depends on the accumulated value or on a
// bound variable.
func foldFrame(f *foldInst) *Term {
	nh := len(f.heaps)
	if nh == 0 {
		return nil
	}
	np := len(f.pargs) - nh
	isHeap := map[*Term]bool{}
	for _, p := range f.pargs[np:] {
		isHeap[p] = true
	}
	mentions := func(t *Term, what func(*Term) bool) bool {
		seen := map[*Term]bool{}
		var g func(t *Term) bool
		g = func(t *Term) bool {
			if what(t) {
				return true
			}
			if seen[t] {
				return false
			}
			seen[t] = true
			for _, a := range t.args {
				if g(a) {
					return true
				}
			}
			return false
		}
		return g(t)
	}
	if mentions(f.init, func(t *Term) bool { return isHeap[t] }) {
		return nil
	}
	var reads []*Term
	seen := map[*Term]bool{}
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if isHeap[t] {
			ok = false
			return
		}
		direct := false
		for _, a := range t.args {
			direct = direct || isHeap[a]
		}
		if direct {
			if t.op != "select" && foldTab[t.op] == nil || t.bound || mentions(t, func(u *Term) bool { return u == f.pacc }) {
				ok = false
				return
			}
			reads = append(reads, t)
		}
		for _, a := range t.args {
			if !isHeap[a] {
				walk(a)
			}
		}
	}
	walk(f.step)
	if !ok || len(reads) == 0 {
		return nil
	}
	m1, m2 := map[*Term]*Term{}, map[*Term]*Term{}
	var vars, a1, a2 []*Term
	for i, p := range f.pargs {
		b := BoundVar("a", p.sort)
		vars = append(vars, b)
		m1[p], m2[p] = b, b
		a1 = append(a1, b)
		if i >= np {
			c := BoundVar("b", p.sort)
			vars = append(vars, c)
			m2[p] = c
			b = c
		}
		a2 = append(a2, b)
	}
	i := BoundVar("i", SInt)
	x := mk("seqidx", f.px.sort, a1[0], i)
	m1[f.px], m2[f.px] = x, x
	var eqs []*Term
	for _, t := range reads {
		eqs = append(eqs, mkEq(Subst(t, m1), Subst(t, m2)))
	}
	l := mk(f.op(), f.res.sort(), a1...)
	r := mk(f.op(), f.res.sort(), a2...)
	same := Forall([]*Term{i}, [][]*Term{{x}}, Implies(And(Le(IntLit(0), i), Lt(i, SeqLen(a1[0]))), And(eqs...)))
	return Forall(vars, [][]*Term{{l, r}}, Implies(same, mkEq(l, r)))
}

// mkEq is an equality that is not simplified away.
func mkEq(a, b *Term) *Term {
	if a.sort == SBool {
		return mk("=", SBool, a, b)
	}
	return Eq(a, b)
}

// ---- printing ----

func (b *queryBuilder) print() string {
	var o strings.Builder
	o.WriteString("(set-option :print-success false)\n(set-logic ALL)\n")
	var seqs []string
	for s := range b.seqs {
		seqs = append(seqs, string(s))
	}
	sort.Strings(seqs)
	for _, s := range seqs {
		fmt.Fprintf(&o, "(declare-sort %s 0)\n", s)
	}
	if b.iface {
		o.WriteString("(declare-datatypes ((Iface 0)) (((mkI (itag Int) (iref Int)))))\n")
	}
	var ds, bodies []string
	for _, n := range sortedKeys(b.structs) {
		si := structSort[Sort(n)]
		ds = append(ds, fmt.Sprintf("(%s 0)", n))
		var x strings.Builder
		fmt.Fprintf(&x, "((%s", quoteSym(si.ctor()))
		for i, f := range si.fields {
			fmt.Fprintf(&x, " (%s %s)", quoteSym(si.selName(i)), f.sort)
		}
		x.WriteString("))")
		bodies = append(bodies, x.String())
	}
	for _, n := range sortedKeys(b.datas) {
		d := dataSort[Sort(n)]
		ds = append(ds, fmt.Sprintf("(%s 0)", n))
		var x strings.Builder
		x.WriteString("(")
		for _, c := range d.ctors {
			fmt.Fprintf(&x, "(%s", quoteSym(c.op()))
			for i, f := range c.fields {
				fmt.Fprintf(&x, " (%s %s)", quoteSym(c.selName(i)), f.typ.sort())
			}
			x.WriteString(")")
		}
		x.WriteString(")")
		bodies = append(bodies, x.String())
	}
	if len(ds) > 0 {
		fmt.Fprintf(&o, "(declare-datatypes (%s) (%s))\n", strings.Join(ds, " "), strings.Join(bodies, "\n "))
	}
	for _, s := range seqs {
		b.seqTheory(&o, Sort(s))
	}
	for _, n := range b.order {
		o.WriteString(b.decls[n])
		o.WriteByte('\n')
	}
	// boxes
	for _, n := range b.order {
		if strings.HasPrefix(n, "box.") {
			s := strings.TrimPrefix(n, "box.")
			un := "unbox." + s
			if _, ok := b.decls[un]; !ok {
				d := b.decls[n]
				// (declare-fun box.S (S) Int)
				srt := d[strings.Index(d, " (")+2 : strings.LastIndex(d, ") Int")]
				fmt.Fprintf(&o, "(declare-fun %s (Int) %s)\n", quoteSym(un), srt)
			}
			d := b.decls[n]
			srt := d[strings.Index(d, " (")+2 : strings.LastIndex(d, ") Int")]
			fmt.Fprintf(&o, "(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))\n", srt, quoteSym(un), quoteSym(n), quoteSym(n))
		}
	}
	// shared terms
	cnt := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			count(a)
		}
	}
	for _, t := range b.terms {
		count(t)
	}
	names := map[*Term]string{}
	n := 0
	var emit func(t *Term)
	done := map[*Term]bool{}
	emit = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		for _, a := range t.args {
			emit(a)
		}
		if cnt[t] > 1 && len(t.args) > 0 && !t.bound && len(t.vars) == 0 && !hasQuant(t) {
			var x strings.Builder
			pr(&x, t, names)
			if x.Len() < 40 {
				return
			}
			n++
			nm := fmt.Sprintf("$d%d", n)
			fmt.Fprintf(&o, "(define-fun %s () %s %s)\n", nm, t.sort, x.String())
			names[t] = nm
		}
	}
	for _, t := range b.terms {
		emit(t)
		o.WriteString("(assert ")
		var x strings.Builder
		pr(&x, t, names)
		o.WriteString(x.String())
		o.WriteString(")\n")
	}
	o.WriteString("(check-sat)\n")
	return o.String()
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if len(t.vars) > 0 {
		return true
	}
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	quantMemo[t] = r
	return r
}

func (b *queryBuilder) seqTheory(o *strings.Builder, s Sort) {
	e := string(seqElem[s])
	S := string(s)
	w := func(f string) {
		f = strings.ReplaceAll(f, "$S", S)
		f = strings.ReplaceAll(f, "$E", e)
		o.WriteString(f)
		o.WriteByte('\n')
	}
	w(`(declare-fun empty_$S () $S)
(declare-fun seqpush_$S ($S $E) $S)
(declare-fun seqlen_$S ($S) Int)
(declare-fun seqidx_$S ($S Int) $E)
(declare-fun seqinit_$S ($S) $S)
(declare-fun seqlast_$S ($S) $E)
(assert (= (seqlen_$S empty_$S) 0))
(assert (forall ((s $S)) (! (and (>= (seqlen_$S s) 0) (=> (= (seqlen_$S s) 0) (= s empty_$S))) :pattern ((seqlen_$S s)))))
(assert (forall ((s $S) (x $E)) (! (and (= (seqlen_$S (seqpush_$S s x)) (+ 1 (seqlen_$S s))) (= (seqinit_$S (seqpush_$S s x)) s) (= (seqlast_$S (seqpush_$S s x)) x) (= (seqidx_$S (seqpush_$S s x) (seqlen_$S s)) x)) :pattern ((seqpush_$S s x)))))
(assert (forall ((s $S) (x $E) (i Int)) (! (=> (and (<= 0 i) (< i (seqlen_$S s))) (= (seqidx_$S (seqpush_$S s x) i) (seqidx_$S s i))) :pattern ((seqidx_$S (seqpush_$S s x) i)))))`)
	used := map[string]bool{}
	for t := range b.seen {
		switch t.op {
		case "seqcat", "seqsub", "sequpd":
			if t.sort == s {
				used[t.op] = true
			}
		}
	}
	if used["seqsub"] {
		w(`(declare-fun seqsub_$S ($S Int Int) $S)
(assert (forall ((s $S) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (seqlen_$S s))) (= (seqlen_$S (seqsub_$S s a b)) (- b a))) :pattern ((seqsub_$S s a b)))))
(assert (forall ((s $S) (a Int) (b Int)) (! (=> (and (= a 0) (= b (seqlen_$S s))) (= (seqsub_$S s a b) s)) :pattern ((seqsub_$S s a b)))))
(assert (forall ((s $S) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= b (seqlen_$S s)) (<= 0 i) (< i (- b a))) (= (seqidx_$S (seqsub_$S s a b) i) (seqidx_$S s (+ a i)))) :pattern ((seqidx_$S (seqsub_$S s a b) i)))))
(assert (forall ((s $S) (a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (seqlen_$S s)) (<= 0 c) (<= c d) (<= d (- b a))) (= (seqsub_$S (seqsub_$S s a b) c d) (seqsub_$S s (+ a c) (+ a d)))) :pattern ((seqsub_$S (seqsub_$S s a b) c d)))))
(assert (forall ((s $S) (x $E) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (seqlen_$S s))) (= (seqsub_$S (seqpush_$S s x) a b) (seqsub_$S s a b))) :pattern ((seqsub_$S (seqpush_$S s x) a b)))))`)
	}
	if used["seqcat"] {
		w(`(declare-fun seqcat_$S ($S $S) $S)
(assert (forall ((s $S) (t $S)) (! (and (= (seqlen_$S (seqcat_$S s t)) (+ (seqlen_$S s) (seqlen_$S t))) (=> (= t empty_$S) (= (seqcat_$S s t) s)) (=> (= s empty_$S) (= (seqcat_$S s t) t))) :pattern ((seqcat_$S s t)))))
(assert (forall ((s $S) (t $S) (i Int)) (! (=> (and (<= 0 i) (< i (+ (seqlen_$S s) (seqlen_$S t)))) (= (seqidx_$S (seqcat_$S s t) i) (ite (< i (seqlen_$S s)) (seqidx_$S s i) (seqidx_$S t (- i (seqlen_$S s)))))) :pattern ((seqidx_$S (seqcat_$S s t) i)))))
(assert (forall ((s $S) (t $S) (x $E)) (! (= (seqcat_$S s (seqpush_$S t x)) (seqpush_$S (seqcat_$S s t) x)) :pattern ((seqcat_$S s (seqpush_$S t x))))))
(assert (forall ((s $S) (t $S) (u $S)) (! (= (seqcat_$S s (seqcat_$S t u)) (seqcat_$S (seqcat_$S s t) u)) :pattern ((seqcat_$S s (seqcat_$S t u))))))`)
		if used["seqsub"] {
			w(`(assert (forall ((s $S) (a Int) (b Int) (c Int)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (seqlen_$S s))) (= (seqcat_$S (seqsub_$S s a b) (seqsub_$S s b c)) (seqsub_$S s a c))) :pattern ((seqcat_$S (seqsub_$S s a b) (seqsub_$S s b c))))))`)
		}
	}
	if used["sequpd"] {
		w(`(declare-fun sequpd_$S ($S Int $E) $S)
(assert (forall ((s $S) (i Int) (x $E)) (! (= (seqlen_$S (sequpd_$S s i x)) (seqlen_$S s)) :pattern ((sequpd_$S s i x)))))
(assert (forall ((s $S) (i Int) (x $E) (j Int)) (! (=> (and (<= 0 j) (< j (seqlen_$S s))) (= (seqidx_$S (sequpd_$S s i x) j) (ite (= i j) x (seqidx_$S s j)))) :pattern ((seqidx_$S (sequpd_$S s i x) j)))))`)
	}
}

// ---- lemmas ----

func (v *Verifier) lemmaParts(l *LemmaDecl) (vars []*Term, m map[string]SVal, req, ens *Term, trigs [][]*Term) {
	st := newState("lemma." + l.name)
	m = map[string]SVal{}
	for _, b := range l.params {
		t := resolveType(b.typ, l.pkg)
		bv := BoundVar(b.name, t.sort())
		vars = append(vars, bv)
		m[b.name] = SVal{bv, t}
	}
	// old(e) reads a second, unrelated memory
	ost := newState("lemma." + l.name + ".old")
	ctx := &EvalCtx{v: v, db: v.db, pkg: l.pkg, st: st, old: ost, vars: m}
	req, ens = tTrue, tTrue
	for _, e := range l.req {
		req = And(req, ctx.boolTerm(e))
	}
	for _, e := range l.ens {
		ens = And(ens, ctx.boolTerm(e))
	}
	for _, tr := range l.trigs {
		var ts []*Term
		for _, e := range tr {
			ts = append(ts, ctx.term(e))
		}
		trigs = append(trigs, ts)
	}
	l.hintTs = nil
	for _, e := range l.hints {
		l.hintTs = append(l.hintTs, ctx.term(e))
	}
	// heap maps it reads are universally quantified
	sub := map[*Term]*Term{}
	for _, st := range []*State{st, ost} {
		for _, n := range sortedKeys(st.heap) {
			bv := BoundVar("h", st.heap[n].sort)
			sub[st.heap[n]] = bv
			vars = append(vars, bv)
		}
		for _, n := range sortedKeys(st.ghost) {
			bv := BoundVar("g", st.ghost[n].sort)
			sub[st.ghost[n]] = bv
			vars = append(vars, bv)
		}
	}
	if len(sub) > 0 {
		req, ens = Subst(req, sub), Subst(ens, sub)
		for i := range l.hintTs {
			l.hintTs[i] = Subst(l.hintTs[i], sub)
		}
		for _, tr := range trigs {
			for i := range tr {
				tr[i] = Subst(tr[i], sub)
			}
		}
	}
	return
}

func (v *Verifier) lemmaTerm(l *LemmaDecl) *Term {
	if l.term != nil {
		return l.term
	}
	vars, _, req, ens, trigs := v.lemmaParts(l)
	body := Implies(req, ens)
	if len(vars) == 0 {
		l.term = body
	} else {
		l.term = Forall(vars, trigs, body)
	}
	l.ops = map[string]bool{}
	if len(trigs) > 0 {
		for _, tr := range trigs {
			o := map[string]bool{}
			for _, t := range tr {
				specOps(t, o)
			}
			l.trigOps = append(l.trigOps, o)
		}
	} else {
		o := map[string]bool{}
		specOps(body, o)
		l.trigOps = append(l.trigOps, o)
	}
	return l.term
}

func specOps(t *Term, o map[string]bool) {
	if strings.HasPrefix(t.op, "u.") || strings.HasPrefix(t.op, "fold.") || strings.HasPrefix(t.op, "pure.") {
		o[t.op] = true
	}
	for _, a := range t.args {
		specOps(a, o)
	}
}

func (v *Verifier) lemmaRelevant(l *LemmaDecl, ops map[string]bool) bool {
	// a lemma stated for some properties is used for them only
	if len(l.props) > 0 && activeProp != "" {
		in := false
		for _, p := range l.props {
			in = in || p == activeProp
		}
		if !in {
			return false
		}
	}
	for _, o := range l.trigOps {
		ok := true
		for k := range o {
			if !ops[k] {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// lemmaObligations proves a lemma, by induction if it asks for it.
func (v *Verifier) lemmaObligations(l *LemmaDecl) []*Obligation {
	v.lemmaTerm(l)
	vars, m, req, ens, trigs := v.lemmaParts(l)
	sk := map[*Term]*Term{}
	for _, x := range vars {
		sk[x] = Fresh("lm."+strings.SplitN(x.op, "?", 2)[0], x.sort)
	}
	mkOb := func(name string, pc []*Term, goal *Term) *Obligation {
		return &Obligation{fn: "lemma " + l.name, kind: "lemma", name: name, pc: pc, goal: goal, lemma: l}
	}
	if l.ind == "" {
		var out []*Obligation
		pc := []*Term{Subst(req, sk)}
		for _, t := range l.hintTs {
			t = Subst(t, sk)
			pc = append(pc, ufunApp("hint."+mangle(string(t.sort)), SBool, []*Term{t}))
		}
		for i, g := range conjuncts(Subst(ens, sk)) {
			out = append(out, mkOb(fmt.Sprintf("direct.%d", i), pc[:len(pc):len(pc)], g))
			if l.steps {
				pc = append(pc[:len(pc):len(pc)], g)
			}
		}
		return out
	}
	iv, ok := m[l.ind]
	if !ok {
		panic(specErr{"lemma " + l.name + ": no parameter " + l.ind})
	}
	ivt := iv.v.(*Term)
	var out []*Obligation
	with := func(t *Term, x *Term) *Term {
		s := map[*Term]*Term{}
		for k, v := range sk {
			s[k] = v
		}
		s[ivt] = x
		return Subst(t, s)
	}
	// induction hypothesis at y for all other parameters
	hyp := func(y *Term) *Term {
		s := map[*Term]*Term{ivt: y}
		var others []*Term
		for _, x := range vars {
			if x != ivt {
				bv := BoundVar("o", x.sort)
				s[x] = bv
				others = append(others, bv)
			}
		}
		body := Implies(Subst(req, s), Subst(ens, s))
		var trs [][]*Term
		for _, tr := range trigs {
			var ts []*Term
			for _, t := range tr {
				ts = append(ts, Subst(t, s))
			}
			trs = append(trs, ts)
		}
		if len(others) == 0 {
			return body
		}
		// triggers must mention every variable
		okTr := [][]*Term{}
		for _, tr := range trs {
			fv := map[*Term]bool{}
			for _, t := range tr {
				freeBound(t, fv, map[*Term]bool{})
			}
			all := true
			for _, o := range others {
				if !fv[o] {
					all = false
				}
			}
			if all {
				okTr = append(okTr, tr)
			}
		}
		return Forall(others, okTr, body)
	}
	if isSeqSort(ivt.sort) {
		e := SeqEmpty(ivt.sort)
		for i, g := range conjuncts(with(ens, e)) {
			out = append(out, mkOb(fmt.Sprintf("base.%d", i), []*Term{with(req, e)}, g))
		}
		p := Fresh("lm.prefix", ivt.sort)
		x := Fresh("lm.elem", seqElem[ivt.sort])
		s := SeqPush(p, x)
		same := Implies(with(req, p), with(ens, p))
		for i, g := range conjuncts(with(ens, s)) {
			out = append(out, mkOb(fmt.Sprintf("step.%d", i), []*Term{hyp(p), same, with(req, s)}, g))
		}
		return out
	}
	n := Fresh("lm.n", SInt)
	z := IntLit(0)
	for i, g := range conjuncts(with(ens, n)) {
		out = append(out, mkOb(fmt.Sprintf("base.%d", i), []*Term{Le(n, z), with(req, n)}, g))
	}
	pm := Sub(n, IntLit(1))
	for i, g := range conjuncts(with(ens, n)) {
		out = append(out, mkOb(fmt.Sprintf("step.%d", i), []*Term{Lt(z, n), hyp(pm), Implies(with(req, pm), with(ens, pm)), with(req, n)}, g))
	}
	return out
}
