package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Verifier holds the loaded program and contracts.
type Verifier struct {
	db           *SpecDB
	fset         *token.FileSet
	repo         string
	prog         *ssa.Program
	funcs        map[string]*ssa.Function
	maxPaths     int
	storeOnAlloc bool
	interior     map[*Term]*Ptr
	funcVals     map[*Term]*Func
	inlined      map[string]bool
	externs      map[string]bool
	used         map[string]bool
	usedLemmas   map[*LemmaDecl]bool
	lemmaLimit   map[*LemmaDecl]bool
	globals      map[*ssa.Global]*Cell
	loopTab      map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	mods         map[string]*Mods
	modsBusy     map[string]bool
	deadCands    map[string]bool
	quickMs      int
	firstMs      int
	secondMs     int
	dumpDir      string
	verbose      bool
	prop         string
	learned      learnedDB
	skip         map[string]bool
	skipped      int
}

// Mods is what a function may change.
type Mods struct {
	names     []string
	at        map[string][]string
	freshOnly map[string]bool
	cells     []string
}

var thePkgs = map[string]*types.Package{}
var activeProp string

func lookupPkg(name string) *types.Package { return thePkgs[name] }
func lookupPkgOf(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

const modulePath = "github.com/mazzegi/xpdf"

func load(repo string) (*Verifier, error) {
	v := &Verifier{repo: repo, funcs: map[string]*ssa.Function{}, maxPaths: 6000, interior: map[*Term]*Ptr{}, funcVals: map[*Term]*Func{},
		inlined: map[string]bool{}, externs: map[string]bool{}, used: map[string]bool{}, globals: map[*ssa.Global]*Cell{},
		loopTab: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, mods: map[string]*Mods{}, modsBusy: map[string]bool{}, deadCands: map[string]bool{},
		quickMs: 1500, firstMs: 8000, secondMs: 12000, usedLemmas: map[*LemmaDecl]bool{}}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, ".", "./engine", "./font", "./hyphenation", "./style", "./text", "./xdoc", "github.com/jung-kurt/gofpdf/v2")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	v.prog = prog
	v.fset = prog.Fset
	var addPkg func(p *types.Package)
	seen := map[*types.Package]bool{}
	addPkg = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if _, ok := thePkgs[p.Name()]; !ok {
			thePkgs[p.Name()] = p
		}
		for _, q := range p.Imports() {
			addPkg(q)
		}
	}
	for _, p := range pkgs {
		thePkgs[p.Types.Name()] = p.Types
	}
	for _, p := range pkgs {
		addPkg(p.Types)
	}
	_ = spkgs
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" || !v.inModule(fn) && !(fn.Pkg != nil && fn.Parent() == nil && fn.Pkg.Pkg.Name() == "gofpdf") || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		v.funcs[funcKey(fn)] = fn
	}
	return v, nil
}

func (v *Verifier) inModule(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		p = fn.Object().Pkg()
	}
	return p != nil && strings.HasPrefix(p.Path(), modulePath)
}

func (v *Verifier) globalCell(g *ssa.Global) *Cell {
	if c, ok := v.globals[g]; ok {
		return c
	}
	c := &Cell{key: "global:" + g.String(), typ: derefPtr(g.Type())}
	v.globals[g] = c
	return c
}

func (v *Verifier) globalFor(o *types.Var) *ssa.Global {
	if o.Pkg() == nil {
		return nil
	}
	p := v.prog.Package(o.Pkg())
	if p == nil {
		return nil
	}
	g, _ := p.Members[o.Name()].(*ssa.Global)
	return g
}

func (v *Verifier) loadGlobal(st *State, g *ssa.Global) Val {
	return v.load(st, &Ptr{kind: 'c', cell: v.globalCell(g)})
}

func (v *Verifier) methodFor(tag int64, m *types.Func) *ssa.Function {
	if tag <= 0 || int(tag) > len(tagTypes) {
		return nil
	}
	t := tagTypes[tag-1]
	sel := v.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return v.prog.MethodValue(sel)
}

func (v *Verifier) clauseActive(cl Clause) bool { return activeClause(cl) }

// provedElsewhere: the runs of other properties prove the clause, this one
// takes it for granted.
func provedElsewhere(cl Clause) bool {
	if len(cl.by) == 0 || activeProp == "" {
		return false
	}
	for _, p := range cl.by {
		if p == activeProp {
			return false
		}
	}
	return true
}

func activeClause(cl Clause) bool {
	if len(cl.props) == 0 || activeProp == "" {
		return true
	}
	for _, p := range cl.props {
		if p == activeProp {
			return true
		}
	}
	return false
}

func (v *Verifier) useSpec(sp *FuncSpec) { v.used[sp.key] = true }

// ---- modified sets ----

func (v *Verifier) declaredMods(sp *FuncSpec) *Mods {
	m := &Mods{at: map[string][]string{}, freshOnly: map[string]bool{}}
	for _, cl := range sp.of("updates") {
		m.names = append(m.names, "ghost:"+cl.name)
	}
	for _, cl := range sp.of("modifies") {
	next:
		for _, n := range cl.names {
			if n == "nothing" {
				continue
			}
			if n == "alloc" {
				m.names = append(m.names, n)
				continue
			}
			if _, ok := v.db.ghosts[n]; ok {
				m.names = append(m.names, "ghost:"+n)
				continue
			}
			for _, p := range sp.params {
				if p == n {
					m.cells = append(m.cells, n)
					continue next
				}
			}
			// pkg.Type.field
			i := strings.LastIndexByte(n, '.')
			if i > 0 {
				st := resolveType(&TypeExpr{kind: "name", name: n[:i]}, sp.pkg)
				if si := structOf(st.gt); si != nil && si.field(n[i+1:]) >= 0 {
					m.names = append(m.names, v.fieldHeap(si, si.field(n[i+1:])).name)
					continue
				}
			}
			panic(specErr{fmt.Sprintf("%s: modifies %s", sp.key, n)})
		}
	}
	if sp.flags["allocs"] {
		m.names = append(m.names, "alloc")
	}
	m.names = uniq(m.names)
	return m
}

func uniq(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

func (v *Verifier) modsOf(sp *FuncSpec, key string) *Mods {
	if sp.kind != "func" || sp.flags["trusted"] {
		k := sp.kind + " " + sp.key
		if m, ok := v.mods[k]; ok {
			return m
		}
		m := v.declaredMods(sp)
		v.mods[k] = m
		return m
	}
	if m, ok := v.mods[sp.key]; ok {
		return m
	}
	fn := v.funcs[sp.key]
	if fn == nil {
		panic(specErr{"no function " + sp.key})
	}
	m := &Mods{at: map[string][]string{}, freshOnly: map[string]bool{}}
	v.mods[sp.key] = m
	for i := 0; i < 6; i++ {
		n := v.inferMods(sp, fn)
		m = v.mods[sp.key]
		if sameMods(m, n) {
			return n
		}
		v.mods[sp.key] = n
		if !v.recursive(sp.key) {
			return n
		}
	}
	return v.mods[sp.key]
}

func (v *Verifier) recursive(key string) bool { return v.modsBusy[key] }

func sameMods(a, b *Mods) bool {
	return fmt.Sprint(a.names, a.at, a.freshOnly) == fmt.Sprint(b.names, b.at, b.freshOnly)
}

func (v *Verifier) inferMods(sp *FuncSpec, fn *ssa.Function) *Mods {
	r := v.newRun(sp, fn)
	r.modsOnly = true
	m := &Mods{at: map[string][]string{}, freshOnly: map[string]bool{}}
	full := map[string]bool{}
	at := map[string]map[string]bool{}
	fresh := map[string]bool{}
	names := map[string]bool{}
	r.onReturn = func(r *Run, c *Config, res []Val) {
		for _, x := range res {
			if p, ok := x.(*Ptr); ok {
				v.toTerm(c.st, p) // what is returned is known outside
			}
		}
		for n, t := range c.st.heap {
			e := v.heapByName(r.entry, n)
			if t == e {
				continue
			}
			names[n] = true
			x := t
			for x.op == "store" {
				p := r.paramOf(x.args[1])
				if p != "" {
					if at[n] == nil {
						at[n] = map[string]bool{}
					}
					at[n][p] = true
				} else if freshRef(x.args[1], r.entry.alloc) {
					fresh[n] = true
				} else {
					full[n] = true
				}
				x = x.args[0]
			}
			if x != e {
				full[n] = true
			}
		}
		for n, t := range c.st.ghost {
			if t != v.ghostGet(r.entry, n) && !(n == "trace" && len(sp.of("emits")) > 0) {
				names["ghost:"+n] = true
			}
		}
		if c.st.alloc != r.entry.alloc {
			names["alloc"] = true
		}
		for cell, x := range c.st.cells {
			if strings.HasPrefix(cell.key, "global:") {
				if t, ok := x.(*Term); ok && strings.HasPrefix(t.op, "C.") {
					continue
				}
				unsup("write to global %s", cell.key)
			}
		}
	}
	r.fixModset()
	for n := range names {
		m.names = append(m.names, n)
		if full[n] {
			continue
		}
		for p := range at[n] {
			m.at[n] = append(m.at[n], p)
		}
		sort.Strings(m.at[n])
		if fresh[n] {
			m.freshOnly[n] = true
		}
	}
	// a stated frame is what callers see; the body is checked against it
	if fr := v.statedFrame(sp, fn); fr != nil {
		m.at = map[string][]string{}
		m.freshOnly = map[string]bool{}
		drop := map[string]bool{}
		for n := range names {
			if strings.HasPrefix(n, "ghost:") || n == "alloc" || fr.whole[n] {
				continue
			}
			m.freshOnly[n] = true
			if len(fr.params[n]) > 0 {
				drop[n] = !fresh[n] && !full[n]
			}
		}
		for n := range fr.whole {
			m.names = append(m.names, n)
		}
		for n := range drop {
			if drop[n] {
				for i, x := range m.names {
					if x == n {
						m.names = append(m.names[:i:i], m.names[i+1:]...)
						break
					}
				}
			}
		}
		m.cells = fr.cells
	}
	// a function that could not be executed may change anything it names
	if len(r.errs) > 0 {
		d := v.declaredMods(sp)
		m.names = append(m.names, d.names...)
	}
	m.names = uniq(m.names)
	return m
}

// frameDecl is the frame a contract states with modifies clauses.
type frameDecl struct {
	whole  map[string]bool
	params map[string][]string // heap -> parameters at which it may change
	cells  []string
}

func (v *Verifier) statedFrame(sp *FuncSpec, fn *ssa.Function) *frameDecl {
	cls := sp.of("modifies")
	if len(cls) == 0 || sp.kind != "func" {
		return nil
	}
	fr := &frameDecl{whole: map[string]bool{}, params: map[string][]string{}}
	for _, cl := range cls {
	next:
		for _, n := range cl.names {
			if n == "nothing" || n == "alloc" {
				continue
			}
			if _, ok := v.db.ghosts[n]; ok {
				continue
			}
			for i, p := range sp.params {
				if p != n || i >= len(fn.Params) {
					continue
				}
				el := derefPtr(fn.Params[i].Type())
				if el == nil {
					panic(specErr{fmt.Sprintf("%s: modifies %s: not a pointer", sp.key, n)})
				}
				fr.cells = append(fr.cells, n)
				if si := structOf(el); si != nil {
					for j := range si.fields {
						h := v.fieldHeap(si, j).name
						fr.params[h] = append(fr.params[h], n)
					}
				} else {
					h := v.plainHeap(el).name
					fr.params[h] = append(fr.params[h], n)
				}
				continue next
			}
			i := strings.LastIndexByte(n, '.')
			if i > 0 {
				st := resolveType(&TypeExpr{kind: "name", name: n[:i]}, sp.pkg)
				if si := structOf(st.gt); si != nil && si.field(n[i+1:]) >= 0 {
					fr.whole[v.fieldHeap(si, si.field(n[i+1:])).name] = true
					continue
				}
			}
			panic(specErr{fmt.Sprintf("%s: modifies %s", sp.key, n)})
		}
	}
	return fr
}

// frameExcept says that objects older than the call, other than the ones the
// parameters point to, keep a field.
func (r *Run) frameExcept(h, h0 *Term, params []string) *Term {
	if h == h0 {
		return tTrue
	}
	b := BoundVar("r", SInt)
	cond := []*Term{Lt(b, r.entry.alloc)}
	for _, p := range params {
		cond = append(cond, Not(Eq(b, r.v.toTerm(r.entry, r.vars[p].v))))
	}
	return Forall([]*Term{b}, [][]*Term{{mk("select", arrElem(h.sort), h, b)}}, Implies(And(cond...), Eq(mk("select", arrElem(h.sort), h, b), mk("select", arrElem(h0.sort), h0, b))))
}

func freshRef(t, alloc *Term) bool {
	d, ok := constDiff(t, alloc)
	return ok && d.Sign() >= 0
}

func (r *Run) paramOf(t *Term) string {
	for n, x := range r.vars {
		if y, ok := x.v.(*Term); ok && y == t && y.sort == SInt {
			return n
		}
	}
	return ""
}

// ---- runs ----

func (v *Verifier) newRun(sp *FuncSpec, fn *ssa.Function) *Run {
	r := &Run{v: v, fn: fn, spec: sp, key: sp.key, loopInfo: map[string]*LoopState{}, origin: map[*Term]string{}, safety: !sp.flags["nosafety"]}
	r.initEntry = func() *Config {
		st := newState("0")
		c := &Config{st: st}
		f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], ctx: fn.Name()}
		st.assume(Lt(IntLit(0), st.alloc))
		var args []Val
		for i, p := range fn.Params {
			t := Const(fmt.Sprintf("p%d.%s", i, mangle(p.Name())), sortOf(p.Type()))
			r.allocated(st, t, p.Type())
			f.env[p] = t
			args = append(args, t)
		}
		for _, fv := range fn.FreeVars {
			el := derefPtr(fv.Type())
			cell := &Cell{key: "free/" + fv.Name(), typ: el}
			f.env[fv] = &Ptr{kind: 'c', cell: cell}
		}
		c.frames = []*Frame{f}
		if len(sp.params) != len(args) {
			panic(specErr{fmt.Sprintf("%s:%d: contract of %s names %d parameters, the function has %d", sp.file, sp.line, sp.key, len(sp.params), len(args))})
		}
		r.vars = map[string]SVal{}
		for i, n := range sp.params {
			if n != "_" {
				r.vars[n] = SVal{args[i], goST(fn.Params[i].Type())}
			}
		}
		if len(sp.of("emits")) > 0 {
			st.ghost["trace"] = SeqEmpty(v.ghostGet(st, "trace").sort)
		}
		r.entry = st.clone()
		ctx := &EvalCtx{v: v, db: v.db, pkg: sp.pkg, st: st, old: st, vars: r.vars}
		for _, cl := range sp.of("requires") {
			st.assume(ctx.boolTerm(cl.e))
		}
		r.entry = st.clone()
		return c
	}
	return r
}

func (r *Run) execAll() {
	resetFresh()
	r.obls = nil
	r.work = nil
	r.paths, r.steps = 0, 0
	r.cellN = 0
	r.rets = nil
	r.pending = nil
	r.restart = false
	pushed = false
	r.work = []*Config{r.initEntry()}
	r.exec()
}

// fixModset finds what the loops of the function modify.
func (r *Run) fixModset() {
	r.collect, r.genCands, r.useCands = false, false, false
	for i := 0; i < 60; i++ {
		r.errs = nil
		r.execAll()
		if !r.restart {
			return
		}
	}
	r.fail("loop effects do not stabilise")
}

// FuncResult is the outcome for one function.
type FuncResult struct {
	key     string
	where   string
	obls    []*Obligation
	errs    []string
	paths   int
	time    time.Duration
	dropped []*Candidate
	kept    []*Candidate
	loops   int
}

func (fr *FuncResult) failed() []*Obligation {
	var out []*Obligation
	for _, o := range fr.obls {
		if o.res == nil || o.res.status != "unsat" {
			out = append(out, o)
		}
	}
	return out
}

func (v *Verifier) verifySpec(sp *FuncSpec) []*FuncResult {
	fn := v.funcs[sp.key]
	if fn == nil {
		return []*FuncResult{{key: sp.key, errs: []string{"contract for a function that does not exist: " + sp.key}}}
	}
	r := v.newRun(sp, fn)
	res, pend := v.verifyRun(r, sp)
	res.where = v.pos(fn.Pos())
	out := []*FuncResult{res}
	seen := map[string]bool{}
	for _, p := range pend {
		k := p.name + "#" + p.spec.key + p.fn.fn.String()
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, v.verifyCallback(sp, p))
	}
	return out
}

func (v *Verifier) verifyCallback(sp *FuncSpec, p pendingCB) *FuncResult {
	fn := p.fn.fn
	r := &Run{v: v, fn: fn, spec: p.spec, key: sp.key + " callback " + lastPart(p.spec.key), loopInfo: map[string]*LoopState{}, origin: map[*Term]string{}, safety: !p.spec.flags["nosafety"]}
	r.initEntry = func() *Config {
		st := newState("cb")
		st.assume(Lt(IntLit(0), st.alloc))
		c := &Config{st: st}
		f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], ctx: fn.Name()}
		var args []Val
		for i, q := range fn.Params {
			t := Const(fmt.Sprintf("p%d.%s", i, mangle(q.Name())), sortOf(q.Type()))
			r.allocated(st, t, q.Type())
			f.env[q] = t
			args = append(args, t)
		}
		for i, fv := range fn.FreeVars {
			b := p.fn.binds[i]
			if ptr, ok := b.(*Ptr); ok && ptr.kind == 'c' {
				// the variable may have been assigned again unless it is assigned once
				if capturedOnce(fn, i) {
					if x, ok := p.conf.st.cells[ptr.cell]; ok {
						if t, ok := x.(*Term); ok {
							st.cells[ptr.cell] = t
							r.allocated(st, t, ptr.cell.typ)
						}
					}
				}
				if _, ok := st.cells[ptr.cell]; !ok {
					t := Const("cap."+mangle(fv.Name()), sortOf(ptr.cell.typ))
					st.cells[ptr.cell] = t
					r.allocated(st, t, ptr.cell.typ)
				}
			} else if t, ok := b.(*Term); ok {
				r.allocated(st, t, fv.Type())
			}
			f.env[fv] = b
		}
		c.frames = []*Frame{f}
		r.vars = map[string]SVal{}
		for i, n := range p.spec.params {
			r.vars[n] = SVal{args[i], goST(fn.Params[i].Type())}
		}
		// the parameters of the enclosing function keep their names
		if len(p.conf.frames) > 0 {
			ef := p.conf.frames[0]
			for i, n := range sp.params {
				if _, ok := r.vars[n]; !ok && n != "_" && i < len(ef.fn.Params) {
					r.vars[n] = SVal{ef.env[ef.fn.Params[i]], goST(ef.fn.Params[i].Type())}
				}
			}
		}
		r.entry = st.clone()
		ctx := &EvalCtx{v: v, db: v.db, pkg: p.spec.pkg, st: st, old: st, vars: r.vars}
		for _, cl := range p.spec.of("requires") {
			st.assume(ctx.boolTerm(cl.e))
		}
		r.entry = st.clone()
		return c
	}
	res, pend := v.verifyRun(r, p.spec)
	if len(pend) > 0 {
		res.errs = append(res.errs, "callback registered inside a callback")
	}
	res.where = v.pos(fn.Pos())
	return res
}

// capturedOnce reports whether the captured variable is assigned only once.
func capturedOnce(fn *ssa.Function, i int) bool {
	p := fn.Parent()
	if p == nil {
		return false
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			al, ok := mc.Bindings[i].(*ssa.Alloc)
			if !ok {
				return false
			}
			n := 0
			for _, u := range *al.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Addr == ssa.Value(al) {
						n++
					} else {
						return false
					}
				case *ssa.MakeClosure:
					for j, bd := range u.Bindings {
						if bd == ssa.Value(al) && storesFree(u.Fn.(*ssa.Function), j) {
							return false
						}
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return n == 1
		}
	}
	return false
}

func storesFree(fn *ssa.Function, i int) bool {
	for _, u := range *fn.FreeVars[i].Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for j, bd := range u.Bindings {
				if bd == ssa.Value(fn.FreeVars[i]) && storesFree(u.Fn.(*ssa.Function), j) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (v *Verifier) verifyRun(r *Run, sp *FuncSpec) (res *FuncResult, pend []pendingCB) {
	t0 := time.Now()
	res = &FuncResult{key: r.key}
	defer func() { res.time = time.Since(t0) }()
	r.onReturn = func(r *Run, c *Config, vals []Val) { v.checkPost(r, sp, c, vals) }
	r.fixModset()
	if len(r.errs) > 0 {
		res.errs = append(res.errs, r.errs...)
		return
	}
	r.collect, r.genCands, r.useCands = true, true, true
	for it := 0; it < 80; it++ {
		r.candChanged = false
		r.errs = nil
		r.execAll()
		if len(r.errs) > 0 {
			res.errs = append(res.errs, r.errs...)
			return
		}
		if r.restart || r.candChanged {
			continue
		}
		var co []*Obligation
		for _, o := range r.obls {
			if o.cand != nil && !o.cand.dead {
				co = append(co, o)
			}
		}
		// automatic candidates are cheap to give up; the user's get more time
		v.solveAll(co, true)
		dropped := false
		for _, o := range co {
			if o.res.status != "unsat" && !o.cand.dead {
				o.cand.dead = true
				o.cand.why = o.kind + " " + o.res.status
				v.dump(o)
				dropped = true
			}
		}
		if !dropped {
			break
		}
		if it == 79 {
			res.errs = append(res.errs, "loop invariants do not stabilise")
			return
		}
	}
	pend = r.pending
	var obls []*Obligation
	for _, o := range r.obls {
		if o.cand == nil {
			obls = append(obls, o)
		}
	}
	v.solveAll(obls, false)
	// the kept invariants are obligations too
	for _, o := range r.obls {
		if o.cand != nil && !o.cand.dead && !o.cand.varnt {
			obls = append(obls, o)
		}
	}
	if sp.flags["terminates"] {
		for _, k := range sortedKeys(r.loopInfo) {
			li := r.loopInfo[k]
			o := &Obligation{fn: r.key, kind: "termination", name: "loop " + k, goal: tFalse, res: &SolveResult{status: "unknown", out: "no variant was proved"}}
			for _, cd := range li.cands {
				if cd.varnt && !cd.dead {
					o.name += ": " + cd.text
					o.res = &SolveResult{status: "unsat", backend: "variant"}
					o.goal = tTrue
					break
				}
			}
			obls = append(obls, o)
		}
	}
	// vacuity: some return must be reachable
	if len(r.rets) > 0 {
		ok := false
		for _, s := range r.rets {
			if len(s.st.pc) > 0 && s.st.pc[len(s.st.pc)-1] == tFalse {
				continue
			}
			rr := v.prove(s.st.pc, tFalse, true)
			if rr.status != "unsat" {
				ok = true
				break
			}
		}
		o := &Obligation{fn: r.key, kind: "cover", name: "some return is reachable", goal: tFalse, res: &SolveResult{status: "unsat", backend: "z3"}}
		if !ok {
			o.res = &SolveResult{status: "unknown", out: "every return path is contradictory"}
		}
		obls = append(obls, o)
	}
	for _, li := range r.loopInfo {
		res.loops++
		for _, cd := range li.cands {
			if cd.dead {
				res.dropped = append(res.dropped, cd)
			} else {
				res.kept = append(res.kept, cd)
			}
		}
	}
	res.obls = obls
	res.paths = r.paths
	return
}

func (v *Verifier) dump(o *Obligation) {
	if !v.verbose {
		return
	}
	fmt.Fprintf(os.Stderr, "  dropped %s: %s (%s)\n", o.kind, o.name, o.res.status)
	if v.dumpDir != "" && o.res.query != "" && o.cand != nil && o.cand.user {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/drop%03d.smt2", v.dumpDir, dumpN), []byte(fmt.Sprintf("; %s %s path %d\n%s", o.kind, o.name, o.path, o.res.query)), 0o644)
	}
}

var dumpN int

// isDropping: another obligation of the candidate has failed already
func (c *Candidate) isDropping() bool {
	termMu.Lock()
	defer termMu.Unlock()
	return c.pendingDrop
}

func (v *Verifier) solveAll(obls []*Obligation, quick bool) {
	var wg sync.WaitGroup
	sem := make(chan bool, 10)
	var fails atomic.Int32
	for _, o := range obls {
		o := o
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			if quick && o.cand != nil && (o.cand.dead || o.cand.isDropping()) {
				o.res = &SolveResult{status: "unknown"}
				return
			}
			// a function with many failures is not worth the long attempts
			if o.lean != nil {
				if o.res = v.prove(o.lean, o.goal, quick); o.res.status == "unsat" {
					return
				}
				if quick && o.cand != nil && o.cand.user {
					if o.res = v.prove(o.lean, o.goal, false); o.res.status == "unsat" {
						return
					}
				}
			}
			o.res = v.prove(o.pc, o.goal, quick || fails.Load() >= 3)
			if !quick && o.res.status != "unsat" {
				fails.Add(1)
			}
			if quick && o.res.status != "unsat" && o.cand != nil && o.cand.user {
				// give the stated invariants more time
				o.res = v.prove(o.pc, o.goal, false)
			}
			if quick && o.res.status != "unsat" && o.cand != nil {
				termMu.Lock()
				o.cand.pendingDrop = true
				termMu.Unlock()
			}
		}()
	}
	wg.Wait()
	if !quick {
		v.again(obls)
	}
}

// retries left for this run: one undecided obligation among many is as often a
// solver out of luck or of processor time as it is an error
var retries = 6

// again gives the few obligations left undecided a longer attempt, with other
// random choices.
func (v *Verifier) again(obls []*Obligation) {
	var left []*Obligation
	for _, o := range obls {
		if o.res.status != "unsat" && o.res.status != "error" && o.res.query != "" {
			left = append(left, o)
		}
	}
	if len(left) == 0 || len(left) > 3 || len(left) > retries {
		return
	}
	retries -= len(left)
	for _, o := range left {
		names := []string{"z3-seed1", "z3-seed2", "z3", "cvc5"}
		ch := make(chan *SolveResult, len(names))
		for _, n := range names {
			n := n
			go func() { ch <- runSolver(n, o.res.query, v.secondMs*2) }()
		}
		for range names {
			if r := <-ch; r.status == "unsat" {
				r.query = o.res.query
				o.res = r
				solveMu.Lock()
				solverN[r.backend]++
				solveMu.Unlock()
				break
			}
		}
	}
}

// smoke asks for every return whether it can be reached under the assumptions
// made (callee contracts, axioms): a proof of false at all of them, or a callee
// contract that contradicts itself, would make every claim hold vacuously.
var smoke bool

func (v *Verifier) checkPost(r *Run, sp *FuncSpec, c *Config, vals []Val) {
	if !r.collect {
		return
	}
	r.rets = append(r.rets, &retState{c.st, vals})
	vars := map[string]SVal{}
	for k, x := range r.vars {
		vars[k] = x
	}
	sig := r.fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		n := "result"
		if i < len(sp.results) {
			n = sp.results[i]
		} else if i > 0 {
			n = fmt.Sprintf("result%d", i)
		}
		vars[n] = SVal{vals[i], goST(sig.Results().At(i).Type())}
	}
	ctx := &EvalCtx{v: v, db: v.db, pkg: sp.pkg, st: c.st, old: r.entry, vars: vars}
	r.hints(sp, c, ctx)
	if smoke {
		// is this return reachable at all?
		r.oblige(c, "smoke", "return", tFalse, r.fn.Pos())
		return
	}
	for _, cl := range sp.of("ensures") {
		name := cl.label
		if name == "" {
			name = fmt.Sprintf("%s:%d", cl.file, cl.line)
		}
		if provedElsewhere(cl) {
			continue
		}
		if w := r.witnessed(c, ctx, cl); w != nil {
			r.obligeClause(c, "post", name, w, cl)
			continue
		}
		t := ctx.boolTerm(cl.e)
		for i, g := range conjuncts(t) {
			n := name
			if i > 0 {
				n = fmt.Sprintf("%s.%d", name, i)
			}
			r.obligeClause(c, "post", n, g, cl)
		}
	}
	if fr := v.statedFrame(sp, r.fn); fr != nil {
		for _, n := range sortedKeys(c.st.heap) {
			h, h0 := c.st.heap[n], v.heapByName(r.entry, n)
			if h == h0 || fr.whole[n] {
				continue
			}
			x := h
			for x.op == "store" && (freshRef(x.args[1], r.entry.alloc) || contains(fr.params[n], r.paramOf(x.args[1]))) {
				x = x.args[0]
			}
			if x == h0 {
				continue
			}
			r.obligeProps(c, "frame", n, r.frameExcept(h, h0, fr.params[n]), nil)
		}
	}
	for _, cl := range sp.of("updates") {
		o := *ctx
		o.st = r.entry
		g := v.ghostGet(c.st, cl.name)
		r.obligeProps(c, "post", "updates "+cl.name, Eq(g, coerce(o.term(cl.e), g.sort)), cl.props)
	}
}

// witnessed offers the function's local values as witnesses of a postcondition
// that says something exists; nil if there are none.
func (r *Run) witnessed(c *Config, ctx *EvalCtx, cl Clause) *Term {
	if cl.e.op != "quant" || cl.e.s != "exists" || len(cl.e.binds) != 1 {
		return nil
	}
	b := cl.e.binds[0]
	st := resolveType(b.typ, ctx.pkg)
	f := c.top()
	var names []string
	cand := map[string]*Term{}
	for v, x := range f.env {
		switch x.(type) {
		case *Term, *Slice:
		default:
			continue
		}
		if sortOf(v.Type()) != st.sort() || st.gt != nil && !types.Identical(st.gt, v.Type()) {
			continue
		}
		if t := r.v.toTerm(c.st, x); !t.bound {
			names = append(names, v.Name())
			cand[v.Name()] = t
		}
	}
	sort.Strings(names)
	seen := map[*Term]bool{}
	out := []*Term{ctx.boolTerm(cl.e)}
	for _, n := range names {
		t := cand[n]
		if !seen[t] && len(seen) < 12 {
			seen[t] = true
			out = append(out, ctx.with(map[string]SVal{b.name: {t, st}}).boolTerm(cl.e.args[0]))
		}
	}
	if len(seen) == 0 {
		return nil
	}
	if len(seen) == 1 {
		return out[1]
	}
	return Or(out[1:]...)
}

// hints name terms a proof needs instances for; $k0, $k1, ... are the counters
// of the loops left last. They say nothing.
func (r *Run) hints(sp *FuncSpec, c *Config, ctx *EvalCtx) {
	ks := map[string]SVal{}
	f := c.top()
	for i, k := range f.lastK {
		ks[fmt.Sprintf("$k%d", i)] = SVal{k, stInt}
	}
	for i, a := range f.loops {
		ks[fmt.Sprintf("$k%d", i)] = SVal{a.k, stInt}
	}
	hint := func(hc *EvalCtx, e *Expr) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(specErr); !ok {
					panic(e)
				}
			}
		}()
		t := hc.term(e)
		if t.num == nil && !t.bound {
			c.st.pc = append(c.st.pc[:len(c.st.pc):len(c.st.pc)], ufunApp("hint."+mangle(string(t.sort)), SBool, []*Term{t}))
		}
	}
	for _, cl := range sp.of("hint") {
		n := 0
		var rec func(i int, vars map[string]SVal)
		rec = func(i int, vars map[string]SVal) {
			if i == len(cl.binds) {
				if n++; n <= 60 {
					hint(ctx.with(vars), cl.e)
				}
				return
			}
			st := bindType(cl.binds[i], sp.pkg)
			var vs []ssa.Value
			for v, x := range f.env {
				if t, ok := x.(*Term); ok && !t.bound && st.gt != nil && types.Identical(v.Type(), st.gt) {
					vs = append(vs, v)
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, v := range vs {
				m := cp(vars)
				m[cl.binds[i].name] = SVal{f.env[v], st}
				rec(i+1, m)
			}
		}
		rec(0, ks)
	}
}

func (r *Run) obligeProps(c *Config, kind, name string, goal *Term, props []string) {
	g := c.st.simp(goal)
	r.obls = append(r.obls, &Obligation{fn: r.key, kind: kind, name: name, pc: c.st.pc[:len(c.st.pc):len(c.st.pc)], goal: g, path: r.paths, props: props})
}

func (r *Run) obligeClause(c *Config, kind, name string, goal *Term, cl Clause) {
	r.obligeProps(c, kind, name, goal, cl.props)
	o := r.obls[len(r.obls)-1]
	o.lean = r.lean(o.pc, cl.props == nil, candLabel(cl), cl.uses)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
