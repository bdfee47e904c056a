package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (v *Verifier) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := v.loopTab[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := out[s]
			if l == nil {
				l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				out[s] = l
			}
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if l.blocks[x] {
					return
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	v.loopTab[fn] = out
	return out
}

// LoopState is what is known of a loop across runs.
type LoopState struct {
	key      string
	heaps    map[string]bool
	ghosts   map[string]bool
	cells    map[string]bool
	objs     map[string]bool
	alloc    bool
	promote  map[string]bool
	phiSeq   map[string]bool
	cands    []*Candidate
	byKey    map[string]*Candidate
	measures []*Candidate
}

// Candidate is a possible loop invariant or variant.
type Candidate struct {
	key    string
	text   string
	base   bool     // unlabelled
	label  string
	uses   []string
	user   bool
	dead   bool
	why    string
	loop   *LoopState
	eval   func(le *loopEval) *Term
	varnt  bool
	pendingDrop bool
	always bool // assumed without proof (never used for user invariants)
}

// loopEval is a point at which candidates are evaluated.
type loopEval struct {
	r    *Run
	c    *Config
	f    *Frame
	l    *Loop
	phis map[*ssa.Phi]Val
	k    *Term
	act  *loopAct
}

// visited is the set of keys a loop over a map has seen.
func (le *loopEval) visited() *Term {
	var t *Term
	for _, in := range le.l.header.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		if it, ok := le.f.env[nx.Iter].(*Iter); ok && it.isMap {
			t, _ = le.c.st.cells[it.cell].(*Term)
		}
	}
	return t
}

func (r *Run) loopState(key string) *LoopState {
	if s, ok := r.loopInfo[key]; ok {
		return s
	}
	s := &LoopState{key: key, heaps: map[string]bool{}, ghosts: map[string]bool{}, cells: map[string]bool{}, objs: map[string]bool{},
		promote: map[string]bool{}, phiSeq: map[string]bool{}, byKey: map[string]*Candidate{}}
	r.loopInfo[key] = s
	return s
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, ph)
	}
	return out
}

func (r *Run) enterLoop(c *Config, l *Loop, b *ssa.BasicBlock) {
	f := c.top()
	st := c.st
	info := r.loopState(fmt.Sprintf("%s#%d", f.ctx, b.Index))
	pi := predIndex(b, f.block)
	phis := headerPhis(b)
	entry := map[*ssa.Phi]Val{}
	for _, ph := range phis {
		x := r.val(c, ph.Edges[pi])
		if p, ok := x.(*Ptr); ok && !(p.kind == 'c' && len(p.path) == 0 && false) {
			x = r.v.toTerm(st, p)
		}
		entry[ph] = x
	}
	for _, cell := range sortedCells(st) {
		if info.promote[cell.key] {
			r.v.promote(st, cell)
		}
	}
	act := &loopAct{loop: l, ctx: info.key, info: info, pre: st.clone()}
	act.entry = entry
	// entry obligations
	r.makeCands(c, f, l, info, phis)
	if r.collect {
		le := &loopEval{r: r, c: c, f: f, l: l, phis: entry, k: IntLit(0), act: act}
		for _, cd := range info.cands {
			if cd.dead || cd.varnt {
				continue
			}
			g := r.evalCand(cd, le)
			if g == nil {
				cd.dead = true
				cd.why = "not expressible at entry"
				r.candChanged = true
				continue
			}
			r.obligeCand(c, "inv-entry", cd, g)
		}
	}
	// havoc
	for _, n := range sortedKeys(info.heaps) {
		h := r.v.heapByName(st, n)
		st.heap[n] = Fresh("L."+n, h.sort)
	}
	for _, n := range sortedKeys(info.ghosts) {
		g := r.v.ghostGet(st, n)
		st.ghost[n] = Fresh("L."+n, g.sort)
	}
	if info.alloc {
		a := Fresh("alloc", SInt)
		st.assume(Le(st.alloc, a))
		st.alloc = a
	}
	for o := range st.objs {
		if info.objs[o.key] {
			old := st.objs[o]
			st.objs[o] = Fresh("L.obj", old.sort)
		}
	}
	for _, cell := range sortedCells(st) {
		if info.cells[cell.key] {
			st.cells[cell] = r.havocVal(c, st.cells[cell], cell.typ, "L."+lastSlash(cell.key), false)
		}
	}
	hp := map[*ssa.Phi]Val{}
	for _, ph := range phis {
		x := r.havocVal(c, entry[ph], ph.Type(), "L."+ph.Name(), info.phiSeq[ph.Name()])
		f.env[ph] = x
		hp[ph] = x
	}
	act.k = Fresh("k", SInt)
	st.assume(Le(IntLit(0), act.k))
	act.phis = hp
	f.loops = append(f.loops, act)
	le := &loopEval{r: r, c: c, f: f, l: l, phis: hp, k: act.k, act: act}
	for _, cd := range info.cands {
		if cd.dead || cd.varnt || !r.useCands {
			continue
		}
		if g := r.evalCand(cd, le); g != nil {
			n := len(st.pc)
			st.assume(g)
			if cd.label != "" {
				for _, t := range st.pc[n:] {
					r.origin[t] = cd.label
				}
			}
		}
	}
	act.head = st.clone()
	for _, cd := range info.cands {
		if cd.varnt && !cd.dead && r.useCands {
			m := r.evalCand(cd, le)
			if m == nil {
				cd.dead = true
				continue
			}
			if act.measure == nil {
				act.measure = map[*Candidate]*Term{}
			}
			act.measure[cd] = m
		}
	}
}

func lastSlash(s string) string { return s[strings.LastIndexByte(s, '/')+1:] }

func sortedCells(st *State) []*Cell {
	var out []*Cell
	for c := range st.cells {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].key != out[j].key {
			return out[i].key < out[j].key
		}
		return out[i].id < out[j].id
	})
	return out
}

func (r *Run) havocVal(c *Config, old Val, t types.Type, name string, seqOnly bool) Val {
	switch o := old.(type) {
	case []Val:
		var out []Val
		for _, x := range o {
			out = append(out, r.havocVal(c, x, t.Underlying().(*types.Array).Elem(), name, true))
		}
		return out
	case *Slice:
		if o.obj != nil && !seqOnly && o.lo == nil && o.hi == nil {
			r.cellN++
			n := &Obj{key: c.top().ctx + "/" + name, id: r.cellN, rel: append([]*Obj{o.obj}, o.obj.rel...)}
			o.obj.rel = append(o.obj.rel[:len(o.obj.rel):len(o.obj.rel)], n)
			c.st.objs[n] = Fresh(name, c.st.objs[o.obj].sort)
			return &Slice{obj: n, elem: o.elem, tip: true}
		}
		if o.obj != nil {
			c.st.escaped[o.obj] = true
		}
		return &Slice{seq: Fresh(name, sortOf(t)), elem: o.elem, tip: true}
	case *Func:
		unsup("loop-carried function value")
	case *Iter:
		unsup("loop-carried iterator")
	case *Term:
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if o.op == "seqempty" && !seqOnly {
				r.cellN++
				n := &Obj{key: c.top().ctx + "/" + name, id: r.cellN}
				c.st.objs[n] = Fresh(name, o.sort)
				return &Slice{obj: n, elem: sl.Elem(), tip: true}
			}
			return &Slice{seq: Fresh(name, o.sort), elem: sl.Elem(), tip: true}
		}
		x := Fresh(name, o.sort)
		r.allocated(c.st, x, t)
		return x
	case *Ptr:
		x := Fresh(name, SInt)
		r.allocated(c.st, x, t)
		return x
	}
	unsup("loop-carried value %T", old)
	return nil
}

func (r *Run) backEdge(c *Config, act *loopAct, b *ssa.BasicBlock) {
	f := c.top()
	st := c.st
	info := act.info
	pi := predIndex(b, f.block)
	phis := map[*ssa.Phi]Val{}
	changed := false
	mod := func(m map[string]bool, k string) {
		if !m[k] {
			m[k] = true
			changed = true
		}
	}
	for _, ph := range headerPhis(b) {
		x := r.val(c, ph.Edges[pi])
		if p, ok := x.(*Ptr); ok {
			x = r.v.toTerm(st, p)
		}
		phis[ph] = x
		// ownership of slices
		if s, ok := act.phis[ph].(*Slice); ok && s.obj != nil {
			y, ok := x.(*Slice)
			own := ok && y.obj != nil && y.lo == nil && y.hi == nil
			if own {
				fam := map[*Obj]bool{s.obj: true}
				for _, o := range s.obj.rel {
					fam[o] = true
				}
				for _, o := range append([]*Obj{y.obj}, y.obj.rel...) {
					if _, was := act.head.objs[o]; was && !fam[o] {
						own = false
					}
				}
			}
			if t, isT := x.(*Term); isT && t.op == "seqempty" {
				own = true
			}
			if !own {
				mod(info.phiSeq, ph.Name())
			}
		}
	}
	for n, t := range st.heap {
		if r.v.heapByName(act.head, n) != t {
			mod(info.heaps, n)
		}
	}
	for n, t := range st.ghost {
		if r.v.ghostGet(act.head, n) != t {
			mod(info.ghosts, n)
		}
	}
	if st.alloc != act.head.alloc && !info.alloc {
		info.alloc = true
		changed = true
	}
	for o, t := range act.head.objs {
		if st.objs[o] != t {
			mod(info.objs, o.key)
		}
	}
	for cell, x := range act.head.cells {
		if _, ok := st.promoted[cell]; ok {
			mod(info.promote, cell.key)
			continue
		}
		if !sameVal(x, st.cells[cell]) {
			mod(info.cells, cell.key)
		}
	}
	if changed {
		r.restart = true
		return
	}
	if !r.collect {
		return
	}
	le := &loopEval{r: r, c: c, f: f, l: act.loop, phis: phis, k: Add(act.k, IntLit(1)), act: act}
	for _, cd := range info.cands {
		if cd.dead {
			continue
		}
		g := r.evalCand(cd, le)
		if g == nil {
			cd.dead = true
			cd.why = "not expressible at the back edge"
			r.candChanged = true
			continue
		}
		if cd.varnt {
			m0 := act.measure[cd]
			if m0 == nil {
				continue
			}
			r.obligeCand(c, "variant", cd, And(Le(IntLit(0), m0), Lt(g, m0)))
			continue
		}
		r.obligeCand(c, "inv-step", cd, g)
	}
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case []Val:
		y, ok := b.([]Val)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Slice:
		y, ok := b.(*Slice)
		return ok && (x == y || x.obj == y.obj && x.seq == y.seq && x.lo == y.lo && x.hi == y.hi)
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.kind != y.kind || x.cell != y.cell || x.ref != y.ref || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return x.kind != 'e' || x.sl == y.sl && x.idx == y.idx
	}
	return a == b
}

func (r *Run) obligeCand(c *Config, kind string, cd *Candidate, g *Term) {
	g = c.st.simp(g)
	if g == tTrue {
		return
	}
	r.obls = append(r.obls, &Obligation{fn: r.key, kind: kind, name: cd.text, pc: c.st.pc[:len(c.st.pc):len(c.st.pc)], goal: g, cand: cd, path: r.paths, lean: r.lean(c.st.pc, cd.base, cd.label, cd.uses)})
}

// lean leaves out the facts an obligation is not expected to need: those of
// labelled invariants for an unlabelled one, those not listed for one that
// lists what it uses. It is tried first; nil: nothing to leave out.
func (r *Run) lean(pc []*Term, base bool, label string, uses []string) []*Term {
	if !base && uses == nil {
		return nil
	}
	var out []*Term
	for _, t := range pc {
		if o, ok := r.origin[t]; ok && o != label && (base || !contains(uses, o)) {
			continue
		}
		out = append(out, t)
	}
	if len(out) == len(pc) {
		return nil
	}
	return out
}

// evalCand evaluates a candidate; nil if it is not expressible there.
func (r *Run) evalCand(cd *Candidate, le *loopEval) (t *Term) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case specErr:
				cd.why = e.msg
				t = nil
			case unsupported:
				cd.why = e.msg
				t = nil
			default:
				panic(e)
			}
		}
	}()
	return cd.eval(le)
}

// ---- candidate generation ----

type slot struct {
	name  string
	frame int
	phi   *ssa.Phi
	val   ssa.Value
	cell  string
	typ   types.Type
	own   bool // varies in this loop
}

func (le *loopEval) slotVal(s slot) SVal {
	if s.phi != nil && s.own {
		return SVal{le.phis[s.phi], goST(s.typ)}
	}
	if s.val != nil {
		x, ok := le.c.frames[s.frame].env[s.val]
		if !ok {
			panic(specErr{"value not defined"})
		}
		return SVal{x, goST(s.typ)}
	}
	for cell, x := range le.c.st.cells {
		if cell.key == s.cell {
			if _, ok := x.([]Val); ok {
				x = le.r.v.toTerm(le.c.st, x)
			}
			return SVal{x, goST(s.typ)}
		}
	}
	for cell := range le.c.st.promoted {
		if cell.key == s.cell {
			return SVal{le.r.v.load(le.c.st, &Ptr{kind: 'c', cell: cell}), goST(s.typ)}
		}
	}
	panic(specErr{"variable " + s.cell + " not defined"})
}

func (r *Run) slots(c *Config, f *Frame, l *Loop, info *LoopState, phis []*ssa.Phi) []slot {
	var out []slot
	for _, ph := range phis {
		out = append(out, slot{name: ph.Name(), frame: len(c.frames) - 1, phi: ph, typ: ph.Type(), own: true})
	}
	for _, cell := range sortedCells(c.st) {
		if strings.HasPrefix(cell.key, "global:") {
			continue
		}
		out = append(out, slot{name: lastSlash(cell.key), cell: cell.key, typ: cell.typ, own: info.cells[cell.key] || info.promote[cell.key]})
	}
	for cell := range c.st.promoted {
		out = append(out, slot{name: lastSlash(cell.key), cell: cell.key, typ: cell.typ, own: true})
	}
	var ranged ssa.Value // the map the loop visits
	for _, in := range l.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			ranged = nx.Iter.(*ssa.Range).X
		}
	}
	// other values: loop variables of enclosing loops, parameters and local
	// values that are used in this loop
	for fi, fr := range c.frames {
		seen := map[ssa.Value]bool{}
		add := func(v ssa.Value) {
			if v == nil || seen[v] {
				return
			}
			if ph, ok := v.(*ssa.Phi); ok && fr == f && ph.Block() == l.header {
				return
			}
			if _, ok := fr.env[v]; !ok {
				return
			}
			switch fr.env[v].(type) {
			case *Term, *Slice, *Ptr:
			default:
				return
			}
			if p, ok := fr.env[v].(*Ptr); ok && (p.kind != 'h' || len(p.path) > 0) {
				return
			}
			seen[v] = true
			own := false
			if sl, ok := fr.env[v].(*Slice); ok && sl.obj != nil {
				own = info.objs[sl.obj.key]
			}
			if mt, ok := v.Type().Underlying().(*types.Map); ok {
				md, _ := r.v.mapHeaps(mt)
				own = info.heaps[md.name] || v == ranged
			}
			// a pointer to an object one of whose fields the loop writes
			if p, ok := fr.env[v].(*Ptr); !ok || p.kind == 'h' {
				if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
						pre := structOf(pt.Elem()).name + "."
						for h := range info.heaps {
							own = own || strings.HasPrefix(h, pre)
						}
					}
				}
			}
			out = append(out, slot{name: fmt.Sprintf("%d:%s", fi, v.Name()), frame: fi, val: v, typ: v.Type(), own: own})
		}
		for _, p := range fr.fn.Params {
			add(p)
		}
		for _, a := range fr.loops {
			for _, ph := range headerPhis(a.loop.header) {
				add(ph)
			}
		}
		if fr == f {
			var bs []*ssa.BasicBlock
			for b := range l.blocks {
				bs = append(bs, b)
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
			add(ranged)
			for _, b := range bs {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op != nil && *op != nil {
							if vi, ok := (*op).(ssa.Instruction); ok && vi.Parent() == fr.fn && !l.blocks[vi.Block()] {
								add(*op)
							}
						}
					}
				}
			}
		}
	}
	return out
}

func (info *LoopState) add(r *Run, cd *Candidate) {
	if _, ok := info.byKey[cd.key]; ok {
		return
	}
	cd.loop = info
	if r.v.deadCands[r.key+"|"+info.key+"|"+cd.key] {
		cd.dead = true
	}
	info.byKey[cd.key] = cd
	info.cands = append(info.cands, cd)
	r.candChanged = true
}

func (r *Run) makeCands(c *Config, f *Frame, l *Loop, info *LoopState, phis []*ssa.Phi) {
	if !r.genCands {
		return
	}
	for _, ph := range phis {
		ph := ph
		if isInteger(ph.Type()) {
			if step, ok := phiStep(ph, l); ok {
				info.add(r, &Candidate{key: "step " + ph.Name(), text: fmt.Sprintf("%s counts iterations", ph.Name()), eval: func(le *loopEval) *Term {
					e := r.v.toTerm(le.c.st, le.act.entry[ph])
					return Eq(r.v.toTerm(le.c.st, le.phis[ph]), Add(e, Mul(IntLit(step), le.k)))
				}})
			} else {
				info.add(r, &Candidate{key: "mono " + ph.Name(), text: fmt.Sprintf("%s does not fall below its first value", ph.Name()), eval: func(le *loopEval) *Term {
					return Le(r.v.toTerm(le.c.st, le.act.entry[ph]), r.v.toTerm(le.c.st, le.phis[ph]))
				}})
			}
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			info.add(r, &Candidate{key: "len " + ph.Name(), text: fmt.Sprintf("%s grows by one per iteration", ph.Name()), eval: func(le *loopEval) *Term {
				e := r.v.toTerm(le.act.pre, le.act.entry[ph])
				return Eq(SeqLen(r.v.toTerm(le.c.st, le.phis[ph])), Add(SeqLen(e), le.k))
			}})
		}
	}
	// positions of iterators over strings
	for _, cell := range sortedCells(c.st) {
		if !info.cells[cell.key] || !strings.HasPrefix(lastSlash(cell.key), "iter") || cell.typ != types.Typ[types.Int] {
			continue
		}
		cell := cell
		if t, ok := c.st.cells[cell].(*Term); !ok || t.sort != SInt {
			continue
		}
		info.add(r, &Candidate{key: "iter " + cell.key, text: "position of " + lastSlash(cell.key) + " counts iterations", eval: func(le *loopEval) *Term {
			find := func(st *State) *Term {
				for x, v := range st.cells {
					if x.key == cell.key {
						if t, ok := v.(*Term); ok {
							return t
						}
					}
				}
				panic(specErr{"iterator not defined"})
			}
			return Eq(find(le.c.st), Add(find(le.act.pre), le.k))
		}})
	}
	// exit condition
	if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && isInteger(bo.X.Type()) {
			inT, inF := l.blocks[l.header.Succs[0]], l.blocks[l.header.Succs[1]]
			op := bo.Op
			if !inT && inF {
				switch op {
				case token.LSS:
					op = token.GEQ
				case token.LEQ:
					op = token.GTR
				case token.GTR:
					op = token.LEQ
				case token.GEQ:
					op = token.LSS
				}
			}
			if op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ {
				info.add(r, &Candidate{key: "exit", text: "bound of the loop condition", eval: func(le *loopEval) *Term {
					x, y := le.headerCond(bo)
					switch op {
					case token.LSS:
						return Le(x, y)
					case token.GTR:
						return Le(y, x)
					case token.LEQ:
						return Le(x, Add(y, IntLit(1)))
					default:
						return Le(y, Add(x, IntLit(1)))
					}
				}})
				info.add(r, &Candidate{key: "variant", text: "distance to the bound of the loop condition", varnt: true, eval: func(le *loopEval) *Term {
					x, y := le.headerCond(bo)
					switch op {
					case token.LSS, token.LEQ:
						return Add(Sub(y, x), IntLit(1))
					default:
						return Add(Sub(x, y), IntLit(1))
					}
				}})
			}
		}
	}
	// frames
	for _, n := range sortedKeys(info.heaps) {
		n := n
		info.add(r, &Candidate{key: "frame0 " + n, text: "objects older than the call keep " + n, eval: func(le *loopEval) *Term {
			return frameFact(r.v.heapByName(le.c.st, n), r.v.heapByName(r.entry, n), r.entry.alloc)
		}})
		info.add(r, &Candidate{key: "frame1 " + n, text: "objects older than the loop keep " + n, eval: func(le *loopEval) *Term {
			return frameFact(r.v.heapByName(le.c.st, n), r.v.heapByName(le.act.pre, n), le.act.pre.alloc)
		}})
	}
	if r.spec != nil {
		if fr := r.v.statedFrame(r.spec, r.fn); fr != nil {
			for _, n := range sortedKeys(info.heaps) {
				n := n
				if ps := fr.params[n]; len(ps) > 0 {
					info.add(r, &Candidate{key: "frameP " + n, text: "objects older than the call keep " + n + " except as stated", eval: func(le *loopEval) *Term {
						return r.frameExcept(r.v.heapByName(le.c.st, n), r.v.heapByName(r.entry, n), ps)
					}})
				}
			}
		}
	}
	for o := range c.st.objs {
		if !info.objs[o.key] {
			continue
		}
		key := o.key
		info.add(r, &Candidate{key: "objlen " + key, text: "length of " + lastSlash(key) + " is kept", eval: func(le *loopEval) *Term {
			for o, t := range le.c.st.objs {
				if o.key == key {
					if p, ok := le.act.pre.objs[o]; ok {
						return Eq(SeqLen(t), SeqLen(p))
					}
				}
			}
			return tTrue
		}})
	}
	// user templates
	if r.spec != nil {
		r.userCands(c, f, l, info, phis, r.spec, nil)
	}
	if sp, ok := r.v.db.funcs[funcKey(f.fn)]; ok && sp != r.spec && sp.flags["inline"] {
		fi := len(c.frames) - 1
		var params []slot
		for i, p := range f.fn.Params {
			if i < len(sp.params) {
				params = append(params, slot{name: sp.params[i], frame: fi, val: p, typ: p.Type()})
			}
		}
		r.userCands(c, f, l, info, phis, sp, params)
	}
}

func bindType(b Bind, pkg string) *SType {
	st := resolveType(b.typ, pkg)
	if st.kind == "map" && st.key.gt != nil && st.elem.gt != nil {
		st = goST(types.NewMap(st.key.gt, st.elem.gt))
	}
	return st
}

func frameFact(h, h0, alloc *Term) *Term {
	if h == h0 {
		return tTrue
	}
	b := BoundVar("r", SInt)
	return Forall([]*Term{b}, [][]*Term{{mk("select", arrElem(h.sort), h, b)}}, Implies(Lt(b, alloc), Eq(mk("select", arrElem(h.sort), h, b), mk("select", arrElem(h0.sort), h0, b))))
}

// phiStep recognises an integer loop variable changed by a constant.
func phiStep(ph *ssa.Phi, l *Loop) (int64, bool) {
	var step int64
	have := false
	for i, e := range ph.Edges {
		if !l.blocks[ph.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(ph) {
			return 0, false
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		s := k.Int64()
		if bo.Op == token.SUB {
			s = -s
		} else if bo.Op != token.ADD {
			return 0, false
		}
		if have && s != step {
			return 0, false
		}
		step, have = s, true
	}
	return step, have
}

// headerCond evaluates the operands of the loop condition at this point.
func (le *loopEval) headerCond(bo *ssa.BinOp) (*Term, *Term) {
	c := le.c.clone()
	f := c.top()
	for ph, x := range le.phis {
		f.env[ph] = x
	}
	r := le.r
	save := r.collect
	r.collect = false
	defer func() { r.collect = save }()
	f.block = le.l.header
	for i, in := range le.l.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.IndexAddr:
			f.idx = i
			r.step(c)
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				f.idx = i
				r.step(c)
				continue
			}
			panic(specErr{"loop condition calls a function"})
		default:
			panic(specErr{"loop condition"})
		}
	}
	return r.v.toTerm(c.st, r.val(c, bo.X)), r.v.toTerm(c.st, r.val(c, bo.Y))
}

// candLabel is the label of an invariant that belongs to a property.
func candLabel(cl Clause) string {
	if cl.props == nil {
		return ""
	}
	return cl.label
}

// activeLoops are the loops control is in, outermost first: those of the
// functions f is inlined into, then its own.
func activeLoops(c *Config, f *Frame) []*loopAct {
	var out []*loopAct
	for _, fr := range c.frames[:len(c.frames)-1] {
		out = append(out, fr.loops...)
	}
	return append(out, f.loops...)
}

func (r *Run) userCands(c *Config, f *Frame, l *Loop, info *LoopState, phis []*ssa.Phi, sp *FuncSpec, params []slot) {
	var all []slot
	for _, cl := range sp.cls {
		if cl.kind != "inv" && cl.kind != "invariant" && cl.kind != "decreases" {
			continue
		}
		if !r.v.clauseActive(cl) {
			continue
		}
		if cl.depth >= 0 && cl.kind != "decreases" {
			d := 0
			for _, a := range activeLoops(c, f) {
				if a.loop != l {
					d++
				}
			}
			if d != cl.depth {
				continue
			}
		}
		if all == nil {
			all = r.slots(c, f, l, info, phis)
		}
		cl := cl
		var opts [][]slot
		ok := true
		for _, b := range cl.binds {
			st := bindType(b, sp.pkg)
			var o []slot
			for _, s := range all {
				if st.gt != nil && types.Identical(s.typ, st.gt) {
					o = append(o, s)
				}
			}
			if len(o) == 0 {
				ok = false
				break
			}
			opts = append(opts, o)
		}
		if !ok {
			continue
		}
		n := 0
		var rec func(i int, ch []slot)
		rec = func(i int, ch []slot) {
			if n > 400 {
				return
			}
			if i < len(opts) {
				for _, s := range opts[i] {
					dup := false
					for _, t := range ch {
						if t.phi == s.phi && t.val == s.val && t.cell == s.cell {
							dup = true
						}
					}
					if !dup {
						rec(i+1, append(ch[:len(ch):len(ch)], s))
					}
				}
				return
			}
			if len(ch) > 0 {
				own := false
				for _, s := range ch {
					own = own || s.own
				}
				if !own && len(phis) > 0 && cl.kind != "invariant" {
					return
				}
			}
			n++
			var names []string
			for _, s := range ch {
				names = append(names, s.name)
			}
			pick := append([]slot{}, ch...)
			text := fmt.Sprintf("%s:%d %s [%s]", cl.file, cl.line, cl.e, strings.Join(names, ","))
			if r.v.skip[candName(info, text)] {
				r.v.skipped++
				return
			}
			info.add(r, &Candidate{key: fmt.Sprintf("user %s:%d %s", cl.file, cl.line, strings.Join(names, ",")),
				text: text, base: cl.props == nil, label: candLabel(cl), uses: cl.uses, user: true, varnt: cl.kind == "decreases",
				eval: func(le *loopEval) *Term {
					vars := map[string]SVal{}
					if params == nil {
						for k, x := range r.vars {
							vars[k] = x
						}
					}
					for _, s := range params {
						vars[s.name] = le.slotVal(s)
					}
					pvars := map[string]SVal{}
					for i, s := range pick {
						vars[cl.binds[i].name] = le.slotVal(s)
						if x, ok := le.act.entry[s.phi]; ok && s.phi != nil && s.own {
							pvars[cl.binds[i].name] = SVal{x, goST(s.typ)}
						}
						if s.cell != "" && le.act.pre != nil {
							for cell, x := range le.act.pre.cells {
								if cell.key == s.cell {
									if _, ok := x.([]Val); ok {
										x = r.v.toTerm(le.act.pre, x)
									}
									pvars[cl.binds[i].name] = SVal{x, goST(s.typ)}
								}
							}
						}
					}
					vars["$k"] = SVal{le.k, stInt}
					if t := le.visited(); t != nil {
						vars["$visited"] = SVal{t, stBool}
					}
					// counters of enclosing loops
					for i, a := range activeLoops(le.c, le.f) {
						if a != le.act {
							vars[fmt.Sprintf("$k%d", i)] = SVal{a.k, stInt}
						}
					}
					ctx := &EvalCtx{v: r.v, db: r.v.db, pkg: sp.pkg, st: le.c.st, old: r.entry, pre: le.act.pre, preVars: pvars, vars: vars}
					t := ctx.term(cl.e)
					if cl.kind != "decreases" && t.sort != SBool {
						panic(specErr{"invariant is not a formula"})
					}
					return t
				}})
		}
		rec(0, nil)
	}
}
