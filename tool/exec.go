package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a proof goal under a path condition.
type Obligation struct {
	fn    string
	name  string
	kind  string // post, inv-entry, inv-step, safety, pre, cover, lemma
	pc    []*Term
	lean  []*Term // facts to try first, nil: all of pc
	goal  *Term
	cand  *Candidate // Houdini candidate it decides
	where string
	err   string // executor could not express it
	path  int
	res   *SolveResult
	lemma *LemmaDecl
	props []string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type loopAct struct {
	loop  *Loop
	ctx   string
	info  *LoopState
	k     *Term // completed iterations
	pre   *State
	head  *State
	phis  map[*ssa.Phi]Val // at the header
	entry map[*ssa.Phi]Val // on entry
	measure map[*Candidate]*Term
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	loops  []*loopAct
	lastK  []*Term // counters of the loops left last, outermost first
	ctx    string
	call   ssa.Instruction // instruction in the caller
	retTo  ssa.Value       // value to bind in the caller
	callN  map[ssa.Instruction]int
}

type Config struct {
	st     *State
	frames []*Frame
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = cp(f.env)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}
func (c *Config) clone() *Config {
	n := &Config{st: c.st.clone()}
	for _, f := range c.frames {
		n.frames = append(n.frames, f.clone())
	}
	return n
}
func (c *Config) top() *Frame { return c.frames[len(c.frames)-1] }

// Run is one symbolic execution of a function.
type Run struct {
	v        *Verifier
	fn       *ssa.Function
	spec     *FuncSpec
	key      string
	entry    *State
	vars     map[string]SVal // contract parameters
	obls     []*Obligation
	origin   map[*Term]string // label of the invariant a fact comes from
	collect  bool
	restart  bool
	work     []*Config
	paths    int
	steps    int
	onReturn func(r *Run, c *Config, res []Val)
	loopInfo map[string]*LoopState
	errs     []string
	rets     []*retState
	cellN    int
	pending  []pendingCB
	safety   bool
	genCands, useCands, candChanged bool
	modsOnly bool
	initEntry func() *Config
	inits    []func(st *State)
	depthCtx string
}

type retState struct {
	st  *State
	res []Val
}

type pendingCB struct {
	spec *FuncSpec
	fn   *Func
	name string
	conf *Config
}

func (r *Run) oblige(c *Config, kind, name string, goal *Term, pos token.Pos) {
	if !r.collect {
		return
	}
	g := c.st.simp(goal)
	o := &Obligation{fn: r.key, kind: kind, name: name, pc: c.st.pc[:len(c.st.pc):len(c.st.pc)], goal: g, path: r.paths}
	if pos.IsValid() {
		o.where = r.v.pos(pos)
	}
	r.obls = append(r.obls, o)
}

func (r *Run) fail(msg string) {
	for _, e := range r.errs {
		if e == msg {
			return
		}
	}
	r.errs = append(r.errs, msg)
}

// exec runs all paths.
func (r *Run) exec() {
	for len(r.work) > 0 {
		c := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		r.runConfig(c)
		if r.paths > r.v.maxPaths {
			r.fail("too many paths")
			return
		}
	}
}

func (r *Run) runConfig(c *Config) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				where := ""
				if len(c.frames) > 0 {
					f := c.top()
					where = f.fn.String()
					if f.idx < len(f.block.Instrs) {
						where += fmt.Sprintf(" [%s] %s", f.block.Instrs[f.idx], r.v.pos(f.block.Instrs[f.idx].Pos()))
					}
				}
				r.fail("outside the supported subset: " + e.msg + " in " + where)
			default:
				panic(e)
			}
		}
	}()
	for {
		if c.st.dead() {
			r.paths++
			return
		}
		r.steps++
		if r.steps > 3000000 {
			unsup("too many steps")
		}
		if !r.step(c) {
			return
		}
	}
}

func (r *Run) fork(c *Config) *Config {
	n := c.clone()
	r.work = append(r.work, n)
	return n
}

func (r *Run) val(c *Config, x ssa.Value) Val { return r.valF(c, c.top(), x) }

func (r *Run) valF(c *Config, f *Frame, x ssa.Value) Val {
	switch x := x.(type) {
	case *ssa.Const:
		if _, ok := x.Type().Underlying().(*types.Signature); ok {
			return IntLit(0)
		}
		return constTerm(x.Value, x.Type())
	case *ssa.Function:
		return &Func{fn: x}
	case *ssa.Global:
		return &Ptr{kind: 'c', cell: r.v.globalCell(x)}
	case *ssa.Builtin:
		return &Func{bi: x.Name()}
	}
	y, ok := f.env[x]
	if !ok {
		unsup("undefined value %s", x.Name())
	}
	return y
}

func (r *Run) term(c *Config, x ssa.Value) *Term { return r.v.toTerm(c.st, r.val(c, x)) }

func (r *Run) set(c *Config, x ssa.Value, y Val) { c.top().env[x] = y }

// jump moves to block b; it reports false if the path ends here.
func (r *Run) jump(c *Config, b *ssa.BasicBlock) bool {
	f := c.top()
	f.prev = f.block
	loops := r.v.loopsOf(f.fn)
	if len(f.loops) > 0 && !f.loops[len(f.loops)-1].loop.blocks[b] {
		f.lastK = nil
		for _, a := range f.loops {
			f.lastK = append(f.lastK, a.k)
		}
	}
	for len(f.loops) > 0 && !f.loops[len(f.loops)-1].loop.blocks[b] {
		f.loops = f.loops[: len(f.loops)-1 : len(f.loops)-1]
	}
	if l := loops[b]; l != nil {
		if len(f.loops) > 0 && f.loops[len(f.loops)-1].loop == l {
			r.backEdge(c, f.loops[len(f.loops)-1], b)
			r.paths++
			return false
		}
		r.enterLoop(c, l, b)
		f.block = b
		f.idx = 0
		for f.idx < len(b.Instrs) {
			if _, ok := b.Instrs[f.idx].(*ssa.Phi); !ok {
				break
			}
			f.idx++
		}
		return true
	}
	// phis
	pi := predIndex(b, f.block)
	var vals []Val
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, r.val(c, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		f.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.block = b
	f.idx = n
	return true
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

func (r *Run) branch(c *Config, cond *Term, tb, fb *ssa.BasicBlock) bool {
	cond = c.st.simp(cond)
	if cond == tTrue {
		return r.jump(c, tb)
	}
	if cond == tFalse {
		return r.jump(c, fb)
	}
	n := r.fork(c)
	// the other branch
	func() {
		if !n.st.assume(Not(cond)) || !r.jumpSafe(n, fb) {
			r.work = r.work[:len(r.work)-1]
		}
	}()
	if !c.st.assume(cond) {
		r.paths++
		return false
	}
	return r.jump(c, tb)
}

// jumpSafe is jump for the forked configuration, which is on top of the work list.
func (r *Run) jumpSafe(n *Config, b *ssa.BasicBlock) bool {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			r.fail("outside the supported subset: " + u.msg + " in " + n.top().fn.String())
			n.st.pc = append(n.st.pc, tFalse)
		}
	}()
	return r.jump(n, b)
}

func (r *Run) step(c *Config) bool {
	f := c.top()
	in := f.block.Instrs[f.idx]
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		unsup("phi in the middle of a block")
	case *ssa.Alloc:
		r.set(c, in, r.alloc(c, in))
	case *ssa.BinOp:
		r.set(c, in, r.binop(c, in))
	case *ssa.UnOp:
		r.set(c, in, r.unop(c, in))
	case *ssa.ChangeInterface:
		r.set(c, in, r.val(c, in.X))
	case *ssa.ChangeType:
		r.set(c, in, r.changeType(c, in))
	case *ssa.Convert:
		r.set(c, in, r.convert(c, in))
	case *ssa.MultiConvert:
		unsup("generic conversion")
	case *ssa.Extract:
		t, ok := r.val(c, in.Tuple).(Tuple)
		if !ok {
			unsup("extract from %T", r.val(c, in.Tuple))
		}
		r.set(c, in, t[in.Index])
	case *ssa.Field:
		si := structOf(in.X.Type())
		r.set(c, in, Sel(r.term(c, in.X), si, in.Field))
	case *ssa.FieldAddr:
		el := derefPtr(in.X.Type())
		p := r.v.asPtr(r.val(c, in.X), el)
		r.set(c, in, p.field(structOf(el), in.Field))
	case *ssa.Index:
		r.set(c, in, r.index(c, in))
	case *ssa.IndexAddr:
		r.set(c, in, r.indexAddr(c, in))
	case *ssa.Lookup:
		r.set(c, in, r.lookup(c, in))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, r.val(c, b))
		}
		r.set(c, in, &Func{fn: in.Fn.(*ssa.Function), binds: bs})
	case *ssa.MakeInterface:
		r.set(c, in, r.v.makeIface(c.st, r.val(c, in.X), in.X.Type()))
	case *ssa.MakeMap:
		r.set(c, in, r.makeMap(c, in.Type().Underlying().(*types.Map)))
	case *ssa.MakeSlice:
		n := r.term(c, in.Len)
		r.safe(c, "make-slice-length", Le(IntLit(0), n), in.Pos())
		el := in.Type().Underlying().(*types.Slice).Elem()
		o := r.newObj(c, in)
		c.st.objs[o] = r.filled(c, sortOf(el), zeroTerm(el), n)
		r.set(c, in, &Slice{obj: o, elem: el, tip: true})
	case *ssa.MapUpdate:
		m := r.term(c, in.Map)
		mt := in.Map.Type().Underlying().(*types.Map)
		k, x := r.term(c, in.Key), r.term(c, in.Value)
		hd, hv := r.v.mapHeaps(mt)
		d, vv := r.v.heapGet(c.st, hd), r.v.heapGet(c.st, hv)
		c.st.heap[hd.name] = Store(d, m, Store(Select(d, m), k, tTrue))
		c.st.heap[hv.name] = Store(vv, m, Store(Select(vv, m), k, x))
	case *ssa.Range:
		r.set(c, in, r.rangeStart(c, in))
	case *ssa.Next:
		r.set(c, in, r.rangeNext(c, in))
	case *ssa.Slice:
		r.set(c, in, r.slice(c, in))
	case *ssa.Store:
		el := derefPtr(in.Addr.Type())
		p := r.v.asPtr(r.val(c, in.Addr), el)
		r.v.store(c.st, p, r.val(c, in.Val))
	case *ssa.TypeAssert:
		r.set(c, in, r.typeAssert(c, in))
	case *ssa.If:
		return r.branch(c, r.term(c, in.Cond), f.block.Succs[0], f.block.Succs[1])
	case *ssa.Jump:
		return r.jump(c, f.block.Succs[0])
	case *ssa.Panic:
		r.safe(c, "no-panic", tFalse, in.Pos())
		r.paths++
		return false
	case *ssa.Return:
		var res []Val
		for _, x := range in.Results {
			res = append(res, r.val(c, x))
		}
		return r.ret(c, res)
	case *ssa.Defer:
		d := deferred{call: in.Common(), pos: in.Pos()}
		d.fn, d.args = r.evalCall(c, in.Common())
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			// stay at this instruction until all are done
			f.idx--
			r.call(c, in, d.call, d.fn, d.args, nil, d.pos)
			return r.next(c)
		}
	case *ssa.Call:
		fn, args := r.evalCall(c, in.Common())
		r.call(c, in, in.Common(), fn, args, in, in.Pos())
		return r.next(c)
	default:
		unsup("instruction %T", in)
	}
	f.idx++
	return true
}

// next advances after a call; a pushed frame is entered as it is.
func (r *Run) next(c *Config) bool {
	if c.st.dead() {
		r.paths++
		return false
	}
	if pushed {
		pushed = false
		return true
	}
	c.top().idx++
	return true
}

var pushed bool

func (r *Run) ret(c *Config, res []Val) bool {
	if len(c.frames) == 1 {
		r.paths++
		r.onReturn(r, c, res)
		return false
	}
	f := c.top()
	c.frames = c.frames[:len(c.frames)-1]
	cf := c.top()
	if f.retTo != nil {
		switch len(res) {
		case 0:
		case 1:
			cf.env[f.retTo] = res[0]
		default:
			cf.env[f.retTo] = Tuple(res)
		}
	}
	cf.idx++
	return true
}

func (r *Run) safe(c *Config, name string, goal *Term, pos token.Pos) {
	goal = c.st.simp(goal)
	if r.safety && goal != tTrue {
		r.oblige(c, "safety", name, goal, pos)
	}
	c.st.assume(goal)
}

func (r *Run) alloc(c *Config, in *ssa.Alloc) Val {
	el := derefPtr(in.Type())
	f := c.top()
	r.cellN++
	cell := &Cell{key: f.ctx + "/" + in.Name(), typ: el, id: r.cellN}
	if at, ok := el.Underlying().(*types.Array); ok && at.Len() <= 64 && at.Len() > 0 {
		var vs []Val
		for i := int64(0); i < at.Len(); i++ {
			vs = append(vs, zeroTerm(at.Elem()))
		}
		c.st.cells[cell] = vs
	} else {
		c.st.cells[cell] = zeroTerm(el)
	}
	return &Ptr{kind: 'c', cell: cell}
}

func (r *Run) newObj(c *Config, in ssa.Instruction) *Obj {
	r.cellN++
	k := c.top().ctx + "/obj"
	if vv, ok := in.(ssa.Value); ok {
		k += vv.Name()
	}
	return &Obj{key: k, id: r.cellN}
}

// filled is the sequence of n copies of x.
func (r *Run) filled(c *Config, es Sort, x, n *Term) *Term {
	s := SeqSort(es)
	if n.num != nil && n.num.IsInt() && n.num.Num().Int64() <= 16 && n.num.Sign() >= 0 {
		t := SeqEmpty(s)
		for i := int64(0); i < n.num.Num().Int64(); i++ {
			t = SeqPush(t, x)
		}
		return t
	}
	t := mk("seqfill", s, x, n)
	c.st.assume(Eq(mk("seqlen", SInt, t), n))
	i := BoundVar("i", SInt)
	ix := mk("seqidx", es, t, i)
	c.st.assume(Forall([]*Term{i}, [][]*Term{{ix}}, Implies(And(Le(IntLit(0), i), Lt(i, n)), Eq(ix, x))))
	return t
}

func (r *Run) makeMap(c *Config, mt *types.Map) Val {
	ref := c.st.alloc
	c.st.alloc = Add(c.st.alloc, IntLit(1))
	hd, hv := r.v.mapHeaps(mt)
	d, vv := r.v.heapGet(c.st, hd), r.v.heapGet(c.st, hv)
	c.st.heap[hd.name] = Store(d, ref, mk("constarr", arrElem(hd.sort), tFalse))
	_ = vv
	return ref
}

// loaded adds what is known of any reference read from memory.
func (r *Run) loaded(c *Config, t Val, gt types.Type) {
	x, ok := t.(*Term)
	if !ok {
		return
	}
	r.allocated(c.st, x, gt)
}

func (r *Run) allocated(st *State, x *Term, gt types.Type) {
	switch gt.Underlying().(type) {
	case *types.Pointer, *types.Map:
		if x.num != nil || strings.HasPrefix(x.op, "addr.") {
			return
		}
		st.assume(Le(IntLit(0), x))
		st.assume(Lt(x, st.alloc))
	case *types.Interface:
		if x.op == "mkI" {
			return
		}
		st.assume(Lt(IRef(x), st.alloc))
		st.assume(Le(IntLit(0), ITag(x)))
		// the nil interface has one representation
		st.assume(Implies(Eq(ITag(x), IntLit(0)), Eq(x, MkIface(IntLit(0), IntLit(0)))))
	}
}

func (r *Run) unop(c *Config, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		el := derefPtr(in.X.Type())
		p := r.v.asPtr(r.val(c, in.X), el)
		x := r.v.load(c.st, p)
		if t, ok := x.(*Term); ok && isSeqSort(t.sort) {
			if sl, ok := el.Underlying().(*types.Slice); ok {
				_ = sl
				return t
			}
		}
		r.loaded(c, x, el)
		return x
	case token.NOT:
		return Not(r.term(c, in.X))
	case token.SUB:
		return Neg(r.term(c, in.X))
	case token.XOR:
		t := r.term(c, in.X)
		return Sub(Neg(t), IntLit(1))
	}
	unsup("unary %s", in.Op)
	return nil
}

func truncDiv(a, b *Term) *Term {
	if b.num != nil && b.num.Sign() > 0 {
		if a.num != nil && a.num.Sign() >= 0 {
			q := new2(a, b)
			return q
		}
		return Ite(Le(IntLit(0), a), mk("div", SInt, a, b), Neg(mk("div", SInt, Neg(a), b)))
	}
	return mk("u.godiv", SInt, a, b)
}
func new2(a, b *Term) *Term {
	x := a.num.Num().Int64() / b.num.Num().Int64()
	return IntLit(x)
}
func truncMod(a, b *Term) *Term {
	if b.num != nil && b.num.Sign() > 0 {
		if a.num != nil {
			return IntLit(a.num.Num().Int64() % b.num.Num().Int64())
		}
		return Ite(Le(IntLit(0), a), mk("mod", SInt, a, b), Neg(mk("mod", SInt, Neg(a), b)))
	}
	return mk("u.gomod", SInt, a, b)
}

func (r *Run) binop(c *Config, in *ssa.BinOp) Val {
	xv, yv := r.val(c, in.X), r.val(c, in.Y)
	if in.Op == token.EQL || in.Op == token.NEQ {
		t := r.equal(c, xv, yv, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			t = Not(t)
		}
		return t
	}
	x, y := r.v.toTerm(c.st, xv), r.v.toTerm(c.st, yv)
	flt := isFloat(in.X.Type())
	str := isString(in.X.Type())
	switch in.Op {
	case token.ADD:
		if str {
			return SeqCat(x, y)
		}
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.QUO:
		if flt {
			return DivReal(x, y)
		}
		r.safe(c, "division-by-zero", Not(Eq(y, IntLit(0))), in.Pos())
		return truncDiv(x, y)
	case token.REM:
		r.safe(c, "division-by-zero", Not(Eq(y, IntLit(0))), in.Pos())
		return truncMod(x, y)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if str {
			l := func(a, b *Term) *Term { return mk("u.strlt", SBool, a, b) }
			switch in.Op {
			case token.LSS:
				return l(x, y)
			case token.GTR:
				return l(y, x)
			case token.LEQ:
				return Not(l(y, x))
			default:
				return Not(l(x, y))
			}
		}
		switch in.Op {
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Lt(y, x)
		default:
			return Le(y, x)
		}
	case token.SHR:
		if y.num != nil && y.num.Sign() >= 0 && y.num.Num().Int64() < 62 {
			return mk("div", SInt, x, IntLit(1<<uint(y.num.Num().Int64())))
		}
	case token.SHL:
		if y.num != nil && y.num.Sign() >= 0 && y.num.Num().Int64() < 62 {
			return Mul(IntLit(1<<uint(y.num.Num().Int64())), x)
		}
	case token.AND:
		// x & (2^k-1)
		if y.num != nil {
			n := y.num.Num().Int64()
			if n > 0 && n&(n+1) == 0 {
				return mk("mod", SInt, x, IntLit(n+1))
			}
		}
	}
	return mk("u.op"+mangleOp(in.Op), sortOf(in.Type()), x, y)
}

func mangleOp(o token.Token) string { return fmt.Sprintf("%d", int(o)) }

func (r *Run) equal(c *Config, xv, yv Val, xt, yt types.Type) *Term {
	// slices and functions against nil
	isNil := func(v Val, t types.Type) bool {
		if x, ok := v.(*Term); ok {
			switch t.Underlying().(type) {
			case *types.Slice:
				return x.op == "seqempty"
			case *types.Signature:
				return x == IntLit(0)
			}
		}
		return false
	}
	if _, ok := xt.Underlying().(*types.Slice); ok {
		o := xv
		if isNil(xv, xt) {
			o = yv
		}
		t := r.v.toTerm(c.st, o)
		if t.op == "seqempty" {
			return tTrue
		}
		// a nil slice is empty; whether an empty one is nil is unknown
		b := mk("u.isnilslice", SBool, t)
		c.st.assume(Implies(b, Eq(SeqLen(t), IntLit(0))))
		return b
	}
	if f, ok := xv.(*Func); ok && isNil(yv, yt) {
		_ = f
		return tFalse
	}
	if f, ok := yv.(*Func); ok && isNil(xv, xt) {
		_ = f
		return tFalse
	}
	// pointers to different cells, or nil
	if p, ok := xv.(*Ptr); ok {
		if q, ok := yv.(*Ptr); ok && p.kind == 'c' && q.kind == 'c' && len(p.path) == 0 && len(q.path) == 0 {
			return Bool(p.cell == q.cell)
		}
		if t, ok := yv.(*Term); ok && t == IntLit(0) && p.kind != 'h' {
			return tFalse
		}
	}
	if q, ok := yv.(*Ptr); ok {
		if t, ok := xv.(*Term); ok && t == IntLit(0) && q.kind != 'h' {
			return tFalse
		}
	}
	x, y := r.v.toTerm(c.st, xv), r.v.toTerm(c.st, yv)
	if x.sort != y.sort {
		// interface against concrete value
		if x.sort == SIface {
			y = MkIface(tagOf(yt), boxTerm(y, yt))
		} else if y.sort == SIface {
			x = MkIface(tagOf(xt), boxTerm(x, xt))
		}
	}
	if x.sort == SIface && (x == nilIface || y == nilIface) {
		if x == nilIface {
			x = y
		}
		return Eq(ITag(x), IntLit(0))
	}
	return Eq(x, y)
}

func (r *Run) changeType(c *Config, in *ssa.ChangeType) Val {
	x := r.val(c, in.X)
	from, to := structOf(in.X.Type()), structOf(in.Type())
	if from != nil && to != nil && from != to {
		t := r.v.toTerm(c.st, x)
		var as []*Term
		for i := range from.fields {
			as = append(as, Sel(t, from, i))
		}
		return MkStruct(to, as)
	}
	return x
}

func (r *Run) convert(c *Config, in *ssa.Convert) Val {
	from, to := in.X.Type(), in.Type()
	x := r.val(c, in.X)
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case isInteger(from) && isFloat(to):
		return ToReal(r.v.toTerm(c.st, x))
	case isFloat(from) && isInteger(to):
		t := r.v.toTerm(c.st, x)
		return Ite(Le(RealLit(0), t), mk("to_int", SInt, t), Neg(mk("to_int", SInt, Neg(t))))
	case isFloat(from) && isFloat(to):
		return x
	case isInteger(from) && isInteger(to):
		t := r.v.toTerm(c.st, x)
		if b, ok := to.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				if t.num == nil {
					return mk("mod", SInt, t, IntLit(256))
				}
			case types.Uint16:
				if t.num == nil {
					return mk("mod", SInt, t, IntLit(65536))
				}
			}
		}
		return t
	case isString(from) && isString(to):
		return x
	case isInteger(from) && isString(to):
		return ufunApp("encode", SStr, []*Term{SeqPush(SeqEmpty(SStr), r.v.toTerm(c.st, x))})
	case isString(from) && ts == SStr:
		// []byte or []rune
		el := to.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		t := r.v.toTerm(c.st, x)
		o := r.newObj(c, in)
		if el.Kind() == types.Uint8 {
			c.st.objs[o] = t
		} else {
			c.st.objs[o] = ufunApp("runes", SStr, []*Term{t})
		}
		return &Slice{obj: o, elem: to.Underlying().(*types.Slice).Elem(), tip: true}
	case fs == SStr && isString(to):
		el := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		t := r.v.toTerm(c.st, x)
		if el.Kind() == types.Uint8 {
			return t
		}
		return ufunApp("encode", SStr, []*Term{t})
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (r *Run) seqOf(c *Config, x ssa.Value) *Term { return r.term(c, x) }

func (r *Run) inBounds(c *Config, i, n *Term, pos token.Pos) {
	r.safe(c, "index-in-bounds", And(Le(IntLit(0), i), Lt(i, n)), pos)
}

func (r *Run) index(c *Config, in *ssa.Index) Val {
	if arr, ok := r.val(c, in.X).([]Val); ok {
		if i := r.term(c, in.Index); i.num != nil {
			return arr[i.num.Num().Int64()]
		}
	}
	s := r.term(c, in.X)
	i := r.term(c, in.Index)
	r.inBounds(c, i, SeqLen(s), in.Pos())
	x := SeqIdx(s, i)
	r.loaded(c, x, in.Type())
	if isString(in.X.Type()) {
		c.st.assume(And(Le(IntLit(0), x), Lt(x, IntLit(256))))
	}
	return x
}

func (r *Run) indexAddr(c *Config, in *ssa.IndexAddr) Val {
	i := r.term(c, in.Index)
	x := r.val(c, in.X)
	if el := derefPtr(in.X.Type()); el != nil {
		// pointer to array
		at := el.Underlying().(*types.Array)
		r.inBounds(c, i, IntLit(at.Len()), in.Pos())
		return r.v.asPtr(x, el).index(i, at.Elem())
	}
	el := in.X.Type().Underlying().(*types.Slice).Elem()
	s := r.asSlice(x, el)
	r.inBounds(c, i, SeqLen(r.v.content(c.st, s)), in.Pos())
	return &Ptr{kind: 'e', sl: s, idx: i}
}

func (r *Run) asSlice(x Val, el types.Type) *Slice {
	switch x := x.(type) {
	case *Slice:
		return x
	case *Term:
		return &Slice{seq: x, elem: el, tip: true}
	}
	unsup("slice value %T", x)
	return nil
}

func (r *Run) lookup(c *Config, in *ssa.Lookup) Val {
	if isString(in.X.Type()) {
		s, i := r.term(c, in.X), r.term(c, in.Index)
		r.inBounds(c, i, SeqLen(s), in.Pos())
		x := SeqIdx(s, i)
		c.st.assume(And(Le(IntLit(0), x), Lt(x, IntLit(256))))
		return x
	}
	mt := in.X.Type().Underlying().(*types.Map)
	hd, hv := r.v.mapHeaps(mt)
	m, k := r.term(c, in.X), r.term(c, in.Index)
	has := Select(Select(r.v.heapGet(c.st, hd), m), k)
	c.st.assume(Or(Not(Eq(m, IntLit(0))), Not(has)))
	val := Select(Select(r.v.heapGet(c.st, hv), m), k)
	if in.CommaOk {
		// decide presence by splitting, so that values keep their shape
		b := c.st.simp(has)
		if b != tTrue && b != tFalse {
			n := r.fork(c)
			nf := n.top()
			if n.st.assume(Not(has)) {
				nf.env[in] = Tuple{zeroTerm(mt.Elem()), tFalse}
				nf.idx++
			} else {
				r.work = r.work[:len(r.work)-1]
			}
			c.st.assume(has)
			b = tTrue
		}
		if b == tTrue {
			r.loaded(c, val, mt.Elem())
			return Tuple{val, tTrue}
		}
		return Tuple{zeroTerm(mt.Elem()), tFalse}
	}
	x := Ite(has, val, zeroTerm(mt.Elem()))
	r.loaded(c, x, mt.Elem())
	return x
}

func (r *Run) rangeStart(c *Config, in *ssa.Range) Val {
	r.cellN++
	cell := &Cell{key: c.top().ctx + "/iter" + in.Name(), id: r.cellN, typ: types.Typ[types.Int]}
	if isString(in.X.Type()) {
		c.st.cells[cell] = IntLit(0)
		return &Iter{cell: cell, str: r.term(c, in.X)}
	}
	mt := in.X.Type().Underlying().(*types.Map)
	c.st.cells[cell] = mk("constarr", ArrSort(sortOf(mt.Key()), SBool), tFalse)
	cell.typ = types.Typ[types.Invalid]
	hd, _ := r.v.mapHeaps(mt)
	return &Iter{cell: cell, m: r.term(c, in.X), mt: mt, isMap: true, dom: r.v.heapGet(c.st, hd)}
}

func (r *Run) rangeNext(c *Config, in *ssa.Next) Val {
	it := r.val(c, in.Iter).(*Iter)
	f := c.top()
	if !it.isMap {
		j := c.st.cells[it.cell].(*Term)
		rs := ufunApp("runes", SStr, []*Term{it.str})
		ok := Lt(j, SeqLen(rs))
		n := r.fork(c)
		if n.st.assume(Not(ok)) {
			n.top().env[in] = Tuple{tFalse, IntLit(0), IntLit(0)}
			n.top().idx++
		} else {
			r.work = r.work[:len(r.work)-1]
		}
		c.st.assume(ok)
		c.st.cells[it.cell] = Add(j, IntLit(1))
		off := ufunApp("runeoff", SInt, []*Term{it.str, j})
		return Tuple{tTrue, off, SeqIdx(rs, j)}
	}
	_ = f
	hd, hv := r.v.mapHeaps(it.mt)
	dom := Select(r.v.heapGet(c.st, hd), it.m)
	val := Select(r.v.heapGet(c.st, hv), it.m)
	vis := c.st.cells[it.cell].(*Term)
	ks := sortOf(it.mt.Key())
	n := r.fork(c)
	bk := BoundVar("k", ks)
	// every key has been visited, unless keys were added on the way
	all := Forall([]*Term{bk}, [][]*Term{{Select(dom, bk)}}, Implies(Select(dom, bk), Select(vis, bk)))
	if r.v.heapGet(c.st, hd) != it.dom {
		all = tTrue
	}
	if n.st.assume(all) {
		n.top().env[in] = Tuple{tFalse, zeroTerm(it.mt.Key()), zeroTerm(it.mt.Elem())}
		n.top().idx++
	}
	k := Fresh("key", ks)
	c.st.assume(Select(dom, k))
	c.st.assume(Not(Select(vis, k)))
	c.st.cells[it.cell] = Store(vis, k, tTrue)
	x := Select(val, k)
	r.loaded(c, x, it.mt.Elem())
	return Tuple{tTrue, k, x}
}

func (r *Run) slice(c *Config, in *ssa.Slice) Val {
	x := r.val(c, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = r.term(c, in.Low)
	}
	if in.High != nil {
		hi = r.term(c, in.High)
	}
	if in.Max != nil {
		unsup("three-index slice")
	}
	if el := derefPtr(in.X.Type()); el != nil {
		at := el.Underlying().(*types.Array)
		p := r.v.resolvePtr(c.st, r.v.asPtr(x, el))
		arr := r.v.load(c.st, p)
		var s *Term
		if vs, ok := arr.([]Val); ok {
			s = SeqEmpty(SeqSort(sortOf(at.Elem())))
			for _, e := range vs {
				s = SeqPush(s, r.v.toTerm(c.st, e))
			}
		} else {
			s = r.v.toTerm(c.st, arr)
		}
		if lo == nil && hi == nil || lo == nil && hi == IntLit(at.Len()) {
			o := r.newObj(c, in)
			c.st.objs[o] = s
			return &Slice{obj: o, elem: at.Elem(), tip: true}
		}
		l, h := IntLit(0), IntLit(at.Len())
		if lo != nil {
			l = lo
		}
		if hi != nil {
			h = hi
		}
		r.safe(c, "slice-in-bounds", And(Le(IntLit(0), l), Le(l, h), Le(h, IntLit(at.Len()))), in.Pos())
		o := r.newObj(c, in)
		c.st.objs[o] = SeqSub(s, l, h)
		return &Slice{obj: o, elem: at.Elem(), tip: false}
	}
	var s *Term
	if isString(in.X.Type()) {
		s = r.v.toTerm(c.st, x)
	} else {
		s = r.v.content(c.st, r.asSlice(x, in.X.Type().Underlying().(*types.Slice).Elem()))
	}
	l, h := IntLit(0), SeqLen(s)
	if lo != nil {
		l = lo
	}
	if hi != nil {
		h = hi
	}
	r.safe(c, "slice-in-bounds", And(Le(IntLit(0), l), Le(l, h), Le(h, SeqLen(s))), in.Pos())
	if isString(in.X.Type()) {
		return SeqSub(s, l, h)
	}
	sl := r.asSlice(x, in.X.Type().Underlying().(*types.Slice).Elem())
	tip := sl.tip && (hi == nil || Eq(h, SeqLen(s)) == tTrue)
	if sl.obj == nil {
		return &Slice{seq: SeqSub(s, l, h), elem: sl.elem, tip: tip}
	}
	n := &Slice{obj: sl.obj, elem: sl.elem, tip: tip}
	base := IntLit(0)
	if sl.lo != nil {
		base = sl.lo
	}
	n.lo = Add(base, l)
	if hi != nil || sl.hi != nil {
		n.hi = Add(base, h)
	}
	return n
}

func (r *Run) typeAssert(c *Config, in *ssa.TypeAssert) Val {
	x := r.term(c, in.X)
	if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		// conversion to another interface: the value is unchanged if it succeeds
		b := Fresh("implements", SBool)
		if types.Implements(in.X.Type(), in.AssertedType.Underlying().(*types.Interface)) {
			b = Not(Eq(ITag(x), IntLit(0)))
		}
		if in.CommaOk {
			return Tuple{Ite(b, x, nilIface), b}
		}
		r.safe(c, "type-assertion", b, in.Pos())
		return x
	}
	cond := Eq(ITag(x), tagOf(in.AssertedType))
	val := r.v.unboxIface(x, in.AssertedType)
	if !in.CommaOk {
		r.safe(c, "type-assertion", cond, in.Pos())
		r.loaded(c, val, in.AssertedType)
		return val
	}
	b := c.st.simp(cond)
	if b != tTrue && b != tFalse {
		n := r.fork(c)
		if n.st.assume(Not(cond)) {
			n.top().env[in] = Tuple{zeroTerm(in.AssertedType), tFalse}
			n.top().idx++
		} else {
			r.work = r.work[:len(r.work)-1]
		}
		c.st.assume(cond)
		b = tTrue
	}
	if b == tTrue {
		r.loaded(c, val, in.AssertedType)
		return Tuple{val, tTrue}
	}
	return Tuple{zeroTerm(in.AssertedType), tFalse}
}

// ---- helpers ----

func (v *Verifier) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := v.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, v.repo+"/"), q.Line)
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
