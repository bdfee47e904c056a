package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalCall evaluates the callee and the arguments of a call.
func (r *Run) evalCall(c *Config, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if cc.IsInvoke() {
		args = append(args, r.val(c, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, r.val(c, a))
	}
	if cc.IsInvoke() {
		return nil, args
	}
	return r.val(c, cc.Value), args
}

func (r *Run) bind(c *Config, to ssa.Value, res []Val) {
	if to == nil {
		return
	}
	switch len(res) {
	case 0:
	case 1:
		r.set(c, to, res[0])
	default:
		r.set(c, to, Tuple(res))
	}
}

// funcKey is the contract key of a function.
func funcKey(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		return funcKey(p) + "$" + fn.Name()[strings.LastIndexByte(fn.Name(), '$')+1:]
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Name()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Name()
	}
	if rcv := fn.Signature.Recv(); rcv != nil {
		t := rcv.Type()
		if p, ok := t.(*types.Pointer); ok {
			return fmt.Sprintf("%s.(*%s).%s", pk, namedName(p.Elem()), fn.Name())
		}
		return fmt.Sprintf("%s.%s.%s", pk, namedName(t), fn.Name())
	}
	n := fn.Name()
	if o := fn.Origin(); o != nil {
		n = o.Name()
	}
	return pk + "." + n
}

func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func pkgOfNamed(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return "error"
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return t.String()
}

func (r *Run) call(c *Config, in ssa.Instruction, cc *ssa.CallCommon, fn Val, args []Val, to ssa.Value, pos token.Pos) {
	if cc.IsInvoke() {
		key := pkgOfNamed(cc.Value.Type())
		if key == "error" {
			key = "error." + cc.Method.Name()
		} else {
			key += "." + cc.Method.Name()
		}
		if sp, ok := r.v.db.funcs[key]; ok {
			r.v.useSpec(sp)
			r.applyContract(c, sp, cc.Signature(), args, to, pos, key)
			return
		}
		// a known dynamic type
		t := r.v.toTerm(c.st, args[0])
		if tg := c.st.subKnown(ITag(t)); tg.num != nil {
			if m := r.v.methodFor(tg.num.Num().Int64(), cc.Method); m != nil {
				args[0] = r.v.unboxIface(t, m.Signature.Recv().Type())
				r.callFunc(c, in, m, nil, args, to, pos)
				return
			}
		}
		if key == "error.Error" {
			r.bind(c, to, []Val{Fresh("errmsg", SStr)})
			return
		}
		unsup("call of %s without a contract", key)
	}
	switch f := fn.(type) {
	case *Func:
		if f.bi != "" {
			r.bind(c, to, r.builtin(c, in, f.bi, cc, args, pos))
			return
		}
		r.callFunc(c, in, f.fn, f.binds, args, to, pos)
		return
	case *Term:
		if k, ok := r.v.funcVals[f]; ok {
			r.callFunc(c, in, k.fn, k.binds, args, to, pos)
			return
		}
		key := pkgOfNamed(cc.Value.Type())
		if sp, ok := r.v.db.funcs[key]; ok {
			r.v.useSpec(sp)
			r.applyContract(c, sp, cc.Signature(), append([]Val{f}, args...), to, pos, key)
			return
		}
		// a function parameter with a contract
		if sp := r.paramContract(f); sp != nil {
			r.applyContract(c, sp, cc.Signature(), args, to, pos, sp.key)
			return
		}
		unsup("call of an unknown function of type %s", cc.Value.Type())
	}
	unsup("call of %T", fn)
}

// paramContract finds the callback contract of a parameter of the verified function.
func (r *Run) paramContract(f *Term) *FuncSpec {
	if r.spec == nil {
		return nil
	}
	for n, cb := range r.spec.cbs {
		if v, ok := r.vars[n]; ok && v.v == f {
			return cb
		}
	}
	return nil
}

func (r *Run) callFunc(c *Config, in ssa.Instruction, fn *ssa.Function, binds, args []Val, to ssa.Value, pos token.Pos) {
	key := funcKey(fn)
	sp, ok := r.v.db.funcs[key]
	if ok && !sp.flags["inline"] && (fn.Synthetic == "" || len(fn.Blocks) == 0) {
		r.v.useSpec(sp)
		r.applyContractFn(c, sp, fn, args, to, pos, key)
		return
	}
	if len(fn.Blocks) > 0 && (r.v.inModule(fn) || fn.Synthetic != "" && fn.Synthetic != "package initializer") {
		for _, f := range c.frames {
			if f.fn == fn {
				unsup("recursive call of %s", fn)
			}
		}
		if len(c.frames) > 25 {
			unsup("call depth")
		}
		f := c.top()
		n := 0
		for i, x := range f.block.Instrs {
			if x == in {
				n = i
			}
		}
		nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], call: in, retTo: to,
			ctx: fmt.Sprintf("%s/%s.%d.%d", f.ctx, fn.Name(), f.block.Index, n)}
		if len(args) != len(fn.Params) {
			unsup("%d arguments for %s", len(args), fn)
		}
		for i, p := range fn.Params {
			nf.env[p] = args[i]
		}
		for i, fv := range fn.FreeVars {
			nf.env[fv] = binds[i]
		}
		r.v.inlined[key] = true
		c.frames = append(c.frames, nf)
		pushed = true
		return
	}
	// an external function without a contract: its results are arbitrary and it
	// changes nothing but the variables whose address it gets
	r.v.externs[key] = true
	for _, a := range args {
		if p, ok := a.(*Ptr); ok && p.kind == 'c' && r.v.resolvePtr(c.st, p).kind == 'c' {
			r.v.store(c.st, p, Fresh("ext", sortOf(ptrType(p))))
		}
	}
	r.bind(c, to, r.freshResults(c, fn.Signature, fn.Name()))
}

func ptrType(p *Ptr) types.Type {
	t := p.root
	if p.kind == 'c' {
		t = p.cell.typ
	}
	for _, e := range p.path {
		if e.si != nil {
			t = e.si.fields[e.i].typ
		} else {
			t = e.at
		}
	}
	return t
}

func (r *Run) freshResults(c *Config, sig *types.Signature, name string) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		x := Fresh("r."+name, sortOf(t))
		r.allocated(c.st, x, t)
		res = append(res, x)
	}
	return res
}

func (r *Run) applyContractFn(c *Config, sp *FuncSpec, fn *ssa.Function, args []Val, to ssa.Value, pos token.Pos, key string) {
	r.applyContract(c, sp, fn.Signature, args, to, pos, key)
	if fn.Signature.Variadic() {
		return
	}
}

// contractVars binds the parameter names of a contract.
func (v *Verifier) contractVars(sp *FuncSpec, sig *types.Signature, args []Val) map[string]SVal {
	vars := map[string]SVal{}
	var ts []types.Type
	switch {
	case sp.kind == "functype":
		ts = append(ts, types.Typ[types.Int])
	case sig.Recv() != nil:
		ts = append(ts, sig.Recv().Type())
	case len(args) == sig.Params().Len()+1:
		ts = append(ts, nil)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(sp.params) != len(args) || len(args) != len(ts) {
		panic(specErr{fmt.Sprintf("%s: contract of %s names %d parameters, the function has %d", sp.file, sp.key, len(sp.params), len(args))})
	}
	for i, n := range sp.params {
		if n == "_" {
			continue
		}
		st := stInt
		if ts[i] != nil {
			st = goST(ts[i])
		} else if t, ok := args[i].(*Term); ok && t.sort == SIface {
			st = &SType{kind: "go", gt: types.NewInterfaceType(nil, nil)}
		}
		vars[n] = SVal{args[i], st}
	}
	return vars
}

func (r *Run) applyContract(c *Config, sp *FuncSpec, sig *types.Signature, args []Val, to ssa.Value, pos token.Pos, key string) {
	v := r.v
	// slices are passed as values
	for i, a := range args {
		if s, ok := a.(*Slice); ok {
			args[i] = v.content(c.st, s)
		}
	}
	vars := v.contractVars(sp, sig, args)
	ctx := &EvalCtx{v: v, db: v.db, pkg: sp.pkg, st: c.st, old: c.st, vars: vars}
	for _, cl := range sp.of("requires") {
		name := "requires of " + key
		if cl.label != "" {
			name += " (" + cl.label + ")"
		}
		r.checkAt(c, "pre", name, ctx, cl.e, pos)
	}
	// callbacks handed over
	for n, cb := range sp.cbs {
		if f, ok := vars[n].v.(*Func); ok {
			r.pending = append(r.pending, pendingCB{spec: cb, fn: f, name: key, conf: c.clone()})
		} else if sp.kind != "func" {
			unsup("callback of %s is not a known function", key)
		}
	}
	if r.spec != nil {
		// callbacks the verified function states a contract for
		for n, x := range vars {
			cb := r.spec.cbs[lastPart(key)+"_"+n]
			if cb == nil {
				continue
			}
			f, ok := x.v.(*Func)
			if !ok {
				if t, is := x.v.(*Term); is {
					f, ok = v.funcVals[t], v.funcVals[t] != nil
				}
			}
			if !ok {
				unsup("callback handed to %s is not a known function", key)
			}
			r.pending = append(r.pending, pendingCB{spec: cb, fn: f, name: key, conf: c.clone()})
		}
	}
	emits := sp.of("emits")
	// effects
	mods := v.modsOf(sp, key)
	// variables whose address is passed live in the heap the callee changes
	for pn, x := range vars {
		p, ok := x.v.(*Ptr)
		if !ok || contains(mods.cells, pn) {
			continue
		}
		touched := false
		pt := ptrType(p)
		if si := structOf(pt); si != nil {
			for i := range si.fields {
				touched = touched || contains(mods.names, v.fieldHeap(si, i).name)
			}
		} else if _, isArr := pt.Underlying().(*types.Array); !isArr {
			touched = contains(mods.names, v.plainHeap(pt).name)
		}
		if !touched {
			continue
		}
		if q := v.resolvePtr(c.st, p); len(q.path) > 0 || q.kind == 'e' {
			unsup("%s may change a part of a variable passed to it (state its frame)", key)
		}
		v.toTerm(c.st, p)
	}
	old := c.st.clone()
	havoced := map[*Term]string{}
	for _, m := range mods.names {
		if strings.HasPrefix(m, "ghost:") {
			g := m[6:]
			x := Fresh("G."+g, v.ghostGet(c.st, g).sort)
			havoced[x] = m
			c.st.ghost[g] = x
			continue
		}
		if m == "alloc" {
			a := Fresh("alloc", SInt)
			c.st.assume(Le(c.st.alloc, a))
			c.st.alloc = a
			continue
		}
		h := v.heapByName(c.st, m)
		if at, ok := mods.at[m]; ok {
			// only at the object a parameter points to
			nh := h
			for _, pn := range at {
				ref := v.toTerm(c.st, vars[pn].v)
				x := Fresh("H."+m, arrElem(h.sort))
				havoced[x] = ""
				nh = Store(nh, ref, x)
			}
			c.st.heap[m] = nh
			continue
		}
		nh := Fresh("H."+m, h.sort)
		havoced[nh] = m
		c.st.heap[m] = nh
		if mods.freshOnly[m] {
			b := BoundVar("r", SInt)
			c.st.assume(Forall([]*Term{b}, [][]*Term{{Select(nh, b)}}, Implies(Lt(b, old.alloc), Eq(Select(nh, b), Select(h, b)))))
		}
	}
	for _, pn := range mods.cells {
		// the variable a parameter points to
		p, ok := vars[pn].v.(*Ptr)
		if !ok {
			if t, ok2 := vars[pn].v.(*Term); ok2 {
				p = v.asPtr(t, derefPtr(vars[pn].st.gt))
			} else {
				unsup("parameter %s of %s", pn, key)
			}
		}
		x := Fresh("V."+pn, sortOf(ptrType(p)))
		havoced[x] = ""
		v.store(c.st, p, x)
	}
	// results
	var res []Val
	post := map[string]SVal{}
	for k, x := range vars {
		post[k] = x
	}
	var resT []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		x := Fresh("r."+lastPart(key), sortOf(t))
		if sp.flags["pure"] {
			var as []*Term
			for _, a := range args {
				as = append(as, v.toTerm(c.st, a))
			}
			n := "pure." + key
			if sig.Results().Len() > 1 {
				n = fmt.Sprintf("%s.%d", n, i)
			}
			x = ufunApp(mangle(n), sortOf(t), as)
		} else {
			havoced[x] = ""
		}
		resT = append(resT, x)
		res = append(res, x)
		n := "result"
		if i < len(sp.results) {
			n = sp.results[i]
		} else if i > 0 {
			n = fmt.Sprintf("result%d", i)
		}
		post[n] = SVal{x, goST(t)}
	}
	// the event is emitted with the arguments, the results and the state before
	// the call
	if len(emits) > 0 {
		if _, ok := v.db.ghosts["trace"]; ok {
			ectx := &EvalCtx{v: v, db: v.db, pkg: sp.pkg, st: old, old: old, vars: post}
			t := v.ghostGet(c.st, "trace")
			for _, cl := range emits {
				t = SeqPush(t, ectx.term(cl.e))
			}
			c.st.ghost["trace"] = t
		}
	}
	sub := map[*Term]*Term{}
	eval := func() []*Term {
		ec := &EvalCtx{v: v, db: v.db, pkg: sp.pkg, st: c.st, old: old, vars: post}
		var out []*Term
		for _, cl := range sp.of("updates") {
			g := v.ghostGet(c.st, cl.name)
			o := *ec
			o.st = old
			out = append(out, Eq(g, coerce(o.term(cl.e), g.sort)))
		}
		for _, cl := range append(sp.of("ensures"), sp.of("assume")...) {
			if len(emits) > 0 && v.db.mentionsTrace(cl.e) {
				// about the callee's own events, which are not the caller's
				continue
			}
			t := ec.boolTerm(cl.e)
			if t.op == "and" {
				out = append(out, t.args...)
			} else {
				out = append(out, t)
			}
		}
		return out
	}
	facts := eval()
	for n := 0; n < 40; n++ {
		done := true
		for i, f := range facts {
			if len(sub) > 0 {
				f = Subst(f, sub)
				facts[i] = f
			}
			if f.op == "and" {
				facts = append(facts[:i:i], append(append([]*Term{}, f.args...), facts[i+1:]...)...)
				done = false
				break
			}
			if f.op != "=" {
				continue
			}
			a, b := f.args[0], f.args[1]
			if _, ok := havoced[b]; ok && !occurs(b, a) {
				if _, ok2 := havoced[a]; !ok2 || true {
					a, b = b, a
				}
			}
			if _, ok := havoced[a]; !ok || occurs(a, b) {
				continue
			}
			// a := b
			sub[a] = b
			for k, x := range sub {
				sub[k] = Subst(x, map[*Term]*Term{a: b})
			}
			delete(havoced, a)
			facts[i] = tTrue
			done = false
		}
		if done {
			break
		}
	}
	if len(sub) > 0 {
		for k, x := range c.st.heap {
			c.st.heap[k] = Subst(x, sub)
		}
		for k, x := range c.st.ghost {
			c.st.ghost[k] = Subst(x, sub)
		}
		for k, x := range c.st.cells {
			if t, ok := x.(*Term); ok {
				c.st.cells[k] = Subst(t, sub)
			}
		}
		for i, x := range resT {
			res[i] = Subst(x, sub)
		}
		for i := range facts {
			facts[i] = Subst(facts[i], sub)
		}
		// frame facts already assumed mention the replaced maps
		for i, p := range c.st.pc {
			if q := Subst(p, sub); q != p {
				pc := append([]*Term{}, c.st.pc...)
				pc[i] = q
				c.st.pc = pc
			}
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if t, ok := res[i].(*Term); ok && t.num == nil {
			r.allocated(c.st, t, sig.Results().At(i).Type())
		}
	}
	for _, f := range facts {
		if !c.st.assume(f) && smoke && r.collect {
			fmt.Println("     contradicts the state at", v.pos(pos), "in", r.key, ": contract of", key)
		}
	}
	r.bind(c, to, res)
}

func occurs(a, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, x := range t.args {
			if f(x) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func lastPart(s string) string { return s[strings.LastIndexByte(s, '.')+1:] }

// checkAt makes an obligation of a spec formula.
func (r *Run) checkAt(c *Config, kind, name string, ctx *EvalCtx, e *Expr, pos token.Pos) {
	for _, g := range conjuncts(ctx.boolTerm(e)) {
		r.oblige(c, kind, name, g, pos)
		c.st.assume(g)
	}
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

func (r *Run) builtin(c *Config, in ssa.Instruction, name string, cc *ssa.CallCommon, args []Val, pos token.Pos) []Val {
	v := r.v
	switch name {
	case "len":
		t := cc.Args[0].Type()
		if mt, ok := t.Underlying().(*types.Map); ok {
			hd, _ := v.mapHeaps(mt)
			x := mk("u.card", SInt, Select(v.heapGet(c.st, hd), v.toTerm(c.st, args[0])))
			c.st.assume(Le(IntLit(0), x))
			return []Val{x}
		}
		if el := derefPtr(t); el != nil {
			return []Val{IntLit(el.Underlying().(*types.Array).Len())}
		}
		return []Val{SeqLen(v.toTerm(c.st, args[0]))}
	case "cap":
		x := Fresh("cap", SInt)
		c.st.assume(Le(SeqLen(v.toTerm(c.st, args[0])), x))
		return []Val{x}
	case "append":
		return []Val{r.append(c, in, cc, args, pos)}
	case "copy":
		dst := r.asSlice(args[0], nil)
		src := v.toTerm(c.st, args[1])
		if dst.obj == nil {
			unsup("copy into a slice that may be shared")
		}
		if v2 := c.st.poison[dst.obj]; v2 {
			unsup("copy into a shared slice")
		}
		d := v.content(c.st, dst)
		n := Ite(Lt(SeqLen(src), SeqLen(d)), SeqLen(src), SeqLen(d))
		if c.st.simp(Le(SeqLen(src), SeqLen(d))) == tTrue {
			n = SeqLen(src)
		} else if SeqLen(src) == SeqLen(d) {
			n = SeqLen(d)
		}
		nc := SeqCat(SeqSub(src, IntLit(0), n), SeqSub(d, n, SeqLen(d)))
		if n.op == "ite" {
			s := Fresh("copy", d.sort)
			i := BoundVar("i", SInt)
			at := mk("seqidx", seqElem[d.sort], s, i)
			c.st.assume(Eq(SeqLen(s), SeqLen(d)))
			c.st.assume(Implies(Eq(SeqLen(src), SeqLen(d)), Eq(s, src)))
			c.st.assume(Forall([]*Term{i}, [][]*Term{{at}}, Implies(And(Le(IntLit(0), i), Lt(i, SeqLen(d))),
				Eq(at, Ite(Lt(i, SeqLen(src)), SeqIdx(src, i), SeqIdx(d, i))))))
			nc = s
		}
		whole := c.st.objs[dst.obj]
		if dst.lo != nil || dst.hi != nil {
			lo, hi := dst.lo, dst.hi
			if lo == nil {
				lo = IntLit(0)
			}
			if hi == nil {
				hi = SeqLen(whole)
			}
			nc = SeqCat(SeqCat(SeqSub(whole, IntLit(0), lo), nc), SeqSub(whole, hi, SeqLen(whole)))
		}
		c.st.objs[dst.obj] = nc
		for _, o := range dst.obj.rel {
			c.st.poison[o] = true
		}
		return []Val{n}
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		hd, _ := v.mapHeaps(mt)
		m, k := v.toTerm(c.st, args[0]), v.toTerm(c.st, args[1])
		d := v.heapGet(c.st, hd)
		c.st.heap[hd.name] = Store(d, m, Store(Select(d, m), k, tFalse))
		return nil
	case "min", "max":
		x := v.toTerm(c.st, args[0])
		for _, a := range args[1:] {
			y := v.toTerm(c.st, a)
			if name == "min" {
				x = Ite(Lt(y, x), y, x)
			} else {
				x = Ite(Lt(x, y), y, x)
			}
		}
		return []Val{x}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return []Val{args[0]}
	}
	unsup("builtin %s", name)
	return nil
}

func (r *Run) append(c *Config, in ssa.Instruction, cc *ssa.CallCommon, args []Val, pos token.Pos) Val {
	v := r.v
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	s := r.asSlice(args[0], el)
	base := v.content(c.st, s)
	x := v.toTerm(c.st, args[1]) // a slice or, for []byte, a string
	if base.op != "seqempty" && x.op != "seqempty" {
		// writing behind the end of a slice must not be seen through another
		if !s.tip {
			r.oblige(c, "safety", "append-does-not-overwrite", tFalse, pos)
		}
		key := base
		if s.obj != nil {
			key = mk("tipof", SInt, base, IntLit(int64(s.obj.id)))
		}
		if c.st.appended[key] {
			r.oblige(c, "safety", "append-twice-to-the-same-slice", tFalse, pos)
		}
		c.st.appended[key] = true
		// a slice of an enclosing scope appended to in a loop
		f := c.top()
		if len(f.loops) > 0 {
			l := f.loops[len(f.loops)-1].loop
			if vi, ok := cc.Args[0].(ssa.Instruction); ok && !l.blocks[vi.Block()] {
				r.oblige(c, "safety", "append-repeatedly-to-the-same-slice", tFalse, pos)
			}
		}
	}
	o := r.newObj(c, in)
	c.st.objs[o] = SeqCat(base, x)
	if s.obj != nil {
		o.rel = append(append([]*Obj{}, s.obj.rel...), s.obj)
		s.obj.rel = append(s.obj.rel, o)
	}
	return &Slice{obj: o, elem: el, tip: true}
}
