package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// SVal is a spec value: a term, or a pointer into an executor cell.
type SVal struct {
	v  Val
	st *SType
}

type EvalCtx struct {
	v   *Verifier
	db  *SpecDB
	pkg string
	st  *State // current state
	old *State
	pre *State
	// loop variables as they are at the loop's entry
	preVars map[string]SVal
	vars    map[string]SVal
	trace   func(string) // heap names read
	depth   int
}

func (c *EvalCtx) with(vars map[string]SVal) *EvalCtx {
	n := *c
	n.vars = map[string]SVal{}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func (c *EvalCtx) fail(e *Expr, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s:%d: %s in %s", e.file, e.line, fmt.Sprintf(f, a...), e)})
}

// resolve a spec type.
func resolveType(t *TypeExpr, pkg string) *SType {
	switch t.kind {
	case "ptr":
		e := resolveType(t.elem, pkg)
		return &SType{kind: "go", gt: types.NewPointer(e.gt)}
	case "slice":
		e := resolveType(t.elem, pkg)
		if e.kind == "go" || e.gt != nil {
			return &SType{kind: "seq", elem: e, gt: types.NewSlice(e.gt)}
		}
		return seqST(e)
	case "seq":
		return seqST(resolveType(t.elem, pkg))
	case "map":
		return &SType{kind: "map", key: resolveType(t.key, pkg), elem: resolveType(t.elem, pkg)}
	}
	switch t.name {
	case "int":
		return &SType{kind: "int", gt: types.Typ[types.Int]}
	case "ref":
		return stInt
	case "real", "float64":
		return &SType{kind: "real", gt: types.Typ[types.Float64]}
	case "bool":
		return &SType{kind: "bool", gt: types.Typ[types.Bool]}
	case "string":
		return stStr
	case "error":
		return &SType{kind: "go", gt: types.Universe.Lookup("error").Type()}
	case "any":
		return &SType{kind: "go", gt: types.NewInterfaceType(nil, nil)}
	}
	if d, ok := dataTab[t.name]; ok {
		return &SType{kind: "data", data: d}
	}
	p, n := pkg, t.name
	if i := strings.IndexByte(t.name, '.'); i >= 0 {
		p, n = t.name[:i], t.name[i+1:]
	}
	if tp := lookupPkg(p); tp != nil {
		if o := tp.Scope().Lookup(n); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return goST(tn.Type())
			}
		}
	}
	panic(specErr{fmt.Sprintf("unknown type %s (package %s)", t.name, pkg)})
}

func (c *EvalCtx) term(e *Expr) *Term {
	v := c.eval(e)
	return c.termOf(v, e)
}
func (c *EvalCtx) termOf(v SVal, e *Expr) *Term {
	if v.v == nil {
		c.fail(e, "untyped empty sequence")
	}
	return c.v.toTerm(c.st, v.v)
}
func (c *EvalCtx) boolTerm(e *Expr) *Term {
	t := c.term(e)
	if t.sort != SBool {
		c.fail(e, "boolean expected, got %s", t.sort)
	}
	return t
}

func coerce(t *Term, s Sort) *Term {
	if t.sort == SInt && s == SReal {
		return ToReal(t)
	}
	if t == IntLit(0) && s == SIface {
		return nilIface
	}
	return t
}

// unify two operands (numbers, empty sequences).
func (c *EvalCtx) unify(e *Expr, a, b SVal) (*Term, *Term, *SType) {
	if a.v == nil && b.v == nil {
		c.fail(e, "two untyped empty sequences")
	}
	if a.v == nil {
		a = SVal{SeqEmpty(b.st.sort()), b.st}
	}
	if b.v == nil {
		b = SVal{SeqEmpty(a.st.sort()), a.st}
	}
	x, y := c.termOf(a, e), c.termOf(b, e)
	st := a.st
	if x.sort == SInt && y.sort == SReal {
		x = ToReal(x)
		st = b.st
	}
	if y.sort == SInt && x.sort == SReal {
		y = ToReal(y)
	}
	if x.sort != y.sort {
		// nil interface
		if x == IntLit(0) && y.sort == SIface {
			x = nilIface
		} else if y == IntLit(0) && x.sort == SIface {
			y = nilIface
		} else {
			c.fail(e, "sorts %s and %s", x.sort, y.sort)
		}
	}
	return x, y, st
}

func (c *EvalCtx) eval(e *Expr) SVal {
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 400 {
		c.fail(e, "evaluation too deep")
	}
	switch e.op {
	case "num":
		if e.num.IsInt() {
			return SVal{NumRat(e.num, SInt), stInt}
		}
		return SVal{NumRat(e.num, SReal), stReal}
	case "str":
		return SVal{StrLit(e.s), stStr}
	case "id":
		return c.ident(e)
	case "sel":
		if d := e.dotted(); d != "" {
			if _, shadow := c.vars[strings.SplitN(d, ".", 2)[0]]; !shadow {
				if g, ok := c.db.ghosts[d]; ok {
					return SVal{c.ghost(d), c.v.ghostType(g)}
				}
				if v, ok := c.pkgConst(d); ok {
					return v
				}
			}
		}
		return c.field(e, c.eval(e.args[0]), e.s)
	case "deref":
		return c.deref(e, c.eval(e.args[0]))
	case "old":
		if c.old == nil {
			c.fail(e, "no old state")
		}
		n := *c
		n.st = c.old
		return SVal{n.term(e.args[0]), n.eval(e.args[0]).st}
	case "idx":
		s := c.eval(e.args[0])
		i := c.eval(e.args[1])
		if s.st.kind == "map" {
			return SVal{Select(c.termOf(s, e), c.termOf(i, e)), s.st.elem}
		}
		if s.st.kind == "go" {
			if m, ok := s.st.gt.Underlying().(*types.Map); ok {
				_, mv := c.v.mapHeaps(m)
				c.heapRead(mv.name)
				hv := c.v.heapGet(c.st, mv)
				return SVal{Select(Select(hv, c.termOf(s, e)), c.termOf(i, e)), goST(m.Elem())}
			}
			if isString(s.st.gt) {
				return SVal{SeqIdx(c.termOf(s, e), c.termOf(i, e)), stInt}
			}
		}
		if s.st.kind != "seq" {
			c.fail(e, "index of %s", s.st)
		}
		return SVal{SeqIdx(c.termOf(s, e), c.termOf(i, e)), s.st.elem}
	case "slice":
		s := c.eval(e.args[0])
		t := c.termOf(s, e)
		lo, hi := IntLit(0), SeqLen(t)
		if e.args[1] != nil {
			lo = c.term(e.args[1])
		}
		if e.args[2] != nil {
			hi = c.term(e.args[2])
		}
		return SVal{SeqSub(t, lo, hi), s.st}
	case "seq":
		if len(e.args) == 0 {
			return SVal{nil, nil}
		}
		var st *SType
		var s *Term
		for _, a := range e.args {
			v := c.eval(a)
			t := c.termOf(v, e)
			if st == nil {
				st = v.st
				s = SeqEmpty(SeqSort(t.sort))
			}
			s = SeqPush(s, coerce(t, seqElem[s.sort]))
		}
		return SVal{s, seqST(st)}
	case "un":
		if e.s == "!" {
			return SVal{Not(c.boolTerm(e.args[0])), stBool}
		}
		v := c.eval(e.args[0])
		return SVal{Neg(c.termOf(v, e)), v.st}
	case "bin":
		return c.bin(e)
	case "ite":
		cond := c.boolTerm(e.args[0])
		if cond == tTrue {
			return c.eval(e.args[1])
		}
		if cond == tFalse {
			return c.eval(e.args[2])
		}
		a, b, st := c.unify(e, c.eval(e.args[1]), c.eval(e.args[2]))
		return SVal{Ite(cond, a, b), st}
	case "let":
		v := c.eval(e.args[0])
		return c.with(map[string]SVal{e.s: v}).eval(e.args[1])
	case "quant":
		vars := map[string]SVal{}
		var bvs []*Term
		for _, b := range e.binds {
			st := resolveType(b.typ, c.pkg)
			bv := BoundVar(b.name, st.sort())
			bvs = append(bvs, bv)
			vars[b.name] = SVal{bv, st}
		}
		n := c.with(vars)
		body := n.boolTerm(e.args[0])
		var trs [][]*Term
		for _, tr := range e.trigs {
			var ts []*Term
			for _, x := range tr {
				ts = append(ts, n.term(x))
			}
			trs = append(trs, ts)
		}
		return SVal{Quant(e.s, bvs, trs, body), stBool}
	case "match":
		return c.match(e)
	case "call":
		return c.call(e)
	}
	c.fail(e, "cannot evaluate %s", e.op)
	return SVal{}
}

func (c *EvalCtx) heapRead(n string) {
	if c.trace != nil {
		c.trace(n)
	}
}

func (c *EvalCtx) ghost(n string) *Term {
	c.heapRead("ghost:" + n)
	return c.v.ghostGet(c.st, n)
}

func (c *EvalCtx) ident(e *Expr) SVal {
	if v, ok := c.vars[e.s]; ok {
		return v
	}
	switch e.s {
	case "true":
		return SVal{tTrue, stBool}
	case "false":
		return SVal{tFalse, stBool}
	case "nil":
		return SVal{IntLit(0), stInt}
	case "alloc":
		return SVal{c.st.alloc, stInt}
	}
	if g, ok := c.db.ghosts[e.s]; ok {
		return SVal{c.ghost(e.s), c.v.ghostType(g)}
	}
	if v, ok := c.pkgConst(c.pkg + "." + e.s); ok {
		return v
	}
	// nullary define or constructor
	if d, ok := c.db.defines[e.s]; ok && len(d.params) == 0 {
		return c.callDefine(e, d, nil)
	}
	for _, k := range dctorTab {
		if k.name == e.s && len(k.fields) == 0 {
			return c.construct(e, k)
		}
	}
	if _, ok := c.db.ufuns[e.s]; ok {
		return c.call(&Expr{op: "call", s: e.s, file: e.file, line: e.line})
	}
	c.fail(e, "unknown name %q", e.s)
	return SVal{}
}

func (c *EvalCtx) pkgConst(d string) (SVal, bool) {
	i := strings.IndexByte(d, '.')
	if i < 0 {
		return SVal{}, false
	}
	tp := lookupPkg(d[:i])
	if tp == nil {
		return SVal{}, false
	}
	name := d[i+1:]
	if strings.Contains(name, ".") {
		return SVal{}, false
	}
	o := tp.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return SVal{constTerm(o.Val(), o.Type()), goST(o.Type())}, true
	case *types.Var:
		if g := c.v.globalFor(o); g != nil {
			return SVal{c.v.toTerm(c.st, c.v.loadGlobal(c.st, g)), goST(o.Type())}, true
		}
	}
	return SVal{}, false
}

func derefPtr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (c *EvalCtx) deref(e *Expr, v SVal) SVal {
	if v.st.kind != "go" {
		c.fail(e, "deref of %s", v.st)
	}
	el := derefPtr(v.st.gt)
	if el == nil {
		c.fail(e, "deref of %s", v.st)
	}
	p := c.v.asPtr(v.v, el)
	return SVal{c.loadTraced(p), goST(el)}
}

func (c *EvalCtx) loadTraced(p *Ptr) *Term {
	if c.trace != nil && p.kind == 'h' {
		for _, h := range c.v.ptrHeaps(p) {
			c.heapRead(h)
		}
	}
	return c.v.toTerm(c.st, c.v.load(c.st, p))
}

// field selects a (possibly promoted) field.
func (c *EvalCtx) field(e *Expr, v SVal, name string) SVal {
	if v.st == nil {
		c.fail(e, "field of untyped")
	}
	if v.st.kind == "data" {
		// selector of the only constructor having that field
		for _, k := range v.st.data.ctors {
			for i, f := range k.fields {
				if f.name == name {
					return SVal{DataSel(c.termOf(v, e), k, i), f.typ}
				}
			}
		}
		c.fail(e, "no field %s", name)
	}
	if v.st.gt == nil {
		c.fail(e, "field %s of %s", name, v.st)
	}
	t := v.st.gt
	obj, path, _ := types.LookupFieldOrMethod(t, true, lookupPkgOf(t), name)
	fv, ok := obj.(*types.Var)
	if !ok {
		c.fail(e, "no field %s in %s", name, t)
	}
	cur := v
	for _, i := range path {
		cur = c.fieldIdx(e, cur, i)
	}
	_ = fv
	return cur
}

func (c *EvalCtx) fieldIdx(e *Expr, v SVal, i int) SVal {
	t := v.st.gt
	if el := derefPtr(t); el != nil {
		si := structOf(el)
		p := c.v.asPtr(v.v, el).field(si, i)
		if c.trace == nil && isStructType(si.fields[i].typ) {
			// keep as term: the value
		}
		return SVal{c.loadTraced(p), goST(si.fields[i].typ)}
	}
	si := structOf(t)
	if si == nil {
		c.fail(e, "field of %s", t)
	}
	return SVal{Sel(c.termOf(v, e), si, i), goST(si.fields[i].typ)}
}

func isStructType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (c *EvalCtx) bin(e *Expr) SVal {
	switch e.s {
	case "&&":
		a := c.boolTerm(e.args[0])
		if a == tFalse {
			return SVal{tFalse, stBool}
		}
		return SVal{And(a, c.boolTerm(e.args[1])), stBool}
	case "||":
		a := c.boolTerm(e.args[0])
		if a == tTrue {
			return SVal{tTrue, stBool}
		}
		return SVal{Or(a, c.boolTerm(e.args[1])), stBool}
	case "==>":
		a := c.boolTerm(e.args[0])
		if a == tFalse {
			return SVal{tTrue, stBool}
		}
		return SVal{Implies(a, c.boolTerm(e.args[1])), stBool}
	case "<==>":
		return SVal{Eq(c.boolTerm(e.args[0]), c.boolTerm(e.args[1])), stBool}
	}
	av, bv := c.eval(e.args[0]), c.eval(e.args[1])
	a, b, st := c.unify(e, av, bv)
	switch e.s {
	case "==":
		return SVal{Eq(a, b), stBool}
	case "!=":
		return SVal{Not(Eq(a, b)), stBool}
	case "<":
		return SVal{Lt(a, b), stBool}
	case "<=":
		return SVal{Le(a, b), stBool}
	case ">":
		return SVal{Lt(b, a), stBool}
	case ">=":
		return SVal{Le(b, a), stBool}
	case "++":
		return SVal{SeqCat(a, b), st}
	case "+":
		return SVal{Add(a, b), st}
	case "-":
		return SVal{Sub(a, b), st}
	case "*":
		return SVal{Mul(a, b), st}
	case "/":
		return SVal{DivReal(coerce(a, SReal), coerce(b, SReal)), stReal}
	case "%":
		return SVal{mk("mod", SInt, a, b), st}
	}
	c.fail(e, "operator %s", e.s)
	return SVal{}
}

func (c *EvalCtx) match(e *Expr) SVal {
	v := c.eval(e.args[0])
	if v.st.kind != "data" {
		c.fail(e, "match on %s", v.st)
	}
	t := c.termOf(v, e)
	branch := func(mc MatchCase) SVal {
		if mc.ctor == "_" {
			return c.eval(mc.body)
		}
		k := v.st.data.ctor(mc.ctor)
		if k == nil || len(mc.vars) != 0 && len(mc.vars) != len(k.fields) {
			c.fail(e, "constructor %s", mc.ctor)
		}
		vars := map[string]SVal{}
		for i, n := range mc.vars {
			vars[n] = SVal{DataSel(t, k, i), k.fields[i].typ}
		}
		return c.with(vars).eval(mc.body)
	}
	var res SVal
	have := false
	for i := len(e.cases) - 1; i >= 0; i-- {
		mc := e.cases[i]
		cond := tTrue
		if mc.ctor != "_" {
			k := v.st.data.ctor(mc.ctor)
			if k == nil {
				c.fail(e, "constructor %s", mc.ctor)
			}
			cond = DataIs(t, k)
		}
		if cond == tFalse {
			continue
		}
		b := branch(mc)
		if cond == tTrue || !have {
			res, have = b, true
			continue
		}
		x, y, st := c.unify(e, b, res)
		res = SVal{Ite(cond, x, y), st}
	}
	if !have {
		c.fail(e, "empty match")
	}
	return res
}

func (d *DataInfo) ctor(n string) *CtorInfo {
	for _, c := range d.ctors {
		if c.name == n {
			return c
		}
	}
	return nil
}

func (c *EvalCtx) callDefine(e *Expr, d *DefineDecl, args []SVal) SVal {
	vars := map[string]SVal{}
	for i, b := range d.params {
		st := resolveType(b.typ, d.pkg)
		a := args[i]
		if a.v == nil {
			a = SVal{SeqEmpty(st.sort()), st}
		}
		if t, ok := a.v.(*Term); ok {
			t = coerce(t, st.sort())
			if t.sort != st.sort() {
				c.fail(e, "argument %s of %s: %s, want %s", b.name, d.name, t.sort, st.sort())
			}
			a = SVal{t, st}
		}
		vars[b.name] = SVal{a.v, st}
	}
	n := *c
	n.vars = vars
	n.pkg = d.pkg
	return n.eval(d.body)
}

func (c *EvalCtx) call(e *Expr) SVal {
	// special forms
	switch e.s {
	case "pre":
		if c.pre == nil {
			c.fail(e, "no loop entry state")
		}
		n := c.with(c.preVars)
		n.st = c.pre
		return SVal{n.term(e.args[0]), n.eval(e.args[0]).st}
	case "len":
		v := c.eval(e.args[0])
		if v.v == nil {
			return SVal{IntLit(0), stInt}
		}
		t := c.termOf(v, e)
		if !isSeqSort(t.sort) {
			c.fail(e, "len of %s", t.sort)
		}
		return SVal{SeqLen(t), stInt}
	case "real":
		return SVal{coerce(c.term(e.args[0]), SReal), stReal}
	case "last":
		v := c.eval(e.args[0])
		t := c.termOf(v, e)
		return SVal{SeqIdx(t, Sub(SeqLen(t), IntLit(1))), v.st.elem}
	case "push":
		v := c.eval(e.args[0])
		x := c.eval(e.args[1])
		if v.v == nil {
			v = SVal{SeqEmpty(SeqSort(x.st.sort())), seqST(x.st)}
		}
		t := c.termOf(v, e)
		return SVal{SeqPush(t, coerce(c.termOf(x, e), seqElem[t.sort])), v.st}
	case "upd":
		v := c.eval(e.args[0])
		t := c.termOf(v, e)
		return SVal{SeqUpd(t, c.term(e.args[1]), coerce(c.term(e.args[2]), seqElem[t.sort])), v.st}
	case "max", "min":
		a, b, st := c.unify(e, c.eval(e.args[0]), c.eval(e.args[1]))
		cond := Lt(a, b)
		if e.s == "max" {
			return SVal{Ite(cond, b, a), st}
		}
		return SVal{Ite(cond, a, b), st}
	case "visited": // a loop over a map has seen the key
		x, ok := c.vars["$visited"]
		if !ok || len(e.args) != 1 {
			c.fail(e, "visited outside of a loop over a map")
		}
		return SVal{Select(x.v.(*Term), c.term(e.args[0])), stBool}
	case "haskey":
		m := c.eval(e.args[0])
		k := c.term(e.args[1])
		mt, ok := m.st.gt.Underlying().(*types.Map)
		if !ok {
			c.fail(e, "haskey of %s", m.st)
		}
		md, _ := c.v.mapHeaps(mt)
		c.heapRead(md.name)
		return SVal{Select(Select(c.v.heapGet(c.st, md), c.termOf(m, e)), k), stBool}
	case "mapdom", "mapval":
		m := c.eval(e.args[0])
		mt, ok := m.st.gt.Underlying().(*types.Map)
		if !ok {
			c.fail(e, "mapdom of %s", m.st)
		}
		md, mv := c.v.mapHeaps(mt)
		h, es := md, stBool
		if e.s == "mapval" {
			h, es = mv, goST(mt.Elem())
		}
		c.heapRead(h.name)
		return SVal{Select(c.v.heapGet(c.st, h), c.termOf(m, e)), &SType{kind: "map", key: goST(mt.Key()), elem: es}}
	case "istype", "astype":
		// istype(x, "*xdoc.Font")
		v := c.eval(e.args[0])
		if e.args[1].op != "str" {
			c.fail(e, "type string expected")
		}
		te := lexText(e.file, e.args[1].s).typ()
		st := resolveType(te, c.pkg)
		gt := st.gt
		if gt == nil {
			c.fail(e, "no Go type")
		}
		t := c.termOf(v, e)
		if e.s == "istype" {
			return SVal{Eq(ITag(t), tagOf(gt)), stBool}
		}
		return SVal{c.v.unboxIface(t, gt), st}
	case "iface":
		// iface(x): the interface value holding x
		v := c.eval(e.args[0])
		if v.st.gt == nil {
			c.fail(e, "iface of %s", v.st)
		}
		return SVal{c.v.makeIface(c.st, v.v, v.st.gt), &SType{kind: "go", gt: types.NewInterfaceType(nil, nil)}}
	case "tag":
		return SVal{ITag(c.term(e.args[0])), stInt}
	case "isnil":
		t := c.term(e.args[0])
		if t.sort == SIface {
			return SVal{Eq(ITag(t), IntLit(0)), stBool}
		}
		return SVal{Eq(t, IntLit(0)), stBool}
	case "fresh":
		// allocated since the old state
		t := c.term(e.args[0])
		return SVal{And(Le(c.old.alloc, t), Lt(t, c.st.alloc)), stBool}
	case "with":
		// with(s, "Field", v): struct update
		v := c.eval(e.args[0])
		x := c.eval(e.args[2])
		return SVal{c.structWith(e, c.termOf(v, e), v.st, strings.Split(e.args[1].s, "."), c.termOf(x, e)), v.st}
	case "mkstruct":
		te := lexText(e.file, e.args[0].s).typ()
		st := resolveType(te, c.pkg)
		si := structOf(st.gt)
		if len(e.args)-1 != len(si.fields) {
			c.fail(e, "%d fields for %s", len(e.args)-1, si.name)
		}
		var as []*Term
		for i, a := range e.args[1:] {
			v := c.eval(a)
			if v.v == nil {
				v = SVal{SeqEmpty(si.fields[i].sort), nil}
			}
			as = append(as, coerce(c.termOf(v, e), si.fields[i].sort))
		}
		return SVal{MkStruct(si, as), st}
	case "is":
		// is(x, Ctor)
		v := c.eval(e.args[0])
		if v.st.kind != "data" {
			c.fail(e, "is on %s", v.st)
		}
		k := v.st.data.ctor(e.args[1].s)
		if k == nil {
			c.fail(e, "constructor %s", e.args[1].s)
		}
		return SVal{DataIs(c.termOf(v, e), k), stBool}
	case "zero":
		te := lexText(e.file, e.args[0].s).typ()
		st := resolveType(te, c.pkg)
		if st.gt != nil {
			return SVal{zeroTerm(st.gt), st}
		}
		return SVal{zeroSort(st.sort()), st}
	case "store":
		m := c.eval(e.args[0])
		return SVal{Store(c.termOf(m, e), c.term(e.args[1]), c.term(e.args[2])), m.st}
	case "floor":
		return SVal{mk("to_int", SInt, c.term(e.args[0])), stInt}
	case "div":
		return SVal{mk("div", SInt, c.term(e.args[0]), c.term(e.args[1])), stInt}
	case "mod":
		return SVal{mk("mod", SInt, c.term(e.args[0]), c.term(e.args[1])), stInt}
	}
	if d, ok := c.db.defines[e.s]; ok {
		if len(e.args) != len(d.params) {
			c.fail(e, "%d arguments for %s", len(e.args), e.s)
		}
		var args []SVal
		for _, a := range e.args {
			args = append(args, c.eval(a))
		}
		return c.callDefine(e, d, args)
	}
	if f, ok := c.db.folds[e.s]; ok {
		fi := c.v.foldInst(f)
		if len(e.args) != len(f.params) {
			c.fail(e, "%d arguments for %s", len(e.args), e.s)
		}
		var ts []*Term
		for i, a := range e.args {
			v := c.eval(a)
			if v.v == nil {
				v = SVal{SeqEmpty(fi.params[i].sort()), nil}
			}
			t := coerce(c.termOf(v, e), fi.params[i].sort())
			if t.sort != fi.params[i].sort() {
				c.fail(e, "argument %d of %s: %s, want %s", i, e.s, t.sort, fi.params[i].sort())
			}
			ts = append(ts, t)
		}
		for _, h := range fi.heaps {
			ts = append(ts, c.v.namedGet(c.st, h))
			c.heapRead(h)
		}
		return SVal{fi.app(ts), fi.res}
	}
	if u, ok := c.db.ufuns[e.s]; ok {
		var ts []*Term
		if len(e.args) != len(u.params) {
			c.fail(e, "%d arguments for %s", len(e.args), e.s)
		}
		for i, a := range e.args {
			st := resolveType(u.params[i], u.pkg)
			v := c.eval(a)
			if v.v == nil {
				v = SVal{SeqEmpty(st.sort()), st}
			}
			t := coerce(c.termOf(v, e), st.sort())
			if t.sort != st.sort() {
				c.fail(e, "argument %d of %s: %s, want %s", i, e.s, t.sort, st.sort())
			}
			ts = append(ts, t)
		}
		st := resolveType(u.res, u.pkg)
		return SVal{ufunApp(u.name, st.sort(), ts), st}
	}
	// constructor
	name := e.s
	dn := ""
	if i := strings.IndexByte(name, '.'); i >= 0 {
		dn, name = name[:i], name[i+1:]
	}
	for _, d := range dataList {
		if dn != "" && d.name != dn {
			continue
		}
		if k := d.ctor(name); k != nil {
			return c.construct(e, k)
		}
	}
	c.fail(e, "unknown function %q", e.s)
	return SVal{}
}

func ufunApp(name string, s Sort, ts []*Term) *Term {
	if f, ok := ufunSimp[name]; ok {
		if r := f(ts); r != nil {
			return r
		}
	}
	return mk("u."+name, s, ts...)
}

// simplifications of particular functions
var ufunSimp = map[string]func([]*Term) *Term{}

func (c *EvalCtx) construct(e *Expr, k *CtorInfo) SVal {
	if len(e.args) != len(k.fields) {
		c.fail(e, "%d arguments for %s", len(e.args), k.name)
	}
	var ts []*Term
	for i, a := range e.args {
		v := c.eval(a)
		s := k.fields[i].typ.sort()
		if v.v == nil {
			v = SVal{SeqEmpty(s), k.fields[i].typ}
		}
		t := coerce(c.termOf(v, e), s)
		if t.sort != s {
			c.fail(e, "field %s: %s, want %s", k.fields[i].name, t.sort, s)
		}
		ts = append(ts, t)
	}
	return SVal{mk(k.op(), k.data.sort(), ts...), &SType{kind: "data", data: k.data}}
}

func (c *EvalCtx) structWith(e *Expr, t *Term, st *SType, path []string, x *Term) *Term {
	obj, idx, _ := types.LookupFieldOrMethod(st.gt, false, lookupPkgOf(st.gt), path[0])
	if _, ok := obj.(*types.Var); !ok {
		c.fail(e, "no field %s", path[0])
	}
	var upd func(t *Term, gt types.Type, idx []int, rest []string) *Term
	upd = func(t *Term, gt types.Type, idx []int, rest []string) *Term {
		if len(idx) == 0 {
			if len(rest) == 0 {
				return x
			}
			_, i2, _ := types.LookupFieldOrMethod(gt, false, lookupPkgOf(gt), rest[0])
			return upd(t, gt, i2, rest[1:])
		}
		si := structOf(gt)
		return With(t, si, idx[0], upd(Sel(t, si, idx[0]), si.fields[idx[0]].typ, idx[1:], rest))
	}
	return upd(t, st.gt, idx, path[1:])
}

// ---- folds ----

type foldInst struct {
	d      *FoldDecl
	params []*SType
	res    *SType
	heaps  []string
	init   *Term // over placeholder constants
	step   *Term
	pargs  []*Term // placeholders: s, params..., heaps...
	pacc   *Term
	px     *Term
	axioms []*Term
	busy   bool
}

var foldTab = map[string]*foldInst{}

func (f *foldInst) op() string { return "fold." + f.d.name }

func (f *foldInst) app(args []*Term) *Term {
	s := args[0]
	switch s.op {
	case "seqempty":
		m := map[*Term]*Term{}
		for i, p := range f.pargs {
			m[p] = args[i]
		}
		return Subst(f.init, m)
	case "seqpush":
		return f.unfold(args, s.args[0], s.args[1])
	case "ite":
		a := append([]*Term{s.args[1]}, args[1:]...)
		b := append([]*Term{s.args[2]}, args[1:]...)
		return Ite(s.args[0], f.app(a), f.app(b))
	}
	return mk(f.op(), f.res.sort(), args...)
}

func (f *foldInst) unfold(args []*Term, prefix, x *Term) *Term {
	m := map[*Term]*Term{}
	for i, p := range f.pargs {
		m[p] = args[i]
	}
	m[f.pargs[0]] = prefix
	as := append([]*Term{prefix}, args[1:]...)
	m[f.pacc] = f.app(as)
	m[f.px] = x
	return Subst(f.step, m)
}

func (v *Verifier) foldInst(d *FoldDecl) *foldInst {
	if d.el != nil {
		if d.el.busy {
			panic(specErr{"recursive fold " + d.name})
		}
		return d.el
	}
	f := &foldInst{d: d, busy: true}
	d.el = f
	for _, b := range d.params {
		f.params = append(f.params, resolveType(b.typ, d.pkg))
	}
	f.res = resolveType(d.res, d.pkg)
	if f.params[0].kind != "seq" && f.params[0].sort() != SStr {
		panic(specErr{"fold " + d.name + ": first parameter must be a sequence"})
	}
	st := newState("fold." + d.name)
	vars := map[string]SVal{}
	for i, b := range d.params {
		t := Const(fmt.Sprintf("fp.%s.%s", d.name, b.name), f.params[i].sort())
		f.pargs = append(f.pargs, t)
		vars[b.name] = SVal{t, f.params[i]}
	}
	es := stInt
	if f.params[0].kind == "seq" {
		es = f.params[0].elem
	}
	f.pacc = Const("fp."+d.name+".$acc", f.res.sort())
	f.px = Const("fp."+d.name+".$x", es.sort())
	heaps := map[string]bool{}
	var order []string
	ctx := &EvalCtx{v: v, db: v.db, pkg: d.pkg, st: st, vars: vars, trace: func(n string) {
		if !heaps[n] {
			heaps[n] = true
			order = append(order, n)
		}
	}}
	iv := ctx.eval(d.init)
	if iv.v == nil {
		f.init = SeqEmpty(f.res.sort())
	} else {
		f.init = coerce(ctx.termOf(iv, d.init), f.res.sort())
	}
	c2 := ctx.with(map[string]SVal{d.acc: {f.pacc, f.res}, d.x: {f.px, es}})
	f.step = coerce(c2.term(d.step), f.res.sort())
	if f.step.sort != f.res.sort() || f.init.sort != f.res.sort() {
		panic(specErr{fmt.Sprintf("fold %s: result sort %s, step %s", d.name, f.res.sort(), f.step.sort)})
	}
	f.heaps = order
	for _, h := range order {
		f.pargs = append(f.pargs, v.namedGet(st, h))
	}
	f.busy = false
	foldTab[f.op()] = f
	return f
}

func ratInt(n int64) *big.Rat { return big.NewRat(n, 1) }
