package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an executor value: *Term, *Ptr, *Slice, *Func, Tuple or *Iter.
type Val interface{}
type Tuple []Val

// Ptr is an address.
type Ptr struct {
	kind byte // 'h' heap object, 'c' cell, 'e' slice element
	ref  *Term
	root types.Type // type of the object at ref
	cell *Cell
	sl   *Slice
	idx  *Term
	path []pathElem
}

type pathElem struct {
	si  *StructInfo
	i   int
	arr *Term // array index
	at  types.Type
}

func (p *Ptr) field(si *StructInfo, i int) *Ptr {
	n := *p
	n.path = append(append([]pathElem{}, p.path...), pathElem{si: si, i: i})
	return &n
}
func (p *Ptr) index(i *Term, at types.Type) *Ptr {
	n := *p
	n.path = append(append([]pathElem{}, p.path...), pathElem{arr: i, at: at})
	return &n
}

// Cell is an executor-level variable.
type Cell struct {
	key string
	typ types.Type
	id  int
}

// Slice is a slice value; with obj it is a window of a local backing array.
type Slice struct {
	seq    *Term // content when obj is nil
	obj    *Obj
	lo, hi *Term // window of obj (nil: all)
	tip    bool  // ends at the end of its backing store
	elem   types.Type
}

// Obj is a local backing array.
type Obj struct {
	key string
	id  int
	rel []*Obj // slices appended from it: writing one makes the others unknown
}

type Func struct {
	fn    *ssa.Function
	binds []Val
	bi    string // builtin
}

type Iter struct {
	cell  *Cell // position (string) or visited set (map)
	str   *Term
	m     *Term
	mt    *types.Map
	isMap bool
	dom   *Term // the keys of all maps when the loop began
}

// State is a symbolic state.
type State struct {
	epoch    string
	heap     map[string]*Term
	ghost    map[string]*Term
	cells    map[*Cell]Val
	promoted map[*Cell]*Term
	objs     map[*Obj]*Term
	poison   map[*Obj]bool
	known    map[*Term]*Term
	pcs      map[*Term]bool
	pc       []*Term
	alloc    *Term
	appended map[*Term]bool
	escaped  map[*Obj]bool
}

func newState(epoch string) *State {
	return &State{epoch: epoch, heap: map[string]*Term{}, ghost: map[string]*Term{}, cells: map[*Cell]Val{},
		promoted: map[*Cell]*Term{}, objs: map[*Obj]*Term{}, poison: map[*Obj]bool{}, known: map[*Term]*Term{},
		pcs: map[*Term]bool{}, alloc: Const("alloc@"+epoch, SInt), appended: map[*Term]bool{}, escaped: map[*Obj]bool{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	return &State{epoch: s.epoch, heap: cp(s.heap), ghost: cp(s.ghost), cells: cp(s.cells), promoted: cp(s.promoted),
		objs: cp(s.objs), poison: cp(s.poison), known: cp(s.known), pcs: cp(s.pcs), pc: s.pc[:len(s.pc):len(s.pc)], alloc: s.alloc,
		appended: cp(s.appended), escaped: cp(s.escaped)}
}

// assume adds a fact; it reports whether the state is still possible.
func (s *State) assume(t *Term) bool {
	t = s.simp(t)
	if t == tTrue {
		return true
	}
	if t == tFalse {
		s.pc = append(s.pc, tFalse)
		return false
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if s.pcs[t] {
		return true
	}
	if s.pcs[Not(t)] {
		s.pc = append(s.pc, tFalse)
		return false
	}
	s.pcs[t] = true
	s.pc = append(s.pc, t)
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if isLiteral(b) && !isLiteral(a) {
			s.known[a] = b
		} else if isLiteral(a) && !isLiteral(b) {
			s.known[b] = a
		}
	}
	return true
}

func isLiteral(t *Term) bool {
	return t.num != nil || isStrLit(t) || t.op == "seqempty" && t.sort == SStr
}

// simp decides simple conditions from known literal values.
func (s *State) simp(t *Term) *Term {
	if s.pcs[t] {
		return tTrue
	}
	switch t.op {
	case "not":
		return Not(s.simp(t.args[0]))
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, s.simp(a))
		}
		return And(as...)
	case "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, s.simp(a))
		}
		return Or(as...)
	case "=", "<", "<=":
		if t.bound {
			return t
		}
		a, b := s.subKnown(t.args[0]), s.subKnown(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			var r *Term
			switch t.op {
			case "=":
				r = Eq(a, b)
			case "<":
				r = Lt(a, b)
			default:
				r = Le(a, b)
			}
			if r == tTrue || r == tFalse {
				return r
			}
		}
	}
	if s.pcs[Not(t)] {
		return tFalse
	}
	return t
}

func (s *State) subKnown(t *Term) *Term {
	if k, ok := s.known[t]; ok {
		return k
	}
	if t.op == "+" || t.op == "*" {
		var as []*Term
		ch := false
		for _, a := range t.args {
			x := s.subKnown(a)
			if x != a {
				ch = true
			}
			as = append(as, x)
		}
		if ch {
			return rebuild(t.op, t.sort, as)
		}
	}
	return t
}

func (s *State) dead() bool { return len(s.pc) > 0 && s.pc[len(s.pc)-1] == tFalse }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- heap maps ----

type heapInfo struct {
	name string
	sort Sort
}

var heapSorts = map[string]Sort{}

func (v *Verifier) fieldHeap(si *StructInfo, i int) heapInfo {
	n := si.selName(i)
	s := ArrSort(SInt, si.fields[i].sort)
	heapSorts[n] = s
	return heapInfo{n, s}
}
func (v *Verifier) plainHeap(t types.Type) heapInfo {
	es := sortOf(t)
	n := "P." + mangle(string(es))
	heapSorts[n] = ArrSort(SInt, es)
	return heapInfo{n, heapSorts[n]}
}
func (v *Verifier) mapHeaps(m *types.Map) (dom, val heapInfo) {
	k, e := sortOf(m.Key()), sortOf(m.Elem())
	n := mangle(typeName(m))
	dom = heapInfo{"MD." + n, ArrSort(SInt, ArrSort(k, SBool))}
	val = heapInfo{"MV." + n, ArrSort(SInt, ArrSort(k, e))}
	heapSorts[dom.name] = dom.sort
	heapSorts[val.name] = val.sort
	return
}

func (v *Verifier) heapGet(st *State, h heapInfo) *Term { return v.heapByName(st, h.name) }

func (v *Verifier) heapByName(st *State, n string) *Term {
	if t, ok := st.heap[n]; ok {
		return t
	}
	t := Const("H."+n+"@"+st.epoch, heapSorts[n])
	st.heap[n] = t
	return t
}

func (v *Verifier) ghostType(g *GhostDecl) *SType {
	if g.st == nil {
		g.st = resolveType(g.typ, g.pkg)
	}
	return g.st
}
func (v *Verifier) ghostGet(st *State, n string) *Term {
	if t, ok := st.ghost[n]; ok {
		return t
	}
	g, ok := v.db.ghosts[n]
	if !ok {
		panic(specErr{"unknown ghost " + n})
	}
	t := Const("G."+n+"@"+st.epoch, v.ghostType(g).sort())
	st.ghost[n] = t
	return t
}
func (v *Verifier) namedGet(st *State, n string) *Term {
	if strings.HasPrefix(n, "ghost:") {
		return v.ghostGet(st, n[6:])
	}
	return v.heapByName(st, n)
}

// ptrHeaps lists the heap maps a load through p reads.
func (v *Verifier) ptrHeaps(p *Ptr) []string {
	if p.kind != 'h' {
		return nil
	}
	si := structOf(p.root)
	if si == nil {
		return []string{v.plainHeap(p.root).name}
	}
	if len(p.path) > 0 {
		return []string{v.fieldHeap(si, p.path[0].i).name}
	}
	var out []string
	for i := range si.fields {
		out = append(out, v.fieldHeap(si, i).name)
	}
	return out
}

// ---- pointers ----

func (v *Verifier) asPtr(x Val, elem types.Type) *Ptr {
	switch x := x.(type) {
	case *Ptr:
		return x
	case *Term:
		if x.sort != SInt {
			unsup("pointer of sort %s", x.sort)
		}
		if p, ok := v.interior[x]; ok {
			return p
		}
		return &Ptr{kind: 'h', ref: x, root: elem}
	}
	unsup("dereference of %T", x)
	return nil
}

func (v *Verifier) resolvePtr(st *State, p *Ptr) *Ptr {
	if p.kind == 'c' {
		if r, ok := st.promoted[p.cell]; ok {
			return &Ptr{kind: 'h', ref: r, root: p.cell.typ, path: p.path}
		}
	}
	return p
}

func selPath(t *Term, path []pathElem) *Term {
	for _, e := range path {
		if e.si != nil {
			t = Sel(t, e.si, e.i)
		} else {
			t = SeqIdx(t, e.arr)
		}
	}
	return t
}
func updPath(t *Term, path []pathElem, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	e := path[0]
	if e.si != nil {
		return With(t, e.si, e.i, updPath(Sel(t, e.si, e.i), path[1:], x))
	}
	return SeqUpd(t, e.arr, updPath(SeqIdx(t, e.arr), path[1:], x))
}

func (v *Verifier) load(st *State, p *Ptr) Val {
	p = v.resolvePtr(st, p)
	switch p.kind {
	case 'c':
		c, ok := st.cells[p.cell]
		if !ok {
			c = v.initCell(st, p.cell)
		}
		if len(p.path) == 0 {
			return c
		}
		if arr, ok := c.([]Val); ok {
			if p.path[0].arr == nil || p.path[0].arr.num == nil {
				return selPath(v.toTerm(st, c), p.path)
			}
			x := arr[p.path[0].arr.num.Num().Int64()]
			if len(p.path) == 1 {
				return x
			}
			return selPath(v.toTerm(st, x), p.path[1:])
		}
		return selPath(v.toTerm(st, c), p.path)
	case 'h':
		si := structOf(p.root)
		if si == nil {
			return selPath(Select(v.heapGet(st, v.plainHeap(p.root)), p.ref), p.path)
		}
		if len(p.path) > 0 {
			h := v.heapGet(st, v.fieldHeap(si, p.path[0].i))
			return selPath(Select(h, p.ref), p.path[1:])
		}
		var as []*Term
		for i := range si.fields {
			as = append(as, Select(v.heapGet(st, v.fieldHeap(si, i)), p.ref))
		}
		return MkStruct(si, as)
	case 'e':
		return selPath(SeqIdx(v.content(st, p.sl), p.idx), p.path)
	}
	unsup("load")
	return nil
}

// escape notes that a slice is stored where its content is kept as a value.
func (v *Verifier) escape(st *State, x Val) {
	if s, ok := x.(*Slice); ok && s.obj != nil {
		st.escaped[s.obj] = true
		for _, o := range s.obj.rel {
			st.escaped[o] = true
		}
	}
}

func (v *Verifier) initCell(st *State, c *Cell) Val {
	t := Const("C."+mangle(c.key)+"@"+st.epoch, sortOf(c.typ))
	st.cells[c] = t
	return t
}

func (v *Verifier) store(st *State, p *Ptr, x Val) {
	p = v.resolvePtr(st, p)
	switch p.kind {
	case 'c':
		if len(p.path) == 0 {
			st.cells[p.cell] = x
			return
		}
		c, ok := st.cells[p.cell]
		if !ok {
			c = v.initCell(st, p.cell)
		}
		if arr, ok := c.([]Val); ok && p.path[0].arr != nil && p.path[0].arr.num != nil {
			n := append([]Val{}, arr...)
			k := p.path[0].arr.num.Num().Int64()
			if len(p.path) == 1 {
				n[k] = x
			} else {
				n[k] = updPath(v.toTerm(st, n[k]), p.path[1:], v.toTerm(st, x))
			}
			st.cells[p.cell] = n
			return
		}
		v.escape(st, x)
		st.cells[p.cell] = updPath(v.toTerm(st, c), p.path, v.toTerm(st, x))
	case 'h':
		si := structOf(p.root)
		v.escape(st, x)
		t := v.toTerm(st, x)
		if si == nil {
			h := v.plainHeap(p.root)
			a := v.heapGet(st, h)
			st.heap[h.name] = Store(a, p.ref, updPath(Select(a, p.ref), p.path, t))
			return
		}
		if len(p.path) > 0 {
			h := v.fieldHeap(si, p.path[0].i)
			a := v.heapGet(st, h)
			st.heap[h.name] = Store(a, p.ref, updPath(Select(a, p.ref), p.path[1:], t))
			return
		}
		for i := range si.fields {
			h := v.fieldHeap(si, i)
			a := v.heapGet(st, h)
			st.heap[h.name] = Store(a, p.ref, Sel(t, si, i))
		}
	case 'e':
		if p.sl.obj == nil {
			unsup("write through a slice that may be shared")
		}
		o := p.sl.obj
		if st.escaped[o] {
			unsup("write to a slice that is stored elsewhere")
		}
		if st.poison[o] {
			unsup("write to a slice whose storage may be shared with another")
		}
		i := p.idx
		if p.sl.lo != nil {
			i = Add(i, p.sl.lo)
		}
		old := st.objs[o]
		st.objs[o] = SeqUpd(old, i, updPath(SeqIdx(old, i), p.path, v.toTerm(st, x)))
		for _, r := range o.rel {
			st.poison[r] = true
		}
	default:
		unsup("store")
	}
}

// content is the sequence a slice denotes now.
func (v *Verifier) content(st *State, s *Slice) *Term {
	if s.obj == nil {
		return s.seq
	}
	if st.poison[s.obj] {
		unsup("read of a slice whose storage may have been overwritten")
	}
	t := st.objs[s.obj]
	if s.lo == nil && s.hi == nil {
		return t
	}
	lo, hi := s.lo, s.hi
	if lo == nil {
		lo = IntLit(0)
	}
	if hi == nil {
		hi = SeqLen(t)
	}
	return SeqSub(t, lo, hi)
}

// promote moves a cell to the heap.
func (v *Verifier) promote(st *State, c *Cell) *Term {
	if r, ok := st.promoted[c]; ok {
		return r
	}
	val, ok := st.cells[c]
	if !ok {
		val = v.initCell(st, c)
	}
	t := v.toTerm(st, val)
	r := st.alloc
	st.alloc = Add(st.alloc, IntLit(1))
	st.promoted[c] = r
	// the heap was unconstrained at the fresh reference: its content there is
	// chosen to be the cell's content.
	si := structOf(c.typ)
	if si == nil {
		h := v.plainHeap(c.typ)
		v.initAt(st, h, r, t)
	} else {
		for i := range si.fields {
			v.initAt(st, v.fieldHeap(si, i), r, Sel(t, si, i))
		}
	}
	delete(st.cells, c)
	return r
}

func (v *Verifier) initAt(st *State, h heapInfo, r, x *Term) {
	a := v.heapGet(st, h)
	if v.storeOnAlloc {
		st.heap[h.name] = Store(a, r, x)
		return
	}
	st.assume(Eq(Select(a, r), x))
}

func (v *Verifier) toTerm(st *State, x Val) *Term {
	switch x := x.(type) {
	case *Term:
		return x
	case *Ptr:
		p := v.resolvePtr(st, x)
		if len(p.path) == 0 {
			if p.kind == 'h' {
				return p.ref
			}
			if p.kind == 'c' {
				return v.promote(st, p.cell)
			}
		}
		if p.kind == 'h' || p.kind == 'c' {
			if p.kind == 'c' {
				r := v.promote(st, p.cell)
				p = &Ptr{kind: 'h', ref: r, root: p.cell.typ, path: p.path}
			}
			n := "addr." + mangle(typeName(p.root))
			for _, e := range p.path {
				if e.si == nil {
					unsup("address of an array element as a value")
				}
				n += "." + e.si.fields[e.i].name
			}
			t := mk(n, SInt, p.ref)
			v.interior[t] = p
			return t
		}
		unsup("address of a slice element as a value")
	case *Slice:
		return v.content(st, x)
	case *Func:
		return v.funcTerm(st, x)
	case []Val:
		if len(x) == 0 {
			unsup("empty array value")
		}
		var s *Term
		for _, e := range x {
			t := v.toTerm(st, e)
			if s == nil {
				s = SeqEmpty(SeqSort(t.sort))
			}
			s = SeqPush(s, t)
		}
		return s
	case nil:
		unsup("no value")
	}
	unsup("value %T as term", x)
	return nil
}

func (v *Verifier) funcTerm(st *State, f *Func) *Term {
	k := "fn." + f.bi
	if f.fn != nil {
		k = "fn." + mangle(f.fn.String())
	}
	var args []*Term
	for _, b := range f.binds {
		if p, ok := b.(*Ptr); ok && p.kind == 'c' && len(p.path) == 0 {
			// captured variable: identified by its cell
			args = append(args, Const("cell."+mangle(p.cell.key)+fmt.Sprint(p.cell.id), SInt))
			continue
		}
		args = append(args, v.toTerm(st, b))
	}
	t := mk(k, SInt, args...)
	v.funcVals[t] = f
	return t
}

// ---- interfaces ----

var tagTab = map[string]int64{}
var tagNames []string
var tagTypes []types.Type

func tagOf(t types.Type) *Term {
	k := types.TypeString(types.Unalias(t), nil)
	n, ok := tagTab[k]
	if !ok {
		n = int64(len(tagTab) + 1)
		tagTab[k] = n
		tagNames = append(tagNames, typeName(t))
		tagTypes = append(tagTypes, t)
	}
	return IntLit(n)
}

func (v *Verifier) makeIface(st *State, x Val, t types.Type) *Term {
	term := v.toTerm(st, x)
	return MkIface(tagOf(t), boxTerm(term, t))
}

func boxTerm(x *Term, t types.Type) *Term {
	if isPtrLike(t) {
		return x
	}
	if x.op == "unbox."+mangle(string(x.sort)) {
		return x.args[0]
	}
	return mk("box."+mangle(string(x.sort)), SInt, x)
}

func (v *Verifier) unboxIface(t *Term, gt types.Type) *Term {
	r := IRef(t)
	if isPtrLike(gt) {
		return r
	}
	s := sortOf(gt)
	if r.op == "box."+mangle(string(s)) {
		return r.args[0]
	}
	return mk("unbox."+mangle(string(s)), s, r)
}

// ---- constants ----

func constTerm(c constant.Value, t types.Type) *Term {
	if c == nil {
		return zeroTerm(t)
	}
	switch c.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c))
	case constant.String:
		return StrLit(constant.StringVal(c))
	case constant.Int, constant.Float:
		r, ok := new(big.Rat).SetString(c.ExactString())
		if !ok {
			unsup("constant %s", c)
		}
		s := sortOf(t)
		if s != SInt && s != SReal {
			unsup("constant %s of sort %s", c, s)
		}
		if f, ok := constant.Float64Val(c); s == SReal && !r.IsInt() && (ok || !math.IsInf(f, 0)) {
			// the decimal that was written, not its rounding to a float
			if d, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok {
				r = d
			}
		}
		return NumRat(r, s)
	}
	unsup("constant %s", c)
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
