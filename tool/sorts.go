package main

import (
	"fmt"
	"go/types"
	"strings"
)

// StructInfo is a Go struct type as an SMT datatype with one constructor.
type StructInfo struct {
	name   string
	typ    *types.Struct
	key    string
	fields []FieldInfo
}

type FieldInfo struct {
	name string
	typ  types.Type
	sort Sort
}

func (si *StructInfo) ctor() string        { return "mk_" + si.name }
func (si *StructInfo) selName(i int) string { return fmt.Sprintf("%s.%s", si.name, si.fields[i].name) }
func (si *StructInfo) sort() Sort          { return Sort(si.name) }
func (si *StructInfo) field(n string) int {
	for i, f := range si.fields {
		if f.name == n {
			return i
		}
	}
	return -1
}

var (
	structTab  = map[string]*StructInfo{} // by type string
	structSort = map[Sort]*StructInfo{}
	selTab     = map[string]selRef{}
	structList []*StructInfo
)

type selRef struct {
	si *StructInfo
	i  int
}

func selOf(op string) (*StructInfo, int, bool) {
	r, ok := selTab[op]
	return r.si, r.i, ok
}

// typeName is the short unique name of a type: pkgname.Name.
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func structOf(t types.Type) *StructInfo {
	t = types.Unalias(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	key := types.TypeString(t, nil)
	if si, ok := structTab[key]; ok {
		return si
	}
	name := ""
	if _, ok := t.(*types.Named); ok {
		name = "S_" + mangle(typeName(t))
	} else {
		name = fmt.Sprintf("S_anon%d", len(structTab))
	}
	for _, o := range structList {
		if o.name == name {
			name = fmt.Sprintf("%s_%d", name, len(structTab))
		}
	}
	si := &StructInfo{name: name, typ: st, key: key}
	structTab[key] = si
	structSort[Sort(name)] = si
	structList = append(structList, si)
	ctorOf[si.ctor()] = si
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		si.fields = append(si.fields, FieldInfo{name: f.Name(), typ: f.Type(), sort: sortOf(f.Type())})
	}
	for i := range si.fields {
		selTab[si.selName(i)] = selRef{si, i}
	}
	return si
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SReal
		}
		return SInt
	case *types.Slice:
		return SeqSort(sortOf(u.Elem()))
	case *types.Array:
		return SeqSort(sortOf(u.Elem()))
	case *types.Struct:
		return structOf(t).sort()
	case *types.Interface:
		return SIface
	}
	return SInt
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func zeroTerm(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Array:
		s := SeqEmpty(sortOf(t))
		for i := int64(0); i < u.Len(); i++ {
			s = SeqPush(s, zeroTerm(u.Elem()))
		}
		return s
	case *types.Struct:
		si := structOf(t)
		var as []*Term
		for _, f := range si.fields {
			as = append(as, zeroTerm(f.typ))
		}
		return MkStruct(si, as)
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s Sort) *Term {
	switch {
	case s == SInt:
		return IntLit(0)
	case s == SReal:
		return RealLit(0)
	case s == SBool:
		return tFalse
	case s == SIface:
		return nilIface
	case isSeqSort(s):
		return SeqEmpty(s)
	}
	panic("zeroSort " + string(s))
}

func MkStruct(si *StructInfo, as []*Term) *Term {
	// eta
	if len(as) > 0 {
		var base *Term
		ok := true
		for i, a := range as {
			if a.op != si.selName(i) {
				ok = false
				break
			}
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	for i, a := range as {
		if a.sort != si.fields[i].sort {
			panic(fmt.Sprintf("MkStruct %s.%s: %s for %s: %s", si.name, si.fields[i].name, a.sort, si.fields[i].sort, a))
		}
	}
	return mk(si.ctor(), si.sort(), as...)
}

func Sel(t *Term, si *StructInfo, i int) *Term {
	if t.op == si.ctor() {
		return t.args[i]
	}
	if t.op == "ite" {
		return Ite(t.args[0], Sel(t.args[1], si, i), Sel(t.args[2], si, i))
	}
	if t.sort != si.sort() {
		panic(fmt.Sprintf("Sel %s of %s (%s)", si.selName(i), t, t.sort))
	}
	return mk(si.selName(i), si.fields[i].sort, t)
}

func With(t *Term, si *StructInfo, i int, v *Term) *Term {
	as := make([]*Term, len(si.fields))
	for j := range si.fields {
		if j == i {
			as[j] = v
		} else {
			as[j] = Sel(t, si, j)
		}
	}
	return MkStruct(si, as)
}

// ---- spec data types ----

type DataInfo struct {
	name  string
	ctors []*CtorInfo
}
type CtorInfo struct {
	data   *DataInfo
	name   string
	fields []FieldInfo2
}
type FieldInfo2 struct {
	name string
	typ  *SType
}

var (
	dataTab  = map[string]*DataInfo{}
	dataSort = map[Sort]*DataInfo{}
	dctorTab = map[string]*CtorInfo{} // by op
	dataList []*DataInfo
)

func (d *DataInfo) sort() Sort { return Sort("D_" + d.name) }
func (c *CtorInfo) op() string { return "D_" + c.data.name + "." + c.name }
func (c *CtorInfo) selName(i int) string {
	return c.op() + "." + c.fields[i].name
}

func DataSel(t *Term, c *CtorInfo, i int) *Term {
	if t.op == c.op() {
		return t.args[i]
	}
	if t.op == "ite" {
		return Ite(t.args[0], DataSel(t.args[1], c, i), DataSel(t.args[2], c, i))
	}
	n := c.selName(i)
	dselTab[n] = dselRef{c, i}
	return mk(n, c.fields[i].typ.sort(), t)
}

type dselRef struct {
	c *CtorInfo
	i int
}

var dselTab = map[string]dselRef{}

func DataIs(t *Term, c *CtorInfo) *Term {
	if c2, ok := dctorTab[t.op]; ok {
		return Bool(c2 == c)
	}
	if t.op == "ite" {
		return Ite(t.args[0], DataIs(t.args[1], c), DataIs(t.args[2], c))
	}
	return mk("is-"+c.op(), SBool, t)
}

// ---- spec types ----

// SType is the type of a spec expression.
type SType struct {
	kind string // "go", "seq", "data", "int", "real", "bool", "ref", "map"
	gt   types.Type
	elem *SType
	key  *SType
	data *DataInfo
}

var (
	stInt  = &SType{kind: "int"}
	stReal = &SType{kind: "real"}
	stBool = &SType{kind: "bool"}
	stStr  = &SType{kind: "go", gt: types.Typ[types.String]}
)

func goST(t types.Type) *SType {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SType{kind: "seq", elem: goST(u.Elem()), gt: t}
	case *types.Array:
		return &SType{kind: "seq", elem: goST(u.Elem()), gt: t}
	}
	return &SType{kind: "go", gt: t}
}

func seqST(e *SType) *SType { return &SType{kind: "seq", elem: e} }

func (s *SType) sort() Sort {
	switch s.kind {
	case "int", "ref":
		return SInt
	case "real":
		return SReal
	case "bool":
		return SBool
	case "seq":
		return SeqSort(s.elem.sort())
	case "data":
		return s.data.sort()
	case "map":
		return ArrSort(s.key.sort(), s.elem.sort())
	}
	return sortOf(s.gt)
}

func (s *SType) String() string {
	switch s.kind {
	case "seq":
		return "seq[" + s.elem.String() + "]"
	case "data":
		return s.data.name
	case "go":
		return typeName(s.gt)
	case "map":
		return "map[" + s.key.String() + "]" + s.elem.String()
	}
	return s.kind
}

func trimPtr(s string) string { return strings.TrimPrefix(s, "*") }
