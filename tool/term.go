package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort, written as in SMT-LIB.
type Sort string

const (
	SInt   Sort = "Int"
	SReal  Sort = "Real"
	SBool  Sort = "Bool"
	SIface Sort = "Iface"
	SStr   Sort = "Seq_Int"
)

// Term is a hash-consed SMT term.
type Term struct {
	op    string
	args  []*Term
	sort  Sort
	id    int
	num   *big.Rat  // numerals
	vars  []*Term   // quantifiers
	trigs [][]*Term // quantifiers
	bound bool      // contains a variable bound by an enclosing quantifier (set on bound vars)
}

var (
	termTab  = map[string]*Term{}
	nextTerm = 1
)

func mk(op string, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, sort: s, id: nextTerm}
	nextTerm++
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	termTab[k] = t
	return t
}

func Const(name string, s Sort) *Term { return mk(name, s) }

var freshN = map[string]int{}

func resetFresh() { freshN = map[string]int{} }

func Fresh(name string, s Sort) *Term {
	name = mangle(name)
	freshN[name]++
	return mk(fmt.Sprintf("%s!%d", name, freshN[name]), s)
}

var bvN int

func BoundVar(name string, s Sort) *Term {
	bvN++
	t := mk(fmt.Sprintf("%s?%d", mangle(name), bvN), s)
	t.bound = true
	return t
}

func mangle(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '?':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("P_")
		case r == '[':
			b.WriteString("L_")
		default:
			b.WriteRune('_')
		}
	}
	return b.String()
}

func NumRat(r *big.Rat, s Sort) *Term {
	k := fmt.Sprintf("#num|%s|%s", s, r.RatString())
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: "#num", sort: s, id: nextTerm, num: new(big.Rat).Set(r)}
	nextTerm++
	termTab[k] = t
	return t
}
func IntLit(n int64) *Term  { return NumRat(big.NewRat(n, 1), SInt) }
func RealLit(n int64) *Term { return NumRat(big.NewRat(n, 1), SReal) }

var (
	tTrue  = mk("true", SBool)
	tFalse = mk("false", SBool)
)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	case a.op == "<":
		return Le(a.args[1], a.args[0])
	case a.op == "<=":
		return Lt(a.args[1], a.args[0])
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tFalse {
			return false
		}
		if a == tTrue || seen[a.id] {
			return true
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		xs := []*Term{a}
		if a.op == "or" {
			xs = a.args
		}
		for _, x := range xs {
			if x == tTrue || seen[Not(x).id] {
				return tTrue
			}
			if x == tFalse || seen[x.id] {
				continue
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if b.op == "=>" {
		return Implies(And(a, b.args[0]), b.args[1])
	}
	return mk("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		return And(Implies(c, a), Implies(Not(c), b))
	}
	return mk("ite", a.sort, c, a, b)
}

// ---- linear arithmetic normal form ----

type lin struct {
	c  *big.Rat
	co map[*Term]*big.Rat
}

func linOf(t *Term) lin {
	l := lin{c: new(big.Rat), co: map[*Term]*big.Rat{}}
	linAdd(&l, t, big.NewRat(1, 1))
	return l
}
func linAdd(l *lin, t *Term, k *big.Rat) {
	switch t.op {
	case "#num":
		l.c.Add(l.c, new(big.Rat).Mul(t.num, k))
	case "+":
		for _, a := range t.args {
			linAdd(l, a, k)
		}
	case "*":
		if t.args[0].num != nil && len(t.args) == 2 {
			linAdd(l, t.args[1], new(big.Rat).Mul(k, t.args[0].num))
			return
		}
		linAtom(l, t, k)
	default:
		linAtom(l, t, k)
	}
}
func linAtom(l *lin, t *Term, k *big.Rat) {
	c, ok := l.co[t]
	if !ok {
		c = new(big.Rat)
	}
	c = new(big.Rat).Add(c, k)
	if c.Sign() == 0 {
		delete(l.co, t)
	} else {
		l.co[t] = c
	}
}
func (l lin) term(s Sort) *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		c := l.co[t]
		if c.Cmp(big.NewRat(1, 1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", s, NumRat(c, s), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, NumRat(l.c, s))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", s, out...)
}

func Add(as ...*Term) *Term {
	l := lin{c: new(big.Rat), co: map[*Term]*big.Rat{}}
	for _, a := range as {
		linAdd(&l, a, big.NewRat(1, 1))
	}
	return l.term(as[0].sort)
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	linAdd(&l, b, big.NewRat(-1, 1))
	return l.term(a.sort)
}
func Neg(a *Term) *Term {
	l := lin{c: new(big.Rat), co: map[*Term]*big.Rat{}}
	linAdd(&l, a, big.NewRat(-1, 1))
	return l.term(a.sort)
}
func Mul(a, b *Term) *Term {
	if b.num != nil {
		a, b = b, a
	}
	if a.num != nil {
		l := lin{c: new(big.Rat), co: map[*Term]*big.Rat{}}
		linAdd(&l, b, a.num)
		return l.term(a.sort)
	}
	k1, n1, d1 := frac(a)
	k2, n2, d2 := frac(b)
	return fromFrac(k1.Mul(k1, k2), append(n1, n2...), append(d1, d2...), a.sort)
}
func DivReal(a, b *Term) *Term {
	if b.num != nil && b.num.Sign() != 0 {
		return Mul(NumRat(new(big.Rat).Inv(b.num), SReal), a)
	}
	if b.num != nil {
		return NumRat(new(big.Rat), SReal)
	}
	k1, n1, d1 := frac(a)
	k2, n2, d2 := frac(b)
	if k2.Sign() == 0 {
		return NumRat(new(big.Rat), SReal)
	}
	return fromFrac(k1.Quo(k1, k2), append(n1, d2...), append(d1, n2...), SReal)
}

func ToReal(a *Term) *Term {
	if a.num != nil {
		return NumRat(a.num, SReal)
	}
	return mk("to_real", SReal, a)
}

// diff returns a-b if it is a constant.
func constDiff(a, b *Term) (*big.Rat, bool) {
	if a.sort != SInt && a.sort != SReal {
		return nil, false
	}
	l := linOf(a)
	linAdd(&l, b, big.NewRat(-1, 1))
	if len(l.co) == 0 {
		return l.c, true
	}
	return nil, false
}

func Lt(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() < 0)
	}
	return mk("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() <= 0)
	}
	return mk("<=", SBool, a, b)
}

var ctorOf = map[string]*StructInfo{} // constructor name -> struct

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() == 0)
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.op == b.op && len(a.args) == len(b.args) && isCtor(a.op) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if isCtor(a.op) && isCtor(b.op) && a.op != b.op {
		return tFalse
	}
	if isSeqSort(a.sort) {
		if la, lb := SeqLen(a), SeqLen(b); la != nil && lb != nil {
			if d, ok := constDiff(la, lb); ok && d.Sign() != 0 {
				return tFalse
			}
		}
		if a.op == "seqpush" && b.op == "seqpush" {
			return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
		}
		// string literals
		if isStrLit(a) && isStrLit(b) {
			return tFalse // hash-consed: different terms are different literals
		}
		if (a.op == "seqempty" && isStrLit(b)) || (b.op == "seqempty" && isStrLit(a)) {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func isCtor(op string) bool {
	if op == "mkI" {
		return true
	}
	if _, ok := ctorOf[op]; ok {
		return true
	}
	_, ok := dctorTab[op]
	return ok
}

// ---- arrays ----

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }
func arrElem(s Sort) Sort {
	x := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	// first sort
	d := 0
	for i := 0; i < len(x); i++ {
		switch x[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(x[i+1:])
			}
		}
	}
	panic("arrElem " + string(s))
}

func distinctConst(a, b *Term) bool {
	if d, ok := constDiff(a, b); ok {
		return d.Sign() != 0
	}
	return Eq(a, b) == tFalse
}

func Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i || Eq(a.args[1], i) == tTrue {
			return a.args[2]
		}
		if distinctConst(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk("select", arrElem(a.sort), a, i)
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}

// ---- interface values ----

func MkIface(tag, ref *Term) *Term { return mk("mkI", SIface, tag, ref) }
func ITag(t *Term) *Term {
	if t.op == "mkI" {
		return t.args[0]
	}
	if t.op == "ite" {
		return Ite(t.args[0], ITag(t.args[1]), ITag(t.args[2]))
	}
	return mk("itag", SInt, t)
}
func IRef(t *Term) *Term {
	if t.op == "mkI" {
		return t.args[1]
	}
	if t.op == "ite" {
		return Ite(t.args[0], IRef(t.args[1]), IRef(t.args[2]))
	}
	return mk("iref", SInt, t)
}

var nilIface = MkIface(IntLit(0), IntLit(0))

// ---- sequences ----

func SeqSort(elem Sort) Sort {
	s := Sort("Seq_" + mangle(strings.ReplaceAll(string(elem), " ", "_")))
	seqElem[s] = elem
	return s
}

var seqElem = map[Sort]Sort{"Seq_Int": SInt}

func isSeqSort(s Sort) bool { _, ok := seqElem[s]; return ok }

func SeqEmpty(s Sort) *Term { return mk("seqempty", s) }

func SeqPush(s, x *Term) *Term {
	if x.sort != seqElem[s.sort] {
		panic(fmt.Sprintf("push %s onto %s", x.sort, s.sort))
	}
	return mk("seqpush", s.sort, s, x)
}

var strLits = map[string]*Term{}

func StrLit(s string) *Term {
	if s == "" {
		return SeqEmpty(SStr)
	}
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mk(fmt.Sprintf("lit!%d!%s", len(strLits), mangle(firstN(s, 12))), SStr)
	strLits[s] = t
	litOf[t] = s
	return t
}

var litOf = map[*Term]string{}

func isStrLit(t *Term) bool { _, ok := litOf[t]; return ok }
func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func SeqLen(s *Term) *Term {
	switch s.op {
	case "seqempty":
		return IntLit(0)
	case "seqpush":
		return Add(SeqLen(s.args[0]), IntLit(1))
	case "seqcat":
		return Add(SeqLen(s.args[0]), SeqLen(s.args[1]))
	case "sequpd":
		return SeqLen(s.args[0])
	case "ite":
		a, b := SeqLen(s.args[1]), SeqLen(s.args[2])
		return Ite(s.args[0], a, b)
	}
	if l, ok := litOf[s]; ok {
		return IntLit(int64(len(l)))
	}
	return mk("seqlen", SInt, s)
}

func shortSeq(s *Term) bool {
	switch s.op {
	case "ite":
		return shortSeq(s.args[1]) && shortSeq(s.args[2])
	case "seqpush":
		return shortSeq(s.args[0])
	}
	return s.op == "seqempty"
}

func SeqIdx(s, i *Term) *Term {
	switch s.op {
	case "ite":
		if i.num != nil && (shortSeq(s.args[1]) || shortSeq(s.args[2])) {
			return Ite(s.args[0], SeqIdx(s.args[1], i), SeqIdx(s.args[2], i))
		}
	case "seqpush":
		if d, ok := constDiff(i, SeqLen(s.args[0])); ok {
			if d.Sign() == 0 {
				return s.args[1]
			}
			if d.Sign() < 0 {
				return SeqIdx(s.args[0], i)
			}
		}
	case "sequpd":
		if i == s.args[1] {
			return s.args[2]
		}
		if distinctConst(i, s.args[1]) {
			return SeqIdx(s.args[0], i)
		}
	case "seqcat":
		// only if clearly in the second part
		if d, ok := constDiff(i, SeqLen(s.args[0])); ok {
			if d.Sign() >= 0 {
				return SeqIdx(s.args[1], Sub(i, SeqLen(s.args[0])))
			}
			if d.Sign() < 0 && i.num != nil {
				return SeqIdx(s.args[0], i)
			}
		}
	}
	if l, ok := litOf[s]; ok && i.num != nil && i.num.IsInt() {
		n := i.num.Num().Int64()
		if n >= 0 && n < int64(len(l)) {
			return IntLit(int64(l[n]))
		}
	}
	return mk("seqidx", seqElem[s.sort], s, i)
}

func SeqCat(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("cat %s %s", a.sort, b.sort))
	}
	switch {
	case a.op == "seqempty":
		return b
	case b.op == "seqempty":
		return a
	case b.op == "seqpush":
		return SeqPush(SeqCat(a, b.args[0]), b.args[1])
	case b.op == "seqcat":
		return SeqCat(SeqCat(a, b.args[0]), b.args[1])
	}
	if la, ok := litOf[a]; ok {
		if lb, ok := litOf[b]; ok {
			return StrLit(la + lb)
		}
	}
	return mk("seqcat", a.sort, a, b)
}

// SeqSub is the subsequence [a,b).
func SeqSub(s, a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok && d.Sign() == 0 {
		return SeqEmpty(s.sort)
	}
	zero := IntLit(0)
	if a == zero {
		if b == SeqLen(s) {
			return s
		}
		if s.op == "seqpush" {
			if d, ok := constDiff(b, SeqLen(s.args[0])); ok && d.Sign() <= 0 {
				return SeqSub(s.args[0], a, b)
			}
		}
		if s.op == "seqcat" && b == SeqLen(s.args[0]) {
			return s.args[0]
		}
	}
	if l, ok := litOf[s]; ok && a.num != nil && b.num != nil {
		x, y := a.num.Num().Int64(), b.num.Num().Int64()
		if 0 <= x && x <= y && y <= int64(len(l)) {
			return StrLit(l[x:y])
		}
	}
	return mk("seqsub", s.sort, s, a, b)
}

func SeqUpd(s, i, v *Term) *Term {
	if s.op == "seqpush" {
		if d, ok := constDiff(i, SeqLen(s.args[0])); ok {
			if d.Sign() == 0 {
				return SeqPush(s.args[0], v)
			}
			if d.Sign() < 0 {
				return SeqPush(SeqUpd(s.args[0], i, v), s.args[1])
			}
		}
	}
	if s.op == "sequpd" && s.args[1] == i {
		return SeqUpd(s.args[0], i, v)
	}
	return mk("sequpd", s.sort, s, i, v)
}

// ---- quantifiers ----

func Quant(q string, vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var k strings.Builder
	fmt.Fprintf(&k, "%s|%d", q, body.id)
	for _, v := range vars {
		fmt.Fprintf(&k, "|%d", v.id)
	}
	for _, tr := range trigs {
		k.WriteString("|T")
		for _, t := range tr {
			fmt.Fprintf(&k, ",%d", t.id)
		}
	}
	ks := k.String()
	if t, ok := termTab[ks]; ok {
		return t
	}
	t := &Term{op: q, args: []*Term{body}, sort: SBool, id: nextTerm, vars: vars, trigs: trigs}
	nextTerm++
	// bound status: free bound variables other than vars
	fv := map[*Term]bool{}
	freeBound(body, fv, map[*Term]bool{})
	for _, v := range vars {
		delete(fv, v)
	}
	t.bound = len(fv) > 0
	termTab[ks] = t
	return t
}

func freeBound(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if len(t.args) == 0 && strings.Contains(t.op, "?") {
		out[t] = true
		return
	}
	if len(t.vars) > 0 {
		inner := map[*Term]bool{}
		freeBound(t.args[0], inner, map[*Term]bool{})
		for _, v := range t.vars {
			delete(inner, v)
		}
		for v := range inner {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeBound(a, out, seen)
	}
}

func Forall(vars []*Term, trigs [][]*Term, body *Term) *Term { return Quant("forall", vars, trigs, body) }
func Exists(vars []*Term, trigs [][]*Term, body *Term) *Term { return Quant("exists", vars, trigs, body) }

// Subst replaces terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if len(t.vars) > 0 {
			var trs [][]*Term
			for _, tr := range t.trigs {
				var n []*Term
				for _, x := range tr {
					n = append(n, f(x))
				}
				trs = append(trs, n)
			}
			r = Quant(t.op, t.vars, trs, f(t.args[0]))
		} else {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = f(a)
				if as[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t.op, t.sort, as)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(op string, s Sort, as []*Term) *Term {
	switch op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		return Implies(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "+":
		return Add(as...)
	case "*":
		return Mul(as[0], as[1])
	case "/":
		return DivReal(as[0], as[1])
	case "<":
		return Lt(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "to_real":
		return ToReal(as[0])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "itag":
		return ITag(as[0])
	case "iref":
		return IRef(as[0])
	case "seqpush":
		return SeqPush(as[0], as[1])
	case "seqlen":
		return SeqLen(as[0])
	case "seqidx":
		return SeqIdx(as[0], as[1])
	case "seqcat":
		return SeqCat(as[0], as[1])
	case "seqsub":
		return SeqSub(as[0], as[1], as[2])
	case "sequpd":
		return SeqUpd(as[0], as[1], as[2])
	}
	if f, ok := foldTab[op]; ok {
		return f.app(as)
	}
	if si, i, ok := selOf(op); ok {
		return Sel(as[0], si, i)
	}
	if strings.HasPrefix(op, "is-") {
		if c, ok := dctorTab[op[3:]]; ok {
			return DataIs(as[0], c)
		}
	}
	if d, ok := dselTab[op]; ok {
		return DataSel(as[0], d.c, d.i)
	}
	return mk(op, s, as...)
}

func (t *Term) String() string {
	var b strings.Builder
	pr(&b, t, nil)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func numStr(r *big.Rat, s Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var o string
	if s == SReal {
		if a.IsInt() {
			o = a.Num().String() + ".0"
		} else {
			o = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
		}
	} else {
		o = a.Num().String()
	}
	if neg {
		return "(- " + o + ")"
	}
	return o
}

func smtOp(t *Term) string {
	switch t.op {
	case "seqempty":
		return "empty_" + string(t.sort)
	case "seqpush", "seqlen", "seqidx", "seqcat", "seqsub", "sequpd":
		return t.op + "_" + string(t.args[0].sort)
	case "seqeq":
		return t.op + "_" + string(t.args[0].sort)
	}
	return quoteSym(t.op)
}

func quoteSym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$?<>=+-*/", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

// pr prints a term; names maps shared terms to definition names.
func pr(b *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	if t.num != nil {
		b.WriteString(numStr(t.num, t.sort))
		return
	}
	if len(t.vars) > 0 {
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			fmt.Fprintf(b, "(%s %s)", quoteSym(v.op), v.sort)
		}
		b.WriteString(") ")
		if len(t.trigs) > 0 {
			b.WriteString("(! ")
		}
		pr(b, t.args[0], names)
		for _, tr := range t.trigs {
			b.WriteString(" :pattern (")
			for i, x := range tr {
				if i > 0 {
					b.WriteByte(' ')
				}
				pr(b, x, names)
			}
			b.WriteString(")")
		}
		if len(t.trigs) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if t.op == "constarr" {
		fmt.Fprintf(b, "((as const %s) ", t.sort)
		pr(b, t.args[0], names)
		b.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		b.WriteString(smtOp(t))
		return
	}
	b.WriteString("(" + smtOp(t))
	for _, a := range t.args {
		b.WriteByte(' ')
		pr(b, a, names)
	}
	b.WriteByte(')')
}
