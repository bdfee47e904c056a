package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- lexer ----

type tok struct {
	kind string // id, num, str, op, eof
	s    string
	line int
}

type lexer struct {
	file string
	toks []tok
	pos  int
}

var ops3 = []string{"<==>", "==>", "...", "::", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", ":="}

func lexFile(file string) (*lexer, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	return lexText(file, string(b)), nil
}

func lexText(file, src string) *lexer {
	lx := &lexer{file: file}
	line := 1
	i := 0
	isId := func(r byte) bool {
		return r == '_' || r == '$' || r == '?' || unicode.IsLetter(rune(r)) || unicode.IsDigit(rune(r))
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == '.' && j+1 < len(src) && unicode.IsDigit(rune(src[j+1]))) {
				j++
			}
			lx.toks = append(lx.toks, tok{"num", src[i:j], line})
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			lx.toks = append(lx.toks, tok{"id", src[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: %v", file, line, err))
			}
			lx.toks = append(lx.toks, tok{"str", s, line})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic(fmt.Sprintf("%s:%d: %v", file, line, err))
			}
			lx.toks = append(lx.toks, tok{"num", strconv.Itoa(int(r)), line})
			i = j + 1
		default:
			done := false
			for _, o := range ops3 {
				if strings.HasPrefix(src[i:], o) {
					lx.toks = append(lx.toks, tok{"op", o, line})
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				lx.toks = append(lx.toks, tok{"op", string(c), line})
				i++
			}
		}
	}
	lx.toks = append(lx.toks, tok{"eof", "", line})
	return lx
}

func (l *lexer) peek() tok { return l.toks[l.pos] }
func (l *lexer) peekN(n int) tok {
	if l.pos+n < len(l.toks) {
		return l.toks[l.pos+n]
	}
	return l.toks[len(l.toks)-1]
}
func (l *lexer) next() tok { t := l.toks[l.pos]; l.pos++; return t }
func (l *lexer) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", l.file, l.peek().line, fmt.Sprintf(f, a...), l.peek().s))
}
func (l *lexer) is(s string) bool { t := l.peek(); return t.kind != "str" && t.s == s }
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.pos++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		l.fail("expected %q", s)
	}
}
func (l *lexer) ident() string {
	t := l.next()
	if t.kind != "id" {
		l.pos--
		l.fail("expected identifier")
	}
	return t.s
}

// ---- expressions ----

type Expr struct {
	op    string // num str id sel idx slice call un bin quant ite match let seq deref old
	s     string
	num   *big.Rat
	args  []*Expr
	binds []Bind
	trigs [][]*Expr
	cases []MatchCase
	line  int
	file  string
}

type Bind struct {
	name string
	typ  *TypeExpr
}
type MatchCase struct {
	ctor string
	vars []string
	body *Expr
}
type TypeExpr struct {
	kind string // name ptr slice seq map
	name string
	elem *TypeExpr
	key  *TypeExpr
}

func (e *Expr) String() string {
	var as []string
	for _, a := range e.args {
		as = append(as, a.String())
	}
	switch e.op {
	case "num":
		return e.num.RatString()
	case "id":
		return e.s
	case "str":
		return strconv.Quote(e.s)
	case "sel":
		return as[0] + "." + e.s
	case "idx":
		return as[0] + "[" + as[1] + "]"
	case "bin":
		return "(" + as[0] + " " + e.s + " " + as[1] + ")"
	case "call":
		return e.s + "(" + strings.Join(as, ", ") + ")"
	case "un":
		return e.s + as[0]
	case "quant":
		var bs []string
		for _, b := range e.binds {
			bs = append(bs, b.name)
		}
		return e.s + " " + strings.Join(bs, ", ") + " :: " + as[0]
	}
	return e.op + e.s + "(" + strings.Join(as, ", ") + ")"
}

func (l *lexer) typ() *TypeExpr {
	switch {
	case l.accept("*"):
		return &TypeExpr{kind: "ptr", elem: l.typ()}
	case l.accept("["):
		l.expect("]")
		return &TypeExpr{kind: "slice", elem: l.typ()}
	}
	n := l.ident()
	if n == "seq" {
		l.expect("[")
		e := l.typ()
		l.expect("]")
		return &TypeExpr{kind: "seq", elem: e}
	}
	if n == "map" {
		l.expect("[")
		k := l.typ()
		l.expect("]")
		return &TypeExpr{kind: "map", key: k, elem: l.typ()}
	}
	for l.is(".") && l.peekN(1).kind == "id" {
		l.next()
		n += "." + l.ident()
	}
	return &TypeExpr{kind: "name", name: n}
}

func (l *lexer) binds() []Bind {
	var out []Bind
	for {
		n := l.ident()
		out = append(out, Bind{name: n, typ: l.typ()})
		if !l.accept(",") {
			return out
		}
	}
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8,
}

func (l *lexer) expr() *Expr { return l.binary(1) }

func (l *lexer) mk(op, s string, args ...*Expr) *Expr {
	return &Expr{op: op, s: s, args: args, line: l.peek().line, file: filepath.Base(l.file)}
}

func (l *lexer) binary(min int) *Expr {
	lhs := l.unary()
	for {
		t := l.peek()
		if t.kind != "op" {
			return lhs
		}
		p, ok := binPrec[t.s]
		if !ok || p < min {
			return lhs
		}
		l.next()
		var rhs *Expr
		if t.s == "==>" {
			rhs = l.binary(p)
		} else {
			rhs = l.binary(p + 1)
		}
		if p == 5 {
			// chains
			e := l.mk("bin", t.s, lhs, rhs)
			for {
				t2 := l.peek()
				if p2, ok := binPrec[t2.s]; t2.kind != "op" || !ok || p2 != 5 {
					break
				}
				l.next()
				r2 := l.binary(6)
				e = l.mk("bin", "&&", e, l.mk("bin", t2.s, rhs, r2))
				rhs = r2
			}
			lhs = e
			continue
		}
		lhs = l.mk("bin", t.s, lhs, rhs)
	}
}

func (l *lexer) unary() *Expr {
	switch {
	case l.is("!") && l.peek().kind == "op":
		l.next()
		return l.mk("un", "!", l.unary())
	case l.is("-") && l.peek().kind == "op":
		l.next()
		return l.mk("un", "-", l.unary())
	case l.is("*") && l.peek().kind == "op":
		l.next()
		return l.mk("deref", "", l.unary())
	}
	return l.postfix(l.primary())
}

func (l *lexer) postfix(e *Expr) *Expr {
	for {
		switch {
		case l.is(".") && l.peekN(1).kind == "id":
			l.next()
			e = l.mk("sel", l.ident(), e)
		case l.is("[") && l.peek().kind == "op":
			l.next()
			if l.accept(":") {
				hi := l.expr()
				l.expect("]")
				e = l.mk("slice", "", e, nil, hi)
				continue
			}
			i := l.expr()
			if l.accept(":") {
				var hi *Expr
				if !l.is("]") {
					hi = l.expr()
				}
				l.expect("]")
				e = l.mk("slice", "", e, i, hi)
				continue
			}
			l.expect("]")
			e = l.mk("idx", "", e, i)
		case l.is("(") && (e.op == "id" || e.op == "sel"):
			name := e.dotted()
			if name == "" {
				l.fail("bad call")
			}
			l.next()
			var args []*Expr
			for !l.accept(")") {
				args = append(args, l.expr())
				if !l.accept(",") && !l.is(")") {
					l.fail("expected , or )")
				}
			}
			e = l.mk("call", name, args...)
		default:
			return e
		}
	}
}

func (e *Expr) dotted() string {
	if e.op == "id" {
		return e.s
	}
	if e.op == "sel" {
		b := e.args[0].dotted()
		if b == "" {
			return ""
		}
		return b + "." + e.s
	}
	return ""
}

func (l *lexer) primary() *Expr {
	t := l.peek()
	switch t.kind {
	case "num":
		l.next()
		r, ok := new(big.Rat).SetString(t.s)
		if !ok {
			l.fail("number")
		}
		e := l.mk("num", t.s)
		e.num = r
		return e
	case "str":
		l.next()
		return l.mk("str", t.s)
	case "op":
		switch t.s {
		case "(":
			l.next()
			e := l.expr()
			l.expect(")")
			return e
		case "[":
			l.next()
			var args []*Expr
			for !l.accept("]") {
				args = append(args, l.expr())
				if !l.accept(",") && !l.is("]") {
					l.fail("expected , or ]")
				}
			}
			return l.mk("seq", "", args...)
		}
	case "id":
		switch t.s {
		case "forall", "exists":
			l.next()
			e := l.mk("quant", t.s)
			e.binds = l.binds()
			for l.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, l.expr())
					if !l.accept(",") {
						break
					}
				}
				l.expect("}")
				e.trigs = append(e.trigs, tr)
			}
			l.expect("::")
			e.args = []*Expr{l.expr()}
			return e
		case "if":
			l.next()
			c := l.expr()
			l.expect("then")
			a := l.expr()
			l.expect("else")
			b := l.expr()
			return l.mk("ite", "", c, a, b)
		case "let":
			l.next()
			n := l.ident()
			l.expect("=")
			a := l.expr()
			l.expect("in")
			return l.mk("let", n, a, l.expr())
		case "match":
			l.next()
			e := l.mk("match", "", l.postfix(l.primary()))
			l.expect("{")
			for !l.accept("}") {
				var c MatchCase
				c.ctor = l.ident()
				if l.accept("(") {
					for !l.accept(")") {
						c.vars = append(c.vars, l.ident())
						if !l.accept(",") && !l.is(")") {
							l.fail("expected , or )")
						}
					}
				}
				l.expect("=>")
				c.body = l.expr()
				l.accept("|")
				e.cases = append(e.cases, c)
			}
			return e
		case "old":
			l.next()
			l.expect("(")
			e := l.expr()
			l.expect(")")
			return l.mk("old", "", e)
		}
		l.next()
		return l.mk("id", t.s)
	}
	l.fail("unexpected token in expression")
	return nil
}

// ---- declarations ----

type Clause struct {
	kind  string // requires ensures emits inv updates modifies ...
	label string
	uses  []string // labels of the invariants it needs, nil: any
	depth int // of the loops an invariant is for, -1: all
	props []string
	by    []string // the properties whose runs prove it; the others assume it
	e     *Expr
	name  string
	binds []Bind
	names []string
	line  int
	file  string
}

type FuncSpec struct {
	kind    string // func extern iface functype
	key     string
	pkg     string
	params  []string
	results []string
	props   []string
	flags   map[string]bool
	cls     []Clause
	cbs     map[string]*FuncSpec // callback specs by parameter name
	file    string
	line    int
}

func (f *FuncSpec) of(kind string) []Clause {
	var out []Clause
	for _, c := range f.cls {
		if c.kind == kind && activeClause(c) {
			out = append(out, c)
		}
	}
	return out
}

type FoldDecl struct {
	name   string
	params []Bind // first is the sequence
	res    *TypeExpr
	init   *Expr
	acc, x string
	step   *Expr
	pkg    string
	el     *foldInst
}
type DefineDecl struct {
	name   string
	params []Bind
	body   *Expr
	pkg    string
}
type UfunDecl struct {
	name   string
	params []*TypeExpr
	res    *TypeExpr
	pkg    string
}
type LemmaDecl struct {
	steps  bool // each conclusion is proved from those before it
	hints  []*Expr // terms its proof needs instances for
	hintTs []*Term
	name   string
	params []Bind
	ind    string
	req    []*Expr
	ens    []*Expr
	trigs  [][]*Expr
	uses   []string
	axiom  bool
	pkg    string
	props  []string
	inst   bool
	term   *Term
	ops     map[string]bool
	trigOps []map[string]bool
}
type GhostDecl struct {
	name string
	typ  *TypeExpr
	pkg  string
	st   *SType
}

type SpecDB struct {
	funcs   map[string]*FuncSpec
	folds   map[string]*FoldDecl
	defines map[string]*DefineDecl
	ufuns   map[string]*UfunDecl
	lemmas  []*LemmaDecl
	ghosts  map[string]*GhostDecl
	order   []string // function keys in file order
	files   []string
}

func loadSpecs(dir string) (db *SpecDB, err error) {
	db = &SpecDB{funcs: map[string]*FuncSpec{}, folds: map[string]*FoldDecl{}, defines: map[string]*DefineDecl{},
		ufuns: map[string]*UfunDecl{}, ghosts: map[string]*GhostDecl{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	for _, f := range fs {
		lx, err := lexFile(f)
		if err != nil {
			return nil, err
		}
		db.files = append(db.files, f)
		db.parseFile(lx)
	}
	return db, nil
}

func (db *SpecDB) parseFile(l *lexer) {
	pkg := ""
	for l.peek().kind != "eof" {
		kw := l.ident()
		switch kw {
		case "package":
			pkg = l.ident()
		case "data":
			d := &DataInfo{name: l.ident()}
			dataTab[d.name] = d
			dataSort[d.sort()] = d
			dataList = append(dataList, d)
			l.expect("=")
			for {
				c := &CtorInfo{data: d, name: l.ident()}
				if l.accept("(") {
					for !l.accept(")") {
						n := l.ident()
						t := l.typ()
						c.fields = append(c.fields, FieldInfo2{name: n, typ: resolveType(t, pkg)})
						if !l.accept(",") && !l.is(")") {
							l.fail("expected , or )")
						}
					}
				}
				d.ctors = append(d.ctors, c)
				dctorTab[c.op()] = c
				if !l.accept("|") {
					break
				}
			}
		case "ghost":
			n := l.dottedIdent()
			db.ghosts[n] = &GhostDecl{name: n, typ: l.typ(), pkg: pkg}
		case "ufun":
			u := &UfunDecl{name: l.ident(), pkg: pkg}
			l.expect("(")
			for !l.accept(")") {
				u.params = append(u.params, l.typ())
				if !l.accept(",") && !l.is(")") {
					l.fail("expected , or )")
				}
			}
			u.res = l.typ()
			db.dup(l, u.name)
			db.ufuns[u.name] = u
		case "define":
			d := &DefineDecl{name: l.ident(), pkg: pkg}
			l.expect("(")
			if !l.accept(")") {
				d.params = l.binds()
				l.expect(")")
			}
			l.expect("=")
			d.body = l.expr()
			db.dup(l, d.name)
			db.defines[d.name] = d
		case "fold":
			f := &FoldDecl{name: l.ident(), pkg: pkg}
			l.expect("(")
			f.params = l.binds()
			l.expect(")")
			f.res = l.typ()
			l.expect("{")
			l.expect("[")
			l.expect("]")
			l.expect("=>")
			f.init = l.expr()
			l.expect("|")
			f.acc = l.ident()
			l.expect(",")
			f.x = l.ident()
			l.expect("=>")
			f.step = l.expr()
			l.expect("}")
			db.dup(l, f.name)
			db.folds[f.name] = f
		case "lemma", "axiom":
			d := &LemmaDecl{name: l.ident(), pkg: pkg, axiom: kw == "axiom"}
			if l.accept("(") {
				if !l.accept(")") {
					d.params = l.binds()
					l.expect(")")
				}
			}
			l.expect("{")
			for !l.accept("}") {
				switch k := l.ident(); k {
				case "induction":
					d.ind = l.ident()
				case "requires":
					d.req = append(d.req, l.expr())
				case "ensures":
					d.ens = append(d.ens, l.expr())
				case "steps":
					d.steps = true
				case "hint":
					d.hints = append(d.hints, l.expr())
				case "props":
					d.props = l.names()
				case "uses":
					d.uses = append(d.uses, l.names()...)
				case "trigger":
					var tr []*Expr
					for {
						tr = append(tr, l.expr())
						if !l.accept(",") {
							break
						}
					}
					d.trigs = append(d.trigs, tr)
				default:
					l.fail("lemma clause %q", k)
				}
			}
			db.lemmas = append(db.lemmas, d)
		case "func", "extern", "iface", "functype":
			f := db.parseFunc(l, kw, pkg)
			if _, dup := db.funcs[f.key]; dup {
				l.fail("duplicate contract for %s", f.key)
			}
			db.funcs[f.key] = f
			db.order = append(db.order, f.key)
		default:
			l.pos--
			l.fail("unknown declaration %q", kw)
		}
	}
}

func (l *lexer) names() []string {
	var out []string
	for {
		out = append(out, l.dottedIdent())
		if !l.accept(",") {
			return out
		}
	}
}

func (l *lexer) dottedIdent() string {
	n := l.ident()
	for l.is(".") && l.peekN(1).kind == "id" {
		l.next()
		n += "." + l.ident()
	}
	return n
}

// usings parses the labels of the facts an obligation needs.
func (l *lexer) usings() []string {
	if !l.accept("using") {
		return nil
	}
	out := []string{l.ident()}
	for l.accept(",") {
		out = append(out, l.ident())
	}
	return out
}

// funcKey parses pkg.(*T).M, pkg.T.M, pkg.F or pkg.F$1.
func (l *lexer) funcKey() string {
	n := l.ident()
	for l.is(".") {
		l.next()
		if l.accept("(") {
			l.expect("*")
			n += ".(*" + l.ident() + ")"
			l.expect(")")
		} else {
			n += "." + l.ident()
		}
	}
	return n
}

func (db *SpecDB) parseFunc(l *lexer, kind, pkg string) *FuncSpec {
	f := &FuncSpec{kind: kind, pkg: pkg, flags: map[string]bool{}, file: filepath.Base(l.file), line: l.peek().line, cbs: map[string]*FuncSpec{}}
	f.key = l.funcKey()
	f.parseSig(l)
	f.parseBody(l, db)
	return f
}

func (f *FuncSpec) parseSig(l *lexer) {
	l.expect("(")
	for !l.accept(")") {
		f.params = append(f.params, l.ident())
		if !l.accept(",") && !l.is(")") {
			l.fail("expected , or )")
		}
	}
	if l.accept("returns") {
		l.expect("(")
		for !l.accept(")") {
			f.results = append(f.results, l.ident())
			if !l.accept(",") && !l.is(")") {
				l.fail("expected , or )")
			}
		}
	}
}

func (f *FuncSpec) parseBody(l *lexer, db *SpecDB) {
	l.expect("{")
	for !l.accept("}") {
		c := Clause{line: l.peek().line, file: filepath.Base(l.file)}
		c.kind = l.ident()
		c.depth = -1
		for _, k := range []string{"inv", "invariant"} {
			// invN: loops with N loops around them only
			if d := strings.TrimPrefix(c.kind, k); len(d) == 1 && d[0] >= '0' && d[0] <= '9' {
				c.kind, c.depth = k, int(d[0]-'0')
			}
		}
		switch c.kind {
		case "props":
			f.props = append(f.props, l.names()...)
			continue
		case "pure", "trusted", "inline", "allocs", "nosafety", "notrace", "bounded", "nonnil", "cutloops", "terminates":
			f.flags[c.kind] = true
			continue
		case "requires", "ensures", "emits", "assume", "hint":
			// label
			save := l.pos
			if l.peek().kind == "id" {
				n := l.dottedIdent()
				if l.is("using") {
					c.uses = l.usings()
					l.expect(":")
					c.label = n
				} else if l.accept(":") {
					c.label = n
				} else {
					l.pos = save
				}
			}
			if c.kind == "hint" && l.is("(") && strings.HasPrefix(l.peekN(1).s, "?") {
				l.next()
				c.binds = l.binds()
				l.expect(")")
				l.expect(":")
			}
			c.e = l.expr()
		case "inv", "invariant", "decreases":
			save := l.pos
			if l.peek().kind == "id" {
				n := l.dottedIdent()
				typed := l.peekN(2).kind == "id" || l.peekN(2).s == "[" || l.peekN(2).s == "*"
				if l.is(":") || l.is("using") || l.is("(") && strings.HasPrefix(l.peekN(1).s, "?") && typed {
					c.label = n
					c.uses = l.usings()
					l.accept(":")
				} else {
					l.pos = save
				}
			}
			if l.is("(") && strings.HasPrefix(l.peekN(1).s, "?") && l.peekN(2).s != ")" && (l.peekN(2).kind == "id" || l.peekN(2).s == "[" || l.peekN(2).s == "*") {
				l.next()
				c.binds = l.binds()
				l.expect(")")
				l.expect(":")
			}
			c.e = l.expr()
		case "updates":
			c.name = l.dottedIdent()
			l.expect("=")
			c.e = l.expr()
		case "modifies":
			c.names = l.names()
		case "callback":
			n := l.ident()
			cb := &FuncSpec{kind: "callback", key: f.key + "#" + n, pkg: f.pkg, flags: map[string]bool{}, cbs: map[string]*FuncSpec{}, file: f.file, line: c.line}
			cb.parseSig(l)
			cb.parseBody(l, db)
			f.cbs[n] = cb
			continue
		default:
			l.fail("unknown clause %q", c.kind)
		}
		by := strings.HasPrefix(c.label, "by.")
		c.label = strings.TrimPrefix(c.label, "by.")
		for {
			i := strings.IndexByte(c.label, '.')
			if i <= 1 || c.label[0] != 'C' || !unicode.IsDigit(rune(c.label[1])) {
				break
			}
			c.props = append(c.props, c.label[:i])
			c.label = c.label[i+1:]
		}
		if by {
			c.by, c.props = c.props, nil
		}
		f.cls = append(f.cls, c)
	}
}

func (db *SpecDB) mentionsTrace(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.op == "id" && e.s == "trace" {
		return true
	}
	if e.op == "call" {
		if d, ok := db.defines[e.s]; ok && db.mentionsTrace(d.body) {
			return true
		}
	}
	for _, a := range e.args {
		if db.mentionsTrace(a) {
			return true
		}
	}
	for _, m := range e.cases {
		if db.mentionsTrace(m.body) {
			return true
		}
	}
	return false
}

// dup refuses a second meaning of a name.
func (db *SpecDB) dup(l *lexer, n string) {
	_, a := db.ufuns[n]
	_, b := db.defines[n]
	_, c := db.folds[n]
	if a || b || c {
		l.fail("%s is already defined", n)
	}
}
