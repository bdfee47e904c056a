package xpdf_test

import (
	"bytes"
	"errors"
	"fmt"
	"image/color"
	"io"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

// event is one operation on the recording engine.
type event struct {
	op         string
	x, y, w, h float64
	f          float64
	s          string
	font       style.Font
	color      style.RGB
	path       []seg
	page       int
	in         string // header, footer or ""
}

type seg struct{ x0, y0, x1, y1 float64 }

func (e event) String() string {
	return fmt.Sprintf("%s[%s p%d] x=%.3f y=%.3f w=%.3f h=%.3f f=%.3f %q %v %v %v", e.op, e.in, e.page, e.x, e.y, e.w, e.h, e.f, e.s, e.font.Family, e.color, e.path)
}

// recEngine records what the processor asks for and keeps the state an engine
// has: cursor, font, colours and the path being built.
type recEngine struct {
	ev               []event
	x, y             float64
	font             style.Font
	text, draw, fill style.RGB
	lw               float64
	px, py           float64
	path             []seg
	pages            int
	pw, ph           float64
	l, t, r, b       float64
	slack            float64
	header, footer   func()
	in               string
	nest             int
	err              error
	errAt            string // operation that fails
	errN             int
	writeErr         error
	writes           int
	widths           map[rune]float64
	alias            string
	kern             bool
	unlimited        bool
}

func newRec(r *rand.Rand) *recEngine {
	e := &recEngine{pw: 100 + float64(r.Intn(200)), ph: 100 + float64(r.Intn(200))}
	e.l, e.t, e.r, e.b = float64(r.Intn(25)), float64(r.Intn(25)), float64(r.Intn(25)), float64(r.Intn(25))
	e.slack = float64(r.Intn(3))
	e.kern = r.Intn(4) == 0
	return e
}

func (e *recEngine) add(ev event) {
	ev.page, ev.in = e.pages, e.in
	e.ev = append(e.ev, ev)
	if len(e.ev) > 200000 {
		panic(verifFail{"the engine is driven endlessly"})
	}
	if e.errAt != "" && ev.op == e.errAt {
		e.errN--
		if e.errN == 0 && e.err == nil {
			e.err = errors.New("engine failure")
		}
	}
}

func (e *recEngine) Error() error { return e.err }
func (e *recEngine) WritePDF(w io.Writer) error {
	e.writes++
	s := "dirty"
	if e.err == nil {
		s = "clean"
	}
	e.add(event{op: "write", s: s})
	if e.err != nil {
		return e.err
	}
	if e.writeErr != nil {
		return e.writeErr
	}
	_, err := w.Write([]byte("%PDF"))
	return err
}
func (e *recEngine) SetPageCountAlias(alias string) { e.alias = alias }
func (e *recEngine) CurrentPage() int               { return e.pages }
func (e *recEngine) OnHeader(f func())              { e.header = f; e.add(event{op: "onheader"}) }
func (e *recEngine) OnFooter(f func())              { e.footer = f; e.add(event{op: "onfooter"}) }
func (e *recEngine) AddPage() {
	e.add(event{op: "addpage", x: e.x, y: e.y})
	e.nest++
	if e.nest > 4 {
		panic(verifFail{"page breaks nest endlessly"})
	}
	defer func() { e.nest-- }()
	if e.pages > 0 && e.footer != nil {
		e.call("footer", e.footer)
	}
	e.pages++
	e.x, e.y = e.l, e.t
	if e.header != nil {
		e.call("header", e.header)
	}
}

func (e *recEngine) call(in string, f func()) {
	old := e.in
	e.in = in
	x, y := e.x, e.y
	font, text, draw, fill, lw := e.font, e.text, e.draw, e.fill, e.lw
	e.add(event{op: "begin", s: in, x: x, y: y})
	f()
	// as gofpdf does around header and footer
	e.font, e.text, e.draw, e.fill, e.lw = font, text, draw, fill, lw
	e.add(event{op: "end", s: in, x: e.x, y: e.y})
	e.in = old
}

func (e *recEngine) SetX(x float64)                  { e.x = x; e.add(event{op: "setx", x: x, y: e.y}) }
func (e *recEngine) SetY(y float64)                  { e.y = y; e.add(event{op: "sety", x: e.x, y: y}) }
func (e *recEngine) GetXY() (float64, float64)       { return e.x, e.y }
func (e *recEngine) PageWidth() float64              { return e.pw }
func (e *recEngine) PageHeight() float64             { return e.ph }
func (e *recEngine) MonoFont() string                { return "mono" }
func (e *recEngine) FontHeight() float64             { return fontHeight(e.font) }
func (e *recEngine) SetTextColor(r, g, b int)        { e.text = style.RGB{R: r, G: g, B: b} }
func (e *recEngine) SetLineWidth(w float64)          { e.lw = w }
func (e *recEngine) SetDrawColor(r, g, b int)        { e.draw = style.RGB{R: r, G: g, B: b} }
func (e *recEngine) SetFillColor(r, g, b int)        { e.fill = style.RGB{R: r, G: g, B: b} }
func (e *recEngine) MoveTo(x, y float64)             { e.px, e.py = x, y }
func (e *recEngine) TextWidth(s string) float64      { return e.width(e.font, s) }
func (e *recEngine) Margins() (l, t, r, b float64)   { return e.l, e.t, e.r, e.b }
func (e *recEngine) PrintableArea() (x0, y0, x1, y1 float64) {
	return e.l, e.t, e.pw - e.r - e.slack, e.ph - e.b
}
func (e *recEngine) LineFeed(lines float64) {
	e.add(event{op: "feed", f: lines, x: e.x, y: e.y, font: e.font})
	e.y += lines * fontHeight(e.font)
	e.x = e.l
}
func (e *recEngine) ChangeFont(f style.Font) {
	e.font = f
	e.add(event{op: "font", font: f})
}
func (e *recEngine) PutImage(src string, x, y, w, h float64) {
	e.add(event{op: "image", s: src, x: x, y: y, w: w, h: h})
}
func (e *recEngine) WriteText(s string) {
	w := e.width(e.font, s)
	e.add(event{op: "text", s: s, x: e.x, y: e.y, w: w, font: e.font, color: e.text})
	e.x += w
}
func (e *recEngine) FillRect(x, y, w, h float64) {
	e.add(event{op: "rect", x: x, y: y, w: w, h: h, color: e.fill})
}
func (e *recEngine) LineTo(x, y float64) {
	e.path = append(e.path, seg{e.px, e.py, x, y})
	e.px, e.py = x, y
}
func (e *recEngine) DrawPath() {
	e.add(event{op: "stroke", color: e.draw, f: e.lw, path: e.path})
	e.path = nil
}

func fontHeight(f style.Font) float64 { return f.PointSize * 25.4 / 72 }

// width of a text: per character, depending on family, size and weight
func (e *recEngine) width(f style.Font, s string) float64 {
	w := 0.0
	k := f.PointSize / 12
	if f.Weight == style.FontWeightBold {
		k *= 1.25
	}
	if f.Family == "Mono" {
		return k * 2 * float64(len([]rune(s)))
	}
	var prev rune
	for _, c := range s {
		w += k * (1 + float64(int(c)*7%13)/8)
		if e.kern && prev != 0 && prev != ' ' && c != ' ' && int(prev+c)%3 == 0 {
			w -= 0.125 * k
		}
		prev = c
	}
	return w
}

func (e *recEngine) dump() string {
	var b strings.Builder
	for i, ev := range e.ev {
		if i > 400 {
			b.WriteString("...\n")
			break
		}
		b.WriteString(ev.String() + "\n")
	}
	return b.String()
}

// ---- documents ----

type decl struct{ k, v string }

type class struct {
	name  string
	sel   string
	decls []decl
}

func sheet(cs []class) string {
	var b strings.Builder
	for _, c := range cs {
		n := c.name
		if c.sel != "" {
			n += ":" + c.sel
		}
		fmt.Fprintf(&b, "%s { %s }\n", n, declStr(c.decls))
	}
	return b.String()
}

func declStr(ds []decl) string {
	var b strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&b, "%s:%s; ", d.k, d.v)
	}
	return b.String()
}

func mutator(ds []decl) *style.Mutator {
	m, err := style.DecodeMutator(strings.NewReader(declStr(ds)))
	if err != nil {
		panic(fmt.Sprintf("decode %v: %v", ds, err))
	}
	return m
}

func styledWith(classes []string, ds []decl) xdoc.Styled {
	s := xdoc.Styled{Classes: classes}
	if len(ds) > 0 {
		s.Mutators = []*style.Mutator{mutator(ds)}
	}
	return s
}

func newDoc(cs []class) *xdoc.Document {
	x := "<document><style>" + sheet(cs) + "</style><body></body></document>"
	d, err := xdoc.Load(strings.NewReader(x))
	if err != nil {
		panic(fmt.Sprintf("load %s: %v", x, err))
	}
	return d
}

// apply is what a declaration means.
func apply(sty *style.Styles, d decl) {
	f := func() float64 {
		x, err := strconv.ParseFloat(d.v, 64)
		if err != nil {
			panic(err)
		}
		return x
	}
	fs := func() [4]float64 {
		var o [4]float64
		for i, p := range strings.Split(d.v, ",") {
			x, err := strconv.ParseFloat(p, 64)
			if err != nil {
				panic(err)
			}
			o[i] = x
		}
		return o
	}
	rgb := func() style.RGB {
		n, err := strconv.ParseUint(strings.TrimPrefix(d.v, "#"), 16, 32)
		if err != nil {
			panic(err)
		}
		return style.RGB{R: int(n >> 16), G: int(n >> 8 & 255), B: int(n & 255)}
	}
	switch d.k {
	case "font-family":
		sty.Font.Family = d.v
	case "font-point-size":
		sty.Font.PointSize = f()
	case "font-style":
		sty.Font.Style = style.FontStyle(d.v)
	case "font-weight":
		sty.Font.Weight = style.FontWeight(d.v)
	case "font-decoration":
		sty.Font.Decoration = style.FontDecoration(d.v)
	case "border":
		b := fs()
		sty.Box.Border = style.Border{Left: int(b[0]), Top: int(b[1]), Right: int(b[2]), Bottom: int(b[3])}
	case "padding":
		b := fs()
		sty.Box.Padding = style.Padding{Left: b[0], Top: b[1], Right: b[2], Bottom: b[3]}
	case "margin":
		b := fs()
		sty.Box.Margin = style.Margin{Left: b[0], Top: b[1], Right: b[2], Bottom: b[3]}
	case "width":
		sty.Dimension.Width = f()
	case "height":
		sty.Dimension.Height = f()
	case "line-spacing":
		sty.Dimension.LineSpacing = f()
	case "offset-x":
		sty.Dimension.OffsetX = f()
	case "offset-y":
		sty.Dimension.OffsetY = f()
	case "column-width":
		sty.Table.ColumnWidth = f()
	case "h-align":
		sty.Align.HAlign = style.HAlign(d.v)
	case "v-align":
		sty.Align.VAlign = style.VAlign(d.v)
	case "color":
		sty.Color.Foreground = rgb()
	case "text-color":
		sty.Color.Text = rgb()
	case "background-color":
		sty.Color.Background = rgb()
	case "line-width":
		sty.Draw.LineWidth = f()
	}
}

func cascade(sty style.Styles, cs []class, sel string, classes []string, ds []decl) style.Styles {
	for _, n := range classes {
		var base, selc *class
		for i := range cs {
			if cs[i].name == n {
				if cs[i].sel == "" {
					base, selc = &cs[i], nil
				} else if cs[i].sel == sel {
					selc = &cs[i]
				}
			}
		}
		use := base
		if sel != "" && selc != nil {
			use = selc
		}
		if use != nil {
			for _, d := range use.decls {
				apply(&sty, d)
			}
		}
	}
	for _, d := range ds {
		apply(&sty, d)
	}
	return sty
}

// ---- random parts ----

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func randDecl(r *rand.Rand, keys ...string) decl {
	k := keys[r.Intn(len(keys))]
	return decl{k, randVal(r, k)}
}

func randVal(r *rand.Rand, k string) string {
	num := func(n int) string { return strconv.FormatFloat(float64(r.Intn(n*4))/4, 'f', -1, 64) }
	switch k {
	case "font-family":
		return pick(r, "Arial", "Mono", "Times")
	case "font-point-size":
		return pick(r, "6", "8", "10.5", "12", "14", "20")
	case "font-style":
		return pick(r, "normal", "italic")
	case "font-weight":
		return pick(r, "normal", "bold")
	case "font-decoration":
		return pick(r, "normal", "underline")
	case "border":
		return fmt.Sprintf("%d,%d,%d,%d", r.Intn(2), r.Intn(2), r.Intn(2), r.Intn(2))
	case "padding", "margin":
		return num(5) + "," + num(5) + "," + num(5) + "," + num(5)
	case "width":
		return pick(r, num(60), num(200), "-1")
	case "height":
		return pick(r, num(40), num(90), "-1")
	case "line-spacing":
		return pick(r, "1", "1.25", "1.5", "2")
	case "offset-x", "offset-y":
		return num(15)
	case "column-width":
		return pick(r, num(40), "-1", "0")
	case "h-align":
		return pick(r, "left", "right", "center", "block")
	case "v-align":
		return pick(r, "top", "middle", "bottom")
	case "line-width":
		return pick(r, "0", "0.5", "1", "2")
	}
	return fmt.Sprintf("#%06x", r.Intn(1<<24))
}

var allKeys = []string{"font-family", "font-point-size", "font-style", "font-weight", "font-decoration", "border", "padding", "margin",
	"width", "height", "line-spacing", "offset-x", "offset-y", "column-width", "h-align", "v-align", "color", "text-color", "background-color", "line-width"}

func randDecls(r *rand.Rand, max int, keys ...string) []decl {
	var ds []decl
	seen := map[string]bool{}
	for n := r.Intn(max + 1); n > 0; n-- {
		d := randDecl(r, keys...)
		if !seen[d.k] {
			seen[d.k] = true
			ds = append(ds, d)
		}
	}
	return ds
}

func randClasses(r *rand.Rand, keys ...string) []class {
	var cs []class
	for i, n := 0, r.Intn(4); i < n; i++ {
		name := string(rune('a' + i))
		cs = append(cs, class{name: name, decls: randDecls(r, 4, keys...)})
		for _, sel := range []string{"first-row", "last-row", "first-cell", "last-cell"} {
			if r.Intn(3) == 0 {
				cs = append(cs, class{name: name, sel: sel, decls: randDecls(r, 3, keys...)})
			}
		}
	}
	return cs
}

func randUse(r *rand.Rand) []string {
	var u []string
	for n := r.Intn(3); n > 0; n-- {
		u = append(u, pick(r, "a", "b", "c", "d"))
	}
	return u
}

func hyph(patterns string) *hyphenation.Hyphenator {
	h, err := hyphenation.Load(strings.NewReader(patterns))
	if err != nil {
		panic(err)
	}
	return h
}

func run(e *recEngine, doc *xdoc.Document, patterns, dir string) (string, error) {
	var w bytes.Buffer
	p := xpdf.NewProcessor(e, hyph(patterns), doc, dir)
	err := p.Process(&w)
	return w.String(), err
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b)) }

func (e *recEngine) of(ops ...string) []event {
	var o []event
	for _, ev := range e.ev {
		for _, op := range ops {
			if ev.op == op {
				o = append(o, ev)
			}
		}
	}
	return o
}

func nil2pal() color.Palette { return color.Palette{color.Black, color.White} }
