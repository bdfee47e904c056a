package xpdf_test

// A reference renderer: what a document means, carried out on a second
// recording engine. Used to judge drawn cases only (bounded).

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"image"
	"image/png"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

// node is an instruction with its declarations still readable.
type node struct {
	kind string // font lf setx sety box text table image grid newpage br p txt tr td
	use  []string
	ds   []decl
	kids []node
	text string
	num  float64
	cs   int
	rs   int
	hdr  int
}

func (n node) inst() xdoc.Instruction {
	st := styledWith(n.use, n.ds)
	switch n.kind {
	case "font":
		return &xdoc.Font{Styled: st}
	case "lf":
		return &xdoc.LineFeed{Lines: n.num}
	case "setx":
		return &xdoc.SetX{X: n.num}
	case "sety":
		return &xdoc.SetY{Y: n.num}
	case "box":
		return &xdoc.Box{Styled: st, Instructions: xdoc.Instructions{ISS: insts(n.kids)}}
	case "text":
		return &xdoc.Text{Styled: st, Instructions: xdoc.Instructions{ISS: insts(n.kids)}}
	case "image":
		return &xdoc.Image{Styled: st, Source: n.text}
	case "newpage":
		return &xdoc.PageBreak{}
	case "br":
		return &xdoc.LineBreak{}
	case "p":
		return &xdoc.Paragraph{Styled: st, Text: n.text}
	case "txt":
		return &xdoc.TextBlock{Text: n.text}
	case "grid":
		g := &xdoc.Grid{Styled: st}
		for i := 0; i < int(n.num); i++ {
			g.Rows = append(g.Rows, &xdoc.GridRow{Areas: []string{"a", "b"}})
		}
		return g
	case "table":
		t := &xdoc.Table{Styled: st, RepeatHeader: n.hdr}
		for _, k := range n.kids {
			row := &xdoc.TableRow{Styled: styledWith(k.use, k.ds)}
			for _, c := range k.kids {
				row.Cells = append(row.Cells, &xdoc.TableCell{Styled: styledWith(c.use, c.ds), ColSpan: c.cs, RowSpan: c.rs, Instructions: xdoc.Instructions{ISS: insts(c.kids)}})
			}
			t.Rows = append(t.Rows, row)
		}
		return t
	}
	panic("kind " + n.kind)
}

func insts(ns []node) []xdoc.Instruction {
	var is []xdoc.Instruction
	for _, n := range ns {
		is = append(is, n.inst())
	}
	return is
}

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func (n node) xml() string {
	if n.kind == "txt" {
		return esc(n.text)
	}
	a := ""
	if len(n.use) > 0 {
		a += fmt.Sprintf(" class=%q", strings.Join(n.use, " "))
	}
	if len(n.ds) > 0 {
		a += fmt.Sprintf(" style=%q", declStr(n.ds))
	}
	if n.cs != 0 {
		a += fmt.Sprintf(" colspan=\"%d\"", n.cs)
	}
	if n.rs != 0 {
		a += fmt.Sprintf(" rowspan=\"%d\"", n.rs)
	}
	if n.hdr != 0 {
		a += fmt.Sprintf(" repeatheader=\"%d\"", n.hdr)
	}
	switch n.kind {
	case "lf":
		a += fmt.Sprintf(" lines=\"%g\"", n.num)
	case "setx":
		a += fmt.Sprintf(" x=\"%g\"", n.num)
	case "sety":
		a += fmt.Sprintf(" y=\"%g\"", n.num)
	}
	if n.kind == "grid" {
		return "<grid" + a + ">" + strings.Repeat("<gr>a b</gr>", int(n.num)) + "</grid>"
	}
	return "<" + n.kind + a + ">" + esc(n.text) + xmls(n.kids) + "</" + n.kind + ">"
}

func xmls(ns []node) string {
	s := ""
	for _, n := range ns {
		s += n.xml()
	}
	return s
}

// ref carries out a document.
type ref struct {
	e       *recEngine
	cs      []class
	inh     style.Styles
	h       *hyphenation.Hyphenator
	dir     string
	nobreak bool
	imgs    map[string][2]int
}

func (f *ref) sty(n node) style.Styles { return cascade(f.inh, f.cs, "", n.use, n.ds) }

func (f *ref) restore() {
	f.e.ChangeFont(f.inh.Font)
	f.e.text = f.inh.Text
}

type rdoc struct {
	cs                   []class
	header, footer, body []node
}

func (f *ref) doc(d rdoc) {
	part := func(ns []node) func() {
		return func() {
			x, y := f.e.GetXY()
			inh := f.inh
			f.nobreak = true
			f.nodes(ns)
			f.nobreak = false
			f.inh = inh
			f.e.x, f.e.y = x, y
		}
	}
	f.e.header, f.e.footer = part(d.header), part(d.footer)
	f.e.ChangeFont(f.inh.Font)
	f.e.AddPage()
	f.nodes(d.body)
}

func (f *ref) nodes(ns []node) {
	x0, y0, x1, y1 := f.e.PrintableArea()
	for _, n := range ns {
		switch n.kind {
		case "font":
			f.inh.Font = f.sty(n).Font
			f.e.ChangeFont(f.inh.Font)
		case "lf":
			f.e.LineFeed(n.num)
		case "setx":
			f.e.SetX(n.num)
		case "sety":
			f.e.SetY(n.num)
		case "newpage":
			if !f.nobreak {
				f.e.AddPage()
			}
		case "text":
			if len(n.kids) > 0 {
				s := f.sty(n)
				f.write(n.kids, eff(x1-x0, s.Width), s)
				f.restore()
			}
		case "box":
			f.box(n, x0, x1)
		case "image":
			f.image(n, x0, y0, x1, y1)
		case "table":
			f.table(n, x0, x1, y1)
		}
	}
}

func eff(have, want float64) float64 {
	if want < 0 || want > have {
		return have
	}
	return want
}

type rword struct {
	s   string
	sty style.Styles
}
type rline struct {
	ws  []rword
	par bool
	w   float64 // as accumulated
}

func fold(s string) string {
	s = strings.NewReplacer("\r", " ", "\n", " ", "\t", " ").Replace(s)
	s = strings.Join(strings.FieldsFunc(s, func(c rune) bool { return c == ' ' }), " ")
	s = strings.ReplaceAll(s, " \\", "\\")
	return strings.ReplaceAll(s, "\\ ", "\\")
}

// words of the text, nil for an explicit break
func (f *ref) words(kids []node, sty style.Styles) []*rword {
	var o []*rword
	for _, k := range kids {
		s := sty
		switch k.kind {
		case "br":
			o = append(o, nil)
			continue
		case "p":
			s = cascade(sty, f.cs, "", k.use, k.ds)
		case "txt":
		default:
			continue
		}
		t := fold(strings.ReplaceAll(k.text, "{cp}", fmt.Sprint(f.e.pages)))
		if t == "" {
			continue
		}
		for _, w := range strings.Split(t, " ") {
			o = append(o, &rword{w, s})
		}
	}
	return o
}

func (f *ref) lines(kids []node, width float64, sty style.Styles) []rline {
	var out []rline
	var cur rline
	block := sty.HAlign == style.HAlignBlock
	for _, w := range f.words(kids, sty) {
		if w == nil {
			cur.par = true
			out = append(out, cur)
			cur = rline{}
			continue
		}
		f.e.ChangeFont(w.sty.Font)
		tw := func(s string) float64 { return f.e.width(w.sty.Font, s) }
		iw := tw(" " + w.s)
		if !block {
			if len(cur.ws) > 0 && cur.w+iw >= width {
				out = append(out, cur)
				cur = rline{}
			}
			cur.ws = append(cur.ws, *w)
			cur.w += iw
			continue
		}
		if cur.w+iw >= width {
			parts := f.h.Hyphenate(w.s)
			k := len(parts) - 1
			for ; k > 0; k-- {
				if tw(" "+strings.Join(parts[:k], "")+"-") <= width-cur.w {
					break
				}
			}
			if k > 0 {
				cur.ws = append(cur.ws, rword{strings.Join(parts[:k], "") + "-", w.sty})
				out = append(out, cur)
				cur = rline{}
				t := strings.Join(parts[k:], "")
				cur.ws = append(cur.ws, rword{t, w.sty})
				cur.w = tw(t)
				continue
			}
			if len(cur.ws) > 0 {
				out = append(out, cur)
				cur = rline{}
			}
		}
		cur.ws = append(cur.ws, *w)
		cur.w += iw
	}
	if len(cur.ws) > 0 {
		cur.par = true
		out = append(out, cur)
	}
	return out
}

func (f *ref) height(kids []node, width float64, sty style.Styles) float64 {
	f.e.ChangeFont(sty.Font)
	n := len(f.lines(kids, width, sty))
	if n == 0 {
		return 0
	}
	return float64(n-1)*sty.LineSpacing*f.e.FontHeight() + f.e.FontHeight()
}

func (f *ref) write(kids []node, width float64, sty style.Styles) {
	f.e.ChangeFont(sty.Font)
	ls := f.lines(kids, width, sty)
	x0 := f.e.x
	for _, l := range ls {
		x := x0
		gap := -1.0
		switch sty.HAlign {
		case style.HAlignCenter:
			x = x0 + (width-l.w)/2
		case style.HAlignRight:
			x = x0 + width - l.w
		case style.HAlignBlock:
			if !l.par && len(l.ws) > 1 {
				sum := 0.0
				for _, w := range l.ws {
					sum += f.e.width(w.sty.Font, w.s)
				}
				gap = (width - 0.1 - sum) / float64(len(l.ws)-1)
			}
		}
		if sty.HAlign == "" || sty.HAlign != style.HAlignLeft && sty.HAlign != style.HAlignCenter && sty.HAlign != style.HAlignRight && sty.HAlign != style.HAlignBlock {
			x = f.e.x
		}
		f.e.x = x
		for i, w := range l.ws {
			f.e.ChangeFont(w.sty.Font)
			f.e.text = w.sty.Text
			if i > 0 && gap < 0 {
				f.e.WriteText(" " + w.s)
			} else {
				f.e.WriteText(w.s)
			}
			if gap >= 0 {
				f.e.x += gap
			}
		}
		f.e.LineFeed(sty.LineSpacing)
	}
}

func (f *ref) boxHeight(n node, w float64, sty style.Styles) float64 {
	switch {
	case sty.Height > 0:
		return sty.Height
	case len(n.kids) > 0:
		return f.height(n.kids, w, sty)
	}
	return f.e.FontHeight()
}

func (f *ref) box(n node, ax0, ax1 float64) {
	s := f.sty(n)
	w := eff(ax1-ax0, s.Width)
	in := w - s.Padding.Left - s.Padding.Right
	h := f.boxHeight(n, in, s) + s.Padding.Top + s.Padding.Bottom
	if !f.nobreak && f.e.y+s.OffsetY+h >= f.e.ph-f.e.b {
		f.e.AddPage()
	}
	x, y := f.e.x+s.OffsetX, f.e.y+s.OffsetY
	f.draw(x, y, x+w, y+h, s)
	f.e.x, f.e.y = x+s.Padding.Left, y+s.Padding.Top
	if len(n.kids) > 0 {
		f.write(n.kids, in, s)
	}
	f.e.SetY(y + h)
	f.restore()
}

func (f *ref) draw(x0, y0, x1, y1 float64, s style.Styles) {
	d := s.Draw.LineWidth
	f.e.fill = s.Color.Background
	f.e.FillRect(x0+d/2, y0+d/2, x1-x0-d, y1-y0-d)
}

func (f *ref) image(n node, x0, y0, x1, y1 float64) {
	s := f.sty(n)
	file := n.text
	if !filepath.IsAbs(file) {
		file = filepath.Join(f.dir, file)
	}
	px, ok := f.imgs[file]
	if !ok {
		return
	}
	iw, ih := float64(px[0])*25.4/96, float64(px[1])*25.4/96
	w, h := iw, ih
	switch {
	case s.Width > 0 && s.Height > 0:
		w, h = s.Width, s.Height
	case s.Width > 0:
		w, h = s.Width, s.Width*ih/iw
	case s.Height > 0:
		w, h = s.Height*iw/ih, s.Height
	}
	fw, fh := x1-x0-s.OffsetX, y1-y0-s.OffsetY
	if w > fw {
		w, h = fw, h*fw/w
	}
	if h > fh {
		w, h = w*fh/h, fh
	}
	f.e.PutImage(file, f.e.x+s.OffsetX, f.e.y+s.OffsetY, w, h)
}

// ---- tables ----

type rcell struct {
	n      *node
	sty    style.Styles
	rs     int
	owner  *rcell // placeholder of this cell
	left   bool   // below the owner itself
	zero   bool
	cols   int // own columns
	below  []*rcell
	width  float64
	min, h float64
}

type rtable struct {
	rows []([]*rcell)
	hs   []float64
	cols int
}

func (f *ref) layout(n node, ax0, ax1 float64) *rtable {
	ts := f.sty(n)
	t := &rtable{}
	for ir := range n.kids {
		row := &n.kids[ir]
		sel := ""
		if ir == 0 {
			sel = "first-row"
		} else if ir == len(n.kids)-1 {
			sel = "last-row"
		}
		rs := cascade(ts, f.cs, sel, row.use, row.ds)
		var cells []*rcell
		for ic := range row.kids {
			c := &row.kids[ic]
			sel := ""
			if ic == 0 {
				sel = "first-cell"
			} else if ic == len(row.kids)-1 {
				sel = "last-cell"
			}
			rc := &rcell{n: c, sty: cascade(rs, f.cs, sel, c.use, c.ds), rs: c.rs, cols: 1}
			cells = append(cells, rc)
			for k := 1; k < c.cs; k++ {
				cells = append(cells, &rcell{owner: rc, rs: c.rs})
				rc.cols++
			}
		}
		t.rows = append(t.rows, cells)
	}
	for ir := 0; ir < len(t.rows); ir++ {
		for ic := 0; ic < len(t.rows[ir]); ic++ {
			c := t.rows[ir][ic]
			if c.zero || c.rs <= 1 {
				continue
			}
			if ir+1 == len(t.rows) {
				t.rows = append(t.rows, nil)
			}
			below := t.rows[ir+1]
			for len(below) < ic {
				below = append(below, &rcell{zero: true})
			}
			p := &rcell{owner: c, rs: c.rs - 1, left: c.owner == nil || c.left}
			if c.owner != nil {
				p.owner = c.owner
			}
			if p.left {
				p.owner.below = append(p.owner.below, p)
			}
			at := ic // a cell and its columns move aside as a whole
			for at < len(below) && below[at].owner != nil {
				at--
			}
			nb := append([]*rcell{}, below[:at]...)
			for len(nb) < ic {
				nb = append(nb, &rcell{zero: true})
			}
			nb = append(nb, p)
			t.rows[ir+1] = append(nb, below[at:]...)
		}
	}
	for _, r := range t.rows {
		if len(r) > t.cols {
			t.cols = len(r)
		}
	}
	for i := range t.rows {
		for len(t.rows[i]) < t.cols {
			t.rows[i] = append(t.rows[i], &rcell{zero: true})
		}
	}
	width := eff(ax1-ax0, ts.Width)
	ws := make([]float64, t.cols)
	used, auto := 0.0, 0
	for i := range ws {
		for _, r := range t.rows {
			if r[i].sty.ColumnWidth > ws[i] {
				ws[i] = r[i].sty.ColumnWidth
			}
		}
		used += ws[i]
		if ws[i] == 0 {
			auto++
		}
	}
	for i := range ws {
		if ws[i] == 0 {
			ws[i] = (width - used) / float64(auto)
		}
	}
	for _, r := range t.rows {
		for i, c := range r {
			c.width = ws[i]
		}
	}
	for _, r := range t.rows {
		for i, c := range r {
			if c.n == nil {
				continue
			}
			if c.sty.Height > 0 {
				c.min = c.sty.Height
				continue
			}
			w := 0.0
			for k := 0; k < c.cols; k++ {
				w += ws[i+k]
			}
			h := f.height(c.n.kids, w-c.sty.Padding.Left-c.sty.Padding.Right, c.sty) + c.sty.Padding.Top + c.sty.Padding.Bottom
			c.min = h / float64(1+len(c.below))
			for _, b := range c.below {
				b.min = c.min
			}
		}
	}
	for _, r := range t.rows {
		h := 0.0
		for _, c := range r {
			if c.min > h {
				h = c.min
			}
		}
		t.hs = append(t.hs, h)
		for _, c := range r {
			c.h = h
		}
	}
	return t
}

func (c *rcell) height() float64 {
	h := c.h
	for _, b := range c.below {
		h += b.h
	}
	return h
}

func (f *ref) table(n node, ax0, ax1, ay1 float64) {
	defer f.restore()
	t := f.layout(n, ax0, ax1)
	if t.cols == 0 {
		return
	}
	x0, y := f.e.GetXY()
	tall := func(i int) float64 {
		m := 0.0
		for _, c := range t.rows[i] {
			if h := c.height(); h > m {
				m = h
			}
		}
		return m
	}
	row := func(i int) {
		x := x0
		for k, c := range t.rows[i] {
			if c.n != nil {
				w := 0.0
				for j := 0; j < c.cols; j++ {
					w += t.rows[i][k+j].width
				}
				f.cell(c, x, y, x+w, y+c.height())
			}
			x += c.width
		}
		y += t.hs[i]
		f.e.x = x0
	}
	if !f.nobreak {
		need := 0.0
		for i := 0; i <= n.hdr && i < len(t.rows); i++ {
			need += tall(i)
		}
		if y+need > ay1 {
			f.e.AddPage()
			y = f.e.y
		}
	}
	for i := range t.rows {
		if !f.nobreak && y+tall(i) > ay1 {
			f.e.AddPage()
			y = f.e.y
			if i > 0 {
				for k := 0; k < n.hdr && k < len(t.rows); k++ {
					row(k)
				}
			}
		}
		row(i)
	}
	f.e.SetY(y)
}

func (f *ref) cell(c *rcell, x0, y0, x1, y1 float64) {
	s := c.sty
	f.draw(x0, y0, x1, y1, s)
	px0, py0, px1, py1 := x0+s.Padding.Left, y0+s.Padding.Top, x1-s.Padding.Right, y1-s.Padding.Bottom
	if len(c.n.kids) == 0 {
		f.e.x = px0
		return
	}
	free := py1 - py0 - f.height(c.n.kids, px1-px0, s)
	f.e.x, f.e.y = px0, py0
	switch s.VAlign {
	case style.VAlignMiddle:
		f.e.y += free / 2
	case style.VAlignBottom:
		f.e.y += free
	}
	f.write(c.n.kids, px1-px0, s)
	f.e.x = px0
	for _, k := range c.n.kids {
		switch k.kind {
		case "image":
			f.e.y = py0
			f.image(k, px0, py0, px1, py1)
		}
	}
}

// ---- comparison ----

// inkWords is what shows on paper, in order, word by word.
func inkWords(e *recEngine) []event {
	var o []event
	for _, ev := range e.ev {
		switch ev.op {
		case "text":
			pre := ""
			for i, w := range strings.Split(ev.s, " ") {
				if i > 0 {
					pre += " "
				}
				if w != "" {
					x := ev
					x.s, x.x, x.w = w, ev.x+e.width(ev.font, pre), e.width(ev.font, w)
					o = append(o, x)
				}
				pre += w
			}
		case "rect", "image":
			o = append(o, ev)
		}
	}
	return o
}

func describeEvents(es []event, at int) string {
	var b strings.Builder
	for i := at - 3; i < at+3 && i < len(es); i++ {
		if i >= 0 {
			fmt.Fprintf(&b, "\n   %d: %v", i, es[i])
		}
	}
	return b.String()
}

// compare judges the operations of the real code by the reference's: what is
// written, filled and placed must agree in order, as far as sel selects it.
func compare(v *verifRun, got, want *recEngine, sel ...func(es []event) []event) {
	if got.pages != want.pages {
		v.failf("%d pages, want %d", got.pages, want.pages)
	}
	compareInk(v, got, want, sel...)
}

func compareInk(v *verifRun, got, want *recEngine, sel ...func(es []event) []event) {
	g, w := inkWords(got), inkWords(want)
	for _, f := range sel {
		g, w = f(g), f(w)
	}
	for i := 0; i < len(g) || i < len(w); i++ {
		if i >= len(g) || i >= len(w) || !sameInk(g[i], w[i]) {
			v.failf("operation %d differs: got%s\nwant%s", i, describeEvents(g, i), describeEvents(w, i))
		}
	}
}

// inBody selects what is not part of a header or footer.
func inBody(es []event) []event {
	var o []event
	for _, e := range es {
		if e.in == "" {
			o = append(o, e)
		}
	}
	return o
}

// heads selects everything but keeps only the first word after anything else.
func heads(es []event) []event {
	var o []event
	for i, e := range es {
		if e.op != "text" || i == 0 || es[i-1].op != "text" {
			o = append(o, e)
		}
	}
	return o
}

func sameInk(a, b event) bool {
	if a.op != b.op || a.page != b.page || a.in != b.in || !near(a.x, b.x) || !near(a.y, b.y) {
		return false
	}
	switch a.op {
	case "text":
		return a.s == b.s && a.font == b.font && a.color == b.color
	case "rect":
		return near(a.w, b.w) && near(a.h, b.h) && a.color == b.color
	case "image":
		return near(a.w, b.w) && near(a.h, b.h) && a.s == b.s
	}
	return true
}

// both renders a document with the code and with the reference on equal engines.
func both(v *verifRun, r *rand.Rand, d rdoc, patterns, dir string, imgs map[string][2]int, viaXML bool, use ...*recEngine) (got, want *recEngine) {
	got = newRec(r)
	if len(use) > 0 {
		got = use[0]
	}
	g2 := *got
	want = &g2
	doc := newDoc(d.cs)
	doc.Header.ISS, doc.Footer.ISS, doc.Body.ISS = insts(d.header), insts(d.footer), insts(d.body)
	x := "<document><style>" + sheet(d.cs) + "</style><header>" + xmls(d.header) + "</header><footer>" + xmls(d.footer) + "</footer><body>" + xmls(d.body) + "</body></document>"
	verifDesc = fmt.Sprintf("page %gx%g margins %g,%g,%g,%g slack %g kern %v patterns %q: %s", got.pw, got.ph, got.l, got.t, got.r, got.b, got.slack, got.kern, patterns, x)
	if viaXML {
		var err error
		doc, err = xdoc.Load(strings.NewReader(x))
		if err != nil {
			v.failf("not decoded: %v", err)
		}
	}
	out, err := run(got, doc, patterns, dir)
	if err != nil {
		v.failf("error %v", err)
	}
	if out != "%PDF" {
		v.failf("written %q", out)
	}
	f := &ref{e: want, cs: d.cs, inh: xpdf.DefaultStyle(), h: hyph(patterns), dir: dir, imgs: imgs}
	f.doc(d)
	return
}

// ---- drawing documents ----

const abc = "abcdefghijklmnopqrstuvwxyz"

func randWord(r *rand.Rand) string {
	n := 1 + r.Intn(6)
	if r.Intn(6) == 0 {
		n += r.Intn(12)
	}
	if r.Intn(25) == 0 {
		n += r.Intn(40)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(40) {
		case 0:
			b.WriteRune([]rune("äöüßéñ漢ŞİǅΣ")[r.Intn(11)])
		case 1:
			b.WriteString("-")
		case 2:
			b.WriteString("\\")
		default:
			b.WriteByte(abc[r.Intn(len(abc))])
		}
	}
	if r.Intn(12) == 0 {
		b.WriteString("{cp}")
	}
	return b.String()
}

func randText(r *rand.Rand, max int) string {
	var b strings.Builder
	ws := func() string { return pick(r, " ", " ", " ", " ", "  ", "\n", "\t ", " \r\n ") }
	if r.Intn(3) == 0 {
		b.WriteString(ws())
	}
	for i, n := 0, r.Intn(max+1); i < n; i++ {
		if i > 0 {
			b.WriteString(ws())
		}
		b.WriteString(randWord(r))
	}
	if r.Intn(3) == 0 {
		b.WriteString(ws())
	}
	return b.String()
}

var fontKeys = []string{"font-family", "font-point-size", "font-style", "font-weight", "font-decoration"}
var parKeys = append([]string{"text-color", "h-align", "line-spacing", "width"}, fontKeys...)

func randFlow(r *rand.Rand, max int) []node {
	var o []node
	for n := r.Intn(max + 1); n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			o = append(o, node{kind: "br"})
		case 1, 2:
			o = append(o, node{kind: "p", use: randUse(r), ds: randDecls(r, 2, parKeys...), text: randText(r, 12)})
		default:
			if len(o) > 0 && o[len(o)-1].kind == "txt" {
				o = append(o, node{kind: "br"})
				continue
			}
			t := randText(r, 14)
			if t == "" { // XML has no empty text
				t = " "
			}
			o = append(o, node{kind: "txt", text: t})
		}
	}
	return o
}

func randPatterns(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(30); n > 0; n-- {
		if r.Intn(8) == 0 {
			b.WriteString(".")
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			if r.Intn(2) == 0 {
				fmt.Fprint(&b, r.Intn(4))
			}
			if r.Intn(20) == 0 {
				b.WriteRune([]rune("äöüßé")[r.Intn(5)])
			} else {
				b.WriteByte(abc[r.Intn(len(abc))])
			}
		}
		if r.Intn(3) == 0 {
			fmt.Fprint(&b, r.Intn(4))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func randImages(dir string, r *rand.Rand) map[string][2]int {
	m := map[string][2]int{}
	for i := 0; i < 3; i++ {
		w, h := 1+r.Intn(200), 1+r.Intn(200)
		file := filepath.Join(dir, fmt.Sprintf("i%dx%d.png", w, h))
		if _, err := os.Stat(file); err != nil {
			fh, err := os.Create(file)
			if err != nil {
				panic(err)
			}
			png.Encode(fh, image.NewPaletted(image.Rect(0, 0, w, h), nil2pal()))
			fh.Close()
		}
		m[file] = [2]int{w, h}
	}
	return m
}

func randImage(r *rand.Rand, imgs map[string][2]int) node {
	var names []string
	for n := range imgs {
		names = append(names, n)
	}
	sortStrings(names)
	n := node{kind: "image", ds: randDecls(r, 3, "width", "height", "offset-x", "offset-y"), use: nil}
	n.text = names[r.Intn(len(names))]
	if r.Intn(2) == 0 {
		n.text = filepath.Base(n.text)
	}
	if r.Intn(10) == 0 {
		n.text = "missing.png"
	}
	return n
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var cellKeys = []string{"font-point-size", "font-weight", "border", "padding", "height", "line-spacing", "column-width", "h-align", "v-align", "color", "text-color", "background-color", "line-width"}

func randTable(r *rand.Rand, spans bool) node {
	t := node{kind: "table", use: randUse(r), ds: randDecls(r, 3, append([]string{"width"}, cellKeys...)...)}
	if r.Intn(2) == 0 {
		t.hdr = r.Intn(4)
	}
	for i, n := 0, r.Intn(7); i < n; i++ {
		row := node{kind: "tr", use: randUse(r), ds: randDecls(r, 2, cellKeys...)}
		for k, m := 0, r.Intn(5); k < m; k++ {
			c := node{kind: "td", use: randUse(r), ds: randDecls(r, 3, cellKeys...), kids: randFlow(r, 2)}
			if spans && r.Intn(4) == 0 {
				c.cs = r.Intn(4)
			}
			if spans && r.Intn(4) == 0 {
				c.rs = r.Intn(4)
			}
			row.kids = append(row.kids, c)
		}
		t.kids = append(t.kids, row)
	}
	return t
}

func randBox(r *rand.Rand) node {
	return node{kind: "box", use: randUse(r), ds: randDecls(r, 5, append([]string{"h-align", "line-spacing", "font-point-size", "font-weight"}, boxKeys...)...), kids: randFlow(r, 4)}
}

// randBody draws instructions of the given kinds.
func randBody(r *rand.Rand, max int, imgs map[string][2]int, kinds ...string) []node {
	var o []node
	for n := r.Intn(max + 1); n > 0; n-- {
		switch k := pick(r, kinds...); k {
		case "font":
			o = append(o, node{kind: k, use: randUse(r), ds: randDecls(r, 3, append([]string{"text-color", "padding"}, fontKeys...)...)})
		case "lf":
			o = append(o, node{kind: k, num: float64(r.Intn(8)) / 2})
		case "setx", "sety":
			o = append(o, node{kind: k, num: float64(r.Intn(100))})
		case "newpage", "br":
			o = append(o, node{kind: k})
		case "grid":
			o = append(o, node{kind: k, num: float64(1 + r.Intn(3))})
		case "txt":
			o = append(o, node{kind: k, text: " " + randText(r, 3)})
		case "p":
			o = append(o, node{kind: k, text: randText(r, 3)})
		case "text":
			o = append(o, node{kind: k, use: randUse(r), ds: randDecls(r, 4, parKeys...), kids: randFlow(r, 5)})
		case "box":
			o = append(o, randBox(r))
		case "image":
			o = append(o, randImage(r, imgs))
		case "table":
			o = append(o, randTable(r, false))
		}
	}
	return o
}

// hdrBody draws the content of a header or footer; it starts with its own font,
// as what precedes it is not determined when a page is broken.
func hdrBody(r *rand.Rand, max int, imgs map[string][2]int, kinds ...string) []node {
	return append([]node{{kind: "font", ds: []decl{randDecl(r, "font-point-size")}}}, randBody(r, max, imgs, kinds...)...)
}
