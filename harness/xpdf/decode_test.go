package xpdf_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/mazzegi/log"
	"github.com/mazzegi/log/entry"
	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

// deepBody draws instructions nested into each other.
func deepBody(r *rand.Rand, depth, max int) []node {
	kinds := []string{"font", "lf", "setx", "sety", "newpage", "br", "p", "txt", "image", "grid"}
	if depth > 0 {
		kinds = append(kinds, "box", "text", "table", "box", "text", "table")
	}
	var o []node
	for n := r.Intn(max + 1); n > 0; n-- {
		k := pick(r, kinds...)
		c := node{kind: k}
		switch k {
		case "txt":
			if len(o) > 0 && o[len(o)-1].kind == "txt" {
				continue
			}
			c.text = pick(r, " ", "\n  ", "x", " a\tb ", "<&>", randText(r, 3)+".")
		case "lf", "setx", "sety":
			c.num = float64(r.Intn(400))/4 - 20
		case "grid":
			c.num = float64(1 + r.Intn(3))
			c.use, c.ds = randUse(r), randDecls(r, 2, allKeys...)
		case "br", "newpage":
		case "table":
			c.use, c.ds, c.hdr = randUse(r), randDecls(r, 2, allKeys...), r.Intn(11)
			for i := r.Intn(4); i > 0; i-- {
				row := node{kind: "tr", use: randUse(r), ds: randDecls(r, 2, allKeys...)}
				for j := r.Intn(4); j > 0; j-- {
					row.kids = append(row.kids, node{kind: "td", use: randUse(r), ds: randDecls(r, 2, allKeys...), cs: r.Intn(40) - 9, rs: r.Intn(40) - 9, kids: deepBody(r, depth-1, 3)})
				}
				c.kids = append(c.kids, row)
			}
		default:
			c.use, c.ds = randUse(r), randDecls(r, 3, allKeys...)
			switch k {
			case "p", "image":
				c.text = randText(r, 4)
			case "box", "text":
				c.kids = deepBody(r, depth-1, 3)
			}
		}
		o = append(o, c)
	}
	return o
}

// sameInst: two instructions carry the same content.
func sameInst(v *verifRun, path string, cs style.Classes, g, w xdoc.Instruction) {
	if reflect.TypeOf(g) != reflect.TypeOf(w) {
		v.failf("%s is a %T, want a %T", path, g, w)
	}
	for _, base := range []style.Styles{xpdf.DefaultStyle(), {}} {
		if a, b := g.MutatedStyles(cs, base), w.MutatedStyles(cs, base); a != b {
			v.failf("%s is styled %+v, want %+v", path, a, b)
		}
	}
	val := func(a, b interface{}) {
		if a != b {
			v.failf("%s has %#v, want %#v", path, a, b)
		}
	}
	switch g := g.(type) {
	case *xdoc.LineFeed:
		val(g.Lines, w.(*xdoc.LineFeed).Lines)
	case *xdoc.SetX:
		val(g.X, w.(*xdoc.SetX).X)
	case *xdoc.SetY:
		val(g.Y, w.(*xdoc.SetY).Y)
	case *xdoc.Image:
		val(g.Source, w.(*xdoc.Image).Source)
	case *xdoc.Paragraph:
		val(g.Text, w.(*xdoc.Paragraph).Text)
	case *xdoc.TextBlock:
		val(g.Text, w.(*xdoc.TextBlock).Text)
	case *xdoc.Box:
		sameInsts(v, path+"/box", cs, g.ISS, w.(*xdoc.Box).ISS)
	case *xdoc.Text:
		sameInsts(v, path+"/text", cs, g.ISS, w.(*xdoc.Text).ISS)
	case *xdoc.Grid:
		wg := w.(*xdoc.Grid)
		val(len(g.Rows), len(wg.Rows))
		val(len(g.Parts), len(wg.Parts))
		for i := range g.Rows {
			val(strings.Join(g.Rows[i].Areas, "|"), strings.Join(wg.Rows[i].Areas, "|"))
		}
		for i := range g.Parts {
			val(g.Parts[i].Area, wg.Parts[i].Area)
			sameInsts(v, path+"/part", cs, g.Parts[i].ISS, wg.Parts[i].ISS)
		}
	case *xdoc.Table:
		wt := w.(*xdoc.Table)
		val(g.RepeatHeader, wt.RepeatHeader)
		val(len(g.Rows), len(wt.Rows))
		for i := range g.Rows {
			sameInst(v, fmt.Sprintf("%s/tr[%d]", path, i), cs, g.Rows[i], wt.Rows[i])
		}
	case *xdoc.TableRow:
		wr := w.(*xdoc.TableRow)
		val(len(g.Cells), len(wr.Cells))
		for i := range g.Cells {
			sameInst(v, fmt.Sprintf("%s/td[%d]", path, i), cs, g.Cells[i], wr.Cells[i])
		}
	case *xdoc.TableCell:
		wc := w.(*xdoc.TableCell)
		val(g.ColSpan, wc.ColSpan)
		val(g.RowSpan, wc.RowSpan)
		sameInsts(v, path, cs, g.ISS, wc.ISS)
	}
}

func sameInsts(v *verifRun, path string, cs style.Classes, g, w []xdoc.Instruction) {
	for i := 0; i < len(g) || i < len(w); i++ {
		if i >= len(g) || i >= len(w) {
			v.failf("%s has %d entries, want %d", path, len(g), len(w))
		}
		sameInst(v, fmt.Sprintf("%s[%d]", path, i), cs, g[i], w[i])
	}
}

func depthOf(ns []node) int {
	d := 0
	for _, n := range ns {
		if k := 1 + depthOf(n.kids); k > d {
			d = k
		}
	}
	return d
}

// spoil puts something undecodable somewhere into the document; cells tolerate
// undecodable children, so nothing inside them is touched.
func spoil(r *rand.Rand, ns []node) ([]node, string) {
	bad := func() node {
		switch r.Intn(6) {
		case 0:
			return node{kind: pick(r, "bogus", "Box", "tables", "b")}
		case 1:
			return node{kind: pick(r, "text", "box", "font", "p"), ds: []decl{{pick(r, "width", "font-point-size"), pick(r, "x", "", "1,5")}}}
		case 2:
			return node{kind: "text", ds: []decl{{pick(r, "color", "text-color"), pick(r, "#12345", "red", "#12345g", "#1234567")}}}
		case 3:
			return node{kind: "table", hdr: []int{-1, 11, 100, -10}[r.Intn(4)]}
		case 4:
			return node{kind: "table", kids: []node{{kind: "bogus"}}}
		}
		return node{kind: "table", kids: []node{{kind: "tr"}, {kind: "tr", kids: []node{{kind: "td", use: []string{"a"}}, {kind: "bogus"}}}}}
	}
	b := bad()
	wrap := r.Intn(4)
	what := b.xml()
	for ; wrap > 1; wrap-- {
		b = node{kind: pick(r, "box", "text"), kids: append(append([]node{}, ns...), b)}
	}
	at := r.Intn(len(ns) + 1)
	o := append(append(append([]node{}, ns[:at]...), b), ns[at:]...)
	return o, what
}

func TestVerif_C23(t *testing.T) {
	verifLoop(t, "C23", "XML documents of nested instructions decoded and compared with what was written, and documents with one undecodable part; non-trivial from three levels on", 6000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			cs := randClasses(r, allKeys...)
			head := "<document><style>" + sheet(cs) + "</style>"
			switch r.Intn(8) {
			case 0: // an undecodable part
				b, what := spoil(r, dropAdjacent(deepBody(r, 2, 3)))
				where := pick(r, "body", "body", "header", "footer")
				x := head + "<" + where + ">" + xmls(b) + "</" + where + "></document>"
				verifDesc = x
				if d, err := xdoc.Load(strings.NewReader(x)); err == nil {
					v.failf("%s in the %s is not reported: %v", what, where, d)
				}
				return verifDesc, true
			case 1: // counts
				attr := pick(r, "colspan", "rowspan", "repeatheader")
				val := pick(r, "0", "1", "7", "10", "11", "-1", "+3", "007", "", "x", "1.5", "2x", " 2", "0x2", "99999999999999999999", "1_0", "-0", "1e1")
				var want int
				n, err := fmt.Sscanf(val, "%d", &want)
				ok := n == 1 && err == nil && strings.Trim(val, "0123456789") != val && regexpInt(val)
				x := head + "<body><table><tr><td " + attr + "=\"" + val + "\">x</td></tr></table></body></document>"
				if attr == "repeatheader" {
					ok = ok && want >= 0 && want <= 10
					x = head + "<body><table " + attr + "=\"" + val + "\"><tr><td>x</td></tr></table></body></document>"
				}
				if val == "99999999999999999999" {
					ok = false
				}
				verifDesc = x
				d, err := xdoc.Load(strings.NewReader(x))
				if (err == nil) != ok {
					v.failf("error %v for %s=%q", err, attr, val)
				}
				if ok {
					tab := d.Body.ISS[0].(*xdoc.Table)
					got := map[string]int{"colspan": tab.Rows[0].Cells[0].ColSpan, "rowspan": tab.Rows[0].Cells[0].RowSpan, "repeatheader": tab.RepeatHeader}[attr]
					if got != want {
						v.failf("%s=%q is decoded as %d", attr, val, got)
					}
				}
				return verifDesc, true
			}
			h, f, b := dropAdjacent(deepBody(r, 2, 2)), dropAdjacent(deepBody(r, 2, 2)), dropAdjacent(deepBody(r, 3, 5))
			x := head + "<header>" + xmls(h) + "</header><footer>" + xmls(f) + "</footer><body>" + xmls(b) + "</body></document>"
			verifDesc = x
			d, err := xdoc.Load(strings.NewReader(x))
			if err != nil {
				v.failf("not decoded: %v", err)
			}
			c := d.StyleClasses()
			sameInsts(v, "header", c, d.Header.ISS, insts(h))
			sameInsts(v, "footer", c, d.Footer.ISS, insts(f))
			sameInsts(v, "body", c, d.Body.ISS, insts(b))
			return verifDesc, depthOf(b) > 2
		})
}

func regexpInt(s string) bool {
	s = strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")
	return s != "" && strings.Trim(s, "0123456789") == ""
}

// squash leaves out white space, which a description need not keep.
func squash(x interface{}) string {
	return strings.Join(strings.Fields(fmt.Sprint(x)), "")
}

func describes(v *verifRun, path string, items []xdoc.DescribeItem, is []xdoc.Instruction) {
	if len(items) != len(is) {
		v.failf("%s is described by %d entries, want %d", path, len(items), len(is))
	}
	for i, in := range is {
		it := items[i]
		p := fmt.Sprintf("%s[%d]", path, i)
		val := func(w interface{}) {
			if squash(it.Value) != squash(w) {
				v.failf("%s (%s) has the value %v, want %v", p, it.Name, it.Value, w)
			}
		}
		switch in := in.(type) {
		case *xdoc.LineFeed:
			val(in.Lines)
		case *xdoc.SetX:
			val(in.X)
		case *xdoc.SetY:
			val(in.Y)
		case *xdoc.Image:
			val(in.Source)
		case *xdoc.Paragraph:
			val(in.Text)
		case *xdoc.TextBlock:
			val(in.Text)
		case *xdoc.Box:
			describes(v, p, it.Items, in.ISS)
		case *xdoc.Text:
			describes(v, p, it.Items, in.ISS)
		case *xdoc.Grid:
			if len(it.Items) != len(in.Rows)+len(in.Parts) {
				v.failf("%s has %d entries for %d rows and %d parts", p, len(it.Items), len(in.Rows), len(in.Parts))
			}
			for k, row := range in.Rows {
				if squash(it.Items[k].Value) != strings.Join(row.Areas, "") {
					v.failf("%s row %d is described as %v, want %v", p, k, it.Items[k].Value, row.Areas)
				}
			}
			for k, part := range in.Parts {
				pi := it.Items[len(in.Rows)+k]
				if squash(pi.Value) != part.Area {
					v.failf("%s part %d is described as %v, want %v", p, k, pi.Value, part.Area)
				}
				describes(v, p+"/part", pi.Items, part.ISS)
			}
		case *xdoc.Table:
			if len(it.Items) != len(in.Rows) {
				v.failf("%s has %d entries for %d rows", p, len(it.Items), len(in.Rows))
			}
			for k, row := range in.Rows {
				if len(it.Items[k].Items) != len(row.Cells) {
					v.failf("%s row %d has %d entries for %d cells", p, k, len(it.Items[k].Items), len(row.Cells))
				}
				for j, c := range row.Cells {
					describes(v, fmt.Sprintf("%s/%d/%d", p, k, j), it.Items[k].Items[j].Items, c.ISS)
				}
			}
		}
	}
}

func TestVerif_C24(t *testing.T) {
	verifLoop(t, "C24", "decoded documents with random meta data, page settings and nested instructions, described and compared with the document; non-trivial if all parts are present", 3000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			word := func() string { return pick(r, "", randWord(r), randWord(r)+"x") }
			meta := [3]string{word(), word(), word()}
			ori, form := pick(r, "portrait", "landscape", ""), pick(r, "a3", "a4", "a5", "letter", "legal", "")
			mg := [4]float64{float64(r.Intn(200)) / 4, float64(r.Intn(200)) / 4, float64(r.Intn(200)) / 4, float64(r.Intn(200)) / 4}
			grids := ""
			if r.Intn(3) == 0 {
				grids = "<grid><rows><gr>a b</gr><gr>c b</gr></rows><parts><part area=\"" + pick(r, "a", "b", "c") + "\"><text>x<br/>y</text></part><part area=\"b\"></part></parts></grid>"
			}
			h, f, b := dropAdjacent(deepBody(r, 2, 2)), dropAdjacent(deepBody(r, 2, 2)), dropAdjacent(deepBody(r, 3, 4))
			x := fmt.Sprintf("<document><meta><author>%s</author><creator>%s</creator><subject>%s</subject></meta><page><orientation>%s</orientation><format>%s</format><margins><left>%g</left><top>%g</top><right>%g</right><bottom>%g</bottom></margins></page><header>%s</header><footer>%s</footer><body>%s%s</body></document>",
				esc(meta[0]), esc(meta[1]), esc(meta[2]), ori, form, mg[0], mg[1], mg[2], mg[3], xmls(h), xmls(f), xmls(b), grids)
			verifDesc = x
			d, err := xdoc.Load(strings.NewReader(x))
			if err != nil {
				v.failf("not decoded: %v", err)
			}
			desc := xdoc.Describe(d)
			top := map[string]xdoc.DescribeItem{}
			for _, it := range desc.Items {
				if _, twice := top[it.Name]; twice {
					v.failf("%s is described twice", it.Name)
				}
				top[it.Name] = it
			}
			sub := func(it xdoc.DescribeItem, name string) xdoc.DescribeItem {
				var o *xdoc.DescribeItem
				for i := range it.Items {
					if it.Items[i].Name == name {
						if o != nil {
							v.failf("%s is described twice", name)
						}
						o = &it.Items[i]
					}
				}
				if o == nil {
					v.failf("%s is not described", name)
				}
				return *o
			}
			for i, n := range []string{"author", "creator", "subject"} {
				if got := sub(top["meta"], n).Value; fmt.Sprint(got) != meta[i] {
					v.failf("%s is described as %v, want %q", n, got, meta[i])
				}
			}
			if got := fmt.Sprint(sub(top["page"], "orientation").Value); got != ori {
				v.failf("orientation is described as %q, want %q", got, ori)
			}
			if got := fmt.Sprint(sub(top["page"], "format").Value); got != form {
				v.failf("format is described as %q, want %q", got, form)
			}
			for i, n := range []string{"left", "top", "right", "bottom"} {
				if got := sub(sub(top["page"], "margins"), n).Value; got != mg[i] {
					v.failf("the %s margin is described as %v, want %v", n, got, mg[i])
				}
			}
			describes(v, "header", top["header"].Items, d.Header.ISS)
			describes(v, "footer", top["footer"].Items, d.Footer.ISS)
			describes(v, "body", top["body"].Items, d.Body.ISS)
			// the dump carries the same
			var back xdoc.Description
			if err := json.Unmarshal([]byte(desc.Dump(xdoc.DescribeJSON)), &back); err != nil {
				v.failf("the dump is not readable: %v", err)
			}
			if len(back.Items) != len(desc.Items) {
				v.failf("the dump has %d entries, want %d", len(back.Items), len(desc.Items))
			}
			return verifDesc, len(h) > 0 && len(f) > 0 && depthOf(b) > 1
		})
}

// errorLog counts the errors that are logged.
type errorLog struct{ n int }

func (l *errorLog) Log(e entry.Entry) {
	if e.Level == entry.LevelError {
		l.n++
	}
}

// rectangles: every name covers a full rectangle of positions.
func rectangles(rows [][]string) bool {
	type box struct{ x0, y0, x1, y1, n int }
	m := map[string]*box{}
	for y, row := range rows {
		for x, a := range row {
			b := m[a]
			if b == nil {
				b = &box{x, y, x, y, 0}
				m[a] = b
			}
			b.n++
			if x < b.x0 {
				b.x0 = x
			}
			if x > b.x1 {
				b.x1 = x
			}
			if y < b.y0 {
				b.y0 = y
			}
			if y > b.y1 {
				b.y1 = y
			}
		}
	}
	for _, b := range m {
		if b.n != (b.x1-b.x0+1)*(b.y1-b.y0+1) {
			return false
		}
	}
	return true
}

func randGrid(r *rand.Rand) [][]string {
	h, w := 1+r.Intn(5), 1+r.Intn(5)
	g := make([][]string, h)
	for y := range g {
		g[y] = make([]string, w)
	}
	// cut into rectangles
	var cut func(x0, y0, x1, y1, d int)
	k := 0
	cut = func(x0, y0, x1, y1, d int) {
		if d > 0 && r.Intn(4) > 0 {
			if r.Intn(2) == 0 && x1-x0 > 1 {
				m := x0 + 1 + r.Intn(x1-x0-1)
				cut(x0, y0, m, y1, d-1)
				cut(m, y0, x1, y1, d-1)
				return
			}
			if y1-y0 > 1 {
				m := y0 + 1 + r.Intn(y1-y0-1)
				cut(x0, y0, x1, m, d-1)
				cut(x0, m, x1, y1, d-1)
				return
			}
		}
		for y := y0; y < y1; y++ {
			for x := x0; x < x1; x++ {
				g[y][x] = string(rune('a' + k))
			}
		}
		k++
	}
	cut(0, 0, w, h, 4)
	switch r.Intn(4) {
	case 0: // one position changed
		g[r.Intn(h)][r.Intn(w)] = pick(r, "a", "b", "c", "z")
	case 1: // two areas of one name
		o, n := pick(r, "a", "b", "c"), pick(r, "a", "b", "c", "d")
		for y := range g {
			for x := range g[y] {
				if g[y][x] == o {
					g[y][x] = n
				}
			}
		}
	}
	return g
}

func TestVerif_C22(t *testing.T) {
	lg := &errorLog{}
	log.Install(lg)
	verifLoop(t, "C22", "area maps cut into rectangles, some with a position or name changed, laid out, and grids decoded from XML with ragged rows or unknown parts; non-trivial if not all rectangles", 8000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			g := randGrid(r)
			if r.Intn(3) == 0 {
				// decoding
				ok := true
				if r.Intn(3) == 0 {
					y := r.Intn(len(g))
					if r.Intn(2) == 0 && len(g[y]) > 1 {
						g[y] = g[y][:len(g[y])-1]
					} else {
						g[y] = append(g[y], "q")
					}
					ok = len(g) == 1
				}
				names := map[string]bool{}
				var rows, parts strings.Builder
				for _, row := range g {
					rows.WriteString("<gr>" + strings.Join(row, " ") + "</gr>")
					for _, a := range row {
						names[a] = true
					}
				}
				if r.Intn(8) == 0 {
					rows.Reset()
					ok, names = false, map[string]bool{}
				}
				for n := r.Intn(4); n > 0; n-- {
					a := pick(r, "a", "b", "c", "y")
					parts.WriteString("<part area=\"" + a + "\"><text>x</text></part>")
					if !names[a] {
						ok = false
					}
				}
				x := "<document><body><grid><rows>" + rows.String() + "</rows><parts>" + parts.String() + "</parts></grid></body></document>"
				if r.Intn(2) == 0 {
					x = "<document><body><grid><parts>" + parts.String() + "</parts><rows>" + rows.String() + "</rows></grid></body></document>"
				}
				verifDesc = x
				d, err := xdoc.Load(strings.NewReader(x))
				if (err == nil) != ok {
					v.failf("decoding reports %v", err)
				}
				if ok {
					grid := d.Body.ISS[0].(*xdoc.Grid)
					for y, row := range g {
						if strings.Join(grid.Rows[y].Areas, " ") != strings.Join(row, " ") {
							v.failf("row %d is %v, want %v", y, grid.Rows[y].Areas, row)
						}
					}
				}
				return verifDesc, true
			}
			grid := &xdoc.Grid{}
			for _, row := range g {
				grid.Rows = append(grid.Rows, &xdoc.GridRow{Areas: row})
			}
			verifDesc = fmt.Sprintf("areas %v", g)
			e := newRec(r)
			doc := newDoc(nil)
			doc.Body.ISS = []xdoc.Instruction{grid}
			lg.n = 0
			if _, err := run(e, doc, "", "/"); err != nil {
				v.failf("error %v", err)
			}
			want := rectangles(g)
			if (lg.n == 0) != want {
				v.failf("layout accepts the areas: %v, want %v", lg.n == 0, want)
			}
			return verifDesc, !want
		})
}
