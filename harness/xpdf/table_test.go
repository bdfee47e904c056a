package xpdf_test

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/style"
)

// drawnTable is a table rendered alone, its cells told apart by their colour.
type drawnTable struct {
	n     node
	cells []*rcell         // defined cells in document order
	at    map[*rcell][2]int // their row and grid column
	t     *rtable
	got   []event // the cells drawn
	want  []event
	g, w  *recEngine
}

func colour(i int) style.RGB { return style.RGB{R: 1 + i%250, G: 1 + i/250, B: 7} }

func hex(c style.RGB) string { return fmt.Sprintf("#%02x%02x%02x", c.R, c.G, c.B) }

// tableRun renders table n with the code and the reference.
func tableRun(v *verifRun, r *rand.Rand, n node, cs []class, e *recEngine, before ...node) *drawnTable {
	k := 0
	for i := range n.kids {
		for j := range n.kids[i].kids {
			c := &n.kids[i].kids[j]
			c.ds = append(withoutKey(c.ds, "background-color"), decl{"background-color", hex(colour(k))})
			k++
		}
	}
	pat := randPatterns(r)
	body := append(append([]node{}, before...), n, node{kind: "box", ds: []decl{{"background-color", "#fe00fe"}, {"width", "5"}, {"height", "1"}}})
	d := &drawnTable{n: n, at: map[*rcell][2]int{}}
	if e == nil {
		e = newRec(r)
		e.ph = 1e7
	}
	d.g, d.w = both(v, r, rdoc{cs: cs, body: body}, pat, "/", nil, r.Intn(4) == 0, e)
	scratch := newRec(rand.New(rand.NewSource(1)))
	*scratch = *d.w
	scratch.ev = nil
	f := &ref{e: scratch, cs: cs, inh: xpdf.DefaultStyle(), h: hyph(pat)}
	ax0, _, ax1, _ := d.g.PrintableArea()
	d.t = f.layout(n, ax0, ax1)
	for ir, row := range d.t.rows {
		for ic, c := range row {
			if c.n != nil {
				d.cells = append(d.cells, c)
				d.at[c] = [2]int{ir, ic}
			}
		}
	}
	isCell := func(es []event) []event {
		var o []event
		for _, ev := range es {
			if ev.op == "rect" && ev.color.B == 7 {
				o = append(o, ev)
			}
		}
		return o
	}
	d.got, d.want = isCell(d.g.ev), isCell(d.w.ev)
	return d
}

// spanTable draws a table with spans, of few styles.
func spanTable(r *rand.Rand, spans float64, keys ...string) node {
	t := node{kind: "table", ds: randDecls(r, 2, keys...)}
	for i, n := 0, 1+r.Intn(6); i < n; i++ {
		row := node{kind: "tr"}
		for k, m := 0, r.Intn(6); k < m; k++ {
			c := node{kind: "td", ds: randDecls(r, 2, keys...)}
			if r.Intn(3) > 0 {
				c.kids = []node{{kind: "txt", text: randWord(r)}}
			}
			if r.Float64() < spans {
				c.cs = r.Intn(5) - 1
			}
			if r.Float64() < spans {
				c.rs = r.Intn(5) - 1
			}
			row.kids = append(row.kids, c)
		}
		t.kids = append(t.kids, row)
	}
	return t
}

func spanned(n node) (cols, rows bool) {
	for _, row := range n.kids {
		for _, c := range row.kids {
			cols = cols || c.cs > 1
			rows = rows || c.rs > 1
		}
	}
	return
}

func (d *drawnTable) expectCells(v *verifRun) {
	for i := 0; i < len(d.got) || i < len(d.cells); i++ {
		if i >= len(d.got) || i >= len(d.cells) || d.got[i].color != colour(i) {
			v.failf("the cells drawn are %v, want cells 0 to %d in order", d.got, len(d.cells)-1)
		}
	}
}

func TestVerif_C11(t *testing.T) {
	verifLoop(t, "C11", "tables of up to six rows and five cells with random spans on an endless page, cells told apart by colour; non-trivial with a column span and a row span", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			sp := 0.35
			n := spanTable(r, sp, "line-width", "padding")
			if r.Intn(2) == 0 {
				for i := range n.kids {
					for j := range n.kids[i].kids {
						n.kids[i].kids[j].rs = r.Intn(2)
					}
				}
			}
			d := tableRun(v, r, n, nil, nil)
			d.expectCells(v)
			if len(d.cells) == 0 {
				return verifDesc, false
			}
			ax0, _, ax1, _ := d.g.PrintableArea()
			cols, rows := spanned(n)
			if !rows {
				// all columns are equally wide: without row spans, a cell stands after
				// the columns of those before it
				most := 0
				for _, row := range n.kids {
					k := 0
					for _, c := range row.kids {
						k++
						if c.cs > 1 {
							k += c.cs - 1
						}
					}
					if k > most {
						most = k
					}
				}
				cw := (ax1 - ax0) / float64(most)
				i := 0
				for _, row := range n.kids {
					k := 0
					for _, c := range row.kids {
						lw := d.cells[i].sty.LineWidth
						own := 1
						if c.cs > 1 {
							own = c.cs
						}
						if g := d.got[i]; !near(g.x, d.g.l+float64(k)*cw+lw/2) || !near(g.w, float64(own)*cw-lw) {
							v.failf("cell %d is drawn from %g, %g wide, want columns %d to %d of %d", i, g.x, g.w, k, k+own-1, most)
						}
						k += own
						i++
					}
				}
			} else {
				// neighbours keep their order
				i := 0
				for _, row := range n.kids {
					for k := range row.kids {
						if k > 0 && d.got[i].x < d.got[i-1].x+d.got[i-1].w-1e-6 {
							v.failf("cell %d is drawn over or before its left neighbour: %v %v", i, d.got[i-1], d.got[i])
						}
						i++
					}
				}
			}
			return verifDesc, cols && rows
		})
}

func TestVerif_C12(t *testing.T) {
	verifLoop(t, "C12", "tables with row spans, equally wide columns and an endless page; non-trivial if a row span pushes a cell aside or adds a row", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			n := spanTable(r, 0.4, "line-width", "height")
			d := tableRun(v, r, n, nil, nil)
			if len(d.got) != len(d.cells) {
				v.failf("%d cells drawn, want %d", len(d.got), len(d.cells))
			}
			cw, nt := 0.0, false
			if d.t.cols > 0 {
				ax0, _, ax1, _ := d.g.PrintableArea()
				cw = (ax1 - ax0) / float64(d.t.cols)
			}
			nt = len(d.t.rows) > len(n.kids)
			for i, c := range d.cells {
				at := d.at[c]
				g := d.got[i]
				if !near(g.x, d.g.l+float64(at[1])*cw+c.sty.LineWidth/2) {
					v.failf("cell %d stands at %g, want column %d of %d (%g wide)", i, g.x, at[1], d.t.cols, cw)
				}
				if at[0] > 0 && at[1] > 0 && at[1] != indexIn(n, i) {
					nt = true
				}
				// a rectangle of rows: from its own row through the last it spans
				for j := 0; j < i; j++ {
					b := d.got[j]
					if g.w > 1e-6 && b.w > 1e-6 && g.h > 1e-6 && b.h > 1e-6 && g.x < b.x+b.w-1e-6 && b.x < g.x+g.w-1e-6 && g.y < b.y+b.h-1e-6 && b.y < g.y+g.h-1e-6 {
						v.failf("cell %d (%v) is drawn over cell %d (%v)", i, g, j, b)
					}
				}
				h := c.h
				for k := 1; k < c.rs; k++ {
					h += d.t.hs[at[0]+k]
				}
				if !near(g.h, h-c.sty.LineWidth) {
					v.failf("cell %d is %g high, want the height of the %d rows it spans, %g", i, g.h, c.rs, h)
				}
			}
			if !near(d.g.y, d.w.y) {
				v.failf("the table ends at %g, want %g", d.g.y, d.w.y)
			}
			return verifDesc, nt
		})
}

func indexIn(n node, i int) int {
	for _, row := range n.kids {
		if i < len(row.kids) {
			return i
		}
		i -= len(row.kids)
	}
	return -1
}

func TestVerif_C13(t *testing.T) {
	verifLoop(t, "C13", "tables with random table and column widths and spans on an endless page; non-trivial if some but not all columns ask for a width", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			n := spanTable(r, []float64{0, 0.2}[r.Intn(2)], "line-width")
			if r.Intn(3) > 0 {
				n.ds = append(n.ds, decl{"width", fmt.Sprint(40 + r.Intn(200))})
			}
			var cs []class
			for i := range n.kids {
				for j := range n.kids[i].kids {
					c := &n.kids[i].kids[j]
					if r.Intn(3) == 0 {
						c.ds = append(c.ds, decl{"column-width", fmt.Sprint([]float64{0, 5, 7.5, 12, 20, 33.25, -4}[r.Intn(7)])})
					}
				}
			}
			d := tableRun(v, r, n, cs, nil)
			if len(d.got) != len(d.cells) || len(d.cells) == 0 {
				return verifDesc, false
			}
			sty := d.t
			ws := make([]float64, sty.cols)
			auto, used := 0, 0.0
			for _, c := range d.cells {
				if k := d.at[c][1]; c.sty.ColumnWidth > ws[k] {
					ws[k] = c.sty.ColumnWidth
				}
			}
			for _, w := range ws {
				used += w
				if w == 0 {
					auto++
				}
			}
			ax0, _, ax1, _ := d.g.PrintableArea()
			f := &ref{e: d.w, cs: cs, inh: xpdf.DefaultStyle()}
			all := eff(ax1-ax0, f.sty(n).Width)
			for i := range ws {
				if ws[i] == 0 {
					ws[i] = (all - used) / float64(auto)
				}
			}
			for i, c := range d.cells {
				x, k := d.g.l, d.at[c][1]
				for j := 0; j < k; j++ {
					x += ws[j]
				}
				w := 0.0
				for j := 0; j < c.cols; j++ {
					w += ws[k+j]
				}
				if g := d.got[i]; !near(g.x, x+c.sty.LineWidth/2) || !near(g.w, w-c.sty.LineWidth) {
					v.failf("cell %d is drawn from %g, %g wide, want %g, %g (columns %v)", i, g.x, g.w, x+c.sty.LineWidth/2, w-c.sty.LineWidth, ws)
				}
			}
			return verifDesc, auto > 0 && auto < len(ws)
		})
}

func TestVerif_C14(t *testing.T) {
	verifLoop(t, "C14", "tables of random styles and texts on an endless page; non-trivial with a row span and rows of different heights", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			n := randTable(r, r.Intn(2) == 0)
			n.hdr = 0
			d := tableRun(v, r, n, randClasses(r, cellKeys...), nil)
			if len(d.got) != len(d.cells) {
				return verifDesc, false
			}
			diff := false
			for i := range d.cells {
				g, w := d.got[i], d.want[i]
				if !near(g.h, w.h) || !near(g.y, w.y) {
					v.failf("cell %d is drawn from %g, %g high, want %g, %g", i, g.y, g.h, w.y, w.h)
				}
				diff = diff || !near(g.h, d.got[0].h)
			}
			if !near(d.g.y, d.w.y) {
				v.failf("the table ends at %g, want %g", d.g.y, d.w.y)
			}
			_, rows := spanned(n)
			return verifDesc, diff && rows
		})
}

func TestVerif_C15(t *testing.T) {
	verifLoop(t, "C15", "tables with repeated headers, some with spans, on short pages, in the body or a header; non-trivial if a row starts a new page and a header is repeated", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			n := randTable(r, r.Intn(3) == 0)
			n.hdr = r.Intn(4)
			for r.Intn(3) > 0 && len(n.kids) > 0 && len(n.kids) < 20 {
				n.kids = append(n.kids, n.kids[r.Intn(len(n.kids))])
				k := &n.kids[len(n.kids)-1]
				k.kids = append([]node{}, k.kids...)
			}
			e := newRec(r)
			e.ph = 60 + float64(r.Intn(150))
			var before []node
			if r.Intn(2) == 0 {
				before = append(before, node{kind: "sety", num: float64(r.Intn(int(e.ph)))})
			}
			d := tableRun(v, r, n, randClasses(r, "font-point-size", "height", "padding"), e, before...)
			if d.g.pages != d.w.pages {
				v.failf("%d pages, want %d", d.g.pages, d.w.pages)
			}
			for i := 0; i < len(d.got) || i < len(d.want); i++ {
				if i >= len(d.got) || i >= len(d.want) {
					v.failf("%d cells drawn, want %d", len(d.got), len(d.want))
				}
				g, w := d.got[i], d.want[i]
				if g.color != w.color || g.page != w.page || !near(g.y, w.y) {
					v.failf("drawing %d is cell %v on page %d at %g, want %v on page %d at %g", i, g.color, g.page, g.y, w.color, w.page, w.y)
				}
			}
			if !near(d.g.y, d.w.y) {
				v.failf("the table ends at %g, want %g", d.g.y, d.w.y)
			}
			return verifDesc, d.g.pages > 1 && n.hdr > 0 && len(d.got) > len(d.cells)
		})
}

func TestVerif_C28(t *testing.T) {
	verifLoop(t, "C28", "tables of random styles, spans and texts, some over several pages; non-trivial if a cell is aligned to the middle or bottom with room left", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			n := randTable(r, r.Intn(2) == 0)
			nt := false
			for i := range n.kids {
				for j := range n.kids[i].kids {
					c := &n.kids[i].kids[j]
					if r.Intn(3) == 0 {
						c.ds = append(withoutKey(withoutKey(c.ds, "v-align"), "height"), decl{"v-align", pick(r, "middle", "bottom", "top")}, decl{"height", fmt.Sprint(r.Intn(60))})
						nt = nt || len(c.kids) > 0
					}
				}
			}
			var e *recEngine
			if r.Intn(2) == 0 {
				e = newRec(r)
			}
			d := tableRun(v, r, n, randClasses(r, cellKeys...), e)
			compareInk(v, d.g, d.w)
			return verifDesc, nt
		})
}
