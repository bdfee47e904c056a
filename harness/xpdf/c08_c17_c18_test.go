package xpdf_test

import (
	"fmt"
	"image"
	"image/png"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

func TestVerif_C08(t *testing.T) {
	verifLoop(t, "C08", "a style sheet with selectors, a class list and inline declarations, applied to an inherited style; non-trivial if a declared class is used or a declaration is inline", 20000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			cs := randClasses(r, allKeys...)
			if r.Intn(3) == 0 && len(cs) > 0 { // a class declared again
				cs = append(cs, class{name: "a", decls: randDecls(r, 3, allKeys...)})
			}
			use, ds := randUse(r), randDecls(r, 5, allKeys...)
			sty := xpdf.DefaultStyle()
			for _, d := range randDecls(r, 4, allKeys...) {
				apply(&sty, d)
			}
			sel := pick(r, "", "first-row", "last-row", "first-cell", "last-cell", "odd")
			desc := fmt.Sprintf("sheet: %s class=%q selector=%q style=%q inherited=%+v", sheet(cs), use, sel, declStr(ds), sty)
			verifDesc = desc
			doc := newDoc(cs)
			st := styledWith(use, ds)
			if len(ds) > 1 && r.Intn(2) == 0 { // two style attributes
				k := r.Intn(len(ds))
				st.Mutators = []*style.Mutator{mutator(ds[:k]), mutator(ds[k:])}
			}
			in := sty
			var got style.Styles
			if sel == "" {
				got = st.MutatedStyles(doc.StyleClasses(), sty)
			} else {
				got = st.MutatedStylesWithSelector(sel, doc.StyleClasses(), sty)
			}
			want := cascade(sty, cs, sel, use, ds)
			if got != want {
				v.failf("style is %+v, want %+v", got, want)
			}
			if sty != in {
				v.failf("the inherited style was changed to %+v", sty)
			}
			// the sheet itself must not have changed: again, from another style
			if got2 := st.MutatedStyles(doc.StyleClasses(), style.Styles{}); got2 != cascade(style.Styles{}, cs, "", use, ds) {
				v.failf("second use gives %+v", got2)
			}
			return desc, len(ds) > 0 || len(use) > 0 && len(cs) > 0
		})
}

// covers: the strokes include the whole side
func covered(ev []event, c style.RGB, lw float64, x0, y0, x1, y1 float64) bool {
	for _, e := range ev {
		if e.op != "stroke" || e.color != c || !near(e.f, lw) {
			continue
		}
		for _, s := range e.path {
			if sideOf(s, x0, y0, x1, y1, lw/2) {
				return true
			}
		}
	}
	return false
}

func sideOf(s seg, x0, y0, x1, y1, h float64) bool {
	mn := func(a, b float64) float64 {
		if a < b {
			return a
		}
		return b
	}
	mx := func(a, b float64) float64 {
		if a > b {
			return a
		}
		return b
	}
	const e = 1e-9
	if y0 == y1 && near(s.y0, y0) && near(s.y1, y0) {
		a, b := mn(s.x0, s.x1), mx(s.x0, s.x1)
		return x0-h-e <= a && a <= x0+e && x1-e <= b && b <= x1+h+e
	}
	if x0 == x1 && near(s.x0, x0) && near(s.x1, x0) {
		a, b := mn(s.y0, s.y1), mx(s.y0, s.y1)
		return y0-h-e <= a && a <= y0+e && y1-e <= b && b <= y1+h+e
	}
	return false
}

// checkBox judges the drawing operations of one box.
func checkBox(v *verifRun, ev []event, x0, y0, x1, y1 float64, sty style.Styles) {
	lw := sty.Draw.LineWidth
	rects := 0
	for _, e := range ev {
		switch e.op {
		case "rect":
			rects++
			if !near(e.x, x0+lw/2) || !near(e.y, y0+lw/2) || !near(e.w, x1-x0-lw) || !near(e.h, y1-y0-lw) || e.color != sty.Color.Background {
				v.failf("filled %v, want the rectangle (%g,%g)-(%g,%g) inset by %g in %v", e, x0, y0, x1, y1, lw/2, sty.Color.Background)
			}
		case "stroke":
			for _, s := range e.path {
				if s.x0 == s.x1 && s.y0 == s.y1 {
					continue
				}
				if e.color != sty.Color.Foreground || !near(e.f, lw) {
					v.failf("stroked in %v with line width %g", e.color, e.f)
				}
				b := sty.Box.Border
				if !(b.Top > 0 && sideOf(s, x0, y0, x1, y0, lw/2) || b.Bottom > 0 && sideOf(s, x0, y1, x1, y1, lw/2) ||
					b.Left > 0 && sideOf(s, x0, y0, x0, y1, lw/2) || b.Right > 0 && sideOf(s, x1, y0, x1, y1, lw/2)) {
					v.failf("stroked %v, which is no styled side of (%g,%g)-(%g,%g) with border %+v", s, x0, y0, x1, y1, b)
				}
			}
		}
	}
	if rects != 1 {
		v.failf("%d rectangles filled", rects)
	}
	b := sty.Box.Border
	c := sty.Color.Foreground
	if b.Top > 0 && !covered(ev, c, lw, x0, y0, x1, y0) || b.Bottom > 0 && !covered(ev, c, lw, x0, y1, x1, y1) ||
		b.Left > 0 && !covered(ev, c, lw, x0, y0, x0, y1) || b.Right > 0 && !covered(ev, c, lw, x1, y0, x1, y1) {
		v.failf("a side of border %+v of (%g,%g)-(%g,%g) was not stroked: %v", b, x0, y0, x1, y1, ev)
	}
}

var boxKeys = []string{"border", "padding", "width", "height", "offset-x", "offset-y", "color", "background-color", "line-width", "text-color"}

func TestVerif_C17(t *testing.T) {
	verifLoop(t, "C17", "a page with one empty box of random style; non-trivial if it has a border", 20000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			e := newRec(r)
			doc := newDoc(nil)
			ds := randDecls(r, 8, boxKeys...)
			x, y := float64(r.Intn(50)), float64(r.Intn(30))
			h := float64(1 + r.Intn(20))
			ds = append(withoutKey(ds, "height"), decl{"height", fmt.Sprint(h)})
			doc.Body.ISS = []xdoc.Instruction{&xdoc.SetX{X: x}, &xdoc.SetY{Y: y}, &xdoc.Box{Styled: styledWith(nil, ds)}}
			desc := fmt.Sprintf("page %gx%g margins %g,%g,%g,%g: <setx x=%g/><sety y=%g/><box style=%q/>", e.pw, e.ph, e.l, e.t, e.r, e.b, x, y, declStr(ds))
			verifDesc = desc
			if _, err := run(e, doc, "", "/"); err != nil {
				v.failf("error %v", err)
			}
			sty := cascade(xpdf.DefaultStyle(), nil, "", nil, ds)
			pa0, _, pa1, _ := e.PrintableArea()
			w := pa1 - pa0
			if sty.Width >= 0 && sty.Width < w {
				w = sty.Width
			}
			bx0, by0 := x+sty.OffsetX, y+sty.OffsetY
			if len(e.of("addpage")) > 1 {
				bx0, by0 = e.l+sty.OffsetX, e.t+sty.OffsetY
			}
			bx1, by1 := bx0+w, by0+h+sty.Padding.Top+sty.Padding.Bottom
			checkBox(v, e.of("rect", "stroke"), bx0, by0, bx1, by1, sty)
			return desc, sty.Box.Border != style.Border{}
		})
}

func withoutKey(ds []decl, k string) []decl {
	var o []decl
	for _, d := range ds {
		if d.k != k {
			o = append(o, d)
		}
	}
	return o
}

func TestVerif_C18(t *testing.T) {
	dir := t.TempDir()
	verifLoop(t, "C18", "a page with one image of random pixel size and style at a random position; non-trivial if it is scaled or a dimension is missing", 3000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			e := newRec(r)
			doc := newDoc(nil)
			pw, ph := 1+r.Intn(60), 1+r.Intn(60)
			if r.Intn(3) == 0 {
				pw *= 1 + r.Intn(20)
			}
			if r.Intn(3) == 0 {
				ph *= 1 + r.Intn(20)
			}
			name := fmt.Sprintf("i%dx%d.png", pw, ph)
			file := filepath.Join(dir, name)
			if _, err := os.Stat(file); err != nil {
				fh, err := os.Create(file)
				if err != nil {
					t.Fatal(err)
				}
				png.Encode(fh, image.NewPaletted(image.Rect(0, 0, pw, ph), nil2pal()))
				fh.Close()
			}
			ds := randDecls(r, 4, "width", "height", "offset-x", "offset-y")
			x, y := float64(r.Intn(50)), float64(r.Intn(30))
			src := name
			if r.Intn(4) == 0 {
				src = file
			}
			doc.Body.ISS = []xdoc.Instruction{&xdoc.SetX{X: x}, &xdoc.SetY{Y: y}, &xdoc.Image{Styled: styledWith(nil, ds), Source: src}}
			missing := r.Intn(20) == 0
			if missing {
				doc.Body.ISS[2].(*xdoc.Image).Source = "none.png"
			}
			desc := fmt.Sprintf("page %gx%g margins %g,%g,%g,%g slack %g: image %dx%d px at %g,%g style=%q", e.pw, e.ph, e.l, e.t, e.r, e.b, e.slack, pw, ph, x, y, declStr(ds))
			verifDesc = desc
			if _, err := run(e, doc, "", dir); err != nil {
				v.failf("error %v", err)
			}
			im := e.of("image")
			if missing {
				if len(im) != 0 {
					v.failf("placed %v for a missing image", im)
				}
				return desc, false
			}
			sty := cascade(xpdf.DefaultStyle(), nil, "", nil, ds)
			if len(im) != 1 {
				v.failf("%d images placed", len(im))
			}
			i := im[0]
			if i.s != file || !near(i.x, x+sty.OffsetX) || !near(i.y, y+sty.OffsetY) {
				v.failf("placed %v, want %s at %g,%g", i, file, x+sty.OffsetX, y+sty.OffsetY)
			}
			x0, y0, x1, y1 := e.PrintableArea()
			fw, fh := x1-x0-sty.OffsetX, y1-y0-sty.OffsetY
			iw, ih := float64(pw)*25.4/96, float64(ph)*25.4/96
			aw, ah := iw, ih
			switch {
			case sty.Width > 0 && sty.Height > 0:
				aw, ah = sty.Width, sty.Height
			case sty.Width > 0:
				aw, ah = sty.Width, sty.Width*ih/iw
			case sty.Height > 0:
				aw, ah = sty.Height*iw/ih, sty.Height
			}
			if fw <= 0 || fh <= 0 {
				return desc, false
			}
			k := 1.0
			if aw*k > fw {
				k = fw / aw
			}
			if ah*k > fh {
				k = fh / ah
			}
			if !near(i.w, aw*k) || !near(i.h, ah*k) {
				v.failf("size %g x %g, want %g x %g scaled by %g", i.w, i.h, aw, ah, k)
			}
			return desc, k < 1 || sty.Width <= 0 || sty.Height <= 0
		})
}
