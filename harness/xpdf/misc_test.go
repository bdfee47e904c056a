package xpdf_test

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/text"
	"github.com/mazzegi/xpdf/xdoc"
)

// ---- style sheets ----

// sheetBlocks reads a style sheet: names and contents of its blocks.
func sheetBlocks(s string) (names, bodies []string, ok bool) {
	for {
		i := strings.Index(s, "{")
		if i < 0 {
			return names, bodies, true
		}
		name := strings.Trim(s[:i], " \t\r\n")
		j := strings.Index(s[i:], "}")
		if name == "" || j < 0 {
			return nil, nil, false
		}
		names, bodies = append(names, name), append(bodies, s[i+1:i+j])
		s = s[i+j+1:]
	}
}

func TestVerif_C09(t *testing.T) {
	verifLoop(t, "C09", "style sheets of known and odd blocks, cut, spoiled or joined at random, arbitrary text, and colour texts; non-trivial for sheets with two blocks or an error", 20000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			switch r.Intn(5) {
			case 0:
				s := pick(r, "", "#", "##") + func() string {
					b := ""
					for n := 5 + r.Intn(3); n > 0; n-- {
						b += pick(r, "0", "1", "9", "a", "f", "A", "F", "7", "c", "3")
					}
					if r.Intn(5) == 0 {
						k := r.Intn(len(b) + 1)
						b = b[:k] + pick(r, "g", "_", "-", "+", "#", " ", "x", "é") + b[k:]
					}
					return b
				}()
				h := strings.TrimPrefix(s, "#")
				want := regexp.MustCompile("^[0-9a-fA-F]{6}$").MatchString(h)
				c := style.RGB{R: -1}
				err := c.UnmarshalStyle(s)
				verifDesc = fmt.Sprintf("colour %q", s)
				if (err == nil) != want {
					v.failf("error %v", err)
				}
				if want {
					var w style.RGB
					fmt.Sscanf(h, "%02x%02x%02x", &w.R, &w.G, &w.B)
					if c != w {
						v.failf("parsed as %v, want %v", c, w)
					}
				}
				return verifDesc, true
			case 1:
				// arbitrary text: no crash, no endless loop; the blocks decide
				b := ""
				for n := r.Intn(25); n > 0; n-- {
					b += pick(r, "{", "}", ":", ";", "a", "b", " ", "\n", "width", "1", "#ffffff", "color", "\xff", "é", "{}", "a{}", "a:b{", ",")
				}
				verifDesc = fmt.Sprintf("sheet %q", b)
				_, _, ok := sheetBlocks(b)
				cs, err := style.DecodeClasses(strings.NewReader(b))
				if !ok && err == nil {
					v.failf("accepted as %v", cs)
				}
				return verifDesc, !ok
			}
			type blk struct {
				name, sel string
				ds        []decl
				bad       bool
			}
			var bs []blk
			var b strings.Builder
			ok := true
			sp := func() string { return pick(r, "", " ", "\n", "\t", " \r\n ") }
			for n := r.Intn(6); n > 0; n-- {
				k := blk{name: pick(r, "a", "b", "c", "long-name", "é"), ds: randDecls(r, 4, allKeys...)}
				if r.Intn(3) == 0 {
					k.sel = pick(r, "first-row", "last-row", "x")
				}
				name := k.name
				if k.sel != "" {
					name += ":" + k.sel
				}
				if r.Intn(25) == 0 {
					name, k.bad = "", true
				}
				body := ""
				for _, d := range k.ds {
					body += sp() + d.k + sp() + ":" + sp() + d.v + sp() + ";"
				}
				if r.Intn(4) == 0 {
					body += sp() + pick(r, "no-such-key:1;", ";", ";;", " ; ")
				}
				if r.Intn(20) == 0 {
					body += pick(r, "width", "color:#12345;", "color:red", "a:b:c;", "width:1:2;", "font-point-size:x;", "border:1,2;")
					k.bad = true
				}
				open, end := "{", "}"
				if r.Intn(30) == 0 && n == 1 {
					end, k.bad = "", true
				}
				fmt.Fprintf(&b, "%s%s%s%s%s%s%s", sp(), name, sp(), open, body, end, sp())
				bs = append(bs, k)
				ok = ok && !k.bad
			}
			verifDesc = fmt.Sprintf("sheet %q", b.String())
			// what it defines
			type cl struct {
				ds  []decl
				sel map[string][]decl
			}
			want := map[string]*cl{}
			for _, k := range bs {
				if k.sel == "" {
					want[k.name] = &cl{k.ds, map[string][]decl{}}
				} else if c := want[k.name]; c != nil {
					c.sel[k.sel] = k.ds
				} else {
					ok = false
				}
			}
			cs, err := style.DecodeClasses(strings.NewReader(b.String()))
			if (err == nil) != ok {
				v.failf("error %v, want one: %v", err, !ok)
			}
			if !ok {
				return verifDesc, true
			}
			if len(cs) != len(want) {
				v.failf("%d classes, want %d", len(cs), len(want))
			}
			for n, w := range want {
				if _, is := cs[n]; !is {
					v.failf("no class %q", n)
				}
				for _, sel := range []string{"", "first-row", "last-row", "x"} {
					ds := w.ds
					if s, is := w.sel[sel]; is && sel != "" {
						ds = s
					}
					ws := xpdf.DefaultStyle()
					for _, d := range ds {
						apply(&ws, d)
					}
					gs := xpdf.DefaultStyle()
					if sel == "" {
						cs.Mutate(&gs, n)
					} else {
						cs.MutateWithSelector(sel, &gs, n)
					}
					if gs != ws {
						v.failf("class %q with selector %q gives %+v, want %+v", n, sel, gs, ws)
					}
				}
			}
			return verifDesc, len(bs) > 1
		})
}

// ---- white space ----

// rectified is the text with every run of white space as one blank, none at the
// ends or next to a backslash.
func rectified(s string) string {
	var o []rune
	gap := false
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		c := s[i : i+n]
		i += n
		if c == " " || c == "\t" || c == "\n" || c == "\r" {
			gap = true
			continue
		}
		if gap && len(o) > 0 && o[len(o)-1] != '\\' && r != '\\' {
			o = append(o, ' ')
		}
		gap = false
		o = append(o, r)
	}
	return string(o)
}

func TestVerif_C26(t *testing.T) {
	verifLoop(t, "C26", "texts of white space, backslashes and characters; non-trivial with white space next to a backslash and at an end", 60000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			s := ""
			for n := r.Intn(14); n > 0; n-- {
				s += pick(r, " ", " ", "  ", "\t", "\n", "\r\n", "\\", "\\", "a", "b", "é", "漢", "\u00a0", "\u2003", "\v", "-")
			}
			verifDesc = fmt.Sprintf("text %q", s)
			got := text.WhitespaceRectified(s)
			if want := rectified(s); got != want {
				v.failf("normalised to %q, want %q", got, want)
			}
			if again := text.WhitespaceRectified(got); again != got {
				v.failf("normalising %q again gives %q", got, again)
			}
			tw := pick(r, " ", "a", "ab", "aa", "\\", "", "aba", " a")
			s2 := ""
			for n := r.Intn(20); n > 0; n-- {
				s2 += pick(r, " ", "a", "a", "b", "ab", "\\", tw)
			}
			verifDesc = fmt.Sprintf("twins of %q in %q", tw, s2)
			rem := text.RemoveTwins(s2, tw)
			if tw != "" && strings.Contains(rem, tw+tw) {
				v.failf("%q still has a doubled fragment", rem)
			}
			if len(tw) == 1 {
				want := regexp.MustCompile(regexp.QuoteMeta(tw)+"+").ReplaceAllLiteralString(s2, tw)
				if rem != want {
					v.failf("left %q, want %q", rem, want)
				}
			}
			return verifDesc, strings.Contains(s, " \\") && strings.HasSuffix(s, " ")
		})
}

// ---- fonts ----

func TestVerif_C27(t *testing.T) {
	dir := t.TempDir()
	verifLoop(t, "C27", "font definition files with up to four fonts of up to five styles, in directories reached in different ways, and images looked up by name; non-trivial with two fonts and both kinds of path", 3000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			if r.Intn(4) == 0 {
				img := filepath.Join(dir, "img")
				os.MkdirAll(filepath.Join(img, "sub"), 0o755)
				imgs := randImages(img, r)
				names := []string{}
				for n := range imgs {
					names = append(names, n)
				}
				sortStrings(names)
				src := names[r.Intn(len(names))]
				name := src
				switch r.Intn(4) {
				case 0:
					name = filepath.Base(src)
				case 1:
					name = "./" + filepath.Base(src)
				case 2:
					name = "sub/../" + filepath.Base(src)
				}
				e := newRec(r)
				doc := newDoc(nil)
				doc.Body.ISS = []xdoc.Instruction{&xdoc.Image{Source: name}}
				verifDesc = fmt.Sprintf("image %q with working directory %q", name, img)
				if _, err := run(e, doc, "", img); err != nil {
					v.failf("error %v", err)
				}
				is := e.of("image")
				if len(is) != 1 || filepath.Clean(is[0].s) != src {
					v.failf("placed %v, want %q", is, src)
				}
				return verifDesc, true
			}
			sub := filepath.Join(dir, pick(r, "a", "b/c", "d e"))
			os.MkdirAll(sub, 0o755)
			var b strings.Builder
			mono := pick(r, "", "Mono", "Courier New")
			if mono != "" {
				fmt.Fprintf(&b, "MonoFont = %q\n", mono)
			}
			var want []font.Descriptor
			fonts, abs, rel := r.Intn(5), false, false
			for i := 0; i < fonts; i++ {
				name := pick(r, "Sans", "Serif", "Mono", "Sans")
				fmt.Fprintf(&b, "[[Fonts]]\nName = %q\n", name)
				for k := r.Intn(6); k > 0; k-- {
					st := pick(r, "regular", "bold", "italic", "bold+italic")
					p := pick(r, "x.ttf", "sub/y.ttf", "../z.ttf", "./w.ttf", "/abs/q.ttf", "/r.ttf", "../../s.ttf", "a b.ttf")
					fmt.Fprintf(&b, "[[Fonts.StyleDefinitions]]\nStyle = %q\nFilePath = %q\n", st, p)
					w := p
					if !strings.HasPrefix(p, "/") {
						w = filepath.Join(sub, p)
						rel = true
					} else {
						abs = true
					}
					want = append(want, font.Descriptor{Name: name, Style: font.Style(st), FilePath: w})
				}
			}
			bad := r.Intn(12) == 0
			if bad {
				b.WriteString("\n[[broken\n")
			}
			file := filepath.Join(sub, "fonts.toml")
			if err := os.WriteFile(file, []byte(b.String()), 0o644); err != nil {
				panic(err)
			}
			use := file
			switch r.Intn(4) {
			case 0:
				wd, _ := os.Getwd()
				use, _ = filepath.Rel(wd, file)
			case 1:
				use = filepath.Dir(file) + "/./" + filepath.Base(file)
			case 2:
				if r.Intn(4) == 0 {
					use, bad = file+".missing", true
				}
			}
			verifDesc = fmt.Sprintf("file %q:\n%s", use, b.String())
			reg, err := font.LoadRegistryFromFile(use)
			if (err != nil) != bad {
				v.failf("error %v", err)
			}
			if bad {
				return verifDesc, true
			}
			var got []font.Descriptor
			reg.Each(func(d font.Descriptor) error { got = append(got, d); return nil })
			if fmt.Sprint(got) != fmt.Sprint(want) {
				v.failf("registered %v, want %v", got, want)
			}
			if reg.MonoFont() != mono {
				v.failf("mono font %q, want %q", reg.MonoFont(), mono)
			}
			stop := fmt.Errorf("stop")
			if n := len(got); n > 0 {
				at, k := r.Intn(n), 0
				err := reg.Each(func(d font.Descriptor) error {
					k++
					if k == at+1 {
						return stop
					}
					return nil
				})
				if err != stop || k != at+1 {
					v.failf("an error at font %d ends the walk at %d with %v", at+1, k, err)
				}
			}
			return verifDesc, fonts > 1 && abs && rel
		})
}

// ---- the PDF adapter ----

var pageSizes = map[string][2]float64{"a3": {297, 420}, "a4": {210, 297}, "a5": {148, 210}, "letter": {215.9, 279.4}, "legal": {215.9, 355.6}, "": {210, 297}, "tabloid": {210, 297}}

func within(a, b float64) bool { return a-b < 1 && b-a < 1 }

// pageStreams are the uncompressed contents of the pages.
func pageStreams(pdf []byte) string {
	var o strings.Builder
	for _, m := range regexp.MustCompile(`(?s)stream\n(.*?)\nendstream`).FindAllSubmatch(pdf, -1) {
		if z, err := zlib.NewReader(bytes.NewReader(m[1])); err == nil {
			if b, _ := io.ReadAll(z); !bytes.Contains(b, []byte("beginbfchar")) {
				o.Write(b)
			}
		}
	}
	return o.String()
}

var fontFiles = []string{"/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf"}

func TestVerif_C25(t *testing.T) {
	dir := t.TempDir()
	verifLoop(t, "C25", "PDF engines of every format, orientation, margin and font, driven by random cursor moves, line feeds and texts, and the file that is written; non-trivial if text is written", 900,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			doc := &xdoc.Document{}
			form, ori := pick(r, "a3", "a4", "a5", "letter", "legal", "", "tabloid"), pick(r, "portrait", "landscape", "")
			doc.Page.Format, doc.Page.Orientation = xdoc.PaperFormat(form), xdoc.Orientation(ori)
			mg := [4]float64{float64(r.Intn(120)) / 4, float64(r.Intn(120)) / 4, float64(r.Intn(120)) / 4, float64(r.Intn(120)) / 4}
			doc.Page.Margins = xdoc.Margins{Left: mg[0], Top: mg[1], Right: mg[2], Bottom: mg[3]}
			reg := font.NewRegistry()
			verifDesc = fmt.Sprintf("format %q %q margins %v", form, ori, mg)
			if r.Intn(6) == 0 {
				// registered fonts
				var missing bool
				n := 1 + r.Intn(3)
				type reged struct{ name, sty string }
				var have []reged
				for i := 0; i < n; i++ {
					st := pick(r, "regular", "bold", "italic", "bold+italic")
					name := fmt.Sprintf("f%d", i)
					p := ""
					for _, f := range fontFiles {
						if _, err := os.Stat(f); err == nil {
							p = f
						}
					}
					if p == "" || r.Intn(4) == 0 {
						p = filepath.Join(dir, "missing.ttf")
						missing = true
					}
					verifDesc += fmt.Sprintf(" font %s %s %s", name, st, p)
					reg.Register(font.Descriptor{Name: name, Style: font.Style(st), FilePath: p})
					have = append(have, reged{name, st})
				}
				e, err := engine.NewFPDF(reg, doc)
				if (err != nil) != missing {
					v.failf("error %v", err)
				}
				if err == nil {
					e.AddPage()
					for _, h := range have {
						f := style.Font{Family: h.name, PointSize: 10}
						if strings.Contains(h.sty, "bold") {
							f.Weight = style.FontWeightBold
						}
						if strings.Contains(h.sty, "italic") {
							f.Style = style.FontStyleItalic
						}
						e.ChangeFont(f)
						if e.Error() != nil {
							v.failf("font %v is not available: %v", h, e.Error())
						}
						e.WriteText("x")
					}
				}
				return verifDesc, true
			}
			e, err := engine.NewFPDF(reg, doc)
			if err != nil {
				v.failf("error %v", err)
			}
			pages := 0
			e.OnHeader(func() { pages++ })
			e.AddPage()
			if pages != 1 {
				v.failf("the header is called %d times for a page", pages)
			}
			w, h := pageSizes[form][0], pageSizes[form][1]
			if ori == "landscape" {
				w, h = h, w
			}
			if !within(e.PageWidth(), w) || !within(e.PageHeight(), h) {
				v.failf("the page is %g by %g, want %g by %g", e.PageWidth(), e.PageHeight(), w, h)
			}
			if l, tp, rr, b := e.Margins(); !near(l, mg[0]) || !near(tp, mg[1]) || !near(rr, mg[2]) || !near(b, mg[3]) {
				v.failf("margins %g %g %g %g", l, tp, rr, b)
			}
			x0, y0, x1, y1 := e.PrintableArea()
			if x0 < mg[0]-1e-6 || y0 < mg[1]-1e-6 || x1 > e.PageWidth()-mg[2]+1e-6 || y1 > e.PageHeight()-mg[3]+1e-6 {
				v.failf("printable area %g %g %g %g on %g by %g", x0, y0, x1, y1, e.PageWidth(), e.PageHeight())
			}
			if x1-x0 < w-mg[0]-mg[2]-5 || y1-y0 < h-mg[1]-mg[3]-5 {
				v.failf("printable area %g %g %g %g leaves much of the page unused", x0, y0, x1, y1)
			}
			if x, y := e.GetXY(); !near(x, mg[0]) || !near(y, mg[1]) {
				v.failf("the cursor starts at %g %g", x, y)
			}
			type drawnText struct {
				f style.Font
				s string
				c [3]int
			}
			var said []drawnText
			var rects [][4]float64
			f := style.Font{Family: pick(r, "Helvetica", "Courier", "Times"), PointSize: float64(6 + r.Intn(20))}
			e.ChangeFont(f)
			col := [3]int{1, 2, 3}
			e.SetTextColor(col[0], col[1], col[2])
			for n := 1 + r.Intn(10); n > 0; n-- {
				x, y := e.GetXY()
				switch r.Intn(7) {
				case 0:
					to := float64(r.Intn(100))
					e.SetY(to)
					if gx, gy := e.GetXY(); !near(gx, x) || !near(gy, to) {
						v.failf("moving from %g,%g to y=%g leads to %g,%g", x, y, to, gx, gy)
					}
				case 1:
					to := float64(r.Intn(60))
					e.SetX(to)
					if gx, gy := e.GetXY(); !near(gx, to) || !near(gy, y) {
						v.failf("moving from %g,%g to x=%g leads to %g,%g", x, y, to, gx, gy)
					}
				case 2:
					k := float64(r.Intn(8)) / 4
					if y > 120 {
						continue
					}
					e.LineFeed(k)
					if _, gy := e.GetXY(); !near(gy, y+k*f.PointSize*25.4/72) {
						v.failf("%g line feeds of %g points move from %g to %g", k, f.PointSize, y, gy)
					}
				case 3:
					f = style.Font{Family: pick(r, "Helvetica", "Courier", "Times"), PointSize: float64(6 + r.Intn(20)),
						Style: style.FontStyle(pick(r, "normal", "italic", "")), Weight: style.FontWeight(pick(r, "normal", "bold", "")), Decoration: style.FontDecoration(pick(r, "normal", "underline", ""))}
					e.ChangeFont(f)
					if e.Error() != nil {
						v.failf("font %v: %v", f, e.Error())
					}
					if !near(e.FontHeight(), f.PointSize*25.4/72) {
						v.failf("%g points are %g high", f.PointSize, e.FontHeight())
					}
				case 4:
					col = [3]int{r.Intn(256), r.Intn(256), r.Intn(256)}
					e.SetTextColor(col[0], col[1], col[2])
				case 5:
					if x > 60 || y > 120 {
						continue
					}
					s := "w" + fmt.Sprint(len(said)) + "w"
					tw := e.TextWidth(s)
					e.WriteText(s)
					if gx, gy := e.GetXY(); !near(gx, x+tw) || !near(gy, y) {
						v.failf("writing %q (%g wide) at %g,%g leads to %g,%g", s, tw, x, y, gx, gy)
					}
					said = append(said, drawnText{f, s, col})
				case 6:
					q := [4]float64{float64(1 + r.Intn(50)), float64(1 + r.Intn(50)), float64(1 + r.Intn(50)), float64(1 + r.Intn(50))}
					e.SetFillColor(10, 20, 30)
					e.FillRect(q[0], q[1], q[2], q[3])
					rects = append(rects, q)
				}
			}
			verifDesc += fmt.Sprintf(" texts %v rectangles %v", said, rects)
			if e.CurrentPage() != 1 {
				v.failf("page %d", e.CurrentPage())
			}
			var b bytes.Buffer
			if err := e.WritePDF(&b); err != nil {
				v.failf("write: %v", err)
			}
			pdf := b.String()
			if !strings.HasPrefix(pdf, "%PDF") {
				v.failf("no PDF is written")
			}
			for _, d := range said {
				base := map[string]string{"Helvetica": "Helvetica", "Courier": "Courier", "Times": "Times"}[d.f.Family]
				it := "Oblique"
				if base == "Times" {
					it = "Italic"
				}
				suf := ""
				if d.f.Weight == "bold" {
					suf += "Bold"
				}
				if d.f.Style == "italic" {
					suf += it
				}
				if suf == "" && base == "Times" {
					suf = "Roman"
				}
				if suf != "" {
					base += "-" + suf
				}
				if !strings.Contains(pdf, "/BaseFont /"+base) {
					v.failf("the font %s of %v is not in the file", base, d)
				}
			}
			page := pageStreams(b.Bytes())
			for _, d := range said {
				i := strings.Index(page, "("+d.s+")Tj")
				if i < 0 {
					v.failf("%q is not on the page: %s", d.s, page)
				}
				j := strings.IndexAny(page[i:], "\n")
				rest := page[i:]
				if j >= 0 {
					rest = page[i : i+j]
				}
				if under := strings.Contains(rest, " re f"); under != (d.f.Decoration == "underline") {
					v.failf("%v is underlined: %v", d, under)
				}
			}
			for _, q := range rects {
				k := 72 / 25.4
				want := fmt.Sprintf("%.2f %.2f %.2f %.2f re f", q[0]*k, (e.PageHeight()-q[1])*k, q[2]*k, -q[3]*k)
				if !strings.Contains(page, want) {
					v.failf("the rectangle %q is not on the page: %s", want, page)
				}
			}
			// vertical room: automatic page break at the bottom margin
			e2, _ := engine.NewFPDF(reg, doc)
			e2.AddPage()
			e2.ChangeFont(style.Font{Family: "Helvetica", PointSize: 10})
			lineH := 10 * 25.4 / 72
			e2.SetY(e2.PageHeight() - mg[3] - lineH - 0.5)
			e2.WriteText("a")
			if e2.CurrentPage() != 1 {
				v.failf("a line above the bottom margin is moved to the next page")
			}
			e2.SetY(e2.PageHeight() - mg[3] - lineH + 0.5)
			e2.SetX(mg[0])
			e2.WriteText("a")
			if e2.CurrentPage() != 2 {
				v.failf("a line reaching into the bottom margin stays on the page")
			}
			return verifDesc, len(said) > 0
		})
}
