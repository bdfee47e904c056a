package xpdf_test

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

var allKinds = []string{"font", "lf", "setx", "sety", "newpage", "text", "box", "image", "table", "grid"}

func docDesc(ns ...[]node) string { return verifDesc }

func TestVerif_C20(t *testing.T) {
	dir := t.TempDir()
	verifLoop(t, "C20", "documents of up to nine instructions of every kind, built directly or decoded from XML, rendered and compared with the operations they stand for; non-trivial from two instructions on", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			imgs := randImages(dir, r)
			kinds := allKinds
			switch r.Intn(3) {
			case 0:
				kinds = []string{"font", "lf", "setx", "sety", "newpage", "text", "p", "txt", "br", "grid"}
			case 1:
				kinds = []string{"font", "lf", "setx", "sety", "box", "image", "newpage"}
			}
			d := rdoc{cs: randClasses(r, parKeys...), body: dropAdjacent(randBody(r, 9, imgs, kinds...))}
			if r.Intn(3) == 0 {
				d.header, d.footer = hdrBody(r, 4, imgs, "text", "setx", "sety", "image", "newpage"), hdrBody(r, 4, imgs, "text", "setx", "sety", "newpage")
			}
			got, want := both(v, r, d, randPatterns(r), dir, imgs, r.Intn(2) == 0)
			compare(v, got, want)
			// line feeds and moves of the body, where a line feed is not hidden by one in a text
			if !near(got.x, want.x) || !near(got.y, want.y) {
				v.failf("the cursor ends at %g,%g, want %g,%g", got.x, got.y, want.x, want.y)
			}
			return verifDesc, len(d.body) > 1
		})
}

// dropAdjacent leaves out text next to text, which XML would join.
func dropAdjacent(ns []node) []node {
	var o []node
	for _, n := range ns {
		if n.kind == "txt" && len(o) > 0 && o[len(o)-1].kind == "txt" {
			continue
		}
		o = append(o, n)
	}
	return o
}

func TestVerif_C10(t *testing.T) {
	dir := t.TempDir()
	verifLoop(t, "C10", "elements of random style, each followed by a plain text, line feed and empty box that show the style in force; non-trivial if an element sets a font or colour", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			imgs := randImages(dir, r)
			keys := append([]string{"text-color", "color", "background-color", "h-align", "padding", "line-spacing"}, fontKeys...)
			var body []node
			nt := false
			for n := 1 + r.Intn(4); n > 0; n-- {
				el := randBody(r, 1, imgs, "text", "box", "table", "image", "grid", "font")
				for i := range el {
					el[i].ds = append(el[i].ds, without(randDecls(r, 3, keys...), el[i].ds)...)
					nt = nt || len(el[i].ds) > 0
				}
				body = append(body, el...)
				body = append(body, node{kind: "text", kids: []node{{kind: "txt", text: "probe"}}})
				body = append(body, node{kind: "box", ds: []decl{{"width", "40"}}})
				if r.Intn(2) == 0 {
					body = append(body, el...)
				}
				body = append(body, node{kind: "text", kids: []node{{kind: "txt", text: "probe"}}}, node{kind: "lf", num: 1})
			}
			d := rdoc{cs: randClasses(r, keys...), body: body}
			if r.Intn(3) == 0 {
				d.header = hdrBody(r, 2, imgs, "text", "font")
			}
			got, want := both(v, r, d, randPatterns(r), dir, imgs, false)
			probes := func(es []event) []event {
				var o []event
				for i, e := range es {
					if e.op == "text" && e.s == "probe" || i > 1 && e.op == "rect" && es[i-1].op == "text" && es[i-1].s == "probe" {
						e.x, e.y, e.page, e.in, e.w = 0, 0, 0, "", 0
						o = append(o, e)
					}
				}
				return o
			}
			compareInk(v, got, want, inBody, probes)
			if got.font != want.font || got.text != want.text && len(got.of("text")) > 0 {
				v.failf("font %v and text colour %v in force at the end, want %v and %v", got.font, got.text, want.font, want.text)
			}
			return verifDesc, nt
		})
}

func without(ds, have []decl) []decl {
	for _, h := range have {
		ds = withoutKey(ds, h.k)
	}
	return ds
}

func TestVerif_C16(t *testing.T) {
	verifLoop(t, "C16", "boxes of random style and content placed anywhere on the page, in the body or the header; non-trivial if one has text and one breaks the page", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			var body []node
			for n := 1 + r.Intn(5); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					body = append(body, node{kind: "sety", num: float64(r.Intn(300))})
				case 1:
					body = append(body, node{kind: "setx", num: float64(r.Intn(60))})
				}
				body = append(body, randBox(r))
			}
			d := rdoc{cs: randClasses(r, boxKeys...), body: body}
			if r.Intn(3) == 0 {
				d.header = []node{{kind: "font", ds: []decl{randDecl(r, "font-point-size")}}, {kind: "sety", num: float64(r.Intn(250))}, randBox(r)}
			}
			e := newRec(r)
			if r.Intn(3) == 0 { // a box that just reaches the margin
				h := 5 + r.Intn(20)
				body = append([]node{{kind: "sety", num: e.ph - e.b - float64(h) - float64(r.Intn(3)-1)/2}, {kind: "box", ds: []decl{{"height", fmt.Sprint(h)}}}}, body...)
				d.body = body
			}
			got, want := both(v, r, d, randPatterns(r), "/", nil, false, e)
			compare(v, got, want, heads)
			if !near(got.y, want.y) {
				v.failf("the cursor ends at height %g, want %g", got.y, want.y)
			}
			return verifDesc, len(got.of("text")) > 0 && got.pages > 1
		})
}

func TestVerif_C19(t *testing.T) {
	dir := t.TempDir()
	verifLoop(t, "C19", "documents with headers and footers of every kind of content (page breaks, tables and boxes at the bottom among it), whose body must come out as it does without them; non-trivial if a header or footer holds a page break, box or table", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			imgs := randImages(dir, r)
			d := rdoc{cs: randClasses(r, parKeys...)}
			part := func() []node {
				ns := hdrBody(r, 4, imgs, allKinds...)
				if r.Intn(3) == 0 {
					ns = append(ns, node{kind: "sety", num: float64(80 + r.Intn(200))}, node{kind: "box", ds: []decl{{"height", "50"}}})
				}
				return ns
			}
			d.header, d.footer = part(), part()
			d.body = randBody(r, 4, imgs, "text", "box", "table", "newpage", "lf", "sety", "newpage")
			if r.Intn(2) == 0 {
				d.body = append(d.body, node{kind: "newpage"}, node{kind: "text", kids: []node{{kind: "txt", text: "last"}}}, node{kind: "newpage"})
			}
			nt := false
			for _, n := range append(append([]node{}, d.header...), d.footer...) {
				nt = nt || n.kind == "newpage" || n.kind == "box" || n.kind == "table"
			}
			pat := randPatterns(r)
			got := newRec(r)
			bare := *got
			b := d
			b.header, b.footer = nil, nil
			both(v, r, b, pat, dir, imgs, false, &bare)
			both(v, r, d, pat, dir, imgs, false, got)
			seen := 0
			var depth []event
			for _, ev := range got.ev {
				switch ev.op {
				case "onheader", "onfooter":
					seen++
				case "addpage":
					if seen < 2 {
						v.failf("a page was started before header and footer were registered")
					}
					if len(depth) > 0 {
						v.failf("a page break was requested inside a %s", depth[len(depth)-1].s)
					}
				case "begin":
					depth = append(depth, ev)
				case "end":
					b := depth[len(depth)-1]
					depth = depth[:len(depth)-1]
					if !near(b.x, ev.x) || !near(b.y, ev.y) {
						v.failf("the %s moved the cursor from %g,%g to %g,%g", ev.s, b.x, b.y, ev.x, ev.y)
					}
				}
			}
			if seen != 2 {
				v.failf("header and footer were not registered once each")
			}
			if got.pages != bare.pages {
				v.failf("%d pages, but %d without header and footer", got.pages, bare.pages)
			}
			compareInk(v, got, &bare, inBody)
			return verifDesc, nt
		})
}

type failWriter struct{ n int }

func (f *failWriter) Write(b []byte) (int, error) {
	f.n++
	return 0, errors.New("disk full")
}

func TestVerif_C21(t *testing.T) {
	dir := t.TempDir()
	verifLoop(t, "C21", "documents processed by an engine that fails at a drawn operation, on writing, on the destination or not at all, and invalid documents; non-trivial if something fails", 4000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			if r.Intn(3) == 0 {
				return loadCase(v, r)
			}
			e := newRec(r)
			imgs := randImages(dir, r)
			d := rdoc{body: randBody(r, 5, imgs, allKinds...), header: hdrBody(r, 2, imgs, "text")}
			doc := newDoc(nil)
			doc.Header.ISS, doc.Body.ISS = insts(d.header), insts(d.body)
			mode := pick(r, "none", "engine", "write", "dest", "engine")
			switch mode {
			case "engine":
				e.errAt, e.errN = pick(r, "addpage", "text", "image", "font", "rect", "feed", "sety", "stroke"), 1+r.Intn(4)
			case "write":
				e.writeErr = errors.New("write failure")
			}
			desc := fmt.Sprintf("failing: %s %s %d; body %s", mode, e.errAt, e.errN, xmls(d.body))
			verifDesc = desc
			p := xpdf.NewProcessor(e, hyph(""), doc, dir)
			var w bytes.Buffer
			fw := &failWriter{}
			var err error
			if mode == "dest" {
				err = p.Process(fw)
			} else {
				err = p.Process(&w)
			}
			fails := e.err != nil || mode == "write" || mode == "dest"
			if fails && err == nil {
				v.failf("success reported")
			}
			if !fails && err != nil {
				v.failf("error %v without cause", err)
			}
			if mode == "engine" && e.err != nil && !errors.Is(err, e.err) && !strings.Contains(err.Error(), e.err.Error()) {
				v.failf("error %v, want %v", err, e.err)
			}
			wr := e.of("write")
			if e.err != nil && len(wr) != 0 {
				v.failf("written after an engine error")
			}
			if e.err == nil && len(wr) != 1 {
				v.failf("written %d times", len(wr))
			}
			if err == nil && w.String() != "%PDF" {
				v.failf("destination holds %q", w.String())
			}
			if len(wr) == 1 && e.ev[len(e.ev)-1].op != "write" {
				v.failf("something follows the writing")
			}
			return desc, fails
		})
}

// loadCase: a document whose XML or style sheet is invalid is not loaded.
func loadCase(v *verifRun, r *rand.Rand) (string, bool) {
	cs := randClasses(r, allKeys...)
	body := dropAdjacent(randBody(r, 4, map[string][2]int{"x.png": {1, 1}}, allKinds...))
	x := "<document><style>" + sheet(cs) + "</style><body>" + xmls(body) + "</body></document>"
	bad := true
	switch r.Intn(6) {
	case 0:
		bad = false
	case 1:
		x = strings.Replace(x, "</style>", pick(r, "{ width:1 }", "z { width:1", "q:first-row { width: 1 }", "z { width 1 }", "z { width:a }", "z { color:#12345 }")+"</style>", 1)
	case 2:
		x = x[:len(x)-1-r.Intn(30)]
	case 3:
		x = strings.Replace(x, "<body>", "<body><nosuch/>", 1)
	case 4:
		x = strings.Replace(x, "<body>", "<body><text>a</b></text>", 1)
	case 5:
		x = strings.Replace(x, "<body>", `<body><text style="width:x">a</text>`, 1)
	}
	verifDesc = x
	d, err := xdoc.Load(strings.NewReader(x))
	if bad && err == nil {
		v.failf("an invalid document was loaded")
	}
	if !bad && (err != nil || d == nil) {
		v.failf("not loaded: %v", err)
	}
	return x, bad
}

var _ = style.Styles{}
