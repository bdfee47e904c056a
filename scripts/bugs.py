HYPH = '''package hyphenation_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/hyphenation"
)

func TestDemo(t *testing.T) {
	h, err := hyphenation.Load(strings.NewReader(%s))
	if err != nil {
		t.Fatal(err)
	}
	if got := fmt.Sprintf("%%q", h.Hyphenate(%s)); got != %s {
		t.Fatalf("got %%s", got)
	}
}
'''
bug("c06-whole-word", "C06", [("hyphenation/hyphenation.go", "for subSize := 1; subSize <= len(rs); subSize++ {", "for subSize := 1; subSize < len(rs); subSize++ {")],
    "a pattern that spans the whole dotted word", "the match of a pattern with the entire word, both dots included, is ignored",
    HYPH % ('".ab1cd.\\n"', '"abcd"', '`["ab" "cd"]`'), pkg="hyphenation")
bug("c06-later-weight-wins", "C06", [("hyphenation/hyphenation.go", "if w > ws[i+iw] {", "if w > 0 {")],
    "two matching patterns giving different weights to one position, the longer or later match the smaller one", "the weight of the last match is used instead of the largest",
    HYPH % ('"ab5c\\nab2cd\\n"', '"xabcdx"', '`["xab" "cdx"]`'), pkg="hyphenation")
bug("c05-long-words", "C05", [("hyphenation/hyphenation.go", "if len(s) > 100 {", "if len([]rune(s)) > 100 {")],
    "a word of more than one hundred bytes but at most one hundred characters", "a word longer than one hundred bytes is split",
    HYPH % ('"a1a\\n"', '"aaaa" + strings.Repeat("é", 60)', 'fmt.Sprintf("%%q", []string{"aaaa" + strings.Repeat("é", 60)})'.replace("%%", "%")), pkg="hyphenation")
BOXDOC = '''package xpdf_test

import (
	"math/rand"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	e := newRec(rand.New(rand.NewSource(1)))
	e.pw, e.ph, e.l, e.t, e.r, e.b, e.slack = 200, 300, 10, 10, 10, 10, 0
	d, err := xdoc.Load(strings.NewReader(`<document><style>%s</style><header>%s</header><footer></footer><body>%s</body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := run(e, d, "", "/"); err != nil {
		t.Fatal(err)
	}
%s
}
'''
bug("c16-right-padding", "C16", [("process.go", "x1 := x0 + width + sty.Padding.Left + sty.Padding.Right", "x1 := x0 + width + 2*sty.Padding.Left")],
    "a box whose left and right padding differ", "the box is not as wide as its effective width",
    BOXDOC % ("", "", '<box style="width:50;padding:2,1,6,1">a</box>', '''	if w := e.of("rect")[0].w + 0; w < 49 || w > 51 {
		t.Fatalf("the box is %g wide", w)
	}'''), lib=True)
bug("c16-break-in-header", "C16", [("process.go", "	if !p.preventPageBreak && y0+boxHeight >= effHeight {\n		p.engine.AddPage()\n		x0, y0 = p.engine.GetXY()", "	if !p.preventPageBreak && y0+boxHeight >= effHeight {\n		p.engine.AddPage()\n		_, y0 = p.engine.GetXY()")],
    "a page broken by a box that does not start at the left margin", "the box is drawn at the horizontal position of the cursor before the page break",
    BOXDOC % ("", "", '<setx x="60"/><sety y="285"/><box style="width:50;height:50">a</box>', '''	if x := e.of("rect")[0].x; x > 20 {
		t.Fatalf("the box starts at %g", x)
	}'''), lib=True)
bug("c17-diagonal", "C17", [("draw.go", "		p.engine.MoveTo(x0+width, y1)\n", "		p.engine.MoveTo(x0+width, y0)\n")],
    "a box with a bottom but no right border", "the bottom border is drawn as a diagonal from the upper right corner",
    BOXDOC % ("", "", '<box style="width:50;border:0,0,0,1">a</box>', '''	for _, s := range e.of("stroke")[0].path {
		if s.y0 != s.y1 {
			t.Fatalf("stroke %v", s)
		}
	}'''), lib=True)
bug("c18-second-scale", "C18", [("image.go", "		width = width * paHeight / height\n		height = paHeight", "		width = idWidth * paHeight / idHeight\n		height = paHeight")],
    "an image higher than the page whose styled size has other proportions than its pixels", "the styled proportions are lost when the image is scaled down",
    '''package xpdf_test

import (
	"image"
	"image/png"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	e := newRec(rand.New(rand.NewSource(1)))
	e.pw, e.ph, e.l, e.t, e.r, e.b, e.slack = 200, 300, 10, 10, 10, 10, 0
	dir := t.TempDir()
	f, err := os.Create(filepath.Join(dir, "i.png"))
	if err != nil {
		t.Fatal(err)
	}
	if err := png.Encode(f, image.NewGray(image.Rect(0, 0, 10, 10))); err != nil {
		t.Fatal(err)
	}
	f.Close()
	d, err := xdoc.Load(strings.NewReader(`<document><body><image style="width:100;height:560">i.png</image></body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := run(e, d, "", dir); err != nil {
		t.Fatal(err)
	}
	if i := e.of("image")[0]; !near(i.w, 50) || !near(i.h, 280) {
		t.Fatalf("image %v", i)
	}
}
''', lib=True)
bug("c08-selector-class", "C08", [("style/class.go", "		if c, ok := cs[cn]; ok {\n			c.MutateWithSelector(sel, styles)\n		}", "		if c, ok := cs[cn]; ok {\n			c.MutateWithSelector(sel, styles)\n			if _, found := c.Selectors[sel]; found {\n				break\n			}\n		}")],
    "an element in the first or last row of a table with a second class after one that has the selector", "classes after the first one with a matching selector are ignored",
    BOXDOC % ("a { height:20 } a:first-row { height:30 } b { background-color:#ff0000 }", "", '<table><tr class="a b"><td>x</td></tr><tr><td>x</td></tr></table>', '''	if c := e.of("rect")[0].color; c.R != 255 || c.G != 0 {
		t.Fatalf("background %v", c)
	}'''), lib=True)
bug("c04-line-break-only", "C04", [("text.go", "	p.engine.ChangeFont(sty.Font)\n	lines := p.textLines(iss, width, sty)\n	if len(lines) == 0 {", "	lines := p.textLines(iss, width, sty)\n	if len(lines) == 0 {")],
    "a box with a font size of its own whose text has only line breaks", "the height is measured with the font in force before instead of the text's own",
    BOXDOC % ("", "", '<box style="width:50;font-point-size:40"><br/><br/></box>', '''	want := 40 * 25.4 / 72 * 2
	if h := e.of("rect")[0].h; h < want-1 {
		t.Fatalf("height %g for two lines of a 40 point font (%g)", h, want)
	}'''), lib=True)

bug("c10-font-class", "C10", [("process.go", "			p.changeFont(i.MutatedStyles(p.doc.StyleClasses(), p.currStyles).Font)\n", "			p.currStyles = i.MutatedStyles(p.doc.StyleClasses(), p.currStyles)\n			p.changeFont(p.currStyles.Font)\n")],
    "a font instruction whose class also sets something other than the font", "everything the class sets is inherited by what follows, not only the font",
    BOXDOC % ("a { font-point-size:20; padding:7,7,7,7 }", "", '<font class="a"/><box style="width:50;height:10">x</box>', '''	if h := e.of("rect")[0].h; h > 12 {
		t.Fatalf("the box is %g high", h)
	}'''), lib=True)
bug("c19-table-row", "C19", [("table.go", "		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {", "		if (!p.preventPageBreak || i > xtab.RepeatHeader) && y+row.maxCellHeight() > page.printableArea.y1 {")],
    "a header with a table that is higher than the page", "a row of a table in the header starts a new page",
    BOXDOC % ("", '<table><tr style="height:150"><td>a</td></tr><tr style="height:160"><td>b</td></tr></table>', 'x', '''	if e.pages != 1 {
		t.Fatalf("%d pages", e.pages)
	}'''), lib=True)
bug("c20-sety-clamp", "C20", [("process.go", "			p.engine.SetY(i.Y)\n", "			if y := p.page().printableArea.y1; i.Y > y {\n				p.engine.SetY(y)\n			} else {\n				p.engine.SetY(i.Y)\n			}\n")],
    "a sety below the printable area, as footers use it", "the cursor is not moved to where the instruction says",
    BOXDOC % ("", '<sety y="295"/><box style="width:20;height:4"/>', 'x', '''	if y := e.of("rect")[0].y; y < 294 {
		t.Fatalf("box at %g", y)
	}'''), lib=True)
bug("c21-write-first", "C21", [("process.go", "	err := p.engine.Error()\n	if err != nil {\n		return err\n	}\n	err = p.engine.WritePDF(w)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	if err := p.engine.WritePDF(w); err != nil {\n		return err\n	}\n	return p.engine.Error()\n")],
    "an engine error while the body is processed", "the document is written although the engine has failed",
    '''package xpdf_test

import (
	"bytes"
	"errors"
	"math/rand"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	e := newRec(rand.New(rand.NewSource(1)))
	e.err = errors.New("engine")
	d, err := xdoc.Load(strings.NewReader(`<document><body>x</body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := xpdf.NewProcessor(e, hyph(""), d, "/").Process(&b); err == nil || len(e.of("write")) > 0 {
		t.Fatalf("written with error %v", err)
	}
}
''', lib=True)
bug("c21-open-class", "C21", [("style/class.go", "			return nil, errors.Errorf(\"non matching brace\")", "			if len(cs) > 0 {\n				return cs, nil\n			}\n			return nil, errors.Errorf(\"non matching brace\")")],
    "a style sheet whose last class is not closed, after a valid class", "a document with an invalid style sheet is loaded",
    '''package xpdf_test

import (
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	if _, err := xdoc.Load(strings.NewReader(`<document><style>a { width:5 } b { width:7 </style><body>x</body></document>`)); err == nil {
		t.Fatal("loaded")
	}
}
''')

bug("c13-first-width", "C13", [("table.go", "			if cell.ColumnWidth > cws[ic] {", "			if cws[ic] <= 0 && cell.ColumnWidth > 0 {")],
    "two cells of one column asking for different widths, the larger not first", "a column gets the first width asked for instead of the largest",
    BOXDOC % ("", "", '<table style="width:100"><tr><td style="column-width:30">a</td><td>b</td></tr><tr><td style="column-width:60">a</td><td>b</td></tr></table>', """	if w := e.of("rect")[0].w; w < 59 || w > 61 {
		t.Fatalf("first column is %g wide", w)
	}"""), lib=True)
bug("c13-span-width", "C13", [("table.go", "	for _, sc := range c.spansCols {\n		width += sc.width\n", "	for range c.spansCols {\n		width += c.width\n")],
    "a cell spanning columns of different widths", "a spanning cell is a multiple of its first column wide",
    BOXDOC % ("", "", '<table style="width:100"><tr><td colspan="2">a</td></tr><tr><td style="column-width:30">a</td><td>b</td></tr></table>', """	if w := e.of("rect")[0].w; w < 99 || w > 101 {
		t.Fatalf("spanning cell is %g wide", w)
	}"""), lib=True)
bug("c14-share-above", "C14", [("table.go", "			if cell.minHeight > maxCellHeight {", "			if cell.spannedBy == nil && cell.minHeight > maxCellHeight {")],
    "a cell spanning rows whose share is more than the lower rows need themselves", "the rows below a spanning cell do not get its share of the height",
    BOXDOC % ("", "", '<table><tr><td rowspan="2" style="font-point-size:72">a</td><td>b</td></tr><tr><td style="font-point-size:10">b</td></tr></table>', """	if h := e.of("rect")[0].h; h < 22 {
		t.Fatalf("spanning cell is %g high", h)
	}"""), lib=True)
bug("c14-span-measure", "C14", [("table.go", "	for _, sc := range cell.spansCols {\n		availableWidth += sc.width\n", "	for range cell.spansCols {\n		availableWidth += cell.width\n")],
    "text in a cell that spans a narrow and then a wide column", "the text of the spanning cell is measured in another width than it is drawn with",
    BOXDOC % ("", "", '<table style="width:110"><tr><td colspan="2">aaaa bbbb cccc dddd eeee ffff gggg</td></tr><tr><td style="column-width:10">a</td><td style="column-width:100"></td></tr></table>', """	if a, b := e.of("rect")[0].h, e.of("rect")[1].h; a > 1.5*b {
		t.Fatalf("cell is %g high, the other %g", a, b)
	}"""), lib=True)
bug("c11-short-row", "C11", [("table.go", "		for len(row.cells) < tab.columnCount {", "		for len(row.cells) > 0 && len(row.cells) < tab.columnCount {")],
    "a table with a row without cells", "a row without cells gets no placeholders",
    """package xpdf

import "testing"

func TestDemo(t *testing.T) {
	tab := &table{rows: []*tableRow{{cells: []*tableCell{{}, {}}}, {}}}
	tab.processSpans()
	if n := len(tab.rows[1].cells); n != 2 {
		t.Fatalf("%d cells", n)
	}
}
""")
bug("c11-lone-placeholder", "C11", [("table.go", "			if cell.colSpan <= 1 {", "			if cell.colSpan <= 1 || len(row.cells) == 1 && cell.rowSpan > 1 {")],
    "a row with a single cell that spans both columns and rows", "the cell gets no placeholders for its further columns",
    """package xpdf

import "testing"

func TestDemo(t *testing.T) {
	c := &tableCell{colSpan: 3, rowSpan: 2}
	tab := &table{rows: []*tableRow{{cells: []*tableCell{c}}, {cells: []*tableCell{{}}}}}
	tab.processSpans()
	if n := len(c.spansCols); n != 2 {
		t.Fatalf("%d placeholders", n)
	}
}
""")
bug("c12-lower-span", "C12", [("table.go", "				spannedCell.rowSpan = cell.rowSpan\n", "				if s == 0 {\n					spannedCell.rowSpan = cell.rowSpan\n				}\n")],
    "a cell spanning at least three columns and two rows", "there is no placeholder under the third and further columns",
    """package xpdf

import "testing"

func TestDemo(t *testing.T) {
	a, b := &tableCell{colSpan: 3, rowSpan: 2}, &tableCell{}
	tab := &table{rows: []*tableRow{{cells: []*tableCell{a}}, {cells: []*tableCell{b}}}}
	tab.processSpans()
	if r := tab.rows[1].cells; len(r) != 4 || r[3] != b {
		t.Fatalf("the pushed aside cell is not behind the span")
	}
}
""")
bug("c15-second-header", "C15", [("table.go", "			if i > 0 && xtab.RepeatHeader > 0 {", "			if i >= xtab.RepeatHeader && xtab.RepeatHeader > 0 {")],
    "a page break between two header rows", "the header is not repeated above a header row that starts a page",
    BOXDOC % ("", "", '<table repeatheader="2"><tr style="height:150"><td>a</td></tr><tr style="height:160"><td>b</td></tr><tr style="height:20"><td>c</td></tr></table>', """	n := 0
	for _, x := range e.of("text") {
		if x.s == "a" {
			n++
		}
	}
	if n < 2 {
		t.Fatalf("the first header row is drawn %d times", n)
	}"""), lib=True)
bug("c15-page-fit", "C15", [("table.go", "		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {", "		if !p.preventPageBreak && y+row.height > page.printableArea.y1 {")],
    "a cell spanning rows that starts near the bottom of the page", "a spanning cell is drawn beyond the bottom of the page",
    BOXDOC % ("", "", '<table><tr style="height:150"><td>a</td></tr><tr><td rowspan="2" style="height:100">b</td><td style="height:100">c</td></tr><tr><td style="height:100">d</td></tr></table>', """	if e.pages != 2 {
		t.Fatalf("%d pages", e.pages)
	}
	for _, x := range e.of("rect") {
		if x.y+x.h > 291 {
			t.Fatalf("a cell from %g to %g", x.y, x.y+x.h)
		}
	}"""), lib=True)
bug("c28-span-bottom", "C28", [("table.go", "		textMargin := paddedPa.Height() - textHeight\n", "		textMargin := cell.height - cell.Padding.Top - cell.Padding.Bottom - textHeight\n")],
    "a cell spanning rows whose text is aligned in the middle or at the bottom", "the text is aligned to the first row only",
    BOXDOC % ("", "", '<table><tr style="height:50"><td rowspan="2" style="v-align:bottom">a</td><td>b</td></tr><tr style="height:50"><td>c</td></tr></table>', """	if y := e.of("text")[0].y; y < 60 {
		t.Fatalf("the text is at %g", y)
	}"""), lib=True)
bug("c28-column-offset", "C28", [("table.go", "			if cell.spannedBy != nil || cell.zero {\n				x += cell.width\n				continue", "			if cell.spannedBy != nil || cell.zero {\n				if cell.spannedBy != nil && cell.spannedBy.rowIdx != cell.rowIdx {\n					x += cell.spannedBy.width\n				} else {\n					x += cell.width\n				}\n				continue")],
    "a cell spanning rows and two columns of different widths with a cell to the right of it", "the cell to the right of the placeholders is drawn at the wrong place",
    BOXDOC % ("", "", '<table style="width:100"><tr><td rowspan="2" colspan="2">a</td><td>b</td></tr><tr><td>c</td></tr><tr><td style="column-width:10">d</td><td style="column-width:50">e</td><td>f</td></tr></table>', """	r := e.of("rect")
	if d := r[1].x - r[2].x; d > 1 || d < -1 {
		t.Fatalf("cells of the last column at %g and %g", r[1].x, r[2].x)
	}"""), lib=True)
bug("c22-shifted", "C22", [("grid.go", "		if col != b.left {", "		if col < b.left {")],
    "an area whose lower row starts further right than its first row", "an area that is no rectangle is accepted",
    """package xpdf

import "testing"

func TestDemo(t *testing.T) {
	b := &gridBox{area: "a"}
	for _, c := range [][2]int{{0, 0}, {0, 1}, {1, 1}, {1, 2}} {
		if b.add(c[0], c[1]) != nil {
			return
		}
	}
	if b.validate() == nil {
		t.Fatal("accepted")
	}
}
""")
bug("c22-part-area", "C22", [("xdoc/grid.go", "		if _, ok := am[p.Area]; !ok {", "		if _, ok := am[p.Area]; !ok && p.Area != \"\" {")],
    "a part without an area", "a part that names no area of the grid is accepted",
    """package xdoc

import "testing"

func TestDemo(t *testing.T) {
	g := &Grid{Rows: []*GridRow{{Areas: []string{"a"}}}, Parts: []*GridPart{{}}}
	if g.Validate() == nil {
		t.Fatal("accepted")
	}
}
""", pkg="xdoc")
bug("c23-blank-run", "C23", [("xdoc/table.go", "			v := string(t)\n			if v != \"\" {", "			v := string(t)\n			if len(v) > 1 {")],
    "a table cell with a single character between two elements", "a character of the cell's content is lost",
    """package xdoc

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d, err := Load(strings.NewReader("<document><body><table><tr><td>a<br/>b</td></tr></table></body></document>"))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(d.Body.ISS[0].(*Table).Rows[0].Cells[0].ISS); n != 3 {
		t.Fatalf("%d instructions", n)
	}
}
""", pkg="xdoc")
bug("c23-header-ten", "C23", [("xdoc/table.go", "n < 0 || n > 10 {", "n < 0 || n >= 10 {")],
    "a header count of exactly ten", "a valid header count is refused",
    """package xdoc

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d, err := Load(strings.NewReader(`<document><body><table repeatheader="10"><tr><td>a</td></tr></table></body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	if n := d.Body.ISS[0].(*Table).RepeatHeader; n != 10 {
		t.Fatalf("%d header rows", n)
	}
}
""", pkg="xdoc")
bug("c24-empty-part", "C24", [("xdoc/describe.go", "	for _, p := range g.Parts {\n", "	for _, p := range g.Parts {\n		if len(p.ISS) == 0 {\n			continue\n		}\n"), ("xdoc/describe.go", "		StyleDiffs: desc.describeMutator(g),\n	}\n	for _, gr := range g.Rows {", "		StyleDiffs: desc.describeMutator(g),\n	}\n	for _, gr := range g.Rows[:] {")],
    "a grid with a part without content", "the part is missing in the description",
    """package xdoc

import (
	"encoding/json"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d, err := Load(strings.NewReader(`<document><body><grid><gr>a b</gr><part area="a">x</part><part area="b"></part></grid></body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	b, _ := json.Marshal(Describe(d))
	if n := strings.Count(string(b), "grid-part"); n != 2 {
		t.Fatalf("%d parts", n)
	}
}
""", pkg="xdoc")
bug("c25-area-right", "C25", [("engine/fpdf.go", "	l, t, r, b := e.pdf.GetMargins()\n	pw, ph := e.pdf.GetPageSize()\n	return l, t, pw - r - 2, ph - b\n", "	l, t, _, b := e.pdf.GetMargins()\n	pw, ph := e.pdf.GetPageSize()\n	return l, t, pw - l - 2, ph - b\n")],
    "a page whose left margin is smaller than its right one", "the printable area reaches into the right margin",
    """package engine

import (
	"testing"

	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	d := &xdoc.Document{}
	d.Page.Orientation, d.Page.Format = xdoc.OrientationPortrait, xdoc.FormatA4
	d.Page.Margins.Left, d.Page.Margins.Top, d.Page.Margins.Right, d.Page.Margins.Bottom = 5, 10, 40, 20
	e, err := NewFPDF(font.NewRegistry(), d)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, x1, _ := e.PrintableArea(); x1 > e.PageWidth()-40 {
		t.Fatalf("the printable area ends at %g of %g", x1, e.PageWidth())
	}
}
""", pkg="engine")
bug("c25-bold-italic", "C25", [("engine/fpdf.go", '		s += "B"', '		s = "B"')],
    "a font that is both bold and italic", "the font is bold but not italic",
    """package engine

import (
	"testing"

	"github.com/mazzegi/xpdf/style"
)

func TestDemo(t *testing.T) {
	f := style.Font{Style: style.FontStyleItalic, Weight: style.FontWeightBold}
	if s := fpdfFontStyle(f); s != "IB" && s != "BI" {
		t.Fatal(s)
	}
}
""", pkg="engine")
bug("c26-lone-cr", "C26", [("text/text.go", '	rs = strings.ReplaceAll(rs, "\\r", " ")', '	rs = strings.ReplaceAll(rs, "\\r", "")')],
    "two words separated by a carriage return alone", "the words are joined",
    """package text

import "testing"

func TestDemo(t *testing.T) {
	if s := WhitespaceRectified("a\\rb"); s != "a b" {
		t.Fatalf("%q", s)
	}
}
""", pkg="text")
bug("c26-trim-first", "C26", [("text/text.go", '	rs = strings.ReplaceAll(rs, "\\t", " ")\n	rs = strings.Trim(rs, " ")\n', '	rs = strings.Trim(rs, " ")\n	rs = strings.ReplaceAll(rs, "\\t", " ")\n')],
    "a text that starts or ends with a tab", "a leading or trailing blank is left",
    """package text

import "testing"

func TestDemo(t *testing.T) {
	if s := WhitespaceRectified("\\ta"); s != "a" {
		t.Fatalf("%q", s)
	}
}
""", pkg="text")
bug("c27-duplicate", "C27", [("font/registry.go", "	d.fonts = append(d.fonts, fd)\n", "	for i, f := range d.fonts {\n		if f.Name == fd.Name && f.Style == fd.Style {\n			d.fonts[i] = fd\n			return\n		}\n	}\n	d.fonts = append(d.fonts, fd)\n")],
    "a definition file that defines a style of a font twice", "only one font is registered for the two definitions",
    """package font

import (
	"io/ioutil"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "fonts.toml")
	s := "[[Fonts]]\\nName = \\"a\\"\\n[[Fonts.StyleDefinitions]]\\nStyle = \\"bold\\"\\nFilePath = \\"x\\"\\n[[Fonts.StyleDefinitions]]\\nStyle = \\"bold\\"\\nFilePath = \\"y\\"\\n"
	if err := ioutil.WriteFile(f, []byte(s), 0600); err != nil {
		t.Fatal(err)
	}
	r, err := LoadRegistryFromFile(f)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	r.Each(func(Descriptor) error { n++; return nil })
	if n != 2 {
		t.Fatalf("%d fonts", n)
	}
}
""", pkg="font")
bug("c07-first-wins", "C07", [("hyphenation/pattern.go", "		pl.patterns[string(p.Letters)] = p\n", "		if _, found := pl.patterns[string(p.Letters)]; !found {\n			pl.patterns[string(p.Letters)] = p\n		}\n")],
    "two patterns with the same letters", "the first of them is kept",
    HYPH % ('"a1b\\n.\\nb\\nab\\n"', '"xabx"', '`["xabx"]`'), pkg="hyphenation")
bug("c07-last-weight", "C07", [("hyphenation/pattern.go", "				p.Weights = append(p.Weights, int(w))\n				wantDigit = false", "				p.Weights = append(p.Weights, int(w)&7)\n				wantDigit = false")],
    "a pattern with a weight of eight or nine", "the weight loaded is not the one written",
    HYPH % ('"a8b\\nxa7b\\n"', '"xabx"', '`["xabx"]`'), pkg="hyphenation")
bug("c09-hashes", "C09", [("style/color.go", "	if strings.HasPrefix(s, \"#\") {\n		s = s[1:]\n	}\n", "	s = strings.TrimLeft(s, \"#\")\n")],
    "a colour with more than one leading hash", "a text that is no colour is accepted as one",
    """package style

import "testing"

func TestDemo(t *testing.T) {
	var c RGB
	if err := c.UnmarshalStyle("##112233"); err == nil {
		t.Fatal(c)
	}
}
""", pkg="style")
bug("c09-sign", "C09", [("style/color.go", "strconv.ParseUint(s, 16, 32)", "strconv.ParseInt(s, 16, 32)")],
    "a sign followed by five hexadecimal digits", "a text that is no colour is accepted as one",
    """package style

import "testing"

func TestDemo(t *testing.T) {
	var c RGB
	if err := c.UnmarshalStyle("+12345"); err == nil {
		t.Fatal(c)
	}
}
""", pkg="style")
bug("c09-second-selector", "C09", [("style/class.go", "				cl.Selectors[selName] = Selector{\n					Name:    selName,\n					mutator: mut,\n				}\n", "				if _, found := cl.Selectors[selName]; !found {\n					cl.Selectors[selName] = Selector{\n						Name:    selName,\n						mutator: mut,\n					}\n				}\n")],
    "a selector block that is written twice for one class", "the first block is kept instead of the later one",
    """package style

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	cs, err := DecodeClasses(strings.NewReader("a { width:1 } a:s { width:2 } a:s { width:3 }"))
	if err != nil {
		t.Fatal(err)
	}
	var s Styles
	cs.MutateWithSelector("s", &s, "a")
	if s.Width != 3 {
		t.Fatalf("%g", s.Width)
	}
}
""", pkg="style")
bug("c01-double-break", "C01", [("text.go", "		case *xdoc.LineBreak:\n			lines = append(lines, curr)\n			curr = textLine{}", "		case *xdoc.LineBreak:\n			if len(curr.items) > 0 || len(lines) == 0 {\n				lines = append(lines, curr)\n			}\n			curr = textLine{}")],
    "two line breaks in a row after some text", "the second break is lost",
    BOXDOC % ("", "", '<text>a<br/><br/>b</text>', """	if n := len(e.of("feed")); n != 3 {
		t.Fatalf("%d lines", n)
	}"""), lib=True)
bug("c01-paragraph-blank", "C01", [("text.go", "			if len(curr.items) > 0 {\n				item.text = \" \" + item.text", "			if len(curr.items) > 0 && (curr.items[len(curr.items)-1].sty == item.sty || len(words) > 1) {\n				item.text = \" \" + item.text")],
    "a paragraph of a single word in a style of its own that follows other text on the same line", "two words are written without a space between them",
    BOXDOC % ("", "", '<text>a <p style="font-weight:bold">b</p> c</text>', """	s := ""
	for _, x := range e.of("text") {
		s += x.s
	}
	if s != "a b c" {
		t.Fatalf("%q", s)
	}"""), lib=True)
BLOCK = BOXDOC.replace('run(e, d, "", "/")', 'run(e, d, %r, "/")' % 'PAT').replace("'PAT'", '"a1b\\nb1c\\n"')
bug("c02-tail", "C02", [("text-hyph.go", '				s2 = strings.Join(parts[i+1:], "")', '				s2 = parts[i+1]')],
    "a word with two hyphenation points of which only the first fits the line", "the end of the word is lost",
    BLOCK % ("", "", '<box style="width:12;h-align:block">xx aabbcc</box>', """	s := ""
	for _, x := range e.of("text") {
		s += strings.TrimSpace(x.s)
	}
	if strings.ReplaceAll(s, "-", "") != "xxaabbcc" {
		t.Fatalf("%q", s)
	}"""), lib=True)
bug("c03-hyphen-gap", "C03", [("text-hyph.go", '					curr.pureTextWidth += p.engine.TextWidth(strings.Trim(s1, " "))', '					curr.pureTextWidth += p.engine.TextWidth(s1)')],
    "a justified line that ends with a hyphenated word after other words", "the line does not fill the width",
    BLOCK % ("", "", '<box style="width:18;h-align:block">xx xx aabbcc dd</box>', """	x := e.of("text")
	for i := range x {
		if strings.HasSuffix(x[i].s, "-") && i > 0 {
			if end := x[i].x + x[i].w; end < 27.5 || end > 28.5 {
				t.Fatalf("the line ends at %g", end)
			}
			return
		}
	}
	t.Fatalf("no hyphen: %v", x)"""), lib=True)
bug("c03-two-words", "C03", [("text-hyph.go", "		if spaceCnt < 1 || line.paragraph {", "		if spaceCnt <= 1 || line.paragraph {")],
    "a justified line of exactly two words", "a line of two words is not stretched to the width",
    BLOCK % ("", "", '<box style="width:18;h-align:block">xxx xxx xxx</box>', """	if x := e.of("text")[1]; x.x+x.w < 27.5 {
		t.Fatalf("the line ends at %g", x.x+x.w)
	}"""), lib=True)
bug("c02-trim-hyphen", "C02", [("text-hyph.go", '				p.engine.WriteText(strings.Trim(item.text, " "))', '				p.engine.WriteText(strings.Trim(item.text, " -"))')],
    "a justified line of several words with a word that ends in a hyphen, cut or the document's own", "the hyphen at the end of the word is lost",
    BLOCK % ("", "", '<box style="width:18;h-align:block">xx- xx aabbcc dd</box>', """	for _, x := range e.of("text") {
		if x.s == "xx-" {
			return
		}
	}
	t.Fatalf("%v", e.of("text"))"""), lib=True)
bug("c02-part-style", "C02", [("text-hyph.go", '						text: s1,\n						sty:  item.sty,', '						text: s1,\n						sty:  sty,')],
    "a word cut by hyphenation in a paragraph with a style of its own", "the first part of the word is written in the style of the surrounding text",
    BLOCK % ("", "", '<box style="width:14;h-align:block">xx <p style="font-weight:bold">aabbcc</p></box>', """	for _, x := range e.of("text") {
		if strings.HasSuffix(x.s, "-") {
			if x.font.Weight != "bold" {
				t.Fatalf("%v", x)
			}
			return
		}
	}
	t.Fatalf("no hyphen: %v", e.of("text"))"""), lib=True)
bug("c04-other-lines", "C04", [("text-hyph.go", '	p.engine.ChangeFont(sty.Font)\n	lines := p.textLinesHyphenated(iss, width, sty)\n	if len(lines) == 0 {', '	p.engine.ChangeFont(sty.Font)\n	lines := p.textLines(iss, width, sty)\n	if len(lines) == 0 {')],
    "a justified text that takes fewer lines because a word is hyphenated", "the height is that of the text without hyphenation",
    BLOCK % ("", "", '<box style="width:16;h-align:block">xx aabbcc dd aabbcc dd aabbcc dd aabbcc dd</box>', """	f := e.of("feed")
	_ = f
	r, n := e.of("rect")[0], 0
	ys := map[float64]bool{}
	for _, x := range e.of("text") {
		if !ys[x.y] {
			ys[x.y] = true
			n++
		}
	}
	if n != int(r.h/(r.h/float64(n))+0.5) || r.h > float64(n)*6 {
		t.Fatalf("%d lines in a box %g high", n, r.h)
	}"""), lib=True)
bug("c08-repeated-class", "C08", [("style/class.go", "	for _, cn := range useClasses {\n		if c, ok := cs[cn]; ok {\n			c.Mutate(styles)\n		}", "	done := map[string]bool{}\n	for _, cn := range useClasses {\n		if c, ok := cs[cn]; ok && !done[cn] {\n			done[cn] = true\n			c.Mutate(styles)\n		}")],
    "an element that names a class again after another one", "the declarations of the class in between win",
    BOXDOC % ("a { height:20 } b { height:30 }", "", '<box class="a b a">x</box>', """	if h := e.of("rect")[0].h; h > 25 {
		t.Fatalf("height %g", h)
	}"""), lib=True)
bug("c17-white", "C17", [("draw.go", "	p.engine.FillRect(x0+halfLine, y0+halfLine, width-2*halfLine, height-2*halfLine)\n	//", "	if sty.Color.Background != style.White {\n		p.engine.FillRect(x0+halfLine, y0+halfLine, width-2*halfLine, height-2*halfLine)\n	}\n	//")],
    "a box with a white background over something else", "the box is not filled",
    BOXDOC % ("", "", '<box style="background-color:#ffffff">x</box>', """	if n := len(e.of("rect")); n != 1 {
		t.Fatalf("%d fills", n)
	}"""), lib=True)
bug("c20-back-up", "C20", [("process.go", "			p.engine.LineFeed(i.Lines)\n", "			if i.Lines > 0 {\n				p.engine.LineFeed(i.Lines)\n			}\n")],
    "a line feed of a negative number of lines, which moves the cursor up", "the line feed is not carried out",
    BOXDOC % ("", "", '<text>a</text><lf lines="-1"/><text>b</text>', """	x := e.of("text")
	if x[1].y > 13 {
		t.Fatalf("%v", x)
	}"""), lib=True)
bug("c24-blank-text", "C24", [("xdoc/describe.go", "		case *TextBlock:\n			dis = append(dis, DescribeItem{", "		case *TextBlock:\n			if clearStr(is.Text) == \"\" {\n				continue\n			}\n			dis = append(dis, DescribeItem{")],
    "a text block of nothing but blanks", "the block has no entry in the description",
    """package xdoc

import "testing"

func TestDemo(t *testing.T) {
	d := &Document{}
	d.Body.ISS = []Instruction{&Text{Instructions: Instructions{ISS: []Instruction{&TextBlock{Text: "a"}, &TextBlock{Text: " "}, &TextBlock{Text: "b"}}}}}
	for _, i := range Describe(d).Items {
		if i.Name == "body" && len(i.Items[0].Items) != 3 {
			t.Fatalf("%v", i.Items[0].Items)
		}
	}
}
""", pkg="xdoc")
bug("c27-cwd-first", "C27", [("font/definition.go", "		if filepath.IsAbs(file) {\n			return file\n		}", "		if filepath.IsAbs(file) {\n			return file\n		}\n		if _, err := os.Stat(file); err == nil {\n			return file\n		}"), ("font/definition.go", 'import (\n', 'import (\n	"os"\n')],
    "a file of the font's relative name in the working directory", "the font is taken from the working directory instead of the definition's",
    """package font

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d, cwd := t.TempDir(), t.TempDir()
	old, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(old)
	if err := os.Chdir(cwd); err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(d, "fonts.toml")
	s := "[[Fonts]]\\nName = \\"a\\"\\n[[Fonts.StyleDefinitions]]\\nStyle = \\"bold\\"\\nFilePath = \\"x\\"\\n"
	for n, b := range map[string]string{f: s, filepath.Join(cwd, "x"): ""} {
		if err := ioutil.WriteFile(n, []byte(b), 0600); err != nil {
			t.Fatal(err)
		}
	}
	r, err := LoadRegistryFromFile(f)
	if err != nil {
		t.Fatal(err)
	}
	r.Each(func(fd Descriptor) error {
		if fd.FilePath != filepath.Join(d, "x") {
			t.Fatalf("%q", fd.FilePath)
		}
		return nil
	})
}
""", pkg="font")
bug("c13-exact-fit", "C13", [("table.go", "	if colsZero > 0 {\n", "	if colsZero > 0 && spaceUsed < width {\n")],
    "columns with wished widths that use up the whole table and more columns without", "the columns without a width keep none of the share they get, so that widths do not add up to the table's",
    """package xpdf

import "testing"

func TestDemo(t *testing.T) {
	w := func(x float64) *tableCell {
		c := &tableCell{}
		c.ColumnWidth = x
		return c
	}
	tab := &table{columnCount: 2, rows: []*tableRow{{cells: []*tableCell{w(60), w(0)}}}}
	tab.assignColumnWidths(50)
	if s := tab.rows[0].cells[0].width + tab.rows[0].cells[1].width; s != 50 {
		t.Fatalf("%g", s)
	}
}
""")
