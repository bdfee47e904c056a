// The engine on top of gofpdf: what is asked of it is what the library is told.
package engine

// ---- the library: small operations are checked against their own code ----
func gofpdf.(*Fpdf).GetX(f) returns (x) { modifies nothing ensures x == f.x }
func gofpdf.(*Fpdf).GetXY(f) returns (x, y) { modifies nothing ensures x == f.x && y == f.y }
func gofpdf.(*Fpdf).SetX(f, x) {
	emits PdfMovedX(x)
	modifies gofpdf.Fpdf.x
	ensures x >= 0 ==> f.x == x
	ensures x < 0 ==> f.x == f.w + x
}
func gofpdf.(*Fpdf).SetY(f, y) {
	modifies gofpdf.Fpdf.x, gofpdf.Fpdf.y
	ensures f.x == f.lMargin
	ensures y >= 0 ==> f.y == y
	ensures y < 0 ==> f.y == f.h + y
}
func gofpdf.(*Fpdf).SetXY(f, x, y) {
	emits PdfMoved(x, y)
	modifies gofpdf.Fpdf.x, gofpdf.Fpdf.y
	ensures x >= 0 ==> f.x == x
	ensures x < 0 ==> f.x == f.w + x
	ensures y >= 0 ==> f.y == y
	ensures y < 0 ==> f.y == f.h + y
}
func gofpdf.(*Fpdf).Ln(f, h) {
	emits PdfLn(h)
	modifies gofpdf.Fpdf.x, gofpdf.Fpdf.y
	ensures f.x == f.lMargin
	ensures h >= 0 ==> f.y == old(f.y) + h
}
func gofpdf.(*Fpdf).GetMargins(f) returns (l, t, r, b) { modifies nothing ensures l == f.lMargin && t == f.tMargin && r == f.rMargin && b == f.bMargin }
func gofpdf.(*Fpdf).GetPageSize(f) returns (w, h) { modifies nothing ensures w == f.w && h == f.h }
func gofpdf.(*Fpdf).GetFontSize(f) returns (pt, unit) { modifies nothing ensures pt == f.fontSizePt && unit == f.fontSize }
func gofpdf.(*Fpdf).Error(f) returns (err) { modifies nothing ensures err == f.err }
func gofpdf.(*Fpdf).SetMargins(f, left, top, right) {
	emits PdfMargins(left, top, right)
	modifies gofpdf.Fpdf.lMargin, gofpdf.Fpdf.tMargin, gofpdf.Fpdf.rMargin
	ensures f.lMargin == left && f.tMargin == top && f.rMargin == (if right < 0 then left else right)
}
func gofpdf.(*Fpdf).SetAutoPageBreak(f, auto, margin) {
	emits PdfBreaks(auto, margin)
	modifies gofpdf.Fpdf.autoPageBreak, gofpdf.Fpdf.bMargin, gofpdf.Fpdf.pageBreakTrigger
	ensures f.bMargin == margin && f.autoPageBreak == auto
}
func gofpdf.(*Fpdf).PageNo(f) returns (n) { modifies nothing ensures n == f.page }
func gofpdf.(*Fpdf).AliasNbPages(f, alias) { trusted emits PdfAlias(alias) modifies gofpdf.Fpdf.aliasNbPagesStr }
// ---- the library: trusted ----
func gofpdf.New(orientation, unit, size, dir) returns (f) { trusted allocs emits PdfNew(orientation, unit, size, dir) }
func gofpdf.(*Fpdf).SetFont(f, family, sty, size) {
	trusted
	emits PdfFont(family, sty, size)
	modifies gofpdf.Fpdf.fontSizePt, gofpdf.Fpdf.fontSize, gofpdf.Fpdf.err
}
func gofpdf.(*Fpdf).AddUTF8FontFromBytes(f, family, sty, data) {
	trusted
	emits PdfFontFile(family, sty, data)
	modifies gofpdf.Fpdf.err
	ensures !isnil(old(f.err)) ==> f.err == old(f.err)
}
func gofpdf.(*Fpdf).Output(f, w) returns (err) { trusted emits PdfOutput(w) modifies gofpdf.Fpdf.err, gofpdf.Fpdf.x, gofpdf.Fpdf.y ensures err == f.err }
func gofpdf.(*Fpdf).SetHeaderFunc(f, fnc) { trusted emits PdfHeader(fnc) }
func gofpdf.(*Fpdf).SetFooterFunc(f, fnc) { trusted emits PdfFooter(fnc) }
func gofpdf.(*Fpdf).AddPage(f) { trusted emits PdfPage modifies gofpdf.Fpdf.x, gofpdf.Fpdf.y, gofpdf.Fpdf.page, gofpdf.Fpdf.err }
ufun pdfWidth(string) real
func gofpdf.(*Fpdf).GetStringWidth(f, s) returns (w) { trusted modifies nothing }
func gofpdf.(*Fpdf).Write(f, h, s) { trusted emits PdfWrite(h, s) modifies gofpdf.Fpdf.x, gofpdf.Fpdf.y, gofpdf.Fpdf.err }
func gofpdf.(*Fpdf).SetTextColor(f, r, g, b) { trusted emits PdfColor(0, r, g, b) }
func gofpdf.(*Fpdf).SetDrawColor(f, r, g, b) { trusted emits PdfColor(1, r, g, b) }
func gofpdf.(*Fpdf).SetFillColor(f, r, g, b) { trusted emits PdfColor(2, r, g, b) }
func gofpdf.(*Fpdf).SetLineWidth(f, w) { trusted emits PdfLineWidth(w) }
func gofpdf.(*Fpdf).Rect(f, x, y, w, h, sty) { trusted emits PdfRect(x, y, w, h, sty) }
func gofpdf.(*Fpdf).MoveTo(f, x, y) { trusted emits PdfMove(x, y) }
func gofpdf.(*Fpdf).LineTo(f, x, y) { trusted emits PdfLine(x, y) }
func gofpdf.(*Fpdf).DrawPath(f, sty) { trusted emits PdfDraw(sty) }
func gofpdf.(*Fpdf).ImageOptions(f, src, x, y, w, h, flow, options, link, linkStr) { trusted emits PdfImage(src, x, y, w, h) modifies gofpdf.Fpdf.err }
extern ioutil.ReadFile(name) returns (data, err) { emits FileRead(name, data, isnil(err)) }

// ---- what is asked for ----
define orientationOf(o xdoc.Orientation) = if o == "portrait" then "P" else if o == "landscape" then "L" else ""
define formatOf(f xdoc.PaperFormat) = if f == "a3" then "A3" else if f == "a5" then "A5" else if f == "letter" then "Letter" else if f == "legal" then "Legal" else "A4"
define fontStyleOf(f style.Font) = (if f.Style == "italic" then "I" else "") ++ (if f.Weight == "bold" then "B" else "") ++ (if f.Decoration == "underline" then "U" else "")

func engine.fpdfOrientation(o) returns (r) { props C25 modifies nothing ensures r == orientationOf(o) }
func engine.fpdfFormat(f) returns (r) { props C25 modifies nothing ensures r == formatOf(f) }
func engine.fpdfFontStyle(fnt) returns (r) { props C25 modifies nothing ensures r == fontStyleOf(fnt) }

func engine.(*FPDF).ChangeFont(e, fnt) {
	props C25
	requires trace == []
	ensures font: trace == [PdfFont(fnt.Family, fontStyleOf(fnt), fnt.PointSize)]
}
func engine.(*FPDF).SetX(e, x) { props C25 requires x >= 0 ensures e.pdf.x == x ensures y: e.pdf.y == old(e.pdf.y) }
func engine.(*FPDF).SetY(e, y) {
	props C25
	requires e.pdf.x >= 0 && y >= 0
	ensures moved: e.pdf.y == y
	ensures keeps: e.pdf.x == old(e.pdf.x)
}
func engine.(*FPDF).GetXY(e) returns (x, y) { props C25 modifies nothing ensures x == e.pdf.x && y == e.pdf.y }
func engine.(*FPDF).LineFeed(e, lines) {
	props C25
	requires lines * e.pdf.fontSize >= 0
	ensures down: e.pdf.y == old(e.pdf.y) + lines * e.pdf.fontSize
}
func engine.(*FPDF).PrintableArea(e) returns (x0, y0, x1, y1) {
	props C25
	modifies nothing
	ensures left: x0 >= e.pdf.lMargin
	ensures top: y0 >= e.pdf.tMargin
	ensures right: x1 <= e.pdf.w - e.pdf.rMargin
	ensures bottom: y1 <= e.pdf.h - e.pdf.bMargin
}
func engine.(*FPDF).Margins(e) returns (l, t, r, b) { props C25 modifies nothing ensures l == e.pdf.lMargin && t == e.pdf.tMargin && r == e.pdf.rMargin && b == e.pdf.bMargin }
func engine.(*FPDF).PageHeight(e) returns (h) { props C25 modifies nothing ensures h == e.pdf.h }
func engine.(*FPDF).PageWidth(e) returns (w) { props C25 modifies nothing ensures w == e.pdf.w }
func engine.(*FPDF).FontHeight(e) returns (h) { props C25 modifies nothing ensures h == e.pdf.fontSize }
func engine.(*FPDF).Error(e) returns (err) { props C25, C21 modifies nothing ensures err == e.pdf.err }
func engine.(*FPDF).WritePDF(e, w) returns (err) { props C25, C21 requires trace == [] ensures err == e.pdf.err && trace == [PdfOutput(w)] }
func engine.(*FPDF).AddPage(e) { props C25 requires trace == [] ensures trace == [PdfPage] }
func engine.(*FPDF).CurrentPage(e) returns (n) { props C25 modifies nothing ensures n == e.pdf.page }
func engine.(*FPDF).SetPageCountAlias(e, alias) { props C25 requires trace == [] ensures trace == [PdfAlias(alias)] }
func engine.(*FPDF).OnHeader(e, f) { props C25 requires trace == [] ensures trace == [PdfHeader(f)] }
func engine.(*FPDF).OnFooter(e, f) { props C25 requires trace == [] ensures trace == [PdfFooter(f)] }
func engine.(*FPDF).SetTextColor(e, r, g, b) { props C25 requires trace == [] ensures trace == [PdfColor(0, r, g, b)] }
func engine.(*FPDF).SetDrawColor(e, r, g, b) { props C25 requires trace == [] ensures trace == [PdfColor(1, r, g, b)] }
func engine.(*FPDF).SetFillColor(e, r, g, b) { props C25 requires trace == [] ensures trace == [PdfColor(2, r, g, b)] }
func engine.(*FPDF).SetLineWidth(e, w) { props C25 requires trace == [] ensures trace == [PdfLineWidth(w)] }
func engine.(*FPDF).FillRect(e, x, y, w, h) { props C25 requires trace == [] ensures trace == [PdfRect(x, y, w, h, "F")] }
func engine.(*FPDF).MoveTo(e, x, y) { props C25 requires trace == [] ensures trace == [PdfMove(x, y)] }
func engine.(*FPDF).LineTo(e, x, y) { props C25 requires trace == [] ensures trace == [PdfLine(x, y)] }
func engine.(*FPDF).DrawPath(e) { props C25 requires trace == [] ensures trace == [PdfDraw("D")] }
func engine.(*FPDF).PutImage(e, src, x, y, w, h) { props C25 requires trace == [] ensures trace == [PdfImage(src, x, y, w, h)] }

// ---- fonts ----
data FontFile = FontFile(name string, sty string, path string)
define fontFileStyle(s font.Style) = if s == "bold" then "B" else if s == "italic" then "I" else if s == "bold+italic" then "BI" else ""
fold wanted(fs seq[font.Descriptor]) seq[FontFile] { [] => [] | a, f => push(a, FontFile(f.Name, fontFileStyle(f.Style), f.FilePath)) }
data FontRead = FontRead(path string, data seq[int], done seq[FontFile])
fold fontReads(t seq[Ev]) FontRead { [] => FontRead("", [], [])
	| a, e => match e {
		FileRead(n, d, ok) => if ok then FontRead(n, d, a.done) else a
		| PdfFontFile(n, s, d) => if d == a.data then FontRead("", [], push(a.done, FontFile(n, s, a.path))) else a
		| _ => a } }
func font.(*Registry).MonoFont(d) returns (r) { props C25, C27 modifies nothing ensures r == d.monoFont }
func font.(*Registry).Each(d, do) returns (err) { inline }
func engine.(*FPDF).initFonts(e, fonts) returns (err) {
	props C25
	emits FontsLoaded(fonts, isnil(err))
	ensures loaded: isnil(err) ==> fontReads(trace).done == wanted(fonts.fonts)
	ensures noerror: isnil(err) && len(fonts.fonts) > 0 ==> isnil(e.pdf.err)
	inv fontReads(trace).done == wanted(fonts.fonts[0:$k])
	inv $k > 0 ==> isnil(e.pdf.err)
}
fold pages1(t seq[Ev]) seq[Ev] { [] => [] | a, e => match e { PdfNew(o, u, s, d) => push(a, e) | PdfMargins(l, tt, r) => push(a, e) | PdfBreaks(x, m) => push(a, e) | FontsLoaded(r, ok) => push(a, e) | _ => a } }
func engine.NewFPDF(fonts, doc) returns (e, err) {
	props C25
	requires trace == []
	ensures fonts: isnil(err) == (len(trace) > 1 && trace[1] == FontsLoaded(fonts, true))
	ensures paper: len(trace) > 0 && trace[0] == PdfNew(orientationOf(doc.Page.Orientation), "mm", formatOf(doc.Page.Format), "")
	ensures margins: isnil(err) ==> e.pdf.lMargin == doc.Page.Margins.Left && e.pdf.tMargin == doc.Page.Margins.Top &&
		e.pdf.rMargin == (if doc.Page.Margins.Right < 0 then doc.Page.Margins.Left else doc.Page.Margins.Right) && e.pdf.bMargin == doc.Page.Margins.Bottom
}
