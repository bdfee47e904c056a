// The page as the processor sees it through engine.Engine: a cursor, the
// current font and colours, the path being built, and the sequence of events
// that put something on paper (trace). These contracts are the interface's
// meaning; for the gofpdf adapter they are connected to the code by C25.
package engine

data Seg = Seg(x0 real, y0 real, x1 real, y1 real)

data Ev = Rect(color style.RGB, x real, y real, w real, h real)
        | Stroke(color style.RGB, lw real, path seq[Seg])
        | Words(font style.Font, color style.RGB, x real, s string)
        | Feed(lines real)
        | Image(src string, x real, y real, w real, h real)
        | NewPage
        | Alias(s string)
        | HeaderSet(f int)
        | FooterSet(f int)
        | MovedX(x real)
        | MovedY(y real)
        | Wrote(w io.Writer, clean bool)
        | Boxed(x0 real, y0 real, x1 real, y1 real, sty style.Styles)
        | Flowed(block bool, iss seq[xdoc.Instruction], width real, sty style.Styles, x real, y real)
        | FontSet(f style.Font)
        | Measured
        | DidText(t *xdoc.Text)
        | DidBox(b *xdoc.Box, pa xpdf.PrintableArea)
        | DidTable(t *xdoc.Table)
        | DidImage(i *xdoc.Image, pa xpdf.PrintableArea)
        | DidGrid(g *xdoc.Grid, pa xpdf.PrintableArea)
        | DidAll(iss seq[xdoc.Instruction])
        | Celled(c *xpdf.tableCell, x0 real, y0 real, x1 real, y1 real)
        | Refused
        | Rowed(r *xpdf.tableRow, y real)
        | Read(tok xml.Token, ok bool)
        | Child(start xml.StartElement, i xdoc.Instruction, ok bool)
        | Attrs(as seq[xml.Attr], ok bool)
        | Parsed(ok bool)
        | PdfNew(orientation string, unit string, format string, dir string)
        | PdfFont(family string, sty string, size real)
        | PdfBreaks(auto bool, margin real)
        | PdfMargins(left real, top real, right real)
        | PdfFontFile(name string, sty string, data seq[int])
        | FileRead(name string, data seq[int], ok bool)
        | PdfAlias(s string)
        | PdfPage
        | PdfOutput(w io.Writer)
        | PdfHeader(f int)
        | PdfFooter(f int)
        | PdfLn(h real)
        | PdfMoved(x real, y real)
        | PdfMovedX(x real)
        | PdfWrite(h real, s string)
        | PdfColor(what int, r int, g int, b int)
        | PdfLineWidth(w real)
        | PdfRect(x real, y real, w real, h real, sty string)
        | PdfMove(x real, y real)
        | PdfLine(x real, y real)
        | PdfDraw(sty string)
        | PdfImage(src string, x real, y real, w real, h real)
        | FontsLoaded(r *font.Registry, ok bool)
        | Sheet(s string, cs style.Classes, ok bool)
        | Opened(name string, ok bool)
        | Loaded(ok bool)
        | Styling(s string, m *style.Mutator, ok bool)
        | Elem(start xml.StartElement, ok bool)

ghost trace seq[Ev]
ghost E.x real
ghost E.y real
ghost E.font style.Font
ghost E.text style.RGB
ghost E.draw style.RGB
ghost E.fill style.RGB
ghost E.lw real
ghost E.px real
ghost E.py real
ghost E.path seq[Seg]
ghost E.pages int
ghost E.err error
ghost E.writeErr error

ufun textWidth(style.Font, string) real
ufun fontHeight(style.Font) real
// where the cursor stands after writing
ufun endX(real, style.Font, string) real
ufun endY(real, real, style.Font, string) real
ufun paX0() real
ufun paY0() real
ufun paX1() real
ufun paY1() real
ufun marginL() real
ufun marginT() real
ufun marginR() real
ufun marginB() real
ufun pageW() real
ufun pageH() real
ufun pageNo(int) int
ufun homeX() real
ufun homeY() real

axiom fontHeightPositive(f style.Font) {
	ensures fontHeight(f) >= 0
	trigger fontHeight(f)
}

iface engine.Engine.Error(e) returns (err) { ensures err == E.err }
iface engine.Engine.WritePDF(e, w) returns (err) { emits Wrote(w, isnil(E.err)) modifies E.err, E.x, E.y, E.writeErr ensures err == E.writeErr }
iface engine.Engine.SetPageCountAlias(e, alias) { emits Alias(alias) }
iface engine.Engine.CurrentPage(e) returns (n) { ensures n == pageNo(E.pages) }
iface engine.Engine.OnHeader(e, f) { emits HeaderSet(f) }
iface engine.Engine.OnFooter(e, f) { emits FooterSet(f) }
iface engine.Engine.AddPage(e) {
	emits NewPage
	updates E.pages = E.pages + 1
	updates E.x = homeX
	updates E.y = homeY
	modifies E.err
}
iface engine.Engine.SetX(e, x) { emits MovedX(x) updates E.x = x }
iface engine.Engine.SetY(e, y) { emits MovedY(y) updates E.y = y }
iface engine.Engine.GetXY(e) returns (x, y) { ensures x == E.x ensures y == E.y }
iface engine.Engine.LineFeed(e, lines) {
	emits Feed(lines)
	updates E.y = E.y + lines * fontHeight(E.font)
	modifies E.x
}
iface engine.Engine.ChangeFont(e, fnt) { emits FontSet(fnt) updates E.font = fnt modifies E.err }
iface engine.Engine.PrintableArea(e) returns (x0, y0, x1, y1) { ensures x0 == paX0 && y0 == paY0 && x1 == paX1 && y1 == paY1 }
iface engine.Engine.PageWidth(e) returns (w) { ensures w == pageW }
iface engine.Engine.PageHeight(e) returns (h) { ensures h == pageH }
iface engine.Engine.PutImage(e, src, x, y, w, h) { emits Image(src, x, y, w, h) modifies E.err }
iface engine.Engine.SetTextColor(e, r, g, b) { updates E.text = mkstruct("style.RGB", r, g, b) }
iface engine.Engine.FontHeight(e) returns (h) { ensures h == fontHeight(E.font) }
iface engine.Engine.MonoFont(e) returns (s) { }
iface engine.Engine.TextWidth(e, s) returns (w) { ensures w == textWidth(E.font, s) }
iface engine.Engine.WriteText(e, s) {
	emits Words(E.font, E.text, E.x, s)
	updates E.x = endX(E.x, E.font, s)
	updates E.y = endY(E.x, E.y, E.font, s)
	modifies E.err
}
iface engine.Engine.Margins(e) returns (l, t, r, b) { ensures l == marginL && t == marginT && r == marginR && b == marginB }
iface engine.Engine.SetLineWidth(e, w) { updates E.lw = w }
iface engine.Engine.SetDrawColor(e, r, g, b) { updates E.draw = mkstruct("style.RGB", r, g, b) }
iface engine.Engine.SetFillColor(e, r, g, b) { updates E.fill = mkstruct("style.RGB", r, g, b) }
iface engine.Engine.FillRect(e, x, y, w, h) { emits Rect(E.fill, x, y, w, h) }
iface engine.Engine.MoveTo(e, x, y) { updates E.px = x updates E.py = y }
iface engine.Engine.LineTo(e, x, y) {
	updates E.path = push(E.path, Seg(E.px, E.py, x, y))
	updates E.px = x
	updates E.py = y
}
iface engine.Engine.DrawPath(e) { emits Stroke(E.draw, E.lw, E.path) updates E.path = E.path[0:0] }
