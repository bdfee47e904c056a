package xpdf

ufun pathAbs(string) bool
ufun pathClean(string) string
ufun pathJoin(string, string) string
extern filepath.IsAbs(path) returns (r) { ensures r == pathAbs(path) }
extern filepath.Clean(path) returns (r) { ensures r == pathClean(path) }
extern filepath.Join(elem) returns (r) { ensures len(elem) == 2 ==> r == pathJoin(elem[0], elem[1]) }
// what Join returns is already clean
axiom joinClean(a string, b string) { ensures pathClean(pathJoin(a, b)) == pathJoin(a, b) trigger pathJoin(a, b) }

define resolvedFile(dir string, name string) = if pathAbs(name) then name else pathJoin(dir, name)

func xpdf.(*Processor).resolveFile(p, name) returns (r) {
	props C27
	ensures r == resolvedFile(p.workingDir, name)
}
func xpdf.(*Processor).page(p) returns (r) {
	ensures r.printableArea.x0 == paX0 && r.printableArea.y0 == paY0 && r.printableArea.x1 == paX1 && r.printableArea.y1 == paY1
	ensures r.width == pageW && r.height == pageH
}
func xpdf.(*Processor).resetStyles(p) {
	props C10
	emits FontSet(p.currStyles.Font)
	ensures E.font == p.currStyles.Font && E.text == p.currStyles.Text
}
func xpdf.(*Processor).changeFont(p, fnt) {
	props C10, C20
	modifies xpdf.Processor.currStyles
	emits FontSet(fnt)
	ensures p.currStyles == with(old(p.currStyles), "Font", fnt)
	ensures E.font == fnt
}
extern xpdf.Logf(format, args) { }

// ---- boxes ----

define effW(pa xpdf.PrintableArea, w real) = if w < 0 || w > pa.x1 - pa.x0 then pa.x1 - pa.x0 else w
define boxH(p *xpdf.Processor, box *xdoc.Box, w real, sty style.Styles, page int, f style.Font) =
	if sty.Height > 0 then sty.Height else if len(box.ISS) > 0 then textH(p, box.ISS, w, sty, page) else fontHeight(f)
fold marks(t seq[Ev]) seq[Ev] { [] => [] | a, e => match e {
	NewPage => push(a, e) | Boxed(x0, y0, x1, y1, s) => push(a, e) | Flowed(b, i, w, s, x, y) => push(a, e)
	| Rect(c, x, y, w, h) => push(a, e) | Stroke(c, w, q) => push(a, e) | Words(f, c, x, s) => push(a, e) | _ => a } }

func xpdf.(*Processor).renderTextBox(p, box, pa) {
	props C16, C10, C19
	requires wellPatterned(p.hyphenator)
	modifies nothing
	requires E.path == []
	emits DidBox(box, pa)
	ensures C16.drawn: let sty = styled(box.Styled, p.doc.styleClasses, p.currStyles) in
		let w = effW(pa, sty.Width) in let inner = w - sty.Padding.Left - sty.Padding.Right in
		let h = boxH(p, box, inner, sty, pageNo(old(E.pages)), old(E.font)) + sty.Padding.Top + sty.Padding.Bottom in
		let broke = !p.preventPageBreak && old(E.y) + sty.OffsetY + h >= pageH - marginB in
		let x = (if broke then homeX else old(E.x)) + sty.OffsetX in
		let y = (if broke then homeY else old(E.y)) + sty.OffsetY in
		marks(trace) == (if broke then [NewPage] else []) ++ [Boxed(x, y, x + w, y + h, sty)] ++
			(if len(box.ISS) > 0 then [Flowed(block(sty), box.ISS, inner, sty, x + sty.Padding.Left, y + sty.Padding.Top)] else []) &&
		E.y == y + h
	ensures C10.restored: E.font == p.currStyles.Font && E.text == p.currStyles.Text
	ensures C19.nobreak: p.preventPageBreak ==> E.pages == old(E.pages)
	ensures path: E.path == []
}
func xpdf.(*Processor).renderText(p, text) {
	props C20, C10, C19
	requires wellPatterned(p.hyphenator)
	modifies nothing
	emits DidText(text)
	ensures C20.flowed: let sty = styled(text.Styled, p.doc.styleClasses, p.currStyles) in
		marks(trace) == if len(text.ISS) > 0
			then [Flowed(block(sty), text.ISS, if sty.Width < 0 || sty.Width > paX1 - paX0 then paX1 - paX0 else sty.Width, sty, old(E.x), old(E.y))] else []
	ensures C10.restored: E.font == old(E.font) && E.text == old(E.text) || E.font == p.currStyles.Font && E.text == p.currStyles.Text
	ensures pages: E.pages == old(E.pages)
}
// ---- instructions ----

data Flow = Flow(sty style.Styles, ev seq[Ev])
// what the instructions stand for, and the inherited style after them
fold carried(iss seq[xdoc.Instruction], cs style.Classes, nobreak bool, pa xpdf.PrintableArea, sty style.Styles) Flow {
	[] => Flow(sty, [])
	| a, i => match a { Flow(s, ev) =>
		if istype(i, "*xdoc.Font") then
			let f = styled(astype(i, "*xdoc.Font").Styled, cs, s).Font in Flow(with(s, "Font", f), push(ev, FontSet(f)))
		else if istype(i, "*xdoc.LineFeed") then Flow(s, push(ev, Feed(astype(i, "*xdoc.LineFeed").Lines)))
		else if istype(i, "*xdoc.SetX") then Flow(s, push(ev, MovedX(astype(i, "*xdoc.SetX").X)))
		else if istype(i, "*xdoc.SetY") then Flow(s, push(ev, MovedY(astype(i, "*xdoc.SetY").Y)))
		else if istype(i, "*xdoc.Box") then Flow(s, push(ev, DidBox(astype(i, "*xdoc.Box"), pa)))
		else if istype(i, "*xdoc.Text") then Flow(s, push(ev, DidText(astype(i, "*xdoc.Text"))))
		else if istype(i, "*xdoc.Table") then Flow(s, push(ev, DidTable(astype(i, "*xdoc.Table"))))
		else if istype(i, "*xdoc.Image") then Flow(s, push(ev, DidImage(astype(i, "*xdoc.Image"), pa)))
		else if istype(i, "*xdoc.Grid") then Flow(s, push(ev, DidGrid(astype(i, "*xdoc.Grid"), pa)))
		else if istype(i, "*xdoc.PageBreak") && !nobreak then Flow(s, push(ev, NewPage))
		else a }
}
define printable() = mkstruct("xpdf.PrintableArea", paX0, paY0, paX1, paY1)

func xpdf.(*Processor).processInstructions(p, is) {
	props C20, C10, C19
	requires wellPatterned(p.hyphenator)
	requires E.path == []
	emits DidAll(is.ISS)
	ensures C20.order: trace == match carried(is.ISS, p.doc.styleClasses, p.preventPageBreak, printable, old(p.currStyles)) { Flow(s, ev) => ev }
	ensures C10.style: p.currStyles == match carried(is.ISS, p.doc.styleClasses, p.preventPageBreak, printable, old(p.currStyles)) { Flow(s, ev) => s }
	ensures C10.restored: old(E.font == p.currStyles.Font && E.text == p.currStyles.Text) ==> E.font == p.currStyles.Font && E.text == p.currStyles.Text
	ensures C19.nobreak: p.preventPageBreak ==> E.pages == old(E.pages)
	ensures path: E.path == []
	inv trace == match carried(is.ISS[0:$k], p.doc.styleClasses, p.preventPageBreak, printable, old(p.currStyles)) { Flow(s, ev) => ev }
	inv p.currStyles == match carried(is.ISS[0:$k], p.doc.styleClasses, p.preventPageBreak, printable, old(p.currStyles)) { Flow(s, ev) => s }
	inv old(E.font == p.currStyles.Font && E.text == p.currStyles.Text) ==> E.font == p.currStyles.Font && E.text == p.currStyles.Text
	inv C19.nobreak: p.preventPageBreak ==> E.pages == old(E.pages)
	inv E.path == []
}

// ---- documents ----

fold setup(t seq[Ev]) seq[Ev] { [] => [] | a, e => match e {
	HeaderSet(f) => push(a, e) | FooterSet(f) => push(a, e) | _ => a } }
fold steps(t seq[Ev]) seq[Ev] { [] => [] | a, e => match e {
	NewPage => push(a, e) | DidAll(i) => push(a, e) | Wrote(w, c) => push(a, e) | _ => a } }

func xpdf.(*Processor).Process(p, w) returns (err) {
	props C21, C19, C20, C10
	requires wellPatterned(p.hyphenator)
	requires E.path == []
	requires !p.preventPageBreak
	requires E.text == p.currStyles.Text
	requires trace == []
	callback OnHeader_f() {
		modifies xpdf.Processor.preventPageBreak, xpdf.Processor.currStyles
		requires E.path == [] && trace == [] && wellPatterned(p.hyphenator)
		ensures C19.cursor: E.x == old(E.x) && E.y == old(E.y)
		ensures C19.pages: E.pages == old(E.pages)
		ensures C19.again: !p.preventPageBreak
		ensures C10.style: p.currStyles == old(p.currStyles)
		ensures C20.header: steps(trace) == [DidAll(p.doc.Header.ISS)]
	}
	callback OnFooter_f() {
		modifies xpdf.Processor.preventPageBreak, xpdf.Processor.currStyles
		requires E.path == [] && trace == [] && wellPatterned(p.hyphenator)
		ensures C19.cursor: E.x == old(E.x) && E.y == old(E.y)
		ensures C19.pages: E.pages == old(E.pages)
		ensures C19.again: !p.preventPageBreak
		ensures C10.style: p.currStyles == old(p.currStyles)
		ensures C20.footer: steps(trace) == [DidAll(p.doc.Footer.ISS)]
	}
	ensures C21.success: isnil(err) ==> isnil(E.writeErr) && steps(trace) == [NewPage, DidAll(p.doc.Body.ISS), Wrote(w, true)]
	ensures C21.engine: steps(trace) == [NewPage, DidAll(p.doc.Body.ISS)] && !isnil(E.err) && err == E.err ||
		steps(trace) == [NewPage, DidAll(p.doc.Body.ISS), Wrote(w, true)] && err == E.writeErr
	ensures C20.body: len(steps(trace)) >= 2 && steps(trace)[0] == NewPage && steps(trace)[1] == DidAll(p.doc.Body.ISS)
}
