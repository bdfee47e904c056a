package xpdf

ufun resolved(string, string) string
ufun imgOK(string) bool
ufun imgW(string) int
ufun imgH(string) int

define mm(px int) = real(px) * 25.4 / 96
define pixels(src string) = imgOK(src)

extern image.DecodeConfig(r) returns (cfg, format, err) { }
extern os.Open(name) returns (f, err) { allocs emits Opened(name, isnil(err)) ensures linesOf(iface(f)) == fileLines(name) && readable(iface(f)) == fileReadable(name) }
extern os.(*File).Close(f) returns (err) { }

func xpdf.DescribeImage(src) returns (d, err) { trusted
	ensures isnil(err) == imgOK(src)
	ensures d.WidthPx == imgW(src) && d.HeightPx == imgH(src)
	ensures imgOK(src) ==> d.WidthPx > 0 && d.HeightPx > 0
}
func xpdf.ImageDescriptor.WidthMm(id, dpi) returns (r) {
	props C18
	ensures dpi != 0 ==> r == real(id.WidthPx) * 25.4 / real(dpi)
}
func xpdf.ImageDescriptor.HeightMm(id, dpi) returns (r) {
	props C18
	ensures dpi != 0 ==> r == real(id.HeightPx) * 25.4 / real(dpi)
}

// the size asked for: the styled one, a missing dimension from the image's
// proportions, both from its pixel size at 96 dpi
define askedW(sty style.Styles, iw real, ih real) =
	if sty.Width > 0 then sty.Width else if sty.Height > 0 then iw / ih * sty.Height else iw
define askedH(sty style.Styles, iw real, ih real) =
	if sty.Height > 0 then sty.Height else if sty.Width > 0 then ih / iw * sty.Width else ih

func xpdf.(*Processor).renderImage(p, img, pa) {
	props C18, C10
	modifies nothing
	emits DidImage(img, pa)
	ensures C18.missing: let src = resolvedFile(p.workingDir, img.Source) in !imgOK(src) ==> images(trace) == []
	ensures C18.placed: let src = resolvedFile(p.workingDir, img.Source) in imgOK(src) ==>
		let sty = styled(img.Styled, p.doc.styleClasses, p.currStyles) in
		len(images(trace)) == 1 && match images(trace)[0] {
			Image(s, x, y, w, h) => s == src && x == old(E.x) + sty.OffsetX && y == old(E.y) + sty.OffsetY | _ => false }
	ensures C18.fits: let src = resolvedFile(p.workingDir, img.Source) in imgOK(src) ==>
		let sty = styled(img.Styled, p.doc.styleClasses, p.currStyles) in
		pa.x1 - pa.x0 - sty.OffsetX > 0 && pa.y1 - pa.y0 - sty.OffsetY > 0 ==>
		match images(trace)[0] {
			Image(s, x, y, w, h) => w <= pa.x1 - pa.x0 - sty.OffsetX && h <= pa.y1 - pa.y0 - sty.OffsetY | _ => false }
	ensures C18.scale: let src = resolvedFile(p.workingDir, img.Source) in imgOK(src) ==>
		let sty = styled(img.Styled, p.doc.styleClasses, p.currStyles) in
		pa.x1 - pa.x0 - sty.OffsetX > 0 && pa.y1 - pa.y0 - sty.OffsetY > 0 ==>
		let aw = askedW(sty, mm(imgW(src)), mm(imgH(src))) in let ah = askedH(sty, mm(imgW(src)), mm(imgH(src))) in
		match images(trace)[0] { Image(s, x, y, w, h) => w * ah == h * aw && w <= aw && h <= ah | _ => false }
	ensures C18.noneed: let src = resolvedFile(p.workingDir, img.Source) in imgOK(src) ==>
		let sty = styled(img.Styled, p.doc.styleClasses, p.currStyles) in
		let aw = askedW(sty, mm(imgW(src)), mm(imgH(src))) in let ah = askedH(sty, mm(imgW(src)), mm(imgH(src))) in
		let fw = pa.x1 - pa.x0 - sty.OffsetX in let fh = pa.y1 - pa.y0 - sty.OffsetY in
		match images(trace)[0] { Image(s, x, y, w, h) => fw > 0 && fh > 0 ==> (w == aw || w == fw || h == fh) | _ => false }
	ensures C10.keep: E.font == old(E.font) && E.text == old(E.text)
}
fold images(t seq[Ev]) seq[Ev] { [] => [] | a, e => match e { Image(s, x, y, w, h) => push(a, e) | _ => a } }
