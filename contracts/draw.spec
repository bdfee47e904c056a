package xpdf

// a segment that covers the side from (x0,y0) to (x1,y1), overhanging it by at
// most h at either end
define coversH(s Seg, x0 real, x1 real, y real, h real) =
	s.y0 == y && s.y1 == y && x0 - h <= min(s.x0, s.x1) <= x0 && x1 <= max(s.x0, s.x1) <= x1 + h
define coversV(s Seg, y0 real, y1 real, x real, h real) =
	s.x0 == x && s.x1 == x && y0 - h <= min(s.y0, s.y1) <= y0 && y1 <= max(s.y0, s.y1) <= y1 + h
define point(s Seg) = s.x0 == s.x1 && s.y0 == s.y1
fold hasH(p seq[Seg], x0 real, x1 real, y real, h real) bool { [] => false | a, s => a || coversH(s, x0, x1, y, h) }
fold hasV(p seq[Seg], y0 real, y1 real, x real, h real) bool { [] => false | a, s => a || coversV(s, y0, y1, x, h) }
fold onlySides(p seq[Seg], t bool, r bool, b bool, l bool, x0 real, y0 real, x1 real, y1 real, h real) bool {
	[] => true | a, s => a && (t && coversH(s, x0, x1, y0, h) || b && coversH(s, x0, x1, y1, h) ||
	l && coversV(s, y0, y1, x0, h) || r && coversV(s, y0, y1, x1, h) || point(s))
}
// what was stroked, all strokes together, and what was filled
fold strokesFit(t seq[Ev], c style.RGB, lw real, T bool, R bool, B bool, L bool, x0 real, y0 real, x1 real, y1 real) bool {
	[] => true | a, e => a && match e { Stroke(cc, w, p) => cc == c && w == lw && onlySides(p, T, R, B, L, x0, y0, x1, y1, lw / 2) | Rect(cc, x, y, w, h) => true | _ => false }
}
fold strokedH(t seq[Ev], x0 real, x1 real, y real, h real) bool {
	[] => false | a, e => a || match e { Stroke(cc, w, p) => hasH(p, x0, x1, y, h) | _ => false }
}
fold strokedV(t seq[Ev], y0 real, y1 real, x real, h real) bool {
	[] => false | a, e => a || match e { Stroke(cc, w, p) => hasV(p, y0, y1, x, h) | _ => false }
}
fold fills(t seq[Ev]) seq[Ev] { [] => [] | a, e => match e { Rect(c, x, y, w, h) => push(a, e) | _ => a } }

func xpdf.(*Processor).drawBox(p, x0, y0, x1, y1, sty) {
	props C17
	requires E.path == []
	emits Boxed(x0, y0, x1, y1, sty)
	ensures fill: let d = sty.Draw.LineWidth in fills(trace) == [Rect(sty.Color.Background, x0 + d / 2, y0 + d / 2, x1 - x0 - d, y1 - y0 - d)]
	ensures edges: x0 <= x1 && y0 <= y1 && sty.Draw.LineWidth >= 0 ==>
		strokesFit(trace, sty.Color.Foreground, sty.Draw.LineWidth, sty.Box.Border.Top > 0, sty.Box.Border.Right > 0, sty.Box.Border.Bottom > 0, sty.Box.Border.Left > 0, x0, y0, x1, y1)
	ensures top: x0 <= x1 && sty.Draw.LineWidth >= 0 && sty.Box.Border.Top > 0 ==> strokedH(trace, x0, x1, y0, sty.Draw.LineWidth / 2)
	ensures bottom: x0 <= x1 && sty.Draw.LineWidth >= 0 && sty.Box.Border.Bottom > 0 ==> strokedH(trace, x0, x1, y1, sty.Draw.LineWidth / 2)
	ensures left: y0 <= y1 && sty.Draw.LineWidth >= 0 && sty.Box.Border.Left > 0 ==> strokedV(trace, y0, y1, x0, sty.Draw.LineWidth / 2)
	ensures right: y0 <= y1 && sty.Draw.LineWidth >= 0 && sty.Box.Border.Right > 0 ==> strokedV(trace, y0, y1, x1, sty.Draw.LineWidth / 2)
	ensures done: E.path == []
}
