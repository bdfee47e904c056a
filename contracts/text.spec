// Text layout: lines of words, measured and written.
package xpdf

// ---- what a text is broken into ----

// the words of a text in their styles; a line holds words and the width they were measured with
data Wd = Wd(sty style.Styles, word string)
data Ln = Ln(words seq[Wd], width real)
// lines done, words and width of the line being filled
data Lay = Lay(lines seq[Ln], words seq[Wd], width real)

define trText(s string, page int) = replaced(s, "{cp}", sprintf("%d", [iface(page)]))
define normText(s string, page int) = rect(trText(s, page))
ufun splitAt(string, string) seq[string]
extern strings.Split(s, sep) returns (r) { ensures r == splitAt(s, sep) }

fold filled(ws seq[string], sty style.Styles, w real, b Lay) Lay {
	[] => b
	| a, s => match a { Lay(ls, its, x) =>
		if len(its) > 0 && x + textWidth(sty.Font, " " ++ s) >= w
		then Lay(push(ls, Ln(its, x)), [Wd(sty, s)], textWidth(sty.Font, " " ++ s))
		else Lay(ls, push(its, Wd(sty, s)), x + textWidth(sty.Font, " " ++ s)) }
}
// text blocks and paragraphs: their text and style
define isText(i xdoc.Instruction) = istype(i, "*xdoc.TextBlock") || istype(i, "*xdoc.Paragraph")
define blockText(i xdoc.Instruction, page int) = if istype(i, "*xdoc.TextBlock") then normText(astype(i, "*xdoc.TextBlock").Text, page) else normText(astype(i, "*xdoc.Paragraph").Text, page)
define blockSty(i xdoc.Instruction, sty style.Styles, cs style.Classes) = if istype(i, "*xdoc.TextBlock") then sty else styled(astype(i, "*xdoc.Paragraph").Styled, cs, sty)
define hasText(i xdoc.Instruction, page int) = isText(i) && blockText(i, page) != ""
fold layout(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int) Lay {
	[] => Lay([], [], 0.0)
	| a, i =>
		if istype(i, "*xdoc.LineBreak") then match a { Lay(ls, its, x) => Lay(push(ls, Ln(its, x)), [], 0.0) }
		else if hasText(i, page) then filled(splitAt(blockText(i, page), " "), blockSty(i, sty, cs), w, a)
		else a
}
define endedLay(l Lay) = match l { Lay(ls, its, x) => if len(its) > 0 then push(ls, Ln(its, x)) else ls }
define laidOut(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int) = endedLay(layout(iss, w, sty, cs, page))
// the font in force after breaking a text
fold fontAfter(iss seq[xdoc.Instruction], f style.Font, sty style.Styles, cs style.Classes, page int) style.Font {
	[] => f
	| a, i => if hasText(i, page) then blockSty(i, sty, cs).Font else a
}
define lnWords(l Ln) = match l { Ln(ws, x) => ws }
define lnWidth(l Ln) = match l { Ln(ws, x) => x }
define wdSty(w Wd) = match w { Wd(s, t) => s }
define wdText(w Wd) = match w { Wd(s, t) => t }
// the items of a line: its words, all but the first after a blank
define isLine(items seq[*xpdf.textItem], ws seq[Wd]) = len(items) == len(ws) &&
	forall j int {items[j]} :: 0 <= j && j < len(items) ==> items[j].sty == wdSty(ws[j]) &&
		items[j].text == (if j == 0 then wdText(ws[j]) else " " ++ wdText(ws[j]))
define areLines(lines seq[xpdf.textLine], ls seq[Ln]) = len(lines) == len(ls) &&
	forall i int {lines[i]} :: 0 <= i && i < len(lines) ==> lines[i].width == lnWidth(ls[i]) && isLine(lines[i].items, lnWords(ls[i]))
define aliveItems(items seq[*xpdf.textItem]) = forall j int {items[j]} :: 0 <= j && j < len(items) ==> 0 < items[j] && items[j] < alloc
define aliveLines(lines seq[xpdf.textLine]) = forall i int, j int {lines[i].items[j]} :: 0 <= i && i < len(lines) && 0 <= j && j < len(lines[i].items) ==> 0 < lines[i].items[j] && lines[i].items[j] < alloc

func xpdf.(*Processor).tr(p, s) returns (r) { modifies nothing ensures r == trText(s, pageNo(E.pages)) }

func xpdf.(*Processor).textLines(p, iss, width, sty) returns (lines) {
	props C01
	modifies nothing
	emits Measured
	ensures silent: marks(trace) == []
	inv marks(trace) == []
	ensures by.C01.C03.C04.lines: areLines(lines, laidOut(iss, width, sty, p.doc.styleClasses, pageNo(E.pages)))
	ensures font: E.font == fontAfter(iss, old(E.font), sty, p.doc.styleClasses, pageNo(E.pages))
	inv0 E.font == fontAfter(iss[0:$k], old(E.font), sty, p.doc.styleClasses, pageNo(E.pages))
	inv0 C01.C03.C04.aliveL (?lines []textLine, ?curr textLine): aliveLines(?lines) && aliveItems(?curr.items)
	inv0 C01.C03.C04.laid (?lines []textLine, ?curr textLine): match layout(iss[0:$k], width, sty, p.doc.styleClasses, pageNo(E.pages)) { Lay(ls, its, x) =>
		areLines(?lines, ls) && isLine(?curr.items, its) && ?curr.width == x }
	inv1 E.font == fontAfter(iss[0:$k0 + 1], old(E.font), sty, p.doc.styleClasses, pageNo(E.pages))
	inv1 C01.C03.C04.aliveL (?lines []textLine, ?curr textLine): aliveLines(?lines) && aliveItems(?curr.items)
	inv1 C01.C03.C04.text: hasText(iss[$k0], pageNo(E.pages))
	inv1 C01.C03.C04.laid (?lines []textLine, ?curr textLine): match filled(splitAt(blockText(iss[$k0], pageNo(E.pages)), " ")[0:$k], blockSty(iss[$k0], sty, p.doc.styleClasses), width, layout(iss[0:$k0], width, sty, p.doc.styleClasses, pageNo(E.pages))) { Lay(ls, its, x) =>
		areLines(?lines, ls) && isLine(?curr.items, its) && ?curr.width == x }
}

// ---- justified text ----

// like a line; also the width of the words alone, whether a paragraph ends with it, and whether it ends within a word
data JLn = JLn(words seq[Wd], width real, pure real, ends bool, split bool)
data JLay = JLay(lines seq[JLn], words seq[Wd], width real, pure real)
define jWords(l JLn) = match l { JLn(ws, x, y, e, h) => ws }
define jWidth(l JLn) = match l { JLn(ws, x, y, e, h) => x }
define jPure(l JLn) = match l { JLn(ws, x, y, e, h) => y }
define jSplit(l JLn) = match l { JLn(ws, x, y, e, h) => h }
define jEnds(l JLn) = match l { JLn(ws, x, y, e, h) => e }

extern strings.TrimPrefix(s, prefix) returns (r) { ensures r == if len(s) >= len(prefix) && s[0:len(prefix)] == prefix then s[len(prefix):len(s)] else s }

lemma headTrimmed(x string) {
	props C02, C03, C04
	trigger " " ++ x ++ "-"
	ensures (" " ++ x ++ "-")[1:len(" " ++ x ++ "-")] == x ++ "-"
}
lemma headBlank(x string) {
	props C02, C03, C04
	trigger " " ++ x ++ "-"
	ensures " " ++ x ++ "-" == " " ++ (x ++ "-") && (" " ++ x ++ "-")[0:1] == " "
}
define hyphenFits(f style.Font, head string, room real) = textWidth(f, " " ++ head ++ "-") <= room
// how many leading parts of a word, but not all, fit with a hyphen: the largest such number, or zero
ufun cutAt(seq[string], style.Font, real) int
axiom cutAtIs(ps seq[string], f style.Font, room real) {
	ensures 0 <= cutAt(ps, f, room) && (cutAt(ps, f, room) == 0 || cutAt(ps, f, room) < len(ps) && hyphenFits(f, joined(ps[0:cutAt(ps, f, room)]), room))
	trigger cutAt(ps, f, room)
}
axiom cutAtMost(ps seq[string], f style.Font, room real, j int) {
	requires 0 < j && j < len(ps) && cutAt(ps, f, room) < j
	ensures !hyphenFits(f, joined(ps[0:j]), room)
	trigger cutAt(ps, f, room), joined(ps[0:j])
}
define filledOne(s string, ps seq[string], cut int, sty style.Styles, w real, ls seq[JLn], its seq[Wd], x real, pu real) =
	if x + textWidth(sty.Font, " " ++ s) >= w then
		if cut == 0 then
			if len(its) > 0 then JLay(push(ls, JLn(its, x, pu, false, false)), [Wd(sty, s)], textWidth(sty.Font, " " ++ s), textWidth(sty.Font, s))
			else JLay(ls, [Wd(sty, s)], x + textWidth(sty.Font, " " ++ s), pu + textWidth(sty.Font, s))
		else let s1 = (if len(its) == 0 then "" else " ") ++ joined(ps[0:cut]) ++ "-" in let s2 = joined(ps[cut:len(ps)]) in
			JLay(push(ls, JLn(push(its, Wd(sty, joined(ps[0:cut]) ++ "-")), x + textWidth(sty.Font, s1), pu + textWidth(sty.Font, trimmed(s1, " ")), false, true)),
				[Wd(sty, s2)], textWidth(sty.Font, s2), textWidth(sty.Font, trimmed(s2, " ")))
	else JLay(ls, push(its, Wd(sty, s)), x + textWidth(sty.Font, " " ++ s), pu + textWidth(sty.Font, s))
fold justified(ws seq[string], sty style.Styles, w real, d map[string]bool, v map[string]hyphenation.pattern, b JLay) JLay {
	[] => b
	| a, s => match a { JLay(ls, its, x, pu) => filledOne(s, hyphens(s, d, v), cutAt(hyphens(s, d, v), sty.Font, w - x), sty, w, ls, its, x, pu) }
}
fold jLayout(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) JLay {
	[] => JLay([], [], 0.0, 0.0)
	| a, i =>
		if istype(i, "*xdoc.LineBreak") then match a { JLay(ls, its, x, pu) => JLay(push(ls, JLn(its, x, pu, true, false)), [], 0.0, 0.0) }
		else if hasText(i, page) then justified(splitAt(blockText(i, page), " "), blockSty(i, sty, cs), w, d, v, a)
		else a
}
define endedJ(l JLay) = match l { JLay(ls, its, x, pu) => if len(its) > 0 then push(ls, JLn(its, x, pu, true, false)) else ls }
define jLaidOut(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) = endedJ(jLayout(iss, w, sty, cs, page, d, v))
define areJLines(lines seq[xpdf.textLine], ls seq[JLn]) = len(lines) == len(ls) &&
	forall i int {lines[i]} :: 0 <= i && i < len(lines) ==> lines[i].width == jWidth(ls[i]) && lines[i].pureTextWidth == jPure(ls[i]) && lines[i].paragraph == jEnds(ls[i]) && isLine(lines[i].items, jWords(ls[i]))
define pats(p *xpdf.Processor) = mapdom(p.hyphenator.lookup.patterns)
define patVals(p *xpdf.Processor) = mapval(p.hyphenator.lookup.patterns)

func xpdf.(*Processor).textLinesHyphenated(p, iss, width, sty) returns (lines) {
	props C02
	requires wellPatterned(p.hyphenator)
	modifies nothing
	emits Measured
	ensures silent: marks(trace) == []
	inv marks(trace) == []
	ensures by.C02.C03.C04.lines: areJLines(lines, jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(E.pages), pats(p), patVals(p)))
	ensures font: E.font == fontAfter(iss, old(E.font), sty, p.doc.styleClasses, pageNo(E.pages))
	inv0 E.font == fontAfter(iss[0:$k], old(E.font), sty, p.doc.styleClasses, pageNo(E.pages))
	inv0 C02.C03.C04.aliveL (?lines []textLine, ?curr textLine): aliveLines(?lines) && aliveItems(?curr.items)
	inv0 C02.C03.C04.laidL (?lines []textLine): match jLayout(iss[0:$k], width, sty, p.doc.styleClasses, pageNo(E.pages), pats(p), patVals(p)) { JLay(ls, its, x, pu) =>
		areJLines(?lines, ls) }
	inv0 C02.C03.C04.laidC (?curr textLine): match jLayout(iss[0:$k], width, sty, p.doc.styleClasses, pageNo(E.pages), pats(p), patVals(p)) { JLay(ls, its, x, pu) =>
		isLine(?curr.items, its) }
	inv0 C02.C03.C04.laidW (?curr textLine): match jLayout(iss[0:$k], width, sty, p.doc.styleClasses, pageNo(E.pages), pats(p), patVals(p)) { JLay(ls, its, x, pu) =>
		?curr.width == x && ?curr.pureTextWidth == pu && !?curr.paragraph }
	inv1 E.font == fontAfter(iss[0:$k0 + 1], old(E.font), sty, p.doc.styleClasses, pageNo(E.pages))
	inv1 C02.C03.C04.aliveL (?lines []textLine, ?curr textLine): aliveLines(?lines) && aliveItems(?curr.items)
	inv1 C02.C03.C04.text: hasText(iss[$k0], pageNo(E.pages))
	inv1 C02.C03.C04.laidL (?lines []textLine): match justified(splitAt(blockText(iss[$k0], pageNo(E.pages)), " ")[0:$k], blockSty(iss[$k0], sty, p.doc.styleClasses), width, pats(p), patVals(p),
		jLayout(iss[0:$k0], width, sty, p.doc.styleClasses, pageNo(E.pages), pats(p), patVals(p))) { JLay(ls, its, x, pu) =>
		areJLines(?lines, ls) }
	inv1 C02.C03.C04.laidC (?curr textLine): match justified(splitAt(blockText(iss[$k0], pageNo(E.pages)), " ")[0:$k], blockSty(iss[$k0], sty, p.doc.styleClasses), width, pats(p), patVals(p),
		jLayout(iss[0:$k0], width, sty, p.doc.styleClasses, pageNo(E.pages), pats(p), patVals(p))) { JLay(ls, its, x, pu) =>
		isLine(?curr.items, its) }
	inv1 C02.C03.C04.laidW (?curr textLine): match justified(splitAt(blockText(iss[$k0], pageNo(E.pages)), " ")[0:$k], blockSty(iss[$k0], sty, p.doc.styleClasses), width, pats(p), patVals(p),
		jLayout(iss[0:$k0], width, sty, p.doc.styleClasses, pageNo(E.pages), pats(p), patVals(p))) { JLay(ls, its, x, pu) =>
		?curr.width == x && ?curr.pureTextWidth == pu && !?curr.paragraph }
	invariant2 C02.C03.C04.nofit (?room float64): let ps = hyphens(splitAt(blockText(iss[$k0], pageNo(E.pages)), " ")[$k1], pats(p), patVals(p)) in
		forall j int {joined(ps[0:j])} :: len(ps) - $k <= j && j < len(ps) && 0 < j ==> !hyphenFits(blockSty(iss[$k0], sty, p.doc.styleClasses).Font, joined(ps[0:j]), ?room)
}
// how many lines a text is broken into: looked into only where texts are laid out
ufun lineCount(bool, seq[xdoc.Instruction], real, style.Styles, style.Classes, int, map[string]bool, map[string]hyphenation.pattern) int
axiom lineCountLaid(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	ensures lineCount(false, iss, w, sty, cs, page, d, v) == len(laidOut(iss, w, sty, cs, page))
	trigger lineCount(false, iss, w, sty, cs, page, d, v), layout(iss, w, sty, cs, page)
}
axiom lineCountJustified(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	ensures lineCount(true, iss, w, sty, cs, page, d, v) == len(jLaidOut(iss, w, sty, cs, page, d, v))
	trigger lineCount(true, iss, w, sty, cs, page, d, v), jLayout(iss, w, sty, cs, page, d, v)
}
define block(sty style.Styles) = sty.HAlign == "block"
define linesHeight(n int, sty style.Styles, f style.Font) =
	if n == 0 then 0.0 else real(n - 1) * (fontHeight(f) * sty.LineSpacing) + fontHeight(f)
define linesIn(justify bool, p *xpdf.Processor, iss seq[xdoc.Instruction], w real, sty style.Styles, page int) =
	lineCount(justify, iss, w, sty, p.doc.styleClasses, page, pats(p), patVals(p))
define heightOf(justify bool, p *xpdf.Processor, iss seq[xdoc.Instruction], w real, sty style.Styles, page int) =
	linesHeight(linesIn(justify, p, iss, w, sty, page), sty, fontAfter(iss, sty.Font, sty, p.doc.styleClasses, page))
define textH(p *xpdf.Processor, iss seq[xdoc.Instruction], w real, sty style.Styles, page int) = heightOf(block(sty), p, iss, w, sty, page)

func xpdf.(*Processor).textHeight(p, iss, width, sty) returns (h) {
	props C04
	modifies nothing
	emits Measured
	ensures silent: marks(trace) == []
	ensures height: h == heightOf(false, p, iss, width, sty, pageNo(E.pages))
	ensures C04.nonneg: sty.LineSpacing >= 0 ==> h >= 0
	ensures E.text == old(E.text) && E.x == old(E.x) && E.y == old(E.y) && E.pages == old(E.pages)
}
func xpdf.(*Processor).textHeightHyphenated(p, iss, width, sty) returns (h) {
	props C04
	requires wellPatterned(p.hyphenator)
	modifies nothing
	emits Measured
	ensures silent: marks(trace) == []
	ensures height: h == heightOf(true, p, iss, width, sty, pageNo(E.pages))
	ensures C04.nonneg: sty.LineSpacing >= 0 ==> h >= 0
	ensures E.text == old(E.text) && E.x == old(E.x) && E.y == old(E.y) && E.pages == old(E.pages)
}
// ---- what the layout keeps ----

define layLines(l Lay) = match l { Lay(ls, its, x) => ls }
define layWords(l Lay) = match l { Lay(ls, its, x) => its }
define layWidth(l Lay) = match l { Lay(ls, its, x) => x }
fold wordsOn(ls seq[Ln]) seq[Wd] { [] => [] | a, l => a ++ lnWords(l) }
fold inStyle(ws seq[string], sty style.Styles) seq[Wd] { [] => [] | a, s => push(a, Wd(sty, s)) }
// the words of a document in their styles
fold docWords(iss seq[xdoc.Instruction], sty style.Styles, cs style.Classes, page int) seq[Wd] {
	[] => [] | a, i => if hasText(i, page) then a ++ inStyle(splitAt(blockText(i, page), " "), blockSty(i, sty, cs)) else a }
fold blankLines(ls seq[Ln]) int { [] => 0 | a, l => if len(lnWords(l)) == 0 then a + 1 else a }
fold breaks(iss seq[xdoc.Instruction]) int { [] => 0 | a, i => if istype(i, "*xdoc.LineBreak") then a + 1 else a }
fold measuredWords(ws seq[Wd]) real { [] => 0.0 | a, w => a + textWidth(wdSty(w).Font, " " ++ wdText(w)) }
define fitting(ws seq[Wd], x real, w real) = x == measuredWords(ws) && (len(ws) > 1 ==> x < w)
fold allFit(ls seq[Ln], w real) bool { [] => true | a, l => a && fitting(lnWords(l), lnWidth(l), w) }

lemma filledKept(ws seq[string], sty style.Styles, w real, b Lay) {
	props C01
	induction ws
	trigger filled(ws, sty, w, b)
	ensures wordsOn(layLines(filled(ws, sty, w, b))) ++ layWords(filled(ws, sty, w, b)) == wordsOn(layLines(b)) ++ layWords(b) ++ inStyle(ws, sty)
}
lemma layoutKept(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int) {
	props C01
	induction iss
	trigger layout(iss, w, sty, cs, page)
	ensures wordsOn(layLines(layout(iss, w, sty, cs, page))) ++ layWords(layout(iss, w, sty, cs, page)) == docWords(iss, sty, cs, page)
}
// every word of the document, once, in order and in its style
lemma allKept(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int) {
	props C01
	ensures wordsOn(laidOut(iss, w, sty, cs, page)) == docWords(iss, sty, cs, page)
}
lemma filledBlanks(ws seq[string], sty style.Styles, w real, b Lay) {
	props C01
	induction ws
	trigger filled(ws, sty, w, b)
	ensures blankLines(layLines(filled(ws, sty, w, b))) == blankLines(layLines(b))
}
lemma layoutBlanks(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int) {
	props C01
	induction iss
	trigger layout(iss, w, sty, cs, page)
	ensures blankLines(layLines(layout(iss, w, sty, cs, page))) <= breaks(iss)
}
// no blank line but by an explicit break
lemma fewBlanks(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int) {
	props C01
	ensures blankLines(laidOut(iss, w, sty, cs, page)) <= breaks(iss)
}
lemma filledFits(ws seq[string], sty style.Styles, w real, b Lay) {
	props C03
	induction ws
	trigger filled(ws, sty, w, b)
	ensures allFit(layLines(b), w) && fitting(layWords(b), layWidth(b), w) ==>
		allFit(layLines(filled(ws, sty, w, b)), w) && fitting(layWords(filled(ws, sty, w, b)), layWidth(filled(ws, sty, w, b)), w)
}
lemma layoutFits(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int) {
	props C03
	induction iss
	trigger layout(iss, w, sty, cs, page)
	ensures allFit(layLines(layout(iss, w, sty, cs, page)), w) && fitting(layWords(layout(iss, w, sty, cs, page)), layWidth(layout(iss, w, sty, cs, page)), w)
}
// a line of several words is as wide as them and narrower than the width
lemma linesFit(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int) {
	props C03
	ensures allFit(laidOut(iss, w, sty, cs, page), w)
}

// the words of justified lines, rejoined where a line ends within a word
data Rj = Rj(ws seq[Wd], open bool)
fold addWords(ws seq[Wd], b Rj) Rj { [] => b | a, w => match a { Rj(xs, open) =>
	if open then Rj(push(xs[0:len(xs) - 1], Wd(wdSty(w), wdText(last(xs)) ++ wdText(w))), false) else Rj(push(xs, w), false) } }
define unhyphened(r Rj) = match r { Rj(xs, open) =>
	Rj(push(xs[0:len(xs) - 1], Wd(wdSty(last(xs)), wdText(last(xs))[0:len(wdText(last(xs))) - 1])), true) }
fold rejoined(ls seq[JLn]) Rj { [] => Rj([], false) | a, l => if jSplit(l) then unhyphened(addWords(jWords(l), a)) else addWords(jWords(l), a) }
define jlLines(l JLay) = match l { JLay(ls, its, x, pu) => ls }
define jlWords(l JLay) = match l { JLay(ls, its, x, pu) => its }
define jlWidth(l JLay) = match l { JLay(ls, its, x, pu) => x }
define allWords(l JLay) = addWords(jlWords(l), rejoined(jlLines(l)))
define rjWords(r Rj) = match r { Rj(xs, open) => xs }
define rjOpen(r Rj) = match r { Rj(xs, open) => open }
lemma splitRejoined(ps seq[string], f style.Font, room real) {
	props C02
	requires len(ps) > 0
	trigger cutAt(ps, f, room)
	ensures let c = cutAt(ps, f, room) in joined(ps[0:c]) ++ joined(ps[c:len(ps)]) == joined(ps)
	hint ps[0:cutAt(ps, f, room)] ++ ps[cutAt(ps, f, room):len(ps)]
}
lemma justifiedKept(ws seq[string], sty style.Styles, w real, d map[string]bool, v map[string]hyphenation.pattern, b JLay) {
	props C02
	induction ws
	trigger justified(ws, sty, w, d, v, b)
	ensures !rjOpen(allWords(b)) ==> !rjOpen(allWords(justified(ws, sty, w, d, v, b))) &&
		rjWords(allWords(justified(ws, sty, w, d, v, b))) == rjWords(allWords(b)) ++ inStyle(ws, sty)
}
lemma jLayoutKept(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	props C02
	induction iss
	trigger jLayout(iss, w, sty, cs, page, d, v)
	ensures !rjOpen(allWords(jLayout(iss, w, sty, cs, page, d, v))) && rjWords(allWords(jLayout(iss, w, sty, cs, page, d, v))) == docWords(iss, sty, cs, page)
}
// every word of the document, once, in order and in its style, up to the hyphens put in
lemma allJustifiedKept(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	props C02
	ensures rejoined(jLaidOut(iss, w, sty, cs, page, d, v)) == Rj(docWords(iss, sty, cs, page), false)
}
fold blankJLines(ls seq[JLn]) int { [] => 0 | a, l => if len(jWords(l)) == 0 then a + 1 else a }
lemma justifiedBlanks(ws seq[string], sty style.Styles, w real, d map[string]bool, v map[string]hyphenation.pattern, b JLay) {
	props C02
	induction ws
	trigger justified(ws, sty, w, d, v, b)
	ensures blankJLines(jlLines(justified(ws, sty, w, d, v, b))) == blankJLines(jlLines(b))
}
lemma jLayoutBlanks(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	props C02
	induction iss
	trigger jLayout(iss, w, sty, cs, page, d, v)
	ensures blankJLines(jlLines(jLayout(iss, w, sty, cs, page, d, v))) <= breaks(iss)
}
lemma fewJBlanks(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	props C02
	ensures blankJLines(jLaidOut(iss, w, sty, cs, page, d, v)) <= breaks(iss)
}
fold allJFit(ls seq[JLn], w real) bool { [] => true | a, l => a && (len(jWords(l)) > 1 ==> jWidth(l) <= w) }
lemma justifiedFits(ws seq[string], sty style.Styles, w real, d map[string]bool, v map[string]hyphenation.pattern, b JLay) {
	props C03
	induction ws
	trigger justified(ws, sty, w, d, v, b)
	ensures allJFit(jlLines(b), w) && (len(jlWords(b)) > 1 ==> jlWidth(b) <= w) ==>
		allJFit(jlLines(justified(ws, sty, w, d, v, b)), w) && (len(jlWords(justified(ws, sty, w, d, v, b))) > 1 ==> jlWidth(justified(ws, sty, w, d, v, b)) <= w)
}
lemma jLayoutFits(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	props C03
	induction iss
	trigger jLayout(iss, w, sty, cs, page, d, v)
	ensures allJFit(jlLines(jLayout(iss, w, sty, cs, page, d, v)), w) && (len(jlWords(jLayout(iss, w, sty, cs, page, d, v))) > 1 ==> jlWidth(jLayout(iss, w, sty, cs, page, d, v)) <= w)
}
// a line of several words is no wider than the width
lemma justifiedLinesFit(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	props C03
	ensures allJFit(jLaidOut(iss, w, sty, cs, page, d, v), w)
}

// ---- what is written ----

data Out = Word(font style.Font, color style.RGB, s string) | Ended
fold out(t seq[Ev]) seq[Out] { [] => [] | a, e => match e { Words(f, c, x, s) => push(a, Word(f, c, s)) | Feed(n) => push(a, Ended) | _ => a } }
fold outWords(ws seq[Wd]) seq[Out] { [] => [] | a, w => push(a, Word(wdSty(w).Font, wdSty(w).Text, if len(a) == 0 then wdText(w) else " " ++ wdText(w))) }
lemma outWordsLen(ws seq[Wd]) { induction ws trigger outWords(ws) ensures len(outWords(ws)) == len(ws) }
fold outLines(ls seq[Ln]) seq[Out] { [] => [] | a, l => push(a ++ outWords(lnWords(l)), Ended) }
// where the lines start
data Starts = Starts(xs seq[real], at bool)
fold starting(t seq[Ev]) Starts { [] => Starts([], true) | a, e => match a { Starts(xs, at) => match e {
	Words(f, c, x, s) => Starts(if at then push(xs, x) else xs, false) | Feed(n) => Starts(xs, true) | _ => a } } }
define aligned(l Ln, ha string, w real, x real) = if ha == "center" then x + (w - lnWidth(l)) / 2.0 else if ha == "right" then x + w - lnWidth(l) else x
fold startsOf(ls seq[Ln], ha string, w real, x real) seq[real] { [] => [] | a, l => if len(lnWords(l)) > 0 then push(a, aligned(l, ha, w, x)) else a }
fold feeds(t seq[Ev]) seq[real] { [] => [] | a, e => match e { Feed(n) => push(a, n) | _ => a } }
fold feedsOf(ls seq[Ln], n real) seq[real] { [] => [] | a, l => push(a, n) }
define alignable(sty style.Styles) = sty.HAlign == "left" || sty.HAlign == "center" || sty.HAlign == "right"

func xpdf.(*Processor).writeText(p, iss, width, sty) {
	props C01, C03, C04
	modifies nothing
	emits Flowed(false, iss, width, sty, E.x, E.y)
	ensures C01.written: out(trace) == outLines(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages))))
	ensures C03.starts: alignable(sty) ==> starting(trace) == Starts(startsOf(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages))), sty.HAlign, width, old(E.x)), true)
	ensures C04.feeds: feeds(trace) == feedsOf(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages))), sty.LineSpacing)
	inv0 C01.out: out(trace) == outLines(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[0:$k])
	inv1 C01.out: out(trace) == outLines(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[0:$k0]) ++ outWords(lnWords(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[$k0])[0:$k])
	inv0 C04.feeds: feeds(trace) == feedsOf(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[0:$k], sty.LineSpacing)
	inv1 C04.feeds: feeds(trace) == feedsOf(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[0:$k0], sty.LineSpacing)
	inv0 C03.starts: alignable(sty) ==> starting(trace) == Starts(startsOf(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[0:$k], sty.HAlign, width, old(E.x)), true)
	inv1 C03.starts: alignable(sty) ==> starting(trace) == (if $k == 0 then Starts(startsOf(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[0:$k0], sty.HAlign, width, old(E.x)), true)
		else Starts(startsOf(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[0:$k0 + 1], sty.HAlign, width, old(E.x)), false))
	inv1 C03.at: alignable(sty) && $k == 0 ==> E.x == aligned(laidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)))[$k0], sty.HAlign, width, old(E.x))
}
// a justified line: its words spread over the width unless a paragraph ends with it
define spreadOut(l JLn) = len(jWords(l)) > 1 && !jEnds(l)
fold outTrimmed(ws seq[Wd]) seq[Out] { [] => [] | a, w => push(a, Word(wdSty(w).Font, wdSty(w).Text, trimmed(if len(a) == 0 then wdText(w) else " " ++ wdText(w), " "))) }
lemma outTrimmedLen(ws seq[Wd]) { induction ws trigger outTrimmed(ws) ensures len(outTrimmed(ws)) == len(ws) }
fold outJLines(ls seq[JLn]) seq[Out] { [] => [] | a, l => push(a ++ (if spreadOut(l) then outTrimmed(jWords(l)) else outWords(jWords(l))), Ended) }
// no word holds a blank, so that trimming takes away only the blank before it
fold unblank(s string) bool { [] => true | a, c => a && c != 32 }
fold wordsUnblank(ws seq[Wd]) bool { [] => true | a, w => a && unblank(wdText(w)) }
fold textsUnblank(ws seq[string]) bool { [] => true | a, w => a && unblank(w) }
// what strings.Split is documented to do: no part holds the separator
axiom splitUnblank(s string) { ensures textsUnblank(splitAt(s, " ")) trigger splitAt(s, " ") }
fold linesUnblank(ls seq[JLn]) bool { [] => true | a, l => a && wordsUnblank(jWords(l)) }
lemma unblankConcat(a string, b string) {
	props C02
	induction b
	trigger unblank(a ++ b)
	ensures unblank(a ++ b) == (unblank(a) && unblank(b))
}
lemma unblankAt(s string, i int) {
	props C02
	induction s
	trigger unblank(s), s[i]
	requires unblank(s) && 0 <= i && i < len(s)
	ensures s[i] != 32
}
lemma trimUnblank(w string) {
	props C02
	steps
	trigger unblank(w), trimmed(" " ++ w, " ")
	requires unblank(w)
	ensures trimFrom(" " ++ w) <= 1 || len(w) == 0
	ensures len(w) > 0 ==> w[0] != 32 && w[len(w) - 1] != 32 && (" " ++ w)[1] == w[0] && (" " ++ w)[len(w)] == w[len(w) - 1]
	ensures trimmed(" " ++ w, " ") == w
}
lemma trimUnblankFirst(w string) {
	props C02
	steps
	trigger unblank(w), trimmed(w, " ")
	requires unblank(w)
	ensures len(w) > 0 ==> w[0] != 32 && w[len(w) - 1] != 32
	ensures trimmed(w, " ") == w
}
lemma halvesUnblank(ps seq[string], f style.Font, room real) {
	props C02
	trigger cutAt(ps, f, room)
	requires len(ps) > 0 && unblank(joined(ps))
	hint unblank(joined(ps[0:cutAt(ps, f, room)]) ++ joined(ps[cutAt(ps, f, room):len(ps)]))
	ensures unblank(joined(ps[0:cutAt(ps, f, room)])) && unblank(joined(ps[cutAt(ps, f, room):len(ps)]))
}
lemma justifiedUnblank(ws seq[string], sty style.Styles, w real, d map[string]bool, v map[string]hyphenation.pattern, b JLay) {
	props C02
	induction ws
	trigger justified(ws, sty, w, d, v, b)
	requires textsUnblank(ws) && linesUnblank(jlLines(b)) && wordsUnblank(jlWords(b))
	ensures linesUnblank(jlLines(justified(ws, sty, w, d, v, b))) && wordsUnblank(jlWords(justified(ws, sty, w, d, v, b)))
}
lemma jLayoutUnblank(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	props C02
	induction iss
	trigger jLayout(iss, w, sty, cs, page, d, v)
	ensures linesUnblank(jlLines(jLayout(iss, w, sty, cs, page, d, v))) && wordsUnblank(jlWords(jLayout(iss, w, sty, cs, page, d, v)))
}
// what reaches the page: the words as they are where a line is spread out
fold outPlain(ws seq[Wd]) seq[Out] { [] => [] | a, w => push(a, Word(wdSty(w).Font, wdSty(w).Text, wdText(w))) }
fold outJPlain(ls seq[JLn]) seq[Out] { [] => [] | a, l => push(a ++ (if spreadOut(l) then outPlain(jWords(l)) else outWords(jWords(l))), Ended) }
lemma outTrimmedPlain(ws seq[Wd]) {
	props C02
	induction ws
	trigger outTrimmed(ws)
	requires wordsUnblank(ws)
	ensures outTrimmed(ws) == outPlain(ws)
}
lemma outJLinesPlain(ls seq[JLn]) {
	props C02
	induction ls
	trigger outJLines(ls)
	requires linesUnblank(ls)
	ensures outJLines(ls) == outJPlain(ls)
}
lemma writtenPlain(iss seq[xdoc.Instruction], w real, sty style.Styles, cs style.Classes, page int, d map[string]bool, v map[string]hyphenation.pattern) {
	props C02
	ensures outJLines(jLaidOut(iss, w, sty, cs, page, d, v)) == outJPlain(jLaidOut(iss, w, sty, cs, page, d, v))
}
fold feedsOfJ(ls seq[JLn], n real) seq[real] { [] => [] | a, l => push(a, n) }
// where each word starts
fold wordXs(t seq[Ev]) seq[real] { [] => [] | a, e => match e { Words(f, c, x, s) => push(a, x) | _ => a } }
data Pen = Pen(xs seq[real], n int, x real)
fold together(ws seq[Wd], b Pen) Pen { [] => b | a, w => match a { Pen(xs, n, x) =>
	Pen(push(xs, x), n + 1, endX(x, wdSty(w).Font, if n == 0 then wdText(w) else " " ++ wdText(w))) } }
fold apartBy(ws seq[Wd], gap real, b Pen) Pen { [] => b | a, w => match a { Pen(xs, n, x) =>
	Pen(push(xs, x), n + 1, endX(x, wdSty(w).Font, trimmed(if n == 0 then wdText(w) else " " ++ wdText(w), " ")) + gap) } }
// what remains of the width (short of a tenth), in equal parts
define gapOf(l JLn, w real) = (w - 0.1 - jPure(l)) / real(len(jWords(l)) - 1)
define penned(ws seq[Wd], l JLn, w real, b Pen) = if spreadOut(l) then apartBy(ws, gapOf(l, w), b) else together(ws, b)
define penXs(p Pen) = match p { Pen(xs, n, x) => xs }
define penX(p Pen) = match p { Pen(xs, n, x) => x }
define penN(p Pen) = match p { Pen(xs, n, x) => n }
fold placedWords(ls seq[JLn], w real, x real) seq[real] { [] => [] | a, l => penXs(penned(jWords(l), l, w, Pen(a, 0, x))) }
lemma togetherN(ws seq[Wd], b Pen) { induction ws trigger together(ws, b) ensures penN(together(ws, b)) == penN(b) + len(ws) }
lemma apartN(ws seq[Wd], gap real, b Pen) { induction ws trigger apartBy(ws, gap, b) ensures penN(apartBy(ws, gap, b)) == penN(b) + len(ws) }

func xpdf.(*Processor).writeTextHyphenated(p, iss, width, sty) {
	props C02, C03, C04
	requires wellPatterned(p.hyphenator)
	modifies nothing
	emits Flowed(true, iss, width, sty, E.x, E.y)
	ensures C02.written: out(trace) == outJLines(jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p)))
	ensures C03.placed: wordXs(trace) == placedWords(jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p)), width, old(E.x))
	ensures C04.feeds: feeds(trace) == feedsOfJ(jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p)), sty.LineSpacing)
	inv0 C02.out: out(trace) == outJLines(jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p))[0:$k])
	inv1 C02.out: let L = jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p)) in
		out(trace) == outJLines(L[0:$k0]) ++ (if spreadOut(L[$k0]) then outTrimmed(jWords(L[$k0])[0:$k]) else outWords(jWords(L[$k0])[0:$k]))
	inv0 C04.feeds: feeds(trace) == feedsOfJ(jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p))[0:$k], sty.LineSpacing)
	inv1 C04.feeds: feeds(trace) == feedsOfJ(jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p))[0:$k0], sty.LineSpacing)
	inv0 C03.xs: wordXs(trace) == placedWords(jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p))[0:$k], width, old(E.x))
	inv1 C03.xs: let L = jLaidOut(iss, width, sty, p.doc.styleClasses, pageNo(old(E.pages)), pats(p), patVals(p)) in
		let P = penned(jWords(L[$k0])[0:$k], L[$k0], width, Pen(placedWords(L[0:$k0], width, old(E.x)), 0, old(E.x))) in
		wordXs(trace) == penXs(P) && E.x == penX(P)
}
