package xpdf_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/style"
)

// wline is one written line, word by word.
type wline struct {
	ws   []event
	feed float64
}

// flowed is a text that has been written.
type flowed struct {
	got   *recEngine
	lines []wline
	words []*rword // what it should say, nil for a break
	sty   style.Styles
	x0    float64
	width float64
	f     *ref
}

// flow writes one text of the given alignment, alone in a document.
func flow(v *verifRun, r *rand.Rand, align string) flowed {
	cs := randClasses(r, fontKeys...)
	n := node{kind: "text", ds: append(without(randDecls(r, 3, parKeys...), []decl{{k: "h-align"}, {k: "width"}}), decl{"h-align", align}), kids: randFlow(r, 6)}
	if len(n.kids) == 0 {
		n.kids = []node{{kind: "txt", text: randText(r, 8)}}
	}
	switch r.Intn(4) {
	case 0, 1, 2:
		n.ds = append(n.ds, decl{"width", fmt.Sprint(5 + r.Intn(70))})
	}
	body := []node{n}
	if r.Intn(3) == 0 {
		body = append([]node{{kind: "setx", num: float64(r.Intn(30))}}, n)
	}
	if r.Intn(4) == 0 { // a later page
		body = append([]node{{kind: "newpage"}}, body...)
	}
	pat := randPatterns(r)
	got, want := both(v, r, rdoc{cs: cs, body: body}, pat, "/", nil, false)
	fl := flowed{got: got, f: &ref{e: want, cs: cs, inh: xpdf.DefaultStyle(), h: hyph(pat)}}
	want.pages = got.pages
	fl.sty = fl.f.sty(n)
	ax0, _, ax1, _ := got.PrintableArea()
	fl.width = eff(ax1-ax0, fl.sty.Width)
	fl.words = fl.f.words(n.kids, fl.sty)
	fl.x0 = got.l
	if body[0].kind == "setx" {
		fl.x0 = body[0].num
	} else if len(body) > 1 && body[1].kind == "setx" {
		fl.x0 = body[1].num
	}
	var cur wline
	for _, e := range got.ev {
		switch e.op {
		case "text":
			one := &recEngine{ev: []event{e}, kern: got.kern}
			cur.ws = append(cur.ws, inkWords(one)...)
		case "feed":
			cur.feed = e.f
			fl.lines = append(fl.lines, cur)
			cur = wline{}
		}
	}
	if len(cur.ws) > 0 {
		v.failf("the last line is not ended")
	}
	return fl
}

func (fl *flowed) show() string {
	var b strings.Builder
	for _, l := range fl.lines {
		b.WriteString("|")
		for i, w := range l.ws {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(w.s)
		}
	}
	return b.String()
}

// natural is the width of a line as its words and single blanks measure.
func (fl *flowed) natural(l wline) float64 {
	w := 0.0
	for i, e := range l.ws {
		if i > 0 {
			w += fl.got.width(e.font, " "+e.s)
		} else {
			w += fl.got.width(e.font, e.s)
		}
	}
	return w
}

func sameStyle(e event, s style.Styles) bool { return e.font == s.Font && e.color == s.Text }

// checkWords matches the lines with the words; split tells how many lines end
// with a hyphenated word.
func (fl *flowed) checkWords(v *verifRun, hyphens bool) (split int, ended []bool) {
	i := 0
	var rest *rword
	for li, l := range fl.lines {
		for k, w := range l.ws {
			if rest != nil {
				if w.s != rest.s || !sameStyle(w, rest.sty) {
					v.failf("line %d goes on with %q, want the tail %q: %s", li, w.s, rest.s, fl.show())
				}
				rest = nil
				continue
			}
			if i >= len(fl.words) || fl.words[i] == nil {
				v.failf("line %d has %q where the text has an end or break: %s", li, w.s, fl.show())
			}
			x := fl.words[i]
			if !sameStyle(w, x.sty) {
				v.failf("%q is written in %v %v, want %v %v", w.s, w.font, w.color, x.sty.Font, x.sty.Text)
			}
			i++
			if w.s == x.s {
				continue
			}
			// the head of the word, ending the line
			h := strings.TrimSuffix(w.s, "-")
			if !hyphens || h == w.s || h == "" || k != len(l.ws)-1 || !strings.HasPrefix(x.s, h) || h == x.s {
				v.failf("line %d has %q, want %q: %s", li, w.s, x.s, fl.show())
			}
			ok := false
			parts := fl.f.h.Hyphenate(x.s)
			for n := 1; n < len(parts); n++ {
				ok = ok || strings.Join(parts[:n], "") == h
			}
			if !ok {
				v.failf("%q is split after %q, the hyphenator offers %q", x.s, h, parts)
			}
			rest = &rword{x.s[len(h):], x.sty}
			split++
		}
		brk := false
		if rest == nil && i < len(fl.words) && fl.words[i] == nil {
			brk = true
			i++
		} else if len(l.ws) == 0 {
			v.failf("line %d is blank without a break: %s", li, fl.show())
		}
		ended = append(ended, brk || rest == nil && i >= len(fl.words))
	}
	if i < len(fl.words) || rest != nil {
		v.failf("the text ends after %d of %d words: %s", i, len(fl.words), fl.show())
	}
	return
}

func TestVerif_C01(t *testing.T) {
	verifLoop(t, "C01", "texts of random blocks, paragraphs and breaks, left, centre or right aligned, written alone; words, styles, separation and breaks judged from what is written; non-trivial from two lines on", 8000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			fl := flow(v, r, pick(r, "left", "center", "right"))
			fl.checkWords(v, false)
			for li, l := range fl.lines {
				for i := 1; i < len(l.ws); i++ {
					a, b := l.ws[i-1], l.ws[i]
					sp := b.x - a.x - a.w
					if !near(sp, fl.got.width(a.font, " ")) && !near(sp, fl.got.width(b.font, " ")) {
						v.failf("%q and %q of line %d are %g apart, not one blank", a.s, b.s, li, sp)
					}
				}
			}
			return verifDesc, len(fl.lines) > 1
		})
}

func TestVerif_C02(t *testing.T) {
	verifLoop(t, "C02", "block-aligned texts of random blocks, paragraphs and breaks with random hyphenation patterns, written alone; non-trivial if a word is split", 8000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			fl := flow(v, r, "block")
			split, _ := fl.checkWords(v, true)
			return verifDesc, split > 0
		})
}

func TestVerif_C03(t *testing.T) {
	verifLoop(t, "C03", "texts of all alignments written alone; line widths, reasons for ending a line and horizontal positions judged from what is written; non-trivial from three lines on", 8000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			fl := flow(v, r, pick(r, "left", "center", "right", "block", "block"))
			blk := fl.sty.HAlign == style.HAlignBlock
			_, ended := fl.checkWords(v, blk)
			const eps = 1e-6
			for li, l := range fl.lines {
				if len(l.ws) == 0 {
					continue
				}
				n := fl.natural(l)
				sum := n + fl.got.width(l.ws[0].font, " ") // with a leading blank, as the next word would have
				if len(l.ws) > 1 && n > fl.width+eps {
					v.failf("line %d is %g wide, only %g are available: %s", li, n, fl.width, fl.show())
				}
				last := l.ws[len(l.ws)-1]
				if !ended[li] && li+1 < len(fl.lines) {
					next := fl.lines[li+1].ws[0]
					head := blk && strings.HasSuffix(last.s, "-") && isTail(&fl, li)
					if !head {
						word := fl.wordAt(li + 1)
						if sum+fl.got.width(next.font, " "+word) < fl.width-eps {
							v.failf("line %d ends before %q though it fits: %g and %g of %g: %s", li, word, sum, fl.got.width(next.font, " "+word), fl.width, fl.show())
						}
						if blk {
							for k, parts := 1, fl.f.h.Hyphenate(word); k < len(parts); k++ {
								if sum+fl.got.width(next.font, " "+strings.Join(parts[:k], "")+"-") < fl.width-eps {
									v.failf("line %d ends before %q though its head %q- fits: %s", li, word, strings.Join(parts[:k], ""), fl.show())
								}
							}
						}
					}
				}
				x := l.ws[0].x
				switch fl.sty.HAlign {
				case style.HAlignLeft:
					if !near(x, fl.x0) {
						v.failf("line %d starts at %g, want %g", li, x, fl.x0)
					}
				case style.HAlignCenter:
					if !near(x, fl.x0+(fl.width-sum)/2) {
						v.failf("centred line %d starts at %g, want %g", li, x, fl.x0+(fl.width-sum)/2)
					}
				case style.HAlignRight:
					if !near(x, fl.x0+fl.width-sum) {
						v.failf("right-aligned line %d starts at %g, want %g", li, x, fl.x0+fl.width-sum)
					}
				case style.HAlignBlock:
					if !near(x, fl.x0) {
						v.failf("justified line %d starts at %g, want %g", li, x, fl.x0)
					}
					if ended[li] {
						if !near(last.x+last.w, fl.x0+n) {
							v.failf("line %d ends a paragraph and is stretched: %s", li, fl.show())
						}
					} else if len(l.ws) > 1 {
						if end := last.x + last.w; end > fl.x0+fl.width+eps || end < fl.x0+fl.width-0.2 {
							v.failf("justified line %d ends at %g, want %g", li, end, fl.x0+fl.width)
						}
						g := l.ws[1].x - l.ws[0].x - l.ws[0].w
						for i := 2; i < len(l.ws); i++ {
							if !near(l.ws[i].x-l.ws[i-1].x-l.ws[i-1].w, g) {
								v.failf("the gaps of justified line %d differ", li)
							}
						}
					}
				}
			}
			return verifDesc, len(fl.lines) > 2
		})
}

// isTail: the line after li starts with the tail of the word li ends with.
func isTail(fl *flowed, li int) bool {
	_, tails := fl.starts()
	return tails[li+1]
}

// wordAt is the whole word a line starts with.
func (fl *flowed) wordAt(li int) string {
	ws, _ := fl.starts()
	return ws[li]
}

// starts gives the word every line starts with and whether it is only its tail.
func (fl *flowed) starts() (ws []string, tails []bool) {
	i, tail := 0, false
	for _, l := range fl.lines {
		for k, w := range l.ws {
			if k == 0 {
				tails = append(tails, tail)
				if tail {
					ws = append(ws, w.s)
				} else {
					ws = append(ws, fl.words[i].s)
				}
			}
			if tail {
				tail = false
				continue
			}
			if w.s != fl.words[i].s {
				tail = true
			}
			i++
		}
		if len(l.ws) == 0 {
			ws, tails = append(ws, ""), append(tails, false)
		}
		if !tail && i < len(fl.words) && fl.words[i] == nil {
			i++
		}
	}
	return
}

func TestVerif_C04(t *testing.T) {
	verifLoop(t, "C04", "boxes of automatic height whose text is measured and then written: the drawn height is compared with the lines written in it; non-trivial from two lines on", 8000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			keys := []string{"text-color", "font-family", "font-style", "font-weight"}
			cs := randClasses(r, keys...)
			n := node{kind: "box", ds: without(randDecls(r, 5, append([]string{"padding", "border"}, parKeys...)...), []decl{{k: "width"}}), kids: randFlow(r, 6)}
			if r.Intn(4) > 0 {
				n.ds = append(n.ds, decl{"width", fmt.Sprint(8 + r.Intn(70))})
			}
			for i := range n.kids { // a paragraph's own size would make "the font's height" ambiguous
				n.kids[i].ds = without(n.kids[i].ds, []decl{{k: "font-point-size"}})
			}
			if len(n.kids) == 0 {
				n.kids = []node{{kind: "br"}}
			}
			e := newRec(r)
			e.ph = 100000
			pat := randPatterns(r)
			got, want := both(v, r, rdoc{cs: cs, body: []node{n}}, pat, "/", nil, false, e)
			f := &ref{e: want, cs: cs, inh: xpdf.DefaultStyle(), h: hyph(pat)}
			sty := f.sty(n)
			feeds := got.of("feed")
			fh := fontHeight(sty.Font)
			lines := 0
			inked := map[float64]bool{}
			for _, w := range got.of("text") {
				inked[w.y] = true
			}
			for _, fe := range feeds {
				if !near(fe.f, sty.LineSpacing) {
					v.failf("a line feed of %g, want %g", fe.f, sty.LineSpacing)
				}
				lines++
			}
			if sty.LineSpacing > 0 && lines < len(inked) {
				v.failf("%d lines are written with %d line feeds", len(inked), lines)
			}
			want1 := 0.0
			if lines > 0 {
				want1 = float64(lines-1)*sty.LineSpacing*fh + fh
			}
			rc := got.of("rect")[0]
			h := rc.h + sty.Draw.LineWidth - sty.Padding.Top - sty.Padding.Bottom
			if !near(h, want1) {
				v.failf("a height of %g is reserved for %d lines, want %g", h, lines, want1)
			}
			return verifDesc, lines > 1
		})
}
