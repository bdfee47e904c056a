From d76d7241c4f1f6223fd3b0ef77cae3ef3ba809a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 01/15] fix: hyphenation must neither drop the last letter nor
 cut UTF-8 characters

---
 hyphenation/hyphenation.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index bea782f..e246e48 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -63,22 +63,25 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 		}
 	}
 
+	//byte offsets of the runes of s
+	offs := []int{}
+	for i := range s {
+		offs = append(offs, i)
+	}
+
 	sl := []string{}
 	var last int
 	//skip first and last for the dots (.).
 	//skip next to first and prev. to last for start and end of word
 	for i, w := range ws[2 : len(ws)-2] {
 		if w%2 == 1 {
-			part := s[last : i+1]
-			if len(part) > 1 {
+			next := offs[i+1]
+			part := s[last:next]
+			if len(part) > 1 && len(s)-next > 1 {
 				sl = append(sl, part)
-				last = i + 1
+				last = next
 			}
 		}
 	}
-	part := s[last:]
-	if len(part) > 1 {
-		sl = append(sl, part)
-	}
-	return sl
+	return append(sl, s[last:])
 }
-- 
2.43.0


From dabd28fda6315e544058d1f5d72785640a79e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 02/15] fix: report read errors while loading hyphenation
 patterns

---
 hyphenation/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyphenation/pattern.go b/hyphenation/pattern.go
index afc59b7..140ec28 100644
--- a/hyphenation/pattern.go
+++ b/hyphenation/pattern.go
@@ -92,5 +92,8 @@ func parsePatterns(r io.Reader) (*patternLookup, error) {
 		}
 		pl.patterns[string(p.Letters)] = p
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, errors.Wrap(err, "scan-patterns")
+	}
 	return pl, nil
 }
-- 
2.43.0


From 12adb37e1d9f7a10f8d9ea87297098f5cc00adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 03/15] fix: describe the left margin with its own value

---
 xdoc/describe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 21d6fce..3d44d56 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -123,7 +123,7 @@ func (desc *Description) describeMargins(margins Margins) []DescribeItem {
 	return []DescribeItem{
 		{
 			Name:  "left",
-			Value: margins.Right,
+			Value: margins.Left,
 		},
 		{
 			Name:  "top",
-- 
2.43.0


From add07232a1dff37234ce2ff3daf48ef2c0c93e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 04/15] fix: paragraph fonts must not leak into the inherited
 style

---
 text-hyph.go | 6 +++---
 text.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index e43ad4d..bfd0f47 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -59,7 +59,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -123,14 +123,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(item.text)
 			}
 		} else {
 			//subtract another 0.1 to avoid page breaks on equal widths
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 773dd4d..7e24019 100644
--- a/text.go
+++ b/text.go
@@ -54,7 +54,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -103,7 +103,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetX(xLeft + width - line.width)
 		}
 		for _, item := range line.items {
-			p.changeFont(item.sty.Font)
+			p.engine.ChangeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From 52b5d03a3ba91b31466bd222306819e723b0e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 05/15] fix: header and footer fonts must not leak into the
 body

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index b523714..58804c9 100644
--- a/process.go
+++ b/process.go
@@ -52,8 +52,10 @@ func (p *Processor) Process(w io.Writer) error {
 	p.engine.SetPageCountAlias("{np}")
 	p.engine.OnHeader(func() {
 		x, y := p.engine.GetXY()
+		sty := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
+			p.currStyles = sty
 			p.engine.SetX(x)
 			p.engine.SetY(y)
 			p.preventPageBreak = false
@@ -62,8 +64,10 @@ func (p *Processor) Process(w io.Writer) error {
 	})
 	p.engine.OnFooter(func() {
 		x, y := p.engine.GetXY()
+		sty := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
+			p.currStyles = sty
 			p.engine.SetX(x)
 			p.engine.SetY(y)
 			p.preventPageBreak = false
-- 
2.43.0


From 7565f89bd39b18b81e8a5d63e29c7715bb984ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 06/15] fix: no page break from within a header or footer

---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 58804c9..13e7a34 100644
--- a/process.go
+++ b/process.go
@@ -143,7 +143,9 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.Grid:
 			p.renderGrid(i, p.page().printableArea)
 		case *xdoc.PageBreak:
-			p.engine.AddPage()
+			if !p.preventPageBreak {
+				p.engine.AddPage()
+			}
 		}
 	}
 }
-- 
2.43.0


From 04747d3c25e2fe9f272ff53dd80b514a2dc466a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 07/15] fix: the line ended by a break is the one not to be
 justified

---
 text-hyph.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index bfd0f47..6b5398b 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -38,10 +38,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		var isitem *textItem
 		switch is := is.(type) {
 		case *xdoc.LineBreak:
-			if len(lines) > 0 {
-				lines[len(lines)-1].paragraph = true
-			}
-
+			curr.paragraph = true
 			lines = append(lines, curr)
 			curr = textLine{}
 			continue
-- 
2.43.0


From cfaf35d5f34765a17e4b3d4dd79e090ff8d99d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 08/15] fix: skip empty text blocks in justified text

---
 text-hyph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index 6b5398b..3ac4f5f 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -55,6 +55,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		default:
 			continue
 		}
+		if isitem.text == "" {
+			continue
+		}
 
 		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
-- 
2.43.0


From cd8367cc2fb921d579f3b25dfaf5d6de286d6042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 09/15] fix: no blank line or leading blank before a word wider
 than the line

---
 text-hyph.go | 9 +++++++--
 text.go      | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 3ac4f5f..e868374 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -72,9 +72,14 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 				//try hyphenation
 				s1, s2, ok := tryHyphenate(item.text, curr.width)
 				if !ok {
-					lines = append(lines, curr)
-					curr = textLine{}
+					if len(curr.items) > 0 {
+						lines = append(lines, curr)
+						curr = textLine{}
+					}
 				} else {
+					if len(curr.items) == 0 {
+						s1 = strings.TrimPrefix(s1, " ")
+					}
 					curr.items = append(curr.items, &textItem{
 						text: s1,
 						sty:  item.sty,
diff --git a/text.go b/text.go
index 7e24019..d1e5f54 100644
--- a/text.go
+++ b/text.go
@@ -62,7 +62,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 				text: word,
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
-			if curr.width+itemWidth >= width {
+			if len(curr.items) > 0 && curr.width+itemWidth >= width {
 				lines = append(lines, curr)
 				curr = textLine{}
 			}
-- 
2.43.0


From c59a21c0d14183c64754fbde4e2a05ee8d156773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 10/15] fix: a text without lines has no height

---
 text-hyph.go | 3 +++
 text.go      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index e868374..1dbed60 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -113,6 +113,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 func (p *Processor) textHeightHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
 	lines := p.textLinesHyphenated(iss, width, sty)
+	if len(lines) == 0 {
+		return 0
+	}
 	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
 	//subtract line-spacing, to have no space below the last line
 	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
diff --git a/text.go b/text.go
index d1e5f54..a7b503a 100644
--- a/text.go
+++ b/text.go
@@ -83,6 +83,9 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
 	lines := p.textLines(iss, width, sty)
+	if len(lines) == 0 {
+		return 0
+	}
 	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
 	//subtract line-spacing, to have no space below the last line
 	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
-- 
2.43.0


From 0a8ea36c9c6c5987128cdbd425b5445bdbfb5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 11/15] fix: align justified cell text by the height of its own
 lines

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 7f9a8eb..3fb063e 100644
--- a/table.go
+++ b/table.go
@@ -401,7 +401,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
-		textHeight := p.textHeight(cell.iss, paddedPa.Width(), cell.Styles)
+		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
-- 
2.43.0


From 121e399528755ae430a7b9ade728eaf5575fedd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 12/15] fix: consider padding and offset when checking whether
 a box fits the page

---
 process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 13e7a34..bf0f010 100644
--- a/process.go
+++ b/process.go
@@ -197,7 +197,8 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
-	if !p.preventPageBreak && y0+height >= effHeight {
+	boxHeight := sty.Dimension.OffsetY + height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
+	if !p.preventPageBreak && y0+boxHeight >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
 	}
-- 
2.43.0


From 4c6c8159f37778cc6b518f43487e1ac593c500fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 13/15] fix: write a paragraph in its own text colour

---
 text-hyph.go | 2 ++
 text.go      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index 1dbed60..2c1c398 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -132,6 +132,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(item.text)
 			}
 		} else {
@@ -139,6 +140,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index a7b503a..89c47fb 100644
--- a/text.go
+++ b/text.go
@@ -107,6 +107,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
+			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From 998a4698758de95787f5f89276d1ec00f684ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 14/15] fix: row spans keep to their columns when spans
 interact or combine with column spans

---
 table.go | 66 ++++++++++++++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/table.go b/table.go
index 3fb063e..7d809ec 100644
--- a/table.go
+++ b/table.go
@@ -97,6 +97,7 @@ type tableCell struct {
 	spansCols []*tableCell
 	spansRows []*tableCell
 	zero      bool
+	leftmost  bool // placeholder below a row-spanning cell itself
 }
 
 func (c *tableCell) dim() (width, height float64) {
@@ -191,42 +192,45 @@ func (t *table) processColumnSpans() {
 }
 
 func (t *table) processRowSpans() {
-	for ir, row := range t.rows {
-		for ic, cell := range row.cells {
-			if cell.rowSpan <= 1 {
+	for ir := 0; ir < len(t.rows); ir++ {
+		for ic, cell := range t.rows[ir].cells {
+			if cell.rowSpan <= 1 || cell.zero {
 				continue
 			}
-			if cell.spannedBy != nil || cell.zero {
-				continue
+			//insert spanned cell in the following row, where it in turn spans
+			//the rows below
+			spannedRowIdx := ir + 1
+
+			var spannedRow *tableRow
+			if spannedRowIdx >= len(t.rows) {
+				spannedRow = &tableRow{}
+				t.rows = append(t.rows, spannedRow)
+			} else {
+				spannedRow = t.rows[spannedRowIdx]
+			}
+			for ic > len(spannedRow.cells) {
+				spannedRow.cells = append(spannedRow.cells, &tableCell{
+					zero: true,
+				})
 			}
-			//insert spanned cell in following rows
-			for n := 0; n < cell.rowSpan-1; n++ {
-				spannedRowIdx := ir + 1 + n
-
-				var spannedRow *tableRow
-				if spannedRowIdx >= len(t.rows) {
-					spannedRow = &tableRow{}
-					t.rows = append(t.rows, spannedRow)
-				} else {
-					spannedRow = t.rows[spannedRowIdx]
-				}
-				for ic > len(spannedRow.cells) {
-					spannedRow.cells = append(spannedRow.cells, &tableCell{
-						zero: true,
-					})
-				}
-
-				newCell := &tableCell{
-					spannedBy: cell,
-				}
-				cell.spansRows = append(cell.spansRows, newCell)
 
-				newCells := make([]*tableCell, ic)
-				copy(newCells, spannedRow.cells[:ic])
-				newCells = append(newCells, newCell)
-				newCells = append(newCells, spannedRow.cells[ic:]...)
-				spannedRow.cells = newCells
+			newCell := &tableCell{
+				spannedBy: cell,
+				rowSpan:   cell.rowSpan - 1,
+				leftmost:  cell.spannedBy == nil || cell.leftmost,
 			}
+			if cell.spannedBy != nil {
+				newCell.spannedBy = cell.spannedBy
+			}
+			if newCell.leftmost {
+				newCell.spannedBy.spansRows = append(newCell.spannedBy.spansRows, newCell)
+			}
+
+			newCells := make([]*tableCell, ic)
+			copy(newCells, spannedRow.cells[:ic])
+			newCells = append(newCells, newCell)
+			newCells = append(newCells, spannedRow.cells[ic:]...)
+			spannedRow.cells = newCells
 		}
 	}
 }
-- 
2.43.0


From 76ff7bacd895cebb782948ae999f5742309f51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 15/15] fix: a row span does not tear a cell spanning columns
 apart

---
 table.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 7d809ec..56cf45f 100644
--- a/table.go
+++ b/table.go
@@ -226,10 +226,20 @@ func (t *table) processRowSpans() {
 				newCell.spannedBy.spansRows = append(newCell.spannedBy.spansRows, newCell)
 			}
 
-			newCells := make([]*tableCell, ic)
-			copy(newCells, spannedRow.cells[:ic])
+			//a cell spanning columns is not torn apart but moves aside with them
+			at := ic
+			for at > 0 && at < len(spannedRow.cells) && spannedRow.cells[at].spannedBy != nil {
+				at--
+			}
+			newCells := make([]*tableCell, at)
+			copy(newCells, spannedRow.cells[:at])
+			for len(newCells) < ic {
+				newCells = append(newCells, &tableCell{
+					zero: true,
+				})
+			}
 			newCells = append(newCells, newCell)
-			newCells = append(newCells, spannedRow.cells[ic:]...)
+			newCells = append(newCells, spannedRow.cells[at:]...)
 			spannedRow.cells = newCells
 		}
 	}
-- 
2.43.0

