// Describing a document.
package xdoc

// naming what describing gives: nothing is written while a document is
// described, so describing the same instructions gives the same items
ufun listing(seq[xdoc.Instruction]) seq[xdoc.DescribeItem]
ufun rowItem(*xdoc.TableRow) xdoc.DescribeItem
ufun cellItem(*xdoc.TableCell) xdoc.DescribeItem
ufun tableItem(*xdoc.Table) xdoc.DescribeItem
ufun gridItem(*xdoc.Grid) xdoc.DescribeItem
ufun gridRowItem(*xdoc.GridRow) xdoc.DescribeItem
ufun partItem(*xdoc.GridPart) xdoc.DescribeItem
ufun sprintf(string, seq[any]) string
extern fmt.Sprintf(format, args) returns (r) { ensures r == sprintf(format, args) }
ufun replaced(string, string, string) string
ufun trimmed(string, string) string
ufun joinedBy(seq[string], string) string
extern strings.ReplaceAll(s, from, to) returns (r) { ensures r == replaced(s, from, to) }
extern strings.Trim(s, cutset) returns (r) { ensures r == trimmed(s, cutset) }
extern strings.Join(a, sep) returns (r) { ensures r == joinedBy(a, sep) ensures len(sep) == 0 ==> r == joined(a) }
define cleared(s string) = trimmed(replaced(replaced(s, "\n", ""), "  ", ""), " ")
func xdoc.clearStr(s) returns (r) {
	props C24
	modifies nothing
	ensures r == cleared(s)
}
// what an entry says; style differences are not part of it
data Entry = Entry(name string, value any, items seq[xdoc.DescribeItem])
define says(d xdoc.DescribeItem, e Entry) = d.Name == e.name && d.Value == e.value && d.Items == e.items
define lists(ds seq[xdoc.DescribeItem], es seq[Entry]) = len(ds) == len(es) && forall k int {ds[k]} :: 0 <= k && k < len(ds) ==> says(ds[k], es[k])

func xdoc.(*Description).describeMeta(desc, meta) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, [Entry("author", iface(meta.Author), []), Entry("creator", iface(meta.Creator), []), Entry("subject", iface(meta.Subject), [])])
}
func xdoc.(*Description).describeMargins(desc, margins) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, [Entry("left", iface(margins.Left), []), Entry("top", iface(margins.Top), []), Entry("right", iface(margins.Right), []), Entry("bottom", iface(margins.Bottom), [])])
}
func xdoc.(*Description).describePage(desc, page) returns (r) {
	props C24
	modifies nothing
	ensures len(r) == 3
	ensures values: says(r[0], Entry("orientation", iface(page.Orientation), [])) && says(r[1], Entry("format", iface(page.Format), [])) && r[2].Name == "margins" && isnil(r[2].Value)
	ensures margins: lists(r[2].Items, [Entry("left", iface(page.Margins.Left), []), Entry("top", iface(page.Margins.Top), []), Entry("right", iface(page.Margins.Right), []), Entry("bottom", iface(page.Margins.Bottom), [])])
}
// what differs from the default style: not part of C24
func xdoc.(*Description).describeMutator(desc, ins) returns (r) {
	trusted
	modifies nothing
}
fold rowItems(rs seq[*xdoc.TableRow]) seq[xdoc.DescribeItem] { [] => [] | a, r => push(a, rowItem(r)) }
fold cellItems(cs seq[*xdoc.TableCell]) seq[xdoc.DescribeItem] { [] => [] | a, c => push(a, cellItem(c)) }
fold gridRowItems(rs seq[*xdoc.GridRow]) seq[xdoc.DescribeItem] { [] => [] | a, r => push(a, gridRowItem(r)) }
fold partItems(ps seq[*xdoc.GridPart]) seq[xdoc.DescribeItem] { [] => [] | a, p => push(a, partItem(p)) }

func xdoc.(*Description).describeTable(desc, t) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, [Entry("table", nil, rowItems(t.Rows))])
	assume r == [tableItem(t)]
	inv (?i xdoc.DescribeItem): says(?i, Entry("table", nil, rowItems(t.Rows[0:$k])))
}
func xdoc.(*Description).describeTableRow(desc, tr) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, [Entry("table-row", nil, cellItems(tr.Cells))])
	assume r == [rowItem(tr)]
	inv (?i xdoc.DescribeItem): says(?i, Entry("table-row", nil, cellItems(tr.Cells[0:$k])))
}
func xdoc.(*Description).describeTableCell(desc, td) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, [Entry(sprintf("table-cell colspan=%d rowspan=%d", [iface(td.ColSpan), iface(td.RowSpan)]), nil, listing(td.ISS))])
	assume r == [cellItem(td)]
}
func xdoc.(*Description).describeGrid(desc, g) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, [Entry("grid", nil, gridRowItems(g.Rows) ++ partItems(g.Parts))])
	assume r == [gridItem(g)]
	inv (?i xdoc.DescribeItem): says(?i, Entry("grid", nil, gridRowItems(g.Rows[0:$k])))
	inv (?i xdoc.DescribeItem): says(?i, Entry("grid", nil, gridRowItems(g.Rows) ++ partItems(g.Parts[0:$k])))
}
func xdoc.(*Description).describeGridRow(desc, gr) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, [Entry("grid-row", iface(joinedBy(gr.Areas, " ")), [])])
	assume r == [gridRowItem(gr)]
}
func xdoc.(*Description).describeGridPart(desc, p) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, [Entry("grid-part", iface(p.Area), listing(p.ISS))])
	assume r == [partItem(p)]
}

define entryOf(i xdoc.Instruction) = if istype(i, "*xdoc.Font") then [Entry("font", nil, [])]
	else if istype(i, "*xdoc.LineFeed") then [Entry("line-feed", iface(astype(i, "*xdoc.LineFeed").Lines), [])]
	else if istype(i, "*xdoc.SetX") then [Entry("setx", iface(astype(i, "*xdoc.SetX").X), [])]
	else if istype(i, "*xdoc.SetY") then [Entry("sety", iface(astype(i, "*xdoc.SetY").Y), [])]
	else if istype(i, "*xdoc.Box") then [Entry("box", nil, listing(astype(i, "*xdoc.Box").ISS))]
	else if istype(i, "*xdoc.Text") then [Entry("text", nil, listing(astype(i, "*xdoc.Text").ISS))]
	else if istype(i, "*xdoc.Paragraph") then [Entry("paragraph", iface(cleared(astype(i, "*xdoc.Paragraph").Text)), [])]
	else if istype(i, "*xdoc.LineBreak") then [Entry("line-break", nil, [])]
	else if istype(i, "*xdoc.PageBreak") then [Entry("page-break", nil, [])]
	else if istype(i, "*xdoc.TextBlock") then [Entry("text-block", iface(cleared(astype(i, "*xdoc.TextBlock").Text)), [])]
	else if istype(i, "*xdoc.Image") then [Entry("image", iface(astype(i, "*xdoc.Image").Source), [])]
	else if istype(i, "*xdoc.Table") then [Entry("table", nil, rowItems(astype(i, "*xdoc.Table").Rows))]
	else if istype(i, "*xdoc.Grid") then [Entry("grid", nil, gridRowItems(astype(i, "*xdoc.Grid").Rows) ++ partItems(astype(i, "*xdoc.Grid").Parts))]
	else []
fold entries(is seq[xdoc.Instruction]) seq[Entry] { [] => [] | a, i => a ++ entryOf(i) }
func xdoc.(*Description).describeInstructions(desc, iss) returns (r) {
	props C24
	modifies nothing
	ensures lists(r, entries(iss.ISS))
	assume r == listing(iss.ISS)
	inv (?d []xdoc.DescribeItem): lists(?d, entries(iss.ISS[0:$k]))
}
func xdoc.Describe(doc) returns (r) {
	props C24
	modifies nothing
	ensures parts: len(r.Items) == 5 && r.Items[0].Name == "meta" && r.Items[1].Name == "page" && r.Items[2].Name == "header" && r.Items[3].Name == "footer" && r.Items[4].Name == "body"
	ensures meta: lists(r.Items[0].Items, [Entry("author", iface(doc.Meta.Author), []), Entry("creator", iface(doc.Meta.Creator), []), Entry("subject", iface(doc.Meta.Subject), [])])
	ensures page: let r1 = r.Items[1].Items in len(r1) == 3 && says(r1[0], Entry("orientation", iface(doc.Page.Orientation), [])) && says(r1[1], Entry("format", iface(doc.Page.Format), [])) && r1[2].Name == "margins"
	ensures margins: let m = doc.Page.Margins in lists(r.Items[1].Items[2].Items, [Entry("left", iface(m.Left), []), Entry("top", iface(m.Top), []), Entry("right", iface(m.Right), []), Entry("bottom", iface(m.Bottom), [])])
	ensures header: lists(r.Items[2].Items, entries(doc.Header.ISS)) && r.Items[2].Items == listing(doc.Header.ISS)
	ensures footer: lists(r.Items[3].Items, entries(doc.Footer.ISS)) && r.Items[3].Items == listing(doc.Footer.ISS)
	ensures body: lists(r.Items[4].Items, entries(doc.Body.ISS)) && r.Items[4].Items == listing(doc.Body.ISS)
}
