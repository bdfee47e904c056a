// Tables: spans, sizes, pagination.
package xpdf

// rows and cells are objects of their own, none of them used twice
define aliveRows(rows seq[*xpdf.tableRow]) = (forall i int {rows[i]} :: 0 <= i && i < len(rows) ==> 0 < rows[i] && rows[i] < alloc) &&
	forall i int, j int {rows[i].cells[j]} :: 0 <= i && i < len(rows) && 0 <= j && j < len(rows[i].cells) ==> 0 < rows[i].cells[j] && rows[i].cells[j] < alloc
define apartRows(rows seq[*xpdf.tableRow]) = (forall i int, k int {rows[i], rows[k]} :: 0 <= i && i < len(rows) && 0 <= k && k < len(rows) && rows[i] == rows[k] ==> i == k) &&
	forall i int, j int, k int, l int {rows[i].cells[j], rows[k].cells[l]} :: 0 <= i && i < len(rows) && 0 <= k && k < len(rows) &&
		0 <= j && j < len(rows[i].cells) && 0 <= l && l < len(rows[k].cells) && rows[i].cells[j] == rows[k].cells[l] ==> i == k && j == l
define alive(t *xpdf.table) = aliveRows(t.rows)
define apart(t *xpdf.table) = apartRows(t.rows)
// the placeholders a cell has in the rows below are its own
define allOwnRows(t *xpdf.table) = forall i int, j int, m int {t.rows[i].cells[j].spansRows[m]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) && isnil(t.rows[i].cells[j].spannedBy) &&
	0 <= m && m < len(t.rows[i].cells[j].spansRows) ==> t.rows[i].cells[j].spansRows[m].spannedBy == t.rows[i].cells[j] && 0 < t.rows[i].cells[j].spansRows[m] && t.rows[i].cells[j].spansRows[m] < alloc
define ownersAlive(t *xpdf.table) = forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) && !isnil(t.rows[i].cells[j].spannedBy) ==> 0 < t.rows[i].cells[j].spannedBy && t.rows[i].cells[j].spannedBy < alloc
define noRows(cells seq[*xpdf.tableCell]) = forall j int {cells[j]} :: 0 <= j && j < len(cells) ==> cells[j].spansRows == []
define isRoot(c *xpdf.tableCell) = isnil(c.spannedBy) && !c.zero
// the cells the document defines
fold defined(cells seq[*xpdf.tableCell]) seq[*xpdf.tableCell] { [] => [] | a, c => if isnil(c.spannedBy) && !c.zero then push(a, c) else a }

define owner(c *xpdf.tableCell) = if isnil(c.spannedBy) then c else c.spannedBy
// what stands below a cell that spans further rows
define underneath(t *xpdf.table, i int, j int) = let c = t.rows[i].cells[j] in c.rowSpan > 1 && !c.zero ==>
	i + 1 < len(t.rows) && j < len(t.rows[i + 1].cells) && !t.rows[i + 1].cells[j].zero &&
	t.rows[i + 1].cells[j].spannedBy == owner(c) && t.rows[i + 1].cells[j].rowSpan == c.rowSpan - 1
define columns(t *xpdf.table) = forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) ==> underneath(t, i, j)
define grouped(t *xpdf.table) = (forall i int, x int {t.rows[i].cells[x]} :: 0 <= i && i < len(t.rows) && 0 <= x && x < len(t.rows[i].cells) && isnil(t.rows[i].cells[x].spannedBy) ==> x + len(t.rows[i].cells[x].spansCols) < len(t.rows[i].cells)) &&
	forall i int, x int, y int {t.rows[i].cells[x], t.rows[i].cells[y]} :: 0 <= i && i < len(t.rows) && 0 <= x && x < y && y <= x + len(t.rows[i].cells[x].spansCols) && y < len(t.rows[i].cells) && isnil(t.rows[i].cells[x].spannedBy) ==>
		t.rows[i].cells[y] == t.rows[i].cells[x].spansCols[y - x - 1] && t.rows[i].cells[y].spannedBy == t.rows[i].cells[x]
lemma definedConcat(a seq[*xpdf.tableCell], b seq[*xpdf.tableCell]) {
	induction b
	trigger defined(a ++ b)
	ensures defined(a ++ b) == defined(a) ++ defined(b)
}
lemma definedSplit(c seq[*xpdf.tableCell], n int) {
	trigger defined(c), c[n:len(c)]
	requires 0 <= n && n <= len(c)
	ensures c == c[0:n] ++ c[n:len(c)] && defined(c[0:n] ++ c[n:len(c)]) == defined(c[0:n]) ++ defined(c[n:len(c)])
}

func xpdf.(*table).normalize(tab) {
	props C11, C12, C13, C14
	requires alive(tab)
	requires apart(tab)
	requires C14.owned: allOwnRows(tab)
	ensures C14.owned: allOwnRows(tab)
	inv C14.owned: allOwnRows(tab)
	ensures alive(tab)
	ensures apart(tab)
	ensures isRect(tab)
	ensures indexed(tab)
	ensures tab.rows == old(tab.rows)
	requires C11.grouped: grouped(tab)
	ensures C11.grouped: grouped(tab)
	inv C11.grouped: grouped(tab)
	requires C12.columns: columns(tab)
	ensures C12.columns: columns(tab)
	inv C12.columns: columns(tab)
	ensures C11.kept: forall i int {tab.rows[i]} :: 0 <= i && i < len(tab.rows) ==> len(tab.rows[i].cells) >= len(old(tab.rows[i].cells)) && tab.rows[i].cells[0:len(old(tab.rows[i].cells))] == old(tab.rows[i].cells)
	ensures C11.padded: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && len(old(tab.rows[i].cells)) <= j && j < len(tab.rows[i].cells) ==> tab.rows[i].cells[j].zero && fresh(tab.rows[i].cells[j])
	ensures C11.defined: forall i int {tab.rows[i]} :: 0 <= i && i < len(tab.rows) ==> defined(tab.rows[i].cells) == old(defined(tab.rows[i].cells))
	inv C11.defined: forall i int {tab.rows[i]} :: 0 <= i && i < len(tab.rows) ==> defined(tab.rows[i].cells) == old(defined(tab.rows[i].cells))
	inv forall i int {tab.rows[i]} :: 0 <= i && i < $k ==> len(tab.rows[i].cells) <= tab.columnCount
	inv forall i int {tab.rows[i]} :: 0 <= i && i < len(tab.rows) ==> len(tab.rows[i].cells) <= tab.columnCount
	inv forall i int {tab.rows[i]} :: 0 <= i && i < $k ==> len(tab.rows[i].cells) == tab.columnCount
	inv forall i int {tab.rows[i]} :: 0 <= i && i < $k0 ==> len(tab.rows[i].cells) == tab.columnCount
	inv tab.columnCount >= 0
	inv alive(tab)
	inv apart(tab)
	inv C11.kept: forall i int {tab.rows[i]} :: 0 <= i && i < len(tab.rows) ==> len(tab.rows[i].cells) >= len(old(tab.rows[i].cells)) && tab.rows[i].cells[0:len(old(tab.rows[i].cells))] == old(tab.rows[i].cells)
	inv C11.padded: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && len(old(tab.rows[i].cells)) <= j && j < len(tab.rows[i].cells) ==> tab.rows[i].cells[j].zero && fresh(tab.rows[i].cells[j])
	inv forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < $k && 0 <= j && j < len(tab.rows[i].cells) ==> tab.rows[i].cells[j].rowIdx == i && tab.rows[i].cells[j].cellIdx == j
	inv forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && (i < $k0 || i == $k0 && j < $k) && 0 <= j && j < len(tab.rows[i].cells) ==> tab.rows[i].cells[j].rowIdx == i && tab.rows[i].cells[j].cellIdx == j
}
// as the document has it: nothing is spanned yet
define plainRow(cells seq[*xpdf.tableCell]) = forall j int {cells[j]} :: 0 <= j && j < len(cells) ==>
	isnil(cells[j].spannedBy) && !cells[j].zero && cells[j].spansCols == [] && cells[j].spansRows == [] && !cells[j].leftmost
// every placeholder follows the cell that owns it or another placeholder of that cell
define tight(cells seq[*xpdf.tableCell]) = forall x int {cells[x]} :: 0 <= x && x < len(cells) && !isnil(cells[x].spannedBy) ==>
	x > 0 && (cells[x - 1] == cells[x].spannedBy || cells[x - 1].spannedBy == cells[x].spannedBy)
// the placeholders a cell owns in its row follow it
define leads(cells seq[*xpdf.tableCell]) = (forall x int {cells[x]} :: 0 <= x && x < len(cells) && isnil(cells[x].spannedBy) ==> x + len(cells[x].spansCols) < len(cells)) &&
	forall x int, y int {cells[x], cells[y]} :: 0 <= x && x < y && y <= x + len(cells[x].spansCols) && y < len(cells) && isnil(cells[x].spannedBy) ==>
		cells[y] == cells[x].spansCols[y - x - 1] && cells[y].spannedBy == cells[x]
// as many as it spans, and they are placeholders
define counted(cells seq[*xpdf.tableCell]) = forall x int {cells[x]} :: 0 <= x && x < len(cells) && isnil(cells[x].spannedBy) ==>
	len(cells[x].spansCols) == (if cells[x].colSpan > 1 then cells[x].colSpan - 1 else 0) && cells[x].spansRows == [] && !cells[x].zero && !cells[x].leftmost
define countedBut(cells seq[*xpdf.tableCell], c *xpdf.tableCell) = forall x int {cells[x]} :: 0 <= x && x < len(cells) && isnil(cells[x].spannedBy) && cells[x] != c ==>
	len(cells[x].spansCols) == (if cells[x].colSpan > 1 then cells[x].colSpan - 1 else 0) && cells[x].spansRows == [] && !cells[x].zero && !cells[x].leftmost
define holders(cells seq[*xpdf.tableCell]) = forall x int {cells[x]} :: 0 <= x && x < len(cells) && !isnil(cells[x].spannedBy) ==>
	cells[x].rowSpan == cells[x].spannedBy.rowSpan && cells[x].spansCols == [] && cells[x].spansRows == [] && !cells[x].leftmost && !cells[x].zero
define owns(cells seq[*xpdf.tableCell]) = forall x int, m int {cells[x].spansCols[m]} :: 0 <= x && x < len(cells) && isnil(cells[x].spannedBy) && 0 <= m && m < len(cells[x].spansCols) ==>
	cells[x].spansCols[m].spannedBy == cells[x]
define plainHolders(cells seq[*xpdf.tableCell]) = forall x int {cells[x]} :: 0 <= x && x < len(cells) && !isnil(cells[x].spannedBy) ==> !cells[x].leftmost
define held(cells seq[*xpdf.tableCell]) = tight(cells) && plainHolders(cells)
define spread(cells seq[*xpdf.tableCell]) = tight(cells) && leads(cells) && counted(cells) && holders(cells) && owns(cells)

func xpdf.(*table).processColumnSpans(t) {
	props C11, C12, C13, C14
	requires alive(t)
	requires apart(t)
	requires forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> plainRow(t.rows[i].cells)
	ensures alive(t)
	ensures apart(t)
	ensures t.rows == old(t.rows)
	ensures C11.defined: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> defined(t.rows[i].cells) == old(t.rows[i].cells)
	ensures C11.spread: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> spread(t.rows[i].cells)
	ensures C12.held using held: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> held(t.rows[i].cells)
	inv0 C12.held using heldNow, plainRest: forall i int {t.rows[i]} :: 0 <= i && i < $k ==> held(t.rows[i].cells)
	inv0 C12.plainRest using plainRest: forall i int {t.rows[i]} :: $k <= i && i < len(t.rows) ==> plainRow(t.rows[i].cells)
	inv1 C12.held using held: forall i int {t.rows[i]} :: 0 <= i && i < $k0 ==> held(t.rows[i].cells)
	inv2 C12.held using held: forall i int {t.rows[i]} :: 0 <= i && i < $k0 ==> held(t.rows[i].cells)
	inv1 C12.plainRest using plainRest: forall i int {t.rows[i]} :: $k0 < i && i < len(t.rows) ==> plainRow(t.rows[i].cells)
	inv2 C12.plainRest using plainRest: forall i int {t.rows[i]} :: $k0 < i && i < len(t.rows) ==> plainRow(t.rows[i].cells)
	inv1 C12.free using free, plainRest: forall j int {t.rows[$k0].cells[j]} :: $k <= j && j < len(t.rows[$k0].cells) ==> isnil(t.rows[$k0].cells[j].spannedBy) && !t.rows[$k0].cells[j].leftmost
	inv2 C12.free using free: forall j int {t.rows[$k0].cells[j]} :: $k1 <= j && j < len(t.rows[$k0].cells) ==> isnil(t.rows[$k0].cells[j].spannedBy) && !t.rows[$k0].cells[j].leftmost
	inv1 C12.heldNow using heldNow, free (?n []*xpdf.tableCell): held(?n)
	inv2 C12.heldNow using heldNow, end, free (?n []*xpdf.tableCell): held(?n)
	inv2 C12.end using free, end (?n []*xpdf.tableCell): len(?n) > 0 && (last(?n) == t.rows[$k0].cells[$k1] || last(?n).spannedBy == t.rows[$k0].cells[$k1])
	ensures C14.none: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> noRows(t.rows[i].cells)
	ensures C14.ownersAlive: ownersAlive(t)
	inv C14.ownersAlive: ownersAlive(t)
	inv C14.newOwners (?n []*xpdf.tableCell): forall x int {?n[x]} :: 0 <= x && x < len(?n) && !isnil(?n[x].spannedBy) ==> 0 < ?n[x].spannedBy && ?n[x].spannedBy < alloc
	inv C14.none: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> noRows(t.rows[i].cells)
	inv C14.new (?n []*xpdf.tableCell): noRows(?n)
	inv alive(t)
	inv apart(t)
	inv t.rows == old(t.rows)
	inv C11.defined: forall i int {t.rows[i]} :: 0 <= i && i < $k ==> defined(t.rows[i].cells) == old(t.rows[i].cells)
	inv C11.defined0: forall i int {t.rows[i]} :: 0 <= i && i < $k0 ==> defined(t.rows[i].cells) == old(t.rows[i].cells)
	inv C11.spread: forall i int {t.rows[i]} :: 0 <= i && i < $k ==> spread(t.rows[i].cells)
	inv C11.spread0: forall i int {t.rows[i]} :: 0 <= i && i < $k0 ==> spread(t.rows[i].cells)
	inv C11.rest: forall i int {t.rows[i]} :: $k <= i && i < len(t.rows) ==> plainRow(t.rows[i].cells) && t.rows[i].cells == old(t.rows[i].cells)
	inv C11.rest0: forall i int {t.rows[i]} :: $k0 < i && i < len(t.rows) ==> plainRow(t.rows[i].cells)
	inv C11.same: forall i int {t.rows[i]} :: $k0 <= i && i < len(t.rows) ==> t.rows[i].cells == old(t.rows[i].cells)
	inv C11.later: forall j int {t.rows[$k0].cells[j]} :: $k <= j && j < len(t.rows[$k0].cells) ==>
		isnil(t.rows[$k0].cells[j].spannedBy) && !t.rows[$k0].cells[j].zero && t.rows[$k0].cells[j].spansCols == [] && t.rows[$k0].cells[j].spansRows == [] && !t.rows[$k0].cells[j].leftmost
	inv C11.now (?n []*xpdf.tableCell): defined(?n) == t.rows[$k0].cells[0:$k]
	inv cells (?n []*xpdf.tableCell): forall x int {?n[x]} :: 0 <= x && x < len(?n) ==> 0 < ?n[x] && ?n[x] < alloc
	inv once (?n []*xpdf.tableCell): forall x int, y int {?n[x], ?n[y]} :: 0 <= x && x < len(?n) && 0 <= y && y < len(?n) && ?n[x] == ?n[y] ==> x == y
	inv own (?n []*xpdf.tableCell): forall x int, i int, j int {?n[x], t.rows[i].cells[j]} :: 0 <= x && x < len(?n) && 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) && ?n[x] == t.rows[i].cells[j] ==> i == $k0 && j < $k
	inv C11.counted (?n []*xpdf.tableCell): counted(?n)
	inv C11.later2: forall j int {t.rows[$k0].cells[j]} :: $k1 < j && j < len(t.rows[$k0].cells) ==>
		isnil(t.rows[$k0].cells[j].spannedBy) && !t.rows[$k0].cells[j].zero && t.rows[$k0].cells[j].spansCols == [] && t.rows[$k0].cells[j].spansRows == [] && !t.rows[$k0].cells[j].leftmost
	inv C11.now2 (?n []*xpdf.tableCell): defined(?n) == t.rows[$k0].cells[0:$k1 + 1]
	inv own2 (?n []*xpdf.tableCell): forall x int, i int, j int {?n[x], t.rows[i].cells[j]} :: 0 <= x && x < len(?n) && 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) && ?n[x] == t.rows[i].cells[j] ==> i == $k0 && j <= $k1
	inv C11.cur (?n []*xpdf.tableCell): let c = t.rows[$k0].cells[$k1] in isnil(c.spannedBy) && !c.zero && !c.leftmost && c.spansRows == [] && len(c.spansCols) == $k && len(?n) > $k && ?n[len(?n) - 1 - $k] == c
	inv C11.last (?n []*xpdf.tableCell): last(?n) == t.rows[$k0].cells[$k1] || last(?n).spannedBy == t.rows[$k0].cells[$k1]
	inv C11.tight2 (?n []*xpdf.tableCell): tight(?n)
	inv C11.leads2 (?n []*xpdf.tableCell): leads(?n)
	inv C11.holders2 (?n []*xpdf.tableCell): holders(?n)
	inv C11.owns2 (?n []*xpdf.tableCell): owns(?n)
	inv C11.counted2 (?n []*xpdf.tableCell): countedBut(?n, t.rows[$k0].cells[$k1])
}
// what stands below a cell that spans further rows
define below(t *xpdf.table, i int, j int) = let c = t.rows[i].cells[j] in c.rowSpan > 1 && !c.zero ==>
	i + 1 < len(t.rows) && j < len(t.rows[i + 1].cells) && fresh(t.rows[i + 1].cells[j]) && !t.rows[i + 1].cells[j].zero &&
	t.rows[i + 1].cells[j].spannedBy == owner(c) && t.rows[i + 1].cells[j].rowSpan == c.rowSpan - 1
define tightOld(cells seq[*xpdf.tableCell]) = forall x int {cells[x]} :: 0 <= x && x < len(cells) && !isnil(cells[x].spannedBy) && !fresh(cells[x]) ==>
	x > 0 && !fresh(cells[x - 1]) && (cells[x - 1] == cells[x].spannedBy || cells[x - 1].spannedBy == cells[x].spannedBy) && !cells[x].leftmost
// row ir worked through up to column n
define worked(t *xpdf.table, ir int, n int) = forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) && (i < ir || i == ir && j < n) ==> below(t, i, j)
define untouched(t *xpdf.table, ir int, n int) = forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) && i > ir && (i > ir + 1 || j >= n) ==> !fresh(t.rows[i].cells[j])
define oldTight(t *xpdf.table, ir int) = forall i int {t.rows[i]} :: ir < i && i < len(t.rows) ==> tightOld(t.rows[i].cells)

func xpdf.(*table).processRowSpans(t) {
	props C11, C12, C13, C14
	requires alive(t)
	requires apart(t)
	requires C12.held: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> held(t.rows[i].cells)
	requires C11.spread: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> spread(t.rows[i].cells)
	ensures alive(t)
	ensures apart(t)
	ensures rows: len(t.rows) >= len(old(t.rows)) && t.rows[0:len(old(t.rows))] == old(t.rows)
	requires C14.none: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> noRows(t.rows[i].cells)
	ensures C14.owned: allOwnRows(t)
	requires C14.ownersAlive: ownersAlive(t)
	inv C14.own: forall c *xpdf.tableCell, m int {c.spansRows[m]} :: 0 < c && c < old(alloc) && isnil(c.spannedBy) && old(c.spansRows) == [] && 0 <= m && m < len(c.spansRows) ==>
		c.spansRows[m].spannedBy == c && 0 < c.spansRows[m] && c.spansRows[m] < alloc
	inv C14.before: forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) ==>
		(if fresh(t.rows[i].cells[j]) then t.rows[i].cells[j].spansRows == [] && (isnil(t.rows[i].cells[j].spannedBy) ==> t.rows[i].cells[j].zero) else (let c = t.rows[i].cells[j] in old(c.spansRows) == []))
	inv2 C14.zeros (?n []*xpdf.tableCell): forall x int {?n[x]} :: len(pre(?n)) <= x && x < len(?n) ==> ?n[x].spansRows == []
	inv C14.ownersOld: forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) && !isnil(t.rows[i].cells[j].spannedBy) ==> 0 < t.rows[i].cells[j].spannedBy && t.rows[i].cells[j].spannedBy < old(alloc)
	inv1 $k0 < len(t.rows)
	inv2 $k0 < len(t.rows)
	invariant2 srow (?r *xpdf.tableRow): $k0 + 1 < len(t.rows) && ?r == t.rows[$k0 + 1]
	inv2 fill (?n []*xpdf.tableCell): len(?n) >= len(pre(?n)) && ?n[0:len(pre(?n))] == pre(?n)
	inv2 prefix (?n []*xpdf.tableCell): forall x int {?n[x]} :: 0 <= x && x < len(pre(?n)) ==> ?n[x] == pre(?n)[x]
	inv2 filled (?n []*xpdf.tableCell): forall x int {?n[x]} :: len(pre(?n)) <= x && x < len(?n) ==> pre(alloc) <= ?n[x] && ?n[x] < alloc && ?n[x].zero && isnil(?n[x].spannedBy)
	inv2 filling (?n []*xpdf.tableCell): forall x int, y int {?n[x], ?n[y]} :: len(pre(?n)) <= x && x < y && y < len(?n) ==> ?n[x] < ?n[y]
	inv alive(t)
	inv apart(t)
	inv len(t.rows) >= len(old(t.rows)) && t.rows[0:len(old(t.rows))] == old(t.rows)
	ensures C11.defined: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> defined(t.rows[i].cells) == (if i < len(old(t.rows)) then old(defined(t.rows[i].cells)) else [])
	ensures C11.grouped using grouped: grouped(t)
	inv C11.grouped using grouped, zeros: grouped(t)
	inv2 C11.zeros using zeros (?n []*xpdf.tableCell): forall x int {?n[x]} :: len(pre(?n)) <= x && x < len(?n) ==> ?n[x].spansCols == []
	inv C11.defined using def: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> defined(t.rows[i].cells) == (if i < len(old(t.rows)) then old(defined(t.rows[i].cells)) else [])
	inv2 C11.def using def (?n []*xpdf.tableCell): defined(?n) == defined(pre(?n))
	inv0 C12.worked using row, untouched, walk: worked(t, $k, 0)
	inv1 C12.worked using row, untouched, walk: worked(t, $k0, $k)
	inv2 C12.worked using row, untouched, walk: worked(t, $k0, $k1)
	ensures C12.below using worked: forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) ==> below(t, i, j)
	inv0 C12.untouched using walk: untouched(t, $k, 0)
	inv1 C12.untouched using walk: untouched(t, $k0, $k)
	inv2 C12.untouched using walk: untouched(t, $k0, $k1)
	inv0 C12.tight using walk: oldTight(t, $k)
	inv1 C12.tight using walk: oldTight(t, $k0)
	inv2 C12.tight using walk: oldTight(t, $k0)
	inv2 C12.walk using untouched, tight (?a int): ?a <= $k1 && (forall x int {t.rows[$k0 + 1].cells[x]} :: ?a <= x && x <= $k1 && x < len(t.rows[$k0 + 1].cells) ==> !fresh(t.rows[$k0 + 1].cells[x])) && (?a < $k1 ==> $k1 < len(t.rows[$k0 + 1].cells))
	inv1 C12.row using row: t.rows[$k0].cells == pre(t.rows[$k0].cells)
	inv2 C12.row using row: t.rows[$k0].cells == pre(t.rows[$k0].cells)
}
func xpdf.(*table).processSpans(t) {
	props C11, C12, C13, C14
	requires alive(t)
	requires apart(t)
	requires forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> plainRow(t.rows[i].cells)
	ensures alive(t)
	ensures apart(t)
	ensures isRect(t)
	ensures indexed(t)
	ensures C14.owned: allOwnRows(t)
	ensures C11.grouped: grouped(t)
	ensures C11.defined: forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> defined(t.rows[i].cells) == (if i < len(old(t.rows)) then old(t.rows[i].cells) else [])
	ensures C12.columns: columns(t)
	ensures rows: len(t.rows) >= len(old(t.rows)) && t.rows[0:len(old(t.rows))] == old(t.rows)
}
// the largest width a cell of column j asks for, 0 if none does
fold colMax(rows seq[*xpdf.tableRow], j int) real { [] => 0 | a, r => max(a, r.cells[j].ColumnWidth) }
fold sumOf(ws seq[real]) real { [] => 0 | a, w => a + w }
fold sumAsked(ws seq[real]) real { [] => 0 | a, w => if w > 0 then a + w else a }
fold unasked(ws seq[real]) int { [] => 0 | a, w => if w > 0 then a else a + 1 }
// the widths ws with every column not asked for given x
fold sumShared(ws seq[real], x real) real { [] => 0 | a, w => a + (if w > 0 then w else x) }
lemma sumSharedSplit(ws seq[real], x real) {
	induction ws
	trigger sumShared(ws, x)
	ensures sumShared(ws, x) == sumAsked(ws) + unasked(ws) * x
}
lemma unaskedSome(ws seq[real], j int) {
	induction ws
	trigger ws[j], unasked(ws)
	ensures unasked(ws) >= 0
	ensures 0 <= j && j < len(ws) && ws[j] <= 0 ==> unasked(ws) > 0
}
define isRect(t *xpdf.table) = t.columnCount >= 0 && forall i int {t.rows[i]} :: 0 <= i && i < len(t.rows) ==> len(t.rows[i].cells) == t.columnCount
// every cell knows where it stands, so that none stands twice
define indexed(t *xpdf.table) = forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) ==>
	t.rows[i].cells[j].rowIdx == i && t.rows[i].cells[j].cellIdx == j
define widthsOf(t *xpdf.table, ws seq[real], width real) = len(ws) == t.columnCount &&
	(forall j int {ws[j]} :: 0 <= j && j < len(ws) && colMax(t.rows, j) > 0 ==> ws[j] == colMax(t.rows, j)) &&
	(forall j int, k int {ws[j], ws[k]} :: 0 <= j && j < len(ws) && 0 <= k && k < len(ws) && colMax(t.rows, j) <= 0 && colMax(t.rows, k) <= 0 ==> ws[j] == ws[k]) &&
	(forall j int {ws[j]} :: 0 <= j && j < len(ws) && colMax(t.rows, j) <= 0 ==> sumOf(ws) == width) &&
	(forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) ==> t.rows[i].cells[j].width == ws[j])

func xpdf.(*table).assignColumnWidths(t, width) {
	props C13
	requires isRect(t)
	requires indexed(t)
	modifies xpdf.tableCell.width
	ensures C13.widths: exists ws seq[real] :: widthsOf(t, ws, width)
	inv (?c []float64): len(?c) == t.columnCount
	inv C13.asked (?c []float64): forall j int {?c[j]} :: 0 <= j && j < len(?c) ==> ?c[j] == colMax(t.rows[0:$k], j) && ?c[j] >= 0
	inv C13.asked2 (?c []float64): forall j int {?c[j]} :: 0 <= j && j < len(?c) ==> ?c[j] == colMax(if j < $k then t.rows[0:$k0 + 1] else t.rows[0:$k0], j) && ?c[j] >= 0
	inv C13.used (?c []float64, ?s float64, ?n int): ?s == sumAsked(?c[0:$k]) && ?n == unasked(?c[0:$k])
	inv C13.rest (?c []float64): forall j int {?c[j]} :: $k <= j && j < len(?c) ==> ?c[j] == pre(?c)[j]
	inv C13.filled (?c []float64, ?x float64): forall j int {?c[j]} :: 0 <= j && j < $k ==> ?c[j] == (if pre(?c)[j] > 0 then pre(?c)[j] else ?x)
	inv C13.sum (?c []float64, ?x float64): sumOf(?c[0:$k]) == sumShared(pre(?c)[0:$k], ?x)
	invariant C13.set (?c []float64): forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && i < $k && 0 <= j && j < len(t.rows[i].cells) ==> t.rows[i].cells[j].width == ?c[j]
	invariant C13.set2 (?c []float64): forall i int, j int {t.rows[i].cells[j]} :: 0 <= i && (i < $k0 || i == $k0 && j < $k) && i < len(t.rows) && 0 <= j && j < len(t.rows[i].cells) ==> t.rows[i].cells[j].width == ?c[j]
}
fold sumWidth(cells seq[*xpdf.tableCell]) real { [] => 0 | a, c => a + c.width }
fold sumHeight(cells seq[*xpdf.tableCell]) real { [] => 0 | a, c => a + c.height }
func xpdf.(*tableCell).dim(c) returns (width, height) {
	props C13, C14, C15, C28
	ensures width == c.width + sumWidth(c.spansCols)
	ensures height == c.height + sumHeight(c.spansRows)
	inv (?w float64): ?w == c.width + sumWidth(c.spansCols[0:$k])
	inv (?h float64): ?h == c.height + sumHeight(c.spansRows[0:$k])
}
define pageWidth(w real) = if w < 0 || w > paX1 - paX0 then paX1 - paX0 else w
define asks(c *xpdf.tableCell) = c.Dimension.Height > 0
// the height a cell needs in each of the rows it spans
define needs(p *xpdf.Processor, c *xpdf.tableCell) = if asks(c) then c.Dimension.Height else
	(textH(p, c.iss, c.width + sumWidth(c.spansCols) - (c.Padding.Left + c.Padding.Right), c.Styles, pageNo(E.pages)) + c.Padding.Top + c.Padding.Bottom) / real(1 + len(c.spansRows))
// the placeholders a cell has in the rows below are its own
define ownsRows(c *xpdf.tableCell) = forall m int {c.spansRows[m]} :: 0 <= m && m < len(c.spansRows) ==> c.spansRows[m].spannedBy == c
define measured(p *xpdf.Processor, c *xpdf.tableCell) = isRoot(c) ==> c.minHeight == needs(p, c)
define dealtOut(c *xpdf.tableCell) = isRoot(c) && !asks(c) ==> forall m int {c.spansRows[m]} :: 0 <= m && m < len(c.spansRows) ==> c.spansRows[m].minHeight == c.minHeight

func xpdf.(*Processor).assignCellMinHeight(p, cell) {
	props C14
	requires wellPatterned(p.hyphenator)
	requires C14.owned: isRoot(cell) ==> ownsRows(cell)
	modifies xpdf.tableCell.minHeight
	emits Measured
	ensures E.pages == old(E.pages) && E.x == old(E.x) && E.y == old(E.y)
	ensures C14.measured: measured(p, cell)
	ensures C14.dealt: dealtOut(cell)
	ensures C14.others: forall d *xpdf.tableCell {d.minHeight} :: (isRoot(cell) ==> d != cell && d.spannedBy != cell) ==> d.minHeight == old(d.minHeight)
	inv C14.others: forall d *xpdf.tableCell {d.minHeight} :: d != cell && d.spannedBy != cell ==> d.minHeight == old(d.minHeight)
	inv C14.set: forall m int {cell.spansRows[m]} :: 0 <= m && m < $k ==> cell.spansRows[m].minHeight == cell.minHeight
	inv C14.room (?w float64): ?w == cell.width + sumWidth(cell.spansCols[0:$k])
	inv C14.own: cell.minHeight == pre(cell.minHeight)
}
// the largest height any of the cells needs, 0 if none does
fold maxMin(cells seq[*xpdf.tableCell]) real { [] => 0 | a, c => max(a, c.minHeight) }
lemma maxMinBound(cells seq[*xpdf.tableCell], j int) {
	induction cells
	trigger maxMin(cells), cells[j]
	ensures maxMin(cells) >= 0
	ensures 0 <= j && j < len(cells) ==> maxMin(cells) >= cells[j].minHeight
}
func xpdf.(*Processor).assignHeights(p, tab) {
	props C14
	requires wellPatterned(p.hyphenator)
	requires C14.indexed: indexed(tab)
	requires C14.alive: alive(tab)
	requires C14.apart: apart(tab)
	requires C14.owned: allOwnRows(tab)
	modifies xpdf.tableCell.minHeight, xpdf.tableCell.height, xpdf.tableRow.height
	emits Measured
	ensures E.pages == old(E.pages) && E.x == old(E.x) && E.y == old(E.y)
	ensures C14.measured: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) ==> measured(p, tab.rows[i].cells[j])
	ensures C14.dealt: forall i int, j int, m int {tab.rows[i].cells[j].spansRows[m]} :: 0 <= i && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) && isRoot(tab.rows[i].cells[j]) && !asks(tab.rows[i].cells[j]) && 0 <= m && m < len(tab.rows[i].cells[j].spansRows) ==>
		tab.rows[i].cells[j].spansRows[m].minHeight == tab.rows[i].cells[j].minHeight
	ensures C14.row: forall i int {tab.rows[i]} :: 0 <= i && i < len(tab.rows) ==> tab.rows[i].height == maxMin(tab.rows[i].cells)
	ensures C14.cells: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) ==> tab.rows[i].cells[j].height == tab.rows[i].height
	inv E.pages == old(E.pages) && E.x == old(E.x) && E.y == old(E.y)
	inv C14.measured: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < $k && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) ==> measured(p, tab.rows[i].cells[j])
	inv C14.dealt: forall i int, j int, m int {tab.rows[i].cells[j].spansRows[m]} :: 0 <= i && i < $k && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) && isRoot(tab.rows[i].cells[j]) && !asks(tab.rows[i].cells[j]) && 0 <= m && m < len(tab.rows[i].cells[j].spansRows) ==>
		tab.rows[i].cells[j].spansRows[m].minHeight == tab.rows[i].cells[j].minHeight
	inv C14.measured0: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && (i < $k0 || i == $k0 && j < $k) && 0 <= j && j < len(tab.rows[i].cells) ==> measured(p, tab.rows[i].cells[j])
	inv C14.dealt0: forall i int, j int, m int {tab.rows[i].cells[j].spansRows[m]} :: 0 <= i && i < len(tab.rows) && (i < $k0 || i == $k0 && j < $k) && 0 <= j && j < len(tab.rows[i].cells) && isRoot(tab.rows[i].cells[j]) && !asks(tab.rows[i].cells[j]) && 0 <= m && m < len(tab.rows[i].cells[j].spansRows) ==>
		tab.rows[i].cells[j].spansRows[m].minHeight == tab.rows[i].cells[j].minHeight
	inv C14.most (?m float64): ?m == maxMin(tab.rows[$k0].cells[0:$k])
	inv C14.row: forall i int {tab.rows[i]} :: 0 <= i && i < $k && i < len(tab.rows) ==> tab.rows[i].height == maxMin(tab.rows[i].cells)
	inv C14.cells: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < $k && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) ==> tab.rows[i].cells[j].height == tab.rows[i].height
	inv C14.cells0: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && (i < $k0 || i == $k0 && j < $k) && 0 <= j && j < len(tab.rows[i].cells) ==> tab.rows[i].cells[j].height == tab.rows[i].height
}
func xpdf.(*Processor).transformTable(p, xtab) returns (tab) {
	props C11, C12, C13, C14
	requires wellPatterned(p.hyphenator)
	emits Measured
	ensures isRect(tab)
	ensures place: E.x == old(E.x) && E.y == old(E.y)
	ensures indexed(tab)
	ensures C13.widths: exists ws seq[real] :: widthsOf(tab, ws, pageWidth(tab.Width))
	ensures C14.measured: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) ==> measured(p, tab.rows[i].cells[j])
	ensures C14.dealt: forall i int, j int, m int {tab.rows[i].cells[j].spansRows[m]} :: 0 <= i && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) && isRoot(tab.rows[i].cells[j]) && !asks(tab.rows[i].cells[j]) && 0 <= m && m < len(tab.rows[i].cells[j].spansRows) ==>
		tab.rows[i].cells[j].spansRows[m].minHeight == tab.rows[i].cells[j].minHeight
	ensures C14.row: forall i int {tab.rows[i]} :: 0 <= i && i < len(tab.rows) ==> tab.rows[i].height == maxMin(tab.rows[i].cells)
	ensures C14.cells: forall i int, j int {tab.rows[i].cells[j]} :: 0 <= i && i < len(tab.rows) && 0 <= j && j < len(tab.rows[i].cells) ==> tab.rows[i].cells[j].height == tab.rows[i].height
	ensures C11.grouped: grouped(tab)
	ensures C12.columns: columns(tab)
	inv place: E.x == old(E.x) && E.y == old(E.y)
	inv rowsAlive (?t xpdf.table): aliveRows(?t.rows)
	inv rowsApart (?t xpdf.table): apartRows(?t.rows)
	inv rowsPlain (?t xpdf.table): forall i int {?t.rows[i]} :: 0 <= i && i < len(?t.rows) ==> plainRow(?t.rows[i].cells)
	inv cellsPlain (?r xpdf.tableRow): plainRow(?r.cells)
	inv cellsNew (?r xpdf.tableRow): forall j int {?r.cells[j]} :: 0 <= j && j < len(?r.cells) ==> pre(alloc) <= ?r.cells[j] && ?r.cells[j] < alloc
	inv cellsOnce (?r xpdf.tableRow): forall j int, k int {?r.cells[j], ?r.cells[k]} :: 0 <= j && j < k && k < len(?r.cells) ==> ?r.cells[j] < ?r.cells[k]
}
// where the text of a cell stands, and what is put on paper for the cell
define innerW(pa xpdf.PrintableArea, sty style.Styles) = pa.x1 - pa.x0 - sty.Padding.Left - sty.Padding.Right
define textTop(pa xpdf.PrintableArea, sty style.Styles, h real) =
	let room = pa.y1 - pa.y0 - sty.Padding.Top - sty.Padding.Bottom - h in
	pa.y0 + sty.Padding.Top + (if sty.VAlign == "middle" then room / 2 else if sty.VAlign == "bottom" then room else 0.0)
define cellMarks(p *xpdf.Processor, c *xpdf.tableCell, pa xpdf.PrintableArea, page int) =
	[Boxed(pa.x0, pa.y0, pa.x1, pa.y1, c.Styles)] ++
	(if len(c.iss) > 0 then [Flowed(block(c.Styles), c.iss, innerW(pa, c.Styles), c.Styles, pa.x0 + c.Styles.Padding.Left,
		textTop(pa, c.Styles, textH(p, c.iss, innerW(pa, c.Styles), c.Styles, page)))] else [])
func xpdf.(*Processor).renderCell(p, pa, cell) {
	props C28, C10, C19
	requires wellPatterned(p.hyphenator)
	requires E.path == []
	emits Celled(cell, pa.x0, pa.y0, pa.x1, pa.y1)
	ensures C28.placed: marks(trace) == cellMarks(p, cell, pa, pageNo(old(E.pages)))
	ensures C19.nobreak: p.preventPageBreak ==> E.pages == old(E.pages)
	ensures path: E.path == []
	inv E.path == []
	inv C28.placed: marks(trace) == cellMarks(p, cell, pa, pageNo(old(E.pages)))
	inv C19.nobreak: p.preventPageBreak ==> E.pages == old(E.pages)
}
// what a table puts on paper: page breaks and cells
fold laid(t seq[Ev]) seq[Ev] { [] => [] | a, e => match e { NewPage => push(a, e) | Celled(c, x0, y0, x1, y1) => push(a, e) | _ => a } }
data RowSt = RowSt(x real, ev seq[Ev])
data TabSt = TabSt(i int, y real, ev seq[Ev])
define cellH(c *xpdf.tableCell) = c.height + sumHeight(c.spansRows)
define cellW(c *xpdf.tableCell) = c.width + sumWidth(c.spansCols)
fold rowCells(cells seq[*xpdf.tableCell], y real, x0 real, before seq[Ev]) RowSt {
	[] => RowSt(x0, before)
	| a, c => match a { RowSt(x, ev) => RowSt(x + c.width, if c.zero || c.spannedBy != nil then ev else
		push(ev, Celled(c, x, y, x + cellW(c), y + cellH(c)))) } }
// rows one below the other
fold rowsBelow(rows seq[*xpdf.tableRow], x0 real, y0 real, before seq[Ev]) RowSt {
	[] => RowSt(y0, before)
	| a, r => match a { RowSt(y, ev) => RowSt(y + r.height, match rowCells(r.cells, y, x0, ev) { RowSt(x, e) => e }) } }
fold tallest(cells seq[*xpdf.tableCell]) real { [] => 0.0 | a, c => max(a, cellH(c)) }
fold tallestSum(rows seq[*xpdf.tableRow]) real { [] => 0.0 | a, r => a + tallest(r.cells) }
define upTo(n int, rows seq[*xpdf.tableRow]) = if n < 0 then rows[0:0] else if n > len(rows) then rows else rows[0:n]
// the rows over pages: a row that would not fit starts a page, below the header
fold paged(rows seq[*xpdf.tableRow], head seq[*xpdf.tableRow], free bool, x0 real, y0 real, before seq[Ev]) TabSt {
	[] => TabSt(0, y0, before)
	| a, r => match a { TabSt(i, y, ev) =>
		if free && y + tallest(r.cells) > paY1 then
			(match rowsBelow(if i > 0 then head else head[0:0], x0, homeY, push(ev, NewPage)) { RowSt(hy, hev) =>
				TabSt(i + 1, hy + r.height, match rowCells(r.cells, hy, x0, hev) { RowSt(x, e) => e }) })
		else TabSt(i + 1, y + r.height, match rowCells(r.cells, y, x0, ev) { RowSt(x, e) => e }) } }

func xpdf.(*tableRow).maxCellHeight(row) returns (h) {
	props C15
	ensures h == tallest(row.cells)
	inv (?h float64): ?h == tallest(row.cells[0:$k])
}
func xpdf.(*Processor).renderTable(p, xtab) {
	props C15, C28, C10, C19
	requires wellPatterned(p.hyphenator)
	emits DidTable(xtab)
	requires E.path == []
	ensures C15.paged: exists tab *xpdf.table :: isRect(tab) && (if tab.columnCount == 0 then laid(trace) == [] else
		let free = !p.preventPageBreak in
		let first = free && old(E.y) + tallestSum(upTo(xtab.RepeatHeader + 1, tab.rows)) > paY1 in
		match paged(tab.rows, upTo(xtab.RepeatHeader, tab.rows), free, old(E.x), if first then homeY else old(E.y), if first then [NewPage] else []) {
			TabSt(i, y, ev) => laid(trace) == ev && E.y == y })
	ensures C10.restored: E.font == p.currStyles.Font && E.text == p.currStyles.Text
	ensures C19.nobreak: p.preventPageBreak ==> E.pages == old(E.pages)
	ensures path: E.path == []
	inv E.path == []
	inv C15.headcount: $k <= max(0, xtab.RepeatHeader + 1)
	inv C15.headsum (?h float64, ?t *xpdf.table): ?h == tallestSum(upTo($k, ?t.rows))
	inv C15.rows (?y float64, ?t *xpdf.table): paged(?t.rows[0:$k], upTo(xtab.RepeatHeader, ?t.rows), !p.preventPageBreak, old(E.x), pre(?y), pre(laid(trace))) == TabSt($k, ?y, laid(trace))
	inv C15.head (?y float64, ?t *xpdf.table): rowsBelow(upTo($k, ?t.rows), old(E.x), pre(?y), pre(laid(trace))) == RowSt(?y, laid(trace))
	inv C15.cells (?x float64, ?y float64, ?r *xpdf.tableRow): rowCells(?r.cells[0:$k], ?y, old(E.x), pre(laid(trace))) == RowSt(?x, laid(trace))
	inv C19.nobreak: p.preventPageBreak ==> E.pages == old(E.pages)
}
