// Grid layouts: every area must cover a full rectangle of positions.
package xpdf

extern errors.Errorf(format, args) returns (e) { ensures !isnil(e) }
extern log.Errorf(format, args) { emits Refused }

// the positions a box has collected so far: consecutive rows, from the same
// column on, without gaps
define runs(b *xpdf.gridBox) = len(b.rows) > 0 ==>
	forall i int {b.rows[i]} :: 0 <= i && i < len(b.rows) ==> b.rows[i].idx == b.top + i && len(b.rows[i].cols) > 0 &&
		forall j int {b.rows[i].cols[j]} :: 0 <= j && j < len(b.rows[i].cols) ==> b.rows[i].cols[j] == b.left + j

func xpdf.(*gridBox).add(b, row, col) returns (err) {
	props C22
	modifies b, xpdf.areaRow.cols
	requires runs: runs(b)
	requires later: len(b.rows) > 0 ==> row >= b.top + len(b.rows) - 1
	ensures accept: isnil(err) == (len(old(b.rows)) == 0 ||
		row == old(b.top) + len(old(b.rows)) - 1 && col == old(b.left) + len(old(last(b.rows).cols)) ||
		row == old(b.top) + len(old(b.rows)) && col == old(b.left))
	ensures runs: isnil(err) ==> runs(b)
	ensures area: b.area == old(b.area)
	ensures first: isnil(err) && len(old(b.rows)) == 0 ==> b.top == row && b.left == col
	ensures origin: isnil(err) && len(old(b.rows)) > 0 ==> b.top == old(b.top) && b.left == old(b.left)
	ensures same: isnil(err) && len(old(b.rows)) > 0 && row == old(b.top) + len(old(b.rows)) - 1 ==>
		b.rows == old(b.rows) && last(b.rows).cols == push(old(last(b.rows).cols), col)
	ensures next: isnil(err) && (len(old(b.rows)) == 0 || row == old(b.top) + len(old(b.rows))) ==>
		b.rows == push(old(b.rows), last(b.rows)) && last(b.rows).idx == row && last(b.rows).cols == [col] && fresh(last(b.rows))
	ensures kept: !isnil(err) ==> b.rows == old(b.rows) && b.top == old(b.top) && b.left == old(b.left)
	ensures others: forall r *xpdf.areaRow {r.cols} :: (len(old(b.rows)) == 0 || !isnil(err) || row != old(b.top) + len(old(b.rows)) - 1 || r != last(old(b.rows))) && r < old(alloc) ==> r.cols == old(r.cols)
	inv forall i int {b.rows[i]} :: 0 <= i && i < $k ==> b.rows[i].idx != row
}
// pos marks a position; it holds of every one (it names instances for the
// solver)
ufun pos(int, int) bool
axiom posTrue(r int, c int) { ensures pos(r, c) trigger pos(r, c) }

// where rows of different length betray themselves; holds of every row
define corners(b *xpdf.gridBox, i int) = pos(b.top, b.left) && pos(b.top + i, b.left) &&
	pos(b.top, b.left + len(b.rows[0].cols) - 1) && pos(b.top, b.left + len(b.rows[0].cols)) &&
	pos(b.top + i, b.left + len(b.rows[i].cols) - 1) && pos(b.top + i, b.left + len(b.rows[i].cols))
func xpdf.(*gridBox).validate(b) returns (err) {
	props C22
	modifies nothing
	requires len(b.rows) > 0
	ensures equal: isnil(err) == (forall i int {b.rows[i]} :: 0 <= i && i < len(b.rows) && corners(b, i) ==> len(b.rows[i].cols) == len(b.rows[0].cols))
	inv forall i int {b.rows[i]} :: 0 <= i && i < $k ==> len(b.rows[i].cols) == len(b.rows[0].cols)
}

// areas as the document gives them: full if between any two positions of an
// area (the rectangle they span) there is nothing but that area
define at(g *xdoc.Grid, r int, c int) = g.Rows[r].Areas[c]
define inside(g *xdoc.Grid, r int, c int) = 0 <= r && r < len(g.Rows) && 0 <= c && c < len(g.Rows[r].Areas)
define full(g *xdoc.Grid) = forall r int, c int, s int, d int, x int, y int {pos(r, c), pos(s, d), pos(x, y)} ::
	pos(r, c) && pos(s, d) && pos(x, y) && inside(g, r, c) && inside(g, s, d) && at(g, r, c) == at(g, s, d) &&
		min(r, s) <= x && x <= max(r, s) && min(c, d) <= y && y <= max(c, d)
	==> inside(g, x, y) && at(g, x, y) == at(g, r, c)
define seen(r int, c int, ir int, ia int) = 0 <= r && 0 <= c && (r < ir || r == ir && c < ia)
define covers(b *xpdf.gridBox, x int, y int) = b.top <= x && x < b.top + len(b.rows) && b.left <= y && y < b.left + len(b.rows[x - b.top].cols)
fold refusals(t seq[Ev]) int { [] => 0 | a, e => match e { Refused => a + 1 | _ => a } }

func xpdf.(*Processor).renderGrid(p, g, pa) {
	props C22, C10
	emits DidGrid(g, pa)
	ensures C10.keep: E.font == old(E.font) && E.text == old(E.text)
	ensures pages: E.pages == old(E.pages)
	ensures path: E.path == old(E.path)
	ensures C22.accepted: refusals(trace) == 0 ==> full(g)
	ensures C22.refused: refusals(trace) > 0 ==> !full(g)
	inv C22.quiet: refusals(trace) == 0
	inv (?m map[string]*xpdf.gridBox): forall a string {haskey(?m, a)} {?m[a]} :: haskey(?m, a) ==>
		?m[a].area == a && ?m[a] < alloc && runs(?m[a]) && len(?m[a].rows) > 0 && ?m[a].top >= 0 && ?m[a].left >= 0
	inv (?m map[string]*xpdf.gridBox): forall a string, i int {?m[a].rows[i]} :: haskey(?m, a) && 0 <= i && i < len(?m[a].rows) ==> 0 < ?m[a].rows[i] && ?m[a].rows[i] < alloc
	inv (?m map[string]*xpdf.gridBox): forall a string, b string, i int, j int {?m[a].rows[i], ?m[b].rows[j]} ::
		haskey(?m, a) && haskey(?m, b) && 0 <= i && i < len(?m[a].rows) && 0 <= j && j < len(?m[b].rows) && ?m[a].rows[i] == ?m[b].rows[j] ==> a == b && i == j
	inv C22.in (?m map[string]*xpdf.gridBox): forall a string, x int, y int {?m[a], pos(x, y)} ::
		pos(x, y) && haskey(?m, a) && covers(?m[a], x, y) ==> seen(x, y, $k, 0) && inside(g, x, y) && at(g, x, y) == a
	inv C22.all (?m map[string]*xpdf.gridBox): forall x int, y int {pos(x, y)} ::
		pos(x, y) && inside(g, x, y) && seen(x, y, $k, 0) ==> haskey(?m, at(g, x, y)) && covers(?m[at(g, x, y)], x, y)
	inv C22.in2 (?m map[string]*xpdf.gridBox): forall a string, x int, y int {?m[a], pos(x, y)} ::
		pos(x, y) && haskey(?m, a) && covers(?m[a], x, y) ==> seen(x, y, $k0, $k) && inside(g, x, y) && at(g, x, y) == a
	inv (?m map[string]*xpdf.gridBox): forall a string {?m[a]} :: haskey(?m, a) ==> ?m[a].top + len(?m[a].rows) <= $k
	inv (?m map[string]*xpdf.gridBox): forall a string {?m[a]} :: haskey(?m, a) ==> ?m[a].top + len(?m[a].rows) <= $k0 + 1
	inv C22.all2 (?m map[string]*xpdf.gridBox): forall x int, y int {pos(x, y)} ::
		pos(x, y) && inside(g, x, y) && seen(x, y, $k0, $k) ==> haskey(?m, at(g, x, y)) && covers(?m[at(g, x, y)], x, y)
	inv C22.valid (?m map[string]*xpdf.gridBox): forall a string {?m[a]} :: haskey(?m, a) && visited(a) ==>
		forall i int {?m[a].rows[i]} :: 0 <= i && i < len(?m[a].rows) ==> len(?m[a].rows[i].cols) == len(?m[a].rows[0].cols)
	// positions the argument looks at
	hint pos($k0, $k1)
	hint (?b *xpdf.gridBox): pos(?b.top, ?b.left)
	hint (?b *xpdf.gridBox): pos($k0, ?b.left)
	hint (?b *xpdf.gridBox): pos(?b.top, $k1)
	hint (?b *xpdf.gridBox): pos(?b.top + len(?b.rows), ?b.left)
	hint (?b *xpdf.gridBox): pos($k0, ?b.left + len(last(?b.rows).cols))
}
