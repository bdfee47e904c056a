// Decoding a document's content: what is made of the tokens read.
package xdoc

extern xml.(*Decoder).Token(d) returns (tok, err) { emits Read(tok, isnil(err)) }
extern xml.StartElement.End(e) returns (r) { ensures r.Name == e.Name }
extern xml.(*Decoder).DecodeElement(d, v, start) returns (err) { emits Elem(*start, isnil(err)) }
extern errors.Wrapf(err, format, args) returns (e) { ensures isnil(e) == isnil(err) }
extern errors.Wrap(err, message) returns (e) { ensures isnil(e) == isnil(err) }

// an instruction's attributes; only the instruction itself is written
iface xdoc.Instruction.DecodeAttrs(i, attrs) returns (err) { modifies nothing emits Attrs(attrs, isnil(err)) }
// only what the prototype stands for is made; what is made is new
func xdoc.(*Registry).DecodeInstruction(r, d, start) returns (i, err) {
	nosafety
	props C23
	modifies nothing
	emits Child(start, i, isnil(err))
	ensures done: isnil(err) == (haskey(r.instructions, start.Name.Local) && trace == [Elem(start, true), Attrs(start.Attr, true)])
}

ufun bufText(*bytes.Buffer) string
ufun fieldsOf(string) seq[string]
extern bytes.NewBufferString(s) returns (b) { allocs ensures bufText(b) == s }
extern strings.Fields(s) returns (r) { ensures r == fieldsOf(s) }
func xdoc.(*NoStyles).DecodeAttrs(i, attrs) returns (err) {
	props C23
	modifies nothing
	emits Attrs(attrs, isnil(err))
	ensures none: isnil(err)
}
define isStyle(a xml.Attr) = a.Name.Local == "style"
fold classesIn(as seq[xml.Attr]) seq[string] { [] => [] | a, e => if !isStyle(e) && e.Name.Local == "class" then a ++ fieldsOf(e.Value) else a }
fold stylesIn(as seq[xml.Attr]) seq[string] { [] => [] | a, e => if isStyle(e) then push(a, e.Value) else a }
fold styled1(t seq[Ev]) seq[*style.Mutator] { [] => [] | a, e => match e { Styling(s, m, ok) => if ok then push(a, m) else a | _ => a } }
fold stylesRead(t seq[Ev]) seq[string] { [] => [] | a, e => match e { Styling(s, m, ok) => if ok then push(a, s) else a | _ => a } }
fold stylesBad(t seq[Ev]) bool { [] => false | a, e => match e { Styling(s, m, ok) => a || !ok | _ => a } }
func xdoc.(*Styled).DecodeAttrs(i, attrs) returns (err) {
	props C23, C08
	modifies i
	emits Attrs(attrs, isnil(err))
	ensures failed: isnil(err) == !stylesBad(trace)
	ensures classes: isnil(err) ==> i.Classes == old(i.Classes) ++ classesIn(attrs)
	ensures styles: isnil(err) ==> i.Mutators == old(i.Mutators) ++ styled1(trace) && stylesRead(trace) == stylesIn(attrs)
	inv !stylesBad(trace)
	inv i.Classes == old(i.Classes) ++ classesIn(attrs[0:$k])
	inv i.Mutators == old(i.Mutators) ++ styled1(trace)
	inv stylesRead(trace) == stylesIn(attrs[0:$k])
}

// how far reading an element has come; an element is done at its own end tag
// and nowhere else, and nothing is read after it
data Reading = Open | Within(start xml.StartElement) | Done | Broken
define isStart(tok xml.Token) = istype(tok, "xml.StartElement")
define isEnd(tok xml.Token, n xml.Name) = istype(tok, "xml.EndElement") && astype(tok, "xml.EndElement").Name == n
fold reading(t seq[Ev], n xml.Name, strict bool) Reading { [] => Open
	| a, e => match a {
		Open => match e {
			Read(tok, ok) => if !ok then Broken else if isEnd(tok, n) then Done else if isStart(tok) then Within(astype(tok, "xml.StartElement")) else Open
			| Attrs(as, ok) => if ok then Open else Broken
			| _ => Broken }
		| Within(s) => match e { Child(st, i, ok) => if st == s && (ok || !strict) then Open else Broken | _ => Broken }
		| Done => Broken
		| Broken => Broken } }
// an element's content: its children and runs of character data
data Item = Element(i xdoc.Instruction) | Chars(s string)
fold content(t seq[Ev]) seq[Item] { [] => []
	| a, e => match e {
		Child(st, i, ok) => if ok then push(a, Element(i)) else a
		| Read(tok, ok) => if ok && istype(tok, "xml.CharData") && len(astype(tok, "xml.CharData")) > 0 then push(a, Chars(astype(tok, "xml.CharData"))) else a
		| _ => a } }
define isItem(i xdoc.Instruction, it Item) = match it { Element(j) => i == j | Chars(s) => istype(i, "*xdoc.TextBlock") && astype(i, "*xdoc.TextBlock").Text == s }

func xdoc.(*Instructions).UnmarshalXML(is, d, start) returns (err) {
	props C23
	modifies is
	requires trace == []
	ensures ended: isnil(err) == (reading(trace, start.Name, true) == Done)
	ensures content: is.ISS == old(is.ISS) ++ is.ISS[len(old(is.ISS)):len(is.ISS)] && len(is.ISS) == len(old(is.ISS)) + len(content(trace)) &&
		forall k int {content(trace)[k]} :: 0 <= k && k < len(content(trace)) ==> isItem(is.ISS[len(old(is.ISS)) + k], content(trace)[k])
	inv reading(trace, start.Name, true) == Open
	inv len(is.ISS) == len(old(is.ISS)) + len(content(trace))
	inv forall k int {is.ISS[k]} :: 0 <= k && k < len(old(is.ISS)) ==> is.ISS[k] == old(is.ISS)[k]
	inv forall k int {content(trace)[k]} :: 0 <= k && k < len(content(trace)) ==> isItem(is.ISS[len(old(is.ISS)) + k], content(trace)[k])
	inv forall k int {is.ISS[k]} :: len(old(is.ISS)) <= k && k < len(is.ISS) && istype(is.ISS[k], "*xdoc.TextBlock") ==> astype(is.ISS[k], "*xdoc.TextBlock") < alloc
}

// ---- tables ----

fold rowsIn(t seq[Ev]) seq[*xdoc.TableRow] { [] => []
	| a, e => match e { Child(st, i, ok) => if ok && istype(i, "*xdoc.TableRow") then push(a, astype(i, "*xdoc.TableRow")) else a | _ => a } }
fold cellsIn(t seq[Ev]) seq[*xdoc.TableCell] { [] => []
	| a, e => match e { Child(st, i, ok) => if ok && istype(i, "*xdoc.TableCell") then push(a, astype(i, "*xdoc.TableCell")) else a | _ => a } }

func xdoc.(*Table).UnmarshalXML(tab, d, start) returns (err) {
	props C23
	modifies tab
	requires trace == []
	ensures ended: isnil(err) == (reading(trace, start.Name, true) == Done)
	ensures rows: tab.Rows == old(tab.Rows) ++ rowsIn(trace)
	inv reading(trace, start.Name, true) == Open
	inv tab.Rows == old(tab.Rows) ++ rowsIn(trace)
}
func xdoc.(*TableRow).UnmarshalXML(row, d, start) returns (err) {
	props C23
	modifies row
	requires trace == []
	ensures ended: isnil(err) == (reading(trace, start.Name, true) == Done)
	ensures cells: row.Cells == old(row.Cells) ++ cellsIn(trace)
	inv reading(trace, start.Name, true) == Open
	inv row.Cells == old(row.Cells) ++ cellsIn(trace)
}
func xdoc.(*TableCell).UnmarshalXML(cell, d, start) returns (err) {
	props C23
	modifies cell
	requires trace == []
	ensures ended: isnil(err) == (reading(trace, start.Name, false) == Done)
	ensures content: len(cell.ISS) == len(old(cell.ISS)) + len(content(trace)) &&
		forall k int {content(trace)[k]} :: 0 <= k && k < len(content(trace)) ==> isItem(cell.ISS[len(old(cell.ISS)) + k], content(trace)[k])
	ensures before: forall k int {cell.ISS[k]} :: 0 <= k && k < len(old(cell.ISS)) ==> cell.ISS[k] == old(cell.ISS)[k]
	inv reading(trace, start.Name, false) == Open
	inv len(cell.ISS) == len(old(cell.ISS)) + len(content(trace))
	inv forall k int {cell.ISS[k]} :: 0 <= k && k < len(old(cell.ISS)) ==> cell.ISS[k] == old(cell.ISS)[k]
	inv forall k int {content(trace)[k]} :: 0 <= k && k < len(content(trace)) ==> isItem(cell.ISS[len(old(cell.ISS)) + k], content(trace)[k])
	inv forall k int {cell.ISS[k]} :: len(old(cell.ISS)) <= k && k < len(cell.ISS) && istype(cell.ISS[k], "*xdoc.TextBlock") ==> astype(cell.ISS[k], "*xdoc.TextBlock") < alloc
}

// ---- attributes ----

ufun isInt(string) bool
// a number that fits eight bits
ufun isSmall(string) bool
ufun intOf(string) int
extern strconv.ParseInt(s, base, bits) returns (n, err) {
	ensures base == 10 && bits == 64 ==> isnil(err) == isInt(s) && (isInt(s) ==> n == intOf(s))
	ensures base == 10 && bits == 8 ==> isnil(err) == isSmall(s) && (isSmall(s) ==> n == intOf(s))
}
// the value of an integer attribute, the last one counting; what it was when
// it is not given
fold attrOf(as seq[xml.Attr], name string, v int) int { [] => v | a, e => if e.Name.Local == name && isInt(e.Value) then intOf(e.Value) else a }
define attrsInt(as seq[xml.Attr], n int, name string) = forall k int {as[k]} :: 0 <= k && k < n && as[k].Name.Local == name ==> isInt(as[k].Value)
define attrsWithin(as seq[xml.Attr], n int, name string) = forall k int {as[k]} :: 0 <= k && k < n && as[k].Name.Local == name ==> 0 <= intOf(as[k].Value) && intOf(as[k].Value) <= 10
fold attrNamed(as seq[xml.Attr], name string, v string) string { [] => v | a, e => if e.Name.Local == name then e.Value else a }
fold styledOk(t seq[Ev]) bool { [] => false | a, e => match e { Attrs(as, ok) => ok | _ => false } }

func xdoc.(*Table).DecodeAttrs(t, attrs) returns (err) {
	props C23
	modifies t
	requires trace == []
	ensures accepted: isnil(err) == (attrsInt(attrs, len(attrs), "repeatheader") && attrsWithin(attrs, len(attrs), "repeatheader") && styledOk(trace))
	ensures value: isnil(err) ==> t.RepeatHeader == attrOf(attrs, "repeatheader", old(t.RepeatHeader))
	inv attrsInt(attrs, $k, "repeatheader") && attrsWithin(attrs, $k, "repeatheader")
	inv t.RepeatHeader == attrOf(attrs[0:$k], "repeatheader", old(t.RepeatHeader))
	inv trace == []
}
func xdoc.(*TableCell).DecodeAttrs(c, attrs) returns (err) {
	props C23
	modifies c
	requires trace == []
	ensures accepted: isnil(err) == (attrsInt(attrs, len(attrs), "colspan") && attrsInt(attrs, len(attrs), "rowspan") && styledOk(trace))
	ensures value: isnil(err) ==> c.ColSpan == attrOf(attrs, "colspan", old(c.ColSpan)) && c.RowSpan == attrOf(attrs, "rowspan", old(c.RowSpan))
	inv attrsInt(attrs, $k, "colspan") && attrsInt(attrs, $k, "rowspan")
	inv c.ColSpan == attrOf(attrs[0:$k], "colspan", old(c.ColSpan))
	inv c.RowSpan == attrOf(attrs[0:$k], "rowspan", old(c.RowSpan))
	inv trace == []
}

// ---- grids ----

define sameCount(g *xdoc.Grid) = forall i int {g.Rows[i]} :: 0 <= i && i < len(g.Rows) ==> len(g.Rows[i].Areas) == len(g.Rows[0].Areas)
define names(g *xdoc.Grid, a string) = exists i int, j int {g.Rows[i].Areas[j]} :: 0 <= i && i < len(g.Rows) && 0 <= j && j < len(g.Rows[i].Areas) && g.Rows[i].Areas[j] == a
define partsNamed(g *xdoc.Grid) = forall k int {g.Parts[k]} :: 0 <= k && k < len(g.Parts) ==> names(g, g.Parts[k].Area)
define valid(g *xdoc.Grid) = len(g.Rows) > 0 && sameCount(g) && partsNamed(g)

func xdoc.(*Grid).Validate(g) returns (err) {
	props C22
	modifies nothing
	ensures valid: isnil(err) == valid(g)
	inv forall i int {g.Rows[i]} :: 0 <= i && i < $k ==> len(g.Rows[i].Areas) == len(g.Rows[0].Areas)
	inv forall i int {g.Rows[i]} :: 0 <= i && i < $k0 ==> len(g.Rows[i].Areas) == len(g.Rows[0].Areas)
	inv (?m map[string]bool): forall i int, j int {g.Rows[i].Areas[j]} :: 0 <= i && i < $k && 0 <= j && j < len(g.Rows[i].Areas) ==> haskey(?m, g.Rows[i].Areas[j])
	inv (?m map[string]bool): forall i int, j int {g.Rows[i].Areas[j]} :: 0 <= i && i <= $k0 && 0 <= j && j < len(g.Rows[i].Areas) && (i < $k0 || j < $k) ==> haskey(?m, g.Rows[i].Areas[j])
	inv (?m map[string]bool): forall a string {haskey(?m, a)} :: haskey(?m, a) ==> names(g, a)
	inv forall k int {g.Parts[k]} :: 0 <= k && k < $k ==> names(g, g.Parts[k].Area)
}
fold gridRowsIn(t seq[Ev]) seq[*xdoc.GridRow] { [] => []
	| a, e => match e { Child(st, i, ok) => if ok && istype(i, "*xdoc.GridRow") then push(a, astype(i, "*xdoc.GridRow")) else a | _ => a } }
fold partsIn(t seq[Ev]) seq[*xdoc.GridPart] { [] => []
	| a, e => match e { Child(st, i, ok) => if ok && istype(i, "*xdoc.GridPart") then push(a, astype(i, "*xdoc.GridPart")) else a | _ => a } }
func xdoc.(*Grid).UnmarshalXML(g, d, start) returns (err) {
	props C22, C23
	modifies g
	requires trace == []
	ensures C22.valid: isnil(err) ==> valid(g)
	ensures C22.ended: isnil(err) == (reading(trace, start.Name, false) == Done && valid(g))
	ensures C23.rows: g.Rows == old(g.Rows) ++ gridRowsIn(trace)
	ensures C23.parts: g.Parts == old(g.Parts) ++ partsIn(trace)
	inv reading(trace, start.Name, false) == Open
	inv C23.r: g.Rows == old(g.Rows) ++ gridRowsIn(trace)
	inv C23.p: g.Parts == old(g.Parts) ++ partsIn(trace)
}

fold elementsIn(t seq[Ev]) seq[xdoc.Instruction] { [] => [] | a, e => match e { Child(st, i, ok) => if ok then push(a, i) else a | _ => a } }
func xdoc.(*GridPart).UnmarshalXML(p, d, start) returns (err) {
	props C23
	modifies p
	requires trace == []
	ensures ended: isnil(err) == (reading(trace, start.Name, false) == Done)
	ensures content: p.ISS == old(p.ISS) ++ elementsIn(trace)
	inv reading(trace, start.Name, false) == Open
	inv p.ISS == old(p.ISS) ++ elementsIn(trace)
}
func xdoc.(*GridPart).DecodeAttrs(p, attrs) returns (err) {
	props C23
	modifies p
	requires trace == []
	ensures accepted: isnil(err) == styledOk(trace)
	ensures value: p.Area == attrNamed(attrs, "area", old(p.Area))
	inv p.Area == attrNamed(attrs[0:$k], "area", old(p.Area))
	inv trace == []
}

// ---- documents ----

extern xml.NewDecoder(r) returns (d) { allocs }
// fills in the document; nothing else is written
extern xml.(*Decoder).Decode(d, v) returns (err) { emits Parsed(isnil(err)) modifies xdoc.Document.Style, xdoc.Document.Meta, xdoc.Document.Page, xdoc.Document.Header, xdoc.Document.Footer, xdoc.Document.Body, xdoc.Document.XMLName }
func xdoc.Load(r) returns (doc, err) {
	props C21, C23
	emits Loaded(isnil(err))
	ensures C21.valid: isnil(err) ==> trace == [Parsed(true), Sheet(doc.Style, doc.styleClasses, true)]
	ensures C21.invalid: !isnil(err) ==> trace == [Parsed(false)] || len(trace) == 2 && trace[0] == Parsed(true) && (match trace[1] { Sheet(s, c, ok) => !ok | _ => false })
	ensures C21.failed: !isnil(err) ==> isnil(doc)
}
func xdoc.LoadFromFile(file) returns (doc, err) {
	props C21, C23
	requires trace == []
	ensures C21.valid: isnil(err) ==> trace == [Opened(file, true), Loaded(true)]
}
