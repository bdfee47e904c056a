// Hyphenation patterns: one line of a source, and the source as a whole.
package hyphenation

// ---- the library ----
ufun digit(int) bool
axiom digits(c int) {
	requires 48 <= c && c <= 57
	ensures digit(c)
	trigger digit(c)
}
extern unicode.IsDigit(r) returns (b) { ensures b == digit(r) }
// of the characters counting as digits only the decimal ones are numbers
axiom digitNumber(c int) {
	requires digit(c)
	ensures isSmall(encode([c])) == (48 <= c && c <= 57)
	ensures 48 <= c && c <= 57 ==> intOf(encode([c])) == c - 48
	trigger digit(c)
}
// a source of lines, and whether it could be read to its end
ufun linesOf(io.Reader) seq[string]
ufun readable(io.Reader) bool
ufun fileLines(string) seq[string]
ufun fileReadable(string) bool
ghost Scan.src io.Reader
ghost Scan.n int
ghost Scan.line string
extern bufio.NewScanner(r) returns (s) {
	updates Scan.src = r
	updates Scan.n = 0
}
extern bufio.(*Scanner).Scan(s) returns (more) {
	modifies Scan.line
	updates Scan.n = Scan.n + 1
	ensures more == (old(Scan.n) < len(linesOf(Scan.src)))
	ensures more ==> Scan.line == linesOf(Scan.src)[old(Scan.n)]
}
extern bufio.(*Scanner).Text(s) returns (l) { ensures l == Scan.line }
extern bufio.(*Scanner).Err(s) returns (err) { ensures isnil(err) == readable(Scan.src) }

fold opens(t seq[Ev]) bool { [] => false | a, e => match e { Opened(n, ok) => ok | _ => a } }
// ---- a pattern ----
// Pt(letters, weights, want, ok): a weight may follow; every digit was a decimal one
data Pt = Pt(letters seq[int], weights seq[int], want bool, ok bool)
fold read(rs seq[int]) Pt {
	[] => Pt([], [], true, true)
	| a, c => match a { Pt(ls, ws, want, ok) =>
		if want && digit(c) then Pt(ls, push(ws, c - 48), false, ok && 48 <= c && c <= 57)
		else Pt(push(ls, c), if want then push(ws, 0) else ws, true, ok) }
}
define lettersOf(s string) = match read(runes(s)) { Pt(ls, ws, want, ok) => ls }
define weightsOf(s string) = match read(runes(s)) { Pt(ls, ws, want, ok) => if want then push(ws, 0) else ws }
define validPattern(s string) = match read(runes(s)) { Pt(ls, ws, want, ok) => ok }
lemma weightsCount(rs seq[int]) {
	induction rs
	trigger read(rs)
	ensures match read(rs) { Pt(ls, ws, want, ok) => len(ws) == (if want then len(ls) else len(ls) + 1) }
}
lemma validPart(a seq[int], b seq[int]) {
	induction b
	trigger read(a ++ b)
	ensures (match read(a ++ b) { Pt(ls, ws, want, ok) => ok }) ==> match read(a) { Pt(ls, ws, want, ok) => ok }
}
lemma validPrefix(rs seq[int], n int) {
	trigger read(rs), read(rs[0:n])
	requires 0 <= n && n <= len(rs)
	ensures rs == rs[0:n] ++ rs[n:len(rs)] && (match read(rs[0:n] ++ rs[n:len(rs)]) { Pt(ls, ws, want, ok) => ok } ==> match read(rs[0:n]) { Pt(ls, ws, want, ok) => ok })
}
lemma badStays(rs seq[int], n int) {
	trigger read(rs), read(rs[0:n]), rs[n]
	requires 0 <= n && n < len(rs)
	ensures rs[0:n + 1] == push(rs[0:n], rs[n]) && (match read(rs) { Pt(ls, ws, want, ok) => ok } ==> match read(rs[0:n + 1]) { Pt(ls, ws, want, ok) => ok })
}
func hyphenation.parsePattern(s) returns (p, err) {
	props C07
	modifies nothing
	ensures C07.ok: isnil(err) == validPattern(s)
	ensures C07.pattern: isnil(err) ==> p.Letters == lettersOf(s) && p.Weights == weightsOf(s)
	ensures C07.count: isnil(err) ==> len(p.Weights) == len(p.Letters) + 1
	inv $k <= len(runes(s))
	inv (?p hyphenation.pattern, ?w bool): read(runes(s)[0:$k]) == Pt(?p.Letters, ?p.Weights, ?w, true)
}

// ---- a source ----
define cleanLine(l string) = trimmed(l, " \n\r\t")
define validLine(l string) = cleanLine(l) == "" || validPattern(cleanLine(l))
fold validLines(ls seq[string]) bool { [] => true | a, l => a && validLine(l) }
lemma validLinesAll(a seq[string], b seq[string]) {
	induction b
	trigger validLines(a ++ b)
	ensures validLines(a ++ b) ==> validLines(a)
}
lemma validLinesPrefix(ls seq[string], n int) {
	trigger validLines(ls), ls[0:n]
	requires 0 <= n && n <= len(ls)
	ensures ls == ls[0:n] ++ ls[n:len(ls)] && (validLines(ls[0:n] ++ ls[n:len(ls)]) ==> validLines(ls[0:n]))
}
lemma badLine(ls seq[string], n int) {
	trigger validLines(ls[0:n]), ls[n]
	requires 0 <= n && n < len(ls)
	ensures ls[0:n + 1] == push(ls[0:n], ls[n]) && (validLines(ls) ==> validLines(ls[0:n + 1]))
}
// the pattern the lines define for the letters k, the last one counting, or none
fold defines(ls seq[string], k string) seq[hyphenation.pattern] {
	[] => []
	| a, l => if cleanLine(l) != "" && encode(lettersOf(cleanLine(l))) == k then [mkstruct("hyphenation.pattern", lettersOf(cleanLine(l)), weightsOf(cleanLine(l)))] else a
}
define loaded(pl *hyphenation.patternLookup, ls seq[string]) = forall k string {haskey(pl.patterns, k)} {pl.patterns[k]} ::
	defines(ls, k) == (if haskey(pl.patterns, k) then [pl.patterns[k]] else [])
// as the hyphenator needs them
define counted2(pl *hyphenation.patternLookup) = forall k string {haskey(pl.patterns, k)} :: haskey(pl.patterns, k) ==> len(pl.patterns[k].Weights) == len(runes(k)) + 1

func hyphenation.newPatternLookup() returns (pl) {
	props C07
	modifies nothing
	ensures C07.empty: fresh(pl) && fresh(pl.patterns) && forall k string {haskey(pl.patterns, k)} :: !haskey(pl.patterns, k)
}
func hyphenation.parsePatterns(r) returns (pl, err) {
	props C07
	ensures C07.reported: isnil(err) == (validLines(linesOf(r)) && readable(r))
	ensures C07.loaded: isnil(err) ==> loaded(pl, linesOf(r))
	ensures C07.counted: isnil(err) ==> counted2(pl)
	inv Scan.src == r && Scan.n == $k && $k <= len(linesOf(r))
	inv validLines(linesOf(r)[0:$k])
	inv (?pl *hyphenation.patternLookup): loaded(?pl, linesOf(r)[0:$k])
	inv (?pl *hyphenation.patternLookup): counted2(?pl)
}
func hyphenation.loadPatternLookup(r) returns (pl, err) {
	props C07
	ensures C07.reported: isnil(err) == (validLines(linesOf(r)) && readable(r))
	ensures C07.loaded: isnil(err) ==> loaded(pl, linesOf(r))
	ensures C07.counted: isnil(err) ==> counted2(pl)
}
func hyphenation.Load(r) returns (h, err) {
	props C07
	ensures C07.reported: isnil(err) == (validLines(linesOf(r)) && readable(r))
	ensures C07.loaded: isnil(err) ==> loaded(h.lookup, linesOf(r))
	ensures C07.ready: isnil(err) ==> wellPatterned(h)
}
func hyphenation.LoadFromFile(file) returns (h, err) {
	props C07
	requires trace == []
	ensures C07.reported: isnil(err) == (opens(trace) && validLines(fileLines(file)) && fileReadable(file))
	ensures C07.loaded: isnil(err) ==> loaded(h.lookup, fileLines(file))
	ensures C07.ready: isnil(err) ==> wellPatterned(h)
}
