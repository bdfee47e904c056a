// Hyphenation by weighted patterns. Strings are byte sequences; runes, runeoff
// and encode are Go's decoding of a string into characters, the byte offset of
// a character and the encoding of characters (facts about UTF-8 are axioms).
package hyphenation

ufun runes(string) seq[int]
ufun runeoff(string, int) int
ufun encode(seq[int]) string
ufun lower(string) string
ufun holds(string, string) bool

axiom runeCount(s string) {
	ensures len(runes(s)) <= len(s) && (len(s) > 0 ==> len(runes(s)) > 0)
	trigger runes(s)
}
axiom runeStart(s string) {
	requires len(s) > 0
	ensures runeoff(s, 0) == 0
	trigger runes(s)
}
axiom runeInside(s string, j int) {
	requires 0 <= j && j < len(runes(s))
	ensures j <= runeoff(s, j) && runeoff(s, j) < len(s)
	trigger runeoff(s, j)
}
axiom runeOrder(s string, i int, j int) {
	requires 0 <= i && i < j && j < len(runes(s))
	ensures runeoff(s, i) < runeoff(s, j)
	trigger runeoff(s, i), runeoff(s, j)
}
axiom encodeCount(x seq[int]) {
	ensures len(runes(encode(x))) == len(x)
	trigger encode(x)
}
axiom lowerCount(s string) {
	ensures len(runes(lower(s))) == len(runes(s))
	trigger lower(s)
}
axiom dotCount(t string) {
	ensures len(runes("." ++ t ++ ".")) == len(runes(t)) + 2
	trigger lower(t)
	trigger runes("." ++ t ++ ".")
}

extern strings.ToLower(s) returns (r) { ensures r == lower(s) }
extern strings.Contains(s, sub) returns (r) { ensures r == holds(s, sub) }

define dotted(s string) = runes("." ++ lower(s) ++ ".")

// the patterns of a lookup: one weight more than characters
define wellPatterned(h *hyphenation.Hyphenator) =
	forall k string {haskey(h.lookup.patterns, k)} :: haskey(h.lookup.patterns, k) ==> len(h.lookup.patterns[k].Weights) == len(runes(k)) + 1

// maxWeight is the largest weight the patterns matching in rs put before rs[k]
// (zero where none puts a larger one): the least bound of all of them, which is
// either zero or the weight of the match at matchFrom..matchTo
ufun maxWeight(map[string]bool, map[string]hyphenation.pattern, seq[int], int) int
ufun matchFrom(map[string]bool, map[string]hyphenation.pattern, seq[int], int) int
ufun matchTo(map[string]bool, map[string]hyphenation.pattern, seq[int], int) int
axiom maxWeightBounds(d map[string]bool, v map[string]hyphenation.pattern, rs seq[int], a int, b int, w int) {
	requires 0 <= a && a < b && b <= len(rs) && 0 <= w && w <= b - a
	requires d[encode(rs[a:b])]
	ensures v[encode(rs[a:b])].Weights[w] <= maxWeight(d, v, rs, a + w)
	trigger d[encode(rs[a:b])], v[encode(rs[a:b])].Weights[w]
}
axiom maxWeightReached(d map[string]bool, v map[string]hyphenation.pattern, rs seq[int], k int) {
	ensures maxWeight(d, v, rs, k) >= 0
	ensures maxWeight(d, v, rs, k) == 0 ||
		let a = matchFrom(d, v, rs, k) in let b = matchTo(d, v, rs, k) in
		0 <= a && a < b && b <= len(rs) && a <= k && k <= b && d[encode(rs[a:b])] && v[encode(rs[a:b])].Weights[k - a] == maxWeight(d, v, rs, k)
	trigger maxWeight(d, v, rs, k)
}

// Br(i, last, parts): the parts broken off before character i, the last break at byte last
data Br = Br(i int, last int, parts seq[string])
fold broken(rs seq[int], s string, d map[string]bool, v map[string]hyphenation.pattern) Br {
	[] => Br(0, 0, [])
	| a, c => match a { Br(i, last, ps) =>
		if i > 0 && maxWeight(d, v, dotted(s), i + 1) % 2 == 1 && runeoff(s, i) - last > 1 && len(s) - runeoff(s, i) > 1
		then Br(i + 1, runeoff(s, i), push(ps, s[last:runeoff(s, i)])) else Br(i + 1, last, ps) }
}
define eligible(s string) = len(s) >= 3 && len(s) <= 100 && !holds(s, " ")
define hyphenated(s string, d map[string]bool, v map[string]hyphenation.pattern) =
	if eligible(s) then match broken(runes(s), s, d, v) { Br(i, last, ps) => push(ps, s[last:len(s)]) } else [s]

// the parts, as a function of word and patterns that is only looked into where broken words are
ufun hyphens(string, map[string]bool, map[string]hyphenation.pattern) seq[string]
axiom hyphensIs(s string, d map[string]bool, v map[string]hyphenation.pattern) {
	ensures hyphens(s, d, v) == hyphenated(s, d, v)
	trigger hyphens(s, d, v), broken(runes(s), s, d, v)
}
fold joined(ps seq[string]) string { [] => "" | a, p => a ++ p }
define brI(b Br) = match b { Br(i, last, ps) => i }
define brLast(b Br) = match b { Br(i, last, ps) => last }
define brParts(b Br) = match b { Br(i, last, ps) => ps }
lemma brokenWhole(rs seq[int], s string, d map[string]bool, v map[string]hyphenation.pattern) {
	props C02
	induction rs
	trigger broken(rs, s, d, v)
	ensures len(rs) <= len(runes(s)) ==> let b = broken(rs, s, d, v) in
		brI(b) == len(rs) && 0 <= brLast(b) && brLast(b) <= len(s) && (if len(rs) == 0 then brLast(b) == 0 else brLast(b) <= runeoff(s, len(rs) - 1)) && joined(brParts(b)) == s[0:brLast(b)]
}
lemma hyphensWhole(s string, d map[string]bool, v map[string]hyphenation.pattern) {
	props C02
	hint broken(runes(s), s, d, v)
	trigger hyphens(s, d, v)
	ensures joined(hyphens(s, d, v)) == s && len(hyphens(s, d, v)) >= 1
}
lemma joinedConcat(a seq[string], b seq[string]) {
	props C02
	induction b
	trigger joined(a ++ b)
	ensures joined(a ++ b) == joined(a) ++ joined(b)
}
// character boundaries of s, by byte
ufun boundary(string, int) bool
axiom boundaryOff(s string, j int) {
	requires 0 <= j && j < len(runes(s))
	ensures boundary(s, runeoff(s, j))
	trigger runeoff(s, j)
}
axiom boundaryEnds(s string) { ensures boundary(s, 0) && boundary(s, len(s)) trigger runes(s) trigger boundary(s, len(s)) }

func hyphenation.(*Hyphenator).Hyphenate(h, s) returns (parts) {
	props C05, C06
	modifies nothing
	requires wellPatterned(h)
	ensures C05.same: joined(parts) == s
	ensures C05.nonempty: len(s) > 0 ==> forall i int {parts[i]} :: 0 <= i && i < len(parts) ==> len(parts[i]) > 0
	ensures C05.whole: forall k int {parts[0:k]} :: 0 <= k && k <= len(parts) ==> boundary(s, len(joined(parts[0:k])))
	ensures C05.one: !eligible(s) ==> parts == [s]
	ensures C06.points: parts == hyphenated(s, mapdom(h.lookup.patterns), mapval(h.lookup.patterns))
	ensures C06.points: parts == hyphenated(s, mapdom(h.lookup.patterns), mapval(h.lookup.patterns))
	ensures by.C02.C03.C04.C06.parts: parts == hyphens(s, mapdom(h.lookup.patterns), mapval(h.lookup.patterns))
	hint broken(runes(s), s, mapdom(h.lookup.patterns), mapval(h.lookup.patterns))
	ensures some: len(parts) >= 1
	inv (?o []int): forall i int {?o[i]} :: 0 <= i && i < $k ==> ?o[i] == runeoff(s, i)
	// weights: nothing above the largest, and nothing below a match seen
	inv (?ws []int): forall k int {?ws[k]} :: 0 <= k && k < len(?ws) ==> 0 <= ?ws[k] && ?ws[k] <= maxWeight(mapdom(h.lookup.patterns), mapval(h.lookup.patterns), dotted(s), k)
	inv (?ws []int): forall a int, b int, w int {h.lookup.patterns[encode(dotted(s)[a:b])].Weights[w]} ::
		0 <= a && a < b && b <= len(dotted(s)) && 0 <= w && w <= b - a && haskey(h.lookup.patterns, encode(dotted(s)[a:b])) && b - a <= $k
		==> h.lookup.patterns[encode(dotted(s)[a:b])].Weights[w] <= ?ws[a + w]
	inv (?ws []int): forall a int, b int, w int {h.lookup.patterns[encode(dotted(s)[a:b])].Weights[w]} ::
		0 <= a && a < b && b <= len(dotted(s)) && 0 <= w && w <= b - a && haskey(h.lookup.patterns, encode(dotted(s)[a:b])) && (b - a <= $k0 || b - a == $k0 + 1 && a < $k)
		==> h.lookup.patterns[encode(dotted(s)[a:b])].Weights[w] <= ?ws[a + w]
	inv (?ws []int): forall a int, b int, w int {h.lookup.patterns[encode(dotted(s)[a:b])].Weights[w]} ::
		0 <= a && a < b && b <= len(dotted(s)) && 0 <= w && w <= b - a && haskey(h.lookup.patterns, encode(dotted(s)[a:b])) &&
			(b - a <= $k0 || b - a == $k0 + 1 && (a < $k1 || a == $k1 && w < $k))
		==> h.lookup.patterns[encode(dotted(s)[a:b])].Weights[w] <= ?ws[a + w]
	inv (?sl []string, ?last int): broken(runes(s)[0:$k + 1], s, mapdom(h.lookup.patterns), mapval(h.lookup.patterns)) == Br($k + 1, ?last, ?sl)
	inv (?sl []string, ?last int): 0 <= ?last && ?last <= runeoff(s, $k) && ?last < len(s) && joined(?sl) == s[0:?last]
	inv (?sl []string): forall i int {?sl[i]} :: 0 <= i && i < len(?sl) ==> len(?sl[i]) > 0
	inv (?sl []string): forall k int {?sl[0:k]} :: 0 <= k && k <= len(?sl) ==> boundary(s, len(joined(?sl[0:k])))
}
