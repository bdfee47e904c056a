// Whitespace normalisation. Strings are byte sequences; 32 is the blank, 92 the
// backslash, 9, 10 and 13 are tab, line feed and carriage return.
package text

// ---- strings.ReplaceAll and strings.Trim: what is assumed of them ----
// every x a y
fold swapped(s string, x int, y int) string { [] => "" | a, c => push(a, if c == x then y else c) }
// every x followed by y a z, from the left; the flag is a last x still open
data Rp = Rp(out string, open bool)
fold pairs(s string, x int, y int, z int) Rp {
	[] => Rp("", false)
	| a, c => match a { Rp(o, p) =>
		if p && c == y then Rp(push(o, z), false)
		else if c == x then Rp(if p then push(o, x) else o, true)
		else Rp(push(if p then push(o, x) else o, c), false) }
}
define closed(a Rp, x int) = match a { Rp(o, p) => if p then push(o, x) else o }
axiom replacedNone(s string, a string, b string) {
	requires !holds(s, a)
	ensures replaced(s, a, b) == s
	trigger replaced(s, a, b)
}
axiom replacedShorter(s string, a string, b string) {
	requires holds(s, a) && len(b) < len(a)
	ensures len(replaced(s, a, b)) < len(s)
	trigger replaced(s, a, b)
}
axiom replacedByte(s string, a string, b string) {
	requires len(a) == 1 && len(b) == 1
	ensures replaced(s, a, b) == swapped(s, a[0], b[0])
	trigger replaced(s, a, b)
}
axiom replacedPair(s string, a string, b string) {
	requires len(a) == 2 && len(b) == 1
	ensures replaced(s, a, b) == closed(pairs(s, a[0], a[1], b[0]), a[0])
	trigger replaced(s, a, b)
}
axiom replacedNothing(s string) { ensures replaced(s, "", "") == s trigger replaced(s, "", "") }
axiom holdsPair(s string, t string, i int) {
	requires len(t) == 2 && 0 <= i && i + 1 < len(s) && s[i] == t[0] && s[i + 1] == t[1]
	ensures holds(s, t)
	trigger holds(s, t), s[i]
}
// only blanks
fold blanks(b string) bool { [] => true | a, c => a && c == 32 }
ufun trimFrom(string) int
ufun trimTo(string) int
define edges(s string) = 0 <= trimFrom(s) && trimFrom(s) <= trimTo(s) && trimTo(s) <= len(s) &&
	(forall i int {s[i]} :: 0 <= i && i < trimFrom(s) ==> s[i] == 32) &&
	(forall i int {s[i]} :: trimTo(s) <= i && i < len(s) ==> s[i] == 32) &&
	blanks(s[0:trimFrom(s)]) && blanks(s[trimTo(s):len(s)]) &&
	(trimFrom(s) < trimTo(s) ==> s[trimFrom(s)] != 32 && s[trimTo(s) - 1] != 32)
axiom trimEdges(s string) { ensures edges(s) trigger trimFrom(s) }
axiom trimmedBlank(s string) { ensures trimmed(s, " ") == s[trimFrom(s):trimTo(s)] trigger trimmed(s, " ") }
extern strings.Repeat(s, n) returns (r) { ensures n == 2 ==> r == s ++ s }

// ---- what normalising a text yields: the words with one blank between, but
// none beside a backslash; the flag is a blank due before the next character
data Rs = Rs(out string, gap bool)
define isBlank(c int) = c == 32 || c == 9 || c == 10 || c == 13
fold rectified(s string) Rs {
	[] => Rs("", false)
	| a, c => match a { Rs(o, g) =>
		if isBlank(c) then Rs(o, len(o) > 0 && last(o) != 92)
		else Rs(push(if g && c != 92 then push(o, 32) else o, c), false) }
}
define rect(s string) = match rectified(s) { Rs(o, g) => o }
// the characters that are not whitespace
fold visible(s string) string { [] => "" | a, c => if isBlank(c) then a else push(a, c) }

lemma rectSwapped(s string, x int) {
	props C26
	induction s
	trigger swapped(s, x, 32)
	requires isBlank(x)
	ensures rectified(swapped(s, x, 32)) == rectified(s)
}
lemma blankLead(b string) {
	props C26
	induction b
	trigger rectified(b)
	requires blanks(b)
	ensures rectified(b) == Rs("", false)
}
lemma rectLead(b string, t string) {
	props C26
	induction t
	trigger rectified(b ++ t)
	requires blanks(b)
	ensures rectified(b ++ t) == rectified(t)
}
lemma rectTail(t string, b string) {
	props C26
	induction b
	trigger rectified(t ++ b)
	requires blanks(b)
	ensures rect(t ++ b) == rect(t)
}
lemma rectBetween(b string, t string, c string) {
	props C26
	induction c
	trigger b ++ (t ++ c)
	requires blanks(b)
	requires blanks(c)
	ensures rectified(b ++ (t ++ c)) == rectified(t ++ c) && rect(b ++ (t ++ c)) == rect(t)
}
lemma rectTrimmed(s string) {
	props C26
	trigger trimmed(s, " ")
	ensures s == s[0:trimFrom(s)] ++ (s[trimFrom(s):trimTo(s)] ++ s[trimTo(s):len(s)])
	ensures rect(s[0:trimFrom(s)] ++ (s[trimFrom(s):trimTo(s)] ++ s[trimTo(s):len(s)])) == rect(s[trimFrom(s):trimTo(s)])
}
lemma startTrimmed(s string) {
	props C26
	trigger trimmed(s, " ")
	ensures starts(s[trimFrom(s):trimTo(s)]) != 32 && ends(s[trimFrom(s):trimTo(s)]) != 32
}
lemma rectTwins(s string) {
	props C26
	induction s
	trigger pairs(s, 32, 32, 32)
	ensures rectified(closed(pairs(s, 32, 32, 32), 32)) == rectified(s)
}
lemma rectBefore(s string) {
	props C26
	induction s
	trigger pairs(s, 32, 92, 92)
	ensures rectified(closed(pairs(s, 32, 92, 92), 32)) == rectified(s)
}
lemma rectAfter(s string) {
	props C26
	induction s
	trigger pairs(s, 92, 32, 92)
	ensures rectified(closed(pairs(s, 92, 32, 92), 92)) == rectified(s)
}
// Cs(ok, end): no tab or line break, no blank at the start or after another so
// far; the last character (a line feed at the start, where no blank may follow)
data Cs = Cs(ok bool, end int)
fold plain(s string) bool { [] => true | a, c => a && !(c == 9 || c == 10 || c == 13) }
fold spaced(s string) Cs {
	[] => Cs(true, 10)
	| a, c => match a { Cs(ok, e) => Cs(ok && !(c == 9 || c == 10 || c == 13) && !(c == 32 && (e == 32 || e == 10)), c) }
}
// as well: no blank before a backslash
fold spacedBefore(s string) Cs {
	[] => Cs(true, 10)
	| a, c => match a { Cs(ok, e) => Cs(ok && !(c == 9 || c == 10 || c == 13) && !(c == 32 && (e == 32 || e == 10)) && !(e == 32 && c == 92), c) }
}
// as well: no blank after a backslash
fold spacedBoth(s string) Cs {
	[] => Cs(true, 10)
	| a, c => match a { Cs(ok, e) => Cs(ok && !(c == 9 || c == 10 || c == 13) && !(c == 32 && (e == 32 || e == 10 || e == 92)) && !(e == 32 && c == 92), c) }
}
define isOk(a Cs) = match a { Cs(ok, e) => ok }
define endOf(a Cs) = match a { Cs(ok, e) => e }
define tidy(s string) = isOk(spacedBoth(s)) && endOf(spacedBoth(s)) != 32

fold without(s string, x int) bool { [] => true | a, c => a && c != x }
lemma plainWithout(s string) {
	props C26
	induction s
	trigger plain(s)
	ensures plain(s) == (without(s, 9) && without(s, 10) && without(s, 13))
}
lemma swappedOut(s string, x int, y int) {
	props C26
	induction s
	trigger swapped(s, x, 32), without(swapped(s, x, 32), y)
	requires x != 32 && y != 32
	ensures without(swapped(s, x, 32), y) == (x == y || without(s, y))
}
lemma withoutParts(b string, t string, x int) {
	props C26
	induction t
	trigger without(b ++ t, x)
	ensures without(b ++ t, x) == (without(b, x) && without(t, x))
}
lemma plainBetween(b string, t string, c string) {
	props C26
	trigger b ++ (t ++ c)
	ensures plain(b ++ (t ++ c)) ==> plain(t)
}
lemma plainTwins(s string) {
	props C26
	induction s
	trigger pairs(s, 32, 32, 32)
	ensures plain(s) ==> plain(closed(pairs(s, 32, 32, 32), 32))
}
// the first and the last character of s (a line feed if there is none)
define ends(s string) = if len(s) == 0 then 10 else last(s)
define starts(s string) = if len(s) == 0 then 10 else s[0]
lemma endTwins(s string) {
	props C26
	induction s
	trigger pairs(s, 32, 32, 32)
	ensures ends(closed(pairs(s, 32, 32, 32), 32)) == ends(s)
	ensures starts(closed(pairs(s, 32, 32, 32), 32)) == starts(s)
}
// where two blanks stand together, if anywhere
data Tw = Tw(n int, end int, at int)
fold twins(s string) Tw {
	[] => Tw(0, 10, -1)
	| a, c => match a { Tw(n, e, at) => Tw(n + 1, c, if c == 32 && e == 32 then n - 1 else at) }
}
define twinAt(s string) = match twins(s) { Tw(n, e, at) => at }
lemma twinsAt(s string) {
	props C26
	induction s
	trigger twins(s)
	ensures match twins(s) { Tw(n, e, at) => n == len(s) && e == ends(s) && (at < 0 || at < n - 1) && (at >= 0 ==> s[at] == 32 && s[at + 1] == 32) }
}
lemma spacedAll(s string) {
	props C26
	induction s
	trigger spaced(s)
	ensures endOf(spaced(s)) == ends(s)
	ensures plain(s) && starts(s) != 32 && twinAt(s) < 0 ==> isOk(spaced(s))
}
lemma pairsOpen(s string, x int, y int, z int) {
	props C26
	induction s
	trigger pairs(s, x, y, z)
	requires x != y && x != 10
	ensures match pairs(s, x, y, z) { Rp(o, p) => p == (ends(s) == x) }
}
lemma endBefore(s string) {
	props C26
	induction s
	trigger spacedBefore(s)
	ensures endOf(spacedBefore(s)) == ends(s)
}
lemma endBoth(s string) {
	props C26
	induction s
	trigger spacedBoth(s)
	ensures endOf(spacedBoth(s)) == ends(s)
}
lemma spacedOneBefore(s string) {
	props C26
	induction s
	trigger pairs(s, 32, 92, 92)
	ensures ends(closed(pairs(s, 32, 92, 92), 32)) == ends(s)
	ensures isOk(spaced(s)) ==> isOk(spacedBefore(closed(pairs(s, 32, 92, 92), 32)))
}
lemma spacedOneBoth(s string) {
	props C26
	induction s
	trigger pairs(s, 92, 32, 92)
	ensures isOk(spacedBefore(s)) ==> isOk(spacedBoth(closed(pairs(s, 92, 32, 92), 92)))
	ensures ends(s) != 32 ==> ends(closed(pairs(s, 92, 32, 92), 92)) == ends(s)
	ensures ends(s) == 32 ==> ends(closed(pairs(s, 92, 32, 92), 92)) == 32 || ends(closed(pairs(s, 92, 32, 92), 92)) == 92
}
// what is tidy is what normalising it yields
lemma tidyRect(s string) {
	props C26
	induction s
	trigger spacedBoth(s)
	ensures isOk(spacedBoth(s)) ==> ends(s) == endOf(spacedBoth(s)) && (if ends(s) == 32 then rectified(s) == Rs(s[0:len(s) - 1], true) else rectified(s) == Rs(s, false))
}
// and normalising yields nothing else
lemma rectTidy(s string) {
	props C26
	induction s
	trigger rectified(s)
	ensures match rectified(s) { Rs(o, g) => tidy(o) && endOf(spacedBoth(o)) == ends(o) && (g ==> len(o) > 0 && last(o) != 92) }
}
lemma rectVisible(s string) {
	props C26
	induction s
	trigger rectified(s)
	ensures visible(rect(s)) == visible(s)
}

func text.RemoveTwins(s, twin) returns (r) {
	props C26
	terminates
	modifies nothing
	ensures C26.none: len(twin) > 0 ==> !holds(r, twin ++ twin)
	ensures C26.same: twin == " " ==> rectified(r) == rectified(s) && (plain(s) ==> plain(r)) && starts(r) == starts(s) && ends(r) == ends(s)
	inv C26.same (?c string): twin == " " ==> rectified(?c) == rectified(s) && (plain(s) ==> plain(?c)) && starts(?c) == starts(s) && ends(?c) == ends(s)
	decreases (?c string): len(?c)
}
func text.WhitespaceRectified(s) returns (r) {
	props C26
	modifies nothing
	ensures by.C26.rect: r == rect(s)
	ensures C26.tidy: tidy(r)
	ensures C26.kept: visible(r) == visible(s)
	ensures C26.again: rect(r) == r
}
