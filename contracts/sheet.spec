// Style sheets and colours: what parsing them yields.
package style

// ---- colours ----
define hexDigit(c int) = if 48 <= c && c <= 57 then c - 48 else if 97 <= c && c <= 102 then c - 87 else if 65 <= c && c <= 70 then c - 55 else 0 - 1
// the number hexadecimal digits stand for, -1 where one is none
fold hexNumber(s string) int { [] => 0 | a, c => if a < 0 || hexDigit(c) < 0 then 0 - 1 else 16 * a + hexDigit(c) }
// no sign, prefix or underscore is accepted when the base is given
extern strconv.ParseUint(s, base, bits) returns (n, err) {
	ensures n >= 0
	ensures base == 16 && bits == 32 && 0 < len(s) && len(s) <= 8 ==> isnil(err) == (hexNumber(s) >= 0) && (isnil(err) ==> n == hexNumber(s))
}
extern strings.HasPrefix(s, prefix) returns (r) { ensures r == (len(s) >= len(prefix) && s[0:len(prefix)] == prefix) }
define isHex(s string) = len(s) == 6 && hexDigit(s[0]) >= 0 && hexDigit(s[1]) >= 0 && hexDigit(s[2]) >= 0 && hexDigit(s[3]) >= 0 && hexDigit(s[4]) >= 0 && hexDigit(s[5]) >= 0
lemma hexStep(t string, c int) {
	props C09
	trigger hexNumber(push(t, c))
	ensures hexNumber(push(t, c)) == if hexNumber(t) < 0 || hexDigit(c) < 0 then 0 - 1 else 16 * hexNumber(t) + hexDigit(c)
}
lemma hexSix(s string) {
	steps
	props C09
	trigger hexNumber(s)
	requires len(s) == 6
	ensures s == push(s[0:5], s[5]) && s[0:5] == push(s[0:4], s[4]) && s[0:4] == push(s[0:3], s[3])
	ensures s[0:3] == push(s[0:2], s[2]) && s[0:2] == push(s[0:1], s[1]) && s[0:1] == push("", s[0])
	ensures hexNumber(push("", s[0])) == hexDigit(s[0])
	ensures hexNumber(push(s[0:1], s[1])) == if hexDigit(s[0]) < 0 || hexDigit(s[1]) < 0 then 0 - 1 else 16 * hexDigit(s[0]) + hexDigit(s[1])
	ensures hexNumber(push(s[0:2], s[2])) == if hexNumber(s[0:2]) < 0 || hexDigit(s[2]) < 0 then 0 - 1 else 16 * hexNumber(s[0:2]) + hexDigit(s[2])
	ensures hexNumber(push(s[0:3], s[3])) == if hexNumber(s[0:3]) < 0 || hexDigit(s[3]) < 0 then 0 - 1 else 16 * hexNumber(s[0:3]) + hexDigit(s[3])
	ensures hexNumber(push(s[0:4], s[4])) == if hexNumber(s[0:4]) < 0 || hexDigit(s[4]) < 0 then 0 - 1 else 16 * hexNumber(s[0:4]) + hexDigit(s[4])
	ensures hexNumber(push(s[0:5], s[5])) == if hexNumber(s[0:5]) < 0 || hexDigit(s[5]) < 0 then 0 - 1 else 16 * hexNumber(s[0:5]) + hexDigit(s[5])
	ensures isHex(s) ==> hexNumber(s) == 1048576 * hexDigit(s[0]) + 65536 * hexDigit(s[1]) + 4096 * hexDigit(s[2]) + 256 * hexDigit(s[3]) + 16 * hexDigit(s[4]) + hexDigit(s[5])
	ensures !isHex(s) ==> hexNumber(s) < 0
}
define unhashed(s string) = if len(s) > 0 && s[0] == 35 then s[1:len(s)] else s
func style.(*RGB).UnmarshalStyle(c, s) returns (err) {
	props C09
	modifies c
	ensures accepted: isnil(err) == isHex(unhashed(s))
	ensures bytes: isnil(err) ==> let t = unhashed(s) in c.R == 16 * hexDigit(t[0]) + hexDigit(t[1]) && c.G == 16 * hexDigit(t[2]) + hexDigit(t[3]) && c.B == 16 * hexDigit(t[4]) + hexDigit(t[5])
}

// ---- style sheets ----
// the first place of a byte, -1 where there is none
ufun indexByte(string, int) int
axiom indexByteIs(s string, c int) {
	ensures 0 - 1 <= indexByte(s, c) && indexByte(s, c) < len(s)
	ensures indexByte(s, c) >= 0 ==> s[indexByte(s, c)] == c
	ensures forall i int {s[i]} :: 0 <= i && i < len(s) && (i < indexByte(s, c) || indexByte(s, c) < 0) ==> s[i] != c
	trigger indexByte(s, c)
}
ufun indexOf(string, string) int
axiom indexOfByte(s string, t string) {
	requires len(t) == 1
	ensures indexOf(s, t) == indexByte(s, t[0])
	trigger indexOf(s, t)
}
extern strings.IndexByte(s, c) returns (i) { ensures i == indexByte(s, c) }
extern strings.Index(s, t) returns (i) { ensures i == indexOf(s, t) }
extern strings.IndexRune(s, c) returns (i) { ensures 0 <= c && c < 128 ==> i == indexByte(s, c) }
extern strings.Replace(s, from, to, n) returns (r) { ensures n < 0 ==> r == replaced(s, from, to) }
// what a reader has to deliver
ufun readText(io.Reader) string
ufun canRead(io.Reader) bool
extern ioutil.ReadAll(r) returns (b, err) { ensures isnil(err) == canRead(r) && (isnil(err) ==> b == readText(r)) }
extern io.ReadAll(r) returns (b, err) { ensures isnil(err) == canRead(r) && (isnil(err) ==> b == readText(r)) }

define trimmedWS(s string) = trimmed(s, " \r\n\t")
func style.trimWS(s) returns (r) { props C09 modifies nothing ensures r == trimmedWS(s) }

// the declarations of a body: what each key is given last
define rawRight(ds seq[string]) = forall i int {ds[i]} :: 0 <= i && i < len(ds) ==> trimmedWS(ds[i]) == "" || len(splitAt(trimmedWS(ds[i]), ":")) == 2
fold rawValue(ds seq[string], k string) seq[string] {
	[] => [] | a, d => if trimmedWS(d) != "" && trimmedWS(splitAt(trimmedWS(d), ":")[0]) == k then [trimmedWS(splitAt(trimmedWS(d), ":")[1])] else a
}
func style.parseRaw(s) returns (raw, err) {
	props C09
	modifies nothing
	terminates
	ensures accepted: isnil(err) == rawRight(splitAt(s, ";"))
	ensures declarations: isnil(err) ==> (forall k string {haskey(raw, k)} :: haskey(raw, k) == (len(rawValue(splitAt(s, ";"), k)) > 0))
	ensures declarations: isnil(err) ==> (forall k string {raw[k]} :: haskey(raw, k) ==> [raw[k]] == rawValue(splitAt(s, ";"), k))
	inv forall i int {splitAt(s, ";")[i]} :: 0 <= i && i < $k ==> trimmedWS(splitAt(s, ";")[i]) == "" || len(splitAt(trimmedWS(splitAt(s, ";")[i]), ":")) == 2
	inv (?raw map[string]string): fresh(?raw)
	inv (?raw map[string]string): (forall k string {haskey(?raw, k)} :: haskey(?raw, k) == (len(rawValue(splitAt(s, ";")[0:$k], k)) > 0))
	inv (?raw map[string]string): (forall k string {?raw[k]} :: haskey(?raw, k) ==> [?raw[k]] == rawValue(splitAt(s, ";")[0:$k], k))
}
func style.appendedCopy(sl, a) returns (c) {
	props C09
	modifies nothing
	terminates
	ensures extended: c == push(sl, a)
	inv (?c []int): len(?c) == len(sl) + 1
	inv (?c []int): ?c[0:$k] == sl[0:$k]
}

// whether a declaration is one of a style and its value is understood, or it is none of a style (reflection: trusted)
ufun understood(string, string) bool
extern reflect.TypeOf(x) returns (t) { }
func style.makeMutateFnc(rt, key, val, indexPath) returns (f, found, err) {
	trusted
	modifies nothing
	allocs
	ensures isnil(err) == understood(key, val)
}
func style.DecodeMutator(r) returns (m, err) {
	props C09
	modifies nothing
	emits Styling(bufText(astype(r, "*bytes.Buffer")), m, isnil(err))
	ensures C09.accepted: isnil(err) ==> canRead(r) && rawRight(splitAt(readText(r), ";")) && fresh(m) &&
		forall k string {rawValue(splitAt(readText(r), ";"), k)} :: len(rawValue(splitAt(readText(r), ";"), k)) > 0 ==> understood(k, rawValue(splitAt(readText(r), ";"), k)[0])
	ensures C09.refused: !isnil(err) ==> isnil(m) && !(canRead(r) && rawRight(splitAt(readText(r), ";")) &&
		forall k string {rawValue(splitAt(readText(r), ";"), k)} :: len(rawValue(splitAt(readText(r), ";"), k)) > 0 ==> understood(k, rawValue(splitAt(readText(r), ";"), k)[0]))
	inv (?raw map[string]string): forall k string {?raw[k]} :: haskey(?raw, k) && visited(k) ==> understood(k, ?raw[k])
}

define cleaned(s string) = replaced(replaced(replaced(s, "\r", " "), "\n", " "), "\t", " ")
// a block: its name, and what its body was parsed into
data Blk = Blk(name string, m *style.Mutator)
define blkName(b Blk) = match b { Blk(n, m) => n }
define blkMut(b Blk) = match b { Blk(n, m) => m }
// a name with a colon in it (not in front) is a class and a selector
define isSel(n string) = indexOf(n, ":") > 0
define classPart(n string) = n[0:indexOf(n, ":")]
define selPart(n string) = n[indexOf(n, ":") + 1:len(n)]
// the class of a name: its last block; its selectors: their last blocks since
fold classMut(bs seq[Blk], c string) seq[*style.Mutator] { [] => [] | a, b => if !isSel(blkName(b)) && blkName(b) == c then [blkMut(b)] else a }
fold selMut(bs seq[Blk], c string, sel string) seq[*style.Mutator] {
	[] => [] | a, b => if !isSel(blkName(b)) && blkName(b) == c then []
		else if isSel(blkName(b)) && classPart(blkName(b)) == c && selPart(blkName(b)) == sel then [blkMut(b)] else a
}
define blockAt(s string, p int) = p + indexByte(s[p:len(s)], 123)
define blockEnd(s string, p int) = blockAt(s, p) + indexByte(s[p:len(s)][indexByte(s[p:len(s)], 123):len(s[p:len(s)])], 125)
define hasBlock(s string, p int) = indexByte(s[p:len(s)], 123) >= 0
define nameAt(s string, p int) = trimmedWS(s[p:len(s)][0:indexByte(s[p:len(s)], 123)])
define bodyAt(s string, p int) = s[p:len(s)][indexByte(s[p:len(s)], 123) + 1:blockEnd(s, p) - p]
// a block without a name or without an end
define brokenAt(s string, p int) = hasBlock(s, p) && (nameAt(s, p) == "" || blockEnd(s, p) < blockAt(s, p))
// how far a sheet is read, after so many bodies were parsed: the blocks so far,
// whether it is they that were parsed, and whether they were all right
data Scan = Scan(pos int, blocks seq[Blk], read bool, right bool)
fold scanned(tr seq[Ev], s string) Scan {
	[] => Scan(0, [], true, true)
	| a, e => match a { Scan(p, bs, read, right) => match e {
		Styling(t, m, ok) => Scan(blockEnd(s, p) + 1, push(bs, Blk(nameAt(s, p), m)),
			read && right && hasBlock(s, p) && !brokenAt(s, p) && t == bodyAt(s, p),
			right && ok && (isSel(nameAt(s, p)) ==> len(classMut(bs, classPart(nameAt(s, p)))) > 0))
		| _ => Scan(p, bs, false, false) } }
}
define isSheet(cs style.Classes, bs seq[Blk]) =
	(forall c string {haskey(cs, c)} :: haskey(cs, c) == (len(classMut(bs, c)) > 0)) &&
	(forall c string {cs[c]} :: haskey(cs, c) ==> [cs[c].mutator] == classMut(bs, c) && cs[c].Name == c) &&
	(forall c string, s string {haskey(cs[c].Selectors, s)} :: haskey(cs, c) ==> haskey(cs[c].Selectors, s) == (len(selMut(bs, c, s)) > 0)) &&
	(forall c string, s string {cs[c].Selectors[s]} :: haskey(cs, c) && haskey(cs[c].Selectors, s) ==> [cs[c].Selectors[s].mutator] == selMut(bs, c, s) && cs[c].Selectors[s].Name == s)

func style.DecodeClasses(r) returns (cs, err) {
	props C09
	modifies nothing
	emits Sheet(bufText(astype(r, "*bytes.Buffer")), cs, isnil(err))
	terminates
	decreases (?pos int): len(cleaned(readText(r))) - ?pos
	ensures sheet: isnil(err) ==> match scanned(trace, cleaned(readText(r))) { Scan(p, bs, read, right) => read && right && !hasBlock(cleaned(readText(r)), p) && isSheet(cs, bs) }
	ensures refused: !isnil(err) ==> !canRead(r) || match scanned(trace, cleaned(readText(r))) { Scan(p, bs, read, right) => read && (!right || brokenAt(cleaned(readText(r)), p)) }
	decreases (?rest string): len(?rest)
	inv match scanned(trace, cleaned(readText(r))) { Scan(p, bs, read, right) => read && right && 0 <= p && p <= len(cleaned(readText(r))) }
	inv (?pos int): match scanned(trace, cleaned(readText(r))) { Scan(p, bs, read, right) => p == ?pos }
	inv (?i int): match scanned(trace, cleaned(readText(r))) { Scan(p, bs, read, right) => ?i == indexByte(cleaned(readText(r))[p:len(cleaned(readText(r)))], 123) }
	inv (?rest string): match scanned(trace, cleaned(readText(r))) { Scan(p, bs, read, right) => ?rest == cleaned(readText(r))[p:len(cleaned(readText(r)))] }
	inv (?cs style.Classes): match scanned(trace, cleaned(readText(r))) { Scan(p, bs, read, right) => isSheet(?cs, bs) }
	inv (?cs style.Classes): fresh(?cs)
	inv (?cs style.Classes): forall c string {?cs[c]} :: haskey(?cs, c) ==> fresh(?cs[c].Selectors) && 0 < ?cs[c].Selectors && ?cs[c].Selectors < alloc
	inv (?cs style.Classes): forall c string, d string {?cs[c], ?cs[d]} :: haskey(?cs, c) && haskey(?cs, d) && ?cs[c].Selectors == ?cs[d].Selectors ==> c == d
}
