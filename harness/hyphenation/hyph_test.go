package hyphenation_test

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/hyphenation"
)

// ---- what patterns mean ----

type rpat struct {
	ws []int
}

// refParse reads one pattern without adjacent digits.
func refParse(line string) (string, []int) {
	letters, ws := "", []int{0}
	for _, c := range line {
		if c >= '0' && c <= '9' {
			ws[len(ws)-1] = int(c - '0')
			continue
		}
		letters += string(c)
		ws = append(ws, 0)
	}
	return letters, ws
}

func refPatterns(src string) map[string][]int {
	m := map[string][]int{}
	for _, l := range strings.Split(src, "\n") {
		l = strings.Trim(l, " \r\t\n")
		if l != "" {
			k, ws := refParse(l)
			m[k] = ws
		}
	}
	return m
}

// refWeights: the largest weight before each character of the dotted word.
func refWeights(pats map[string][]int, s string) []int {
	rs := []rune("." + strings.ToLower(s) + ".")
	max := make([]int, len(rs)+1)
	for a := 0; a < len(rs); a++ {
		for b := a + 1; b <= len(rs); b++ {
			for i, w := range pats[string(rs[a:b])] {
				if w > max[a+i] {
					max[a+i] = w
				}
			}
		}
	}
	return max
}

func refHyphenate(pats map[string][]int, s string) []string {
	if len(s) < 3 || len(s) > 100 || strings.Contains(s, " ") {
		return []string{s}
	}
	max := refWeights(pats, s)
	var out []string
	last, i := 0, 0
	for off := range s {
		if i > 0 && max[i+1]%2 == 1 && off-last >= 2 && len(s)-off >= 2 {
			out = append(out, s[last:off])
			last = off
		}
		i++
	}
	return append(out, s[last:])
}

// ---- draws ----

var alphabets = []string{"ab", "abc", "abä", "aİßx", "a.b", "aé漢"}

func randWord(r *rand.Rand, alpha string, n int) string {
	rs := []rune(alpha)
	var b strings.Builder
	for i := 0; i < n; i++ {
		c := rs[r.Intn(len(rs))]
		switch r.Intn(12) {
		case 0:
			b.WriteString(strings.ToUpper(string(c)))
		case 1:
			b.WriteRune([]rune("-'1X")[r.Intn(4)])
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func randPattern(r *rand.Rand, alpha string) string {
	rs := []rune(alpha)
	var b strings.Builder
	if r.Intn(5) == 0 {
		b.WriteByte('.')
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		if r.Intn(2) == 0 {
			b.WriteByte(byte('0' + r.Intn(10)))
		}
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	if r.Intn(3) == 0 {
		b.WriteByte(byte('0' + r.Intn(10)))
	}
	if r.Intn(5) == 0 {
		b.WriteByte('.')
	}
	return b.String()
}

func randSource(r *rand.Rand, alpha string) string {
	var b strings.Builder
	for n := r.Intn(10); n > 0; n-- {
		p := randPattern(r, alpha)
		switch r.Intn(8) {
		case 0:
			p = "  " + p + "\t"
		case 1:
			p += "\r"
		case 2:
			p += "\n"
		}
		b.WriteString(p + "\n")
	}
	if r.Intn(3) == 0 {
		b.WriteString(randPattern(r, alpha)) // no newline at the end
	}
	return b.String()
}

// patternsFrom makes patterns of pieces of the word as it is matched, dots
// and all of it included.
func patternsFrom(r *rand.Rand, word string) string {
	var rs []rune
	for _, c := range "." + strings.ToLower(word) + "." {
		if c < '0' || c > '9' {
			rs = append(rs, c)
		}
	}
	var b strings.Builder
	for n := 1 + r.Intn(3); n > 0; n-- {
		i := r.Intn(len(rs))
		j := i + 1 + r.Intn(len(rs)-i)
		if r.Intn(3) == 0 {
			i, j = 0, len(rs)
		}
		for ; i < j; i++ {
			if r.Intn(2) == 0 && rs[i] != '.' {
				b.WriteByte(byte('0' + r.Intn(10)))
			}
			b.WriteRune(rs[i])
		}
		b.WriteString("\n")
	}
	return b.String()
}

func load(v *verifRun, src string) *hyphenation.Hyphenator {
	h, err := hyphenation.Load(strings.NewReader(src))
	if err != nil || h == nil {
		v.failf("patterns are not loaded: %v", err)
	}
	return h
}

func TestVerif_C05(t *testing.T) {
	verifLoop(t, "C05", "random pattern sets and words of one- to three-byte characters (also words with spaces, broken UTF-8, up to 130 bytes); non-trivial if the word is split", 60000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			alpha := alphabets[r.Intn(len(alphabets))]
			src := randSource(r, alpha)
			w := randWord(r, alpha, r.Intn(14))
			switch r.Intn(12) {
			case 0:
				w = randWord(r, alpha, 95+r.Intn(12))
			case 1:
				w = w + " " + w
			case 2:
				w = w + "\xff\x80" + w
			case 3:
				w = strings.Repeat("a", 97+r.Intn(7))
				src = "a1a\n" + src
			}
			desc := fmt.Sprintf("patterns %q, word %q", src, w)
			verifDesc = desc
			h := load(v, src)
			in := strings.Clone(w)
			ps := h.Hyphenate(w)
			if strings.Join(ps, "") != in {
				v.failf("the parts %q are not the word %q", ps, in)
			}
			if (len(w) < 3 || len(w) > 100 || strings.Contains(w, " ")) && len(ps) != 1 {
				v.failf("the word is split into %q", ps)
			}
			for _, p := range ps {
				if p == "" && w != "" {
					v.failf("a part is empty: %q", ps)
				}
				if utf8.ValidString(w) && !utf8.ValidString(p) {
					v.failf("a part cuts through a character: %q", ps)
				}
			}
			return desc, len(ps) > 1
		})
}

func TestVerif_C06(t *testing.T) {
	verifLoop(t, "C06", "random pattern sets and words, the parts compared with those a direct reading of the patterns gives; non-trivial if the word is split", 60000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			alpha := alphabets[r.Intn(len(alphabets))]
			src := randSource(r, alpha)
			w := randWord(r, alpha, 1+r.Intn(14))
			if r.Intn(6) == 0 {
				w = randWord(r, alpha, 30+r.Intn(30))
			}
			if r.Intn(3) == 0 {
				src = patternsFrom(r, w) + src
			}
			desc := fmt.Sprintf("patterns %q, word %q", src, w)
			verifDesc = desc
			h := load(v, src)
			got, want := h.Hyphenate(w), refHyphenate(refPatterns(src), w)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				v.failf("the word is split into %q, want %q", got, want)
			}
			if r.Intn(2) == 0 { // the patterns are as they were
				if again := h.Hyphenate(w); fmt.Sprintf("%q", again) != fmt.Sprintf("%q", want) {
					v.failf("the second time the word is split into %q, want %q", again, want)
				}
			}
			return desc, len(want) > 1
		})
}

type failReader struct {
	s    string
	n    int
	once bool
}

func (f *failReader) Read(b []byte) (int, error) {
	if f.n >= len(f.s) {
		return 0, errors.New("disk gone")
	}
	n := copy(b, f.s[f.n:])
	if n > 7 {
		n = 7
	}
	f.n += n
	return n, nil
}

func TestVerif_C07(t *testing.T) {
	dir := t.TempDir()
	verifLoop(t, "C07", "pattern sources (blank lines, repeated letters, no final newline, foreign digits, failing readers, missing files) loaded and probed with words made of the patterns' own letters; non-trivial if the source is invalid or a probe is split", 20000,
		func(v *verifRun, r *rand.Rand) (string, bool) {
			alpha := alphabets[r.Intn(len(alphabets))]
			src := randSource(r, alpha)
			if r.Intn(40) == 0 {
				verifDesc = "built-in patterns"
				for _, h := range []*hyphenation.Hyphenator{hyphenation.NewEnUs(), hyphenation.NewLatin()} {
					if h == nil || len(h.Hyphenate("hyphenation")) < 2 && len(h.Hyphenate("veritatem")) < 2 {
						v.failf("built-in patterns do not split")
					}
				}
				return "built-in", true
			}
			switch r.Intn(6) {
			case 0: // a digit that is no decimal weight
				ls := strings.Split(src, "\n")
				i := r.Intn(len(ls))
				p := strings.Map(func(c rune) rune {
					if c >= '0' && c <= '9' {
						return -1
					}
					return c
				}, randPattern(r, alpha))
				rs := []rune(p)
				k := r.Intn(len(rs) + 1)
				ls[i] = string(rs[:k]) + string([]rune("٣५９")[r.Intn(3)]) + string(rs[k:])
				src = strings.Join(ls, "\n")
				verifDesc = fmt.Sprintf("patterns %q", src)
				if _, err := hyphenation.Load(strings.NewReader(src)); err == nil {
					v.failf("a pattern with an invalid weight is loaded")
				}
				return verifDesc, true
			case 1:
				cut := r.Intn(len(src) + 1)
				verifDesc = fmt.Sprintf("patterns %q, then a read error", src[:cut])
				if _, err := hyphenation.Load(&failReader{s: src[:cut]}); err == nil {
					v.failf("the read error is not reported")
				}
				return verifDesc, true
			case 2:
				if r.Intn(4) == 0 {
					verifDesc = "a missing file"
					if _, err := hyphenation.LoadFromFile(filepath.Join(dir, "missing")); err == nil {
						v.failf("a missing file is loaded")
					}
					return verifDesc, true
				}
				if r.Intn(4) == 0 {
					long := src + "1" + strings.Repeat("a", 70000) + "\n1b\n"
					verifDesc = fmt.Sprintf("patterns %q and a line of 70001 characters", src)
					h, err := hyphenation.Load(strings.NewReader(long))
					if err == nil {
						if g := h.Hyphenate("cccbb"); len(g) != len(refHyphenate(refPatterns(src+"\n1b"), "cccbb")) {
							v.failf("loading stopped without an error")
						}
					}
					return verifDesc, true
				}
			}
			pats := refPatterns(src)
			desc := fmt.Sprintf("patterns %q", src)
			verifDesc = desc
			var h *hyphenation.Hyphenator
			var err error
			if r.Intn(5) == 0 {
				f := filepath.Join(dir, "p.txt")
				if e := os.WriteFile(f, []byte(src), 0o644); e != nil {
					panic(e)
				}
				h, err = hyphenation.LoadFromFile(f)
			} else {
				h, err = hyphenation.Load(io.Reader(strings.NewReader(src)))
			}
			if err != nil || h == nil {
				v.failf("not loaded: %v", err)
			}
			nt := false
			for k := range pats {
				for _, w := range []string{strings.ReplaceAll(k, ".", ""), "zz" + k + "zz", "qq" + k, k + "qq"} {
					got, want := h.Hyphenate(w), refHyphenate(pats, w)
					if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
						v.failf("%q is split into %q, want %q", w, got, want)
					}
					nt = nt || len(want) > 1
				}
			}
			return desc, nt
		})
}
