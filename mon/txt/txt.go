// Package txt holds the test alphabet: grapheme clusters whose display width is
// beyond dispute, an independent cluster/width model for them, and generators.
package txt

import (
	"math/rand/v2"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Class selects parts of the alphabet.
type Class uint

const (
	ASCII Class = 1 << iota
	Latin       // precomposed, Greek, Cyrillic: 2 bytes, width 1
	Comb        // base + combining marks: width 1
	CJK         // width 2
	Emoji       // single code point emoji: width 2
	ZWJ         // emoji sequences, skin tones, flags: width 2
	Sym         // 3-byte width-1 symbols (box drawing, arrows, blocks)
	Space
	Odd                                                            // decomposed Hangul, symbols near emoji: whole clusters only
	Typed = ASCII | Latin | Comb | CJK | Emoji | ZWJ | Sym | Space // may be entered rune by rune
	All   = Typed | Odd
	Plain = ASCII | Latin | Comb | CJK | Emoji | Sym | Space
	Word  = ASCII | Latin | CJK
	// Rune: clusters that are one rune each
	Rune = ASCII | Latin | CJK | Emoji | Sym | Space
)

var sets = map[Class][]string{
	ASCII: strings.Split("a b c d e f g h i j k l m n o p q r s t u v w x y z A B C X Y Z 0 1 2 3 7 9 . , - _ / # * ( ) [ ] { } + = ! ? ; : ~ @ $ & % < > | ^ ' \" \\", " "),
	Latin: {"é", "ñ", "ü", "ø", "ß", "Ω", "λ", "Ж", "я", "д", "Ł", "ő"},
	Comb: {"e\u0301", "a\u0308", "o\u0302\u0323", "x\u0304", "n\u0303", "я\u0306", "Z\u0327",
		"か\u3099", "ハ\u309a", "ש\u05b8", "ب\u0651\u064e", "ก\u0e47", "Ὀ\u0345"},
	CJK:   {"世", "界", "中", "文", "日", "本", "語", "한", "글", "あ", "カ", "。", "Ａ"},
	Emoji: {"😀", "🎉", "🚀", "🔥", "🐱", "🍕", "🌍"},
	ZWJ: {"👨\u200d👩\u200d👧", "👩\u200d💻", "👍\U0001F3FD", "🇺🇸", "🇩🇪", "🧑\u200d🚀",
		"🏴\U000E0067\U000E0062\U000E0065\U000E006E\U000E0067\U000E007F"},
	Sym:   {"─", "│", "┌", "█", "░", "→", "•", "…", "†", "€"},
	Space: {" "},
	Odd:   {"\u1112\u1161\u11ab", "\u1100\u1173", "⭐\ufe0f", "✅\ufe0f", "🎉\ufe0f"},
}

var order = []Class{ASCII, Latin, Comb, CJK, Emoji, ZWJ, Sym, Space, Odd}

// Cluster picks one cluster.
func Cluster(r *rand.Rand, cl Class) string {
	var cs []Class
	for _, c := range order {
		if cl&c != 0 {
			cs = append(cs, c)
			if c == ASCII {
				cs = append(cs, c)
			}
		}
	}
	c := cs[r.IntN(len(cs))]
	if pool := broad[c]; pool != nil && r.IntN(5) == 0 {
		// by block first, so that small blocks are not drowned by the ideographs
		b := pool[r.IntN(len(pool))]
		return string(b[0] + rune(r.IntN(int(b[1]-b[0])+1)))
	}
	s := sets[c]
	out := s[r.IntN(len(s))]
	if c == Comb && r.IntN(60) == 0 { // marks upon marks
		for n := 10 + r.IntN(40); n > 0; n-- {
			out += string(rune(0x300 + r.IntN(0x30)))
		}
	}
	return out
}

// broad spreads the one-rune classes over every block of undisputed width.
var broad = map[Class][][2]rune{}

func init() {
	odd := func(r rune) bool { return (r >= 0x1f000 && r < 0x20000 || r >= 0x2100 && r < 0x2c00) && !isEmoji(r) }
	for _, w := range wideRanges {
		cl := CJK
		if isEmoji(w[0]) || w[0] >= 0x2300 && w[0] < 0x2e00 && w[0] != 0x2329 || w[0] >= 0x1f000 && w[0] < 0x1f200 {
			cl = Emoji
		}
		if odd(w[0]) || odd(w[1]) {
			cl = Odd
		}
		broad[cl] = append(broad[cl], w)
	}
	for _, n := range narrowRanges {
		cl := Sym
		if unicode.IsLetter(n[0]) && utf8.RuneLen(n[0]) == 2 {
			cl = Latin
		}
		if odd(n[0]) || odd(n[1]) {
			cl = Odd
		}
		broad[cl] = append(broad[cl], n)
	}
}

func in(ranges [][2]rune, r rune) bool {
	i := sort.Search(len(ranges), func(i int) bool { return ranges[i][1] >= r })
	return i < len(ranges) && ranges[i][0] <= r
}

// Clusters picks n clusters.
func Clusters(r *rand.Rand, cl Class, n int) []string {
	out := make([]string, n)
	prev := ""
	for i := range out {
		for {
			out[i] = Cluster(r, cl)
			// adjacent flags of any kind are fine (pairs), nothing else interacts
			if prev != "" && Joins(prev, out[i]) {
				continue
			}
			break
		}
		prev = out[i]
	}
	return out
}

// Joins tells whether b would extend a's cluster.
func Joins(a, b string) bool {
	r, _ := utf8.DecodeRuneInString(b)
	return Extends(a, r)
}

// String picks a string of n clusters.
func String(r *rand.Rand, cl Class, n int) string { return strings.Join(Clusters(r, cl, n), "") }

// Classes picks a random subset of classes, biased to small ones.
func Classes(r *rand.Rand, allowed Class) Class {
	switch r.IntN(4) {
	case 0:
		return (ASCII | Space) & allowed
	case 1:
		return allowed
	}
	var c Class
	for _, o := range order {
		if allowed&o != 0 && r.IntN(2) == 0 {
			c |= o
		}
	}
	if c == 0 || c == Space {
		c |= ASCII & allowed
	}
	if c == 0 {
		c = allowed
	}
	return c
}

// RuneWidth is the width of a rune that starts a cluster of the alphabet.
func RuneWidth(r rune) int {
	switch {
	case r < 0x20 || r == 0x7f:
		return 0
	case r < 0x300:
		return 1
	case in(wideRanges, r):
		return 2
	case in(narrowRanges, r):
		return 1
	case unicode.Is(unicode.Mn, r), unicode.Is(unicode.Me, r), r == 0x200d, r == 0x200b, r >= 0xfe00 && r <= 0xfe0f:
		return 0
	case r >= 0x1100 && r <= 0x115f, r >= 0x2e80 && r <= 0x303e, r >= 0x3041 && r <= 0x33ff,
		r >= 0x3400 && r <= 0x4dbf, r >= 0x4e00 && r <= 0x9fff, r >= 0xa000 && r <= 0xa4cf,
		r >= 0xac00 && r <= 0xd7a3, r >= 0xf900 && r <= 0xfaff, r >= 0xfe30 && r <= 0xfe6f,
		r >= 0xff01 && r <= 0xff60, r >= 0xffe0 && r <= 0xffe6, r >= 0x20000 && r <= 0x3fffd:
		return 2
	case r >= 0x1f1e6 && r <= 0x1f1ff:
		return 2 // regional indicators come in pairs here
	case r >= 0x1f300 && r <= 0x1f64f, r >= 0x1f680 && r <= 0x1f6ff, r >= 0x1f900 && r <= 0x1f9ff, r >= 0x1fa70 && r <= 0x1faff:
		return 2
	}
	return 1
}

// jamo: the role of r in a Hangul syllable: L, V, T, or a whole syllable without (v) or with (t) a final
func jamo(r rune) byte {
	switch {
	case r >= 0x1100 && r <= 0x115f:
		return 'L'
	case r >= 0x1160 && r <= 0x11a7:
		return 'V'
	case r >= 0x11a8 && r <= 0x11ff:
		return 'T'
	case r >= 0xac00 && r <= 0xd7a3 && (r-0xac00)%28 == 0:
		return 'v'
	case r >= 0xac00 && r <= 0xd7a3:
		return 't'
	}
	return 0
}

func isRI(r rune) bool    { return r >= 0x1f1e6 && r <= 0x1f1ff }
func isEmoji(r rune) bool { return in(pictographic, r) }

// pictographic: Extended_Pictographic of Unicode 15
var pictographic = [][2]rune{
	{0xa9, 0xa9},
	{0xae, 0xae},
	{0x203c, 0x203c},
	{0x2049, 0x2049},
	{0x2122, 0x2122},
	{0x2139, 0x2139},
	{0x2194, 0x2199},
	{0x21a9, 0x21aa},
	{0x231a, 0x231b},
	{0x2328, 0x2328},
	{0x2388, 0x2388},
	{0x23cf, 0x23cf},
	{0x23e9, 0x23f3},
	{0x23f8, 0x23fa},
	{0x24c2, 0x24c2},
	{0x25aa, 0x25ab},
	{0x25b6, 0x25b6},
	{0x25c0, 0x25c0},
	{0x25fb, 0x25fe},
	{0x2600, 0x2605},
	{0x2607, 0x2612},
	{0x2614, 0x2685},
	{0x2690, 0x2705},
	{0x2708, 0x2712},
	{0x2714, 0x2714},
	{0x2716, 0x2716},
	{0x271d, 0x271d},
	{0x2721, 0x2721},
	{0x2728, 0x2728},
	{0x2733, 0x2734},
	{0x2744, 0x2744},
	{0x2747, 0x2747},
	{0x274c, 0x274c},
	{0x274e, 0x274e},
	{0x2753, 0x2755},
	{0x2757, 0x2757},
	{0x2763, 0x2767},
	{0x2795, 0x2797},
	{0x27a1, 0x27a1},
	{0x27b0, 0x27b0},
	{0x27bf, 0x27bf},
	{0x2934, 0x2935},
	{0x2b05, 0x2b07},
	{0x2b1b, 0x2b1c},
	{0x2b50, 0x2b50},
	{0x2b55, 0x2b55},
	{0x3030, 0x3030},
	{0x303d, 0x303d},
	{0x3297, 0x3297},
	{0x3299, 0x3299},
	{0x1f000, 0x1f0ff},
	{0x1f10d, 0x1f10f},
	{0x1f12f, 0x1f12f},
	{0x1f16c, 0x1f171},
	{0x1f17e, 0x1f17f},
	{0x1f18e, 0x1f18e},
	{0x1f191, 0x1f19a},
	{0x1f1ad, 0x1f1e5},
	{0x1f201, 0x1f20f},
	{0x1f21a, 0x1f21a},
	{0x1f22f, 0x1f22f},
	{0x1f232, 0x1f23a},
	{0x1f23c, 0x1f23f},
	{0x1f249, 0x1f3fa},
	{0x1f400, 0x1f53d},
	{0x1f546, 0x1f64f},
	{0x1f680, 0x1f6ff},
	{0x1f774, 0x1f77f},
	{0x1f7d5, 0x1f7ff},
	{0x1f80c, 0x1f80f},
	{0x1f848, 0x1f84f},
	{0x1f85a, 0x1f85f},
	{0x1f888, 0x1f88f},
	{0x1f8ae, 0x1f8ff},
	{0x1f90c, 0x1f93a},
	{0x1f93c, 0x1f945},
	{0x1f947, 0x1faff},
	{0x1fc00, 0x1fffd},
}

// Extends: does rune r continue cluster a?
func Extends(a string, r rune) bool {
	if a == "" || a == " " && !unicode.Is(unicode.Mn, r) && r != 0x200d {
		return false
	}
	if unicode.Is(unicode.Mn, r) || unicode.Is(unicode.Me, r) || r == 0x200d || r >= 0xfe00 && r <= 0xfe0f {
		return true
	}
	if r >= 0xe0020 && r <= 0xe007f {
		return true
	}
	if j := jamo(r); j != 0 {
		l, _ := utf8.DecodeLastRuneInString(a)
		switch jamo(l) {
		case 'L':
			return j != 'T'
		case 'V', 'v': // v: syllable without a final
			return j == 'V' || j == 'T'
		case 'T', 't':
			return j == 'T'
		}
		return false
	}
	if r >= 0x1f3fb && r <= 0x1f3ff {
		first, _ := utf8.DecodeRuneInString(a)
		return isEmoji(first)
	}
	if strings.HasSuffix(a, "\u200d") {
		first, _ := utf8.DecodeRuneInString(a)
		return isEmoji(first) && isEmoji(r)
	}
	if isRI(r) {
		n := 0
		for _, x := range a {
			if !isRI(x) {
				return false
			}
			n++
		}
		return n == 1
	}
	return false
}

// Split cuts a string of the alphabet into clusters.
func Split(s string) []string {
	var out []string
	for _, r := range s {
		if n := len(out); n > 0 && Extends(out[n-1], r) {
			out[n-1] += string(r)
		} else {
			out = append(out, string(r))
		}
	}
	return out
}

// Width of a string of the alphabet (no escapes).
func Width(s string) int {
	w := 0
	for _, c := range Split(s) {
		r, _ := utf8.DecodeRuneInString(c)
		w += RuneWidth(r)
	}
	return w
}

// Strip removes CSI/OSC sequences.
func Strip(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			j := i + 2
			for j < len(s) && (s[j] < 0x40 || s[j] > 0x7e) {
				j++
			}
			i = j + 1
			continue
		}
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == ']' {
			j := i + 2
			for j < len(s) && s[j] != 7 && s[j] != 0x1b {
				j++
			}
			if j < len(s) && s[j] == 0x1b {
				j++
			}
			i = j + 1
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// VisWidth is the width of a line with escape sequences.
func VisWidth(s string) int { return Width(Strip(s)) }

// Cut returns the longest prefix of clusters not wider than w.
func Cut(s string, w int) string {
	n := 0
	var b strings.Builder
	for _, c := range Split(s) {
		cw := Width(c)
		if n+cw > w {
			break
		}
		n += cw
		b.WriteString(c)
	}
	return b.String()
}
