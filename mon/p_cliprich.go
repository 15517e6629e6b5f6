package main

import (
	"fmt"
	"html"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"phoenixverif/fw"

	"github.com/phoenix-tui/phoenix/clipboard"
	clipbridge "github.com/phoenix-tui/phoenix/clipboard/verifbridge"
)

func init() {
	fw.Register(&fw.Prop{ID: "P31", Quick: 300000, Thorough: 6000000, Case: p31,
		Rule:   "texts of any characters, markup look-alikes included, in every style, through all conversions; HTML with nested tags, attributes, entities and line breaks; RTF as other programs write it; damaged documents of both kinds",
		Assume: []string{"styles are those of the whole text", "carriage returns before line feeds are not part of the text"},
		Need:   map[string]int64{"encode": 80000, "html": 25000, "rtf": 25000, "damaged": 50000}})
}

type richStyle struct {
	b, i, u bool
	color   string // upper case
}

func (s richStyle) String() string {
	return fmt.Sprintf("{bold %v italic %v underline %v %s}", s.b, s.i, s.u, s.color)
}

func styleOf(s clipbridge.Styles) richStyle {
	return richStyle{s.Bold, s.Italic, s.Underline, strings.ToUpper(s.Color)}
}

var richBits = []string{"a", "B", "zz", " ", "  ", "\n", "\t", "\r\n", "é", "ß", "日本", "😀", "\U00012345", "\uFFFD", "\u00a0", "\u2028", "e\u0301", "\u8001", "\uffff",
	`\`, `\\`, "{", "}", "{}", `\b `, `\b0 `, `\i `, `\ul `, `\par`, `\line `, `\u123?`, `\'e9`, `\cf1 `, `{\rtf1\ansi`, `{\colortbl ;\red1\green2\blue3;}`, `{\*\x y}`,
	"<", ">", "&", `"`, "'", "<b>", "</b>", "<strong>", "<i>", "<u>", "<br>", "&amp;", "&lt;b&gt;", "&#65;", "&nbsp", `style="color:#123456"`, "<!-- x -->", "<script>", "?", "7", "-1", "\x00", "\x01", "\x1b", "\x7f", "\v", "\f"}

func richText(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.IntN(10); n > 0; n-- {
		if r.IntN(8) == 0 {
			b.WriteRune(rune(r.IntN(0x3000)))
		} else {
			b.WriteString(richBits[r.IntN(len(richBits))])
		}
	}
	return strings.ToValidUTF8(b.String(), "x")
}

func richRand(r *rand.Rand) richStyle {
	s := richStyle{b: r.IntN(2) == 0, i: r.IntN(2) == 0, u: r.IntN(2) == 0}
	if r.IntN(2) == 0 {
		s.color = fmt.Sprintf("#%06X", r.IntN(1<<24))
		if r.IntN(4) == 0 {
			s.color = []string{"#000000", "#FFFFFF", "#0A0B0C", "#FF0000"}[r.IntN(4)]
		}
	}
	return s
}

// rtfNorm is the text as RTF can hold it.
func rtfNorm(s string) string { return strings.ReplaceAll(s, "\r", "") }

// readHTML reads what the library writes: escaped text in properly nested
// basic tags. Anything else is an error.
func readHTML(s string) (string, richStyle, error) {
	var st richStyle
	var stack []string
	var text strings.Builder
	for s != "" {
		if s[0] != '<' {
			n := strings.IndexByte(s, '<')
			if n < 0 {
				n = len(s)
			}
			if strings.Contains(s[:n], ">") {
				return "", st, fmt.Errorf("bare > in %q", s[:n])
			}
			for t := s[:n]; ; {
				i := strings.IndexByte(t, '&')
				if i < 0 {
					break
				}
				t = t[i:]
				j := strings.IndexByte(t, ';')
				if j < 0 || html.UnescapeString(t[:j+1]) == t[:j+1] {
					return "", st, fmt.Errorf("bare & in %q", s[:n])
				}
				t = t[j+1:]
			}
			text.WriteString(html.UnescapeString(s[:n]))
			s = s[n:]
			continue
		}
		n := strings.IndexByte(s, '>')
		if n < 0 {
			return "", st, fmt.Errorf("open tag %q", s)
		}
		tag := s[1:n]
		s = s[n+1:]
		if close, ok := strings.CutPrefix(tag, "/"); ok {
			if len(stack) == 0 || stack[len(stack)-1] != close {
				return "", st, fmt.Errorf("</%s> closes %v", close, stack)
			}
			stack = stack[:len(stack)-1]
			continue
		}
		switch tag {
		case "strong", "b":
			st.b = true
		case "em", "i":
			st.i = true
		case "u":
			st.u = true
		case "br", "br/", "br /":
			text.WriteByte('\n')
			continue
		default:
			c, ok := strings.CutPrefix(tag, `span style="color:`)
			if !ok || len(c) != 8 || c[0] != '#' || c[7] != '"' {
				return "", st, fmt.Errorf("tag <%s>", tag)
			}
			st.color = strings.ToUpper(c[:7])
			tag = "span"
		}
		stack = append(stack, tag)
	}
	if len(stack) > 0 {
		return "", st, fmt.Errorf("open tags %v", stack)
	}
	return text.String(), st, nil
}

type rtfState struct {
	b, i, u bool
	cf      int
	hidden  bool
	uc      int
}

// readRTF is an independent reading of RTF: the text, the style that all of it
// has, or an error when it is not the one document of ASCII characters and
// known control words that the library should have written.
func readRTF(s string) (string, richStyle, error) {
	fail := func(f string, a ...any) (string, richStyle, error) {
		return "", richStyle{}, fmt.Errorf(f, a...)
	}
	if !strings.HasPrefix(s, `{\rtf1`) || !strings.HasSuffix(s, "}") {
		return fail("not one group")
	}
	var (
		text   []uint16
		colors []string
		color  [3]int
		cur    = rtfState{uc: 1}
		stack  []rtfState
		table  bool
		depth  int
		style  richStyle
		skip   int
	)
	out := func(u ...uint16) {
		if skip > 0 {
			skip--
			return
		}
		if table && len(u) == 1 && u[0] == ';' {
			colors = append(colors, fmt.Sprintf("#%02X%02X%02X", color[0], color[1], color[2]))
			return
		}
		if cur.hidden || table {
			return
		}
		st := richStyle{cur.b, cur.i, cur.u, ""}
		if cur.cf > 0 && cur.cf < len(colors) {
			st.color = colors[cur.cf]
		} else if cur.cf > 0 {
			st.color = "undefined"
		}
		if len(text) > 0 && st != style {
			style.color += " mixed"
		} else {
			style = st
		}
		text = append(text, u...)
	}
	for i := 0; i < len(s); {
		ch := s[i]
		if ch > 126 && ch != 127 {
			return fail("byte %#x", ch)
		}
		i++
		switch ch {
		case '{':
			stack = append(stack, cur)
			depth++
		case '}':
			if depth == 0 {
				return fail("unbalanced }")
			}
			depth--
			cur, stack = stack[depth], stack[:depth]
			table = false
			if depth == 0 && i < len(s) {
				return fail("text after the last group")
			}
		case '\n', '\r':
		case '\\':
			if i == len(s) {
				return fail("ends in a backslash")
			}
			ch = s[i]
			if ch|32 < 'a' || ch|32 > 'z' {
				i++
				switch ch {
				case '\\', '{', '}':
					out(uint16(ch))
				case '\n', '\r':
					out('\n')
				case '~':
					out(0xa0)
				case '\'':
					n, err := strconv.ParseUint(s[i:min(i+2, len(s))], 16, 8)
					if err != nil {
						return fail("\\'%s", s[i:min(i+2, len(s))])
					}
					i += 2
					out(uint16(n))
				case '*':
					cur.hidden = true
				default:
					return fail("control symbol \\%c", ch)
				}
				continue
			}
			j := i
			for j < len(s) && (s[j]|32 >= 'a' && s[j]|32 <= 'z') {
				j++
			}
			word := s[i:j]
			i = j
			if j < len(s) && s[j] == '-' {
				j++
			}
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			n, err := strconv.Atoi(s[i:j])
			on := err != nil || n != 0
			if err == nil {
				i = j
			}
			if i < len(s) && s[i] == ' ' {
				i++
			}
			switch word {
			case "rtf", "ansi", "deff", "f", "fs", "pard", "plain", "fcharset", "fnil":
			case "fonttbl", "stylesheet", "info":
				cur.hidden = true
			case "colortbl":
				table = true
			case "red":
				color[0] = n
			case "green":
				color[1] = n
			case "blue":
				color[2] = n
			case "b":
				cur.b = on
			case "i":
				cur.i = on
			case "ul":
				cur.u = on
			case "cf":
				cur.cf = n
			case "line", "par":
				out('\n')
			case "tab":
				out('\t')
			case "uc":
				cur.uc = n
			case "u":
				if n < -32768 || n > 32767 {
					return fail("\\u%d", n)
				}
				out(uint16(n))
				skip = cur.uc
			default:
				return fail("control word \\%s", word)
			}
		default:
			out(uint16(ch))
		}
	}
	if depth != 0 {
		return fail("%d open groups", depth)
	}
	return string(utf16.Decode(text)), style, nil
}

var richCodec = clipbridge.NewCodec()

// richClip is a clipboard to convert with; nothing is written to it.
func richClip(c *fw.Ctx, content *string) *clipboard.Clipboard {
	cb, err := clipbridge.Build([]*clipbridge.Fake{{Title: "fake", Avail: func() bool { return true },
		Get: func() (string, error) { return *content, nil },
		Put: func(s, _ string) error { *content = s; return nil }}}, false, time.Second, false)
	if err != nil {
		c.Failf("%v", err)
	}
	return cb
}

func p31(c *fw.Ctx) {
	switch c.R.IntN(4) {
	case 0, 1:
		p31encode(c)
	case 2:
		if c.R.IntN(2) == 0 {
			p31html(c)
		} else {
			p31rtf(c)
		}
	case 3:
		p31damaged(c)
	}
}

// checkRTF: the document holds exactly this text in this style.
func checkRTF(c *fw.Ctx, how, rtf, text string, st richStyle) {
	t, s, err := readRTF(rtf)
	if err != nil {
		c.Failf("%s: %q in %v: RTF %q: %v", how, text, st, rtf, err)
	}
	if t == "" {
		s = st // there is nothing to have a style
	}
	if t != rtfNorm(text) || s != st {
		c.Failf("%s: %q in %v: RTF %q holds %q in %v", how, text, st, rtf, t, s)
	}
}

func checkHTML(c *fw.Ctx, how, h, text string, st richStyle) {
	t, s, err := readHTML(h)
	if err != nil {
		c.Failf("%s: %q in %v: HTML %q: %v", how, text, st, h, err)
	}
	if t != text || s != st {
		c.Failf("%s: %q in %v: HTML %q holds %q in %v", how, text, st, h, t, s)
	}
}

func p31encode(c *fw.Ctx) {
	r := c.R
	c.Count("encode", 1)
	text, st := richText(r), richRand(r)
	styles := clipbridge.NewStyles().WithBold(st.b).WithItalic(st.i).WithUnderline(st.u)
	hex := st.color
	if r.IntN(3) == 0 {
		hex = strings.ToLower(hex)
	}
	styles, err := styles.WithColor(hex)
	if err != nil {
		c.Failf("color %q: %v", hex, err)
	}
	c.Tracef("%q in %v", text, st)
	must := func(s string, err error) string {
		if err != nil {
			c.Failf("%q in %v: %v", text, st, err)
		}
		return s
	}
	content := ""
	cb := richClip(c, &content)
	h := must(richCodec.EncodeHTML(text, styles))
	checkHTML(c, "encoded", h, text, st)
	t, s, err := richCodec.DecodeHTML(h)
	if err != nil || t != text || styleOf(s) != st {
		c.Failf("%q in %v: HTML %q decoded as %q in %v, %v", text, st, h, t, styleOf(s), err)
	}
	rtf := must(richCodec.EncodeRTF(text, styles))
	checkRTF(c, "encoded", rtf, text, st)
	t, s, err = richCodec.DecodeRTF(rtf)
	if err != nil || t != rtfNorm(text) || styleOf(s) != st {
		c.Failf("%q in %v: RTF %q decoded as %q in %v, %v", text, st, rtf, t, styleOf(s), err)
	}
	rtf = must(cb.ConvertHTMLToRTF(h))
	checkRTF(c, "from HTML", rtf, text, st)
	h = must(cb.ConvertRTFToHTML(rtf))
	if rtfNorm(text) != "" {
		checkHTML(c, "from HTML by RTF", h, rtfNorm(text), st)
		checkRTF(c, "from HTML by RTF and back", must(cb.ConvertHTMLToRTF(h)), text, st)
	}
	// through a clipboard
	if err := cb.WriteRTF(rtf); err != nil {
		c.Failf("write: %v", err)
	}
	if got, err := cb.ReadRTFAsPlainText(); err != nil || got != rtfNorm(text) {
		c.Failf("%q in %v: RTF %q read as %q, %v", text, st, rtf, got, err)
	}
	var f = &fakeClip{there: true}
	m, err := clipbridge.Styled(f.provider("fake"))
	if err != nil {
		c.Failf("%v", err)
	}
	if err := m.WriteStyledText(text, styles); err != nil {
		c.Failf("write of %q: %v", text, err)
	}
	if t, s, err := m.ReadStyledText(); err != nil || t != text || styleOf(s) != st {
		c.Failf("%q in %v: written as %q, read as %q in %v, %v", text, st, f.content, t, styleOf(s), err)
	}
	content = f.content
	if got, err := cb.ReadHTMLAsPlainText(); err != nil || got != text {
		c.Failf("%q in %v: HTML %q read as %q, %v", text, st, content, got, err)
	}
	c.Seen(text, st)
	c.Sample(fmt.Sprintf("%q in %v: %s", text, st, rtf))
}

// p31html: HTML with nested and partial formatting; the text arrives, and
// every kind of formatting that is used.
func p31html(c *fw.Ctx) {
	r := c.R
	c.Count("html", 1)
	var st richStyle
	var text strings.Builder
	var gen func(depth int) string
	gen = func(depth int) string {
		var b strings.Builder
		for n := 1 + r.IntN(3); n > 0; n-- {
			k := r.IntN(9)
			if depth > 4 {
				k = 8
			}
			inner := func() string { return gen(depth + 1) }
			switch k {
			case 0:
				t := []string{"b", "strong"}[r.IntN(2)]
				st.b = true
				fmt.Fprintf(&b, "<%s>%s</%s>", t, inner(), t)
			case 1:
				t := []string{"i", "em"}[r.IntN(2)]
				st.i = true
				fmt.Fprintf(&b, "<%s>%s</%s>", t, inner(), t)
			case 2:
				st.u = true
				fmt.Fprintf(&b, "<u>%s</u>", inner())
			case 3:
				col := fmt.Sprintf("#%06x", r.IntN(1<<24))
				if st.color == "" {
					st.color = strings.ToUpper(col)
				}
				fmt.Fprintf(&b, `<span style="color:%s">%s</span>`, col, inner())
			case 4:
				t := []string{`p`, `div class="x y"`, `a href="http://x/?a=1"`, `font size=3`, `P`}[r.IntN(5)]
				name, _, _ := strings.Cut(t, " ")
				fmt.Fprintf(&b, "<%s>%s</%s>", t, inner(), name)
			case 5:
				b.WriteString([]string{"<br>", "<br/>", "<br />", "<BR>"}[r.IntN(4)])
				text.WriteByte('\n')
			case 6:
				e := []struct{ e, t string }{{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", `"`}, {"&#39;", "'"}, {"&#x1F600;", "😀"}, {"&eacute;", "é"}, {"&#123;", "{"}, {"&#92;", `\`}}[r.IntN(9)]
				b.WriteString(e.e)
				text.WriteString(e.t)
			default:
				t := richText(r)
				text.WriteString(t)
				b.WriteString(html.EscapeString(t))
			}
		}
		return b.String()
	}
	h := gen(0)
	want := text.String()
	c.Tracef("%s", h)
	content := h
	cb := richClip(c, &content)
	got, s, err := richCodec.DecodeHTML(h)
	if err != nil || got != want || styleOf(s) != st {
		c.Failf("HTML %q: %q in %v, %v; should be %q in %v", h, got, styleOf(s), err, want, st)
	}
	if got, err := cb.ReadHTMLAsPlainText(); err != nil || got != want {
		c.Failf("HTML %q read as %q, %v; should be %q", h, got, err, want)
	}
	rtf, err := cb.ConvertHTMLToRTF(h)
	if err != nil {
		c.Failf("HTML %q: %v", h, err)
	}
	if want == "" {
		return
	}
	checkRTF(c, fmt.Sprintf("HTML %q", h), rtf, want, st)
	h2, err := cb.ConvertRTFToHTML(rtf)
	if err != nil {
		c.Failf("RTF %q: %v", rtf, err)
	}
	if rtfNorm(want) != "" {
		checkHTML(c, fmt.Sprintf("HTML %q back from RTF", h), h2, rtfNorm(want), st)
	}
	c.Seen(h)
	c.Sample(h)
}

// p31rtf: RTF as other programs write it.
func p31rtf(c *fw.Ctx) {
	r := c.R
	c.Count("rtf", 1)
	var st richStyle
	var text []uint16
	var b strings.Builder
	b.WriteString([]string{`{\rtf1\ansi\deff0`, `{\rtf1\ansi\ansicpg1252\deff0\nouicompat`, `{\rtf1 `}[r.IntN(3)])
	if r.IntN(2) == 0 {
		b.WriteString(`{\fonttbl{\f0\fnil\fcharset0 Cal\'edbri;}{\f1 Some \b font;}}`)
	}
	if r.IntN(2) == 0 {
		n := r.IntN(1 << 24)
		st.color = fmt.Sprintf("#%06X", n)
		fmt.Fprintf(&b, `{\colortbl ;\red%d\green%d\blue%d;}`, n>>16, n>>8&255, n&255)
	}
	if r.IntN(2) == 0 {
		b.WriteString("{\\*\\generator Riched20 {nested} \\i x;}\r\n")
	}
	b.WriteString(`\pard`)
	uc := 1
	word := true // a control word ends the output: text needs a delimiter
	var gen func(depth int)
	put := func(s string, isWord bool) { b.WriteString(s); word = isWord }
	gen = func(depth int) {
		for n := 1 + r.IntN(6); n > 0; n-- {
			switch k := r.IntN(12); {
			case k == 0 && depth < 4:
				save := uc
				put("{", false)
				gen(depth + 1)
				put("}", false)
				uc = save
			case k == 1:
				st.b = true
				put(`\b`, true)
			case k == 2:
				st.i = true
				put(`\i`, true)
			case k == 3:
				st.u = true
				put(`\ul`, true)
			case k == 4:
				put([]string{`\b0`, `\i0`, `\ul0`, `\fs24`, `\f0`, `\pard`, `\cf1`, `\lang1033`, `\li-720`}[r.IntN(9)], true)
			case k == 5:
				put([]string{`\par`, `\line`}[r.IntN(2)], true)
				text = append(text, '\n')
			case k == 6:
				put(`\tab`, true)
				text = append(text, '\t')
			case k == 7:
				put([]string{"\n", "\r\n"}[r.IntN(2)], false)
			case k == 8:
				put([]string{`\{`, `\}`, `\\`}[r.IntN(3)], false)
				text = append(text, uint16(b.String()[b.Len()-1]))
			case k == 9:
				ch := 0xa1 + r.IntN(0x5e)
				put(fmt.Sprintf(`\'%02x`, ch), false)
				text = append(text, uint16(ch))
			case k == 10:
				if r.IntN(3) == 0 {
					uc = r.IntN(3)
					put(fmt.Sprintf(`\uc%d`, uc), true)
				}
				ru := []rune("é日\u8001😀\uffff€\u2014\U00012345")[r.IntN(8)]
				for _, u := range utf16.Encode([]rune{ru}) {
					fb := ""
					for i := 0; i < uc; i++ {
						fb += []string{"?", `\'3f`, "x"}[r.IntN(3)]
					}
					if fb != "" && fb[0] == 'x' || fb == "" {
						fb = " " + fb
					}
					put(fmt.Sprintf(`\u%d%s`, int16(u), fb), false)
					text = append(text, u)
				}
			default:
				if word {
					b.WriteByte(' ')
				}
				t := []string{"a", "Word", "two words", " ", "7", "-3", ".", "?", "  x "}[r.IntN(9)]
				put(t, false)
				text = append(text, utf16.Encode([]rune(t))...)
			}
		}
	}
	gen(0)
	b.WriteString("\r\n}")
	b.WriteString([]string{"", "\r\n", "\n"}[r.IntN(3)])
	rtf, want := b.String(), string(utf16.Decode(text))
	c.Tracef("%s", rtf)
	content := rtf
	cb := richClip(c, &content)
	if got, err := cb.ReadRTFAsPlainText(); err != nil || got != want {
		c.Failf("RTF %q read as %q, %v; should be %q", rtf, got, err, want)
	}
	h, err := cb.ConvertRTFToHTML(rtf)
	if err != nil {
		c.Failf("RTF %q: %v", rtf, err)
	}
	if want != "" {
		checkHTML(c, fmt.Sprintf("RTF %q", rtf), h, want, st)
		back, err := cb.ConvertHTMLToRTF(h)
		if err != nil {
			c.Failf("HTML %q: %v", h, err)
		}
		checkRTF(c, fmt.Sprintf("RTF %q by HTML %q", rtf, h), back, want, st)
	}
	c.Seen(rtf)
	c.Sample(rtf)
}

// p31damaged: whatever comes in, what goes out is sound.
func p31damaged(c *fw.Ctx) {
	r := c.R
	c.Count("damaged", 1)
	text, st := richText(r), richRand(r)
	styles, _ := clipbridge.NewStyles().WithBold(st.b).WithItalic(st.i).WithUnderline(st.u).WithColor(st.color)
	isHTML := r.IntN(2) == 0
	var doc string
	if isHTML {
		doc, _ = richCodec.EncodeHTML(text, styles)
	} else {
		doc, _ = richCodec.EncodeRTF(text, styles)
	}
	b := []byte(doc)
	for n := 1 + r.IntN(4); n > 0 && len(b) > 0; n-- {
		i := r.IntN(len(b))
		switch r.IntN(5) {
		case 0:
			b = append(b[:i:i], b[min(len(b), i+1+r.IntN(5)):]...)
		case 1:
			b[i] = byte(r.IntN(256))
		case 2:
			b = b[:i]
		case 3:
			bit := richBits[r.IntN(len(richBits))]
			if r.IntN(3) == 0 {
				bit = []string{`\u-99999999999999999999?`, `\u70000?`, `\uc-5 `, `\uc999999999 `, `\red999`, `\u-10179?`, `\bin9 `, "\\'", `\'g`, `<span style="color:#GG0000">`, "</", "<>", "&#x110000;", "&#xD800;", "&#0;", "{{{{", "}}}}", `\`}[r.IntN(18)]
			}
			b = append(b[:i:i], append([]byte(bit), b[i:]...)...)
		case 4:
			j := i + r.IntN(len(b)-i)
			b = append(b, b[i:j]...)
		}
	}
	doc = string(b)
	c.Tracef("%q", doc)
	content := doc
	cb := richClip(c, &content)
	if rtf, err := cb.ConvertHTMLToRTF(doc); err == nil && rtf != "" {
		if _, _, err := readRTF(rtf); err != nil {
			c.Failf("%q made into RTF %q: %v", doc, rtf, err)
		}
	} else if rtf != "" {
		c.Failf("%q: both RTF %q and error %v", doc, rtf, err)
	}
	if h, err := cb.ConvertRTFToHTML(doc); err == nil && h != "" {
		if _, _, err := readHTML(h); err != nil {
			c.Failf("%q made into HTML %q: %v", doc, h, err)
		}
		if utf8.ValidString(doc) && !utf8.ValidString(h) {
			c.Failf("%q made into HTML %q", doc, h)
		}
	} else if h != "" {
		c.Failf("%q: both HTML %q and error %v", doc, h, err)
	}
	if doc != "" {
		cb.ReadHTMLAsPlainText()
		cb.ReadRTFAsPlainText()
	}
	c.Seen(doc)
}
