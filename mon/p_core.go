package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"sort"
	"strings"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/core"
	corebridge "github.com/phoenix-tui/phoenix/core/verifbridge"
	"github.com/phoenix-tui/phoenix/terminal"

	"phoenixverif/fw"
	"phoenixverif/txt"
)

func init() {
	const chunks = 64
	var fixed []fw.Fixed
	for i := 0; i < chunks; i++ {
		i := i
		fixed = append(fixed, fw.Fixed{Name: fmt.Sprintf("codepoints-%d-of-%d", i, chunks), Run: func(c *fw.Ctx) { p12table(c, i, chunks) }})
	}
	fw.Register(&fw.Prop{ID: "P12", Quick: 500000, Thorough: 3000000, Case: p12, Fixed: fixed, Exhaust: true,
		Rule:   "generated strings and value constructions (all code points of the table are visited in addition)",
		Assume: []string{"widths are judged on the code points whose width is undisputed (East Asian Width of Unicode 15; no spacing marks and no supplementary-plane pictographs with text presentation)"},
		Need:   map[string]int64{"code_points": 100000, "strings": 50000}})
	fw.Register(&fw.Prop{ID: "P13", Quick: 288 + 40000, Thorough: 288 + 60000, Case: p13,
		Rule:   "environments; the product of the listed values of all variables consulted is visited completely, random values in addition",
		Assume: []string{"the public entry points run on this platform (Unix); the macOS and Windows rules are observed at the detector"},
		Need:   map[string]int64{"environments": 60000, "no_color": 1000, "truecolor": 1000, "other_platforms": 100000}})
}

// ---- P12 ------------------------------------------------------------------------------------

func p12table(c *fw.Ctx, k, n int) {
	for i, rg := range widthRanges {
		if i%n != k {
			continue
		}
		for cp := rg[0]; cp <= rg[1]; cp++ {
			s := string(cp)
			if w := core.StringWidth(s); w != int(rg[2]) {
				c.Failf("StringWidth(U+%04X) = %d, Unicode says %d", cp, w, rg[2])
			}
			if cl := core.NewCellAuto(s); cl.Width != int(rg[2]) || cl.Content != s {
				c.Failf("NewCellAuto(U+%04X) = %+v", cp, cl)
			}
			c.Count("code_points", 1)
		}
		c.Seen("range", i)
	}
}

var narrowSafe [][3]int32 // ranges whose characters do not interact with neighbours

func init() {
	for _, rg := range widthRanges {
		lo, hi := rg[0], rg[1]
		switch {
		case lo < 0x20 || lo == 0x7f:
		case hi >= 0x200b && lo <= 0x200f, hi >= 0xfe00 && lo <= 0xfe0f, hi >= 0x1100 && lo <= 0x11ff, hi >= 0xa960 && lo <= 0xa97f, hi >= 0xd7b0 && lo <= 0xd7ff,
			hi >= 0x1f1e6 && lo <= 0x1f1ff, hi >= 0x1f3fb && lo <= 0x1f3ff, hi >= 0xe0000:
		default:
			narrowSafe = append(narrowSafe, rg)
		}
	}
	sort.Slice(narrowSafe, func(i, j int) bool { return narrowSafe[i][0] < narrowSafe[j][0] })
}

type piece struct {
	s string
	w int
}

// emojiStyle: symbols whose width a selector or modifier decides
var emojiStyle = []piece{{"❤\ufe0f", 2}, {"⚠\ufe0f", 2}, {"☀\ufe0f", 2}, {"☀\ufe0e", 1}, {"✔\ufe0e", 1}, {"☝\U0001F3FD", 2},
	{"✌\U0001F3FB", 2}, {"👁\ufe0f", 2}, {"👩\u200d❤\ufe0f\u200d👨", 2}, {"👩\u200d❤\u200d👨", 2}, {"1\ufe0f\u20e3", 2}, {"👩\u200d⚕\ufe0f", 2}}

// widthPieces: clusters with their width, such that no two of them join.
func widthPieces(r *rand.Rand, n int) []piece {
	var out []piece
	prev := ""
	kind := r.IntN(5)
	for len(out) < n {
		var p piece
		k := kind
		if kind == 4 {
			k = r.IntN(4)
		}
		switch k {
		case 0:
			p.s = txt.Cluster(r, txt.All)
			p.w = txt.Width(p.s)
		case 1:
			rg := narrowSafe[r.IntN(len(narrowSafe))]
			p = piece{string(rg[0] + r.Int32N(rg[1]-rg[0]+1)), int(rg[2])}
			if rg[2] == 0 && prev == "" {
				continue
			}
		case 2:
			p = piece{string(rune(32 + r.IntN(95))), 1}
		case 3:
			switch r.IntN(5) {
			case 1:
				p = emojiStyle[r.IntN(len(emojiStyle))]
			case 0:
				p = piece{string(rune([]int{0, 7, 8, 9, 10, 13, 27, 127, 0x85, 0x9b}[r.IntN(10)])), 0}
			default:
				p = piece{txt.Cluster(r, txt.Word), 0}
				p.w = txt.Width(p.s)
			}
		}
		if prev != "" && txt.Joins(prev, p.s) && p.w != 0 {
			continue
		}
		// a non-spacing mark belongs to what precedes it
		out = append(out, p)
		prev = p.s
	}
	return out
}

func p12(c *fw.Ctx) {
	r := c.R
	n := 1 + r.IntN(12)
	if r.IntN(20) == 0 {
		n = 100 + r.IntN(400)
	}
	ps := widthPieces(r, n)
	var sb strings.Builder
	want := 0
	for _, p := range ps {
		sb.WriteString(p.s)
		want += p.w
	}
	s := sb.String()
	got := core.StringWidth(s)
	if got != want {
		// which prefix shows it first
		acc, w := "", 0
		for i, p := range ps {
			acc += p.s
			w += p.w
			if g := core.StringWidth(acc); g != w {
				c.Failf("StringWidth(%q) = %d; the widths of its characters add up to %d (first at character %d, %q)", acc, g, w, i, p.s)
			}
		}
		c.Failf("StringWidth(%q) = %d instead of %d", s, got, want)
	}
	if again := core.StringWidth(s); again != got {
		c.Failf("StringWidth(%q) = %d, then %d", s, got, again)
	}
	// every split between characters
	acc := ""
	for i := 0; i+1 < len(ps) && i < 40; i++ {
		acc += ps[i].s
		if a, b := core.StringWidth(acc), core.StringWidth(s[len(acc):]); a+b != got && ps[i+1].w != 0 {
			c.Failf("widths of %q (%d) and %q (%d) do not add up to %d", acc, a, s[len(acc):], b, got)
		}
	}
	c.Count("strings", 1)
	if cl := core.NewCellAuto(s); cl.Width != want || cl.Content != s {
		c.Failf("NewCellAuto(%q) = %+v, width should be %d", s, cl, want)
	}
	c.Seen(s)
	c.Sample(fmt.Sprintf("%q = %d", s, want))

	// values
	num := func() int {
		switch r.IntN(5) {
		case 0:
			return -r.IntN(100)
		case 1:
			return []int{0, 1, -1, 80, math.MaxInt32, math.MinInt32}[r.IntN(6)]
		}
		return r.IntN(300)
	}
	a, b, d, e := num(), num(), num(), num()
	if sz := core.NewSize(a, b); sz.Width != max(1, a) || sz.Height != max(1, b) {
		c.Failf("NewSize(%d, %d) = %+v", a, b, sz)
	}
	p := core.NewPosition(a, b)
	if p.Row != max(0, a) || p.Col != max(0, b) {
		c.Failf("NewPosition(%d, %d) = %+v", a, b, p)
	}
	q := p.Add(d, e)
	if q.Row != max(0, p.Row+d) || q.Col != max(0, p.Col+e) {
		c.Failf("%+v.Add(%d, %d) = %+v", p, d, e, q)
	}
	if p.Row != max(0, a) || p.Col != max(0, b) {
		c.Failf("Add changed its receiver to %+v", p)
	}
	// the fields are public: values built without the constructors
	lp := core.Position{Row: a, Col: b}
	if q := lp.Add(d, e); q.Row != max(0, max(0, a)+d) || q.Col != max(0, max(0, b)+e) {
		c.Failf("core.Position{%d, %d}.Add(%d, %d) = %+v", a, b, d, e, q)
	}
	if lp.Row != a || lp.Col != b {
		c.Failf("Add changed its receiver to %+v", lp)
	}
	if g := core.NewTerminal().WithSize(core.Size{Width: a, Height: b}).Size(); g.Width != max(1, a) || g.Height != max(1, b) {
		c.Failf("a terminal with size {%d, %d} reports %+v", a, b, g)
	}
	if cl := core.NewCell(s, a); cl.Content != s || cl.Width != max(0, a) {
		c.Failf("NewCell(_, %d) = %+v", a, cl)
	}
}

// ---- P13 ------------------------------------------------------------------------------------

const unset = "\x00unset"

var envValues = map[string][]string{
	"NO_COLOR":     {unset, "", "1", "0"},
	"FORCE_COLOR":  {unset, "", "0", "1", "2", "3", "true", "yes"},
	"COLORTERM":    {unset, "", "truecolor", "TrueColor", "24bit", "24BIT", "yes", "truecolour", "gnome-terminal"},
	"TERM_PROGRAM": {unset, "", "iTerm.app", "vscode", "Hyper", "WarpTerminal", "Apple_Terminal", "xterm"},
	"TERM":         {unset, "", "dumb", "xterm", "xterm-color", "xterm-256color", "rxvt-unicode-256color", "screen-256color", "tmux-256color", "linux", "vt100", "Dumb"},
	"WT_SESSION":   {unset, "1"},
}

type envT map[string]string

func (e envT) apply() {
	for k := range envValues {
		if v, ok := e[k]; ok && v != unset {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
}

func (e envT) get(k string) string {
	if v, ok := e[k]; ok && v != unset {
		return v
	}
	return ""
}

func (e envT) String() string {
	var s []string
	for _, k := range []string{"NO_COLOR", "FORCE_COLOR", "COLORTERM", "TERM_PROGRAM", "TERM", "WT_SESSION"} {
		if v, ok := e[k]; ok && v != unset {
			s = append(s, fmt.Sprintf("%s=%q", k, v))
		}
	}
	return strings.Join(s, " ")
}

// wantOn is what the documented detection gives on a platform: the colour
// depth, whether escape sequences (and with them the alternate screen and
// cursor control) are supported, and the mouse.
func (e envT) wantOn(platform string) (d core.ColorDepth, ansi, mouse bool) {
	forced := e.get("NO_COLOR") != "" || e.get("FORCE_COLOR") != ""
	if platform != "windows" && platform != "darwin" || forced {
		d = e.wantDepth()
		return d, d != 0, d != 0
	}
	if platform == "windows" {
		if e.get("WT_SESSION") != "" || e.get("TERM_PROGRAM") == "vscode" {
			return core.ColorDepthTrueColor, true, true
		}
		return core.ColorDepth8, true, false
	}
	d = e.wantTable()
	if e.get("TERM_PROGRAM") == "Apple_Terminal" && d == core.ColorDepthTrueColor {
		d = core.ColorDepth256
	}
	return d, true, true
}

func p13platforms(c *fw.Ctx, e envT) {
	for _, p := range []string{"windows", "darwin", "linux", "freebsd"} {
		k := corebridge.Detect(corebridge.Env{OS: p, Look: e.get})
		d, ansi, mouse := e.wantOn(p)
		g := fmt.Sprintf("ansi=%v depth=%d mouse=%v alt=%v cursor=%v", k.SupportsANSI(), k.ColorDepth(), k.SupportsMouse(), k.SupportsAltScreen(), k.SupportsCursorControl())
		if w := fmt.Sprintf("ansi=%v depth=%d mouse=%v alt=%v cursor=%v", ansi, d, mouse, ansi, ansi); g != w {
			c.Failf("%v on %s: detected %s instead of %s", e, p, g, w)
		}
		c.Count("other_platforms", 1)
	}
}

// wantDepth is the documented detection on Unix.
func (e envT) wantDepth() core.ColorDepth {
	if e.get("NO_COLOR") != "" {
		return core.ColorDepthNone
	}
	switch f := e.get("FORCE_COLOR"); f {
	case "":
	case "0":
		return core.ColorDepthNone
	case "1":
		return core.ColorDepth8
	case "2":
		return core.ColorDepth256
	default:
		return core.ColorDepthTrueColor
	}
	t := e.get("TERM")
	if t == "" || t == "dumb" {
		return core.ColorDepthNone
	}
	return e.wantTable()
}

func (e envT) wantTable() core.ColorDepth {
	t := e.get("TERM")
	if ct := strings.ToLower(e.get("COLORTERM")); ct == "truecolor" || ct == "24bit" {
		return core.ColorDepthTrueColor
	}
	switch e.get("TERM_PROGRAM") {
	case "iTerm.app", "vscode", "Hyper", "WarpTerminal":
		return core.ColorDepthTrueColor
	case "Apple_Terminal":
		return core.ColorDepth256
	}
	switch {
	case strings.Contains(t, "256color"):
		return core.ColorDepth256
	case t == "" || t == "dumb":
		return core.ColorDepthNone
	}
	return core.ColorDepth8
}

func capsText(k *core.Capabilities) string {
	return fmt.Sprintf("ansi=%v depth=%d color=%v true=%v mouse=%v alt=%v cursor=%v", k.SupportsANSI(), k.ColorDepth(), k.SupportsColor(), k.SupportsTrueColor(), k.SupportsMouse(), k.SupportsAltScreen(), k.SupportsCursorControl())
}

func p13env(c *fw.Ctx, e envT, tm terminal.Terminal) {
	e.apply()
	k := core.AutoDetect().Capabilities()
	for i, t := range []*core.Terminal{phoenix.AutoDetectTerminal(), phoenix.NewTerminal()} {
		if g := capsText(t.Capabilities()); g != capsText(k) || t.Size() != core.AutoDetect().Size() {
			c.Failf("%v: the umbrella package (%d) detects %s of size %v, core %s", e, i, g, t.Size(), capsText(k))
		}
	}
	want := e.wantDepth()
	if k.ColorDepth() != want {
		c.Failf("%v: colour depth %d detected instead of %d", e, k.ColorDepth(), want)
	}
	got := capsText(k)
	// consistency
	if k.SupportsColor() != (want != 0) || k.SupportsTrueColor() != (want == core.ColorDepthTrueColor) {
		c.Failf("%v: inconsistent: %s", e, got)
	}
	ansi := want != 0
	if k.SupportsANSI() != ansi || k.SupportsMouse() != ansi || k.SupportsAltScreen() != ansi || k.SupportsCursorControl() != ansi {
		c.Failf("%v: the escape sequence capabilities should all be %v: %s", e, ansi, got)
	}
	// the terminal package's own detection
	d := tm.ColorDepth()
	ct := e.get("COLORTERM")
	wd := 16
	if ct == "truecolor" || ct == "24bit" {
		wd = 16777216
	} else if strings.Contains(e.get("TERM"), "256color") {
		wd = 256
	}
	if d != wd || tm.SupportsTrueColor() != (wd == 16777216) {
		c.Failf("%v: the terminal reports %d colours (true colour %v) instead of %d", e, d, tm.SupportsTrueColor(), wd)
	}
	p13platforms(c, e)
	c.Count("environments", 1)
	switch want {
	case 0:
		c.Count("no_color", 1)
	case core.ColorDepthTrueColor:
		c.Count("truecolor", 1)
	}
}

func p13(c *fw.Ctx) {
	r := c.R
	tm := terminal.NewANSI()
	defer envT{}.apply()
	n := c.N
	if n < 288 { // the complete product, one slice per case
		a, b, d := n%4, n/4%8, n/32%9
		for _, tp := range envValues["TERM_PROGRAM"] {
			for _, t := range envValues["TERM"] {
				for _, wt := range envValues["WT_SESSION"] {
					e := envT{"NO_COLOR": envValues["NO_COLOR"][a], "FORCE_COLOR": envValues["FORCE_COLOR"][b], "COLORTERM": envValues["COLORTERM"][d], "TERM_PROGRAM": tp, "TERM": t, "WT_SESSION": wt}
					p13env(c, e, tm)
					c.Seen(e.String())
				}
			}
		}
		return
	}
	// random values, and variables nobody asks for
	e := envT{}
	for k, vs := range envValues {
		switch r.IntN(5) {
		case 0:
			e[k] = txt.String(r, txt.ASCII, 1+r.IntN(12))
		case 1:
			v := vs[r.IntN(len(vs))]
			if v != unset {
				v += txt.String(r, txt.ASCII, r.IntN(3))
			}
			e[k] = v
		default:
			e[k] = vs[r.IntN(len(vs))]
		}
	}
	p13env(c, e, tm)
	c.Seen(e.String())
	c.Sample(e.String())
	before := capsText(core.AutoDetect().Capabilities())
	other := []string{"COLORFGBG", "LS_COLORS", "TERMINFO", "PHX_" + fmt.Sprint(r.IntN(1000)), "LANG_X", "TERM_PROGRAM_VERSION", "COLUMNS", "LINES", "CLICOLOR", "EDITOR"}[r.IntN(10)]
	old, had := os.LookupEnv(other)
	os.Setenv(other, txt.String(r, txt.ASCII, 5))
	after := capsText(core.AutoDetect().Capabilities())
	if had {
		os.Setenv(other, old)
	} else {
		os.Unsetenv(other)
	}
	if before != after {
		c.Failf("%v: setting the unrelated variable %s changes %s to %s", e, other, before, after)
	}

	// construction and derivation
	depths := []core.ColorDepth{core.ColorDepthNone, core.ColorDepth8, core.ColorDepth256, core.ColorDepthTrueColor}
	dep := depths[r.IntN(4)]
	if r.IntN(4) == 0 {
		dep = core.ColorDepth(r.IntN(1 << 25))
	}
	bs := []bool{r.IntN(2) == 0, r.IntN(2) == 0, r.IntN(2) == 0, r.IntN(2) == 0}
	k := core.NewCapabilities(bs[0], dep, bs[1], bs[2], bs[3])
	if r.IntN(2) == 0 {
		k = phoenix.NewCapabilities(bs[0], dep, bs[1], bs[2], bs[3])
		if g := phoenix.NewTerminalWithCapabilities(k).Capabilities(); capsText(g) != capsText(k) {
			c.Failf("NewTerminalWithCapabilities(%s) has %s", capsText(k), capsText(g))
		}
		if phoenix.ColorDepthNone != core.ColorDepthNone || phoenix.ColorDepth8 != core.ColorDepth8 || phoenix.ColorDepth256 != core.ColorDepth256 || phoenix.ColorDepthTrueColor != core.ColorDepthTrueColor {
			c.Failf("the umbrella package names other colour depths")
		}
		if w, h := r.IntN(300)-20, r.IntN(300)-20; phoenix.NewSize(w, h) != core.NewSize(w, h) {
			c.Failf("NewSize(%d, %d) is %v, in core %v", w, h, phoenix.NewSize(w, h), core.NewSize(w, h))
		}
	}
	valid := false
	for _, d := range depths {
		valid = valid || d == dep
	}
	wd := dep
	if !valid {
		wd = core.ColorDepthNone
	}
	if k.ColorDepth() != wd || k.SupportsANSI() != bs[0] || k.SupportsMouse() != (bs[0] && bs[1]) || k.SupportsAltScreen() != (bs[0] && bs[2]) || k.SupportsCursorControl() != (bs[0] && bs[3]) {
		c.Failf("NewCapabilities(%v, %d, %v, %v, %v) = %s", bs[0], dep, bs[1], bs[2], bs[3], capsText(k))
	}
	type snap struct {
		t    *core.Terminal
		size core.Size
		caps string
	}
	cur := core.NewTerminalWithCapabilities(k)
	snaps := []snap{{cur, core.Size{Width: 80, Height: 24}, capsText(k)}}
	for i := r.IntN(6); i > 0; i-- {
		from := snaps[r.IntN(len(snaps))]
		switch r.IntN(3) {
		case 0:
			state := r.IntN(5)
			rm, err := core.NewRawMode(state)
			if err != nil || rm.IsEnabled() || rm.OriginalState() != state {
				c.Failf("NewRawMode(%d): %v %+v", state, err, rm)
			}
			snaps = append(snaps, snap{from.t.WithRawMode(rm), from.size, from.caps})
		default:
			w, h := r.IntN(200)-20, r.IntN(100)-10
			snaps = append(snaps, snap{from.t.WithSize(core.Size{Width: w, Height: h}), core.Size{Width: max(1, w), Height: max(1, h)}, from.caps})
		}
		for j, s := range snaps {
			if s.t.Size() != s.size || capsText(s.t.Capabilities()) != s.caps || s.t.IsRawModeEnabled() {
				c.Failf("terminal %d is now %+v %s instead of %+v %s", j, s.t.Size(), capsText(s.t.Capabilities()), s.size, s.caps)
			}
		}
		c.Count("derived_terminals", 1)
	}
	if _, err := core.NewRawMode(nil); err == nil {
		c.Failf("NewRawMode(nil) succeeded")
	}
}
