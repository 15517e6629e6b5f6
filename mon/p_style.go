package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/style"

	"phoenixverif/fw"
	"phoenixverif/txt"
	"phoenixverif/vt"
)

func init() {
	var fixed []fw.Fixed
	for i := 0; i < 256; i++ {
		i := i
		fixed = append(fixed, fw.Fixed{Name: fmt.Sprintf("red-%d", i), Run: func(c *fw.Ctx) { p14sweep(c, i) }})
	}
	fw.Register(&fw.Prop{ID: "P14", Quick: 60000, Thorough: 600000, Case: p14, Fixed: fixed, Exhaust: true,
		Rule:   "styles with random colours, roles and capabilities (every one of the 16.7 million colours is rendered at 16, 256 and true colour in addition, as foreground and as background)",
		Assume: []string{"the 16 basic colours have the RGB values of the palette the module documents; entries 16-255 those of the xterm palette"},
		Need:   map[string]int64{"colors": 16000000, "renders": 50000}})
	fw.Register(&fw.Prop{ID: "P15", Quick: 250000, Thorough: 2500000, Case: p15,
		Rule:   "random content and style options, each rendered once",
		Assume: []string{"content without control characters other than line feeds and tabs, and complete CSI sequences; border characters one column wide; undisputed character widths"},
		Need:   map[string]int64{"blocks": 100000, "borders": 30000, "aligned": 20000, "limits": 5000, "nested": 20000, "tabs": 10000}})
	fw.Register(&fw.Prop{ID: "P16", Race: true, Quick: 12000, Thorough: 120000, Case: p16,
		Rule:   "theme manager histories under concurrent clients, and derivation trees of styles and themes",
		Assume: []string{"interleavings are those the Go scheduler produced; overlap is counted"},
		Need:   map[string]int64{"histories": 5000, "overlapping_ops": 5000, "derived": 50000}})
}

// ---- model of a style --------------------------------------------------------------------

type smod struct {
	fg, bg, bc             *[3]uint8
	border                 *[8]string // top bottom left right tl tr bl br
	top, right, bot, left  bool
	pad, mar               *[4]int // top right bottom left
	w, h                   *int
	minw, maxw, minh, maxh *int
	align                  bool
	ah, av                 int
	bold, ital, und, strk  bool
	cap                    int
	big                    bool
}

// conv calls a builder whose parameter type is an internal integer type.
func conv[T ~int](f func(T) style.Style, v int) style.Style { return f(T(v)) }

var borderPresets = []struct {
	b style.Border
	s [8]string
}{
	{style.NormalBorder, [8]string{"─", "─", "│", "│", "┌", "┐", "└", "┘"}},
	{style.RoundedBorder, [8]string{"─", "─", "│", "│", "╭", "╮", "╰", "╯"}},
	{style.ThickBorder, [8]string{"━", "━", "┃", "┃", "┏", "┓", "┗", "┛"}},
	{style.DoubleBorder, [8]string{"═", "═", "║", "║", "╔", "╗", "╚", "╝"}},
	{style.ASCIIBorder, [8]string{"-", "-", "|", "|", "+", "+", "+", "+"}},
}

func randColor(r *rand.Rand) (style.Color, [3]uint8) {
	switch r.IntN(6) {
	case 0:
		n := uint8(r.IntN(256))
		c := style.Color256(n)
		v := palette(int(n))
		return c, v
	case 1: // grays and near grays
		g := r.IntN(256)
		v := [3]uint8{clamp8(g + r.IntN(25) - 12), clamp8(g + r.IntN(25) - 12), clamp8(g + r.IntN(25) - 12)}
		return style.RGB(v[0], v[1], v[2]), v
	case 2:
		v := [3]uint8{uint8(r.IntN(256)), uint8(r.IntN(256)), uint8(r.IntN(256))}
		f := []string{"#%02x%02x%02x", "%02X%02X%02X", "%02x%02X%02x", "#%02X%02X%02X"}[r.IntN(4)]
		c, err := style.Hex(fmt.Sprintf(f, v[0], v[1], v[2]))
		if err != nil {
			panic(err)
		}
		return c, v
	}
	v := [3]uint8{uint8(r.IntN(256)), uint8(r.IntN(256)), uint8(r.IntN(256))}
	return style.RGB(v[0], v[1], v[2]), v
}

func clamp8(x int) uint8 { return uint8(max(0, min(255, x))) }

var p16base = [16][3]uint8{{0, 0, 0}, {128, 0, 0}, {0, 128, 0}, {128, 128, 0}, {0, 0, 128}, {128, 0, 128}, {0, 128, 128}, {192, 192, 192},
	{128, 128, 128}, {255, 0, 0}, {0, 255, 0}, {255, 255, 0}, {0, 0, 255}, {255, 0, 255}, {0, 255, 255}, {255, 255, 255}}

func palette(n int) [3]uint8 {
	switch {
	case n < 16:
		return p16base[n]
	case n < 232:
		l := [6]uint8{0, 95, 135, 175, 215, 255}
		return [3]uint8{l[(n-16)/36], l[(n-16)/6%6], l[(n-16)%6]}
	}
	g := uint8(8 + (n-232)*10)
	return [3]uint8{g, g, g}
}

func dist(a, b [3]uint8) int {
	d := 0
	for i := range a {
		x := int(a[i]) - int(b[i])
		d += x * x
	}
	return d
}

// near16 and near256: least squared distance to the palette.
func near16(c [3]uint8) int {
	best := 1 << 30
	for _, p := range p16base {
		best = min(best, dist(c, p))
	}
	return best
}

func near256(c [3]uint8) int {
	cube := 0
	for _, v := range c {
		b := 1 << 30
		for _, l := range [6]int{0, 95, 135, 175, 215, 255} {
			b = min(b, (int(v)-l)*(int(v)-l))
		}
		cube += b
	}
	best := cube
	for g := 8; g <= 238; g += 10 {
		best = min(best, dist(c, [3]uint8{uint8(g), uint8(g), uint8(g)}))
	}
	return best
}

// okColor tells why got does not show want at the capability, or "".
func okColor(got vt.Color, want *[3]uint8, cap int) string {
	if want == nil || cap == 0 {
		if got != 0 {
			return fmt.Sprintf("a colour (%x) although none is to be shown", uint32(got))
		}
		return ""
	}
	kind, v := int(got)&(0xff<<24), int(got)&0xffffff
	switch cap {
	case 1:
		if kind != vt.KBase || v > 15 {
			return fmt.Sprintf("colour %x is not one of the 16", uint32(got))
		}
		if d, n := dist(*want, p16base[v]), near16(*want); d != n {
			return fmt.Sprintf("basic colour %d for %v: squared distance %d, the nearest has %d", v, *want, d, n)
		}
	case 2:
		if kind != vt.KIdx || v < 16 {
			return fmt.Sprintf("colour %x is not an entry 16-255 of the 256-colour palette", uint32(got))
		}
		if d, n := dist(*want, palette(v)), near256(*want); d != n {
			mean := (int(want[0]) + int(want[1]) + int(want[2])) / 3
			grayish := true
			for _, x := range want {
				grayish = grayish && max(int(x)-mean, mean-int(x)) <= 10
			}
			if !(grayish && (mean < 8 && v == 16 || mean > 238 && v == 231)) {
				return fmt.Sprintf("palette entry %d for %v: squared distance %d, the nearest has %d", v, *want, d, n)
			}
		}
	case 3:
		if kind != vt.KRGB || v != int(want[0])<<16|int(want[1])<<8|int(want[2]) {
			return fmt.Sprintf("colour %x for %v", uint32(got), *want)
		}
	}
	return ""
}

func ip(v int) *int   { return &v }
func nn(v int) int    { return max(0, v) }
func pos(p *int) int  { return *p }
func opt(p *int) bool { return p != nil }

// step applies one random builder call to the style and its model.
func (m smod) step(r *rand.Rand, s style.Style) (style.Style, smod, string) {
	pad := func() [4]int {
		if m.pad != nil {
			return *m.pad
		}
		return [4]int{}
	}
	mar := func() [4]int {
		if m.mar != nil {
			return *m.mar
		}
		return [4]int{}
	}
	n := r.IntN(6)
	if r.IntN(8) == 0 {
		n = -r.IntN(5)
	}
	if m.big && r.IntN(3) > 0 {
		n = r.IntN(400)
	}
	b := r.IntN(3) > 0
	k := r.IntN(42)
	switch k {
	case 0:
		c, v := randColor(r)
		s, m.fg = s.Foreground(c), &v
	case 1:
		c, v := randColor(r)
		s, m.bg = s.Background(c), &v
	case 2, 3, 4:
		p := borderPresets[r.IntN(len(borderPresets))]
		bd, bs := p.b, p.s
		if r.IntN(2) == 0 {
			for i := range bs {
				bs[i] = []string{"*", "#", "─", "═", "e\u0301", "°", "~", "A", "Ж"}[r.IntN(9)]
			}
			bd = style.NewBorder(bs[0], bs[1], bs[2], bs[3], bs[4], bs[5], bs[6], bs[7])
		}
		s, m.border = s.Border(bd), &bs
		if !m.top && !m.bot && !m.left && !m.right {
			m.top, m.bot, m.left, m.right = true, true, true, true
		}
	case 5, 6:
		c, v := randColor(r)
		s, m.bc = s.BorderColor(c), &v
	case 7:
		s, m.top = s.BorderTop(b), b
	case 8:
		s, m.bot = s.BorderBottom(b), b
	case 9:
		s, m.left = s.BorderLeft(b), b
	case 10:
		s, m.right = s.BorderRight(b), b
	case 11:
		v := [4]int{r.IntN(5), r.IntN(5), r.IntN(5), r.IntN(5)}
		s, m.pad = s.Padding(style.NewPadding(v[0], v[1], v[2], v[3])), &v
	case 12:
		v := pad()
		v[0] = nn(n)
		s, m.pad = s.PaddingTop(n), &v
	case 13:
		v := pad()
		v[1] = nn(n)
		s, m.pad = s.PaddingRight(n), &v
	case 14:
		v := pad()
		v[2] = nn(n)
		s, m.pad = s.PaddingBottom(n), &v
	case 15:
		v := pad()
		v[3] = nn(n)
		s, m.pad = s.PaddingLeft(n), &v
	case 16:
		v := [4]int{nn(n), nn(n), nn(n), nn(n)}
		s, m.pad = s.PaddingAll(n), &v
	case 17:
		v := pad()
		v[1], v[3] = nn(n), nn(n)
		s, m.pad = s.PaddingHorizontal(n), &v
	case 18:
		v := pad()
		v[0], v[2] = nn(n), nn(n)
		s, m.pad = s.PaddingVertical(n), &v
	case 19:
		v := [4]int{nn(n), r.IntN(5), r.IntN(5), r.IntN(5)}
		s, m.mar = s.Margin(style.NewMargin(n, v[1], v[2], v[3])), &v
	case 20:
		v := mar()
		v[0] = nn(n)
		s, m.mar = s.MarginTop(n), &v
	case 21:
		v := mar()
		v[1] = nn(n)
		s, m.mar = s.MarginRight(n), &v
	case 22:
		v := mar()
		v[2] = nn(n)
		s, m.mar = s.MarginBottom(n), &v
	case 23:
		v := mar()
		v[3] = nn(n)
		s, m.mar = s.MarginLeft(n), &v
	case 24:
		v := [4]int{nn(n), nn(n), nn(n), nn(n)}
		s, m.mar = s.MarginAll(n), &v
	case 25:
		v := mar()
		v[1], v[3] = nn(n), nn(n)
		s, m.mar = s.MarginHorizontal(n), &v
	case 26:
		v := mar()
		v[0], v[2] = nn(n), nn(n)
		s, m.mar = s.MarginVertical(n), &v
	case 27:
		v := m.some(r, 30, 1200) - 2
		s, m.w = s.Width(v), ip(nn(v))
	case 28:
		v := m.some(r, 12, 250) - 1
		s, m.h = s.Height(v), ip(nn(v))
	case 29:
		v := m.some(r, 20, 400) - 2
		s, m.minw = s.MinWidth(v), ip(nn(v))
	case 30:
		v := m.some(r, 40, 3000)
		s, m.maxw = s.MaxWidth(v), ip(nn(v))
	case 31:
		v := m.some(r, 8, 100) - 1
		s, m.minh = s.MinHeight(v), ip(nn(v))
	case 32:
		v := m.some(r, 20, 1000)
		s, m.maxh = s.MaxHeight(v), ip(nn(v))
	case 33, 34:
		m.align, m.ah, m.av = true, r.IntN(3), r.IntN(3)
		s = s.Align(style.NewAlignment(style.HorizontalAlignment(m.ah), style.VerticalAlignment(m.av)))
	case 35:
		if !m.align {
			m.av = 0
		}
		m.align, m.ah = true, r.IntN(3)
		s = conv(s.AlignHorizontal, m.ah)
	case 36:
		if !m.align {
			m.ah = 0
		}
		m.align, m.av = true, r.IntN(3)
		s = conv(s.AlignVertical, m.av)
	case 37:
		s, m.bold = s.Bold(b), b
	case 38:
		s, m.ital = s.Italic(b), b
	case 39:
		s, m.und = s.Underline(b), b
	case 40:
		s, m.strk = s.Strikethrough(b), b
	case 41:
		m.cap = r.IntN(4)
		s = conv(s.TerminalCapability, m.cap)
	}
	return s, m, fmt.Sprintf("%d(%d,%v)", k, n, b)
}

// some is a number below lo, for a big block sometimes below hi.
func (m smod) some(r *rand.Rand, lo, hi int) int {
	if m.big && r.IntN(2) == 0 {
		return r.IntN(hi)
	}
	return r.IntN(lo)
}

func rgbOf(c style.Color, ok bool) *[3]uint8 {
	if !ok {
		return nil
	}
	r, g, b := c.RGB()
	return &[3]uint8{r, g, b}
}

// readStyle reconstructs the model from the style's getters.
func readStyle(s style.Style) smod {
	var m smod
	m.fg = rgbOf(s.GetForeground())
	m.bg = rgbOf(s.GetBackground())
	m.bc = rgbOf(s.GetBorderColor())
	if b, ok := s.GetBorder(); ok {
		m.border = &[8]string{b.Top, b.Bottom, b.Left, b.Right, b.TopLeft, b.TopRight, b.BottomLeft, b.BottomRight}
	}
	m.top, m.bot, m.left, m.right = s.GetBorderTop(), s.GetBorderBottom(), s.GetBorderLeft(), s.GetBorderRight()
	if p, ok := s.GetPadding(); ok {
		m.pad = &[4]int{p.Top(), p.Right(), p.Bottom(), p.Left()}
	}
	if p, ok := s.GetMargin(); ok {
		m.mar = &[4]int{p.Top(), p.Right(), p.Bottom(), p.Left()}
	}
	if z, ok := s.GetSize(); ok {
		o := func(v int, ok bool) *int {
			if ok {
				return &v
			}
			return nil
		}
		m.w, m.h = o(z.Width()), o(z.Height())
		m.minw, m.maxw, m.minh, m.maxh = o(z.MinWidth()), o(z.MaxWidth()), o(z.MinHeight()), o(z.MaxHeight())
	}
	if a, ok := s.GetAlignment(); ok {
		m.align, m.ah, m.av = true, int(a.Horizontal()), int(a.Vertical())
	}
	m.bold, m.ital, m.und, m.strk = s.GetBold(), s.GetItalic(), s.GetUnderline(), s.GetStrikethrough()
	m.cap = int(s.GetTerminalCapability())
	return m
}

func (m smod) text() string {
	var b strings.Builder
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Pointer {
			if f.IsNil() {
				continue
			}
			f = f.Elem()
		} else if f.IsZero() {
			continue
		}
		fmt.Fprintf(&b, "%s=%v ", v.Type().Field(i).Name, f)
	}
	return b.String()
}

// ---- P14 ---------------------------------------------------------------------------------

// sgrScan reads the SGR sequences before and after the text; ok is false if
// anything else is found.
func sgrScan(out, content string) (fg, bg vt.Color, seqs int, why string) {
	i := 0
	for i+1 < len(out) && out[i] == 0x1b && out[i+1] == '[' {
		j := i + 2
		var ps [8]int
		n, cur := 0, 0
		for j < len(out) && (out[j] >= '0' && out[j] <= '9' || out[j] == ';') {
			if out[j] == ';' {
				if n < 7 {
					ps[n] = cur
				}
				n++
				cur = 0
			} else {
				cur = cur*10 + int(out[j]-'0')
			}
			j++
		}
		if n < 8 {
			ps[n] = cur
		}
		n++
		if j >= len(out) || out[j] != 'm' || n > 8 {
			return 0, 0, seqs, "not a colour sequence"
		}
		seqs++
		p := ps[:n]
		for k := 0; k < len(p); k++ {
			v := p[k]
			var col vt.Color
			switch {
			case v == 0:
				fg, bg = 0, 0
				continue
			case v >= 30 && v <= 37:
				fg = vt.Color(vt.KBase | (v - 30))
				continue
			case v >= 90 && v <= 97:
				fg = vt.Color(vt.KBase | (v - 82))
				continue
			case v >= 40 && v <= 47:
				bg = vt.Color(vt.KBase | (v - 40))
				continue
			case v >= 100 && v <= 107:
				bg = vt.Color(vt.KBase | (v - 92))
				continue
			case (v == 38 || v == 48) && k+2 < len(p) && p[k+1] == 5 && p[k+2] < 256:
				col = vt.Color(vt.KIdx | p[k+2])
				k += 2
			case (v == 38 || v == 48) && k+4 < len(p) && p[k+1] == 2 && p[k+2]|p[k+3]|p[k+4] < 256:
				col = vt.Color(vt.KRGB | p[k+2]<<16 | p[k+3]<<8 | p[k+4])
				k += 4
			default:
				return 0, 0, seqs, fmt.Sprintf("unexpected parameter %d", v)
			}
			if v == 38 {
				fg = col
			} else {
				bg = col
			}
		}
		i = j + 1
	}
	if !strings.HasPrefix(out[i:], content) {
		return fg, bg, seqs, "the content does not follow the colours"
	}
	return fg, bg, seqs, ""
}

func p14sweep(c *fw.Ctx, red int) {
	for cap := 1; cap <= 3; cap++ {
		base := conv(style.New().TerminalCapability, cap)
		for gb := 0; gb < 65536; gb++ {
			f := [3]uint8{uint8(red), uint8(gb >> 8), uint8(gb)}
			b := [3]uint8{f[2] ^ 0x5a, f[0] + 77, f[1]}
			out := style.Render(base.Foreground(style.RGB(f[0], f[1], f[2])).Background(style.RGB(b[0], b[1], b[2])), "x")
			fg, bg, _, why := sgrScan(out, "x")
			if why == "" {
				if why = okColor(fg, &f, cap); why != "" {
					why = "foreground: " + why
				} else if why = okColor(bg, &b, cap); why != "" {
					why = "background: " + why
				}
			}
			if why != "" {
				c.Failf("foreground %v background %v at capability %d: %q: %s", f, b, cap, out, why)
			}
		}
	}
	c.Count("colors", 65536)
	c.Seen("red", red)
}

func p14(c *fw.Ctx) {
	r := c.R
	// colour constructors
	n := r.IntN(256)
	if cr, cg, cb := style.Color256(uint8(n)).RGB(); [3]uint8{cr, cg, cb} != palette(n) {
		c.Failf("Color256(%d) is %d,%d,%d", n, cr, cg, cb)
	}
	if n < 16 {
		if !style.Color16(uint8(n)).Equal(style.Color256(uint8(n))) {
			c.Failf("Color16(%d) differs from Color256", n)
		}
	}
	col, v := randColor(r)
	if x, y, z := col.RGB(); [3]uint8{x, y, z} != v {
		c.Failf("colour %v has components %d,%d,%d", v, x, y, z)
	}
	if h := col.Hex(); !strings.EqualFold(h, fmt.Sprintf("#%02x%02x%02x", v[0], v[1], v[2])) {
		c.Failf("colour %v has hex form %q", v, h)
	}
	p14hex(c)
	k := style.TerminalCapability(r.IntN(4))
	if name := []string{"NoColor", "ANSI16", "ANSI256", "TrueColor"}[k]; k.SupportsColor() != (k > 0) || k.Supports16Color() != (k >= 1) || k.Supports256Color() != (k >= 2) || k.SupportsTrueColor() != (k == 3) || k.String() != name {
		c.Failf("capability %s (%d) says %q, any %v, 16 %v, 256 %v, true colour %v", name, k, k, k.SupportsColor(), k.Supports16Color(), k.Supports256Color(), k.SupportsTrueColor())
	}

	s := style.New()
	if r.IntN(2) == 0 {
		s = phoenix.NewStyle()
	}
	m := smod{cap: 3}
	for i := r.IntN(14); i > 0; i-- {
		var ns style.Style
		var nm smod
		ns, nm, _ = m.step(r, s)
		if nm.w != nil || nm.h != nil || nm.minw != nil || nm.maxw != nil || nm.minh != nil || nm.maxh != nil {
			continue
		}
		s, m = ns, nm
	}
	if r.IntN(3) > 0 {
		co, v := randColor(r)
		s, m.fg = s.Foreground(co), &v
	}
	if r.IntN(2) > 0 {
		co, v := randColor(r)
		s, m.bg = s.Background(co), &v
	}
	if m.border == nil {
		s, m.border = s.Border(style.NormalBorder), &borderPresets[0].s
		if !m.top && !m.bot && !m.left && !m.right {
			m.top, m.bot, m.left, m.right = true, true, true, true
		}
	}
	m.cap = r.IntN(4)
	s = conv(s.TerminalCapability, m.cap)
	content := txt.String(r, txt.All, 1+r.IntN(8))
	out := style.Render(s, content)
	c.Tracef("style %s\ncontent %q\noutput %q", m.text(), content, out)
	t := interp(c, out)
	seen := map[vt.Color]bool{}
	isBorder := func(ch string) bool {
		for _, b := range m.border {
			if b == ch {
				return true
			}
		}
		return false
	}
	for y := range t.cells {
		for x, cell := range t.cells[y] {
			seen[cell.A.Fg], seen[cell.A.Bg] = true, true
			// every cell shows its role's colour or none
			why := okColor(cell.A.Fg, m.fg, m.cap)
			if why != "" && cell.A.Fg != 0 {
				if !isBorder(cell.S) || m.bc == nil {
					c.Failf("cell %d,%d %q: foreground: %s", x, y, cell.S, why)
				}
				if why := okColor(cell.A.Fg, m.bc, m.cap); why != "" {
					c.Failf("border cell %d,%d %q: %s", x, y, cell.S, why)
				}
			}
			if cell.A.Bg != 0 {
				if why := okColor(cell.A.Bg, m.bg, m.cap); why != "" {
					c.Failf("cell %d,%d %q: background: %s", x, y, cell.S, why)
				}
			}
		}
	}
	for col := range seen {
		c.Seen("shown", m.cap, col)
	}
	if m.cap == 0 && !m.bold && !m.ital && !m.und && !m.strk && strings.Contains(out, "\x1b") {
		c.Failf("escape sequences without colour or decoration: %q", out)
	}
	c.Count("renders", 1)
	c.Count([]string{"nocolor", "ansi16", "ansi256", "truecolor"}[m.cap], 1)
}

func p14hex(c *fw.Ctx) {
	r := c.R
	const digits = "0123456789abcdefABCDEF"
	n := r.IntN(9)
	b := make([]byte, n)
	valid := n == 3 || n == 6
	for i := range b {
		b[i] = digits[r.IntN(len(digits))]
	}
	if n > 0 && r.IntN(3) == 0 {
		b[r.IntN(n)] = "gG -+_xZ:/@`"[r.IntN(12)]
		valid = false
	}
	h := string(b)
	if r.IntN(2) == 0 {
		h = "#" + h
		if r.IntN(4) == 0 {
			h, valid = []string{"#", " ", "0x", "-"}[r.IntN(4)]+h, false
		}
	} else if r.IntN(6) == 0 {
		h, valid = h+[]string{"#", " ", "\n", "\x00"}[r.IntN(4)], false
	}
	col, err := style.Hex(h)
	if valid != (err == nil) {
		c.Failf("Hex(%q) error %v", h, err)
	}
	if err != nil {
		return
	}
	full := string(b)
	if n == 3 {
		full = string([]byte{b[0], b[0], b[1], b[1], b[2], b[2]})
	}
	if !strings.EqualFold(col.Hex(), "#"+full) {
		c.Failf("Hex(%q) is %s", h, col.Hex())
	}
	c.Count("hex", 1)
}

// ---- block interpretation ----------------------------------------------------------------

type blockT struct {
	lines []string
	width []int
	cells [][]vt.Cell // only cells covered by the line's text
	ends  []vt.Attr   // attributes active after each line
}

// interp reads a block of lines as a terminal shows it.
func interp(c *fw.Ctx, out string) *blockT {
	b := &blockT{lines: strings.Split(out, "\n")}
	w := 1
	for _, l := range b.lines {
		n := txt.VisWidth(l)
		b.width = append(b.width, n)
		w = max(w, n)
	}
	t := vt.New(w+1, len(b.lines))
	t.ONLCR = true
	for i, l := range b.lines {
		if i > 0 {
			t.Write([]byte("\n"))
		}
		t.Write([]byte(l))
		b.ends = append(b.ends, t.A)
	}
	if t.Pending() != "" || len(t.Unknown) > 0 {
		c.Failf("output has sequences a block must not have: %v %q\n%q", t.Unknown, t.Pending(), out)
	}
	snap := t.Snapshot()
	for y := range b.lines {
		b.cells = append(b.cells, snap[y][:b.width[y]])
	}
	return b
}

// ---- P15 ---------------------------------------------------------------------------------

type refCell struct {
	s string
	k byte  // c content, f fill inside the frame, b border, m margin
	n *nest // content that is already styled
}

// nest is the style of already styled content.
type nest struct {
	fg    *[3]uint8
	flags uint16
}

// richLine is a line of content with the parts that are already styled.
type richLine struct {
	plain string
	text  string // with escape sequences
	cells []refCell
}

func randRich(r *rand.Rand, cl txt.Class, n int, styled bool) richLine {
	var l richLine
	prev := ""
	for n > 0 {
		k := 1 + r.IntN(min(n, 5))
		n -= k
		var part string
		for {
			part = txt.String(r, cl, k)
			if prev == "" || !txt.Joins(prev, part) {
				break
			}
		}
		prev = part
		cells := refLine(part)
		l.plain += part
		if styled && r.IntN(2) == 0 {
			in := style.New()
			ne := &nest{}
			if r.IntN(3) > 0 {
				co, v := randColor(r)
				in, ne.fg = in.Foreground(co), &v
			}
			if ne.fg == nil || r.IntN(2) == 0 {
				in, ne.flags = in.Bold(true).Underline(true), vt.Bold|vt.Underline
			}
			for i := range cells {
				cells[i].n = ne
			}
			part = style.Render(in, part)
			if r.IntN(3) == 0 { // as other programs end their styles
				part = strings.TrimSuffix(part, "\x1b[0m") + []string{"\x1b[m", "\x1b[0;39m", "\x1b[00m", "\x1b[;m", "\x1b[0;22m"}[r.IntN(5)]
			}
			if r.IntN(3) == 0 {
				part = strings.Replace(part, "\x1b[", []string{"\x1b[0;", "\x1b[;"}[r.IntN(2)], 1)
			}
		}
		l.text += part
		l.cells = append(l.cells, cells...)
	}
	return l
}

// randTabs is a line of parts separated by tabs, each blank up to the next
// multiple of eight columns.
func randTabs(c *fw.Ctx, cl txt.Class, n int, styled bool) richLine {
	r := c.R
	l := randRich(r, cl, n, styled)
	for r.IntN(3) == 0 {
		blank := fill(8-txt.Width(l.plain)%8, 'c')
		next := randRich(r, cl, r.IntN(6), styled)
		l.text += "\t" + next.text
		l.plain += strings.Repeat(" ", len(blank)) + next.plain
		l.cells = append(append(l.cells, blank...), next.cells...)
		c.Count("tabs", 1)
	}
	return l
}

// cut keeps the cells of the clusters that fit into w columns.
func (l richLine) cut(w int) []refCell { return l.cells[:txt.Width(txt.Cut(l.plain, w))] }

func refLine(s string) []refCell {
	var out []refCell
	for _, cl := range txt.Split(s) {
		out = append(out, refCell{s: cl, k: 'c'})
		if txt.Width(cl) == 2 {
			out = append(out, refCell{k: 'c'})
		}
	}
	return out
}

func fill(n int, k byte) []refCell {
	out := make([]refCell, n)
	for i := range out {
		out[i] = refCell{s: " ", k: k}
	}
	return out
}

func cat(a ...[]refCell) []refCell {
	var out []refCell
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

func maxLen(ls [][]refCell) int {
	w := 0
	for _, l := range ls {
		w = max(w, len(l))
	}
	return w
}

func equal(ls [][]refCell, k byte) [][]refCell {
	w := maxLen(ls)
	for i, l := range ls {
		ls[i] = cat(l, fill(w-len(l), k))
	}
	return ls
}

func spaced(ls [][]refCell, sp [4]int, k byte) [][]refCell {
	ls = equal(ls, k)
	w := maxLen(ls) + sp[1] + sp[3]
	var out [][]refCell
	for i := 0; i < sp[0]; i++ {
		out = append(out, fill(w, k))
	}
	for _, l := range ls {
		out = append(out, cat(fill(sp[3], k), l, fill(sp[1], k)))
	}
	for i := 0; i < sp[2]; i++ {
		out = append(out, fill(w, k))
	}
	return out
}

// natural is the size the limits are compared with.
func (m smod) natural(lines []richLine) (w, h int) {
	for _, l := range lines {
		w = max(w, len(l.cells))
	}
	h = len(lines)
	for _, p := range []*[4]int{m.pad, m.mar} {
		if p != nil {
			w += p[1] + p[3]
			h += p[0] + p[2]
		}
	}
	for i, b := range []bool{m.left, m.right, m.top, m.bot} {
		if b && m.border != nil {
			if i < 2 {
				w++
			} else {
				h++
			}
		}
	}
	return w, h
}

// expect is the block the style describes.
func (m smod) expect(lines []richLine) (ref [][]refCell, rect bool) {
	tw, th := 0, 0
	if m.align && m.w != nil {
		tw = *m.w
	}
	if m.align && m.h != nil {
		th = *m.h
	}
	for _, l := range lines {
		if tw == 0 {
			ref = append(ref, l.cells)
			continue
		}
		cl := l.cut(tw)
		free := tw - len(cl)
		left := [3]int{0, (free + 1) / 2, free}[m.ah]
		ref = append(ref, cat(fill(left, 'f'), cl, fill(free-left, 'f')))
	}
	rect = tw > 0
	if th > 0 {
		if len(ref) > th {
			ref = ref[:th]
		}
		free := th - len(ref)
		top := [3]int{0, (free + 1) / 2, free}[m.av]
		w := maxLen(ref)
		var out [][]refCell
		for i := 0; i < th; i++ {
			if i < top || i >= top+len(ref) {
				out = append(out, fill(w, 'f'))
			} else {
				out = append(out, ref[i-top])
			}
		}
		ref = out
	}
	if m.pad != nil {
		ref = spaced(ref, *m.pad, 'f')
		rect = true
	}
	if m.border != nil && (m.top || m.bot || m.left || m.right) {
		ref = equal(ref, 'f')
		rect = true
		w := maxLen(ref)
		b := m.border
		one := func(on bool, s string) []refCell {
			if on {
				return []refCell{{s: s, k: 'b'}}
			}
			return nil
		}
		edge := func(l, e, r string) []refCell {
			mid := make([]refCell, w)
			for i := range mid {
				mid[i] = refCell{s: e, k: 'b'}
			}
			return cat(one(m.left, l), mid, one(m.right, r))
		}
		var out [][]refCell
		if m.top {
			out = append(out, edge(b[4], b[0], b[5]))
		}
		for _, l := range ref {
			out = append(out, cat(one(m.left, b[2]), l, one(m.right, b[3])))
		}
		if m.bot {
			out = append(out, edge(b[6], b[1], b[7]))
		}
		ref = out
	}
	if m.mar != nil {
		ref = spaced(ref, *m.mar, 'm')
		rect = true
	}
	return ref, rect
}

func p15(c *fw.Ctx) {
	r := c.R
	cl := txt.Classes(r, txt.All)
	var lines []richLine
	styled, tabs := r.IntN(4) == 0, r.IntN(6) == 0
	var texts []string
	for i := 1 + r.IntN(4); i > 0; i-- {
		n := r.IntN(14)
		if r.IntN(6) == 0 && len(lines) > 0 {
			n = 0
		} else if n == 0 {
			n = 1
		}
		if r.IntN(1000) == 0 {
			n = r.IntN(1500)
		}
		if tabs {
			lines = append(lines, randTabs(c, cl, n, styled))
		} else {
			lines = append(lines, randRich(r, cl, n, styled))
		}
		texts = append(texts, lines[len(lines)-1].text)
	}
	if styled {
		c.Count("nested", 1)
	}
	s, m := style.New(), smod{cap: 3}
	if m.big = c.Rare(400); m.big {
		c.Count("big", 1)
	}
	limits := r.IntN(6) == 0
	var hist []string
	for i := r.IntN(16); i > 0; i-- {
		ns, nm, step := m.step(r, s)
		lim := nm.minw != nil || nm.maxw != nil || nm.minh != nil || nm.maxh != nil
		if lim && !limits || (nm.w != nil || nm.h != nil) && limits {
			continue
		}
		s, m = ns, nm
		hist = append(hist, step)
	}
	if m.align && m.w == nil && !limits && r.IntN(3) > 0 {
		v := m.some(r, 24, 1200)
		s, m.w = s.Width(v), &v
	}
	content := strings.Join(texts, "\n")
	sides := m.top || m.bot || m.left || m.right
	w, h := m.natural(lines)
	if limits { // limits close to the size
		near := func(v int) int { return max(0, v+r.IntN(3)-1) }
		for i := r.IntN(3); i > 0; i-- {
			switch r.IntN(4) {
			case 0:
				v := near(w)
				s, m.minw = s.MinWidth(v), &v
			case 1:
				v := near(w)
				s, m.maxw = s.MaxWidth(v), &v
			case 2:
				v := near(h)
				s, m.minh = s.MinHeight(v), &v
			case 3:
				v := near(h)
				s, m.maxh = s.MaxHeight(v), &v
			}
		}
	}
	out := style.Render(s, content)
	c.Tracef("style %s\nsteps %v\ncontent %q\noutput %q", m.text(), hist, content, out)
	c.Count("blocks", 1)
	c.Seen(m.text(), content)
	c.Sample(fmt.Sprintf("%s <- %q", m.text(), content))

	if sides && m.border == nil {
		// border sides without a border: an invalid style, the content is returned as it is
		if out != content {
			c.Failf("an invalid style changed the content to %q", out)
		}
		return
	}
	if limits {
		c.Count("limits", 1)
		if m.minw != nil && w < *m.minw || m.maxw != nil && w > *m.maxw || m.minh != nil && h < *m.minh || m.maxh != nil && h > *m.maxh {
			c.Count("limit_violations", 1)
			if out != content {
				c.Failf("size %dx%d is outside the limits, yet the content was rendered as %q", w, h, out)
			}
			return
		}
	}
	want, rect := m.expect(lines)
	if m.align && (m.w != nil && *m.w > 0 || m.h != nil && *m.h > 0) {
		c.Count("aligned", 1)
	}
	if sides {
		c.Count("borders", 1)
	}
	b := interp(c, out)
	if len(b.lines) != len(want) {
		c.Failf("%d lines, expected %d\n%s", len(b.lines), len(want), refText(want))
	}
	for y, a := range b.ends {
		if a != (vt.Attr{}) {
			c.Failf("attributes %v are still active after line %d", a, y)
		}
	}
	flags := uint16(0)
	for i, on := range []bool{m.bold, m.ital, m.und, m.strk} {
		if on {
			flags |= []uint16{vt.Bold, vt.Italic, vt.Underline, vt.Strike}[i]
		}
	}
	if rect {
		for y := range b.width {
			if b.width[y] != b.width[0] {
				c.Failf("line %d is %d columns wide, line 0 %d\n%s", y, b.width[y], b.width[0], refText(want))
			}
		}
	}
	for y, l := range want {
		if b.width[y] != len(l) {
			c.Failf("line %d is %d columns wide, expected %d\n%s", y, b.width[y], len(l), refText(want))
		}
		for x, k := range l {
			g := b.cells[y][x]
			if g.S != k.s {
				c.Failf("line %d column %d shows %q, expected %q (%c)\n%s", y, x, g.S, k.s, k.k, refText(want))
			}
			switch k.k {
			case 'c':
				wantFg, fgCap, wantFlags := m.fg, m.cap, flags
				if k.n != nil {
					wantFlags |= k.n.flags
					if k.n.fg != nil {
						wantFg, fgCap = k.n.fg, 3
					}
				}
				if why := okColor(g.A.Fg, wantFg, fgCap); why != "" {
					c.Failf("line %d column %d %q: foreground %s", y, x, g.S, why)
				}
				if why := okColor(g.A.Bg, m.bg, m.cap); why != "" {
					c.Failf("line %d column %d %q: background %s", y, x, g.S, why)
				}
				if g.A.Flags != wantFlags {
					c.Failf("line %d column %d %q has attributes %x, expected %x", y, x, g.S, g.A.Flags, wantFlags)
				}
			case 'f':
				if why := okColor(g.A.Bg, m.bg, m.cap); why != "" {
					c.Failf("line %d column %d (fill): background %s", y, x, why)
				}
			case 'b':
				wantFg := m.fg
				if m.bc != nil {
					wantFg = m.bc
				}
				if why := okColor(g.A.Fg, wantFg, m.cap); why != "" {
					c.Failf("line %d column %d %q (border): foreground %s", y, x, g.S, why)
				}
				if why := okColor(g.A.Bg, m.bg, m.cap); why != "" {
					c.Failf("line %d column %d %q (border): background %s", y, x, g.S, why)
				}
			}
		}
	}
}

func refText(ls [][]refCell) string {
	var b strings.Builder
	b.WriteString("expected:\n")
	for _, l := range ls {
		b.WriteString("|")
		for _, c := range l {
			if c.s == " " {
				b.WriteByte("cf.m"[strings.IndexByte("cfbm", c.k)])
				continue
			}
			b.WriteString(c.s)
		}
		b.WriteString("|\n")
	}
	return b.String()
}

// ---- P16 ---------------------------------------------------------------------------------

type themeVal struct {
	name string
	c    style.ColorPalette
	b    style.BorderStyles
	s    style.SpacingScale
	t    style.Typography
}

func valOf(t *style.Theme) themeVal {
	return themeVal{t.Name(), t.Colors(), t.Borders(), t.Spacing(), t.Typography()}
}

func (v themeVal) theme() *style.Theme { return style.NewTheme(v.name, v.c, v.b, v.s, v.t) }

func overlay(dst, src reflect.Value) {
	for i := 0; i < dst.NumField(); i++ {
		if !src.Field(i).IsZero() {
			if dst.Field(i).Kind() == reflect.Int && src.Field(i).Int() <= 0 {
				continue
			}
			dst.Field(i).Set(src.Field(i))
		}
	}
}

func (v themeVal) merge(o themeVal) themeVal {
	n := v
	n.name = o.name
	overlay(reflect.ValueOf(&n.c).Elem(), reflect.ValueOf(o.c))
	overlay(reflect.ValueOf(&n.b).Elem(), reflect.ValueOf(o.b))
	overlay(reflect.ValueOf(&n.s).Elem(), reflect.ValueOf(o.s))
	overlay(reflect.ValueOf(&n.t).Elem(), reflect.ValueOf(o.t))
	return n
}

// randTheme: every field that is set carries the tag, so mixtures show.
func randTheme(r *rand.Rand, tag int, full bool) themeVal {
	v := themeVal{name: fmt.Sprintf("theme-%d", tag)}
	col := func() style.Color {
		if !full && r.IntN(3) > 0 {
			return style.Color{}
		}
		return style.RGB(uint8(tag), uint8(tag>>8), uint8(1+r.IntN(255)))
	}
	for _, p := range []any{&v.c, &v.t} {
		rv := reflect.ValueOf(p).Elem()
		for i := 0; i < rv.NumField(); i++ {
			rv.Field(i).Set(reflect.ValueOf(col()))
		}
	}
	rv := reflect.ValueOf(&v.b).Elem()
	for i := 0; i < rv.NumField(); i++ {
		if full || r.IntN(3) == 0 {
			b := style.NewBorder(fmt.Sprint(tag), "-", "|", "|", "a", "b", "c", "d")
			if r.IntN(4) == 0 { // only one part is not empty
				b = style.Border{}
				reflect.ValueOf(&b).Elem().Field(r.IntN(8)).SetString("x")
			}
			rv.Field(i).Set(reflect.ValueOf(b))
		}
	}
	sp := reflect.ValueOf(&v.s).Elem()
	for i := 0; i < sp.NumField(); i++ {
		if full || r.IntN(3) == 0 {
			sp.Field(i).SetInt(int64(tag*8 + i + 1))
		}
	}
	return v
}

var presetNames = []string{"default", "dark", "light", "highcontrast"}

func presetVal(i int) themeVal {
	return valOf([]func() *style.Theme{style.DefaultTheme, style.DarkTheme, style.LightTheme, style.HighContrastTheme}[i]())
}

type thOp struct {
	kind     int // 0 current 1 set 2 preset 3 merge 4 reset 5 unknown preset 6 set nil
	arg      themeVal
	preset   string
	pi       int
	th       *style.Theme
	got      themeVal // current, previous
	ok       bool
	inv, res int64
}

func (o *thOp) apply(s themeVal) (themeVal, bool) {
	switch o.kind {
	case 0, 6:
		return s, o.got == s
	case 1:
		return o.arg, o.got == s
	case 2:
		return presetVal(o.pi), o.ok
	case 3:
		return s.merge(o.arg), true
	case 4:
		return presetVal(0), true
	case 5:
		return s, !o.ok
	}
	return s, false
}

func (o *thOp) String() string {
	n := []string{"Current", "SetTheme", "SetPreset", "MergeTheme", "Reset", "SetPreset(unknown)", "SetTheme(nil)"}[o.kind]
	a := o.arg.name
	if o.kind == 2 || o.kind == 5 {
		a = o.preset
	}
	return fmt.Sprintf("[%d,%d] %s(%s) -> %s %v", o.inv, o.res, n, a, o.got.name, o.ok)
}

// linearizable: depth-first search over the orders that respect real time.
func linearizable(init themeVal, ops []*thOp) bool {
	n := len(ops)
	type key struct {
		done uint32
		st   themeVal
	}
	seen := map[key]bool{}
	var rec func(done uint32, st themeVal) bool
	rec = func(done uint32, st themeVal) bool {
		if done == 1<<n-1 {
			return true
		}
		k := key{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int64(1 << 62)
		for i, o := range ops {
			if done&(1<<i) == 0 {
				first = min(first, o.res)
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 || o.inv > first {
				continue
			}
			if ns, ok := o.apply(st); ok && rec(done|1<<i, ns) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

func p16(c *fw.Ctx) {
	switch c.N % 3 {
	case 0:
		p16lin(c)
	case 1:
		p16bulk(c)
	default:
		p16derive(c)
	}
}

func randCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.IntN(2) == 0 && b[i] >= 'a' {
			b[i] -= 32
		}
	}
	return string(b)
}

func p16lin(c *fw.Ctx) {
	r := c.R
	for round := 0; round < 6; round++ {
		tag := 1
		init := randTheme(r, 0xfff0, true)
		var tm *style.ThemeManager
		if r.IntN(5) == 0 {
			tm, init = style.NewThemeManager(nil), presetVal(0)
		} else {
			tm = style.NewThemeManager(init.theme())
		}
		g := 2 + r.IntN(3)
		per := 1 + r.IntN(12/g)
		plan := make([][]*thOp, g)
		var all []*thOp
		for i := range plan {
			for j := 0; j < per; j++ {
				o := &thOp{kind: []int{0, 0, 0, 1, 1, 2, 3, 3, 3, 4, 5, 6}[r.IntN(12)]}
				tag++
				switch o.kind {
				case 1:
					o.arg = randTheme(r, tag, r.IntN(2) == 0)
					o.th = o.arg.theme()
				case 3:
					o.arg = randTheme(r, tag, false)
					o.th = o.arg.theme()
				case 2:
					o.pi = r.IntN(4)
					o.preset = randCase(r, presetNames[o.pi])
				case 5:
					o.preset = []string{"", "darker", "Défault", "high contrast", "lights"}[r.IntN(5)]
				}
				plan[i] = append(plan[i], o)
				all = append(all, o)
			}
		}
		var clock atomic.Int64
		var ready, gate atomic.Int32
		var wg sync.WaitGroup
		for i := range plan {
			wg.Add(1)
			spin := r.IntN(3)
			go func() {
				defer wg.Done()
				ready.Add(1)
				for gate.Load() == 0 {
					runtime.Gosched()
				}
				for _, o := range plan[i] {
					for k := 0; k < spin; k++ {
						runtime.Gosched()
					}
					o.inv = clock.Add(1)
					switch o.kind {
					case 0:
						o.got = valOf(tm.Current())
					case 1:
						o.got = valOf(tm.SetTheme(o.th))
					case 2, 5:
						o.ok = tm.SetPreset(o.preset)
					case 3:
						tm.MergeTheme(o.th)
					case 4:
						tm.Reset()
					case 6:
						o.got = valOf(tm.SetTheme(nil))
					}
					o.res = clock.Add(1)
				}
			}()
		}
		for ready.Load() < int32(g) {
			runtime.Gosched()
		}
		gate.Store(1)
		wg.Wait()
		last := &thOp{kind: 0, inv: clock.Add(1), got: valOf(tm.Current())}
		last.res = clock.Add(1)
		all = append(all, last)
		over := 0
		for i, a := range all {
			for _, b := range all[:i] {
				if a.inv < b.res && b.inv < a.res {
					over++
				}
			}
		}
		c.Count("overlapping_ops", over)
		c.Count("histories", 1)
		var hist []string
		for _, o := range all {
			hist = append(hist, o.String())
		}
		c.Seen(strings.Join(hist, "\n"))
		if !linearizable(init, all) {
			c.Failf("no order of the calls explains what they returned (initial %s):\n%s", init.name, strings.Join(hist, "\n"))
		}
		for _, o := range all { // arguments are not changed
			if o.th != nil && valOf(o.th) != o.arg {
				c.Failf("the theme passed to %v was changed", o)
			}
		}
		if round == 0 {
			c.Sample(strings.Join(hist, "; "))
		}
	}
}

// p16bulk: many concurrent merges of disjoint parts, none may be lost; and
// exchanges, whose results and the final theme must be a permutation of the
// initial theme and the arguments.
func p16bulk(c *fw.Ctx) {
	r := c.R
	if r.IntN(2) == 0 {
		base := randTheme(r, 0xffff, true)
		tm := style.NewThemeManager(base.theme())
		var parts []themeVal
		for i := 0; i < 13; i++ {
			v := themeVal{name: "m"}
			reflect.ValueOf(&v.c).Elem().Field(i).Set(reflect.ValueOf(style.RGB(uint8(i+1), 1, 1)))
			parts = append(parts, v)
		}
		for i := 0; i < 5; i++ {
			v := themeVal{name: "m"}
			reflect.ValueOf(&v.b).Elem().Field(i).Set(reflect.ValueOf(style.NewBorder(fmt.Sprint(i), "", "", "", "", "", "", "")))
			parts = append(parts, v)
			w := themeVal{name: "m"}
			reflect.ValueOf(&w.s).Elem().Field(i).SetInt(int64(i + 1))
			parts = append(parts, w)
		}
		for i := 0; i < 4; i++ {
			v := themeVal{name: "m"}
			reflect.ValueOf(&v.t).Elem().Field(i).Set(reflect.ValueOf(style.RGB(1, uint8(i+1), 1)))
			parts = append(parts, v)
		}
		want := base
		for _, p := range parts {
			want = want.merge(p)
		}
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		var wg sync.WaitGroup
		var gate atomic.Int32
		g := 2 + r.IntN(7)
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for gate.Load() == 0 {
					runtime.Gosched()
				}
				for k := i; k < len(parts); k += g {
					tm.MergeTheme(parts[k].theme())
					if k%3 == 0 {
						_ = valOf(tm.Current())
					}
				}
			}()
		}
		gate.Store(1)
		wg.Wait()
		if got := valOf(tm.Current()); got != want {
			c.Failf("concurrent merges of disjoint parts gave\n%+v\nexpected\n%+v", got, want)
		}
		c.Count("merge_storms", 1)
		return
	}
	tm := style.NewThemeManager(themeVal{name: "0"}.theme())
	const per = 25
	g := 2 + r.IntN(7)
	var mu sync.Mutex
	seen := map[string]int{}
	var wg sync.WaitGroup
	var gate atomic.Int32
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for gate.Load() == 0 {
				runtime.Gosched()
			}
			var mine []string
			for k := 0; k < per; k++ {
				mine = append(mine, tm.SetTheme(themeVal{name: fmt.Sprint(1 + i*per + k)}.theme()).Name())
			}
			mu.Lock()
			for _, n := range mine {
				seen[n]++
			}
			mu.Unlock()
		}()
	}
	gate.Store(1)
	wg.Wait()
	seen[tm.Current().Name()]++
	for i := 0; i <= g*per; i++ {
		if seen[fmt.Sprint(i)] != 1 {
			c.Failf("theme %d of %d was returned %d times by the exchanges", i, g*per, seen[fmt.Sprint(i)])
		}
	}
	c.Count("exchange_storms", 1)
}

// p16derive: trees of derived styles and themes; deriving never changes what it
// started from, and concurrent rendering of shared styles agrees.
func p16derive(c *fw.Ctx) {
	r := c.R
	type node struct {
		s   style.Style
		m   smod
		out string
	}
	content := txt.String(r, txt.All, 1+r.IntN(6)) + "\n" + txt.String(r, txt.Plain, r.IntN(6))
	nodes := []node{{s: style.New(), m: smod{cap: 3}}}
	nodes[0].out = style.Render(nodes[0].s, content)
	for i := 0; i < 25; i++ {
		p := nodes[r.IntN(len(nodes))]
		var n node
		var step string
		n.s, n.m, step = p.m.step(r, p.s)
		c.Tracef("%d <- %s", len(nodes), step)
		n.out = style.Render(n.s, content)
		nodes = append(nodes, n)
	}
	check := func() {
		for i, n := range nodes {
			want := n.m
			if want.border == nil { // sides are reported only together with a border
				want.top, want.bot, want.left, want.right = false, false, false, false
			}
			if got := readStyle(n.s); got.text() != want.text() {
				c.Failf("style %d is %s, expected %s", i, got.text(), want.text())
			}
		}
	}
	check()
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			lr := rand.New(rand.NewPCG(seed, 1))
			for i := range nodes {
				n := nodes[(i+g*7)%len(nodes)]
				if out := style.Render(n.s, content); out != n.out {
					c.Notef("a style rendered %q before and %q now", n.out, out)
				}
				n.m.step(lr, n.s)
			}
		}()
	}
	wg.Wait()
	check()
	c.Count("derived", len(nodes))

	// themes
	type tnode struct {
		t *style.Theme
		v themeVal
	}
	ts := []tnode{}
	for i := 0; i < 2; i++ {
		v := randTheme(r, i+1, i == 0)
		ts = append(ts, tnode{v.theme(), v})
	}
	for i := 0; i < 4; i++ {
		v := presetVal(i)
		t := style.ThemeByName(randCase(r, presetNames[i]))
		if t == nil || valOf(t) != v || valOf(style.AllThemes()[i]) != v {
			c.Failf("preset %s has different values by name and by constructor", presetNames[i])
		}
		if strings.ToLower(t.Name()) != presetNames[i] {
			c.Failf("preset %s is named %q", presetNames[i], t.Name())
		}
		ts = append(ts, tnode{t, v})
	}
	tm := style.NewThemeManager(nil)
	for _, n := range tm.AvailablePresets() {
		if !tm.SetPreset(n) || tm.Current().Name() != n {
			c.Failf("available preset %q cannot be set", n)
		}
	}
	for i := 0; i < 20; i++ {
		p := ts[r.IntN(len(ts))]
		o := randTheme(r, 10+i, false)
		var n tnode
		n.v = p.v
		switch r.IntN(7) {
		case 0:
			n.t, n.v.c = p.t.WithColors(o.c), o.c
		case 1:
			n.t, n.v.b = p.t.WithBorders(o.b), o.b
		case 2:
			n.t, n.v.s = p.t.WithSpacing(o.s), o.s
		case 3:
			n.t, n.v.t = p.t.WithTypography(o.t), o.t
		case 4:
			n.t, n.v.name = p.t.WithName(o.name), o.name
		default:
			q := ts[r.IntN(len(ts))]
			if r.IntN(2) == 0 {
				q = tnode{o.theme(), o}
			}
			n.t, n.v = p.t.Merge(q.t), p.v.merge(q.v)
		}
		ts = append(ts, n)
	}
	for i, n := range ts {
		if valOf(n.t) != n.v {
			c.Failf("theme %d is\n%+v\nexpected\n%+v", i, valOf(n.t), n.v)
		}
	}
	c.Count("derived", len(ts))
}
