// Package vt is a small conforming terminal emulator: styled cell grid, wide
// characters, deferred wrap, erase/cursor/scroll operations, SGR, alternate
// screen and private modes. It is the oracle for everything that writes
// escape sequences.
package vt

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"phoenixverif/txt"
)

// Color: 0 default; 1<<24|idx indexed; 2<<24|rgb true colour; basic colours are
// indexed 0..15 with Kind 3 so that 16-colour codes can be told from 256 ones.
type Color uint32

const (
	KIdx  = 1 << 24
	KRGB  = 2 << 24
	KBase = 3 << 24
)

// Attr is the rendition of a cell.
type Attr struct {
	Fg, Bg Color
	Flags  uint16
	Link   string // target of the hyperlink (OSC 8)
}

const (
	Bold = 1 << iota
	Dim
	Italic
	Underline
	Blink
	Reverse
	Hidden
	Strike
)

func (a Attr) String() string {
	s := fmt.Sprintf("fg=%x bg=%x fl=%x", uint32(a.Fg), uint32(a.Bg), a.Flags)
	if a.Link != "" {
		s += " link=" + a.Link
	}
	return s
}

// Cell of the grid. W: 1, 2 or 0 for the right half of a wide character.
type Cell struct {
	S string
	W int
	A Attr
}

var blank = Cell{S: " ", W: 1}

type screen struct {
	cells  [][]Cell
	x, y   int
	wrap   bool // pending wrap
	sx, sy int
	sa     Attr
}

// Term is the terminal.
type Term struct {
	W, H        int
	main, alt   *screen
	s           *screen
	A           Attr
	Modes       map[string]bool // private modes set ("25" starts true)
	ModeLog     []string        // every private mode change in order, "+1049"/"-25"
	Scrolled    int             // lines scrolled off the top of the main screen
	ScrollAny   int             // lines scrolled in any way
	Back        [][]Cell        // scrolled-off lines of the main screen
	Unknown     []string        // sequences not understood
	OSC         []string        // complete OSC strings
	Bells       int
	ONLCR       bool
	Title       string
	buf         []byte
	lastX       int // position of the last printed cluster, -1 if none
	lastY       int
	Printed     int // printable clusters written
	MovesEsc    int // CSI sequences handled
	WroteAt     map[[2]int]int
	CursorStyle string
	Wraps       int // automatic line wraps performed
	Clipped     int // cursor positions outside the screen requested
	Erases      int
}

func newScreen(w, h int) *screen {
	s := &screen{}
	s.cells = make([][]Cell, h)
	for i := range s.cells {
		s.cells[i] = blankLine(w, Attr{})
	}
	return s
}

func blankLine(w int, a Attr) []Cell {
	l := make([]Cell, w)
	for i := range l {
		l[i] = Cell{S: " ", W: 1, A: Attr{Bg: a.Bg}}
	}
	return l
}

// New makes a w×h terminal.
func New(w, h int) *Term {
	t := &Term{W: w, H: h, main: newScreen(w, h), alt: newScreen(w, h), Modes: map[string]bool{"25": true, "7": true}, lastX: -1}
	t.s = t.main
	return t
}

// Alt tells whether the alternate screen is shown.
func (t *Term) Alt() bool { return t.s == t.alt }

// Cursor position.
func (t *Term) Cursor() (x, y int) { return t.s.x, t.s.y }

// PendingWrap reports deferred wrap.
func (t *Term) PendingWrap() bool { return t.s.wrap }

// SetCursor places the cursor (test setup).
func (t *Term) SetCursor(x, y int) { t.s.x, t.s.y, t.s.wrap = x, y, false }

// CellAt returns a cell of the visible screen.
func (t *Term) CellAt(x, y int) Cell { return t.s.cells[y][x] }

// Line returns the text of a row, right-trimmed of unstyled blanks if trim.
func (t *Term) Line(y int) string {
	var b strings.Builder
	for _, c := range t.s.cells[y] {
		if c.W > 0 {
			b.WriteString(c.S)
		}
	}
	return strings.TrimRight(b.String(), " ")
}

// Dump shows the screen text.
func (t *Term) Dump() string {
	var b strings.Builder
	for y := 0; y < t.H; y++ {
		fmt.Fprintf(&b, "%2d|%s|\n", y, t.Line(y))
	}
	fmt.Fprintf(&b, "cursor %d,%d wrap=%v alt=%v", t.s.x, t.s.y, t.s.wrap, t.Alt())
	return b.String()
}

// ResetCells marks every cell with a sentinel (to detect untouched cells).
func (t *Term) ResetCells(s string) {
	for y := range t.s.cells {
		for x := range t.s.cells[y] {
			t.s.cells[y][x] = Cell{S: s, W: 1}
		}
	}
}

// SetCell for test setup.
func (t *Term) SetCell(x, y int, c Cell) { t.s.cells[y][x] = c }

// Resize changes the size keeping top-left content (no reflow); the cursor is clamped.
func (t *Term) Resize(w, h int) {
	for _, s := range []*screen{t.main, t.alt} {
		old := s.cells
		// rows are dropped from the top if the cursor would fall off
		drop := 0
		if s.y >= h {
			drop = s.y - h + 1
			if s == t.main {
				t.Scrolled += drop
				t.Back = append(t.Back, old[:drop]...)
			}
		}
		n := newScreen(w, h)
		for y := 0; y < h && y+drop < len(old); y++ {
			for x := 0; x < w && x < len(old[y+drop]); x++ {
				n.cells[y][x] = old[y+drop][x]
			}
			if w > 0 && n.cells[y][w-1].W == 2 {
				n.cells[y][w-1] = blank
			}
		}
		s.cells = n.cells
		s.y -= drop
		s.x = min(s.x, w-1)
		s.wrap = false
	}
	t.W, t.H = w, h
}

// Write implements io.Writer.
func (t *Term) Write(p []byte) (int, error) {
	t.buf = append(t.buf, p...)
	for len(t.buf) > 0 {
		n := t.step(t.buf)
		if n == 0 {
			break
		}
		t.buf = t.buf[n:]
	}
	return len(p), nil
}

// Pending returns bytes of an incomplete sequence.
func (t *Term) Pending() string { return string(t.buf) }

func (t *Term) step(b []byte) int {
	c := b[0]
	switch {
	case c == 0x1b:
		return t.esc(b)
	case c < 0x20 || c == 0x7f:
		t.ctl(c)
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if r == utf8.RuneError && n == 1 {
		t.Unknown = append(t.Unknown, fmt.Sprintf("invalid utf8 %q", b[0]))
	}
	t.print(r)
	return n
}

func (t *Term) ctl(c byte) {
	s := t.s
	switch c {
	case '\r':
		s.x, s.wrap = 0, false
	case '\n', 0x0b, 0x0c:
		t.lf()
		if t.ONLCR {
			s.x = 0
		}
	case '\b':
		if s.x > 0 {
			s.x--
		}
		s.wrap = false
	case '\t':
		s.x = min((s.x/8+1)*8, t.W-1)
	case 7:
		t.Bells++
	default:
		t.Unknown = append(t.Unknown, fmt.Sprintf("control %#x", c))
	}
	t.lastX = -1
}

func (t *Term) lf() {
	s := t.s
	if s.y == t.H-1 {
		t.scrollUp(1)
	} else {
		s.y++
	}
	s.wrap = false
}

func (t *Term) scrollUp(n int) {
	s := t.s
	for ; n > 0; n-- {
		t.ScrollAny++
		if s == t.main {
			t.Scrolled++
			t.Back = append(t.Back, s.cells[0])
		}
		copy(s.cells, s.cells[1:])
		s.cells[t.H-1] = blankLine(t.W, t.A)
	}
}

func (t *Term) scrollDown(n int) {
	s := t.s
	for ; n > 0; n-- {
		t.ScrollAny++
		copy(s.cells[1:], s.cells[:t.H-1])
		s.cells[0] = blankLine(t.W, t.A)
	}
}

func (t *Term) split(x, y int) { // about to overwrite cell x: repair wide halves
	l := t.s.cells[y]
	if x < 0 || x >= len(l) {
		return
	}
	if l[x].W == 0 && x > 0 && l[x-1].W == 2 {
		l[x-1] = Cell{S: " ", W: 1, A: l[x-1].A}
		l[x] = Cell{S: " ", W: 1, A: l[x].A}
	}
	if l[x].W == 2 && x+1 < len(l) {
		l[x+1] = Cell{S: " ", W: 1, A: l[x+1].A}
		l[x] = Cell{S: " ", W: 1, A: l[x].A}
	}
}

func (t *Term) print(r rune) {
	s := t.s
	// Does it extend the previous cluster?
	if t.lastX >= 0 {
		pc := &s.cells[t.lastY][t.lastX]
		if txt.Extends(pc.S, r) {
			pc.S += string(r)
			return
		}
	}
	w := txt.RuneWidth(r)
	if w == 0 {
		if unicode.Is(unicode.Mn, r) || unicode.Is(unicode.Me, r) || unicode.Is(unicode.Cf, r) {
			t.Unknown = append(t.Unknown, fmt.Sprintf("mark without base %#x", r))
		}
		return
	}
	if s.wrap {
		s.x = 0
		t.lf()
		t.Wraps++
	}
	if w == 2 && s.x == t.W-1 {
		if t.W < 2 {
			return
		}
		s.x = 0
		t.lf()
		t.Wraps++
	}
	t.split(s.x, s.y)
	if w == 2 {
		t.split(s.x+1, s.y)
	}
	s.cells[s.y][s.x] = Cell{S: string(r), W: w, A: t.A}
	if w == 2 {
		s.cells[s.y][s.x+1] = Cell{S: "", W: 0, A: t.A}
	}
	t.Printed++
	if t.WroteAt != nil {
		t.WroteAt[[2]int{s.x, s.y}]++
	}
	t.lastX, t.lastY = s.x, s.y
	s.x += w
	if s.x >= t.W {
		s.x = t.W - 1
		s.wrap = true
	}
}

func (t *Term) esc(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	t.lastX = -1
	switch b[1] {
	case 0x1b:
		return 1 // a new escape cancels the old one
	case '[':
		i := 2
		for i < len(b) && (b[i] >= 0x20 && b[i] <= 0x3f) {
			i++
		}
		if i == len(b) {
			if i > 200 {
				t.Unknown = append(t.Unknown, "long csi")
				return i
			}
			return 0
		}
		if b[i] < 0x40 || b[i] > 0x7e {
			t.Unknown = append(t.Unknown, fmt.Sprintf("broken csi %q", b[:i+1]))
			return i
		}
		t.csi(string(b[2:i]), b[i])
		return i + 1
	case ']', 'P', '_', '^':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 && b[1] == ']' {
				t.osc(b[1], string(b[2:i]), "bel")
				return i + 1
			}
			if b[i] == 0x1b && i+1 < len(b) && b[i+1] == '\\' {
				t.osc(b[1], string(b[2:i]), "st")
				return i + 2
			}
		}
		return 0
	case '7':
		t.s.sx, t.s.sy, t.s.sa = t.s.x, t.s.y, t.A
	case '8':
		t.s.x, t.s.y, t.A = min(t.s.sx, t.W-1), min(t.s.sy, t.H-1), t.s.sa
		t.s.wrap = false
	case 'D':
		t.lf()
	case 'E':
		t.s.x = 0
		t.lf()
	case 'M':
		if t.s.y == 0 {
			t.scrollDown(1)
		} else {
			t.s.y--
		}
		t.s.wrap = false
	case 'c':
		a, m := newScreen(t.W, t.H), newScreen(t.W, t.H)
		t.alt, t.main, t.s, t.A = a, m, m, Attr{}
	case '\\', '=', '>':
	case '(', ')':
		if len(b) < 3 {
			return 0
		}
		return 3
	default:
		t.Unknown = append(t.Unknown, fmt.Sprintf("esc %q", b[1]))
	}
	return 2
}

func (t *Term) osc(kind byte, s, term string) {
	if kind == ']' {
		t.OSC = append(t.OSC, s)
		if rest, ok := strings.CutPrefix(s, "8;"); ok {
			_, t.A.Link, _ = strings.Cut(rest, ";")
		}
		return
	}
	t.Unknown = append(t.Unknown, fmt.Sprintf("string %c%q", kind, s))
}

func params(p string) []int {
	var out []int
	for _, f := range strings.FieldsFunc(p+";", func(r rune) bool { return false }) {
		_ = f
	}
	cur, has := 0, false
	for i := 0; i < len(p); i++ {
		switch {
		case p[i] >= '0' && p[i] <= '9':
			if cur < 1<<28 {
				cur = cur*10 + int(p[i]-'0')
			}
			has = true
		case p[i] == ';' || p[i] == ':':
			if !has {
				cur = -1
			}
			out = append(out, cur)
			cur, has = 0, false
		}
	}
	if !has {
		cur = -1
	}
	return append(out, cur)
}

func def(ps []int, i, d int) int {
	if i >= len(ps) || ps[i] < 0 {
		return d
	}
	return ps[i]
}

func cnt(ps []int) int { // count parameter: missing or 0 means 1
	n := def(ps, 0, 1)
	if n == 0 {
		n = 1
	}
	return n
}

func (t *Term) csi(p string, f byte) {
	t.MovesEsc++
	s := t.s
	if strings.HasPrefix(p, "?") {
		ps := params(p[1:])
		if f != 'h' && f != 'l' {
			t.Unknown = append(t.Unknown, "csi "+p+string(f))
			return
		}
		for _, m := range ps {
			t.mode(fmt.Sprint(m), f == 'h')
		}
		return
	}
	if strings.HasSuffix(p, " ") && f == 'q' {
		t.CursorStyle = strings.TrimSpace(p)
		return
	}
	for i := 0; i < len(p); i++ {
		if (p[i] < '0' || p[i] > '9') && p[i] != ';' && p[i] != ':' {
			t.Unknown = append(t.Unknown, fmt.Sprintf("csi %q%c", p, f))
			return
		}
	}
	ps := params(p)
	if f != 'm' && f != 'n' {
		defer func() {
			if t.s == s && f != 'J' && f != 'K' {
				s.wrap = false
			}
		}()
	}
	switch f {
	case 'A':
		s.y = max(0, s.y-cnt(ps))
	case 'B', 'e':
		s.y = min(t.H-1, s.y+cnt(ps))
	case 'C', 'a':
		s.x = min(t.W-1, s.x+cnt(ps))
	case 'D':
		s.x = max(0, s.x-cnt(ps))
	case 'E':
		s.x, s.y = 0, min(t.H-1, s.y+cnt(ps))
	case 'F':
		s.x, s.y = 0, max(0, s.y-cnt(ps))
	case 'G', '`':
		s.x = min(t.W-1, cnt(ps)-1)
	case 'd':
		s.y = min(t.H-1, cnt(ps)-1)
	case 'H', 'f':
		y, x := max(1, def(ps, 0, 1)), max(1, def(ps, 1, 1))
		if y > t.H || x > t.W {
			t.Clipped++
		}
		s.y, s.x = min(t.H, y)-1, min(t.W, x)-1
	case 'J':
		t.Erases++
		switch def(ps, 0, 0) {
		case 0:
			t.erase(s.x, s.y, t.W)
			for y := s.y + 1; y < t.H; y++ {
				t.erase(0, y, t.W)
			}
		case 1:
			for y := 0; y < s.y; y++ {
				t.erase(0, y, t.W)
			}
			t.erase(0, s.y, s.x+1)
		case 2:
			for y := 0; y < t.H; y++ {
				t.erase(0, y, t.W)
			}
		case 3:
			t.Back = nil
		default:
			t.Unknown = append(t.Unknown, "ED "+p)
		}
	case 'K':
		t.Erases++
		switch def(ps, 0, 0) {
		case 0:
			t.erase(s.x, s.y, t.W)
		case 1:
			t.erase(0, s.y, s.x+1)
		case 2:
			t.erase(0, s.y, t.W)
		default:
			t.Unknown = append(t.Unknown, "EL "+p)
		}
	case 'L':
		for n := min(cnt(ps), t.H-s.y); n > 0; n-- {
			copy(s.cells[s.y+1:], s.cells[s.y:t.H-1])
			s.cells[s.y] = blankLine(t.W, t.A)
		}
		s.x = 0
	case 'M':
		for n := min(cnt(ps), t.H-s.y); n > 0; n-- {
			copy(s.cells[s.y:], s.cells[s.y+1:])
			s.cells[t.H-1] = blankLine(t.W, t.A)
		}
		s.x = 0
	case '@':
		l := s.cells[s.y]
		for n := min(cnt(ps), t.W-s.x); n > 0; n-- {
			copy(l[s.x+1:], l[s.x:t.W-1])
			l[s.x] = Cell{S: " ", W: 1, A: Attr{Bg: t.A.Bg}}
		}
	case 'P':
		l := s.cells[s.y]
		for n := min(cnt(ps), t.W-s.x); n > 0; n-- {
			copy(l[s.x:], l[s.x+1:])
			l[t.W-1] = Cell{S: " ", W: 1, A: Attr{Bg: t.A.Bg}}
		}
	case 'X':
		t.erase(s.x, s.y, min(t.W, s.x+cnt(ps)))
	case 'S':
		t.scrollUp(cnt(ps))
	case 'T':
		t.scrollDown(cnt(ps))
	case 'm':
		t.sgr(p)
	case 's':
		s.sx, s.sy = s.x, s.y
	case 'u':
		s.x, s.y = min(s.sx, t.W-1), min(s.sy, t.H-1)
	case 'n', 't', 'r', 'c':
	default:
		t.Unknown = append(t.Unknown, fmt.Sprintf("csi %q%c", p, f))
	}
}

func (t *Term) erase(x0, y, x1 int) {
	l := t.s.cells[y]
	if x0 < len(l) {
		t.split(x0, y)
	}
	if x1-1 >= 0 && x1-1 < len(l) {
		t.split(x1-1, y)
	}
	for x := x0; x < x1 && x < len(l); x++ {
		l[x] = Cell{S: " ", W: 1, A: Attr{Bg: t.A.Bg}}
	}
}

func (t *Term) mode(m string, on bool) {
	sign := "-"
	if on {
		sign = "+"
	}
	t.ModeLog = append(t.ModeLog, sign+m)
	t.Modes[m] = on
	switch m {
	case "1049", "1047", "47":
		if on && t.s != t.alt {
			if m == "1049" {
				t.main.sx, t.main.sy, t.main.sa = t.main.x, t.main.y, t.A
			}
			ox, oy := t.main.x, t.main.y
			t.alt = newScreen(t.W, t.H)
			t.s = t.alt
			t.s.x, t.s.y = ox, oy
		} else if !on && t.s == t.alt {
			t.s = t.main
			if m == "1049" {
				t.s.x, t.s.y, t.A = t.main.sx, t.main.sy, t.main.sa
			}
		}
	}
}

// ModesOn lists the private modes currently set, except autowrap.
func (t *Term) ModesOn() string {
	var m []string
	for k, v := range t.Modes {
		if v && k != "7" {
			m = append(m, k)
		}
	}
	sort.Strings(m)
	return strings.Join(m, ",")
}

func (t *Term) sgr(p string) {
	ps := params(p)
	for i := 0; i < len(ps); i++ {
		n := ps[i]
		if n < 0 {
			n = 0
		}
		switch {
		case n == 0:
			t.A = Attr{Link: t.A.Link}
		case n >= 1 && n <= 9 && n != 6:
			t.A.Flags |= []uint16{0, Bold, Dim, Italic, Underline, Blink, 0, Reverse, Hidden, Strike}[n]
		case n == 22:
			t.A.Flags &^= Bold | Dim
		case n == 23:
			t.A.Flags &^= Italic
		case n == 24:
			t.A.Flags &^= Underline
		case n == 25:
			t.A.Flags &^= Blink
		case n == 27:
			t.A.Flags &^= Reverse
		case n == 28:
			t.A.Flags &^= Hidden
		case n == 29:
			t.A.Flags &^= Strike
		case n >= 30 && n <= 37:
			t.A.Fg = Color(KBase | (n - 30))
		case n >= 90 && n <= 97:
			t.A.Fg = Color(KBase | (n - 90 + 8))
		case n >= 40 && n <= 47:
			t.A.Bg = Color(KBase | (n - 40))
		case n >= 100 && n <= 107:
			t.A.Bg = Color(KBase | (n - 100 + 8))
		case n == 39:
			t.A.Fg = 0
		case n == 49:
			t.A.Bg = 0
		case n == 38 || n == 48:
			var c Color
			if i+2 < len(ps) && ps[i+1] == 5 && ps[i+2] >= 0 && ps[i+2] < 256 {
				c = Color(KIdx | ps[i+2])
				i += 2
			} else if i+4 < len(ps) && ps[i+1] == 2 {
				c = Color(KRGB | (ps[i+2]&255)<<16 | (ps[i+3]&255)<<8 | ps[i+4]&255)
				if ps[i+2] > 255 || ps[i+3] > 255 || ps[i+4] > 255 || ps[i+2] < 0 || ps[i+3] < 0 || ps[i+4] < 0 {
					t.Unknown = append(t.Unknown, "sgr "+p)
				}
				i += 4
			} else {
				t.Unknown = append(t.Unknown, "sgr "+p)
				return
			}
			if n == 38 {
				t.A.Fg = c
			} else {
				t.A.Bg = c
			}
		default:
			t.Unknown = append(t.Unknown, "sgr "+p)
		}
	}
}

// Snapshot copies the visible grid.
func (t *Term) Snapshot() [][]Cell {
	out := make([][]Cell, t.H)
	for y := range out {
		out[y] = append([]Cell(nil), t.s.cells[y]...)
	}
	return out
}

// SameCell compares character and rendition, treating two blanks with the same
// background as equal whatever their foreground.
func SameCell(a, b Cell) bool {
	if a.W != b.W || a.S != b.S {
		return false
	}
	if a.S == " " || a.S == "" {
		vis := uint16(Underline | Reverse | Strike | Blink)
		if a.A.Flags&vis != b.A.Flags&vis || a.A.Bg != b.A.Bg {
			return false
		}
		if a.A.Flags&vis != 0 {
			return a.A.Fg == b.A.Fg
		}
		return true
	}
	return a.A == b.A
}

// Operations for models of a screen that do not go through escape sequences.

// EraseRow blanks cells [x0,x1) of row y.
func (t *Term) EraseRow(x0, y, x1 int) { t.erase(x0, y, x1) }

// SetMode sets or resets a private mode.
func (t *Term) SetMode(m string, on bool) { t.mode(m, on) }

// Mark remembers the cursor position and Recall goes back to it.
func (t *Term) Mark()   { t.s.sx, t.s.sy, t.s.wrap = t.s.x, t.s.y, false }
func (t *Term) Recall() { t.SetCursor(min(t.s.sx, t.W-1), min(t.s.sy, t.H-1)) }
