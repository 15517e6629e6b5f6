package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"

	"github.com/phoenix-tui/phoenix/render"

	"phoenixverif/fw"
	"phoenixverif/txt"
	"phoenixverif/vt"
)

// ---- the ideal buffer -------------------------------------------------------

type rstyle struct {
	fg, bg               int // -1 none
	bold, ital, und, rev bool
}

var rdef = rstyle{fg: -1, bg: -1}

func randRStyle(r *rand.Rand) rstyle {
	s := rdef
	if r.IntN(3) == 0 {
		return s
	}
	cols := []int{0, 0xff0000, 0x00ff00, 0x0102ff, 0xffffff, 0x808080}
	if r.IntN(2) == 0 {
		s.fg = cols[r.IntN(len(cols))]
	}
	if r.IntN(3) == 0 {
		s.bg = cols[r.IntN(len(cols))]
	}
	s.bold, s.ital, s.und, s.rev = r.IntN(4) == 0, r.IntN(5) == 0, r.IntN(5) == 0, r.IntN(6) == 0
	return s
}

func (s rstyle) real() render.Style {
	st := render.StyleDefault()
	if s.fg >= 0 && s.bg >= 0 && s.bold {
		st = render.StyleColors(uint8(s.fg>>16), uint8(s.fg>>8), uint8(s.fg), uint8(s.bg>>16), uint8(s.bg>>8), uint8(s.bg))
	} else {
		if s.fg >= 0 {
			st = st.WithFg(uint8(s.fg>>16), uint8(s.fg>>8), uint8(s.fg))
		}
		if s.bg >= 0 {
			st = st.WithBg(uint8(s.bg>>16), uint8(s.bg>>8), uint8(s.bg))
		}
	}
	if s.bold {
		st = st.WithBold(true)
	}
	if s.ital {
		st = st.WithItalic(true)
	}
	if s.und {
		st = st.WithUnderline(true)
	}
	if s.rev {
		st = st.WithReverse(true)
	}
	return st
}

func (s rstyle) attr() vt.Attr {
	var a vt.Attr
	if s.fg >= 0 {
		a.Fg = vt.Color(vt.KRGB | s.fg)
	}
	if s.bg >= 0 {
		a.Bg = vt.Color(vt.KRGB | s.bg)
	}
	if s.bold {
		a.Flags |= vt.Bold
	}
	if s.ital {
		a.Flags |= vt.Italic
	}
	if s.und {
		a.Flags |= vt.Underline
	}
	if s.rev {
		a.Flags |= vt.Reverse
	}
	return a
}

func (s rstyle) String() string {
	return fmt.Sprintf("{fg=%x bg=%x %v%v%v%v}", s.fg, s.bg, s.bold, s.ital, s.und, s.rev)
}

type obuf struct {
	w, h  int
	cells [][]vt.Cell
}

func newObuf(w, h int) *obuf {
	b := &obuf{w: w, h: h, cells: make([][]vt.Cell, h)}
	for y := range b.cells {
		b.cells[y] = make([]vt.Cell, w)
		for x := range b.cells[y] {
			b.cells[y][x] = vt.Cell{S: " ", W: 1}
		}
	}
	return b
}

// rop is one buffer operation.
type rop struct {
	kind string // set str line fill clear
	x, y int
	s    string
	st   rstyle
	raw  string // s with characters in it that occupy no column, if not empty
}

func (o rop) String() string {
	return fmt.Sprintf("%s(%d,%d,%q,%v)", o.kind, o.x, o.y, o.text(), o.st)
}

func (o rop) text() string {
	if o.raw != "" {
		return o.raw
	}
	return o.s
}

// halves tells whether writing [x,x+n) would cut a wide character in half.
func (b *obuf) halves(x, y, n int) bool {
	if y < 0 || y >= b.h || n <= 0 {
		return false
	}
	if x >= 0 && x < b.w && b.cells[y][x].W == 0 {
		return true
	}
	e := x + n
	return e > 0 && e < b.w && b.cells[y][e].W == 0
}

func (b *obuf) put(x, y int, s string, st rstyle) {
	w := txt.Width(s)
	b.cells[y][x] = vt.Cell{S: s, W: w, A: st.attr()}
	if w == 2 {
		b.cells[y][x+1] = vt.Cell{W: 0, A: st.attr()}
	}
}

// apply performs o on the ideal buffer; false when the outcome is not defined
// (a wide character would be cut in half).
func (b *obuf) apply(o rop) (ok bool, written int) {
	switch o.kind {
	case "clear":
		*b = *newObuf(b.w, b.h)
		return true, 0
	case "fill":
		if txt.Width(o.s) != 1 {
			return false, 0
		}
		for y := 0; y < b.h; y++ {
			for x := 0; x < b.w; x++ {
				b.cells[y][x] = vt.Cell{S: o.s, W: 1, A: o.st.attr()}
			}
		}
		return true, 0
	case "set":
		if o.x < 0 || o.x >= b.w || o.y < 0 || o.y >= b.h {
			return true, 0
		}
		n := txt.Width(o.s)
		if o.x+n > b.w || b.halves(o.x, o.y, n) {
			return false, 0
		}
		b.put(o.x, o.y, o.s, o.st)
		return true, n
	case "str", "line":
		x, y := o.x, o.y
		if o.kind == "line" {
			x = 0
		}
		if y < 0 || y >= b.h || x < 0 {
			return true, 0
		}
		n := 0
		cs := txt.Split(o.s)
		k := 0
		for _, c := range cs {
			cw := txt.Width(c)
			if x+n+cw > b.w {
				break
			}
			n += cw
			k++
		}
		if o.kind == "str" && b.halves(x, y, n) {
			return false, 0
		}
		if o.kind == "line" {
			for i := range b.cells[y] {
				b.cells[y][i] = vt.Cell{S: " ", W: 1}
			}
		}
		p := x
		for _, c := range cs[:k] {
			b.put(p, y, c, o.st)
			p += txt.Width(c)
		}
		return true, n
	}
	panic(o.kind)
}

func applyReal(b *render.Buffer, o rop) int {
	switch o.kind {
	case "clear":
		b.Clear()
	case "fill":
		b.Fill([]rune(o.s)[0], o.st.real())
	case "set":
		b.Set(o.x, o.y, []rune(o.text())[0], o.st.real())
	case "str":
		return b.SetString(o.x, o.y, o.text(), o.st.real())
	case "line":
		b.SetLine(o.y, o.text(), o.st.real())
	}
	return -1
}

func randOp(r *rand.Rand, w, h int, wild bool) rop {
	o := rop{st: randRStyle(r)}
	o.x, o.y = r.IntN(max(w, 1)), r.IntN(max(h, 1))
	if wild && r.IntN(8) == 0 {
		o.x, o.y = r.IntN(w+8)-4, r.IntN(h+4)-2
	}
	cl := txt.Classes(r, txt.All)
	switch k := r.IntN(20); {
	case k < 10:
		o.kind, o.s = "str", txt.String(r, cl, 1+r.IntN(6))
		if r.IntN(6) == 0 {
			o.s = txt.String(r, cl, 1+r.IntN(w+4))
		}
	case k < 13:
		o.kind, o.s = "line", txt.String(r, cl, r.IntN(w+2))
	case k < 18:
		o.kind, o.s = "set", txt.Cluster(r, txt.Rune)
	case k < 19:
		o.kind, o.s = "fill", txt.Cluster(r, txt.ASCII|txt.Sym|txt.Space)
	default:
		o.kind = "clear"
	}
	if r.IntN(8) == 0 {
		noWidth := []string{"\n", "\r", "\t", "\x1b", "\a", "\b", "\x00", "\x7f", "\u0085", "\u200b"}
		switch o.kind {
		case "str", "line":
			cs := txt.Split(o.s)
			for n := 1 + r.IntN(2); n > 0; n-- {
				i := r.IntN(len(cs) + 1)
				cs = append(cs[:i:i], append([]string{noWidth[r.IntN(len(noWidth))]}, cs[i:]...)...)
			}
			o.raw = strings.Join(cs, "")
		case "set":
			o.s, o.raw = " ", noWidth[r.IntN(len(noWidth))]
		}
	}
	return o
}

// cutFrame builds a buffer in which wide characters may be cut in half, and what
// it looks like when it is all that was ever drawn.
func cutFrame(c *fw.Ctx, ops []rop, rb *render.Buffer, w, h int) *obuf {
	for _, o := range ops {
		applyReal(rb, o)
	}
	t := vt.New(w, h)
	c.Check(render.New(w, h, t).Render(rb) == nil, "render failed")
	cleanTerm(c, t)
	ob := newObuf(w, h)
	for y := range ob.cells {
		for x := range ob.cells[y] {
			ob.cells[y][x] = t.CellAt(x, y)
		}
	}
	return ob
}

// frame builds matching real and ideal buffers from an op list, dropping ops
// whose outcome is undefined.
func frame(c *fw.Ctx, ops []rop, rb *render.Buffer, w, h int) (*obuf, []rop) {
	ob := newObuf(w, h)
	var kept []rop
	for _, o := range ops {
		ok, n := ob.apply(o)
		if !ok {
			continue
		}
		got := applyReal(rb, o)
		if o.kind == "str" {
			c.Check(got == n, "SetString %v in %dx%d returned %d cells, wrote %d", o, w, h, got, n)
		}
		kept = append(kept, o)
	}
	return ob, kept
}

func mutate(r *rand.Rand, ops []rop, w, h int, wild bool) []rop {
	out := append([]rop(nil), ops...)
	if (w > 64 || h > 64) && r.IntN(2) == 0 { // two changes a power of two apart
		d := 64 << r.IntN(4)
		a := rop{kind: "set", x: r.IntN(w), y: r.IntN(h), s: "x", st: randRStyle(r)}
		b := a
		if b.s = "y"; r.IntN(2) == 0 && a.x+1+d < w {
			b.x += d + 1
		} else if a.y+d < h {
			b.x, b.y = a.x+1, a.y+d
		}
		return append(out[max(0, len(out)-20):], a, b)
	}
	for n := 1 + r.IntN(3); n > 0; n-- {
		switch k := r.IntN(10); {
		case k < 4 || len(out) == 0:
			out = append(out, randOp(r, w, h, wild))
		case k < 6:
			i := r.IntN(len(out))
			out = append(out[:i:i], out[i+1:]...)
		case k < 8:
			i := r.IntN(len(out))
			out[i].st = randRStyle(r)
		case k < 9:
			i := r.IntN(len(out))
			out[i].x += r.IntN(3) - 1
		default:
			i := r.IntN(len(out))
			if out[i].kind == "str" {
				cs := txt.Split(out[i].s)
				cs[r.IntN(len(cs))] = txt.Cluster(r, txt.Plain)
				out[i].s, out[i].raw = strings.Join(cs, ""), ""
			}
		}
	}
	if len(out) > 25 {
		out = out[len(out)-25:]
	}
	return out
}

func diffScreen(t *vt.Term, ob *obuf) string {
	for y := 0; y < ob.h; y++ {
		for x := 0; x < ob.w; x++ {
			g, e := t.CellAt(x, y), ob.cells[y][x]
			if e.W == 0 {
				if g.W != 0 {
					return fmt.Sprintf("cell %d,%d: right half of a wide character expected, screen has %q", x, y, g.S)
				}
				continue
			}
			if !vt.SameCell(g, e) {
				return fmt.Sprintf("cell %d,%d: screen %q w%d %v, buffer %q w%d %v", x, y, g.S, g.W, g.A, e.S, e.W, e.A)
			}
		}
	}
	return ""
}

func cleanTerm(c *fw.Ctx, t *vt.Term) {
	c.Check(t.Scrolled == 0 && t.ScrollAny == 0, "the screen scrolled by %d lines\n%s", t.ScrollAny, t.Dump())
	c.Check(t.Wraps == 0, "output relied on automatic line wrap\n%s", t.Dump())
	c.Check(t.Clipped == 0, "cursor addressed outside the screen")
	c.Check(len(t.Unknown) == 0, "sequences not understood: %q", t.Unknown)
	c.Check(t.Pending() == "", "incomplete sequence at end of output: %q", t.Pending())
}

func renderCase(c *fw.Ctx) {
	r := c.R
	w, h := 1+r.IntN(16), 1+r.IntN(6)
	if r.IntN(8) == 0 {
		w, h = 20+r.IntN(60), 5+r.IntN(20)
	}
	big := c.Rare(400)
	if big {
		w, h = 1+r.IntN(600), 1+r.IntN(150)
		c.Count("big", 1)
	}
	usual := r.IntN(300) == 0
	if usual {
		w, h = 80, 24
	}
	t := vt.New(w, h)
	var rr *render.Renderer
	if usual {
		rr = render.NewDefault(t)
	} else if r.IntN(2) == 0 {
		rr = render.New(w, h, t)
	} else {
		rr = render.WithBufferSize(w, h, t, 16<<r.IntN(6))
	}
	t.SetCursor(r.IntN(w), r.IntN(h))
	if r.IntN(3) == 0 {
		t.ResetCells("#")
		c.Check(rr.Clear() == nil, "clear failed")
	}
	var ops []rop
	cur := newObuf(w, h)
	hidden := false
	frame := frame
	if r.IntN(5) == 0 {
		frame = func(c *fw.Ctx, ops []rop, rb *render.Buffer, w, h int) (*obuf, []rop) {
			c.Count("cut_frames", 1)
			return cutFrame(c, ops, rb, w, h), ops
		}
	}
	check := func(what string) {
		if d := diffScreen(t, cur); d != "" {
			c.Failf("after %s the screen differs from the buffer: %s\nscreen:\n%s", what, d, t.Dump())
		}
		cleanTerm(c, t)
		c.Check(t.Modes["25"] == !hidden, "cursor visibility changed")
	}
	var pool []*render.Buffer
	steps := 4 + r.IntN(14)
	for i := 0; i < steps; i++ {
		k := r.IntN(24)
		if big && k < 4 && r.IntN(2) == 0 { // of this size only
			k = 10
		}
		switch {
		case k == 0:
			c.Tracef("Clear")
			if r.IntN(2) == 0 {
				t.SetCursor(r.IntN(w), r.IntN(h)) // somebody else moved the cursor
				c.Tracef("(cursor moved by someone else)")
			}
			c.Check(rr.Clear() == nil, "clear failed")
			cur = newObuf(w, h)
			check("clear")
			c.Count("clears", 1)
			continue
		case k == 1:
			w, h = 1+r.IntN(16), 1+r.IntN(6)
			c.Tracef("Resize %dx%d", w, h)
			t.Resize(w, h)
			t.Scrolled, t.ScrollAny, t.Clipped = 0, 0, 0
			c.Check(rr.Resize(w, h) == nil, "resize failed")
			c.Check(rr.Width() == w && rr.Height() == h, "size not taken over")
			cur = newObuf(w, h)
			check("resize")
			c.Count("resizes", 1)
			continue
		case k == 2:
			c.Tracef("Hide/Show")
			if hidden {
				rr.ShowCursor()
			} else {
				rr.HideCursor()
			}
			hidden = !hidden
			check("cursor visibility change")
			continue
		case k == 3: // a buffer of another size than the renderer's: terminal resized too
			w, h = 1+r.IntN(16), 1+r.IntN(6)
			t.Resize(w, h)
			t.Scrolled, t.ScrollAny, t.Clipped = 0, 0, 0
			c.Tracef("terminal resized to %dx%d, no Resize call", w, h)
			rb := render.NewBuffer(w, h)
			ops = nil
			for n := r.IntN(6); n >= 0; n-- {
				ops = append(ops, randOp(r, w, h, true))
			}
			var ob *obuf
			ob, ops = frame(c, ops, rb, w, h)
			if rr.Width() == w && rr.Height() == h {
				rr.Resize(w, h)
			}
			c.Check(rr.Render(rb) == nil, "render failed")
			cur = ob
			check("rendering a buffer of a new size")
			continue
		}
		if r.IntN(4) == 0 {
			ops = nil
			for n := r.IntN(8); n >= 0; n-- {
				ops = append(ops, randOp(r, w, h, true))
			}
		} else {
			ops = mutate(r, ops, w, h, true)
		}
		var rb *render.Buffer
		switch r.IntN(3) {
		case 0:
			rb = render.NewBuffer(w, h)
		default:
			rb = rr.Buffer()
			pool = append(pool, rb)
			c.Check(rb.Width() == w && rb.Height() == h, "pooled buffer is %dx%d, renderer %dx%d", rb.Width(), rb.Height(), w, h)
		}
		var ob *obuf
		ob, ops = frame(c, ops, rb, w, h)
		c.Tracef("Render %v", ops)
		c.Check(rr.Render(rb) == nil, "render failed")
		cur = ob
		check("render")
		c.Count("frames", 1)
		c.Seen(w, h, fmt.Sprint(ops))
		if len(pool) > 0 && r.IntN(2) == 0 {
			pool[len(pool)-1].Release()
			pool = pool[:len(pool)-1]
		}
	}
	c.Check(rr.Close() == nil, "close failed")
	hidden = false
	check("close")
	c.Check(t.A == (vt.Attr{}), "colours or attributes left active after close: %v", t.A)
	c.Sample(fmt.Sprintf("%dx%d last ops %v", w, h, ops))
	c.Count("cells_compared", w*h*steps)
}

func renderControl(c *fw.Ctx) {
	// Control and zero-width characters in text must not reach the terminal raw.
	r := c.R
	for i := 0; i < 40; i++ {
		t := vt.New(8, 3)
		rr := render.New(8, 3, t)
		b := rr.Buffer()
		bad := []string{"\n", "\r", "\t", "\x1b", "\x1b[2J", "\a", "\b", "\u0301", "\u200d", "\x00", "\x7f"}
		s := "ab" + bad[r.IntN(len(bad))] + "c"
		y := r.IntN(3)
		switch r.IntN(3) {
		case 0:
			b.SetString(r.IntN(8), y, s, render.StyleDefault())
		case 1:
			b.SetLine(y, "xyz"+bad[r.IntN(len(bad))], render.StyleDefault())
		default:
			b.Set(r.IntN(8), y, []rune(bad[r.IntN(len(bad))])[0], render.StyleDefault())
		}
		c.Tracef("%q", s)
		c.Check(rr.Render(b) == nil, "render failed")
		c.Count("control_inputs", 1)
		n := len(t.Unknown)
		for _, u := range t.Unknown {
			if strings.HasPrefix(u, "mark without base") {
				n--
			}
		}
		c.Check(n == 0 && t.Bells == 0, "control characters of the content reached the terminal: %q bells %d", t.Unknown, t.Bells)
		c.Check(t.Scrolled == 0 && t.Wraps == 0, "content moved the screen")
		c.Check(t.Erases == 0 && t.Pending() == "", "content erased the screen")
		x, yy := t.Cursor()
		_ = x
		c.Check(yy <= y || yy == 0, "content moved the cursor to row %d", yy)
		// every other row is blank
		for k := 0; k < 3; k++ {
			if k != y {
				c.Check(t.Line(k) == "", "row %d changed by content of row %d", k, y)
			}
		}
	}
}

func init() {
	fw.Register(&fw.Prop{
		ID: "P09", Quick: 40000, Thorough: 1500000, Case: renderCase,
		Fixed:  []fw.Fixed{{Name: "control-characters", Run: renderControl}},
		Rule:   "random screen size, then a random history of frames (each built by Set/SetString/SetLine/Fill/Clear over an alphabet of 1- and 2-column clusters with random styles, mostly small mutations of the previous frame), Clear, Resize, cursor visibility and foreign cursor moves; distinct = distinct frame contents rendered",
		Need:   map[string]int64{"frames": 10000},
		Assume: []string{"terminal model: deferred wrap, background-colour erase, cluster-aware width; buffers in which one write cuts an earlier wide character in half are not generated"},
	})
}

// ---- P10 --------------------------------------------------------------------

type faultW struct {
	t         io.Writer
	left      int // bytes until the next fault, <0 = healthy
	short     bool
	faults    int
	lastFault bool
	n         int
}

var errFault = errors.New("injected write fault")

func (f *faultW) Write(p []byte) (int, error) {
	if f.left < 0 || len(p) <= f.left {
		if f.left >= 0 {
			f.left -= len(p)
		}
		f.n += len(p)
		return f.t.Write(p)
	}
	k := f.left
	f.t.Write(p[:k])
	f.n += k
	f.faults++
	f.lastFault = true
	f.left = -1
	if f.short && k < len(p) {
		return k, nil
	}
	return k, errFault
}

func changedCells(a, b *obuf) int {
	n := 0
	for y := range a.cells {
		for x := range a.cells[y] {
			if a.cells[y][x] != b.cells[y][x] {
				n++
			}
		}
	}
	return n
}

func costCase(c *fw.Ctx) {
	r := c.R
	w, h := 2+r.IntN(14), 1+r.IntN(6)
	t := vt.New(w, h)
	var out bytes.Buffer
	rr := render.New(w, h, io.MultiWriter(t, &out))
	prev := newObuf(w, h)
	var ops []rop
	for i := 0; i < 12; i++ {
		if r.IntN(3) > 0 {
			ops = mutate(r, ops, w, h, false)
		}
		rb := render.NewBuffer(w, h)
		var ob *obuf
		ob, ops = frame(c, ops, rb, w, h)
		ch := changedCells(prev, ob)
		out.Reset()
		p0, e0 := t.Printed, t.MovesEsc
		c.Tracef("Render %v changed=%d", ops, ch)
		c.Check(rr.Render(rb) == nil, "render failed")
		p1, e1 := t.Printed-p0, t.MovesEsc-e0
		if ch == 0 {
			c.Check(out.Len() == 0, "rendering an unchanged frame wrote %d bytes %q", out.Len(), out.String())
			c.Count("unchanged_frames", 1)
		} else {
			// a full repaint is allowed once most cells changed, so the number
			// of characters stays below 2x the change; 3 sequences per character
			c.Check(p1 <= 2*ch, "%d cells changed but %d characters were written", ch, p1)
			c.Check(e1 <= 3*p1+4, "%d control sequences for %d characters", e1, p1)
			c.Check(out.Len() <= 100*ch+64, "%d cells changed but %d bytes were written", ch, out.Len())
			c.Count("changed_frames", 1)
		}
		c.Seen("cost", ch, p1, e1, out.Len())
		// the same buffer once more, and an equal one
		n := out.Len()
		c.Check(rr.Render(rb) == nil, "render failed")
		rb2 := render.NewBuffer(w, h)
		frame(c, ops, rb2, w, h)
		c.Check(rr.Render(rb2) == nil, "render failed")
		c.Check(out.Len() == n, "re-rendering an equal buffer wrote %d bytes", out.Len()-n)
		prev = ob
	}
}

func faultCase(c *fw.Ctx) {
	r := c.R
	if r.IntN(3) == 0 {
		costCase(c)
		return
	}
	w, h := 1+r.IntN(10), 1+r.IntN(4)
	seqLen := 2 + r.IntN(5)
	var frames [][]rop
	var ops []rop
	for i := 0; i < seqLen; i++ {
		if i > 0 && r.IntN(4) == 0 {
			frames = append(frames, frames[r.IntN(len(frames))])
			continue
		}
		ops = mutate(r, ops, w, h, false)
		frames = append(frames, ops)
	}
	bufsz := 16 << r.IntN(9)
	run := func(at int, short bool) (total int, hit bool) {
		t := vt.New(w, h)
		f := &faultW{t: t, left: at, short: short}
		rr := render.WithBufferSize(w, h, f, bufsz)
		for i := 0; i <= len(frames); i++ {
			j := i
			if i == len(frames) {
				j = len(frames) - 1 // once more: any frame lost to the fault is repaired
			}
			rb := render.NewBuffer(w, h)
			ob, kept := frame(c, frames[j], rb, w, h)
			f.lastFault = false
			err := rr.Render(rb)
			if f.lastFault {
				hit = true
				c.Check(err != nil, "a failed write at byte %d during frame %d was not reported\nframe %v", at, i, kept)
				c.Count("faults_reported", 1)
				continue
			}
			if err != nil {
				c.Failf("frame %d: render reports %v although the output works again (fault at byte %d)", i, err, at)
			}
			if d := diffScreen(t, ob); d != "" {
				c.Failf("frame %d after a fault at byte %d (short=%v bufsize=%d, %dx%d): %s\nframe %v\n%s", i, at, short, bufsz, w, h, d, kept, t.Dump())
			}
			c.Count("frames_checked", 1)
		}
		return f.n, hit
	}
	total, _ := run(-1, false)
	c.Tracef("%dx%d frames %v total %d bytes", w, h, frames, total)
	n := 0
	for at := 0; at < total; at++ {
		if total > 60 && at > 20 && r.IntN(total) > 40 {
			continue
		}
		run(at, r.IntN(3) == 0)
		n++
	}
	c.Count("fault_positions", n)
	c.Seen(w, h, bufsz, fmt.Sprint(frames))
	c.Sample(fmt.Sprintf("%dx%d bufsize %d, %d frames, %d output bytes, %d fault positions", w, h, bufsz, len(frames), total, n))
}

func faultClear(c *fw.Ctx) {
	// The same for Clear, Resize and cursor visibility.
	for at := 0; at < 40; at++ {
		t := vt.New(6, 2)
		f := &faultW{t: t, left: -1}
		rr := render.New(6, 2, f)
		b := render.NewBuffer(6, 2)
		ob, _ := frame(c, []rop{{kind: "str", s: "ab界", st: rstyle{fg: 255, bg: 0xff00, bold: true}}}, b, 6, 2)
		c.Check(rr.Render(b) == nil, "render")
		f.left = at % 10
		f.lastFault = false
		var err error
		switch at / 10 {
		case 0:
			err = rr.Clear()
		case 1:
			err = rr.Resize(6, 2)
		case 2:
			err = rr.HideCursor()
		case 3:
			err = rr.Close()
		}
		if f.lastFault {
			c.Check(err != nil, "fault during operation %d not reported", at/10)
			c.Count("faults_reported", 1)
		} else {
			c.Check(err == nil, "error without fault")
			if at/10 < 2 {
				ob = newObuf(6, 2)
				c.Check(diffScreen(t, ob) == "", "screen not cleared")
			}
		}
		f.left = -1
		ob, _ = frame(c, []rop{{kind: "str", s: "xab", st: rstyle{fg: -1, bg: -1, und: true}}}, render.NewBuffer(6, 2), 6, 2)
		b2 := render.NewBuffer(6, 2)
		frame(c, []rop{{kind: "str", s: "xab", st: rstyle{fg: -1, bg: -1, und: true}}}, b2, 6, 2)
		c.Check(rr.Render(b2) == nil, "render after a fault in operation %d at byte %d still fails", at/10, at%10)
		d := diffScreen(t, ob)
		c.Check(d == "", "after a fault in operation %d at byte %d: %s", at/10, at%10, d)
	}
}

func init() {
	fw.Register(&fw.Prop{
		ID: "P10", Quick: 15000, Thorough: 500000, Case: faultCase, Level: "fault_enumeration",
		Fixed: []fw.Fixed{{Name: "clear-resize-close", Run: faultClear}},
		Rule:  "short frame histories replayed once per byte offset of their output with a write failing (error or short count) at that offset; plus cost accounting of fault-free histories. distinct = distinct frame histories / cost tuples",
		Need:  map[string]int64{"faults_reported": 5000, "unchanged_frames": 100},
	})
}

// ---- P11 --------------------------------------------------------------------

func bufferCase(c *fw.Ctx) {
	r := c.R
	size := func() (int, int) { return 1 + r.IntN(14), 1 + r.IntN(5) }
	if r.IntN(500) == 0 {
		size = func() (int, int) { return 1 + r.IntN(700), 1 + r.IntN(30) }
		c.Count("big", 1)
	}
	w, h := size()
	t0 := vt.New(w, h)
	rr := render.New(w, h, t0)
	var held []*render.Buffer
	for i := 0; i < 12; i++ {
		// observe a buffer by rendering it on a fresh renderer and terminal
		show := func(b *render.Buffer, ob *obuf, what string) {
			t := vt.New(ob.w, ob.h)
			q := render.New(ob.w, ob.h, t)
			c.Check(q.Render(b) == nil, "render failed")
			if d := diffScreen(t, ob); d != "" {
				c.Failf("%s: %s\n%s", what, d, t.Dump())
			}
			c.Count("buffers_observed", 1)
		}
		if r.IntN(5) == 0 {
			w, h = size()
			c.Tracef("Resize %dx%d", w, h)
			rr.Resize(w, h)
		}
		var rb *render.Buffer
		if r.IntN(4) == 0 {
			rb = render.NewBuffer(w, h)
		} else {
			rb = rr.Buffer()
			c.Check(rb.Width() == w && rb.Height() == h, "pooled buffer is %dx%d, renderer %dx%d", rb.Width(), rb.Height(), w, h)
			show(rb, newObuf(w, h), "buffer taken from the pool is not blank")
			for _, x := range held {
				if x == rb {
					c.Failf("the pool handed out a buffer still in use")
				}
			}
		}
		ob := newObuf(w, h)
		for n := 1 + r.IntN(6); n > 0; n-- {
			o := randOp(r, w, h, true)
			ok, wr := ob.apply(o)
			if !ok {
				continue
			}
			got := applyReal(rb, o)
			c.Tracef("%v", o)
			if o.kind == "str" {
				c.Check(got == wr, "SetString %v returned %d, wrote %d", o, got, wr)
			}
			c.Seen(o.String(), w, h)
			if r.IntN(2) == 0 || n == 1 {
				show(rb, ob, "after "+o.String())
			}
		}
		if r.IntN(2) == 0 {
			rb.Release()
		} else {
			held = append(held, rb)
		}
	}
	// negative and zero sizes
	for _, d := range [][2]int{{0, 0}, {-1, 3}, {3, -2}} {
		b := render.NewBuffer(d[0], d[1])
		b.SetString(0, 0, "xy", render.StyleDefault())
		b.SetLine(0, "xy", render.StyleDefault())
		b.Set(0, 0, 'x', render.StyleDefault())
		b.Fill('x', render.StyleDefault())
		b.Clear()
		c.Check(b.Width() >= 0 && b.Height() >= 0, "negative size")
	}
	c.Sample(c.TraceText())
}

func init() {
	fw.Register(&fw.Prop{
		ID: "P11", Quick: 30000, Thorough: 1000000, Case: bufferCase,
		Rule: "random writes (positions inside and outside, all cluster classes) to fresh and pooled buffers interleaved with acquire/release/resize; each buffer observed by rendering it to a fresh emulator and compared with an ideal cell grid; distinct = distinct (write, size) pairs",
		Need: map[string]int64{"buffers_observed": 10000},
	})
}
