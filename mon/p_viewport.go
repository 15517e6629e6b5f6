package main

import (
	"math"
	"strings"

	"github.com/phoenix-tui/phoenix/components/viewport"
	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
	"phoenixverif/vt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P21", Quick: 150000, Thorough: 2000000, Case: p21,
		Rule:   "random histories of content, sizes, keys, wheel and drag against a window model; styled content read back through a terminal emulator",
		Assume: []string{"content without control characters other than tabs and complete CSI sequences, each line ending with default style; undisputed character widths"},
		Need:   map[string]int64{"steps": 1000000, "scrolled": 200000, "followed": 50000, "wrapped": 50000, "cut": 100000, "styled": 50000, "drags": 20000, "wheel": 20000, "keys": 200000, "tabs": 50000, "big": 200}})
}

type vpM struct {
	lines  []richLine
	rows   [][]refCell
	plain  []string // rows as text
	w, h   int
	off    int
	follow bool
	wrap   bool
	mouse  bool
	wheel  int
	drag   bool
	y0, o0 int
}

func (m *vpM) maxOff() int { return max(0, len(m.rows)-m.h) }

// reflow recomputes the rows; the offset stays inside, or at the end when following.
func (m *vpM) reflow() {
	m.rows, m.plain = nil, nil
	for _, l := range m.lines {
		if !m.wrap || m.w <= 0 {
			m.rows = append(m.rows, l.cells)
			m.plain = append(m.plain, l.plain)
			continue
		}
		p, at := l.plain, 0
		for {
			t := txt.Cut(p, m.w)
			if t == "" && p != "" { // a character wider than the viewport has a row of its own
				t = txt.Split(p)[0]
			}
			n := txt.Width(t)
			m.rows = append(m.rows, l.cells[at:at+n])
			m.plain = append(m.plain, t)
			at, p = at+n, p[len(t):]
			if p == "" {
				break
			}
		}
	}
	m.set(m.off)
	if m.follow {
		m.off = m.maxOff()
	}
}
func (m *vpM) set(off int) { m.off = clamp(off, 0, m.maxOff()) }
func (m *vpM) up(n int)    { m.set(m.off - min(n, 1<<40)); m.follow = false }
func (m *vpM) down(n int) {
	m.set(m.off + min(n, 1<<40))
	if m.off == m.maxOff() {
		m.follow = true
	}
}

func p21(c *fw.Ctx) {
	r := c.R
	styled, tabs := r.IntN(5) == 0, r.IntN(6) == 0
	m := &vpM{w: 1 + r.IntN(14), h: r.IntN(7), wheel: 3}
	if r.IntN(20) == 0 {
		m.w, m.h = r.IntN(4)-2, r.IntN(4)-2
	}
	cl := txt.Classes(r, txt.All)
	big := c.Rare(400) // thousands of lines, or lines of thousands of characters
	wide := big && r.IntN(2) == 0
	if big {
		c.Count("big", 1)
	}
	randN := func(n int) []richLine {
		var ls []richLine
		switch {
		case wide && n > 0 && r.IntN(2) == 0:
			ls = append(ls, randRich(r, cl, 200+r.IntN(5000), styled))
			n--
		case big && n > 3:
			n = 200 + r.IntN(2000)
		}
		for ; n > 0; n-- {
			k := r.IntN(8)
			if r.IntN(3) == 0 {
				k = r.IntN(30)
			}
			if tabs {
				ls = append(ls, randTabs(c, cl, k, styled))
				continue
			}
			ls = append(ls, randRich(r, cl, k, styled))
		}
		return ls
	}
	texts := func(ls []richLine) []string {
		out := make([]string, 0, len(ls)+1)
		for _, l := range ls {
			out = append(out, l.text)
		}
		return out
	}
	var v *viewport.Viewport
	switch r.IntN(3) {
	case 0:
		v = viewport.New(m.w, m.h)
		c.Tracef("New(%d,%d)", m.w, m.h)
	case 1:
		m.lines = randN(1 + r.IntN(12))
		v = viewport.NewWithContent(strings.Join(texts(m.lines), "\n"), m.w, m.h)
		c.Tracef("NewWithContent(%q,%d,%d)", strings.Join(texts(m.lines), "\n"), m.w, m.h)
	case 2:
		m.lines = randN(r.IntN(12))
		ls := texts(m.lines)
		v = viewport.NewWithLines(ls, m.w, m.h)
		c.Tracef("NewWithLines(%q,%d,%d)", ls, m.w, m.h)
		for i := range ls {
			ls[i] = "changed"
		}
	}
	m.w, m.h = nn(m.w), nn(m.h)
	m.reflow()
	if m.mouse = r.IntN(2) == 0; m.mouse {
		v = v.MouseEnabled(true)
		c.Tracef("MouseEnabled")
	}
	p21check(c, v, m, styled)
	key := func(k tea.KeyMsg) {
		c.Tracef("key %q", k.String())
		next, cmd := v.Update(k)
		if cmd != nil {
			c.Failf("key %q returns a command", k.String())
		}
		v = next
		c.Count("keys", 1)
	}
	mouse := func(b tea.MouseButton, a tea.MouseAction, y int) {
		k := tea.MouseMsg{X: r.IntN(20), Y: y, Button: b, Action: a}
		c.Tracef("mouse %+v", k)
		next, cmd := v.Update(k)
		if cmd != nil {
			c.Failf("mouse message returns a command")
		}
		v = next
	}
	one := func(ks ...tea.KeyMsg) tea.KeyMsg { return ks[r.IntN(len(ks))] }
	ru := func(x rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: x} }
	n := 3 + r.IntN(30)
	if big {
		n = 3 + r.IntN(12)
	}
	for i := 0; i < n; i++ {
		switch op := r.IntN(40); op {
		case 0, 1:
			m.lines = randN(1 + r.IntN(14))
			if r.IntN(2) == 0 {
				c.Tracef("SetContent(%q)", strings.Join(texts(m.lines), "\n"))
				v = v.SetContent(strings.Join(texts(m.lines), "\n"))
			} else {
				if r.IntN(6) == 0 {
					m.lines = nil
				}
				ls := texts(m.lines)
				c.Tracef("SetLines(%q)", ls)
				v = v.SetLines(ls)
				for i := range ls {
					ls[i] = "changed"
				}
			}
			m.reflow()
		case 2, 3, 4:
			add := randN(1)
			c.Tracef("AppendLine(%q)", add[0].text)
			v = v.AppendLine(add[0].text)
			m.lines = append(m.lines, add...)
			m.reflow()
		case 5:
			add := randN(r.IntN(5))
			c.Tracef("AppendLines(%q)", texts(add))
			v = v.AppendLines(texts(add))
			m.lines = append(m.lines, add...)
			m.reflow()
		case 6, 7, 8:
			m.w, m.h = 1+r.IntN(14), r.IntN(8)
			if r.IntN(12) == 0 {
				m.w, m.h = r.IntN(4)-2, r.IntN(4)-2
			}
			switch r.IntN(40) {
			case 0:
				m.w = math.MaxInt
			case 1:
				m.h = math.MaxInt
			}
			if big {
				m.w, m.h = 1+r.IntN(900), r.IntN(400)
			}
			c.Tracef("size %d,%d", m.w, m.h)
			if r.IntN(2) == 0 {
				v = v.SetSize(m.w, m.h)
			} else {
				v, _ = v.Update(tea.WindowSizeMsg{Width: m.w, Height: m.h})
			}
			m.w, m.h = nn(m.w), nn(m.h)
			m.reflow()
		case 9:
			m.follow = r.IntN(3) > 0
			c.Tracef("FollowMode(%v)", m.follow)
			v = v.FollowMode(m.follow)
			if m.follow {
				m.off = m.maxOff()
			}
		case 10:
			m.wrap = r.IntN(2) == 0
			c.Tracef("WrapLines(%v)", m.wrap)
			v = v.WrapLines(m.wrap)
			m.reflow()
		case 11:
			c.Tracef("ScrollToTop")
			v = v.ScrollToTop()
			m.off, m.follow = 0, false
		case 12:
			c.Tracef("ScrollToBottom")
			v = v.ScrollToBottom()
			m.off, m.follow = m.maxOff(), true
		case 13, 14:
			o := r.IntN(16) - 3
			if big {
				o = r.IntN(len(m.rows) + 10)
			}
			if r.IntN(10) == 0 {
				o = []int{-1 << 62, 1 << 62}[r.IntN(2)]
			}
			c.Tracef("SetYOffset(%d)", o)
			v = v.SetYOffset(o)
			m.set(o)
			m.follow = false
		case 15:
			m.wheel = r.IntN(6) - 1
			if big {
				m.wheel = r.IntN(600)
			}
			if r.IntN(12) == 0 {
				m.wheel = math.MaxInt
			}
			c.Tracef("SetWheelScrollLines(%d)", m.wheel)
			v = v.SetWheelScrollLines(m.wheel)
			m.wheel = max(1, m.wheel)
		case 16:
			v = v.Theme(nil)
		case 17:
			if !m.drag {
				m.mouse = r.IntN(3) > 0
				c.Tracef("MouseEnabled(%v)", m.mouse)
				v = v.MouseEnabled(m.mouse)
			}
		case 18, 19, 20:
			if r.IntN(2) == 0 {
				mouse(tea.MouseButtonWheelUp, tea.MouseActionPress, 1)
				if m.mouse {
					m.up(m.wheel)
				}
			} else {
				mouse(tea.MouseButtonWheelDown, tea.MouseActionPress, 1)
				if m.mouse {
					m.down(m.wheel)
				}
			}
			c.Count("wheel", 1)
		case 21, 22, 23, 24:
			y := r.IntN(12)
			if big {
				y = r.IntN(2000)
			}
			switch {
			case !m.drag || r.IntN(8) == 0:
				mouse(tea.MouseButtonLeft, tea.MouseActionPress, y)
				if m.mouse {
					m.drag, m.y0, m.o0 = true, y, m.off
				}
			case r.IntN(4) == 0:
				mouse(tea.MouseButtonLeft, tea.MouseActionRelease, y)
				m.drag = false
			default:
				mouse(tea.MouseButtonLeft, tea.MouseActionMotion, y)
				if m.drag && m.mouse {
					m.set(m.o0 - (y - m.y0))
					m.follow = false
					c.Count("drags", 1)
				}
			}
		case 25:
			if !m.drag {
				mouse([]tea.MouseButton{tea.MouseButtonNone, tea.MouseButtonLeft, tea.MouseButtonRight}[r.IntN(3)], tea.MouseActionMotion, r.IntN(10))
			} else {
				mouse(tea.MouseButtonRight, tea.MouseActionPress, r.IntN(10))
			}
		case 26, 27:
			key(one(kt(tea.KeyUp), ru('k')))
			m.up(1)
		case 28, 29:
			key(one(kt(tea.KeyDown), ru('j')))
			m.down(1)
		case 30:
			key(one(kt(tea.KeyPgUp), ru('b'), ctrl('b')))
			m.up(m.h)
		case 31:
			key(one(kt(tea.KeyPgDown), ru('f'), ctrl('f'), tea.KeyMsg{Type: tea.KeySpace, Rune: ' '}))
			m.down(m.h)
		case 32:
			key(one(kt(tea.KeyHome), ru('g')))
			m.off, m.follow = 0, false
		case 33, 34:
			key(one(kt(tea.KeyEnd), tea.KeyMsg{Type: tea.KeyRune, Rune: 'G', Shift: r.IntN(2) == 0}))
			m.off, m.follow = m.maxOff(), true
		case 35:
			key(ctrl('u'))
			m.up(m.h / 2)
		case 36, 37:
			key(ctrl('d'))
			m.down(m.h / 2)
		case 38:
			key(one(kt(tea.KeyEnter), kt(tea.KeyTab), ru('x'), ru('u'), ru('d'), ctrl('x'), kt(tea.KeyLeft), kt(tea.KeyDelete)))
		case 39:
			v, _ = v.Update(tea.QuitMsg{})
		}
		p21check(c, v, m, styled)
	}
	if len(m.rows) > m.h {
		c.Seen(c.TraceText())
		c.Sample(c.TraceText())
	}
}

func p21check(c *fw.Ctx, v *viewport.Viewport, m *vpM, styled bool) {
	c.Count("steps", 1)
	if v.ScrollOffset() != m.off {
		c.Failf("offset %d, expected %d (of at most %d; following: %v)", v.ScrollOffset(), m.off, m.maxOff(), m.follow)
	}
	top, bottom := m.off == 0, m.off == m.maxOff()
	if v.IsAtTop() != top || v.CanScrollUp() == top || v.IsAtBottom() != bottom || v.CanScrollDown() == bottom {
		c.Failf("at offset %d of 0..%d: IsAtTop %v CanScrollUp %v IsAtBottom %v CanScrollDown %v", m.off, m.maxOff(), v.IsAtTop(), v.CanScrollUp(), v.IsAtBottom(), v.CanScrollDown())
	}
	if v.TotalLines() != len(m.lines) || v.Height() != m.h {
		c.Failf("TotalLines %d, Height %d; expected %d, %d", v.TotalLines(), v.Height(), len(m.lines), m.h)
	}
	view := v.View()
	if strings.Join(v.VisibleLines(), "\n") != view {
		c.Failf("VisibleLines %q differs from the view %q", v.VisibleLines(), view)
	}
	if m.off > 0 {
		c.Count("scrolled", 1)
	}
	if m.follow && len(m.rows) > m.h {
		c.Count("followed", 1)
	}
	if m.wrap && len(m.rows) > len(m.lines) {
		c.Count("wrapped", 1)
	}
	to := min(m.off+m.h, len(m.rows))
	if m.w <= 0 || m.h <= 0 || len(m.rows) == 0 {
		if view != "" {
			c.Failf("a %dx%d view of %d rows shows %q", m.w, m.h, len(m.rows), view)
		}
		return
	}
	got := strings.Split(view, "\n")
	if len(got) != to-m.off {
		c.Failf("%d rows drawn, expected rows %d to %d:\n%q", len(got), m.off, to, view)
	}
	var b *blockT
	if styled {
		b = interp(c, view)
		c.Count("styled", 1)
	}
	for i, g := range got {
		want := m.plain[m.off+i]
		short := txt.Cut(want, m.w)
		if short != want {
			c.Count("cut", 1)
		}
		if p := txt.Strip(g); p != short {
			c.Failf("row %d shows %q, expected %q", m.off+i, p, short)
		}
		if styled {
			if b.ends[i] != (vt.Attr{}) {
				c.Failf("row %d %q leaves the style %v on", m.off+i, g, b.ends[i])
			}
			sameCells(c, "row", b.cells[i], m.rows[m.off+i][:txt.Width(short)], func() string { return view })
		} else if g != short {
			c.Failf("row %d is %q, expected %q", m.off+i, g, short)
		}
	}
}
