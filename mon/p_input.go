package main

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P19", Quick: 200000, Thorough: 3000000, Case: p19,
		Rule:   "random histories of keys and settings on a text input against an editor model on lists of characters",
		Assume: []string{"printable text without control characters", "undisputed character widths"},
		Need:   map[string]int64{"steps": 1000000, "inserts": 200000, "deletes": 100000, "scrolled": 50000, "multirune": 50000, "views": 1000000, "selected": 10000, "handled": 10000, "big": 500}})
}

// span is a run of text with one rendition.
type span struct {
	s  string
	on bool // any rendition set
}

// spans cuts a line at its SGR sequences; ok is false for any other sequence.
func spans(out string) (ss []span, ok bool) {
	on := false
	ok = true
	for len(out) > 0 {
		if strings.HasPrefix(out, "\x1b[") {
			j := 2
			for j < len(out) && (out[j] == ';' || out[j] >= '0' && out[j] <= '9') {
				j++
			}
			if j == len(out) || out[j] != 'm' {
				return ss, false
			}
			p := out[2:j]
			on = p != "" && p != "0" && p != "27"
			out = out[j+1:]
			continue
		}
		j := strings.IndexByte(out, 0x1b)
		if j == 0 {
			return ss, false
		}
		if j < 0 {
			j = len(out)
		}
		if n := len(ss); n > 0 && ss[n-1].on == on {
			ss[n-1].s += out[:j]
		} else {
			ss = append(ss, span{out[:j], on})
		}
		out = out[j:]
	}
	return ss, ok && !on
}

// loneRI: width of an unpaired regional indicator is disputed.
func wRange(cl []string) (lo, hi int) {
	for _, x := range cl {
		w := txt.Width(x)
		lo, hi = lo+w, hi+w
		ri := 0
		for _, r := range x {
			if r >= 0x1f1e6 && r <= 0x1f1ff {
				ri++
			}
		}
		if ri == 1 {
			lo--
		}
	}
	return
}

type inputM struct {
	s           string
	cur         int
	selA, selB  int // selection if selA < selB
	width       int
	ph          string
	focus, show bool
	valid       func(n int, s string) bool
}

func (m *inputM) cl() []string { return txt.Split(m.s) }
func (m *inputM) n() int       { return len(m.cl()) }
func (m *inputM) set(a []string, cur int) {
	m.s = strings.Join(a, "")
	m.cur = min(cur, m.n())
}
func (m *inputM) dropSel() bool {
	a, b := m.selA, m.selB
	m.selA, m.selB = 0, 0
	if a >= b {
		return false
	}
	cl := m.cl()
	m.set(append(append([]string{}, cl[:a]...), cl[b:]...), a)
	return true
}
func (m *inputM) insert(r rune) {
	m.dropSel()
	cl := m.cl()
	before := strings.Join(cl[:m.cur], "") + string(r)
	m.s = before + strings.Join(cl[m.cur:], "")
	m.cur = min(len(txt.Split(before)), m.n())
}

func clamp(v, lo, hi int) int { return max(lo, min(hi, v)) }

// inputModel is what key handlers of applications are given: its type has no
// name outside the library.
type inputModel[T any] interface {
	MoveHome() T
	MoveLeft() T
	InsertRune(r rune) T
	DeleteBackward() T
	SelectAll() T
	WithFocus(on bool) T
	WithPlaceholder(s string) T
	WithShowCursor(on bool) T
	WithWidth(n int) T
}

// Keys of two handlers of an application; the first that changes something wins.
func firstHandler[T inputModel[T]](in T, k tea.KeyMsg) T {
	switch k.Type {
	case tea.KeyF2:
		return in.MoveHome()
	case tea.KeyF3:
		return in.InsertRune('#')
	case tea.KeyF4:
		return in.MoveLeft()
	case tea.KeyF5:
		return in.SelectAll()
	case tea.KeyF6:
		return in.WithPlaceholder("of the handler")
	case tea.KeyF7:
		return in.WithFocus(false)
	case tea.KeyF8:
		return in.WithShowCursor(false)
	case tea.KeyF9:
		return in.WithWidth(7)
	}
	return in
}

func secondHandler[T inputModel[T]](in T, k tea.KeyMsg) T {
	switch k.Type {
	case tea.KeyF2, tea.KeyF3, tea.KeyF6, tea.KeyF7, tea.KeyF8, tea.KeyF9:
		return in.InsertRune('2')
	case tea.KeyDelete:
		return in.DeleteBackward()
	}
	return in
}

func p19(c *fw.Ctx) {
	r := c.R
	cl := txt.Classes(r, txt.Typed)
	m := &inputM{width: 1 + r.IntN(12), show: true}
	if r.IntN(4) == 0 {
		m.width = 1 + r.IntN(40)
	}
	var th *style.Theme
	if r.IntN(4) == 0 {
		th = []*style.Theme{style.DarkTheme(), style.LightTheme(), style.HighContrastTheme()}[r.IntN(3)]
	}
	big := c.Rare(150) // hundreds of characters
	if big {
		c.Count("big", 1)
		if r.IntN(2) == 0 {
			m.width = 1 + r.IntN(500)
		}
	}
	length := func() int {
		if big {
			return r.IntN(700)
		}
		return r.IntN(16)
	}
	in := *input.New(m.width)
	if th != nil {
		in = in.Theme(th)
	}
	c.Tracef("New(%d)", m.width)
	in, m.focus = in.Focused(true), true
	if r.IntN(20) == 0 {
		in = *input.New(0)
		in, m.width = in.Focused(true), 1
		c.Tracef("New(0).Focused")
	}
	handlers := 0 // of the application
	if r.IntN(4) == 0 {
		handlers = r.IntN(3)
		c.Tracef("CustomKeyBindings: %d handlers", handlers)
		switch handlers {
		case 0:
			in = in.KeyBindings(input.CustomKeyBindings())
		case 1:
			in = in.KeyBindings(input.CustomKeyBindings(firstHandler))
		case 2:
			in = in.KeyBindings(input.CustomKeyBindings(firstHandler, secondHandler))
		}
	}
	key := func(k tea.KeyMsg) {
		if (k.Ctrl || k.Alt) && k.Rune >= 'a' && k.Rune <= 'z' && r.IntN(3) == 0 {
			k.Rune += 'A' - 'a' // shift makes no difference
		}
		before := in
		next, cmd := in.Update(k)
		if cmd != nil {
			c.Failf("key %q returns a command", k.String())
		}
		_ = before
		in = next
	}
	n := 3 + r.IntN(25)
	multi := false
	for i := 0; i < n; i++ {
		switch op := r.IntN(30); {
		case op < 10: // type a character, rune by rune
			g := txt.Cluster(r, cl)
			if r.IntN(12) == 0 {
				g = []string{"\u0301", "\u0308", "\u0323"}[r.IntN(3)]
			}
			rs := []rune(g)
			for k, ru := range rs {
				c.Tracef("type %q", ru)
				if m.focus {
					m.insert(ru)
					c.Count("inserts", 1)
				}
				if ru == ' ' && r.IntN(2) == 0 {
					key(tea.KeyMsg{Type: tea.KeySpace, Rune: ' '})
				} else {
					key(tea.KeyMsg{Type: tea.KeyRune, Rune: ru, Shift: r.IntN(5) == 0})
				}
				if k < len(rs)-1 {
					p19check(c, in, m)
				}
			}
			if len(rs) > 1 {
				multi = true
				c.Count("multirune", 1)
			}
		case op < 12:
			c.Tracef("backspace")
			key(tea.KeyMsg{Type: tea.KeyBackspace})
			if m.focus && !m.dropSel() && m.cur > 0 {
				a := m.cl()
				m.set(append(append([]string{}, a[:m.cur-1]...), a[m.cur:]...), m.cur-1)
				c.Count("deletes", 1)
			}
		case op < 13:
			c.Tracef("delete")
			key(tea.KeyMsg{Type: tea.KeyDelete})
			switch {
			case m.focus && handlers == 2 && (m.cur > 0 || m.selA < m.selB): // deletes backwards; at the start it is not handled
				if !m.dropSel() {
					a := m.cl()
					m.set(append(append([]string{}, a[:m.cur-1]...), a[m.cur:]...), m.cur-1)
				}
				c.Count("handled", 1)
			case m.focus && !m.dropSel() && m.cur < m.n():
				a := m.cl()
				m.set(append(append([]string{}, a[:m.cur]...), a[m.cur+1:]...), m.cur)
				c.Count("deletes", 1)
			}
		case op < 20:
			k := []tea.KeyMsg{{Type: tea.KeyLeft}, {Type: tea.KeyLeft}, {Type: tea.KeyLeft}, {Type: tea.KeyRight}, {Type: tea.KeyRight}, {Type: tea.KeyHome}, {Type: tea.KeyEnd}, {Type: tea.KeyRune, Rune: 'e', Ctrl: true}}[r.IntN(8)]
			c.Tracef("%s", k.String())
			key(k)
			if m.focus {
				m.selA, m.selB = 0, 0
				switch k.Type {
				case tea.KeyLeft:
					m.cur = max(0, m.cur-1)
				case tea.KeyRight:
					m.cur = min(m.n(), m.cur+1)
				case tea.KeyHome:
					m.cur = 0
				default:
					m.cur = m.n()
				}
			}
		case op == 20:
			c.Tracef("ctrl+a")
			key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'a', Ctrl: true})
			if m.focus {
				m.cur = m.n()
				m.selA, m.selB = 0, m.cur
				if m.cur > 0 {
					c.Count("selected", 1)
				}
			}
		case op == 21:
			if r.IntN(3) > 0 {
				continue
			}
			c.Tracef("ctrl+u")
			key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'u', Ctrl: true})
			if m.focus {
				m.s, m.cur, m.selA, m.selB = "", 0, 0, 0
			}
		case op == 22 && handlers > 0 && r.IntN(3) > 0:
			k := []tea.KeyMsg{{Type: tea.KeyF2}, {Type: tea.KeyF3}, {Type: tea.KeyF4}, {Type: tea.KeyF5}, {Type: tea.KeyF6}, {Type: tea.KeyF7}, {Type: tea.KeyF8}, {Type: tea.KeyF9}}[r.IntN(8)]
			c.Tracef("%s", k.String())
			key(k)
			c.Count("handled", 1)
			if m.focus {
				switch {
				case k.Type == tea.KeyF3:
					m.insert('#')
				case k.Type == tea.KeyF2 && m.cur > 0:
					m.cur, m.selA, m.selB = 0, 0, 0
				case k.Type == tea.KeyF2 && handlers == 2:
					m.insert('2')
				case k.Type == tea.KeyF4 && m.cur > 0:
					m.cur, m.selA, m.selB = m.cur-1, 0, 0
				case k.Type == tea.KeyF5:
					m.cur = m.n()
					m.selA, m.selB = 0, m.cur
				case k.Type == tea.KeyF6 && m.ph != "of the handler":
					m.ph = "of the handler"
				case k.Type == tea.KeyF7:
					m.focus = false
				case k.Type == tea.KeyF8 && m.show:
					m.show = false
				case k.Type == tea.KeyF9 && m.width != 7:
					m.width = 7
				case handlers == 2 && (k.Type == tea.KeyF6 || k.Type == tea.KeyF8 || k.Type == tea.KeyF9):
					m.insert('2')
				}
			}
		case op == 22: // keys without a meaning here
			k := []tea.KeyMsg{
				{Type: tea.KeyEnter}, {Type: tea.KeyTab}, {Type: tea.KeyEsc}, {Type: tea.KeyUp}, {Type: tea.KeyDown}, {Type: tea.KeyPgUp}, {Type: tea.KeyF1},
				{Type: tea.KeyRune, Rune: 'x', Ctrl: true}, {Type: tea.KeyRune, Rune: 'k', Alt: true}, {Type: tea.KeyRune, Rune: 'w', Ctrl: true}, {Type: tea.KeyRune, Rune: 'c', Ctrl: true}, {Type: tea.KeyCtrlC},
				{Type: tea.KeySpace, Rune: ' ', Alt: true},
			}[r.IntN(13)]
			c.Tracef("other key %q", k.String())
			key(k)
			c.Count("ignored", 1)
		case op == 23:
			s := txt.String(r, cl, length())
			c.Tracef("Content(%q)", s)
			in = in.Content(s)
			m.s = s
			m.cur = min(m.cur, m.n())
			m.selA, m.selB = min(m.selA, m.n()), min(m.selB, m.n())
		case op < 26:
			s := txt.String(r, cl, length())
			p := r.IntN(20) - 2
			if big {
				p = r.IntN(800)
			}
			if r.IntN(8) == 0 {
				p = []int{-1 << 62, 1 << 62}[r.IntN(2)]
			}
			c.Tracef("SetContent(%q, %d)", s, p)
			in = in.SetContent(s, p)
			m.s = s
			m.cur = clamp(p, 0, m.n())
			m.selA, m.selB = 0, 0
		case op == 26:
			w := r.IntN(14) - 1
			if big {
				w = r.IntN(600)
			}
			c.Tracef("Width(%d)", w)
			in, m.width = in.Width(w), max(1, w)
		case op == 27:
			f := r.IntN(3) > 0
			c.Tracef("Focused(%v)", f)
			in, m.focus = in.Focused(f), f
		case op == 28:
			if r.IntN(2) == 0 {
				m.show = r.IntN(2) == 0
				c.Tracef("ShowCursor(%v)", m.show)
				in = in.ShowCursor(m.show)
			} else {
				m.ph = txt.String(r, cl, r.IntN(14))
				c.Tracef("Placeholder(%q)", m.ph)
				in = in.Placeholder(m.ph)
			}
		case op == 29:
			in = p19validator(c, in, m)
		}
		p19check(c, in, m)
	}
	if next, cmd := in.Update(tea.WindowSizeMsg{Width: 5, Height: 5}); cmd != nil || next.View() != in.View() || next.Value() != in.Value() {
		c.Failf("a message that is no key changes the input")
	}
	if multi || m.n() > m.width {
		c.Seen(c.TraceText())
		c.Sample(c.TraceText())
	}
}

func p19validator(c *fw.Ctx, in input.Input, m *inputM) input.Input {
	r := c.R
	pick := func() (input.ValidationFunc, func(n int, s string) error, string) {
		a, b := r.IntN(8), r.IntN(12)
		switch r.IntN(5) {
		case 0:
			return input.NotEmpty(), func(n int, s string) error {
				if n == 0 {
					return input.ErrEmpty
				}
				return nil
			}, "NotEmpty"
		case 1:
			return input.MinLength(a), func(n int, s string) error {
				if n < a {
					return input.ErrTooShort
				}
				return nil
			}, fmt.Sprintf("MinLength(%d)", a)
		case 2:
			return input.MaxLength(a), func(n int, s string) error {
				if n > a {
					return input.ErrTooLong
				}
				return nil
			}, fmt.Sprintf("MaxLength(%d)", a)
		case 3:
			return input.Range(a, b), func(n int, s string) error {
				if n < a {
					return input.ErrTooShort
				}
				if n > b {
					return input.ErrTooLong
				}
				return nil
			}, fmt.Sprintf("Range(%d,%d)", a, b)
		}
		f := func(s string) error {
			if strings.Contains(s, "b") {
				return input.ErrInvalidFormat
			}
			return nil
		}
		return f, func(n int, s string) error { return f(s) }, "NoB"
	}
	var fs []input.ValidationFunc
	var ms []func(n int, s string) error
	name := ""
	for k := 1 + r.IntN(3); k > 0; k-- {
		f, g, s := pick()
		fs, ms, name = append(fs, f), append(ms, g), name+" "+s
	}
	f := fs[0]
	if len(fs) > 1 {
		f = input.Chain(fs...)
	}
	want := func(n int, s string) error {
		for _, g := range ms {
			if err := g(n, s); err != nil {
				return err
			}
		}
		return nil
	}
	c.Tracef("Validator(%s)", name)
	for k := 0; k < 3; k++ {
		s := txt.String(r, txt.Typed, r.IntN(12))
		if got, w := f(s), want(len(txt.Split(s)), s); got != w {
			c.Failf("validator%s on %q: %v, want %v", name, s, got, w)
		}
	}
	m.valid = func(n int, s string) bool { return want(n, s) == nil }
	c.Count("validators", 1)
	return in.Validator(f)
}

func p19check(c *fw.Ctx, in input.Input, m *inputM) {
	c.Count("steps", 1)
	cl := m.cl()
	if in.Value() != m.s {
		c.Failf("content is %q, an ideal editor holds %q", in.Value(), m.s)
	}
	if in.CursorPosition() != m.cur {
		c.Failf("cursor is at %d of %q, an ideal editor's at %d", in.CursorPosition(), m.s, m.cur)
	}
	at, after := "", ""
	if m.cur < len(cl) {
		at, after = cl[m.cur], strings.Join(cl[m.cur+1:], "")
	}
	if b, a, f := in.ContentParts(); b != strings.Join(cl[:m.cur], "") || a != at || f != after {
		c.Failf("ContentParts() = %q %q %q of %q at %d", b, a, f, m.s, m.cur)
	}
	if in.IsFocused() != m.focus {
		c.Failf("IsFocused() = %v", in.IsFocused())
	}
	if want := m.valid == nil || m.valid(len(cl), m.s); in.IsValid() != want {
		c.Failf("IsValid() = %v for %q", in.IsValid(), m.s)
	}
	view := in.View()
	c.Count("views", 1)
	ss, ok := spans(view)
	if !ok || strings.ContainsAny(view, "\n\r") || strings.ToValidUTF8(view, "") != view {
		c.Failf("the view is not one line of text: %q", view)
	}
	plain := txt.Strip(view)
	lo, _ := wRange(txt.Split(plain))
	if lo > m.width {
		c.Failf("the view %q takes %d columns of %d", view, lo, m.width)
	}
	if m.s == "" && !m.focus {
		p := txt.Split(m.ph)
		for k := len(p); ; k-- {
			if k < 0 {
				c.Failf("empty and without focus, the view is %q, not the placeholder %q", view, m.ph)
			}
			if plain == strings.Join(p[:k], "") {
				if _, hi := wRange(p[:min(len(p), k+1)]); k < len(p) && hi <= m.width {
					c.Failf("the placeholder %q is cut too early: %q", m.ph, view)
				}
				break
			}
		}
		return
	}
	blank := 0
	if m.focus && m.show && m.cur == len(cl) {
		blank = 1
	}
	_, hi := wRange(cl)
	fits := hi+blank <= m.width
	if !fits {
		c.Count("scrolled", 1)
	}
	if !m.focus || !m.show {
		if len(ss) > 1 || len(ss) == 1 && ss[0].on {
			c.Failf("a cursor is drawn although it must not: %q", view)
		}
		// a contiguous part
		if fits {
			if plain != m.s {
				c.Failf("the content %q fits but the view is %q", m.s, plain)
			}
			return
		}
		for i := 0; i <= len(cl); i++ {
			for j := i; j <= len(cl); j++ {
				if m.focus && !(i <= m.cur && (m.cur < j || j == len(cl))) {
					continue
				}
				if strings.Join(cl[i:j], "") == plain && p19full(c, m, cl, i, j, 0) {
					return
				}
			}
		}
		if m.cur < len(cl) && txt.Width(cl[m.cur]) > m.width && txt.Width(strings.TrimRight(plain, " ")) == 0 {
			return
		}
		c.Failf("the view %q is not a part of %q around the cursor (%d) filling %d columns", plain, m.s, m.cur, m.width)
	}
	k := -1
	for i, s := range ss {
		if s.on {
			if k >= 0 {
				c.Failf("two cursors in %q", view)
			}
			k = i
		}
	}
	if k < 0 {
		c.Failf("no cursor in %q", view)
	}
	pre, post := "", ""
	if k > 0 {
		pre = ss[k-1].s
	}
	if k+1 < len(ss) {
		post = ss[k+1].s
	}
	got := ss[k].s
	switch {
	case m.cur == len(cl):
		if got != " " || post != "" {
			c.Failf("at the end of %q the cursor is drawn as %q before %q", m.s, got, post)
		}
	case got == cl[m.cur]:
	case txt.Width(cl[m.cur]) > m.width && strings.Trim(got, " ") == "":
	default:
		c.Failf("the cursor is drawn on %q, it is at %q (view %q)", got, cl[m.cur], view)
	}
	for i := 0; i <= m.cur; i++ {
		if strings.Join(cl[i:m.cur], "") != pre {
			continue
		}
		for j := min(m.cur+1, len(cl)); j <= len(cl); j++ {
			if strings.Join(cl[min(m.cur+1, len(cl)):j], "") != post {
				continue
			}
			if fits && (i > 0 || j < len(cl)) {
				continue
			}
			if p19full(c, m, cl, i, j, blank) {
				return
			}
		}
	}
	c.Failf("the view %q is not a part of %q around the cursor filling %d columns", view, m.s, m.width)
}

// p19full: the window shows everything or leaves next to nothing unused.
func p19full(c *fw.Ctx, m *inputM, cl []string, i, j, blank int) bool {
	if i == 0 && j == len(cl) || m.cur < len(cl) && txt.Width(cl[m.cur]) > m.width {
		return true
	}
	_, hi := wRange(cl[i:j])
	return hi+blank >= m.width-2
}
