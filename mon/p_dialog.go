package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"slices"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/components/confirm"
	"github.com/phoenix-tui/phoenix/components/form"
	formb "github.com/phoenix-tui/phoenix/components/form/verifbridge"
	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/components/modal"
	"github.com/phoenix-tui/phoenix/components/progress"
	selectc "github.com/phoenix-tui/phoenix/components/select"
	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
	"phoenixverif/vt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P24", Quick: 100000, Thorough: 2500000, Case: p24,
		Rule:   "random histories of keys and settings on confirmations, modals (drawn on a terminal emulator), forms with real and instrumented fields, and progress indicators, each against its own model",
		Assume: []string{"captions and labels without control characters, content of a modal without control characters other than line feeds and tabs", "a terminal with room for borders, title and buttons"},
		Need: map[string]int64{"answers": 5000, "shortcut": 2000, "after": 2000, "boxes": 50000, "cut": 20000, "moved": 2000, "pressed": 500,
			"submits": 5000, "rejected": 5000, "errors": 10000, "shown valid": 5000, "delegated": 30000, "bars": 50000, "frames": 20000, "tabs": 10000}})
}

func p24(c *fw.Ctx) {
	switch c.R.IntN(8) {
	case 0, 1:
		p24confirm(c)
	case 2, 3:
		p24modal(c)
	case 4, 5, 6:
		p24form(c)
	default:
		p24progress(c)
	}
	c.Seen(c.TraceText())
	c.Sample(c.TraceText())
}

func oneOf[T any](c *fw.Ctx, xs ...T) T { return xs[c.R.IntN(len(xs))] }

// ---- confirm

var confirmLabels = []string{"Yes", "No", "Cancel", "Delete", "Save", "yes", "Éxit", "да", "Нет", "はい", "ñandú", "ok", "", "1", "no way", "Keep it", "cancel order"}

func p24confirm(c *fw.Ctx) {
	r := c.R
	title := oneOf(c, "", "Sure?", "削除しますか？", "Title\nsecond line")
	desc := ""
	labels := []string{"Yes", "No"}
	focus, done := 1, false
	// What was answered: one of the three, or either of two for a negative button labelled Cancel.
	var yes, no, cancel bool
	either := false
	k := confirm.New(title)
	c.Tracef("confirm %q", title)
	check := func() {
		var b []string
		for i, l := range labels {
			if i == focus {
				b = append(b, "[ "+l+" ]")
			} else {
				b = append(b, "( "+l+" )")
			}
		}
		want := title + "\n"
		if desc != "" {
			want += desc + "\n"
		}
		want += "\n" + strings.Join(b, "  ")
		if g := k.View(); g != want {
			c.Failf("the view is %q, expected %q", g, want)
		}
		if k.Done() != done {
			c.Failf("done is %v, expected %v", k.Done(), done)
		}
		gy, gn, gc := k.IsYes(), k.IsNo(), k.IsCanceled()
		if either && done && !gy && gn != gc {
			return
		}
		if gy != yes || gn != no || gc != cancel {
			c.Failf("answer yes=%v no=%v canceled=%v, expected %v %v %v", gy, gn, gc, yes, no, cancel)
		}
	}
	check()
	key := func(m tea.KeyMsg, answer int) { // answer: button index, -1 cancelled, -2 none
		c.Tracef("key %q", m.String())
		was := done
		before := *k
		next, cmd := k.Update(m)
		if was {
			c.Count("after", 1)
			answer = -2
		}
		if answer != -2 {
			c.Count("answers", 1)
			done = true
			if answer >= 0 {
				focus = answer
			}
			yes, cancel = answer == 0, answer == -1 || answer == 2
			no = answer == 1
			either = answer == 1 && labels[1] == "Cancel"
		}
		if (cmd != nil) != (answer != -2) {
			c.Failf("key %q: command %v, expected an answer: %v", m.String(), cmd != nil, answer != -2)
		}
		if cmd != nil {
			msg, ok := cmd().(confirm.ConfirmResultMsg)
			if !ok || msg.Result != next.Result() {
				c.Failf("key %q reported %#v, the answer is %v", m.String(), cmd(), next.Result())
			}
		}
		if g := k.View(); g != before.View() || k.Done() != was {
			c.Failf("key %q changed the earlier value", m.String())
		}
		k = next
	}
	for i := 2 + r.IntN(12); i > 0; i-- {
		switch op := r.IntN(20); op {
		case 0:
			desc = oneOf(c, "", "This cannot be undone.", "説明")
			c.Tracef("Description(%q)", desc)
			k = k.Description(desc)
		case 1, 2:
			labels[0] = oneOf(c, confirmLabels...)
			c.Tracef("Affirmative(%q)", labels[0])
			k = k.Affirmative(labels[0])
		case 3, 4:
			labels[1] = oneOf(c, confirmLabels...)
			c.Tracef("Negative(%q)", labels[1])
			k = k.Negative(labels[1])
			either = either || done && no && labels[1] == "Cancel"
		case 5, 6:
			on := r.IntN(3) > 0
			c.Tracef("WithCancel(%v)", on)
			k = k.WithCancel(on)
			if labels = labels[:2]; on {
				labels = append(labels, "Cancel")
			}
			focus = min(focus, len(labels)-1)
		case 7:
			c.Tracef("DefaultYes")
			k, focus = k.DefaultYes(), 0
		case 8:
			c.Tracef("DefaultNo")
			k, focus = k.DefaultNo(), 1
		case 9, 10:
			if !done {
				focus = (focus + 1) % len(labels)
				key(oneOf(c, kt(tea.KeyRight), kt(tea.KeyTab)), -2)
			} else {
				key(kt(tea.KeyRight), -2)
			}
		case 11, 12:
			if !done {
				focus = (focus + len(labels) - 1) % len(labels)
				key(oneOf(c, kt(tea.KeyLeft), tea.KeyMsg{Type: tea.KeyTab, Shift: true}), -2)
			} else {
				key(kt(tea.KeyLeft), -2)
			}
		case 13:
			key(kt(tea.KeyEnter), focus)
		case 14:
			if r.IntN(2) == 0 {
				key(oneOf(c, kt(tea.KeyEsc), kt(tea.KeyCtrlC), ctrl('c')), -1)
			}
		case 15, 16:
			rs := []rune(strings.Join(confirmLabels, ""))
			x := rs[r.IntN(len(rs))]
			if l := []rune(labels[r.IntN(len(labels))]); len(l) > 0 && r.IntN(2) == 0 {
				x = []rune(oneOf(c, strings.ToLower, strings.ToUpper)(string(l[0])))[0]
			}
			answer := -2
			for i, l := range labels {
				if f := []rune(l); len(f) > 0 && strings.EqualFold(string(f[0]), string(x)) {
					answer = i
					c.Count("shortcut", 1)
					break
				}
			}
			key(ru(x), answer)
		case 17:
			key(oneOf(c, alt('y'), alt('n'), ctrl('y'), ctrl('n'), ctrl('s'), alt('c'), alt('d'), ctrl('d'), ru(0), kt(tea.KeySpace), kt(tea.KeyUp), kt(tea.KeyBackspace), kt(tea.KeyF1)), -2)
		case 18:
			next, cmd := k.Update(oneOf[tea.Msg](c, tea.WindowSizeMsg{Width: 1, Height: 1}, nil, 7, tea.MouseMsg{}))
			if cmd != nil {
				c.Failf("a message that is no key gave a command")
			}
			k = next
		}
		check()
	}
}

// ---- modal

type modalM struct {
	title   string
	lines   []string
	buttons []modal.Button
	w, h    int
	x, y    int
	center  bool
	tw, th  int
	vis     bool
	dim     bool
	focus   int
}

func (m *modalM) min() int {
	n := 2
	if m.title != "" {
		n += 2
	}
	if len(m.buttons) > 0 {
		n += 2
	}
	return n
}

// modalFit cuts or pads visible text (with its rendition around it) to w columns.
func modalFit(c *fw.Ctx, s string, w int) string {
	plain := txt.Strip(s)
	pre, post := "", ""
	if plain != s {
		pre = "x"
	}
	if strings.Contains(plain, "\t") {
		c.Count("tabs", 1)
		parts := strings.Split(plain, "\t")
		for plain = parts[0]; len(parts) > 1; parts = parts[1:] {
			plain += strings.Repeat(" ", 8-txt.Width(plain)%8) + parts[1]
		}
	}
	if pre != "" {
		pre, post = "\x1b[31m", "\x1b[0m"
	}
	if n := txt.Width(plain); n > w {
		c.Count("cut", 1)
		if w > 3 {
			plain, post = txt.Cut(plain, w-3), post+"..."
			w -= 3
		} else {
			plain = txt.Cut(plain, w)
		}
	}
	return pre + plain + post + strings.Repeat(" ", w-txt.Width(plain))
}

func p24modal(c *fw.Ctx) {
	r := c.R
	cl := txt.Classes(r, txt.All)
	m := &modalM{w: 40, h: 10, center: true, tw: 80, th: 24}
	tabs := r.IntN(6) == 0
	for i := 1 + r.IntN(12); i > 0; i-- {
		s := txt.String(r, cl, r.IntN(oneOf(c, 10, 60)))
		for tabs && r.IntN(3) > 0 {
			s += "\t" + txt.String(r, cl, r.IntN(12))
		}
		if s != "" && r.IntN(5) == 0 {
			s = "\x1b[31m" + s + "\x1b[0m"
		}
		m.lines = append(m.lines, s)
	}
	content := strings.Join(m.lines, "\n")
	k := modal.New(content)
	if r.IntN(2) == 0 {
		m.title = txt.String(r, cl, r.IntN(oneOf(c, 5, 50)))
		k = modal.NewWithTitle(m.title, content)
	}
	c.Tracef("modal %q %q", m.title, content)
	check := func() {
		if k.IsVisible() != m.vis {
			c.Failf("visible is %v, expected %v", k.IsVisible(), m.vis)
		}
		act := ""
		if len(m.buttons) > 0 {
			act = m.buttons[m.focus].Action
		}
		if g := k.FocusedButton(); g != act {
			c.Failf("focused button %q, expected %q", g, act)
		}
		p24modalView(c, k.View(), m)
	}
	check()
	key := func(msg tea.KeyMsg, action *string) {
		c.Tracef("key %q", msg.String())
		next, cmd := k.Update(msg)
		if (cmd != nil) != (action != nil) {
			c.Failf("key %q: command %v, expected %v", msg.String(), cmd != nil, action != nil)
		}
		if cmd != nil {
			c.Count("pressed", 1)
			if g := cmd(); g != any(modal.ButtonPressedMsg{Action: *action}) {
				c.Failf("key %q reported %#v, expected action %q", msg.String(), g, *action)
			}
		}
		k = next
	}
	for i := 2 + r.IntN(10); i > 0; i-- {
		switch op := r.IntN(18); op {
		case 0, 1:
			m.w, m.h = r.IntN(50), r.IntN(16)
			if r.IntN(8) == 0 {
				m.w, m.h = r.IntN(2000)-1000, r.IntN(2000)-1000
			}
			c.Tracef("Size(%d,%d)", m.w, m.h)
			k = k.Size(m.w, m.h)
		case 2:
			m.x, m.y, m.center = r.IntN(40), r.IntN(12), false
			if r.IntN(3) == 0 {
				m.x, m.y = r.IntN(300)-150, r.IntN(300)-150
			}
			c.Tracef("Position(%d,%d)", m.x, m.y)
			k = k.Position(m.x, m.y)
		case 3:
			m.center = true
			c.Tracef("Centered")
			k = k.Centered()
		case 4, 5:
			m.buttons, m.focus = nil, 0
			for i := r.IntN(5); i > 0; i-- {
				m.buttons = append(m.buttons, modal.Button{Label: txt.String(r, cl, r.IntN(8)),
					Key: oneOf(c, "y", "N", "é", "x", "1", "ctrl+s", "F1"), Action: fmt.Sprint("act", r.IntN(100))})
			}
			c.Tracef("Buttons(%q)", m.buttons)
			bs := slices.Clone(m.buttons)
			k = k.Buttons(bs)
			for i := range bs {
				bs[i] = modal.Button{Label: "changed", Key: "c", Action: "changed"}
			}
		case 6:
			m.dim = !m.dim
			c.Tracef("DimBackground(%v)", m.dim)
			k = k.DimBackground(m.dim)
		case 7, 8, 9:
			m.vis = true
			c.Tracef("Show")
			k = k.Show()
		case 10:
			m.vis = r.IntN(2) == 0
			c.Tracef("Show/Hide(%v)", m.vis)
			if k = k.Hide(); m.vis {
				k = k.Show()
			}
		case 11, 12:
			m.tw, m.th = 4+r.IntN(60), 2+r.IntN(24)
			if r.IntN(20) == 0 {
				m.tw, m.th = r.IntN(4)-1, r.IntN(3)-1
			}
			c.Tracef("WindowSizeMsg(%d,%d)", m.tw, m.th)
			next, cmd := k.Update(tea.WindowSizeMsg{Width: m.tw, Height: m.th})
			if cmd != nil {
				c.Failf("a resize gave a command")
			}
			k = next
		case 13:
			if n := len(m.buttons); m.vis && n > 0 {
				m.focus = (m.focus + 1) % n
			}
			key(oneOf(c, kt(tea.KeyTab), kt(tea.KeyRight)), nil)
		case 14:
			if n := len(m.buttons); m.vis && n > 0 {
				m.focus = (m.focus + n - 1) % n
			}
			key(oneOf(c, kt(tea.KeyLeft), tea.KeyMsg{Type: tea.KeyTab, Shift: true}), nil)
		case 15:
			var a *string
			if m.vis && len(m.buttons) > 0 {
				a = &m.buttons[m.focus].Action
			}
			key(kt(tea.KeyEnter), a)
		case 16:
			msg := oneOf(c, ru('y'), ru('n'), ru('É'), ru('X'), ru('1'), ctrl('s'), kt(tea.KeyF1), alt('y'), ctrl('y'), ru('q'), ru('s'))
			var a *string
			for i, b := range m.buttons {
				if m.vis && a == nil && strings.EqualFold(b.Key, msg.String()) {
					a = &m.buttons[i].Action
				}
			}
			key(msg, a)
		case 17:
			key(kt(tea.KeyEsc), nil)
			m.vis = false
			if r.IntN(3) == 0 {
				k = k.Theme(style.DarkTheme())
			}
		}
		check()
	}
}

func p24modalView(c *fw.Ctx, view string, m *modalM) {
	if !m.vis {
		if view != "" {
			c.Failf("a hidden modal draws %q", view)
		}
		return
	}
	if m.tw < 4 || m.th < m.min() {
		return
	}
	c.Count("boxes", 1)
	got, want := vt.New(m.tw, m.th), vt.New(m.tw, m.th)
	got.ResetCells("~")
	want.ResetCells("~")
	if m.dim {
		want.ResetCells("░")
	}
	got.Write([]byte(strings.ReplaceAll(view, "\n", "\r\n")))
	w, h := clamp(m.w, 4, m.tw), clamp(m.h, m.min(), m.th)
	x, y := (m.tw-w)/2, (m.th-h)/2
	if !m.center {
		x, y = clamp(m.x, 0, m.tw-w), clamp(m.y, 0, m.th-h)
		if x != m.x || y != m.y {
			c.Count("moved", 1)
		}
	}
	line := "─"
	rows := []string{"┌" + strings.Repeat(line, w-2) + "┐"}
	sep := "├" + strings.Repeat(line, w-2) + "┤"
	row := func(s string) { rows = append(rows, "│ "+modalFit(c, s, w-4)+" │") }
	if m.title != "" {
		row(m.title)
		rows = append(rows, sep)
	}
	end := h - 1
	if len(m.buttons) > 0 {
		end -= 2
	}
	for i := 0; len(rows) < end; i++ {
		if i < len(m.lines) {
			row(m.lines[i])
		} else {
			row("")
		}
	}
	if len(m.buttons) > 0 {
		var bs []string
		for i, b := range m.buttons {
			if i == m.focus {
				bs = append(bs, "< "+b.Label+" >")
			} else {
				bs = append(bs, "[ "+b.Label+" ]")
			}
		}
		rows = append(rows, sep)
		row(strings.Join(bs, "  "))
	}
	rows = append(rows, "└"+strings.Repeat(line, w-2)+"┘")
	for i, s := range rows {
		want.SetCursor(x, y+i)
		want.Write([]byte(s))
	}
	if len(got.Unknown) > 0 || got.ScrollAny > 0 || got.Clipped > 0 || got.Wraps > 0 && !m.dim {
		c.Failf("the view scrolls, wraps or leaves the screen (%d, %d, %d, unknown %q)\n%q", got.ScrollAny, got.Wraps, got.Clipped, got.Unknown, view)
	}
	for y := range m.th {
		for x := range m.tw {
			if !vt.SameCell(got.CellAt(x, y), want.CellAt(x, y)) {
				c.Failf("terminal %dx%d, cell %d,%d differs:\n%s\nexpected:\n%s", m.tw, m.th, x, y, got.Dump(), want.Dump())
			}
		}
	}
}

// ---- form

// probe is a field that records what reaches it.
type probe struct {
	text string
	seen int
	cmd  bool
}

type probeMsg struct{ n int }

// label is a field without a value or an Update method: it is its own value.
type label string

func (l label) View() string { return string(l) }

// choice and pick are fields whose value may be missing, of any type and of one.
type choice struct{ p probe }

func (p choice) View() string                       { return p.p.View() }
func (p choice) SelectedValue() (interface{}, bool) { return p.p.text, p.p.text != "" }
func (p choice) Update(msg tea.Msg) (choice, tea.Cmd) {
	q, cmd := p.p.Update(msg)
	q.text = last(q.text)
	return choice{q}, cmd
}

type pick struct{ p probe }

func (p *pick) View() string                  { return p.p.View() }
func (p *pick) SelectedValue() (string, bool) { return p.p.text, p.p.text != "" }
func (p *pick) Update(msg tea.Msg) (*pick, tea.Cmd) {
	q, cmd := p.p.Update(msg)
	q.text = last(q.text)
	return &pick{q}, cmd
}

// last is the last character of s, nothing if that is a digit.
func last(s string) string {
	rs := []rune(s)
	if len(rs) == 0 || rs[len(rs)-1] >= '0' && rs[len(rs)-1] <= '9' {
		return ""
	}
	return string(rs[len(rs)-1])
}

func (p probe) Value() string { return p.text }
func (p probe) View() string  { return "<" + p.text + ">" }
func (p probe) Update(msg tea.Msg) (probe, tea.Cmd) {
	p.seen++
	if k, ok := msg.(tea.KeyMsg); ok && k.Type == tea.KeyRune && !k.Ctrl && !k.Alt {
		p.text += string(k.Rune)
	} else if ok && k.Type == tea.KeySpace {
		p.text += " "
	}
	if p.cmd {
		n := p.seen
		return p, func() tea.Msg { return probeMsg{n} }
	}
	return p, nil
}

type rule struct {
	name string
	v    formb.Validator
	ok   func(s string, has bool) bool
}

var errCustom = errors.New("custom says no")

func isIn(s, extra string) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || strings.IndexByte(extra, b) >= 0) {
			return false
		}
	}
	return true
}

func mail(s string) bool {
	a, d, ok := strings.Cut(s, "@")
	i := strings.LastIndexByte(d, '.')
	if !ok || a == "" || i < 1 || !isIn(a, "._%+-") || !isIn(d[:i], ".-") {
		return false
	}
	tld := d[i+1:]
	return len(tld) >= 2 && isIn(tld, "") && !strings.ContainsAny(tld, "0123456789")
}

func randRule(c *fw.Ctx) rule {
	n := c.R.IntN(5)
	switch c.R.IntN(6) {
	case 0, 1:
		return rule{"Required", formb.Required(), func(s string, has bool) bool { return has && strings.TrimSpace(s) != "" }}
	case 2:
		return rule{fmt.Sprintf("MinLength(%d)", n), formb.MinLength(n), func(s string, has bool) bool { return has && len(txt.Split(s)) >= n }}
	case 3:
		return rule{fmt.Sprintf("MaxLength(%d)", n), formb.MaxLength(n), func(s string, has bool) bool { return has && len(txt.Split(s)) <= n }}
	case 4:
		if c.R.IntN(2) == 0 {
			return rule{"Email", formb.Email(), func(s string, has bool) bool { return has && mail(s) }}
		}
		return rule{"Pattern", formb.Pattern(`^[a-c]*$`), func(s string, has bool) bool { return has && strings.Trim(s, "abc") == "" }}
	}
	return rule{"Custom", formb.Custom(func(v any) error {
		if s, _ := v.(string); strings.Contains(s, "b") {
			return errCustom
		}
		return nil
	}), func(s string, has bool) bool { return !strings.Contains(s, "b") }}
}

type fieldM struct {
	name, label string
	kind        int // 0 probe, 1 input, 2 select, 3 label, 4 choice, 5 pick
	text        string
	has         bool // has a value at all
	seen        int
	cmd         bool
	rules       []rule
	touched     bool
	checked     bool // its errors are known
	dirty       bool
}

// formText is what a field may hold: several code points to a character, blanks
// of every kind, more than one line.
func formText(c *fw.Ctx) string {
	switch c.R.IntN(8) {
	case 0:
		return txt.String(c.R, txt.All, c.R.IntN(6))
	case 1:
		return oneOf(c, "\t", " \u00a0", "\u3000", "\n", "\u2003\n", "\u200b", "\u2028")
	case 2:
		return oneOf(c, "abc\n", "abc\nx", "x\nabc", "a@b.co\n", "x\na@b.co", "a@b.co\nx", "a\nb")
	case 3:
		return strings.Repeat(oneOf(c, "e\u0301", "👍\U0001F3FD", "🇩🇪", "👨\u200d👩\u200d👧", "한", "각"), c.R.IntN(6))
	}
	return oneOf(c, "", "", "ab", "a@b.co", "日本")
}

// bad names the rules that do not hold.
func (f *fieldM) bad() (names []string) {
	for i, x := range f.rules {
		ok := x.ok(f.text, f.has)
		if f.kind == 3 { // not a string
			ok = x.name == "Required" || x.name == "Custom"
		}
		if !ok {
			names = append(names, fmt.Sprint(i+1, ".", x.name))
		}
	}
	return
}

func p24form(c *fw.Ctx) {
	r := c.R
	title := oneOf(c, "", "Sign up", "登録フォーム", "Formulário 👍\U0001F3FD")
	f := form.New(title)
	c.Tracef("form %q", title)
	var fs []*fieldM
	add := func() {
		n := len(fs)
		m := &fieldM{name: fmt.Sprint("f", n), label: oneOf(c, "Name", "Émail", "住所", ""), has: true, kind: oneOf(c, 0, 0, 1, 1, 2, 3, 4, 5)}
		for i := r.IntN(4); i > 0; i-- {
			m.rules = append(m.rules, randRule(c))
		}
		var fm formb.FieldModel
		switch m.kind {
		case 0:
			m.text, m.cmd = formText(c), r.IntN(3) == 0
			fm = probe{text: m.text, cmd: m.cmd}
		case 1:
			m.text = oneOf(c, "", "", " ", "ca", "x@y.zz", "né", "e\u0301", "abc👨\u200d👩\u200d👧", "\u00a0", "\u3000 ")
			in := input.New(20).Focused(true).SetContent(m.text, len(txt.Split(m.text)))
			fm = in
			if r.IntN(2) == 0 {
				fm = &in
			}
		case 2:
			s := selectc.NewString("", []string{"a", "bb", "日本語"})
			for m.has = false; r.IntN(2) == 0; {
				s, _ = s.Update(kt(tea.KeyDown))
			}
			if r.IntN(2) == 0 {
				s, _ = s.Update(kt(tea.KeyEnter))
				m.text, m.has = s.SelectedValue()
			}
			fm = s
		case 3:
			fm = label("fixed")
		case 4, 5:
			m.text, m.cmd = oneOf(c, "", "", "a", "b", " ", "日"), r.IntN(3) == 0
			m.has = m.text != ""
			fm = choice{probe{text: m.text, cmd: m.cmd}}
			if m.kind == 5 {
				fm = &pick{probe{text: m.text, cmd: m.cmd}}
			}
		}
		var vs []formb.Validator
		var names []string
		for _, x := range m.rules {
			names = append(names, x.name)
			tag := fmt.Sprint(m.name, " ", len(names), ".", x.name)
			vs = append(vs, func(v any) error {
				if err := x.v(v); err != nil {
					return fmt.Errorf("%s: %w", tag, err)
				}
				return nil
			})
		}
		c.Tracef("Field(%q, %q, kind %d %q %v, %s)", m.name, m.label, m.kind, m.text, m.has, strings.Join(names, " "))
		f = f.Field(m.name, m.label, fm, vs...)
		for i := range vs {
			vs[i] = func(any) error { return errCustom }
		}
		fs = append(fs, m)
	}
	focus := 0
	for i := r.IntN(5); i > 0; i-- {
		add()
	}
	check := func() {
		// Fields
		dirty, errs, errored := false, f.Errors(), 0
		vals := f.Values()
		if len(vals) != len(fs) || f.Value("other") != nil {
			c.Failf("%d values, expected %d", len(vals), len(fs))
		}
		lines := []string{}
		if title != "" {
			lines = append(lines, title, strings.Repeat("─", txt.Width(title)), "")
		}
		for i, m := range fs {
			dirty = dirty || m.dirty
			fm := f.Value(m.name)
			if m.kind < 2 {
				if v := fm.(interface{ Value() string }).Value(); v != m.text {
					c.Failf("field %s holds %q, expected %q", m.name, v, m.text)
				}
			}
			seen, text := m.seen, m.text
			switch p := fm.(type) {
			case probe:
				seen = p.seen
			case choice:
				seen, text = p.p.seen, p.p.text
			case *pick:
				seen, text = p.p.seen, p.p.text
			}
			if seen != m.seen || text != m.text {
				c.Failf("field %s received %d messages and holds %q, expected %d and %q", m.name, seen, text, m.seen, m.text)
			}
			var want []string
			if m.checked {
				want = m.bad()
			}
			n := len(want)
			if n > 0 {
				errored++
				c.Count("errors", 1)
			}
			if len(errs[m.name]) != n {
				c.Failf("field %s has errors %q, expected %d", m.name, errs[m.name], n)
			}
			for i, e := range errs[m.name] {
				if !strings.HasPrefix(e, m.name+" "+want[i]+": ") {
					c.Failf("field %s has errors %q, expected %q", m.name, errs[m.name], want)
				}
			}
			if i > 0 {
				lines = append(lines, "")
			}
			l := m.label + ":"
			if i == focus {
				l += " ← focused"
			}
			lines = append(lines, l)
			lines = append(lines, strings.Split(fm.View(), "\n")...)
			for _, e := range errs[m.name] {
				lines = append(lines, "✗ "+e)
			}
			if n == 0 && m.touched {
				c.Count("shown valid", 1)
				lines = append(lines, "✓ Valid")
			}
		}
		if len(fs) == 0 {
			lines = append(lines, "")
		}
		lines[len(lines)-1] += ""
		lines = append(lines, strings.Repeat("─", 40), "Tab: next field  Shift+Tab: prev  Enter: submit")
		if len(errs) != errored || f.IsValid() != (errored == 0) {
			c.Failf("errors %q and valid=%v, expected %d fields in error", errs, f.IsValid(), errored)
		}
		if f.IsDirty() != dirty {
			c.Failf("dirty is %v, expected %v", f.IsDirty(), dirty)
		}
		if g, want := f.View(), strings.Join(lines, "\n"); g != want {
			c.Failf("the view is\n%s\nexpected\n%s", g, want)
		}
	}
	check()
	update := func(msg tea.Msg) tea.Cmd {
		if k, ok := msg.(tea.KeyMsg); ok {
			c.Tracef("key %q", k.String())
		} else {
			c.Tracef("message %#v", msg)
		}
		was := f.View()
		next, cmd := f.Update(msg)
		if f.View() != was {
			c.Failf("updating changed the earlier value")
		}
		f = next
		return cmd
	}
	// deliver a message for the focused field, text is what it becomes
	deliver := func(msg tea.Msg, change func(m *fieldM) string) {
		cmd := update(msg)
		if len(fs) == 0 {
			if cmd != nil {
				c.Failf("a form without fields gave a command")
			}
			return
		}
		m := fs[focus]
		c.Count("delegated", 1)
		if m.kind == 3 {
			if cmd != nil {
				c.Failf("a field without Update gave a command")
			}
			return
		}
		m.seen++
		if m.kind != 2 && change != nil {
			if s := change(m); s != m.text {
				m.checked = m.checked && (m.touched || len(m.bad()) > 0) // otherwise its errors are not looked for again
				m.text, m.dirty = s, true
				m.has = m.kind < 2 || s != ""
			}
		}
		if want := m.cmd; (cmd != nil) != want {
			c.Failf("command %v from field %s, expected %v", cmd != nil, m.name, want)
		} else if want {
			if g := cmd(); g != any(probeMsg{m.seen}) {
				c.Failf("the field's command gave %#v", g)
			}
		}
	}
	for i := 3 + r.IntN(20); i > 0; i-- {
		switch op := r.IntN(16); op {
		case 0, 1, 2, 3, 4:
			x := oneOf(c, []rune("abbacd@.é日12c ")...)
			k := ru(x)
			if x == ' ' && r.IntN(2) == 0 {
				k = kt(tea.KeySpace)
			}
			deliver(k, func(m *fieldM) string {
				if m.kind > 3 {
					return last(m.text + string(x))
				}
				return m.text + string(x)
			})
		case 5:
			deliver(kt(tea.KeyBackspace), func(m *fieldM) string {
				if s := txt.Split(m.text); m.kind == 1 && len(s) > 0 {
					return strings.Join(s[:len(s)-1], "")
				}
				return m.text
			})
		case 6, 7, 8:
			cmd := update(kt(tea.KeyTab))
			if cmd != nil {
				c.Failf("tab gave a command")
			}
			if n := len(fs); n > 0 {
				fs[focus].touched, fs[focus].checked = true, true
				focus = (focus + 1) % n
			}
		case 9:
			cmd := update(tea.KeyMsg{Type: tea.KeyTab, Shift: true})
			if cmd != nil {
				c.Failf("shift+tab gave a command")
			}
			if n := len(fs); n > 0 {
				fs[focus].touched, fs[focus].checked = true, true
				focus = (focus + n - 1) % n
			}
		case 10, 11, 12:
			bad := 0
			for _, m := range fs {
				m.checked = true
				bad += len(m.bad())
			}
			cmd := update(kt(tea.KeyEnter))
			if bad > 0 {
				c.Count("rejected", 1)
				if cmd != nil {
					c.Failf("a form with %d errors was submitted", bad)
				}
				break
			}
			c.Count("submits", 1)
			if cmd == nil {
				c.Failf("a valid form was not submitted: %q", f.Errors())
			}
			if _, ok := cmd().(form.SubmitMsg); !ok {
				c.Failf("submitting gave %#v", cmd())
			}
		case 13:
			if cmd := update(oneOf(c, kt(tea.KeyEsc), kt(tea.KeyCtrlC), ctrl('c'))); !isQuit(cmd) {
				c.Failf("the quit key did not quit")
			}
		case 14:
			deliver(oneOf[tea.Msg](c, tea.WindowSizeMsg{Width: 5, Height: 5}, probeMsg{1}, nil), nil)
		case 15:
			if len(fs) < 6 {
				add()
			}
		}
		check()
	}
}

// ---- progress

func p24progress(c *fw.Ctx) {
	r := c.R
	if r.IntN(3) == 0 {
		p24spinner(c)
		return
	}
	w, pct := r.IntN(60)-3, r.IntN(160)-30
	if r.IntN(50) == 0 {
		w = r.IntN(2000)
	}
	b := *progress.NewBarWithProgress(w, pct)
	c.Tracef("NewBarWithProgress(%d,%d)", w, pct)
	w, pct = max(1, w), clamp(pct, 0, 100)
	fillC, emptyC, label, show := '█', '░', "", false
	for i := 1 + r.IntN(20); i > 0; i-- {
		d := r.IntN(60) - 20
		if r.IntN(8) == 0 {
			d = oneOf(c, math.MaxInt, math.MinInt, math.MaxInt-50, math.MinInt+50, 1000)
		}
		sum := new(big.Int)
		switch r.IntN(8) {
		case 0:
			sum.SetInt64(int64(d))
			c.Tracef("SetProgress(%d)", d)
			b = b.SetProgress(d)
		case 1, 2:
			sum.Add(big.NewInt(int64(pct)), big.NewInt(int64(d)))
			c.Tracef("Increment(%d)", d)
			b = b.Increment(d)
		case 3:
			sum.Sub(big.NewInt(int64(pct)), big.NewInt(int64(d)))
			c.Tracef("Decrement(%d)", d)
			b = b.Decrement(d)
		default:
			sum.SetInt64(int64(pct))
			switch r.IntN(6) {
			case 0:
				fillC = oneOf(c, '#', '▓', 'é')
				b = b.FillChar(fillC)
			case 1:
				emptyC = oneOf(c, '-', '▒', ' ')
				b = b.EmptyChar(emptyC)
			case 2:
				show = !show
				b = b.ShowPercent(show)
			case 3:
				label = oneOf(c, "", "Loading", "読込")
				b = b.Label(label)
			case 4:
				b = b.Theme(style.LightTheme())
			case 5:
				b, _ = b.Update(tea.TickMsg{})
			}
			c.Tracef("settings %c %c %v %q", fillC, emptyC, show, label)
		}
		switch {
		case sum.Cmp(big.NewInt(100)) > 0:
			pct = 100
		case sum.Sign() < 0:
			pct = 0
		default:
			pct = int(sum.Int64())
		}
		c.Count("bars", 1)
		if b.Progress() != pct || b.IsComplete() != (pct == 100) {
			c.Failf("progress %d complete=%v, expected %d", b.Progress(), b.IsComplete(), pct)
		}
		v, ok := b.View(), true
		if label != "" {
			v, ok = strings.CutPrefix(v, label+" ")
		}
		if show && ok {
			v, ok = strings.CutSuffix(v, fmt.Sprintf(" %03d%%", pct))
		}
		rs := []rune(v)
		full := 0
		for full < len(rs) && rs[full] == fillC {
			full++
		}
		if !ok || len(rs) != w || strings.Trim(string(rs[full:]), string(emptyC)) != "" {
			c.Failf("the bar is %q, expected %d characters of %c and %c", b.View(), w, fillC, emptyC)
		}
		if e := full*100 - w*pct; e >= 100 || e <= -100 || (full == w) != (pct == 100) && w > 0 || pct == 0 && full > 0 {
			c.Failf("%d of %d characters are filled at %d%%", full, w, pct)
		}
	}
}

var spinFrames = map[string]string{"dots": "⠋ ⠙ ⠹ ⠸ ⠼ ⠴ ⠦ ⠧ ⠇ ⠏", "line": `| / - \`, "arrow": "← ↖ ↑ ↗ → ↘ ↓ ↙",
	"circle": "◐ ◓ ◑ ◒", "bounce": "⠁ ⠂ ⠄ ⡀ ⢀ ⠠ ⠐ ⠈", "no such style": "⠋ ⠙ ⠹ ⠸ ⠼ ⠴ ⠦ ⠧ ⠇ ⠏"}

func p24spinner(c *fw.Ctx) {
	r := c.R
	var s progress.Spinner
	var frames []string
	fps := 10
	if r.IntN(2) == 0 {
		name := oneOf(c, "dots", "line", "arrow", "circle", "bounce", "no such style")
		c.Tracef("NewSpinner(%q)", name)
		s, frames = *progress.NewSpinner(name), strings.Fields(spinFrames[name])
	} else {
		for i := r.IntN(6); i > 0; i-- {
			frames = append(frames, txt.String(r, txt.All, 1+r.IntN(4)))
		}
		fps = r.IntN(4) * 500
		c.Tracef("NewSpinnerCustom(%q, %d)", frames, fps)
		given := slices.Clone(frames)
		s = *progress.NewSpinnerCustom(given, fps)
		clear(given)
		if len(frames) == 0 {
			frames = []string{s.View()} // a default frame
		}
	}
	label, at := "", 0
	if s.Init() == nil {
		c.Failf("the spinner is not started")
	}
	for i := 1 + r.IntN(30); i > 0; i-- {
		switch r.IntN(6) {
		case 0:
			if r.IntN(2) == 0 {
				s = s.Theme(oneOf(c, nil, style.DarkTheme(), style.LightTheme()))
			}
			label = oneOf(c, "", "Loading…", "読込")
			c.Tracef("Label(%q)", label)
			s = s.Label(label)
		case 1:
			next, cmd := s.Update(oneOf[tea.Msg](c, ru('x'), nil, tea.WindowSizeMsg{}))
			if cmd != nil {
				c.Failf("a message that is no tick gave a command")
			}
			s = next
		default:
			next, cmd := s.Update(tea.TickMsg{})
			if cmd == nil {
				c.Failf("the spinner stops after a tick")
			}
			if fps >= 500 && r.IntN(40) == 0 {
				t := time.Now()
				if _, ok := cmd().(tea.TickMsg); !ok || time.Since(t) < time.Second/time.Duration(fps) {
					c.Failf("the next tick came after %v, expected %v", time.Since(t), time.Second/time.Duration(fps))
				}
			}
			s = next
			at++
			c.Tracef("tick")
		}
		c.Count("frames", 1)
		want := frames[at%len(frames)]
		if label != "" {
			want += " " + label
		}
		if g := s.View(); g != want {
			c.Failf("the spinner shows %q, expected %q", g, want)
		}
	}
}
