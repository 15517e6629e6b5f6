package main

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P20", Quick: 250000, Thorough: 1500000, Case: p20,
		Rule:   "random histories of keys, settings and callbacks on a text area against an editor model on lists of lines",
		Assume: []string{"lines that fit the width, without control characters", "movement validators are functions of their arguments"},
		Need:   map[string]int64{"steps": 1000000, "edits": 300000, "kills": 30000, "yanks": 20000, "blocked": 20000, "moved": 100000, "limited": 5000, "readonly": 10000, "scrolled": 30000, "big": 500}})
}

type taPos = input.CursorPos

// taM is the ideal editor.
type taM struct {
	lines              [][]rune
	row, col           int
	kill               string // most recent kill
	maxLines, maxChars int
	ro, nums, show     bool
	h                  int
	ph                 string
	vi                 bool
	ok                 func(from, to taPos) bool
	watch              bool
	events             []string // expected notifications of the last key
}

func (m *taM) value() string {
	var s []string
	for _, l := range m.lines {
		s = append(s, string(l))
	}
	return strings.Join(s, "\n")
}
func (m *taM) chars() int { return len([]rune(m.value())) }
func (m *taM) pos() taPos { return taPos{Row: m.row, Col: m.col} }
func (m *taM) line() []rune {
	return m.lines[m.row]
}
func (m *taM) setValue(s string) {
	m.lines = nil
	for _, l := range strings.Split(s, "\n") {
		m.lines = append(m.lines, []rune(l))
	}
	m.row, m.col = 0, 0
}
func (m *taM) allowed(to taPos) bool { return m.ok == nil || m.ok(m.pos(), to) }
func (m *taM) blocked(to taPos)      { m.events = append(m.events, fmt.Sprintf("blocked %v", to)) }

// move is a cursor movement by a key.
func (m *taM) move(to taPos) {
	from := m.pos()
	if from == to {
		return
	}
	if !m.allowed(to) {
		m.blocked(to)
		return
	}
	m.row, m.col = to.Row, to.Col
	m.events = append(m.events, fmt.Sprintf("moved %v %v", from, to))
}

// replace puts s for the characters [a,b) of the text, counted in runes.
func (m *taM) cut(r0, c0, r1, c1 int) string {
	var out []string
	for r := r0; r <= r1; r++ {
		a, b := 0, len(m.lines[r])
		if r == r0 {
			a = c0
		}
		if r == r1 {
			b = c1
		}
		out = append(out, string(m.lines[r][a:b]))
	}
	joined := append(append([]rune{}, m.lines[r0][:c0]...), m.lines[r1][c1:]...)
	m.lines = append(append(append([][]rune{}, m.lines[:r0]...), joined), m.lines[r1+1:]...)
	m.row, m.col = r0, c0
	return strings.Join(out, "\n")
}

// put inserts one character unless a limit forbids it.
func (m *taM) put(r rune) bool {
	if m.maxChars > 0 && m.chars() >= m.maxChars || r == '\n' && m.maxLines > 0 && len(m.lines) >= m.maxLines {
		return false
	}
	l := m.line()
	if r == '\n' {
		rest := append([][]rune{append([]rune{}, l[m.col:]...)}, m.lines[m.row+1:]...)
		m.lines = append(append(append([][]rune{}, m.lines[:m.row]...), append([]rune{}, l[:m.col]...)), rest...)
		m.row, m.col = m.row+1, 0
		return true
	}
	m.lines[m.row] = append(append(append([]rune{}, l[:m.col]...), r), l[m.col:]...)
	m.col++
	return true
}

func taSep(r rune) bool { return strings.ContainsRune(" .,;:!?()[]{}/\\|-_=+*&%$#@~`'\"<>", r) }

// wordLeft: over separators, then over a word.
func (m *taM) wordLeft() int {
	l, c := m.line(), m.col
	for c > 0 && taSep(l[c-1]) {
		c--
	}
	for c > 0 && !taSep(l[c-1]) {
		c--
	}
	return c
}

func (m *taM) key(op string, ru rune) {
	last := len(m.lines) - 1
	switch op {
	case "left":
		if m.col > 0 {
			m.move(taPos{Row: m.row, Col: m.col - 1})
		} else if m.row > 0 {
			m.move(taPos{Row: m.row - 1, Col: len(m.lines[m.row-1])})
		}
	case "right":
		if m.col < len(m.line()) {
			m.move(taPos{Row: m.row, Col: m.col + 1})
		} else if m.row < last {
			m.move(taPos{Row: m.row + 1})
		}
	case "up":
		if m.row == 0 {
			if to := (taPos{Row: -1, Col: m.col}); !m.allowed(to) {
				m.blocked(to)
			}
			return
		}
		m.move(taPos{Row: m.row - 1, Col: min(m.col, len(m.lines[m.row-1]))})
	case "down":
		if m.row == last {
			if to := (taPos{Row: m.row + 1, Col: m.col}); !m.allowed(to) {
				m.blocked(to)
			}
			return
		}
		m.move(taPos{Row: m.row + 1, Col: min(m.col, len(m.lines[m.row+1]))})
	case "home":
		for c := 0; c <= len(m.line()); c++ {
			if to := (taPos{Row: m.row, Col: c}); m.allowed(to) {
				m.move(to)
				return
			}
		}
		m.blocked(taPos{Row: m.row})
	case "end":
		m.move(taPos{Row: m.row, Col: len(m.line())})
	case "top":
		m.move(taPos{})
	case "bottom":
		m.move(taPos{Row: last, Col: len(m.lines[last])})
	case "wordright":
		l, c := m.line(), m.col
		for c < len(l) && !taSep(l[c]) {
			c++
		}
		for c < len(l) && taSep(l[c]) {
			c++
		}
		m.move(taPos{Row: m.row, Col: c})
	case "wordleft":
		m.move(taPos{Row: m.row, Col: m.wordLeft()})
	}
	if m.ro {
		return
	}
	switch op {
	case "type":
		m.put(ru)
	case "enter":
		m.put('\n')
	case "backspace":
		to := taPos{Row: m.row, Col: m.col - 1}
		if m.col == 0 {
			if m.row == 0 {
				return
			}
			to = taPos{Row: m.row - 1, Col: len(m.lines[m.row-1])}
		}
		if !m.allowed(to) {
			m.blocked(to)
			return
		}
		m.cut(to.Row, to.Col, m.row, m.col)
	case "delete":
		if m.col < len(m.line()) {
			m.cut(m.row, m.col, m.row, m.col+1)
		} else if m.row < last {
			m.cut(m.row, m.col, m.row+1, 0)
		}
	case "killline":
		if m.col < len(m.line()) {
			m.kill = m.cut(m.row, m.col, m.row, len(m.line()))
		} else if m.row < last {
			m.kill = m.cut(m.row, m.col, m.row+1, 0)
		}
	case "killstart":
		if m.col == 0 {
			return
		}
		for c := 0; c < m.col; c++ {
			if m.allowed(taPos{Row: m.row, Col: c}) {
				m.kill = m.cut(m.row, c, m.row, m.col)
				return
			}
		}
		m.blocked(taPos{Row: m.row})
	case "killwordleft":
		if m.col == 0 {
			return
		}
		to := taPos{Row: m.row, Col: m.wordLeft()}
		if !m.allowed(to) {
			m.blocked(to)
			return
		}
		m.kill = m.cut(m.row, to.Col, m.row, m.col)
	case "killword":
		l, c := m.line(), m.col
		for c < len(l) && !taSep(l[c]) {
			c++
		}
		if c > m.col {
			m.kill = m.cut(m.row, m.col, m.row, c)
		}
	case "yank":
		for _, x := range m.kill {
			if !m.put(x) {
				break
			}
		}
	}
}

func ctrl(r rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Ctrl: true} }
func alt(r rune) tea.KeyMsg  { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Alt: true} }
func kt(t tea.KeyType) tea.KeyMsg {
	return tea.KeyMsg{Type: t}
}

var taKeys = map[string][]tea.KeyMsg{
	"left": {kt(tea.KeyLeft), ctrl('b'), ctrl('B')}, "right": {kt(tea.KeyRight), ctrl('f')},
	"up": {kt(tea.KeyUp), ctrl('p')}, "down": {kt(tea.KeyDown), ctrl('n')},
	"home": {kt(tea.KeyHome), ctrl('a'), ctrl('A')}, "end": {kt(tea.KeyEnd), ctrl('e')},
	"top": {alt('<')}, "bottom": {alt('>')}, "wordright": {alt('f'), alt('F')}, "wordleft": {alt('b')},
	"enter": {kt(tea.KeyEnter), ctrl('m')}, "backspace": {kt(tea.KeyBackspace), ctrl('h')}, "delete": {kt(tea.KeyDelete), ctrl('d')},
	"killline": {ctrl('k'), ctrl('K')}, "killstart": {ctrl('u')}, "killwordleft": {ctrl('w'), {Type: tea.KeyBackspace, Alt: true}}, "killword": {alt('d')}, "yank": {ctrl('y')},
	"none": {kt(tea.KeyTab), kt(tea.KeyEsc), kt(tea.KeyF3), kt(tea.KeyPgUp), kt(tea.KeyCtrlC), ctrl('x'), ctrl('q'), alt('x'), alt('z'), ctrl(' '), {Type: tea.KeyLeft, Alt: true}},
}

// Shift makes no difference to a control or alt key.
func init() {
	for name, keys := range taKeys {
		for _, k := range keys {
			if (k.Ctrl || k.Alt) && k.Rune >= 'a' && k.Rune <= 'z' {
				k.Rune += 'A' - 'a'
				taKeys[name] = append(taKeys[name], k)
			}
		}
	}
}

var taOps = strings.Fields("left left left right right up up up down down down home end top bottom wordright wordleft enter enter enter backspace backspace backspace delete delete killline killline killstart killwordleft killword yank yank yank none")

func p20(c *fw.Ctx) {
	r := c.R
	cl := txt.Classes(r, txt.All)
	ta := input.NewTextArea()
	m := &taM{h: 24, show: true}
	m.setValue("")
	var events []string
	big := c.Rare(200) // hundreds of lines, or lines of hundreds of characters
	if big {
		c.Count("big", 1)
	}
	text := func() string {
		var ls []string
		k := r.IntN(8)
		if big {
			k = r.IntN(600)
		}
		for ; k >= 0; k-- {
			if big && r.IntN(20) == 0 || big && k < 3 {
				ls = append(ls, txt.String(r, cl, r.IntN(900)))
				continue
			}
			if r.IntN(3) == 0 {
				ls = append(ls, "")
			} else if r.IntN(2) == 0 {
				ls = append(ls, strings.Join([]string{txt.String(r, cl, r.IntN(5)), txt.String(r, cl, r.IntN(4)), txt.String(r, txt.ASCII, 2)}, []string{" ", ".", "-", "  "}[r.IntN(4)]))
			} else {
				ls = append(ls, txt.String(r, cl, r.IntN(10)))
			}
		}
		return strings.Join(ls, "\n")
	}
	caretFree := func(s string) string { return strings.ReplaceAll(s, "^", "x") } // no word character, no listed separator
	rules := func() {
		var f func(from, to taPos) bool
		name := ""
		switch r.IntN(4) {
		case 0: // prompt protection
			pr, pc := r.IntN(3), r.IntN(4)
			f = func(from, to taPos) bool { return to.Row > pr || to.Row == pr && to.Col >= pc }
			name = fmt.Sprintf("not before %d:%d", pr, pc)
		case 1:
			f = func(from, to taPos) bool { return to.Row >= 0 && to.Col >= 0 }
			name = "not negative"
		case 2:
			a, b, d := r.IntN(7), r.IntN(7), 2+r.IntN(4)
			f = func(from, to taPos) bool { return (from.Col*a+to.Col*b+to.Row*3+from.Row)%d != 0 }
			name = fmt.Sprintf("scattered %d %d %d", a, b, d)
		case 3:
			f = func(from, to taPos) bool { return false }
			name = "nowhere"
		}
		m.ok = f
		ta = ta.OnMovement(func(from, to taPos) bool { return f(from, to) })
		c.Tracef("OnMovement(%s)", name)
	}
	watch := func() {
		m.watch = true
		ta = ta.OnCursorMoved(func(from, to taPos) { events = append(events, fmt.Sprintf("moved %v %v", from, to)) }).
			OnBoundaryHit(func(to taPos, why string) { events = append(events, fmt.Sprintf("blocked %v", to)) })
		c.Tracef("callbacks")
	}
	check := func() {
		c.Count("steps", 1)
		if got := ta.Value(); got != m.value() {
			c.Failf("text is %q, an ideal editor holds %q", got, m.value())
		}
		if rr, cc := ta.CursorPosition(); rr != m.row || cc != m.col {
			c.Failf("cursor is at %d:%d, an ideal editor's at %d:%d of %q", rr, cc, m.row, m.col, m.value())
		}
		if strings.Join(ta.Lines(), "\n") != m.value() || ta.LineCount() != len(m.lines) || ta.IsEmpty() != (m.value() == "") || ta.CurrentLine() != string(m.line()) {
			c.Failf("Lines %q, LineCount %d, IsEmpty %v, CurrentLine %q for %q", ta.Lines(), ta.LineCount(), ta.IsEmpty(), ta.CurrentLine(), m.value())
		}
		at, post := " ", ""
		if m.col < len(m.line()) {
			at, post = string(m.line()[m.col]), string(m.line()[m.col+1:])
		}
		if b, a, f := ta.ContentParts(); b != string(m.line()[:m.col]) || a != at || f != post {
			c.Failf("ContentParts() = %q %q %q of %q at %d", b, a, f, string(m.line()), m.col)
		}
		p20view(c, ta.View(), m)
	}
	doKey := func(op string, ru rune, k tea.KeyMsg) {
		c.Tracef("%s %s", op, k.String())
		before, events0 := m.value(), len(m.events)
		_ = events0
		events, m.events = nil, nil
		next, cmd := ta.Update(k)
		if cmd != nil {
			c.Failf("key %q returns a command", k.String())
		}
		ta = next
		if !m.vi {
			m.key(op, ru)
		}
		edit := false
		switch op {
		case "type", "enter", "backspace", "delete", "killline", "killstart", "killwordleft", "killword", "yank":
			edit = true
		}
		if m.watch {
			got, want := strings.Join(events, "; "), strings.Join(m.events, "; ")
			if edit { // whether an edit that moves the cursor is announced is left open
				var g []string
				for _, e := range events {
					if strings.HasPrefix(e, "blocked") {
						g = append(g, e)
					}
				}
				got = strings.Join(g, "; ")
			}
			if got != want {
				c.Failf("after %s the callbacks saw [%s], expected [%s]", k.String(), got, want)
			}
			c.Count("moved", strings.Count(want, "moved"))
			c.Count("blocked", strings.Count(want, "blocked"))
		}
		if edit {
			if m.value() != before {
				c.Count("edits", 1)
				switch op {
				case "killline", "killstart", "killwordleft", "killword":
					c.Count("kills", 1)
				case "yank":
					c.Count("yanks", 1)
				}
			} else if m.ro {
				c.Count("readonly", 1)
			} else if op == "type" || op == "enter" {
				c.Count("limited", 1)
			}
		}
	}
	if r.IntN(2) == 0 {
		watch()
		if r.IntN(2) == 0 {
			rules()
		}
	}
	n := 5 + r.IntN(40)
	if big {
		n = 5 + r.IntN(20)
		s := caretFree(text())
		c.Tracef("SetValue(%q)", s)
		ta = ta.SetValue(s)
		m.setValue(s)
	}
	for i := 0; i < n; i++ {
		op := r.IntN(60)
		if big && i < 6 && r.IntN(2) == 0 { // what reaches far: kills and joins
			row := r.IntN(len(m.lines))
			if r.IntN(2) == 0 {
				row = max(0, len(m.lines)-1-r.IntN(4))
			}
			col := oneOf(c, 0, 1, len(m.lines[row]), len(m.lines[row])-1, r.IntN(len(m.lines[row])+1))
			c.Tracef("SetCursorPosition(%d,%d)", row, col)
			ta = ta.SetCursorPosition(row, col)
			m.row = row
			m.col = clamp(col, 0, len(m.line()))
			for _, name := range [][]string{{"killline", "end", "yank"}, {"killstart", "end", "yank"}, {"delete", "delete"}, {"backspace", "backspace"}, {"enter", "backspace"}}[r.IntN(5)] {
				doKey(name, 0, taKeys[name][0])
			}
			check()
			continue
		}
		switch {
		case op < 20:
			for _, ru := range caretFree(txt.Cluster(r, cl)) {
				k := tea.KeyMsg{Type: tea.KeyRune, Rune: ru}
				if ru == ' ' {
					k = tea.KeyMsg{Type: tea.KeySpace, Rune: ' '}
				}
				doKey("type", ru, k)
				check()
			}
		case op < 48:
			name := taOps[r.IntN(len(taOps))]
			ks := taKeys[name]
			doKey(name, 0, ks[r.IntN(len(ks))])
		case op < 50:
			s := caretFree(text())
			c.Tracef("SetValue(%q)", s)
			ta = ta.SetValue(s)
			m.setValue(s)
		case op < 52:
			a, b := r.IntN(12)-2, r.IntN(14)-2
			if big {
				a = r.IntN(len(m.lines) + 2)
				if b = r.IntN(20); r.IntN(2) == 0 {
					b = r.IntN(700)
				}
			}
			c.Tracef("SetCursorPosition(%d,%d)", a, b)
			ta = ta.SetCursorPosition(a, b)
			m.row = clamp(a, 0, len(m.lines)-1)
			m.col = clamp(b, 0, len(m.line()))
		case op == 52:
			c.Tracef("MoveCursorToEnd")
			ta = ta.MoveCursorToEnd()
			m.row = len(m.lines) - 1
			m.col = len(m.line())
		case op == 53:
			m.h = 1 + r.IntN(6)
			if big && r.IntN(2) == 0 {
				m.h = r.IntN(400)
			}
			if r.IntN(10) == 0 {
				m.h = -r.IntN(3)
			}
			c.Tracef("height %d", m.h)
			if r.IntN(2) == 0 {
				ta = ta.Height(m.h)
			} else {
				ta = ta.Size(200, m.h)
			}
		case op == 54:
			if r.IntN(2) == 0 {
				m.maxLines = r.IntN(6)
				if big {
					m.maxLines = r.IntN(700)
				}
				c.Tracef("MaxLines(%d)", m.maxLines)
				ta = ta.MaxLines(m.maxLines)
			} else {
				m.maxChars = r.IntN(25)
				if big {
					m.maxChars = r.IntN(7000)
				}
				c.Tracef("MaxChars(%d)", m.maxChars)
				ta = ta.MaxChars(m.maxChars)
			}
		case op == 55:
			m.ro = r.IntN(3) == 0
			c.Tracef("ReadOnly(%v)", m.ro)
			ta = ta.ReadOnly(m.ro)
		case op == 56:
			m.nums = r.IntN(2) == 0
			c.Tracef("ShowLineNumbers(%v)", m.nums)
			ta = ta.ShowLineNumbers(m.nums)
		case op == 57:
			m.show = r.IntN(3) > 0
			m.ph = txt.String(r, cl, r.IntN(6))
			c.Tracef("ShowCursor(%v) Placeholder(%q)", m.show, m.ph)
			ta = ta.ShowCursor(m.show).Placeholder(m.ph)
		case op == 58:
			if r.IntN(2) == 0 {
				rules()
			} else {
				watch()
			}
		case op == 59:
			if r.IntN(4) == 0 {
				m.vi = !m.vi
				mode := input.KeybindingsEmacs
				if m.vi {
					mode = input.KeybindingsVi
				}
				c.Tracef("Keybindings(%v)", mode)
				ta = ta.Keybindings(mode)
			} else if r.IntN(2) == 0 {
				next, cmd := ta.Update(tea.WindowSizeMsg{Width: 10, Height: 2})
				if cmd != nil {
					c.Failf("a resize message returns a command")
				}
				ta = next
			}
		}
		check()
	}
	if len(m.lines) > 1 {
		c.Seen(c.TraceText())
		c.Sample(c.TraceText())
	}
}

func p20view(c *fw.Ctx, view string, m *taM) {
	if m.value() == "" {
		if got := txt.Strip(view); got != m.ph {
			c.Failf("the empty area shows %q, placeholder %q", got, m.ph)
		}
		return
	}
	if m.h <= 0 {
		if view != "" {
			c.Failf("without height the view is %q", view)
		}
		return
	}
	rows := strings.Split(view, "\n")
	if len(rows) > m.h {
		c.Failf("%d rows drawn, height %d:\n%s", len(rows), m.h, view)
	}
	if len(m.lines) > m.h {
		c.Count("scrolled", 1)
	}
	cur := -1
	var plain []string
	for i, l := range rows {
		ss, ok := spans(l)
		if !ok {
			c.Failf("row %d is not text: %q", i, l)
		}
		p, k := "", -1
		for x, s := range ss {
			if s.on {
				if k >= 0 || cur >= 0 {
					c.Failf("more than one cursor:\n%q", view)
				}
				k, cur = x, i
				pre := p
				if m.nums && len(pre) >= 5 {
					pre = pre[5:]
				}
				post := ""
				if x+1 < len(ss) {
					post = ss[x+1].s
				}
				want, wpost := " ", ""
				if m.col < len(m.line()) {
					want, wpost = string(m.line()[m.col]), string(m.line()[m.col+1:])
				}
				if pre != string(m.line()[:m.col]) || s.s != want || post != wpost {
					c.Failf("the cursor is drawn on %q between %q and %q, it is at %d of %q", s.s, pre, post, m.col, string(m.line()))
				}
				if m.col == len(m.line()) {
					continue // the blank of the cursor
				}
			}
			p += s.s
		}
		plain = append(plain, p)
	}
	if m.show != (cur >= 0) {
		c.Failf("ShowCursor %v, but cursor drawn in row %d:\n%q", m.show, cur, view)
	}
	for s := 0; s <= m.row; s++ {
		if s+len(plain) > len(m.lines) || s+len(plain) <= m.row || cur >= 0 && s+cur != m.row {
			continue
		}
		same := true
		for i, p := range plain {
			want := string(m.lines[s+i])
			if m.nums {
				want = fmt.Sprintf("%4d ", s+i+1) + want
			}
			if p != want {
				same = false
				break
			}
		}
		if same {
			return
		}
	}
	c.Failf("the view is not a run of lines around the cursor's (%d):\n%q\ntext %q", m.row, view, m.value())
}
