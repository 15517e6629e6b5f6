package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"strings"

	"github.com/phoenix-tui/phoenix/components/list"
	"github.com/phoenix-tui/phoenix/components/multiselect"
	selectc "github.com/phoenix-tui/phoenix/components/select"
	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P22", Quick: 600000, Thorough: 8000000, Case: p22,
		Rule:   "random histories of keys and changes on a list, a single choice and a multi choice against a model of items, filter, focus and selection",
		Assume: []string{"one-line labels"},
		Need:   map[string]int64{"steps": 1000000, "filtered": 200000, "scrolled": 200000, "selected": 200000, "confirmed": 20000, "refused": 1000, "nomatch": 20000, "disabled": 5000, "big": 500, "strings": 5000}})
}

// pickM is the model all three pickers share.
type pickM struct {
	labels []string
	descs  []string
	dis    []bool
	h      int
	q      string
	filter int // which filter function
	render int // 0: default, 1: custom
	vis    []int
	cur    int  // position in vis
	big    bool // hundreds of entries
}

// steps is the length of a history.
func (m *pickM) steps(r *rand.Rand) int {
	if m.big {
		return 3 + r.IntN(12)
	}
	return 3 + r.IntN(25)
}

// height is one to set: sometimes none, sometimes all.
func (m *pickM) height(r *rand.Rand) int {
	switch {
	case r.IntN(10) == 0:
		return math.MaxInt
	case m.big && r.IntN(2) == 0:
		return r.IntN(300)
	}
	return r.IntN(12) - 1
}

var pickWords = []string{"apple", "Apricot", "banana", "Éclair", "日本", "Straße", "go", "GO", "a b", "", "kiwi 🥝", "x", "İz", "naïve", "ab"}

func p22items(c *fw.Ctx) *pickM {
	r := c.R
	m := &pickM{h: 10}
	n := r.IntN(12)
	if r.IntN(6) == 0 {
		n = r.IntN(60)
	}
	if m.big = c.Rare(500); m.big {
		n = 60 + r.IntN(500)
		c.Count("big", 1)
	}
	for i := 0; i < n; i++ {
		l := pickWords[r.IntN(len(pickWords))]
		if r.IntN(2) == 0 {
			l += " " + pickWords[r.IntN(len(pickWords))]
		}
		if r.IntN(8) == 0 {
			l = txt.String(r, txt.All, r.IntN(6))
		}
		m.labels = append(m.labels, l)
		d := ""
		if r.IntN(6) == 0 {
			d = pickWords[r.IntN(len(pickWords))]
		}
		m.descs = append(m.descs, d)
		m.dis = append(m.dis, r.IntN(8) == 0)
	}
	m.match()
	return m
}

func pickFilter(kind int, label, q string) bool {
	switch kind {
	case 1:
		return strings.HasPrefix(label, q)
	case 2:
		return label == q
	case 3:
		return len(label) > 2*len(q)
	case 4:
		return false
	}
	return strings.Contains(strings.ToLower(label), strings.ToLower(q))
}

func (m *pickM) match() {
	m.vis = nil
	for i, l := range m.labels {
		if m.q == "" || pickFilter(m.filter, l, m.q) {
			m.vis = append(m.vis, i)
		}
	}
}

// queryRune returns a character to type: often one of a label, never one bound to a key.
func (m *pickM) queryRune(c *fw.Ctx, bound string) rune {
	for {
		s := pickWords[c.R.IntN(len(pickWords))]
		rs := []rune(s)
		if len(rs) == 0 {
			continue
		}
		x := rs[c.R.IntN(len(rs))]
		if c.R.IntN(4) == 0 {
			x = []rune("pabcPILé語ß€zŻ")[c.R.IntN(13)]
		}
		if len(m.vis) > 0 && c.R.IntN(2) == 0 { // one that keeps a match
			l := strings.ToLower(m.labels[m.vis[c.R.IntN(len(m.vis))]])
			if _, after, ok := strings.Cut(l, strings.ToLower(m.q)); ok && after != "" {
				x = []rune(after)[0]
			}
		}
		if x != ' ' && x != 0x307 && !strings.ContainsRune(bound, x) {
			return x
		}
	}
}

func chop(s string) string {
	rs := []rune(s)
	return string(rs[:max(0, len(rs)-1)])
}

// p22rows checks that view is pre, a window of the rows and post, for a window with the focus.
func p22rows(c *fw.Ctx, m *pickM, view, pre, post, none string, row func(pos int) string) {
	c.Count("steps", 1)
	if m.q != "" {
		c.Count("filtered", 1)
	}
	if len(m.vis) == 0 {
		if m.q != "" {
			c.Count("nomatch", 1)
			none = "(no matches)"
		}
		if view != pre+none+post {
			c.Failf("without entries the view is %q, expected %q", view, pre+none+post)
		}
		return
	}
	if m.h <= 0 {
		return
	}
	n := min(m.h, len(m.vis))
	if len(m.vis) > m.h {
		c.Count("scrolled", 1)
	}
	rows := make([]string, len(m.vis))
	for i := range rows {
		rows[i] = row(i)
	}
	for o := max(0, m.cur-n+1); o <= min(m.cur, len(rows)-n); o++ {
		if view == pre+strings.Join(rows[o:o+n], "\n")+post {
			return
		}
	}
	c.Failf("the view is not %d consecutive entries with the focus at %d:\n%q\nentries:\n%q", n, m.cur, view, rows)
}

func p22(c *fw.Ctx) {
	if c.R.IntN(40) == 0 {
		p22strings(c)
		return
	}
	switch c.R.IntN(3) {
	case 0:
		p22list(c)
	case 1:
		p22select(c)
	case 2:
		p22multi(c)
	}
	c.Seen(c.TraceText())
	c.Sample(c.TraceText())
}

// p22strings: the constructors for texts offer each one under itself.
func p22strings(c *fw.Ctx) {
	r, m := c.R, p22items(c)
	texts := slices.Clone(m.labels)
	s, ms := selectc.NewString("Pick:", texts), multiselect.NewStrings("Pick:", texts)
	c.Tracef("NewString(%q)", texts)
	for i := range texts {
		texts[i] = "changed"
	}
	clear(m.dis)
	clear(m.descs)
	m.match()
	var want []string
	for i := range m.labels {
		if m.cur = i; i > 0 {
			s, _ = s.Update(kt(tea.KeyDown))
			ms, _ = ms.Update(kt(tea.KeyDown))
		}
		if r.IntN(3) == 0 {
			ms, _ = ms.Update(kt(tea.KeySpace))
			want = append(want, m.labels[i])
		}
		if i == 0 || r.IntN(5) == 0 {
			v, ok := s.FocusedValue()
			c.Check(ok && v == m.labels[i], "focused value %q %v, expected %q", v, ok, m.labels[i])
			q, _ := s.Update(kt(tea.KeyEnter))
			v, ok = q.SelectedValue()
			c.Check(ok && v == m.labels[i], "selected value %q %v, expected %q", v, ok, m.labels[i])
			p22rows(c, m, s.View(), "Pick:\n\n", "", "(no options)", func(i int) string {
				if i == m.cur {
					return "> " + m.labels[i]
				}
				return "  " + m.labels[i]
			})
		}
	}
	got := ms.SelectedItems()
	c.Check(slices.Equal(got, want), "selected values %q, expected %q", got, want)
	c.Count("strings", 1)
	c.Seen(c.TraceText())
}

func isQuit(cmd tea.Cmd) bool {
	if cmd == nil {
		return false
	}
	_, ok := cmd().(tea.QuitMsg)
	return ok
}

func p22list(c *fw.Ctx) {
	r := c.R
	m := p22items(c)
	multi := r.IntN(2) == 0
	sel := map[int]bool{} // positions in vis
	show := false
	vals := make([]any, len(m.labels))
	for i := range vals {
		vals[i] = i
	}
	labels := slices.Clone(m.labels)
	var l *list.List
	if multi {
		l = list.NewMultiSelect(vals, labels)
	} else {
		l = list.NewSingleSelect(vals, labels)
	}
	c.Tracef("list multi=%v %q", multi, labels)
	for i := range vals {
		vals[i], labels[i] = -1, "changed"
	}
	refilter := func() {
		m.match()
		clear(sel)
		if m.cur >= len(m.vis) {
			m.cur = 0
		}
	}
	check := func() {
		p22rows(c, m, txt.Strip(l.View()), "", func() string {
			if show && m.q != "" {
				return "\nFilter: (active)"
			}
			return ""
		}(), "(empty list)", func(i int) string {
			return p22listRow(m, i, m.vis[i], sel[i], i == m.cur)
		})
		if l.FocusedIndex() != m.cur {
			c.Failf("focused index %d, expected %d", l.FocusedIndex(), m.cur)
		}
		var want any
		if len(m.vis) > 0 {
			want = m.vis[m.cur]
		}
		if l.FocusedItem() != want {
			c.Failf("focused item %v, expected %v", l.FocusedItem(), want)
		}
		idx, items := []int{}, []any{}
		for i := range m.vis {
			if sel[i] {
				idx, items = append(idx, i), append(items, m.vis[i])
			}
		}
		if len(idx) > 0 {
			c.Count("selected", 1)
		}
		if g := l.SelectedIndices(); !slices.Equal(g, idx) {
			c.Failf("selected indices %v, expected %v", g, idx)
		}
		if g := l.SelectedItems(); !slices.Equal(g, items) {
			c.Failf("selected items %v, expected %v", g, items)
		}
	}
	check()
	key := func(k tea.KeyMsg, quit bool) {
		c.Tracef("key %q", k.String())
		next, cmd := l.Update(k)
		if isQuit(cmd) != quit || cmd != nil && !quit {
			c.Failf("key %q: command %v, expected quit: %v", k.String(), cmd != nil, quit)
		}
		l = next
	}
	one := func(ks ...tea.KeyMsg) tea.KeyMsg { return ks[r.IntN(len(ks))] }
	last := func() int { return max(0, len(m.vis)-1) }
	for i := m.steps(r); i > 0; i-- {
		switch op := r.IntN(30); op {
		case 0:
			m.h = m.height(r)
			if r.IntN(10) == 0 {
				m.h = r.IntN(5) - 4
			}
			c.Tracef("Height(%d)", m.h)
			l = l.Height(m.h)
			m.h = max(0, m.h)
		case 1:
			m.render = 1
			c.Tracef("ItemRenderer")
			l = l.ItemRenderer(func(item any, i int, s, f bool) string { return fmt.Sprintf("%v:%d %v %v", item, i, s, f) })
		case 2:
			m.filter = 1 + r.IntN(4)
			kind, ls := m.filter, m.labels
			c.Tracef("Filter(%d)", kind)
			l = l.Filter(func(item any, q string) bool { return pickFilter(kind, ls[item.(int)], q) })
			refilter()
		case 3, 4, 5:
			show = r.IntN(5) > 0
			c.Tracef("ShowFilter(%v)", show)
			l = l.ShowFilter(show)
		case 6, 7, 8, 9, 10:
			x := m.queryRune(c, "kjgGq")
			key(tea.KeyMsg{Type: tea.KeyRune, Rune: x}, false)
			if show {
				m.q += string(x)
				refilter()
			}
		case 11, 12:
			key(kt(tea.KeyBackspace), false)
			if show && m.q != "" {
				m.q = chop(m.q)
				refilter()
			}
		case 13, 14:
			key(one(kt(tea.KeyUp), ru('k')), false)
			if m.cur--; m.cur < 0 {
				m.cur = last()
			}
		case 15, 16, 17:
			key(one(kt(tea.KeyDown), ru('j')), false)
			if m.cur++; m.cur > last() {
				m.cur = 0
			}
		case 18:
			key(one(kt(tea.KeyPgUp), ctrl('u')), false)
			m.cur = max(0, m.cur-min(m.h, 1<<40))
		case 19:
			key(one(kt(tea.KeyPgDown), ctrl('d')), false)
			m.cur = min(last(), m.cur+min(m.h, 1<<40))
		case 20:
			key(one(kt(tea.KeyHome), ru('g')), false)
			m.cur = 0
		case 21:
			key(one(kt(tea.KeyEnd), ru('G')), false)
			m.cur = last()
		case 22, 23, 24:
			key(kt(tea.KeySpace), false)
			if len(m.vis) > 0 {
				on := !sel[m.cur]
				if !multi {
					clear(sel)
					on = true
				}
				if sel[m.cur] = on; !on {
					delete(sel, m.cur)
				}
			}
		case 25:
			key(ctrl('a'), false)
			if multi {
				for i := range m.vis {
					sel[i] = true
				}
			}
		case 26:
			if r.IntN(3) == 0 {
				key(kt(tea.KeyEsc), false)
				clear(sel)
			}
		case 27:
			key(one(kt(tea.KeyEnter), kt(tea.KeyTab), kt(tea.KeyLeft), ctrl('x'), alt('j'), alt('a')), false)
		case 28:
			key(one(ru('q'), kt(tea.KeyCtrlC), ctrl('c')), true)
		case 29:
			l, _ = l.Update(tea.WindowSizeMsg{Width: 3, Height: 3})
			l = l.Theme(nil)
		}
		check()
	}
}

func ru(x rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: x} }

func p22listRow(m *pickM, pos, item int, sel, foc bool) string {
	if m.render == 1 {
		return fmt.Sprintf("%v:%d %v %v", item, pos, sel, foc)
	}
	p := "  "
	if sel {
		p = "✓ "
	}
	if foc {
		p = "> "
	}
	return p + m.labels[item]
}

// The option types are internal: the helpers take their type from a value.
type optI interface {
	Label() string
	Value() int
}

func none[O any](O) []O { return nil }
func optFilter[O optI](_ O, kind int) func(O, string) bool {
	return func(o O, q string) bool { return pickFilter(kind, o.Label(), q) }
}
func selRender[O optI](O) func(O, int, bool) string {
	return func(o O, i int, f bool) string { return fmt.Sprintf("%v:%d %v", o.Value(), i, f) }
}
func mulRender[O optI](O) func(O, int, bool, bool) string {
	return func(o O, i int, f, sel bool) string { return fmt.Sprintf("%v:%d %v %v", o.Value(), i, f, sel) }
}

func p22select(c *fw.Ctx) {
	r := c.R
	m := p22items(c)
	title := []string{"", "Pick one:", "選ぶ"}[r.IntN(3)]
	chosen, filterable := -1, false
	var s *selectc.Select[int]
	setOptions := func() {
		opts := none(selectc.Opt("", 0))
		for i, l := range m.labels {
			o := selectc.Opt(l, i, m.descs[i])
			if m.dis[i] {
				o = o.WithDisabled(true)
			}
			opts = append(opts, o)
		}
		c.Tracef("Options(%q disabled %v)", m.labels, m.dis)
		s = s.Options(opts...)
		for i := range opts {
			opts[i] = selectc.Opt("changed", -1)
		}
		m.q, m.cur, chosen = "", 0, -1
		m.match()
	}
	s = selectc.New[int](title)
	c.Tracef("select %q", title)
	setOptions()
	refilter := func() {
		m.match()
		m.cur = max(0, min(m.cur, len(m.vis)-1))
	}
	check := func() {
		pre, post := "", ""
		if title != "" {
			pre = title + "\n\n"
		}
		if filterable {
			post = "\n\nType to filter..."
			if m.q != "" {
				post = "\n\nFilter: " + m.q
			}
		}
		p22rows(c, m, s.View(), pre, post, "(no options)", func(i int) string {
			it, p := m.vis[i], "  "
			if m.render == 1 {
				return fmt.Sprintf("%v:%d %v", it, i, i == m.cur)
			}
			if i == m.cur {
				p = "> "
			}
			p += m.labels[it]
			if m.dis[it] {
				p += " (disabled)"
			}
			if m.descs[it] != "" {
				p += " - " + m.descs[it]
			}
			return p
		})
		v, ok := s.FocusedValue()
		if ok != (len(m.vis) > 0) || ok && v != m.vis[m.cur] {
			c.Failf("focused value %v %v, expected position %d of %v", v, ok, m.cur, m.vis)
		}
		v, ok = s.SelectedValue()
		if ok != (chosen >= 0) || ok && v != chosen {
			c.Failf("selected value %v %v, expected %v", v, ok, chosen)
		}
		if ok {
			c.Count("selected", 1)
		}
	}
	check()
	var cmd tea.Cmd
	key := func(k tea.KeyMsg) {
		c.Tracef("key %q", k.String())
		s, cmd = s.Update(k)
	}
	one := func(ks ...tea.KeyMsg) tea.KeyMsg { return ks[r.IntN(len(ks))] }
	last := func() int { return max(0, len(m.vis)-1) }
	for i := m.steps(r); i > 0; i-- {
		cmd = nil
		quit, confirm := false, false
		switch op := r.IntN(28); op {
		case 0:
			m.h = m.height(r)
			c.Tracef("WithHeight(%d)", m.h)
			s = s.WithHeight(m.h)
			m.h = max(1, m.h)
		case 1:
			m.render = 1
			c.Tracef("WithRenderFunc")
			s = s.WithRenderFunc(selRender(selectc.Opt("", 0)))
		case 2:
			m.filter = 1 + r.IntN(4)
			kind := m.filter
			c.Tracef("WithFilterFunc(%d)", kind)
			s = s.WithFilterFunc(optFilter(selectc.Opt("", 0), kind))
			refilter()
		case 3, 4, 5:
			filterable = r.IntN(5) > 0
			c.Tracef("WithFilterable(%v)", filterable)
			s = s.WithFilterable(filterable)
		case 6, 7, 8, 9, 10:
			x := m.queryRune(c, "kjgG")
			k := ru(x)
			if r.IntN(6) == 0 {
				x, k = ' ', kt(tea.KeySpace)
			}
			key(k)
			if filterable {
				m.q += string(x)
				refilter()
			}
		case 11, 12, 13:
			key(kt(tea.KeyBackspace))
			if filterable && m.q != "" {
				m.q = chop(m.q)
				refilter()
			}
		case 14, 15:
			key(one(kt(tea.KeyUp), ru('k')))
			m.cur = max(0, m.cur-1)
		case 16, 17, 18, 19:
			key(one(kt(tea.KeyDown), ru('j')))
			m.cur = min(last(), m.cur+1)
		case 20:
			key(one(kt(tea.KeyHome), ru('g')))
			m.cur = 0
		case 21:
			key(one(kt(tea.KeyEnd), ru('G')))
			m.cur = last()
		case 22, 23:
			key(kt(tea.KeyEnter))
			if confirm = len(m.vis) == 0 || !m.dis[m.vis[m.cur]]; confirm && len(m.vis) > 0 {
				chosen = m.vis[m.cur]
			}
		case 24:
			if r.IntN(3) == 0 {
				key(kt(tea.KeyEsc))
				m.q = ""
				refilter()
			}
		case 25:
			key(one(kt(tea.KeyTab), kt(tea.KeyLeft), ctrl('x'), alt('j'), ctrl('k'), ctrl('g'), alt('a')))
		case 26:
			key(one(kt(tea.KeyCtrlC), ctrl('c')))
			quit = true
		case 27:
			switch r.IntN(3) {
			case 0:
				n := p22items(c)
				m.labels, m.descs, m.dis, m.big = n.labels, n.descs, n.dis, n.big
				setOptions()
			case 1:
				d := r.IntN(len(m.labels)+2) - 1
				c.Tracef("WithDefault(%d)", d)
				s = s.WithDefault(d)
				if d >= 0 && d < len(m.labels) {
					m.q = ""
					m.match()
					m.cur, chosen = d, d
				}
			case 2:
				s, cmd = s.Update(tea.WindowSizeMsg{Width: 3, Height: 3})
			}
		}
		switch {
		case quit:
			if !isQuit(cmd) {
				c.Failf("no quit command")
			}
		case confirm:
			if cmd == nil {
				c.Failf("Enter does not confirm")
			}
			msg, ok := cmd().(selectc.ConfirmSelectionMsg[int])
			if !ok || msg.OK != (len(m.vis) > 0) || msg.OK && msg.Value != m.vis[m.cur] {
				c.Failf("Enter reports %#v, expected position %d of %v", msg, m.cur, m.vis)
			}
			c.Count("confirmed", 1)
		case cmd != nil:
			c.Failf("unexpected command: %#v", cmd())
		}
		if len(m.vis) > 0 && m.dis[m.vis[m.cur]] {
			c.Count("disabled", 1)
		}
		check()
	}
}

func p22multi(c *fw.Ctx) {
	r := c.R
	m := p22items(c)
	title := []string{"", "Pick some:", "選ぶ"}[r.IntN(3)]
	sel := map[int]bool{}
	filterable, lo, hi := false, 0, 0
	var s *multiselect.MultiSelect[int]
	setOptions := func() {
		opts := none(multiselect.Opt("", 0))
		for i, l := range m.labels {
			o := multiselect.Opt(l, i, m.descs[i])
			if m.dis[i] {
				o = o.WithDisabled(true)
			}
			opts = append(opts, o)
		}
		c.Tracef("Options(%q disabled %v)", m.labels, m.dis)
		s = s.Options(opts...)
		for i := range opts {
			opts[i] = multiselect.Opt("changed", -1)
		}
		m.q, m.cur = "", 0
		clear(sel)
		m.match()
	}
	s = multiselect.New[int](title)
	c.Tracef("multiselect %q", title)
	setOptions()
	refilter := func() {
		m.match()
		m.cur = max(0, min(m.cur, len(m.vis)-1))
	}
	room := func() bool { return hi == 0 || len(sel) < hi }
	need := func() int {
		if hi > 0 {
			return min(lo, hi)
		}
		return lo
	}
	items := func() []int {
		out := []int{}
		for i := range m.labels {
			if sel[i] {
				out = append(out, i)
			}
		}
		return out
	}
	check := func() {
		pre, post := "", ""
		if title != "" {
			pre = title
			if len(m.labels) > 0 {
				pre += fmt.Sprintf(" (%d of %d selected)", len(sel), len(m.labels))
			}
			pre += "\n\n"
		}
		if filterable {
			post = "\n\nType to filter..."
			if m.q != "" {
				post = "\n\nFilter: " + m.q
			}
		}
		post += "\n\n  a: all  n: none  Space: toggle  Enter: confirm"
		p22rows(c, m, s.View(), pre, post, "(no options)", func(i int) string {
			it, p := m.vis[i], "  "
			if m.render == 1 {
				return fmt.Sprintf("%v:%d %v %v", it, i, i == m.cur, sel[it])
			}
			if i == m.cur {
				p = "> "
			}
			if sel[it] {
				p += "[x] "
			} else {
				p += "[ ] "
			}
			p += m.labels[it]
			if m.descs[it] != "" {
				p += " - " + m.descs[it]
			}
			if m.dis[it] {
				p += " (disabled)"
			}
			return p
		})
		want := items()
		if g := s.SelectedIndices(); !slices.Equal(g, want) {
			c.Failf("selected indices %v, expected %v", g, want)
		}
		if g := s.SelectedItems(); !slices.Equal(g, want) {
			c.Failf("selected items %v, expected %v", g, want)
		}
		if s.SelectionCount() != len(want) {
			c.Failf("selection count %d, expected %d", s.SelectionCount(), len(want))
		}
		if len(want) > 0 {
			c.Count("selected", 1)
		}
	}
	check()
	var cmd tea.Cmd
	key := func(k tea.KeyMsg) {
		c.Tracef("key %q", k.String())
		s, cmd = s.Update(k)
	}
	one := func(ks ...tea.KeyMsg) tea.KeyMsg { return ks[r.IntN(len(ks))] }
	last := func() int { return max(0, len(m.vis)-1) }
	for i := m.steps(r); i > 0; i-- {
		cmd = nil
		quit, confirm := false, false
		switch op := r.IntN(34); op {
		case 0:
			m.h = m.height(r)
			c.Tracef("WithHeight(%d)", m.h)
			s = s.WithHeight(m.h)
			m.h = max(1, m.h)
		case 1:
			m.render = 1
			c.Tracef("WithRenderFunc")
			s = s.WithRenderFunc(mulRender(multiselect.Opt("", 0)))
		case 2:
			m.filter = 1 + r.IntN(4)
			kind := m.filter
			c.Tracef("WithFilterFunc(%d)", kind)
			s = s.WithFilterFunc(optFilter(multiselect.Opt("", 0), kind))
			refilter()
		case 3, 4, 5:
			filterable = r.IntN(5) > 0
			c.Tracef("WithFilterable(%v)", filterable)
			s = s.WithFilterable(filterable)
		case 6, 7, 8, 9, 10:
			x := m.queryRune(c, "kjgGan")
			key(ru(x))
			if filterable {
				m.q += string(x)
				refilter()
			}
		case 11, 12, 13:
			key(kt(tea.KeyBackspace))
			if filterable && m.q != "" {
				m.q = chop(m.q)
				refilter()
			}
		case 14, 15:
			key(one(kt(tea.KeyUp), ru('k')))
			m.cur = max(0, m.cur-1)
		case 16, 17, 18, 19:
			key(one(kt(tea.KeyDown), ru('j')))
			m.cur = min(last(), m.cur+1)
		case 20:
			key(one(kt(tea.KeyHome), ru('g')))
			m.cur = 0
		case 21:
			key(one(kt(tea.KeyEnd), ru('G')))
			m.cur = last()
		case 22, 23:
			key(kt(tea.KeyEnter))
			if confirm = len(sel) >= need(); !confirm {
				c.Count("refused", 1)
			}
		case 24:
			if r.IntN(3) == 0 {
				key(kt(tea.KeyEsc))
				m.q = ""
				refilter()
			}
		case 25:
			key(one(kt(tea.KeyTab), kt(tea.KeyLeft), ctrl('x'), alt('j'), ctrl('k'), ctrl('g'), ctrl('a'), alt('n'), alt('a')))
		case 26:
			key(one(kt(tea.KeyCtrlC), ctrl('c')))
			quit = true
		case 27:
			switch r.IntN(4) {
			case 0:
				n := p22items(c)
				m.labels, m.descs, m.dis, m.big = n.labels, n.descs, n.dis, n.big
				setOptions()
			case 1:
				var is []int
				k := r.IntN(4)
				if m.big {
					k = r.IntN(200)
				}
				for ; k > 0; k-- {
					is = append(is, r.IntN(len(m.labels)+4)-2)
				}
				c.Tracef("Selected(%v)", is)
				s = s.Selected(is...)
				for _, x := range is {
					if x >= 0 && x < len(m.labels) && room() {
						sel[x] = true
					}
				}
			case 2:
				s, cmd = s.Update(tea.WindowSizeMsg{Width: 3, Height: 3})
			}
		case 28:
			n := r.IntN(6) - 1
			c.Tracef("Min(%d)", n)
			s = s.Min(n)
			lo = max(0, n)
		case 29:
			n := r.IntN(6) - 1
			c.Tracef("Max(%d)", n)
			s = s.Max(n)
			hi = max(0, n)
			if hi > 0 {
				for _, x := range items()[min(hi, len(sel)):] {
					delete(sel, x)
				}
			}
		case 30, 31, 32:
			key(kt(tea.KeySpace))
			if len(m.vis) > 0 {
				if it := m.vis[m.cur]; m.dis[it] {
					c.Count("disabled", 1)
				} else if sel[it] {
					delete(sel, it)
				} else if room() {
					sel[it] = true
				}
			}
		case 33:
			if r.IntN(3) == 0 {
				key(ru('n'))
				clear(sel)
			} else {
				key(ru('a'))
				for _, it := range m.vis {
					if !m.dis[it] && room() {
						sel[it] = true
					}
				}
			}
		}
		switch {
		case quit:
			if !isQuit(cmd) {
				c.Failf("no quit command")
			}
		case confirm:
			if cmd == nil {
				c.Failf("Enter does not confirm")
			}
			msg, ok := cmd().(multiselect.ConfirmSelectionMsg[int])
			if !ok || !slices.Equal(msg.Values, items()) {
				c.Failf("Enter reports %#v, expected %v", msg, items())
			}
			c.Count("confirmed", 1)
		case cmd != nil:
			c.Failf("unexpected command: %#v", cmd())
		}
		check()
	}
}
