package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/phoenix-tui/phoenix/components/confirm"
	"github.com/phoenix-tui/phoenix/components/form"
	formb "github.com/phoenix-tui/phoenix/components/form/verifbridge"
	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/components/list"
	"github.com/phoenix-tui/phoenix/components/modal"
	"github.com/phoenix-tui/phoenix/components/multiselect"
	"github.com/phoenix-tui/phoenix/components/progress"
	selectc "github.com/phoenix-tui/phoenix/components/select"
	"github.com/phoenix-tui/phoenix/components/table"
	"github.com/phoenix-tui/phoenix/components/viewport"
	"github.com/phoenix-tui/phoenix/layout"
	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P25", Quick: 50000, Thorough: 1500000, Case: p25,
		Fixed: []fw.Fixed{
			{Name: "layout-box-mutates", Run: func(c *fw.Ctx) {
				b := layout.NewBox("x")
				was := b.Render()
				_ = b.Border()
				if g := b.Render(); g != was {
					c.Failf("after b.Border() the box b itself draws %q, before %q", g, was)
				}
			}},
			{Name: "layout-flex-mutates", Run: func(c *fw.Ctx) {
				f := layout.Row().AddRaw("a")
				was := f.Render(10, 1)
				_ = f.AddRaw("b")
				if g := f.Render(10, 1); g != was {
					c.Failf("after f.AddRaw the container f itself draws %q, before %q", g, was)
				}
			}},
		},
		Rule:   "trees of histories of every component, of styles and of themes: any earlier value is continued from, each operation twice, and everything each value shows is compared with what it showed when it was made; slices and maps passed in or handed out are overwritten",
		Assume: []string{"values inside table rows, list items and options are not themselves changed by the program"},
		Need:   map[string]int64{"derived": 400000, "compared": 2000000, "poked": 80000, "branched": 80000}})
}

type snapOp[T any] struct {
	desc string
	f    func(T) T
}

func snap[T any](c *fw.Ctx, kind string, start T, op func() snapOp[T], look func(T) string, poke func(T), probes ...func(T) T) {
	if c.Mode == "shared" {
		snapShared(c, kind, start, op, look, probes)
		return
	}
	if c.Mode == "grow" {
		snapGrow(c, kind, start, op, look, probes)
		return
	}
	// what a value shows, and what it shows after a few more operations
	show := func(v T) string {
		s := look(v)
		for _, p := range probes {
			s += "\n" + look(p(v))
		}
		return s
	}
	type held struct {
		v     T
		shown string
		from  string
	}
	r := c.R
	c.Tracef("%s", kind)
	c.Count(kind, 1)
	last := 0
	pool := []held{{start, show(start), "start"}}
	check := func(after string) {
		for i, h := range pool {
			c.Count("compared", 1)
			if g := show(h.v); g != h.shown {
				c.Failf("%s: value %d (%s) changed after %s:\n%s\nbefore:\n%s", kind, i, h.from, after, g, h.shown)
			}
		}
	}
	for i := 4 + r.IntN(14); i > 0; i-- {
		at := len(pool) - 1
		switch r.IntN(6) {
		case 0:
			at = r.IntN(len(pool))
		case 1, 2:
			at = last
		}
		last = at
		if at < len(pool)-1 {
			c.Count("branched", 1)
		}
		o := op()
		c.Tracef("%d := %d.%s", len(pool), at, o.desc)
		c.Count("derived", 1)
		a := o.f(pool[at].v)
		sa := show(a)
		b := o.f(pool[at].v)
		if sb := show(b); sa != sb {
			c.Failf("%s: %s gives different results from the same value %d:\n%s\nthen:\n%s", kind, o.desc, at, sa, sb)
		}
		if r.IntN(2) == 0 {
			a, b = b, a
		}
		pool = append(pool, held{a, sa, o.desc})
		if poke != nil && r.IntN(3) == 0 {
			poke(b)
			c.Count("poked", 1)
			if g := show(a); g != sa {
				c.Failf("%s: after overwriting what another value handed out, %q instead of %q", kind, g, sa)
			}
			if g := show(b); g != sa {
				c.Failf("%s: after overwriting what it handed out, %q instead of %q", kind, g, sa)
			}
		}
		check("operation " + o.desc)
		if len(pool) > 10 {
			drop := r.IntN(3) + 1
			pool, last = pool[drop:], max(0, last-drop)
		}
	}
}

func overwrite[T any](s []T) {
	var zero T
	for i := range s {
		s[i] = zero
	}
	// and the room behind
	s = s[:cap(s)]
	for i := range s {
		s[i] = zero
	}
}

// given passes a slice with room behind it, which is overwritten afterwards.
func given[T, V any](xs []T, f func([]T) V) V {
	s := append(make([]T, 0, len(xs)+4), xs...)
	v := f(s)
	overwrite(s)
	return v
}

func op[T any](f func(T) T, format string, args ...any) snapOp[T] {
	return snapOp[T]{fmt.Sprintf(format, args...), f}
}

var snapKeys = []tea.KeyMsg{kt(tea.KeyUp), kt(tea.KeyDown), kt(tea.KeyDown), kt(tea.KeyLeft), kt(tea.KeyRight), kt(tea.KeyHome), kt(tea.KeyEnd),
	kt(tea.KeyPgUp), kt(tea.KeyPgDown), kt(tea.KeyTab), kt(tea.KeyEnter), kt(tea.KeySpace), kt(tea.KeyBackspace), kt(tea.KeyDelete), kt(tea.KeyEsc),
	{Type: tea.KeyTab, Shift: true}, ru('a'), ru('b'), ru('é'), ru('日'), ru('j'), ru('k'), ru('G'), ru('g'), ru('x'),
	ctrl('a'), ctrl('e'), ctrl('k'), ctrl('k'), ctrl('u'), ctrl('w'), ctrl('y'), ctrl('y'), ctrl('d'), ctrl('t'), ctrl('f'), ctrl('b'), ctrl('n'), ctrl('p'), alt('f'), alt('b'), alt('d'), alt('y')}

func snapType[T any](update func(T, tea.Msg) (T, tea.Cmd), ks ...tea.KeyMsg) func(T) T {
	return func(v T) T {
		for _, k := range ks {
			v, _ = update(v, k)
		}
		return v
	}
}

func snapKey[T any](c *fw.Ctx, update func(T, tea.Msg) (T, tea.Cmd)) snapOp[T] {
	k := snapKeys[c.R.IntN(len(snapKeys))]
	return op(func(v T) T { n, _ := update(v, k); return n }, "key %q", k.String())
}

func snapMsg[T any](c *fw.Ctx, update func(T, tea.Msg) (T, tea.Cmd)) snapOp[T] {
	r := c.R
	var m tea.Msg
	switch r.IntN(4) {
	case 0:
		m = tea.WindowSizeMsg{Width: 5 + r.IntN(40), Height: 6 + r.IntN(20)}
	case 1:
		m = tea.TickMsg{}
	default:
		m = tea.MouseMsg{X: r.IntN(10), Y: r.IntN(10), Button: tea.MouseButton(r.IntN(6)), Action: tea.MouseAction(r.IntN(3))}
	}
	return op(func(v T) T { n, _ := update(v, m); return n }, "message %#v", m)
}

func p25(c *fw.Ctx) {
	r := c.R
	words := func(n int) []string {
		var ws []string
		for range n {
			ws = append(ws, pickWords[r.IntN(len(pickWords))])
		}
		return ws
	}
	word := func() string { return words(1)[0] }
	n := func(k int) int { return r.IntN(k) }
	flip := func() bool { return r.IntN(2) == 0 }
	themes := []*style.Theme{nil, style.DarkTheme(), style.LightTheme()}
	switch r.IntN(16) {
	case 0:
		p25style(c)
	case 1:
		p25theme(c)
	case 2:
		type T = input.Input
		snap(c, "input", input.New(1+n(12)).Focused(true), func() snapOp[T] {
			switch n(14) {
			case 0:
				w := word()
				return op(func(v T) T { return v.Content(w) }, "Content(%q)", w)
			case 1:
				w, p := word(), n(5)
				return op(func(v T) T { return v.SetContent(w, p) }, "SetContent(%q,%d)", w, p)
			case 2:
				w := word()
				return op(func(v T) T { return v.Placeholder(w) }, "Placeholder(%q)", w)
			case 3:
				on := flip()
				return op(func(v T) T { return v.Focused(on).ShowCursor(!on) }, "Focused(%v).ShowCursor", on)
			case 4:
				w := 1 + n(20)
				return op(func(v T) T { return v.Width(w) }, "Width(%d)", w)
			case 5:
				m := n(5)
				return op(func(v T) T { return v.Validator(input.MaxLength(m)) }, "Validator(max %d)", m)
			case 6:
				t := themes[n(3)]
				return op(func(v T) T { return v.Theme(t) }, "Theme")
			case 7:
				return snapMsg(c, T.Update)
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			a, b, d := v.ContentParts()
			return fmt.Sprintf("%q %q %d %q %q %q %v %v", v.View(), v.Value(), v.CursorPosition(), a, b, d, v.IsValid(), v.IsFocused())
		}, nil, snapType(T.Update, ru('z')), snapType(T.Update, kt(tea.KeyBackspace)))
	case 3, 14, 15:
		type T = input.TextArea
		kill := n(3) == 0
		snap(c, "textarea", input.NewTextArea().SetValue(strings.Join(words(n(5)), "\n")).SetCursorPosition(n(3), n(4)), func() snapOp[T] {
			k := n(24)
			if kill {
				k = 10
			}
			switch k {
			case 10, 11, 12, 13:
				k := []tea.KeyMsg{ctrl('k'), ctrl('k'), ctrl('u'), ctrl('w'), alt('d'), ctrl('y'), kt(tea.KeyHome), kt(tea.KeyUp), kt(tea.KeyDown)}[n(9)]
				return op(func(v T) T { n, _ := v.Update(k); return n }, "key %q", k.String())
			case 0:
				w := strings.Join(words(n(5)), "\n")
				return op(func(v T) T { return v.SetValue(w) }, "SetValue(%q)", w)
			case 1:
				w, h := n(20), n(8)
				return op(func(v T) T { return v.Size(w, h) }, "Size(%d,%d)", w, h)
			case 2:
				a, b := n(4), n(20)
				return op(func(v T) T { return v.MaxLines(a).MaxChars(b) }, "MaxLines(%d).MaxChars(%d)", a, b)
			case 3:
				w := word()
				return op(func(v T) T { return v.Placeholder(w) }, "Placeholder(%q)", w)
			case 4:
				a, b := flip(), flip()
				return op(func(v T) T { return v.ShowLineNumbers(a).ShowCursor(b).ReadOnly(a && b) }, "ShowLineNumbers(%v).ShowCursor(%v)", a, b)
			case 5:
				a, b := n(4), n(6)
				return op(func(v T) T { return v.SetCursorPosition(a, b) }, "SetCursorPosition(%d,%d)", a, b)
			case 6:
				return op(func(v T) T { return v.MoveCursorToEnd() }, "MoveCursorToEnd")
			case 7:
				col := n(5)
				return op(func(v T) T {
					return v.OnMovement(func(from, to input.CursorPos) bool { return to.Col <= col })
				}, "OnMovement(%d)", col)
			case 8:
				return snapMsg(c, T.Update)
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			row, col := v.CursorPosition()
			a, b, d := v.ContentParts()
			return fmt.Sprintf("%q %q %d %d %q %q %q %q %q %d %v %q", v.View(), v.Value(), row, col, v.Lines(), a, b, d, v.CurrentLine(), v.LineCount(), v.IsEmpty(), v.SelectedText())
		}, func(v T) { overwrite(v.Lines()) }, snapType(T.Update, ctrl('y')), snapType(T.Update, kt(tea.KeyEnter), ctrl('y')), snapType(T.Update, kt(tea.KeyBackspace)))
	case 4:
		type T = *viewport.Viewport
		snap(c, "viewport", given(words(n(12)), func(s []string) T { return viewport.NewWithLines(s, 6, 3) }), func() snapOp[T] {
			switch n(16) {
			case 0:
				w := strings.Join(words(n(9)), "\n")
				return op(func(v T) T { return v.SetContent(w) }, "SetContent(%q)", w)
			case 1:
				ws := words(n(9))
				return op(func(v T) T { return given(ws, v.SetLines) }, "SetLines(%q)", ws)
			case 2, 3, 4:
				w := word()
				return op(func(v T) T { return v.AppendLine(w) }, "AppendLine(%q)", w)
			case 5, 6:
				ws := words(n(4))
				return op(func(v T) T { return given(ws, v.AppendLines) }, "AppendLines(%q)", ws)
			case 7:
				a, b := flip(), flip()
				return op(func(v T) T { return v.FollowMode(a).WrapLines(b) }, "FollowMode(%v).WrapLines(%v)", a, b)
			case 8:
				a, l := n(3) > 0, n(4)
				return op(func(v T) T { return v.MouseEnabled(a).SetWheelScrollLines(l) }, "MouseEnabled(%v,%d)", a, l)
			case 9:
				a, b := n(10), n(6)
				return op(func(v T) T { return v.SetSize(a, b) }, "SetSize(%d,%d)", a, b)
			case 10:
				o := n(12)
				return op(func(v T) T { return v.SetYOffset(o) }, "SetYOffset(%d)", o)
			case 11:
				on := flip()
				return op(func(v T) T {
					if on {
						return v.ScrollToTop()
					}
					return v.ScrollToBottom()
				}, "ScrollTo(%v)", on)
			case 12, 13:
				return snapMsg(c, T.Update)
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			return fmt.Sprintf("%q %q %d %d %d %v %v %v %v", v.View(), v.VisibleLines(), v.ScrollOffset(), v.TotalLines(), v.Height(), v.CanScrollUp(), v.CanScrollDown(), v.IsAtTop(), v.IsAtBottom())
		}, func(v T) { overwrite(v.VisibleLines()) }, T.ScrollToBottom, T.ScrollToTop)
	case 5:
		type T = *list.List
		ws := words(n(12))
		vals := make([]any, len(ws))
		for i := range vals {
			vals[i] = i
		}
		mode := list.NewMultiSelect
		if n(4) == 0 {
			mode = list.NewSingleSelect
		}
		snap(c, "list", given(vals, func(s []any) T { return given(ws, func(l []string) T { return mode(s, l) }) }), func() snapOp[T] {
			switch n(14) {
			case 0:
				h := n(8)
				return op(func(v T) T { return v.Height(h) }, "Height(%d)", h)
			case 1:
				k := 1 + n(4)
				return op(func(v T) T {
					return v.Filter(func(item any, q string) bool { return pickFilter(k, ws[item.(int)], q) })
				}, "Filter(%d)", k)
			case 2, 3:
				on := n(4) > 0
				return op(func(v T) T { return v.ShowFilter(on) }, "ShowFilter(%v)", on)
			case 4:
				return op(func(v T) T {
					return v.ItemRenderer(func(item any, i int, s, f bool) string { return fmt.Sprint(item, i, s, f) })
				}, "ItemRenderer")
			case 5:
				return snapMsg(c, T.Update)
			case 6, 7, 8:
				return op(func(v T) T { v, _ = v.Update(kt(tea.KeySpace)); return v }, "space")
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			return fmt.Sprintf("%q %v %v %v %d", v.View(), v.SelectedItems(), v.FocusedItem(), v.SelectedIndices(), v.FocusedIndex())
		}, func(v T) { overwrite(v.SelectedItems()); overwrite(v.SelectedIndices()) }, snapType(T.Update, kt(tea.KeyEnd), kt(tea.KeySpace)), func(v T) T { return v.ShowFilter(false) }, snapType(T.Update, kt(tea.KeyUp)))
	case 6:
		type T = *selectc.Select[int]
		options := func(v T) T {
			o := none(selectc.Opt("", 0))
			for i, w := range words(n(9)) {
				o = append(o, selectc.Opt(w, i, word()).WithDisabled(n(8) == 0))
			}
			return setOpts(o, v.Options)
		}
		snap(c, "select", options(selectc.New[int](word())), func() snapOp[T] {
			switch n(14) {
			case 0:
				ws := words(n(9))
				return op(func(v T) T {
					o := none(selectc.Opt("", 0))
					for i, w := range ws {
						o = append(o, selectc.Opt(w, i))
					}
					return setOpts(o, v.Options)
				}, "Options(%q)", ws)
			case 1:
				h := 1 + n(6)
				return op(func(v T) T { return v.WithHeight(h) }, "WithHeight(%d)", h)
			case 2, 3, 4:
				on := n(4) > 0
				return op(func(v T) T { return v.WithFilterable(on) }, "WithFilterable(%v)", on)
			case 5:
				k := n(5)
				return op(func(v T) T { return v.WithFilterFunc(optFilter(selectc.Opt("", 0), k)) }, "WithFilterFunc(%d)", k)
			case 6:
				k := n(8)
				return op(func(v T) T { return v.WithDefault(k) }, "WithDefault(%d)", k)
			case 7:
				return snapMsg(c, T.Update)
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			a, b := v.SelectedValue()
			d, e := v.FocusedValue()
			return fmt.Sprintf("%q %d %v %d %v", v.View(), a, b, d, e)
		}, nil, snapType(T.Update, kt(tea.KeyEnd)), snapType(T.Update, kt(tea.KeyBackspace), kt(tea.KeyBackspace)))
	case 7, 8:
		type T = *multiselect.MultiSelect[int]
		options := func(v T, ws []string) T {
			o := none(multiselect.Opt("", 0))
			for i, w := range ws {
				o = append(o, multiselect.Opt(w, i))
			}
			return setOpts(o, v.Options)
		}
		snap(c, "multiselect", options(multiselect.New[int](word()), words(n(9))), func() snapOp[T] {
			switch n(16) {
			case 0:
				ws := words(n(9))
				return op(func(v T) T { return options(v, ws) }, "Options(%q)", ws)
			case 1:
				h := 1 + n(6)
				return op(func(v T) T { return v.WithHeight(h) }, "WithHeight(%d)", h)
			case 2, 3:
				on := n(4) > 0
				return op(func(v T) T { return v.WithFilterable(on) }, "WithFilterable(%v)", on)
			case 4:
				k := n(5)
				return op(func(v T) T { return v.WithFilterFunc(optFilter(multiselect.Opt("", 0), k)) }, "WithFilterFunc(%d)", k)
			case 5, 6:
				is := []int{n(9), n(9), n(9)}[:n(4)]
				return op(func(v T) T { return given(is, func(s []int) T { return v.Selected(s...) }) }, "Selected(%v)", is)
			case 7:
				a, b := n(3), 2+n(5)
				return op(func(v T) T { return v.Min(a).Max(b) }, "Min(%d).Max(%d)", a, b)
			case 8:
				return snapMsg(c, T.Update)
			case 9, 10, 11:
				return op(func(v T) T { v, _ = v.Update(kt(tea.KeySpace)); return v }, "space")
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			return fmt.Sprintf("%q %v %v %d", v.View(), v.SelectedItems(), v.SelectedIndices(), v.SelectionCount())
		}, func(v T) { overwrite(v.SelectedItems()); overwrite(v.SelectedIndices()) }, snapType(T.Update, kt(tea.KeyEnd), kt(tea.KeySpace)), snapType(T.Update, kt(tea.KeyBackspace), kt(tea.KeyBackspace)))
	case 9:
		type T = *table.Table
		rows := func() []table.Row {
			rs := make([]table.Row, n(9))
			for i := range rs {
				rs[i] = table.Row{"a": word(), "b": n(5)}
			}
			return rs
		}
		give := func(rs []table.Row, f func([]table.Row) T) T {
			fresh := make([]table.Row, len(rs))
			for i, x := range rs {
				fresh[i] = table.Row{"a": x["a"], "b": x["b"]}
			}
			maps := append([]table.Row{}, fresh...)
			v := given(fresh, f)
			for _, x := range maps {
				x["a"] = "changed"
			}
			return v
		}
		cols := []table.Column{{Key: "a", Title: "A", Width: 6, Sortable: true}, {Key: "b", Title: "B", Width: 4, Sortable: flip()}}
		snap(c, "table", give(rows(), func(rs []table.Row) T {
			return given(cols, func(cs []table.Column) T { return table.NewWithRows(cs, rs) })
		}), func() snapOp[T] {
			switch n(12) {
			case 0:
				h := n(8)
				return op(func(v T) T { return v.Height(h) }, "Height(%d)", h)
			case 1:
				on := flip()
				return op(func(v T) T { return v.ShowHeader(on) }, "ShowHeader(%v)", on)
			case 2:
				rs := rows()
				return op(func(v T) T { return give(rs, v.SetRows) }, "SetRows(%v)", rs)
			case 3, 4, 5:
				k := oneOf(c, "a", "b")
				return op(func(v T) T { return v.SortByColumn(k) }, "SortByColumn(%s)", k)
			case 6:
				return op(func(v T) T { return v.ClearSort() }, "ClearSort")
			case 7:
				return snapMsg(c, T.Update)
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			return fmt.Sprintf("%q %v %d %v", v.View(), v.SelectedRow(), v.SelectedIndex(), v.Rows())
		}, func(v T) {
			if x := v.SelectedRow(); x != nil {
				x["a"] = "changed"
			}
			for _, x := range v.Rows() {
				x["b"] = -1
				delete(x, "a")
			}
			overwrite(v.Rows())
		}, T.ClearSort, func(v T) T { return v.SortByColumn("a") }, snapType(T.Update, kt(tea.KeyEnd)))
	case 10:
		type T = *confirm.Confirm
		snap(c, "confirm", confirm.New(word()), func() snapOp[T] {
			w, on := word(), flip()
			switch n(8) {
			case 0:
				return op(func(v T) T { return v.Description(w) }, "Description(%q)", w)
			case 1:
				return op(func(v T) T { return v.Affirmative(w) }, "Affirmative(%q)", w)
			case 2:
				return op(func(v T) T { return v.Negative(w) }, "Negative(%q)", w)
			case 3:
				return op(func(v T) T { return v.WithCancel(on) }, "WithCancel(%v)", on)
			case 4:
				return op(func(v T) T {
					if on {
						return v.DefaultYes()
					}
					return v.DefaultNo()
				}, "Default(%v)", on)
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			return fmt.Sprintf("%q %v %v %v %v %v", v.View(), v.Done(), v.Result(), v.IsYes(), v.IsNo(), v.IsCanceled())
		}, nil, snapType(T.Update, kt(tea.KeyRight), kt(tea.KeyEnter)))
	case 11:
		type T = *modal.Modal
		snap(c, "modal", modal.NewWithTitle(word(), word()).Show(), func() snapOp[T] {
			switch n(12) {
			case 0:
				a, b := n(30), n(12)
				return op(func(v T) T { return v.Size(a, b) }, "Size(%d,%d)", a, b)
			case 1:
				a, b := n(30), n(12)
				return op(func(v T) T { return v.Position(a, b) }, "Position(%d,%d)", a, b)
			case 2, 3:
				var bs []modal.Button
				for range n(4) {
					bs = append(bs, modal.Button{Label: word(), Key: "x", Action: word()})
				}
				return op(func(v T) T { return given(bs, v.Buttons) }, "Buttons(%q)", bs)
			case 4:
				a, b := flip(), n(4) > 0
				return op(func(v T) T {
					if v = v.DimBackground(a).Hide(); b {
						v = v.Show()
					}
					return v
				}, "DimBackground(%v), Show(%v)", a, b)
			case 5:
				return snapMsg(c, T.Update)
			}
			return snapKey(c, T.Update)
		}, func(v T) string { return fmt.Sprintf("%q %v %q", v.View(), v.IsVisible(), v.FocusedButton()) }, nil, snapType(T.Update, kt(tea.KeyTab)), T.Show)
	case 12:
		type T = *form.Form
		i := 0
		snap(c, "form", form.New(word()), func() snapOp[T] {
			if n(3) == 0 {
				i++
				name, label, text := fmt.Sprint("f", i), word(), word()
				var vs []formb.Validator
				for range n(3) {
					vs = append(vs, randRule(c).v)
				}
				return op(func(v T) T {
					return given(vs, func(s []formb.Validator) T {
						if len(text)%2 == 0 {
							return v.Field(name, label, input.New(9).Focused(true).Content(text), s...)
						}
						return v.Field(name, label, probe{text: text}, s...)
					})
				}, "Field(%q,%q,%q)", name, label, text)
			}
			if n(6) == 0 {
				return snapMsg(c, T.Update)
			}
			return snapKey(c, T.Update)
		}, func(v T) string {
			var s []string
			for k, m := range v.Values() {
				s = append(s, fmt.Sprintf("%s=%q", k, m.View()))
			}
			for k, e := range v.Errors() {
				s = append(s, fmt.Sprintf("%s!%q", k, e))
			}
			sort.Strings(s)
			return fmt.Sprintf("%q %q %v %v", v.View(), s, v.IsValid(), v.IsDirty())
		}, func(v T) {
			clear(v.Values())
			for _, e := range v.Errors() {
				overwrite(e)
			}
			clear(v.Errors())
		}, snapType(T.Update, kt(tea.KeyTab), ru('z')), snapType(T.Update, kt(tea.KeyEnter)))
	case 13:
		if flip() {
			type T = progress.Bar
			snap(c, "bar", *progress.NewBar(1 + n(20)), func() snapOp[T] {
				d := n(90) - 30
				switch n(5) {
				case 0:
					return op(func(v T) T { return v.SetProgress(d) }, "SetProgress(%d)", d)
				case 1:
					return op(func(v T) T { return v.Increment(d) }, "Increment(%d)", d)
				case 2:
					return op(func(v T) T { return v.Decrement(d) }, "Decrement(%d)", d)
				case 3:
					w := txt.String(r, txt.All, 2)
					return op(func(v T) T { return v.Label(w).ShowPercent(d > 0).Label("x") }, "Label.ShowPercent(%v)", d > 0)
				}
				return op(func(v T) T { return v.FillChar('a').EmptyChar('b') }, "FillChar.EmptyChar")
			}, func(v T) string { return fmt.Sprintf("%q %d %v", v.View(), v.Progress(), v.IsComplete()) }, nil)
			break
		}
		type T = progress.Spinner
		snap(c, "spinner", *given(words(n(5)), func(s []string) *T { return progress.NewSpinnerCustom(s, 10) }), func() snapOp[T] {
			if n(3) == 0 {
				w := word()
				return op(func(v T) T { return v.Label(w) }, "Label(%q)", w)
			}
			return snapMsg(c, T.Update)
		}, T.View, nil)
	}
	c.Seen(c.TraceText())
	c.Sample(c.TraceText())
}

func setOpts[O, V any](o []O, f func(...O) V) V { return given(o, func(s []O) V { return f(s...) }) }

func p25style(c *fw.Ctx) {
	r := c.R
	snap(c, "style", style.New(), func() snapOp[style.Style] {
		// one step of a random style history, replayed with the same choices
		a, b := r.Uint64(), r.Uint64()
		return op(func(s style.Style) style.Style {
			s, _, _ = smod{}.step(rand.New(rand.NewPCG(a, b)), s)
			return s
		}, "step %x,%x", a, b)
	}, func(s style.Style) string {
		return fmt.Sprintf("%q %+v", style.Render(s, "ab\ncd 日本"), readStyle(s).text())
	}, nil)
}

func p25theme(c *fw.Ctx) {
	r := c.R
	base := []*style.Theme{style.DefaultTheme(), style.DarkTheme(), style.LightTheme(), style.HighContrastTheme()}
	snap(c, "theme", base[r.IntN(4)], func() snapOp[*style.Theme] {
		o := randTheme(r, r.IntN(1000), r.IntN(2) == 0)
		t := o.theme()
		switch r.IntN(7) {
		case 0:
			return op(func(v *style.Theme) *style.Theme { return v.WithColors(o.c) }, "WithColors")
		case 1:
			return op(func(v *style.Theme) *style.Theme { return v.WithBorders(o.b) }, "WithBorders")
		case 2:
			return op(func(v *style.Theme) *style.Theme { return v.WithSpacing(o.s) }, "WithSpacing")
		case 3:
			return op(func(v *style.Theme) *style.Theme { return v.WithTypography(o.t) }, "WithTypography")
		case 4:
			return op(func(v *style.Theme) *style.Theme { return v.WithName(o.name) }, "WithName")
		case 5:
			return op(func(v *style.Theme) *style.Theme { return t.Merge(v) }, "Merge into another")
		}
		return op(func(v *style.Theme) *style.Theme { return v.Merge(t) }, "Merge")
	}, func(v *style.Theme) string {
		return fmt.Sprintf("%+v", valOf(v))
	}, func(*style.Theme) {
		// the presets handed out as a list are not the list itself
		overwrite(style.AllThemes())
		for i, t := range style.AllThemes() {
			if t == nil || t.Name() != base[i].Name() {
				c.Failf("the list of themes changed")
			}
		}
	})
}
