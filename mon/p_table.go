package main

import (
	"fmt"
	"math"
	"math/big"
	"slices"
	"strings"

	"github.com/phoenix-tui/phoenix/components/table"
	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
	"phoenixverif/vt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P23", Quick: 100000, Thorough: 1500000, Case: p23,
		Rule:   "random histories of data, sorts, navigation and sizes on tables of any content against a model of the rows and the cells",
		Assume: []string{"values of one sortable column all strings, all booleans or all numbers, or absent; values without control characters other than line breaks and tabs; undisputed character widths"},
		Need:   map[string]int64{"steps": 500000, "sorted": 200000, "ties": 100000, "scrolled": 100000, "cut": 100000, "wide": 100000, "styled": 20000, "breaks": 50000, "big": 200}})
}

type tabCol struct {
	key, title string
	w, align   int
	kind       int // of the values: 0 text, 1 int, 2 int64, 3 float64, 4 bool, 5 any number
	sortable   bool
	render     int // 0 none, 1 plain, 2 styled
}
type tabM struct {
	cols   []tabCol
	rows   []table.Row // as given
	order  []table.Row // as shown
	h      int
	header bool
	sel    int
	sort   string
	desc   bool
}

func (m *tabM) room() int {
	if m.header {
		return clamp(m.h-1, 0, 1<<40)
	}
	return clamp(m.h, 0, 1<<40)
}

func asType[T ~int](_ T, v int) T { return T(v) }

// numOf is the exact value of a number, nil for NaN.
func numOf(v any) *big.Rat {
	switch x := v.(type) {
	case int:
		return big.NewRat(int64(x), 1)
	case int64:
		return big.NewRat(x, 1)
	case uint64:
		return new(big.Rat).SetInt(new(big.Int).SetUint64(x))
	case float64:
		return new(big.Rat).SetFloat64(x)
	case uint8:
		return big.NewRat(int64(x), 1)
	case float32:
		return new(big.Rat).SetFloat64(float64(x))
	}
	panic("not a number")
}

// tabLess is the order of the values of a column.
func tabCompare(a, b any) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return -1
		}
		return 1
	}
	switch x := a.(type) {
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case y:
			return -1
		}
		return 1
	}
	x, y := numOf(a), numOf(b)
	switch {
	case x == nil && y == nil:
		return 0
	case x == nil:
		return -1
	case y == nil:
		return 1
	}
	return x.Cmp(y)
}

func tabText(col *tabCol, v any) string {
	switch col.render {
	case 1:
		return fmt.Sprintf("‹%v›", v)
	case 2:
		return fmt.Sprintf("\x1b[31m%v\x1b[0m", v)
	}
	return fmt.Sprintf("%v", v)
}

// tabBreaks are shown as one space each: a row is one line.
var tabBreaks = strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ", "\t", " ")

// tabCell is the text of a cell: cut, aligned, marked.
func tabCell(c *fw.Ctx, col *tabCol, s string, mark bool) string {
	s = txt.Strip(s)
	if t := tabBreaks.Replace(s); t != s {
		c.Count("breaks", 1)
		s = t
	}
	w := nn(col.w)
	if txt.Width(s) > w {
		c.Count("cut", 1)
		if w > 3 {
			s = txt.Cut(s, w-3) + "..."
		} else {
			s = txt.Cut(s, w)
		}
	}
	if len(s) != txt.Width(s) {
		c.Count("wide", 1)
	}
	pad := w - txt.Width(s)
	switch col.align {
	case 0:
		s += strings.Repeat(" ", pad)
	case 1:
		s = strings.Repeat(" ", pad/2) + s + strings.Repeat(" ", pad-pad/2)
	case 2:
		s = strings.Repeat(" ", pad) + s
	}
	if mark && s != "" {
		f := txt.Split(s)[0]
		s = ">" + strings.Repeat(" ", txt.Width(f)-1) + s[len(f):]
	}
	return s
}

func (m *tabM) reorder() {
	m.order = slices.Clone(m.rows)
	if m.sort == "" {
		return
	}
	slices.SortStableFunc(m.order, func(a, b table.Row) int {
		x := tabCompare(a[m.sort], b[m.sort])
		if m.desc {
			return -x
		}
		return x
	})
}

func p23(c *fw.Ctx) {
	r := c.R
	m := &tabM{h: 10, header: true}
	cl := txt.Classes(r, txt.All)
	breaks := r.IntN(6) == 0
	broken := func(s string) string {
		for breaks && r.IntN(3) == 0 {
			cs := txt.Split(s)
			s = strings.Join(slices.Insert(cs, r.IntN(len(cs)+1), []string{"\n", "\r\n", "\t", "\r"}[r.IntN(4)]), "")
		}
		return s
	}
	for i := r.IntN(5); i >= 0; i-- {
		k := tabCol{key: fmt.Sprint("c", i), title: broken(txt.String(r, cl, r.IntN(8))), w: r.IntN(12), align: r.IntN(3), kind: r.IntN(6), sortable: r.IntN(4) > 0}
		if r.IntN(30) == 0 {
			k.w = -1 - r.IntN(3)
		}
		if r.IntN(4) == 0 {
			k.render = 1 + r.IntN(2)
		}
		m.cols = append(m.cols, k)
	}
	if r.IntN(40) == 0 {
		m.cols = nil
	}
	id := 0
	big, long := c.Rare(300), r.IntN(30) == 0
	prefix := strings.Repeat(pickWords[r.IntN(len(pickWords))], r.IntN(100))
	rows := func() []table.Row {
		n := r.IntN(9)
		if r.IntN(4) == 0 {
			n = r.IntN(40)
		}
		span := 1 + r.IntN(8)
		if big {
			n = r.IntN(1200)
			span = 1 + r.IntN(60)
			c.Count("big", 1)
		}
		rs := make([]table.Row, n)
		for i := range rs {
			id++
			rs[i] = table.Row{"id": id}
			for _, k := range m.cols {
				var v any
				switch k.kind {
				case 0:
					v = broken(txt.String(r, cl, r.IntN(1+span)))
					if long && r.IntN(3) > 0 {
						v = prefix + v.(string)
					}
					if r.IntN(2) == 0 {
						v = pickWords[r.IntN(min(len(pickWords), 2*span))]
					}
				case 1:
					v = r.IntN(3*span) - span
				case 2:
					v = int64(r.IntN(3*span)-span) + int64(r.IntN(2))<<60
					switch r.IntN(12) {
					case 0:
						v = math.MaxInt64 - int64(r.IntN(3))
					case 1:
						v = math.MinInt64 + int64(r.IntN(3))
					}
				case 3:
					v = float64(r.IntN(5*span)) / 2
					if r.IntN(12) == 0 {
						v = math.NaN()
					}
				case 4:
					v = r.IntN(2) == 0
				case 5:
					x := r.IntN(3 * span)
					v = []any{x, int64(x), float64(x) + 0.5, uint8(x), float32(x), uint64(x), int64(x) + 1<<60, x + 1<<60, uint64(x) + 1<<60, -x - 1<<60}[r.IntN(10)]
				}
				switch r.IntN(12) {
				case 0:
					rs[i][k.key] = nil
				case 1:
				default:
					rs[i][k.key] = v
				}
			}
		}
		return rs
	}
	cols := make([]table.Column, len(m.cols))
	for i := range m.cols {
		k := &m.cols[i]
		cols[i] = table.Column{Key: k.key, Title: k.title, Width: k.w, Sortable: k.sortable}
		cols[i].Alignment = asType(cols[i].Alignment, k.align)
		if k.render > 0 {
			cols[i].Renderer = func(v any) string { return tabText(k, v) }
		}
	}
	c.Tracef("columns %+v", m.cols)
	var t *table.Table
	give := func(rs []table.Row) []table.Row {
		m.rows, m.sel, m.sort = slices.Clone(rs), 0, ""
		m.reorder()
		c.Tracef("rows %v", rs)
		return rs
	}
	if r.IntN(2) == 0 {
		t = table.New(cols)
		if r.IntN(4) > 0 {
			rs := give(rows())
			t = t.SetRows(rs)
			clear(rs)
		}
	} else {
		rs := give(rows())
		t = table.NewWithRows(cols, rs)
		clear(rs)
	}
	clear(cols)
	p23check(c, t, m)
	key := func(ks ...tea.KeyMsg) {
		k := ks[r.IntN(len(ks))]
		c.Tracef("key %q", k.String())
		next, cmd := t.Update(k)
		if cmd != nil {
			c.Failf("key %q returns a command", k.String())
		}
		t = next
	}
	last := func() int { return max(0, len(m.order)-1) }
	steps := 3 + r.IntN(20)
	if big {
		steps = 3 + r.IntN(10)
	}
	for i := steps; i > 0; i-- {
		switch op := r.IntN(26); op {
		case 0, 1, 2:
			m.h = r.IntN(14)
			if r.IntN(10) == 0 {
				m.h = r.IntN(6) - 4
			} else if r.IntN(10) == 0 {
				m.h = math.MaxInt
			} else if big && r.IntN(2) == 0 {
				m.h = r.IntN(600)
			}
			c.Tracef("Height(%d)", m.h)
			t = t.Height(m.h)
		case 3:
			m.header = r.IntN(2) == 0
			c.Tracef("ShowHeader(%v)", m.header)
			t = t.ShowHeader(m.header)
		case 4:
			rs := give(rows())
			t = t.SetRows(rs)
			clear(rs)
		case 5, 6, 7, 8:
			k := "id"
			ok := false
			if len(m.cols) > 0 && r.IntN(8) > 0 {
				col := m.cols[r.IntN(len(m.cols))]
				k, ok = col.key, col.sortable
			}
			c.Tracef("SortByColumn(%q)", k)
			t = t.SortByColumn(k)
			if ok {
				m.desc = m.sort == k && !m.desc
				m.sort, m.sel = k, 0
				m.reorder()
			}
		case 9:
			c.Tracef("ClearSort")
			t = t.ClearSort()
			m.sort = ""
			m.reorder()
		case 10:
			key(ru('c'))
			m.sort = ""
			m.reorder()
		case 11, 12, 13:
			key(kt(tea.KeyUp), ru('k'))
			m.sel = max(0, m.sel-1)
		case 14, 15, 16, 17:
			key(kt(tea.KeyDown), ru('j'))
			m.sel = min(last(), m.sel+1)
		case 18, 19:
			key(kt(tea.KeyPgDown))
			m.sel = min(last(), m.sel+m.room())
		case 20:
			key(kt(tea.KeyPgUp))
			m.sel = max(0, m.sel-m.room())
		case 21:
			key(kt(tea.KeyHome), ru('g'))
			m.sel = 0
		case 22, 23:
			key(kt(tea.KeyEnd), ru('G'))
			m.sel = last()
		case 24:
			key(kt(tea.KeyTab), ru('x'), ctrl('k'), alt('j'), kt(tea.KeyLeft))
		case 25:
			t, _ = t.Update(tea.WindowSizeMsg{Width: 3, Height: 2})
			t = t.Theme(nil)
		}
		p23check(c, t, m)
	}
	c.Seen(c.TraceText())
	c.Sample(c.TraceText())
}

func p23check(c *fw.Ctx, t *table.Table, m *tabM) {
	c.Count("steps", 1)
	if m.sort != "" {
		c.Count("sorted", 1)
		for i := 1; i < len(m.order); i++ {
			if tabCompare(m.order[i-1][m.sort], m.order[i][m.sort]) == 0 {
				c.Count("ties", 1)
				break
			}
		}
	}
	if t.SelectedIndex() != m.sel {
		c.Failf("selected index %d, expected %d of %d rows", t.SelectedIndex(), m.sel, len(m.order))
	}
	var want any
	if len(m.order) > 0 {
		want = m.order[m.sel]["id"]
	}
	if g := t.SelectedRow(); g["id"] != want {
		c.Failf("selected row %v, expected row %v", g, want)
	}
	all := t.Rows()
	if len(all) != len(m.rows) {
		c.Failf("%d rows, expected %d", len(all), len(m.rows))
	}
	for i := range all {
		if all[i]["id"] != m.rows[i]["id"] {
			c.Failf("row %d of Rows() is %v, expected %v", i, all[i], m.rows[i])
		}
	}
	view := t.View()
	lines := strings.SplitAfter(view, "\n")
	if lines[len(lines)-1] != "" {
		c.Failf("the view does not end with a line feed: %q", view)
	}
	lines = lines[:len(lines)-1]
	n := min(m.room(), len(m.order))
	if m.header {
		if len(lines) < 2 {
			c.Failf("no header in %q", view)
		}
		var a, b []string
		for i := range m.cols {
			k := &m.cols[i]
			s := k.title
			if k.key == m.sort {
				s += map[bool]string{false: " ▲", true: " ▼"}[m.desc]
			}
			a = append(a, tabCell(c, k, s, false))
			b = append(b, strings.Repeat("─", nn(k.w)))
		}
		if want := strings.Join(a, "│") + "\n"; lines[0] != want {
			c.Failf("header %q, expected %q", lines[0], want)
		}
		if want := strings.Join(b, "┼") + "\n"; lines[1] != want {
			c.Failf("header line %q, expected %q", lines[1], want)
		}
		lines = lines[2:]
	}
	if len(lines) != n {
		c.Failf("%d rows drawn, expected %d (of %d, room %d):\n%s", len(lines), n, len(m.order), m.room(), view)
	}
	if n == 0 {
		return
	}
	if n < len(m.order) {
		c.Count("scrolled", 1)
	}
	var made []string
	row := func(i int) string {
		if made == nil {
			made = make([]string, len(m.order))
		}
		if made[i] != "" {
			return made[i]
		}
		var a []string
		for j := range m.cols {
			k := &m.cols[j]
			a = append(a, tabCell(c, k, tabText(k, m.order[i][k.key]), j == 0 && i == m.sel))
		}
		made[i] = strings.Join(a, "│") + "\n"
		return made[i]
	}
	found := false
	for o := max(0, m.sel-n+1); o <= min(m.sel, len(m.order)-n) && !found; o++ {
		found = true
		for i := 0; i < n && found; i++ {
			found = txt.Strip(lines[i]) == row(o+i)
		}
	}
	if !found {
		var want []string
		for i := range m.order {
			want = append(want, row(i))
		}
		c.Failf("the view is not %d consecutive rows with the selected %d:\n%q\nrows:\n%q", n, m.sel, lines, want)
	}
	styled := false
	for _, k := range m.cols {
		styled = styled || k.render == 2 && k.w > 0
	}
	if !styled {
		return
	}
	c.Count("styled", 1)
	b := interp(c, strings.TrimSuffix(strings.Join(lines, ""), "\n"))
	for i, l := range b.cells {
		if b.ends[i] != (vt.Attr{}) {
			c.Failf("row %q leaves the style %v on", lines[i], b.ends[i])
		}
		x := 0
		for j, k := range m.cols {
			for e := x + nn(k.w); x < e; x++ {
				red := l[x].A != (vt.Attr{})
				if red && k.render != 2 {
					c.Failf("column %d of %q is styled", x, lines[i])
				}
				if !red && k.render == 2 && l[x].S != " " && l[x].S != "" && l[x].S != "." && !(j == 0 && l[x].S == ">") {
					c.Failf("column %d of %q is not styled", x, lines[i])
				}
			}
			x++
		}
	}
}
