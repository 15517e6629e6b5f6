package main

import (
	"fmt"
	"math/rand/v2"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
	"phoenixverif/vt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P05", Race: true, Quick: 900, Thorough: 16000, Case: p05, Setup: teaSetup,
		Rule:   "history of messages, suspends, foreign output, failing commands and resumes of one program run",
		Assume: []string{"foreign output while suspended leaves the screen with whole characters"},
		Need:   map[string]int64{"suspends": 500, "frames_after_resume": 500, "failed_commands": 50}})
	const chunks = 16
	var fixed []fw.Fixed
	for i := 0; i < chunks; i++ {
		fixed = append(fixed, fw.Fixed{Name: fmt.Sprintf("widths-%d-of-%d", i, chunks), Run: func(c *fw.Ctx) { p06widths(c, i, chunks) }})
	}
	fw.Register(&fw.Prop{ID: "P06", Fixed: fixed, Quick: 20000, Thorough: 400000, Case: p06, Setup: teaSetup,
		Rule:   "terminal size, content above the frame, sequence of views and resizes",
		Assume: []string{"views contain text, control characters, SGR sequences, hyperlinks closed on their line, and newlines", "as long as the program has not been told a size, views fit the terminal", "the terminal does not re-flow lines when resized", "emoji sequences joined by ZWJ occur only when nothing is truncated (the program has not been told a size) and without tabs"},
		Need:   map[string]int64{"frames_checked": 10000, "resizes": 1000, "full_width_lines": 500, "truncated_lines": 500, "multiline_styles": 200, "links": 200, "tabs": 300, "controls": 300}})
}

// ---- what a view must look like ----------------------------------------------------

// viewRows lays the view's lines out on rows of width w: cut to the width, with
// the styles in force, blank behind.
func viewRows(view string, w int) [][]vt.Cell {
	lines := strings.Split(view, "\n")
	for i, l := range lines {
		lines[i] = drawn(l)
	}
	view = strings.Join(lines, "\n")
	long := 1
	for _, l := range lines {
		long = max(long, txt.VisWidth(l))
	}
	ref := vt.New(max(long, w)+2, len(lines)+1)
	ref.ONLCR = true
	ref.Write([]byte(view))
	rows := make([][]vt.Cell, len(lines))
	for i := range rows {
		row := make([]vt.Cell, w)
		for x := range row {
			row[x] = ref.CellAt(x, i)
		}
		if row[w-1].W == 2 { // half of it does not fit
			row[w-1] = vt.Cell{S: " ", W: 1}
		}
		rows[i] = row
	}
	return rows
}

// drawn is what a line shows: tabs are blank up to the next multiple of eight
// columns, other control characters outside escape sequences show nothing.
func drawn(line string) string {
	if !strings.ContainsFunc(line, func(r rune) bool { return r != 0x1b && r != 7 && unicode.IsControl(r) }) {
		return line
	}
	out := ""
	for _, r := range line {
		switch {
		case r == '\t':
			out += strings.Repeat(" ", 8-txt.VisWidth(out)%8)
		case r != 0x1b && r != 7 && unicode.IsControl(r):
		default:
			out += string(r)
		}
	}
	return out
}

func rowText(r []vt.Cell) string {
	var b strings.Builder
	for _, c := range r {
		if c.W > 0 {
			b.WriteString(c.S)
		}
	}
	return strings.TrimRight(b.String(), " ")
}

func sameRow(a, b []vt.Cell) int {
	for x := range a {
		if x >= len(b) {
			return -1
		}
		if !vt.SameCell(a[x], b[x]) {
			return x
		}
	}
	return -1
}

// screenIs compares rows top.. of the terminal with want; empty string if equal.
func screenIs(t *vt.Term, top int, want [][]vt.Cell) string {
	for i, w := range want {
		y := top + i
		if y < 0 || y >= t.H {
			return fmt.Sprintf("line %d of the view would be in row %d", i, y)
		}
		got := make([]vt.Cell, t.W)
		for x := range got {
			got[x] = t.CellAt(x, y)
		}
		if x := sameRow(got, w); x >= 0 {
			return fmt.Sprintf("row %d (line %d of the view), column %d: %q %v instead of %q %v\n got %q\nwant %q\nscreen:\n%s", y, i, x, got[x].S, got[x].A, w[x].S, w[x].A, rowText(got), rowText(w), t.Dump())
		}
	}
	return ""
}

func blankRow(t *vt.Term, y int) bool {
	for x := 0; x < t.W; x++ {
		if !vt.SameCell(t.CellAt(x, y), vt.Cell{S: " ", W: 1}) {
			return false
		}
	}
	return true
}

// ---- view generator ------------------------------------------------------------------

type vgen struct {
	r     *rand.Rand
	cl    txt.Class
	style bool
	multi bool // styles may stay open across lines
	ctl   bool // with control characters
	lines []string
	c     *fw.Ctx
}

func sgr(r *rand.Rand) string {
	return []string{"\x1b[1m", "\x1b[31m", "\x1b[4m", "\x1b[7m", "\x1b[38;5;123m", "\x1b[48;5;20m", "\x1b[38;2;1;2;3m",
		"\x1b[48;2;9;8;7m", "\x1b[1;32m", "\x1b[0;35m", "\x1b[3;4;93m", "\x1b[44m"}[r.IntN(12)]
}

// line makes a line of exactly n columns if possible.
func (g *vgen) line(n, limit int) string {
	var b strings.Builder
	w := 0
	open, link := false, ""
	cl := g.cl
	if n >= limit {
		cl &^= txt.ZWJ
	}
	prev := ""
	for w < n {
		if g.style && g.r.IntN(8) == 0 {
			if open && g.r.IntN(2) == 0 {
				b.WriteString([]string{"\x1b[0m", "\x1b[m"}[g.r.IntN(2)])
				open = false
			} else {
				b.WriteString(sgr(g.r))
				open = true
			}
		}
		s := txt.Cluster(g.r, cl)
		if prev != "" && txt.Joins(prev, s) {
			continue
		}
		if txt.Width(s) > n-w && n < limit {
			s = "x"
		}
		if link == "" && g.style && g.r.IntN(25) == 0 {
			link = []string{"\a", "\x1b\\"}[g.r.IntN(2)]
			b.WriteString([]string{"\x1b]8;;http://x.org/?é=世#[m" + link, "\x1b]8;id=7;file:///tmp/a;b" + link}[g.r.IntN(2)])
			g.c.Count("links", 1)
		} else if link != "" && g.r.IntN(4) == 0 {
			b.WriteString("\x1b]8;;" + link)
			link = ""
		}
		b.WriteString(s)
		w += txt.Width(s)
		prev = s
		if g.ctl && g.r.IntN(12) == 0 {
			if tab := 8 - w%8; g.r.IntN(3) > 0 && (w+tab <= n || n >= limit) {
				b.WriteString("\t")
				w += tab
				g.c.Count("tabs", 1)
			} else {
				b.WriteString([]string{"\r", "\r", "\b", "\v", "\f", "\x00", "\x7f", "\u0085", "\u009c"}[g.r.IntN(9)])
				g.c.Count("controls", 1)
			}
			prev = ""
		}
	}
	if g.ctl && g.r.IntN(6) == 0 {
		b.WriteString("\r") // as in a file with the line ends of Windows
		g.c.Count("controls", 1)
	}
	if link != "" {
		b.WriteString("\x1b]8;;" + link)
	}
	if open {
		if g.multi && g.r.IntN(3) == 0 {
			g.c.Count("multiline_styles", 1)
		} else {
			b.WriteString("\x1b[0m")
		}
	} else if g.multi && g.r.IntN(8) == 0 {
		b.WriteString("\x1b[0m")
	}
	return b.String()
}

func (g *vgen) next(maxW, maxH int, fits bool) string {
	r := g.r
	width := func() int {
		if fits {
			return r.IntN(maxW)
		}
		switch r.IntN(8) {
		case 0:
			return maxW
		case 1:
			return maxW - 1
		case 2:
			return maxW + 1 + r.IntN(maxW+3)
		case 3:
			return 0
		}
		return r.IntN(maxW + 1)
	}
	maxLines := maxH
	if !fits {
		maxLines = maxH + 4
	}
	switch r.IntN(10) {
	case 0: // all new
		g.lines = nil
		for i := r.IntN(maxLines); i >= 0; i-- {
			g.lines = append(g.lines, g.line(width(), maxW))
		}
	case 1:
		g.lines = []string{""}
	case 2: // same again
	case 3, 4: // grow
		for i := r.IntN(3); i >= 0 && len(g.lines) < maxLines; i-- {
			k := r.IntN(len(g.lines) + 1)
			g.lines = append(g.lines[:k], append([]string{g.line(width(), maxW)}, g.lines[k:]...)...)
		}
	case 5, 6: // shrink, often keeping the last line
		for i := r.IntN(3); i >= 0 && len(g.lines) > 1; i-- {
			k := r.IntN(len(g.lines))
			g.lines = append(g.lines[:k:k], g.lines[k+1:]...)
		}
	default: // change lines
		if len(g.lines) > 0 {
			for i := r.IntN(3); i >= 0; i-- {
				k := r.IntN(len(g.lines))
				switch r.IntN(3) {
				case 0:
					g.lines[k] = g.line(width(), maxW)
				case 1:
					g.lines[k] = ""
				case 2: // change its end
					cs := g.lines[k]
					if !strings.Contains(cs, "\x1b") && (!fits || txt.VisWidth(drawn(cs)) < maxW-2) {
						g.lines[k] = cs + "+"
					} else {
						g.lines[k] = g.line(width(), maxW)
					}
				}
			}
		}
	}
	if len(g.lines) == 0 {
		g.lines = []string{""}
	}
	if len(g.lines) > maxLines {
		g.lines = g.lines[:maxLines]
	}
	if fits {
		for i, l := range g.lines {
			if txt.VisWidth(drawn(l)) >= maxW {
				g.lines[i] = "cut"
			}
		}
	}
	for _, l := range g.lines {
		if w := txt.VisWidth(drawn(l)); w == maxW {
			g.c.Count("full_width_lines", 1)
		} else if w > maxW {
			g.c.Count("truncated_lines", 1)
		}
	}
	return strings.Join(g.lines, "\n")
}

// ---- P06 --------------------------------------------------------------------------------

type viewMsg struct {
	v    string
	drop bool // the frame cannot be written
}
type syncMsg struct{}

func p06(c *fw.Ctx) {
	r := c.R
	W, H := 4+r.IntN(37), 2+r.IntN(13)
	t := newHterm(W, H)
	alt := r.IntN(3) == 0
	in := newFeed()
	defer in.end()
	// what is on the screen before
	y0 := r.IntN(H)
	for y := 0; y < y0; y++ {
		t.vt.SetCursor(0, y)
		t.vt.Write([]byte(txt.Cut(fmt.Sprintf("shell %d ", y)+txt.String(r, txt.Plain, 20), W-1)))
	}
	t.vt.SetCursor(0, y0)
	mainBefore := t.vt.Snapshot()
	nresize := 0
	cx0, cy0 := t.vt.Cursor()
	base := y0 // absolute row at which the frame begins
	if alt {
		base = 0
	}
	absRow := func(tt *vt.Term, i int) []vt.Cell { // row by absolute index
		if i < len(tt.Back) {
			return tt.Back[i]
		}
		y := i - len(tt.Back)
		row := make([]vt.Cell, tt.W)
		for x := range row {
			row[x] = tt.CellAt(x, y)
		}
		return row
	}

	g := &vgen{r: r, cl: txt.Classes(r, txt.All), style: r.IntN(3) != 0, c: c}
	g.multi = g.style && r.IntN(2) == 0
	g.ctl = r.IntN(3) == 0
	sized := r.IntN(4) != 0
	if sized || g.ctl { // truncation counts the parts of joined emoji (terminals differ)
		g.cl &^= txt.ZWJ
		if g.cl == 0 {
			g.cl = txt.ASCII
		}
	}
	first := g.next(W, H, true)
	curView, prevView := first, ""
	known := false
	minW := W // the narrowest the terminal has been
	var bad string
	full := true // the next frame may redraw everything
	prints0 := 0
	frames := 0
	verify := func(what string) {
		if bad != "" {
			return
		}
		t.mu.Lock()
		defer t.mu.Unlock()
		rows := viewRows(curView, t.vt.W)
		if len(rows) > t.vt.H && known {
			rows = rows[len(rows)-t.vt.H:]
		}
		frames++
		_, cy := t.vt.Cursor()
		top := cy - len(rows) + 1
		fail := func(f string, a ...any) {
			bad = fmt.Sprintf("%s (frame %d, terminal %dx%d, alt=%v): %s\nview %q\nbefore %q\noutput:\n%s", what, frames, t.vt.W, t.vt.H, alt, fmt.Sprintf(f, a...), curView, prevView, t.raw8.String())
		}
		if len(t.vt.Unknown) > 0 {
			fail("output not understood: %q", t.vt.Unknown[0])
			return
		}
		if s := screenIs(t.vt, top, rows); s != "" {
			fail("%s", s)
			return
		}
		for y := cy + 1; y < t.vt.H; y++ {
			if !blankRow(t.vt, y) {
				fail("row %d below the view is not blank: %q", y, t.vt.Line(y))
				return
			}
		}
		if alt {
			if top != 0 {
				fail("the view starts in row %d of the alternate screen", top)
				return
			}
		} else {
			want := max(base, t.vt.Scrolled)
			if top+t.vt.Scrolled != want {
				fail("the view starts in row %d, not where the cursor was (%d)", top+t.vt.Scrolled, want)
				return
			}
			for i := 0; i < base; i++ {
				got := absRow(t.vt, i)
				for x := 0; x < minW && x < len(got); x++ {
					if !vt.SameCell(got[x], mainBefore[i][x]) && !(x == minW-1 && mainBefore[i][x].W == 2) {
						fail("row %d above the view changed at column %d: %q instead of %q", i, x, got[x].S, mainBefore[i][x].S)
						return
					}
				}
			}
		}
		// lines that did not change are not written again
		if !full {
			budget := 0
			ol, nl := strings.Split(prevView, "\n"), strings.Split(curView, "\n")
			or, nr := viewRows(prevView, t.vt.W), viewRows(curView, t.vt.W)
			if known {
				if d := len(ol) - t.vt.H; d > 0 {
					ol, or = ol[d:], or[d:]
				}
				if d := len(nl) - t.vt.H; d > 0 {
					nl, nr = nl[d:], nr[d:]
				}
			}
			for i := range nl {
				if i >= len(ol) || ol[i] != nl[i] || sameRow(or[i], nr[i]) >= 0 || g.multi {
					budget += t.vt.W
				} else {
					c.Count("unchanged_lines", 1)
				}
			}
			if d := t.prints - prints0; d > budget {
				fail("%d characters written although the lines that changed have at most %d cells", d, budget)
				return
			}
		}
		full = false
		prints0 = t.prints
	}
	// lost tells whether the latest frame could not be written.
	lost := func() bool {
		t.mu.Lock()
		defer t.mu.Unlock()
		was := t.dropped
		t.drop, t.dropped = false, false
		return was
	}
	hooks := &thooks{}
	hooks.view = func(m tmodel) string { return m.val }
	hooks.update = func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		switch x := msg.(type) {
		case viewMsg:
			if !lost() {
				verify("before the next view")
				prevView = curView
			}
			curView = x.v
			m.val = x.v
			t.mu.Lock()
			t.drop = x.drop
			t.mu.Unlock()
		case tea.WindowSizeMsg:
			// the frame before was checked by the syncMsg sent ahead of the resize
			prevView = curView
			if known && r.IntN(2) == 0 {
				full = true
			}
			full = true
			known = true
		case syncMsg:
			if !lost() {
				verify("at rest")
				prevView = curView
			}
		}
		return m, nil
	}
	opts := []topt{tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t)}
	if alt {
		opts = append(opts, tea.WithAltScreen[tmodel]())
	}
	// the initial command, if any, is of no concern to the first frame
	initGo := make(chan struct{})
	defer close(initGo)
	if r.IntN(2) == 0 {
		hooks.init = func() tea.Cmd { return func() tea.Msg { <-initGo; return nil } }
	}
	p := tea.New(tmodel{h: hooks, val: first}, opts...)
	var run *runner
	start := func() {
		w0 := t.writeCount()
		run = launch(p)
		fw.Wait(patience, p.IsRunning)
		if r.IntN(3) == 0 && !fw.Wait(patience, func() bool { return t.writeCount() > w0 }) {
			c.Failf("no first frame was drawn\n%s", fw.Stacks())
		}
	}
	start()
	post := func(m tea.Msg) {
		if err := send(p, m); err != nil {
			c.Failf("Send: %v", err)
		}
	}
	var barrier atomic.Int64
	quiet := func() { // everything sent so far has been drawn
		n := barrier.Add(1)
		_ = n
		post(syncMsg{})
		done := make(chan struct{})
		post(doneMsg{done})
		fw.Wait(patience, func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		})
	}
	oldUpdate := hooks.update
	hooks.update = func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		if d, ok := msg.(doneMsg); ok {
			if !lost() {
				prevView = curView
			}
			close(d.ch)
			return m, nil
		}
		return oldUpdate(m, msg)
	}
	c.Tracef("%dx%d alt=%v y0=%d sized=%v first %q", W, H, alt, y0, sized, first)
	sig := fmt.Sprintf("%dx%d %v %d %v", W, H, alt, y0, sized)
	if sized {
		post(tea.WindowSizeMsg{Width: W, Height: H})
	}
	flaky := r.IntN(5) == 0
	runs := 1 + r.IntN(5)/3
again:
	n := 3 + r.IntN(25)
	for i := 0; i < n; i++ {
		if sized && r.IntN(7) == 0 {
			quiet()
			nw, nh := 4+r.IntN(37), 2+r.IntN(13)
			if r.IntN(3) == 0 {
				nw = W
			}
			if r.IntN(4) == 0 {
				nw, nh = W, H
			}
			t.mu.Lock()
			t.vt.Resize(nw, nh)
			t.mu.Unlock()
			W, H = nw, nh
			minW = min(minW, nw)
			c.Tracef("resize %dx%d", nw, nh)
			sig += fmt.Sprintf(" r%dx%d", nw, nh)
			post(tea.WindowSizeMsg{Width: nw, Height: nh})
			nresize++
			c.Count("resizes", 1)
			if r.IntN(2) == 0 {
				quiet()
			}
			continue
		}
		v := g.next(W, H, !sized)
		drop := flaky && r.IntN(4) == 0
		c.Tracef("view %q drop=%v", v, drop)
		sig += fmt.Sprint(len(v), strings.Count(v, "\n"), drop, ";")
		post(viewMsg{v, drop})
		if drop {
			c.Count("failed_frames", 1)
			if r.IntN(3) == 0 {
				post(viewMsg{v, false})
			}
		}
	}
	quiet()
	post(tea.QuitMsg{})
	if !run.wait() {
		c.Failf("the program did not end\n%s", fw.Stacks())
	}
	if bad != "" {
		c.Failf("%s", bad)
	}
	if alt && nresize == 0 {
		t.mu.Lock()
		now := t.vt.Snapshot()
		x, y := t.vt.Cursor()
		t.mu.Unlock()
		for i := range mainBefore {
			if sameRow(now[i], mainBefore[i]) >= 0 {
				c.Failf("the screen behind the alternate screen changed in row %d: %q instead of %q", i, rowText(now[i]), rowText(mainBefore[i]))
			}
		}
		if x != cx0 || y != cy0 {
			c.Failf("the cursor is at %d,%d after the alternate screen instead of %d,%d", x, y, cx0, cy0)
		}
		c.Count("main_screen_intact", 1)
	}
	if runs--; runs > 0 && nresize == 0 {
		// Something else writes to the terminal, then the program runs again.
		t.mu.Lock()
		t.drop, t.dropped = false, false
		for i := r.IntN(4); i >= 0; i-- {
			t.vt.Write([]byte("\r\n\x1b[K" + txt.Cut(fmt.Sprintf("after %d ", i)+txt.String(r, txt.Plain, 20), W-1)))
		}
		t.vt.Write([]byte("\r\n\x1b[K"))
		cx0, cy0 = t.vt.Cursor()
		mainBefore = t.vt.Snapshot()
		if !alt {
			base = t.vt.Scrolled + cy0
			mainBefore = nil
			for i := 0; i < base; i++ {
				mainBefore = append(mainBefore, absRow(t.vt, i))
			}
		}
		prevView, full, prints0 = "", true, t.prints
		t.mu.Unlock()
		c.Tracef("run again")
		sig += " again"
		c.Count("restarts", 1)
		start()
		goto again
	}
	c.Count("frames_checked", frames)
	c.Seen(sig)
	c.Sample(sig)
}

type doneMsg struct{ ch chan struct{} }

// ---- P05 ------------------------------------------------------------------------------------

func p05(c *fw.Ctx) {
	r := c.R
	W, H := 12+r.IntN(30), 6+r.IntN(10)
	t := newHterm(W, H)
	alt := r.IntN(2) == 0
	in := newFeed()
	defer in.end()
	g := &vgen{r: r, cl: txt.Classes(r, txt.Plain), style: r.IntN(2) == 0, c: c}
	first := g.next(W, H-1, true)
	var mu sync.Mutex
	cur := first // last view returned
	var keys strings.Builder
	var applied atomic.Int64
	hooks := &thooks{}
	hooks.view = func(m tmodel) string { mu.Lock(); cur = m.val; mu.Unlock(); return m.val }
	hooks.update = func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		switch x := msg.(type) {
		case viewMsg:
			m.val = x.v
		case tea.KeyMsg:
			mu.Lock()
			keys.WriteRune(x.Rune)
			mu.Unlock()
		case doneMsg:
			close(x.ch)
		}
		applied.Add(1)
		return m, nil
	}
	opts := []topt{tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t)}
	if alt {
		opts = append(opts, tea.WithAltScreen[tmodel]())
	}
	p := tea.New(tmodel{h: hooks, val: first}, opts...)
	run := launch(p)
	sized := r.IntN(2) == 0
	hist := fmt.Sprintf("%dx%d alt=%v sized=%v", W, H, alt, sized)
	step := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		hist += "; " + s
		c.Tracef("%s", s)
	}
	fail := func(f string, a ...any) {
		c.Failf("%s\nhistory: %s\noutput:\n%s", fmt.Sprintf(f, a...), hist, t.rawText())
	}
	nSent := int64(0)
	post := func(m tea.Msg) {
		if err := send(p, m); err != nil {
			fail("Send: %v", err)
		}
		nSent++
	}
	if !fw.Wait(patience, func() bool { return t.writeCount() > 0 }) {
		fail("no first frame")
	}
	if sized {
		post(tea.WindowSizeMsg{Width: W, Height: H})
	}
	// wait until a message sent now, and everything before it, is drawn
	settle := func() {
		for k := 0; k < 2; k++ {
			ch := make(chan struct{})
			post(doneMsg{ch})
			if !fw.Wait(patience, func() bool {
				select {
				case <-ch:
					return true
				default:
					return false
				}
			}) {
				fail("the program does not apply messages any more\n%s", fw.Stacks())
			}
		}
	}
	shown := func(what string) {
		settle()
		mu.Lock()
		v := cur
		mu.Unlock()
		t.mu.Lock()
		rows := viewRows(v, t.vt.W)
		if sized && len(rows) > t.vt.H {
			rows = rows[len(rows)-t.vt.H:]
		}
		_, cy := t.vt.Cursor()
		top := cy - len(rows) + 1
		if alt {
			top = 0
		}
		s := screenIs(t.vt, top, rows)
		if s == "" && alt {
			for y := len(rows); y < t.vt.H; y++ {
				if !blankRow(t.vt, y) {
					s = fmt.Sprintf("row %d is not blank: %q", y, t.vt.Line(y))
				}
			}
		}
		t.mu.Unlock()
		if s != "" {
			fail("%s: %s\nview %q", what, s, v)
		}
	}
	typed := ""
	keyN := 0
	typeKeys := func() {
		for k := 1 + r.IntN(4); k > 0; k-- {
			s := string(rune('a' + keyN%26))
			keyN++
			typed += s
			in.push(s)
		}
	}
	gotKeys := func() string { mu.Lock(); defer mu.Unlock(); return keys.String() }
	junk := func() {
		t.mu.Lock()
		defer t.mu.Unlock()
		for k := r.IntN(5); k > 0; k-- {
			switch r.IntN(5) {
			case 0:
				t.vt.Write([]byte("\x1b[2J\x1b[H"))
			case 1:
				t.vt.Write([]byte(fmt.Sprintf("\x1b[%d;%dH", 1+r.IntN(H), 1+r.IntN(W))))
			default:
				t.vt.Write([]byte(txt.Cut(txt.String(r, txt.ASCII|txt.Space, 1+r.IntN(2*W)), W-1) + "\r\n"))
			}
		}
		if r.IntN(3) == 0 {
			t.vt.Write([]byte("$ "))
		}
		// nothing is left below the cursor, as a terminal session would have it
		t.vt.Write([]byte("\x1b[0m\x1b[J"))
	}
	// while suspended: everything is applied, nothing is written or consumed
	whileSuspended := func(still bool) {
		w0 := t.writeCount()
		k0 := gotKeys()
		n0 := applied.Load()
		m := int64(0)
		for k := r.IntN(5); k > 0; k-- {
			switch r.IntN(4) {
			case 0, 1:
				if still {
					continue
				}
				post(viewMsg{v: g.next(W, H-1, !sized)})
				m++
			case 2:
				typeKeys()
			case 3:
				junk()
			}
		}
		if r.IntN(3) == 0 {
			step("Suspend again")
			if err := p.Suspend(); err != nil {
				fail("Suspend when suspended: %v", err)
			}
		}
		if !fw.Wait(patience, func() bool { return applied.Load() >= n0+m }) {
			fail("messages sent while suspended are not applied")
		}
		settle()
		if w := t.writeCount(); w != w0 {
			fail("the program wrote to the terminal while suspended (%d writes)", w-w0)
		}
		if gotKeys() != k0 {
			fail("the program took input while suspended: %q after %q", gotKeys(), k0)
		}
		if s := t.abnormal(); s != "" {
			fail("while suspended: %s", s)
		}
		c.Count("suspended_periods", 1)
	}
	afterResume := func(what string) {
		if p.IsSuspended() {
			fail("%s: still suspended", what)
		}
		shown(what)
		c.Count("frames_after_resume", 1)
		if !fw.Wait(patience, func() bool { return gotKeys() == typed }) {
			fail("%s: typed %q but the model got %q", what, typed, gotKeys())
		}
		if r.IntN(2) == 0 {
			typeKeys()
			if !fw.Wait(patience, func() bool { return gotKeys() == typed }) {
				fail("%s: input does not work: typed %q but the model got %q", what, typed, gotKeys())
			}
		}
		if alt != t.IsInAltScreen() || !t.IsInRawMode() {
			fail("%s: alternate screen %v, raw mode %v", what, t.IsInAltScreen(), t.IsInRawMode())
		}
	}
	for n := 2 + r.IntN(8); n > 0; n-- {
		switch r.IntN(9) {
		case 0, 1:
			step("views")
			for k := r.IntN(4); k > 0; k-- {
				post(viewMsg{v: g.next(W, H-1, !sized)})
			}
			if r.IntN(2) == 0 {
				typeKeys()
				if !fw.Wait(patience, func() bool { return gotKeys() == typed }) {
					fail("typed %q but the model got %q", typed, gotKeys())
				}
			}
		case 2, 3, 4:
			step("Suspend")
			still := r.IntN(5) == 0 // what is shown stays the same; often nothing
			if still && r.IntN(2) == 0 {
				post(viewMsg{v: ""})
				settle()
			} else if r.IntN(2) == 0 { // with messages still under way
				for k := r.IntN(6); k > 0; k-- {
					post(viewMsg{v: g.next(W, H-1, !sized)})
				}
			}
			if err := p.Suspend(); err != nil {
				fail("Suspend: %v", err)
			}
			c.Count("suspends", 1)
			if !p.IsSuspended() {
				fail("Suspend succeeded but the program is not suspended")
			}
			// keys typed before are the program's
			whileSuspended(still)
			if r.IntN(4) == 0 { // messages race with the resume
				go p.Send(um{1, 1})
			}
			step("Resume")
			if err := p.Resume(); err != nil {
				fail("Resume: %v", err)
			}
			afterResume("after Resume")
		case 5:
			step("Resume when running")
			if err := p.Resume(); err != nil {
				fail("Resume when running: %v", err)
			}
			afterResume("after Resume when running")
		case 6:
			step("failing command")
			cmd := exec.Command([]string{"/nonexistent/x", "/bin/false", "/"}[r.IntN(3)])
			if err := p.ExecProcess(cmd); err == nil {
				fail("a command that fails was reported as successful")
			}
			c.Count("failed_commands", 1)
			afterResume("after a failing command")
		case 7:
			step("failing suspend")
			op := "exitRaw"
			if alt && r.IntN(2) == 0 {
				op = "exitAlt"
			}
			settle()
			if !fw.Wait(patience, func() bool { return gotKeys() == typed }) {
				fail("typed %q but the model got %q", typed, gotKeys())
			}
			t.setFail(op, 1)
			if err := p.Suspend(); err == nil {
				fail("Suspend succeeded although the terminal refused")
			}
			c.Count("failed_suspends", 1)
			typeKeys()
			afterResume("after a failed Suspend")
		case 8:
			if r.IntN(2) == 0 {
				if err := p.ExecProcess(nil); err == nil {
					fail("ExecProcess(nil) succeeded")
				}
			} else {
				ch := newChild(0)
				fin := make(chan error, 1)
				go func() { fin <- p.ExecProcess(ch.cmd) }()
				<-ch.up
				step("external command")
				whileSuspended(false)
				ch.release()
				err := <-fin
				ch.close()
				if err != nil {
					fail("external command: %v", err)
				}
			}
			afterResume("after an external command")
		}
	}
	post(tea.QuitMsg{})
	if !run.wait() {
		fail("the program did not end\n%s", fw.Stacks())
	}
	c.Seen(hist)
	c.Sample(hist)
}

// p06widths: lines that must be cut, with every character whose width is
// undisputed.
func p06widths(c *fw.Ctx, k, n int) {
	const W, H = 8, 60
	var mu sync.Mutex
	var out []byte
	in := newFeed()
	defer in.end()
	t := newHterm(W, H)
	hooks := &thooks{view: func(m tmodel) string { return m.val }, update: func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		switch x := msg.(type) {
		case viewMsg:
			m.val = x.v
		case doneMsg:
			close(x.ch)
		}
		return m, nil
	}}
	w := writerFunc(func(b []byte) (int, error) {
		mu.Lock()
		defer mu.Unlock()
		out = append(out, b...)
		return len(b), nil
	})
	p := tea.New(tmodel{h: hooks}, tea.WithInput[tmodel](in), tea.WithOutput[tmodel](w), tea.WithTerminal[tmodel](t), tea.WithAltScreen[tmodel]())
	run := launch(p)
	fw.Wait(patience, p.IsRunning)
	if err := send(p, tea.WindowSizeMsg{Width: W, Height: H}); err != nil {
		c.Failf("Send: %v", err)
	}
	const letters = "abcdefgh"
	var lines, want []string
	var wrong []string
	flush := func() {
		if len(lines) == 0 {
			return
		}
		mu.Lock()
		out = out[:0]
		mu.Unlock()
		if err := send(p, viewMsg{v: strings.Join(lines, "\n")}); err != nil {
			c.Failf("Send: %v", err)
		}
		done := make(chan struct{})
		if err := send(p, doneMsg{done}); err != nil {
			c.Failf("Send: %v", err)
		}
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			c.Failf("the program does not take messages\n%s", fw.Stacks())
		}
		mu.Lock()
		got := string(out)
		mu.Unlock()
		for i, l := range lines {
			at := strings.Index(got, want[i])
			if rest := l[len(want[i]):]; at < 0 || strings.HasPrefix(got[at+len(want[i]):], rest[:1]) {
				ch := []rune(l)[3]
				wrong = append(wrong, fmt.Sprintf("U+%04X (line %q, %q expected)", ch, l, want[i]))
			}
		}
		lines, want = lines[:0], want[:0]
	}
	for _, rg := range widthRanges {
		for cp := rg[0]; cp <= rg[1]; cp++ {
			if (int(cp)/32)%n != k || cp < 0xa0 || cp == 0x1171e || cp == 0xfe0f || cp >= 0x3248 && cp <= 0x324f {
				continue // (U+1171E became a spacing mark in Unicode 16; U+3248… are ambiguous)
			}
			s := "#" + fmt.Sprint(len(lines)%10) + "x" + string(cp)
			lines = append(lines, s+letters)
			want = append(want, s+letters[:W-3-int(rg[2])])
			c.Count("widths_cut", 1)
			if len(lines) == H {
				flush()
			}
		}
	}
	flush()
	send(p, tea.QuitMsg{})
	if !run.wait() {
		c.Failf("the program did not end\n%s", fw.Stacks())
	}
	if len(wrong) > 0 {
		c.Failf("lines cut at the wrong place in a terminal of %d columns: %d characters, %s", W, len(wrong), headS(strings.Join(wrong, ", "), 3000))
	}
}

type writerFunc func(b []byte) (int, error)

func (f writerFunc) Write(b []byte) (int, error) { return f(b) }
