package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard"
	clipbridge "github.com/phoenix-tui/phoenix/clipboard/verifbridge"
	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/layout"
	"github.com/phoenix-tui/phoenix/mouse"
	"github.com/phoenix-tui/phoenix/render"
	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/tea"
	"github.com/phoenix-tui/phoenix/terminal"
	ptest "github.com/phoenix-tui/phoenix/testing"

	"phoenixverif/fw"
	"phoenixverif/txt"
)

// P35: what is used over and over takes no more memory, goroutines and open
// files after many rounds than after few.

func init() {
	fw.Register(&fw.Prop{ID: "P35", Quick: 600, Thorough: 8000, Case: p35, Setup: teaSetup, HangTick: 9000,
		Rule:   "thousands of rounds on one value of every component, style and theme, on one renderer, mouse, clipboard with history, terminal, theme manager and program, each round with texts never seen before; and hundreds of programs one after another; live heap, goroutines and descriptors measured after a quarter, all, and if they grew twice as many rounds",
		Assume: []string{"what the program itself puts in (form fields, appended lines, recorded mock calls, history up to its limit) stays"},
		Need:   map[string]int64{"rounds": 1000000, "measured": 550, "program": 10, "file input": 5}})
}

type usage struct{ heap, gor, fds, kept int } // kept: descriptors that the collection left

func measure() (u usage) {
	var m runtime.MemStats
	fds, _ := os.ReadDir("/proc/self/fd")
	defer func() {
		kept, _ := os.ReadDir("/proc/self/fd")
		u.kept = len(kept)
	}()
	for range 3 {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	time.Sleep(time.Millisecond) // finalizers
	return usage{int(m.HeapAlloc), runtime.NumGoroutine(), len(fds), 0}
}

// grow runs the rounds and compares.
func grow(c *fw.Ctx, name string, n int, round func()) {
	c.Tracef("%s, %d rounds", name, n)
	c.Count(name, 1)
	c.Count("measured", 1)
	few := n <= 100
	run := func(k int) usage {
		if few { // what takes descriptors is watched without the help of finalizers
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
		}
		for range k {
			round()
		}
		c.Count("rounds", k)
		return measure()
	}
	was := run(n)
	for try := 0; ; try++ {
		k := 3 * n
		is := run(k)
		// goroutines that are about to end
		fw.Wait(2000, func() bool { return runtime.NumGoroutine() <= was.gor+2 })
		is.gor = runtime.NumGoroutine()
		slack := 24000
		if few {
			slack = 120000 // what the runtime itself keeps; descriptors and goroutines tell
		}
		heap := is.heap-was.heap > 3*k+slack
		gor := is.gor > was.gor+2+k/8
		fds := is.fds > was.kept+2+k/30
		if !heap && !gor && !fds {
			if d := is.heap - was.heap; d > 8000 {
				c.Count("grew over 8000 bytes", 1)
			}
			return
		}
		c.Tracef("%d more rounds: %+v to %+v", k, was, is)
		if try == 2 {
			c.Failf("%s: in %d rounds the heap goes from %d to %d bytes, goroutines from %d to %d, descriptors from %d to %d, and it grew as much before", name, k, was.heap, is.heap, was.gor, is.gor, was.kept, is.fds)
		}
		was = is
	}
}

func snapGrow[T any](c *fw.Ctx, kind string, start T, op func() snapOp[T], look func(T) string, probes []func(T) T) {
	v := start
	r := c.R
	grow(c, kind, 2000, func() {
		o := op()
		if strings.HasPrefix(o.desc, "Field") && r.IntN(200) > 0 {
			return
		}
		v = o.f(v)
		if r.IntN(3) == 0 && len(look(v)) > 20000 {
			v = start // texts yanked again and again
		}
		if len(probes) > 0 && r.IntN(3) == 0 {
			_ = look(probes[r.IntN(len(probes))](v))
		}
	})
	runtime.KeepAlive(v)
}

func p35(c *fw.Ctx) {
	r := c.R
	text := func(n int) string { return txt.String(r, txt.All, r.IntN(n)) }
	switch k := r.IntN(20); {
	case k < 9:
		c.Mode = "grow"
		p25(c)
	case k == 9:
		rr := render.New(30, 6, io.Discard)
		grow(c, "renderer", 400, func() {
			switch r.IntN(20) {
			case 0:
				_ = rr.Resize(1+r.IntN(40), 1+r.IntN(9))
			case 1:
				_ = rr.Clear()
			case 2:
				_, _ = rr.HideCursor(), rr.ShowCursor()
			}
			w, h := rr.Width(), rr.Height()
			b := render.NewBuffer(w, h)
			for range r.IntN(5) {
				b.SetString(r.IntN(w), r.IntN(h), text(8), render.StyleDefault())
			}
			_ = rr.Render(b)
		})
	case k == 10:
		m := mouse.New()
		grow(c, "mouse", 3000, func() {
			b := r.IntN(3) + 32*r.IntN(2) + 4*r.IntN(8)
			if r.IntN(6) == 0 {
				b = 64 + r.IntN(2)
			}
			x, y := 1+r.IntN(2000), 1+r.IntN(2000)
			if r.IntN(2) == 0 { // a click
				b &= 3
				_, _ = m.ParseSequence(fmt.Sprintf("\x1b[<%d;%d;%dM", b, x, y))
				_, _ = m.ParseSequence(fmt.Sprintf("\x1b[<%d;%d;%dm", b, x, y))
			}
			_, _ = m.ParseSequence(fmt.Sprintf("\x1b[<%d;%d;%d%s", b, x, y, []string{"M", "m"}[r.IntN(2)]))
			areas := []mouse.ComponentArea{{ID: text(9), Area: mouse.NewBoundingBox(0, 0, 1000, 1000)}}
			m.ProcessHover(mouse.NewPosition(r.IntN(2000), r.IntN(2000)), areas)
			if r.IntN(50) == 0 {
				m.Reset()
			}
		})
	case k == 11:
		f := &fakeClip{there: true}
		cb, err := clipbridge.Build([]*clipbridge.Fake{f.provider("p")}, false, time.Second, false)
		c.Check(err == nil, "%v", err)
		p35clip(c, f, cb)
	case k == 12:
		grow(c, "boxes", 800, func() {
			b, _ := shareBox(c)
			_ = b.Render()
			_ = layout.Row().Add(b).AddRaw("x"+text(9)).Render(r.IntN(60), r.IntN(9))
		})
	case k == 13:
		grow(c, "widths", 6000, func() { _ = core.StringWidth(text(20)); _ = core.NewCellAuto(text(5)) })
	case k == 14:
		grow(c, "styles", 1500, func() {
			s := style.New().Foreground(style.RGB(uint8(r.IntN(256)), uint8(r.IntN(256)), uint8(r.IntN(256)))).Background(style.Color256(uint8(r.IntN(256))))
			for range 2 {
				s, _, _ = smod{}.step(r, s)
			}
			if col, err := style.Hex(fmt.Sprintf("#%06x", r.IntN(1<<24))); err == nil {
				s = s.Foreground(col)
			}
			_ = style.Render(s, text(12))
		})
	case k == 15:
		master, slave, err := openPty(80, 24)
		if err != nil {
			c.Count("no pty", 1)
			return
		}
		defer master.Close()
		defer slave.Close()
		go io.Copy(io.Discard, master)
		p35terminal(c, slave)
	case k == 16:
		m := style.NewThemeManager(nil)
		names := []string{"dark", "light", "default", "nope"}
		grow(c, "theme manager", 2000, func() {
			switch r.IntN(4) {
			case 0:
				m.SetTheme(randTheme(r, r.IntN(1<<30), true).theme())
			case 1:
				m.SetPreset(names[r.IntN(4)])
			case 2:
				m.MergeTheme(randTheme(r, r.IntN(1<<30), false).theme())
			default:
				m.Reset()
			}
			_ = m.Current().Name()
		})
	case k == 17 || k == 18:
		p35program(c)
	default:
		n := 30 // programs one after another
		grow(c, "programs", n, func() {
			gate, open := make(chan struct{}), false // commands end with or after their program
			hooks := &thooks{update: func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
				if u, ok := msg.(um); ok && u.N%2 == 0 {
					wait := func() tea.Msg { <-gate; return cm{u.N} }
					return m, []tea.Cmd{wait, tea.Batch(wait, wait), tea.Sequence(wait, wait), tea.Tick(time.Millisecond)}[u.N/2%4]
				}
				return m, nil
			}}
			var in io.Reader = strings.NewReader(text(9))
			if r.IntN(2) == 0 {
				pr, pw, err := os.Pipe()
				c.Check(err == nil, "%v", err)
				defer pr.Close()
				defer pw.Close()
				_, _ = pw.WriteString(text(9))
				if r.IntN(2) == 0 { // its end comes before or while the program ends
					_ = pw.Close()
				}
				in = pr
			}
			p := tea.New(tmodel{h: hooks}, tea.WithInput[tmodel](in), tea.WithOutput[tmodel](io.Discard), tea.WithTerminal[tmodel](ptest.NewNullTerminal()))
			ru := launch(p)
			fw.Wait(patience, func() bool { return p.IsRunning() || ru.ended() })
			for range r.IntN(5) {
				_ = p.Send(um{N: r.IntN(100)})
			}
			if r.IntN(3) == 0 {
				time.Sleep(time.Millisecond)
			}
			if r.IntN(4) == 0 {
				close(gate)
				open = true
			}
			if r.IntN(2) == 0 {
				_ = send(p, tea.QuitMsg{})
			} else {
				p.Stop()
			}
			if !ru.wait() {
				c.Failf("the program does not end")
			}
			if !open {
				close(gate)
			}
		})
	}
	c.Seen(c.TraceText(), r.Uint64())
	c.Sample(c.TraceText())
}

func p35clip(c *fw.Ctx, f *fakeClip, cb *clipboard.Clipboard) {
	r := c.R
	if r.IntN(4) > 0 {
		cb.EnableHistory(1+r.IntN(20), time.Hour)
	}
	grow(c, "clipboard", 2000, func() {
		f.puts, f.gets = nil, nil
		switch r.IntN(8) {
		case 0:
			_, _ = cb.Read()
		case 1:
			_ = cb.GetHistory()
			_ = cb.RemoveExpiredHistory()
		case 2:
			if h := cb.GetHistory(); len(h) > 0 {
				_ = cb.RestoreFromHistory(h[r.IntN(len(h))].ID)
			}
		case 3:
			_, _ = cb.ConvertHTMLToRTF("<b>" + txt.String(r, txt.ASCII, 9) + "</b>")
		default:
			_ = cb.Write("x" + txt.String(r, txt.All, r.IntN(30)))
		}
	})
}

func p35terminal(c *fw.Ctx, slave *os.File) {
	r := c.R
	so, si := os.Stdout, os.Stdin
	os.Stdout, os.Stdin = slave, slave
	defer func() { os.Stdout, os.Stdin = so, si }()
	var t terminal.Terminal = terminal.NewANSI()
	grow(c, "terminal", 2500, func() {
		if r.IntN(10) == 0 {
			t = terminal.NewANSI()
		}
		_ = t.EnterRawMode()
		_ = t.EnterAltScreen()
		_ = t.SetCursorPosition(r.IntN(80), r.IntN(24))
		_ = t.WriteAt(r.IntN(80), r.IntN(24), txt.String(r, txt.All, 5))
		_, _, _ = t.Size()
		_ = t.ClearLines(r.IntN(5))
		_ = t.ExitAltScreen()
		_ = t.ExitRawMode()
	})
}

// p35program is one program that lives long: messages with commands, ticks,
// suspends, external commands, keys.
func p35program(c *fw.Ctx) {
	r := c.R
	var got atomic.Int64
	hooks := &thooks{update: func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		got.Add(1)
		if u, ok := msg.(um); ok {
			answer := func() tea.Msg { return cm{u.N} }
			switch u.S {
			case 1:
				return m, answer
			case 2:
				return m, tea.Batch(answer, answer, tea.Sequence(answer, answer))
			case 3:
				return m, tea.Sequence(answer, tea.Batch(answer, answer), answer)
			case 4:
				return m, tea.Tick(time.Millisecond)
			case 5:
				return m, tea.Println("line")
			}
		}
		return m, nil
	}}
	in := newFeed()
	defer in.end()
	var input io.Reader = in
	typed := func() { in.push("k") }
	if r.IntN(2) == 0 { // a file, whose reads can be interrupted
		pr, pw, err := os.Pipe()
		c.Check(err == nil, "%v", err)
		defer pr.Close()
		defer pw.Close()
		input = pr
		typed = func() { _, _ = pw.WriteString("k") }
		c.Count("file input", 1)
	}
	p := tea.New(tmodel{h: hooks}, tea.WithInput[tmodel](input), tea.WithOutput[tmodel](io.Discard), tea.WithTerminal[tmodel](ptest.NewNullTerminal()))
	ru := launch(p)
	if !fw.Wait(patience, p.IsRunning) {
		c.Failf("the program does not start")
	}
	heavy := r.IntN(3) == 0
	n := 400
	if heavy {
		n = 60
	}
	grow(c, "program", n, func() {
		if heavy {
			switch r.IntN(6) {
			case 0:
				_ = p.ExecProcess(exec.Command("/bin/true"))
			case 1:
				_ = p.ExecProcess(exec.Command("/nonexistent/x"))
			default:
				_ = p.Suspend()
				_ = p.Resume()
			}
		}
		before := got.Load()
		want := int64(1)
		if r.IntN(4) == 0 {
			typed()
		} else {
			u := um{S: r.IntN(6), N: r.IntN(1000)}
			want += []int64{0, 1, 4, 4, 1, 0}[u.S]
			_ = send(p, u)
		}
		if !fw.Wait(patience, func() bool { return got.Load() >= before+want }) {
			c.Failf("only %d of %d messages arrived", got.Load()-before, want)
		}
	})
	p.Stop()
	if !ru.wait() {
		c.Failf("the program does not end")
	}
}
