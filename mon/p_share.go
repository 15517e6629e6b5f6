package main

import (
	"fmt"
	"slices"
	"strings"
	"sync"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/layout"
	"github.com/phoenix-tui/phoenix/style"
	ptesting "github.com/phoenix-tui/phoenix/testing"

	"phoenixverif/fw"
	"phoenixverif/txt"
)

// P34: what is documented as immutable, or as safe for concurrent use, is used
// from several goroutines at once. Two oracles: the race detector, which judges
// the accesses whatever the schedule was, and the same work done by one
// goroutine afterwards.

func init() {
	fw.Register(&fw.Prop{ID: "P34", Race: true, Quick: 40000, Thorough: 700000, Case: p34, Setup: teaSetup, HangTick: 6000,
		Rule:   "values of every component, style, theme, box, container and capability record, fresh and not yet looked at, shared by two to four goroutines that look at them and continue from them; and two to five whole workloads of other properties (components, renderers with their own writers, mouse, styles, layout, widths) at the same time",
		Assume: []string{"values the documentation calls unsafe for concurrent use (Renderer, Buffer, Mouse, Terminal, Program) are not shared", "functions the program passes in are safe to call from several goroutines"},
		Need:   map[string]int64{"shared values": 40000, "shared uses": 300000, "together": 9000, "programs": 300, "boxes": 3000, "flexes": 1500, "colors": 1500, "widths": 1500, "records": 1500}})
}

// shareRun lets every goroutine do its jobs, and then one goroutine all of them
// again: the answers must be the same.
func shareRun(c *fw.Ctx, kind string, jobs [][]func() string, descs [][]string) {
	got := make([][]string, len(jobs))
	panics := make([]any, len(jobs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range jobs {
		got[g] = make([]string, len(jobs[g]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[g] = recover() }()
			<-start
			for i, f := range jobs[g] {
				got[g][i] = f()
			}
		}()
	}
	close(start)
	wg.Wait()
	for g := range jobs {
		if panics[g] != nil {
			c.Failf("%s: goroutine %d panics: %v", kind, g, panics[g])
		}
		for i, f := range jobs[g] {
			c.Count("shared uses", 1)
			if w := f(); w != got[g][i] {
				c.Failf("%s: goroutine %d, %s: %s\nalone: %s", kind, g, descs[g][i], got[g][i], w)
			}
		}
	}
}

func snapShared[T any](c *fw.Ctx, kind string, start T, op func() snapOp[T], look func(T) string, probes []func(T) T) {
	r := c.R
	c.Tracef("%s", kind)
	c.Count(kind, 1)
	vals := []T{start}
	for range r.IntN(10) {
		o := op()
		at := len(vals) - 1
		if r.IntN(4) == 0 {
			at = r.IntN(len(vals))
		}
		c.Tracef("%d := %d.%s", len(vals), at, o.desc)
		vals = append(vals, o.f(vals[at]))
	}
	if len(vals) > 3 {
		vals = vals[len(vals)-3:]
	}
	c.Count("shared values", len(vals))
	var ops []snapOp[T]
	for range 1 + r.IntN(5) {
		ops = append(ops, op())
	}
	jobs := make([][]func() string, 2+r.IntN(3))
	descs := make([][]string, len(jobs))
	for g := range jobs {
		for range 2 + r.IntN(6) {
			v := vals[len(vals)-1]
			if r.IntN(3) == 0 {
				v = vals[r.IntN(len(vals))]
			}
			switch k := r.IntN(3); {
			case k == 0:
				jobs[g] = append(jobs[g], func() string { return look(v) })
				descs[g] = append(descs[g], "look")
			case k == 1 && len(probes) > 0:
				i := r.IntN(len(probes))
				jobs[g] = append(jobs[g], func() string { return look(probes[i](v)) })
				descs[g] = append(descs[g], fmt.Sprintf("probe %d", i))
			default:
				o, o2 := ops[r.IntN(len(ops))], ops[r.IntN(len(ops))]
				jobs[g] = append(jobs[g], func() string { w := o.f(v); return look(w) + look(o2.f(w)) })
				descs[g] = append(descs[g], o.desc+" "+o2.desc)
			}
		}
		c.Tracef("goroutine %d: %q", g, descs[g])
	}
	shareRun(c, kind, jobs, descs)
}

var shareProps = strings.Fields("P09 P11 P12 P14 P15 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P27 P28 P31")

var shareProgs = strings.Fields("P02 P03 P04 P19 P21")

func p34(c *fw.Ctx) {
	r := c.R
	switch k := r.IntN(20); {
	case k < 10:
		c.Mode = "shared"
		p25(c)
		return
	case k < 16:
		var names []string
		var fs []func(*fw.Ctx)
		one := shareProps[r.IntN(len(shareProps))]
		same := r.IntN(2) == 0
		from := shareProps
		if r.IntN(25) == 0 { // running programs of their own
			from, same = shareProgs, false
			c.Count("programs", 1)
		}
		for range 2 + r.IntN(4) {
			id := one
			if !same {
				id = from[r.IntN(len(from))]
			}
			names = append(names, id)
			fs = append(fs, fw.Props[id].Case)
		}
		c.Tracef("%q together", names)
		c.Together(names, fs)
		c.Count("together", 1)
		for _, id := range names {
			c.Count("with "+id, 1)
		}
	case k == 16: // one box, one container
		n := 1 + r.IntN(4)
		f := layout.Row()
		if r.IntN(2) == 0 {
			f = layout.Column()
		}
		var boxes []*layout.Box
		var desc []string
		for range n {
			b, d := shareBox(c)
			boxes = append(boxes, b)
			desc = append(desc, d)
			f = f.Add(b)
		}
		f = f.Gap(r.IntN(3))
		f = []func() *layout.Flex{f.JustifyStart, f.JustifyEnd, f.JustifyCenter, f.JustifySpaceBetween}[r.IntN(4)]()
		f = []func() *layout.Flex{f.AlignStart, f.AlignEnd, f.AlignCenter, f.AlignStretch}[r.IntN(4)]()
		c.Tracef("%q", desc)
		var jobs []func() string
		for _, b := range boxes {
			w, h := r.IntN(60), r.IntN(20)
			jobs = append(jobs, b.Render, b.String, func() string { return fmt.Sprint(b.Layout(w, h)) })
			c.Count("boxes", 1)
		}
		for range 3 {
			w, h := r.IntN(80), r.IntN(24)
			jobs = append(jobs, func() string { return f.Render(w, h) }, f.String)
		}
		c.Count("flexes", 1)
		share(c, "layout", jobs)
	case k == 17: // colours of one style, seen by several terminals
		s, _, d := smod{}.step(r, style.New())
		for range r.IntN(8) {
			var x string
			s, _, x = smod{}.step(r, s)
			d += " " + x
		}
		text := txt.String(r, txt.All, r.IntN(30))
		c.Tracef("%s, %q", d, text)
		jobs := []func() string{
			func() string { return style.Render(s, text) },
			func() string { return readStyle(s).text() },
			func() string { return style.Render(s.Bold(true), text) },
			func() string { return fmt.Sprintf("%+v", valOf(style.DefaultTheme())) },
			func() string { return fmt.Sprint(len(style.AllThemes()), style.ThemeByName("dark").Name()) },
		}
		for n := range 4 {
			tc := s.GetTerminalCapability() // of its type
			tc = 0
			for range n {
				tc++
			}
			jobs = append(jobs, func() string { return style.Render(s.TerminalCapability(tc), text) })
		}
		c.Count("colors", 1)
		share(c, "style", jobs)
	case k == 18: // widths of the same texts
		var jobs []func() string
		for range 4 + r.IntN(8) {
			s := txt.String(r, txt.All, r.IntN(20))
			c.Tracef("%q", s)
			jobs = append(jobs, func() string { return fmt.Sprint(core.StringWidth(s), core.NewCellAuto(s)) })
		}
		c.Count("widths", 1)
		share(c, "widths", jobs)
	default: // terminal records, the terminal that does nothing
		caps := core.NewCapabilities(r.IntN(2) == 0, core.ColorDepth(r.IntN(4)), r.IntN(2) == 0, r.IntN(2) == 0, r.IntN(2) == 0)
		t := core.NewTerminalWithCapabilities(caps)
		null := ptesting.NewNullTerminal()
		say := func(t *core.Terminal) string {
			k := t.Capabilities()
			return fmt.Sprint(k.SupportsANSI(), k.ColorDepth(), k.SupportsColor(), k.SupportsTrueColor(), k.SupportsMouse(), k.SupportsAltScreen(), k.SupportsCursorControl(), t.Size(), t.IsRawModeEnabled())
		}
		w, h := r.IntN(300), r.IntN(100)
		c.Tracef("%s %dx%d", say(t), w, h)
		jobs := []func() string{
			func() string { return say(t) },
			func() string { return say(t.WithSize(core.NewSize(w, h))) },
			func() string { return say(core.AutoDetect()) },
			func() string { return say(core.NewTerminal()) },
			func() string {
				x, y, e := null.GetCursorPosition()
				return fmt.Sprint(null.Write("x"), null.SetCursorPosition(w, h), x, y, e, null.EnterAltScreen(), null.IsInAltScreen(), null.Clear(), null.WriteAt(1, 2, "y"))
			},
			func() string { return fmt.Sprint(null.Size()) },
		}
		c.Count("records", 1)
		share(c, "terminal records", jobs)
	}
	c.Seen(c.TraceText())
	c.Sample(c.TraceText())
}

// share spreads the jobs over goroutines, some of them on several.
func share(c *fw.Ctx, kind string, jobs []func() string) {
	r := c.R
	var js [][]func() string
	var ds [][]string
	for range 2 + r.IntN(3) {
		var j []func() string
		var d []string
		for _, i := range r.Perm(len(jobs)) {
			if r.IntN(3) > 0 {
				j = append(j, jobs[i])
				d = append(d, fmt.Sprint("job ", i))
			}
		}
		js, ds = append(js, j), append(ds, d)
	}
	shareRun(c, kind, js, slices.Clone(ds))
}

func shareBox(c *fw.Ctx) (*layout.Box, string) {
	r := c.R
	s := "x" + txt.String(r, txt.All, r.IntN(12)) + strings.Repeat("\nab", r.IntN(3))
	b := layout.NewBox(s)
	d := fmt.Sprintf("%q", s)
	for range r.IntN(6) {
		n := r.IntN(12)
		switch r.IntN(8) {
		case 0:
			b = b.Width(n)
		case 1:
			b = b.Height(n)
		case 2:
			b = b.MinWidth(n)
		case 3:
			b = b.MaxHeight(n)
		case 4:
			b = b.PaddingAll(n % 3)
		case 5:
			b = b.Border()
		case 6:
			b = b.MarginAll(n % 3)
		default:
			b = b.AlignCenter().AlignMiddle()
		}
		d += fmt.Sprint(" ", n)
	}
	return b, d
}
