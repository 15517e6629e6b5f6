package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
)

func init() {
	fw.Register(&fw.Prop{ID: "P02", Race: true, Quick: 500, Thorough: 9000, Case: p02, Setup: teaSetup,
		Rule:   "senders, their schedules, the commands started and the disturbances (suspends, slow updates, keys) of one program run",
		Assume: []string{"messages still pending when the program is asked to quit are not required to be applied", "nil messages are not asserted"},
		Need:   map[string]int64{"messages_applied": 20000, "commands": 1000, "rejected_sends": 1}})
	fw.Register(&fw.Prop{ID: "P03", Race: true, Quick: 500, Thorough: 9000, Case: p03, Setup: teaSetup,
		Rule:   "shape of the batch/sequence trees and of the raw batch messages",
		Assume: []string{"commands end eventually once everything they wait for has started"},
		Need:   map[string]int64{"leaves": 10000, "barriers": 100, "nested": 100}})
}

// cm is the message of command N started by the Nth command-starting update.
type cm struct{ N int }
type startCmds struct {
	S, N int // it is also message N of sender S
	K    int // commands to start
}
type slowMsg struct{ S, N int }
type tickMsg struct {
	N int
	t tea.TickMsg
}

// cmdMsg is the message command n sends, of any of the library's types.
func cmdMsg(n int) tea.Msg {
	switch n % 7 {
	case 4:
		return tea.PrintlnMsg{Message: fmt.Sprintf("line %d", n)}
	case 6:
		return tea.MouseMsg{X: -1, Y: n, Button: tea.MouseButton(n % 6), Action: tea.MouseAction(n % 4), Ctrl: n%2 == 0}
	case 2:
		return tea.TickMsg{Time: time.Unix(1000000+int64(n), 7)}
	}
	return cm{n}
}

// p02guard is shared by Init, Update and View without any synchronisation: the
// race detector reports any two of them that are not ordered.
type p02guard struct {
	depth   int
	ver     int
	applied []tea.Msg
	views   int
	inits   int
	badVer  string
}

func (g *p02guard) enter() {
	g.depth++
	if g.depth != 1 {
		g.badVer = "two of Init/Update/View overlap"
	}
}
func (g *p02guard) leave() { g.depth-- }

func p02(c *fw.Ctx) {
	r := c.R
	if c.N%250 == 77 {
		p02flood(c)
		return
	}
	if c.N%16 == 5 {
		p02restart(c)
		return
	}
	t := newHterm(60, 20)
	in := newFeed()
	defer in.end()
	g := &p02guard{}
	var count atomic.Int64 // applied messages of interest
	var nCmd, nKeys int
	ticks := map[int]time.Time{} // when they are due
	var slowFor time.Duration
	if r.IntN(12) == 0 {
		slowFor = 130 * time.Millisecond // senders will time out
	}
	hooks := &thooks{}
	hooks.init = func() tea.Cmd {
		g.enter()
		defer g.leave()
		g.inits++
		nCmd++
		return func() tea.Msg { return cmdMsg(1) }
	}
	yield := r.IntN(3) == 0
	hooks.update = func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		g.enter()
		if m.ver != g.ver {
			g.badVer = fmt.Sprintf("update got model %d but the previous update returned %d", m.ver, g.ver)
		}
		g.ver++
		m.ver++
		g.applied = append(g.applied, msg)
		if yield {
			runtime.Gosched()
		}
		var cmd tea.Cmd
		switch x := msg.(type) {
		case startCmds:
			var cs []tea.Cmd
			for i := 0; i < x.K; i++ {
				nCmd++
				id := nCmd
				switch id % 7 {
				case 4:
					cs = append(cs, tea.Println(fmt.Sprintf("line %d", id)))
					continue
				case 5:
					d := time.Duration(id%3) * 100 * time.Microsecond
					ticks[id] = time.Now().Add(d)
					tick := tea.Tick(d)
					cs = append(cs, func() tea.Msg { return tickMsg{id, tick().(tea.TickMsg)} })
					continue
				}
				cs = append(cs, func() tea.Msg {
					if id%3 == 0 {
						runtime.Gosched()
					}
					return cmdMsg(id)
				})
			}
			switch x.N % 3 {
			case 0:
				cmd = tea.Batch(cs...)
			case 1:
				cmd = tea.Sequence(cs...)
			case 2:
				if len(cs) > 0 {
					cmd = cs[0]
					nCmd -= len(cs) - 1
				}
			}
		case slowMsg:
			if slowFor > 0 {
				time.Sleep(slowFor)
			}
		}
		g.leave()
		count.Add(1)
		return m, cmd
	}
	hooks.view = func(m tmodel) string {
		g.enter()
		defer g.leave()
		g.views++
		if m.ver != g.ver {
			g.badVer = fmt.Sprintf("view got model %d but the previous update returned %d", m.ver, g.ver)
		}
		return fmt.Sprint(m.ver)
	}
	opts := []topt{tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t)}
	if r.IntN(3) == 0 {
		opts = append(opts, tea.WithAltScreen[tmodel]())
	}
	p := tea.New(tmodel{h: hooks}, opts...)
	var run *runner
	if r.IntN(3) == 0 {
		run, _ = launchStart(p)
	} else {
		run = launch(p)
	}
	if !fw.Wait(patience, func() bool { return p.IsRunning() }) {
		c.Failf("the program does not start")
	}
	nS := 1 + r.IntN(8)
	nM := 5 + r.IntN(60)
	type sent struct{ m tea.Msg }
	accepted := make([][]tea.Msg, nS)
	rejected := make([][]tea.Msg, nS)
	var wg sync.WaitGroup
	startAll := make(chan struct{})
	for s := 0; s < nS; s++ {
		seeds := make([]int, nM)
		for i := range seeds {
			seeds[i] = r.IntN(100)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-startAll
			for i := 0; i < nM; i++ {
				var m tea.Msg = um{s, i}
				switch {
				case seeds[i] < 12:
					m = startCmds{s, i, 1 + seeds[i]%5}
				case seeds[i] < 14 && slowFor > 0 && i < 30:
					m = slowMsg{s, i}
				case seeds[i] < 18:
					m = tea.WindowSizeMsg{Width: 10 + s, Height: 1000 + i}
				case seeds[i] < 22:
					k := seeds[(i+1)%nM]
					m = tea.KeyMsg{Type: tea.KeyType(k % 40), Rune: rune(0x4e00 + s*1000 + i), Alt: k%2 == 0, Ctrl: k%3 == 0, Shift: k%5 == 0}
				case seeds[i] < 24:
					k := seeds[(i+1)%nM]
					m = tea.MouseMsg{X: s, Y: i, Button: tea.MouseButton(k % 6), Action: tea.MouseAction(k / 6 % 4), Alt: k%2 == 0, Ctrl: k%3 == 0, Shift: k%5 == 0}
				case seeds[i] < 26:
					m = tea.PrintlnMsg{Message: fmt.Sprintf("sent %d.%d", s, i)}
				case seeds[i] < 28:
					m = tea.TickMsg{Time: time.Unix(int64(s), int64(i))}
				}
				if err := p.Send(m); err == nil {
					accepted[s] = append(accepted[s], m)
				} else {
					rejected[s] = append(rejected[s], m)
				}
				if seeds[i]%7 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	// disturbances
	dist := []string{}
	if r.IntN(3) == 0 {
		dist = append(dist, "suspends")
		n := 1 + r.IntN(4)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-startAll
			for i := 0; i < n; i++ {
				p.Suspend()
				runtime.Gosched()
				p.Resume()
			}
		}()
	}
	if r.IntN(3) == 0 {
		nKeys = 1 + r.IntN(40)
		dist = append(dist, "keys")
		k := nKeys
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-startAll
			for i := 0; i < k; i++ {
				in.push(string(rune('a' + i%26)))
			}
		}()
	}
	close(startAll)
	wg.Wait()
	acc, rej := 0, 0
	want := map[string]int{}
	for s := range accepted {
		acc += len(accepted[s])
		rej += len(rejected[s])
		for _, m := range accepted[s] {
			want[fmt.Sprintf("%#v", m)]++
		}
	}
	hist := fmt.Sprintf("%d senders × %d messages, %d rejected, %v, slow=%v", nS, nM, rej, dist, slowFor)
	c.Tracef("%s", hist)
	// commands to expect: those of accepted startCmds
	expCmd := 1
	for s := range accepted {
		for _, m := range accepted[s] {
			if x, ok := m.(startCmds); ok {
				if x.N%3 == 2 {
					expCmd++
				} else {
					expCmd += x.K
				}
			}
		}
	}
	total := int64(acc + nKeys + expCmd)
	okAll := fw.Wait(patience, func() bool { return count.Load() >= total })
	for i := 0; i < r.IntN(30); i++ {
		runtime.Gosched()
	}
	if err := send(p, tea.QuitMsg{}); err != nil {
		c.Failf("quit: %v", err)
	}
	if !run.wait() {
		c.Failf("%s: the program did not end\n%s", hist, fw.Stacks())
	}
	// from here on g is ours
	if g.badVer != "" {
		c.Failf("%s: %s", hist, g.badVer)
	}
	if g.inits != 1 {
		c.Failf("%s: Init called %d times", hist, g.inits)
	}
	for n := 1; n <= expCmd; n++ {
		want[fmt.Sprintf("%#v", cmdMsg(n))]++
	}
	var keys strings.Builder
	next := make([]int, nS)
	got := map[string]int{}
	for i, m := range g.applied {
		if k, ok := m.(tea.KeyMsg); ok && k.Rune < 128 {
			keys.WriteRune(k.Rune)
			continue
		}
		if x, ok := m.(tickMsg); ok {
			if x.t.Time.Before(ticks[x.N]) {
				c.Failf("%s: the tick of command %d, due at %v, came at %v", hist, x.N, ticks[x.N], x.t.Time)
			}
			m = cmdMsg(x.N)
		}
		got[fmt.Sprintf("%#v", m)]++
		s, n := -1, -1
		switch x := m.(type) {
		case um:
			s, n = x.S, x.N
		case startCmds:
			s, n = x.S, x.N
		case slowMsg:
			s, n = x.S, x.N
		case tea.WindowSizeMsg:
			s, n = x.Width-10, x.Height-1000
		case tea.KeyMsg:
			s, n = (int(x.Rune)-0x4e00)/1000, (int(x.Rune)-0x4e00)%1000
		case tea.PrintlnMsg:
			if _, err := fmt.Sscanf(x.Message, "sent %d.%d", &s, &n); err != nil {
				s = -1
			}
		case tea.TickMsg:
			if x.Time.Unix() < 1000000 {
				s, n = int(x.Time.Unix()), x.Time.Nanosecond()
			}
		case tea.MouseMsg:
			s, n = x.X, x.Y
		}
		if s >= 0 {
			if n < next[s] {
				c.Failf("%s: message %d of sender %d applied after its message %d (update %d)", hist, n, s, next[s]-1, i)
			}
			next[s] = n + 1
		}
	}
	var diff []string
	for k, n := range want {
		if got[k] != n {
			diff = append(diff, fmt.Sprintf("%s sent %d applied %d", k, n, got[k]))
		}
	}
	for k, n := range got {
		if want[k] == 0 {
			diff = append(diff, fmt.Sprintf("%s applied %d times but never accepted", k, n))
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		if len(diff) > 12 {
			diff = diff[:12]
		}
		c.Failf("%s: %s", hist, strings.Join(diff, "\n"))
	}
	wk := ""
	for i := 0; i < nKeys; i++ {
		wk += string(rune('a' + i%26))
	}
	if keys.String() != wk {
		c.Failf("%s: typed %q but the model got %q", hist, wk, keys.String())
	}
	if !okAll {
		c.Failf("%s: only %d of %d messages applied before the quit", hist, count.Load(), total)
	}
	c.Count("messages_applied", len(g.applied))
	c.Count("commands", expCmd)
	c.Count("rejected_sends", rej)
	// schedule signature: interleaving of senders
	sig := make([]byte, 0, len(g.applied))
	for _, m := range g.applied {
		if u, ok := m.(um); ok {
			sig = append(sig, byte('0'+u.S))
		} else {
			sig = append(sig, 'x')
		}
	}
	c.Seen(string(sig))
	c.Sample(hist + " interleaving " + string(sig))
}

// p02flood lets more commands and keys finish than there is room for while the
// model is busy for seconds: they wait, none is given up.
func p02flood(c *fw.Ctx) {
	r := c.R
	t := newHterm(20, 5)
	in := newFeed()
	defer in.end()
	n, keys := 130+r.IntN(200), 30+r.IntN(200)
	busy := time.Duration(2500+r.IntN(1500)) * time.Millisecond
	if c.N >= 1000 && r.IntN(4) == 0 {
		busy *= 4
	}
	gate := make(chan struct{})
	var applied []tea.Msg
	var count atomic.Int64
	hooks := &thooks{}
	hooks.update = func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		m.ver++
		applied = append(applied, msg)
		defer count.Add(1)
		switch x := msg.(type) {
		case startCmds:
			return m, func() tea.Msg { <-gate; return cm{x.N} }
		case slowMsg:
			close(gate)
			for i := 0; i < keys; i++ {
				in.push(string(rune('a' + i%26)))
			}
			time.Sleep(busy)
		}
		return m, nil
	}
	p := tea.New(tmodel{h: hooks}, tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t))
	run := launch(p)
	if !fw.Wait(patience, p.IsRunning) {
		c.Failf("the program does not start")
	}
	hist := fmt.Sprintf("%d commands and %d keys come while the model is busy for %v", n, keys, busy)
	c.Tracef("%s", hist)
	for i := 0; i < n; i++ {
		if err := send(p, startCmds{0, i, 1}); err != nil {
			c.Failf("Send: %v", err)
		}
	}
	if err := send(p, slowMsg{0, n}); err != nil {
		c.Failf("Send: %v", err)
	}
	fw.Wait(patience+int(busy/time.Millisecond), func() bool { return count.Load() >= int64(2*n+1+keys) })
	if err := send(p, tea.QuitMsg{}); err != nil || !run.wait() {
		c.Failf("%s: the program did not end (%v)", hist, err)
	}
	got := map[int]int{}
	typed, want := "", ""
	for _, m := range applied {
		switch x := m.(type) {
		case cm:
			got[x.N]++
		case tea.KeyMsg:
			typed += string(x.Rune)
		}
	}
	for i := 0; i < n; i++ {
		if got[i] != 1 {
			c.Failf("%s: the message of command %d was applied %d times", hist, i, got[i])
		}
	}
	for i := 0; i < keys; i++ {
		want += string(rune('a' + i%26))
	}
	if typed != want {
		c.Failf("%s: typed %q but the model got %q", hist, want, typed)
	}
	c.Count("flooded", 1)
	c.Count("messages_applied", len(applied))
	c.Seen("flood", n, keys)
}

// ---- P03 ------------------------------------------------------------------------

// tree is a command tree.
type tree struct {
	kind string // leaf batch seq nil none(nil command) user(raw message tree)
	id   int
	kids []*tree
	bar  *barrier
}

type barrier struct {
	n       int32
	arrived atomic.Int32
	failed  atomic.Bool
}

type p03log struct {
	clock      atomic.Int64
	start, end []atomic.Int64 // per leaf
	runs       []atomic.Int32
	bad        atomic.Pointer[string]
}

type p03gen struct {
	c      *fw.Ctx
	leaves int
	budget int
}

func (g *p03gen) leaf() *tree {
	g.leaves++
	g.budget--
	return &tree{kind: "leaf", id: g.leaves - 1}
}

func (g *p03gen) gen(depth int) *tree {
	r := g.c.R
	if depth == 0 || g.budget <= 0 || r.IntN(3) == 0 {
		switch r.IntN(12) {
		case 0:
			return &tree{kind: "none"}
		case 1:
			return &tree{kind: "nilmsg"}
		}
		return g.leaf()
	}
	n := r.IntN(5)
	if r.IntN(5) == 0 {
		n = r.IntN(30)
	}
	if r.IntN(12) == 0 && g.budget > 200 {
		n = 100 + r.IntN(150)
	}
	t := &tree{kind: "batch"}
	if r.IntN(2) == 0 {
		t.kind = "seq"
	}
	for i := 0; i < n && g.budget > 0; i++ {
		t.kids = append(t.kids, g.gen(depth-1))
	}
	if t.kind == "batch" && r.IntN(2) == 0 {
		// direct leaves of a batch wait for each other: impossible unless all
		// are started
		b := &barrier{}
		for _, k := range t.kids {
			if k.kind == "leaf" {
				k.bar = b
				b.n++
			}
		}
	}
	return t
}

func (t *tree) shape() string {
	switch t.kind {
	case "leaf":
		return "l"
	case "none":
		return "0"
	case "nilmsg":
		return "n"
	}
	var b strings.Builder
	b.WriteByte(t.kind[0])
	b.WriteByte('(')
	run, last := 0, ""
	flush := func() {
		if run > 3 {
			fmt.Fprintf(&b, "%s×%d", last, run)
		} else {
			b.WriteString(strings.Repeat(last, run))
		}
	}
	for _, k := range t.kids {
		s := k.shape()
		if s == last {
			run++
			continue
		}
		flush()
		run, last = 1, s
	}
	flush()
	b.WriteByte(')')
	return b.String()
}

func (t *tree) all(f func(*tree)) {
	f(t)
	for _, k := range t.kids {
		k.all(f)
	}
}

type leafMsg struct{ ID int }

// leafOf is the message of leaf id, of any of the library's types.
func leafOf(id int) tea.Msg {
	switch id % 7 {
	case 2:
		return tea.PrintlnMsg{Message: fmt.Sprint(id)}
	case 4:
		return tea.TickMsg{Time: time.Unix(0, int64(id))}
	case 6:
		return tea.MouseMsg{X: id, Button: tea.MouseButtonRight}
	}
	return leafMsg{id}
}

// leafID is the leaf a message comes from, -1 if from none.
func leafID(m tea.Msg) int {
	id := -1
	switch x := m.(type) {
	case leafMsg:
		return x.ID
	case tea.PrintlnMsg:
		fmt.Sscan(x.Message, &id)
	case tea.TickMsg:
		id = x.Time.Nanosecond()
	case tea.MouseMsg:
		id = x.X
	default:
		return -1
	}
	if id >= 0 && leafOf(id) != m {
		return -1
	}
	return id
}

func (t *tree) cmd(l *p03log) tea.Cmd {
	switch t.kind {
	case "none":
		return nil
	case "nilmsg":
		return func() tea.Msg { return nil }
	case "leaf":
		id, bar := t.id, t.bar
		return func() tea.Msg {
			return userCommand(func() tea.Msg {
				l.runs[id].Add(1)
				l.start[id].Store(l.clock.Add(1))
				if bar != nil {
					bar.arrived.Add(1)
					if !fw.Wait(patience, func() bool { return bar.arrived.Load() >= bar.n }) {
						bar.failed.Store(true)
					}
				} else if id%5 == 0 {
					runtime.Gosched()
				}
				l.end[id].Store(l.clock.Add(1))
				return leafOf(id)
			})
		}
	}
	var cs []tea.Cmd
	for _, k := range t.kids {
		cs = append(cs, k.cmd(l))
	}
	make := tea.Sequence
	if t.kind == "batch" {
		make = tea.Batch
	}
	// The list stays the program's: it is not changed, may be used again and may change afterwards.
	was := append([]tea.Cmd(nil), cs...)
	cmd := make(cs...)
	for i := range cs {
		if !sameFunc(cs[i], was[i]) {
			s := t.kind + " changed the list of commands it was given"
			l.bad.Store(&s)
		}
	}
	switch len(t.shape()) % 3 {
	case 0:
		cmd = make(cs...)
	case 1:
		for i := range cs {
			cs[i] = func() tea.Msg {
				s := t.kind + " ran a command put into the list afterwards"
				l.bad.Store(&s)
				return nil
			}
		}
	}
	return cmd
}

func sameFunc(a, b tea.Cmd) bool {
	return *(*unsafe.Pointer)(unsafe.Pointer(&a)) == *(*unsafe.Pointer)(unsafe.Pointer(&b))
}

// msg is the tree as a message, sent without any command.
func (t *tree) msg() tea.Msg {
	switch t.kind {
	case "leaf", "none", "nilmsg":
		return leafOf(t.id)
	}
	var ms []tea.Msg
	for _, k := range t.kids {
		if k.kind == "none" || k.kind == "nilmsg" {
			continue
		}
		ms = append(ms, k.msg())
	}
	if t.kind == "batch" {
		return tea.BatchMsg{Messages: ms}
	}
	return tea.SequenceMsg{Messages: ms}
}

type startTree struct{ i int }

func p03(c *fw.Ctx) {
	r := c.R
	g := &p03gen{c: c, budget: 30 + r.IntN(500)}
	nT := 1 + r.IntN(4)
	var trees []*tree
	raw := map[int]bool{}
	for i := 0; i < nT; i++ {
		trees = append(trees, g.gen(1+r.IntN(5)))
		if r.IntN(4) == 0 {
			raw[i] = true
		}
	}
	if r.IntN(8) == 0 { // large and flat
		t := &tree{kind: []string{"batch", "seq"}[r.IntN(2)]}
		n := 90 + r.IntN(400)
		var b *barrier
		if r.IntN(3) == 0 { // all at once
			n = 200 + r.IntN(2000)
			if t.kind == "batch" {
				b = &barrier{n: int32(n)}
				c.Count("large_barriers", 1)
			}
		}
		for i := n; i > 0; i-- {
			k := g.leaf()
			k.bar = b
			t.kids = append(t.kids, k)
		}
		trees = append(trees, t)
		raw[len(trees)-1] = b == nil && r.IntN(2) == 0
	}
	l := &p03log{start: make([]atomic.Int64, g.leaves), end: make([]atomic.Int64, g.leaves), runs: make([]atomic.Int32, g.leaves)}
	shape := ""
	for i, t := range trees {
		if raw[i] {
			shape += "raw:"
		}
		shape += t.shape() + " "
	}
	c.Tracef("%s", shape)
	t := newHterm(40, 10)
	t.ignoreOut = true
	in := newFeed()
	defer in.end()
	var applied []int
	var count atomic.Int64
	hooks := &thooks{}
	initTree := r.IntN(3) == 0 && !raw[0]
	hooks.init = func() tea.Cmd {
		if initTree {
			return trees[0].cmd(l)
		}
		return nil
	}
	hooks.update = func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		m.ver++
		m.val = fmt.Sprint(m.ver)
		switch x := msg.(type) {
		case startTree:
			return m, trees[x.i].cmd(l)
		default:
			if id := leafID(msg); id >= 0 {
				applied = append(applied, id)
				count.Add(1)
			}
		}
		return m, nil
	}
	p := tea.New(tmodel{h: hooks}, tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t))
	run := launch(p)
	if !fw.Wait(patience, p.IsRunning) {
		c.Failf("the program does not start")
	}
	for i, tr := range trees {
		if i == 0 && initTree {
			continue
		}
		var m tea.Msg = startTree{i}
		if raw[i] {
			m = tr.msg()
			if tr.kind == "none" || tr.kind == "nilmsg" {
				continue
			}
		}
		if err := send(p, m); err != nil {
			c.Failf("Send: %v", err)
		}
	}
	okAll := fw.Wait(patience, func() bool { return count.Load() >= int64(g.leaves) })
	for i := 0; i < 10; i++ {
		runtime.Gosched()
	}
	var stuck string
	if !okAll {
		stuck = fw.Stacks()
	}
	if err := send(p, tea.QuitMsg{}); err != nil || !run.wait() {
		c.Failf("%s: the program is stuck (%v)\n%s", shape, err, fw.Stacks())
	}
	if s := l.bad.Load(); s != nil {
		c.Failf("%s: %s", shape, *s)
	}
	pos := make([]int, g.leaves)
	for i := range pos {
		pos[i] = -1
	}
	for i, id := range applied {
		if id < 0 || id >= g.leaves {
			c.Failf("%s: unknown message %d", shape, id)
		}
		if pos[id] >= 0 {
			c.Failf("%s: the message of leaf %d reached the model twice", shape, id)
		}
		pos[id] = i
	}
	for i, tr := range trees {
		tr.all(func(n *tree) {
			if n.kind == "leaf" {
				if pos[n.id] < 0 {
					c.Failf("%s: the message of leaf %d never reached the model (%d of %d did)\n%s", shape, n.id, len(applied), g.leaves, stuck)
				}
				want := int32(1)
				if raw[i] {
					want = 0
				}
				if x := l.runs[n.id].Load(); x != want {
					c.Failf("%s: leaf command %d ran %d times", shape, n.id, x)
				}
			}
			if n.kind == "batch" && !raw[i] {
				for _, k := range n.kids {
					if k.bar != nil && k.bar.failed.Load() {
						c.Failf("%s: commands of a batch were not all started (%d of %d)", shape, k.bar.arrived.Load(), k.bar.n)
					}
				}
				if len(n.kids) > 0 && n.kids[0].bar != nil {
					c.Count("barriers", 1)
				}
			}
			if n.kind == "batch" || n.kind == "seq" {
				c.Count("nested", 1)
			}
			if n.kind == "seq" || raw[i] && n.kind == "batch" {
				// Everything in child k comes before everything in child k+1.
				lastEnd, lastPos := int64(0), -1
				for k, kid := range n.kids {
					minS, maxE, minP, maxP := int64(1<<62), int64(0), 1<<30, -1
					kid.all(func(x *tree) {
						if x.kind == "leaf" {
							minS, maxE = min(minS, l.start[x.id].Load()), max(maxE, l.end[x.id].Load())
							minP, maxP = min(minP, pos[x.id]), max(maxP, pos[x.id])
						}
					})
					if maxP < 0 {
						continue
					}
					if !raw[i] && minS < lastEnd {
						c.Failf("%s: command %d of a sequence started before the one before it had ended", shape, k)
					}
					if minP < lastPos {
						c.Failf("%s: messages of a sequence applied out of order (child %d)", shape, k)
					}
					lastEnd, lastPos = maxE, maxP
				}
			}
		})
	}
	c.Count("leaves", g.leaves)
	c.Seen(shape)
	c.Sample(shape)
}

// p02restart: goroutines that send a single message each, while the program ends
// and is started again. Nothing else orders them with the program.
func p02restart(c *fw.Ctx) {
	r := c.R
	in := newFeed()
	defer in.end()
	t := newHterm(40, 10)
	applied := map[um]int{} // touched by Update only
	hooks := &thooks{update: func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		if u, ok := msg.(um); ok {
			applied[u]++
		}
		return m, nil
	}}
	p := tea.New(tmodel{h: hooks}, tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t))
	run := launch(p)
	if !fw.Wait(patience, p.IsRunning) {
		c.Failf("the program does not start")
	}
	rounds := 2 + r.IntN(6)
	var all [][]error
	for k := 0; k < rounds; k++ {
		n := 1 + r.IntN(12)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			d := r.IntN(400)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < d; j++ {
					runtime.Gosched()
				}
				errs[i] = p.Send(um{k, i})
			}()
		}
		for j := r.IntN(200); j > 0; j-- {
			runtime.Gosched()
		}
		if r.IntN(2) == 0 {
			send(p, tea.QuitMsg{})
		} else {
			p.Stop()
		}
		if !run.wait() {
			c.Failf("the program did not end\n%s", fw.Stacks())
		}
		run = launch(p)
		if !fw.Wait(patience, p.IsRunning) {
			c.Failf("the program does not start again\n%s", fw.Stacks())
		}
		wg.Wait()
		all = append(all, errs)
		for _, e := range errs {
			if e != nil {
				c.Count("rejected_sends", 1)
			}
		}
	}
	send(p, tea.QuitMsg{})
	if !run.wait() {
		c.Failf("the program did not end\n%s", fw.Stacks())
	}
	for u, n := range applied {
		if n != 1 {
			c.Failf("%v was applied %d times", u, n)
		}
		if all[u.S][u.N] != nil {
			c.Failf("%v was applied although Send failed: %v", u, all[u.S][u.N])
		}
	}
	c.Count("restarts", rounds)
	c.Count("messages_applied", len(applied))
	c.Seen("restart", rounds, len(applied), c.N)
}
