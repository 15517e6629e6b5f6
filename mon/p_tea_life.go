package main

import (
	"bufio"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
)

func init() {
	fw.Register(&fw.Prop{ID: "P01", Quick: 2200, Thorough: 40000, Case: p01, Setup: teaSetup,
		Rule:   "a program run with its history of suspend/resume/exec/fault operations and its way of ending",
		Assume: []string{"the watched terminal honours the Terminal contract (unpaired changes are errors)", "faults injected into the terminal are transient and over before the program ends"},
		Need:   map[string]int64{"runs": 500, "suspends": 300, "children_observed": 50, "ends_while_suspended": 50}})
	fw.Register(&fw.Prop{ID: "P04", Race: true, Quick: 700, Thorough: 12000, Case: p04, Setup: teaSetup,
		Rule:   "a program run, the state it is in when asked to quit, and the way it is asked",
		Assume: []string{"blocked commands and reads are released by the monitor only after the run has ended"},
		Need:   map[string]int64{"runs": 300, "restarts": 50, "blocked_commands": 100}})
}

// child makes an external command that stops at a point where the monitor can
// look at the terminal, then continues when told to.
type child struct {
	cmd  *exec.Cmd
	outR *os.File // child says "up"
	inW  *os.File // closing lets it go
	outW *os.File
	inR  *os.File
	up   chan bool
	pid  int // as reported by the child itself
}

func newChild(exit int) *child {
	c := &child{up: make(chan bool, 1)}
	c.outR, c.outW, _ = os.Pipe()
	c.inR, c.inW, _ = os.Pipe()
	c.cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf("echo up $$ >&3; exec 3>&-; read x <&4; exit %d", exit))
	c.cmd.ExtraFiles = []*os.File{c.outW, c.inR}
	go func() {
		l, _ := bufio.NewReader(c.outR).ReadString('\n')
		_, err := fmt.Sscanf(l, "up %d\n", &c.pid)
		c.up <- err == nil
	}()
	return c
}

// release lets the child go on; call it once the command has been started or
// will never be.
func (c *child) release() { c.inW.Close() }

func (c *child) close() {
	c.inW.Close()
	c.inR.Close()
	c.outW.Close()
	c.outR.Close()
}

func p01(c *fw.Ctx) {
	r := c.R
	if c.N%12 == 5 {
		// On a real (pseudo) terminal.
		if ttyCase(c, "modes", nil) != nil {
			c.Count("tty_programs", 1)
		}
		c.Seen("tty", c.N)
		return
	}
	t := newHterm(20+r.IntN(60), 5+r.IntN(20))
	t.rawOK = r.IntN(10) != 0
	t.altOK = r.IntN(12) != 0
	alt := r.IntN(2) == 0
	in := newFeed()
	defer in.end()
	opts := []topt{tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t)}
	umbrella := r.IntN(2) == 0
	newProgram := tea.New[tmodel]
	if umbrella {
		newProgram = phoenix.NewProgram[tmodel]
	}
	if alt && umbrella {
		opts = append(opts, phoenix.WithAltScreen[tmodel]())
	} else if alt {
		opts = append(opts, tea.WithAltScreen[tmodel]())
	}
	if r.IntN(3) == 0 && umbrella {
		opts = append(opts, phoenix.WithMouseAllMotion[tmodel]())
	} else if r.IntN(3) == 0 {
		opts = append(opts, tea.WithMouseAllMotion[tmodel]())
	}
	hooks := &thooks{}
	var panicAt atomic.Int32 // 1 update, 2 view
	cmds := make(chan tea.Cmd, 64)
	applied := atomic.Int64{}
	hooks.update = func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		applied.Add(1)
		m.ver++
		m.val = fmt.Sprintf("v%d\nline2", m.ver)
		if panicAt.Load() == 1 {
			panic("user panic")
		}
		select {
		case cmd := <-cmds:
			return m, cmd
		default:
		}
		return m, nil
	}
	hooks.view = func(m tmodel) string {
		if panicAt.Load() == 2 {
			panic("user panic")
		}
		return m.val
	}
	p := newProgram(tmodel{h: hooks, val: "start"}, opts...)
	desc := fmt.Sprintf("alt=%v rawOK=%v altOK=%v", alt, t.rawOK, t.altOK)
	c.Tracef("%s", desc)
	hist := desc
	var late sync.WaitGroup
	nRuns := 1 + r.IntN(3)
	for k := 0; k < nRuns; k++ {
		panicAt.Store(0)
		for len(cmds) > 0 {
			<-cmds
		}
		ended := p01run(c, r, p, t, alt, cmds, &panicAt, &hist, &late, in)
		if !ended {
			break
		}
	}
	late.Wait()
	if s := t.abnormal(); s != "" {
		c.Failf("after everything has finished: %s\nlog: %s", s, t.logText())
	}
	c.Seen(hist)
	c.Sample(hist)
}

// p01run does one program run; it returns false if the program could not start.
func p01run(c *fw.Ctx, r *rand.Rand, p *tprog, t *hterm, alt bool, cmds chan tea.Cmd, panicAt *atomic.Int32, hist *string, late *sync.WaitGroup, in *feed) bool {
	c.Count("runs", 1)
	t.mu.Lock()
	t.log, t.bad = nil, nil
	e0r, e0a := t.enters["raw"]-t.exits["raw"], t.enters["alt"]-t.exits["alt"]
	t.mu.Unlock()
	step := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		*hist += "; " + s
		c.Tracef("%s", s)
	}
	fin := make(chan struct{})
	close(fin)
	if r.IntN(3) == 0 { // used while it does not run, or as it starts
		ops := []int{}
		for i := 1 + r.IntN(3); i > 0; i-- {
			ops = append(ops, r.IntN(3))
		}
		along := r.IntN(2) == 0
		step("before the run %v (along with the start: %v)", ops, along)
		c.Count("used_before_run", 1)
		fin = make(chan struct{})
		f := func() {
			defer close(fin)
			for _, op := range ops {
				switch op {
				case 0:
					p.Suspend()
				case 1:
					p.Suspend()
					p.Resume()
				case 2:
					p.ExecProcess(exec.Command("/bin/true"))
				}
			}
			if along {
				p.Resume() // runs it may have suspended go on
			}
		}
		if along {
			go f()
		} else {
			f()
			if p.IsSuspended() {
				p.Resume()
			}
			t.mu.Lock()
			raw := t.raw
			t.mu.Unlock()
			alt := t.IsInAltScreen()
			if raw || alt {
				c.Failf("raw mode %v, alternate screen %v after Suspend and Resume of a program that does not run\nterminal log: %s", raw, alt, t.logText())
			}
		}
	}
	endKind := r.IntN(6)
	usesStart := endKind == 2 || endKind != 4 && r.IntN(3) == 0
	w0 := t.writeCount()
	var run *runner
	if usesStart {
		step("Start")
		var err error
		run, err = launchStart(p)
		if err != nil {
			c.Failf("Start: %v", err)
		}
	} else {
		step("Run")
		run = launch(p)
	}
	fail := func(f string, a ...any) {
		c.Failf("%s\nterminal log: %s", fmt.Sprintf(f, a...), t.logText())
	}
	// A terminal without an alternate screen: Run must give up and leave nothing.
	if alt && !t.altOK {
		<-fin
		if !run.wait() {
			fail("the program did not give up although the terminal has no alternate screen")
		}
		if !usesStart && run.err == nil {
			fail("Run reported success although the alternate screen could not be entered")
		}
		p01after(c, t, e0r, e0a, "after a failed start", fail)
		if p.IsRunning() {
			fail("the program counts as running although it could not start")
		}
		c.Count("failed_starts", 1)
		// nothing keeps it from starting once the terminal can do it
		t.mu.Lock()
		t.altOK = true
		t.mu.Unlock()
		step("the alternate screen works now")
		return p01run(c, r, p, t, alt, cmds, panicAt, hist, late, in)
	}
	if !fw.Wait(patience, func() bool {
		t.mu.Lock()
		defer t.mu.Unlock()
		return t.writes > w0 && (t.raw || !t.rawOK)
	}) {
		fail("the program wrote no first frame")
	}
	<-fin
	if t.IsInAltScreen() != alt {
		fail("alternate screen %v but wanted %v while running", t.IsInAltScreen(), alt)
	}
	faulty := false
	check := func(what string) {
		t.mu.Lock()
		bad := append([]string(nil), t.bad...)
		t.mu.Unlock()
		if len(bad) > 0 {
			fail("%s: %s", what, strings.Join(bad, "; "))
		}
		if p.IsSuspended() && !faulty {
			if s := t.abnormal(); s != "" {
				fail("%s: suspended but %s", what, s)
			}
		}
	}
	running := func(what string) {
		if faulty || p.IsSuspended() {
			return
		}
		if t.rawOK && !t.IsInRawMode() {
			fail("%s: running but not in raw mode", what)
		}
		if alt != t.IsInAltScreen() {
			fail("%s: running but alternate screen is %v", what, t.IsInAltScreen())
		}
	}
	// inCmd runs f in a command of the program and waits for it.
	inCmd := func(f func()) {
		done := make(chan struct{})
		cmds <- func() tea.Msg { return userCommand(func() tea.Msg { f(); close(done); return um{9, 9} }) }
		if err := send(p, um{0, 0}); err != nil {
			fail("Send: %v", err)
		}
		if !fw.Wait(patience, func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		}) {
			fail("a command did not finish\n%s", fw.Stacks())
		}
	}
	do := func(f func()) {
		if r.IntN(2) == 0 {
			inCmd(f)
		} else {
			f()
		}
	}
	suspend := func() {
		var err error
		before := p.IsSuspended()
		do(func() { err = p.Suspend() })
		step("Suspend=%v", err != nil)
		if err == nil {
			c.Count("suspends", 1)
			faulty = false
			if !p.IsSuspended() {
				fail("Suspend succeeded but the program is not suspended")
			}
		} else {
			if !faultPossible(t) && !before {
				fail("Suspend failed without any fault: %v", err)
			}
			c.Count("failed_suspends", 1)
		}
		check("after Suspend")
	}
	resume := func() {
		var err error
		do(func() { err = p.Resume() })
		step("Resume=%v", err != nil)
		if err == nil {
			c.Count("resumes", 1)
			if p.IsSuspended() {
				fail("Resume succeeded but the program is suspended")
			}
			faulty = false
			check("after Resume")
			running("after Resume")
		} else {
			c.Count("failed_resumes", 1)
			faulty = true
			// what failed may be tried again
			t.clearFaults()
			if err := p.Resume(); err != nil {
				fail("Resume tried again after a transient fault: %v", err)
			}
			faulty = false
			running("after the second Resume")
		}
	}
	for n := r.IntN(9); n > 0; n-- {
		switch k := r.IntN(14); k {
		case 0, 1, 2:
			suspend()
		case 3, 4, 5:
			resume()
		case 6, 7:
			exit := r.IntN(2)
			ch := newChild(exit)
			var err error
			fin := make(chan struct{})
			was := p.IsSuspended()
			go func() { err = p.ExecProcess(ch.cmd); close(fin) }()
			select {
			case ok := <-ch.up:
				if ok {
					c.Count("children_observed", 1)
					if s := t.abnormal(); s != "" {
						ch.release()
						fail("the external command runs with %s", s)
					}
				}
			case <-fin:
			}
			ch.release()
			if !fw.Wait(patience, func() bool {
				select {
				case <-fin:
					return true
				default:
					return false
				}
			}) {
				fail("ExecProcess did not return\n%s", fw.Stacks())
			}
			ch.close()
			step("Exec(exit %d)=%v", exit, err != nil)
			if (err != nil) != (exit != 0) && !faultPossible(t) {
				fail("ExecProcess of a command that exits %d: %v", exit, err)
			}
			_ = was
			if p.IsSuspended() { // a fault on the way back: try again
				faulty = true
				t.clearFaults()
				if err := p.Resume(); err != nil {
					fail("Resume after a transient fault: %v", err)
				}
				faulty = false
			}
			check("after ExecProcess")
			running("after ExecProcess")
		case 8:
			var err error
			do(func() { err = p.ExecProcess(exec.Command("/nonexistent/prog")) })
			step("Exec(nonexistent)=%v", err != nil)
			if err == nil {
				fail("running a nonexistent command succeeded")
			}
			if p.IsSuspended() {
				faulty = true
				t.clearFaults()
				if err := p.Resume(); err != nil {
					fail("Resume after a transient fault: %v", err)
				}
				faulty = false
			}
			check("after a command that cannot be started")
			running("after a command that cannot be started")
		case 9:
			op := []string{"enterRaw", "exitRaw", "enterAlt", "exitAlt"}[r.IntN(4)]
			if t.rawOK || !strings.HasSuffix(op, "Raw") {
				step("fault %s", op)
				t.clearFaults() // one at a time: the program can undo one failure
				t.setFail(op, 1)
			}
		case 10:
			step("messages")
			for i := r.IntN(4); i >= 0; i-- {
				if err := send(p, um{1, i}); err != nil {
					fail("Send: %v", err)
				}
			}
			check("after messages")
		case 11: // several at once
			step("concurrent suspend/resume")
			t.clearFaults()
			var wg sync.WaitGroup
			for i := 0; i < 3; i++ {
				which := r.IntN(3)
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch which {
					case 0:
						p.Suspend()
					case 1:
						p.Resume()
					case 2:
						p.ExecProcess(exec.Command("/bin/true"))
					}
				}()
			}
			wg.Wait()
			faulty = false
			check("after concurrent operations")
			running("after concurrent operations")
		case 12:
			in.push([]string{"a", "\x1b[A", "xyz"}[r.IntN(3)])
		case 13: // two external commands at once: each has the terminal while it runs
			step("two external commands")
			t.clearFaults()
			if faulty {
				p.Resume()
				faulty = false
			}
			chs := []*child{newChild(0), newChild(0)}
			fins := []chan error{make(chan error, 1), make(chan error, 1)}
			kinds := []int{r.IntN(2), r.IntN(2)}
			for i := range chs {
				go func() {
					if kinds[i] == 0 {
						fins[i] <- p.ExecProcess(chs[i].cmd)
					} else {
						fins[i] <- p.ExecProcessWithTTY(chs[i].cmd, tea.TTYOptions{})
					}
				}()
			}
			first, ok := 0, true
			select {
			case ok = <-chs[0].up:
			case ok = <-chs[1].up:
				first = 1
			case <-time.After(patience * 10 * time.Millisecond):
				fail("neither of two external commands starts\n%s", fw.Stacks())
			}
			for k, i := range []int{first, 1 - first} {
				if k == 1 {
					select {
					case ok = <-chs[i].up:
					case <-time.After(patience * 10 * time.Millisecond):
						fail("the second of two external commands does not start\n%s", fw.Stacks())
					}
				}
				if !ok {
					fail("external command %d of two did not run", k+1)
				}
				if r.IntN(2) == 0 {
					time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
				}
				if s := t.abnormal(); s != "" {
					chs[0].release()
					chs[1].release()
					fail("external command %d of two runs with %s", k+1, s)
				}
				chs[i].release()
				select {
				case err := <-fins[i]:
					if err != nil {
						fail("external command %d of two: %v", k+1, err)
					}
				case <-time.After(patience * 10 * time.Millisecond):
					fail("external command %d of two does not return\n%s", k+1, fw.Stacks())
				}
			}
			chs[0].close()
			chs[1].close()
			c.Count("two_commands", 1)
			check("after two external commands")
			running("after two external commands")
		}
	}
	t.clearFaults()
	if faulty {
		p.Resume()
	}
	if p.IsSuspended() {
		c.Count("ends_while_suspended", 1)
	}
	// Something may still be under way when the program ends.
	lateKind := r.IntN(4)
	var ch *child
	lateGo := make(chan struct{})
	if lateKind == 1 && !p.IsSuspended() && endKind != 5 {
		ch = newChild(0)
		step("ends during an external command")
		late.Add(1)
		fin := make(chan struct{})
		go func() { defer late.Done(); p.ExecProcess(ch.cmd); close(fin) }()
		select {
		case <-ch.up:
		case <-fin:
		}
	}
	if lateKind == 2 {
		step("ends concurrently with suspend/resume")
		n := 1 + r.IntN(4)
		late.Add(1)
		go func() {
			defer late.Done()
			<-lateGo
			for i := 0; i < n; i++ {
				p.Suspend()
				p.Resume()
			}
		}()
		runtime.Gosched()
	}
	close(lateGo)
	switch endKind {
	case 0:
		step("QuitMsg")
		if err := send(p, tea.QuitMsg{}); err != nil {
			fail("sending the quit message: %v", err)
		}
	case 1, 5:
		step("Quit command")
		for len(cmds) > 0 {
			<-cmds
		}
		cmds <- phoenix.Quit()
		if err := send(p, um{3, 0}); err != nil && !run.wait() { // (an earlier message may have triggered it)
			fail("Send: %v", err)
		}
	case 2, 3:
		step("Stop")
		p.Stop()
	case 4:
		k := 1 + r.IntN(2)
		step("panic in %s", []string{"", "Update", "View"}[k])
		panicAt.Store(int32(k))
		if err := send(p, um{4, 0}); err != nil && !run.wait() { // (an earlier message may have triggered it)
			fail("Send: %v", err)
		}
	}
	if !run.wait() {
		if ch != nil {
			ch.release()
		}
		fail("the program did not end\n%s", fw.Stacks())
	}
	if endKind == 4 && run.panicked == nil {
		fail("the panic of the model was swallowed")
	}
	if lateKind != 2 {
		p01after(c, t, e0r, e0a, "after the run", fail)
	}
	if ch != nil {
		if r.IntN(2) == 0 {
			step("Resume after the end")
			p.Resume()
		}
		ch.release()
	}
	late.Wait()
	if ch != nil {
		ch.close()
	}
	switch r.IntN(4) {
	case 0:
		step("Resume after the end")
		p.Resume()
	case 1:
		step("Suspend, Resume after the end")
		p.Suspend()
		p.Resume()
	}
	p01after(c, t, e0r, e0a, "after the run and its late operations", fail)
	return true
}

func faultPossible(t *hterm) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	// a fault fired or is armed in this run
	if len(t.fail) > 0 {
		return true
	}
	for _, l := range t.log {
		if strings.HasSuffix(l, "FAULT") {
			return true
		}
	}
	return false
}

func p01after(c *fw.Ctx, t *hterm, e0r, e0a int, what string, fail func(string, ...any)) {
	if s := t.abnormal(); s != "" {
		fail("%s: %s", what, s)
	}
	t.mu.Lock()
	dr, da := t.enters["raw"]-t.exits["raw"]-e0r, t.enters["alt"]-t.exits["alt"]-e0a
	bad := strings.Join(t.bad, "; ")
	t.mu.Unlock()
	if bad != "" {
		fail("%s: %s", what, bad)
	}
	if dr != 0 || da != 0 {
		fail("%s: raw mode entered %+d, alternate screen %+d times more than left", what, dr, da)
	}
	c.Count("ends_checked", 1)
}

// ---- P04 ----------------------------------------------------------------------

func p04(c *fw.Ctx) {
	r := c.R
	t := newHterm(40, 12)
	in := newFeed()
	defer in.end()
	alt := r.IntN(3) == 0
	opts := []topt{tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t)}
	if alt {
		opts = append(opts, tea.WithAltScreen[tmodel]())
	}
	var inits, updates, views atomic.Int64
	hooks := &thooks{}
	var st *p04state
	hooks.init = func() tea.Cmd { inits.Add(1); return st.initCmd() }
	hooks.update = func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		updates.Add(1)
		m.ver++
		m.val = fmt.Sprint(m.ver)
		return m, st.onUpdate(msg)
	}
	hooks.view = func(m tmodel) string { views.Add(1); return m.val + "\nx" }
	p := tea.New(tmodel{h: hooks}, opts...)
	hist := ""
	// commands still blocked from earlier runs
	gate := make(chan struct{})
	blocked := 0
	opened := false
	open := func() {
		if !opened {
			opened = true
			close(gate)
		}
	}
	defer open()
	nRuns := 1 + r.IntN(2)
	for k := 0; k < nRuns; k++ {
		st = &p04state{c: c, r: r, p: p, gate: gate, hold: make(chan struct{}), busy: make(chan struct{})}
		desc, nb := st.run(t, in, &inits, &updates, &views)
		blocked += nb
		hist += desc + "; "
		if k > 0 {
			c.Count("restarts", 1)
		}
	}
	// everything user-made is released: nothing of the program may remain
	open()
	in.end()
	var left []string
	if !fw.Wait(patience, func() bool { left = progGoroutines(); return len(left) == 0 }) {
		c.Failf("%s: goroutines of the program survive the run although commands and input are released:\n%s", hist, strings.Join(left, "\n\n"))
	}
	c.Seen(hist)
	c.Sample(hist)
}

type p04state struct {
	c         *fw.Ctx
	r         *rand.Rand
	p         *tprog
	gate      chan struct{} // blocked commands wait here for the end of the case
	hold      chan struct{} // a busy Update waits here
	busy      chan struct{} // closed when Update is busy
	requested atomic.Bool
	initQuit  bool
	initBlock int
	how       string
	busyOnce  sync.Once
}

type p04busy struct{}
type p04quit struct{ how int }
type p04block struct{ n int }

func (s *p04state) blockedCmd() tea.Cmd {
	g := s.gate
	return func() tea.Msg { return userCommand(func() tea.Msg { <-g; return um{7, 7} }) }
}

func (s *p04state) initCmd() tea.Cmd {
	if s.initQuit {
		s.requested.Store(true)
		return tea.Quit()
	}
	if s.initBlock > 0 {
		var cs []tea.Cmd
		for i := 0; i < s.initBlock; i++ {
			cs = append(cs, s.blockedCmd())
		}
		return tea.Batch(cs...)
	}
	return nil
}

func (s *p04state) onUpdate(msg tea.Msg) tea.Cmd {
	switch m := msg.(type) {
	case p04busy:
		s.busyOnce.Do(func() { close(s.busy) })
		<-s.hold
	case p04block:
		var cs []tea.Cmd
		for i := 0; i < m.n; i++ {
			cs = append(cs, s.blockedCmd())
		}
		if m.n%2 == 0 {
			return tea.Sequence(cs...)
		}
		return tea.Batch(cs...)
	case p04quit:
		s.requested.Store(true)
		switch m.how {
		case 0:
			return tea.Quit()
		case 1:
			return tea.Batch(tea.Quit(), func() tea.Msg { return um{8, 8} })
		case 2:
			return tea.Sequence(func() tea.Msg { return um{8, 8} }, tea.Quit(), func() tea.Msg { return um{8, 9} })
		case 3:
			p := s.p
			return func() tea.Msg { return userCommand(func() tea.Msg { p.Stop(); return um{8, 1} }) }
		}
	}
	return nil
}

func (s *p04state) run(t *hterm, in *feed, inits, updates, views *atomic.Int64) (string, int) {
	c, r, p := s.c, s.r, s.p
	c.Count("runs", 1)
	method := r.IntN(8)
	s.initQuit = method == 7
	s.initBlock = r.IntN(4) * r.IntN(2)
	if s.initQuit {
		s.initBlock = 0
	}
	nBlocked := s.initBlock
	desc := fmt.Sprintf("initBlock=%d", s.initBlock)
	i0 := inits.Load()
	var run *runner
	if r.IntN(3) == 0 {
		desc += " Start"
		var err error
		run, err = launchStart(p)
		if err != nil {
			c.Failf("Start: %v", err)
		}
	} else {
		desc += " Run"
		run = launch(p)
	}
	c.Tracef("%s", desc)
	bail := func(f string, a ...any) {
		close(s.hold)
		c.Failf("%s: %s", desc, fmt.Sprintf(f, a...))
	}
	if !s.initQuit {
		if !fw.Wait(patience, func() bool { return inits.Load() > i0 || run.ended() }) {
			bail("the program does not start")
		}
	}
	add := func(f string, a ...any) {
		x := fmt.Sprintf(f, a...)
		desc += ", " + x
		c.Tracef("%s", x)
	}
	// bring it into some state
	stopFlood := make(chan struct{})
	var flood sync.WaitGroup
	var floodOn bool
	var ch *child
	holdUpdate := false
	if !s.initQuit {
		if n := r.IntN(6); n > 0 && r.IntN(2) == 0 {
			add("%d blocked commands", n)
			if err := send(p, p04block{n}); err != nil {
				bail("Send: %v", err)
			}
			nBlocked += n
			c.Count("blocked_commands", n)
		}
		if r.IntN(3) == 0 {
			add("keys")
			for i := 0; i < 5; i++ {
				in.push("abc\x1b[A")
			}
		}
		switch r.IntN(6) {
		case 0:
			add("suspended")
			if err := p.Suspend(); err != nil {
				bail("Suspend: %v", err)
			}
		case 1:
			add("external command")
			ch = newChild(0)
			flood.Add(1)
			fin := make(chan struct{})
			go func() { defer flood.Done(); p.ExecProcess(ch.cmd); close(fin) }()
			select {
			case <-ch.up:
			case <-fin:
			}
		}
		if r.IntN(3) == 0 {
			floodOn = true
			n := 1 + r.IntN(4)
			add("%d flooding senders", n)
			for i := 0; i < n; i++ {
				flood.Add(1)
				go func() {
					defer flood.Done()
					for j := 0; ; j++ {
						select {
						case <-stopFlood:
							return
						default:
						}
						if p.Send(um{i, j}) != nil && run.ended() {
							return
						}
					}
				}()
			}
		}
		if method != 4 && method != 5 && r.IntN(4) == 0 {
			holdUpdate = true
			add("update busy")
			if err := send(p, p04busy{}); err != nil {
				bail("Send: %v", err)
			}
			if !floodOn || true {
				fw.Wait(patience, func() bool {
					select {
					case <-s.busy:
						return true
					default:
						return false
					}
				})
			}
		}
		if d := r.IntN(6); d > 0 && r.IntN(3) == 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		if r.IntN(3) == 0 { // it runs already
			again := make(chan error, 1)
			if r.IntN(2) == 0 {
				add("Start again")
				go func() { again <- p.Start() }()
			} else {
				add("Run again")
				go func() { again <- p.Run() }()
			}
			var err error
			if !fw.Wait(patience, func() bool {
				select {
				case err = <-again:
					return true
				default:
					return false
				}
			}) {
				bail("a second start of the running program does not return")
			}
			if err == nil && !run.ended() {
				bail("a second start of the running program succeeded")
			}
			c.Count("second_starts", 1)
		}
		if run.ended() {
			bail("the program ended although nobody asked it to")
		}
		if !p.IsRunning() {
			bail("the program does not report itself as running")
		}
	}
	var stops sync.WaitGroup
	stop := func() {
		stops.Add(1)
		go func() {
			defer stops.Done()
			t0 := time.Now()
			p.Stop()
			if time.Since(t0) < 700*time.Millisecond && p.IsRunning() {
				c.Notef("%s: Stop returned at once although the program is running", desc)
			}
		}()
	}
	quitMsg := func() {
		stops.Add(1)
		go func() {
			defer stops.Done()
			for p.Send(tea.QuitMsg{}) != nil {
				if run.ended() {
					return
				}
			}
		}()
	}
	s.requested.Store(true)
	if method == 4 || method == 5 {
		s.requested.Store(false)
	}
	switch method {
	case 0, 1:
		add("QuitMsg")
		quitMsg()
	case 2, 3:
		add("Stop")
		stop()
	case 4, 5:
		how := r.IntN(4)
		add("quit by command %d", how)
		if err := send(p, p04quit{how}); err != nil && !run.wait() {
			bail("Send: %v", err)
		}
	case 6:
		add("everything at once")
		quitMsg()
		stop()
		stop()
	case 7:
		add("quit from Init")
	}
	if holdUpdate {
		if r.IntN(2) == 0 {
			time.Sleep(time.Duration(r.IntN(4)) * time.Millisecond)
		}
	}
	close(s.hold)
	if !run.wait() {
		close(stopFlood)
		if ch != nil {
			ch.release()
		}
		c.Failf("%s: the program did not end\n%s", desc, fw.Stacks())
	}
	if !s.requested.Load() {
		c.Notef("%s: the program ended before anybody asked it to", desc)
	}
	if run.err != nil || run.panicked != nil {
		c.Notef("%s: Run returned %v, panic %v", desc, run.err, run.panicked)
	}
	if p.IsRunning() {
		c.Notef("%s: the program reports itself as running after its end", desc)
	}
	if s := t.abnormal(); s != "" {
		c.Notef("%s: after the run: %s", desc, s)
	}
	u, v, w, i := updates.Load(), views.Load(), t.writeCount(), inits.Load()
	if p.Send(um{0, 0}) == nil {
		c.Notef("%s: Send succeeded after the end", desc)
	}
	p.Stop()
	close(stopFlood)
	if ch != nil {
		ch.release()
	}
	flood.Wait()
	stops.Wait()
	if ch != nil {
		ch.close()
	}
	// only the user's own commands and its input read may remain
	var left []string
	if !fw.Wait(patience, func() bool { left = leftovers(); return len(left) == 0 }) {
		c.Failf("%s: goroutines survive the run:\n%s", desc, strings.Join(left, "\n\n"))
	}
	for n := r.IntN(20); n > 0; n-- {
		runtime.Gosched()
	}
	if u != updates.Load() || v != views.Load() || w != t.writeCount() || i != inits.Load() {
		c.Failf("%s: after the end: %d updates, %d views, %d writes, %d inits", desc, updates.Load()-u, views.Load()-v, t.writeCount()-w, inits.Load()-i)
	}
	if inits.Load() != i0+1 {
		c.Failf("%s: Init called %d times", desc, inits.Load()-i0)
	}
	c.Count("ends", 1)
	return desc, nBlocked
}
