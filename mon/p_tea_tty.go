package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/vt"
)

// A program on a real (pseudo) terminal that is its controlling terminal. The
// helper process is the session leader; the monitor holds the master side and
// interprets everything the program writes. Marks in the output (OSC 777) tell
// the monitor at which points of the byte stream which modes must hold.

type ttyRun struct {
	mu      sync.Mutex
	vt      *vt.Term
	seenOSC int
	fails   []string
	marks   int
	stages  map[string]int
	raw     strings.Builder
}

func (t *ttyRun) absorb(b []byte) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.raw.Len() < 30000 {
		fmt.Fprintf(&t.raw, "%q\n", b)
	}
	// byte by byte, so that marks are judged at their place in the stream
	for i := range b {
		t.vt.Write(b[i : i+1])
		for t.seenOSC < len(t.vt.OSC) {
			t.mark(t.vt.OSC[t.seenOSC])
			t.seenOSC++
		}
	}
}

func (t *ttyRun) abnormal() string {
	var s []string
	if t.vt.Alt() {
		s = append(s, "on the alternate screen")
	}
	if !t.vt.Modes["25"] {
		s = append(s, "cursor hidden")
	}
	for m, on := range t.vt.Modes {
		if on && m != "25" && m != "7" && m != "1049" {
			s = append(s, "mode "+m+" set")
		}
	}
	return strings.Join(s, ", ")
}

func (t *ttyRun) mark(osc string) {
	f := strings.SplitN(strings.Trim(osc, "]\x07\x1b\\"), ";", 4)
	if len(f) < 2 || f[0] != "777" {
		return
	}
	what := ""
	if len(f) > 2 {
		what = f[2]
	}
	t.marks++
	t.stages[f[1]]++
	switch f[1] {
	case "normal":
		if s := t.abnormal(); s != "" {
			t.fails = append(t.fails, what+": "+s)
		}
	case "altrun":
		if !t.vt.Alt() {
			t.fails = append(t.fails, what+": running with WithAltScreen but not on the alternate screen")
		}
	case "run":
		if t.vt.Alt() {
			t.fails = append(t.fails, what+": on the alternate screen without WithAltScreen")
		}
	case "fail":
		t.fails = append(t.fails, what)
	}
}

// ttyCase runs the helper for one case. typist, if not nil, gets the master.
func ttyCase(c *fw.Ctx, kind string, stimulate func(m *os.File, stage func(string) int)) *ttyRun {
	master, slave, err := openPty(60, 20)
	if err != nil {
		c.Count("no_pty", 1)
		return nil
	}
	tr := &ttyRun{vt: vt.New(60, 20), stages: map[string]int{}}
	exe, _ := os.Executable()
	errR, errW, _ := os.Pipe()
	cmd := exec.Command(exe, "tty", kind, fmt.Sprint(c.R.Uint64()))
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, errW
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if err := cmd.Start(); err != nil {
		c.Failf("cannot start the helper: %v", err)
	}
	slave.Close()
	errW.Close()
	rd := make(chan struct{})
	go func() {
		defer close(rd)
		b := make([]byte, 4096)
		for {
			n, err := master.Read(b)
			tr.absorb(b[:n])
			if err != nil {
				return
			}
		}
	}()
	var errText []byte
	errDone := make(chan struct{})
	go func() { errText, _ = io.ReadAll(io.LimitReader(errR, 1<<20)); close(errDone) }()
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	stage := func(s string) int {
		tr.mu.Lock()
		defer tr.mu.Unlock()
		return tr.stages[s]
	}
	if stimulate != nil {
		stimulate(master, stage)
	}
	var werr error
	got := false
	fw.Wait(patience*2, func() bool {
		select {
		case werr = <-exited:
			got = true
			return true
		default:
			return false
		}
	})
	if !got {
		cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(200 * time.Millisecond)
		cmd.Process.Kill()
		<-exited
	}
	master.Close()
	<-rd
	errR.SetReadDeadline(time.Now().Add(time.Second))
	<-errDone
	errR.Close()
	tr.mu.Lock()
	defer tr.mu.Unlock()
	for _, l := range strings.Split(string(errText), "\n") {
		if l != "" {
			c.Tracef("%s", l)
		}
	}
	if len(tr.fails) > 0 {
		c.Failf("%s\noutput:\n%s", strings.Join(tr.fails, "\n"), tr.raw.String())
	}
	if !got {
		c.Failf("the program on the real terminal does not end (stopped by a signal or stuck)\n%s", errText)
	}
	if werr != nil {
		c.Failf("the program on the real terminal died: %v\n%s", werr, errText)
	}
	c.Count("tty_marks", tr.marks)
	return tr
}

// ---- inside the helper ----------------------------------------------------------

func ttyHelper(kind, seed string) int {
	var s uint64
	fmt.Sscan(seed, &s)
	r := rand.New(rand.NewPCG(s, 77))
	h := &ttyHelp{r: r}
	t0, err := termiosOf(0)
	if err != nil {
		fmt.Fprintln(os.Stderr, "stdin is no terminal:", err)
		return 3
	}
	h.t0 = t0
	switch kind {
	case "modes":
		h.modes()
	}
	h.normal("at exit")
	if h.failed {
		return 0 // told through marks
	}
	return 0
}

type ttyHelp struct {
	r      *rand.Rand
	t0     syscall.Termios
	failed bool
}

func (h *ttyHelp) emit(kind, what string) {
	what = strings.Map(func(r rune) rune {
		if r < 32 || r == ';' {
			return '_'
		}
		return r
	}, what)
	os.Stdout.WriteString("\x1b]777;" + kind + ";" + what + "\x07")
}

func (h *ttyHelp) fail(f string, a ...any) {
	h.failed = true
	h.emit("fail", fmt.Sprintf(f, a...))
}

func (h *ttyHelp) step(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

// normal: the terminal must be as it was found.
func (h *ttyHelp) normal(what string) {
	h.emit("normal", what)
	t, err := termiosOf(0)
	if err != nil {
		h.fail("%s: tcgetattr: %v", what, err)
	} else if t != h.t0 {
		h.fail("%s: the line discipline differs: %+v instead of %+v", what, t, h.t0)
	}
}

func (h *ttyHelp) foregroundIs(pg int, what string) {
	if f := foreground(0); f != pg {
		h.fail("%s: the foreground process group is %d instead of %d", what, f, pg)
	}
}

func (h *ttyHelp) modes() {
	r := h.r
	if r.IntN(3) == 0 { // an unusual but valid starting state
		h.t0.Lflag &^= syscall.ECHO
		h.t0.Cc[syscall.VINTR] = 0x19
		setTermios(0, h.t0)
		h.t0, _ = termiosOf(0)
	}
	alt := r.IntN(2) == 0
	var opts []topt
	if alt {
		opts = append(opts, tea.WithAltScreen[tmodel]())
	}
	var panicNow atomic.Bool
	hooks := &thooks{update: func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		m.ver++
		m.val = fmt.Sprintf("v%d\nsecond", m.ver)
		if panicNow.Load() {
			panic("user panic")
		}
		if u, ok := msg.(um); ok && u.S == 5 {
			return m, tea.Quit()
		}
		return m, nil
	}}
	p := tea.New(tmodel{h: hooks, val: "first"}, opts...)
	own := foreground(0)
	for k := 1 + r.IntN(2); k > 0; k-- {
		panicNow.Store(false)
		endKind := r.IntN(5)
		var run *runner
		h.step("run alt=%v end=%d", alt, endKind)
		if endKind == 2 {
			run, _ = launchStart(p)
		} else {
			run = launch(p)
		}
		isRawNow := func() bool { t, e := termiosOf(0); return e == nil && isRaw(t) }
		if !fw.Wait(patience, isRawNow) {
			h.fail("no raw mode after the start")
		}
		send(p, um{0, 0})
		running := func(what string) {
			if p.IsSuspended() {
				h.normal(what + " (suspended)")
				return
			}
			if !isRawNow() {
				h.fail("%s: running but not in raw mode", what)
			}
		}
		for n := r.IntN(6); n > 0; n-- {
			switch k := r.IntN(8); k {
			case 0, 1:
				h.step("suspend")
				if err := p.Suspend(); err != nil {
					h.fail("Suspend: %v", err)
				}
				h.normal("suspended")
			case 2, 3:
				h.step("resume")
				if err := p.Resume(); err != nil {
					h.fail("Resume: %v", err)
				}
				running("resumed")
			case 4, 5, 6:
				exit := r.IntN(2)
				ch := newChild(exit)
				o := tea.TTYOptions{TransferForeground: r.IntN(2) == 0, CreateProcessGroup: r.IntN(2) == 0}
				withTTY := r.IntN(3) != 0
				h.step("exec exit=%d tty=%v %+v", exit, withTTY, o)
				var err error
				fin := make(chan struct{})
				go func() {
					defer close(fin)
					if withTTY {
						err = p.ExecProcessWithTTY(ch.cmd, o)
					} else {
						err = p.ExecProcess(ch.cmd)
					}
				}()
				badTransfer := withTTY && o.TransferForeground && !o.CreateProcessGroup
				select {
				case ok := <-ch.up:
					if ok && !badTransfer {
						h.normal("external command running")
						if withTTY && o.TransferForeground {
							pid := ch.pid
							if !fw.Wait(patience, func() bool { return foreground(0) == pid }) {
								h.foregroundIs(pid, "external command running")
							}
						} else {
							h.foregroundIs(own, "external command running")
						}
					}
				case <-fin:
				}
				ch.release()
				select {
				case <-fin:
				case <-time.After(20 * time.Second):
					h.fail("ExecProcess did not return")
				}
				ch.close()
				h.foregroundIs(own, "after the external command")
				if !badTransfer && (err != nil) != (exit != 0) {
					h.fail("command that exits %d: %v", exit, err)
				}
				if p.IsSuspended() {
					h.fail("still suspended after the external command")
				}
				running("after the external command")
			case 7:
				h.step("nonexistent")
				var err error
				if r.IntN(2) == 0 {
					err = p.ExecProcessWithTTY(exec.Command("/nonexistent/prog"), tea.TTYOptions{TransferForeground: true, CreateProcessGroup: true})
				} else {
					err = p.ExecProcess(exec.Command("/nonexistent/prog"))
				}
				if err == nil {
					h.fail("running a nonexistent command succeeded")
				}
				h.foregroundIs(own, "after a command that cannot be started")
				if p.IsSuspended() {
					h.fail("still suspended after a command that cannot be started")
				}
				running("after a command that cannot be started")
			}
		}
		switch endKind {
		case 0:
			send(p, tea.QuitMsg{})
		case 1:
			send(p, um{5, 0})
		case 2, 3:
			p.Stop()
		case 4:
			panicNow.Store(true)
			send(p, um{6, 0})
		}
		if !run.wait() {
			h.fail("the program did not end")
			return
		}
		h.normal("after the run")
		h.foregroundIs(own, "after the run")
	}
}

var errTTY = errors.New("tty")
