package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/phoenix-tui/phoenix/tea"
	"github.com/phoenix-tui/phoenix/terminal"
	ptest "github.com/phoenix-tui/phoenix/testing"

	"phoenixverif/fw"
	"phoenixverif/vt"
)

// ---- the watched terminal ---------------------------------------------------

// hterm is the terminal of a monitored program: it implements the repository's
// Terminal interface with the contract of the real one (unpaired changes are
// errors) and is also the output the program writes to. Everything lands in a
// conforming emulator.
type hterm struct {
	terminal.Terminal // the operations the program does not use
	mu                sync.Mutex
	vt                *vt.Term
	raw               bool
	rawOK, altOK      bool
	fail              map[string]int
	log               []string
	bad               []string
	enters, exits     map[string]int
	writes            int // output chunks
	bytes             int
	prints            int // printable cells written by chunks
	silentFrom        int
	gate              chan struct{} // output blocks on it if not nil
	outErr            error
	raw8              strings.Builder // bytes written, for diagnosis
	Errs              int
	ignoreOut         bool
	drop, dropped     bool // the next chunk fails / has failed
}

func newHterm(w, h int) *hterm {
	t := &hterm{Terminal: ptest.NewNullTerminal(), vt: vt.New(w, h), rawOK: true, altOK: true,
		fail: map[string]int{}, enters: map[string]int{}, exits: map[string]int{}}
	return t
}

func (t *hterm) ev(f string, a ...any) {
	if len(t.log) < 3000 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}

func (t *hterm) faulted(op string) bool {
	if n := t.fail[op]; n > 0 {
		t.fail[op] = n - 1
		if n == 1 {
			t.Errs++
			t.ev("%s FAULT", op)
			return true
		}
	}
	return false
}

func (t *hterm) EnterRawMode() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.raw {
		t.bad = append(t.bad, "raw mode entered twice in a row")
		return errors.New("terminal: already in raw mode")
	}
	if !t.rawOK || t.faulted("enterRaw") {
		return errors.New("failed to enter raw mode: inappropriate ioctl for device")
	}
	t.raw = true
	t.enters["raw"]++
	t.ev("+raw")
	return nil
}

func (t *hterm) ExitRawMode() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	if !t.raw {
		t.ev("exit raw when not in it")
		return errors.New("terminal: not in raw mode")
	}
	if t.faulted("exitRaw") {
		return errors.New("failed to exit raw mode")
	}
	t.raw = false
	t.exits["raw"]++
	t.ev("-raw")
	return nil
}

func (t *hterm) IsInRawMode() bool { t.mu.Lock(); defer t.mu.Unlock(); return t.raw }

func (t *hterm) EnterAltScreen() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.vt.Alt() {
		t.bad = append(t.bad, "alternate screen entered twice in a row")
		return errors.New("terminal: already in alternate screen buffer")
	}
	if !t.altOK || t.faulted("enterAlt") {
		return errors.New("failed to enter alternate screen buffer")
	}
	t.vt.Write([]byte("\x1b[?1049h"))
	t.enters["alt"]++
	t.ev("+alt")
	return nil
}

func (t *hterm) ExitAltScreen() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	if !t.vt.Alt() {
		t.ev("exit alt when not in it")
		return errors.New("terminal: not in alternate screen buffer")
	}
	if t.faulted("exitAlt") {
		return errors.New("failed to exit alternate screen buffer")
	}
	t.vt.Write([]byte("\x1b[?1049l"))
	t.exits["alt"]++
	t.ev("-alt")
	return nil
}

func (t *hterm) IsInAltScreen() bool { t.mu.Lock(); defer t.mu.Unlock(); return t.vt.Alt() }

func (t *hterm) HideCursor() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.vt.Write([]byte("\x1b[?25l"))
	t.ev("hide cursor")
	return nil
}

func (t *hterm) ShowCursor() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.vt.Write([]byte("\x1b[?25h"))
	t.ev("show cursor")
	return nil
}

// Write through the Terminal interface (the program does not use it today).
func (t *hterm) WriteString(s string) error { _, err := t.out().Write([]byte(s)); return err }

type houtput struct{ t *hterm }

func (t *hterm) out() io.Writer { return houtput{t} }

func (o houtput) Write(p []byte) (int, error) {
	t := o.t
	t.mu.Lock()
	g := t.gate
	t.mu.Unlock()
	if g != nil {
		<-g
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.drop {
		t.drop, t.dropped = false, true
		fmt.Fprintf(&t.raw8, "FAILED %q\n", p)
		return 0, errors.New("resource temporarily unavailable")
	}
	t.writes++
	t.bytes += len(p)
	if t.raw8.Len() < 20000 {
		fmt.Fprintf(&t.raw8, "%q\n", p)
	}
	before := t.vt.Printed
	if !t.ignoreOut {
		t.vt.Write(p)
	}
	t.prints += t.vt.Printed - before
	return len(p), nil
}

// external writes what somebody else (a child, the shell) prints.
func (t *hterm) external(s string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.vt.Write([]byte(s))
}

// abnormal describes what is not as in a fresh terminal, or "".
func (t *hterm) abnormal() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	var s []string
	if t.raw {
		s = append(s, "raw mode on")
	}
	if t.vt.Alt() {
		s = append(s, "on the alternate screen")
	}
	if !t.vt.Modes["25"] {
		s = append(s, "cursor hidden")
	}
	for _, m := range []string{"9", "1000", "1001", "1002", "1003", "1004", "1005", "1006", "1015", "1016", "2004", "1", "47", "1047"} {
		if t.vt.Modes[m] {
			s = append(s, "mode "+m+" set")
		}
	}
	return strings.Join(s, ", ")
}

func (t *hterm) setFail(op string, n int) {
	t.mu.Lock()
	t.fail[op] = n
	t.mu.Unlock()
}

func (t *hterm) clearFaults() {
	t.mu.Lock()
	t.fail = map[string]int{}
	t.mu.Unlock()
}

func (t *hterm) writeCount() int { t.mu.Lock(); defer t.mu.Unlock(); return t.writes }

func (t *hterm) logText() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return strings.Join(t.log, ", ")
}

func (t *hterm) rawText() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.raw8.String()
}

// ---- input ------------------------------------------------------------------

// feed is an input stream that is not a file: reads block until data is fed.
type feed struct {
	mu      sync.Mutex
	ch      chan []byte
	rest    []byte
	readers atomic.Int32 // concurrent Read calls
	maxR    atomic.Int32
	reads   atomic.Int32
	once    sync.Once
}

func newFeed() *feed { return &feed{ch: make(chan []byte, 4096)} }

func (f *feed) push(b string) { f.ch <- []byte(b) }
func (f *feed) end()          { f.once.Do(func() { close(f.ch) }) }

// Read blocks until something was fed.
func (f *feed) Read(p []byte) (int, error) {
	n := f.readers.Add(1)
	defer f.readers.Add(-1)
	for {
		m := f.maxR.Load()
		if n <= m || f.maxR.CompareAndSwap(m, n) {
			break
		}
	}
	f.reads.Add(1)
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.rest) == 0 {
		b, ok := f.blockedFeedRead()
		if !ok {
			return 0, io.EOF
		}
		f.rest = b
	}
	k := copy(p, f.rest)
	f.rest = f.rest[k:]
	return k, nil
}

//go:noinline
func (f *feed) blockedFeedRead() ([]byte, bool) { b, ok := <-f.ch; return b, ok }

// ---- the watched model --------------------------------------------------------

// tmodel is a value model; ver counts the updates it has been through.
type tmodel struct {
	h   *thooks
	ver int
	val string
}

type thooks struct {
	init   func() tea.Cmd
	update func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd)
	view   func(m tmodel) string
}

func (m tmodel) Init() tea.Cmd {
	if m.h.init == nil {
		return nil
	}
	return m.h.init()
}

func (m tmodel) Update(msg tea.Msg) (tmodel, tea.Cmd) {
	if m.h.update == nil {
		return m, nil
	}
	return m.h.update(m, msg)
}

func (m tmodel) View() string {
	if m.h.view == nil {
		return m.val
	}
	return m.h.view(m)
}

type tprog = tea.Program[tmodel]
type topt = tea.Option[tmodel]

// um is a user message: sender and sequence number.
type um struct{ S, N int }

const patience = 15000 // ticks (~1 ms each) before something that must happen is called missing

// teaSetup gives children of the worker harmless standard streams.
func teaSetup() {
	if f, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdin = f
		os.Stdout = f
		os.Stderr = f
	}
}

// progGoroutines lists goroutines that run code of the program package.
func progGoroutines() []string {
	var out []string
	for _, g := range strings.Split(fw.Stacks(), "\n\n") {
		if strings.Contains(g, "phoenix/tea") {
			out = append(out, g)
		}
	}
	return out
}

// leftovers are program goroutines that are neither user commands nor a read
// of the user's input stream.
func leftovers() []string {
	var out []string
	for _, g := range progGoroutines() {
		// frames of the harness that the program legitimately runs
		if strings.Contains(g, "userCommand") || strings.Contains(g, "blockedFeedRead") || strings.Contains(g, "tea.Batch.func") || strings.Contains(g, "tea.Sequence.func") {
			continue
		}
		out = append(out, g)
	}
	return out
}

// userCommand marks a command body in stack traces.
//
//go:noinline
func userCommand(f func() tea.Msg) tea.Msg { m := f(); return m }

// runner runs one program run in the background.
type runner struct {
	p        *tprog
	done     chan struct{}
	err      error
	panicked any
}

func (r *runner) ended() bool {
	select {
	case <-r.done:
		return true
	default:
		return false
	}
}

func (r *runner) wait() bool { return fw.Wait(patience, r.ended) }

// launch uses Run in a goroutine.
func launch(p *tprog) *runner {
	r := &runner{p: p, done: make(chan struct{})}
	go func() {
		defer close(r.done)
		defer func() { r.panicked = recover() }()
		r.err = p.Run()
	}()
	return r
}

// started polls IsRunning; used with Start, whose end is observed the same way.
func launchStart(p *tprog) (*runner, error) {
	r := &runner{p: p, done: make(chan struct{})}
	if err := p.Start(); err != nil {
		return nil, err
	}
	go func() {
		defer close(r.done)
		for p.IsRunning() {
			if !fw.Wait(50, func() bool { return !p.IsRunning() }) {
				continue
			}
		}
	}()
	return r, nil
}

// send retries sends that time out.
func send(p *tprog, m tea.Msg) error {
	var err error
	for i := 0; i < 100; i++ {
		if err = p.Send(m); err == nil || !strings.Contains(err.Error(), "timeout") {
			return err
		}
	}
	return err
}
