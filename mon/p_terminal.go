package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"slices"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"phoenixverif/fw"
	"phoenixverif/vt"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/terminal"
	ptesting "github.com/phoenix-tui/phoenix/testing"
)

func init() {
	fw.Register(&fw.Prop{ID: "P32", Quick: 45000, Thorough: 700000, Case: p32,
		Rule:   "random histories of all 30 terminal operations with coordinates and counts from hostile sets, written to a file interpreted by a terminal emulator after every operation and compared cell by cell with a model that executes the operation directly; faults (full device) inserted under the running terminal; raw mode on a pseudo terminal with random line disciplines, foreign changes and a line that hangs up or stops being a terminal",
		Assume: []string{"the emulator conforms to xterm for the sequences used", "ClearLine leaves the cursor in column 0 and ClearLines clears upwards from the cursor row to the end of the screen, as the test suite pins"},
		Need:   map[string]int64{"op": 300000, "op refused": 20000, "op failed": 20000, "alt entered": 10000, "raw entered": 4000, "raw restored": 3000, "raw exit failed": 200, "size": 5000}})
	fw.Register(&fw.Prop{ID: "P33", Race: true, Quick: 12000, Thorough: 200000, Case: p33,
		Rule:   "the same random operation histories on the mock, the null and the real terminal side by side; the mock's record compared with the list of calls made; concurrent callers on the mock, the null and the mode operations of the real terminal under the race detector, with conservation of successful enters and exits",
		Assume: []string{"the mock answers queries with its documented constants; only mode state and mode errors follow the real terminal"},
		Need:   map[string]int64{"op": 30000, "mode compared": 30000, "concurrent call": 100000, "concurrent enter": 3000}})
}

// coordinates and counts.
var termNums = []int{0, 1, 2, 3, 5, 7, 9, 10, 19, 20, 79, 80, 81, 255, 256, 999, 1000, 9999, 32767, 32768, 65535, 65536, 1 << 20, math.MaxInt32, math.MaxInt64, -1, -2, -10, math.MinInt32, math.MinInt64}

func termNum(r *rand.Rand) int {
	if r.IntN(3) > 0 {
		return r.IntN(12)
	}
	return termNums[r.IntN(len(termNums))]
}

func termText(r *rand.Rand) string {
	switch r.IntN(8) {
	case 0:
		return ""
	case 1:
		return "100%d %s %!v"
	case 2:
		return strings.Repeat("wrap ", r.IntN(9))
	}
	var b strings.Builder
	for n := r.IntN(8); n >= 0; n-- {
		b.WriteString([]string{"a", "b", "Z", " ", "\n", "\r\n", "é", "日", "😀", "e\u0301", "word", "%", "\\", "\t"}[r.IntN(14)])
	}
	return b.String()
}

// termOp is one operation: what to call, and what it does to the model.
// do returns false if the operation has to be refused without an effect.
type termOp struct {
	name   string // as the mock records it
	call   func(t terminal.Terminal) error
	do     func(m *vt.Term) bool
	silent bool // needs no output
}

func clampAdd(v, n, hi int) int {
	if n > hi {
		n = hi
	}
	return min(hi, v+n)
}

func rel(name string, n int, call func(terminal.Terminal) error, dx, dy int) termOp {
	return termOp{name: fmt.Sprintf("%s(%d)", name, n), call: call, silent: n <= 0, do: func(m *vt.Term) bool {
		if n > 0 {
			k := min(n, 1<<20)
			x, y := m.Cursor()
			m.SetCursor(min(m.W-1, max(0, x+dx*k)), min(m.H-1, max(0, y+dy*k)))
		}
		return true
	}}
}

func termSet(m *vt.Term, x, y int) bool {
	if x < 0 || y < 0 {
		return false
	}
	m.SetCursor(min(x, m.W-1), min(y, m.H-1))
	return true
}

func genTermOp(r *rand.Rand) termOp {
	n, x, y, s := termNum(r), termNum(r), termNum(r), termText(r)
	switch r.IntN(24) {
	case 0, 1, 2:
		return termOp{name: fmt.Sprintf("SetCursorPosition(%d, %d)", x, y), call: func(t terminal.Terminal) error { return t.SetCursorPosition(x, y) },
			do: func(m *vt.Term) bool { return termSet(m, x, y) }}
	case 3:
		return rel("MoveCursorUp", n, func(t terminal.Terminal) error { return t.MoveCursorUp(n) }, 0, -1)
	case 4:
		return rel("MoveCursorDown", n, func(t terminal.Terminal) error { return t.MoveCursorDown(n) }, 0, 1)
	case 5:
		return rel("MoveCursorLeft", n, func(t terminal.Terminal) error { return t.MoveCursorLeft(n) }, -1, 0)
	case 6:
		return rel("MoveCursorRight", n, func(t terminal.Terminal) error { return t.MoveCursorRight(n) }, 1, 0)
	case 7:
		return termOp{name: "SaveCursorPosition", call: terminal.Terminal.SaveCursorPosition, do: func(m *vt.Term) bool { m.Mark(); return true }}
	case 8:
		return termOp{name: "RestoreCursorPosition", call: terminal.Terminal.RestoreCursorPosition, do: func(m *vt.Term) bool { m.Recall(); return true }}
	case 9:
		return termOp{name: "HideCursor", call: terminal.Terminal.HideCursor, do: func(m *vt.Term) bool { m.SetMode("25", false); return true }}
	case 10:
		return termOp{name: "ShowCursor", call: terminal.Terminal.ShowCursor, do: func(m *vt.Term) bool { m.SetMode("25", true); return true }}
	case 11:
		st := terminal.CursorStyle(r.IntN(3))
		if r.IntN(4) == 0 {
			st = terminal.CursorStyle(termNum(r))
		}
		return termOp{name: fmt.Sprintf("SetCursorStyle(%s)", st), call: func(t terminal.Terminal) error { return t.SetCursorStyle(st) },
			do: func(m *vt.Term) bool {
				switch st {
				case terminal.CursorBlock:
					m.CursorStyle = "block"
				case terminal.CursorUnderline:
					m.CursorStyle = "underline"
				case terminal.CursorBar:
					m.CursorStyle = "bar"
				default:
					return false
				}
				return true
			}}
	case 12:
		return termOp{name: "Clear", call: terminal.Terminal.Clear, do: func(m *vt.Term) bool {
			for y := range m.H {
				m.EraseRow(0, y, m.W)
			}
			m.SetCursor(0, 0)
			return true
		}}
	case 13:
		return termOp{name: "ClearLine", call: terminal.Terminal.ClearLine, do: func(m *vt.Term) bool {
			_, y := m.Cursor()
			m.EraseRow(0, y, m.W)
			m.SetCursor(0, y)
			return true
		}}
	case 14:
		return termOp{name: "ClearFromCursor", call: terminal.Terminal.ClearFromCursor, do: func(m *vt.Term) bool {
			x, y := m.Cursor()
			m.EraseRow(x, y, m.W)
			for y++; y < m.H; y++ {
				m.EraseRow(0, y, m.W)
			}
			return true
		}}
	case 15:
		return termOp{name: fmt.Sprintf("ClearLines(%d)", n), call: func(t terminal.Terminal) error { return t.ClearLines(n) }, silent: n <= 0,
			do: func(m *vt.Term) bool {
				if n <= 0 {
					return true
				}
				_, y := m.Cursor()
				y = max(0, y-min(n-1, m.H))
				m.SetCursor(0, y)
				for ; y < m.H; y++ {
					m.EraseRow(0, y, m.W)
				}
				return true
			}}
	case 16, 17, 18:
		return termOp{name: fmt.Sprintf("Write(%q)", s), call: func(t terminal.Terminal) error { return t.Write(s) }, silent: s == "",
			do: func(m *vt.Term) bool { m.Write([]byte(s)); return true }}
	case 19, 20, 21:
		return termOp{name: fmt.Sprintf("WriteAt(%d, %d, %q)", x, y, s), call: func(t terminal.Terminal) error { return t.WriteAt(x, y, s) },
			do: func(m *vt.Term) bool {
				if !termSet(m, x, y) {
					return false
				}
				m.Write([]byte(s))
				return true
			}}
	case 22:
		return termOp{name: "EnterAltScreen", call: terminal.Terminal.EnterAltScreen, do: func(m *vt.Term) bool {
			if m.Alt() {
				return false
			}
			m.SetMode("1049", true)
			return true
		}}
	}
	return termOp{name: "ExitAltScreen", call: terminal.Terminal.ExitAltScreen, do: func(m *vt.Term) bool {
		if !m.Alt() {
			return false
		}
		m.SetMode("1049", false)
		return true
	}}
}

func cursorShape(s string) string {
	switch s {
	case "0", "1", "2":
		return "block"
	case "3", "4":
		return "underline"
	case "5", "6":
		return "bar"
	}
	return s
}

// termWith builds a terminal on the given files.
func termWith(r *rand.Rand, out, in *os.File) terminal.Terminal {
	so, si := os.Stdout, os.Stdin
	os.Stdout, os.Stdin = out, in
	defer func() { os.Stdout, os.Stdin = so, si }()
	return []func() terminal.Terminal{terminal.New, terminal.NewANSI, phoenix.NewPlatformTerminal, phoenix.NewANSITerminal}[r.IntN(4)]()
}

// outFile is a file whose new contents can be taken, and that can be made to
// refuse writes under a terminal that has it open.
type outFile struct {
	f, keep, full *os.File
	off           int64
	buf           []byte
}

func newOut() *outFile {
	f, err := os.CreateTemp(os.Getenv("MON_WORK"), "out")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	o := &outFile{f: f, buf: make([]byte, 1<<16)}
	fd, err := syscall.Dup(int(f.Fd()))
	if err != nil {
		panic(err)
	}
	o.keep = os.NewFile(uintptr(fd), "keep")
	if o.full, err = os.OpenFile("/dev/full", os.O_RDWR, 0); err != nil {
		panic(err)
	}
	return o
}

func (o *outFile) take() []byte {
	n, _ := o.keep.ReadAt(o.buf, o.off)
	o.off += int64(n)
	return o.buf[:n]
}

func (o *outFile) fail(on bool) {
	src := o.keep
	if on {
		src = o.full
	}
	if err := syscall.Dup3(int(src.Fd()), int(o.f.Fd()), syscall.O_CLOEXEC); err != nil {
		panic(err)
	}
}

func (o *outFile) close() { o.f.Close(); o.keep.Close(); o.full.Close() }

func sameScreens(c *fw.Ctx, when string, got, want *vt.Term) {
	gx, gy := got.Cursor()
	wx, wy := want.Cursor()
	if gx != wx || gy != wy || got.PendingWrap() != want.PendingWrap() {
		c.Failf("%s: the cursor is at (%d,%d) wrap=%v, it must be at (%d,%d) wrap=%v", when, gx, gy, got.PendingWrap(), wx, wy, want.PendingWrap())
	}
	if got.Alt() != want.Alt() || got.Modes["25"] != want.Modes["25"] || cursorShape(got.CursorStyle) != want.CursorStyle {
		c.Failf("%s: alternate screen %v cursor visible %v shape %q, must be %v %v %q", when, got.Alt(), got.Modes["25"], got.CursorStyle, want.Alt(), want.Modes["25"], want.CursorStyle)
	}
	if got.ModesOn() != want.ModesOn() {
		c.Failf("%s: terminal modes %s, must be %s", when, got.ModesOn(), want.ModesOn())
	}
	if len(got.Unknown) > 0 || len(got.OSC) > 0 || got.Pending() != "" {
		c.Failf("%s: wrote something a terminal does not understand: %q %q %q", when, got.Unknown, got.OSC, got.Pending())
	}
	if got.A != want.A {
		c.Failf("%s: rendition is %v, must be %v", when, got.A, want.A)
	}
	if got.Scrolled != want.Scrolled {
		c.Failf("%s: scrolled %d lines, must be %d", when, got.Scrolled, want.Scrolled)
	}
	for y := range got.H {
		for x := range got.W {
			if g, w := got.CellAt(x, y), want.CellAt(x, y); g != w {
				c.Failf("%s: cell (%d,%d) is %+v, must be %+v\n%s\n-- must be\n%s", when, x, y, g, w, got.Dump(), want.Dump())
			}
		}
	}
}

func p32(c *fw.Ctx) {
	switch c.R.IntN(10) {
	case 0, 1:
		p32raw(c)
	case 2:
		p32info(c)
	default:
		p32ops(c)
	}
}

func p32ops(c *fw.Ctx) {
	r := c.R
	o := newOut()
	defer o.close()
	null, _ := os.Open("/dev/null")
	defer null.Close()
	t := termWith(r, o.f, null)
	w, h := 1+r.IntN(20), 1+r.IntN(10)
	if r.IntN(4) == 0 {
		w, h = 80, 24
	}
	got, want := vt.New(w, h), vt.New(w, h)
	want.CursorStyle = ""
	// something on the screen first
	for range r.IntN(3) {
		s := fmt.Sprintf("\x1b[3%dmold %d\x1b[0m\r\n日本", r.IntN(8), r.IntN(100))
		got.Write([]byte(s))
		want.Write([]byte(s))
	}
	failing := false
	for i, n := 0, 5+r.IntN(40); i < n; i++ {
		if r.IntN(12) == 0 {
			failing = !failing
			o.fail(failing)
			c.Tracef("output failing: %v", failing)
		}
		op := genTermOp(r)
		c.Tracef("%s", op.name)
		c.Count("op", 1)
		// what should happen
		refused := false
		if failing {
			probe := vt.New(w, h)
			if want.Alt() {
				probe.SetMode("1049", true)
			}
			refused = !op.do(probe)
		} else {
			refused = !op.do(want)
		}
		err := op.call(t)
		out := o.take()
		got.Write(out)
		when := op.name
		switch {
		case refused:
			c.Count("op refused", 1)
			if err == nil {
				c.Failf("%s cannot be done and reports no error", when)
			}
			if len(out) > 0 {
				c.Failf("%s was refused (%v) but wrote %q", when, err, out)
			}
		case failing && op.silent:
			if err != nil && !strings.HasPrefix(op.name, "Write(") {
				c.Failf("%s has nothing to do and reports %v", when, err)
			}
		case failing:
			c.Count("op failed", 1)
			if err == nil {
				c.Failf("%s could not be written and reports no error", when)
			}
		case err != nil:
			c.Failf("%s reports %v", when, err)
		case op.silent && len(out) > 0:
			c.Failf("%s has nothing to do and wrote %q", when, out)
		}
		if op.name == "EnterAltScreen" && !refused && !failing {
			c.Count("alt entered", 1)
		}
		sameScreens(c, fmt.Sprintf("after %s", when), got, want)
		if t.IsInAltScreen() != want.Alt() {
			c.Failf("after %s: IsInAltScreen is %v, the terminal shows %v", when, t.IsInAltScreen(), want.Alt())
		}
		if t.IsInRawMode() {
			c.Failf("after %s: raw mode reported", when)
		}
		if x, y := want.Cursor(); i%8 == 0 {
			c.Seen(w, h, x, y, want.Alt(), op.name[:min(6, len(op.name))])
		}
		// operations a terminal of this kind cannot do
		if r.IntN(6) == 0 {
			if _, _, err := t.GetCursorPosition(); (err == nil) != t.SupportsReadback() {
				c.Failf("GetCursorPosition reports %v, SupportsReadback %v", err, t.SupportsReadback())
			}
			if b, err := t.ReadScreenBuffer(); (err == nil) != t.SupportsReadback() || (err != nil && b != nil) {
				c.Failf("ReadScreenBuffer gives %v, %v, SupportsReadback %v", b, err, t.SupportsReadback())
			}
			if e := t.EnterRawMode(); e == nil || t.IsInRawMode() {
				c.Failf("raw mode entered on an input that is no terminal: %v", e)
			}
			if e := t.ExitRawMode(); e == nil || t.IsInRawMode() {
				c.Failf("raw mode left without having been entered: %v", e)
			}
			if b := o.take(); len(b) > 0 {
				c.Failf("a query wrote %q", b)
			}
		}
	}
	c.Sample(fmt.Sprintf("%dx%d, %d operations, alt %v", w, h, got.MovesEsc, got.Alt()))
}

func p32info(c *fw.Ctx) {
	r := c.R
	// colours
	vals := []string{"", "truecolor", "24bit", "TRUECOLOR", "yes", "256color", "xterm", "xterm-256color", "screen-256color", "tmux-256color", "dumb", "linux", "vt100", "xterm-direct", "16color"}
	old := [2]string{os.Getenv("COLORTERM"), os.Getenv("TERM")}
	defer func() { os.Setenv("COLORTERM", old[0]); os.Setenv("TERM", old[1]) }()
	null, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	defer null.Close()
	t := termWith(r, null, null)
	for range 4 {
		ct, tm := vals[r.IntN(len(vals))], vals[r.IntN(len(vals))]
		os.Setenv("COLORTERM", ct)
		os.Setenv("TERM", tm)
		want := 16
		if ct == "truecolor" || ct == "24bit" {
			want = 1 << 24
		} else if strings.Contains(tm, "256color") {
			want = 256
		}
		if ct != "TRUECOLOR" && tm != "xterm-direct" {
			if d := t.ColorDepth(); d != want {
				c.Failf("COLORTERM=%q TERM=%q: ColorDepth %d, must be %d", ct, tm, d, want)
			}
		}
		if t.SupportsTrueColor() != (t.ColorDepth() >= 1<<24) {
			c.Failf("COLORTERM=%q TERM=%q: SupportsTrueColor %v with ColorDepth %d", ct, tm, t.SupportsTrueColor(), t.ColorDepth())
		}
		c.Seen("env", ct, tm)
	}
	if t.Platform() != terminal.PlatformUnix || terminal.DetectPlatform() != terminal.PlatformUnix {
		c.Failf("platform %v, detected %v", t.Platform(), terminal.DetectPlatform())
	}
	if t.SupportsDirectPositioning() {
		c.Failf("direct positioning reported on an escape-sequence terminal")
	}
	// size
	if w, h, err := t.Size(); w != 80 || h != 24 || err == nil {
		c.Failf("no terminal: Size gives %d,%d,%v", w, h, err)
	}
	w, h := 1+r.IntN(300), 1+r.IntN(300)
	m, s, err := openPty(w, h)
	if err != nil {
		panic(err)
	}
	defer m.Close()
	defer s.Close()
	t = termWith(r, s, null)
	for range 3 {
		gw, gh, err := t.Size()
		if gw != w || gh != h || err != nil {
			c.Failf("the terminal is %dx%d: Size gives %d,%d,%v", w, h, gw, gh, err)
		}
		c.Count("size", 1)
		w, h = 1+r.IntN(300), 1+r.IntN(300)
		setWinsize(m.Fd(), w, h)
	}
}

func setWinsize(fd uintptr, w, h int) {
	ws := [4]uint16{uint16(h), uint16(w), 0, 0}
	ioctl(fd, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

// randomTermios flips settings a user may have made with stty.
func randomTermios(r *rand.Rand, fd uintptr) syscall.Termios {
	t, err := termiosOf(fd)
	if err != nil {
		panic(err)
	}
	for _, f := range []uint32{syscall.ICRNL, syscall.INLCR, syscall.IGNCR, syscall.IXON, syscall.IXANY, syscall.ISTRIP, syscall.BRKINT, syscall.PARMRK} {
		if r.IntN(3) == 0 {
			t.Iflag ^= f
		}
	}
	for _, f := range []uint32{syscall.OPOST, syscall.ONLCR, syscall.OCRNL} {
		if r.IntN(3) == 0 {
			t.Oflag ^= f
		}
	}
	for _, f := range []uint32{syscall.ECHO, syscall.ICANON, syscall.ISIG, syscall.IEXTEN, syscall.ECHOE, syscall.ECHOK, syscall.ECHONL, syscall.TOSTOP, syscall.NOFLSH} {
		if r.IntN(4) == 0 {
			t.Lflag ^= f
		}
	}
	if r.IntN(3) == 0 {
		t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = uint8(r.IntN(4)), uint8(r.IntN(4))
	}
	if r.IntN(3) == 0 {
		t.Cc[syscall.VINTR], t.Cc[syscall.VERASE] = uint8(r.IntN(30)), uint8(8)
	}
	if err := setTermios(fd, t); err != nil {
		panic(err)
	}
	t, _ = termiosOf(fd)
	return t
}

func rawNow(t syscall.Termios) string {
	switch {
	case t.Lflag&syscall.ICANON != 0:
		return "input is still line buffered"
	case t.Lflag&syscall.ECHO != 0:
		return "input is still echoed"
	case t.Lflag&syscall.ISIG != 0:
		return "Ctrl+C still makes a signal"
	case t.Lflag&syscall.IEXTEN != 0:
		return "Ctrl+V is still special"
	case t.Iflag&(syscall.ICRNL|syscall.INLCR|syscall.IGNCR|syscall.ISTRIP|syscall.IXON) != 0:
		return "input bytes are still changed or taken"
	case t.Cc[syscall.VMIN] != 1 || t.Cc[syscall.VTIME] != 0:
		return "a read does not wait for exactly one byte"
	}
	return ""
}

func p32raw(c *fw.Ctx) {
	r := c.R
	m, s, err := openPty(80, 24)
	if err != nil {
		panic(err)
	}
	defer m.Close()
	defer s.Close()
	fd, err := syscall.Dup(int(s.Fd()))
	if err != nil {
		panic(err)
	}
	in := os.NewFile(uintptr(fd), "stdin")
	defer in.Close()
	null, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	defer null.Close()
	o := newOut()
	defer o.close()
	t := termWith(r, o.f, in)
	now := randomTermios(r, s.Fd())
	var saved syscall.Termios
	raw, cut := false, false
	for i, n := 0, 3+r.IntN(20); i < n; i++ {
		switch r.IntN(8) {
		case 0, 1, 2:
			c.Tracef("EnterRawMode (raw %v, cut %v)", raw, cut)
			err := t.EnterRawMode()
			if (err == nil) != (!raw && !cut) {
				c.Failf("EnterRawMode: %v; in raw mode %v, input is a terminal %v", err, raw, !cut)
			}
			if err == nil {
				c.Count("raw entered", 1)
				raw, saved = true, now
				now, _ = termiosOf(s.Fd())
				if bad := rawNow(now); bad != "" {
					c.Failf("after EnterRawMode %s", bad)
				}
			}
		case 3, 4, 5:
			c.Tracef("ExitRawMode (raw %v, cut %v)", raw, cut)
			err := t.ExitRawMode()
			if (err == nil) != (raw && !cut) {
				c.Failf("ExitRawMode: %v; in raw mode %v, input is a terminal %v", err, raw, !cut)
			}
			if err == nil {
				c.Count("raw restored", 1)
				raw, now = false, saved
			} else if raw {
				c.Count("raw exit failed", 1)
			}
		case 6:
			// someone else changes the line, as an external program does
			if r.IntN(2) == 0 {
				c.Tracef("the line discipline is changed by someone else")
				now = randomTermios(r, s.Fd())
			} else {
				op := genTermOp(r)
				c.Tracef("%s", op.name)
				op.call(t)
			}
		case 7:
			cut = !cut
			c.Tracef("input is a terminal: %v", !cut)
			src := s
			if cut {
				src = null
			}
			if err := syscall.Dup3(int(src.Fd()), fd, syscall.O_CLOEXEC); err != nil {
				panic(err)
			}
		}
		if t.IsInRawMode() != raw {
			c.Failf("IsInRawMode is %v, must be %v", t.IsInRawMode(), raw)
		}
		if got, _ := termiosOf(s.Fd()); got != now {
			c.Failf("the line discipline is\n%+v, must be\n%+v", got, now)
		}
		c.Seen("raw", raw, cut, saved.Lflag, saved.Iflag)
	}
}

// ---- P33

// query operations and the constants the mock and the null terminal document.
func p33query(r *rand.Rand) (string, func(t terminal.Terminal) string, string) {
	switch r.IntN(9) {
	case 0:
		return "GetCursorPosition", func(t terminal.Terminal) string { x, y, e := t.GetCursorPosition(); return fmt.Sprint(x, y, e) }, "0 0 <nil>"
	case 1:
		return "ReadScreenBuffer", func(t terminal.Terminal) string { b, e := t.ReadScreenBuffer(); return fmt.Sprint(len(b), e) }, "0 <nil>"
	case 2:
		return "Size", func(t terminal.Terminal) string { w, h, e := t.Size(); return fmt.Sprint(w, h, e) }, "80 24 <nil>"
	case 3:
		return "ColorDepth", func(t terminal.Terminal) string { return fmt.Sprint(t.ColorDepth()) }, "256"
	case 4:
		return "SupportsDirectPositioning", func(t terminal.Terminal) string { return fmt.Sprint(t.SupportsDirectPositioning()) }, "false"
	case 5:
		return "SupportsReadback", func(t terminal.Terminal) string { return fmt.Sprint(t.SupportsReadback()) }, "false"
	case 6:
		return "SupportsTrueColor", func(t terminal.Terminal) string { return fmt.Sprint(t.SupportsTrueColor()) }, "true"
	}
	return "Platform", func(t terminal.Terminal) string { return t.Platform().String() }, "Unknown"
}

func p33mode(r *rand.Rand) termOp {
	switch r.IntN(4) {
	case 0:
		return termOp{name: "EnterAltScreen", call: terminal.Terminal.EnterAltScreen}
	case 1:
		return termOp{name: "ExitAltScreen", call: terminal.Terminal.ExitAltScreen}
	case 2:
		return termOp{name: "EnterRawMode", call: terminal.Terminal.EnterRawMode}
	}
	return termOp{name: "ExitRawMode", call: terminal.Terminal.ExitRawMode}
}

func p33(c *fw.Ctx) {
	if c.R.IntN(3) == 0 {
		p33conc(c)
		return
	}
	r := c.R
	m, s, err := openPty(80, 24)
	if err != nil {
		panic(err)
	}
	defer m.Close()
	defer s.Close()
	o := newOut()
	defer o.close()
	cooked, _ := termiosOf(s.Fd())
	real := termWith(r, o.f, s)
	mock := ptesting.NewMockTerminal()
	if r.IntN(3) == 0 {
		mock = &ptesting.MockTerminal{}
	}
	null := ptesting.NewNullTerminal()
	if r.IntN(3) == 0 {
		null = &ptesting.NullTerminal{}
	}
	var calls []string
	names := []string{}
	record := func(n string) { calls = append(calls, n); names = append(names, strings.SplitN(n, "(", 2)[0]) }
	for i, n := 0, 5+r.IntN(40); i < n; i++ {
		switch k := r.IntN(10); {
		case k < 4:
			op := genTermOp(r)
			if strings.HasSuffix(op.name, "AltScreen") {
				continue
			}
			c.Tracef("%s", op.name)
			c.Count("op", 1)
			record(op.name)
			if err := op.call(mock); err != nil {
				c.Failf("mock: %s reports %v", op.name, err)
			}
			if err := op.call(null); err != nil {
				c.Failf("null terminal: %s reports %v", op.name, err)
			}
			op.call(real)
		case k < 8:
			op := p33mode(r)
			c.Tracef("%s", op.name)
			c.Count("mode compared", 1)
			record(op.name)
			em, er := op.call(mock), op.call(real)
			if (em == nil) != (er == nil) {
				c.Failf("%s: mock reports %v, the real terminal %v", op.name, em, er)
			}
			if err := op.call(null); err != nil {
				c.Failf("null terminal: %s reports %v", op.name, err)
			}
		case k == 8:
			q, f, want := p33query(r)
			record(q)
			if got := f(mock); got != want {
				c.Failf("mock: %s gives %s, must be %s", q, got, want)
			}
			if got := f(null); got != want {
				c.Failf("null terminal: %s gives %s, must be %s", q, got, want)
			}
		default:
			if r.IntN(6) == 0 {
				c.Tracef("Reset")
				mock.Reset()
				calls, names = nil, nil
			}
		}
		record("IsInAltScreen")
		if g, w := mock.IsInAltScreen(), real.IsInAltScreen(); g != w {
			c.Failf("mock: alternate screen %v, the real terminal %v", g, w)
		}
		record("IsInRawMode")
		if g, w := mock.IsInRawMode(), real.IsInRawMode(); g != w {
			c.Failf("mock: raw mode %v, the real terminal %v", g, w)
		}
		if now, _ := termiosOf(s.Fd()); isRaw(now) != real.IsInRawMode() || (!isRaw(now) && now != cooked) {
			c.Failf("the line is raw: %v, the terminal says %v", isRaw(now), real.IsInRawMode())
		}
		if null.IsInAltScreen() || null.IsInRawMode() {
			c.Failf("the null terminal has a mode")
		}
		if !slices.Equal(mock.Calls, calls) {
			c.Failf("the mock recorded\n%q, called were\n%q", mock.Calls, calls)
		}
		for range 3 {
			q := []string{"Write", "WriteAt", "Clear", "ClearLine", "ClearLines", "MoveCursorUp", "SetCursorPosition", "IsInAltScreen", "IsInRawMode", "EnterAltScreen", "Size", "Set", "", "write", "Cl"}[r.IntN(15)]
			want := 0
			for _, n := range names {
				if n == q {
					want++
				}
			}
			if g := mock.CallCount(q); g != want {
				c.Failf("CallCount(%q) is %d, must be %d of %q", q, g, want, calls)
			}
		}
		c.Seen(len(calls)%7, real.IsInAltScreen(), real.IsInRawMode(), i)
	}
	out := o.take()
	if n := strings.Count(string(out), "\x1b[?1049h") - strings.Count(string(out), "\x1b[?1049l"); (n == 1) != real.IsInAltScreen() || n < 0 || n > 1 {
		c.Failf("the alternate screen was entered %d times more than left; the terminal says %v", n, real.IsInAltScreen())
	}
}

func p33conc(c *fw.Ctx) {
	r := c.R
	m, s, err := openPty(80, 24)
	if err != nil {
		panic(err)
	}
	defer m.Close()
	defer s.Close()
	o := newOut()
	defer o.close()
	cooked, _ := termiosOf(s.Fd())
	ts := []terminal.Terminal{termWith(r, o.f, s), ptesting.NewMockTerminal(), ptesting.NewNullTerminal()}
	n := 2 + r.IntN(5)
	type tally struct {
		altIn, altOut, rawIn, rawOut int
		calls                        []string
	}
	tal := make([][3]tally, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range n {
		gr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		k := 3 + r.IntN(12)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := range k {
				op := p33mode(gr)
				if gr.IntN(3) == 0 {
					op = termOp{name: fmt.Sprintf("MoveCursorUp(%d)", 1000*g+j), call: func(t terminal.Terminal) error { return t.MoveCursorUp(1000*g + j) }}
				}
				for i, t := range ts {
					if i == 0 && strings.HasPrefix(op.name, "Move") {
						continue
					}
					err := op.call(t)
					tl := &tal[g][i]
					tl.calls = append(tl.calls, op.name)
					if err == nil {
						switch op.name {
						case "EnterAltScreen":
							tl.altIn++
						case "ExitAltScreen":
							tl.altOut++
						case "EnterRawMode":
							tl.rawIn++
						case "ExitRawMode":
							tl.rawOut++
						}
					}
					if gr.IntN(4) == 0 && i < 2 {
						t.IsInAltScreen()
						t.IsInRawMode()
						tl.calls = append(tl.calls, "IsInAltScreen", "IsInRawMode")
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	b2i := map[bool]int{true: 1}
	for i, name := range []string{"the real terminal", "the mock"} {
		var sum tally
		var all []string
		for g := range n {
			tl := &tal[g][i]
			sum.altIn += tl.altIn
			sum.altOut += tl.altOut
			sum.rawIn += tl.rawIn
			sum.rawOut += tl.rawOut
			all = append(all, tl.calls...)
		}
		c.Count("concurrent call", len(all))
		c.Count("concurrent enter", sum.altIn+sum.rawIn)
		if sum.altIn-sum.altOut != b2i[ts[i].IsInAltScreen()] {
			c.Failf("%s: %d enters and %d exits of the alternate screen succeeded, it is in it: %v", name, sum.altIn, sum.altOut, ts[i].IsInAltScreen())
		}
		if sum.rawIn-sum.rawOut != b2i[ts[i].IsInRawMode()] {
			c.Failf("%s: %d enters and %d exits of raw mode succeeded, it is in it: %v", name, sum.rawIn, sum.rawOut, ts[i].IsInRawMode())
		}
		if i == 0 {
			out := string(o.take())
			want := strings.Repeat("\x1b[?1049h\x1b[?1049l", sum.altOut)
			if sum.altIn > sum.altOut {
				want += "\x1b[?1049h"
			}
			if out != want {
				c.Failf("%d enters and %d exits wrote %q", sum.altIn, sum.altOut, out)
			}
			now, _ := termiosOf(s.Fd())
			if isRaw(now) != ts[0].IsInRawMode() || (!isRaw(now) && now != cooked) {
				c.Failf("the line is raw: %v, the terminal says %v", isRaw(now), ts[0].IsInRawMode())
			}
			continue
		}
		mock := ts[1].(*ptesting.MockTerminal)
		got := slices.Clone(mock.Calls)
		if k := len(got); k >= 2 && slices.Equal(got[k-2:], []string{"IsInAltScreen", "IsInRawMode"}) {
			got = got[:k-2] // the two questions above
		}
		// every caller's calls are there in the caller's order
		for g := range n {
			last := -1
			for j, s := range got {
				var v int
				if _, err := fmt.Sscanf(s, "MoveCursorUp(%d)", &v); err == nil && v/1000 == g {
					if v <= last {
						c.Failf("the calls of one goroutine were recorded out of order: %q at %d", s, j)
					}
					last = v
				}
			}
		}
		slices.Sort(got)
		slices.Sort(all)
		if !slices.Equal(got, all) {
			c.Failf("the mock recorded\n%q, called were\n%q", got, all)
		}
		// and the alternate screen entries and exits alternate
	}
	if ts[2].IsInAltScreen() || ts[2].IsInRawMode() {
		c.Failf("the null terminal has a mode")
	}
	c.Seen(n, tal[0][0].altIn, tal[0][0].rawIn, tal[n-1][0].altOut)
}
