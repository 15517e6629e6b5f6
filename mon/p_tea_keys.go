package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/phoenix-tui/phoenix/tea"

	"phoenixverif/fw"
	"phoenixverif/txt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P07", Quick: 2500, Thorough: 60000, Case: p07, Setup: teaSetup, Fixed: []fw.Fixed{{Name: "names", Run: p07names}},
		Rule:   "key sequences together with the split of their bytes into reads",
		Assume: []string{"a lone Esc is told apart from the start of an escape sequence by time; a misjudged case is repeated twice before it counts"},
		Need:   map[string]int64{"keys_decoded": 50000, "split_sequences": 2000, "split_runes": 2000, "unknown_sequences": 2000}})
	fw.Register(&fw.Prop{ID: "P08", Race: true, Quick: 420, Thorough: 9000, Case: p08, Setup: teaSetup,
		Rule:   "input kind and the history of typing, suspends, external readers, resumes and restarts",
		Assume: []string{"the source of input is read by nobody but the program and its external commands"},
		Need:   map[string]int64{"keys_to_program": 5000, "keys_to_commands": 1000, "suspends": 500}})
}

// keyNames: the name of each key, the one programs compare with.
var keyNames = map[tea.KeyType]string{
	tea.KeyEnter: "enter", tea.KeyBackspace: "backspace", tea.KeyTab: "tab", tea.KeyEsc: "esc", tea.KeySpace: "space",
	tea.KeyUp: "↑", tea.KeyDown: "↓", tea.KeyLeft: "←", tea.KeyRight: "→", tea.KeyHome: "home", tea.KeyEnd: "end",
	tea.KeyPgUp: "pgup", tea.KeyPgDown: "pgdown", tea.KeyDelete: "delete", tea.KeyInsert: "insert",
	tea.KeyF1: "F1", tea.KeyF2: "F2", tea.KeyF3: "F3", tea.KeyF4: "F4", tea.KeyF5: "F5", tea.KeyF6: "F6",
	tea.KeyF7: "F7", tea.KeyF8: "F8", tea.KeyF9: "F9", tea.KeyF10: "F10", tea.KeyF11: "F11", tea.KeyF12: "F12",
}

// p07names: the name of every key with every modifier, and of every mouse event.
func p07names(c *fw.Ctx) {
	for mods := 0; mods < 8; mods++ {
		alt, ctrl, shift := mods&1 != 0, mods&2 != 0, mods&4 != 0
		pre := ""
		if alt {
			pre += "alt+"
		}
		if ctrl {
			pre += "ctrl+"
		}
		for t, name := range keyNames {
			want := pre + name
			if shift {
				want = pre + "shift+" + name
			}
			if got := (tea.KeyMsg{Type: t, Alt: alt, Ctrl: ctrl, Shift: shift}).String(); got != want {
				c.Failf("key %q with alt=%v ctrl=%v shift=%v is named %q", name, alt, ctrl, shift, got)
			}
		}
		for _, k := range []rune{'a', 'Z', '0', '~', ' ', 'é', '世', '😀', '+'} {
			if got := (tea.KeyMsg{Type: tea.KeyRune, Rune: k, Alt: alt, Ctrl: ctrl, Shift: shift}).String(); got != pre+string(k) {
				c.Failf("character %q with alt=%v ctrl=%v is named %q", k, alt, ctrl, got)
			}
		}
		for b, bn := range []string{"mouse", "left", "middle", "right", "wheel up", "wheel down"} {
			for a, an := range []string{" press", " release", " motion"} {
				if b >= int(tea.MouseButtonWheelUp) {
					an = ""
				}
				want := fmt.Sprintf("%s%s at (%d, %d)", bn, an, b*7, a)
				if got := (tea.MouseMsg{X: b * 7, Y: a, Button: tea.MouseButton(b), Action: tea.MouseAction(a), Alt: alt, Ctrl: ctrl, Shift: shift}).String(); got != want {
					c.Failf("mouse event %q is described as %q", want, got)
				}
			}
		}
	}
	if got := (tea.KeyMsg{Type: tea.KeyCtrlC}).String(); got != "ctrl+c" {
		c.Failf("Ctrl+C is named %q", got)
	}
	for _, s := range [][2]int{{80, 24}, {0, 24}, {80, 0}, {-1, 5}, {1, 1}} {
		m := tea.WindowSizeMsg{Width: s[0], Height: s[1]}
		if m.IsValid() != (s[0] > 0 && s[1] > 0) || m.String() != fmt.Sprintf("window resize: %dx%d", s[0], s[1]) {
			c.Failf("window size %v: %v, %q", s, m.IsValid(), m.String())
		}
	}
	c.Count("names", 8*len(keyNames))
}

// ktok is one key (or ignorable sequence) with its encoding.
type ktok struct {
	b    string
	want []tea.KeyMsg // usually one
	gap  bool         // nothing may follow for a while
	cut  bool         // something that cannot continue it must follow
}

var namedKeys = []ktok{
	{b: "\r", want: []tea.KeyMsg{{Type: tea.KeyEnter}}},
	{b: "\n", want: []tea.KeyMsg{{Type: tea.KeyEnter}}},
	{b: "\x7f", want: []tea.KeyMsg{{Type: tea.KeyBackspace}}},
	{b: "\x08", want: []tea.KeyMsg{{Type: tea.KeyBackspace}}},
	{b: "\t", want: []tea.KeyMsg{{Type: tea.KeyTab}}},
	{b: " ", want: []tea.KeyMsg{{Type: tea.KeySpace}}},
	{b: "\x1b[A", want: []tea.KeyMsg{{Type: tea.KeyUp}}},
	{b: "\x1b[B", want: []tea.KeyMsg{{Type: tea.KeyDown}}},
	{b: "\x1b[C", want: []tea.KeyMsg{{Type: tea.KeyRight}}},
	{b: "\x1b[D", want: []tea.KeyMsg{{Type: tea.KeyLeft}}},
	{b: "\x1b[H", want: []tea.KeyMsg{{Type: tea.KeyHome}}},
	{b: "\x1b[F", want: []tea.KeyMsg{{Type: tea.KeyEnd}}},
	{b: "\x1b[1~", want: []tea.KeyMsg{{Type: tea.KeyHome}}},
	{b: "\x1b[2~", want: []tea.KeyMsg{{Type: tea.KeyInsert}}},
	{b: "\x1b[3~", want: []tea.KeyMsg{{Type: tea.KeyDelete}}},
	{b: "\x1b[4~", want: []tea.KeyMsg{{Type: tea.KeyEnd}}},
	{b: "\x1b[5~", want: []tea.KeyMsg{{Type: tea.KeyPgUp}}},
	{b: "\x1b[6~", want: []tea.KeyMsg{{Type: tea.KeyPgDown}}},
	{b: "\x1bOP", want: []tea.KeyMsg{{Type: tea.KeyF1}}},
	{b: "\x1bOQ", want: []tea.KeyMsg{{Type: tea.KeyF2}}},
	{b: "\x1bOR", want: []tea.KeyMsg{{Type: tea.KeyF3}}},
	{b: "\x1bOS", want: []tea.KeyMsg{{Type: tea.KeyF4}}},
	{b: "\x1b[15~", want: []tea.KeyMsg{{Type: tea.KeyF5}}},
	{b: "\x1b[17~", want: []tea.KeyMsg{{Type: tea.KeyF6}}},
	{b: "\x1b[18~", want: []tea.KeyMsg{{Type: tea.KeyF7}}},
	{b: "\x1b[19~", want: []tea.KeyMsg{{Type: tea.KeyF8}}},
	{b: "\x1b[20~", want: []tea.KeyMsg{{Type: tea.KeyF9}}},
	{b: "\x1b[21~", want: []tea.KeyMsg{{Type: tea.KeyF10}}},
	{b: "\x1b[23~", want: []tea.KeyMsg{{Type: tea.KeyF11}}},
	{b: "\x1b[24~", want: []tea.KeyMsg{{Type: tea.KeyF12}}},
}

func runeKey(r rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: r} }

// unknownSeq is a well-formed control sequence that stands for no key.
func unknownSeq(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return fmt.Sprintf("\x1b[?%d;%dc", r.IntN(99), r.IntN(9))
	case 1:
		return fmt.Sprintf("\x1b[<%d;%d;%dM", r.IntN(4), 1+r.IntN(300), 1+r.IntN(99))
	case 2:
		return fmt.Sprintf("\x1b[%d;%dR", 1+r.IntN(99), 1+r.IntN(300))
	case 3:
		return "\x1b[" + []string{"I", "O"}[r.IntN(2)]
	case 4:
		return fmt.Sprintf("\x1b[?%d;%d$y", r.IntN(2050), r.IntN(5))
	default:
		n := 2 + r.IntN(8) // long
		s := "\x1b[>"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("%d;", r.IntN(10000))
		}
		return s + "0m"
	}
}

const keyEnd = '⟂' // marks the end of the typed text, not typed otherwise

func keyTokens(c *fw.Ctx, n int, gaps bool) []ktok {
	r := c.R
	var out []ktok
	for len(out) < n {
		switch k := r.IntN(20); {
		case k < 5:
			ch := rune(33 + r.IntN(94))
			out = append(out, ktok{b: string(ch), want: []tea.KeyMsg{runeKey(ch)}})
		case k < 8:
			var ch rune
			switch r.IntN(4) {
			case 0:
				ch = rune(0xa1 + r.IntN(0x5ff))
			case 1:
				ch = rune(0x800 + r.IntN(0xc800)) // below the surrogates
			case 2:
				ch = rune(0x10000 + r.IntN(0x100000))
			default:
				rs := []rune(txt.Cluster(r, txt.Latin|txt.CJK|txt.Emoji|txt.Sym|txt.Comb))
				ch = rs[0]
			}
			if r.IntN(60) == 0 {
				ch = 0xFFFD
			}
			if ch == keyEnd {
				continue
			}
			out = append(out, ktok{b: string(ch), want: []tea.KeyMsg{runeKey(ch)}})
		case k < 14:
			out = append(out, namedKeys[r.IntN(len(namedKeys))])
		case k < 16:
			b := 1 + r.IntN(26)
			if b == 8 || b == 9 || b == 10 || b == 13 {
				continue
			}
			out = append(out, ktok{b: string(rune(b)), want: []tea.KeyMsg{{Type: tea.KeyRune, Rune: rune('a' + b - 1), Ctrl: true}}})
		case k < 18:
			if r.IntN(6) == 0 { // broken off
				out = append(out, ktok{b: "\x1b[" + []string{"1", "1;5", "?", "?25", "<0;3;", "20", ">", "3"}[r.IntN(8)], cut: true})
				c.Count("cut_sequences", 1)
				continue
			}
			out = append(out, ktok{b: unknownSeq(r)})
			c.Count("unknown_sequences", 1)
		default:
			out = append(out, ktok{b: "\x1b", want: []tea.KeyMsg{{Type: tea.KeyEsc}}, gap: true})
		}
	}
	// a lone Esc needs a pause only before what could continue it
	for i := range out {
		if i > 0 && out[i-1].cut {
			if b := out[i].b[0]; b >= 0x20 && b < 0x7f {
				out[i] = []ktok{{b: "\r", want: []tea.KeyMsg{{Type: tea.KeyEnter}}}, {b: "日", want: []tea.KeyMsg{runeKey('日')}},
					{b: "\x1b[A", want: []tea.KeyMsg{{Type: tea.KeyUp}}}}[r.IntN(3)]
			}
		}
		if out[i].gap && i+1 < len(out) {
			nx := out[i+1].b[0]
			if nx == '[' || nx == 'O' {
				if !gaps || r.IntN(3) != 0 {
					out[i+1] = ktok{b: "z", want: []tea.KeyMsg{runeKey('z')}}
					out[i].gap = false
				}
			} else {
				out[i].gap = false
			}
		}
	}
	if gaps { // Esc and '[' at once, then a pause: two keys
		for i := 0; i < len(out); i++ {
			if out[i].b == "\x1b" && r.IntN(4) == 0 {
				b := []string{"[", "O"}[r.IntN(2)]
				out[i].gap = false
				out = slices.Insert(out, i+1, ktok{b: b, want: []tea.KeyMsg{runeKey(rune(b[0]))}, gap: true})
				c.Count("esc_bracket", 1)
			}
		}
	}
	return out
}

// chunkReader serves chunks with pauses; it is not a file.
type chunkReader struct {
	mu     sync.Mutex
	chunks []kchunk
	rest   []byte
	end    chan struct{}
}

type kchunk struct {
	b     string
	pause time.Duration // before it
	yield int
}

func (k *chunkReader) Read(p []byte) (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.rest) == 0 {
		if len(k.chunks) == 0 {
			k.blockedFeedRead()
			return 0, io.EOF
		}
		ch := k.chunks[0]
		k.chunks = k.chunks[1:]
		if ch.pause > 0 {
			time.Sleep(ch.pause)
		}
		for i := 0; i < ch.yield; i++ {
			runtime.Gosched()
		}
		k.rest = []byte(ch.b)
	}
	n := copy(p, k.rest)
	k.rest = k.rest[n:]
	return n, nil
}

//go:noinline
func (k *chunkReader) blockedFeedRead() { <-k.end }

func p07(c *fw.Ctx) {
	r := c.R
	n := 5 + r.IntN(80)
	if r.IntN(12) == 0 {
		n = 1000 + r.IntN(3000)
	}
	gaps := c.N%10 == 3 && n < 100
	toks := keyTokens(c, n, gaps)
	var want []tea.KeyMsg
	var chunks []kchunk
	mode := r.IntN(5)
	c.Tracef("split mode %d, %d tokens, gaps %v", mode, n, gaps)
	gap := false
	cur := ""
	flush := func() {
		if cur != "" {
			ch := kchunk{b: cur}
			if gap {
				ch.pause = 120 * time.Millisecond
				gap = false
			} else if n < 100 && r.IntN(20) == 0 {
				ch.pause = time.Duration(r.IntN(3000)) * time.Microsecond
			} else if r.IntN(3) == 0 {
				ch.yield = r.IntN(20)
			}
			chunks = append(chunks, ch)
			cur = ""
		}
	}
	var all strings.Builder
	for _, t := range toks {
		want = append(want, t.want...)
		all.WriteString(t.b)
		if gap {
			flush()
		}
		for i := 0; i < len(t.b); i++ {
			if i > 0 && cur == "" { // split inside a token
				if t.b[0] == 0x1b {
					c.Count("split_sequences", 1)
				} else {
					c.Count("split_runes", 1)
				}
			}
			cur += t.b[i : i+1]
			switch mode {
			case 0: // bytewise
				flush()
			case 1: // everything at once
			case 2:
				if r.IntN(4) == 0 {
					flush()
				}
			case 3: // mostly inside tokens
				if i+1 < len(t.b) && r.IntN(3) == 0 {
					flush()
				}
			case 4:
				if r.IntN(250) == 0 {
					flush()
				}
			}
		}
		if t.gap {
			flush()
			gap = true
		}
	}
	flush()
	last := kchunk{b: string(keyEnd)}
	if gap {
		last.pause = 120 * time.Millisecond
	}
	chunks = append(chunks, last)
	want = append(want, runeKey(keyEnd))
	slow := r.IntN(6) == 0 && n < 100
	tries := 3
	for try := 1; ; try++ {
		got, ended := p07run(c, chunks, slow)
		msg := ""
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) {
				msg = fmt.Sprintf("only %d of %d keys arrived; key %d (%s) is missing", len(got), len(want), i, want[i])
				break
			}
			if i >= len(want) || got[i] != want[i] {
				w := tea.KeyMsg{}
				if i < len(want) {
					w = want[i]
				}
				lo := max(0, i-3)
				msg = fmt.Sprintf("key %d is %+v (%s) instead of %+v (%s); keys from %d: got %+v", i, got[i], got[i], w, w, lo, got[lo:min(len(got), i+4)])
				break
			}
		}
		if msg == "" && ended {
			break
		}
		if msg == "" {
			msg = "the end was not seen"
		}
		if try == tries {
			var cs []string
			for _, ch := range chunks {
				cs = append(cs, fmt.Sprintf("%q", ch.b))
			}
			c.Failf("%s\nreads: %s", msg, headS(strings.Join(cs, " "), 4000))
		}
		c.Count("repeated", 1)
	}
	c.Count("keys_decoded", len(want))
	c.Count("reads", len(chunks))
	c.Seen(all.String(), mode, len(chunks))
	c.Sample(fmt.Sprintf("%d reads of %q", len(chunks), headS(all.String(), 300)))
}

func headS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func p07run(c *fw.Ctx, chunks []kchunk, slow bool) ([]tea.KeyMsg, bool) {
	in := &chunkReader{chunks: append([]kchunk(nil), chunks...), end: make(chan struct{})}
	defer close(in.end)
	var mu sync.Mutex
	var got []tea.KeyMsg
	var ended atomic.Bool
	hooks := &thooks{update: func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		if k, ok := msg.(tea.KeyMsg); ok {
			mu.Lock()
			got = append(got, k)
			mu.Unlock()
			if k.Type == tea.KeyRune && k.Rune == keyEnd {
				ended.Store(true)
			}
			if slow {
				time.Sleep(100 * time.Microsecond)
			}
		}
		return m, nil
	}}
	t := newHterm(40, 10)
	p := tea.New(tmodel{h: hooks}, tea.WithInput[tmodel](in), tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t))
	run := launch(p)
	fw.Wait(6000, ended.Load)
	send(p, tea.QuitMsg{})
	if !run.wait() {
		c.Failf("the program did not end\n%s", fw.Stacks())
	}
	mu.Lock()
	defer mu.Unlock()
	return got, ended.Load()
}

// ---- P08 ------------------------------------------------------------------------------------

// kboard is the input of a P08 program with the keyboard that types into it.
type kboard struct {
	kind string
	in   io.Reader
	f    *os.File // if the input is a file
	w    func(s string)
	feed *feed
	end  func()
}

func newKboard(c *fw.Ctx) *kboard {
	r := c.R
	k := &kboard{}
	switch r.IntN(5) {
	case 0, 1:
		k.kind = "pipe"
		pr, pw, err := os.Pipe()
		if err != nil {
			c.Failf("pipe: %v", err)
		}
		k.in, k.f = pr, pr
		k.w = func(s string) { pw.WriteString(s) }
		k.end = func() { pw.Close(); pr.Close() }
		if r.IntN(2) == 0 { // as inherited from a shell: blocking
			k.kind = "blocking pipe"
			pr.Fd()
		}
	case 2, 3:
		m, s, err := openPty(60, 20)
		if err != nil {
			c.Count("no_pty", 1)
			return nil
		}
		k.kind = "pty"
		t, _ := termiosOf(s.Fd())
		t.Lflag &^= syscall.ICANON | syscall.ECHO | syscall.ISIG | syscall.IEXTEN
		t.Iflag &^= syscall.ICRNL | syscall.IXON | syscall.INLCR | syscall.ISTRIP
		t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 1, 0
		setTermios(s.Fd(), t)
		k.in, k.f = s, s
		k.w = func(s string) { m.WriteString(s) }
		k.end = func() { m.Close(); s.Close() }
	default:
		k.kind = "reader"
		k.feed = newFeed()
		k.in = k.feed
		k.w = k.feed.push
		k.end = k.feed.end
	}
	return k
}

// The typed text is a numbered sequence of keys: 3-byte runes, so that reads
// that cut a key show, mixed with escape sequences when no command reads.
const p08base, p08mod = 0x4e00, 30000

func p08(c *fw.Ctx) {
	r := c.R
	kb := newKboard(c)
	if kb == nil {
		return
	}
	defer kb.end()
	if kb.f != nil { // external commands read the standard input
		old := os.Stdin
		os.Stdin = kb.f
		defer func() { os.Stdin = old }()
	}
	live := kb.f != nil && r.IntN(3) == 0 // typing goes on during the changes
	var mu sync.Mutex
	var got []int // key numbers in the order the program got them
	bad := ""
	arrows := 0
	var busy atomic.Int64 // the next key takes so long
	hooks := &thooks{update: func(m tmodel, msg tea.Msg) (tmodel, tea.Cmd) {
		if k, ok := msg.(tea.KeyMsg); ok {
			if d := busy.Swap(0); d > 0 {
				time.Sleep(time.Duration(d))
			}
			mu.Lock()
			defer mu.Unlock()
			switch {
			case k.Type == tea.KeyRune && k.Rune >= p08base:
				got = append(got, int(k.Rune-p08base))
			case k.Type == tea.KeyRune && k.Rune >= '0' && k.Rune <= 'z' && live:
				got = append(got, int(k.Rune-'0'))
			case k.Type == tea.KeyPgDown:
				arrows++
			default:
				if bad == "" {
					bad = fmt.Sprintf("the program got a key that was not typed: %+v", k)
				}
			}
		}
		return m, nil
	}}
	t := newHterm(60, 20)
	opts := []topt{tea.WithOutput[tmodel](t.out()), tea.WithTerminal[tmodel](t)}
	if kb.f == nil || r.IntN(2) == 0 {
		opts = append(opts, tea.WithInput[tmodel](kb.in))
	}
	p := tea.New(tmodel{h: hooks, val: "x"}, opts...)
	hist := fmt.Sprintf("%s default=%v", kb.kind, len(opts) == 2)
	step := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		if len(hist) < 3000 {
			hist += "; " + s
		}
		c.Tracef("%s", s)
	}
	fail := func(f string, a ...any) {
		mu.Lock()
		g := fmt.Sprint(got)
		mu.Unlock()
		c.Failf("%s\nhistory: %s\nkeys the program got: %s", headS(fmt.Sprintf(f, a...), 4000), hist, headS(g, 4000))
	}
	next, wantArrows := 0, 0
	var forProg []int
	// keys types n keys; tail returns them
	keys := func(n int, plain bool) string {
		s := ""
		for ; n > 0; n-- {
			if !plain && r.IntN(4) == 0 {
				s += "\x1b[6~"
				wantArrows++
			}
			s += string(rune(p08base + next%p08mod))
			next++
		}
		return s
	}
	typeIt := func(s string) {
		for len(s) > 0 {
			n := 1 + r.IntN(len(s))
			// cut only between keys: a suspension may last longer than an
			// escape sequence may take
			for n < len(s) && (s[n]&0xc0 == 0x80 || strings.LastIndexByte(s[:n], 0x1b) >= 0 && !strings.Contains(s[strings.LastIndexByte(s[:n], 0x1b):n], "~")) {
				n++
			}
			kb.w(s[:n])
			s = s[n:]
			if r.IntN(4) == 0 {
				time.Sleep(time.Duration(r.IntN(800)) * time.Microsecond)
			}
		}
	}
	toProg := func(n int) {
		from := next
		s := keys(n, false)
		for i := from; i < next; i++ {
			forProg = append(forProg, i%p08mod)
		}
		typeIt(s)
		c.Count("keys_to_program", n)
	}
	// idle uses the program while it does not run: it neither draws nor reads.
	idle := func() {
		for n := 1 + r.IntN(3); n > 0; n-- {
			w0 := t.writeCount()
			switch k := r.IntN(4); {
			case k == 0 && !live:
				step("not running: type")
				toProg(1 + r.IntN(5))
			case k == 1 && kb.f != nil && len(forProg) == 0:
				k := 1 + r.IntN(10)
				from := next
				s := keys(k, true)
				step("not running: command reads %d keys", k)
				ur, uw, _ := os.Pipe()
				cmd, collect := readerCmd(len(s), uw)
				cmd.Stdin = kb.f
				fin := make(chan error, 1)
				go func() { fin <- p.ExecProcess(cmd) }()
				io.ReadFull(ur, make([]byte, 3))
				typeIt(s)
				select {
				case err := <-fin:
					if err != nil {
						fail("external command of a program that does not run: %v", err)
					}
				case <-time.After(15 * time.Second):
					fail("what is typed while an external command runs (keys %d to %d) does not reach it", from, next-1)
				}
				ur.Close()
				uw.Close()
				if out := collect(); string(out) != s {
					fail("keys %d to %d were typed for the external reader but it read %q", from, next-1, out)
				}
				c.Count("keys_to_commands", k)
			default:
				step("not running: suspend, resume")
				if err := p.Suspend(); err != nil {
					fail("Suspend: %v", err)
				}
				if k == 3 {
					step("(not resumed)")
					break
				}
				if err := p.Resume(); err != nil {
					fail("Resume: %v", err)
				}
			}
			if t.writeCount() != w0 {
				fail("the program wrote to its output although it does not run")
			}
			c.Count("not_running", 1)
		}
		if r.IntN(2) == 0 {
			time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
		}
	}
	if r.IntN(3) == 0 {
		idle()
	}
	w0 := t.writeCount()
	run := launch(p)
	if !fw.Wait(patience, func() bool { return t.writeCount() > w0 }) {
		fail("no first frame")
	}
	if live {
		if next != 0 {
			mu.Lock()
			got, next = got[:0], 0
			mu.Unlock()
		}
		p08live(c, kb, p, run, &mu, &got, step, fail)
		c.Seen(hist)
		c.Sample(hist)
		return
	}
	progGets := func(what string) {
		ok := fw.Wait(patience, func() bool {
			mu.Lock()
			defer mu.Unlock()
			return bad != "" || len(got) >= len(forProg) && arrows >= wantArrows
		})
		mu.Lock()
		g, b, a := append([]int(nil), got...), bad, arrows
		mu.Unlock()
		if b != "" {
			fail("%s: %s", what, b)
		}
		if !ok {
			fail("%s: keys typed for the program: %v; sequences %d of %d arrived", what, forProg, a, wantArrows)
		}
		if !slices.Equal(g, forProg) || a != wantArrows {
			fail("%s: the program should have got %v and %d sequences, not %d", what, forProg, wantArrows, a)
		}
	}
	for n := 2 + r.IntN(7); n > 0; n-- {
		switch r.IntN(7) {
		case 0:
			step("type")
			toProg(1 + r.IntN(40))
			progGets("typed while running")
		case 1, 2:
			// Suspend and Resume without a reader in between: everything is the
			// program's, whenever it is typed
			step("suspend/resume while typing")
			k := r.IntN(60)
			big := r.IntN(6) == 0
			if big { // pasted: more than any buffer holds
				k = 500 + r.IntN(3500)
				if r.IntN(3) == 0 {
					k = 22000 + r.IntN(8000)
				}
				busy.Store(int64(r.IntN(20)) * int64(time.Millisecond))
				step("%d keys", k)
				c.Count("pastes", 1)
			}
			from := next
			s := keys(k, false)
			for i := from; i < next; i++ {
				forProg = append(forProg, i%p08mod)
			}
			fin := make(chan struct{})
			split := r.IntN(2) == 0
			seed := r.Uint64()
			go func() {
				if big {
					kb.w(s)
				} else {
					typeIt2(kb, s, split, rand.New(rand.NewPCG(seed, 1)))
				}
				close(fin)
			}()
			if big {
				time.Sleep(time.Duration(r.IntN(15000)) * time.Microsecond)
			}
			for j := 1 + r.IntN(3); j > 0; j-- {
				if err := p.Suspend(); err != nil {
					fail("Suspend: %v", err)
				}
				c.Count("suspends", 1)
				if r.IntN(2) == 0 {
					time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
				}
				if err := p.Resume(); err != nil {
					fail("Resume: %v", err)
				}
			}
			<-fin
			c.Count("keys_to_program", k)
			progGets("typed around suspend and resume")
		case 3, 4, 5:
			if kb.f == nil {
				continue
			}
			progGets("before an external command")
			k := 1 + r.IntN(30)
			early := r.IntN(2) == 0 // typed between Suspend and the command, or while it runs
			sus := r.IntN(2) == 0
			step("external reader of %d keys (suspended before: %v)", k, sus)
			if sus {
				if err := p.Suspend(); err != nil {
					fail("Suspend: %v", err)
				}
				c.Count("suspends", 1)
			}
			from := next
			s := keys(k, true)
			if sus && early {
				typeIt(s)
			}
			var out []byte
			var err error
			if sus && r.IntN(2) == 0 {
				// the caller itself reads
				fd := int(kb.f.Fd())
				buf := make([]byte, 1)
				fin := make(chan struct{})
				go func() {
					defer close(fin)
					for len(out) < len(s) {
						n, e := syscall.Read(fd, buf)
						if e == syscall.EAGAIN || e == syscall.EINTR {
							time.Sleep(200 * time.Microsecond)
							continue
						}
						if e != nil || n == 0 {
							err = fmt.Errorf("read: %d %v", n, e)
							return
						}
						out = append(out, buf[:n]...)
					}
				}()
				if !early {
					typeIt(s)
				}
				select {
				case <-fin:
				case <-time.After(15 * time.Second):
					fail("what is typed while the program is suspended (keys %d to %d) does not reach another reader", from, next-1)
				}
				if err != nil {
					fail("reading while suspended: %v", err)
				}
			} else {
				ur, uw, _ := os.Pipe()
				cmd, collect := readerCmd(len(s), uw)
				cmd.Stdin = kb.f
				fin := make(chan error, 1)
				if sus {
					go func() { fin <- cmd.Run() }()
				} else {
					go func() { fin <- p.ExecProcess(cmd) }()
					c.Count("suspends", 1)
				}
				io.ReadFull(ur, make([]byte, 3))
				if !(sus && early) {
					typeIt(s)
				}
				select {
				case err = <-fin:
				case <-time.After(15 * time.Second):
					fail("what is typed while an external command runs (keys %d to %d) does not reach it", from, next-1)
				}
				ur.Close()
				uw.Close()
				if err != nil {
					fail("external command: %v", err)
				}
				out = collect()
			}
			if string(out) != s {
				fail("keys %d to %d were typed for the external reader but it read %q", from, next-1, out)
			}
			c.Count("keys_to_commands", k)
			if sus {
				if r.IntN(2) == 0 {
					toProg(1 + r.IntN(10)) // waits for the program
				}
				if err := p.Resume(); err != nil {
					fail("Resume: %v", err)
				}
			}
			toProg(1 + r.IntN(10))
			progGets("typed after an external reader")
		case 6:
			progGets("before the end of a run")
			step("end and start again")
			send(p, tea.QuitMsg{})
			if !run.wait() {
				fail("the program did not end\n%s", fw.Stacks())
			}
			switch r.IntN(4) {
			case 0, 1:
				toProg(1 + r.IntN(10)) // typed ahead
			case 2:
				ahead := forProg
				forProg = nil
				idle()
				forProg = append(ahead[:len(ahead):len(ahead)], forProg...)
			}
			w0 := t.writeCount()
			run = launch(p)
			if !fw.Wait(patience, func() bool { return t.writeCount() > w0 }) {
				fail("no first frame")
			}
			c.Count("restarts", 1)
		}
		if kb.feed != nil && kb.feed.maxR.Load() > 1 {
			fail("%d readers on the input at once", kb.feed.maxR.Load())
		}
	}
	progGets("at the end")
	send(p, tea.QuitMsg{})
	if !run.wait() {
		fail("the program did not end\n%s", fw.Stacks())
	}
	c.Seen(hist)
	c.Sample(hist)
}

// readerCmd is a command that tells up when it runs, reads n bytes of its
// standard input, one at a time, and ends.
func readerCmd(n int, up *os.File) (*exec.Cmd, func() []byte) {
	or, ow, _ := os.Pipe()
	cmd := exec.Command("/bin/sh", "-c", fmt.Sprintf("echo up >&3; exec dd bs=1 count=%d status=none >&4", n))
	cmd.ExtraFiles = []*os.File{up, ow}
	return cmd, func() []byte {
		ow.Close()
		b, _ := io.ReadAll(or)
		or.Close()
		return b
	}
}

// typeIt2 types key by key; the bytes of a character may come one by one.
func typeIt2(kb *kboard, s string, split bool, r *rand.Rand) {
	i := 0
	for len(s) > 0 {
		n := 3
		if s[0] == 0x1b {
			n = 4
		} else if split && r.IntN(3) == 0 {
			for _, b := range []byte(s[:2]) {
				kb.w(string([]byte{b}))
				time.Sleep(time.Duration(r.IntN(600)) * time.Microsecond)
			}
			s = s[2:]
			n = 1
		}
		kb.w(s[:n])
		s = s[n:]
		if i++; i%7 == 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// p08live types single bytes without pause while the program is suspended and
// resumed around commands that read: every byte reaches exactly one of them and
// each reader gets its bytes in order.
func p08live(c *fw.Ctx, kb *kboard, p *tprog, run *runner, mu *sync.Mutex, got *[]int, step func(string, ...any), fail func(string, ...any)) {
	r := c.R
	step("typing goes on")
	var stop, typed atomic.Int64
	fin := make(chan struct{})
	delay := 20 + r.IntN(300)
	// the byte is '0' + its number modulo 64, which lies within '0'..'o'
	go func() {
		defer close(fin)
		for stop.Load() == 0 {
			n := typed.Load()
			kb.w(string(rune('0' + n%64)))
			typed.Add(1)
			time.Sleep(time.Duration(delay) * time.Microsecond)
		}
	}()
	var segs [][]byte // what each command read
	for n := 2 + r.IntN(5); n > 0; n-- {
		if r.IntN(3) == 0 {
			if err := p.Suspend(); err != nil {
				fail("Suspend: %v", err)
			}
			c.Count("suspends", 1)
			if err := p.Resume(); err != nil {
				fail("Resume: %v", err)
			}
			step("suspend, resume")
			continue
		}
		k := 1 + r.IntN(20)
		cmd, collect := readerCmd(k, os.Stdout)
		step("reader of %d", k)
		ch := make(chan error, 1)
		go func() { ch <- p.ExecProcess(cmd) }()
		select {
		case err := <-ch:
			if err != nil {
				fail("external command: %v", err)
			}
		case <-time.After(20 * time.Second):
			fail("an external command gets no input although keys are typed")
		}
		c.Count("suspends", 1)
		seg := collect()
		if len(seg) != k {
			fail("the external command read %d bytes instead of %d", len(seg), k)
		}
		segs = append(segs, seg)
		c.Count("keys_to_commands", k)
		if r.IntN(2) == 0 {
			time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
		}
	}
	stop.Store(1)
	<-fin
	total := int(typed.Load())
	taken := 0
	for _, s := range segs {
		taken += len(s)
	}
	n := func() int { mu.Lock(); defer mu.Unlock(); return len(*got) }
	if !fw.Wait(patience, func() bool { return n() >= total-taken }) {
		fail("%d keys were typed and commands read %d, but the program got %d", total, taken, n())
	}
	send(p, tea.QuitMsg{})
	if !run.wait() {
		fail("the program did not end\n%s", fw.Stacks())
	}
	if n() != total-taken {
		fail("%d keys were typed and commands read %d, but the program got %d", total, taken, n())
	}
	// The streams: the typed sequence is a merge of what the program got and
	// the concatenation of what the commands read, each in order.
	mu.Lock()
	prog := append([]int(nil), *got...)
	mu.Unlock()
	var cmds []int
	for _, s := range segs {
		for _, b := range s {
			cmds = append(cmds, int(b-'0'))
		}
	}
	if !isMerge(total, prog, cmds) {
		fail("what the program and the commands (%v) got is not what was typed, in order", cmds)
	}
	c.Count("keys_to_program", len(prog))
	c.Count("live_typing", 1)
}

// isMerge: is 0,1,2,…,total-1 (mod 64) an interleaving of a and b?
func isMerge(total int, a, b []int) bool {
	reach := map[[2]int]bool{{0, 0}: true}
	for i := 0; i < total; i++ {
		nx := map[[2]int]bool{}
		for s := range reach {
			if s[0] < len(a) && a[s[0]] == i%64 {
				nx[[2]int{s[0] + 1, s[1]}] = true
			}
			if s[1] < len(b) && b[s[1]] == i%64 {
				nx[[2]int{s[0], s[1] + 1}] = true
			}
		}
		if len(nx) == 0 {
			return false
		}
		reach = nx
	}
	return reach[[2]int{len(a), len(b)}]
}
