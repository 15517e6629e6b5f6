package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	"phoenixverif/fw"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/clipboard"
	clipbridge "github.com/phoenix-tui/phoenix/clipboard/verifbridge"
)

func init() {
	fw.Register(&fw.Prop{ID: "P29", Quick: 250000, Thorough: 3000000, Case: p29,
		Rule:   "operation histories on chains of recording providers that come and go and fail; writes of any text to the terminal provider on a pseudo terminal, also concurrent and on one that stopped reading; the system provider and the automatic chain with recording stand-ins for every combination of clipboard tools, environments and terminals",
		Assume: []string{"clipboard tools follow their manual pages", "a provider whose write fails has not taken the text"},
		Need:   map[string]int64{"write": 300000, "read": 200000, "fallback": 50000, "osc": 5000, "osc concurrent": 300, "osc stalled": 20, "tool": 3000, "tool read": 1000}})
}

// clipText makes texts that are hard on encodings.
func clipText(r *rand.Rand) string {
	switch r.IntN(12) {
	case 0:
		return ""
	case 1:
		return string([]byte{byte(r.IntN(256))})
	case 2:
		b := make([]byte, r.IntN(60))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	case 3:
		return strings.Repeat("long \x1b\\ text\n", r.IntN(400))
	case 4:
		return fmt.Sprintf("%d\n\n", r.IntN(1000))
	}
	var b strings.Builder
	for n := r.IntN(12); n >= 0; n-- {
		b.WriteString([]string{"a", "Z", " ", "\n", "\r\n", "\t", "é", "日本", "😀", "e\u0301", "\x1b]52;c;aGk=\x07", "\x1b\\", "\x07", "\x00", "%s", "'\"$(x)", "\x9c", "\u200d", "ctrl\x03", "text "}[r.IntN(20)])
	}
	return b.String()
}

var errFake = errors.New("injected failure")

// fakeClip is a recording provider; its fields are what the model knows.
type fakeClip struct {
	mu         sync.Mutex
	there      bool
	badW, badR bool
	content    string
	puts, gets []string
}

func (f *fakeClip) provider(name string) *clipbridge.Fake {
	return &clipbridge.Fake{Title: name,
		Avail: func() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.there },
		Get: func() (string, error) {
			f.mu.Lock()
			defer f.mu.Unlock()
			f.gets = append(f.gets, f.content)
			if f.badR {
				return "", errFake
			}
			return f.content, nil
		},
		Put: func(s, mime string) error {
			f.mu.Lock()
			defer f.mu.Unlock()
			f.puts = append(f.puts, s)
			if f.badW {
				return errFake
			}
			f.content = s
			return nil
		}}
}

func p29(c *fw.Ctx) {
	switch k := c.R.IntN(1000); {
	case k < 900:
		p29chain(c)
	case k < 980:
		p29osc(c)
	default:
		p29tools(c)
	}
}

func p29chain(c *fw.Ctx) {
	r := c.R
	n := r.IntN(4)
	if r.IntN(6) == 0 {
		n = 4 + r.IntN(8)
	}
	var fakes []*clipbridge.Fake
	var fs []*fakeClip
	for i := 0; i < n; i++ {
		f := &fakeClip{there: r.IntN(4) > 0, badW: r.IntN(3) == 0, badR: r.IntN(3) == 0}
		fs = append(fs, f)
		fakes = append(fakes, f.provider(fmt.Sprintf("fake%d", i)))
	}
	cb, err := clipbridge.Build(fakes, false, time.Second, false)
	if n == 0 {
		if err == nil {
			c.Failf("a clipboard without providers was built")
		}
		return
	}
	if err != nil {
		c.Failf("%d providers: %v", n, err)
	}
	shadow := make([]string, n)
	for i := 3 + r.IntN(12); i > 0; i-- {
		if r.IntN(3) == 0 {
			f := fs[r.IntN(n)]
			f.there, f.badW, f.badR = r.IntN(4) > 0, r.IntN(3) == 0, r.IntN(3) == 0
		}
		state := ""
		first := "none"
		for j, f := range fs {
			f.puts, f.gets = nil, nil
			state += fmt.Sprintf(" %v/%v/%v", f.there, f.badW, f.badR)
			if f.there && first == "none" {
				first = fmt.Sprintf("fake%d", j)
			}
		}
		if cb.IsAvailable() != (first != "none") || cb.GetProviderName() != first {
			c.Failf("providers%s: available %v, provider %q", state, cb.IsAvailable(), cb.GetProviderName())
		}
		switch op := r.IntN(7); {
		case op < 4: // write
			text := clipText(r)
			name := []string{"Write", "Write", "WriteHTML", "WriteRTF"}[op]
			err := []func(string) error{cb.Write, cb.Write, cb.WriteHTML, cb.WriteRTF}[op](text)
			c.Tracef("%s %q with%s: %v", name, text, state, err)
			c.Count("write", 1)
			done, tried := false, 0
			for j, f := range fs {
				want := []string{}
				if text != "" && !done && f.there {
					want = append(want, text)
					tried++
					if !f.badW {
						done, shadow[j] = true, text
					}
				}
				if !slices.Equal(f.puts, want) {
					c.Failf("%s(%q) with providers%s: provider %d was given %q, should be %q", name, text, state, j, f.puts, want)
				}
				if len(f.gets) > 0 {
					c.Failf("%s read provider %d", name, j)
				}
			}
			if (err == nil) != done {
				c.Failf("%s(%q) with providers%s: %v", name, text, state, err)
			}
			if done && tried > 1 {
				c.Count("fallback", 1)
			}
			c.Seen(name, text, state)
			c.Sample(fmt.Sprintf("%s(%q) with%s: %v", name, text, state, err))
		case op < 6: // read
			if r.IntN(3) == 0 { // something else writes to the clipboard
				j := r.IntN(n)
				shadow[j] = clipText(r)
				fs[j].content = shadow[j]
			}
			k := r.IntN(3)
			got, err := []func() (string, error){cb.Read, cb.ReadHTML, cb.ReadRTF}[k]()
			c.Tracef("read %d with%s: %q, %v", k, state, got, err)
			c.Count("read", 1)
			want, ok := "", false
			tried := 0
			for j, f := range fs {
				if f.there && !ok {
					tried++
					if !f.badR && shadow[j] != "" {
						want, ok = shadow[j], true
					}
				}
				if len(f.puts) > 0 {
					c.Failf("a read wrote to provider %d", j)
				}
			}
			if ok != (err == nil) || got != want {
				c.Failf("read %d with providers%s holding %q: %q, %v", k, state, shadow, got, err)
			}
			if ok && tried > 1 {
				c.Count("fallback", 1)
			}
		default: // images are not implemented: an error, and nothing happens
			_, _, err1 := cb.ReadImage()
			err2 := cb.WriteImage([]byte("\x89PNG\r\n\x1a\n"), "image/png")
			for j, f := range fs {
				if (err1 != nil || err2 != nil) && len(f.puts)+len(f.gets) > 0 {
					c.Failf("images: %v, %v, provider %d got %q %q", err1, err2, j, f.puts, f.gets)
				}
			}
		}
		for j, f := range fs {
			if f.content != shadow[j] {
				c.Failf("provider %d holds %q, should be %q", j, f.content, shadow[j])
			}
		}
	}
}

// clipEnv sets what the clipboard looks at for a case, and returns what undoes it.
func clipEnv(term, ssh, path string) func() {
	var undo []func()
	set := func(k, v string) {
		old, had := os.LookupEnv(k)
		undo = append(undo, func() {
			if had {
				os.Setenv(k, old)
			} else {
				os.Unsetenv(k)
			}
		})
		if v == "" {
			os.Unsetenv(k)
		} else {
			os.Setenv(k, v)
		}
	}
	set("TERM", term)
	for _, k := range []string{"SSH_TTY", "SSH_CLIENT", "SSH_CONNECTION"} {
		v := ""
		if k == ssh {
			v = "x"
		}
		set(k, v)
	}
	if path != "" {
		set("PATH", path)
	}
	return func() {
		for _, f := range undo {
			f()
		}
	}
}

// drained is a pseudo terminal whose output is collected.
type drained struct {
	master, slave *os.File
	mu            sync.Mutex
	buf           []byte
	gone          chan struct{}
}

func openDrained(c *fw.Ctx) *drained {
	m, s, err := openPty(80, 24)
	if err != nil {
		c.Failf("pty: %v", err)
	}
	t, _ := termiosOf(s.Fd())
	t.Oflag = 0
	setTermios(s.Fd(), t)
	return &drained{master: m, slave: s}
}

func (d *drained) start() {
	d.gone = make(chan struct{})
	go func() {
		defer close(d.gone)
		b := make([]byte, 65536)
		for {
			n, err := d.master.Read(b)
			d.mu.Lock()
			d.buf = append(d.buf, b[:n]...)
			d.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
}

// take returns everything written to the terminal so far.
func (d *drained) take(c *fw.Ctx) string {
	const mark = "\x18--mark--\x18"
	d.slave.WriteString(mark)
	var out string
	if !fw.Wait(20000, func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		if bytes.HasSuffix(d.buf, []byte(mark)) {
			out, d.buf = string(d.buf[:len(d.buf)-len(mark)]), nil
			return true
		}
		return false
	}) {
		c.Failf("the terminal does not get what is written to it")
	}
	return out
}

func (d *drained) close() {
	d.slave.Close()
	if d.gone != nil {
		<-d.gone
	}
	d.master.Close()
}

// osc52s splits a stream into the payloads of clipboard sequences.
func osc52s(s string) ([]string, error) {
	var out []string
	for s != "" {
		const intro = "\x1b]52;c;"
		if !strings.HasPrefix(s, intro) {
			return out, fmt.Errorf("%q is no clipboard sequence", cut(s, 60))
		}
		s = s[len(intro):]
		i := strings.IndexAny(s, "\x1b\x07")
		if i < 0 || s[i] == 0x1b && !strings.HasPrefix(s[i:], "\x1b\\") {
			return out, fmt.Errorf("unterminated: %q", cut(s, 60))
		}
		b, err := base64.StdEncoding.DecodeString(s[:i])
		if err != nil || strings.ContainsAny(s[:i], "\r\n") {
			return out, fmt.Errorf("payload %q: %v", cut(s[:i], 60), err)
		}
		out = append(out, string(b))
		if s[i] == 0x1b {
			i++
		}
		s = s[i+1:]
	}
	return out, nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var oscTerms = []string{"xterm", "xterm-256color", "screen", "tmux", "tmux-256color"}

func p29osc(c *fw.Ctx) {
	r := c.R
	d := openDrained(c)
	defer d.close()
	ssh := []string{"", "SSH_TTY", "SSH_CLIENT", "SSH_CONNECTION"}[r.IntN(4)]
	term := append(oscTerms, "dumb", "")[r.IntN(len(oscTerms)+2)]
	if ssh == "" && (term == "dumb" || term == "") {
		term = "xterm"
	}
	defer clipEnv(term, ssh, "")()
	was := os.Stdout
	os.Stdout = d.slave
	defer func() { os.Stdout = was }()
	stall := r.IntN(40) == 0
	timeout := 30 * time.Second
	if stall {
		timeout = 30 * time.Millisecond
	}
	cb, err := clipbridge.Build(nil, true, timeout, false)
	if err != nil {
		c.Failf("%v", err)
	}
	if !cb.IsAvailable() {
		c.Failf("not available on a terminal with TERM=%q and %s set", term, ssh)
	}
	if stall {
		c.Count("osc stalled", 1)
		text := strings.Repeat("x", 300000)
		err := cb.Write(text)
		d.start()
		if err == nil {
			c.Failf("a write the terminal did not take succeeded")
		}
		// what is left of it comes out, and later writes are not lost in it
		if !fw.Wait(20000, func() bool {
			d.mu.Lock()
			defer d.mu.Unlock()
			return bytes.HasSuffix(d.buf, []byte("\x1b\\"))
		}) {
			c.Failf("the rest of an interrupted sequence never came")
		}
		d.take(c)
		return
	}
	d.start()
	if r.IntN(8) == 0 {
		c.Count("osc concurrent", 1)
		var want []string
		var wg sync.WaitGroup
		for i := 2 + r.IntN(4); i > 0; i-- {
			text := fmt.Sprintf("%d %s", i, strings.Repeat("y", r.IntN(20000)))
			want = append(want, text)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := cb.Write(text); err != nil {
					c.Notef("concurrent write of %d bytes: %v", len(text), err)
				}
			}()
		}
		wg.Wait()
		got, err := osc52s(d.take(c))
		slices.Sort(got)
		slices.Sort(want)
		if err != nil || !slices.Equal(got, want) {
			c.Failf("concurrent writes: %d sequences of %d, %v", len(got), len(want), err)
		}
		return
	}
	for i := 1 + r.IntN(4); i > 0; i-- {
		text := clipText(r)
		if r.IntN(20) == 0 {
			text = strings.Repeat("big \U0001F600", r.IntN(30000))
		}
		err := cb.Write(text)
		c.Count("osc", 1)
		out := d.take(c)
		got, perr := osc52s(out)
		c.Tracef("write %q (%d bytes): %v, out %q", cut(text, 100), len(text), err, cut(out, 200))
		if text == "" {
			if err == nil || out != "" {
				c.Failf("an empty text: %v, output %q", err, cut(out, 100))
			}
			continue
		}
		if err != nil || perr != nil || len(got) != 1 || got[0] != text {
			c.Failf("write of %q: error %v; output %q: %v", cut(text, 100), err, cut(out, 100), perr)
		}
		c.Seen(text)
	}
	if _, err := cb.Read(); err == nil {
		c.Failf("read from a terminal that does not answer")
	}
	if out := d.take(c); out != "" {
		c.Failf("reading wrote %q to the terminal", out)
	}
}

var clipTools = map[string]string{
	"xclip": `sel=primary; mode=in
while [ $# -gt 0 ]; do case $1 in -selection|-sel) sel=$2; shift;; -o|-out) mode=out;; -i|-in) mode=in;; *) echo "bad argument" >> $d/log; exit 2;; esac; shift; done`,
	"xsel": `sel=primary; mode=out
while [ $# -gt 0 ]; do case $1 in --clipboard|-b) sel=clipboard;; --output|-o) mode=out;; --input|-i) mode=in;; *) echo "bad argument" >> $d/log; exit 2;; esac; shift; done`,
	"wl-copy": `sel=clipboard; mode=in; [ $# = 0 ] || { echo "bad argument" >> $d/log; exit 2; }`,
	"wl-paste": `sel=clipboard; mode=out; tail=yes
case "$*" in --no-newline|-n) tail=;; "") ;; *) echo "bad argument" >> $d/log; exit 2;; esac`,
}

func makeTools(dir string) {
	os.MkdirAll(dir, 0o755)
	for name, body := range clipTools {
		os.WriteFile(filepath.Join(dir, name), []byte("#!/bin/sh\nd=$CLIP_DIR; tail=\necho "+name+" >> $d/log\n[ -e $d/fail ] && exit 1\n"+body+`
if [ $mode = in ]; then exec /bin/cat > $d/$sel; fi
[ -s $d/$sel ] || exit 1
/bin/cat $d/$sel
[ -z "$tail" ] || echo
`), 0o755)
	}
}

var toolsOnce sync.Once

type clipAPI interface {
	Read() (string, error)
	Write(string) error
	IsAvailable() bool
	GetProviderName() string
}

// globalClip is the package-level clipboard of a fresh process, directly or
// through the umbrella package.
type globalClip bool

func (g globalClip) run(op, text string) (string, string) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "clip", op, fmt.Sprint(bool(g)))
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Run(); err != nil {
		panic(fmt.Sprint("helper process: ", err, out.String()))
	}
	i := strings.LastIndex(out.String(), "\xff\xfe")
	return out.String()[:i], out.String()[i+2:]
}

func (g globalClip) Read() (string, error) {
	s, e := g.run("read", "")
	if e != "" {
		return s, errors.New(e)
	}
	return s, nil
}

func (g globalClip) Write(s string) error {
	if _, e := g.run("write", s); e != "" {
		return errors.New(e)
	}
	return nil
}

func (g globalClip) IsAvailable() bool       { s, _ := g.run("available", ""); return s == "true" }
func (g globalClip) GetProviderName() string { s, _ := g.run("name", ""); return s }

// clipHelper is the other side.
func clipHelper(op, umbrella string) {
	in, _ := io.ReadAll(os.Stdin)
	var s string
	var err error
	switch op + " " + umbrella {
	case "read false":
		s, err = clipboard.Read()
	case "read true":
		s, err = phoenix.ReadClipboard()
	case "write false":
		err = clipboard.Write(string(in))
	case "write true":
		err = phoenix.WriteClipboard(string(in))
	case "available false", "available true":
		s = fmt.Sprint(clipboard.IsAvailable())
	default:
		s = clipboard.GetProviderName()
	}
	e := ""
	if err != nil {
		e = err.Error()
	}
	fmt.Printf("%s\xff\xfe%s", s, e)
}

// p29tools: the whole automatic chain on an imitated system.
func p29tools(c *fw.Ctx) {
	r := c.R
	work := os.Getenv("MON_WORK")
	store := filepath.Join(work, "cliptools")
	toolsOnce.Do(func() { makeTools(store) })
	dir, err := os.MkdirTemp(work, "clip")
	if err != nil {
		c.Failf("%v", err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "bin")
	os.Mkdir(bin, 0o755)
	has := map[string]bool{}
	for _, t := range []string{"wl-copy", "wl-paste", "xclip", "xsel"} {
		if r.IntN(2) == 0 {
			has[t] = true
			os.Symlink(filepath.Join(store, t), filepath.Join(bin, t))
		}
	}
	write, read := "", ""
	switch {
	case has["wl-copy"] && has["wl-paste"]:
		write, read = "wl-copy", "wl-paste"
	case has["xclip"]:
		write, read = "xclip", "xclip"
	case has["xsel"]:
		write, read = "xsel", "xsel"
	}
	ssh := []string{"", "", "SSH_TTY", "SSH_CLIENT", "SSH_CONNECTION"}[r.IntN(5)]
	term := append(oscTerms, "dumb", "")[r.IntN(len(oscTerms)+2)]
	defer clipEnv(term, ssh, bin)()
	os.Setenv("CLIP_DIR", dir)
	defer os.Unsetenv("CLIP_DIR")
	d := openDrained(c)
	defer d.close()
	d.start()
	tty := r.IntN(3) > 0
	was := os.Stdout
	if tty {
		os.Stdout = d.slave
	} else {
		f, err := os.Create(filepath.Join(dir, "stdout"))
		if err != nil {
			c.Failf("%v", err)
		}
		defer f.Close()
		os.Stdout = f
	}
	auto := r.IntN(2) == 0
	global := r.IntN(8) == 0
	var cb clipAPI
	if global {
		// made when a process starts; its output is no terminal
		auto, tty, cb = true, false, globalClip(r.IntN(2) == 0)
	} else if auto {
		cb, err = clipboard.New()
	} else {
		cb, err = clipbridge.Build(nil, true, time.Minute, true)
	}
	out := os.Stdout
	os.Stdout = was
	if err != nil {
		c.Failf("%v", err)
	}
	osc := tty && (ssh != "" || slices.Contains(oscTerms, term))
	oscFirst := !auto || ssh != "" && tty
	where := fmt.Sprintf("tools %v, TERM=%q, %s, tty %v, auto %v, global %v", has, term, ssh, tty, auto, global)
	c.Tracef("%s", where)
	if cb, ok := cb.(*clipboard.Clipboard); ok && cb.IsSSH() != (ssh != "") {
		c.Failf("%s: ssh %v", where, cb.IsSSH())
	}
	if cb.IsAvailable() != (osc || write != "") {
		c.Failf("%s: available %v", where, cb.IsAvailable())
	}
	name := cb.GetProviderName()
	wantName := "none"
	if osc && (oscFirst || write == "") {
		wantName = "OSC52"
	} else if write != "" {
		wantName = "Linux Native"
	}
	if !strings.HasPrefix(name, wantName) {
		c.Failf("%s: provider %q, should be %q", where, name, wantName)
	}
	holds := ""
	for i := 1 + r.IntN(4); i > 0; i-- {
		fail := r.IntN(5) == 0
		os.Remove(filepath.Join(dir, "fail"))
		if fail {
			os.WriteFile(filepath.Join(dir, "fail"), nil, 0o644)
		}
		os.Remove(filepath.Join(dir, "log"))
		log := func() string {
			b, _ := os.ReadFile(filepath.Join(dir, "log"))
			return strings.Join(strings.Fields(string(b)), " ")
		}
		if r.IntN(5) < 3 {
			text := clipText(r)
			if r.IntN(30) == 0 {
				text = strings.Repeat("big\n", 50000)
			}
			err := cb.Write(text)
			c.Count("tool", 1)
			toOsc := text != "" && osc && (oscFirst || write == "" || fail)
			try := text != "" && write != "" && (!osc || !oscFirst)
			toTool := try && !fail
			c.Tracef("write %q, failing %v: %v (osc %v, tool %v)", cut(text, 100), fail, err, toOsc, toTool)
			if (err == nil) != (toOsc || toTool) {
				c.Failf("%s: write of %q, tools failing %v: %v", where, cut(text, 100), fail, err)
			}
			if toTool {
				holds = text
			}
			used := ""
			if try {
				used = write
			}
			if log() != used {
				c.Failf("%s: a write ran %q, should be %q", where, log(), used)
			}
			got, perr := osc52s(d.take(c))
			want := []string{}
			if toOsc {
				want = append(want, text)
			}
			if perr != nil || !slices.Equal(got, want) {
				c.Failf("%s: the terminal got %q (%v), should be %q", where, got, perr, want)
			}
		} else {
			if r.IntN(3) == 0 { // another program writes to the clipboard
				holds = clipText(r)
				os.WriteFile(filepath.Join(dir, "clipboard"), []byte(holds), 0o644)
				os.WriteFile(filepath.Join(dir, "primary"), []byte("not this"), 0o644)
			}
			got, err := cb.Read()
			c.Count("tool read", 1)
			c.Tracef("read, failing %v: %q %v", fail, cut(got, 100), err)
			ok := write != "" && !fail && holds != ""
			if ok != (err == nil) || ok && got != holds {
				c.Failf("%s: read %q, %v; the clipboard holds %q, tools failing %v", where, cut(got, 100), err, cut(holds, 100), fail)
			}
			if log() != read {
				c.Failf("%s: a read ran %q, should be %q", where, log(), read)
			}
			if got := d.take(c); got != "" {
				c.Failf("%s: a read wrote %q to the terminal", where, got)
			}
		}
		b, _ := os.ReadFile(filepath.Join(dir, "clipboard"))
		if string(b) != holds {
			c.Failf("%s: the clipboard holds %q, should be %q", where, cut(string(b), 100), cut(holds, 100))
		}
		c.Seen(where, fail, i)
	}
	if st, err := out.Stat(); !tty && !global && (err != nil || st.Size() > 0) {
		c.Failf("%s: %d bytes on an output that is no terminal", where, st.Size())
	}
}
