package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/mouse"
	mouseb "github.com/phoenix-tui/phoenix/mouse/verifbridge"

	"phoenixverif/fw"
)

func init() {
	fw.Register(&fw.Prop{ID: "P26", Quick: 10000000, Thorough: 200000000, Case: p26,
		Rule:   "every button, modifier set, action and random positions in the three encodings of real terminals; damaged and random byte strings; event, position and box values; histories of enabling and disabling on a recorded, sometimes closed output",
		Assume: []string{"reports arrive one at a time"},
		Need:   map[string]int64{"sgr": 300000, "x10": 100000, "urxvt": 100000, "bad": 300000, "modes": 10000, "values": 50000}})
	fw.Register(&fw.Prop{ID: "P27", Quick: 800000, Thorough: 16000000, Case: p27,
		Rule:   "streams of raw reports a terminal can send (several buttons, wheel, movement, resets), and streams with chosen times, distances and settings for the recogniser itself",
		Assume: []string{"pauses longer than the double-click time are only generated with explicit timestamps"},
		Need:   map[string]int64{"click": 300000, "double": 50000, "triple": 10000, "drag": 300000, "scroll": 100000, "held2": 20000, "timed": 1000000}})
	fw.Register(&fw.Prop{ID: "P28", Quick: 3000000, Thorough: 60000000, Case: p28,
		Rule:   "pointer walks over changing sets of overlapping areas; menus of every size at every place of and around screens of every size",
		Assume: []string{"areas have names and their edges do not overflow an integer"},
		Need:   map[string]int64{"enter": 300000, "move": 300000, "leave": 100000, "switch": 50000, "menu": 500000, "shifted": 100000}})
}

type report struct {
	btn        int // code of the button: 0-2, 3 none, 64-67 wheels, 128- others
	mods       int // bits 4 shift, 8 alt, 16 ctrl
	motion, up bool
	x, y       int
}

func (p report) encode(proto int) string {
	cb := p.btn | p.mods
	if p.motion {
		cb |= 32
	}
	switch proto {
	case 0:
		end := "M"
		if p.up {
			end = "m"
		}
		return fmt.Sprintf("\x1b[<%d;%d;%d%s", cb, p.x+1, p.y+1, end)
	case 1:
		if p.up {
			cb = 3 | p.mods
		}
		return string([]byte{27, '[', 'M', byte(cb + 32), byte(p.x + 33), byte(p.y + 33)})
	}
	if p.up {
		cb = 3 | p.mods
	}
	return fmt.Sprintf("\x1b[%d;%d;%dM", cb+32, p.x+1, p.y+1)
}

var protos = []string{"sgr", "x10", "urxvt"}

// expected: kind, button and modifiers a report stands for; ok is false when it
// is not specified (a button the library has no name for).
func (p report) expected(proto int) (kind mouse.EventType, b mouse.Button, m mouse.Modifiers) {
	m = mouse.NewModifiers(p.mods&4 != 0, p.mods&16 != 0, p.mods&8 != 0)
	b = mouse.ButtonNone
	switch p.btn {
	case 0:
		b = mouse.ButtonLeft
	case 1:
		b = mouse.ButtonMiddle
	case 2:
		b = mouse.ButtonRight
	case 64:
		b = mouse.ButtonWheelUp
	case 65:
		b = mouse.ButtonWheelDown
	}
	switch {
	case p.btn >= 64 && p.btn < 68:
		kind = mouse.EventScroll
	case p.motion:
		kind, b = mouse.EventMotion, mouse.ButtonNone
	case p.up:
		kind = mouse.EventRelease
		if proto != 0 {
			b = mouse.ButtonNone
		}
	default:
		kind = mouse.EventPress
	}
	return
}

// recognise is a strict reading of a report, with the introducer optional as
// it is for the library.
func recognise(s string) (report, int, bool) {
	s = strings.TrimPrefix(s, "\x1b")
	s = strings.TrimPrefix(s, "[")
	var p report
	num := func(t string) (int, bool) {
		if t == "" || strings.Trim(t, "0123456789") != "" {
			return 0, false
		}
		n, err := strconv.Atoi(t)
		return n, err == nil
	}
	three := func(t string, off int) bool {
		f := strings.Split(t, ";")
		if len(f) != 3 {
			return false
		}
		cb, ok1 := num(f[0])
		x, ok2 := num(f[1])
		y, ok3 := num(f[2])
		cb -= off
		if !ok1 || !ok2 || !ok3 || cb < 0 || x < 1 || y < 1 {
			return false
		}
		p.btn, p.mods, p.motion, p.x, p.y = cb&^(4|8|16|32), cb&(4|8|16), cb&32 != 0, x-1, y-1
		return true
	}
	switch {
	case strings.HasPrefix(s, "<"):
		if len(s) < 2 || s[len(s)-1] != 'M' && s[len(s)-1] != 'm' || !three(s[1:len(s)-1], 0) {
			return p, 0, false
		}
		p.up = s[len(s)-1] == 'm'
		return p, 0, true
	case strings.HasPrefix(s, "M"):
		if len(s) != 4 || s[1] < 32 || s[2] < 33 || s[3] < 33 {
			return p, 1, false
		}
		cb := int(s[1]) - 32
		p.btn, p.mods, p.motion, p.x, p.y = cb&^(4|8|16|32), cb&(4|8|16), cb&32 != 0, int(s[2])-33, int(s[3])-33
		p.up = p.btn == 3 && !p.motion
		return p, 1, true
	case strings.HasSuffix(s, "M"):
		if !three(s[:len(s)-1], 32) {
			return p, 2, false
		}
		p.up = p.btn == 3 && !p.motion
		return p, 2, true
	}
	return p, 0, false
}

func checkReport(c *fw.Ctx, p report, proto int, seq string, evs []mouse.MouseEvent, err error) {
	if err != nil || len(evs) == 0 {
		c.Failf("%s report %q (%+v): %v, %d events", protos[proto], seq, p, err, len(evs))
	}
	kind, b, m := p.expected(proto)
	e := evs[len(evs)-1] // a release comes after its click
	if e.Type() != kind || e.Button() != b || e.Modifiers() != m || e.Position() != mouse.NewPosition(p.x, p.y) {
		c.Failf("%s report %q (%+v): %v %v %v at %v, should be %v %v %v", protos[proto], seq, p, e.Type(), e.Button(), e.Modifiers(), e.Position(), kind, b, m)
	}
	for _, e := range evs[:len(evs)-1] {
		if e.Modifiers() != m || e.Position() != mouse.NewPosition(p.x, p.y) {
			c.Failf("%s report %q (%+v): also %v %v at %v", protos[proto], seq, p, e.Type(), e.Modifiers(), e.Position())
		}
	}
}

func randReport(r *rand.Rand, proto int) report {
	p := report{btn: []int{0, 1, 2, 0, 1, 2, 64, 65, 66, 67, 128, 129, 131}[r.IntN(13)], mods: r.IntN(8) << 2}
	size := []int{3, 80, 223, 1000, 20000, 1 << 20}[r.IntN(6)]
	if proto == 1 {
		size = min(size, 223)
	}
	p.x, p.y = r.IntN(size), r.IntN(size)
	switch r.IntN(3) {
	case 0:
		p.up = p.btn < 64 || p.btn >= 128
	case 1:
		if p.btn < 64 {
			p.motion = true
			p.btn = r.IntN(4)
		}
	}
	if proto != 0 && p.up {
		p.btn = 3
	}
	if proto == 1 && p.btn >= 128 {
		p.btn = 0 // with movement and modifiers this would not fit a byte
	}
	return p
}

func p26(c *fw.Ctx) {
	r := c.R
	if r.IntN(100) == 0 && !c.Beside { // they write to the standard output
		p26modes(c)
		return
	}
	if r.IntN(40) == 0 {
		p26values(c)
		return
	}
	m := mouse.New()
	proto := r.IntN(3)
	p := randReport(r, proto)
	seq := p.encode(proto)
	if r.IntN(3) > 0 {
		c.Tracef("%s %q", protos[proto], seq)
		c.Count(protos[proto], 1)
		evs, err := m.ParseSequence(seq)
		checkReport(c, p, proto, seq, evs, err)
		c.Seen(seq)
		c.Sample(seq)
		return
	}
	b := []byte(seq)
	for n := 1 + r.IntN(3); n > 0 && len(b) > 0; n-- {
		i := r.IntN(len(b))
		x := "0123456789;;<Mm[-+ .,\x1b\x00\x7f\x80\xff"[r.IntN(25)]
		switch r.IntN(6) {
		case 0:
			b = b[:i]
		case 1:
			b = b[i:]
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b[i] = x
		case 4:
			b = append(b[:i], append([]byte{x}, b[i:]...)...)
		case 5:
			b = append(b, "999999999999999999999999"[:1+r.IntN(24)]...)
			if r.IntN(2) == 0 {
				b = append(b, 'M')
			}
		}
	}
	seq = string(b)
	c.Tracef("%q", seq)
	evs, err := m.ParseSequence(seq)
	p, proto, ok := recognise(seq)
	if ok {
		c.Count("still good", 1)
		if p.x > 1e9 || p.y > 1e9 || p.btn > 255 || p.motion && p.btn >= 64 {
			return // too far to represent, or nothing a protocol has a meaning for
		}
		checkReport(c, p, proto, seq, evs, err)
	} else {
		c.Count("bad", 1)
		if err == nil && len(evs) > 0 {
			c.Failf("%q is not a report of any protocol, decoded as %v", seq, evs)
		}
		if m.IsDragging() {
			c.Failf("dragging after %q", seq)
		}
	}
	c.Seen(seq)
	c.Sample(seq)
}

// p26values: what events, modifiers, positions and boxes say about themselves
// follows from what they are made of.
func p26values(c *fw.Ctx) {
	r := c.R
	c.Count("values", 1)
	types := []mouse.EventType{mouse.EventPress, mouse.EventRelease, mouse.EventClick, mouse.EventDoubleClick, mouse.EventTripleClick, mouse.EventDrag,
		mouse.EventMotion, mouse.EventScroll, mouse.EventHoverEnter, mouse.EventHoverLeave, mouse.EventHoverMove}
	names := []string{"Press", "Release", "Click", "DoubleClick", "TripleClick", "Drag", "Motion", "Scroll", "HoverEnter", "HoverLeave", "HoverMove"}
	buttons := []mouse.Button{mouse.ButtonNone, mouse.ButtonLeft, mouse.ButtonMiddle, mouse.ButtonRight, mouse.ButtonWheelUp, mouse.ButtonWheelDown}
	bnames := []string{"None", "Left", "Middle", "Right", "WheelUp", "WheelDown"}
	ti, bi, bj := r.IntN(len(types)), r.IntN(6), r.IntN(6)
	mods, mname := mouse.ModifierNone, []string{}
	for i, m := range []mouse.Modifiers{mouse.ModifierShift, mouse.ModifierCtrl, mouse.ModifierAlt} {
		if r.IntN(2) == 0 {
			mods |= m
			mname = append(mname, []string{"Shift", "Ctrl", "Alt"}[i])
		}
	}
	if len(mname) == 0 {
		mname = []string{"None"}
	}
	x, y, x2, y2 := r.IntN(300), r.IntN(300), r.IntN(300), r.IntN(300)
	if r.IntN(2) == 0 {
		x2, y2 = x+r.IntN(5)-2, y+r.IntN(5)-2
	}
	pos, other := mouse.NewPosition(x, y), mouse.NewPosition(x2, y2)
	is := func(e mouse.MouseEvent, ti, bi int) {
		t := types[ti]
		got := fmt.Sprint(e.Type(), e.Button(), e.Position(), e.Modifiers(), e.IsClick(), e.IsDrag(), e.IsScroll(), e.Type().IsHover(),
			e.Button().IsWheel(), e.Button().IsButton(), e.Modifiers().HasShift(), e.Modifiers().HasCtrl(), e.Modifiers().HasAlt())
		all := strings.Join(mname, "+")
		want := fmt.Sprint(t, buttons[bi], pos, mods, ti >= 2 && ti <= 4, ti == 5, ti == 7, ti >= 8, bi >= 4, bi >= 1 && bi <= 3,
			strings.Contains(all, "Shift"), strings.Contains(all, "Ctrl"), strings.Contains(all, "Alt"))
		if got != want {
			c.Failf("an event %s %s at %d,%d with %s says %s, want %s", names[ti], bnames[bi], x, y, all, got, want)
		}
		if t.String() != names[ti] || buttons[bi].String() != bnames[bi] || e.Modifiers().String() != all {
			c.Failf("names %s %s %s, want %s %s %s", t, buttons[bi], e.Modifiers(), names[ti], bnames[bi], all)
		}
	}
	e := mouse.NewMouseEvent(types[ti], buttons[bi], pos, mods)
	is(e, ti, bi)
	tj := r.IntN(len(types))
	is(e.WithType(types[tj]), tj, bi)
	is(e.WithButton(buttons[bj]), ti, bj)
	is(e, ti, bi)
	if !e.WithType(types[tj]).Timestamp().Equal(e.Timestamp()) {
		c.Failf("an event of another type has another time")
	}
	d := max(x-x2, x2-x) + max(y-y2, y2-y)
	tol := d + r.IntN(5) - 2
	if pos.DistanceTo(other) != d || pos.IsWithinTolerance(other, tol) != (d <= tol) || e.IsAt(other, tol) != (d <= tol) || pos.Equals(other) != (d == 0) {
		c.Failf("%v and %v: distance %d, within %d %v %v, equal %v", pos, other, pos.DistanceTo(other), tol, pos.IsWithinTolerance(other, tol), e.IsAt(other, tol), pos.Equals(other))
	}

	// boxes as sets of cells
	size := func() int { return r.IntN(8) - 1 }
	ax, ay, aw, ah, bx, by, bw, bh := size(), size(), size(), size(), size(), size(), size(), size()
	a, b := mouse.NewBoundingBox(ax, ay, aw, ah), mouse.NewBoundingBox(bx, by, bw, bh)
	na, nb, both := 0, 0, 0
	for cx := -3; cx < 20; cx++ {
		for cy := -3; cy < 20; cy++ {
			p := mouse.NewPosition(cx, cy)
			ia := cx >= ax && cx < ax+aw && cy >= ay && cy < ay+ah
			if a.Contains(p) != ia {
				c.Failf("box %d,%d %dx%d contains %d,%d: %v", ax, ay, aw, ah, cx, cy, !ia)
			}
			ib := b.Contains(p)
			if ia {
				na++
			}
			if ib {
				nb++
			}
			if ia && ib {
				both++
			}
		}
	}
	if a.Area() != na || a.IsEmpty() != (na == 0) || b.Area() != nb || na > 0 && nb > 0 && (a.Overlaps(b) != (both > 0) || b.Overlaps(a) != (both > 0)) {
		c.Failf("boxes %v and %v of %d and %d cells share %d: areas %d and %d, empty %v, overlap %v %v", a, b, na, nb, both, a.Area(), b.Area(), a.IsEmpty(), a.Overlaps(b), b.Overlaps(a))
	}
	if a.Equals(b) != (ax == bx && ay == by && max(aw, 0) == max(bw, 0) && max(ah, 0) == max(bh, 0)) {
		c.Failf("boxes %v and %v equal: %v", a, b, a.Equals(b))
	}
	c.Seen("values", ti, bi, tj, bj, int(mods), d == 0, both > 0, na > 0)
}

// p26modes: after any history of enabling and disabling, the terminal's mouse
// modes are exactly those the object says.
func p26modes(c *fw.Ctx) {
	r := c.R
	c.Count("modes", 1)
	f, err := os.CreateTemp(os.Getenv("MON_WORK"), "mouse")
	if err != nil {
		c.Failf("%v", err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	shut, _ := os.Open(os.DevNull) // not writable
	defer shut.Close()
	was := os.Stdout
	defer func() { os.Stdout = was }()
	m := mouse.New()
	on := map[string]int{}
	read := 0
	enabled := false
	for i := 1 + r.IntN(8); i > 0; i-- {
		broken := r.IntN(5) == 0
		os.Stdout = f
		if broken {
			os.Stdout = shut
		}
		turnOn := r.IntN(2) == 0
		var err error
		if turnOn {
			err = m.Enable()
		} else {
			err = m.Disable()
		}
		os.Stdout = was
		c.Tracef("enable %v, broken %v: %v", turnOn, broken, err)
		all, _ := os.ReadFile(f.Name())
		for _, s := range strings.Split(string(all[read:]), "\x1b[?")[1:] {
			n, set := s[:len(s)-1], s[len(s)-1]
			switch {
			case set == 'h' && on[n] == 0:
				on[n] = 1
			case set == 'l' && on[n] == 1:
				delete(on, n)
			default:
				c.Failf("mode %s%c written with modes %v", n, set, on)
			}
		}
		read = len(all)
		needs := turnOn || enabled
		switch {
		case broken && needs:
			if err == nil {
				c.Failf("no error although nothing could be written")
			}
		case err != nil:
			c.Failf("unexpected error %v", err)
		default:
			enabled = turnOn
		}
		if m.IsEnabled() != enabled {
			c.Failf("enabled: %v, should be %v", m.IsEnabled(), enabled)
		}
		want := "map[]"
		if enabled {
			want = "map[1002:1 1006:1]"
		}
		if g := fmt.Sprint(on); g != want {
			c.Failf("the terminal's mouse modes are %s, should be %s", g, want)
		}
	}
	c.Seen("modes" + c.TraceText())
}

// grips is the model of the buttons held and the clicks made.
type grip struct {
	at      mouse.Position
	mods    mouse.Modifiers
	dragged bool
	seq     int
}

type gestures struct {
	held      map[mouse.Button]*grip
	seq       int
	threshold int
	tolerance int
	timeout   time.Duration
	last      *struct {
		b  mouse.Button
		at mouse.Position
		t  time.Time
	}
	count int
}

func cells(a, b mouse.Position) int {
	return max(a.X()-b.X(), b.X()-a.X()) + max(a.Y()-b.Y(), b.Y()-a.Y())
}

func (g *gestures) moved(to mouse.Position) {
	for _, h := range g.held {
		if cells(h.at, to) >= g.threshold {
			h.dragged = true
		}
	}
}

func (g *gestures) dragging() bool {
	for _, h := range g.held {
		if h.dragged {
			return true
		}
	}
	return false
}

// check compares the events of one report with the model and advances it.
func (g *gestures) check(c *fw.Ctx, what string, kind mouse.EventType, b mouse.Button, m mouse.Modifiers, at mouse.Position, t time.Time, evs []mouse.MouseEvent) {
	var want []string
	desc := func(k mouse.EventType, b mouse.Button, m mouse.Modifiers) string {
		return fmt.Sprintf("%v %v %v %v", k, b, at, m)
	}
	switch kind {
	case mouse.EventPress:
		g.moved(at)
		g.seq++
		g.held[b] = &grip{at: at, mods: m, seq: g.seq}
		want = []string{desc(kind, b, m)}
	case mouse.EventRelease:
		cb := b
		if b == mouse.ButtonNone && g.held[b] == nil { // the protocol does not say which
			for k := range g.held {
				cb = k
			}
		}
		g.moved(at)
		h := g.held[cb]
		delete(g.held, cb)
		if h == nil || !h.dragged {
			l := g.last
			if l != nil && l.b == cb && cells(l.at, at) <= g.tolerance && t.Sub(l.t) <= g.timeout && g.count < 3 {
				g.count++
			} else {
				g.count = 1
			}
			g.last = &struct {
				b  mouse.Button
				at mouse.Position
				t  time.Time
			}{cb, at, t}
			k := []mouse.EventType{0, mouse.EventClick, mouse.EventDoubleClick, mouse.EventTripleClick}[g.count]
			c.Count([]string{"", "click", "double", "triple"}[g.count], 1)
			want = []string{desc(k, cb, m)}
		} else {
			c.Count("no click", 1)
		}
		want = append(want, desc(kind, b, m))
	case mouse.EventMotion:
		g.moved(at)
		want = []string{desc(kind, b, m)}
		best := 0
		for hb, h := range g.held {
			if h.dragged && h.seq > best {
				best = h.seq
				want = []string{desc(mouse.EventDrag, hb, h.mods)}
			}
		}
		if best > 0 {
			c.Count("drag", 1)
		}
		if len(g.held) > 1 {
			c.Count("held2", 1)
		}
	default:
		c.Count("scroll", 1)
		want = []string{desc(kind, b, m)}
	}
	var got []string
	for _, e := range evs {
		got = append(got, fmt.Sprintf("%v %v %v %v", e.Type(), e.Button(), e.Position(), e.Modifiers()))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Failf("%s gives %v, should be %v", what, got, want)
	}
}

func p27(c *fw.Ctx) {
	r := c.R
	if r.IntN(2) == 0 {
		p27timed(c)
		return
	}
	g := &gestures{held: map[mouse.Button]*grip{}, threshold: 2, tolerance: 1, timeout: 500 * time.Millisecond}
	m := mouse.New()
	start := time.Now()
	proto := []int{0, 0, 0, 1, 2}[r.IntN(5)]
	x, y := r.IntN(30), r.IntN(30)
	still := r.IntN(2) == 0
	for i := 3 + r.IntN(25); i > 0; i-- {
		p := report{mods: []int{0, 0, 4, 8, 16, 28}[r.IntN(6)]}
		if k := r.IntN(8); k == 0 || k < 5 && !still {
			x, y = max(0, x+r.IntN(5)-2), max(0, y+r.IntN(5)-2)
			if r.IntN(6) == 0 {
				x, y = r.IntN(100), r.IntN(100)
			}
		}
		p.x, p.y = x, y
		var heldBs []int
		for b := range 3 {
			if g.held[mouse.Button(b+1)] != nil {
				heldBs = append(heldBs, b)
			}
		}
		switch k := r.IntN(12); {
		case k < 5: // press or release
			if len(heldBs) > 0 && (proto != 0 || r.IntN(4) > 0) {
				p.btn, p.up = heldBs[r.IntN(len(heldBs))], true
				break
			}
			b := []int{0, 0, 0, 1, 2}[r.IntN(5)]
			p.btn = b
			p.up = g.held[mouse.Button(b+1)] != nil || len(heldBs) == 0 && proto == 0 && r.IntN(12) == 0
		case k < 8:
			p.motion, p.btn = true, 3
			if len(heldBs) > 0 {
				p.btn = heldBs[r.IntN(len(heldBs))]
			}
		case k < 10:
			p.btn = 64 + r.IntN(4)
		case k == 10 && r.IntN(4) == 0:
			c.Tracef("reset")
			m.Reset()
			g.held, g.last, g.count = map[mouse.Button]*grip{}, nil, 0
			if m.IsDragging() {
				c.Failf("dragging after a reset")
			}
			continue
		case k == 10 && r.IntN(4) == 0: // what is no report changes nothing
			seq := p.encode(proto)
			seq = oneOf(c, seq[:len(seq)-1], seq[:len(seq)-1], "\x1b[A", "x", "")
			if _, _, ok := recognise(seq); ok {
				continue
			}
			evs, _ := m.ParseSequence(seq)
			c.Tracef("%q: %v", seq, evs)
			if len(evs) > 0 || m.IsDragging() != g.dragging() {
				c.Failf("after %q, which is no report: events %v, dragging %v, should be %v", seq, evs, m.IsDragging(), g.dragging())
			}
			c.Count("noise", 1)
			continue
		default:
			continue
		}
		seq := p.encode(proto)
		kind, b, mods := p.expected(proto)
		evs, err := m.ParseSequence(seq)
		if time.Since(start) > 300*time.Millisecond {
			c.Count("too slow", 1)
			return
		}
		c.Tracef("%q: %v", seq, evs)
		if err != nil {
			c.Failf("report %q: %v", seq, err)
		}
		g.check(c, fmt.Sprintf("%q", seq), kind, b, mods, mouse.NewPosition(x, y), start, evs)
		if m.IsDragging() != g.dragging() {
			c.Failf("after %q: dragging is %v, should be %v", seq, m.IsDragging(), g.dragging())
		}
		if kind == mouse.EventScroll {
			want := map[int]int{64: -3, 65: 3}[p.btn]
			if d := m.ScrollDelta(evs[0]); d != want {
				c.Failf("%q scrolls by %d, should be %d", seq, d, want)
			}
		} else {
			for _, e := range evs {
				if d := m.ScrollDelta(e); d != 0 {
					c.Failf("%v scrolls by %d", e, d)
				}
			}
		}
	}
	c.Seen(c.TraceText())
	c.Sample(c.TraceText())
}

func p27timed(c *fw.Ctx) {
	r := c.R
	timeout := time.Duration(1+r.IntN(1000)) * time.Millisecond
	tol, threshold, lines := r.IntN(5), 1+r.IntN(6), 1+r.IntN(5)
	c.Tracef("timeout %v tolerance %d threshold %d", timeout, tol, threshold)
	g := &gestures{held: map[mouse.Button]*grip{}, threshold: threshold, tolerance: tol, timeout: timeout}
	pr := mouseb.NewEventProcessorWithConfig(timeout, tol, threshold, lines)
	t := time.Unix(1700000000, int64(r.IntN(1000000000)))
	x, y := r.IntN(30), r.IntN(30)
	btn := mouse.ButtonLeft
	for i := 3 + r.IntN(25); i > 0; i-- {
		switch r.IntN(6) {
		case 0:
			t = t.Add(timeout)
		case 1:
			t = t.Add(timeout + 1)
		case 2:
			t = t.Add(timeout - 1)
		case 3:
			t = t.Add(timeout / 2)
		}
		if r.IntN(4) == 0 {
			x, y = max(0, x+r.IntN(5)-2), max(0, y+r.IntN(5)-2)
		}
		var kind mouse.EventType
		b := btn
		switch k := r.IntN(8); {
		case k < 4:
			kind = mouse.EventPress
			if g.held[btn] != nil {
				kind = mouse.EventRelease
			} else if r.IntN(4) == 0 {
				btn = []mouse.Button{mouse.ButtonLeft, mouse.ButtonMiddle, mouse.ButtonRight}[r.IntN(3)]
				b = btn
				if g.held[btn] != nil {
					kind = mouse.EventRelease
				}
			}
		case k < 6:
			kind, b = mouse.EventMotion, mouse.ButtonNone
		default:
			kind, b = mouse.EventScroll, []mouse.Button{mouse.ButtonWheelUp, mouse.ButtonWheelDown}[r.IntN(2)]
		}
		mods := mouse.Modifiers([]mouse.Modifiers{mouse.ModifierNone, mouse.ModifierCtrl, mouse.ModifierAlt | mouse.ModifierShift}[r.IntN(3)])
		at := mouse.NewPosition(x, y)
		ev := mouseb.NewMouseEventWithTimestamp(kind, b, at, mods, t)
		c.Count("timed", 1)
		evs := pr.ProcessEvent(ev)
		c.Tracef("%v at %v: %v", ev, t.UnixNano(), evs)
		g.check(c, fmt.Sprint(ev), kind, b, mods, at, t, evs)
		for _, e := range evs {
			if !e.Timestamp().Equal(t) {
				c.Failf("event %v has another time than its report %v", e, ev)
			}
		}
		if pr.IsDragging() != g.dragging() {
			c.Failf("after %v: dragging is %v, should be %v", ev, pr.IsDragging(), g.dragging())
		}
		if kind == mouse.EventScroll {
			want := lines
			if b == mouse.ButtonWheelUp {
				want = -lines
			}
			if d := pr.ScrollDelta(ev); d != want {
				c.Failf("%v scrolls by %d, should be %d", ev, d, want)
			}
		}
	}
	c.Seen(c.TraceText())
	c.Sample(c.TraceText())
}

func p28(c *fw.Ctx) {
	r := c.R
	m := mouse.New()
	if r.IntN(2) == 0 {
		for range 6 {
			sw, sh := r.IntN(40), r.IntN(20)
			mw, mh := r.IntN(sw+2), r.IntN(sh+2)
			if r.IntN(8) == 0 {
				mw, mh = r.IntN(60), r.IntN(60)
			}
			x, y := r.IntN(sw+6)-3, r.IntN(sh+6)-3
			if r.IntN(20) == 0 {
				x, y = r.IntN(2000)-1000, r.IntN(2000)-1000
			}
			c.Tracef("menu %dx%d at %d,%d on %dx%d", mw, mh, x, y, sw, sh)
			c.Count("menu", 1)
			p := m.CalculateMenuPosition(mouse.NewPosition(x, y), mw, mh, sw, sh)
			want := mouse.NewPosition(min(max(x, 0), sw-mw), min(max(y, 0), sh-mh))
			if mw > sw || mh > sh {
				want = mouse.NewPosition(0, 0)
			} else if want != mouse.NewPosition(x, y) {
				c.Count("shifted", 1)
			}
			if p != want {
				c.Failf("a %dx%d menu at %d,%d on a %dx%d screen is placed at %v, should be %v", mw, mh, x, y, sw, sh, p, want)
			}
		}
		c.Seen(c.TraceText())
		return
	}
	var areas []mouse.ComponentArea
	newAreas := func() {
		areas = nil
		for i := r.IntN(8); i > 0; i-- {
			areas = append(areas, mouse.ComponentArea{ID: string(rune('a' + r.IntN(5))), Area: mouse.NewBoundingBox(r.IntN(9)-2, r.IntN(6)-2, r.IntN(10)-1, r.IntN(7)-1)})
		}
		c.Tracef("areas %+v", areas)
	}
	newAreas()
	cur := ""
	x, y := r.IntN(12)-2, r.IntN(8)-2
	for i := 3 + r.IntN(25); i > 0; i-- {
		switch r.IntN(12) {
		case 0:
			newAreas()
		case 1:
			if r.IntN(3) == 0 {
				c.Tracef("reset")
				m.Reset()
				cur = ""
				if m.IsHovering() || m.CurrentHoverComponent() != "" {
					c.Failf("hovering %q after a reset", m.CurrentHoverComponent())
				}
			}
		case 2: // reports in between do not matter
			m.ParseSequence(fmt.Sprintf("\x1b[<%d;%d;%dM", r.IntN(66), 1+r.IntN(9), 1+r.IntN(9)))
		case 3:
			x, y = r.IntN(14)-2, r.IntN(10)-2
		}
		x, y = x+r.IntN(3)-1, y+r.IntN(3)-1
		now := ""
		for _, a := range areas {
			b := a.Area
			if x >= b.X() && x < b.X()+b.Width() && y >= b.Y() && y < b.Y()+b.Height() {
				now = a.ID
				break
			}
		}
		want := mouse.EventMotion
		switch {
		case now != "" && now == cur:
			want = mouse.EventHoverMove
			c.Count("move", 1)
		case now != "":
			want = mouse.EventHoverEnter
			c.Count("enter", 1)
			if cur != "" {
				c.Count("switch", 1)
			}
		case cur != "":
			want = mouse.EventHoverLeave
			c.Count("leave", 1)
		}
		cur = now
		var given2 []mouse.ComponentArea
		if areas != nil {
			given2 = append(given2, areas...)
		}
		got := m.ProcessHover(mouse.NewPosition(x, y), given2)
		c.Tracef("at %d,%d: %v", x, y, got)
		if got != want || m.CurrentHoverComponent() != cur || m.IsHovering() != (cur != "") {
			c.Failf("at %d,%d: %v over %q (hovering %v), should be %v over %q", x, y, got, m.CurrentHoverComponent(), m.IsHovering(), want, cur)
		}
	}
	c.Seen(c.TraceText())
	c.Sample(c.TraceText())
}
