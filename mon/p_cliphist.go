package main

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"sync"
	"time"

	"phoenixverif/fw"

	"github.com/phoenix-tui/phoenix/clipboard"
	clipbridge "github.com/phoenix-tui/phoenix/clipboard/verifbridge"
)

func init() {
	fw.Register(&fw.Prop{ID: "P30", Quick: 100000, Thorough: 6000000, Case: p30,
		Rule:   "operation histories under a controlled clock (writes of all kinds, failing writes, pauses of every length, limits, ages, restoring, clearing, switching off and on); concurrent writers, readers and cleaners on one clipboard under the race detector",
		Assume: []string{"the clock does not jump backwards"},
		Need:   map[string]int64{"write": 200000, "evicted": 30000, "expired": 5000, "restored": 10000, "same instant": 30000, "failed write": 20000, "concurrent write": 30000, "window": 5000}})
}

func p30(c *fw.Ctx) {
	if c.R.IntN(12) == 0 {
		p30conc(c)
		return
	}
	inBubble(func() { p30hist(c) })
}

type histEntry struct {
	text, mime string
	at         time.Time
	id         string
}

func p30hist(c *fw.Ctx) {
	r := c.R
	f := &fakeClip{there: true}
	cb, err := clipbridge.Build([]*clipbridge.Fake{f.provider("fake")}, false, time.Second, false)
	if err != nil {
		c.Failf("%v", err)
	}
	var (
		on      bool
		limit   int
		age     time.Duration
		want    []histEntry // oldest first
		gone    []string
		offered = map[string]bool{}
	)
	drop := func(n int) {
		for _, e := range want[:n] {
			gone = append(gone, e.id)
		}
		want = append([]histEntry(nil), want[n:]...)
	}
	wrote := func(text, mime string) {
		if !on {
			return
		}
		now := time.Now()
		if n := len(want); n > 0 && want[n-1].at.Equal(now) {
			c.Count("same instant", 1)
		}
		want = append(want, histEntry{text: text, mime: mime, at: now})
		if limit > 0 && len(want) > limit {
			drop(len(want) - limit)
			c.Count("evicted", 1)
		}
	}
	step := func(f string, a ...any) {
		c.Tracef("%s %s", time.Now().Format("15:04:05.000000000"), fmt.Sprintf(f, a...))
	}
	for i := 4 + r.IntN(30); i > 0; i-- {
		switch op := r.IntN(20); {
		case op < 8:
			text := clipText(r)
			f.badW = r.IntN(8) == 0
			k := r.IntN(4)
			name := []string{"Write", "Write", "WriteHTML", "WriteRTF"}[k]
			f.puts = nil
			err := []func(string) error{cb.Write, cb.Write, cb.WriteHTML, cb.WriteRTF}[k](text)
			step("%s(%q), failing %v: %v", name, text, f.badW, err)
			ok := text != "" && !f.badW
			if (err == nil) != ok {
				c.Failf("%s(%q), provider failing %v: %v", name, text, f.badW, err)
			}
			if ok {
				c.Count("write", 1)
				wrote(text, []string{"text/plain", "text/plain", "text/html", "text/rtf"}[k])
			} else {
				c.Count("failed write", 1)
			}
			f.badW = false
			if r.IntN(4000) == 0 { // very many
				n := r.IntN(1600)
				step("%d more", n)
				for k := 0; k < n; k++ {
					if err := cb.Write(fmt.Sprint("bulk ", k)); err != nil {
						c.Failf("write %d of many: %v", k, err)
					}
					wrote(fmt.Sprint("bulk ", k), "text/plain")
				}
				c.Count("bulk", 1)
			}
		case op < 11:
			d := []time.Duration{0, 1, time.Millisecond, time.Second, time.Minute, time.Hour, 25 * time.Hour}[r.IntN(7)]
			step("sleep %v", d)
			time.Sleep(d)
		case op == 11:
			limit = []int{-5, 0, 1, 2, 3, 5, 10, 100, 1000, 1 << 40, math.MaxInt}[r.IntN(11)]
			age = []time.Duration{-1, 0, 0, 1, time.Second, time.Minute, 24 * time.Hour}[r.IntN(7)]
			step("enable %d, %v", limit, age)
			cb.EnableHistory(limit, age)
			drop(len(want))
			on = true
		case op == 12:
			if r.IntN(2) == 0 {
				step("disable")
				cb.DisableHistory()
				drop(len(want))
				on = false
			}
		case op == 13:
			if r.IntN(2) == 0 {
				step("clear")
				cb.ClearHistory()
				drop(len(want))
			}
		case op < 16:
			n := 0
			if age > 0 && on {
				var keep []histEntry
				for _, e := range want {
					if time.Since(e.at) > age {
						n++
						gone = append(gone, e.id)
					} else {
						keep = append(keep, e)
					}
				}
				want = keep
			}
			got := cb.RemoveExpiredHistory()
			step("remove expired: %d", got)
			if got != n {
				c.Failf("removed %d expired entries, should be %d", got, n)
			}
			c.Count("expired", n)
		default:
			f.badW = r.IntN(8) == 0
			f.puts = nil
			var e histEntry
			id := "no such entry"
			known := false
			if len(want) > 0 && r.IntN(4) > 0 {
				e = want[r.IntN(len(want))]
				id, known = e.id, true
			} else if len(gone) > 0 {
				id = gone[r.IntN(len(gone))]
			}
			err := cb.RestoreFromHistory(id)
			step("restore %s (%q): %v", id, e.text, err)
			ok := known && !f.badW
			wantPuts := []string{}
			if known {
				wantPuts = append(wantPuts, e.text)
			}
			if (err == nil) != ok || !slices.Equal(f.puts, wantPuts) {
				c.Failf("restoring %q (%v): %v, provider was given %q", e.text, known, err, f.puts)
			}
			if ok {
				c.Count("restored", 1)
				wrote(e.text, e.mime)
			}
			f.badW = false
		}
		// the history agrees with the record, whichever way it is asked
		if cb.IsHistoryEnabled() != on {
			c.Failf("enabled %v, should be %v", cb.IsHistoryEnabled(), on)
		}
		if got := cb.GetHistorySize(); got != len(want) {
			c.Failf("size %d, should be %d", got, len(want))
		}
		total := 0
		ids := map[string]bool{}
		all := cb.GetHistory()
		check := func(how string, got []clipboard.HistoryEntry, n int) {
			if got == nil || len(got) != n {
				c.Failf("%s: %d entries (nil %v), should be %d", how, len(got), got == nil, n)
			}
			for j, g := range got {
				w := &want[len(want)-1-j]
				if string(g.Content) != w.text || g.MIMEType != w.mime || !g.Timestamp.Equal(w.at) || g.Size != len(w.text) {
					c.Failf("%s: entry %d is %q %s of %v, %d bytes; should be %q %s of %v", how, j, g.Content, g.MIMEType, g.Timestamp, g.Size, w.text, w.mime, w.at)
				}
				if w.id == "" && !offered[g.ID] {
					w.id = g.ID
					offered[g.ID] = true
				}
				if g.ID == "" || g.ID != w.id {
					c.Failf("%s: entry %d has id %q, was %q", how, j, g.ID, w.id)
				}
			}
		}
		check("history", all, len(want))
		for _, g := range all {
			if ids[g.ID] {
				c.Failf("two entries with id %s", g.ID)
			}
			ids[g.ID] = true
			total += len(g.Content)
		}
		if got := cb.GetHistoryTotalSize(); got != total {
			c.Failf("total size %d, should be %d", got, total)
		}
		k := r.IntN(len(want)+3) - 1
		n := k
		if k <= 0 || k > len(want) {
			n = len(want)
		}
		recent := cb.GetRecentHistory(k)
		check(fmt.Sprintf("recent %d", k), recent, n)
		// what was handed out is the caller's
		for _, l := range [][]clipboard.HistoryEntry{all, recent} {
			for j := range l {
				for x := range l[j].Content {
					l[j].Content[x] ^= 0x55
				}
				l[j].Timestamp = time.Time{}
			}
			slices.Reverse(l)
		}
		for j := range want {
			g, err := cb.GetHistoryEntry(want[j].id)
			if err != nil || string(g.Content) != want[j].text || g.ID != want[j].id || g.MIMEType != want[j].mime || !g.Timestamp.Equal(want[j].at) || g.Size != len(want[j].text) {
				c.Failf("entry %s: %+v, %v; should be %q", want[j].id, g, err, want[j].text)
			}
			for x := range g.Content {
				g.Content[x] = '!'
			}
		}
		if len(gone) > 0 {
			if g, err := cb.GetHistoryEntry(gone[r.IntN(len(gone))]); err == nil {
				c.Failf("a removed entry is still there: %+v", g)
			}
		}
		if len(want) > 0 {
			c.Seen(len(want), limit, age, want[len(want)-1].text, time.Since(want[0].at))
		}
	}
	check := cb.GetHistory()
	if len(check) != len(want) {
		c.Failf("size %d, should be %d", len(check), len(want))
	}
	c.Sample(c.TraceText())
}

// p30conc: many goroutines at once; the provider's record of what it was given
// is the order the history has to have.
func p30conc(c *fw.Ctx) {
	r := c.R
	f := &fakeClip{there: true}
	prov := f.provider("fake")
	put := prov.Put
	var done []string // successful writes in order; guarded by f.mu
	prov.Put = func(s, mime string) error {
		err := put(s, mime)
		if strings.HasSuffix(s, "!") {
			return errFake
		}
		f.mu.Lock()
		done = append(done, s)
		f.mu.Unlock()
		return err
	}
	cb, err := clipbridge.Build([]*clipbridge.Fake{prov}, false, time.Second, false)
	if err != nil {
		c.Failf("%v", err)
	}
	limit := []int{0, 1, 2, 5, 20}[r.IntN(5)]
	cb.EnableHistory(limit, time.Hour)
	clears, toggles := r.IntN(3) == 0, r.IntN(4) == 0
	var wg sync.WaitGroup
	var mu sync.Mutex
	var windows [][]clipboard.HistoryEntry
	total := 0
	for g := 2 + r.IntN(4); g > 0; g-- {
		n := 5 + r.IntN(20)
		total += n
		bad := r.IntN(3) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				text := fmt.Sprintf("writer %d text %d", g, i)
				if bad && i%3 == 0 {
					text += "!"
				}
				err := []func(string) error{cb.Write, cb.WriteHTML, cb.WriteRTF}[i%3](text)
				if (err != nil) != strings.HasSuffix(text, "!") {
					c.Notef("write of %q: %v", text, err)
				}
			}
		}()
	}
	for g := 1 + r.IntN(3); g > 0; g-- {
		n := 5 + r.IntN(20)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				h := cb.GetHistory()
				mu.Lock()
				windows = append(windows, h, cb.GetRecentHistory(3))
				mu.Unlock()
				cb.GetHistorySize()
				cb.GetHistoryTotalSize()
				cb.RemoveExpiredHistory()
				cb.IsHistoryEnabled()
				if len(h) > 0 {
					cb.GetHistoryEntry(h[0].ID)
					for x := range h[0].Content {
						_ = h[0].Content[x]
					}
				}
				cb.Read()
				if clears && i%7 == 3 {
					cb.ClearHistory()
				}
				if toggles && i%9 == 5 {
					cb.DisableHistory()
					cb.EnableHistory(limit, 0)
				}
			}
		}()
	}
	wg.Wait()
	c.Count("concurrent write", total)
	windows = append(windows, cb.GetHistory())
	pos := map[string]int{}
	for i, s := range done {
		pos[s] = i
	}
	c.Tracef("%d writes, limit %d, clears %v, toggles %v", total, limit, clears, toggles)
	for w, h := range windows {
		c.Count("window", 1)
		if limit > 0 && len(h) > limit {
			c.Failf("%d entries, the limit is %d", len(h), limit)
		}
		for i, e := range h {
			p, ok := pos[string(e.Content)]
			if !ok {
				c.Failf("the history has %q, which was never written", e.Content)
			}
			if i > 0 && pos[string(h[i-1].Content)] != p+1 && !toggles {
				c.Failf("window %d: %q (write %d) is followed by %q (write %d)", w, h[i-1].Content, pos[string(h[i-1].Content)], e.Content, p)
			}
			if i > 0 && pos[string(h[i-1].Content)] <= p {
				c.Failf("window %d: %q (write %d) is followed by the newer %q (write %d)", w, h[i-1].Content, pos[string(h[i-1].Content)], e.Content, p)
			}
		}
	}
	if last := windows[len(windows)-1]; !clears && !toggles {
		n := len(done)
		if limit > 0 {
			n = min(n, limit)
		}
		if len(last) != n || n > 0 && string(last[0].Content) != done[len(done)-1] {
			c.Failf("%d entries of %d writes with limit %d", len(last), len(done), limit)
		}
	}
	order := ""
	for _, s := range done {
		order += s[7:9]
	}
	c.Seen(order)
	if (f.content == "") != (len(done) == 0) {
		c.Failf("the provider holds %q after %d writes", f.content, len(done))
	}
}
