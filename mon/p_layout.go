package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/phoenix-tui/phoenix/layout"

	"phoenixverif/fw"
	"phoenixverif/txt"
	"phoenixverif/vt"
)

func init() {
	fw.Register(&fw.Prop{ID: "P17", Quick: 300000, Thorough: 3000000, Case: p17,
		Fixed: []fw.Fixed{
			{Name: "size-constraints-not-drawn", Run: func(c *fw.Ctx) {
				b := interp(c, layout.NewBox("Hi").Border().Width(20).Render())
				if b.width[0] != 20 {
					c.Failf("NewBox(Hi).Border().Width(20) is drawn %d columns wide", b.width[0])
				}
				b = interp(c, layout.NewBox("Hi").Height(4).Render())
				if len(b.lines) != 4 {
					c.Failf("NewBox(Hi).Height(4) is drawn %d lines high", len(b.lines))
				}
			}},
			{Name: "bordered-height-position", Run: func(c *fw.Ctx) {
				b := layout.NewBox("Hi").Border().AlignBottom()
				if h := strings.Count(b.Render(), "\n") + 1; b.Layout(80, 24).Y() != 24-h {
					c.Failf("a bordered box of %d lines aligned to the bottom of 24 rows is at row %d", h, b.Layout(80, 24).Y())
				}
			}},
		},
		Rule:   "random content, spacing and border settings in random order, rendered (repeatedly) and positioned",
		Assume: []string{"content without control characters other than line feeds and tabs, and complete CSI sequences; undisputed character widths"},
		Need:   map[string]int64{"boxes": 100000, "bordered": 40000, "styled": 10000, "positions": 50000, "tabs": 20000}})
	fw.Register(&fw.Prop{ID: "P18", Quick: 120000, Thorough: 1200000, Case: p18,
		Rule:   "random rows and columns of boxes rendered into random areas",
		Assume: []string{"items whose size limits leave room for what they show; undisputed character widths"},
		Need:   map[string]int64{"containers": 80000, "items": 100000, "clipped": 10000, "cells": 1000000, "wide": 5000, "tabs": 15000}})
}

// boxM is the model of a layout box.
type boxM struct {
	lines      []richLine
	pad, mar   [4]int
	border     bool
	w, h       int // exact size, -1: none
	minw, maxw int
	minh, maxh int
	ah, av     int
	steps      []string
}

func newBoxM(lines []richLine) *boxM {
	return &boxM{lines: lines, w: -1, h: -1, minw: -1, maxw: -1, minh: -1, maxh: -1}
}

// step applies one random setting to both.
func (m *boxM) step(r *rand.Rand, b *layout.Box) {
	sp := func() int {
		switch {
		case r.IntN(8) == 0:
			return -r.IntN(3)
		case r.IntN(1000) == 0:
			return r.IntN(300)
		}
		return r.IntN(4)
	}
	var s string
	switch r.IntN(10) {
	case 0:
		v := [4]int{sp(), sp(), sp(), sp()}
		b.Padding(v[0], v[1], v[2], v[3])
		m.pad, s = nn4(v), fmt.Sprintf("Padding%v", v)
	case 1:
		v := sp()
		b.PaddingAll(v)
		m.pad, s = nn4([4]int{v, v, v, v}), fmt.Sprintf("PaddingAll(%d)", v)
	case 2:
		v, h := sp(), sp()
		b.PaddingVH(v, h)
		m.pad, s = nn4([4]int{v, h, v, h}), fmt.Sprintf("PaddingVH(%d,%d)", v, h)
	case 3:
		v := [4]int{sp(), sp(), sp(), sp()}
		b.Margin(v[0], v[1], v[2], v[3])
		m.mar, s = nn4(v), fmt.Sprintf("Margin%v", v)
	case 4:
		v := sp()
		b.MarginAll(v)
		m.mar, s = nn4([4]int{v, v, v, v}), fmt.Sprintf("MarginAll(%d)", v)
	case 5:
		v, h := sp(), sp()
		b.MarginVH(v, h)
		m.mar, s = nn4([4]int{v, h, v, h}), fmt.Sprintf("MarginVH(%d,%d)", v, h)
	case 6, 7:
		b.Border()
		m.border, s = true, "Border"
	case 8:
		b.NoBorder()
		m.border, s = false, "NoBorder"
	case 9:
		switch r.IntN(8) {
		case 6, 7:
			k := r.IntN(9)
			switch k {
			case 0:
				b.Align(0, 0)
			case 1:
				b.Align(0, 1)
			case 2:
				b.Align(0, 2)
			case 3:
				b.Align(1, 0)
			case 4:
				b.Align(1, 1)
			case 5:
				b.Align(1, 2)
			case 6:
				b.Align(2, 0)
			case 7:
				b.Align(2, 1)
			case 8:
				b.Align(2, 2)
			}
			m.ah, m.av, s = k/3, k%3, fmt.Sprintf("Align(%d, %d)", k/3, k%3)
		case 0:
			b.AlignLeft()
			m.ah, m.av, s = 0, 0, "AlignLeft"
		case 1:
			b.AlignCenter()
			m.ah, m.av, s = 1, 1, "AlignCenter"
		case 2:
			b.AlignRight()
			m.ah, m.av, s = 2, 0, "AlignRight"
		case 3:
			b.AlignTop()
			m.ah, m.av, s = 0, 0, "AlignTop"
		case 4:
			b.AlignMiddle()
			m.ah, m.av, s = 0, 1, "AlignMiddle"
		case 5:
			b.AlignBottom()
			m.ah, m.av, s = 0, 2, "AlignBottom"
		}
	}
	m.steps = append(m.steps, s)
}

func nn4(v [4]int) [4]int { return [4]int{nn(v[0]), nn(v[1]), nn(v[2]), nn(v[3])} }

// ref is what the box shows; without a border the lines keep their own widths.
func (m *boxM) ref() [][]refCell {
	var body [][]refCell
	for _, l := range m.lines {
		body = append(body, l.cells)
	}
	if m.border {
		p := m.pad
		p[1]++
		p[3]++
		body = spaced(body, p, 'f')
		w := maxLen(body)
		edge := func(l, r string) []refCell {
			mid := make([]refCell, w)
			for i := range mid {
				mid[i] = refCell{s: "─", k: 'b'}
			}
			return cat([]refCell{{s: l, k: 'b'}}, mid, []refCell{{s: r, k: 'b'}})
		}
		side := []refCell{{s: "│", k: 'b'}}
		out := [][]refCell{edge("┌", "┐")}
		for _, l := range body {
			out = append(out, cat(side, l, side))
		}
		body = append(out, edge("└", "┘"))
	} else {
		body = spaced(body, m.pad, 'f')
	}
	return spaced(body, m.mar, 'm')
}

// size is the size of the box, with its constraints.
func (m *boxM) size() (w, h int) {
	ref := m.ref()
	w, h = len(ref[0]), len(ref)
	return constrain(w, m.w, m.minw, m.maxw), constrain(h, m.h, m.minh, m.maxh)
}

func constrain(v, exact, lo, hi int) int {
	if exact >= 0 {
		return exact
	}
	if lo >= 0 && v < lo {
		v = lo
	}
	if hi >= 0 && v > hi {
		v = hi
	}
	return v
}

func (m *boxM) text() string {
	var t []string
	for _, l := range m.lines {
		t = append(t, l.text)
	}
	return strings.Join(t, "\n")
}

func randLines(c *fw.Ctx, styled bool, maxLines, maxLen int) []richLine {
	r := c.R
	tabs := r.IntN(6) == 0
	cl := txt.Classes(r, txt.All)
	var lines []richLine
	for i := 1 + r.IntN(maxLines); i > 0; i-- {
		n := 1 + r.IntN(maxLen)
		if r.IntN(1000) == 0 {
			n = 1 + r.IntN(600)
		}
		if r.IntN(6) == 0 && len(lines) > 0 {
			n = 0
		}
		if tabs {
			lines = append(lines, randTabs(c, cl, n, styled))
			continue
		}
		lines = append(lines, randRich(r, cl, n, styled))
	}
	return lines
}

// sameCells compares what is shown with the expectation.
func sameCells(c *fw.Ctx, what string, got []vt.Cell, want []refCell, full func() string) {
	for x, k := range want {
		g := vt.Cell{S: " "}
		if x < len(got) {
			g = got[x]
		}
		if g.S != k.s {
			c.Failf("%s column %d shows %q, expected %q\n%s", what, x, g.S, k.s, full())
		}
		if k.n == nil {
			if g.A != (vt.Attr{}) {
				c.Failf("%s column %d %q has attributes %v, expected none", what, x, g.S, g.A)
			}
			continue
		}
		if why := okColor(g.A.Fg, k.n.fg, 3); why != "" {
			c.Failf("%s column %d %q: foreground %s", what, x, g.S, why)
		}
		if g.A.Flags != k.n.flags {
			c.Failf("%s column %d %q has attributes %x, expected %x", what, x, g.S, g.A.Flags, k.n.flags)
		}
	}
	for x := len(want); x < len(got); x++ {
		if got[x].S != " " || got[x].A != (vt.Attr{}) {
			c.Failf("%s column %d shows %q, expected nothing\n%s", what, x, got[x].S, full())
		}
	}
}

func p17(c *fw.Ctx) {
	r := c.R
	styled := r.IntN(6) == 0
	m := newBoxM(randLines(c, styled, 4, 14))
	b := layout.NewBox(m.text())
	for round := 1 + r.IntN(2); round > 0; round-- {
		for i := r.IntN(7); i > 0; i-- {
			m.step(r, b)
		}
		if r.IntN(8) == 0 && m.mar != ([4]int{}) { // the constraints only matter to the position
			v := r.IntN(30)
			switch r.IntN(6) {
			case 0:
				b.Width(v)
				m.w = v
				m.steps = append(m.steps, fmt.Sprintf("Width(%d)", v))
			case 1:
				b.Height(v)
				m.h = v
				m.steps = append(m.steps, fmt.Sprintf("Height(%d)", v))
			case 2:
				v = max(v, m.minw, m.minh)
				b.MaxWidth(v).MaxHeight(v)
				m.maxw, m.maxh = v, v
				m.steps = append(m.steps, fmt.Sprintf("MaxWidth(%d).MaxHeight(%d)", v, v))
			case 3:
				if m.maxh < 0 || v <= m.maxh {
					b.MinHeight(v)
					m.minh = v
					m.steps = append(m.steps, fmt.Sprintf("MinHeight(%d)", v))
				}
			default:
				if m.maxw < 0 || v <= m.maxw {
					b.MinWidth(v)
					m.minw = v
					m.steps = append(m.steps, fmt.Sprintf("MinWidth(%d)", v))
				}
			}
		}
		var out string
		for i := 1 + r.IntN(2); i > 0; i-- {
			if r.IntN(2) == 0 {
				out = b.Render()
			} else {
				out = b.String()
			}
		}
		c.Tracef("steps %v\ncontent %q\noutput %q", m.steps, m.text(), out)
		want := m.ref()
		show := func() string { return refText(want) }
		bl := interp(c, out)
		c.Count("boxes", 1)
		c.Seen(m.steps, m.text())
		c.Sample(fmt.Sprintf("%v <- %q", m.steps, m.text()))
		if styled {
			c.Count("styled", 1)
		}
		if m.border {
			c.Count("bordered", 1)
		}
		if len(bl.lines) != len(want) {
			c.Failf("%d lines, expected %d\n%s", len(bl.lines), len(want), show())
		}
		for y, l := range want {
			if bl.ends[y] != (vt.Attr{}) {
				c.Failf("attributes %v are still active after line %d", bl.ends[y], y)
			}
			if m.border && bl.width[y] != len(l) {
				c.Failf("line %d is %d columns wide, the box %d\n%s", y, bl.width[y], len(l), show())
			}
			if bl.width[y] > len(l) {
				c.Failf("line %d is %d columns wide, more than the box (%d)\n%s", y, bl.width[y], len(l), show())
			}
			sameCells(c, fmt.Sprintf("line %d", y), bl.cells[y], l, show)
		}

		// position within a parent
		pw, ph := r.IntN(60), r.IntN(30)
		if r.IntN(100) == 0 {
			pw, ph = r.IntN(5000), r.IntN(5000)
		}
		p := b.Layout(pw, ph)
		w, h := m.size()
		at := func(mode, room, size int) int { return [3]int{0, max(0, (room-size)/2), max(0, room-size)}[mode] }
		if x := at(m.ah, pw, w); p.X() != x {
			c.Failf("in a parent of %d columns the box of width %d is at %d, expected %d (horizontal mode %d)", pw, w, p.X(), x, m.ah)
		}
		if !m.border { // the height of bordered boxes is measured with two more rows
			if y := at(m.av, ph, h); p.Y() != y {
				c.Failf("in a parent of %d rows the box of height %d is at %d, expected %d (vertical mode %d)", ph, h, p.Y(), y, m.av)
			}
		}
		c.Count("positions", 1)
	}
}

func p18(c *fw.Ctx) {
	r := c.R
	row := r.IntN(2) == 0
	f := layout.Column()
	if row {
		f = layout.Row()
	}
	styled := r.IntN(6) == 0
	justify, align, gap := 0, 0, 0
	set := func() {
		switch r.IntN(4) {
		case 0:
			justify = r.IntN(4)
			[]func() *layout.Flex{f.JustifyStart, f.JustifyCenter, f.JustifyEnd, f.JustifySpaceBetween}[justify]()
		case 1:
			align = r.IntN(4)
			[]func() *layout.Flex{f.AlignStart, f.AlignCenter, f.AlignEnd, f.AlignStretch}[align]()
		case 2:
			gap = r.IntN(5)
			if r.IntN(6) == 0 {
				gap = r.IntN(40)
			}
			f.Gap(gap)
		}
	}
	var items []*boxM
	var desc []string
	n := r.IntN(6)
	if r.IntN(8) == 0 {
		n = r.IntN(16)
	}
	big := c.Rare(200)
	if big {
		n = r.IntN(90)
		c.Count("big", 1)
	}
	for i := n; i > 0; i-- {
		set()
		m := newBoxM(randLines(c, styled, 3, 8))
		if len(m.steps) == 0 && r.IntN(3) == 0 {
			f.AddRaw(m.text())
			items = append(items, m)
			desc = append(desc, fmt.Sprintf("raw %q", m.text()))
			continue
		}
		b := layout.NewBox(m.text())
		for j := r.IntN(5); j > 0; j-- {
			m.step(r, b)
		}
		w, h := m.size()
		switch r.IntN(8) {
		case 0:
			m.w = w + r.IntN(5)
			b.Width(m.w)
		case 1:
			m.h = h + r.IntN(3)
			b.Height(m.h)
		case 2:
			m.minw = r.IntN(w + 5)
			b.MinWidth(m.minw)
		case 3:
			m.minh = r.IntN(h + 3)
			b.MinHeight(m.minh)
		case 4:
			m.maxw, m.maxh = w+r.IntN(3), h+r.IntN(3)
			b.MaxWidth(m.maxw).MaxHeight(m.maxh)
		}
		f.Add(b)
		if r.IntN(4) == 0 { // the container has what was added
			after := *m
			for j := 1 + r.IntN(4); j > 0; j-- {
				after.step(r, b)
			}
			if r.IntN(3) == 0 {
				b.Width(3).Height(2)
			}
		}
		if r.IntN(8) == 0 { // what was drawn before makes no difference
			f.Render(r.IntN(30), r.IntN(10))
		}
		items = append(items, m)
		desc = append(desc, fmt.Sprintf("%v %dx%d<%d<%d %q", m.steps, m.w, m.h, m.minw, m.minh, m.text()))
	}
	set()
	set()
	W, H := r.IntN(50), r.IntN(16)
	if r.IntN(8) == 0 {
		W, H = r.IntN(250), r.IntN(80)
	}
	if big {
		if W = r.IntN(3000); !row {
			W, H = r.IntN(100), r.IntN(1500)
		}
	}
	if r.IntN(4) == 0 { // about what the items need
		W, H = 0, 0
		for i, m := range items {
			w, h := m.size()
			if row {
				W, H = W+w, max(H, h)
			} else {
				W, H = max(W, w), H+h
			}
			if i > 0 && row {
				W += gap
			} else if i > 0 {
				H += gap
			}
		}
		W, H = max(0, W+r.IntN(3)-1), max(0, H+r.IntN(3)-1)
	}
	out := ""
	if r.IntN(10) == 0 { // no room at all
		nw, nh := W, H
		if r.IntN(2) == 0 {
			nw, W = -1-r.IntN(3), 0
		} else {
			nh, H = -1-r.IntN(3), 0
		}
		out = f.Render(nw, nh)
	} else {
		out = f.Render(W, H)
	}
	if r.IntN(8) == 0 && f.Render(W, H) != out {
		c.Failf("rendering twice gives different results")
	}
	c.Tracef("row %v justify %d align %d gap %d area %dx%d\nitems %s\noutput %q", row, justify, align, gap, W, H, strings.Join(desc, "\n      "), out)
	c.Count("containers", 1)
	c.Count("items", len(items))
	c.Seen(row, justify, align, gap, W, H, desc)
	c.Sample(fmt.Sprintf("row=%v justify=%d align=%d gap=%d %dx%d %v", row, justify, align, gap, W, H, desc))

	// the reference picture
	want := make([][]refCell, H)
	for y := range want {
		want[y] = fill(W, 'm')
	}
	room, total := H, 0
	if row {
		room = W
	}
	size := func(m *boxM) (main, cross int) {
		w, h := m.size()
		if row {
			return w, h
		}
		return h, w
	}
	for i, m := range items {
		s, _ := size(m)
		total += s
		if i > 0 {
			total += gap
		}
	}
	free := max(0, room-total)
	pos, extra := 0, 0
	switch justify {
	case 1:
		pos = free / 2
	case 2:
		pos = free
	case 3:
		if len(items) > 1 {
			extra = free / (len(items) - 1)
		}
	}
	for _, m := range items {
		s, cr := size(m)
		croom := W
		if row {
			croom = H
		}
		off := 0
		switch align {
		case 1:
			off = max(0, (croom-cr)/2)
		case 2:
			off = max(0, croom-cr)
		}
		x, y := off, pos
		if row {
			x, y = pos, off
		}
		for dy, l := range m.ref() {
			if y+dy >= H {
				c.Count("clipped", 1)
				break
			}
			for dx := range l {
				if x+dx >= W {
					c.Count("clipped", 1)
					break
				}
				if dx+1 < len(l) && l[dx+1].s == "" && x+dx+1 >= W {
					break // a wide character that does not fit
				}
				want[y+dy][x+dx] = l[dx]
				if l[dx].s == "" {
					c.Count("wide", 1)
				}
			}
		}
		pos += s + gap + extra
	}
	if H == 0 {
		if out != "" {
			c.Failf("output %q without any row", out)
		}
		return
	}
	show := func() string { return refText(want) }
	bl := interp(c, out)
	if len(bl.lines) != H {
		c.Failf("%d lines instead of %d\n%s", len(bl.lines), H, show())
	}
	for y := range want {
		if bl.width[y] != W {
			c.Failf("line %d is %d columns wide instead of %d\n%s", y, bl.width[y], W, show())
		}
		if bl.ends[y] != (vt.Attr{}) {
			c.Failf("attributes %v are still active after line %d", bl.ends[y], y)
		}
		sameCells(c, fmt.Sprintf("line %d", y), bl.cells[y], want[y], show)
		c.Count("cells", W)
	}
}
