package main

import (
	"fmt"
	"io"
)

func init() {
	register(&Prop{
		ID: "T04", Title: "Transport damage stays confined to the MPEG-TS units it touches",
		Quick: 150000, Run: runT04,
		Rule: "A run is non-trivial when the faulty link altered at least one packet and at least one unit had to survive.",
		Real: []string{"mpegts.Writer", "mpegts.Reader", "preDemuxer", "ptsInterceptor", "go-astits demuxer", "codec de-framing"},
		Stub: []string{"network (loss, bursts, duplication, reordering, corruption, foreign packets, at packet and datagram level)"},
		Assume: []string{"a loss that is a multiple of 16 packets of a track is invisible (4-bit continuity counter); such units are excluded",
			"a packet that starts a unit can be mistaken for a repetition when its counter equals the one of the preceding damaged packet; excluded"},
	})
	register(&Prop{
		ID: "T05", Title: "MPEG-TS reader joins anywhere, skips garbage and recovers within one unit",
		Quick: 200000, Run: runT05,
		Rule:   "A run is non-trivial when the reader joined late or met garbage, and at least one later unit had to be delivered.",
		Real:   []string{"mpegts.Reader", "preDemuxer", "rewindablereader", "go-astits demuxer", "mpegts.Writer"},
		Stub:   []string{"network (late join at any byte, garbage, truncated packets, foreign data)"},
		Assume: []string{"payloads, headers and garbage in these runs contain no 0x47 outside of packet starts, so that the position of the sync byte is not ambiguous"},
	})
}

// link passes packets and injects faults in the region [from, len).
func (e *Env) link(pk []*tsPkt, from int, pids []int) []*tsPkt {
	out := append([]*tsPkt(nil), pk[:from]...)
	in := append([]*tsPkt(nil), pk[from:]...)
	touch := func(p *tsPkt) { p.touched = true }
	n := 1 + e.W(4, 3, 2, 1)
	for range n {
		if len(in) == 0 {
			break
		}
		i := e.N(len(in))
		switch e.W(4, 2, 2, 2, 2, 3, 1, 1) {
		case 0: // single loss
			touch(in[i])
			in = append(in[:i:i], in[i+1:]...)
			e.Fault("packet-loss")
		case 1: // burst / datagram loss
			j := min(i+1+e.N(20), len(in))
			for _, p := range in[i:j] {
				touch(p)
			}
			in = append(in[:i:i], in[j:]...)
			e.Fault("burst-loss")
		case 2: // duplicate right away
			d := *in[i]
			d.dup = true
			touch(in[i])
			d.touched = true
			in = append(in[:i+1:i+1], append([]*tsPkt{&d}, in[i+1:]...)...)
			e.Fault("duplicate-packet")
		case 3: // duplicate a datagram
			j := min(i+1+e.N(7), len(in))
			var ds []*tsPkt
			for _, p := range in[i:j] {
				touch(p)
				d := *p
				d.dup = true
				ds = append(ds, &d)
			}
			in = append(in[:j:j], append(ds, in[j:]...)...)
			e.Fault("duplicate-datagram")
		case 4: // reorder: a datagram overtakes the next one
			l := 1 + e.N(7)
			m := min(i+l, len(in))
			j := min(m+1+e.N(7), len(in))
			for _, p := range in[i:j] {
				touch(p)
			}
			sw := append(append([]*tsPkt(nil), in[m:j]...), in[i:m]...)
			copy(in[i:j], sw)
			e.Fault("reorder")
		case 5: // corrupt a packet, keeping its sync byte
			p := *in[i]
			p.raw = append([]byte(nil), p.raw...)
			touch(in[i])
			p.touched = true
			for range 1 + e.N(3) {
				at := 1 + e.N(187)
				switch e.N(4) {
				case 0, 1:
					at = 1 + e.N(8)
				case 2: // a header inside of the payload
					var l []int
					for k := p.payOff; k+8 < 188; k++ {
						if p.raw[k] == 0xff && p.raw[k+1]&0xe0 == 0xe0 || p.raw[k] == 0x7f && p.raw[k+1]&0xe0 == 0xe0 ||
							p.raw[k] == 0x0b && p.raw[k+1] == 0x77 || p.raw[k] == 0 && p.raw[k+1] == 0 && p.raw[k+2] <= 3 {
							l = append(l, k)
						}
					}
					if len(l) > 0 {
						at = l[e.N(len(l))] + e.N(8)
					}
				}
				p.raw[at] ^= 1 << e.N(8)
			}
			in[i] = &p
			e.Fault("corruption")
		case 6: // foreign packet: null, unknown PID, or payload-less on a known PID
			raw := make([]byte, 188)
			e.Sub().fill(raw)
			raw[0] = 0x47
			switch e.N(2) {
			case 0:
				raw[1], raw[2], raw[3] = 0x1f, 0xff, 0x10
			case 1:
				raw[1], raw[2], raw[3] = 0x40|0x0a, 0xaa, 0x10|byte(e.N(16))
				for _, pd := range pids {
					if pd == 0x0aaa {
						raw[1] = 0x1f
						raw[2] = 0xff
					}
				}
			}
			p := parsePkt(raw)
			p.touched = true
			in = append(in[:i:i], append([]*tsPkt{p}, in[i:]...)...)
			e.Fault("foreign-packet")
		case 7: // transport error indicator
			p := *in[i]
			p.raw = append([]byte(nil), p.raw...)
			touch(in[i])
			p.touched = true
			p.raw[1] |= 0x80
			in[i] = &p
			e.Fault("transport-error")
		}
	}
	return append(out, in...)
}

// survivors decides from the received packets which units must be delivered.
// The second result is true when splices can make other data appear.
func (c *tsCase) survivors(all, recv []*tsPkt) []bool {
	must := make([]bool, len(c.units))
	touchedUnit := make([]bool, len(c.units))
	count := make([]int, len(c.units))
	for _, p := range all {
		if p.unit >= 0 {
			count[p.unit]++
			if p.touched {
				touchedUnit[p.unit] = true
			}
		}
	}
	pidTrack := map[int]int{}
	for i, t := range c.tracks {
		pidTrack[int(t.tr.PID)] = i
	}
	// packets by track as they arrive
	seq := make([][]*tsPkt, len(c.tracks))
	for _, p := range recv {
		q := p
		if p.touched {
			// its header may have changed
			n := parsePkt(p.raw)
			n.unit, n.k, n.last, n.touched, n.idx = p.unit, p.k, p.last, true, p.idx
			q = n
		}
		if ti, ok := pidTrack[q.pid]; ok {
			if q.touched && !q.hasPay {
				continue
			}
			seq[ti] = append(seq[ti], q)
		}
	}
	for ti, t := range c.tracks {
		s := seq[ti]
		pos := map[int][]int{} // unit -> positions
		for i, p := range s {
			if p.unit >= 0 && c.units[p.unit].track == ti {
				pos[p.unit] = append(pos[p.unit], i)
			}
		}
		for ui, u := range c.units {
			if u.track != ti || touchedUnit[ui] {
				continue
			}
			ps := pos[ui]
			if len(ps) == 0 || len(ps) != count[ui] {
				continue
			}
			ok := true
			for k, i := range ps {
				if i != ps[0]+k || s[i].k != k {
					ok = false
				}
			}
			if !ok {
				continue
			}
			first, last := ps[0], ps[len(ps)-1]
			if first > 0 && s[first-1].cc == s[first].cc {
				continue // taken for a repetition
			}
			if isVideoKind(t.kind) || c.pesLen(u) > 0xffff {
				// ends when the next one starts
				if last+1 < len(s) {
					n := s[last+1]
					if n.touched || n.unit < 0 || n.k != 0 || n.cc != (s[last].cc+1)&15 {
						continue
					}
				}
			}
			must[ui] = true
		}
	}
	return must
}

func runT04(e *Env) {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 30, small: e.P(1, 3)})
	c.mux()
	all := c.packets()
	// the link is healthy until the reader has its tables and parameters
	clean := 0
	for ti, t := range c.tracks {
		if needsDetection(t.kind) {
			for _, u := range c.units {
				if u.track == ti {
					clean = max(clean, u.off1/188)
					break
				}
			}
		}
	}
	for i, p := range all {
		if p.pid == 0x1000 {
			clean = max(clean, i+1)
			break
		}
	}
	if clean >= len(all) {
		e.Discard()
	}
	var pids []int
	for _, t := range c.tracks {
		pids = append(pids, int(t.tr.PID))
	}
	f0 := map[string]int{}
	for k, v := range e.faults {
		f0[k] = v
	}
	recv := e.link(all, clean, pids)
	corrupt := e.faults["corruption"] > 0 || e.faults["foreign-packet"] > 0
	dups := e.faults["duplicate-packet"]+e.faults["duplicate-datagram"] > 0
	var wire []byte
	touched, splices := 0, 0
	var eff []*tsPkt // packets that count for the receiver
	for _, p := range recv {
		wire = append(wire, p.raw...)
		if p.touched {
			touched++
		}
		if p.raw[1]&0x80 == 0 {
			eff = append(eff, p)
		}
	}
	recv = eff
	for _, p := range all {
		if p.touched {
			touched++
		}
		if p.splice {
			splices++
		}
	}
	var rd io.Reader = e.plainReader(wire)
	if e.P(1, 3) {
		rd = e.newSimReader(wire)
	}
	rv, err := e.newRecv(rd)
	if err != nil {
		e.Fail("init", "cannot open although the damage starts after tables and parameters: %v", err)
	}
	c.checkTracks(rv.r.Tracks())
	rv.drain()
	e.Check(rv.err == io.EOF, "end", "ended with %v", rv.err)

	must := c.survivors(all, recv)
	nm := 0
	extraBudget := touched + splices
	extras := 0
	for ti, t := range c.tracks {
		g := rv.got[ti]
		var units []int
		for ui, u := range c.units {
			if u.track == ti {
				units = append(units, ui)
			}
		}
		// greedy in-order match of the deliveries against the written units
		hs := make(map[uint64][]int)
		for _, ui := range units {
			h := hashUnits(c.units[ui].data)
			hs[h] = append(hs[h], ui)
		}
		cur := -1
		matched := map[int]bool{}
		sawPTS := e.ptsBefore(c)
		for k, it := range g {
			ok := false
			for _, ui := range hs[it.hash] {
				u := c.units[ui]
				if t.kind == kKLVAsync {
					// the last timestamp that passed on the wire
					if !matched[ui] && ui > cur && (sawPTS[it.pts] || corrupt) {
						ok = true
					}
				} else if u.pts&ts33 == it.pts && u.dts&ts33 == it.dts && ui > cur && !matched[ui] {
					ok = true
				}
				if ok {
					matched[ui] = true
					cur = ui
					break
				}
			}
			if !ok {
				extras++
				// with losses, repetitions and reordering only, everything that is
				// delivered was written
				if !corrupt && splices == 0 && !c.aliasing(all, recv, ti) {
					known := false
					for _, ui := range hs[it.hash] {
						u := c.units[ui]
						if t.kind == kKLVAsync || u.pts&ts33 == it.pts && u.dts&ts33 == it.dts {
							known = true
						}
					}
					if !known && k == len(g)-1 && c.tornTail(recv, ti) {
						e.Probe("torn video unit at end of stream")
						continue
					}
					if !known {
						e.Fail("altered", "track %d (%s) delivery %d was never written: %d/%d %s (only losses, duplicates and reordering)", ti, kindNames[t.kind], k, it.pts, it.dts, sizes(it.data))
					}
					if !dups && e.faults["reorder"] == 0 {
						e.Fail("repeated", "track %d (%s) delivery %d is repeated or out of order with losses only", ti, kindNames[t.kind], k)
					}
				}
			}
		}
		pos := 0
		for _, ui := range units {
			if !must[ui] {
				continue
			}
			if t.kind == kKLVAsync && !c.hasPTSBefore(recv, ui) {
				continue
			}
			nm++
			found := false
			for ; pos < len(g) && !found; pos++ {
				it := g[pos]
				u := c.units[ui]
				found = it.hash == hashUnits(u.data) && (t.kind == kKLVAsync || u.pts&ts33 == it.pts && u.dts&ts33 == it.dts)
			}
			if !found {
				e.Fail("collateral", "track %d (%s): unit %d (%d/%d %s) was received intact but not delivered; deliveries: %s", ti, kindNames[t.kind], ui,
					c.units[ui].pts, c.units[ui].dts, sizes(c.units[ui].data), dumpItems(g))
			}
		}
	}
	e.Check(extras <= extraBudget, "extras", "%d deliveries do not correspond to written units, %d packets were touched", extras, touched)
	if len(rv.decErr) > 0 {
		e.Probe("decode errors reported")
	}
	if touched > 0 && nm > 0 {
		e.NonTrivial()
	}
	e.sample = fmt.Sprintf("%s, %d packets, %d touched, %d units had to survive", c.describe(), len(all), touched, nm)
}

func dumpItems(g []*tsItem) string {
	s := ""
	for i, it := range g {
		if i > 30 {
			return s + "…"
		}
		s += fmt.Sprintf("(%d/%d%s)", it.pts, it.dts, sizes(it.data))
	}
	return s
}

// ptsBefore is the set of timestamps that were written.
func (e *Env) ptsBefore(c *tsCase) map[int64]bool {
	m := map[int64]bool{}
	for _, u := range c.units {
		if c.tracks[u.track].kind != kKLVAsync {
			m[u.pts&ts33] = true
		}
	}
	return m
}

// tornTail: the last unit of a track without explicit length lost its end.
func (c *tsCase) tornTail(recv []*tsPkt, ti int) bool {
	var last *tsPkt
	for _, p := range recv {
		if p.pid == int(c.tracks[ti].tr.PID) {
			last = p
		}
	}
	return last != nil && !last.last && last.unit >= 0 && (isVideoKind(c.tracks[ti].kind) || c.pesLen(c.units[last.unit]) > 0xffff)
}

// hasPTSBefore: an intact timestamp was received before the unit.
func (c *tsCase) hasPTSBefore(recv []*tsPkt, ui int) bool {
	for _, p := range recv {
		if p.unit == ui {
			return false
		}
		if p.unit >= 0 && !p.touched && p.k == 0 && p.pusi && c.tracks[c.units[p.unit].track].kind != kKLVAsync {
			return true
		}
	}
	return false
}

// aliasing: on this track, two packets that are not neighbours in the written
// stream follow each other with consecutive continuity counters.
func (c *tsCase) aliasing(all, recv []*tsPkt, ti int) bool {
	pid := int(c.tracks[ti].tr.PID)
	var w []*tsPkt
	ord := map[int]int{}
	for _, p := range all {
		if p.pid == pid {
			ord[p.idx] = len(w)
			w = append(w, p)
		}
	}
	prev := -2
	pcc := -1
	for _, p := range recv {
		if p.pid != pid {
			continue
		}
		o := ord[p.idx]
		if prev >= 0 && o != prev+1 && (pcc+1)&15 == p.cc {
			return true
		}
		if prev >= 0 && o != prev+1 && pcc == p.cc && o != prev {
			return true
		}
		// a repetition of an earlier packet resets the sequence
		prev, pcc = o, p.cc
	}
	return false
}

func runT05(e *Env) {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 40, small: true, noSync: true})
	// the clock must not produce 0x47 in headers: verified on the wire below
	// more tables: the leading track repeats them at each random access point
	wire := c.mux()
	for off := 0; off < len(wire); off += 188 {
		for k := 1; k < 188; k++ {
			if wire[off+k] == 0x47 {
				if off < 10 && k < 4 {
					e.Discard()
				}
				// cannot change headers: give up on this run
				e.Discard()
			}
		}
	}
	pk := c.packets()
	join := 0
	mode := e.N(3)
	if mode != 1 {
		join = e.N(len(wire))
		e.Fault("late-join")
		e.Ev("join", join)
	}
	// garbage between or inside of packets after the join point
	type ins struct {
		at  int
		del int
		b   []byte
	}
	var is []ins
	if mode != 0 {
		for range 1 + e.N(3) {
			x := ins{at: e.R(join, len(wire))}
			if e.P(1, 2) {
				x.at = x.at / 188 * 188
				if x.at < join {
					x.at = join
				}
			}
			switch e.N(3) {
			case 0:
				x.b = make([]byte, 1+e.N(600))
				e.Sub().fill(x.b)
				e.Fault("garbage")
			case 1:
				x.del = 1 + e.N(300)
				e.Fault("bytes-lost")
			case 2:
				x.b = make([]byte, 188*(1+e.N(3)))
				e.Sub().fill(x.b)
				e.Fault("garbage")
			}
			for i := range x.b {
				if x.b[i] == 0x47 {
					x.b[i] = 0x48
				}
			}
			is = append(is, x)
		}
		for i := 1; i < len(is); i++ {
			for j := i; j > 0 && is[j].at < is[j-1].at; j-- {
				is[j], is[j-1] = is[j-1], is[j]
			}
		}
	}
	// received bytes, and for each packet whether it arrives whole and contiguous
	var rx []byte
	whole := make([]bool, len(pk))
	pos := join
	type seg struct{ from, to int }
	var segs []seg
	for _, x := range is {
		if x.at < pos {
			x.at = pos
		}
		rx = append(rx, wire[pos:x.at]...)
		segs = append(segs, seg{pos, x.at})
		rx = append(rx, x.b...)
		pos = min(len(wire), x.at+x.del)
	}
	rx = append(rx, wire[pos:]...)
	segs = append(segs, seg{pos, len(wire)})
	for i := range pk {
		for _, s := range segs {
			if s.from <= i*188 && (i+1)*188 <= s.to {
				whole[i] = true
			}
		}
	}
	// a truncated packet swallows what follows it: a packet start whose 188 bytes
	// are not whole makes the packets it covers unusable, and the reader is
	// aligned again at the next sync byte.
	// map rx position of whole packets
	rxPos := make([]int, len(pk))
	{
		p := 0
		si := 0
		_ = si
		wpos := join
		for k, x := range is {
			at := segs[k].to
			for i := range pk {
				if whole[i] && i*188 >= segs[k].from && (i+1)*188 <= segs[k].to {
					rxPos[i] = p + i*188 - wpos
				}
			}
			p += at - wpos + len(x.b)
			wpos = segs[k+1].from
		}
		for i := range pk {
			if whole[i] && i*188 >= segs[len(segs)-1].from {
				rxPos[i] = p + i*188 - wpos
			}
		}
	}
	aligned := map[int]bool{}
	for at := 0; at < len(rx); {
		if rx[at] == 0x47 {
			aligned[at] = true
			at += 188
		} else {
			at++
		}
	}
	for i := range pk {
		if whole[i] && !aligned[rxPos[i]] {
			whole[i] = false // covered by a truncated packet before it
		}
	}
	byPos := map[int]*tsPkt{}
	for i, p := range pk {
		if whole[i] {
			byPos[rxPos[i]] = p
		} else {
			p.touched = true
		}
	}
	var recv []*tsPkt
	for at := 0; at+188 <= len(rx); at++ {
		if !aligned[at] {
			continue
		}
		if p := byPos[at]; p != nil {
			recv = append(recv, p)
		} else { // a packet mixed with something else
			p := parsePkt(rx[at : at+188])
			p.touched = true
			recv = append(recv, p)
		}
	}
	// is the stream openable from what arrives?
	sawPAT := false
	pmtAt := -1
	for k, p := range recv {
		if p.touched {
			continue
		}
		if p.pid == 0 {
			sawPAT = true
		}
		if p.pid == 0x1000 && sawPAT {
			pmtAt = k
			break
		}
	}
	must := c.survivors(pk, recv)
	open := pmtAt >= 0
	for _, t := range c.tracks {
		if !needsDetection(t.kind) {
			continue
		}
		// its parameters are looked for in the first data of the track that follows
		// the tables; damaged data makes the reader give up, which is allowed
		ok := false
		for k, p := range recv {
			if p.pid != int(t.tr.PID) || pmtAt < 0 {
				continue
			}
			if p.touched || p.splice {
				ok = false
				break
			}
			if !p.pusi {
				continue
			}
			ok = p.unit >= 0 && must[p.unit]
			if !ok || k > pmtAt {
				break // a torn unit
			}
			ok = false
		}
		open = open && ok
	}
	rv, err := e.newRecv(e.newSimReader(rx))
	if err != nil {
		e.Probe("not openable after the join point")
		if open {
			if e.verbose {
				for k, p := range recv {
					e.Ev("pkt", k, p.idx, p.pid, p.pusi, p.touched, p.unit, p.k, p.last, p.cc)
				}
			}
			e.Fail("init", "cannot open (%v) although PAT, PMT and all parameters are received intact", err)
		}
		return
	}
	rv.drain()
	e.Check(rv.err == io.EOF, "end", "ended with %v", rv.err)
	nm := 0
	for ti, t := range c.tracks {
		if t.kind == kKLVAsync {
			continue
		}
		var ri = -1
		for k, x := range rv.r.Tracks() {
			if x.PID == t.tr.PID {
				ri = k
			}
		}
		e.Check(ri >= 0, "tracks", "track with PID %d not detected", t.tr.PID)
		g := rv.got[ri]
		k := 0
		for ui, u := range c.units {
			if u.track != ti || !must[ui] {
				continue
			}
			nm++
			h := hashUnits(u.data)
			for k < len(g) && !(g[k].hash == h && g[k].pts == u.pts&ts33 && g[k].dts == u.dts&ts33) {
				k++
			}
			if k >= len(g) {
				e.Fail("recovery", "track %d (%s): unit %d (%d/%d %s) was received intact after the disturbance but not delivered; deliveries: %s", ti, kindNames[t.kind], ui,
					u.pts, u.dts, sizes(u.data), dumpItems(g))
			}
			k++
		}
	}
	for k, a := range segs {
		if k > 0 && a.from < a.to && len(rv.decErr) == 0 && len(is[k-1].b) > 400 {
			e.Fail("silent-garbage", "%d bytes of garbage were skipped without a decode error", len(is[k-1].b))
		}
	}
	if nm > 0 {
		e.NonTrivial()
	}
	e.sample = fmt.Sprintf("%s, join at %d, %d disturbances, %d units had to be delivered", c.describe(), join, len(is), nm)
}
