package main

import (
	"fmt"
	"io"
	"runtime"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/verifhook"
)

func init() {
	register(&Prop{
		ID: "T07", Quick: 200000, Run: runT07, Steps: 40_000_000,
		Rule:   "A run is non-trivial when a stream with structural damage was read until the reader reported the end or refused the stream.",
		Real:   []string{"mpegts.Reader", "robust demuxer", "go-astits demuxer", "codec depacketisers"},
		Stub:   []string{"network (segmentation, sporadic end)", "sender (structure-aware damage of tables, descriptors, adaptation fields, PES headers and codec framing, with repaired checksums)"},
		Assume: []string{"memory is measured as bytes allocated during the run, and compared with a generous multiple of the input"},
	})
}

// hostilePayloads changes framing bytes of the units before they are packetised.
func (c *tsCase) hostileUnits() {
	e := c.e
	for _, u := range c.units {
		if !e.P(1, 4) {
			continue
		}
		for i, d := range u.data {
			if len(d) == 0 || !e.P(1, 2) {
				continue
			}
			d = append([]byte(nil), d...)
			u.data[i] = d
			switch e.N(4) {
			case 0:
				d[e.N(min(len(d), 12))] ^= byte(1 << e.N(8))
			case 1:
				d[e.N(min(len(d), 12))] = []byte{0, 0xff, 0x7f, 0x80, 1}[e.N(5)]
			case 2:
				d[e.N(len(d))] = byte(e.N(256))
			case 3:
				u.data[i] = d[:1+e.N(len(d))]
			}
			e.Fault("codec-framing")
		}
	}
}

// fixCRC recomputes the checksum of a section that fits the payload.
func fixCRC(pl []byte) {
	if len(pl) < 4 {
		return
	}
	o := 1 + int(pl[0])
	if o+3 > len(pl) {
		return
	}
	l := int(pl[o+1]&0x0f)<<8 | int(pl[o+2])
	if l < 4 || o+3+l > len(pl) {
		return
	}
	s := pl[o : o+3+l]
	crc := crcMPEG(s[:len(s)-4])
	s[len(s)-4], s[len(s)-3], s[len(s)-2], s[len(s)-1] = byte(crc>>24), byte(crc>>16), byte(crc>>8), byte(crc)
}

var hostileBytes = []byte{0, 1, 0xff, 0xfe, 0x7f, 0x80, 0x47, 188, 183, 184, 0x0f, 0xf0}

func (e *Env) hostileByte(b byte) byte {
	switch e.N(4) {
	case 0:
		return b ^ 1<<e.N(8)
	case 1:
		return hostileBytes[e.N(len(hostileBytes))]
	case 2:
		return b + byte(e.N(7)) - 3
	default:
		return byte(e.N(256))
	}
}

// section builds a table packet with drawn content.
func (e *Env) hostileSection(pid int, pids []int) []byte {
	p := make([]byte, 188)
	for i := range p {
		p[i] = 0xff
	}
	p[0] = 0x47
	p[1] = 0x40 | byte(pid>>8)
	p[2] = byte(pid)
	p[3] = 0x10 | byte(e.N(16))
	p[4] = 0
	s := p[5:]
	n := 0
	put := func(b ...byte) {
		for _, x := range b {
			if n < len(s)-4 {
				s[n] = x
				n++
			}
		}
	}
	if pid == 0 {
		put(0, 0xb0, 0, 0, 1, 0xc1, 0, 0)
		for range e.N(4) {
			q := 0x1000
			if e.P(1, 4) {
				q = pids[e.N(len(pids))]
			}
			put(0, byte(e.N(3)), 0xe0|byte(q>>8), byte(q))
		}
	} else {
		put(2, 0xb0, 0, 0, 1, 0xc1, 0, 0, 0xe1, 0)
		desc := func() []byte {
			var d []byte
			for range e.N(4) {
				tag := []byte{0x05, 0x0a, 0x26, 0x27, 0x59, 0x6a, 0x7a, 0x7f, 0x7c, 0x45, 0x56, 0x4d, 0x50, 0x40, 0x0e, 0x28, 0x48, 0x54, 0x46, 0x58, 0x5f}[e.N(21)]
				var c []byte
				switch e.N(4) {
				case 0:
					c = make([]byte, e.N(20))
					e.Sub().fill(c)
				case 1:
					c = []byte{'O', 'p', 'u', 's'}
				case 2:
					c = []byte{'K', 'L', 'V', 'A'}
				case 3:
					c = append([]byte{0x80}, byte(e.N(256)), byte(e.N(256)), byte(e.N(256)), byte(e.N(256)))
					c = c[:1+e.N(5)]
				}
				l := byte(len(c))
				if e.P(1, 6) {
					l = e.hostileByte(l)
				}
				d = append(d, tag, l)
				d = append(d, c...)
			}
			return d
		}
		pi := desc()
		put(0xf0, byte(len(pi)))
		put(pi...)
		for range e.N(6) {
			st := []byte{0x1b, 0x24, 0x10, 0x02, 0x01, 0x06, 0x0f, 0x11, 0x03, 0x04, 0x81, 0x87, 0x15, 0x05, 0x80}[e.N(15)]
			q := pids[e.N(len(pids))]
			d := desc()
			l := byte(len(d))
			if e.P(1, 10) {
				l = e.hostileByte(l)
			}
			put(st, 0xe0|byte(q>>8), byte(q), 0xf0, l)
			put(d...)
		}
	}
	l := n - 3 + 4
	s[1], s[2] = 0xb0|byte(l>>8), byte(l)
	fixCRC(p[4:])
	e.Fault("forged-table")
	return p
}

// shortStart builds a packet that starts a unit and whose payload is a few bytes only.
func (e *Env) shortStart(q, p []byte) {
	copy(q[:4], p)
	q[1] |= 0x40
	q[3] |= 0x30
	k := e.N(24)
	q[4] = byte(183 - k)
	if k == 183 {
		q[4] = 0
	}
	for i := 6; i < 188-k; i++ {
		q[i] = 0xff
	}
	h := []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1, 0, 0, 1}
	h[3] = []byte{0xe0, 0xc0, 0xbd, 0xfc, 0xbe, 0xbf}[e.N(6)]
	h[7] = []byte{0x80, 0xc0, 0, 0x40, 0xff}[e.N(5)]
	if e.P(1, 3) {
		h[8] = e.hostileByte(h[8])
	}
	copy(q[188-k:], h)
	e.Fault("short-unit-start")
}

// hostileWire applies structure-aware damage to packets.
func (c *tsCase) hostileWire(wire []byte) []byte {
	e := c.e
	var pids []int
	for _, t := range c.tracks {
		pids = append(pids, int(t.tr.PID))
	}
	pids = append(pids, 0x1000, 0, 0x1fff, 17)
	out := append([]byte(nil), wire...)
	for range 1 + e.N(8) {
		np := len(out) / 188
		if np == 0 {
			break
		}
		i := e.N(np)
		if e.P(1, 3) {
			i = e.N(min(np, 3))
		}
		p := out[i*188 : i*188+188]
		pl := 4
		if p[3]&0x20 != 0 {
			pl += 1 + int(p[4])
		}
		pid := int(p[1]&0x1f)<<8 | int(p[2])
		table := pid == 0 || pid == 0x1000
		switch e.N(12) {
		case 10, 11:
			out = e.reframe(out)
		case 9: // a unit whose header is cut by the end of the packet
			q := make([]byte, 188)
			e.shortStart(q, p)
			if e.P(1, 2) {
				copy(p, q)
			} else {
				out = append(out[:i*188:i*188], append(q, out[i*188:]...)...)
			}
		case 0: // packet header
			k := 1 + e.N(3)
			p[k] = e.hostileByte(p[k])
			e.Fault("packet-header")
		case 1: // adaptation field
			p[3] |= 0x20
			p[4+e.N(8)] = e.hostileByte(p[4])
			if e.P(1, 2) {
				p[4] = byte(e.N(184))
			}
			p[5] = e.hostileByte(p[5])
			e.Fault("adaptation-field")
		case 2: // start of the payload: PES header or section header
			if pl+20 < 188 {
				k := pl + e.N(20)
				p[k] = e.hostileByte(p[k])
				if table {
					fixCRC(p[pl:])
				}
				e.Fault("payload-header")
			}
		case 3: // PES flags and lengths
			if pl+9 < 188 && !table {
				k := pl + 3 + e.N(6)
				p[k] = e.hostileByte(p[k])
				e.Fault("pes-header")
			}
		case 4: // section content with repaired checksum
			for j := range np {
				q := out[j*188 : j*188+188]
				if qp := int(q[1]&0x1f)<<8 | int(q[2]); qp == 0x1000 || (qp == 0 && e.P(1, 3)) {
					o := 4
					if q[3]&0x20 != 0 {
						o += 1 + int(q[4])
					}
					if o+30 > 188 {
						break
					}
					for range 1 + e.N(3) {
						k := o + 1 + e.N(min(60, 188-o-1))
						q[k] = e.hostileByte(q[k])
					}
					fixCRC(q[o:])
					e.Fault("table-content")
					if e.P(1, 2) {
						break
					}
				}
			}
		case 5: // forged table
			q := 0x1000
			if e.P(1, 3) {
				q = 0
			}
			s := e.hostileSection(q, pids)
			if e.P(1, 2) {
				copy(p, s)
			} else {
				out = append(out[:i*188:i*188], append(s, out[i*188:]...)...)
			}
		case 6: // payload moved to another PID
			q := pids[e.N(len(pids))]
			p[1] = p[1]&0xe0 | byte(q>>8)
			p[2] = byte(q)
			e.Fault("pid-swap")
		case 7: // codec framing
			if pl < 188 {
				k := pl + e.N(min(40, 188-pl))
				p[k] = e.hostileByte(p[k])
				e.Fault("payload-byte")
			}
		case 8:
			out = e.damage(out)
		}
	}
	return out
}

// reframe changes the content of a whole PES and packetises it again, consistently.
func (e *Env) reframe(wire []byte) []byte {
	np := len(wire) / 188
	pk := make([]*tsPkt, np)
	var starts []int
	for i := range pk {
		pk[i] = parsePkt(wire[i*188 : i*188+188])
		if p := pk[i]; p.pusi && p.hasPay && p.pid != 0 && p.pid != 0x1000 && p.payOff+9 < 188 && p.raw[p.payOff+2] == 1 {
			starts = append(starts, i)
		}
	}
	if len(starts) == 0 {
		return wire
	}
	st := starts[e.N(len(starts))]
	pid := pk[st].pid
	var pl []byte
	mine := map[int]bool{}
	for i := st; i < np; i++ {
		p := pk[i]
		if p.pid != pid || !p.hasPay || p.payOff > 188 {
			continue
		}
		if i > st && p.pusi {
			break
		}
		mine[i] = true
		pl = append(pl, p.raw[p.payOff:]...)
	}
	h := 9 + int(pl[8])
	if h > len(pl) {
		return wire
	}
	es := append([]byte(nil), pl[h:]...)
	hd := append([]byte(nil), pl[:h]...)
	for n := 1 + e.W(4, 2, 1); n > 0; n-- {
		l := len(es)
		switch e.N(8) {
		case 0:
			es = es[:e.N(l+1)]
		case 1: // the end is missing
			es = es[:max(0, l-1-e.N(12))]
		case 2: // the header of another frame follows
			es = append(es, es[:min(l, 1+e.N(20))]...)
		case 3:
			if l < 20000 {
				es = append(es, es...)
			}
		case 4:
			a := e.N(l + 1)
			b := min(l, a+1+e.N(30))
			es = append(es[:a:a], es[b:]...)
		case 5:
			if l > 0 {
				k := e.N(min(l, 16))
				es[k] = e.hostileByte(es[k])
			}
		case 6:
			es = append(es, e.blob(1, 30)...)
		case 7: // a few bytes only
			es = es[:min(l, e.N(12))]
		}
	}
	n := h - 6 + len(es)
	if n > 0xffff || e.P(1, 6) {
		n = 0
	} else if e.P(1, 8) {
		n += e.N(9) - 4
	}
	hd[4], hd[5] = byte(n>>8), byte(n)
	pl = append(hd, es...)
	cc := pk[st].cc
	var rep []byte
	for first := true; first || len(pl) > 0; first = false {
		q := []byte{0x47, byte(pid >> 8), byte(pid), 0x10 | byte(cc&15)}
		cc++
		if first {
			q[1] |= 0x40
		}
		k := min(len(pl), 184)
		if k < 184 {
			q[3] |= 0x20
			q = append(q, byte(183-k))
			if k < 183 {
				q = append(q, 0)
			}
			for len(q) < 188-k {
				q = append(q, 0xff)
			}
		}
		rep = append(rep, append(q, pl[:k]...)...)
		pl = pl[k:]
	}
	var out []byte
	for i, p := range pk {
		if i == st {
			out = append(out, rep...)
		}
		if mine[i] {
			continue
		}
		o := len(out)
		out = append(out, p.raw...)
		if i > st && p.pid == pid && p.hasPay {
			out[o+3] = p.raw[3]&0xf0 | byte(cc&15)
			cc++
		}
	}
	e.Fault("pes-content")
	return out
}

// remux hands what was received to a writer: a relay must survive too.
func (rv *tsRecv) remux() {
	e := rv.e
	trs := rv.r.Tracks()
	var keep []*mpegts.Track
	pids := map[uint16]bool{}
	for _, t := range trs {
		if kindOf(t) < 0 || pids[t.PID] {
			return // unsupported tracks are left to the application
		}
		pids[t.PID] = true
		keep = append(keep, t)
	}
	if len(keep) == 0 {
		return
	}
	mw := &mpegts.Writer{W: io.Discard, Tracks: keep}
	if err := mw.Initialize(); err != nil {
		e.Probe("remux refused")
		return
	}
	e.Probe("remuxed")
	for i, g := range rv.got {
		c := &tsCase{e: e, tracks: []*tsTrack{{kind: kindOf(trs[i]), tr: trs[i]}}}
		for _, it := range g {

			err := c.writeUnit(mw, &tsUnit{pts: it.pts, dts: it.dts, data: it.data})
			e.Ev("remux", err)
		}
	}
}

func runT07(e *Env) {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 12, small: e.P(2, 3)})
	endless, dense := false, false
	switch {
	case e.P(1, 600): // a PES that goes on for a long time
		c = genTS(e, tsOpts{noHuge: true, maxUnits: 2, maxTracks: 1, small: true, kinds: []int{kMPEG4V}})
		c.units[0].data[0] = append(c.units[0].data[0], c.bytes(800_000+e.N(200_000), 0, e.Sub())...)
		endless = true
		verifhook.Limit = 1_000_000_000
		e.Fault("endless-pes")
	case e.P(1, 300): // a PES with as many elements as fit
		c = genTS(e, tsOpts{noHuge: true, maxUnits: 2, maxTracks: 1, small: true, kinds: []int{[]int{kOpus, kAAC}[e.N(2)]}})
		d := make([][]byte, 1+e.N(5000))
		for i := range d {
			d[i] = []byte{byte(i)}
		}
		c.units[0].data = d
		dense = true
		e.Fault("dense-pes")
	case e.P(1, 3):
		c.hostileUnits()
	}
	s := e.newSink()
	mw := c.writer(s)
	for _, u := range c.units {
		// a unit that the writer refuses is left out
		_ = c.writeUnit(mw, u)
	}
	wire := s.buf
	if !endless && !dense {
		wire = c.hostileWire(wire)
	}
	if e.P(1, 12) {
		wire = wire[:e.N(len(wire)+1)]
		e.Fault("truncation")
	}
	var ms0, ms1 runtime.MemStats
	rd := e.newSimReader(wire)
	runtime.ReadMemStats(&ms0)
	st0 := e.Steps()
	rv, err := e.newRecv(rd)
	limit := 50_000 + 200*uint64(len(wire))
	if err != nil {
		e.Probe("refused")
		e.Ev("refused", err)
	} else {
		e.Probe("opened")
		for {
			err := rv.r.Read()
			rv.reads++
			if err != nil {
				e.Ev("end", err.Error())
				e.Check(err == io.EOF, "end", "the source ended with EOF, the reader with %v", err)
				break
			}
		}
		n := 0
		for _, g := range rv.got {
			n += len(g)
			for _, it := range g {
				e.Check(len(it.data) > 0, "empty", "a unit without any element was delivered")
				for _, d := range it.data {
					n += len(d)
				}
				e.Check(it.pts >= 0 && it.pts <= ts33 && it.dts >= 0 && it.dts <= ts33, "timestamp", "delivered timestamps %d %d do not fit 33 bits", it.pts, it.dts)
			}
		}
		if e.P(1, 2) {
			rv.remux()
		}
		e.Check(n <= 4*len(wire)+1000, "amplification", "%d bytes received, %d delivered", len(wire), n)
		if len(rv.decErr) > 0 {
			e.Probe("decode errors")
		}
	}
	steps := e.Steps() - st0
	if endless {
		e.Check(steps <= 50_000+100*uint64(len(wire)), "steps", "%d steps for %d bytes", steps, len(wire))
		if steps > 50_000+15*uint64(len(wire)) {
			e.Fail("quadratic-pes", "reading a PES of %d bytes took %d steps: with each packet, the whole PES received so far is gone through again", len(wire), steps)
		}
		return
	}
	if dense {
		limit = 100_000 + 400*uint64(len(c.units[0].data))
	}
	e.Check(steps <= limit, "steps", "%d steps for %d bytes", steps, len(wire))
	runtime.ReadMemStats(&ms1)
	alloc := ms1.TotalAlloc - ms0.TotalAlloc
	e.Check(alloc <= 2<<20+500*uint64(len(wire)), "memory", "%d bytes allocated for %d bytes of input", alloc, len(wire))
	e.NonTrivial()
	e.sample = fmt.Sprintf("%s, %d bytes, %d steps", c.describe(), len(wire), steps)
}
