package main

import (
	"bytes"
	"math"
)

func init() {
	real := []string{"DTSExtractor", "SPS, PPS, slice header and reference picture set parsers", "emulation prevention", "bit reader"}
	stub := []string{"video encoder (coding structure, parameter sets, slice headers, clock)", "link (losses, corruption, restarts of the encoder, clock jumps)"}
	register(&Prop{
		ID: "D01", Quick: 400000, Run: func(e *Env) { e.runDTS(false) },
		Rule: "A run is non-trivial when at least one access unit was processed after a random access unit.",
		Real: real, Stub: stub,
		Assume: []string{"frames last at least 1000 ticks", "picture order counts advance by 1, 2 or 4 per frame", "at most 10 reordered frames",
			"an odd picture order count shows up within the first five pictures if counts advance by one"},
	})
	register(&Prop{
		ID: "D02", Quick: 270000, Run: func(e *Env) { e.runDTS(true) },
		Rule: "A run is non-trivial when at least one access unit was processed after a random access unit.",
		Real: real, Stub: stub,
		Assume: []string{"frames last at least 1000 ticks", "one temporal sub-layer, picture types IDR, CRA, TRAIL and RASL", "reference picture sets list the pictures that are still to be displayed"},
	})
}

// dtsFault damages the history of access units. The result is not intact from index lo up to hi.
func (e *Env) dtsFaults(s *dtsStream) (aus []*dtsAU, dirty []bool, corrupt bool) {
	aus = append(aus, s.aus...)
	dirty = make([]bool, len(aus))
	n := e.W(0, 3, 2, 1)
	for range n {
		if len(aus) < 2 {
			break
		}
		i := e.N(len(aus))
		mark := func(from, to int) {
			for k := max(0, from); k < min(len(aus), to); k++ {
				dirty[k] = true
			}
		}
		clone := func() *dtsAU {
			c := *aus[i]
			c.au = nil
			for _, n := range aus[i].au {
				c.au = append(c.au, append([]byte(nil), n...))
			}
			aus[i] = &c
			return &c
		}
		switch e.W(6, 3, 2, 2, 2, 1, 1, 1, 1) {
		case 0: // access units lost
			k := min(1+e.N(6), len(aus)-i-1)
			if e.P(1, 4) {
				k = min(1+e.N(40), len(aus)-i-1)
			}
			if k <= 0 {
				continue
			}
			aus = append(aus[:i:i], aus[i+k:]...)
			dirty = append(dirty[:i:i], dirty[i+k:]...)
			mark(i, i+1)
			e.Fault("units-lost")
		case 1: // scattered loss
			l := min(len(aus)-i, 20)
			var a2 []*dtsAU
			var d2 []bool
			m := uint64(e.U(1 << 20))
			for k := range l {
				if m>>k&1 == 0 {
					a2 = append(a2, aus[i+k])
					d2 = append(d2, true)
				}
			}
			aus = append(append(aus[:i:i], a2...), aus[i+l:]...)
			dirty = append(append(dirty[:i:i], d2...), dirty[i+l:]...)
			mark(i, i+len(a2)+1)
			e.Fault("scattered-loss")
		case 2: // a NAL unit lost
			c := clone()
			if len(c.au) > 1 {
				k := e.N(len(c.au))
				c.au = append(c.au[:k], c.au[k+1:]...)
				mark(i, i+1)
				e.Fault("nal-unit-lost")
			}
		case 3: // corruption
			c := clone()
			k := e.N(len(c.au))
			for range 1 + e.N(3) {
				b := c.au[k]
				j := e.N(min(len(b), 24))
				b[j] ^= 1 << e.N(8)
			}
			mark(i, i+1)
			corrupt = true
			e.Fault("bit-flips")
		case 4: // truncation
			c := clone()
			k := e.N(len(c.au))
			c.au[k] = c.au[k][:1+e.N(len(c.au[k]))]
			mark(i, i+1)
			corrupt = true
			e.Fault("truncation")
		case 5: // unit delivered twice
			aus = append(aus[:i+1:i+1], aus[i:]...)
			dirty = append(dirty[:i+1:i+1], dirty[i:]...)
			mark(i, i+2)
			e.Fault("duplicate")
		case 6: // the clock jumps
			d := int64(e.N(90000 * 100))
			if e.P(1, 3) {
				d = -d
			}
			for k := i; k < len(aus); k++ {
				c := *aus[k]
				c.pts += d
				c.ideal += float64(d)
				aus[k] = &c
			}
			mark(i, i+1)
			e.Fault("clock-jump")
		case 7: // unit without a picture
			c := &dtsAU{au: [][]byte{{9, 0xf0}, {6, 5, 1, 0xaa, 0x80}}, pts: aus[i].pts, gop: aus[i].gop, step: s.step}
			if s.h265 {
				c.au = [][]byte{{35 << 1, 1, 0x50}, {39 << 1, 1, 5, 1, 0xaa, 0x80}}
			}
			aus = append(aus[:i:i], append([]*dtsAU{c}, aus[i:]...)...)
			dirty = append(dirty[:i:i], append([]bool{true}, dirty[i:]...)...)
			e.Fault("no-picture")
		case 8: // parameters that no encoder would send
			for k := e.N(len(aus)); e.P(9, 10) && k < len(aus); k++ {
				if aus[k].ra {
					i = k
					break
				}
			}
			c := clone()
			e.wildParameters(s, c)
			mark(i, i+1)
			corrupt = true
			e.Fault("wild-parameters")
		}
	}
	if e.P(1, 10) { // joined late
		k := e.N(len(aus))
		aus, dirty = aus[k:], dirty[k:]
		if len(dirty) > 0 {
			dirty[0] = true
		}
		e.Fault("late-join")
	}
	return aus, dirty, corrupt
}

// wildParameters puts an extreme value into a parameter set of the unit, whose slices may end early.
func (e *Env) wildParameters(s *dtsStream, c *dtsAU) {
	w := wild{1 + e.N([]int{6, 14}[e.W(2, 1)]), []uint32{1<<32 - 4, 1<<32 - 5, 1<<32 - 1, 1 << 31, 28, 60, 61, 255, uint32(e.U(1 << 32))}[e.W(4, 1, 1, 1, 1, 1, 1, 1, 2)]}
	var set []byte
	typ := func(b []byte) int { return int(b[0] & 0x1f) }
	if s.h265 {
		p := *s.p5
		if e.P(1, 4) {
			p.wildPPS = w
			set = p.ppsNALU()
		} else {
			p.wild = w
			set = p.spsNALU()
		}
		typ = func(b []byte) int { return int(b[0] >> 1 & 0x3f) }
	} else {
		p := *s.p4
		p.wild = w
		set = p.nalu()
	}
	cut := e.P(1, 2)
	done := false
	for k, b := range c.au {
		if len(b) == 0 {
			continue
		}
		if typ(b) == typ(set) {
			c.au[k] = set
			done = true
		} else if cut && (s.h265 && typ(b) < 32 || !s.h265 && typ(b) <= 5) {
			// the header is rewritten, so that it may end anywhere in the last byte
			if s.h265 {
				p := *s.p5
				p.ppsID = uint32(e.N(4))
				t := []byte{byte(typ(b)), 21, 1}[e.N(3)]
				b = p.slice(t, uint32(e.N(3)), uint32(e.N(64)), -1, h265RPS{}, nil)
			} else {
				b = s.p4.slice(byte(typ(b)), 3, []uint32{7, 2, 5, 0}[e.N(4)], uint32(e.N(16)), uint32(e.N(20)), uint32(e.N(16)), uint32(e.N(2)), uint32(e.N(2)), nil)
			}
			c.au[k] = b[:min(len(b), 2+e.N(4))]
		}
	}
	if !done {
		c.au = append([][]byte{set}, c.au...)
	}
}

func (e *Env) runDTS(is265 bool) {
	s := &dtsStream{h265: is265, depr: e.P(1, 8)}
	sessions := 1
	if e.P(1, 4) {
		sessions = 2
	}
	if sessions == 1 && e.P(1, 2) {
		e.genDTSInto(s, 0, 1+e.N(4), 200)
	} else {
		e.genDTSInto(s, 0, 1+e.N(3), 80)
	}
	aus := s.aus
	dirty := make([]bool, len(aus))
	corrupt := false
	if e.P(1, 2) {
		aus, dirty, corrupt = e.dtsFaults(s)
	}
	e.Ev("stream", s.String())

	x := &dtsCheck{e: e, s: s, ex: s.extractor()}
	reuse := e.P(1, 3) // the application reuses its buffers
	x.reuse = reuse
	x.run(aus, dirty, corrupt)
	if sessions == 2 {
		// the encoder is restarted with other parameters, the extractor is not
		s2 := &dtsStream{h265: is265}
		base := s.aus[len(s.aus)-1].pts + int64(e.N(90000*20))
		e.genDTSInto(s2, max(base, x.prev+1000), 2+e.N(2), 120)
		e.Ev("restart", s2.String())
		same := is265 && bytes.Equal(s.p5.spsNALU(), s2.p5.spsNALU()) || !is265 && bytes.Equal(s.p4.nalu(), s2.p4.nalu())
		x.s = s2
		if !same {
			x.learn = 0
			e.Probe("parameters changed")
		}
		x.session++
		x.run(s2.aus, make([]bool, len(s2.aus)), corrupt && same)
	}
	if x.ok > 1 {
		e.NonTrivial()
	}
	e.sample = s.String()
}

type dtsCheck struct {
	e       *Env
	s       *dtsStream
	ex      func([][]byte, int64) (int64, error)
	reuse   bool
	buf     []byte
	prev    int64
	have    bool
	learn   int
	ok      int
	session int
	params  bool // random access and parameters were received
}

// feed gives the unit in buffers that are overwritten afterwards, if the application does so.
func (x *dtsCheck) feed(a *dtsAU) (int64, error) {
	if !x.reuse {
		return x.ex(a.au, a.pts)
	}
	n := 0
	for _, u := range a.au {
		n += len(u)
	}
	if cap(x.buf) < n {
		x.buf = make([]byte, n+500)
	}
	p := 0
	var au [][]byte
	for _, u := range a.au {
		copy(x.buf[p:], u)
		au = append(au, x.buf[p:p+len(u):p+len(u)])
		p += len(u)
	}
	return x.ex(au, a.pts)
}

func (x *dtsCheck) run(aus []*dtsAU, dirty []bool, corrupt bool) {
	e, s := x.e, x.s
	lastDirty := -1
	for i, d := range dirty {
		if d {
			lastDirty = i
		}
	}
	intact := 0 // intact groups since the last fault, including the current one
	first := true
	warm := 0
	var pdev float64
	devOK := false
	for i, a := range aus {
		if a.ra && i > lastDirty {
			if first && !(x.session == 0 && lastDirty < 0) && s.noParam && a.gop != 0 {
				// the parameters were sent once, and may have been lost
				intact = -1000
			}
			if x.have && (a.pts <= x.prev+20*90 || a.ideal-float64(s.depth)*a.step <= float64(x.prev)) {
				intact = -1 // the clock went back, and is still behind
			}
			first = false
			intact++
		}
		dts, err := x.feed(a)
		e.Ev("extract", i, a.ra, dirty[i], a.pts, dts, err)
		if err != nil {
			devOK, warm = false, i
			switch {
			case i <= lastDirty || intact <= 0:
				e.Probe("error while damaged")
			case corrupt:
				e.Probe("error after corruption")
			case a.vfr:
				e.Probe("error, variable frame rate")
			case !s.h265 && s.p4.pocType == 1:
			case !s.h265 && (intact == 1 || lastDirty >= 0 && (intact < 3 || i < lastDirty+40)):
				e.Probe("error while learning")
			default:
				e.Fail("error", "%s: unit %d, %d intact groups: %v", s, i, intact, err)
			}
			continue
		}
		x.ok++
		// whatever happened before
		learning := false
		if x.have {
			e.Check(dts >= x.prev, "order", "%s: unit %d: decoding time %d after %d", s, i, dts, x.prev)
			learning = !s.h265 && dts == x.prev+90
		}
		e.Check(dts <= a.pts || learning, "late", "%s: unit %d: decoding time %d, presentation time %d, previous decoding time %d", s, i, dts, a.pts, x.prev)
		if !x.have || dts == x.prev+90 || i <= lastDirty || a.ra && (lastDirty >= 0 || x.session > 0) {
			warm = i // decoding times are behind, or ahead
		}
		if learning {
			x.learn++
			if !corrupt && lastDirty < 0 {
				e.Check(x.learn <= 10, "learning", "%s: unit %d: delayed for the %d-th time", s, i, x.learn)
			}
		}
		// intact stream
		if intact > 0 && i > lastDirty && !corrupt {
			if x.have && !a.vfr {
				e.Check(dts > x.prev, "strict-order", "%s: unit %d: decoding time %d repeated", s, i, dts)
			}
			if s.depth == 0 && s.inc != 4 && (!s.h265 || x.have) && lastDirty < 0 && x.session == 0 {
				e.Check(dts == a.pts, "no-reordering", "%s: unit %d: decoding time %d, presentation time %d", s, i, dts, a.pts)
			}
			if !a.vfr && s.h265 {
				// deviation from the clock of the encoder: it never grows, and it is zero when there is nothing to wait for
				dev := float64(dts) - (a.ideal - float64(s.depth)*a.step)
				if devOK && i > warm+16 {
					e.Check(math.Abs(dev) <= math.Abs(pdev)+3, "deviation", "%s: unit %d: %.1f ticks away from the decoding time of the encoder, the unit before was %.1f away", s, i, dev, pdev)
					if math.Abs(dev) < 3 {
						e.Probe("equal to the decoding time of the encoder")
					}
				}
				pdev, devOK = dev, true
			}
			if !a.vfr && !s.h265 && x.have && (i > warm+100 || i > warm+60 && lastDirty < 0 && x.session == 0) {
				d := float64(dts-x.prev) - a.step
				lim := max(3, a.step/8)
				if s.depth < 3 && lastDirty < 0 && x.session == 0 && x.learn <= 4 {
					lim = 3
				}
				e.Check(math.Abs(d) <= lim, "rate", "%s: unit %d: decoding time %d after %d, frame duration %.1f", s, i, dts, x.prev, a.step)
				e.Probe("frame rate followed")
			}
		}
		x.prev, x.have = dts, true
	}
}
