package main

import (
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"
)

func init() {
	register(&Prop{
		ID: "T06", Quick: 250000, Run: runT06,
		Rule:   "A run is non-trivial when at least two timestamps were decoded and compared with the 64-bit reference clock.",
		Real:   []string{"mpegts.Writer", "mpegts.Reader", "mpegts.TimeDecoder", "go-astits muxer and demuxer"},
		Stub:   []string{"clock (drawn 64-bit timestamps, many wraps, jumps in both directions)", "link (units lost)"},
		Assume: []string{"consecutive decoded timestamps differ by less than 2^32 ticks in either direction, as a 33-bit counter requires"},
	})
	register(&Prop{
		ID: "T10", Quick: 400000, Run: runT10,
		Rule:   "A run is non-trivial when bytes were read before and after a rewind, or datagrams were read through the buffered reader.",
		Real:   []string{"rewindablereader.Reader", "mpegts.BufferedReader"},
		Stub:   []string{"source (short reads, empty reads, data with error, errors at a drawn byte)"},
		Assume: []string{"the amount recorded before the rewind is at most 1 MiB (documented limit); beyond it an error is required"},
	})
}

func runT06(e *Env) {
	c := genTS(e, tsOpts{noHuge: true, small: true, maxUnits: 40, maxTracks: 3,
		kinds: []int{kH264, kH265, kMPEG4V, kOpus, kAAC, kLATM, kMP1A, kKLVSync, kDVB}})
	// replace the clock
	now := int64(e.U(40)) << 32
	now += int64(e.U(1 << 33))
	const lim = int64(1)<<32 - 1
	lastPTS := now
	style := e.N(4)
	for _, u := range c.units {
		var step int64
		switch e.W(6, 2, 2, 1) {
		case 0:
			step = int64(e.N(9000))
		case 1:
			step = int64(e.U(1 << 31))
		case 2:
			step = int64(e.U(1<<32)) - (1 << 31)
		case 3:
			step = []int64{lim, -lim, lim - 1, 1 << 31, -(1 << 31), 1, -1}[e.N(7)]
		}
		if style == 1 {
			step = lim - int64(e.N(3))
		}
		if style == 2 && step < 0 {
			step = -step
		}
		if now+step < 0 {
			step = -step
		}
		now += step
		u.dts = now
		u.pts = now
		if k := c.tracks[u.track].kind; (k == kH264 || k == kH265) && e.P(1, 2) {
			u.pts += int64(e.N(90000))
		}
		d := now - lastPTS
		if d < 0 {
			d = -d
		}
		e.simTime += float64(d) / 90000
		lastPTS = now
	}
	wire := c.mux()
	rv, err := e.newRecv(e.plainReader(wire))
	if err != nil {
		e.Fail("init", "cannot open: %v", err)
	}
	rv.drain()
	e.Check(rv.err == io.EOF, "end", "ended with %v", rv.err)

	both := e.P(1, 2)
	lossy := e.P(1, 2)
	td := &mpegts.TimeDecoder{}
	td.Initialize()
	if e.P(1, 8) {
		td = mpegts.NewTimeDecoder()
	}
	// walk the deliveries in the order in which the application saw them
	idx := make([]int, len(c.tracks))
	next := make([]int, len(c.tracks))
	var first, firstDec, prev int64
	n := 0
	wraps := 0
	for _, ti := range rv.order {
		it := rv.got[ti][idx[ti]]
		idx[ti]++
		// the unit it corresponds to (order on a track is preserved)
		ui := next[ti]
		for ui < len(c.units) && c.units[ui].track != ti {
			ui++
		}
		e.Check(ui < len(c.units), "count", "track %d: more deliveries than units", ti)
		next[ti] = ui + 1
		u := c.units[ui]
		e.Check(it.hash == hashUnits(u.data) && it.pts == u.pts&ts33 && it.dts == u.dts&ts33, "timestamp",
			"track %d: written %d/%d, delivered %d/%d", ti, u.pts, u.dts, it.pts, it.dts)
		if lossy && e.P(1, 3) {
			e.Fault("unit-lost")
			continue
		}
		seq := [][2]int64{{u.pts, it.pts}}
		if both {
			seq = [][2]int64{{u.dts, it.dts}, {u.pts, it.pts}}
		}
		for _, s := range seq {
			if n > 0 && (s[0]-prev > lim || prev-s[0] > lim) {
				return // beyond what a 33-bit counter can express
			}
			got := td.Decode(s[1])
			e.Ev("decode", s[1], got)
			if n == 0 {
				first, firstDec = s[0], got
			} else {
				e.Check(got-firstDec == s[0]-first, "unwrap", "timestamp %d (%d on the wire), %d after the first one: decoded %d after the first one",
					s[0], s[1], s[0]-first, got-firstDec)
			}
			if n > 0 && s[0]>>33 != prev>>33 {
				wraps++
			}
			prev = s[0]
			n++
		}
	}
	if n > 1 {
		e.NonTrivial()
	}
	if wraps > 0 {
		e.Probe("wrap decoded")
	}
	if wraps > 3 {
		e.Probe("more than three wraps decoded")
	}
	e.sample = c.describe()
}

// ---- T10 ----

type scriptStep struct {
	n   int
	err error
}

// scriptSource returns what its script says.
type scriptSource struct {
	e     *Env
	data  []byte
	pos   int
	r     *rng
	err   error // after the data
	with  bool
	zero  bool
	calls int
	ends  int
	big   bool
}

func (s *scriptSource) Read(p []byte) (int, error) {
	s.calls++
	if s.pos >= len(s.data) {
		s.ends++
		return 0, s.err
	}
	if s.zero && s.r.n(6) == 0 {
		return 0, nil
	}
	n := len(p)
	if !s.big && n > 0 {
		switch s.r.n(3) {
		case 0:
			n = 1 + s.r.n(n)
		case 1:
			n = min(n, 1+s.r.n(16))
		}
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	// scribble over the rest of the buffer, as readers are allowed to
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 0xEE
	}
	if s.pos >= len(s.data) && s.with {
		s.ends++
		return n, s.err
	}
	return n, nil
}

func runT10(e *Env) {
	if e.P(1, 3) {
		e.runBuffered()
		return
	}
	n := e.N(3000)
	limit := false
	if e.P(1, 30) {
		n = 1<<20 - 2000 + e.N(6000)
		limit = n > 1<<20
	}
	r := e.Sub()
	src := &scriptSource{e: e, data: make([]byte, n), r: r, err: io.EOF, with: e.P(1, 3), zero: e.P(1, 3), big: n > 10000}
	r.fill(src.data)
	if e.P(1, 3) {
		src.err = e.drawReadErr()
		e.Fault("read-error")
	}
	rr := &rewindablereader.Reader{R: src}
	want := src.data

	// reads through rr until it has delivered upto bytes or an error
	read := func(pos, upto int, phase string) (int, error) {
		idle := 0
		for pos < upto {
			sz := 1 + e.N(64)
			switch e.W(3, 1, 1) {
			case 1:
				sz = 1 + e.N(2000)
			case 2:
				if n > 10000 {
					sz = 1 + e.N(200000)
				}
			}
			if n > 10000 {
				sz *= 64
			}
			if e.P(1, 40) {
				sz = 0
			}
			sz = min(sz, upto-pos)
			buf := make([]byte, sz)
			k, err := rr.Read(buf)
			e.Ev("read", phase, sz, k, err)
			e.Check(k >= 0 && k <= sz, "count", "%s: Read of %d bytes returned %d", phase, sz, k)
			e.Check(pos+k <= len(want), "data", "%s: %d bytes beyond the end of the source", phase, pos+k-len(want))
			for i := range k {
				if buf[i] != want[pos+i] {
					e.Fail("data", "%s: byte %d is %02x, the source has %02x", phase, pos+i, buf[i], want[pos+i])
				}
			}
			pos += k
			// the application may reuse its buffer
			for i := range buf {
				buf[i] = 0x55
			}
			if err != nil {
				return pos, err
			}
			if k == 0 && sz > 0 {
				idle++
				e.Check(idle < 5000, "progress", "%s: %d empty reads in a row", phase, idle)
			} else {
				idle = 0
			}
		}
		return pos, nil
	}

	stop := e.N(n + 1)
	if e.P(1, 3) {
		stop = n + 1 // to the end and its error
	}
	pos, err := read(0, stop, "before rewind")
	if err != nil {
		if limit && pos < len(want) {
			e.Probe("recording limit")
			e.Check(!errors.Is(err, io.EOF), "limit", "recording limit reported as end of stream")
			e.Check(pos > 1<<20-(1<<18)*64, "limit", "recording refused after %d bytes", pos)
			return
		}
		e.Check(err == src.err, "error-identity", "before rewind: source failed with %v, reader with %v", src.err, err)
		e.Check(pos == len(want), "error-order", "before rewind: error after %d of %d bytes", pos, len(want))
	}
	if limit && pos > 1<<20 {
		e.Fail("limit", "%d bytes were recorded", pos)
	}
	rr.Rewind()
	e.Ev("rewind", pos)
	pos2, err := read(0, n+1, "after rewind")
	e.Check(err == src.err, "error-identity", "after rewind: source failed with %v, reader with %v", src.err, err)
	e.Check(pos2 == len(want), "error-order", "after rewind: error after %d of %d bytes (%d read before)", pos2, len(want), pos)
	if n > 0 {
		e.NonTrivial()
	}
}

// dgSource returns one datagram per call.
type dgSource struct {
	dgs  [][]byte
	i    int
	err  error
	with bool
	zero *rng
}

func (s *dgSource) Read(p []byte) (int, error) {
	if s.i >= len(s.dgs) {
		return 0, s.err
	}
	if s.zero != nil && s.zero.n(5) == 0 {
		return 0, nil
	}
	n := copy(p, s.dgs[s.i])
	s.i++
	if s.i == len(s.dgs) && s.with {
		return n, s.err
	}
	return n, nil
}

func (e *Env) runBuffered() {
	r := e.Sub()
	s := &dgSource{err: io.EOF, with: e.P(1, 3)}
	if e.P(1, 3) {
		s.zero = &rng{s: 5}
	}
	if e.P(1, 3) {
		s.err = e.drawReadErr()
		e.Fault("read-error")
	}
	var want []byte
	bad := -1
	nd := e.N(12)
	for i := range nd {
		k := 188 * (1 + e.N(7))
		if e.P(1, 30) {
			k += 1 + e.N(100)
			k = min(k, 1500)
			if k%188 != 0 && bad < 0 {
				bad = i
				e.Fault("odd-datagram")
			}
		}
		d := make([]byte, k)
		r.fill(d)
		s.dgs = append(s.dgs, d)
		if bad < 0 {
			want = append(want, d...)
		}
	}
	br := mpegts.NewBufferedReader(s)
	pos := 0
	idle := 0
	for {
		sz := 188
		if e.P(1, 3) {
			sz = 1 + e.N(2000)
		}
		buf := make([]byte, sz)
		k, err := br.Read(buf)
		e.Ev("read", sz, k, err)
		e.Check(k <= sz && pos+k <= len(want), "data", "buffered reader returned bytes that were never received")
		for i := range k {
			if buf[i] != want[pos+i] {
				e.Fail("data", "buffered reader: byte %d is %02x, received %02x", pos+i, buf[i], want[pos+i])
			}
		}
		pos += k
		if err != nil {
			e.Check(pos == len(want), "error-order", "buffered reader: error (%v) after %d of %d bytes", err, pos, len(want))
			if bad >= 0 {
				e.Check(err != s.err || bad == nd-1 && s.with, "error-identity", "datagram of odd size was not reported")
			} else {
				e.Check(err == s.err, "error-identity", "buffered reader: source failed with %v, reader with %v", s.err, err)
			}
			break
		}
		if k == 0 {
			idle++
			e.Check(idle < 1000, "progress", "empty reads")
		} else {
			idle = 0
		}
	}
	if len(want) > 0 {
		e.NonTrivial()
	}
}
