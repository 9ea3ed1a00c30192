package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

func init() {
	real := []string{"pmp4.Presentation, Track, Sample", "internal/mp4", "go-mp4 reader and writer"}
	register(&Prop{
		ID: "P01", Quick: 180000, Run: runP01,
		Rule:   "A run is non-trivial when at least one payload was stored, retrieved and compared.",
		Real:   append(real, "seekablebuffer.Buffer"),
		Stub:   []string{"file (short reads, position moved by others between calls)", "payload source"},
		Assume: []string{"the payload source returns as many bytes as declared", "decoding times fit 32 bits, time offsets are compared modulo 2^32 units", "a LPCM track has at most 65535 Hz (see known findings)"},
	})
	register(&Prop{
		ID: "P02", Quick: 160000, Run: runP02,
		Rule:   "A run is non-trivial when an operation failed while a payload was retrieved.",
		Real:   real,
		Stub:   []string{"file (read errors, partial reads, seek errors, files truncated while open)"},
		Assume: []string{"a storage that fails returns an error, or the end of the file"},
	})
	register(&Prop{
		ID: "P03", Quick: 55000, Run: runP03,
		Rule:   "A run is non-trivial when a storage operation or a payload request failed while a presentation was written.",
		Real:   real,
		Stub:   []string{"output (write errors, partial writes, full disk), payload source (errors)"},
		Assume: []string{"a storage that writes less than asked returns an error, as io.Writer requires"},
	})
	register(&Prop{
		ID: "P04", Quick: 4500, Run: runP04,
		Rule:   "A run is non-trivial when a truncated presentation was opened without error.",
		Real:   real,
		Stub:   []string{"file (truncated at any byte, or before it was written completely)"},
		Assume: []string{"only the tail of the file is lost"},
	})
	register(&Prop{
		ID: "P08", Quick: 3500, Run: runP08,
		Rule:   "A run is non-trivial when a presentation was read in pieces or with a failed operation.",
		Real:   real,
		Stub:   []string{"file (short reads, read and seek errors, position moved by others)"},
		Assume: []string{"boxes that follow the presentation are well-formed and of types that it does not use", "the storage reports its end with a read of its own, as files do (go-mp4 loses bytes delivered together with io.EOF)"},
	})
}

// movie is a presentation with its payloads.
type movie struct {
	p    *pmp4.Presentation
	data [][][]byte // payload of each sample of each track
	req  int        // payload requests
	fail int        // request that fails
	err  error
}

type movieOpts struct {
	maxTracks  int
	maxSamples int
	big        bool
	long       bool // one track has more samples than 16 bits can count
}

func (e *Env) genMovie(o movieOpts) *movie {
	m := &movie{p: &pmp4.Presentation{}, fail: -1}
	n := 1 + e.N(o.maxTracks)
	r := e.Sub()
	for i := 0; i < n; i++ {
		t := &pmp4.Track{ID: i + 1, TimeScale: e.drawScale(), Codec: e.drawCodec(e.N(mKinds))}
		if e.P(1, 8) {
			t.ID = int(1 + e.U(1<<32-1))
		}
		switch e.W(4, 2, 2, 1) {
		case 1:
			t.TimeOffset = int32(e.N(200000))
		case 2:
			t.TimeOffset = -int32(e.N(200000))
		case 3:
			t.TimeOffset = int32(uint32(e.U(1 << 32)))
		}
		ns := e.N(o.maxSamples + 1)
		long := o.long && i == n-1
		if long {
			ns = 1<<16 + 20 + e.N(3000)
		}
		sync := e.N(4)
		offs := e.P(1, 2)
		constDur := e.P(1, 2)
		dur := e.drawDur()
		sizeMode := e.N(4) // 0 any, 1 constant, 2 mostly empty, 3 boxes
		size := e.N(50)
		var data [][]byte
		var prevOff int32
		if long {
			e.Fault("many-samples")
			e.longTrack(m, t, ns, r)
			continue
		}
		for j := 0; j < ns; j++ {
			s := &pmp4.Sample{Duration: dur}
			if !constDur && e.P(1, 2) {
				dur = e.drawDur()
			}
			switch sync {
			case 1:
				s.IsNonSyncSample = j != 0
			case 2:
				s.IsNonSyncSample = e.P(1, 2)
			case 3:
				s.IsNonSyncSample = true
			}
			if offs {
				if e.P(1, 2) {
					prevOff = e.drawOff()
				}
				s.PTSOffset = prevOff
			}
			var pl []byte
			switch sizeMode {
			case 0:
				pl = e.payload(r, o.big)
			case 1:
				pl = make([]byte, size)
				r.fill(pl)
			case 2:
				if e.P(1, 4) {
					pl = make([]byte, 1+e.N(4))
					r.fill(pl)
				}
			case 3:
				pl = boxLike(r, e.N(80))
			}
			s.PayloadSize = uint32(len(pl))
			s.GetPayload = func() ([]byte, error) {
				k := m.req
				m.req++
				if k == m.fail {
					return nil, m.err
				}
				return append([]byte(nil), pl...), nil
			}
			data = append(data, pl)
			t.Samples = append(t.Samples, s)
		}
		m.p.Tracks = append(m.p.Tracks, t)
		m.data = append(m.data, data)
	}
	return m
}

// longTrack is a track in which no table is short.
func (e *Env) longTrack(m *movie, t *pmp4.Track, ns int, r *rng) {
	m.p.Tracks = append(m.p.Tracks, t)
	var data [][]byte
	seed := r.n(1 << 30)
	flat := e.P(1, 2)
	for j := 0; j < ns; j++ {
		h := (j + seed) * 2654435761
		if flat { // equal values run for more than 16 bits can count
			h = seed
			if j < 5 || j > ns-5 {
				h += j
			}
		}
		s := &pmp4.Sample{Duration: uint32(10 + h>>5&3), PTSOffset: int32(h >> 9 & 7), IsNonSyncSample: h>>13&1 != 0}
		pl := []byte{byte(h), byte(h >> 8), byte(h >> 16)}[:h>>20&3]
		s.PayloadSize = uint32(len(pl))
		s.GetPayload = func() ([]byte, error) {
			k := m.req
			m.req++
			if k == m.fail {
				return nil, m.err
			}
			return pl, nil
		}
		data = append(data, pl)
		t.Samples = append(t.Samples, s)
	}
	m.data = append(m.data, data)
}

// presView renders what reading must give back.
func presView(p *pmp4.Presentation) []string {
	var l []string
	for _, t := range p.Tracks {
		var b bytes.Buffer
		fmt.Fprintf(&b, "track %d/%d%+d %s:", t.ID, t.TimeScale, t.TimeOffset, codecStr(t.Codec))
		for _, s := range t.Samples {
			fmt.Fprintf(&b, " %d/%d/%v/%d", s.Duration, s.PTSOffset, s.IsNonSyncSample, s.PayloadSize)
		}
		l = append(l, b.String())
	}
	return l
}

func (m *movie) total() int {
	n := 0
	for _, t := range m.data {
		n += len(t)
	}
	return n
}

func runP01(e *Env) {
	o := movieOpts{maxTracks: 4, maxSamples: 12, big: true}
	if e.P(1, 20) {
		o.maxSamples, o.big = 300, false
	}
	if e.P(1, 6000) {
		o.long = true
	}
	m := e.genMovie(o)
	want := presView(m.p)
	e.Ev("case", len(m.p.Tracks), m.total())
	for _, s := range want {
		e.Ev("track", clip(s))
	}
	sink := e.newSink()
	mustNil(e, m.p.Marshal(sink), "write-error")
	file := sink.buf
	e.Ev("file", file)
	e.Check(diffViews(presView(m.p), want) == "", "caller-modified", "the presentation was modified by writing it: %s", diffViews(presView(m.p), want))
	e.Check(m.req == m.total(), "payload-requests", "%d payloads requested, there are %d", m.req, m.total())

	// parameters that cannot be written are refused
	if e.P(1, 16) {
		odd := &pmp4.Presentation{Tracks: []*pmp4.Track{{ID: 1, TimeScale: e.drawScale(), Codec: e.oddCodec()}}}
		var b, back = bytes.Buffer{}, pmp4.Presentation{}
		if err := odd.Marshal(&b); err == nil {
			err = back.Unmarshal(bytes.NewReader(b.Bytes()))
			e.Check(err == nil && diffViews(presView(&back), presView(odd)) == "", "not-refused", "a presentation was written without error, but it cannot be read back (%v), or it differs: %s", err, presView(odd))
		} else {
			e.Fault("unrepresentable parameters")
		}
	}

	f := e.newFile(file)
	f.shortReads = e.P(1, 2)
	f.r = e.Sub()
	f.pos = int64(e.N(len(file) + 1))
	var p2 pmp4.Presentation
	mustNil(e, p2.Unmarshal(f), "read-error")
	for _, t := range p2.Tracks {
		e.checkASC(t.Codec)
	}
	d := diffViews(presView(&p2), want)
	e.Check(d == "", "presentation-differs", "%s", d)

	// retrievals in any order, any number of times
	type ref struct{ t, s int }
	var refs []ref
	for i, t := range m.data {
		for j := range t {
			refs = append(refs, ref{i, j})
		}
	}
	var kept [][]byte
	var keptRef []ref
	if len(refs) > 0 {
		get := func(x ref) {
			if e.P(1, 4) {
				f.pos = int64(e.N(len(file) + 100)) // another user of the file
			}
			pl, err := p2.Tracks[x.t].Samples[x.s].GetPayload()
			mustNil(e, err, "retrieve-error")
			w := m.data[x.t][x.s]
			e.Check(bytes.Equal(pl, w), "payload-differs", "track %d sample %d: got %d bytes %x, stored %d bytes %x", x.t, x.s, len(pl), clipB(pl), len(w), clipB(w))
			kept, keptRef = append(kept, pl), append(keptRef, x)
		}
		switch e.N(3) {
		case 0: // in order
			for _, x := range refs {
				get(x)
			}
		case 1: // backwards
			for i := len(refs) - 1; i >= 0; i-- {
				get(refs[i])
			}
		case 2: // all of them in drawn order
			r := e.Sub()
			for i := len(refs) - 1; i > 0; i-- {
				j := r.n(i + 1)
				refs[i], refs[j] = refs[j], refs[i]
			}
			for _, x := range refs {
				get(x)
			}
		}
		for i := e.N(6); i > 0; i-- {
			get(refs[e.N(len(refs))])
		}
		for i, x := range keptRef {
			e.Check(bytes.Equal(kept[i], m.data[x.t][x.s]), "payload-altered", "a payload changed after having been retrieved")
		}
		e.NonTrivial()
	}

	// stored again, from the first file
	if e.P(1, 2) {
		sink2 := e.newSink()
		mustNil(e, p2.Marshal(sink2), "rewrite-error")
		e.Check(bytes.Equal(sink2.buf, file), "rewrite-differs", "a presentation that was read and stored again differs")
		e.Probe("rewritten")
	}
	if e.P(1, 100) {
		e.hugeMovie()
	}
	if e.P(1, 100) {
		e.fastLPCMPres()
	}
}

var hugePayload []byte

// hugeMovie stores a presentation whose size exceeds what 32-bit offsets can address.
func (e *Env) hugeMovie() {
	if hugePayload == nil {
		hugePayload = make([]byte, 64<<20)
	}
	n := 60 + e.N(10)
	t := &pmp4.Track{ID: 1, TimeScale: 90000, Codec: &mp4codecs.Opus{ChannelCount: 2}}
	for i := 0; i < n; i++ {
		t.Samples = append(t.Samples, &pmp4.Sample{Duration: 1, PayloadSize: uint32(len(hugePayload)), GetPayload: func() ([]byte, error) { return hugePayload, nil }})
	}
	w := &countSink{}
	err := (&pmp4.Presentation{Tracks: []*pmp4.Track{t}}).Marshal(w)
	e.Ev("huge", n, err)
	if n < 64 {
		mustNil(e, err, "write-error")
		e.Check(w.n > int64(n)<<26, "incomplete", "%d bytes written for %d payloads of 64 MB", w.n, n)
	} else {
		e.Check(err != nil, "too-large-accepted", "a presentation of %d MB was written without error (offsets have 32 bits)", n*64)
		e.Check(w.n < 1<<30, "too-large-written", "a presentation of %d MB was refused after %d bytes had been written", n*64, w.n)
		e.Probe("too large")
	}
}

type countSink struct{ n int64 }

func (s *countSink) Write(p []byte) (int, error) { s.n += int64(len(p)); return len(p), nil }

func (e *Env) fastLPCMPres() {
	rate := []int{96000, 192000, 88200, 65536}[e.N(4)]
	p := &pmp4.Presentation{Tracks: []*pmp4.Track{{ID: 1, TimeScale: uint32(rate), Codec: &mp4codecs.LPCM{BitDepth: 24, SampleRate: rate, ChannelCount: 2}}}}
	var b bytes.Buffer
	if p.Marshal(&b) != nil {
		e.Probe("fast LPCM refused")
		return
	}
	var p2 pmp4.Presentation
	mustNil(e, p2.Unmarshal(bytes.NewReader(b.Bytes())), "read-error")
	if c, ok := p2.Tracks[0].Codec.(*mp4codecs.LPCM); ok && c.SampleRate == rate&0xFFFF {
		e.Fail("lpcm-rate-wrap", "a LPCM track with %d Hz is read back with %d Hz", rate, c.SampleRate)
	}
	d := diffViews(presView(&p2), presView(p))
	e.Check(d == "", "presentation-differs", "%s", d)
}

func clipB(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

func runP02(e *Env) {
	m := e.genMovie(movieOpts{maxTracks: 3, maxSamples: 6})
	var b bytes.Buffer
	mustNil(e, m.p.Marshal(&b), "write-error")
	full := b.Bytes()
	f := e.newFile(full)
	f.shortReads = e.P(1, 3)
	f.r = e.Sub()
	f.noLog = true
	var p2 pmp4.Presentation
	mustNil(e, p2.Unmarshal(f), "read-error")
	f.withEOF = e.P(1, 3)
	e.Ev("case", full)
	if m.total() == 0 {
		return
	}
	steps := 1 + e.N(12)
	for i := 0; i < steps; i++ {
		t := e.N(len(m.data))
		if len(m.data[t]) == 0 {
			continue
		}
		s := e.N(len(m.data[t]))
		sa, want := p2.Tracks[t].Samples[s], m.data[t][s]
		f.pos = int64(e.N(len(full) + 1))
		// how many operations does it take?
		f.opN, f.failOp = 0, -1
		f.r = &rng{s: uint64(i)}
		f.pos = 0
		pl, err := sa.GetPayload()
		mustNil(e, err, "retrieve-error")
		e.Check(bytes.Equal(pl, want), "payload-differs", "track %d sample %d differs", t, s)
		ops := f.opN
		// each of them fails
		for op := 0; op < ops; op++ {
			rerr := e.drawReadErr()
			f.opN, f.failOp, f.failKind, f.err, f.sticky, f.fired = 0, op, e.N(2), rerr, e.P(1, 2), false
			f.r = &rng{s: uint64(i)}
			f.pos = int64(e.N(len(full)))
			pl, err := sa.GetPayload()
			e.Fault(f.firedOp + "-error")
			if err == nil {
				// what was asked for must have been obtained nevertheless
				e.Check(bytes.Equal(pl, want), "wrong-payload", "%s error (%v) at operation %d of %d of a retrieval: %d bytes returned without error, that are not the payload", f.firedOp, rerr, op, ops, len(pl))
				e.Probe("fault-absorbed")
				e.Check(len(want) == 0, "fault-not-reported", "%s error (%v) at operation %d of %d of a retrieval was not reported", f.firedOp, rerr, op, ops)
			} else if !isEOF(rerr) {
				e.Check(errors.Is(err, rerr), "other-error", "%v reported as %v", rerr, err)
			}
			e.NonTrivial()
			// the storage works again
			f.failOp = -1
			t2 := e.N(len(m.data))
			if e.P(1, 2) && len(m.data[t2]) > 0 {
				s2 := e.N(len(m.data[t2]))
				pl, err = p2.Tracks[t2].Samples[s2].GetPayload()
				mustNil(e, err, "no-recovery")
				e.Check(bytes.Equal(pl, m.data[t2][s2]), "other-sample-affected", "track %d sample %d differs after a failure of another retrieval", t2, s2)
			}
			pl, err = sa.GetPayload()
			mustNil(e, err, "no-recovery")
			e.Check(bytes.Equal(pl, want), "no-recovery", "track %d sample %d differs after a failure", t, s)
		}
		// the file is truncated while it is open, then restored
		if e.P(1, 3) {
			f.data = full[:e.N(len(full)+1)]
			f.failOp = -1
			e.Fault("truncated-while-open")
			pl, err := sa.GetPayload()
			e.Check(err != nil || bytes.Equal(pl, want), "wrong-payload", "%d bytes returned without error from a truncated file, that are not the payload", len(pl))
			f.data = full
			pl, err = sa.GetPayload()
			mustNil(e, err, "no-recovery")
			e.Check(bytes.Equal(pl, want), "no-recovery", "track %d sample %d differs after a truncation", t, s)
		}
		e.Ev("sample", t, s, ops)
	}
	// a presentation that is stored again from a failing storage
	sink := e.newSink()
	f.opN, f.failOp = 0, -1
	f.r = &rng{s: 3}
	mustNil(e, p2.Marshal(sink), "rewrite-error")
	if f.opN > 0 {
		f.failOp, f.opN, f.failKind, f.sticky, f.fired = e.N(f.opN), 0, e.N(2), e.P(1, 2), false
		f.err = newErr("input/output error")
		f.r = &rng{s: 3}
		sink2 := e.newSink()
		err := p2.Marshal(sink2)
		e.Check(f.fired, "nondeterministic-ops", "operation %d was not reached in the second writing", f.failOp)
		e.Fault("source-" + f.firedOp + "-error")
		e.Check(err != nil, "fault-not-reported", "%s error of the source while storing a presentation was not reported", f.firedOp)
		f.failOp = -1
		sink3 := e.newSink()
		mustNil(e, p2.Marshal(sink3), "no-recovery")
		e.Check(bytes.Equal(sink3.buf, sink.buf), "no-recovery", "the presentation is stored in another way after a failure")
	}
}

func runP03(e *Env) {
	m := e.genMovie(movieOpts{maxTracks: 3, maxSamples: 6})
	ref := e.newSink()
	mustNil(e, m.p.Marshal(ref), "write-error")
	e.Ev("case", ref.buf)
	werr := e.drawWriteErr()
	calls := ref.calls
	// every write fails, in both ways
	for c := 0; c < calls; c++ {
		s := e.newSink()
		s.err = werr
		s.failAt = map[int]int{c: 1 + e.N(2)}
		m.req, m.fail = 0, -1
		err := m.p.Marshal(s)
		e.Check(s.fired > 0, "nondeterministic-ops", "write %d of %d was not reached in the second writing", c, calls)
		e.Check(err != nil, "fault-not-reported", "error at write %d of %d was not reported", c, calls)
		e.NonTrivial()
	}
	// every payload request fails
	perr := newErr("payload not available")
	for k := 0; k < m.total(); k++ {
		s := e.newSink()
		m.req, m.fail, m.err = 0, k, perr
		err := m.p.Marshal(s)
		e.Fault("payload-error")
		e.Check(err != nil, "fault-not-reported", "error at payload request %d of %d was not reported", k, m.total())
		e.Check(errors.Is(err, perr), "other-error", "%v reported as %v", perr, err)
	}
	// full disk
	for i := 0; i < 8; i++ {
		s := e.newSink()
		s.err = werr
		s.full = e.N(len(ref.buf))
		m.req, m.fail = 0, -1
		err := m.p.Marshal(s)
		e.Check(err != nil, "fault-not-reported", "full disk at %d of %d was not reported", s.full, len(ref.buf))
		e.Check(bytes.HasPrefix(ref.buf, s.buf), "other-content", "what was written to a full disk is not a prefix of the presentation")
	}
	// success after failures means that the whole presentation is stored
	s := e.newSink()
	m.req, m.fail = 0, -1
	mustNil(e, m.p.Marshal(s), "no-recovery")
	e.Check(bytes.Equal(s.buf, ref.buf), "no-recovery", "the presentation is stored in another way after failures")
}

func runP04(e *Env) {
	m := e.genMovie(movieOpts{maxTracks: 3, maxSamples: 5})
	want := presView(m.p)
	var b bytes.Buffer
	mustNil(e, m.p.Marshal(&b), "write-error")
	full := b.Bytes()
	e.Ev("case", full)
	lo, step := 0, 1
	if len(full) > 3000 {
		step = 1 + len(full)/3000
		lo = e.N(step)
	}
	for cut := lo; cut < len(full); cut += step {
		var p2 pmp4.Presentation
		err := p2.Unmarshal(bytes.NewReader(full[:cut:cut]))
		if err != nil {
			continue
		}
		e.NonTrivial()
		e.Fault("truncation")
		d := diffViews(presView(&p2), want)
		e.Check(d == "", "truncated-differs", "cut at %d of %d: %s", cut, len(full), d)
		for i, t := range p2.Tracks {
			for j, s := range t.Samples {
				pl, err := s.GetPayload()
				e.Check(err != nil || bytes.Equal(pl, m.data[i][j]), "wrong-payload", "cut at %d of %d: track %d sample %d: %d bytes returned without error, that are not the payload", cut, len(full), i, j, len(pl))
			}
		}
	}
	e.Fault("truncation")
}

func isEOF(err error) bool { return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) }

func runP08(e *Env) {
	m := e.genMovie(movieOpts{maxTracks: 3, maxSamples: 4})
	var b bytes.Buffer
	mustNil(e, m.p.Marshal(&b), "write-error")
	data := b.Bytes()
	for i := e.N(3); i > 0; i-- {
		data = append(data, e.fillerBox()...)
	}
	withEOF := e.P(1, 3)
	if withEOF { // the end is announced with bytes that the header does not need
		data = append(data, 0, 0, 0, 12, 'f', 'r', 'e', 'e', 1, 2, 3, 4)
	}
	want := presView(m.p)
	e.Ev("case", data)

	// what reading gives, whatever the storage does
	var first *pmp4.Presentation
	for range 1 + e.N(3) {
		f := e.newFile(data)
		f.shortReads = e.P(3, 4)
		f.r = e.Sub()
		f.withEOF = withEOF
		f.pos = int64(e.N(len(data) + 1)) // where the file happens to be
		var p pmp4.Presentation
		mustNil(e, p.Unmarshal(f), "read-error")
		d := diffViews(presView(&p), want)
		e.Check(d == "", "short-read-differs", "%s", d)
		first = &p
	}
	e.NonTrivial()

	// every operation fails in turn
	ref := e.newFile(data)
	var p pmp4.Presentation
	mustNil(e, p.Unmarshal(ref), "read-error")
	sticky := e.P(1, 2)
	rerr := e.drawReadErr()
	step := 1
	if ref.opN > 1500 {
		step = ref.opN / 1500
	}
	for op := e.N(step); op < ref.opN; op += step {
		f := e.newFile(data)
		f.failOp, f.failKind, f.sticky, f.err = op, e.N(2), sticky, rerr
		var p pmp4.Presentation
		err := p.Unmarshal(f)
		switch {
		case err == nil:
			// the MP4 library goes on after a failed size probe, and takes a file that ends after a box as complete
			d := diffViews(presView(&p), want)
			e.Check(d == "", "partial-result", "%s error %v at operation %d of %d gave a partial presentation without error: %s", f.firedOp, rerr, op, ref.opN, d)
			e.Probe("fault-absorbed")
		case errors.Is(err, rerr):
			e.Probe("fault-surfaced")
		default:
			// the MP4 library goes on after some failed seeks, and fails later
			e.Check(f.firedOp != "read", "error-hidden", "%s error %v at operation %d of %d was reported as %v", f.firedOp, rerr, op, ref.opN, err)
			e.Probe("fault-reported-as-other")
		}
	}
	// readings that failed leave the ones that succeeded alone
	d := diffViews(presView(first), want)
	e.Check(d == "", "reading-changed", "%s", d)
	e.sample = fmt.Sprintf("%d tracks, %d samples, %d bytes, %d operations", len(m.p.Tracks), m.total(), len(data), ref.opN)
}
