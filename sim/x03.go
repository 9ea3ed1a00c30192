package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	"github.com/bluenviron/mediacommon/v2/verifhook"
)

// Servers read and write streams that do not end, and files bigger than their memory.

func init() {
	register(&Prop{
		ID: "X03", Quick: 6000, Run: runX03,
		Rule: "A run is non-trivial when a session went on for at least ten times the length of its stream, or a file of at least 512 MiB was written and read.",
		Real: []string{"mpegts.Reader", "mpegts.Writer", "rewindablereader", "go-astits demuxer and muxer", "DTS extractors", "AudioMuxElement", "pmp4.Presentation", "fmp4.Init", "go-mp4 reader and writer"},
		Stub: []string{"network (endless, datagrams or byte stream, packet loss)", "disk (sparse, up to 4 GiB)", "payload source", "clock (timestamps repeat in every cycle, or go on)"},
		Assume: []string{"memory is what the heap holds after a collection, measured at the same point of each cycle",
			"applications do not keep what is delivered"},
	})
}

func runX03(e *Env) {
	switch e.W(6, 3, 3, 3, 2, 1) {
	case 0:
		e.longReading()
	case 1:
		e.longWriting()
	case 2:
		e.longExtraction()
	case 3:
		e.hugePresentation()
	case 4:
		e.hugeFragments()
	default:
		e.longLATM()
	}
}

func heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// gauge measures memory and work of the cycles of a session.
type gauge struct {
	e      *Env
	what   string
	cycles int
	heap0  uint64
	steps0 uint64 // at the start of the cycle
	first  uint64 // work of the cycle used as reference
	steady bool   // all cycles are the same
	room   uint64
}

// end is called at the end of cycle i.
func (g *gauge) end(i int) {
	st := verifhook.Steps - g.steps0
	switch {
	case i == 2:
		g.heap0, g.first = heap(), st
	case i > 2:
		if g.steady {
			g.e.Check(st <= g.first+g.first/4+5000, "work-grows", "%s: cycle %d of %d takes %d steps, cycle 2 took %d", g.what, i, g.cycles, st, g.first)
		}
		if i == g.cycles-1 || i == g.cycles/2 {
			h := heap()
			g.e.Check(h <= g.heap0+g.room, "memory-grows", "%s: %d bytes of memory are held after cycle %d of %d, %d after cycle 2", g.what, h, i, g.cycles, g.heap0)
		}
	}
	g.steps0 = verifhook.Steps
}

// cycleSource repeats a stream without end, as an encoder that loops a file: continuity counters go on.
type cycleSource struct {
	wire   []byte
	pays   map[int]int // packets with payload per cycle, by PID
	cycles int
	cycle  int
	off    int
	buf    []byte
	max    int
	loss   *rng
	lost   int
	onEnd  func(i int)
}

func (s *cycleSource) Read(p []byte) (int, error) {
	for len(s.buf) == 0 {
		if s.off == len(s.wire) {
			s.onEnd(s.cycle)
			s.cycle++
			s.off = 0
		}
		if s.cycle == s.cycles {
			return 0, io.EOF
		}
		// a datagram
		for n := 0; n < 7 && s.off < len(s.wire); n++ {
			q := append([]byte(nil), s.wire[s.off:s.off+188]...)
			s.off += 188
			pid := int(q[1]&0x1f)<<8 | int(q[2])
			q[3] = q[3]&0xf0 | (q[3]+byte(s.pays[pid]*s.cycle))&15
			if s.loss != nil && s.cycle > 0 && s.loss.n(40) == 0 {
				s.lost++
				continue
			}
			s.buf = append(s.buf, q...)
		}
	}
	n := copy(p[:min(len(p), s.max)], s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

func (e *Env) longReading() {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 16, maxTracks: 4, small: e.P(1, 2)})
	wire := c.mux()
	s := &cycleSource{wire: wire, pays: map[int]int{}, max: 1 << 20}
	for off := 0; off < len(wire); off += 188 {
		if wire[off+3]&0x10 != 0 {
			s.pays[int(wire[off+1]&0x1f)<<8|int(wire[off+2])]++
		}
	}
	s.cycles = min(max(400_000/len(wire), 12), 300)
	if e.P(1, 3) {
		s.max = e.R(1, 3000)
	}
	if e.P(1, 3) {
		s.loss = e.Sub()
	}
	g := &gauge{e: e, what: "reading", cycles: s.cycles, steady: s.loss == nil, room: 64<<10 + 4*uint64(len(wire))}
	var rv *tsRecv
	ref := 0
	s.onEnd = func(i int) {
		n := 0
		if rv != nil {
			for k := range rv.got {
				n += len(rv.got[k])
				rv.got[k] = nil
			}
			rv.order, rv.decErr = nil, nil
		}
		g.end(i)
		if i == 2 {
			ref = n
		}
		if i > 2 && s.loss == nil {
			e.Check(n == ref, "units-missing", "cycle %d of %d delivers %d units, cycle 2 delivered %d", i, s.cycles, n, ref)
		}
	}
	e.Ev("reading", c.describe(), len(wire), s.cycles, s.max)
	var err error
	rv, err = e.newRecv(s)
	if err != nil {
		if s.loss == nil && c.openable(len(c.units)) {
			e.Fail("not-opened", "an endless stream was refused: %v", err)
		}
		e.Probe("not opened")
		return
	}
	rv.drain()
	e.Check(errors.Is(rv.err, io.EOF), "ended", "reading ended with %v", rv.err)
	e.Check(s.cycle >= s.cycles, "ended", "reading ended in cycle %d of %d", s.cycle, s.cycles)
	if s.loss != nil {
		e.faults["packet-loss"] += s.lost
	}
	e.Probe("endless reading")
	e.NonTrivial()
	e.sample = fmt.Sprintf("reading %d cycles of %s", s.cycles, c.describe())
}

func (e *Env) longWriting() {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 16, maxTracks: 4, small: e.P(1, 2)})
	cycles := 60
	var n int64
	var fail func() bool
	if e.P(1, 3) {
		r := e.Sub()
		fail = func() bool { return r.n(50) == 0 }
	}
	out := &voidSink{n: &n, fail: fail}
	e.Ev("writing", c.describe())
	g := &gauge{e: e, what: "writing", cycles: cycles, steady: fail == nil, room: 64 << 10}
	mw := &mpegts.Writer{W: out}
	for _, t := range c.tracks {
		mw.Tracks = append(mw.Tracks, t.tr)
	}
	mustNil(e, mw.Initialize(), "writer-init")
	sz := int64(0)
	for i := range cycles {
		before := n
		for _, u := range c.units {
			err := c.writeUnit(mw, u)
			e.Check(err == nil || fail != nil, "write-error", "a unit that had been written is refused in cycle %d: %v", i, err)
		}
		if fail == nil {
			// tables and clock references are not at the same places in each cycle
			if i == 2 {
				sz = n - before
			}
			e.Check(i <= 2 || n-before <= sz+sz/4+20*188, "output-grows", "cycle %d takes %d bytes, cycle 2 took %d", i, n-before, sz)
		}
		g.end(i)
	}
	e.faults["write-error"] += out.failed
	e.Probe("endless writing")
	e.NonTrivial()
	e.sample = fmt.Sprintf("writing %d cycles of %s", cycles, c.describe())
}

type voidSink struct {
	n      *int64
	fail   func() bool
	failed int
}

func (s *voidSink) Write(p []byte) (int, error) {
	if s.fail != nil && s.fail() {
		s.failed++
		return 0, newErr("output")
	}
	*s.n += int64(len(p))
	return len(p), nil
}

func (e *Env) longExtraction() {
	s := &dtsStream{h265: e.P(1, 2)}
	e.genDTSInto(s, 0, 1+e.N(3), 60)
	ex := s.extractor()
	lo, hi := s.aus[0].pts, s.aus[0].pts
	for _, a := range s.aus {
		lo, hi = min(lo, a.pts), max(hi, a.pts)
	}
	period := hi - lo + int64(s.step)
	cycles := min(max(2000/len(s.aus), 12), 60)
	e.Ev("extraction", s.String(), cycles)
	g := &gauge{e: e, what: "extraction", cycles: cycles, steady: !s.vfr, room: 64 << 10}
	ok := 0
	for i := range cycles {
		n := 0
		for _, a := range s.aus {
			if _, err := ex(a.au, a.pts+int64(i)*period); err == nil {
				n++
			}
		}
		if i == 2 {
			ok = n
		}
		if i > 2 && !s.vfr {
			e.Check(n >= ok, "errors-grow", "%d of %d decoding times are found in cycle %d, %d in cycle 2", n, len(s.aus), i, ok)
		}
		g.end(i)
	}
	e.Probe("endless extraction")
	e.NonTrivial()
	e.sample = s.String()
}

func (e *Env) longLATM() {
	cfg := e.drawLATMConfig()
	snd := mpeg4audio.AudioMuxElement{MuxConfigPresent: true, StreamMuxConfig: cfg}
	pl := make([][][][]byte, cfg.NumSubFrames+1)
	r := e.Sub()
	for i := range pl {
		for _, p := range cfg.Programs {
			var ls [][]byte
			for _, l := range p.Layers {
				n := 1 + r.n(300)
				if l.FrameLengthType == 1 {
					n = int(l.FrameLength) + 20
				}
				b := make([]byte, n)
				r.fill(b)
				ls = append(ls, b)
			}
			pl[i] = append(pl[i], ls)
		}
	}
	snd.Payloads = pl
	b, err := snd.Marshal()
	if err != nil {
		e.Probe("not representable")
		return
	}
	e.Ev("latm", b)
	var dec mpeg4audio.AudioMuxElement
	dec.MuxConfigPresent = true
	g := &gauge{e: e, what: "LATM", cycles: 40, steady: true, room: 64 << 10}
	for i := range g.cycles {
		for range max(1, min(20, 40_000/len(b))) {
			mustNil(e, dec.Unmarshal(b), "element-refused")
		}
		g.end(i)
	}
	e.Probe("endless LATM")
	e.NonTrivial()
}

// pattern is the content of a sparse file: 8-byte words that tell their position.
func pattern(b []byte, off int64) {
	var w [8]byte
	i := 0
	for i < len(b) {
		p := off + int64(i)
		if p%8 == 0 && len(b)-i >= 8 {
			binary.BigEndian.PutUint64(b[i:], uint64(p)*0x9E3779B97F4A7C15)
			i += 8
			continue
		}
		binary.BigEndian.PutUint64(w[:], uint64(p&^7)*0x9E3779B97F4A7C15)
		b[i] = w[p%8]
		i++
	}
}

// sparseFile has a beginning, and a generated content up to its size.
type sparseFile struct {
	head  []byte
	size  int64
	pos   int64
	bytes int64
	ops   int
	max   int
}

func (f *sparseFile) Read(p []byte) (int, error) {
	f.ops++
	if f.pos >= f.size {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), f.size-f.pos, int64(f.max)))
	k := 0
	if f.pos < int64(len(f.head)) {
		k = copy(p[:n], f.head[f.pos:])
	}
	pattern(p[k:n], f.pos+int64(k))
	f.pos += int64(n)
	f.bytes += int64(n)
	return n, nil
}

func (f *sparseFile) Seek(off int64, whence int) (int64, error) {
	f.ops++
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

// headSink keeps the beginning of a file, up to its last box header.
type headSink struct {
	head []byte
	n    int64
	keep bool
}

func (s *headSink) Write(p []byte) (int, error) {
	s.n += int64(len(p))
	if s.keep {
		s.head = append(s.head, p...)
	}
	return len(p), nil
}

func (e *Env) hugePresentation() {
	size := []int{1 << 20, 3 << 20, 8<<20 + 1, 16 << 20, 40<<20 + 3}[e.N(5)]
	total := int64(512<<20) + int64(e.U(3<<30))
	if e.P(1, 6) {
		total = 4<<30 - int64(e.N(100<<20)) // close to, or beyond the limit of the format
	}
	n := int(total/int64(size)) + 1
	nt := 1 + e.N(3)
	p := &pmp4.Presentation{}
	buf := make([]byte, size)
	sink := &headSink{keep: true}
	type ref struct {
		t, s int
		off  int64
	}
	var order []ref
	h0 := uint64(0)
	room := uint64(size) + 512<<10
	off := int64(0)
	for t := range nt {
		tr := &pmp4.Track{ID: t + 1, TimeScale: e.drawScale(), Codec: e.drawCodec(e.N(mKinds))}
		dur := uint32(1 + e.N(int(min(tr.TimeScale, 1<<30))))
		for s := range n / nt {
			sz := size
			if s%5 == 4 {
				sz = size / 3
			}
			tr.Samples = append(tr.Samples, &pmp4.Sample{Duration: dur, PayloadSize: uint32(sz), GetPayload: func() ([]byte, error) {
				sink.keep = false
				if len(order) == 0 {
					h0 = heap()
				} else if len(order)%64 == 63 {
					h := heap()
					e.Check(h <= h0+room, "memory-grows", "%d bytes of memory are held after %d payloads of %d bytes, %d at the first one", h, len(order), size, h0)
				}
				order = append(order, ref{t, s, off})
				off += int64(sz)
				return buf[:sz:sz], nil
			}})
		}
		p.Tracks = append(p.Tracks, tr)
	}
	want := presView(p)
	sum := int64(0)
	for _, tr := range p.Tracks {
		for _, s := range tr.Samples {
			sum += int64(s.PayloadSize)
		}
	}
	err := p.Marshal(sink)
	if err != nil {
		e.Check(sum > 4<<30-16<<20, "refused", "a presentation of %d bytes was refused: %v", sum, err)
		e.Check(len(order) == 0 && sink.n == 0, "refused-but-written", "%d payloads were requested, and %d bytes written, before the presentation was refused", len(order), sink.n)
		e.Probe("too big")
		e.Fault("presentation beyond 4 GiB")
		return
	}
	e.Check(len(order) == n/nt*nt, "payload-requests", "%d payloads requested of %d", len(order), n/nt*nt)
	headLen := int64(len(sink.head))
	e.Check(sink.n == headLen+sum, "size", "a header of %d bytes, %d bytes of payloads, %d written", headLen, sum, sink.n)
	e.Ev("written", sink.head, sink.n)

	f := &sparseFile{head: sink.head, size: sink.n, max: 1 << 30}
	if e.P(1, 3) {
		f.max = e.R(4096, 1<<20)
	}
	var p2 pmp4.Presentation
	h1 := heap()
	st := verifhook.Steps
	mustNil(e, p2.Unmarshal(f), "read-error")
	e.Check(f.bytes <= 6*headLen+64<<10, "io-amplification", "%d bytes were read to open a presentation with a header of %d bytes", f.bytes, headLen)
	e.Check(verifhook.Steps-st <= 400*uint64(headLen)+500_000, "work", "%d steps to open a presentation with a header of %d bytes", verifhook.Steps-st, headLen)
	h2 := heap()
	e.Check(h2 <= h1+100*uint64(headLen)+512<<10, "memory-grows", "an open presentation with a header of %d bytes takes %d bytes", headLen, h2-h1)
	d := diffViews(presView(&p2), want)
	e.Check(d == "", "presentation-differs", "%s", d)
	exp := make([]byte, size)
	for range 3 {
		o := order[e.N(len(order))]
		if e.P(1, 3) {
			o = order[len(order)-1]
		}
		f.bytes, f.ops = 0, 0
		s := p2.Tracks[o.t].Samples[o.s]
		pl, err := s.GetPayload()
		mustNil(e, err, "payload-error")
		w := exp[:s.PayloadSize]
		pattern(w, headLen+o.off)
		e.Check(bytes.Equal(pl, w), "wrong-payload", "the payload at %d is not returned for sample %d of track %d", headLen+o.off, o.s, o.t)
		e.Check(f.bytes <= int64(len(w))+64<<10, "io-amplification", "%d bytes were read to get a payload of %d bytes", f.bytes, len(w))
		e.Check(f.ops <= 1000+len(w)/min(f.max, 1<<15)*4, "io-amplification", "%d operations to get a payload of %d bytes", f.ops, len(w))
	}
	e.Probe("huge presentation")
	e.NonTrivial()
	e.sample = fmt.Sprintf("presentation of %d bytes", sink.n)
}

// hugeFragments opens recordings of any length: only the header is read.
func (e *Env) hugeFragments() {
	in := e.genInit(initOpts{maxTracks: 3, userData: true})
	want := initView(in)
	var b seekablebuffer.Buffer
	mustNil(e, in.Marshal(&b), "write-error")
	head := append([]byte(nil), b.Bytes()...)
	initLen := int64(len(head))
	total := initLen
	parts := e.genParts(in, partOpts{minParts: 1, maxParts: 2, maxSamples: 3})
	if e.P(1, 2) {
		var pb seekablebuffer.Buffer
		mustNil(e, parts[0].Marshal(&pb), "write-error")
		head = append(head, pb.Bytes()...)
	}
	// a data box that takes the rest of the file
	n := int64(512<<20) + int64(e.U(3<<30))
	if e.P(1, 2) {
		head = append(head, 0, 0, 0, 1, 'm', 'd', 'a', 't')
		head = binary.BigEndian.AppendUint64(head, uint64(n)<<e.N(8))
		total = int64(len(head)) - 16 + n<<0
	} else {
		head = binary.BigEndian.AppendUint32(head, uint32(n))
		head = append(head, "mdat"...)
		total = int64(len(head)) - 8 + n
	}
	f := &sparseFile{head: head, size: total, max: 1 << 30}
	var in2 fmp4.Init
	h1 := heap()
	err := in2.Unmarshal(f)
	if err != nil {
		e.Fail("read-error", "the header of a long recording was refused: %v", err)
	}
	e.Check(initView(&in2) == want, "header-differs", "%s instead of %s", initView(&in2), want)
	e.Check(f.bytes <= 6*int64(len(head))+64<<10, "io-amplification", "%d bytes were read for a header of %d bytes", f.bytes, initLen)
	h2 := heap()
	e.Check(h2 <= h1+100*uint64(len(head))+512<<10, "memory-grows", "a header of %d bytes takes %d bytes", initLen, h2-h1)
	e.Probe("huge recording")
	e.NonTrivial()
}
