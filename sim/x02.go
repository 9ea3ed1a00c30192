package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"unsafe"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"
)

func init() {
	register(&Prop{
		ID: "X02", Quick: 220000, Run: runX02,
		Rule: "A run is non-trivial when at least one delivery or one input was checked after later operations.",
		Real: []string{"mpegts.Writer, Reader", "fmp4.Init, Parts, Sample", "pmp4.Presentation", "seekablebuffer", "rewindablereader", "codec parsers and writers", "DTS extractors", "go-astits, go-mp4"},
		Stub: []string{"application that keeps, overwrites and reuses buffers", "sources, sinks and files"},
		Assume: []string{"an application appends nothing to the byte strings of a delivery (their spare capacity is not part of the delivery)",
			"content of fMP4 parts and results of pure parsers refer to the byte string they are parsed from, by design"},
	})
}

// guard holds buffers of the application, with everything around them.
type guard struct {
	e    *Env
	r    *rng
	arrs [][]byte
	snap [][]byte
	outs []guardOut
}

type guardOut struct {
	full [][]byte
	ptr  []unsafe.Pointer
	ln   []int
}

func (e *Env) newGuard() *guard { return &guard{e: e, r: e.Sub()} }

func (g *guard) arr(n int) []byte {
	a := make([]byte, n)
	g.r.fill(a)
	g.arrs = append(g.arrs, a)
	return a
}

// bytes puts a byte string into a larger buffer.
func (g *guard) bytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	spare := 40
	if g.r.n(3) == 0 {
		spare = 100 + g.r.n(3000)
	}
	a := g.arr(len(b) + 8 + spare)
	copy(a[8:], b)
	return a[8 : 8+len(b)]
}

// unit puts the parts of a unit into buffers of the application.
func (g *guard) unit(au [][]byte) [][]byte {
	full := make([][]byte, len(au)+3)
	if g.r.n(2) == 0 { // in one buffer: adjacent, with gaps, or in another order
		n := 8 + 64
		for _, b := range au {
			n += len(b) + 12
		}
		if g.r.n(2) == 0 {
			n += 3000
		}
		a := g.arr(n)
		p := 8
		mode := g.r.n(3)
		for k := range au {
			i := k
			if mode == 2 {
				i = len(au) - 1 - k
			}
			b := au[i]
			copy(a[p:], b)
			full[i] = a[p : p+len(b)]
			p += len(b)
			if mode == 1 {
				p += g.r.n(12)
			}
		}
	} else {
		for i, b := range au {
			full[i] = g.bytes(b)
		}
	}
	for i := len(au); i < len(full); i++ {
		full[i] = g.arr(7)
	}
	o := guardOut{full: full}
	for _, b := range full {
		o.ptr = append(o.ptr, unsafe.Pointer(unsafe.SliceData(b)))
		o.ln = append(o.ln, len(b))
	}
	g.outs = append(g.outs, o)
	return full[:len(au)]
}

// seal records the content.
func (g *guard) seal() *guard {
	for _, a := range g.arrs[len(g.snap):] {
		g.snap = append(g.snap, bytes.Clone(a))
	}
	return g
}

// check verifies that nobody wrote into the buffers.
func (g *guard) check(what string, args ...any) {
	for i, a := range g.arrs {
		if !bytes.Equal(a, g.snap[i]) {
			k := 0
			for a[k] == g.snap[i][k] {
				k++
			}
			g.e.Fail("input-modified", "%s: byte %d of %d of a buffer of the application was changed", fmt.Sprintf(what, args...), k, len(a))
		}
	}
	for _, o := range g.outs {
		for i, b := range o.full {
			if unsafe.Pointer(unsafe.SliceData(b)) != o.ptr[i] || len(b) != o.ln[i] {
				g.e.Fail("input-modified", "%s: entry %d of a list of the application was changed", fmt.Sprintf(what, args...), i)
			}
		}
	}
}

// reuse overwrites everything, as an application that reuses its buffers does.
func (g *guard) reuse() {
	for _, a := range g.arrs {
		g.r.fill(a)
	}
	for _, o := range g.outs {
		for i := range o.full {
			o.full[i] = nil
		}
	}
	g.e.Fault("buffers-reused")
}

func runX02(e *Env) {
	switch e.N(9) {
	case 0, 1:
		e.x02Read()
	case 2, 3:
		e.x02Write()
	case 4:
		e.x02FMP4()
	case 5:
		e.x02PMP4()
	case 6:
		e.x02Parsers()
	case 7:
		e.x02Buffers()
	case 8:
		e.x02LATM()
	}
	e.Ev("sample", e.sample)
}

// ---- MPEG-TS reading

func (e *Env) x02Read() {
	c := genTS(e, tsOpts{maxTracks: 4, maxUnits: 20, noHuge: true, small: e.P(1, 2)})
	wire := c.mux()
	if e.P(1, 3) {
		wire = e.damage(wire)
	}
	proto := *e.newSimReader(wire)
	seed := e.U(1 << 32)
	e.sample = "reading " + c.describe()

	run := func(scribble int) *tsRecv {
		sr := proto
		sr.r = &rng{s: seed}
		rv, err := e.newRecv(&sr)
		if err != nil {
			return nil
		}
		tracks := tracksString(rv.r.Tracks())
		junk := &rng{s: 99}
		n := 0
		for {
			before := len(rv.order)
			err := rv.r.Read()
			rv.reads++
			if scribble > 0 && len(rv.order) > before {
				// the application overwrites what it received (in place processing, for instance decryption)
				for _, g := range rv.got {
					for _, it := range g {
						if it.readIdx == rv.reads-1 && (scribble == 1 || junk.n(2) == 0) {
							for i, b := range it.data {
								junk.fill(b)
								it.data[i] = nil
							}
							n++
						}
					}
				}
			}
			if err != nil {
				break
			}
		}
		if scribble > 0 {
			e.Fault("deliveries-overwritten")
			if n > 1 {
				e.NonTrivial()
			}
		}
		e.Check(tracksString(rv.r.Tracks()) == tracks, "tracks-changed", "the tracks changed while reading: %s, %s", tracks, tracksString(rv.r.Tracks()))
		return rv
	}

	rv := run(0)
	if rv == nil {
		return
	}
	last := 0
	for ti, g := range rv.got {
		for k, it := range g {
			h := hashUnits(it.data)
			e.Check(h == it.hash, "delivery-changed", "track %d (%s): unit %d changed after it was delivered", ti, kindName(rv, ti), k)
			last++
		}
	}
	if last > 1 {
		e.NonTrivial()
	}
	// no byte is in two deliveries
	type span struct{ lo, hi uintptr }
	var spans []span
	for _, g := range rv.got {
		for _, it := range g {
			for _, b := range it.data {
				if len(b) > 0 {
					p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
					spans = append(spans, span{p, p + uintptr(len(b))})
				}
			}
		}
	}
	for i, a := range spans {
		for _, b := range spans[i+1:] {
			if a.lo < b.hi && b.lo < a.hi {
				e.Fail("shared-delivery", "two deliveries share memory")
			}
		}
	}
	rv2 := run(1 + e.N(2))
	e.Check(rv2 != nil, "scribble", "reading again fails")
	for ti, g := range rv.got {
		g2 := rv2.got[ti]
		e.Check(len(g) == len(g2), "scribble", "track %d: %d units, %d when the application overwrites what it received", ti, len(g), len(g2))
		for k := range g {
			e.Check(g[k].hash == g2[k].hash && g[k].pts == g2[k].pts && g[k].dts == g2[k].dts, "scribble",
				"track %d: unit %d differs when the application overwrites what it received before", ti, k)
		}
	}
	e.Check(fmt.Sprint(rv.decErr) == fmt.Sprint(rv2.decErr), "scribble", "decode errors differ when the application overwrites what it received")
}

func kindName(rv *tsRecv, ti int) string {
	if k := kindOf(rv.r.Tracks()[ti]); k >= 0 {
		return kindNames[k]
	}
	return "unsupported"
}

func tracksString(trs []*mpegts.Track) string {
	s := ""
	for _, t := range trs {
		s += fmt.Sprint(t.PID, t.Language, codecView(t.Codec), ";")
	}
	return s
}

// ---- MPEG-TS writing

func (e *Env) x02Write() {
	c := genTS(e, tsOpts{maxTracks: 4, maxUnits: 20, noHuge: true, small: e.P(1, 2)})
	e.sample = "writing " + c.describe()
	var ref bytes.Buffer
	x := c.cloneTracks()
	w := x.writer(&ref)
	for _, u := range x.units {
		w2 := *u
		w2.data = nil
		for _, b := range u.data {
			w2.data = append(w2.data, bytes.Clone(b))
		}
		x.writeUnit(w, &w2) //nolint:errcheck
	}

	sink := e.newSink()
	faulty := e.P(1, 4)
	if faulty {
		sink.err = newErr("sink")
		sink.failAt = map[int]int{e.N(40): 1 + e.N(2)}
		if e.P(1, 2) {
			sink.failAt[e.N(40)] = 1 + e.N(2)
		}
	}
	y := c.cloneTracks()
	w = y.writer(sink)
	reuse := e.P(3, 4)
	var all *guard
	if !reuse {
		all = e.newGuard()
	}
	for i, u := range y.units {
		g := all
		if reuse {
			g = e.newGuard()
		}
		u2 := *u
		u2.data = g.unit(u.data)
		h := hashUnits(u2.data)
		g.seal()
		err := y.writeUnit(w, &u2)
		e.Ev("write", i, err, len(sink.buf))
		if !reuse && i%8 != 0 {
			e.Check(h == hashUnits(u2.data), "input-modified", "unit %d (%s) was changed by writing it", i, kindNames[y.tracks[u.track].kind])
			continue
		}
		g.check("unit %d (%s)", i, kindNames[y.tracks[u.track].kind])
		if reuse {
			g.reuse()
		}
	}
	if all != nil {
		all.check("at the end")
	}
	if len(y.units) > 1 {
		e.NonTrivial()
	}
	if sink.fired == 0 {
		if !bytes.Equal(sink.buf, ref.Bytes()) {
			k := 0
			for k < min(len(sink.buf), ref.Len()) && sink.buf[k] == ref.Bytes()[k] {
				k++
			}
			e.Fail("written-changed", "the stream differs from packet %d of %d on when the application reuses its buffers (buffers reused: %v)", k/188, ref.Len()/188, reuse)
		}
	}
}

// ---- fMP4

func (g *guard) mp4Codec(c mp4codecs.Codec) mp4codecs.Codec {
	switch c := c.(type) {
	case *mp4codecs.AV1:
		return &mp4codecs.AV1{SequenceHeader: g.bytes(c.SequenceHeader)}
	case *mp4codecs.H265:
		return &mp4codecs.H265{VPS: g.bytes(c.VPS), SPS: g.bytes(c.SPS), PPS: g.bytes(c.PPS)}
	case *mp4codecs.H264:
		return &mp4codecs.H264{SPS: g.bytes(c.SPS), PPS: g.bytes(c.PPS)}
	case *mp4codecs.MPEG4Video:
		return &mp4codecs.MPEG4Video{Config: g.bytes(c.Config)}
	case *mp4codecs.MPEG1Video:
		return &mp4codecs.MPEG1Video{Config: g.bytes(c.Config)}
	case *mp4codecs.FLAC:
		si := *c.StreamInfo
		return &mp4codecs.FLAC{StreamInfo: &si}
	}
	x := reflect.New(reflect.TypeOf(c).Elem())
	x.Elem().Set(reflect.ValueOf(c).Elem())
	return x.Interface().(mp4codecs.Codec)
}

func (e *Env) x02FMP4() {
	e.NonTrivial()
	switch e.N(4) {
	case 0: // header
		in := e.genInit(initOpts{maxTracks: 3, userData: true})
		g := e.newGuard()
		in2 := &fmp4.Init{UserData: in.UserData}
		for _, t := range in.Tracks {
			t2 := *t
			t2.Codec = g.mp4Codec(t.Codec)
			in2.Tracks = append(in2.Tracks, &t2)
		}
		g.seal()
		v := initFull(in2)
		ref, refErr := marshalBuf(func(b *seekablebuffer.Buffer) error { return in.Marshal(b) })
		f := e.newFile(nil)
		if e.P(1, 5) {
			f.failOp, f.err = e.N(30), newErr("file")
		}
		err := in2.Marshal(f)
		g.check("header")
		e.Check(initFull(in2) == v, "input-modified", "the header was changed by writing it: %s, %s", clip(v), clip(initFull(in2)))
		g.reuse()
		if !f.fired {
			e.Check((err == nil) == (refErr == nil) && bytes.Equal(ref, f.data), "written-changed", "header differs: %v, %v", err, refErr)
		}
		if refErr != nil {
			return
		}
		// reading: the file changes afterwards
		data := bytes.Clone(ref)
		var in3 fmp4.Init
		if err := in3.Unmarshal(e.newFile(data)); err != nil {
			return
		}
		v = initView(&in3)
		e.Check(bytes.Equal(data, ref), "input-modified", "the file was changed by reading it")
		e.Sub().fill(data)
		// and so do the ones that are read later
		var in4 fmp4.Init
		in4.Unmarshal(e.newFile(bytes.Clone(ref))) //nolint:errcheck
		for _, t := range in4.Tracks {
			scribbleCodec(t.Codec)
		}
		e.Check(initView(&in3) == v, "delivery-changed", "a header that was read changed afterwards: %s, %s", clip(v), clip(initView(&in3)))
		e.sample = "fmp4 header"

	case 1: // parts
		in := e.genInit(initOpts{maxTracks: 3})
		ps := e.genParts(in, partOpts{minParts: 1, maxParts: 3, maxSamples: 6})
		var ref bytes.Buffer
		for _, p := range ps {
			b, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return p.Marshal(b) })
			if err != nil {
				return
			}
			ref.Write(b)
		}
		var out seekablebuffer.Buffer
		together := e.P(1, 3)
		all := e.newGuard()
		var ps2 fmp4.Parts
		for i, p := range ps {
			g := e.newGuard()
			p2 := &fmp4.Part{SequenceNumber: p.SequenceNumber}
			for _, t := range p.Tracks {
				t2 := &fmp4.PartTrack{ID: t.ID, BaseTime: t.BaseTime}
				var pls [][]byte
				for _, s := range t.Samples {
					pls = append(pls, s.Payload)
				}
				if together {
					pls = all.unit(pls)
				} else {
					pls = g.unit(pls)
				}
				for j, s := range t.Samples {
					s2 := *s
					s2.Payload = pls[j]
					t2.Samples = append(t2.Samples, &s2)
				}
				p2.Tracks = append(p2.Tracks, t2)
			}
			ps2 = append(ps2, p2)
			if together {
				continue
			}
			g.seal()
			v := partView(p2)
			e.Check(p2.Marshal(&out) == nil, "error", "part %d refused", i)
			g.check("part %d", i)
			e.Check(partView(p2) == v, "input-modified", "part %d was changed by writing it", i)
			g.reuse()
		}
		if together {
			all.seal()
			e.Check(ps2.Marshal(&out) == nil, "error", "parts refused")
			all.check("parts")
			all.reuse()
		}
		e.Check(bytes.Equal(out.Bytes(), ref.Bytes()), "written-changed", "parts differ when the application reuses its buffers")
		// reading
		data := bytes.Clone(ref.Bytes())
		g := e.newGuard()
		b := g.bytes(data)
		g.seal()
		var ps3 fmp4.Parts
		if err := ps3.Unmarshal(b); err == nil {
			g.check("parts that were read")
			v := partsView(ps3)
			var ps4 fmp4.Parts
			ps4.Unmarshal(bytes.Clone(data)) //nolint:errcheck
			for _, p := range ps4 {
				for _, t := range p.Tracks {
					for _, s := range t.Samples {
						e.Sub().fill(s.Payload)
						s.Duration, s.PTSOffset = 1, 1
					}
				}
			}
			e.Check(diffViews(partsView(ps3), v) == "", "delivery-changed", "parts that were read changed when others were overwritten")
			g.check("parts that were read, later")
		}
		e.sample = "fmp4 parts"

	case 2: // samples from units, and back
		c := genTS(e, tsOpts{maxTracks: 1, maxUnits: 8, noHuge: true, small: true, kinds: []int{kH264, kH265}})
		type res struct {
			s     *fmp4.Sample
			h     uint64
			want  uint64
			units [][]byte
		}
		var rs []res
		for i, u := range c.units {
			g := e.newGuard()
			au := g.unit(u.data)
			g.seal()
			s := &fmp4.Sample{}
			var err error
			if c.tracks[0].kind == kH264 {
				err = s.FillH264(0, au)
			} else {
				err = s.FillH265(0, au)
			}
			g.check("unit %d", i)
			g.reuse()
			if err == nil {
				rs = append(rs, res{s: s, h: hashBytes(s.Payload), want: hashUnits(u.data)})
			}
		}
		for i := range rs {
			g := e.newGuard()
			s2 := fmp4.Sample{Payload: g.bytes(rs[i].s.Payload)}
			g.seal()
			units, err := s2.GetH264()
			g.check("sample %d", i)
			e.Check(err == nil && hashUnits(units) == rs[i].want, "written-changed", "sample %d differs from the unit it was made from: %v", i, err)
			units, _ = rs[i].s.GetH264()
			rs[i].units = units
		}
		for i, r := range rs {
			e.Check(hashBytes(r.s.Payload) == r.h && hashUnits(r.units) == r.want, "delivery-changed", "sample %d changed", i)
		}
		e.sample = "samples of " + c.describe()

	case 3: // AV1
		seq := e.genAV1Seq()
		var rs []*fmp4.Sample
		var want []uint64
		for i := range 1 + e.N(5) {
			var tu [][]byte
			if e.P(1, 2) {
				tu = append(tu, seq)
			}
			for range 1 + e.N(4) {
				b := e.blob(1, 300)
				b[0] = 0x30
				tu = append(tu, b)
			}
			g := e.newGuard()
			tu2 := g.unit(tu)
			g.seal()
			s := &fmp4.Sample{}
			err := s.FillAV1(tu2)
			if e.P(1, 8) { // the deprecated way
				s, err = fmp4.NewSampleAV12(tu2)
			}
			g.check("temporal unit %d", i)
			g.reuse()
			if err == nil {
				rs = append(rs, s)
				want = append(want, hashUnits(tu))
			}
		}
		for i, s := range rs {
			g := e.newGuard()
			s2 := fmp4.Sample{Payload: g.bytes(s.Payload)}
			g.seal()
			tu, err := s2.GetAV1()
			g.check("sample %d", i)
			e.Check(err == nil && hashUnits(tu) == want[i], "written-changed", "sample %d differs from the temporal unit it was made from: %v", i, err)
		}
		e.sample = "AV1 samples"
	}
}

func scribbleCodec(c mp4codecs.Codec) {
	r := &rng{s: 5}
	switch c := c.(type) {
	case *mp4codecs.AV1:
		r.fill(c.SequenceHeader)
	case *mp4codecs.H265:
		r.fill(c.VPS)
		r.fill(c.SPS)
		r.fill(c.PPS)
	case *mp4codecs.H264:
		r.fill(c.SPS)
		r.fill(c.PPS)
	case *mp4codecs.MPEG4Video:
		r.fill(c.Config)
	case *mp4codecs.MPEG1Video:
		r.fill(c.Config)
	case *mp4codecs.FLAC:
		*c.StreamInfo = flac.StreamInfo{}
	}
}

// ---- plain MP4

func (e *Env) x02PMP4() {
	m := e.genMovie(movieOpts{maxTracks: 3, maxSamples: 10})
	var ref bytes.Buffer
	refErr := m.p.Marshal(&ref)
	e.sample = fmt.Sprintf("pmp4, %d tracks", len(m.p.Tracks))

	// the application retrieves every payload in the same buffer
	g := e.newGuard()
	scratchSize := 0
	for _, d := range m.data {
		for _, b := range d {
			scratchSize = max(scratchSize, len(b))
		}
	}
	scratch := make([]byte, scratchSize+64)
	shared := e.P(1, 2)
	p2 := &pmp4.Presentation{}
	var last []byte
	var lastLen int
	for ti, t := range m.p.Tracks {
		t2 := *t
		t2.Codec = g.mp4Codec(t.Codec)
		t2.Samples = nil
		for si, s := range t.Samples {
			s2 := *s
			d := m.data[ti][si]
			if shared {
				s2.GetPayload = func() ([]byte, error) {
					// what was returned before must be intact
					if last != nil {
						e.Check(bytes.Equal(scratch[:lastLen], last), "input-modified", "a payload was changed while writing")
					}
					g.r.fill(scratch)
					copy(scratch, d)
					last = append(last[:0], d...)
					lastLen = len(d)
					return scratch[:len(d)], nil
				}
			} else {
				own := g.bytes(d)
				if d == nil {
					own = nil
				}
				s2.GetPayload = func() ([]byte, error) { return own, nil }
			}
			t2.Samples = append(t2.Samples, &s2)
		}
		p2.Tracks = append(p2.Tracks, &t2)
	}
	g.seal()
	v := fmt.Sprint(presView(p2))
	var order []*pmp4.Sample
	for _, t := range p2.Tracks {
		order = append(order, t.Samples...)
	}
	sink := e.newSink()
	if e.P(1, 5) {
		sink.err = newErr("sink")
		sink.failAt = map[int]int{e.N(8): 1 + e.N(2)}
	}
	err := p2.Marshal(sink)
	g.check("presentation")
	e.Check(fmt.Sprint(presView(p2)) == v, "input-modified", "the presentation was changed by writing it: %s, %s", clip(v), clip(fmt.Sprint(presView(p2))))
	k := 0
	for _, t := range p2.Tracks {
		for _, s := range t.Samples {
			e.Check(s == order[k], "input-modified", "the samples of the presentation were moved by writing it")
			k++
		}
	}
	if sink.fired == 0 {
		e.Check((err == nil) == (refErr == nil), "written-changed", "writing: %v, with other buffers %v", refErr, err)
		if err == nil {
			e.Check(bytes.Equal(sink.buf, ref.Bytes()), "written-changed", "the file differs when the application reuses its buffers")
		}
	}
	g.reuse()
	if refErr != nil {
		return
	}

	// reading
	data := bytes.Clone(ref.Bytes())
	f := e.newFile(data)
	f.shortReads = e.P(1, 3)
	var p3 pmp4.Presentation
	if err := p3.Unmarshal(f); err != nil {
		return
	}
	v = fmt.Sprint(presView(&p3))
	type got struct {
		ti, si int
		b      []byte
	}
	var gs []got
	r := e.Sub()
	n := 0
	for range e.N(30) {
		if len(p3.Tracks) == 0 {
			break
		}
		ti := e.N(len(p3.Tracks))
		if len(p3.Tracks[ti].Samples) == 0 {
			continue
		}
		si := e.N(len(p3.Tracks[ti].Samples))
		b, err := p3.Tracks[ti].Samples[si].GetPayload()
		e.Check(err == nil && bytes.Equal(b, m.data[ti][si]), "delivery-changed", "track %d sample %d: wrong payload after %d others: %v", ti, si, n, err)
		n++
		if e.P(1, 3) { // the application overwrites what it got
			r.fill(b)
			e.Fault("deliveries-overwritten")
			continue
		}
		gs = append(gs, got{ti, si, b})
	}
	for _, x := range gs {
		e.Check(bytes.Equal(x.b, m.data[x.ti][x.si]), "delivery-changed", "track %d sample %d: the payload changed after it was retrieved", x.ti, x.si)
	}
	e.Check(bytes.Equal(data, ref.Bytes()), "input-modified", "the file was changed by reading it")
	e.Check(fmt.Sprint(presView(&p3)) == v, "delivery-changed", "the presentation changed while retrieving payloads")
	if n > 1 {
		e.NonTrivial()
	}
}

// ---- parsers, writers and extractors

func (e *Env) x02Parsers() {
	e.NonTrivial()
	if e.P(1, 3) {
		// extractors
		s := e.genDTSStream()
		x := s.extractor()
		for i, a := range s.aus {
			if i > 20 {
				break
			}
			g := e.newGuard()
			au := g.unit(a.au)
			g.seal()
			x(au, a.pts) //nolint:errcheck
			g.check("extractor, unit %d", i)
		}
		e.sample = "extractor"
		return
	}
	n := 1 + e.N(3)
	for i := range n {
		blob := e.drawBlob()
		g := e.newGuard()
		b := g.bytes(blob)
		g.seal()
		s := parseAll(b)
		e.Ev("parse", i, len(blob), hashBytes([]byte(s)))
		g.check("parsers, blob %d", i)
		e.Check(parseAll(b) == s, "parse-again", "parsing the same bytes again gives another result")
		e.sample = fmt.Sprintf("parsers, %x", blob[:min(len(blob), 16)])
	}
	// writers of lists
	c := genTS(e, tsOpts{maxTracks: 1, maxUnits: 1, small: true, noHuge: true, kinds: []int{kH264, kH265}})
	g := e.newGuard()
	au := g.unit(c.units[0].data)
	g.seal()
	b1, err1 := h264.AnnexB(au).Marshal()
	b2, err2 := h264.AVCC(au).Marshal()
	g.check("marshal")
	h1, h2 := hashBytes(b1), hashBytes(b2)
	g.reuse()
	e.Check(hashBytes(b1) == h1 && hashBytes(b2) == h2, "written-changed", "a marshaled unit refers to the buffers of the application: %v %v", err1, err2)
}

// ---- LATM sessions: one encoder and one decoder live through the session

func (e *Env) x02LATM() {
	e.NonTrivial()
	inBand := e.P(1, 2)
	tx := &mpeg4audio.AudioMuxElement{MuxConfigPresent: inBand}
	rx := &mpeg4audio.AudioMuxElement{MuxConfigPresent: inBand}
	var conf *mpeg4audio.StreamMuxConfig
	type kept struct {
		raw  []byte
		rawH uint64
		pl   [][][][]byte
		want string
		conf *mpeg4audio.StreamMuxConfig
		cs   string
	}
	var ks []kept
	same := e.P(1, 2)
	for i := range 2 + e.N(6) {
		if conf == nil || (inBand && e.P(1, 4)) {
			conf = e.drawLATMConfig()
			tx.UseSameStreamMux = false
			if !inBand {
				rx.StreamMuxConfig = conf
			}
		} else {
			tx.UseSameStreamMux = inBand && same
		}
		cs := latmConfStr(conf)
		g := e.newGuard()
		var pl [][][][]byte
		for a := uint(0); a <= conf.NumSubFrames; a++ {
			var x [][][]byte
			for _, p := range conf.Programs {
				var y [][]byte
				for range p.Layers {
					y = append(y, e.blob(0, 20))
				}
				x = append(x, g.unit(y))
			}
			pl = append(pl, x)
		}
		g.seal()
		want := latmPayStr(pl)
		tx.StreamMuxConfig, tx.Payloads = conf, pl
		raw, err := tx.Marshal()
		mustNil(e, err, "marshal-error")
		g.check("LATM element %d", i)
		e.Check(latmConfStr(conf) == cs, "input-modified", "the configuration of the application was changed by writing element %d", i)
		g.reuse()
		g2 := e.newGuard()
		raw2 := g2.bytes(raw)
		g2.seal()
		if e.P(1, 6) { // an element that is refused
			rx.Unmarshal(raw2[:e.N(len(raw2))]) //nolint:errcheck
			e.Fault("element-truncated")
		}
		mustNil(e, rx.Unmarshal(raw2), "element-refused")
		g2.check("LATM element %d", i)
		if e.P(1, 2) {
			g2.reuse()
		}
		e.Check(latmPayStr(rx.Payloads) == want, "delivery-changed", "element %d: payloads differ: %s instead of %s", i, clip(latmPayStr(rx.Payloads)), clip(want))
		ks = append(ks, kept{raw, hashBytes(raw), rx.Payloads, want, rx.StreamMuxConfig, latmConfStr(rx.StreamMuxConfig)})
		e.Ev("el", i, len(raw))
	}
	for i, k := range ks {
		e.Check(hashBytes(k.raw) == k.rawH, "written-changed", "the bytes of element %d changed afterwards", i)
		e.Check(latmPayStr(k.pl) == k.want, "delivery-changed", "payloads of element %d changed after they were delivered", i)
		e.Check(latmConfStr(k.conf) == k.cs, "delivery-changed", "configuration delivered with element %d changed", i)
	}
	e.sample = "LATM session"
}

// ---- buffers

func (e *Env) x02Buffers() {
	e.NonTrivial()
	data := make([]byte, 1+e.N(3000))
	e.Sub().fill(data)
	r := e.Sub()
	if e.P(1, 2) {
		e.sample = "seekable buffer"
		var sb seekablebuffer.Buffer
		model := []byte{}
		pos := 0
		buf := make([]byte, 400)
		for range 1 + e.N(12) {
			n := e.N(len(buf))
			r.fill(buf)
			in := bytes.Clone(buf)
			var m int
			var err error
			switch e.N(3) {
			case 0:
				m, err = sb.Write(buf[:n])
			case 1:
				m, err = sb.WriteString(string(buf[:n]))
			default:
				var k int64
				k, err = sb.ReadFrom(io.LimitReader(bytes.NewReader(buf), int64(n)))
				m = int(k)
			}
			e.Check(m == n && err == nil, "written", "%d bytes of %d written: %v", m, n, err)
			e.Check(bytes.Equal(buf, in), "input-modified", "the written buffer was changed")
			if pos+n > len(model) {
				model = append(model, make([]byte, pos+n-len(model))...)
			}
			copy(model[pos:], buf[:n])
			pos += n
			r.fill(buf) // reused
			if e.P(1, 2) {
				pos = e.N(len(model) + 1)
				sb.Seek(int64(pos), io.SeekStart) //nolint:errcheck
			}
		}
		e.Fault("buffers-reused")
		e.Check(bytes.Equal(sb.Bytes(), model), "written-changed", "the content depends on buffers that the application reused")
		return
	}
	e.sample = "rewindable reader"
	k := e.N(len(data) + 1)
	src := e.newSimReader(data)
	rr := &rewindablereader.Reader{R: src}
	buf := make([]byte, 200)
	var got []byte
	for len(got) < k {
		r.fill(buf)
		o := bytes.Clone(buf)
		want := 1 + e.N(len(buf)-1)
		n, err := rr.Read(buf[:want])
		got = append(got, buf[:n]...)
		e.Check(bytes.Equal(buf[want:], o[want:]), "overrun", "a read of %d bytes wrote after them", want)
		r.fill(buf)
		if err != nil {
			break
		}
	}
	e.Fault("buffers-reused")
	e.Check(bytes.Equal(got, data[:len(got)]), "delivery-changed", "wrong bytes")
	rr.Rewind()
	all, err := io.ReadAll(rr)
	e.Check(err == nil && bytes.Equal(all, data), "written-changed", "after rewinding, bytes differ because the application reused its buffer: %v", err)
}
