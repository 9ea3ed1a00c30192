package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

func init() {
	register(&Prop{
		ID: "Z01", Quick: 90000, Run: runZ01,
		Rule: "A run is non-trivial when at least two units went through the whole chain.",
		Real: []string{"mpegts.Writer, Reader, TimeDecoder", "fmp4.Init, Part, Parts, Sample", "pmp4.Presentation", "seekablebuffer", "go-astits, go-mp4"},
		Stub: []string{"recorder and converter applications (segmentation, recovery after a crash)", "network source, disk (append-only file that may be torn by a crash)"},
		Assume: []string{"appending a part to the file is torn at a byte: what precedes is durable", "the recorder reads its source again after a restart",
			"frames of an audio unit get equal durations", "unit times do not jump by more than the 32 bits of a sample duration"},
	})
}

// zsample is a sample as it must come out at the end.
type zsample struct {
	dts, pts int64 // relative to the first unit
	hash     uint64
	sync     bool
}

type zrec struct {
	e     *Env
	c     *tsCase
	wire  []byte
	file  *SimFile
	init  *fmp4.Init
	kinds []int
	// durable: samples in complete parts, by track
	durable []int
	first   int64 // time of the first unit that was received
	seq     uint32
}

func (z *zrec) codec(t *mpegts.Track) mp4codecs.Codec {
	e := z.e
	switch k := kindOf(t); k {
	case kH264:
		return e.drawCodec(mH264)
	case kH265:
		return e.drawCodec(mH265)
	case kMPEG4V:
		return e.drawCodec(mMPEG4V)
	case kMPEG1V:
		return e.drawCodec(mMPEG1V)
	case kOpus:
		return e.drawCodec(mOpus)
	case kAAC:
		return e.drawCodec(mAAC)
	case kMP1A:
		return e.drawCodec(mMP3)
	case kAC3:
		return e.drawCodec(mAC3)
	default:
		return e.drawCodec(mEAC3)
	}
}

// session reads the source from the start and appends to the file what is not in it yet. It gives false after a crash.
func (z *zrec) session(crash bool) bool {
	e := z.e
	rd := e.newSimReader(z.wire)
	rv, err := e.newRecv(rd)
	mustNil(e, err, "open")
	trs := rv.r.Tracks()
	z.c.checkTracks(trs)
	if z.init == nil {
		z.init = &fmp4.Init{}
		for i, t := range trs {
			z.init.Tracks = append(z.init.Tracks, &fmp4.InitTrack{ID: i + 1, TimeScale: 90000, Codec: z.codec(t)})
			z.kinds = append(z.kinds, kindOf(t))
		}
		z.durable = make([]int, len(trs))
	}

	// crash at one of the operations on the disk
	crashAt := -1
	if crash {
		crashAt = e.N(6)
	}
	ops := 0
	app := func(b []byte) bool {
		k := ops
		ops++
		if k == crashAt {
			n := e.N(len(b) + 1)
			z.file.data = append(z.file.data, b[:n]...)
			e.Fault("crash")
			e.Ev("crash", k, n, len(b))
			return false
		}
		z.file.data = append(z.file.data, b...)
		return true
	}
	if len(z.file.data) == 0 {
		b, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return z.init.Marshal(b) })
		mustNil(e, err, "header")
		if !app(b) {
			return false
		}
	}

	// units become samples when the next one on their track is known
	tds := &mpegts.TimeDecoder{}
	tds.Initialize()
	type pend struct {
		dts int64
		ss  []*fmp4.Sample
	}
	pending := make([]*pend, len(trs))
	cur := make([]*fmp4.PartTrack, len(trs))
	skip := append([]int(nil), z.durable...) // samples that are in the file already
	inPart := 0
	mean := 1 + e.N(12)
	seg := e.Sub()
	closeTrack := func(ti int, next int64) {
		p := pending[ti]
		pending[ti] = nil
		if p == nil {
			return
		}
		d := next - p.dts
		start := p.dts
		for i, s := range p.ss {
			s.Duration = uint32(d / int64(len(p.ss)))
			if i == len(p.ss)-1 {
				s.Duration = uint32(d - d/int64(len(p.ss))*int64(len(p.ss)-1))
			}
			if skip[ti] > 0 {
				skip[ti]--
			} else {
				if cur[ti] == nil {
					cur[ti] = &fmp4.PartTrack{ID: ti + 1, BaseTime: uint64(start)}
				}
				cur[ti].Samples = append(cur[ti].Samples, s)
				inPart++
			}
			start += int64(s.Duration)
		}
	}
	flush := func() bool {
		if inPart == 0 {
			return true
		}
		p := &fmp4.Part{SequenceNumber: z.seq}
		z.seq++
		for ti, t := range cur {
			if t != nil {
				p.Tracks = append(p.Tracks, t)
				cur[ti] = nil
				_ = ti
			}
		}
		inPart = 0
		b, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return p.Marshal(b) })
		mustNil(e, err, "part")
		e.Ev("part", p.SequenceNumber, len(b))
		return app(b)
	}
	seen := make([]int, len(trs))
	handle := func() bool {
		for ti := range trs {
			for _, it := range rv.got[ti][seen[ti]:] {
				seen[ti]++
				if z.first < 0 {
					z.first = it.dts
				}
				dts := tds.Decode(it.dts) + z.lead()
				off := (it.pts - it.dts) & ts33
				closeTrack(ti, dts)
				p := &pend{dts: dts}
				switch z.kinds[ti] {
				case kH264, kH265:
					s := &fmp4.Sample{}
					var err error
					if e.P(1, 8) { // the deprecated way
						if z.kinds[ti] == kH264 {
							s, err = fmp4.NewSampleH264(int32(off), it.data)
						} else {
							s, err = fmp4.NewSampleH265(int32(off), it.data)
						}
					} else if z.kinds[ti] == kH264 {
						err = s.FillH264(int32(off), it.data)
					} else {
						err = s.FillH265(int32(off), it.data)
					}
					mustNil(e, err, "fill")
					p.ss = append(p.ss, s)
				default:
					for _, b := range it.data {
						p.ss = append(p.ss, &fmp4.Sample{Payload: b})
					}
				}
				pending[ti] = p
			}
		}
		if seg.n(mean) == 0 {
			return flush()
		}
		return true
	}
	for {
		before := len(rv.order)
		err := rv.r.Read()
		if len(rv.order) > before {
			if !handle() {
				return false
			}
		}
		if err != nil {
			if !errors.Is(err, io.EOF) {
				e.Fail("read", "reading the stream: %v", err)
			}
			break
		}
	}
	e.Check(len(rv.decErr) == 0, "decode-error", "clean stream: %v", rv.decErr)
	for ti, p := range pending {
		if p != nil {
			closeTrack(ti, p.dts+z.c.tracks[ti].step)
		}
	}
	return flush()
}

// lead is added to all the times, so that none is negative.
func (z *zrec) lead() int64 { return 90000 * 60 }

// recover finds the complete parts of the file and drops the rest.
func (z *zrec) recover() {
	e := z.e
	d := z.file.data
	size := func(p int) int {
		if p+8 > len(d) {
			return -1
		}
		n := int(binary.BigEndian.Uint32(d[p:]))
		if n < 8 || p+n > len(d) {
			return -1
		}
		return n
	}
	hdr, end := 0, 0
	p := 0
	for {
		n := size(p)
		if n < 0 {
			break
		}
		switch string(d[p+4 : p+8]) {
		case "moov":
			hdr, end = p+n, p+n
		case "mdat":
			end = p + n
		}
		p += n
	}
	z.file.data = d[:end:end]
	z.durable = make([]int, len(z.durable))
	z.seq = 0
	if hdr == 0 {
		return
	}
	var in fmp4.Init
	mustNil(e, in.Unmarshal(e.newFile(z.file.data)), "recover-header")
	if end > hdr {
		var ps fmp4.Parts
		mustNil(e, ps.Unmarshal(z.file.data[hdr:]), "recover-parts")
		for _, p := range ps {
			z.seq = p.SequenceNumber + 1
			for _, t := range p.Tracks {
				z.durable[t.ID-1] += len(t.Samples)
			}
		}
	}
	e.Ev("recovered", end, z.durable)
}

// want computes the samples that must come out.
func (z *zrec) want() [][]zsample {
	c := z.c
	out := make([][]zsample, len(c.tracks))
	first := int64(0)
	for _, u := range c.units {
		if u.dts&ts33 == z.first {
			first = u.dts
		}
	}
	last := make([]*tsUnit, len(c.tracks))
	emit := func(ti int, next int64) {
		u := last[ti]
		if u == nil {
			return
		}
		t := u.dts - first
		switch c.tracks[ti].kind {
		case kH264, kH265:
			ra := false
			for _, n := range u.data {
				if c.tracks[ti].kind == kH264 {
					ra = ra || n[0]&0x1f == 5
				} else {
					y := n[0] >> 1 & 0x3f
					ra = ra || y >= 19 && y <= 21
				}
			}
			out[ti] = append(out[ti], zsample{t, u.pts - first, hashUnits(u.data), ra})
		default:
			d := (next - u.dts) / int64(len(u.data))
			for i, b := range u.data {
				x := t + int64(i)*d
				out[ti] = append(out[ti], zsample{x, x, hashUnits([][]byte{b}), true})
			}
		}
	}
	for _, u := range c.units {
		emit(u.track, u.dts)
		last[u.track] = u
	}
	for ti, u := range last {
		if u != nil {
			emit(ti, u.dts+c.tracks[ti].step)
		}
	}
	return out
}

func zhash(kind int, payload []byte) (uint64, error) {
	if kind == kH264 || kind == kH265 {
		get := fmp4.Sample{Payload: payload}.GetH264
		if kind == kH265 {
			get = fmp4.Sample{Payload: payload}.GetH265
		}
		au, err := get()
		return hashUnits(au), err
	}
	return hashUnits([][]byte{payload}), nil
}

func runZ01(e *Env) {
	kinds := []int{kH264, kH265, kMPEG4V, kMPEG1V, kOpus, kAAC, kMP1A, kAC3, kEAC3}
	c := genTS(e, tsOpts{maxTracks: 4, maxUnits: 24, noHuge: true, small: e.P(1, 2), kinds: kinds})
	// every detected track carries units
	has := map[int]bool{}
	for _, u := range c.units {
		has[u.track] = true
	}
	lo, hi := c.units[0].dts, c.units[0].dts
	for _, u := range c.units {
		lo, hi = min(lo, u.dts), max(hi, u.dts)
	}
	if hi-lo >= 1<<31 {
		e.Discard()
	}
	z := &zrec{e: e, c: c, file: e.newFile(nil), first: -1}
	z.wire = c.mux()
	e.sample = c.describe()

	// recording, with crashes
	for n := e.W(3, 2, 1, 1); ; n-- {
		if z.session(n > 0) {
			break
		}
		z.recover()
	}

	// the recording
	var in fmp4.Init
	f := e.newFile(z.file.data)
	f.shortReads = e.P(1, 3)
	mustNil(e, in.Unmarshal(f), "header-read")
	e.Check(initView(&in) == initView(z.init), "header", "header: %s, %s", clip(initView(z.init)), clip(initView(&in)))
	var ps fmp4.Parts
	hdr := bytes.Index(z.file.data, []byte("moof")) - 4
	if hdr > 0 {
		mustNil(e, ps.Unmarshal(z.file.data[hdr:]), "parts-read")
	}
	want := z.want()
	got := make([][]zsample, len(c.tracks))
	next := make([]uint64, len(c.tracks))
	movie := &pmp4.Presentation{}
	for i, t := range in.Tracks {
		movie.Tracks = append(movie.Tracks, &pmp4.Track{ID: t.ID, TimeScale: t.TimeScale, Codec: t.Codec})
		_ = i
	}
	seq := int64(-1)
	for _, p := range ps {
		e.Check(int64(p.SequenceNumber) > seq, "sequence", "part %d after part %d", p.SequenceNumber, seq)
		seq = int64(p.SequenceNumber)
		for _, t := range p.Tracks {
			ti := t.ID - 1
			if len(got[ti]) > 0 {
				e.Check(t.BaseTime == next[ti], "gap", "track %d: part at %d, the one before ends at %d", ti, t.BaseTime, next[ti])
			} else {
				movie.Tracks[ti].TimeOffset = int32(int64(t.BaseTime) - z.lead())
			}
			tm := int64(t.BaseTime) - z.lead()
			for _, s := range t.Samples {
				h, err := zhash(z.kinds[ti], s.Payload)
				mustNil(e, err, "payload")
				got[ti] = append(got[ti], zsample{tm, tm + int64(s.PTSOffset), h, !s.IsNonSyncSample})
				tm += int64(s.Duration)
				pl := s.Payload
				movie.Tracks[ti].Samples = append(movie.Tracks[ti].Samples, &pmp4.Sample{Duration: s.Duration, PTSOffset: s.PTSOffset,
					IsNonSyncSample: s.IsNonSyncSample, PayloadSize: uint32(len(pl)), GetPayload: func() ([]byte, error) { return pl, nil }})
			}
			next[ti] = uint64(tm + z.lead())
		}
	}
	z.compare("recording", got, want)

	// conversion to a plain file; a crash makes it start again
	if e.P(1, 4) {
		s := e.newSink()
		s.err = newErr("crash")
		s.failAt = map[int]int{e.N(6): 1 + e.N(2)}
		if movie.Marshal(s) != nil {
			e.Fault("conversion-crash")
		}
	}
	sink := e.newSink()
	mustNil(e, movie.Marshal(sink), "conversion")
	f = e.newFile(sink.buf)
	f.shortReads = e.P(1, 3)
	var m2 pmp4.Presentation
	mustNil(e, m2.Unmarshal(f), "movie-read")
	e.Check(len(m2.Tracks) == len(c.tracks), "movie", "%d tracks, %d in the file", len(c.tracks), len(m2.Tracks))
	got = make([][]zsample, len(c.tracks))
	for ti, t := range m2.Tracks {
		e.Check(codecStr(t.Codec) == codecStr(z.init.Tracks[ti].Codec) && t.ID == ti+1 && t.TimeScale == 90000, "movie", "track %d differs: %s", ti, codecStr(t.Codec))
		tm := int64(t.TimeOffset)
		for _, s := range t.Samples {
			b, err := s.GetPayload()
			mustNil(e, err, "movie-payload")
			h, err := zhash(z.kinds[ti], b)
			mustNil(e, err, "movie-payload")
			got[ti] = append(got[ti], zsample{tm, tm + int64(s.PTSOffset), h, !s.IsNonSyncSample})
			tm += int64(s.Duration)
		}
	}
	z.compare("movie", got, want)
	n := 0
	for _, g := range got {
		n += len(g)
	}
	if n > 1 {
		e.NonTrivial()
	}
	if e.P(1, 3) {
		z.back(&m2)
	}
}

func (z *zrec) compare(what string, got, want [][]zsample) {
	e := z.e
	for ti := range want {
		g, w := got[ti], want[ti]
		for k := 0; k < min(len(g), len(w)); k++ {
			e.Check(g[k] == w[k], what, "track %d (%s), sample %d of %d: dts %d pts %d sync %v hash %x, sent dts %d pts %d sync %v hash %x", ti, kindNames[z.c.tracks[ti].kind],
				k, len(w), g[k].dts, g[k].pts, g[k].sync, g[k].hash, w[k].dts, w[k].pts, w[k].sync, w[k].hash)
		}
		e.Check(len(g) == len(w), what, "track %d (%s): %d samples, %d were sent", ti, kindNames[z.c.tracks[ti].kind], len(g), len(w))
	}
	e.Ev(what, fmt.Sprint(len(got)))
}

// back sends the movie as a MPEG-TS stream again.
func (z *zrec) back(m *pmp4.Presentation) {
	e := z.e
	c2 := z.c.cloneTracks()
	var buf bytes.Buffer
	w := c2.writer(&buf)
	idx := make([]int, len(c2.tracks))
	tm := make([]int64, len(c2.tracks))
	for ti, t := range m.Tracks {
		tm[ti] = int64(t.TimeOffset)
	}
	// units in the original order, from the samples of the movie
	base := z.c.units[0].dts
	for _, u := range z.c.units {
		if u.dts&ts33 == z.first {
			base = u.dts
		}
	}
	for _, u := range z.c.units {
		ti := u.track
		t := m.Tracks[ti]
		u2 := &tsUnit{track: ti, dts: base + tm[ti]}
		switch z.kinds[ti] {
		case kH264, kH265:
			s := t.Samples[idx[ti]]
			idx[ti]++
			b, err := s.GetPayload()
			mustNil(e, err, "movie-payload")
			u2.data, _ = fmp4.Sample{Payload: b}.GetH264()
			u2.pts = u2.dts + int64(s.PTSOffset)
			tm[ti] += int64(s.Duration)
		default:
			u2.pts = u2.dts
			for range u.data {
				s := t.Samples[idx[ti]]
				idx[ti]++
				b, err := s.GetPayload()
				mustNil(e, err, "movie-payload")
				u2.data = append(u2.data, b)
				tm[ti] += int64(s.Duration)
			}
		}
		mustNil(e, c2.writeUnit(w, u2), "back-write")
	}
	e.Check(bytes.Equal(buf.Bytes(), z.plainWire()), "back", "the stream made from the movie differs from the original one")
	e.Probe("sent again as MPEG-TS")
}

// plainWire is the stream, without tables in advance.
func (z *zrec) plainWire() []byte {
	c3 := z.c.cloneTracks()
	var buf bytes.Buffer
	w := c3.writer(&buf)
	for _, u := range z.c.units {
		mustNil(z.e, c3.writeUnit(w, u), "write")
	}
	return buf.Bytes()
}
