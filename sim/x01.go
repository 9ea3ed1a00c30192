package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"github.com/bluenviron/mediacommon/v2/verifhook"
	"io"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"
)

func init() {
	register(&Prop{
		ID: "X01", Quick: 90000, Run: runX01, Chunk: 60,
		Rule:   "A run is non-trivial when at least one context switch happened inside of the library.",
		Real:   []string{"mpegts.Writer, Reader, TimeDecoder", "fmp4.Init, Parts, Sample", "pmp4.Presentation", "rewindablereader", "seekablebuffer", "DTS extractors", "codec parsers and writers", "go-astits, go-mp4"},
		Stub:   []string{"thread scheduler (simulated threads, preempted at drawn statements)", "sources and sinks in memory"},
		Assume: []string{"threads do not share instances", "preemption happens between statements of the library and at loops and calls of its dependencies: effects of the memory model below that are outside of the technique"},
	})
}

// xjob is the work of one thread. run can be called several times and gives the history of the work.
type xjob struct {
	name string
	run  func() string
}

// cloneTracks makes a case that writes the same units with tracks of its own.
func (c *tsCase) cloneTracks() *tsCase {
	c2 := *c
	c2.tracks = nil
	for _, t := range c.tracks {
		x := *t
		y := *t.tr
		x.tr = &y
		c2.tracks = append(c2.tracks, &x)
	}
	return &c2
}

// salted gives other data of the same sizes, which differs where it does not matter for its structure.
func salted(l [][]byte, salt byte) [][]byte {
	if salt == 0 {
		return l
	}
	out := make([][]byte, len(l))
	for i, b := range l {
		out[i] = bytes.Clone(b)
		if k := len(b) - 1; k >= 16 {
			out[i][k] = b[k]&0xe0 | 0x10 | (b[k]+salt)&0x0f
		}
	}
	return out
}

func xored(b []byte, salt byte) []byte {
	b = bytes.Clone(b)
	for i := range b {
		b[i] ^= salt
	}
	return b
}

func (e *Env) jobTSWrite() func(byte) *xjob {
	c := genTS(e, tsOpts{maxTracks: 3, maxUnits: 8, noHuge: true, small: true})
	return func(salt byte) *xjob {
		return &xjob{"ts-write " + c.describe(), func() string {
			var buf bytes.Buffer
			x := c.cloneTracks()
			w := x.writer(&buf)
			res := ""
			for _, u := range x.units {
				y := *u
				y.data = salted(u.data, salt)
				err := x.writeUnit(w, &y)
				res += fmt.Sprint(buf.Len(), err, ";")
			}
			for _, t := range x.tracks {
				res += fmt.Sprint(t.tr.PID, " ")
			}
			return fmt.Sprintf("%s %x", res, hashBytes(buf.Bytes()))
		}}
	}
}

func (e *Env) jobTSRead() func(byte) *xjob {
	c := genTS(e, tsOpts{maxTracks: 3, maxUnits: 8, noHuge: true, small: true})
	wire := c.mux()
	if e.P(1, 3) {
		wire = e.damage(wire)
	}
	proto := *e.newSimReader(wire)
	seed := e.U(1 << 32)
	return func(salt byte) *xjob {
		if salt != 0 {
			x := c.cloneTracks()
			x.units = nil
			for _, u := range c.units {
				y := *u
				y.data = salted(u.data, salt)
				x.units = append(x.units, &y)
			}
			p2 := *e.newSimReader(x.mux())
			p2.r = nil
			return &xjob{"ts-read " + c.describe(), func() string {
				sr := p2
				sr.r = &rng{s: seed}
				h := e.readAll(&sr)
				return fmt.Sprint(h.initErr, h.tracks, h.items, h.decErr, h.err)
			}}
		}
		return &xjob{"ts-read " + c.describe(), func() string {
			sr := proto
			sr.r = &rng{s: seed}
			h := e.readAll(&sr)
			return fmt.Sprint(h.initErr, h.tracks, h.items, h.decErr, h.err)
		}}
	}
}

func (e *Env) jobFMP4() func(byte) *xjob {
	in := e.genInit(initOpts{maxTracks: 3, userData: true})
	parts := e.genParts(in, partOpts{maxParts: 2, minParts: 1, maxSamples: 4})
	return func(salt byte) *xjob {
		parts := parts
		if salt != 0 {
			var ps fmp4.Parts
			for _, p := range parts {
				p2 := *p
				p2.Tracks = nil
				for _, t := range p.Tracks {
					t2 := *t
					t2.Samples = nil
					for _, sa := range t.Samples {
						s2 := *sa
						s2.Payload = xored(sa.Payload, salt)
						t2.Samples = append(t2.Samples, &s2)
					}
					p2.Tracks = append(p2.Tracks, &t2)
				}
				ps = append(ps, &p2)
			}
			parts = ps
		}
		return &xjob{"fmp4", func() string {
			// the objects of a thread are its own
			var in1 fmp4.Init
			for _, t := range in.Tracks {
				x := *t
				in1.Tracks = append(in1.Tracks, &x)
			}
			in1.UserData = in.UserData
			h, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return in1.Marshal(b) })
			s := fmt.Sprintf("%v %x;", err, hashBytes(h))
			p, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return parts.Marshal(b) })
			s += fmt.Sprintf("%v %x;", err, hashBytes(p))
			var in2 fmp4.Init
			err = in2.Unmarshal(bytes.NewReader(h))
			s += fmt.Sprint(err, initView(&in2))
			var ps fmp4.Parts
			err = ps.Unmarshal(p)
			s += fmt.Sprint(err, partsView(ps))
			return s
		}}
	}
}

func (e *Env) jobPMP4() func(byte) *xjob {
	m := e.genMovie(movieOpts{maxTracks: 3, maxSamples: 6})
	return func(salt byte) *xjob {
		pres := m.p
		if salt != 0 {
			q := *pres
			q.Tracks = nil
			for _, t := range pres.Tracks {
				t2 := *t
				t2.Samples = nil
				for _, sa := range t.Samples {
					s2 := *sa
					get := sa.GetPayload
					s2.GetPayload = func() ([]byte, error) {
						b, err := get()
						return xored(b, salt), err
					}
					t2.Samples = append(t2.Samples, &s2)
				}
				q.Tracks = append(q.Tracks, &t2)
			}
			pres = &q
		}
		return &xjob{"pmp4", func() string {
			var buf bytes.Buffer
			err := pres.Marshal(&buf)
			s := fmt.Sprintf("%v %x;", err, hashBytes(buf.Bytes()))
			var p pmp4.Presentation
			err = p.Unmarshal(bytes.NewReader(buf.Bytes()))
			s += fmt.Sprint(err, presView(&p))
			for _, t := range p.Tracks {
				for _, sa := range t.Samples {
					b, err := sa.GetPayload()
					s += fmt.Sprintf("%v %x;", err, hashBytes(b))
				}
			}
			return s
		}}
	}
}

func js(v any, err error) string {
	b, err2 := json.Marshal(v)
	return fmt.Sprint(string(b), err, err2)
}

// parseAll gives a byte string to every parser of the library, and writes the result again.
func parseAll(b []byte) string {
	var sb strings.Builder
	p := func(name string, v any, err error) {
		fmt.Fprintf(&sb, "%s=%s;", name, js(v, err))
	}
	hx := func(name string, b []byte, err error) {
		fmt.Fprintf(&sb, "%s=%x,%v;", name, hashBytes(b), err)
	}
	{
		var x h264.SPS
		err := x.Unmarshal(b)
		p("h264.SPS", x, err)
		if err == nil {
			fmt.Fprint(&sb, x.Width(), x.Height(), x.FPS())
		}
	}
	{
		var x h265.SPS
		err := x.Unmarshal(b)
		p("h265.SPS", x, err)
		if err == nil {
			fmt.Fprint(&sb, x.Width(), x.Height(), x.FPS())
		}
	}
	{
		var x h265.PPS
		p("h265.PPS", &x, x.Unmarshal(b))
	}
	{
		var x h264.AnnexB
		err := x.Unmarshal(b)
		p("annexb", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("annexb", c, err)
		}
	}
	{
		var x h264.AVCC
		err := x.Unmarshal(b)
		p("avcc", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("avcc", c, err)
		}
	}
	{
		var x av1.Bitstream
		err := x.Unmarshal(b)
		p("av1", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("av1", c, err)
		}
	}
	{
		var x av1.SequenceHeader
		p("av1seq", x.Unmarshal(b), nil)
		p("av1seq", x, nil)
	}
	{
		var x mpeg4audio.AudioSpecificConfig
		err := x.Unmarshal(b)
		p("asc", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("asc", c, err)
		}
	}
	{
		var x mpeg4audio.StreamMuxConfig
		err := x.Unmarshal(b)
		p("smc", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("smc", c, err)
		}
	}
	{
		var x mpeg4audio.ADTSPackets
		err := x.Unmarshal(b)
		p("adts", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("adts", c, err)
		}
	}
	{
		n, err := mpeg4audio.CountChannelsFromRawDataBlock(b)
		p("channels", n, err)
	}
	{
		x, err := mpeg4audio.ParsePCEFromRawDataBlock(b)
		p("pce", x, err)
	}
	{
		var x opus.IDHeader
		err := x.Unmarshal(b)
		p("opus", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("opus", c, err)
		}
	}
	{
		fmt.Fprint(&sb, opus.PacketDuration2(b), ";")
	}
	{
		var x ac3.SyncInfo
		p("ac3", &x, x.Unmarshal(b))
		if len(b) > 5 {
			var y ac3.BSI
			p("ac3", &y, y.Unmarshal(b[5:]))
		}
	}
	{
		var x eac3.SyncInfo
		p("eac3", &x, x.Unmarshal(b))
	}
	{
		var x mpeg1audio.FrameHeader
		p("mp1", &x, x.Unmarshal(b))
	}
	{
		var x vp9.Header
		p("vp9", &x, x.Unmarshal(b))
	}
	{
		var x flac.StreamInfo
		err := x.Unmarshal(b)
		p("flac", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("flac", c, err)
		}
	}
	{
		var x jpeg.DefineQuantizationTable
		err := x.Unmarshal(b)
		p("dqt", x, err)
		if err == nil {
			hx("dqt", x.Marshal(nil), nil)
		}
		var y jpeg.StartOfFrame1
		err = y.Unmarshal(b)
		p("sof", y, err)
		if err == nil {
			hx("sof", y.Marshal(nil), nil)
		}
	}
	p("m4v", mpeg4video.IsValidConfig(b), nil)
	{
		var x g711.Alaw
		x.Unmarshal(b)
		c, err := x.Marshal()
		hx("alaw", c, err)
		var y g711.Mulaw
		y.Unmarshal(b)
		c, err = y.Marshal()
		hx("mulaw", c, err)
	}
	{
		var x substructs.OpusAccessUnit
		n, err := x.Unmarshal(b)
		p("opusau", x, err)
		fmt.Fprint(&sb, n)
	}
	{
		var x substructs.OpusAudioDescriptor
		err := x.Unmarshal(b)
		p("opusd", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("opusd", c, err)
		}
	}
	{
		var x substructs.MetadataDescriptor
		err := x.Unmarshal(b)
		p("md", x, err)
		if err == nil {
			c, err := x.Marshal()
			hx("md", c, err)
		}
	}
	return sb.String()
}

// drawBlob draws a byte string that some of the parsers accept.
func (e *Env) drawBlob() []byte {
	switch e.N(9) {
	case 0:
		return e.genH264P().nalu()
	case 1:
		return e.genH265P().spsNALU()
	case 2:
		return e.genH265P().ppsNALU()
	case 3:
		return e.genAV1Seq()
	case 4: // a unit as it travels on the wire
		c := genTS(e, tsOpts{maxTracks: 1, maxUnits: 1, small: true, noHuge: true})
		d := c.units[0].data
		k := c.tracks[c.units[0].track].kind
		if k == kH264 || k == kH265 {
			if e.P(1, 2) {
				b, _ := h264.AnnexB(d).Marshal()
				return b
			}
			b, _ := h264.AVCC(d).Marshal()
			return b
		}
		return d[0]
	case 5:
		c := genTS(e, tsOpts{maxTracks: 1, maxUnits: 1, small: true, noHuge: true, kinds: []int{kAAC}})
		cfg := c.tracks[0].want
		b := []byte{0x12, 0x10}
		if x, ok := codecView(cfg).(mpeg4audio.AudioSpecificConfig); ok {
			b, _ = x.Marshal()
		}
		return b
	case 6:
		b, _ := opus.IDHeader{Version: 1, ChannelCount: uint8(1 + e.N(2)), PreSkip: uint16(e.N(65536)), InputSampleRate: 48000}.Marshal()
		return b
	case 7:
		b, _ := flac.StreamInfo{MinBlockSize: 4096, MaxBlockSize: 4096, SampleRate: uint32(8000 + e.N(90000)), ChannelCount: uint8(1 + e.N(8)), BitDepth: 16, TotalSamples: e.U(1 << 36)}.Marshal()
		return b
	default:
		b := make([]byte, e.N(80))
		e.Sub().fill(b)
		return b
	}
}

func (e *Env) jobCodecs() func(byte) *xjob {
	var blobs [][]byte
	n := 1 + e.N(3)
	for range n {
		blobs = append(blobs, e.drawBlob())
	}
	return func(salt byte) *xjob {
		return &xjob{"codecs", func() string {
			s := ""
			for _, b := range blobs {
				s += parseAll(b) + "\n"
			}
			return s
		}}
	}
}

func (e *Env) jobSamples() func(byte) *xjob {
	c := genTS(e, tsOpts{maxTracks: 1, maxUnits: 6, noHuge: true, small: true, kinds: []int{kH264, kH265}})
	seq := e.genAV1Seq()
	return func(salt byte) *xjob {
		return &xjob{"samples", func() string {
			s := ""
			for _, u := range c.units {
				var sa fmp4.Sample
				var err error
				if c.tracks[0].kind == kH264 {
					err = sa.FillH264(5, u.data)
				} else {
					err = sa.FillH265(5, u.data)
				}
				s += fmt.Sprintf("%v %v %x", err, sa.IsNonSyncSample, hashBytes(sa.Payload))
				d, err := sa.GetH264()
				s += fmt.Sprintf("%v %x;", err, hashUnits(d))
			}
			var sa fmp4.Sample
			err := sa.FillAV1([][]byte{seq, {0x32, 1, 2, 3}})
			s += fmt.Sprintf("%v %v %x", err, sa.IsNonSyncSample, hashBytes(sa.Payload))
			d, err := sa.GetAV1()
			return s + fmt.Sprintf("%v %x;", err, hashUnits(d))
		}}
	}
}

func (e *Env) jobDTS() func(byte) *xjob {
	s := e.genDTSStream()
	return func(salt byte) *xjob {
		return &xjob{"dts " + s.String(), func() string {
			x := s.extractor()
			r := ""
			for _, a := range s.aus {
				dts, err := x(a.au, a.pts)
				r += fmt.Sprint(dts, err, ";")
			}
			return r
		}}
	}
}

func (e *Env) jobClockAndBuffers() func(byte) *xjob {
	var ts []int64
	n := 2 + e.N(12)
	now := int64(e.U(1 << 40))
	for range n {
		now += int64(e.U(1 << 31))
		ts = append(ts, now&ts33)
	}
	data := make([]byte, 1+e.N(2000))
	e.Sub().fill(data)
	k := e.N(len(data))
	return func(salt byte) *xjob {
		return &xjob{"clock-buffers", func() string {
			td := &mpegts.TimeDecoder{}
			td.Initialize()
			s := ""
			for _, t := range ts {
				s += fmt.Sprint(td.Decode(t), ";")
			}
			rr := &rewindablereader.Reader{R: bytes.NewReader(data)}
			b := make([]byte, k)
			m, err := io.ReadFull(rr, b)
			s += fmt.Sprintf("%d %v %x;", m, err, hashBytes(b))
			rr.Rewind()
			b, err = io.ReadAll(rr)
			s += fmt.Sprintf("%v %x;", err, hashBytes(b))
			var sb seekablebuffer.Buffer
			for i := 0; i < len(data); i += 100 {
				sb.Write(data[i:min(i+100, len(data))]) //nolint:errcheck
				if i%300 == 0 {
					sb.Seek(int64(-(i % 70)), io.SeekCurrent) //nolint:errcheck
				}
			}
			return s + fmt.Sprintf("%x;", hashBytes(sb.Bytes()))
		}}
	}
}

func runX01(e *Env) {
	kinds := []func() func(byte) *xjob{e.jobTSWrite, e.jobTSRead, e.jobFMP4, e.jobPMP4, e.jobCodecs, e.jobSamples, e.jobDTS, e.jobClockAndBuffers}
	n := 2 + e.N(3)
	var jobs []*xjob
	var last func(byte) *xjob
	lastK := 0
	for i := range n {
		switch {
		case i > 0 && e.P(1, 6): // the same work in two threads: the inputs are shared, the instances are not
			jobs = append(jobs, last(0))
			continue
		case i > 0 && e.P(1, 4): // the same work on other data
			jobs = append(jobs, last(byte(i)))
			continue
		case i > 0 && e.P(1, 2): // the same kind of work
		default:
			lastK = e.N(len(kinds))
		}
		last = kinds[lastK]()
		jobs = append(jobs, last(0))
	}
	alone := make([]string, n)
	mixed := make([]string, n)
	solo := func() {
		for i, j := range jobs {
			alone[i] = j.run()
			e.Ev("alone", i, j.name, hashBytes([]byte(alone[i])))
		}
	}
	sch := &scheduler{mean: []int{30, 3, 300, 3000}[e.N(4)], budget: 20 + e.N(400)}
	w := 0
	if verifhook.Shared > 0 {
		w = 7
	}
	switch e.W(3, 2, 2, w) {
	case 1: // bursts of switches after long undisturbed periods
		sch.mean, sch.other, sch.flip = 100+e.N(3000), 2+e.N(6), 3+e.N(20)
	case 2: // all threads advance by the same number of statements in turn
		sch.lockstep, sch.budget = 1+e.N(4), 3000
		sch.coarse = e.N(len(jobs) * 400)
		sch.stagger = e.P(1, 2)
	case 3: // near the uses of what threads share
		sch.mean, sch.global = 200+e.N(5000), 300
	}
	first := e.P(1, 2)
	if first {
		solo()
	}
	var fns []func()
	for i, j := range jobs {
		fns = append(fns, func() { mixed[i] = j.run() })
	}
	sw := e.RunThreads(sch, fns)
	if !first {
		solo()
	}
	e.Fault("context-switches")
	e.faults["context-switches"] += sw - 1
	for i, j := range jobs {
		e.Ev("mixed", i, hashBytes([]byte(mixed[i])))
		if alone[i] != mixed[i] {
			k := 0
			for k < len(alone[i]) && k < len(mixed[i]) && alone[i][k] == mixed[i][k] {
				k++
			}
			e.Fail("interference", "thread %d (%s) among %d others, %d context switches: alone ...%s, together ...%s", i, j.name, n-1, sw,
				clip(alone[i][max(0, k-40):]), clip(mixed[i][max(0, k-40):]))
		}
	}
	if sw > 0 {
		e.NonTrivial()
	}
	e.sample = fmt.Sprintf("%d threads, %d switches, first %s", n, sw, jobs[0].name)
}
