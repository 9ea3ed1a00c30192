package main

import (
	"bytes"
	"fmt"
	"reflect"

	amp4 "github.com/abema/go-mp4"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

const (
	mAV1 = iota
	mVP9
	mH265
	mH264
	mMPEG4V
	mMPEG1V
	mMJPEG
	mOpus
	mFLAC
	mAAC
	mMP3
	mAC3
	mEAC3
	mLPCM
	mKinds
)

var mp4KindNames = []string{"AV1", "VP9", "H265", "H264", "MPEG4Video", "MPEG1Video", "MJPEG", "Opus", "FLAC", "MPEG4Audio", "MPEG1Audio", "AC3", "EAC3", "LPCM"}

func (e *Env) blob(lo, hi int) []byte {
	b := make([]byte, e.R(lo, hi))
	r := e.Sub()
	r.fill(b)
	return b
}

// drawCodec draws a codec of the kind with valid parameters.
func (e *Env) drawCodec(k int) mp4codecs.Codec {
	switch k {
	case mAV1:
		seq := e.genAV1Seq()
		return e.trait(&mp4codecs.AV1{SequenceHeader: seq}, e.av1)
	case mVP9:
		return &mp4codecs.VP9{Width: e.R(1, 65535), Height: e.R(1, 65535), Profile: uint8(e.N(4)), BitDepth: uint8(8 + 2*e.N(3)),
			ChromaSubsampling: uint8(e.N(4)), ColorRange: e.P(1, 2)}
	case mH265:
		p := e.genH265P()
		r := e.Sub()
		pps := p.ppsNALU()
		if e.P(1, 3) {
			pps = append([]byte{34 << 1, 1}, e.blob(1, 300)...)
		}
		vps := p.vpsNALU(r)
		if e.P(1, 10) {
			vps = append(vps, e.blob(200, 3000)...)
		}
		var tr codecTraits
		tr.w, tr.h = p.cropped()
		tr.bytes = p.record()
		return e.trait(&mp4codecs.H265{VPS: vps, SPS: p.spsNALU(), PPS: pps}, tr)
	case mH264:
		p := e.genH264P()
		p.pocType = uint32(e.W(4, 1, 3))
		p.frameOnly = !e.P(1, 4)
		pps := append([]byte{0x68}, e.blob(1, 20)...)
		if e.P(1, 10) {
			pps = append(pps, e.blob(200, 3000)...)
		}
		var tr codecTraits
		tr.w, tr.h = p.cropped()
		return e.trait(&mp4codecs.H264{SPS: p.nalu(), PPS: pps}, tr)
	case mMPEG4V:
		hi := 40
		if e.P(1, 5) {
			hi = 20000
		}
		return &mp4codecs.MPEG4Video{Config: e.blob(1, hi)}
	case mMPEG1V:
		hi := 140
		if e.P(1, 8) {
			hi = 300
		}
		return &mp4codecs.MPEG1Video{Config: e.blob(1, hi)}
	case mMJPEG:
		return &mp4codecs.MJPEG{Width: e.R(1, 65535), Height: e.R(1, 65535)}
	case mOpus:
		return &mp4codecs.Opus{ChannelCount: e.R(1, 255)}
	case mFLAC:
		si := &flac.StreamInfo{MinBlockSize: uint16(e.N(65536)), MaxBlockSize: uint16(e.N(65536)), MinFrameSize: uint32(e.N(1 << 24)),
			MaxFrameSize: uint32(e.N(1 << 24)), SampleRate: uint32(e.R(1, 1<<20-1)), ChannelCount: uint8(e.R(1, 8)), BitDepth: uint8(e.R(4, 32)),
			TotalSamples: uint64(e.U(1 << 36))}
		e.Sub().fill(si.MD5[:])
		return &mp4codecs.FLAC{StreamInfo: si}
	case mAAC:
		return &mp4codecs.MPEG4Audio{Config: e.halfASC(*e.drawASC())}
	case mMP3:
		return &mp4codecs.MPEG1Audio{SampleRate: []int{48000, 44100, 32000, 24000, 22050, 16000}[e.N(6)], ChannelCount: e.R(1, 2)}
	case mAC3:
		i := e.N(3)
		return &mp4codecs.AC3{SampleRate: []int{48000, 44100, 32000}[i], Fscod: uint8(i), ChannelCount: e.R(1, 6), Bsid: uint8(e.N(32)), //nolint:staticcheck
			Bsmod: uint8(e.N(8)), Acmod: uint8(e.N(8)), LfeOn: e.P(1, 2), BitRateCode: uint8(e.N(32))}
	case mEAC3:
		c := &mp4codecs.EAC3{SampleRate: []int{48000, 44100, 32000}[e.N(3)], ChannelCount: e.R(1, 16), DataRate: uint16(e.N(1 << 13)),
			Asvc: e.P(1, 2), Bsmod: uint8(e.N(8)), Acmod: uint8(e.N(8)), LfeOn: e.P(1, 2)}
		if e.P(1, 3) {
			c.NumDepSub = uint8(e.R(1, 15))
			c.ChanLoc = uint16(e.N(512))
		}
		return c
	default:
		c := &mp4codecs.LPCM{LittleEndian: e.P(1, 2), BitDepth: []int{16, 8, 24, 32}[e.N(4)], ChannelCount: e.R(1, 64)}
		c.SampleRate = []int{48000, 44100, 8000, 65535, 1}[e.N(5)]
		return c
	}
}

// trait keeps what is known about a drawn codec.
func (e *Env) trait(c mp4codecs.Codec, t codecTraits) mp4codecs.Codec {
	if e.traits == nil {
		e.traits = map[mp4codecs.Codec]codecTraits{}
	}
	e.traits[c] = t
	return c
}

// drawASC draws an audio configuration.
func (e *Env) drawASC() *mpeg4audio.AudioSpecificConfig {
	c := &mpeg4audio.AudioSpecificConfig{Type: mpeg4audio.ObjectTypeAACLC}
	rates := []int{48000, 96000, 88200, 64000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
	if e.P(1, 5) {
		c.SampleRate = e.R(1, 1<<24-1)
	} else {
		c.SampleRate = rates[e.N(len(rates))]
	}
	c.ChannelConfig = uint8(e.R(1, 7))
	c.ChannelCount = int(c.ChannelConfig) //nolint:staticcheck
	if c.ChannelConfig == 7 {
		c.ChannelCount = 8 //nolint:staticcheck
	}
	if e.P(1, 3) {
		c.ExtensionType = []mpeg4audio.ObjectType{mpeg4audio.ObjectTypeSBR, mpeg4audio.ObjectTypePS}[e.N(2)]
		if e.P(1, 4) {
			c.ExtensionSampleRate = e.R(1, 1<<24-1)
		} else {
			c.ExtensionSampleRate = rates[e.N(len(rates))]
		}
	}
	c.FrameLengthFlag = e.P(1, 4)
	if e.P(1, 5) {
		c.DependsOnCoreCoder = true
		c.CoreCoderDelay = uint16(e.N(1 << 14))
	}
	return c
}

// halfASC leaves out, at times, one of the two fields that state the channels: either is enough to write.
func (e *Env) halfASC(c mpeg4audio.AudioSpecificConfig) mpeg4audio.AudioSpecificConfig {
	switch e.N(4) {
	case 1:
		c.ChannelCount = 0 //nolint:staticcheck
	case 2:
		if c.ChannelCount != 0 { //nolint:staticcheck
			c.ChannelConfig = 0
		}
	}
	return c
}

// fullASC fills the field that halfASC left out.
func fullASC(c mpeg4audio.AudioSpecificConfig) mpeg4audio.AudioSpecificConfig {
	counts := []int{0, 1, 2, 3, 4, 5, 6, 8}
	switch {
	case c.ChannelCount == 0 && int(c.ChannelConfig) < len(counts): //nolint:staticcheck
		c.ChannelCount = counts[c.ChannelConfig] //nolint:staticcheck
	case c.ChannelConfig == 0:
		for i, n := range counts {
			if n == c.ChannelCount { //nolint:staticcheck
				c.ChannelConfig = uint8(i)
			}
		}
	}
	return c
}

// checkASC checks that reading fills both fields.
func (e *Env) checkASC(c mp4codecs.Codec) {
	if a, ok := c.(*mp4codecs.MPEG4Audio); ok {
		e.Check(a.Config == fullASC(a.Config), "channels-not-filled", "channel configuration %d, %d channels", a.Config.ChannelConfig, a.Config.ChannelCount) //nolint:staticcheck
	}
}

func codecKind(c mp4codecs.Codec) int {
	switch c.(type) {
	case *mp4codecs.AV1:
		return mAV1
	case *mp4codecs.VP9:
		return mVP9
	case *mp4codecs.H265:
		return mH265
	case *mp4codecs.H264:
		return mH264
	case *mp4codecs.MPEG4Video:
		return mMPEG4V
	case *mp4codecs.MPEG1Video:
		return mMPEG1V
	case *mp4codecs.MJPEG:
		return mMJPEG
	case *mp4codecs.Opus:
		return mOpus
	case *mp4codecs.FLAC:
		return mFLAC
	case *mp4codecs.MPEG4Audio:
		return mAAC
	case *mp4codecs.MPEG1Audio:
		return mMP3
	case *mp4codecs.AC3:
		return mAC3
	case *mp4codecs.EAC3:
		return mEAC3
	case *mp4codecs.LPCM:
		return mLPCM
	}
	return -1
}

// drawScale draws a time scale.
func (e *Env) drawScale() uint32 {
	switch e.W(4, 3, 1, 1) {
	case 0:
		return 90000
	case 1:
		return uint32([]int{48000, 44100, 1000, 12800, 30, 1}[e.N(6)])
	case 2:
		return 1<<32 - 1 - uint32(e.N(5))
	}
	return 1 + uint32(e.U(1<<32-1))
}

// drawDur draws a duration.
func (e *Env) drawDur() uint32 {
	switch e.W(5, 2, 1, 1, 1) {
	case 0:
		return 3000
	case 1:
		return uint32(1 + e.N(10000))
	case 2:
		return 0
	case 3:
		return 1<<32 - 1 - uint32(e.N(3))
	}
	return uint32(e.U(1 << 32))
}

// drawOff draws a presentation offset.
func (e *Env) drawOff() int32 {
	switch e.W(6, 2, 2, 1) {
	case 0:
		return 0
	case 1:
		return int32(e.N(20000))
	case 2:
		return -int32(e.N(20000))
	}
	return int32(uint32(e.U(1 << 32)))
}

// initOpts is the shape of a drawn header.
type initOpts struct {
	maxTracks int
	userData  bool
}

func (e *Env) genInit(o initOpts) *fmp4.Init {
	in := &fmp4.Init{}
	n := 1 + e.N(o.maxTracks)
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		id := i + 1
		if e.P(1, 6) {
			id = int(1 + e.U(1<<32-1))
		}
		for used[id] {
			id = id%(1<<32-1) + 1
		}
		used[id] = true
		t := &fmp4.InitTrack{ID: id, TimeScale: e.drawScale(), Codec: e.drawCodec(e.N(mKinds))}
		if e.P(1, 4) {
			t.AvgBitrate, t.MaxBitrate = uint32(e.U(1<<32)), uint32(e.U(1<<32))
			switch e.N(4) {
			case 0:
				t.MaxBitrate = 0
			case 1:
				t.AvgBitrate = 0
			}
		}
		in.Tracks = append(in.Tracks, t)
	}
	if o.userData && e.P(1, 4) {
		m := 1 + e.N(3)
		for i := 0; i < m; i++ {
			switch e.N(3) {
			case 0:
				in.UserData = append(in.UserData, &amp4.Colr{ColourType: [4]byte{'n', 'c', 'l', 'x'}, ColourPrimaries: uint16(e.N(65536)),
					TransferCharacteristics: uint16(e.N(65536)), MatrixCoefficients: uint16(e.N(65536)), FullRangeFlag: e.P(1, 2), Reserved: uint8(e.N(128))})
			case 1:
				s := &amp4.Sidx{ReferenceID: uint32(e.U(1 << 32)), Timescale: 1000, References: []amp4.SidxReference{}}
				k := e.N(3)
				s.ReferenceCount = uint16(k)
				for j := 0; j < k; j++ {
					s.References = append(s.References, amp4.SidxReference{ReferencedSize: uint32(e.N(1 << 31)), SubsegmentDuration: uint32(e.N(1000))})
				}
				in.UserData = append(in.UserData, s)
			case 2:
				in.UserData = append(in.UserData, &amp4.Free{Data: e.blob(1, 40)})
			}
		}
	}
	return in
}

func boxBytes(b amp4.IImmutableBox) []byte {
	var buf bytes.Buffer
	amp4.Marshal(&buf, b, amp4.Context{UnderUdta: true}) //nolint:errcheck
	return append([]byte(b.GetType().String()+":"), buf.Bytes()...)
}

func codecStr(c mp4codecs.Codec) string {
	if c == nil {
		return "<nil>"
	}
	if f, ok := c.(*mp4codecs.FLAC); ok {
		return fmt.Sprintf("FLAC%+v", *f.StreamInfo)
	}
	if a, ok := c.(*mp4codecs.MPEG4Audio); ok {
		return fmt.Sprintf("%T%+v", c, fullASC(a.Config))
	}
	return fmt.Sprintf("%T%+v", c, reflect.ValueOf(c).Elem().Interface())
}

// initView renders what reading must give back.
func initView(in *fmp4.Init) string {
	s := ""
	for _, t := range in.Tracks {
		s += fmt.Sprintf("track %d/%d %s\n", t.ID, t.TimeScale, codecStr(t.Codec))
	}
	for _, b := range in.UserData {
		s += fmt.Sprintf("udta %x\n", boxBytes(b))
	}
	return s
}

func initFull(in *fmp4.Init) string {
	s := initView(in)
	for _, t := range in.Tracks {
		s += fmt.Sprint(t.AvgBitrate, t.MaxBitrate, ";")
	}
	return s
}

// boxLike is a payload that looks like boxes.
func boxLike(r *rng, n int) []byte {
	b := make([]byte, n)
	names := []string{"moof", "mdat", "traf", "trun", "moov", "trak", "mfhd", "free", "ftyp"}
	for i := 0; i+8 <= n; {
		l := 8 + r.n(24)
		b[i+3] = byte(l)
		copy(b[i+4:], names[r.n(len(names))])
		i += l
	}
	return b
}

func (e *Env) payload(r *rng, big bool) []byte {
	n := 0
	switch e.W(6, 2, 1, 1) {
	case 0:
		n = 1 + e.N(64)
	case 1:
		n = e.N(600)
	case 2:
		n = 0
	case 3:
		n = 8 + e.N(100)
		return boxLike(r, n)
	}
	if big && e.P(1, 8) {
		n = e.N(70000)
	}
	b := make([]byte, n)
	r.fill(b)
	return b
}

// partOpts is the shape of drawn parts.
type partOpts struct {
	maxParts   int
	minParts   int
	maxSamples int
	big        bool
}

func (e *Env) genPart(seq uint32, ids []int, base map[int]uint64, o partOpts, r *rng) *fmp4.Part {
	p := &fmp4.Part{SequenceNumber: seq}
	nt := e.W(1, 6, 4, 2)
	for i := 0; i < nt; i++ {
		id := ids[e.N(len(ids))]
		t := &fmp4.PartTrack{ID: id, BaseTime: base[id]}
		ns := e.N(o.maxSamples + 1)
		mode := e.N(4) // 0 all sync, 1 first sync, 2 random, 3 none
		offs := e.P(1, 2)
		for j := 0; j < ns; j++ {
			s := &fmp4.Sample{Duration: e.drawDur(), Payload: e.payload(r, o.big)}
			switch mode {
			case 1:
				s.IsNonSyncSample = j != 0
			case 2:
				s.IsNonSyncSample = e.P(1, 2)
			case 3:
				s.IsNonSyncSample = true
			}
			if offs {
				s.PTSOffset = e.drawOff()
			}
			base[id] += uint64(s.Duration)
			t.Samples = append(t.Samples, s)
		}
		p.Tracks = append(p.Tracks, t)
	}
	return p
}

func (e *Env) genParts(in *fmp4.Init, o partOpts) fmp4.Parts {
	var ids []int
	base := map[int]uint64{}
	for _, t := range in.Tracks {
		ids = append(ids, t.ID)
		switch e.W(4, 2, 2) {
		case 1:
			base[t.ID] = uint64(e.U(1 << 40))
		case 2:
			base[t.ID] = 1<<63 + e.U(1<<63)
		}
	}
	r := e.Sub()
	var ps fmp4.Parts
	n := o.minParts + e.N(o.maxParts-o.minParts+1)
	seq := uint32(0)
	if e.P(1, 4) {
		seq = uint32(e.U(1 << 32))
	}
	for i := 0; i < n; i++ {
		ps = append(ps, e.genPart(seq, ids, base, o, r))
		seq++
	}
	return ps
}

func partView(p *fmp4.Part) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "part %d:", p.SequenceNumber)
	for _, t := range p.Tracks {
		fmt.Fprintf(&b, " track %d@%d[", t.ID, t.BaseTime)
		for _, s := range t.Samples {
			if s == nil {
				b.WriteString(" nil")
				continue
			}
			fmt.Fprintf(&b, " %d/%d/%v/%d:%x", s.Duration, s.PTSOffset, s.IsNonSyncSample, len(s.Payload), hashBytes(s.Payload))
		}
		b.WriteString("]")
	}
	return b.String()
}

func partsView(ps fmp4.Parts) []string {
	var l []string
	for _, p := range ps {
		l = append(l, partView(p))
	}
	return l
}

func diffViews(got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d parts instead of %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("item %d: got %s want %s", i, clip(got[i]), clip(want[i]))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// marshalBuf marshals through the in-memory seekable buffer.
func marshalBuf(fn func(b *seekablebuffer.Buffer) error) ([]byte, error) {
	var b seekablebuffer.Buffer
	err := fn(&b)
	return b.Bytes(), err
}

// oddCodec draws a codec with parameters the file cannot express, or from which the header cannot be built.
func (e *Env) oddCodec() mp4codecs.Codec {
	switch e.N(8) {
	case 0, 1:
		c := e.drawASC()
		c.ChannelConfig, c.ChannelCount = 0, []int{7, 9, 24, 300}[e.N(4)] //nolint:staticcheck
		return &mp4codecs.MPEG4Audio{Config: *c}
	case 2:
		c := e.drawASC()
		c.ChannelConfig, c.ChannelCount = []uint8{0, 8, 11, 16, 23}[e.N(5)], 0 //nolint:staticcheck
		return &mp4codecs.MPEG4Audio{Config: *c}
	case 3:
		c := e.drawCodec(mAC3).(*mp4codecs.AC3)
		c.SampleRate = []int{0, 22050, 96000}[e.N(3)]
		return c
	case 4:
		c := e.drawCodec(mEAC3).(*mp4codecs.EAC3)
		c.SampleRate = []int{0, 22050, 24000, 96000}[e.N(4)]
		return c
	case 5:
		c := e.drawCodec(mH264).(*mp4codecs.H264)
		c.SPS = c.SPS[:e.N(min(4, len(c.SPS)))]
		return c
	case 6:
		c := e.drawCodec(mH265).(*mp4codecs.H265)
		c.SPS = c.SPS[:e.N(min(13, len(c.SPS)))]
		return c
	default:
		c := e.drawCodec(mAV1).(*mp4codecs.AV1)
		c.SequenceHeader = c.SequenceHeader[:e.N(min(5, len(c.SequenceHeader)))]
		return c
	}
}
