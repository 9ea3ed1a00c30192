package main

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

// Model encoders of live sources. They are written from the specifications of the codecs and know the truth about what
// they send.

// liveUnit is what is sent at once.
type liveUnit struct {
	data  [][]byte // NAL units, OBUs, or one item
	key   bool     // decoding can start here
	par   int      // parameters in force
	ts    int64    // presentation time, in the time scale of the source
	dur   int64
	parts []liveFrame // frames of the unit
}

// liveFrame is a frame a receiver has to find in a unit.
type liveFrame struct {
	payload []byte
	dur     int64
}

// livePar are the parameters of a source.
type livePar struct {
	codec mp4codecs.Codec // what a player must be told, nil when there is nothing to tell
	scale uint32
	out   []byte // out-of-band description
	view  string // parameters, rendered
	sets  []liveSet
}

// liveSet is a parameter set: need is the number of bits of the payload that carry parameters.
type liveSet struct {
	name       string
	head, rbsp []byte
	need       int
}

type liveEnc interface {
	params(first bool) *livePar
	unit(key bool) ([][]byte, []liveFrame)
}

const (
	lVP9 = iota
	lVP8
	lAV1
	lH264
	lH265
	lMPEG4V
	lMJPEG
	lOpus
	lMP1A
	lAC3
	lEAC3
	lAAC
	lG711
	lFLAC
	lKinds
)

var liveNames = [...]string{"vp9", "vp8", "av1", "h264", "h265", "mpeg4video", "mjpeg", "opus", "mpeg1audio", "ac3", "eac3", "aac", "g711", "flac"}

func (e *Env) newLiveEnc(k int) liveEnc {
	b := liveBase{e: e, r: e.Sub()}
	switch k {
	case lVP9:
		return &vp9Enc{liveBase: b}
	case lVP8:
		return &vp8Enc{liveBase: b}
	case lAV1:
		return &av1Enc{liveBase: b}
	case lH264:
		return &h264Enc{liveBase: b}
	case lH265:
		return &h265Enc{liveBase: b}
	case lMPEG4V:
		return &m4vEnc{liveBase: b}
	case lMJPEG:
		return &jpegEnc{liveBase: b}
	case lOpus:
		return &opusEnc{liveBase: b}
	case lMP1A:
		return &mp1aEnc{liveBase: b}
	case lAC3:
		return &ac3Enc{liveBase: b}
	case lEAC3:
		return &eac3Enc{liveBase: b}
	case lAAC:
		return &aacEnc{liveBase: b}
	case lG711:
		return &g711Enc{liveBase: b}
	default:
		return &flacEnc{liveBase: b}
	}
}

type liveBase struct {
	e *Env
	r *rng
}

func (b *liveBase) rand(n int) []byte {
	p := make([]byte, n)
	b.r.fill(p)
	return p
}

func one1(b []byte) ([][]byte, []liveFrame) { return [][]byte{b}, nil }

// VP9 (VP9 bitstream specification 0.6, 6.2)

type vp9Enc struct {
	liveBase
	profile, depth, space int
	full, sx, sy          bool
	w, h                  int
}

func (c *vp9Enc) params(bool) *livePar {
	e := c.e
	c.profile = e.N(4)
	c.depth = 8
	if c.profile >= 2 {
		c.depth = 10 + 2*e.N(2)
	}
	c.space = e.N(7)
	c.full, c.sx, c.sy = e.P(1, 2), true, true
	if c.profile&1 == 1 {
		c.sx, c.sy = e.P(1, 2), false
		if e.P(1, 5) {
			c.space, c.full, c.sx = 7, true, false
		}
	}
	c.w, c.h = e.R(1, 65536), e.R(1, 65536)
	if e.P(1, 2) {
		c.w, c.h = 16*e.R(1, 240), 8*e.R(1, 270)
	}
	p := &livePar{scale: 90000}
	v := &mp4codecs.VP9{Width: c.w, Height: c.h, Profile: uint8(c.profile), BitDepth: uint8(c.depth), ColorRange: c.full, ChromaSubsampling: 1}
	switch {
	case !c.sx:
		v.ChromaSubsampling = 3
	case !c.sy:
		v.ChromaSubsampling = 2
	}
	p.view = fmt.Sprintf("%+v", *v)
	if c.w < 65536 && c.h < 65536 {
		p.codec = v
	}
	return p
}

func (c *vp9Enc) frame(w *bitw, key bool) {
	e := c.e
	w.bits(2, 2)
	w.bits(uint64(c.profile&1), 1)
	w.bits(uint64(c.profile>>1), 1)
	if c.profile == 3 {
		w.bits(0, 1)
	}
	if !key && e.P(1, 4) {
		w.flag(true) // show_existing_frame
		w.bits(uint64(e.N(8)), 3)
		w.trail()
		return
	}
	w.flag(false)
	w.flag(!key)
	w.flag(e.P(4, 5)) // show_frame
	w.flag(e.P(1, 2)) // error_resilient_mode
	if key {
		w.bits(0x498342, 24)
		if c.profile >= 2 {
			w.flag(c.depth == 12)
		}
		w.bits(uint64(c.space), 3)
		if c.space != 7 {
			w.flag(c.full)
			if c.profile&1 == 1 {
				w.flag(c.sx)
				w.flag(c.sy)
				w.bits(0, 1)
			}
		} else {
			w.bits(0, 1)
		}
		w.bits(uint64(c.w-1), 16)
		w.bits(uint64(c.h-1), 16)
	} else if e.P(1, 6) {
		w.bits(0x498342, 24) // as in intra-only frames
	}
	w.trail()
	w.b = append(w.b, c.rand(e.N(60))...)
}

func (c *vp9Enc) unit(key bool) ([][]byte, []liveFrame) {
	w := &bitw{}
	c.frame(w, key)
	if c.e.P(1, 5) { // superframe
		n := len(w.b)
		w2 := &bitw{}
		c.frame(w2, false)
		b := append(append([]byte(nil), w.b...), w2.b...)
		m := byte(0xC0 | 1<<3 | 1)
		return one1(append(b, m, byte(n), byte(n>>8), byte(len(w2.b)), byte(len(w2.b)>>8), m))
	}
	return one1(w.b)
}

// VP8 (RFC 6386, 9.1)

type vp8Enc struct{ liveBase }

func (c *vp8Enc) params(bool) *livePar { return &livePar{scale: 90000} }

func (c *vp8Enc) unit(key bool) ([][]byte, []liveFrame) {
	e := c.e
	size := e.N(1 << 19)
	v := uint32(b2i(!key)) | uint32(e.N(4))<<1 | uint32(b2i(e.P(5, 6)))<<4 | uint32(size)<<5
	b := []byte{byte(v), byte(v >> 8), byte(v >> 16)}
	if key {
		b = append(b, 0x9d, 0x01, 0x2a, byte(e.N(256)), byte(e.N(256)), byte(e.N(256)), byte(e.N(256)))
	}
	return one1(append(b, c.rand(e.N(60))...))
}

// AV1

type av1Enc struct {
	liveBase
	seq []byte
}

func (c *av1Enc) params(bool) *livePar {
	h, head, rbsp, need, t := c.e.fullAV1Seq()
	c.seq = append(append([]byte(nil), head...), rbsp...)
	return &livePar{scale: 90000, codec: c.e.trait(&mp4codecs.AV1{SequenceHeader: c.seq}, t), view: fmt.Sprintf("%dx%d %s", t.w, t.h, dump(h)),
		sets: []liveSet{{"sequence header", head, rbsp, need}}}
}

func (c *av1Enc) unit(key bool) ([][]byte, []liveFrame) {
	e := c.e
	var tu [][]byte
	obu := func(typ byte, n int) {
		h := typ << 3
		tu = append(tu, append([]byte{h}, c.rand(n)...))
	}
	extra := func() {
		if e.P(1, 4) {
			obu([]byte{5, 15, 8}[e.N(3)], e.N(20)) // metadata, padding, tile list
		}
	}
	if key {
		tu = append(tu, c.seq)
	}
	extra()
	if e.P(1, 2) {
		obu(6, 1+e.N(60)) // frame
	} else {
		obu(3, 1+e.N(20)) // frame header and tile groups
		obu(4, 1+e.N(40))
		if e.P(1, 2) {
			obu(7, e.N(20))
			obu(4, 1+e.N(40))
		}
	}
	extra()
	return tu, nil
}

// H264

type h264Enc struct {
	liveBase
	sps, pps []byte
	n        int
}

func fpsView(timing bool, scale, units float64) string {
	if !timing {
		return "0"
	}
	return fmt.Sprintf("%.6g", scale/units)
}

func (c *h264Enc) params(bool) *livePar {
	e := c.e
	s := e.fullH264SPS()
	head, rbsp, need := e.writeH264SPS(s)
	c.sps = append(append([]byte(nil), head...), epb(rbsp)...)
	c.pps = append([]byte{0x68}, e.blob(1, 20)...)
	naluSafe(c.pps[1:])
	var tr codecTraits
	tr.w, tr.h = sizeH264(s)
	fps := "0"
	if s.VUI != nil && s.VUI.TimingInfo != nil {
		fps = fpsView(true, float64(s.VUI.TimingInfo.TimeScale), 2*float64(s.VUI.TimingInfo.NumUnitsInTick))
	}
	return &livePar{scale: 90000, codec: e.trait(&mp4codecs.H264{SPS: c.sps, PPS: c.pps}, tr),
		view: fmt.Sprintf("%dx%d fps %s %s", tr.w, tr.h, fps, dump(s)), sets: []liveSet{{"SPS", head, rbsp, need}}}
}

func (c *h264Enc) unit(key bool) ([][]byte, []liveFrame) {
	e := c.e
	var au [][]byte
	nal := func(h byte, n int) {
		b := append([]byte{h}, c.rand(n)...)
		naluSafe(b[1:])
		au = append(au, b)
	}
	if e.P(1, 3) {
		au = append(au, []byte{9, 0xF0})
	}
	if key {
		au = append(au, c.sps, c.pps)
	} else if e.P(1, 8) { // recovery point: parameters and intra picture without IDR
		au = append(au, c.sps, c.pps)
		nal(6, 1+e.N(10))
	}
	if e.P(1, 4) {
		nal(6, 1+e.N(40))
	}
	for i := 0; i <= e.W(5, 1, 1, 1); i++ {
		switch {
		case key:
			nal(byte(1+e.N(3))<<5|5, 1+e.N(60))
		case e.P(1, 10):
			nal(0x60|byte(2+e.N(3)), 1+e.N(60))
		default:
			nal(byte(e.N(4))<<5|1, 1+e.N(60))
		}
	}
	if e.P(1, 8) {
		nal(12, e.N(10)) // filler
	}
	c.n++
	return au, nil
}

// H265

type h265Enc struct {
	liveBase
	vps, sps, pps []byte
}

func (c *h265Enc) params(bool) *livePar {
	e := c.e
	s := e.fullH265SPS()
	head, rbsp, need, record := e.writeH265SPS(s)
	c.sps = append(append([]byte(nil), head...), epb(rbsp)...)
	q, qhead, qrbsp, qneed := e.fullH265PPS()
	c.pps = append(append([]byte(nil), qhead...), epb(qrbsp)...)
	c.vps = (&h265P{vpsID: s.VPSID}).vpsNALU(c.r)
	var tr codecTraits
	tr.w, tr.h = sizeH265(s)
	tr.bytes = record
	fps := "0"
	if s.VUI != nil && s.VUI.TimingInfo != nil {
		fps = fpsView(true, float64(s.VUI.TimingInfo.TimeScale), float64(s.VUI.TimingInfo.NumUnitsInTick))
	}
	return &livePar{scale: 90000, codec: e.trait(&mp4codecs.H265{VPS: c.vps, SPS: c.sps, PPS: c.pps}, tr),
		view: fmt.Sprintf("%dx%d fps %s %s %s", tr.w, tr.h, fps, dumpH265(*s), dump(q)),
		sets: []liveSet{{"SPS", head, rbsp, need}, {"PPS", qhead, qrbsp, qneed}}}
}

func (c *h265Enc) unit(key bool) ([][]byte, []liveFrame) {
	e := c.e
	var au [][]byte
	nal := func(typ byte, n int) {
		b := append([]byte{typ << 1, byte(1 + e.N(3))}, c.rand(n)...)
		naluSafe(b[2:])
		au = append(au, b)
	}
	if e.P(1, 3) {
		nal(35, 1)
	}
	if key || e.P(1, 10) {
		au = append(au, c.vps, c.sps, c.pps)
	}
	if e.P(1, 4) {
		nal(39, 1+e.N(40))
	}
	typ := []byte{1, 0, 2, 3, 4, 5, 6, 7, 8, 9}[e.W(6, 2, 1, 1, 1, 1, 1, 1, 1, 1)]
	if key {
		typ = []byte{19, 20, 21}[e.N(3)]
	}
	for i := 0; i <= e.W(5, 1, 1, 1); i++ {
		nal(typ, 2+e.N(60))
	}
	if e.P(1, 6) {
		nal(40, 1+e.N(10)) // suffix SEI
	}
	return au, nil
}

// MPEG-4 Video (ISO 14496-2, 6.2)

type m4vEnc struct {
	liveBase
	cfg []byte
}

func (c *m4vEnc) params(bool) *livePar {
	e := c.e
	blob := func(n int) []byte {
		b := c.rand(n)
		for i := range b {
			if b[i] == 0 {
				b[i] = 0x55
			}
		}
		return b
	}
	b := append([]byte{0, 0, 1, 0xB0}, blob(1)...)
	if e.P(1, 4) {
		b = append(append(b, 0, 0, 1, 0xB2), blob(e.N(20))...)
	}
	b = append(append(b, 0, 0, 1, 0xB5), blob(1+e.N(5))...)
	b = append(b, 0, 0, 1, byte(e.N(32)))
	b = append(append(b, 0, 0, 1, 0x20|byte(e.N(16))), blob(6+e.N(30))...)
	if e.P(1, 2) {
		b = append(append(b, 0, 0, 1, 0xB2), blob(e.N(20))...)
	}
	c.cfg = b
	return &livePar{scale: 90000, codec: &mp4codecs.MPEG4Video{Config: b}, view: fmt.Sprintf("%x", b)}
}

func (c *m4vEnc) unit(key bool) ([][]byte, []liveFrame) {
	b := []byte{0, 0, 1, 0xB6}
	if key {
		b = append([]byte(nil), c.cfg...)
		b = append(append(b, 0, 0, 1, 0xB3), 0x11, 0x22, 0x30)
		b = append(b, 0, 0, 1, 0xB6)
	}
	p := c.rand(1 + c.e.N(60))
	naluSafe(p)
	return one1(append(b, p...))
}

// Opus (RFC 6716, 3)

type opusEnc struct{ liveBase }

func (c *opusEnc) params(bool) *livePar {
	e := c.e
	ch := e.R(1, 8)
	fam := 0
	if ch > 2 || e.P(1, 4) {
		fam = 1
	}
	skip, rate, gain := e.N(65536), []int{48000, 44100, 16000, 8000, 0x01020304}[e.N(5)], e.N(65536)
	b := append([]byte("OpusHead"), 1, byte(ch), byte(skip), byte(skip>>8), byte(rate), byte(rate>>8), byte(rate>>16), byte(rate>>24), byte(gain), byte(gain>>8), byte(fam))
	var table []byte
	if fam == 1 {
		cp := e.N(ch/2 + 1)
		table = append(table, byte(ch-cp), byte(cp))
		for i := 0; i < ch; i++ {
			table = append(table, byte(i))
		}
	}
	return &livePar{scale: 48000, codec: &mp4codecs.Opus{ChannelCount: ch}, out: append(b, table...),
		view: fmt.Sprintf("version 1 channels %d family %d table %x skip %d rate %d gain %d", ch, fam, table, skip, rate, gain)}
}

func (c *opusEnc) unit(bool) ([][]byte, []liveFrame) {
	e := c.e
	cfg := e.N(32)
	var dur int // 1/48000 s
	switch {
	case cfg < 12: // SILK: 10, 20, 40, 60 ms
		dur = []int{480, 960, 1920, 2880}[cfg&3]
	case cfg < 16: // hybrid: 10, 20 ms
		dur = []int{480, 960}[cfg&1]
	default: // CELT: 2.5, 5, 10, 20 ms
		dur = []int{120, 240, 480, 960}[cfg&3]
	}
	code := e.N(4)
	b := []byte{byte(cfg<<3 | e.N(2)<<2 | code)}
	n := 1
	switch code {
	case 1, 2:
		n = 2
		if code == 2 {
			b = append(b, byte(1+e.N(10)))
		}
	case 3:
		n = 1 + e.N(5760/dur) // up to 120 ms
		vbr, pad := e.N(2), e.N(2)
		b = append(b, byte(vbr<<7|pad<<6|n))
		if pad == 1 {
			b = append(b, byte(e.N(255)))
		}
	}
	b = append(b, c.rand(e.N(60))...)
	return [][]byte{b}, []liveFrame{{b, int64(dur * n)}}
}

// MPEG-1 and MPEG-2 audio

type mp1aEnc struct {
	liveBase
	lsf       bool
	layer, si int
	mode      int
}

func (c *mp1aEnc) params(bool) *livePar {
	e := c.e
	c.lsf, c.layer, c.si, c.mode = e.P(1, 2), 2+e.N(2), e.N(3), e.N(4)
	rate := []int{44100, 48000, 32000}[c.si]
	if c.lsf {
		rate /= 2
	}
	ch := 2
	if c.mode == 3 {
		ch = 1
	}
	return &livePar{scale: uint32(rate), codec: &mp4codecs.MPEG1Audio{SampleRate: rate, ChannelCount: ch}, view: fmt.Sprintf("rate %d channels %d", rate, ch)}
}

func (c *mp1aEnc) unit(bool) ([][]byte, []liveFrame) {
	e := c.e
	var all []byte
	var fr []liveFrame
	for i := 0; i <= e.W(3, 1, 1); i++ {
		bi, pad := e.N(14), e.N(2)
		b := c.rand(mp3FrameLen(c.lsf, c.layer, bi, c.si, pad))
		b[0], b[1] = 0xFF, 0xF0|byte(b2i(!c.lsf))<<3|byte(4-c.layer)<<1|byte(e.N(2))
		b[2] = byte(bi+1)<<4 | byte(c.si)<<2 | byte(pad)<<1 | byte(e.N(2))
		b[3] = byte(c.mode)<<6 | byte(e.N(64))
		n := int64(1152)
		if c.lsf && c.layer == 3 {
			n = 576
		}
		all = append(all, b...)
		fr = append(fr, liveFrame{b, n})
	}
	return [][]byte{all}, fr
}

// AC-3 (A/52, 5.3)

type ac3Enc struct {
	liveBase
	fscod, frm, bsid, bsmod, acmod int
	lfe                            bool
}

var acChannels = []int{2, 1, 2, 3, 3, 4, 4, 5}

func (c *ac3Enc) params(bool) *livePar {
	e := c.e
	c.fscod, c.frm, c.bsid, c.bsmod, c.acmod, c.lfe = e.N(3), e.N(38), []int{8, 6, 8, 4}[e.N(4)], e.N(8), e.N(8), e.P(1, 2)
	v := &mp4codecs.AC3{SampleRate: []int{48000, 44100, 32000}[c.fscod], ChannelCount: acChannels[c.acmod] + b2i(c.lfe),
		Fscod: uint8(c.fscod), Bsid: uint8(c.bsid), Bsmod: uint8(c.bsmod), Acmod: uint8(c.acmod), LfeOn: c.lfe, BitRateCode: uint8(c.frm >> 1)} //nolint:staticcheck
	return &livePar{scale: uint32(v.SampleRate), codec: v, view: fmt.Sprintf("%+v", *v)}
}

func (c *ac3Enc) unit(bool) ([][]byte, []liveFrame) {
	e := c.e
	var all []byte
	var fr []liveFrame
	for i := 0; i <= e.W(3, 1, 1); i++ {
		frm := c.frm
		if c.fscod == 1 {
			frm = c.frm&^1 | e.N(2) // padding follows the sample clock
		}
		b := c.rand(ac3FrameSize(c.fscod, frm))
		w := &bitw{}
		w.bits(0x0B77, 16)
		w.bits(uint64(e.N(65536)), 16)
		w.bits(uint64(c.fscod), 2)
		w.bits(uint64(frm), 6)
		w.bits(uint64(c.bsid), 5)
		w.bits(uint64(c.bsmod), 3)
		w.bits(uint64(c.acmod), 3)
		if c.acmod&1 != 0 && c.acmod != 1 {
			w.bits(uint64(e.N(3)), 2)
		}
		if c.acmod&4 != 0 {
			w.bits(uint64(e.N(3)), 2)
		}
		if c.acmod == 2 {
			w.bits(uint64(e.N(3)), 2)
		}
		w.flag(c.lfe)
		for w.n%8 != 0 {
			w.flag(e.P(1, 2))
		}
		copy(b, w.b)
		all = append(all, b...)
		fr = append(fr, liveFrame{b, 1536})
	}
	return [][]byte{all}, fr
}

// E-AC-3 (A/52 annex E)

type eac3Enc struct {
	liveBase
	fscod, fscod2, acmod, blk, deps int
	lfe                             bool
	size                            int
}

func (c *eac3Enc) params(bool) *livePar {
	e := c.e
	c.fscod, c.fscod2, c.acmod, c.blk, c.lfe, c.deps = e.N(4), e.N(3), e.N(8), e.N(4), e.P(1, 2), e.W(4, 1, 1)
	if c.fscod == 3 {
		c.blk = 3
	}
	c.size = e.R(4, 300)
	if e.P(1, 10) {
		c.size = e.R(1024, 2048)
	}
	rate := []int{48000, 44100, 32000}
	p := &livePar{}
	v := &mp4codecs.EAC3{ChannelCount: acChannels[c.acmod] + b2i(c.lfe), Acmod: uint8(c.acmod), LfeOn: c.lfe}
	if c.fscod == 3 {
		v.SampleRate = []int{24000, 22050, 16000}[c.fscod2]
	} else {
		v.SampleRate = rate[c.fscod]
	}
	p.scale = uint32(v.SampleRate)
	v.DataRate = uint16(c.size * 2 * 8 * v.SampleRate / (256 * []int{1, 2, 3, 6}[c.blk]) / 1000 & 0x1FFF)
	p.view = fmt.Sprintf("%+v", *v)
	if c.fscod != 3 {
		p.codec = v
	}
	return p
}

func (c *eac3Enc) unit(bool) ([][]byte, []liveFrame) {
	e := c.e
	var all []byte
	var fr []liveFrame
	for i := 0; i <= e.W(3, 1, 1); i++ {
		n := int64(256 * []int{1, 2, 3, 6}[c.blk])
		for d := 0; d <= c.deps; d++ {
			size, acmod, lfe := c.size, c.acmod, c.lfe
			w := &bitw{}
			w.bits(0x0B77, 16)
			if d == 0 {
				w.bits(uint64([]int{0, 2}[e.W(5, 1)]), 2)
				w.bits(0, 3)
			} else { // dependent substream: more channels of the same samples
				size, acmod, lfe = e.R(4, 100), e.N(8), e.P(1, 2)
				w.bits(1, 2)
				w.bits(uint64(d-1), 3)
			}
			w.bits(uint64(size-1), 11)
			w.bits(uint64(c.fscod), 2)
			if c.fscod == 3 {
				w.bits(uint64(c.fscod2), 2)
			} else {
				w.bits(uint64(c.blk), 2)
			}
			w.bits(uint64(acmod), 3)
			w.flag(lfe)
			w.bits(16, 5)
			for w.n%8 != 0 {
				w.flag(e.P(1, 2))
			}
			b := c.rand(size * 2)
			copy(b, w.b)
			all = append(all, b...)
			dur := n
			if d > 0 {
				dur = 0
			}
			fr = append(fr, liveFrame{b, dur})
		}
	}
	return [][]byte{all}, fr
}

// AAC without channel configuration (ISO 14496-3, 4.4.2.1)

type aacEnc struct {
	liveBase
	rate, ri int
	pce      bool
	first    int // first element: SCE, CPE, LFE
	els      [3][]bool
	lfes     int
	tag, ot  int
	assoc    int
	cc       int
}

func (c *aacEnc) params(bool) *livePar {
	e := c.e
	c.ri = e.N(13)
	c.rate = ascRates[c.ri]
	c.pce = e.P(2, 3)
	ch := 0
	c.tag, c.ot, c.assoc, c.cc = e.N(16), 1, e.N(8), e.N(16)
	if c.pce {
		for ch == 0 {
			for i := range c.els {
				c.els[i] = nil
				for k := e.W(2, 2, 2, 1); k > 0; k-- {
					cpe := e.P(1, 2)
					c.els[i] = append(c.els[i], cpe)
					ch += 1 + b2i(cpe)
				}
			}
			if e.P(1, 8) {
				for len(c.els[0]) < 15 {
					c.els[0] = append(c.els[0], true)
					ch += 2
				}
			}
			c.lfes = e.W(3, 2, 1, 1)
			ch += c.lfes
		}
	} else {
		c.first = []int{0, 1, 3}[e.W(2, 3, 1)]
		ch = []int{1, 2, 0, 1}[c.first]
	}
	p := &livePar{scale: uint32(c.rate), view: fmt.Sprintf("channels %d", ch)}
	if c.pce {
		p.view += fmt.Sprintf(" tag %d type %d rate %d front %d side %d back %d lfe %d data %d cc %d", c.tag, c.ot, c.ri, len(c.els[0]), len(c.els[1]), len(c.els[2]), c.lfes, c.assoc, c.cc)
	}
	if ch <= 6 || ch == 8 {
		cc := ch
		if ch == 8 {
			cc = 7
		}
		p.codec = &mp4codecs.MPEG4Audio{Config: mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: c.rate, ChannelConfig: uint8(cc), ChannelCount: ch}}
	}
	return p
}

func (c *aacEnc) unit(bool) ([][]byte, []liveFrame) {
	e := c.e
	w := &bitw{}
	pre := e.W(4, 2, 1, 1)
	if c.pce && e.P(1, 2) {
		pre = 0
	}
	for ; pre > 0; pre-- {
		if e.P(1, 2) { // fill element
			n := []int{e.N(15), 14, 15, 16, 14 + e.N(256)}[e.N(5)]
			w.bits(6, 3)
			if n < 15 {
				w.bits(uint64(n), 4)
			} else {
				w.bits(15, 4)
				w.bits(uint64(n-14), 8)
			}
			for ; n > 0; n-- {
				w.bits(uint64(c.r.n(256)), 8)
			}
		} else { // data stream element
			n := []int{e.N(20), 254, 255, 256, e.N(511)}[e.N(5)]
			al := e.P(1, 2)
			w.bits(4, 3)
			w.bits(uint64(e.N(16)), 4)
			w.flag(al)
			if n < 255 {
				w.bits(uint64(n), 8)
			} else {
				w.bits(255, 8)
				w.bits(uint64(n-255), 8)
			}
			for al && w.n%8 != 0 {
				w.flag(false)
			}
			for ; n > 0; n-- {
				w.bits(uint64(c.r.n(256)), 8)
			}
		}
	}
	if c.pce {
		w.bits(5, 3)
		w.bits(uint64(c.tag), 4)
		w.bits(uint64(c.ot), 2)
		w.bits(uint64(c.ri), 4)
		for i := range c.els {
			w.bits(uint64(len(c.els[i])), 4)
		}
		w.bits(uint64(c.lfes), 2)
		w.bits(uint64(c.assoc), 3)
		w.bits(uint64(c.cc), 4)
		for i := 0; i < 3; i++ {
			v := e.P(1, 3)
			w.flag(v)
			if v {
				w.bits(uint64(e.N(8)), []int{4, 4, 3}[i])
			}
		}
		for i := range c.els {
			for k, cpe := range c.els[i] {
				w.flag(cpe)
				w.bits(uint64(k), 4)
			}
		}
		for i := 0; i < c.lfes; i++ {
			w.bits(uint64(i), 4)
		}
		for i := 0; i < c.assoc; i++ {
			w.bits(uint64(i), 4)
		}
		for i := 0; i < c.cc; i++ {
			w.flag(e.P(1, 2))
			w.bits(uint64(i), 4)
		}
		for w.n%8 != 0 {
			w.flag(false)
		}
		n := e.N(10)
		w.bits(uint64(n), 8)
		for ; n > 0; n-- {
			w.bits(uint64(e.N(256)), 8)
		}
		w.bits(uint64(e.N(2)), 3)
		w.bits(0, 4)
	} else {
		w.bits(uint64(c.first), 3)
		w.bits(uint64(e.N(16)), 4)
	}
	for w.n%8 != 0 {
		w.flag(e.P(1, 2))
	}
	b := append(w.b, c.rand(1+e.N(60))...)
	return [][]byte{b}, []liveFrame{{b, 1024}}
}

// G711 (ITU-T G.711)

type g711Enc struct {
	liveBase
	mu bool
	ch int
}

// g711Level is the level of a code, on 16 bits.
func g711Level(mu bool, code byte) int {
	if mu {
		v := ^code
		m := (int(v&15)*2+33)<<(v>>4&7) - 33 // 14 bits
		if v&0x80 != 0 {
			m = -m
		}
		return m * 4
	}
	v := code ^ 0x55
	seg, q := int(v>>4&7), int(v&15)
	m := q*2 + 1
	if seg > 0 {
		m = (m + 32) << (seg - 1)
	}
	if v&0x80 == 0 {
		m = -m
	}
	return m * 8 // 13 bits
}

func (c *g711Enc) params(first bool) *livePar {
	e := c.e
	if first {
		c.mu, c.ch = e.P(1, 2), e.R(1, 2)
	}
	return &livePar{scale: 8000, codec: &mp4codecs.LPCM{BitDepth: 16, ChannelCount: c.ch, SampleRate: 8000}, view: fmt.Sprintf("mu-law %v", c.mu)}
}

func (c *g711Enc) unit(bool) ([][]byte, []liveFrame) {
	n := 1 + c.e.N(160)
	b := c.rand(n * c.ch)
	var out []byte
	for _, x := range b {
		l := g711Level(c.mu, x)
		out = append(out, byte(l>>8), byte(l))
	}
	return [][]byte{b}, []liveFrame{{out, int64(n)}}
}

// FLAC (RFC 9639, 8.2)

type flacEnc struct {
	liveBase
	si *flac.StreamInfo
}

func (c *flacEnc) params(bool) *livePar {
	s := c.e.drawCodec(mFLAC).(*mp4codecs.FLAC).StreamInfo
	c.si = s
	w := &bitw{}
	w.bits(uint64(s.MinBlockSize), 16)
	w.bits(uint64(s.MaxBlockSize), 16)
	w.bits(uint64(s.MinFrameSize), 24)
	w.bits(uint64(s.MaxFrameSize), 24)
	w.bits(uint64(s.SampleRate), 20)
	w.bits(uint64(s.ChannelCount-1), 3)
	w.bits(uint64(s.BitDepth-1), 5)
	w.bits(s.TotalSamples>>4, 32)
	w.bits(s.TotalSamples&15, 4)
	return &livePar{scale: 48000, codec: &mp4codecs.FLAC{StreamInfo: s}, out: append(w.b, s.MD5[:]...), view: fmt.Sprintf("%+v", *s)}
}

func (c *flacEnc) unit(bool) ([][]byte, []liveFrame) {
	b := append([]byte{0xFF, 0xF8}, c.rand(1+c.e.N(80))...)
	return [][]byte{b}, []liveFrame{{b, 4096}}
}

// M-JPEG (ITU-T T.81)

type jpegEnc struct {
	liveBase
	typ, w, h int
	tables    [][64]byte
	dri       int
	split     bool
}

// Huffman tables of T.81 annex K.3.
var (
	jpgDCL  = []byte{0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0}
	jpgDCC  = []byte{0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0}
	jpgDCS  = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	jpgACL  = []byte{0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 125}
	jpgACC  = []byte{0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 119}
	jpgACLS = jpgHex("0102030004110512213141061351610722711432" +
		"8191a1082342b1c11552d1f02433627282090a161718191a25262728292a3435" +
		"363738393a434445464748494a535455565758595a636465666768696a737475" +
		"767778797a838485868788898a92939495969798999aa2a3a4a5a6a7a8a9aab2" +
		"b3b4b5b6b7b8b9bac2c3c4c5c6c7c8c9cad2d3d4d5d6d7d8d9dae1e2e3e4e5e6" +
		"e7e8e9eaf1f2f3f4f5f6f7f8f9fa")
	jpgACCS = jpgHex("0001020311040521310612415107617113223281" +
		"08144291a1b1c109233352f0156272d10a162434e125f11718191a262728292a" +
		"35363738393a434445464748494a535455565758595a636465666768696a7374" +
		"75767778797a82838485868788898a92939495969798999aa2a3a4a5a6a7a8a9" +
		"aab2b3b4b5b6b7b8b9bac2c3c4c5c6c7c8c9cad2d3d4d5d6d7d8d9dae2e3e4e5" +
		"e6e7e8e9eaf2f3f4f5f6f7f8f9fa")
)

func jpgHex(s string) []byte {
	var b []byte
	fmt.Sscanf(s, "%x", &b)
	return b
}

type jpgCode struct {
	v uint64
	n int
}

func jpgCodes(lens, syms []byte) map[byte]jpgCode {
	m := map[byte]jpgCode{}
	v, k := uint64(0), 0
	for i, n := range lens {
		for ; n > 0; n-- {
			m[syms[k]] = jpgCode{v, i + 1}
			v++
			k++
		}
		v <<= 1
	}
	return m
}

var jpgDC = [2]map[byte]jpgCode{jpgCodes(jpgDCL, jpgDCS), jpgCodes(jpgDCC, jpgDCS)}
var jpgAC = [2]map[byte]jpgCode{jpgCodes(jpgACL, jpgACLS), jpgCodes(jpgACC, jpgACCS)}

func (c *jpegEnc) params(bool) *livePar {
	e := c.e
	c.typ = e.N(2)
	c.w, c.h = 16*e.R(1, 4), 8*(1+c.typ)*e.R(1, 4)
	if e.P(1, 8) {
		c.w = 16 * e.R(1, 20)
	}
	c.tables = nil
	for i := 0; i <= e.N(2); i++ {
		var t [64]byte
		for k := range t {
			t[k] = byte(1 + e.N(1+k*2))
		}
		c.tables = append(c.tables, t)
	}
	c.split = e.P(1, 2)
	c.dri = 0
	if e.P(1, 3) {
		c.dri = 1 + e.N(5)
	}
	return &livePar{scale: 90000, codec: &mp4codecs.MJPEG{Width: c.w, Height: c.h}, view: fmt.Sprintf("%dx%d", c.w, c.h)}
}

func (c *jpegEnc) unit(bool) ([][]byte, []liveFrame) {
	e := c.e
	seg := func(m byte, b []byte) []byte {
		return append([]byte{0xFF, m, byte((len(b) + 2) >> 8), byte(len(b) + 2)}, b...)
	}
	out := []byte{0xFF, 0xD8}
	if e.P(1, 2) {
		out = append(out, seg(0xE0, []byte("JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00"))...)
	}
	if e.P(1, 4) {
		out = append(out, seg(0xFE, c.rand(e.N(30)))...)
	}
	var q []byte
	for i, t := range c.tables {
		q = append(append(q, byte(i)), t[:]...)
		if c.split || i == len(c.tables)-1 {
			out = append(out, seg(0xDB, q)...)
			q = nil
		}
	}
	if c.dri > 0 {
		out = append(out, seg(0xDD, []byte{byte(c.dri >> 8), byte(c.dri)})...)
	}
	ct := byte(len(c.tables) - 1)
	samp := []byte{0x21, 0x22}[c.typ]
	out = append(out, seg(0xC0, []byte{8, byte(c.h >> 8), byte(c.h), byte(c.w >> 8), byte(c.w), 3, 1, samp, 0, 2, 0x11, ct, 3, 0x11, ct})...)
	cat := func(a ...[]byte) []byte { return bytes.Join(a, nil) }
	out = append(out, seg(0xC4, cat([]byte{0x00}, jpgDCL, jpgDCS, []byte{0x10}, jpgACL, jpgACLS, []byte{0x01}, jpgDCC, jpgDCS, []byte{0x11}, jpgACC, jpgACCS))...)
	out = append(out, seg(0xDA, []byte{3, 1, 0x00, 2, 0x11, 3, 0x11, 0, 63, 0})...)

	// entropy-coded data
	w := &bitw{}
	flush := func() {
		for w.n%8 != 0 {
			w.flag(true)
		}
		for _, x := range w.b {
			out = append(out, x)
			if x == 0xFF {
				out = append(out, 0)
			}
		}
		*w = bitw{}
	}
	mag := func(v int) (int, uint64) {
		a, n := v, 0
		if a < 0 {
			a = -a
		}
		for ; a>>n != 0; n++ {
		}
		if v < 0 {
			v += 1<<n - 1
		}
		return n, uint64(v)
	}
	var pred [3]int
	block := func(comp int) {
		t := b2i(comp > 0)
		v := c.r.n(60) - 30
		n, m := mag(v - pred[comp])
		pred[comp] = v
		k := jpgDC[t][byte(n)]
		w.bits(k.v, k.n)
		w.bits(m, n)
		for pos := 1; pos < 64 && c.r.n(4) == 0; {
			run := c.r.n(6)
			if pos+run > 63 {
				break
			}
			a := c.r.n(7) - 3
			if a == 0 {
				a = 1
			}
			n, m = mag(a)
			k = jpgAC[t][byte(run<<4|n)]
			w.bits(k.v, k.n)
			w.bits(m, n)
			pos += run + 1
			if pos == 64 {
				return
			}
		}
		k = jpgAC[t][0]
		w.bits(k.v, k.n)
	}
	mcus := c.w / 16 * (c.h / (8 * (1 + c.typ)))
	rst := 0
	for i := 0; i < mcus; i++ {
		if c.dri > 0 && i > 0 && i%c.dri == 0 {
			flush()
			out = append(out, 0xFF, 0xD0|byte(rst&7))
			rst++
			pred = [3]int{}
		}
		for k := 0; k < 2*(1+c.typ); k++ {
			block(0)
		}
		block(1)
		block(2)
	}
	flush()
	return one1(append(out, 0xFF, 0xD9))
}
