package main

import (
	"bytes"
	"fmt"
	"image"
	"image/jpeg"
	"reflect"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/bits"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	mjpeg "github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

func init() {
	register(&Prop{
		ID: "Z02", Quick: 150000, Run: runZ02,
		Rule:   "A run is non-trivial when at least two units were recorded and played.",
		Real:   []string{"codecs: ac3, av1, eac3, flac, g711, h264, h265, jpeg, mpeg1audio, mpeg4audio, mpeg4video, opus, vp8, vp9", "fmp4.Init, Part", "internal/mp4"},
		Stub:   []string{"encoders and cameras (written from the codec specifications)", "network (loss, duplicates, reordering, truncation, bit errors, late join)", "recorder application", "file (crash at any byte)", "player"},
		Assume: []string{"encoders send parameters with every picture decoding can start at", "AV1 sequence headers are sent with key frames only", "a unit is never empty"},
	})
}

// liveRx is what an application makes of the units of a source.
type liveRx struct {
	key    bool
	codec  mp4codecs.Codec
	view   string
	frames []liveFrame
	data   []byte // sample of a recording
	err    error
}

// receive is the application: it uses the library only.
func (e *Env) receive(k int, p *livePar, data [][]byte) (rx *liveRx) {
	rx = &liveRx{}
	for _, d := range data {
		if len(d) == 0 {
			rx.err = fmt.Errorf("empty unit")
			return rx
		}
	}
	if len(data) == 0 {
		rx.err = fmt.Errorf("empty unit")
		return rx
	}
	rx.data = data[0]
	switch k {
	case lVP9:
		rx.key = vp9.IsRandomAccess(data[0])
		var h vp9.Header
		rx.err = h.Unmarshal(data[0])
		if rx.key && rx.err == nil && h.ColorConfig != nil {
			c := &mp4codecs.VP9{Width: h.Width(), Height: h.Height(), Profile: h.Profile, BitDepth: h.ColorConfig.BitDepth,
				ChromaSubsampling: h.ChromaSubsampling(), ColorRange: h.ColorConfig.ColorRange}
			rx.view = fmt.Sprintf("%+v", *c)
			rx.codec = c
		}

	case lVP8:
		rx.key = vp8.IsRandomAccess(data[0])

	case lAV1:
		rx.key = av1.IsRandomAccess2(data)
		if len(data) > 0 && len(data[0]) > 0 {
			k, err := av1.IsRandomAccess(data)
			e.Check(err == nil && (!k || rx.key), "deprecated-differs", "av1.IsRandomAccess: %v, %v", k, err)
		}
		for _, o := range data {
			if av1.OBUType(o[0]>>3&15) == av1.OBUTypeSequenceHeader {
				var h av1.SequenceHeader
				if rx.err = h.Unmarshal(o); rx.err != nil {
					return rx
				}
				rx.view = fmt.Sprintf("%dx%d %s", h.Width()&0xFFFF, h.Height()&0xFFFF, dump(&h))
				rx.codec = &mp4codecs.AV1{SequenceHeader: o}
			}
		}
		rx.data, rx.err = av1.Bitstream(data).Marshal()

	case lH264:
		rx.key = h264.IsRandomAccess(data)
		var sps, pps []byte
		for _, n := range data {
			switch h264.NALUType(n[0] & 31) {
			case h264.NALUTypeSPS:
				sps = n
			case h264.NALUTypePPS:
				pps = n
			}
		}
		if rx.key && sps != nil && pps != nil {
			var s h264.SPS
			if rx.err = s.Unmarshal(sps); rx.err != nil {
				return rx
			}
			rx.view = fmt.Sprintf("%dx%d fps %.6g %s", s.Width(), s.Height(), s.FPS(), dump(&s))
			rx.codec = &mp4codecs.H264{SPS: sps, PPS: pps}
		}
		rx.data, rx.err = h264.AVCC(data).Marshal()

	case lH265:
		rx.key = h265.IsRandomAccess(data)
		var vps, sps, pps []byte
		for _, n := range data {
			switch h265.NALUType(n[0] >> 1 & 63) {
			case h265.NALUType_VPS_NUT:
				vps = n
			case h265.NALUType_SPS_NUT:
				sps = n
			case h265.NALUType_PPS_NUT:
				pps = n
			}
		}
		if rx.key && vps != nil && sps != nil && pps != nil {
			var s h265.SPS
			if rx.err = s.Unmarshal(sps); rx.err != nil {
				return rx
			}
			var q h265.PPS
			if rx.err = q.Unmarshal(pps); rx.err != nil {
				return rx
			}
			rx.view = fmt.Sprintf("%dx%d fps %.6g %s %s", s.Width(), s.Height(), s.FPS(), dumpH265(s), dump(&q))
			rx.codec = &mp4codecs.H265{VPS: vps, SPS: sps, PPS: pps}
		}
		rx.data, rx.err = h264.AVCC(data).Marshal()

	case lMPEG4V:
		i := bytes.Index(data[0], []byte{0, 0, 1, byte(mpeg4video.GroupOfVOPStartCode)})
		rx.key = i >= 0
		if i > 0 {
			cfg := data[0][:i]
			if rx.err = mpeg4video.IsValidConfig(cfg); rx.err == nil {
				rx.codec, rx.view = &mp4codecs.MPEG4Video{Config: cfg}, fmt.Sprintf("%x", cfg)
			}
		}

	case lMJPEG:
		rx.key = true
		var w, h int
		rx.data, w, h, rx.err = e.rtpJPEG(data[0])
		rx.view = fmt.Sprintf("%dx%d", w, h)
		rx.codec = &mp4codecs.MJPEG{Width: w, Height: h}

	case lOpus:
		rx.key = true
		var h opus.IDHeader
		if rx.err = h.Unmarshal(p.out); rx.err != nil {
			return rx
		}
		rx.view = fmt.Sprintf("version %d channels %d family %d table %x skip %d rate %d gain %d", h.Version, h.ChannelCount, h.ChannelMappingFamily,
			h.ChannelMappingTable, h.PreSkip, h.InputSampleRate, h.OutputGain)
		rx.codec = &mp4codecs.Opus{ChannelCount: int(h.ChannelCount)}
		d := opus.PacketDuration2(data[0])
		e.Check(int64(opus.PacketDuration(data[0])) == d*1000000000/48000, "deprecated-differs", "opus.PacketDuration")
		rx.frames = []liveFrame{{data[0], d}}

	case lMP1A:
		rx.key = true
		for b := data[0]; len(b) > 0; {
			var h mpeg1audio.FrameHeader
			if rx.err = h.Unmarshal(b); rx.err != nil {
				return rx
			}
			n := h.FrameLen()
			if n > len(b) {
				rx.err = fmt.Errorf("frame of %d bytes in %d", n, len(b))
				return rx
			}
			ch := 2
			if h.ChannelMode == mpeg1audio.ChannelModeMono {
				ch = 1
			}
			rx.view = fmt.Sprintf("rate %d channels %d", h.SampleRate, ch)
			rx.codec = &mp4codecs.MPEG1Audio{SampleRate: h.SampleRate, ChannelCount: ch}
			rx.frames = append(rx.frames, liveFrame{b[:n], int64(h.SampleCount())})
			b = b[n:]
		}

	case lAC3:
		rx.key = true
		for b := data[0]; len(b) > 0; {
			var h ac3.SyncInfo
			if rx.err = h.Unmarshal(b); rx.err != nil {
				return rx
			}
			n := h.FrameSize()
			var s ac3.BSI
			if rx.err = s.Unmarshal(b[5:]); rx.err != nil {
				return rx
			}
			if n > len(b) {
				rx.err = fmt.Errorf("frame of %d bytes in %d", n, len(b))
				return rx
			}
			c := &mp4codecs.AC3{SampleRate: h.SampleRate(), ChannelCount: s.ChannelCount(), Fscod: h.Fscod, Bsid: s.Bsid, Bsmod: s.Bsmod, //nolint:staticcheck
				Acmod: s.Acmod, LfeOn: s.LfeOn, BitRateCode: h.Frmsizecod >> 1}
			rx.view = fmt.Sprintf("%+v", *c)
			rx.codec = c
			rx.frames = append(rx.frames, liveFrame{b[:n], ac3.SamplesPerFrame})
			b = b[n:]
		}

	case lEAC3:
		rx.key = true
		for b := data[0]; len(b) > 0; {
			var h eac3.SyncInfo
			if rx.err = h.Unmarshal(b); rx.err != nil {
				return rx
			}
			n := h.FrameSize()
			if n > len(b) {
				rx.err = fmt.Errorf("frame of %d bytes in %d", n, len(b))
				return rx
			}
			d := int64(0)
			if h.Strmtyp != 1 && h.Substreamid == 0 {
				d = int64(h.NumBlocks() * 256)
				c := &mp4codecs.EAC3{SampleRate: h.SampleRate(), ChannelCount: h.ChannelCount(), Acmod: h.Acmod, LfeOn: h.Lfeon,
					DataRate: uint16(h.FrameSize() * 8 * h.SampleRate() / (h.NumBlocks() * 256) / 1000 & 0x1FFF)}
				rx.view = fmt.Sprintf("%+v", *c)
				rx.codec = c
			}
			rx.frames = append(rx.frames, liveFrame{b[:n], d})
			b = b[n:]
		}

	case lAAC:
		rx.key = true
		n, err := mpeg4audio.CountChannelsFromRawDataBlock(data[0])
		if err != nil {
			rx.err = err
			return rx
		}
		rx.view = fmt.Sprintf("channels %d", n)
		if q, err := mpeg4audio.ParsePCEFromRawDataBlock(data[0]); err == nil {
			rx.view += fmt.Sprintf(" tag %d type %d rate %d front %d side %d back %d lfe %d data %d cc %d", q.ElementInstanceTag, q.ObjectType, q.SamplingFrequencyIndex,
				q.NumFrontChannelElements, q.NumSideChannelElements, q.NumBackChannelElements, q.NumLFEChannelElements, q.NumAssocDataElements, q.NumValidCCElements)
			if q.ChannelCount != n {
				rx.view += fmt.Sprintf(" or %d channels", q.ChannelCount)
			}
		}
		cc := n
		if n == 8 {
			cc = 7
		}
		if cc < 8 {
			rx.codec = &mp4codecs.MPEG4Audio{Config: mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: int(p.scale), ChannelConfig: uint8(cc), ChannelCount: n}}
		}
		rx.frames = []liveFrame{{data[0], mpeg4audio.SamplesPerAccessUnit}}

	case lG711:
		rx.key = true
		mu := strings.HasSuffix(p.view, "true")
		ch := p.codec.(*mp4codecs.LPCM).ChannelCount
		rx.view, rx.codec = p.view, &mp4codecs.LPCM{BitDepth: 16, ChannelCount: ch, SampleRate: 8000}
		var out []byte
		if mu {
			var s g711.Mulaw
			s.Unmarshal(data[0])
			out = s
			e.Check(bytes.Equal(g711.DecodeMulaw(data[0]), s), "deprecated-differs", "g711.DecodeMulaw")
		} else {
			var s g711.Alaw
			s.Unmarshal(data[0])
			out = s
			e.Check(bytes.Equal(g711.DecodeAlaw(data[0]), s), "deprecated-differs", "g711.DecodeAlaw")
		}
		rx.data = out
		rx.frames = []liveFrame{{out, int64(len(out) / 2 / ch)}}

	case lFLAC:
		rx.key = true
		var s flac.StreamInfo
		if rx.err = s.Unmarshal(p.out); rx.err != nil {
			return rx
		}
		rx.view, rx.codec = fmt.Sprintf("%+v", s), &mp4codecs.FLAC{StreamInfo: &s}
		rx.frames = []liveFrame{{data[0], 4096}}
	}
	return rx
}

// rtpJPEG sends an image as RFC 2435 does: the sender takes it apart, the receiver makes headers again.
func (e *Env) rtpJPEG(b []byte) (out []byte, w, h int, err error) {
	if len(b) < 4 || b[0] != 0xFF || b[1] != mjpeg.MarkerStartOfImage {
		return nil, 0, 0, fmt.Errorf("no start of image")
	}
	b = b[2:]
	var sof *mjpeg.StartOfFrame1
	var dqt mjpeg.DefineQuantizationTable
	var dri mjpeg.DefineRestartInterval
	var data []byte
	for data == nil {
		if len(b) < 4 || b[0] != 0xFF {
			return nil, 0, 0, fmt.Errorf("no marker")
		}
		m, n := b[1], int(b[2])<<8|int(b[3])
		if n < 2 || 2+n > len(b) {
			return nil, 0, 0, fmt.Errorf("truncated segment")
		}
		seg := b[4 : 2+n]
		b = b[2+n:]
		switch m {
		case mjpeg.MarkerStartOfFrame1:
			sof = &mjpeg.StartOfFrame1{}
			err = sof.Unmarshal(seg)
		case mjpeg.MarkerDefineQuantizationTable:
			err = dqt.Unmarshal(seg)
		case mjpeg.MarkerDefineRestartInterval:
			err = dri.Unmarshal(seg)
		case mjpeg.MarkerStartOfScan:
			var s mjpeg.StartOfScan
			err = s.Unmarshal(seg)
			data = b
		}
		if err != nil {
			return nil, 0, 0, err
		}
	}
	if sof == nil || len(dqt.Tables) == 0 || len(data) < 2 {
		return nil, 0, 0, fmt.Errorf("incomplete image")
	}
	data = data[:len(data)-2] // end of image

	// receiver
	out = mjpeg.StartOfImage{}.Marshal(nil)
	var q mjpeg.DefineQuantizationTable
	for i, t := range dqt.Tables {
		q.Tables = append(q.Tables, mjpeg.QuantizationTable{ID: uint8(i), Data: t.Data})
	}
	out = q.Marshal(out)
	out = mjpeg.StartOfFrame1{Type: sof.Type, Width: sof.Width, Height: sof.Height, QuantizationTableCount: uint8(len(q.Tables))}.Marshal(out)
	for i, t := range [][2][]byte{{jpgDCL, jpgDCS}, {jpgACL, jpgACLS}, {jpgDCC, jpgDCS}, {jpgACC, jpgACCS}} {
		out = mjpeg.DefineHuffmanTable{Codes: t[0], Symbols: t[1], TableNumber: i / 2, TableClass: i % 2}.Marshal(out)
	}
	if dri.Interval != 0 {
		out = append(out, 0xFF, mjpeg.MarkerDefineRestartInterval, 0, 4, byte(dri.Interval>>8), byte(dri.Interval))
	}
	out = mjpeg.StartOfScan{}.Marshal(out)
	out = append(append(out, data...), 0xFF, mjpeg.MarkerEndOfImage)
	return out, sof.Width, sof.Height, nil
}

func jpegPixels(b []byte) (string, error) {
	im, err := jpeg.Decode(bytes.NewReader(b))
	if err != nil {
		return "", err
	}
	y, ok := im.(*image.YCbCr)
	if !ok {
		return fmt.Sprintf("%T", im), nil
	}
	return fmt.Sprintf("%v %v %x %x %x", y.Rect, y.SubsampleRatio, hashBytes(y.Y), hashBytes(y.Cb), hashBytes(y.Cr)), nil
}

type liveSent struct {
	u       *liveUnit
	data    [][]byte
	damaged bool
	p       *livePar
}

func cloneUnit(d [][]byte) [][]byte {
	var out [][]byte
	for _, x := range d {
		out = append(out, bytes.Clone(x))
	}
	return out
}

// liveLink delivers units.
func (e *Env) liveLink(us []*liveUnit, ps []*livePar) []*liveSent {
	var out []*liveSent
	for _, u := range us {
		out = append(out, &liveSent{u: u, data: cloneUnit(u.data), p: ps[u.par]})
	}
	if e.P(1, 4) {
		return out
	}
	if e.P(1, 4) && len(out) > 1 {
		out = out[e.N(len(out)):]
		e.Fault("late-join")
	}
	for n := e.N(1 + len(out)/3); n > 0 && len(out) > 0; n-- {
		i := e.N(len(out))
		s := out[i]
		switch e.W(3, 2, 2, 2, 1, 1) {
		case 0:
			out = append(out[:i], out[i+1:]...)
			e.Fault("loss")
		case 1: // truncation of one item
			k := e.N(len(s.data))
			if len(s.data[k]) > 1 {
				cut := e.N(len(s.data[k]))
				if e.P(1, 2) {
					cut = min(cut, e.N(24))
				}
				s.data[k] = s.data[k][:max(1, cut)]
				s.damaged = true
				e.Fault("truncation")
			}
		case 2: // bit errors
			k := e.N(len(s.data))
			for m := 1 + e.N(3); m > 0; m-- {
				j := e.N(len(s.data[k]))
				if e.P(1, 2) {
					j = min(j, e.N(24))
				}
				s.data[k][j] ^= 1 << e.N(8)
			}
			s.damaged = true
			e.Fault("bit-error")
		case 3: // an item of the unit is lost
			if len(s.data) > 1 {
				k := e.N(len(s.data))
				s.data = append(s.data[:k:k], s.data[k+1:]...)
				s.damaged = true
				e.Fault("item-loss")
			}
		case 4:
			out = append(out[:i+1], append([]*liveSent{{u: s.u, data: cloneUnit(s.data), p: s.p, damaged: s.damaged}}, out[i+1:]...)...)
			e.Fault("duplicate")
		case 5:
			if i > 0 {
				out[i], out[i-1] = out[i-1], out[i]
				e.Fault("reorder")
			}
		}
	}
	return out
}

type liveFile struct {
	data    []byte
	torn    bool
	tainted bool // a damaged unit provided the parameters
	par     int
	sent    []*liveSent // of the samples that were written
	durs    []uint32
	frame   []int
	codec   mp4codecs.Codec
	scale   uint32
	sig     string
}

func runZ02(e *Env) {
	k := e.N(lKinds)
	e.zlive(k)
}

func (e *Env) zlive(k int) {
	e.quietHvcc = true
	enc := e.newLiveEnc(k)
	var us []*liveUnit
	var ps []*livePar
	video := k <= lMJPEG
	intra := k >= lMJPEG
	ts := int64(e.N(100000))
	for g := 1 + e.N(3); g > 0; g-- {
		p := enc.params(len(ps) == 0)
		ps = append(ps, p)
		e.liveSets(k, p)
		period := 1 + e.N(8)
		for i, n := 0, 1+e.N(14); i < n; i++ {
			u := &liveUnit{key: intra || i%period == 0, par: len(ps) - 1, ts: ts}
			u.data, u.parts = enc.unit(u.key)
			if video {
				u.dur = int64(e.R(900, 9000))
			}
			for _, f := range u.parts {
				u.dur += f.dur
			}
			ts += u.dur
			us = append(us, u)
		}
	}
	e.Ev("source", liveNames[k], len(us), len(ps), ps[0].view)
	e.sample = fmt.Sprintf("%s: %d units, %d parameter sets", liveNames[k], len(us), len(ps))
	sent := e.liveLink(us, ps)

	var files []*liveFile
	var cur *liveFile
	var buf []*fmp4.Sample
	var bufSent []*liveSent
	var bufFrame []int
	var base uint64
	seq := uint32(0)
	closeFile := func(crash bool) {
		if cur == nil {
			return
		}
		write := func(fn func(w *SimFile) error) {
			f := e.newFile(nil)
			mustNil(e, fn(f), "write-error")
			cur.data = append(cur.data, f.data...)
		}
		n0 := len(cur.data)
		if len(buf) > 0 {
			write(func(w *SimFile) error {
				return (&fmp4.Part{SequenceNumber: seq, Tracks: []*fmp4.PartTrack{{ID: 1, BaseTime: base, Samples: buf}}}).Marshal(w)
			})
			seq++
			if crash {
				cur.data = cur.data[:n0+e.N(len(cur.data)-n0+1)]
				cur.torn = true
				e.Fault("crash")
			}
			for i, s := range bufSent {
				cur.sent = append(cur.sent, s)
				cur.frame = append(cur.frame, bufFrame[i])
				cur.durs = append(cur.durs, buf[i].Duration)
				base += uint64(buf[i].Duration)
			}
		}
		buf, bufSent, bufFrame = nil, nil, nil
		if crash {
			cur = nil
		}
	}
	inOrder := int64(-1)
	for i, s := range sent {
		rx := e.receive(k, s.p, cloneUnit(s.data))
		e.Ev("unit", i, s.damaged, rx.key, rx.view, rx.err, rx.data)
		if s.damaged {
			e.Probe("damaged unit")
			if rx.err != nil {
				e.Probe("damaged unit refused")
			}
		} else {
			e.checkLive(k, s, rx)
		}
		if rx.err != nil {
			continue
		}
		// a recorder: a file per set of parameters, a part per group of pictures
		if e.P(1, 40) {
			closeFile(true)
			e.Fault("recorder-restart")
			continue
		}
		if rx.key && rx.codec == nil && s.p.codec != nil {
			continue // no parameters: wait
		}
		gap := inOrder >= 0 && s.u.ts != inOrder // lost, repeated or reordered
		if len(s.u.parts) > 0 {
			inOrder = s.u.ts
			for _, f := range rx.frames {
				inOrder += f.dur
			}
		} else {
			inOrder = s.u.ts + s.u.dur
		}
		if k == lVP8 || s.p.codec == nil {
			continue
		}
		if rx.key {
			sig := rx.view
			if k != lFLAC {
				sig += fmt.Sprintf(" %+v", rx.codec)
			}
			closeFile(false)
			if cur == nil || gap || sig != cur.sig {
				cur = &liveFile{par: s.u.par, tainted: s.damaged, codec: rx.codec, scale: s.p.scale}
				files = append(files, cur)
				base = 0
				in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: s.p.scale, Codec: rx.codec}}}
				f := e.newFile(nil)
				err := in.Marshal(f)
				if err != nil {
					e.Check(s.damaged, "init-refused", "%s: parameters %s of an intact stream are refused: %v", liveNames[k], rx.view, err)
					files, cur = files[:len(files)-1], nil
					continue
				}
				cur.data = f.data
				cur.sig = sig
			}
		} else if cur == nil || gap {
			if gap {
				closeFile(false)
				cur = nil
			}
			continue
		}
		fr := rx.frames
		if fr == nil {
			fr = []liveFrame{{rx.data, s.u.dur}}
		}
		for i, f := range fr {
			bufFrame = append(bufFrame, i)
			buf = append(buf, &fmp4.Sample{Duration: uint32(f.dur), IsNonSyncSample: !rx.key, Payload: f.payload})
			bufSent = append(bufSent, s)
		}
	}
	closeFile(e.P(1, 4))
	e.playLive(k, files, ps)
}

// liveSets receives parameters that were cut or damaged on the way.
func (e *Env) liveSets(k int, p *livePar) {
	for _, t := range p.sets {
		if !e.P(1, 4) {
			continue
		}
		for i := e.R(1, 6); i > 0; i-- {
			e.Fault("set-cut")
			b := e.cutRBSP(t.head, t.rbsp, t.need)
			err := e.readSet(k, t.name, b)
			e.Check(err != nil, "cut-set-accepted", "%s: a %s that ends before its parameters do is accepted: %x", liveNames[k], t.name, clipB(b))
		}
	}
	if e.P(1, 3) {
		e.exoticSet(k)
	}
	if e.P(1, 4) {
		e.wildSet(k)
	}
	if e.P(1, 8) {
		e.sideData()
	}
	switch k {
	case lOpus, lFLAC, lMPEG4V:
		if !e.P(1, 3) {
			return
		}
		b, least := append([]byte(nil), p.out...), 34
		switch k {
		case lOpus:
			least = 19
		case lMPEG4V:
			b = append([]byte(nil), p.codec.(*mp4codecs.MPEG4Video).Config...)
			for least = 0; bytes.Compare(b[least:least+3], []byte{0, 0, 1}) != 0 || b[least+3]>>4 != 2; least++ {
			}
			least += 4
		}
		cut := e.P(1, 2)
		if cut {
			e.Fault("description-cut")
			b = b[:e.N(len(b)+1)]
		} else {
			e.Fault("description-bit-error")
			for i := 0; i <= e.N(3); i++ {
				b[e.N(len(b))] ^= 1 << uint(e.N(8))
			}
		}
		var c mp4codecs.Codec
		var err error
		switch k {
		case lOpus:
			var h opus.IDHeader
			err = h.Unmarshal(b)
			c = &mp4codecs.Opus{ChannelCount: int(h.ChannelCount)}
		case lFLAC:
			s := &flac.StreamInfo{}
			err = s.Unmarshal(b)
			c = &mp4codecs.FLAC{StreamInfo: s}
		case lMPEG4V:
			err = mpeg4video.IsValidConfig(b)
			c = &mp4codecs.MPEG4Video{Config: b}
		}
		e.Check(!cut || len(b) >= least || err != nil, "cut-description-accepted", "%s: %d bytes of a description are accepted: %x", liveNames[k], len(b), clipB(b))
		if err == nil {
			e.Probe("damaged description read")
			in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: p.scale, Codec: c}}}
			e.Ev("init", in.Marshal(e.newFile(nil)))
		}
	case lG711:
		e.talkBack(strings.HasSuffix(p.view, "true"))
	}
}

// wildSet is a parameter set in which one value is extreme: it is refused, or what is derived from it
// and the recording that announces it are made without a crash, at a cost that is proportional to its size.
func (e *Env) wildSet(k int) {
	var c mp4codecs.Codec
	var n int
	w := wild{1 + e.N(40), []uint32{1<<32 - 1, 1<<32 - 2, 1<<32 - 4, 1<<32 - 5, 1 << 31, 1<<31 - 1, 1 << 30, 65535, 65536, 255, 64, 16, 0, uint32(e.U(1 << 32))}[e.N(14)]}
	st0 := e.Steps()
	switch k {
	case lH264:
		p := e.genH264P()
		p.wild = w
		b := p.nalu()
		n = len(b)
		var s h264.SPS
		if s.Unmarshal(b) == nil {
			e.Ev("wild", s.Width(), s.Height(), s.FPS())
			e.Probe("wild parameters read")
		}
		c = &mp4codecs.H264{SPS: b, PPS: []byte{0x68, 0xee, 0x3c, 0x80}}
	case lH265:
		p := e.genH265P()
		if e.P(1, 4) {
			p.wildPPS = w
		} else {
			p.wild = w
		}
		b := p.spsNALU()
		n = len(b)
		var s h265.SPS
		if s.Unmarshal(b) == nil {
			e.Ev("wild", s.Width(), s.Height(), s.FPS())
			e.Probe("wild parameters read")
		}
		var q h265.PPS
		e.Ev("wild", q.Unmarshal(p.ppsNALU()))
		r := e.Sub()
		c = &mp4codecs.H265{VPS: p.vpsNALU(r), SPS: b, PPS: p.ppsNALU()}
	default:
		return
	}
	e.Fault("wild-parameters")
	in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 90000, Codec: c}}}
	e.Ev("init", in.Marshal(e.newFile(nil)))
	steps := e.Steps() - st0
	e.Check(steps < 100_000+2000*uint64(n), "steps", "%s: %d steps for a parameter set of %d bytes", liveNames[k], steps, n)
}

// sideData is data of the application that travels within a unit: fields of bits, written and read
// with the bit functions of the library, protected from looking like start codes, and cut by the link.
func (e *Env) sideData() {
	type field struct {
		kind int // 0 bits, 1 flag, 2 unsigned Exp-Golomb, 3 signed
		v    uint64
		n    int
	}
	var fs []field
	var ends []int
	w := &bitw{}
	for i := 1 + e.N(24); i > 0; i-- {
		f := field{kind: e.W(4, 2, 2, 2)}
		switch f.kind {
		case 0:
			f.n = []int{e.N(65), 1 + e.N(9), 8 * (1 + e.N(8)), 0}[e.W(4, 4, 2, 1)]
			if f.n > 0 && !e.P(1, 3) {
				f.v = e.U(1<<63) << 1 >> (64 - uint(f.n))
			}
			w.bits(f.v, f.n)
		case 1:
			f.v = uint64(e.N(2))
			w.bits(f.v, 1)
		case 2:
			f.v = []uint64{uint64(e.N(10)), e.U(1<<32 - 1), 1<<32 - 2, uint64(e.N(70000))}[e.N(4)]
			w.ue(uint32(f.v))
		case 3:
			f.v = []uint64{uint64(e.N(10)), e.U(1<<32 - 1), 1<<32 - 2, uint64(e.N(70000))}[e.N(4)]
			w.ue(uint32(f.v))
		}
		fs = append(fs, f)
		ends = append(ends, w.n)
	}
	// written by the library
	golomb := false
	for _, f := range fs {
		golomb = golomb || f.kind > 1
	}
	if !golomb {
		buf := make([]byte, len(w.b))
		pos := 0
		for _, f := range fs {
			if f.kind == 1 {
				bits.WriteFlagUnsafe(buf, &pos, f.v == 1)
			} else if f.n > 0 {
				bits.WriteBitsUnsafe(buf, &pos, f.v, f.n)
			}
		}
		e.Check(pos == w.n && bytes.Equal(buf, w.b), "bits-written", "%v: %d bits %x written instead of %d bits %x", fs, pos, buf, w.n, w.b)
	}
	// protected and restored
	b := h264.EmulationPreventionRemove(epb(w.b))
	e.Check(bytes.Equal(b, w.b), "emulation-prevention", "%x is read as %x", w.b, b)
	// read, until the end of what arrives
	if e.P(1, 2) && len(b) > 0 {
		b = b[:e.N(len(b))]
		e.Fault("side-data-cut")
	}
	pos := 0
	for i, f := range fs {
		at := pos
		var v uint64
		var err error
		switch f.kind {
		case 0:
			v, err = bits.ReadBits(b, &pos, f.n)
		case 1:
			var x bool
			x, err = bits.ReadFlag(b, &pos)
			v = uint64(b2i(x))
		case 2:
			var x uint32
			x, err = bits.ReadGolombUnsigned(b, &pos)
			v = uint64(x)
		case 3:
			var x int32
			x, err = bits.ReadGolombSigned(b, &pos)
			k := int64(f.v+1) / 2
			if f.v%2 == 0 {
				k = -k
			}
			if k == 1<<31 { // cannot be represented
				f.v = v
			} else {
				f.v, v = uint64(k), uint64(int64(x))
			}
		}
		if ends[i] > 8*len(b) {
			e.Check(err != nil, "cut-data-accepted", "field %d of %v, that ends at bit %d, is read from %d bytes", i, fs, ends[i], len(b))
			return
		}
		e.Check(err == nil && v == f.v && pos == ends[i], "bits-read", "field %d of %v at bit %d of %x is read as %d, up to bit %d (%v)", i, fs, at, b, v, pos, err)
	}
}

func (e *Env) readSet(k int, name string, b []byte) error {
	switch {
	case k == lAV1:
		return (&av1.SequenceHeader{}).Unmarshal(b)
	case k == lH264:
		return (&h264.SPS{}).Unmarshal(b)
	case name == "PPS":
		return (&h265.PPS{}).Unmarshal(b)
	}
	return (&h265.SPS{}).Unmarshal(b)
}

// talkBack sends sound in the other direction.
func (e *Env) talkBack(mu bool) {
	n := e.N(40)
	pcm := make([]byte, 2*n)
	for i := 0; i < n; i++ {
		v := e.N(65536)
		if e.P(1, 2) {
			v = (e.N(600) - 300) & 0xFFFF
		}
		pcm[2*i], pcm[2*i+1] = byte(v>>8), byte(v)
	}
	enc := func(b []byte) ([]byte, error) {
		if mu {
			return g711.Mulaw(b).Marshal()
		}
		return g711.Alaw(b).Marshal()
	}
	if e.P(1, 8) {
		_, err := enc(pcm[:max(0, len(pcm)-1)])
		e.Check(err != nil || n == 0, "odd-samples", "%d bytes of 16-bit samples are accepted", len(pcm)-1)
		return
	}
	b, err := enc(pcm)
	mustNil(e, err, "g711-refused")
	e.Check(len(b) == n, "g711-samples", "%d samples are encoded into %d bytes", n, len(b))
	for i, c := range b {
		v := int(int16(uint16(pcm[2*i])<<8 | uint16(pcm[2*i+1])))
		best := 1 << 30
		for x := 0; x < 256; x++ {
			best = min(best, abs(g711Level(mu, byte(x))-v))
		}
		d := abs(g711Level(mu, c) - v)
		e.Check(d <= best+8, "g711-level", "mu %v: sample %d is encoded as %#02x, %d: off by %d instead of %d", mu, v, c, g711Level(mu, c), d, best)
	}
}

// checkLive compares what was made of an intact unit with what was sent.
func (e *Env) checkLive(k int, s *liveSent, rx *liveRx) {
	u, n := s.u, liveNames[k]
	e.Check(rx.err == nil, "refused", "%s: an intact unit is refused: %v", n, rx.err)
	e.Check(rx.key == u.key, "cut-point", "%s: decoding can start here: %v, reported: %v: %x", n, u.key, rx.key, clipB(u.data[0]))
	if k == lMJPEG {
		want, err := jpegPixels(u.data[0])
		mustNil(e, err, "model")
		got, err := jpegPixels(rx.data)
		e.Check(err == nil, "picture", "the image cannot be decoded after transmission: %v", err)
		e.Check(got == want, "picture", "the image differs after transmission: %s, was %s", got, want)
	}
	if u.key && k != lVP8 {
		got, want := rx.view, s.p.view
		if k == lAAC && !strings.Contains(got, " tag ") && strings.Contains(want, " tag ") {
			want = want[:strings.Index(want, " tag ")] // other elements come before
		}
		if k == lOpus && got != want {
			e.opusKnown(got, want)
			got = want
		}
		e.sameView(n, got, want)
	}
	if u.parts != nil {
		e.Check(len(rx.frames) == len(u.parts), "frames", "%s: %d frames were sent, %d found", n, len(u.parts), len(rx.frames))
		for i, f := range u.parts {
			g := rx.frames[i]
			e.Check(bytes.Equal(f.payload, g.payload), "frame-differs", "%s: frame %d: %d bytes, found %d", n, i, len(f.payload), len(g.payload))
			e.Check(f.dur == g.dur, "duration", "%s: frame %d lasts %d samples, reported %d", n, i, f.dur, g.dur)
		}
	}
}

// opusKnown reports the known finding: integers of the identification header are read as big endian.
func (e *Env) opusKnown(got, want string) {
	var a, b [6]int
	var ta, tb string
	sc := func(s string, v *[6]int, t *string) {
		s = strings.Replace(s, "table  ", "table - ", 1)
		fmt.Sscanf(s, "version %d channels %d family %d table %s skip %d rate %d gain %d", &v[0], &v[1], &v[2], t, &v[3], &v[4], &v[5])
	}
	sc(got, &a, &ta)
	sc(want, &b, &tb)
	r16 := func(v int) int { return v>>8 | v&255<<8 }
	r32 := func(v int) int { return r16(v>>16) | r16(v&0xFFFF)<<16 }
	b[3], b[4], b[5] = r16(b[3]), r32(b[4]), r16(b[5])
	e.Check(a == b && ta == tb, "parameters", "opus: the parameters are %s, reported are %s", want, got)
	if e.P(1, 40) {
		e.Fail("opus-id-header", "OpusHead says %s, read as big endian: %s", want, got)
	}
}

// sample is what a recording has to hold of a unit.
func (u *liveUnit) sample(k, frame int) []byte {
	var out []byte
	switch k {
	case lH264, lH265:
		for _, n := range u.data {
			out = append(append(out, byte(len(n)>>24), byte(len(n)>>16), byte(len(n)>>8), byte(len(n))), n...)
		}
	case lAV1:
		for _, o := range u.data {
			h := 1
			if o[0]&4 != 0 {
				h = 2
			}
			out = append(append(out, o[0]|2), o[1:h]...)
			n := len(o) - h
			for n >= 128 {
				out = append(out, byte(n&127|128))
				n >>= 7
			}
			out = append(append(out, byte(n)), o[h:]...)
		}
	default:
		if u.parts != nil {
			return u.parts[frame].payload
		}
		return u.data[0]
	}
	return out
}

// playLive plays the recordings.
func (e *Env) playLive(k int, files []*liveFile, ps []*livePar) {
	total := 0
	for i, f := range files {
		var tail []byte
		tp := &tail
		if !f.torn {
			tp = nil
		}
		var h *playHeader
		var got []string
		msg := strictly(func() {
			h, got = playFMP4(f.data, 0, tp)
			if !f.tainted && h != nil {
				c := ps[f.par].codec
				e.Check(len(h.tracks) == 1, "tracks-differ", "%d", len(h.tracks))
				def := uint32(128825)
				if c.IsVideo() {
					def = 1000000
				}
				e.checkPlayedTrack(h.tracks[0], c, e.expectTrack(1, ps[f.par].scale, c, def, def))
			}
		})
		if f.tainted {
			continue // whatever was said
		}
		e.Check(msg == "", "not-conformant", "%s: file %d: %s", liveNames[k], i, msg)
		// samples
		n := 0
		unsure := false // a damaged unit may have carried other parameters
		for pi, p := range got {
			first := true
			for _, w := range strings.Fields(p) {
				if strings.Count(w, "/") < 3 {
					continue
				}
				if n >= len(f.sent) {
					e.Fail("sample-count", "%s: file %d: more than %d samples", liveNames[k], i, len(f.sent))
				}
				s := f.sent[n]
				var dur, off int64
				var sync string
				q := strings.Split(w, "/")
				fmt.Sscan(q[0], &dur)
				fmt.Sscan(q[1], &off)
				sync = q[2]
				if !s.damaged {
					a, b := ps[s.u.par], ps[f.par]
					if s.u.key {
						unsure = false
					}
					e.Check(unsure || a.scale == b.scale && reflect.DeepEqual(a.codec, b.codec), "parameters-changed", "%s: file %d: a unit with other parameters is in the file", liveNames[k], i)
					e.Check(sync == fmt.Sprint(s.u.key), "sync-flag", "%s: file %d part %d: sync %s, decoding can start here: %v", liveNames[k], i, pi, sync, s.u.key)
					if k != lMJPEG {
						x := s.u.sample(k, f.frame[n])
						e.Check(fmt.Sprintf("%x", hashBytes(x)) == q[3], "sample-differs", "%s: sample %d differs from what was sent", liveNames[k], n)
					}
					if first {
						e.Check(s.u.key, "starts-late", "%s: file %d part %d starts with a unit decoding cannot start at", liveNames[k], i, pi)
					}
				}
				e.Check(dur == int64(f.durs[n]) && off == 0, "sample-time", "%s: sample %d: duration %d offset %d, written %d", liveNames[k], n, dur, off, f.durs[n])
				unsure = unsure || s.damaged
				first = false
				n++
			}
		}
		e.Check(f.torn || n == len(f.sent), "sample-count", "%s: file %d: %d samples, %d written", liveNames[k], i, n, len(f.sent))
		total += n
	}
	e.Ev("played", total)
	if total > 1 || k == lVP8 {
		e.NonTrivial()
	}
}
