package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/asticode/go-astits"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	tscodecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

// MPEG-TS workload: a set of tracks and a history of units.

const ts33 = int64(1)<<33 - 1

const (
	kH264 = iota
	kH265
	kMPEG4V
	kMPEG1V
	kOpus
	kAAC
	kLATM
	kMP1A
	kAC3
	kEAC3
	kKLVSync
	kKLVAsync
	kDVB
	kinds
)

var kindNames = [...]string{"h264", "h265", "mpeg4video", "mpeg1video", "opus", "aac", "latm", "mpeg1audio", "ac3", "eac3", "klv-sync", "klv-async", "dvbsub"}

type tsTrack struct {
	kind int
	tr   *mpegts.Track
	want tscodecs.Codec // what the reader must detect
	lang string
	hdr  []byte // codec parameters in use
	step int64
	next int64
	nun  int
}

type tsUnit struct {
	track    int
	pts, dts int64 // as given to the writer
	data     [][]byte
	// wire position
	off0, off1 int
}

type tsCase struct {
	e      *Env
	tracks []*tsTrack
	units  []*tsUnit
	noSync bool // payloads and headers avoid 0x47
	// overlong: non-video units whose PES does not fit a 16 bit length
	overlong bool
	wire     []byte
	oversize bool         // units that do not fit are attempted
	klvSeq   map[int]byte // next number of the metadata cells of a track
}

type tsOpts struct {
	maxTracks int
	maxUnits  int
	small     bool
	noSync    bool
	kinds     []int
	noNeeds   bool // no codec that needs detection from the payload
	noHuge    bool
	lsf       bool // MPEG-2 audio too: the writer of the library refuses it
}

func needsDetection(k int) bool { return k == kAAC || k == kAC3 || k == kEAC3 }
func isVideoKind(k int) bool    { return k <= kMPEG1V }

// payload bytes with a drawn texture
func (c *tsCase) bytes(n int, tex int, r *rng) []byte {
	b := make([]byte, n)
	r.fill(b)
	switch tex {
	case 1: // start-code look-alikes and sync bytes
		al := []byte{0, 0, 0, 1, 0x47, 0xff, 0x0b, 0x77, 3}
		for i := range b {
			b[i] = al[int(b[i])%len(al)]
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] = 0
		}
	}
	if c.noSync {
		for i := range b {
			if b[i] == 0x47 {
				b[i] = 0x46
			}
		}
	}
	return b
}

// safe makes bytes legal inside a NALU.
func naluSafe(b []byte) {
	z := 0
	for i := range b {
		if z >= 2 && b[i] <= 3 {
			b[i] |= 0x80
		}
		if b[i] == 0 {
			z++
		} else {
			z = 0
		}
	}
	if len(b) > 0 && b[len(b)-1] == 0 {
		b[len(b)-1] = 0x80
	}
}

func (c *tsCase) size(o tsOpts) int {
	e := c.e
	if o.small {
		switch e.W(4, 3, 1) {
		case 0:
			return 1 + e.N(150)
		case 1:
			return 160 + e.N(50)
		default:
			return 1 + e.N(1200)
		}
	}
	switch e.W(8, 6, 4, 2, 1) {
	case 0:
		return 1 + e.N(150)
	case 1: // around packet boundaries
		return max(1, 184*(1+e.N(5))-30+e.N(40))
	case 2:
		return 1 + e.N(6000)
	case 3: // around the PES length switch
		if o.noHuge {
			return 1 + e.N(30000)
		}
		return 65535 - 40 + e.N(60)
	default:
		if o.noHuge {
			return 1 + e.N(30000)
		}
		return 60000 + e.N(140000)
	}
}

var aacRates = []int{48000, 44100, 32000, 96000, 88200, 64000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func (c *tsCase) addTrack(k int) *tsTrack {
	e := c.e
	t := &tsTrack{kind: k, step: int64(1 + e.N(9000))}
	tr := &mpegts.Track{}
	if e.P(1, 3) {
		l := []string{"eng", "ita", "fra", "zzz", "und"}
		t.lang = l[e.N(len(l))]
		tr.Language = t.lang
	}
	switch k {
	case kH264:
		tr.Codec = &tscodecs.H264{}
		t.want = &tscodecs.H264{}
	case kH265:
		tr.Codec = &tscodecs.H265{}
		t.want = &tscodecs.H265{}
	case kMPEG4V:
		tr.Codec = &tscodecs.MPEG4Video{}
		t.want = &tscodecs.MPEG4Video{}
	case kMPEG1V:
		tr.Codec = &tscodecs.MPEG1Video{}
		t.want = &tscodecs.MPEG1Video{}
	case kOpus:
		switch e.W(3, 2, 2) {
		case 0:
			n := 1 + e.N(8)
			tr.Codec = &tscodecs.Opus{ChannelCount: n}
			t.want = &tscodecs.Opus{ChannelCount: n, Desc: &substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(n)}}
		case 1:
			code := []uint8{0, 0x80, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88}[e.N(9)]
			d := &substructs.OpusAudioDescriptor{ChannelConfigCode: code}
			n := map[uint8]int{0: 2, 0x80: 2, 0x82: 1, 0x83: 2, 0x84: 3, 0x85: 4, 0x86: 5, 0x87: 6, 0x88: 7}[code]
			tr.Codec = &tscodecs.Opus{Desc: d, ChannelCount: n * e.N(2)}
			d2 := *d
			t.want = &tscodecs.Opus{Desc: &d2, ChannelCount: n}
		default:
			d := &substructs.OpusAudioDescriptor{ChannelConfigCode: 0x81}
			if e.P(1, 2) {
				d.ExplicitChannelCount = 1 + e.N(2)
			} else {
				d.MappingFamily = 1 + e.N(255)
				d.ExplicitChannelCount = 1 + e.N(16)
				if d.ExplicitChannelCount == 1 {
					d.StreamCount = 1
					d.ChannelMapping = []byte{0}
				} else {
					d.StreamCount = 1 + e.N(d.ExplicitChannelCount)
					d.CoupledStreamCount = e.N(d.StreamCount + 1)
					d.ChannelMapping = make([]byte, d.ExplicitChannelCount)
					for i := range d.ChannelMapping {
						d.ChannelMapping[i] = byte(e.N(d.StreamCount + d.CoupledStreamCount))
					}
				}
			}
			tr.Codec = &tscodecs.Opus{Desc: d, ChannelCount: d.ExplicitChannelCount * e.N(2)}
			d2 := *d
			d2.ChannelMapping = bytes.Clone(d.ChannelMapping)
			t.want = &tscodecs.Opus{Desc: &d2, ChannelCount: d.ExplicitChannelCount}
		}
	case kAAC:
		cfg := mpeg4audio.AudioSpecificConfig{
			Type:          mpeg4audio.ObjectType([]int{2, 1, 3, 4}[e.N(4)]),
			SampleRate:    aacRates[e.N(len(aacRates))],
			ChannelConfig: uint8([]int{2, 1, 3, 4, 5, 6, 7, 0}[e.N(8)]),
		}
		if cfg.ChannelConfig == 7 {
			cfg.ChannelCount = 8
		} else {
			cfg.ChannelCount = int(cfg.ChannelConfig)
		}
		tr.Codec = &tscodecs.MPEG4Audio{Config: e.halfASC(cfg)}
		t.want = &tscodecs.MPEG4Audio{Config: cfg}
	case kLATM:
		tr.Codec = &tscodecs.MPEG4AudioLATM{}
		t.want = &tscodecs.MPEG4AudioLATM{}
	case kMP1A:
		tr.Codec = &tscodecs.MPEG1Audio{}
		t.want = &tscodecs.MPEG1Audio{}
	case kAC3:
		fscod := e.N(3)
		frm := e.N(38)
		acmod := e.N(8)
		lfe := e.N(2)
		n := []int{2, 1, 2, 3, 3, 4, 4, 5}[acmod] + lfe
		sr := []int{48000, 44100, 32000}[fscod]
		// acmod(3) [cmixlev(2)] [surmixlev(2)] [dsurmod(2)] lfeon(1)
		b6 := acmod << 5
		sh := 5
		if acmod&1 != 0 && acmod != 1 {
			sh -= 2
		}
		if acmod&4 != 0 {
			sh -= 2
		}
		if acmod == 2 {
			sh -= 2
		}
		sh--
		b6 |= lfe << sh
		t.hdr = []byte{0x0b, 0x77, 0, 0, byte(fscod<<6 | frm), byte((8-e.N(2))<<3 | e.N(8)), byte(b6)}
		tr.Codec = &tscodecs.AC3{SampleRate: sr, ChannelCount: n}
		t.want = &tscodecs.AC3{SampleRate: sr, ChannelCount: n}
	case kEAC3:
		acmod := e.N(8)
		lfe := e.N(2)
		n := []int{2, 1, 2, 3, 3, 4, 4, 5}[acmod] + lfe
		fs := e.N(6)
		var sr int
		var b4 int
		if fs < 3 {
			sr = []int{48000, 44100, 32000}[fs]
			b4 = fs<<6 | e.N(4)<<4
		} else {
			sr = []int{24000, 22050, 16000}[fs-3]
			b4 = 3<<6 | (fs-3)<<4
		}
		b4 |= acmod<<1 | lfe
		t.hdr = []byte{0x0b, 0x77, byte(e.N(3)<<6 | e.N(4)), byte(e.N(256)), byte(b4), 16 << 3}
		tr.Codec = &tscodecs.EAC3{SampleRate: sr, ChannelCount: n}
		t.want = &tscodecs.EAC3{SampleRate: sr, ChannelCount: n}
	case kKLVSync:
		tr.Codec = &tscodecs.KLV{Synchronous: true}
		t.want = &tscodecs.KLV{Synchronous: true}
	case kKLVAsync:
		tr.Codec = &tscodecs.KLV{}
		t.want = &tscodecs.KLV{}
	case kDVB:
		n := 1 + e.N(2)
		var it, it2 []*astits.DescriptorSubtitlingItem
		for i := range n {
			x := &astits.DescriptorSubtitlingItem{
				Language: []byte("eng"), Type: uint8(0x10 + i), CompositionPageID: uint16(e.N(65536)), AncillaryPageID: uint16(e.N(65536)),
			}
			y := *x
			y.Language = []byte("eng")
			it = append(it, x)
			it2 = append(it2, &y)
		}
		tr.Codec = &tscodecs.DVBSubtitle{Items: it}
		t.want = &tscodecs.DVBSubtitle{Items: it2}
	}
	t.tr = tr
	c.tracks = append(c.tracks, t)
	return t
}

// mp3FrameLen is the length of a frame of ISO 11172-3, or 13818-3 when lsf.
func mp3FrameLen(lsf bool, layer, bi, si, pad int) int {
	br2 := []int{32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384}
	br3 := []int{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320}
	br := br2
	if layer == 3 {
		br = br3
	}
	sr := []int{44100, 48000, 32000}[si]
	if lsf {
		br = []int{8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160}
		sr /= 2
		if layer == 3 {
			return 72*br[bi]*1000/sr + pad
		}
	}
	return 144*br[bi]*1000/sr + pad
}

// unitData draws the payload of one unit.
func (c *tsCase) unitData(t *tsTrack, o tsOpts, r *rng) [][]byte {
	e := c.e
	tex := e.W(5, 3, 1, 1)
	switch t.kind {
	case kH264, kH265:
		n := 1 + e.W(4, 3, 2, 1)
		if e.P(1, 30) {
			n = 48 + e.N(2) // the limit is 50 including the delimiter
		}
		if o.small {
			n = min(n, 4)
		}
		ra := e.P(1, 4)
		var au [][]byte
		for i := range n {
			sz := c.size(o)
			if n > 5 {
				sz = 1 + e.N(40)
			}
			if t.kind == kH264 {
				typ := byte(1)
				switch e.W(4, 1, 1, 1) {
				case 1:
					typ = 6
				case 2:
					typ = 7
				case 3:
					typ = 8
				}
				if ra && i == n-1 {
					typ = 5
				}
				b := c.bytes(1+sz, tex, r)
				b[0] = byte(e.N(4))<<5 | typ
				if c.noSync && b[0] == 0x47 {
					b[0] = 0x27
				}
				naluSafe(b)
				if i > 0 && b[0]&0x1f == 9 {
					b[0] = 1
				}
				au = append(au, b)
			} else {
				typ := byte(1)
				switch e.W(4, 1, 1, 1) {
				case 1:
					typ = 32
				case 2:
					typ = 33
				case 3:
					typ = 39
				}
				if ra && i == n-1 {
					typ = []byte{19, 20, 21}[e.N(3)]
				}
				b := c.bytes(2+sz, tex, r)
				b[0] = typ << 1
				b[1] = 1
				naluSafe(b)
				au = append(au, b)
			}
		}
		return au

	case kMPEG4V:
		b := c.bytes(4+c.size(o), tex, r)
		copy(b, []byte{0, 0, 1, 0xB6})
		if e.P(1, 4) {
			b[3] = 0xB3
		}
		return [][]byte{b}

	case kMPEG1V:
		b := c.bytes(4+c.size(o), tex, r)
		copy(b, []byte{0, 0, 1, 0})
		if e.P(1, 4) {
			b[3] = 0xB8
		}
		return [][]byte{b}

	case kOpus:
		n := 1 + e.W(6, 2, 1, 1)
		var p [][]byte
		for range n {
			var sz int
			switch e.W(4, 2, 1) {
			case 0:
				sz = 1 + e.N(250)
			case 1:
				sz = max(1, 255*(1+e.N(4))-2+e.N(5))
			default:
				sz = 1 + e.N(1275)
			}
			p = append(p, c.bytes(sz, tex, r))
		}
		return p

	case kAAC:
		n := 1 + e.W(6, 2, 1, 1)
		var p [][]byte
		for range n {
			sz := 1 + e.N(300)
			if e.P(1, 6) {
				sz = 1 + e.N(5120)
			}
			p = append(p, c.bytes(sz, tex, r))
		}
		return p

	case kLATM:
		n := 1 + e.W(6, 2, 1, 1)
		var p [][]byte
		for range n {
			sz := 1 + e.N(300)
			if e.P(1, 6) {
				sz = 1 + e.N(0x1FFF)
			}
			p = append(p, c.bytes(sz, tex, r))
		}
		return p

	case kMP1A:
		n := 1 + e.W(6, 2, 1)
		var p [][]byte
		for range n {
			layer := 3 - e.N(2)
			bi := e.N(14)
			si := e.N(3)
			pad := e.N(2)
			lsf := o.lsf && e.P(1, 3)
			b := c.bytes(mp3FrameLen(lsf, layer, bi, si, pad), tex, r)
			b[0] = 0xff
			b[1] = 0xf0 | 8 | byte(4-layer)<<1 | byte(e.N(2))
			if lsf {
				b[1] &^= 8
			}
			b[2] = byte(bi+1)<<4 | byte(si)<<2 | byte(pad)<<1
			b[3] = byte(e.N(4)) << 6
			p = append(p, b)
		}
		return p

	case kAC3:
		fs := t.hdr[4] >> 6
		frm := int(t.hdr[4] & 0x3f)
		b := c.bytes(ac3FrameSize(int(fs), frm), tex, r)
		copy(b, t.hdr)
		return [][]byte{b}

	case kEAC3:
		b := c.bytes(8+e.N(4000), tex, r)
		copy(b, t.hdr)
		return [][]byte{b}

	case kKLVSync:
		sz := c.size(o)
		if e.P(1, 12) && !o.small && !o.noHuge {
			sz = 65535*(1+e.N(3)) - 3 + e.N(7)
		}
		return [][]byte{c.bytes(sz, tex, r)}

	default:
		return [][]byte{c.bytes(c.size(o), tex, r)}
	}
}

// frame size table of AC-3 (A/52 table 5.18), in bytes: independent of the library's.
func ac3FrameSize(fscod, frmsizecod int) int {
	kbps := []int{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 576, 640}[frmsizecod/2]
	switch fscod {
	case 0:
		return kbps * 4
	case 2:
		return kbps * 6
	default:
		w := kbps * 1000 * 1536 / 44100 / 16
		if frmsizecod&1 == 1 {
			w++
		}
		return w * 2
	}
}

// genTS draws tracks and units.
func genTS(e *Env, o tsOpts) *tsCase {
	c := &tsCase{e: e, noSync: o.noSync}
	c.overlong = !o.noHuge && e.P(1, 25)
	if o.maxTracks == 0 {
		o.maxTracks = 5
	}
	nt := 1 + e.N(o.maxTracks)
	for range nt {
		k := 0
		if o.kinds != nil {
			k = o.kinds[e.N(len(o.kinds))]
		} else {
			k = e.N(kinds)
		}
		if o.noNeeds && needsDetection(k) {
			k = kH264
		}
		c.addTrack(k)
	}
	if e.P(1, 6) { // explicit PIDs
		used := map[uint16]bool{}
		for _, t := range c.tracks {
			if e.P(1, 4) { // chosen by the writer
				continue
			}
			pid := uint16(0x20 + e.N(0x1f00))
			if e.P(1, 4) { // one of those that the writer gives
				pid = uint16(256 + e.N(len(c.tracks)))
			} else if len(used) > 0 && e.P(1, 3) { // one half equal to that of another one
				o := c.tracks[e.N(len(used))].tr.PID
				if e.P(3, 4) {
					pid = o&0xff | uint16(1+e.N(31))<<8
				} else {
					pid = o&0x1f00 | pid&0xff | 0x20
				}
			}
			for used[pid] || pid == 0x1000 || pid >= 0x1fff || c.noSync && (pid>>8 == 0x47 || pid&0xff == 0x47) {
				pid = (pid+1)&0x1fff | 0x20
			}
			used[pid] = true
			t.tr.PID = pid
		}
	}
	c.genUnits(o)
	return c
}

func (c *tsCase) genUnits(o tsOpts) {
	e := c.e
	// clock
	var base int64
	switch e.W(3, 3, 2) {
	case 0:
		base = 90000
	case 1: // shortly before the 33-bit wrap
		base = ts33 + 1 - int64(e.N(20*9000))
	default:
		base = int64(e.U(uint64(ts33) + 1))
	}
	for _, t := range c.tracks {
		t.next = base + int64(e.N(9000))
	}
	if o.maxUnits == 0 {
		o.maxUnits = 24
	}
	n := 1 + e.N(o.maxUnits)
	r := e.Sub()
	total := 0
	add := func(ti int) {
		t := c.tracks[ti]
		u := &tsUnit{track: ti}
		u.dts = t.next
		u.pts = u.dts
		if t.kind == kH264 || t.kind == kH265 {
			if e.P(1, 2) {
				u.pts += t.step * int64(e.N(4))
			}
		}
		t.next += t.step
		if e.P(1, 25) { // clock jump
			t.next += int64(e.N(90000 * 3600))
		}
		u.data = c.unitData(t, o, r)
		if !c.overlong && !isVideoKind(t.kind) {
			// keep the PES inside of its 16 bit length field
			k := 65535 - 8
			if t.kind == kKLVSync {
				k -= 5
			}
			if t.kind == kKLVSync || t.kind == kKLVAsync || t.kind == kDVB {
				u.data[0] = u.data[0][:min(len(u.data[0]), k)]
			}
		}
		for _, d := range u.data {
			total += len(d)
		}
		t.nun++
		c.units = append(c.units, u)
	}
	// tracks whose parameters are detected from their first unit come first, in any order
	var det []int
	for i, t := range c.tracks {
		if needsDetection(t.kind) {
			det = append(det, i)
		}
	}
	for len(det) > 0 {
		k := e.N(len(det))
		add(det[k])
		det = append(det[:k:k], det[k+1:]...)
	}
	for range n {
		add(e.N(len(c.tracks)))
	}
	// initial interleaving: move some units of other tracks to the front
	if e.P(1, 2) && len(c.units) > 1 {
		k := e.N(len(c.units))
		u := c.units[k]
		if !needsDetection(c.tracks[u.track].kind) {
			first := true
			for _, x := range c.units[:k] {
				if x.track == u.track {
					first = false
				}
			}
			if first {
				copy(c.units[1:k+1], c.units[:k])
				c.units[0] = u
			}
		}
	}
	maxDts := int64(0)
	for _, u := range c.units {
		maxDts = max(maxDts, u.dts-base)
	}
	e.simTime += float64(maxDts) / 90000
}

// describe renders the case for evidence samples.
func (c *tsCase) describe() string {
	s := fmt.Sprintf("%d tracks [", len(c.tracks))
	for i, t := range c.tracks {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%s x%d", kindNames[t.kind], t.nun)
	}
	return s + "]"
}

func (c *tsCase) writer(w io.Writer) *mpegts.Writer {
	var trs []*mpegts.Track
	for _, t := range c.tracks {
		trs = append(trs, t.tr)
	}
	if c.e.P(1, 8) {
		return mpegts.NewWriter(w, trs) // the deprecated way
	}
	mw := &mpegts.Writer{W: w, Tracks: trs}
	if err := mw.Initialize(); err != nil {
		c.e.Fail("writer-init", "writer refused valid tracks: %v", err)
	}
	return mw
}

func (c *tsCase) writeUnit(mw *mpegts.Writer, u *tsUnit) error {
	t := c.tracks[u.track]
	switch t.kind {
	case kH264:
		return mw.WriteH264(t.tr, u.pts, u.dts, u.data)
	case kH265:
		return mw.WriteH265(t.tr, u.pts, u.dts, u.data)
	case kMPEG4V:
		return mw.WriteMPEG4Video(t.tr, u.pts, u.data[0])
	case kMPEG1V:
		return mw.WriteMPEG1Video(t.tr, u.pts, u.data[0])
	case kOpus:
		return mw.WriteOpus(t.tr, u.pts, u.data)
	case kAAC:
		return mw.WriteMPEG4Audio(t.tr, u.pts, u.data)
	case kLATM:
		return mw.WriteMPEG4AudioLATM(t.tr, u.pts, u.data)
	case kMP1A:
		return mw.WriteMPEG1Audio(t.tr, u.pts, u.data)
	case kAC3:
		return mw.WriteAC3(t.tr, u.pts, u.data[0])
	case kEAC3:
		return mw.WriteEAC3(t.tr, u.pts, u.data[0])
	case kKLVSync, kKLVAsync:
		return mw.WriteKLV(t.tr, u.pts, u.data[0])
	default:
		return mw.WriteDVBSubtitle(t.tr, u.pts, u.data[0])
	}
}

// mux writes all the units on a healthy sink and records the wire position of each.
// refuse writes a unit whose size does not fit in the field of the format.
func (c *tsCase) refuse(mw *mpegts.Writer, s *SimSink, i int) {
	u := *c.units[i]
	limit := 8191
	switch c.tracks[u.track].kind {
	case kAAC:
		limit = 8184
	case kLATM:
	default:
		return
	}
	u.data = append([][]byte(nil), u.data...)
	n := limit + 1 + c.e.W(4, 1)*c.e.N(10)
	if c.e.P(1, 2) {
		n = limit + 1 + c.e.N(60000)
	}
	u.data[c.e.N(len(u.data))] = make([]byte, n)
	before := len(s.buf)
	err := c.writeUnit(mw, &u)
	c.e.Fault("oversized-unit")
	c.e.Check(err != nil, "oversized-accepted", "a %s unit of %d bytes was written without error", kindNames[c.tracks[u.track].kind], n)
	c.e.Check(len(s.buf) == before, "refused-but-written", "a refused unit left %d bytes in the stream", len(s.buf)-before)
}

func (c *tsCase) mux() []byte {
	s := c.e.newSink()
	mw := c.writer(s)
	if c.e.P(1, 4) {
		if _, err := mw.WriteTables(); err != nil {
			c.e.Fail("write-error", "WriteTables failed on a healthy sink: %v", err)
		}
	}
	for i, u := range c.units {
		if c.oversize && c.e.P(1, 20) {
			c.refuse(mw, s, i)
		}
		u.off0 = len(s.buf)
		if err := c.writeUnit(mw, u); err != nil {
			c.e.Fail("write-error", "unit %d (%s) refused on a healthy sink: %v", i, kindNames[c.tracks[u.track].kind], err)
		}
		u.off1 = len(s.buf)
		c.e.Ev("write", u.track, u.pts, u.dts, u.off1-u.off0)
	}
	c.wire = s.buf
	return s.buf
}

type tsItem struct {
	pts, dts int64
	data     [][]byte
	hash     uint64
	readIdx  int
}

func hashUnits(d [][]byte) uint64 {
	h := uint64(len(d))
	for _, b := range d {
		h = (h*31+uint64(len(b)))*fnvPrime ^ hashBytes(b)
	}
	return h
}

// tsRecv is the receiving side.
type tsRecv struct {
	e      *Env
	r      *mpegts.Reader
	got    [][]*tsItem // by reader track
	decErr []string
	reads  int
	err    error // terminal error
	stop   func() bool
	cbErr  error
	order  []int
	cbFail int // fail the n-th callback
	ncb    int
	freeze bool // keep only hashes
}

func kindOf(t *mpegts.Track) int {
	switch c := t.Codec.(type) {
	case *tscodecs.H264:
		return kH264
	case *tscodecs.H265:
		return kH265
	case *tscodecs.MPEG4Video:
		return kMPEG4V
	case *tscodecs.MPEG1Video:
		return kMPEG1V
	case *tscodecs.Opus:
		return kOpus
	case *tscodecs.MPEG4Audio:
		return kAAC
	case *tscodecs.MPEG4AudioLATM:
		return kLATM
	case *tscodecs.MPEG1Audio:
		return kMP1A
	case *tscodecs.AC3:
		return kAC3
	case *tscodecs.EAC3:
		return kEAC3
	case *tscodecs.KLV:
		if c.Synchronous {
			return kKLVSync
		}
		return kKLVAsync
	case *tscodecs.DVBSubtitle:
		return kDVB
	}
	return -1
}

func (e *Env) newRecv(src io.Reader) (*tsRecv, error) {
	rv := &tsRecv{e: e, cbFail: -1}
	var err error
	if e.P(1, 8) {
		rv.r, err = mpegts.NewReader(src) // the deprecated way
	} else {
		rv.r = &mpegts.Reader{R: src}
		err = rv.r.Initialize()
	}
	if err != nil {
		return nil, err
	}
	trs := rv.r.Tracks()
	rv.got = make([][]*tsItem, len(trs))
	rv.r.OnDecodeError(func(err error) {
		rv.decErr = append(rv.decErr, err.Error())
		e.Ev("decode-error", err.Error())
	})
	for i, t := range trs {
		item := func(pts, dts int64, d [][]byte) error {
			n := rv.ncb
			rv.ncb++
			h := hashUnits(d)
			rv.got[i] = append(rv.got[i], &tsItem{pts: pts, dts: dts, data: d, hash: h, readIdx: rv.reads})
			rv.order = append(rv.order, i)
			e.Ev("deliver", i, pts, dts, h)
			if n == rv.cbFail {
				return rv.cbErr
			}
			return nil
		}
		one := func(pts int64, d []byte) error { return item(pts, pts, [][]byte{d}) }
		many := func(pts int64, d [][]byte) error { return item(pts, pts, d) }
		switch kindOf(t) {
		case kH264:
			rv.r.OnDataH264(t, item)
		case kH265:
			rv.r.OnDataH265(t, item)
		case kMPEG4V, kMPEG1V:
			rv.r.OnDataMPEGxVideo(t, one)
		case kOpus:
			rv.r.OnDataOpus(t, many)
		case kAAC:
			rv.r.OnDataMPEG4Audio(t, many)
		case kLATM:
			rv.r.OnDataMPEG4AudioLATM(t, many)
		case kMP1A:
			rv.r.OnDataMPEG1Audio(t, many)
		case kAC3:
			rv.r.OnDataAC3(t, one)
		case kEAC3:
			rv.r.OnDataEAC3(t, one)
		case kKLVSync, kKLVAsync:
			rv.r.OnDataKLV(t, one)
		case kDVB:
			rv.r.OnDataDVBSubtitle(t, one)
		}
	}
	return rv, nil
}

// drain calls Read until an error.
func (rv *tsRecv) drain() {
	for {
		err := rv.r.Read()
		rv.reads++
		if err != nil {
			rv.err = err
			rv.e.Ev("end", err.Error())
			return
		}
	}
}

// checkTracks compares detected tracks with what was written.
func (c *tsCase) checkTracks(trs []*mpegts.Track) {
	e := c.e
	e.Check(len(trs) == len(c.tracks), "tracks", "%d tracks written, %d detected", len(c.tracks), len(trs))
	for i, t := range c.tracks {
		e.Check(trs[i].PID == t.tr.PID, "tracks", "track %d: PID %d written, %d detected", i, t.tr.PID, trs[i].PID)
		e.Check(trs[i].Language == t.lang, "tracks", "track %d: language %q written, %q detected", i, t.lang, trs[i].Language)
		e.Check(reflect.DeepEqual(codecView(trs[i].Codec), codecView(t.want)), "tracks", "track %d (%s): codec %+v written, %+v detected",
			i, kindNames[t.kind], codecView(t.want), codecView(trs[i].Codec))
		e.Check(trs[i].Codec.IsVideo() == isVideoKind(t.kind), "tracks-isvideo", "track %d (%s): IsVideo() is %v", i, kindNames[t.kind], trs[i].Codec.IsVideo())
	}
}

// codecView extracts the observable parameters of a codec.
func codecView(c tscodecs.Codec) any {
	switch v := c.(type) {
	case *tscodecs.Opus:
		if v.Desc == nil {
			return []any{"opus", v.ChannelCount}
		}
		d := *v.Desc
		if d.ChannelMapping == nil {
			d.ChannelMapping = []byte{}
		}
		return []any{"opus", v.ChannelCount, d}
	case *tscodecs.DVBSubtitle:
		s := []any{"dvb"}
		for _, i := range v.Items {
			s = append(s, *i)
		}
		return s
	case *tscodecs.MPEG4Audio:
		return []any{"aac", v.Type, v.SampleRate, v.ChannelConfig, v.ChannelCount}
	case *tscodecs.KLV:
		return []any{"klv", v.Synchronous}
	case *tscodecs.AC3:
		return []any{"ac3", *v}
	case *tscodecs.EAC3:
		return []any{"eac3", *v}
	}
	return []any{fmt.Sprintf("%T", c)}
}

type expItem struct {
	unit     int
	pts, dts int64
	hash     uint64
}

// pesLen is the value of the PES length field.
func (c *tsCase) pesLen(u *tsUnit) int {
	n := 0
	switch c.tracks[u.track].kind {
	case kOpus:
		for _, d := range u.data {
			n += 2 + len(d)/255 + 1 + len(d)
		}
	case kAAC:
		for _, d := range u.data {
			n += 7 + len(d)
		}
	case kLATM:
		for _, d := range u.data {
			n += 3 + len(d)
		}
	case kKLVSync:
		n = len(u.data[0]) + 5*((len(u.data[0])+65534)/65535)
	default:
		for _, d := range u.data {
			n += len(d)
		}
	}
	return n + c.pesHeaderLen(u)
}

// esPackets counts the packets of the unit on the wire that belong to its track.
func (c *tsCase) esPackets(u *tsUnit) int {
	n := 0
	for o := u.off0; o+188 <= u.off1; o += 188 {
		if pid := int(c.wire[o+1]&0x1f)<<8 | int(c.wire[o+2]); pid == int(c.tracks[u.track].tr.PID) {
			n++
		}
	}
	return n
}

func (c *tsCase) pesHeaderLen(u *tsUnit) int {
	if c.tracks[u.track].kind == kKLVAsync {
		return 3
	}
	return 8
}

// expected computes, per track, what must be delivered on a clean stream.
//
// lossy computes instead what the known finding "overlong-pes-lost" leaves: a
// PES of unspecified length is lost when the next one on its track fits in a
// single packet.
func (c *tsCase) expected(lossy bool) [][]expItem {
	lost := make([]bool, len(c.units))
	if lossy {
		prev := map[int]int{}
		for i, u := range c.units {
			if p, ok := prev[u.track]; ok && !isVideoKind(c.tracks[u.track].kind) &&
				c.pesLen(c.units[p]) > 0xffff && c.pesLen(u) <= 0xffff && c.esPackets(u) == 1 {
				lost[p] = true
			}
			prev[u.track] = i
		}
	}
	out := make([][]expItem, len(c.tracks))
	last := int64(-1)
	// async KLV units whose PES length is unknown are delivered at the next
	// unit of the same track, or at the end.
	type pend struct{ unit int }
	pending := map[int]*pend{}
	flush := func(ti int) {
		if p := pending[ti]; p != nil {
			delete(pending, ti)
			if last >= 0 && !lost[p.unit] {
				u := c.units[p.unit]
				out[ti] = append(out[ti], expItem{p.unit, last, last, hashUnits(u.data)})
			}
		}
	}
	for i, u := range c.units {
		t := c.tracks[u.track]
		if t.kind == kKLVAsync {
			flush(u.track)
			if len(u.data[0])+3 > 0xffff {
				pending[u.track] = &pend{i}
			} else if last >= 0 {
				out[u.track] = append(out[u.track], expItem{i, last, last, hashUnits(u.data)})
			}
			continue
		}
		last = u.pts & ts33
		if lost[i] {
			continue
		}
		out[u.track] = append(out[u.track], expItem{i, u.pts & ts33, u.dts & ts33, hashUnits(u.data)})
	}
	for ti := range c.tracks {
		flush(ti)
	}
	return out
}

// checkExact compares deliveries with the expectation.
func (c *tsCase) checkExact(got [][]*tsItem, want [][]expItem, what string) {
	e := c.e
	if c.overlong {
		if alt := c.expected(true); !sameItems(got, want) && sameItems(got, alt) {
			e.Fail("overlong-pes-lost", "%s: a unit of more than 65535 bytes on a non-video track is lost when the next unit of the track fits in one packet", what)
		}
	}
	for ti := range c.tracks {
		g, w := got[ti], want[ti]
		kn := kindNames[c.tracks[ti].kind]
		for k := 0; k < len(g) && k < len(w); k++ {
			if g[k].hash != w[k].hash {
				e.Fail("payload", "%s: track %d (%s) delivery %d: payload differs from unit %d (got %s, want %s)", what, ti, kn, k, w[k].unit,
					sizes(g[k].data), sizes(c.units[w[k].unit].data))
			}
			if g[k].pts != w[k].pts || g[k].dts != w[k].dts {
				e.Fail("timestamp", "%s: track %d (%s) delivery %d: pts/dts %d/%d, written %d/%d", what, ti, kn, k, g[k].pts, g[k].dts, w[k].pts, w[k].dts)
			}
		}
		if len(g) != len(w) {
			e.Fail("count", "%s: track %d (%s): %d units written, %d delivered", what, ti, kn, len(w), len(g))
		}
	}
}

func sameItems(got [][]*tsItem, want [][]expItem) bool {
	for ti := range want {
		if len(got[ti]) != len(want[ti]) {
			return false
		}
		for k, w := range want[ti] {
			g := got[ti][k]
			if g.hash != w.hash || g.pts != w.pts || g.dts != w.dts {
				return false
			}
		}
	}
	return true
}

func sizes(d [][]byte) string {
	s := "["
	for i, b := range d {
		if i > 6 {
			s += " …"
			break
		}
		s += fmt.Sprintf(" %d:%x", len(b), b[:min(6, len(b))])
	}
	return s + " ]"
}
