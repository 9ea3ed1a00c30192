package main

// Parameter sets and slice headers, written from the specifications
// (ITU-T H.264, H.265, AV1) with an independent bit writer.

type bitw struct {
	b []byte
	n int // bits

	ues  int // exp-Golomb codes written
	wild wild
}

// wild is an exp-Golomb code with a value that no encoder writes.
type wild struct {
	at int // 1: the first one, 0: none
	v  uint32
}

func (w *bitw) bits(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 != 0 {
			w.b[w.n/8] |= 1 << uint(7-w.n%8)
		}
		w.n++
	}
}

func (w *bitw) flag(v bool) {
	if v {
		w.bits(1, 1)
	} else {
		w.bits(0, 1)
	}
}

func (w *bitw) ue(v uint32) {
	w.ues++
	if w.ues == w.wild.at {
		v = w.wild.v
	}
	x := uint64(v) + 1
	l := 0
	for t := x; t > 1; t >>= 1 {
		l++
	}
	w.bits(0, l)
	w.bits(x, l+1)
}

func (w *bitw) se(v int32) {
	if v > 0 {
		w.ue(uint32(2*v - 1))
	} else {
		w.ue(uint32(-2 * v))
	}
}

// trail writes rbsp_trailing_bits.
func (w *bitw) trail() {
	w.bits(1, 1)
	for w.n%8 != 0 {
		w.bits(0, 1)
	}
}

// epb inserts emulation prevention bytes.
func epb(b []byte) []byte {
	out := make([]byte, 0, len(b)+4)
	z := 0
	for _, c := range b {
		if z >= 2 && c <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// h264P are the parameters of a H264 sequence.
type h264P struct {
	profile   byte
	constr    byte
	level     byte
	id        uint32
	chroma    uint32
	sepPlane  bool
	log2FN    uint32 // minus 4
	pocType   uint32
	log2POC   uint32 // minus 4
	refFrames uint32
	gaps      bool
	wMbs      uint32 // minus 1
	hMap      uint32
	frameOnly bool
	mbaff     bool
	crop      bool
	cropV     [4]uint32
	vui       bool
	reorder   int // max_num_reorder_frames, -1 absent
	dpb       int
	timing    bool
	units     uint32
	scale     uint32
	hrd       bool
	lists     bool
	refIdc    byte
	ppsID     uint32
	wild      wild
}

func isHigh(p byte) bool {
	switch p {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
		return true
	}
	return false
}

// genH264P draws a sequence.
func (e *Env) genH264P() *h264P {
	p := &h264P{refIdc: 3, reorder: -1}
	p.profile = []byte{66, 77, 100, 110, 122, 244, 88, 44}[e.W(4, 3, 4, 1, 1, 1, 1, 1)]
	p.constr = byte([]int{0, 0xC0, 0xE0, 0x40, 0xFC}[e.N(5)])
	p.level = []byte{40, 30, 31, 51, 62, 10}[e.N(6)]
	if e.P(1, 6) {
		p.id = uint32(e.N(32))
	}
	p.chroma = 1
	if isHigh(p.profile) {
		p.chroma = uint32([]int{1, 2, 3, 0}[e.W(5, 1, 1, 1)])
		if p.chroma == 3 {
			p.sepPlane = e.P(1, 3)
		}
		p.lists = e.P(1, 5)
	}
	p.log2FN = uint32([]int{0, 4, 12, 1}[e.N(4)])
	p.log2POC = uint32([]int{2, 0, 12, 4}[e.N(4)])
	p.refFrames = uint32(e.N(17))
	p.gaps = e.P(1, 5)
	p.wMbs = uint32([]int{119, 0, 21, 239, 511}[e.N(5)])
	p.hMap = uint32([]int{67, 0, 17, 134, 255}[e.N(5)])
	p.frameOnly = true
	if e.P(1, 3) {
		p.crop = true
		p.cropV = [4]uint32{uint32(e.N(3)), uint32(e.N(4)), uint32(e.N(2)), uint32(e.N(4))}
	}
	if e.P(1, 2) {
		p.vui = true
		p.timing = e.P(1, 2)
		p.units, p.scale = uint32(1+e.N(2000)), uint32(1+e.N(180000))
		p.hrd = e.P(1, 5)
		if e.P(1, 2) {
			p.reorder = e.N(5)
			p.dpb = p.reorder + e.N(12)
		}
	}
	return p
}

// nalu builds the SPS.
func (p *h264P) nalu() []byte {
	w := &bitw{wild: p.wild}
	w.bits(uint64(p.profile), 8)
	w.bits(uint64(p.constr), 8)
	w.bits(uint64(p.level), 8)
	w.ue(p.id)
	if isHigh(p.profile) {
		w.ue(p.chroma)
		if p.chroma == 3 {
			w.flag(p.sepPlane)
		}
		w.ue(0)
		w.ue(0)
		w.flag(false)
		w.flag(p.lists)
		if p.lists {
			n := 8
			if p.chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				pr := i%3 == 0
				w.flag(pr)
				if !pr {
					continue
				}
				size := 16
				if i >= 6 {
					size = 64
				}
				if i == 3 { // default matrix: first delta gives 0
					w.se(-8)
					continue
				}
				for j := 0; j < size; j++ {
					w.se(int32(j%2) + 1)
				}
			}
		}
	}
	w.ue(p.log2FN)
	w.ue(p.pocType)
	switch p.pocType {
	case 0:
		w.ue(p.log2POC)
	case 1:
		w.flag(false)
		w.se(-1)
		w.se(1)
		w.ue(2)
		w.se(2)
		w.se(-3)
	}
	w.ue(p.refFrames)
	w.flag(p.gaps)
	w.ue(p.wMbs)
	w.ue(p.hMap)
	w.flag(p.frameOnly)
	if !p.frameOnly {
		w.flag(p.mbaff)
	}
	w.flag(true)
	w.flag(p.crop)
	if p.crop {
		for _, v := range p.cropV {
			w.ue(v)
		}
	}
	w.flag(p.vui)
	if p.vui {
		w.flag(true) // aspect ratio
		if p.hrd {
			w.bits(255, 8)
			w.bits(16, 16)
			w.bits(9, 16)
		} else {
			w.bits(1, 8)
		}
		w.flag(false)
		w.flag(true) // video signal
		w.bits(5, 3)
		w.flag(false)
		w.flag(true)
		w.bits(1, 8)
		w.bits(1, 8)
		w.bits(1, 8)
		w.flag(false)
		w.flag(p.timing)
		if p.timing {
			w.bits(uint64(p.units), 32)
			w.bits(uint64(p.scale), 32)
			w.flag(true)
		}
		w.flag(p.hrd)
		if p.hrd {
			w.ue(1)
			w.bits(2, 4)
			w.bits(3, 4)
			for i := uint32(0); i < 2; i++ {
				w.ue(1000 + i)
				w.ue(2000 + i)
				w.flag(i == 0)
			}
			w.bits(23, 5)
			w.bits(15, 5)
			w.bits(5, 5)
			w.bits(24, 5)
		}
		w.flag(false) // vcl
		if p.hrd {
			w.flag(false)
		}
		w.flag(false) // pic struct
		w.flag(p.reorder >= 0)
		if p.reorder >= 0 {
			w.flag(true)
			w.ue(2)
			w.ue(1)
			w.ue(11)
			w.ue(11)
			w.ue(uint32(p.reorder))
			w.ue(uint32(p.dpb))
		}
	}
	w.trail()
	return append([]byte{p.refIdc<<5 | 7}, epb(w.b)...)
}

// slice builds a slice NAL unit of frame number fn and order count poc.
func (p *h264P) slice(typ, refIdc byte, sliceType, fn, idrID, poc uint32, firstMb, ppsID uint32, tail []byte) []byte {
	w := &bitw{}
	w.ue(firstMb)
	w.ue(sliceType)
	w.ue(ppsID)
	if p.sepPlane {
		w.bits(0, 2)
	}
	w.bits(uint64(fn)&(1<<(p.log2FN+4)-1), int(p.log2FN+4))
	if !p.frameOnly {
		w.flag(false)
	}
	if typ == 5 {
		w.ue(idrID)
	}
	if p.pocType == 0 {
		w.bits(uint64(poc)&(1<<(p.log2POC+4)-1), int(p.log2POC+4))
	}
	w.bits(1, 1)
	for _, c := range tail {
		w.bits(uint64(c), 8)
	}
	w.trail()
	return append([]byte{refIdc<<5 | typ}, epb(w.b)...)
}

// h265RPS is a short term reference picture set (explicit form).
type h265RPS struct {
	s0, s1 []int32 // deltas: s0 negative descending, s1 positive ascending
}

// h265P are the parameters of a H265 sequence.
type h265P struct {
	vpsID     byte
	subLayers int // minus 1
	ordInfo   bool
	tier      byte
	profile   byte
	compat    uint32
	level     byte
	id        uint32
	chroma    uint32
	sepPlane  bool
	w, h      uint32
	win       bool
	winV      [4]uint32
	depth     uint32
	depthC    uint32
	log2POC   uint32 // minus 4
	dpb       uint32
	reorder   uint32
	latency   uint32
	lists     bool
	pcm       bool
	rps       []h265RPS
	interRPS  bool
	longTerm  bool
	vui       bool
	timing    bool
	units     uint32
	scale     uint32
	// pps
	ppsID         uint32
	extraBits     int
	outputFlag    bool
	depSlices     bool
	wild, wildPPS wild
}

func (e *Env) genH265P() *h265P {
	p := &h265P{}
	p.ordInfo = true
	if e.P(1, 8) {
		p.vpsID = byte(e.N(16))
	}
	if e.P(1, 8) {
		p.subLayers = e.N(6)
		p.ordInfo = e.P(1, 2)
	}
	p.tier = byte(e.N(2))
	p.profile = []byte{1, 2, 3, 4, 5, 9, 11}[e.W(5, 2, 1, 1, 1, 1, 1)]
	p.compat = 1 << (31 - uint(p.profile))
	p.level = []byte{93, 30, 120, 153, 186}[e.N(5)]
	if e.P(1, 8) {
		p.id = uint32(e.N(16))
	}
	p.chroma = uint32([]int{1, 0, 2, 3}[e.W(5, 1, 1, 1)])
	if p.chroma == 3 {
		p.sepPlane = e.P(1, 3)
	}
	p.w = uint32([]int{1920, 16, 352, 3840, 8192}[e.N(5)])
	p.h = uint32([]int{1088, 16, 288, 2160, 4320}[e.N(5)])
	if e.P(1, 3) {
		p.win = true
		p.winV = [4]uint32{uint32(e.N(2)), uint32(e.N(2)), uint32(e.N(2)), uint32(e.N(4))}
	}
	p.depth = uint32(e.W(4, 0, 1))
	p.depthC = p.depth
	if e.P(1, 6) {
		p.depthC = uint32(e.N(8))
	}
	p.log2POC = uint32([]int{4, 0, 12, 1}[e.N(4)])
	p.reorder = uint32(e.N(4))
	p.dpb = p.reorder + uint32(e.N(4))
	p.latency = uint32(e.N(2))
	p.lists = e.P(1, 6)
	p.pcm = e.P(1, 6)
	p.longTerm = e.P(1, 6)
	if e.P(1, 2) {
		p.vui = true
		p.timing = e.P(1, 2)
		p.units, p.scale = uint32(1+e.N(2000)), uint32(1+e.N(180000))
	}
	return p
}

func (p *h265P) vpsNALU(r *rng) []byte {
	b := make([]byte, 4+r.n(30))
	r.fill(b)
	naluSafe(b)
	b[0], b[1] = 0x40, 1
	return b
}

// full lists the deltas of a set in the order of 7.4.8.
func (s h265RPS) full() []int32 { return append(append([]int32(nil), s.s0...), s.s1...) }

// writeRPS codes a set; slice header sets have idx = number of sets of the SPS.
func (p *h265P) writeRPS(w *bitw, s h265RPS, idx int) {
	if idx != 0 {
		lo := idx - 1
		if idx == len(p.rps) {
			lo = max(0, idx-3)
		}
		for ref := idx - 1; p.interRPS && ref >= lo; ref-- {
			if d, ok := interDelta(p.rps[ref], s); ok {
				w.flag(true)
				if idx == len(p.rps) {
					w.ue(uint32(idx - ref - 1))
				}
				w.flag(d < 0)
				w.ue(uint32(max(d, -d) - 1))
				in := map[int32]bool{}
				for _, x := range s.full() {
					in[x] = true
				}
				for _, x := range append(p.rps[ref].full(), 0) {
					w.flag(in[x+d])
					if !in[x+d] {
						w.flag(false)
					}
				}
				return
			}
		}
		w.flag(false) // inter_ref_pic_set_prediction_flag
	}
	w.ue(uint32(len(s.s0)))
	w.ue(uint32(len(s.s1)))
	prev := int32(0)
	for _, d := range s.s0 {
		w.ue(uint32(prev - d - 1))
		w.flag(true)
		prev = d
	}
	prev = 0
	for _, d := range s.s1 {
		w.ue(uint32(d - prev - 1))
		w.flag(true)
		prev = d
	}
}

// interDelta finds a delta with which a set can be predicted from another one.
func interDelta(ref, s h265RPS) (int32, bool) {
	for k := int32(1); k <= 16; k++ {
		for _, d := range []int32{-k, k} {
			cand := map[int32]bool{d: true}
			for _, x := range ref.full() {
				cand[x+d] = true
			}
			ok := true
			for _, x := range s.full() {
				if !cand[x] {
					ok = false
				}
			}
			if ok {
				return d, true
			}
		}
	}
	return 0, false
}

func (p *h265P) spsNALU() []byte {
	w := &bitw{wild: p.wild}
	w.bits(uint64(p.vpsID), 4)
	w.bits(uint64(p.subLayers), 3)
	w.flag(p.subLayers == 0)
	w.bits(0, 2)
	w.bits(uint64(p.tier), 1)
	w.bits(uint64(p.profile), 5)
	w.bits(uint64(p.compat), 32)
	w.flag(true)
	w.flag(false)
	w.flag(false)
	w.flag(true)
	w.bits(0, 43)
	w.flag(false)
	w.bits(uint64(p.level), 8)
	if p.subLayers > 0 {
		for i := 0; i < p.subLayers; i++ {
			w.bits(0, 2)
		}
		for i := p.subLayers; i < 8; i++ {
			w.bits(0, 2)
		}
	}
	w.ue(p.id)
	w.ue(p.chroma)
	if p.chroma == 3 {
		w.flag(p.sepPlane)
	}
	w.ue(p.w)
	w.ue(p.h)
	w.flag(p.win)
	if p.win {
		for _, v := range p.winV {
			w.ue(v)
		}
	}
	w.ue(p.depth)
	w.ue(p.depthC)
	w.ue(p.log2POC)
	w.flag(p.ordInfo)
	i := p.subLayers
	if p.ordInfo {
		i = 0
	}
	for ; i <= p.subLayers; i++ {
		w.ue(p.dpb)
		w.ue(p.reorder)
		w.ue(p.latency)
	}
	w.ue(0)
	w.ue(3)
	w.ue(0)
	w.ue(3)
	w.ue(1)
	w.ue(1)
	w.flag(p.lists)
	if p.lists {
		w.flag(false)
	}
	w.flag(true)
	w.flag(true)
	w.flag(p.pcm)
	if p.pcm {
		w.bits(7, 4)
		w.bits(7, 4)
		w.ue(0)
		w.ue(1)
		w.flag(true)
	}
	w.ue(uint32(len(p.rps)))
	for i, s := range p.rps {
		p.writeRPS(w, s, i)
	}
	w.flag(p.longTerm)
	if p.longTerm {
		w.ue(0)
	}
	w.flag(true)
	w.flag(true)
	w.flag(p.vui)
	if p.vui {
		w.flag(false) // aspect
		w.flag(false) // overscan
		w.flag(true)  // signal
		w.bits(5, 3)
		w.flag(true)
		w.flag(false)
		w.flag(false) // chroma loc
		w.bits(0, 3)  // neutral, field, frame field info
		w.flag(false) // default display window
		w.flag(p.timing)
		if p.timing {
			w.bits(uint64(p.units), 32)
			w.bits(uint64(p.scale), 32)
			w.flag(false)
			w.flag(false)
		}
		w.flag(false) // bitstream restriction
	}
	w.flag(false)
	w.trail()
	return append([]byte{33 << 1, 1}, epb(w.b)...)
}

func (p *h265P) ppsNALU() []byte {
	w := &bitw{wild: p.wildPPS}
	w.ue(p.ppsID)
	w.ue(p.id)
	w.flag(p.depSlices)
	w.flag(p.outputFlag)
	w.bits(uint64(p.extraBits), 3)
	w.flag(false)
	w.flag(false)
	w.ue(0)
	w.ue(0)
	w.se(0)
	w.flag(false)
	w.flag(false)
	w.flag(false)
	w.se(0)
	w.se(0)
	w.bits(0, 6)
	w.flag(false)
	w.flag(true)
	w.flag(false)
	w.flag(false)
	w.flag(false)
	w.ue(0)
	w.flag(false)
	w.flag(false)
	w.trail()
	return append([]byte{34 << 1, 1}, epb(w.b)...)
}

// slice builds the first slice segment of a picture.
// spsIdx >= 0: the set of the SPS; otherwise rps is sent in the slice.
func (p *h265P) slice(typ byte, sliceType uint32, poc uint32, spsIdx int, rps h265RPS, tail []byte) []byte {
	w := &bitw{}
	w.flag(true)
	if typ >= 16 && typ <= 23 {
		w.flag(false)
	}
	w.ue(p.ppsID)
	w.bits(0, p.extraBits)
	w.ue(sliceType)
	if p.outputFlag {
		w.flag(true)
	}
	if p.sepPlane {
		w.bits(0, 2)
	}
	if typ != 19 && typ != 20 {
		w.bits(uint64(poc)&(1<<(p.log2POC+4)-1), int(p.log2POC+4))
		w.flag(spsIdx >= 0)
		if spsIdx < 0 {
			p.writeRPS(w, rps, len(p.rps))
		} else if len(p.rps) > 1 {
			n := 0
			for 1<<uint(n) < len(p.rps) {
				n++
			}
			w.bits(uint64(spsIdx), n)
		}
	}
	w.bits(1, 1)
	for _, c := range tail {
		w.bits(uint64(c), 8)
	}
	w.trail()
	return append([]byte{typ << 1, 1}, epb(w.b)...)
}

// genAV1Seq builds a sequence header OBU without size.
func (e *Env) genAV1Seq() []byte {
	w := &bitw{}
	prof := e.W(4, 1, 1)
	w.bits(uint64(prof), 3)
	level, tier, csp := 0, 0, 0
	reduced := e.P(1, 6)
	w.flag(reduced)
	w.flag(reduced)
	if reduced {
		level = e.N(24)
		w.bits(uint64(level), 5)
	} else {
		timing := e.P(1, 3)
		w.flag(timing)
		if timing {
			w.bits(uint64(1+e.N(1000)), 32)
			w.bits(uint64(1+e.N(90000)), 32)
			w.flag(false)
			w.flag(false)
		}
		w.flag(false)
		n := e.W(6, 1, 1)
		w.bits(uint64(n), 5)
		for i := 0; i <= n; i++ {
			w.bits(uint64(e.N(4096)), 12)
			lv := e.N(24)
			w.bits(uint64(lv), 5)
			tr := 0
			if lv > 7 {
				tr = b2i(e.P(1, 2))
				w.bits(uint64(tr), 1)
			}
			if i == 0 {
				level, tier = lv, tr
			}
		}
	}
	wb, hb := 11, 10
	if e.P(1, 3) {
		wb, hb = e.N(16), e.N(16)
	}
	w.bits(uint64(wb), 4)
	w.bits(uint64(hb), 4)
	width, height := e.N(1<<uint(wb+1)), e.N(1<<uint(hb+1))
	w.bits(uint64(width), wb+1)
	w.bits(uint64(height), hb+1)
	if !reduced {
		ids := e.P(1, 5)
		w.flag(ids)
		if ids {
			w.bits(uint64(e.N(14)), 4)
			w.bits(uint64(e.N(8)), 3)
		}
	}
	w.bits(uint64(e.N(8)), 3)
	if !reduced {
		w.bits(uint64(e.N(16)), 4)
		oh := e.P(1, 2)
		w.flag(oh)
		if oh {
			w.bits(uint64(e.N(4)), 2)
		}
		if e.P(1, 2) {
			w.flag(true)
			w.flag(true) // seq_choose_integer_mv
		} else {
			w.flag(false)
			v := e.N(2)
			w.bits(uint64(v), 1)
			if v > 0 {
				w.flag(false)
				w.bits(uint64(e.N(2)), 1)
			}
		}
		if oh {
			w.bits(uint64(e.N(8)), 3)
		}
	}
	w.bits(uint64(e.N(8)), 3)
	// color config
	high := e.P(1, 4)
	w.flag(high)
	twelve := false
	if prof == 2 && high {
		twelve = e.P(1, 2)
		w.flag(twelve)
	}
	mono := false
	if prof != 1 {
		mono = e.P(1, 5)
		w.flag(mono)
	}
	desc := e.P(1, 3)
	w.flag(desc)
	if desc {
		w.bits(9, 8)
		w.bits(16, 8)
		w.bits(9, 8)
	}
	w.flag(e.P(1, 2))
	x, y := true, true
	if !mono {
		switch prof {
		case 1:
			x, y = false, false
		case 2:
			if twelve {
				x = e.P(1, 2)
				w.flag(x)
				y = false
				if x {
					y = e.P(1, 2)
					w.flag(y)
				}
			} else {
				y = false
			}
		}
		if x && y {
			csp = e.N(3)
			w.bits(uint64(csp), 2)
		}
		w.flag(false) // separate_uv_delta_q
	}
	w.flag(e.P(1, 2))
	w.trail()
	e.av1 = codecTraits{w: (width + 1) & 0xFFFF, h: (height + 1) & 0xFFFF, bytes: []byte{byte(prof<<5 | level),
		byte(tier<<7 | b2i(high)<<6 | b2i(twelve)<<5 | b2i(mono)<<4 | b2i(x)<<3 | b2i(y)<<2 | csp)}}
	return append([]byte{1 << 3}, w.b...)
}

func b2i(v bool) int {
	if v {
		return 1
	}
	return 0
}

// record lists the fields of a decoder configuration record: profile space, tier and profile, compatibility flags,
// constraint flags, level, chroma format, bit depth.
func (p *h265P) record() []byte {
	c := p.compat
	return []byte{p.tier<<5 | p.profile, byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c), 0x90, 0, 0, 0, 0, 0, p.level, byte(p.chroma), byte(p.depth), byte(p.depthC)}
}
