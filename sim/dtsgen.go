package main

import (
	"fmt"
	"math"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// A video encoder, reduced to what decoding times depend on: the coding
// structure, the parameter sets, the slice headers and the clock.

// dpic is a picture, in decoding order.
type dpic struct {
	disp   int // display position inside of the group
	anchor bool
	intra  bool
	leaf   bool
	rasl   bool
	cra    bool
	s0, s1 []int // reference pictures, display positions
}

type dtsAU struct {
	au    [][]byte
	pts   int64
	ideal float64 // decoding time of the encoder, before the constant reordering delay
	ra    bool    // starts with the parameters and a random access picture
	gop   int
	step  float64
	vfr   bool
}

type dtsStream struct {
	h265    bool
	aus     []*dtsAU
	p4      *h264P
	p5      *h265P
	inc     int     // picture order count increment
	depth   int     // reordering depth
	step    float64 // frame duration, in ticks
	vfr     bool
	kind    string
	noParam bool // parameters only at the first picture
	depr    bool // the deprecated constructor
}

func (s *dtsStream) String() string {
	c := "h264"
	if s.h265 {
		c = "h265"
	}
	return fmt.Sprintf("%s %s inc=%d depth=%d step=%.2f vfr=%v, %d pictures", c, s.kind, s.inc, s.depth, s.step, s.vfr, len(s.aus))
}

func (s *dtsStream) extractor() func([][]byte, int64) (int64, error) {
	if s.depr {
		if s.h265 {
			return h265.NewDTSExtractor().Extract
		}
		return h264.NewDTSExtractor().Extract
	}
	if s.h265 {
		x := &h265.DTSExtractor{}
		x.Initialize()
		return x.Extract
	}
	x := &h264.DTSExtractor{}
	x.Initialize()
	return x.Extract
}

// structure of a group of pictures
type gopShape struct {
	mini   int // pictures between anchors, plus one
	kind   int // 0 sequential, 1 balanced, 2 random tree
	refs   int // additional references that are kept
	bRefs  bool
	nMini  int
	cra    bool
	anchor string
}

// group gives the pictures of a closed group, in decoding order.
func (g *gopShape) group(r *rng, tail int) []*dpic {
	out := []*dpic{{anchor: true, intra: true}}
	anchors := []int{0}
	olds := func(lo int, extra []int) []int {
		l := []int{lo}
		for i := len(extra) - 1; i >= 0 && len(l) <= g.refs; i-- {
			if extra[i] < l[len(l)-1] {
				l = append(l, extra[i])
			}
		}
		return l
	}
	var tree func(lo, hi int, lefts, rights []int, rasl bool)
	tree = func(lo, hi int, lefts, rights []int, rasl bool) {
		if hi-lo < 2 {
			return
		}
		mid := lo + 1
		switch g.kind {
		case 1:
			mid = (lo + hi) / 2
		case 2:
			mid = lo + 1 + r.n(hi-lo-1)
		}
		p := &dpic{disp: mid, rasl: rasl}
		p.leaf = hi-lo == 2
		if g.kind == 0 && !g.bRefs {
			p.leaf = true
		}
		p.s0 = olds(lo, lefts)
		for i := len(rights) - 1; i >= 0; i-- {
			p.s1 = append(p.s1, rights[i])
		}
		out = append(out, p)
		tree(lo, mid, lefts, append(append([]int(nil), rights...), mid), rasl)
		l2 := lefts
		if g.kind != 0 || g.bRefs {
			l2 = append(append([]int(nil), lefts...), lo)
			tree(mid, hi, l2, rights, rasl)
			return
		}
		// sequential, not used as references
		for k := mid + 1; k < hi; k++ {
			q := &dpic{disp: k, rasl: rasl, leaf: true, s0: p.s0, s1: p.s1}
			out = append(out, q)
		}
	}
	for k := 0; k < g.nMini+1; k++ {
		m := g.mini
		if k == g.nMini {
			m = tail // the last one may be shorter
			if m == 0 {
				break
			}
		}
		a := anchors[len(anchors)-1]
		p := &dpic{disp: a + m, anchor: true, s0: olds(a, anchors[:len(anchors)-1])}
		if g.cra && k > 0 && r.n(4) == 0 {
			p.cra, p.intra = true, true
		}
		if r.n(12) == 0 {
			p.intra = true
		}
		out = append(out, p)
		tree(a, a+m, anchors[:len(anchors)-1], []int{a + m}, p.cra)
		anchors = append(anchors, a+m)
		if p.cra {
			anchors = []int{a + m}
		}
	}
	return out
}

func depthOf(ps []*dpic) int {
	d := 0
	for i, p := range ps {
		d = max(d, i-p.disp)
	}
	return d
}

// genDTSStream draws an encoder and what it emits.
func (e *Env) genDTSStream() *dtsStream {
	s := &dtsStream{h265: e.P(1, 2), depr: e.P(1, 8)}
	e.genDTSInto(s, 0, 1+e.N(3), 100)
	return s
}

// genDTSInto appends groups of pictures of one encoder session.
func (e *Env) genDTSInto(s *dtsStream, base int64, groups, maxPics int) {
	r := e.Sub()
	g := &gopShape{mini: 1}
	s.kind = "IP"
	switch e.W(2, 3, 3, 2) {
	case 1:
		g.kind, g.mini = 0, 2+e.N(3)
		g.bRefs = e.P(1, 3)
		s.kind = "sequential"
	case 2:
		g.kind, g.mini = 1, []int{4, 8, 3, 5, 6, 7, 2}[e.N(7)]
		s.kind = "pyramid"
	case 3:
		g.kind, g.mini = 2, 2+e.N(6)
		s.kind = "tree"
	}
	s.kind += fmt.Sprint(g.mini)
	g.refs = []int{e.N(4), 0, e.N(10)}[e.W(4, 0, 1)]
	s.inc = 2
	if s.h265 {
		s.inc = 1
		g.cra = e.P(1, 3)
		s.p5 = e.genH265P()
	} else {
		s.p4 = e.genH264P()
		s.inc = []int{2, 1, 4}[e.W(5, 3, 1)]
		if s.inc == 4 {
			g.mini, g.kind, s.kind = 1, 0, "IP" // field pairs coded as frames, without reordering
		}
	}
	s.step = []float64{3600, 3003, 1500, 3750, 1501.5, 3753.75, 9000, 90000, 1000}[e.N(9)]
	s.vfr = e.P(1, 6)
	if base == 0 {
		base = 90000 + int64(e.U(1<<33))
	}

	var gops [][]*dpic
	n := 0
	for range groups {
		lim := max(1, min(maxPics-n, 1+e.N(60)))
		g.nMini = max(1, lim/g.mini)
		tail := 0
		if g.mini > 1 {
			tail = e.N(g.mini)
		}
		ps := g.group(r, tail)
		n += len(ps)
		gops = append(gops, ps)
	}
	s.depth = 0
	for _, ps := range gops {
		s.depth = max(s.depth, depthOf(ps))
	}
	if s.h265 {
		p := s.p5
		p.subLayers, p.ordInfo = 0, true
		if e.P(1, 5) {
			p.subLayers, p.ordInfo = 1+e.N(6), e.P(1, 2)
		}
		p.reorder = uint32(s.depth)
		if e.P(1, 6) {
			p.reorder++
		}
		s.depth = int(p.reorder)
		p.dpb = p.reorder + 2
		p.log2POC = uint32([]int{4, 12, 2, 3}[e.N(4)])
		p.extraBits = e.W(4, 1, 1)
		p.outputFlag = e.P(1, 6)
		p.depSlices = e.P(1, 6)
		if e.P(1, 8) {
			p.ppsID = uint32(e.N(64))
		}
		p.vui, p.timing = true, true
		switch e.N(3) {
		case 0: // exact
			p.units, p.scale = uint32(math.Round(s.step*4)), 360000
		case 1:
			p.timing = false
		case 2: // at most twice the duration of a picture
			p.units, p.scale = uint32(math.Round(s.step*float64(1+e.N(8)))), 360000
		}
		p.interRPS = e.P(1, 2)
		p.rps = nil
		if e.P(1, 2) { // sets in the SPS
			seen := map[string]bool{}
			for _, ps := range gops {
				for i, x := range ps {
					if i == 0 || len(p.rps) == 64 {
						continue
					}
					st := x.rps()
					k := fmt.Sprint(st)
					if !seen[k] && e.P(7, 8) {
						seen[k] = true
						p.rps = append(p.rps, st)
					}
				}
			}
		}
	} else {
		p := s.p4
		p.pocType, p.frameOnly, p.mbaff = 0, true, false
		if e.P(1, 5) {
			p.ppsID = uint32([]int{1, 31, 255, e.N(256)}[e.N(4)])
		}
		need := uint32(0)
		for 1<<(need+4) <= 2*s.inc*(2*g.mini+2) {
			need++
		}
		p.log2POC = []uint32{need, 4, 12, 6}[e.N(4)]
		p.log2POC = max(p.log2POC, need)
		if g.mini == 1 && s.inc != 4 && e.P(1, 3) {
			p.pocType = 2
		}
	}
	if e.P(1, 4) {
		s.noParam = true
	}

	first := 0
	dec := 0
	vbase := float64(base)
	tail := make([]byte, 30)
	r.fill(tail)
	for gi, ps := range gops {
		pos := make([]float64, len(ps)+1) // presentation time of each display position
		for i := range pos {
			if s.vfr {
				pos[i] = vbase
				vbase += s.step * (0.5 + float64(r.n(1000))/500)
			} else {
				pos[i] = float64(base) + float64(first+i)*s.step
			}
		}
		if s.vfr {
			vbase = pos[len(ps)]
		}
		fn := uint32(0)
		for i, x := range ps {
			a := &dtsAU{gop: gi, pts: int64(math.Round(pos[x.disp])), step: s.step, vfr: s.vfr}
			a.ideal = float64(base) + float64(dec)*s.step
			dec++
			if s.h265 {
				a.au = s.unit265(e, r, x, i, tail, gi == 0)
			} else {
				a.au = s.unit264(e, r, x, i, &fn, gi, tail)
			}
			a.ra = i == 0
			s.aus = append(s.aus, a)
		}
		first += len(ps)
	}
	e.simTime += float64(dec) * s.step / 90000
}

func (s *dtsStream) unit264(e *Env, r *rng, x *dpic, i int, fn *uint32, gop int, tail []byte) [][]byte {
	var au [][]byte
	if r.n(2) == 0 {
		au = append(au, []byte{9, 0xf0})
	}
	if i == 0 && (gop == 0 || !s.noParam) {
		au = append(au, s.p4.nalu(), []byte{0x68, 0xee, 0x3c, 0x80})
	}
	if r.n(4) == 0 {
		au = append(au, []byte{6, 5, 1, 0xaa, 0x80})
	}
	typ, ref, st := byte(1), byte(2), uint32(5)
	switch {
	case i == 0:
		typ, ref, st = 5, 3, 7
		*fn = 0
	case x.intra:
		st = 7
	case !x.anchor:
		st = 6
	}
	if x.leaf {
		ref = 0
	}
	if r.n(5) == 0 {
		st -= 5
	}
	ns := 1
	if r.n(4) == 0 {
		ns = 1 + r.n(3)
	}
	idr := uint32(gop & 1)
	if r.n(3) == 0 {
		idr = uint32(r.n(65536))
	}
	for k := range ns {
		mb := uint32(k * 120)
		au = append(au, s.p4.slice(typ, ref, st, *fn, idr, uint32(x.disp*s.inc), mb, s.p4.ppsID, tail[:r.n(len(tail))]))
	}
	if ref != 0 {
		*fn++
	}
	return au
}

func (x *dpic) rps() h265RPS {
	var st h265RPS
	for _, d := range x.s0 {
		st.s0 = append(st.s0, int32(d-x.disp))
	}
	for _, d := range x.s1 {
		st.s1 = append(st.s1, int32(d-x.disp))
	}
	return st
}

func (s *dtsStream) unit265(e *Env, r *rng, x *dpic, i int, tail []byte, firstGop bool) [][]byte {
	var au [][]byte
	if r.n(2) == 0 {
		au = append(au, []byte{35 << 1, 1, 0x50})
	}
	if i == 0 && (firstGop || !s.noParam) {
		au = append(au, s.p5.vpsNALU(r), s.p5.spsNALU(), s.p5.ppsNALU())
	}
	if r.n(4) == 0 {
		au = append(au, []byte{39 << 1, 1, 5, 1, 0xaa, 0x80})
	}
	typ, st := byte(1), uint32(1)
	switch {
	case i == 0:
		typ, st = []byte{19, 20}[r.n(2)], 2
	case x.cra:
		typ, st = 21, 2
	case x.anchor:
		if x.intra {
			st = 2
		} else if len(x.s0) > 1 && r.n(4) == 0 {
			st = 0 // low-delay B
		}
	default:
		st = 0
		if x.leaf {
			typ = 0
		}
		if x.rasl {
			typ += 8
		}
	}
	set := x.rps()
	idx := -1
	for k, c := range s.p5.rps {
		if fmt.Sprint(c) == fmt.Sprint(set) {
			idx = k
			break
		}
	}
	au = append(au, s.p5.slice(typ, st, uint32(x.disp), idx, set, tail[:8+r.n(len(tail)-8)]))
	return au
}
