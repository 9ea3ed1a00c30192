package main

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	tscodecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
)

func init() {
	register(&Prop{
		ID: "L01", Quick: 200000, Run: runL01,
		Rule:   "A run is non-trivial when the receiver decoded an element by using a configuration that an earlier element carried.",
		Real:   []string{"mpeg4audio.AudioMuxElement, StreamMuxConfig, AudioSpecificConfig, AudioSyncStream", "mpegts.Writer, mpegts.Reader (half of the runs)"},
		Stub:   []string{"sender (either the library or a bit writer written from ISO 14496-3)", "link (loss, truncation, corruption, duplication of elements; loss of transport packets; late join)"},
		Assume: []string{"payloads of variable length (frameLengthType 0), no other data, audioMuxVersion 0, which are the ones the library supports"},
	})
}

func (e *Env) drawLATMConfig() *mpeg4audio.StreamMuxConfig {
	c := &mpeg4audio.StreamMuxConfig{}
	if e.P(1, 3) {
		c.NumSubFrames = uint(e.N(4))
		if e.P(1, 8) {
			c.NumSubFrames = uint(e.N(64))
		}
	}
	np, nl := 1, 1
	if e.P(1, 3) {
		np = e.R(1, 3)
		if e.P(1, 8) {
			np = e.R(1, 16)
		}
	}
	for i := 0; i < np; i++ {
		nl = 1
		if e.P(1, 3) {
			nl = e.R(1, 3)
			if e.P(1, 8) {
				nl = e.R(1, 8)
			}
		}
		p := &mpeg4audio.StreamMuxConfigProgram{}
		for j := 0; j < nl; j++ {
			l := &mpeg4audio.StreamMuxConfigLayer{LatmBufferFullness: uint(e.N(256))}
			if (i == 0 && j == 0) || e.P(1, 2) {
				l.AudioSpecificConfig = e.drawASC()
			}
			p.Layers = append(p.Layers, l)
		}
		c.Programs = append(c.Programs, p)
	}
	if e.P(1, 4) {
		c.CRCCheckPresent, c.CRCCheckSum = true, uint8(e.N(256))
	}
	return c
}

func ascBits(w *bitw, c *mpeg4audio.AudioSpecificConfig) {
	rate := func(v int) {
		for i, r := range ascRates {
			if r == v {
				w.bits(uint64(i), 4)
				return
			}
		}
		w.bits(15, 4)
		w.bits(uint64(v), 24)
	}
	if c.ExtensionType != 0 {
		w.bits(uint64(c.ExtensionType), 5)
	} else {
		w.bits(uint64(c.Type), 5)
	}
	rate(c.SampleRate)
	w.bits(uint64(c.ChannelConfig), 4)
	if c.ExtensionType != 0 {
		rate(c.ExtensionSampleRate)
		w.bits(uint64(c.Type), 5)
	}
	w.flag(c.FrameLengthFlag)
	w.flag(c.DependsOnCoreCoder)
	if c.DependsOnCoreCoder {
		w.bits(uint64(c.CoreCoderDelay), 14)
	}
	w.flag(false)
}

func latmConfigBits(w *bitw, c *mpeg4audio.StreamMuxConfig) {
	w.flag(false) // audioMuxVersion
	w.flag(true)  // allStreamsSameTimeFraming
	w.bits(uint64(c.NumSubFrames), 6)
	w.bits(uint64(len(c.Programs)-1), 4)
	for i, p := range c.Programs {
		w.bits(uint64(len(p.Layers)-1), 3)
		for j, l := range p.Layers {
			if i != 0 || j != 0 {
				w.flag(l.AudioSpecificConfig == nil)
			}
			if l.AudioSpecificConfig != nil {
				ascBits(w, l.AudioSpecificConfig)
			}
			w.bits(uint64(l.FrameLengthType), 3)
			switch l.FrameLengthType {
			case 0:
				w.bits(uint64(l.LatmBufferFullness), 8)
			case 1:
				w.bits(uint64(l.FrameLength), 9)
			case 3, 4, 5:
				w.bits(uint64(l.CELPframeLengthTableIndex), 6)
			case 6, 7:
				w.flag(l.HVXCframeLengthTableIndex)
			}
		}
	}
	w.flag(c.OtherDataPresent)
	if c.OtherDataPresent {
		k := 0
		for v := c.OtherDataLenBits >> 8; v > 0; v >>= 8 {
			k++
		}
		for ; k >= 0; k-- {
			w.flag(k > 0)
			w.bits(uint64(c.OtherDataLenBits>>(8*k)&0xFF), 8)
		}
	}
	w.flag(c.CRCCheckPresent)
	if c.CRCCheckPresent {
		w.bits(uint64(c.CRCCheckSum), 8)
	}
}

// latmElement makes an element in the way of the standard.
func latmElement(c *mpeg4audio.StreamMuxConfig, inBand, same bool, pl [][][][]byte) []byte {
	var w bitw
	if inBand {
		w.flag(same)
		if !same {
			latmConfigBits(&w, c)
		}
	}
	for _, sub := range pl {
		for i, p := range sub {
			for j, l := range p {
				switch c.Programs[i].Layers[j].FrameLengthType {
				case 0:
				case 3, 5, 7:
					w.bits(uint64(len(l)), 2)
					continue
				default:
					continue
				}
				n := len(l)
				for n >= 255 {
					w.bits(255, 8)
					n -= 255
				}
				w.bits(uint64(n), 8)
			}
		}
		for _, p := range sub {
			for _, l := range p {
				for _, b := range l {
					w.bits(uint64(b), 8)
				}
			}
		}
	}
	if c.OtherDataPresent {
		for range c.OtherDataLenBits {
			w.flag(true)
		}
	}
	for w.n%8 != 0 {
		w.flag(false)
	}
	return w.b
}

// strangeLATM is a configuration that is valid, and that elements of the library cannot have.
func (e *Env) strangeLATM() *mpeg4audio.StreamMuxConfig {
	c := e.drawLATMConfig()
	c.NumSubFrames = uint(e.N(3))
	if e.P(1, 2) {
		c.OtherDataPresent = true
		c.OtherDataLenBits = uint32([]int{e.N(256), e.N(5000), 256, 255, 65536}[e.N(5)])
		return c
	}
	p := c.Programs[e.N(len(c.Programs))]
	l := p.Layers[e.N(len(p.Layers))]
	l.LatmBufferFullness = 0
	l.FrameLengthType = []uint{1, 3, 4, 5, 6, 7}[e.N(6)]
	switch l.FrameLengthType {
	case 1:
		l.FrameLength = uint(e.N(512))
	case 3, 4, 5:
		l.CELPframeLengthTableIndex = uint(e.N(64))
	default:
		l.HVXCframeLengthTableIndex = e.P(1, 2)
	}
	return c
}

// strangeElement sends an element that the library does not support: it has to be refused by both sides.
func (e *Env) strangeElement(rx *mpeg4audio.AudioMuxElement, inBand bool) (taken bool) {
	c := e.strangeLATM()
	buf, err := c.Marshal()
	mustNil(e, err, "marshal-error")
	var w bitw
	latmConfigBits(&w, c)
	for w.n%8 != 0 {
		w.flag(false)
	}
	e.Check(bytes.Equal(buf, w.b), "config-bits", "configuration written as %x instead of %x", buf, w.b)
	var c2 mpeg4audio.StreamMuxConfig
	mustNil(e, c2.Unmarshal(buf), "config-read-error")
	e.Check(latmConfStr(&c2) == latmConfStr(c), "config-differs", "got %s want %s", latmConfStr(&c2), latmConfStr(c))

	var pl [][][][]byte
	r := e.Sub()
	for range c.NumSubFrames + 1 {
		var x [][][]byte
		for _, p := range c.Programs {
			var y [][]byte
			for _, l := range p.Layers {
				n := r.n(50)
				if l.FrameLengthType != 0 {
					n = []int{0, int(l.FrameLength) + 20, 0, r.n(4), 24, r.n(4), 10, r.n(4)}[l.FrameLengthType]
				}
				b := make([]byte, n)
				r.fill(b)
				y = append(y, b)
			}
			x = append(x, y)
		}
		pl = append(pl, x)
	}
	raw := latmElement(c, inBand, false, pl)
	out, err := mpeg4audio.AudioMuxElement{MuxConfigPresent: inBand, StreamMuxConfig: c, Payloads: pl}.Marshal()
	if err == nil {
		e.Check(bytes.Equal(out, raw), "element-bits", "an element written as %x instead of %x (config %s)", clipB(out), clipB(raw), clip(latmConfStr(c)))
	}
	e.Ev("strange", raw)
	e.Fault("unsupported-element")
	if !inBand {
		rx = &mpeg4audio.AudioMuxElement{StreamMuxConfig: c}
	}
	before := latmConfStr(rx.StreamMuxConfig)
	if err = rx.Unmarshal(raw); err == nil {
		e.Check(latmPayStr(rx.Payloads) == latmPayStr(pl), "unsupported-accepted", "an element with configuration %s was decoded to %s instead of %s", clip(latmConfStr(c)), clip(latmPayStr(rx.Payloads)), clip(latmPayStr(pl)))
		return inBand
	}
	e.Check(latmConfStr(rx.StreamMuxConfig) == before, "refused-config-taken", "an element that was refused (%v) left the receiver with configuration %s; before: %s", err, clip(latmConfStr(rx.StreamMuxConfig)), clip(before))
	return false
}

func latmConfStr(c *mpeg4audio.StreamMuxConfig) string {
	if c == nil {
		return "<nil>"
	}
	s := fmt.Sprintf("sub %d other %v/%d crc %v/%d", c.NumSubFrames, c.OtherDataPresent, c.OtherDataLenBits, c.CRCCheckPresent, c.CRCCheckSum)
	for _, p := range c.Programs {
		s += " ["
		for _, l := range p.Layers {
			if l.AudioSpecificConfig != nil {
				s += fmt.Sprintf(" %+v", *l.AudioSpecificConfig)
			}
			s += fmt.Sprintf(" %d/%d/%d/%d/%v;", l.FrameLengthType, l.LatmBufferFullness, l.FrameLength, l.CELPframeLengthTableIndex, l.HVXCframeLengthTableIndex)
		}
		s += "]"
	}
	return s
}

func latmPayStr(pl [][][][]byte) string {
	s := ""
	for _, a := range pl {
		s += "("
		for _, b := range a {
			s += "["
			for _, c := range b {
				s += fmt.Sprintf("%d:%x ", len(c), hashBytes(c))
			}
			s += "]"
		}
		s += ")"
	}
	return s
}

type latmSent struct {
	ver  int // configuration in force
	same bool
	pl   [][][][]byte
	raw  []byte
}

func runL01(e *Env) {
	inBand := !e.P(1, 6)
	n := 2 + e.N(14)
	var confs []*mpeg4audio.StreamMuxConfig
	var sent []*latmSent
	r := e.Sub()
	every := e.R(1, 6)
	lib := &mpeg4audio.AudioMuxElement{MuxConfigPresent: inBand}
	for i := 0; i < n; i++ {
		change := len(confs) == 0 || (inBand && e.P(1, 6))
		if change {
			confs = append(confs, e.drawLATMConfig())
		}
		c := confs[len(confs)-1]
		s := &latmSent{ver: len(confs) - 1, same: inBand && !change && i%every != 0}
		big := e.P(1, 10)
		huge := big && e.P(1, 2)
		total := 0
		for a := uint(0); a <= c.NumSubFrames; a++ {
			var x [][][]byte
			for _, p := range c.Programs {
				var y [][]byte
				for range p.Layers {
					sz := e.W(1, 8) * r.n(40)
					switch {
					case big && r.n(3) == 0:
						sz = r.n(1200)
						if huge {
							sz = r.n(7000)
						}
					case r.n(8) == 0:
						sz = 253 + r.n(5) // around the length escape
					}
					if total+sz > 7000 {
						sz = 0
					}
					total += sz
					b := make([]byte, sz)
					r.fill(b)
					y = append(y, b)
				}
				x = append(x, y)
			}
			s.pl = append(s.pl, x)
		}
		s.raw = latmElement(c, inBand, s.same, s.pl)
		// the library must produce the same bits, whatever it sent before
		lib.StreamMuxConfig, lib.UseSameStreamMux, lib.Payloads = c, s.same, s.pl
		if !inBand {
			lib.UseSameStreamMux = false
		}
		out, err := lib.Marshal()
		mustNil(e, err, "marshal-error")
		if !bytes.Equal(out, s.raw) {
			e.Fail("element-bits", "element %d written as %x instead of %x (config %s)", i, clipB(out), clipB(s.raw), clip(latmConfStr(c)))
		}
		sent = append(sent, s)
		e.Ev("el", s.ver, s.same, len(s.raw), hashBytes(s.raw))
	}

	rx := &mpeg4audio.AudioMuxElement{MuxConfigPresent: inBand}
	if !inBand { // the configuration is sent apart
		buf, err := confs[0].Marshal()
		mustNil(e, err, "marshal-error")
		var w bitw
		latmConfigBits(&w, confs[0])
		for w.n%8 != 0 {
			w.flag(false)
		}
		e.Check(bytes.Equal(buf, w.b), "config-bits", "configuration written as %x instead of %x", buf, w.b)
		var c mpeg4audio.StreamMuxConfig
		mustNil(e, c.Unmarshal(buf), "config-read-error")
		e.Check(latmConfStr(&c) == latmConfStr(confs[0]), "config-differs", "got %s want %s", latmConfStr(&c), latmConfStr(confs[0]))
		rx.StreamMuxConfig = &c
		// the first codec configuration, at its place
		pos := 12 + 3
		var asc mpeg4audio.AudioSpecificConfig
		mustNil(e, asc.UnmarshalFromPos(buf, &pos), "config-read-error")
		e.Check(fmt.Sprint(asc) == fmt.Sprint(*c.Programs[0].Layers[0].AudioSpecificConfig), "config-differs", "got %v want %v", asc, *c.Programs[0].Layers[0].AudioSpecificConfig)
	}
	ver := -1 // configuration the receiver has; -1 none, -2 unknown
	if !inBand {
		ver = 0
	}
	var kept []*latmSent
	var keptPl [][][][][]byte

	receive := func(i int) {
		s := sent[i]
		err := rx.Unmarshal(s.raw)
		switch {
		case !s.same && inBand:
			ver = s.ver
			mustNil(e, err, "element-with-config-refused")
		case ver == -1:
			e.Check(err != nil, "no-config-accepted", "element %d was decoded without any configuration", i)
			return
		case ver != s.ver:
			return // the sender went over to a configuration that was lost, and nothing says so
		default:
			if err != nil {
				e.Fail("element-refused", "element %d of configuration %d: %v", i, s.ver, err)
			}
			if inBand {
				e.NonTrivial()
			}
		}
		if g, w := latmPayStr(rx.Payloads), latmPayStr(s.pl); g != w {
			e.Fail("payload-differs", "element %d: got %s want %s", i, clip(g), clip(w))
		}
		if g, w := latmConfStr(rx.StreamMuxConfig), latmConfStr(confs[s.ver]); g != w {
			e.Fail("config-differs", "element %d: got %s want %s", i, clip(g), clip(w))
		}
		kept, keptPl = append(kept, s), append(keptPl, rx.Payloads)
	}

	damage := func(i int) {
		s := sent[i]
		b := append([]byte(nil), s.raw...)
		trunc := e.P(1, 2)
		if trunc {
			b = b[:e.N(len(b))]
			e.Fault("element-truncated")
		} else {
			k := 1 + e.N(3)
			for ; k > 0; k-- {
				p := e.N(len(b))
				if e.P(1, 2) {
					p = e.N(min(len(b), 12))
				}
				b[p] ^= byte(1 << e.N(8))
			}
			e.Fault("element-corrupted")
		}
		before := latmConfStr(rx.StreamMuxConfig)
		err := rx.Unmarshal(b)
		after := latmConfStr(rx.StreamMuxConfig)
		if trunc && err == nil && (ver == s.ver || (inBand && !s.same)) {
			e.Fail("cut-element-accepted", "element %d cut to %d of %d bytes was decoded without error", i, len(b), len(s.raw))
		}
		switch {
		case after == before:
			// what was in force still is
			if err != nil {
				e.Probe("refused-config-kept")
			}
		case trunc && inBand && !s.same && after == latmConfStr(confs[s.ver]):
			ver = s.ver // the configuration arrived
		case trunc:
			// a cut element was taken as the carrier of another configuration
			e.Fail("cut-config-taken", "element %d cut to %d of %d bytes (error %v) left the receiver with configuration %s; before: %s, sent: %s", i, len(b), len(s.raw), err, clip(after), clip(before), clip(latmConfStr(confs[s.ver])))
		default:
			ver = -2
		}
	}

	first := 0
	if inBand && e.P(1, 3) {
		first = e.N(n)
		if first > 0 {
			e.Fault("late-join")
		}
	}

	if e.P(1, 2) {
		// elements carried one by one
		loss := e.N(3)
		for i := first; i < n; i++ {
			if e.P(1, 12) && e.strangeElement(rx, inBand) {
				ver = -2
			}
			switch {
			case loss > 0 && e.P(1, 6):
				e.Fault("element-lost")
			case loss > 1 && e.P(1, 5):
				damage(i)
			default:
				receive(i)
				if loss > 0 && e.P(1, 8) {
					e.Fault("element-repeated")
					receive(i)
				}
			}
		}
	} else {
		// carried by a transport stream
		tr := &mpegts.Track{PID: 256, Codec: &tscodecs.MPEG4AudioLATM{}}
		sink := e.newSink()
		mw := &mpegts.Writer{W: sink, Tracks: []*mpegts.Track{tr}}
		mustNil(e, mw.Initialize(), "write-error")
		if first > 0 {
			sink.buf = nil
		}
		at := map[int64][]int{}
		pts := int64(90000)
		for i := first; i < n; {
			k := 1 + e.W(5, 2, 1)
			var els [][]byte
			var idx []int
			for ; k > 0 && i < n; k-- {
				if len(sent[i].raw) > 8191 { // does not fit
					err := mw.WriteMPEG4AudioLATM(tr, pts, [][]byte{sent[i].raw})
					e.Check(err != nil, "oversized-accepted", "an element of %d bytes was written without error", len(sent[i].raw))
					i++
					break
				}
				els = append(els, sent[i].raw)
				idx = append(idx, i)
				i++
			}
			if len(els) == 0 {
				continue
			}
			at[pts] = idx
			mustNil(e, mw.WriteMPEG4AudioLATM(tr, pts, els), "write-error")
			pts += 1920
		}
		wire := sink.buf
		units, delivered, intact := len(at), 0, true
		if e.P(1, 2) {
			var out []byte
			for p := 0; p+188 <= len(wire); p += 188 {
				pid := int(wire[p+1]&0x1F)<<8 | int(wire[p+2])
				if pid == 256 && e.P(1, 12) {
					e.Fault("packet-lost")
					intact = false
					continue
				}
				out = append(out, wire[p:p+188]...)
			}
			wire = out
		}
		rd := &mpegts.Reader{R: bytes.NewReader(wire)}
		if err := rd.Initialize(); err != nil {
			// all of the data was lost
			e.Check(!intact || units == 0, "not-opened", "the stream cannot be opened: %v", err)
			e.Probe("not-opened")
			return
		}
		rd.OnDecodeError(func(err error) {
			e.Check(!intact, "decode-error", "error on an intact stream: %v", err)
		})
		rd.OnDataMPEG4AudioLATM(rd.Tracks()[0], func(pts int64, els [][]byte) error {
			idx := at[pts]
			delivered++
			if len(idx) != len(els) {
				e.Fail("unit-differs", "unit at %d has %d elements instead of %d", pts, len(els), len(idx))
			}
			for j, el := range els {
				if !bytes.Equal(el, sent[idx[j]].raw) {
					e.Fail("unit-differs", "element %d was altered by the transport", idx[j])
				}
				receive(idx[j])
			}
			return nil
		})
		for rd.Read() == nil {
		}
		e.Check(!intact || delivered == units, "unit-lost", "%d of %d units were delivered, and nothing was lost", delivered, units)
	}

	// nothing that was delivered changes later
	for i, s := range kept {
		if latmPayStr(keptPl[i]) != latmPayStr(s.pl) {
			e.Fail("payload-altered", "a delivered payload changed later")
		}
	}
}
