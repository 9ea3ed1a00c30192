package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/asticode/go-astits"

	tscodecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

// A multiplexer written from ISO 13818-1 alone, that uses what the standard
// permits and the writer of the library never does: packets of several tracks
// interleaved by a scheduler, stuffing anywhere, payload-less packets, repeated
// packets and tables, long tables, optional PES fields, other framings.

func init() {
	register(&Prop{
		ID: "T11", Quick: 150000, Run: runT11,
		Rule: "A run is non-trivial when packets of different tracks were interleaved, or a feature that the writer of the library does not use was present, and at least one unit was delivered.",
		Real: []string{"mpegts.Reader", "robust demuxer", "preDemuxer", "rewindablereader", "codec de-framing", "go-astits demuxer"},
		Stub: []string{"foreign multiplexer (seeded scheduler of packets, written from the standard)", "network (segmentation)"},
		Assume: []string{"one access unit per PES, one AC-3 frame per PES, ADTS without CRC and with one frame per header: the reader reports anything else as not supported",
			"no unit of unspecified length is followed, on its track, by a unit of specified length that fits in a packet (known finding of T01)",
			"the first packet of a unit holds at least 3 bytes of it",
			"an asynchronous KLV unit may get any timestamp that was the last one while its packets were arriving"},
	})
}

var adtsRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// frames builds the elementary stream of a unit, as any encoder may do.
func (c *tsCase) frames(u *tsUnit) []byte {
	e := c.e
	t := c.tracks[u.track]
	var b []byte
	switch t.kind {
	case kH264, kH265:
		sc := func(first bool) {
			if e.P(1, 2) {
				b = append(b, 0)
			}
			b = append(b, 0, 0, 1)
		}
		if e.P(1, 2) {
			sc(true)
			if t.kind == kH264 {
				b = append(b, 9, byte(e.N(8))<<5|0x10)
			} else {
				b = append(b, 0x46, 1, byte(e.N(3))<<5|0x10)
			}
		}
		for _, n := range u.data {
			sc(false)
			b = append(b, n...)
		}
	case kOpus:
		for _, p := range u.data {
			h := []byte{0x7f, 0xe0}
			f := 0
			if e.P(1, 3) {
				f = e.N(8)
			}
			h[1] |= byte(f << 2)
			n := len(p)
			for ; n >= 255; n -= 255 {
				h = append(h, 255)
			}
			h = append(h, byte(n))
			var trim [2]int
			ext := 0
			for i := range trim {
				if f&(4>>i) != 0 {
					trim[i] = e.N(1 << 13)
					h = append(h, byte(trim[i]>>8), byte(trim[i]))
				}
			}
			if f&1 != 0 {
				x := e.blob(0, 30)
				if e.P(1, 20) {
					x = e.blob(200, 255)
				}
				h = append(append(h, byte(len(x))), x...)
				ext = len(x)
			}
			if f != 0 {
				e.Fault("opus-control-fields")
			}
			au := substructs.OpusAccessUnit{Packet: p, ControlHeader: substructs.OpusControlHeader{
				PayloadSize: len(p), StartTrimFlag: f&4 != 0, EndTrimFlag: f&2 != 0, ControlExtensionFlag: f&1 != 0,
				StartTrim: uint16(trim[0]), EndTrim: uint16(trim[1]), ControlExtensionLength: byte(ext),
			}}
			e.opusStructure(&au, append(h[:len(h):len(h)], p...), len(h), ext)
			b = append(append(b, h...), p...)
		}
	case kAAC:
		cfg := codecView(t.want).([]any)
		var typ, sr, ch int
		fmt.Sscan(fmt.Sprint(int(toInt(cfg[1])), " ", toInt(cfg[2]), " ", toInt(cfg[3])), &typ, &sr, &ch)
		si := 0
		for i, r := range adtsRates {
			if r == sr {
				si = i
			}
		}
		for _, p := range u.data {
			n := len(p) + 7
			h := []byte{0xff, 0xf1 | byte(e.N(2))<<3, byte(typ-1)<<6 | byte(si)<<2 | byte(ch>>2)&1, byte(ch&3)<<6 | byte(n>>11), byte(n >> 3), byte(n<<5) | 0x1f, 0xfc}
			if e.P(1, 2) { // private bits, buffer fullness
				h[2] |= byte(e.N(2)) << 1
				h[3] |= byte(e.N(16)) << 2
				h[5] = h[5]&0xe0 | byte(e.N(32))
				h[6] = byte(e.N(64)) << 2
			}
			b = append(append(b, h...), p...)
		}
	case kLATM:
		for _, p := range u.data {
			b = append(b, 0x56, 0xe0|byte(len(p)>>8), byte(len(p)))
			b = append(b, p...)
		}
	case kKLVSync:
		d := u.data[0]
		n := 1
		if len(d) > 1 && e.P(1, 2) {
			n = min(2+e.N(6), len(d))
			e.Fault("fragmented-metadata")
		}
		// cells are numbered through the whole stream (ISO 13818-1, 2.12.4)
		seq := c.klvSeq[u.track]
		if c.klvSeq != nil {
			c.klvSeq[u.track] += byte(n)
		}
		svc := byte(0)
		if e.P(1, 3) {
			svc = byte(e.N(256))
		}
		for i := range n {
			k := len(d)
			if i < n-1 {
				k = e.N(len(d) + 1)
			}
			ind := byte(0)
			switch {
			case n == 1:
				ind = 3
			case i == 0:
				ind = 2
			case i == n-1:
				ind = 1
			}
			cell := substructs.MetadataAUCell{MetadataServiceID: svc, SequenceNumber: seq + byte(i), CellFragmentIndication: ind, RandomAccessIndicator: e.P(1, 2), AUCellData: d[:k:k]}
			at := len(b)
			b = append(b, svc, seq+byte(i), ind<<6|byte(b2i(cell.RandomAccessIndicator))<<4|0x0f, byte(k>>8), byte(k))
			b = append(b, d[:k]...)
			w := make([]byte, 5+k)
			wn, err := cell.MarshalTo(w)
			var out substructs.MetadataAUCell
			rn, rerr := out.Unmarshal(b[at:])
			e.same("metadata AU cell", b[at:], w[:wn], err, cell, out, rerr)
			e.Check(rn == 5+k, "structure-read", "metadata AU cell of %d bytes: %d read", 5+k, rn)
			d = d[k:]
		}
	default:
		for _, d := range u.data {
			b = append(b, d...)
		}
	}
	return b
}

func toInt(v any) int {
	n := 0
	fmt.Sscan(fmt.Sprintf("%d", v), &n)
	return n
}

func putClock(prefix byte, v int64) []byte {
	v &= ts33
	return []byte{prefix<<4 | byte(v>>29)&0x0e | 1, byte(v >> 22), byte(v>>14)&0xfe | 1, byte(v >> 7), byte(v<<1) | 1}
}

// foreignPES builds the PES of a unit.
func (c *tsCase) foreignPES(u *tsUnit, es []byte, unbounded bool) []byte {
	e := c.e
	t := c.tracks[u.track]
	sid := byte(0xbd)
	switch {
	case isVideoKind(t.kind):
		sid = 0xe0 + byte(e.N(16))
	case t.kind == kKLVSync:
		sid = 0xfc
	case t.kind == kAAC || t.kind == kLATM || t.kind == kMP1A:
		sid = 0xc0 + byte(e.N(32))
	}
	f1 := byte(0x80 | e.N(2)<<2)
	if e.P(1, 4) {
		f1 |= byte(e.N(4)) | byte(e.N(2))<<3
	}
	var f2 byte
	var opt []byte
	if t.kind != kKLVAsync {
		if u.pts&ts33 != u.dts&ts33 || e.P(1, 4) {
			f2 |= 0xc0
			opt = append(opt, putClock(3, u.pts)...)
			opt = append(opt, putClock(1, u.dts)...)
		} else {
			f2 |= 0x80
			opt = append(opt, putClock(2, u.pts)...)
		}
	}
	if e.P(1, 5) {
		e.Fault("pes-optional-fields")
		if e.P(1, 3) { // ESCR
			f2 |= 0x20
			b := e.U(1 << 33)
			x := e.U(300)
			opt = append(opt, 0xc0|byte(b>>27)&0x38|4|byte(b>>28)&3, byte(b>>20), byte(b>>12)&0xf8|4|byte(b>>13)&3, byte(b>>5), byte(b<<3)|4|byte(x>>7), byte(x<<1)|1)
		}
		if e.P(1, 3) { // ES rate
			f2 |= 0x10
			v := e.N(1 << 22)
			opt = append(opt, 0x80|byte(v>>15), byte(v>>7), byte(v<<1)|1)
		}
		if e.P(1, 4) { // copy info
			f2 |= 4
			opt = append(opt, 0x80|byte(e.N(128)))
		}
		if e.P(1, 4) { // CRC of the previous PES
			f2 |= 2
			opt = append(opt, byte(e.N(256)), byte(e.N(256)))
		}
		if e.P(1, 3) { // extension
			f2 |= 1
			x := byte(0x0e)
			var d []byte
			if e.P(1, 2) {
				x |= 0x80
				d = append(d, e.blob(16, 16)...)
			}
			if e.P(1, 3) { // sequence counter
				x |= 0x20
				d = append(d, 0x80|byte(e.N(128)), 0x80|byte(e.N(128)))
			}
			if e.P(1, 3) { // P-STD buffer
				x |= 0x10
				d = append(d, 0x40|byte(e.N(64)), byte(e.N(256)))
			}
			if e.P(1, 3) {
				x |= 1
				l := e.blob(1, 9)
				d = append(d, 0x80|byte(len(l)))
				d = append(d, l...)
			}
			opt = append(append(opt, x), d...)
		}
	}
	if e.P(1, 4) {
		for range e.R(1, 32) {
			opt = append(opt, 0xff)
		}
		e.Fault("pes-stuffing")
	}
	n := 3 + len(opt) + len(es)
	if unbounded || n > 0xffff {
		n = 0
	}
	p := []byte{0, 0, 1, sid, byte(n >> 8), byte(n), f1, f2, byte(len(opt))}
	return append(append(p, opt...), es...)
}

// section wraps a table.
func section(id byte, ext int, body []byte) []byte {
	l := 5 + len(body) + 4
	s := []byte{id, 0xb0 | byte(l>>8), byte(l), byte(ext >> 8), byte(ext), 0xc1, 0, 0}
	s = append(s, body...)
	crc := crcMPEG(s)
	return append(s, byte(crc>>24), byte(crc>>16), byte(crc>>8), byte(crc))
}

// descriptors of a track, from the standards.
func (c *tsCase) foreignStream(t *tsTrack) []byte {
	e := c.e
	typ := []byte{kH264: 0x1b, kH265: 0x24, kMPEG4V: 0x10, kMPEG1V: 0x02, kOpus: 6, kAAC: 0x0f, kLATM: 0x11, kMP1A: 3, kAC3: 0x81, kEAC3: 0x87, kKLVSync: 0x15, kKLVAsync: 6, kDVB: 6}[t.kind]
	if t.kind == kMPEG1V && e.P(1, 2) {
		typ = 1
	}
	var ds [][]byte
	d := func(tag byte, b []byte) { ds = append(ds, append([]byte{tag, byte(len(b))}, b...)) }
	switch t.kind {
	case kOpus:
		d(5, []byte("Opus"))
		o := codecView(t.want).([]any)
		od := opusDescriptor(o[2])
		d(0x7f, append([]byte{0x80}, od...))
		w, err := o[2].(substructs.OpusAudioDescriptor).Marshal()
		var out substructs.OpusAudioDescriptor
		rerr := out.Unmarshal(od)
		e.same("Opus descriptor", od, w, err, o[2], out, rerr)
	case kKLVAsync:
		d(5, []byte("KLVA"))
	case kKLVSync:
		d(0x26, e.metadataDescriptor(true))
		if e.P(1, 2) {
			d(0x27, e.metadataSTD())
		}
		if e.P(1, 6) {
			d(0x26, e.metadataDescriptor(false))
		}
	case kDVB:
		var b []byte
		for _, it := range dvbItems(t.want) {
			b = append(b, it.Language...)
			b = append(b, it.Type, byte(it.CompositionPageID>>8), byte(it.CompositionPageID), byte(it.AncillaryPageID>>8), byte(it.AncillaryPageID))
		}
		d(0x59, b)
	}
	if t.lang != "" {
		d(0x0a, append([]byte(t.lang), byte(e.N(4))))
	}
	n := e.W(4, 2, 1, 1)
	if e.P(1, 20) {
		n = 10
	}
	for range n { // other descriptors
		switch e.N(7) {
		case 6: // the content of another descriptor behind a tag of no meaning to the reader
			x := [][]byte{
				e.metadataDescriptor(true), []byte("KLVA"), []byte("Opus"), []byte("AC-3"), append([]byte{0x80}, byte(e.N(9))),
				{'e', 'n', 'g', 0x10, 0, 1, 0, 1}, []byte("eng\x00"),
			}[e.N(7)]
			d([]byte{0x27, 0x2b, 0x1b, 0x80, 0xc3, 0xfd, 0x3f}[e.N(7)], x)
			e.Fault("lookalike-descriptor")
		case 5: // extension descriptor: message, target region, service relocated, or not assigned
			x := []byte{0x08, 0x09, 0x0b, 0x18, 0x40, 0x7e}[e.N(6)]
			d(0x7f, append([]byte{x}, e.blob(1, 20)...))
		case 0:
			d(0x52, []byte{byte(e.N(256))}) // stream identifier
		case 1:
			d(0x0e, []byte{0xc0, byte(e.N(256)), byte(e.N(256))}) // maximum bit rate
		case 2:
			d(byte(0x80+e.N(0x7e)), e.blob(1, 20)) // user defined
		case 3:
			d(0x06, []byte{2}) // data stream alignment
		case 4:
			d(byte(0xc0+e.N(0x3e)), e.blob(1, 60))
		}
		e.Fault("foreign-descriptor")
	}
	if len(ds) > 1 && e.P(1, 2) {
		i, j := e.N(len(ds)), e.N(len(ds))
		ds[i], ds[j] = ds[j], ds[i]
	}
	var all []byte
	for _, x := range ds {
		all = append(all, x...)
	}
	pid := t.tr.PID
	return append([]byte{typ, 0xe0 | byte(pid>>8), byte(pid), 0xf0 | byte(len(all)>>8), byte(len(all))}, all...)
}

// fpkt is a packet in the queue of the scheduler.
type fpkt struct {
	pid  int
	pusi bool
	af   []byte // adaptation field without its length, nil = none
	pay  []byte
	unit int // -1: none
	end  bool
	pts  int64 // timestamp in it, -1 = none
}

func (p *fpkt) bytes(cc int) []byte {
	b := []byte{0x47, byte(p.pid >> 8), byte(p.pid), byte(cc & 15)}
	if p.pusi {
		b[1] |= 0x40
	}
	if len(p.pay) > 0 {
		b[3] |= 0x10
	}
	if room := 184 - len(p.pay); room > 0 {
		b[3] |= 0x20
		b = append(b, byte(room-1))
		if room > 1 {
			af := p.af
			if af == nil {
				af = []byte{0}
			}
			b = append(b, af...)
			for len(b) < 188-len(p.pay) {
				b = append(b, 0xff)
			}
		}
	}
	return append(b, p.pay...)
}

// adaptation draws the fields of an adaptation field.
func (e *Env) adaptation(pcr bool) []byte {
	af := []byte{0}
	if e.P(1, 6) {
		af[0] |= byte(e.N(4)) << 5 // random access, priority
	}
	if pcr {
		af[0] |= 0x10
		b, x := e.U(1<<33), e.U(300)
		af = append(af, byte(b>>25), byte(b>>17), byte(b>>9), byte(b>>1), byte(b<<7)|0x7e|byte(x>>8), byte(x))
		if e.P(1, 5) {
			af[0] |= 8
			af = append(af, af[1:7]...)
		}
	}
	if e.P(1, 10) {
		af[0] |= 4
		af = append(af, byte(e.N(256)))
	}
	if e.P(1, 8) {
		af[0] |= 2
		d := e.blob(1, 12)
		af = append(append(af, byte(len(d))), d...)
	}
	if e.P(1, 12) { // extension: legal time window, piecewise rate, seamless splice
		af[0] |= 1
		x := []byte{0x1f}
		if e.P(1, 2) {
			x[0] |= 0x80
			x = append(x, 0x80|byte(e.N(128)), byte(e.N(256)))
		}
		if e.P(1, 2) {
			x[0] |= 0x40
			x = append(x, 0xc0|byte(e.N(64)), byte(e.N(256)), byte(e.N(256)))
		}
		if e.P(1, 2) {
			x[0] |= 0x20
			x = append(x, putClock(byte(e.N(16)), int64(e.U(1<<33)))...)
		}
		af = append(append(af, byte(len(x))), x...)
	}
	return af
}

// split packetises a payload.
func (e *Env) split(pid int, b []byte, pes bool) []*fpkt {
	var out []*fpkt
	style := e.N(3)
	for first := true; len(b) > 0; first = false {
		p := &fpkt{pid: pid, pusi: first, unit: -1, pts: -1}
		room := 184
		if pes {
			if style == 1 && e.P(1, 5) || style == 2 && e.P(1, 2) || first && e.P(1, 3) {
				p.af = e.adaptation(e.P(1, 3))
				room -= 1 + len(p.af)
			}
			k := min(room, len(b))
			if style != 0 && e.P(1, 6) && !(first && len(b) > 20) {
				lo := 1
				if first {
					lo = 3
				}
				k = e.R(min(lo, k), k)
				e.Fault("stuffing")
			} else if first && e.P(1, 20) {
				k = e.R(min(k, 3+e.N(18)), k)
			}
			room = k
			// a field that does not fit with the rest
		}
		k := min(room, len(b))
		p.pay = b[:k]
		b = b[k:]
		out = append(out, p)
	}
	return out
}

func runT11(e *Env) {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 24, maxTracks: 5, small: e.P(2, 3), lsf: true})
	feats := len(e.faults)
	used := map[int]bool{0x1000: true}
	pmtPID := 0x1000
	for _, t := range c.tracks { // PIDs that were chosen already
		used[int(t.tr.PID)] = true
	}
	for _, t := range c.tracks {
		if t.tr.PID == 0 {
			t.tr.PID = uint16(0x100 + e.N(64))
			for used[int(t.tr.PID)] {
				t.tr.PID++
			}
		}
		used[int(t.tr.PID)] = true
	}
	freePID := func() int {
		p := 0x20 + e.N(0x1f00)
		if e.P(1, 3) { // like that of a track, but for the high bits
			p = int(c.tracks[e.N(len(c.tracks))].tr.PID)&0xff | (1+e.N(30))<<8
		}
		for used[p] || p == 0 || p >= 0x1fff {
			p = (p+1)&0x1fff | 0x20
		}
		used[p] = true
		return p
	}
	if e.P(1, 3) {
		pmtPID = freePID()
	}
	// streams that the reader does not support
	var alien []int
	for range e.W(5, 1, 1) {
		alien = append(alien, freePID())
	}
	// tables
	prog := 1 + e.N(0xfffe)
	pat := []byte{byte(prog >> 8), byte(prog), 0xe0 | byte(pmtPID>>8), byte(pmtPID)}
	if e.P(1, 4) { // network information
		pat = append([]byte{0, 0, 0xe0, 0x10}, pat...)
		e.Fault("network-pid")
	}
	prog2, pid2, pmt2 := 0, 0, 0
	var pmt2S []byte
	if e.P(1, 5) { // a second program, that the reader leaves alone
		prog2 = prog%0xfffe + 1
		pmt2, pid2 = freePID(), freePID()
		x := []byte{byte(prog2 >> 8), byte(prog2), 0xe0 | byte(pmt2>>8), byte(pmt2)}
		if e.P(1, 2) {
			pat = append(pat, x...)
		} else {
			pat = append(x, pat...)
		}
		pmt2S = []byte{0xe0 | byte(pid2>>8), byte(pid2), 0xf0, 0, []byte{0x1b, 0x0f, 0x24}[e.N(3)], 0xe0 | byte(pid2>>8), byte(pid2), 0xf0, 0}
		pmt2S = append([]byte{0}, section(2, prog2, pmt2S)...)
		e.Fault("second-program")
	}
	pcrPID := freePID()
	if e.P(2, 3) {
		pcrPID = int(c.tracks[e.N(len(c.tracks))].tr.PID)
	}
	var pinfo []byte
	for range e.W(4, 1, 1) {
		d := e.blob(1, 40)
		pinfo = append(append(pinfo, byte(0x80+e.N(0x7e)), byte(len(d))), d...)
		e.Fault("foreign-descriptor")
	}
	pmt := []byte{0xe0 | byte(pcrPID>>8), byte(pcrPID), 0xf0 | byte(len(pinfo)>>8), byte(len(pinfo))}
	pmt = append(pmt, pinfo...)
	type slot struct{ track, alien int }
	var slots []slot
	for i := range c.tracks {
		slots = append(slots, slot{i, -1})
	}
	for i := range alien {
		k := e.N(len(slots) + 1)
		slots = append(slots[:k:k], append([]slot{{-1, i}}, slots[k:]...)...)
	}
	for _, s := range slots {
		if s.track >= 0 {
			pmt = append(pmt, c.foreignStream(c.tracks[s.track])...)
			continue
		}
		p := alien[s.alien]
		typ := []byte{0x86, 0x05, 0x0d, 0x80, 0x06, 0x33, 0x21}[e.N(7)]
		pmt = append(pmt, typ, 0xe0|byte(p>>8), byte(p), 0xf0, 0)
		e.Fault("unsupported-stream")
	}
	if len(pmt) > 1000 {
		e.Discard()
	}
	patS, pmtS := append([]byte{0}, section(0, 1+e.N(9), pat)...), append([]byte{0}, section(2, prog, pmt)...)
	pad := func(b []byte) []byte {
		for len(b)%184 != 0 {
			b = append(b, 0xff)
		}
		return b
	}
	patS, pmtS = pad(patS), pad(pmtS)
	if pmt2 != 0 {
		pmt2S = pad(pmt2S)
		alien = append(alien, pid2)
	}
	if len(pmtS) > 184 {
		e.Fault("long-table")
	}

	// queues of packets
	qs := map[int][]*fpkt{}
	queue := func(p []*fpkt) { qs[p[0].pid] = append(qs[p[0].pid], p...) }
	type single struct{ whole bool }
	pkts := make([]int, len(c.units))
	lastUnb := map[int]bool{}
	unbMode := make([]int, len(c.tracks))
	for i := range c.tracks {
		unbMode[i] = e.N(3)
	}
	if e.P(1, 2) {
		c.klvSeq = map[int]byte{}
		for i := range c.tracks {
			c.klvSeq[i] = byte(e.N(256))
		}
	}
	for ui, u := range c.units {
		t := c.tracks[u.track]
		es := c.frames(u)
		unb := isVideoKind(t.kind) && (unbMode[u.track] == 0 || unbMode[u.track] == 1 && e.P(1, 3))
		if !isVideoKind(t.kind) && len(es) > 0xffff-80 {
			e.Discard()
		}
		pes := c.foreignPES(u, es, unb)
		ps := e.split(int(t.tr.PID), pes, true)
		if lastUnb[u.track] && len(ps) == 1 && pes[4]|pes[5] != 0 {
			if !isVideoKind(t.kind) {
				e.Discard()
			}
			pes[4], pes[5] = 0, 0 // known finding
		}
		lastUnb[u.track] = pes[4]|pes[5] == 0
		pkts[ui] = len(ps)
		for _, p := range ps {
			p.unit = ui
		}
		if t.kind != kKLVAsync {
			ps[0].pts = u.pts & ts33
		}
		ps[len(ps)-1].end = true
		queue(ps)
	}
	for _, p := range alien {
		for range e.N(4) {
			pes := append([]byte{0, 0, 1, 0xbd, 0, 0, 0x80, 0x80, 5}, putClock(2, int64(e.U(1<<33)))...)
			pes = append(pes, e.blob(1, 300)...)
			n := len(pes) - 6
			pes[4], pes[5] = byte(n>>8), byte(n)
			ps := e.split(p, pes, true)
			ps[0].pts = int64(uint64(pes[9]>>1&7)<<30 | uint64(pes[10])<<22 | uint64(pes[11]>>1)<<15 | uint64(pes[12])<<7 | uint64(pes[13]>>1))
			queue(ps)
		}
	}
	var pids []int
	for _, t := range c.tracks {
		pids = append(pids, int(t.tr.PID))
	}
	pids = append(pids, alien...)

	// the scheduler
	var wire []byte
	cc := map[int]int{}
	for _, p := range pids {
		cc[p] = e.N(16)
	}
	cc[0], cc[pmtPID] = e.N(16), e.N(16)
	last := int64(-1)
	var maybe []int64
	asyncOK := map[int]map[int64]bool{} // unit -> acceptable timestamps, -1 = not delivered
	switches, prev := 0, -1
	emit := func(p *fpkt) {
		b := p.bytes(cc[p.pid])
		if len(b) != 188 {
			e.Fail("harness", "packet of %d bytes", len(b))
		}
		cc[p.pid]++
		wire = append(wire, b...)
		if p.pts >= 0 {
			if len(p.pay) < 14 { // the timestamp is split: it may not be noticed
				maybe = append(maybe, p.pts)
			} else {
				last, maybe = p.pts, nil
			}
		}
		e.Ev("pkt", p.pid, p.pusi, p.unit, len(p.pay))
	}
	table := func(pid int, s []byte) {
		for i := 0; i < len(s); i += 184 {
			emit(&fpkt{pid: pid, pusi: i == 0, pay: s[i : i+184], unit: -1, pts: -1})
		}
	}
	var open []int // async KLV units in progress
	note := func() {
		for _, u := range open {
			asyncOK[u][last] = true
			for _, v := range maybe {
				asyncOK[u][v] = true
			}
		}
	}
	lateTables := !c.detects() && e.P(1, 8)
	tablesOut := false
	if !lateTables {
		if e.P(1, 5) { // only a later repetition is usable
			table(pmtPID, pmtS)
			e.Fault("pmt-before-pat")
		}
		table(0, patS)
		if e.P(1, 4) {
			for range e.R(1, 3) {
				emit(&fpkt{pid: 0x1fff, pay: make([]byte, 184), unit: -1, pts: -1})
			}
		}
		table(pmtPID, pmtS)
		tablesOut = true
		if pmt2 != 0 && e.P(1, 2) {
			table(pmt2, pmt2S)
		}
	}
	var pend []*fpkt // rest of a table that is being repeated
	sticky := e.R(1, 12)
	cur := -1
	for {
		var live []int
		for _, p := range pids {
			if len(qs[p]) > 0 {
				live = append(live, p)
			}
		}
		if len(live) == 0 {
			break
		}
		switch e.W(60, 2, 2, 2, 1, 1) {
		case 1: // repetition of the tables, one packet at a time
			if len(pend) == 0 {
				s, pid := patS, 0
				switch e.N(3) {
				case 0:
					s, pid = pmtS, pmtPID
				case 1:
					if pmt2 != 0 && tablesOut {
						s, pid = pmt2S, pmt2
					}
				}
				for i := 0; i < len(s); i += 184 {
					pend = append(pend, &fpkt{pid: pid, pusi: i == 0, pay: s[i : i+184], unit: -1, pts: -1})
				}
				e.Fault("table-repeated")
			}
		case 2: // null packet
			emit(&fpkt{pid: 0x1fff, pay: make([]byte, 184), unit: -1, pts: -1})
			e.Fault("null-packet")
		case 3: // clock only, the counter stays
			pid := pcrPID
			if e.P(1, 2) {
				pid = live[e.N(len(live))]
			}
			p := &fpkt{pid: pid, af: e.adaptation(true)}
			wire = append(wire, p.bytes(cc[pid]-1)...)
			e.Fault("payload-less-packet")
		case 4: // service information, on reserved PIDs
			wire = append(wire, (&fpkt{pid: 0x11, pusi: true, pay: pad(append([]byte{0}, section(0x42, 1, []byte{0, 1, 0xff, byte(prog >> 8), byte(prog), 0xfc, 0x80, 0})...))}).bytes(cc[0x11])...)
			cc[0x11]++
			e.Fault("service-information")
		case 5: // data on a PID that is not declared
			wire = append(wire, (&fpkt{pid: pmtPID ^ 0x7, pay: e.blob(184, 184)}).bytes(e.N(16))...)
			if used[pmtPID^7] {
				e.Discard()
			}
			e.Fault("undeclared-pid")
		}
		if len(pend) > 0 && e.P(1, 2) {
			emit(pend[0])
			pend = pend[1:]
		}
		if cur < 0 || len(qs[cur]) == 0 || e.N(sticky) == 0 {
			cur = live[e.N(len(live))]
		}
		p := qs[cur][0]
		qs[cur] = qs[cur][1:]
		if prev >= 0 && prev != cur {
			switches++
		}
		prev = cur
		async := p.unit >= 0 && c.tracks[c.units[p.unit].track].kind == kKLVAsync
		if async && p.pusi {
			open = append(open, p.unit)
			asyncOK[p.unit] = map[int64]bool{last: true}
		}
		emit(p)
		note()
		if async && p.end {
			var o []int
			for _, x := range open {
				if x != p.unit {
					o = append(o, x)
				}
			}
			open = o
		}
		if p.unit >= 0 && e.P(1, 40) {
			cc[p.pid]--
			emit(p)
			e.Fault("repeated-packet")
		}
	}
	for _, p := range pend {
		emit(p)
	}
	if lateTables {
		table(0, patS)
		table(pmtPID, pmtS)
		e.Fault("late-tables")
	}
	c.wire = wire

	rv, err := e.newRecv(e.newSimReader(wire))
	if err != nil {
		e.Fail("init", "a conforming stream cannot be opened: %v", err)
	}
	trs := rv.r.Tracks()
	e.Check(len(trs) == len(slots), "tracks", "%d tracks declared, %d detected", len(slots), len(trs))
	var got [][]*tsItem
	sub := trs[:0:0]
	for i, s := range slots {
		if s.track < 0 {
			e.Check(kindOf(trs[i]) < 0 && int(trs[i].PID) == alien[s.alien], "tracks", "a stream of an unsupported type was detected as %T, PID %d", trs[i].Codec, trs[i].PID)
			continue
		}
		sub = append(sub, trs[i])
		got = append(got, nil)
	}
	c.checkTracks(sub)
	rv.drain()
	e.Check(rv.err == io.EOF, "end", "ended with %v", rv.err)
	k := 0
	for i, s := range slots {
		if s.track >= 0 {
			got[k] = rv.got[i]
			k++
		}
	}
	n := 0
	for ti, t := range c.tracks {
		g := got[ti]
		gi := 0
		for ui, u := range c.units {
			if u.track != ti {
				continue
			}
			h := hashUnits(u.data)
			if t.kind == kKLVAsync {
				ok := asyncOK[ui]
				if gi < len(g) && g[gi].hash == h && ok[g[gi].pts] {
					gi++
					n++
					continue
				}
				if ok[-1] {
					continue
				}
				if gi < len(g) && g[gi].hash == h {
					e.Fail("timestamp", "track %d (%s) unit %d: timestamp %d was not the last one on the wire, %v", ti, kindNames[t.kind], ui, g[gi].pts, ok)
				}
			}
			e.Check(gi < len(g), "lost", "track %d (%s): unit %d (%s, %d packets) was not delivered; decode errors: %v", ti, kindNames[t.kind], ui, sizes(u.data), pkts[ui], rv.decErr)
			e.Check(g[gi].hash == h, "payload", "track %d (%s): unit %d sent as %s, delivered as %s", ti, kindNames[t.kind], ui, sizes(u.data), sizes(g[gi].data))
			if t.kind != kKLVAsync {
				dts := u.dts & ts33
				e.Check(g[gi].pts == u.pts&ts33 && g[gi].dts == dts, "timestamp", "track %d (%s): unit %d sent with %d/%d, delivered with %d/%d", ti, kindNames[t.kind], ui,
					u.pts&ts33, dts, g[gi].pts, g[gi].dts)
			}
			gi++
			n++
		}
		e.Check(gi == len(g), "extra", "track %d (%s): %d units sent, %d delivered", ti, kindNames[t.kind], gi, len(g))
	}
	if n > 0 && (switches > 0 || len(e.faults) > feats) {
		e.NonTrivial()
	}
	e.Probe(fmt.Sprintf("switches between tracks: %s", magnitude(switches)))
	e.sample = fmt.Sprintf("%s, %d packets, %d switches between tracks", c.describe(), len(wire)/188, switches)
}

func magnitude(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 10:
		return "1-9"
	case n < 100:
		return "10-99"
	}
	return "100+"
}

func (c *tsCase) detects() bool {
	for _, t := range c.tracks {
		if needsDetection(t.kind) {
			return true
		}
	}
	return false
}

func dvbItems(c tscodecs.Codec) []*astits.DescriptorSubtitlingItem {
	return c.(*tscodecs.DVBSubtitle).Items
}

// same checks that a structure of the library writes what the model writes, and reads it back.
func (e *Env) same(what string, model []byte, got []byte, err error, in, out any, rerr error) {
	e.Check(err == nil && bytes.Equal(got, model), "structure-written", "%s %+v: %x written, %x expected (%v)", what, in, got, model, err)
	e.Check(rerr == nil && fmt.Sprintf("%+v", in) == fmt.Sprintf("%+v", out), "structure-read", "%s %x: %+v read, %+v expected (%v)", what, model, out, in, rerr)
}

// metadataDescriptor builds the content of a metadata_descriptor (ISO 13818-1, table 2-86).
func (e *Env) metadataDescriptor(klv bool) []byte {
	d := substructs.MetadataDescriptor{MetadataApplicationFormat: []uint16{0x0100, 0x0101, 0x0102, 0x0103, 0xffff}[e.W(4, 1, 1, 1, 2)], MetadataServiceID: byte(e.N(256))}
	b := []byte{byte(d.MetadataApplicationFormat >> 8), byte(d.MetadataApplicationFormat)}
	u32 := func(v uint32) { b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	if d.MetadataApplicationFormat == 0xffff {
		d.MetadataApplicationFormatIdentifier = uint32(e.U(1 << 32))
		u32(d.MetadataApplicationFormatIdentifier)
	}
	d.MetadataFormat = 0xff
	if !klv && e.P(1, 2) {
		d.MetadataFormat = []byte{0x10, 0x11, 0x3f}[e.N(3)]
	}
	b = append(b, d.MetadataFormat)
	if d.MetadataFormat == 0xff {
		d.MetadataFormatIdentifier = 'K'<<24 | 'L'<<16 | 'V'<<8 | 'A'
		if !klv {
			d.MetadataFormatIdentifier ^= 1 << e.N(32)
		}
		u32(d.MetadataFormatIdentifier)
	}
	full := e.P(1, 3)
	if full {
		d.DecoderConfigFlags = []byte{0, 1, 2, 3, 4, 7}[e.N(6)]
		d.DSMCCFlag = e.P(1, 3)
	}
	b = append(b, d.MetadataServiceID, d.DecoderConfigFlags<<5|byte(b2i(d.DSMCCFlag))<<4|0x0f)
	room := 220
	sized := func() []byte {
		x := e.blob(0, min(room, []int{0, 3, 40, 220}[e.W(4, 4, 4, 1)]))
		room -= len(x)
		b = append(append(b, byte(len(x))), x...)
		return x
	}
	if d.DSMCCFlag {
		d.ServiceIdentification = sized()
	}
	switch d.DecoderConfigFlags {
	case 1:
		d.DecoderConfig = sized()
	case 3:
		d.DecConfigIdentification = sized()
	case 4:
		d.DecoderConfigMetadataServiceID = byte(e.N(256))
		b = append(b, d.DecoderConfigMetadataServiceID)
	}
	d.PrivateData = []byte{}
	if full && e.P(1, 2) {
		d.PrivateData = e.blob(0, min(room, []int{0, 2, 30}[e.N(3)]))
		b = append(b, d.PrivateData...)
	}
	if full {
		e.Fault("metadata-descriptor-fields")
	}
	w, err := d.Marshal()
	var out substructs.MetadataDescriptor
	rerr := out.Unmarshal(b)
	e.same("metadata descriptor", b, w, err, d, out, rerr)
	return b
}

// opusStructure checks that the library writes and reads one Opus access unit as the model does.
func (e *Env) opusStructure(au *substructs.OpusAccessUnit, model []byte, hl, ext int) {
	var out substructs.OpusAccessUnit
	n, rerr := out.Unmarshal(model)
	e.Check(n == len(model) || rerr != nil, "structure-read", "Opus access unit of %d bytes: %d read", len(model), n)
	zero := append([]byte(nil), model...)
	clear(zero[hl-ext : hl]) // the library writes empty extensions
	got := make([]byte, au.MarshalSize())
	n, err := au.MarshalTo(got)
	e.Check(n == len(got) || err != nil, "structure-written", "Opus access unit of %d bytes: %d written", len(got), n)
	e.same("Opus access unit", zero, got, err, *au, out, rerr)
}

// metadataSTD builds the content of a metadata_std_descriptor (ISO 13818-1, table 2-88).
func (e *Env) metadataSTD() []byte {
	var v [3]uint32
	var b []byte
	for i := range v {
		if e.P(1, 2) {
			v[i] = uint32(e.U(1 << 22))
		}
		b = append(b, 0xc0|byte(v[i]>>16), byte(v[i]>>8), byte(v[i]))
	}
	d := substructs.MetadataSTDDescriptor{MetadataInputLeakRate: v[0], MetadataBufferSize: v[1], MetadataOutputLeakRate: v[2]}
	w, err := d.Marshal()
	var out substructs.MetadataSTDDescriptor
	rerr := out.Unmarshal(b)
	e.same("metadata STD descriptor", b, w, err, d, out, rerr)
	return b
}

// opusDescriptor builds the content of an opus_audio_descriptor.
func opusDescriptor(v any) []byte {
	d := v.(substructs.OpusAudioDescriptor)
	if d.ChannelConfigCode != 0x81 {
		return []byte{d.ChannelConfigCode}
	}
	b := []byte{0x81, byte(d.ExplicitChannelCount), byte(d.MappingFamily)}
	if d.MappingFamily == 0 {
		return b
	}
	bits, n := uint64(0), 0
	put := func(v, k int) { bits = bits<<k | uint64(v); n += k }
	width := func(x int) int {
		k := 0
		for 1<<k < x {
			k++
		}
		return k
	}
	var out []byte
	flush := func() {
		for n >= 8 {
			out = append(out, byte(bits>>(n-8)))
			n -= 8
		}
	}
	put(d.StreamCount-1, width(d.ExplicitChannelCount))
	flush()
	put(d.CoupledStreamCount, width(d.StreamCount+1))
	flush()
	for _, m := range d.ChannelMapping {
		put(int(m), width(d.StreamCount+d.CoupledStreamCount+1))
		flush()
	}
	if n > 0 {
		put(0, 8-n)
		flush()
	}
	return append(b, out...)
}
