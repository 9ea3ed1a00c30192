package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	tscodecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
)

func init() {
	register(&Prop{
		ID: "T08", Quick: 120000, Run: runT08,
		Rule:   "A run is non-trivial when at least two units were written and every emitted byte was parsed.",
		Real:   []string{"mpegts.Writer", "go-astits muxer", "codec framing"},
		Stub:   []string{"sink", "encoders (drawn payloads)", "clock (drawn timestamps)", "receiver (independent ISO 13818-1 parser)"},
		Assume: []string{"the program map fits one packet, as the muxer requires"},
	})
	register(&Prop{
		ID: "T09", Quick: 250000, Run: runT09, Level: "fault_enumeration",
		Rule:   "A run is non-trivial when at least one sink fault fired during a write and at least one write followed.",
		Real:   []string{"mpegts.Writer", "go-astits muxer and bit writer", "mpegts.Reader"},
		Stub:   []string{"sink (errors, partial writes, full disk, at a drawn byte, for a drawn time)"},
		Assume: []string{"payloads and headers contain no 0x47 outside of packet starts, so that the resynchronisation point is not ambiguous"},
	})
}

func crcMPEG(b []byte) uint32 {
	c := uint32(0xffffffff)
	for _, x := range b {
		c ^= uint32(x) << 24
		for range 8 {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04C11DB7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

// tsMonitor is an independent receiver of the emitted bytes.
type tsMonitor struct {
	c    *tsCase
	e    *Env
	cc   map[int]int
	pat  bool
	pmt  bool
	pcr  int // PCR PID of the last PMT
	vers int
	last []byte // content of the last PMT without version and CRC
	npmt int
	buf  []byte
	// current unit
	cur       *tsUnit
	es        []byte
	started   bool
	sinceTab  int // units since the last tables
	lead      int // leading track, -1 = none yet
	sincePCR  int
	expTables bool
	sawTables bool
	rai       bool
	hasPCR    bool
	pcrVal    int64
	pesLenF   int
	pts, dts  int64
	streamID  int
	hdrFlags  int
	packets   int
}

func newMonitor(c *tsCase) *tsMonitor {
	return &tsMonitor{c: c, e: c.e, cc: map[int]int{}, lead: -1, vers: -1}
}

func (m *tsMonitor) feed(b []byte, cur *tsUnit) {
	e := m.e
	e.Check(len(b)%188 == 0, "packets", "a write emitted %d bytes, which is not a number of packets", len(b))
	for o := 0; o+188 <= len(b); o += 188 {
		m.packet(b[o:o+188], cur)
	}
}

func (m *tsMonitor) packet(p []byte, cur *tsUnit) {
	e := m.e
	m.packets++
	e.Check(p[0] == 0x47, "sync", "packet %d starts with %02x", m.packets-1, p[0])
	pid := int(p[1]&0x1f)<<8 | int(p[2])
	pusi := p[1]&0x40 != 0
	afc := p[3] >> 4 & 3
	e.Check(p[1]&0x80 == 0, "header", "packet %d has the transport error indicator set", m.packets-1)
	e.Check(p[3]>>6 == 0, "header", "packet %d is marked as scrambled", m.packets-1)
	e.Check(afc != 0, "header", "packet %d has a reserved adaptation field control", m.packets-1)
	cc := int(p[3] & 15)
	pos := 4
	rai, hasPCR := false, false
	var pcr int64
	if afc&2 != 0 {
		l := int(p[4])
		if afc == 2 {
			e.Check(l == 183, "adaptation", "packet %d: adaptation field of %d bytes without payload", m.packets-1, l)
		} else {
			e.Check(l <= 182, "adaptation", "packet %d: adaptation field of %d bytes with payload", m.packets-1, l)
		}
		if l > 0 {
			f := p[5]
			rai = f&0x40 != 0
			e.Check(f&0x80 == 0, "adaptation", "packet %d signals a discontinuity", m.packets-1)
			q := 6
			if f&0x10 != 0 {
				hasPCR = true
				e.Check(l >= 7, "adaptation", "packet %d: clock reference in an adaptation field of %d bytes", m.packets-1, l)
				pcr = int64(p[6])<<25 | int64(p[7])<<17 | int64(p[8])<<9 | int64(p[9])<<1 | int64(p[10])>>7
				ext := int(p[10]&1)<<8 | int(p[11])
				e.Check(ext < 300, "pcr", "clock reference extension %d", ext)
				q += 6
			}
			e.Check(f&0x0f == 0, "adaptation", "packet %d: unexpected adaptation flags %02x", m.packets-1, f)
			for ; q < 5+l; q++ {
				e.Check(p[q] == 0xff, "adaptation", "packet %d: stuffing byte %02x", m.packets-1, p[q])
			}
		}
		pos = 5 + l
	}
	if prev, ok := m.cc[pid]; ok {
		want := prev
		if afc&1 != 0 {
			want = (prev + 1) & 15
		}
		e.Check(cc == want, "continuity", "PID %d: continuity counter %d after %d", pid, cc, prev)
	}
	m.cc[pid] = cc
	pl := p[pos:]

	switch pid {
	case 0:
		m.patPacket(pl, pusi)
		return
	case 0x1000:
		e.Check(m.pat, "tables", "program map before the program association")
		m.pmtPacket(pl, pusi)
		return
	}
	ti := -1
	for i, t := range m.c.tracks {
		if int(t.tr.PID) == pid {
			ti = i
		}
	}
	e.Check(ti >= 0, "pid", "packet on PID %d, which belongs to no track", pid)
	e.Check(m.pat && m.pmt, "tables", "media packet before the tables")
	e.Check(cur != nil && cur.track == ti, "pid", "packet of track %d during a write of another track", ti)
	if hasPCR {
		e.Check(m.pcr == pid, "pcr", "clock reference on PID %d, the announced one is %d", pid, m.pcr)
	}
	if !m.started {
		e.Check(pusi, "pes", "first packet of a unit does not start a PES")
		m.started = true
		m.rai, m.hasPCR, m.pcrVal = rai, hasPCR, pcr
		m.es = append(m.es[:0:0], pl...)
	} else {
		e.Check(!pusi, "pes", "PES start in the middle of a unit")
		e.Check(!hasPCR && !rai, "adaptation", "clock reference or random access mark in the middle of a unit")
		m.es = append(m.es, pl...)
	}
}

// section extracts the section of a single-packet table.
func (m *tsMonitor) section(pl []byte, pusi bool, what string) []byte {
	e := m.e
	e.Check(pusi && len(pl) > 4 && 1+int(pl[0])+3 <= len(pl), "tables", "%s: malformed packet", what)
	pl = pl[1+int(pl[0]):]
	l := int(pl[1]&0x0f)<<8 | int(pl[2])
	e.Check(pl[1]&0x80 != 0 && 3+l <= len(pl) && l >= 9, "tables", "%s: section of %d bytes in %d", what, l, len(pl))
	s := pl[:3+l]
	e.Check(crcMPEG(s) == 0, "tables", "%s: wrong CRC", what)
	for _, x := range pl[3+l:] {
		e.Check(x == 0xff, "tables", "%s: stuffing byte %02x", what, x)
	}
	e.Check(s[5]&1 == 1, "tables", "%s is not current", what)
	e.Check(s[6] == 0 && s[7] == 0, "tables", "%s: section numbers", what)
	return s
}

func (m *tsMonitor) patPacket(pl []byte, pusi bool) {
	e := m.e
	s := m.section(pl, pusi, "PAT")
	e.Check(s[0] == 0, "tables", "PAT has table ID %d", s[0])
	b := s[8 : len(s)-4]
	e.Check(len(b) == 4, "tables", "PAT announces %d programs", len(b)/4)
	e.Check(int(b[0])<<8|int(b[1]) != 0 && int(b[2]&0x1f)<<8|int(b[3]) == 0x1000, "tables", "PAT: %x", b)
	m.pat = true
}

func streamTypeOf(k int) byte {
	switch k {
	case kH264:
		return 0x1b
	case kH265:
		return 0x24
	case kMPEG4V:
		return 0x10
	case kMPEG1V:
		return 0x02
	case kAAC:
		return 0x0f
	case kLATM:
		return 0x11
	case kMP1A:
		return 0x03
	case kAC3:
		return 0x81
	case kEAC3:
		return 0x87
	case kKLVSync:
		return 0x15
	default:
		return 0x06
	}
}

func (m *tsMonitor) pmtPacket(pl []byte, pusi bool) {
	e := m.e
	s := m.section(pl, pusi, "PMT")
	e.Check(s[0] == 2, "tables", "PMT has table ID %d", s[0])
	m.pcr = int(s[8]&0x1f)<<8 | int(s[9])
	il := int(s[10]&0x0f)<<8 | int(s[11])
	b := s[12+il : len(s)-4]
	i := 0
	for len(b) > 0 {
		e.Check(i < len(m.c.tracks), "tables", "PMT announces more tracks than declared")
		t := m.c.tracks[i]
		e.Check(len(b) >= 5, "tables", "PMT: short entry")
		dl := int(b[3]&0x0f)<<8 | int(b[4])
		e.Check(5+dl <= len(b), "tables", "PMT: descriptors of %d bytes in %d", dl, len(b)-5)
		e.Check(b[0] == streamTypeOf(t.kind), "tables", "PMT: track %d (%s) announced with stream type %#x", i, kindNames[t.kind], b[0])
		e.Check(int(b[1]&0x1f)<<8|int(b[2]) == int(t.tr.PID), "tables", "PMT: track %d announced on another PID", i)
		m.descriptors(i, t, b[5:5+dl])
		b = b[5+dl:]
		i++
	}
	e.Check(i == len(m.c.tracks), "tables", "PMT announces %d of %d tracks", i, len(m.c.tracks))
	v := int(s[5] >> 1 & 31)
	content := append([]byte(nil), s[8:len(s)-4]...)
	if m.npmt > 0 && !bytes.Equal(content, m.last) {
		e.Check(v != m.vers, "tables", "PMT changed without a new version")
	}
	m.vers = v
	m.last = content
	m.npmt++
	m.pmt = true
	m.sinceTab = 0
	m.sawTables = true
}

func (m *tsMonitor) descriptors(i int, t *tsTrack, d []byte) {
	e := m.e
	tags := map[byte][]byte{}
	for len(d) > 0 {
		e.Check(len(d) >= 2 && 2+int(d[1]) <= len(d), "descriptors", "track %d: malformed descriptors %x", i, d)
		tags[d[0]] = d[2 : 2+int(d[1])]
		d = d[2+int(d[1]):]
	}
	want := func(tag byte, v []byte) {
		g, ok := tags[tag]
		e.Check(ok, "descriptors", "track %d (%s): descriptor %#x is missing", i, kindNames[t.kind], tag)
		e.Check(bytes.Equal(g, v), "descriptors", "track %d (%s): descriptor %#x is %x, expected %x", i, kindNames[t.kind], tag, g, v)
	}
	if t.lang != "" {
		want(0x0a, append([]byte(t.lang), 0))
	} else {
		_, ok := tags[0x0a]
		e.Check(!ok, "descriptors", "track %d: language announced for a track without language", i)
	}
	switch t.kind {
	case kOpus:
		want(0x05, []byte("Opus"))
		g := tags[0x7f]
		e.Check(len(g) >= 2 && g[0] == 0x80, "descriptors", "track %d: Opus extension descriptor %x", i, g)
		d := t.want.(*tscodecs.Opus).Desc
		e.Check(g[1] == d.ChannelConfigCode, "descriptors", "track %d: Opus channel configuration %#x, expected %#x", i, g[1], d.ChannelConfigCode)
		if d.ChannelConfigCode == 0x81 {
			e.Check(len(g) >= 4 && int(g[2]) == d.ExplicitChannelCount && int(g[3]) == d.MappingFamily, "descriptors",
				"track %d: explicit Opus configuration %x", i, g)
		}
	case kKLVAsync:
		want(0x05, []byte("KLVA"))
	case kKLVSync:
		g := tags[0x26]
		e.Check(len(g) == 9 && bytes.Equal(g, []byte{1, 0, 0xff, 'K', 'L', 'V', 'A', 0, 0x0f}), "descriptors", "track %d: metadata descriptor %x", i, g)
		g = tags[0x27]
		e.Check(len(g) == 9, "descriptors", "track %d: metadata STD descriptor %x", i, g)
	case kDVB:
		var w []byte
		for _, it := range t.want.(*tscodecs.DVBSubtitle).Items {
			w = append(w, it.Language...)
			w = append(w, it.Type, byte(it.CompositionPageID>>8), byte(it.CompositionPageID), byte(it.AncillaryPageID>>8), byte(it.AncillaryPageID))
		}
		want(0x59, w)
	case kAC3:
		g := tags[0x6a]
		e.Check(len(g) >= 1, "descriptors", "track %d: AC-3 descriptor missing", i)
	case kEAC3:
		g := tags[0x7a]
		e.Check(len(g) >= 1, "descriptors", "track %d: E-AC-3 descriptor missing", i)
	}
}

func parseTS(b []byte) (int64, bool) {
	return int64(b[0]>>1&7)<<30 | int64(b[1])<<22 | int64(b[2]>>1)<<15 | int64(b[3])<<7 | int64(b[4]>>1), b[0]&1 == 1 && b[2]&1 == 1 && b[4]&1 == 1
}

// isRA tells whether the unit is a random access point.
func (c *tsCase) isRA(u *tsUnit) bool {
	switch c.tracks[u.track].kind {
	case kH264:
		for _, n := range u.data {
			if n[0]&0x1f == 5 {
				return true
			}
		}
		return false
	case kH265:
		for _, n := range u.data {
			if t := n[0] >> 1 & 63; t == 19 || t == 20 || t == 21 {
				return true
			}
		}
		return false
	case kMPEG4V:
		return bytes.Contains(u.data[0], []byte{0, 0, 1, 0xb3})
	case kMPEG1V:
		return bytes.Contains(u.data[0], []byte{0, 0, 1, 0xb8})
	}
	return true
}

// unit checks the unit that was just written.
func (m *tsMonitor) unit(ui int, u *tsUnit) {
	e := m.e
	c := m.c
	t := c.tracks[u.track]
	kn := kindNames[t.kind]
	if m.lead < 0 {
		m.lead = u.track
	}
	e.Check(m.pcr == int(c.tracks[m.lead].tr.PID), "pcr", "unit %d: announced clock PID is %d, the leading track has %d", ui, m.pcr, c.tracks[m.lead].tr.PID)
	m.sinceTab++
	e.Check(m.sinceTab <= 50, "tables", "%d units without tables", m.sinceTab)
	ra := c.isRA(u)
	if ra && u.track == m.lead {
		e.Check(m.sawTables, "tables", "unit %d: random access point of the leading track not preceded by tables", ui)
	}
	m.sawTables = false
	e.Check(m.rai == ra, "random-access", "unit %d (%s): random access mark is %v, expected %v", ui, kn, m.rai, ra)
	if u.track == m.lead {
		if m.hasPCR {
			m.sincePCR = 0
		} else {
			m.sincePCR++
			e.Check(m.sincePCR < 5 && !(t.kind <= kMPEG1V && ra), "pcr", "unit %d: no clock reference in %d units of the leading track", ui, m.sincePCR)
		}
		if m.hasPCR && t.kind != kKLVAsync {
			d := (u.dts - m.pcrVal) & ts33
			e.Check(d <= 90000, "pcr", "unit %d: clock reference %d, decoding time %d: difference %d", ui, m.pcrVal, u.dts&ts33, d)
		}
	} else {
		e.Check(!m.hasPCR, "pcr", "unit %d: clock reference outside of the leading track", ui)
	}

	b := m.es
	e.Check(m.started && len(b) >= 9, "pes", "unit %d (%s): no PES", ui, kn)
	e.Check(b[0] == 0 && b[1] == 0 && b[2] == 1, "pes", "unit %d: PES start code %x", ui, b[:3])
	wantID := byte(0xc0)
	switch t.kind {
	case kH264, kH265, kMPEG4V, kMPEG1V:
		wantID = 0xe0
	case kKLVSync:
		wantID = 0xfc
	case kKLVAsync, kDVB:
		wantID = 0xbd
	}
	e.Check(b[3] == wantID, "pes", "unit %d (%s): stream ID %#x", ui, kn, b[3])
	pl := int(b[4])<<8 | int(b[5])
	switch {
	case len(b)-6 > 0xffff || isVideoKind(t.kind):
		e.Check(pl == 0 || pl == len(b)-6, "pes", "unit %d (%s): PES length %d of %d", ui, kn, pl, len(b)-6)
	default:
		e.Check(pl == len(b)-6, "pes", "unit %d (%s): PES length %d of %d", ui, kn, pl, len(b)-6)
	}
	e.Check(b[6]>>6 == 2 && b[6]>>4&3 == 0, "pes", "unit %d: PES flags %02x", ui, b[6])
	ind := b[7] >> 6
	hl := int(b[8])
	e.Check(9+hl <= len(b), "pes", "unit %d: PES header of %d bytes", ui, hl)
	e.Check(b[7]&0x3f == 0, "pes", "unit %d: PES flags %02x", ui, b[7])
	switch {
	case t.kind == kKLVAsync:
		e.Check(ind == 0, "timestamp", "unit %d: asynchronous KLV with a timestamp", ui)
	case u.pts == u.dts:
		e.Check(ind == 2, "timestamp", "unit %d (%s): timestamp flags %d", ui, kn, ind)
	default:
		e.Check(ind == 3, "timestamp", "unit %d (%s): timestamp flags %d", ui, kn, ind)
	}
	h := b[9 : 9+hl]
	if ind >= 2 {
		e.Check(len(h) >= 5 && h[0]>>4 == ind, "timestamp", "unit %d: PTS field %x", ui, h)
		v, ok := parseTS(h)
		e.Check(ok && v == u.pts&ts33, "timestamp", "unit %d (%s): PTS %d on the wire, %d written", ui, kn, v, u.pts&ts33)
		h = h[5:]
	}
	if ind == 3 {
		e.Check(len(h) >= 5 && h[0]>>4 == 1, "timestamp", "unit %d: DTS field %x", ui, h)
		v, ok := parseTS(h)
		e.Check(ok && v == u.dts&ts33, "timestamp", "unit %d (%s): DTS %d on the wire, %d written", ui, kn, v, u.dts&ts33)
		h = h[5:]
	}
	for _, x := range h {
		e.Check(x == 0xff, "pes", "unit %d: PES stuffing %02x", ui, x)
	}
	m.payload(ui, u, b[9+hl:])
	m.started = false
	m.es = nil
}

// payload de-frames the elementary stream independently of the library.
func (m *tsMonitor) payload(ui int, u *tsUnit, b []byte) {
	e := m.e
	t := m.c.tracks[u.track]
	kn := kindNames[t.kind]
	var got [][]byte
	switch t.kind {
	case kH264, kH265:
		// Annex B: start codes of 3 or 4 bytes
		var starts []int
		for i := 0; i+3 <= len(b); i++ {
			if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
				starts = append(starts, i)
				i += 2
			}
		}
		e.Check(len(starts) > 0 && (starts[0] == 0 || starts[0] == 1 && b[0] == 0), "framing", "unit %d: no start code at the beginning", ui)
		for k, s := range starts {
			end := len(b)
			if k+1 < len(starts) {
				end = starts[k+1]
				if b[end-1] == 0 {
					end--
				}
			}
			got = append(got, b[s+3:end])
		}
		aud := byte(9)
		if t.kind == kH265 {
			aud = 35 << 1
		}
		e.Check(len(got) > 0 && len(got[0]) > 0 && (t.kind == kH264 && got[0][0]&0x1f == aud || t.kind == kH265 && got[0][0] == aud),
			"framing", "unit %d (%s): no access unit delimiter", ui, kn)
		got = got[1:]
	case kAAC:
		w := t.want.(*tscodecs.MPEG4Audio)
		for len(b) > 0 {
			e.Check(len(b) >= 7 && b[0] == 0xff && b[1]&0xf6 == 0xf0, "framing", "unit %d: ADTS header %x", ui, b[:min(7, len(b))])
			l := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5])>>5
			hl := 7
			if b[1]&1 == 0 {
				hl = 9
			}
			e.Check(l >= hl && l <= len(b), "framing", "unit %d: ADTS frame of %d bytes in %d", ui, l, len(b))
			e.Check(int(b[2]>>6)+1 == int(w.Type), "framing", "unit %d: ADTS profile %d", ui, b[2]>>6)
			rates := []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
			ri := int(b[2] >> 2 & 15)
			e.Check(ri < len(rates) && rates[ri] == w.SampleRate, "framing", "unit %d: ADTS sample rate index %d, rate is %d", ui, ri, w.SampleRate)
			e.Check(b[2]&1<<2|b[3]>>6 == w.ChannelConfig, "framing", "unit %d: ADTS channel configuration", ui)
			e.Check(b[6]&3 == 0, "framing", "unit %d: ADTS frame with several blocks", ui)
			got = append(got, b[hl:l])
			b = b[l:]
		}
	case kLATM:
		for len(b) > 0 {
			e.Check(len(b) >= 3 && int(b[0])<<3|int(b[1]>>5) == 0x2b7, "framing", "unit %d: LATM sync %x", ui, b[:min(3, len(b))])
			l := int(b[1]&0x1f)<<8 | int(b[2])
			e.Check(3+l <= len(b), "framing", "unit %d: LATM length %d in %d", ui, l, len(b))
			got = append(got, b[3:3+l])
			b = b[3+l:]
		}
	case kOpus:
		for len(b) > 0 {
			e.Check(len(b) >= 3 && b[0] == 0x7f && b[1]&0xe0 == 0xe0, "framing", "unit %d: Opus control header %x", ui, b[:min(3, len(b))])
			e.Check(b[1]&0x1f == 0, "framing", "unit %d: Opus control flags %02x", ui, b[1])
			l, p := 0, 2
			for p < len(b) && b[p] == 0xff {
				l += 255
				p++
			}
			e.Check(p < len(b), "framing", "unit %d: Opus size", ui)
			l += int(b[p])
			p++
			e.Check(p+l <= len(b), "framing", "unit %d: Opus packet of %d bytes in %d", ui, l, len(b)-p)
			got = append(got, b[p:p+l])
			b = b[p+l:]
		}
	case kMP1A:
		var all []byte
		for _, f := range u.data {
			all = append(all, f...)
		}
		e.Check(bytes.Equal(all, b), "payload", "unit %d (%s): payload on the wire differs", ui, kn)
		return
	case kKLVSync:
		var all []byte
		seq := 0
		n := 0
		for len(b) > 0 {
			e.Check(len(b) >= 5, "framing", "unit %d: metadata cell header %x", ui, b)
			l := int(b[3])<<8 | int(b[4])
			e.Check(b[0] == 0 && int(b[1]) == seq&255 && 5+l <= len(b), "framing", "unit %d: metadata cell %x", ui, b[:5])
			fr := b[2] >> 6
			want := byte(0)
			if len(b) == 5+l {
				want = 1
			}
			if n == 0 {
				want |= 2
			}
			e.Check(fr == want, "framing", "unit %d: fragment indication %d of cell %d", ui, fr, n)
			all = append(all, b[5:5+l]...)
			b = b[5+l:]
			seq++
			n++
		}
		got = [][]byte{all}
	default:
		got = [][]byte{b}
	}
	e.Check(len(got) == len(u.data), "payload", "unit %d (%s): %d elements on the wire, %d written", ui, kn, len(got), len(u.data))
	for i := range got {
		if !bytes.Equal(got[i], u.data[i]) {
			e.Fail("payload", "unit %d (%s) element %d: %d bytes on the wire, %d written", ui, kn, i, len(got[i]), len(u.data[i]))
		}
	}
}

func runT08(e *Env) {
	o := tsOpts{}
	switch e.W(3, 2, 2) {
	case 1: // long history of small units
		o = tsOpts{maxUnits: 200, small: true, noHuge: true}
	case 2: // one track
		o = tsOpts{maxUnits: 60, maxTracks: 1, small: true, noHuge: true}
	}
	c := genTS(e, o)
	rounds := 1
	if e.P(1, 5) {
		rounds = 2 // the same tracks are used by a new writer (a new segment)
		e.Probe("tracks used by a second writer")
	}
	for round := range rounds {
		if round == 1 {
			c.units = nil
			c.genUnits(o)
		}
		s := e.newSink()
		mw := c.writer(s)
		m := newMonitor(c)
		pos := 0
		flush := func(u *tsUnit) {
			m.feed(s.buf[pos:], u)
			pos = len(s.buf)
		}
		tables := func() {
			n, err := mw.WriteTables()
			e.Check(err == nil, "write-error", "WriteTables: %v", err)
			e.Check(n == len(s.buf)-pos, "count", "WriteTables returned %d, emitted %d bytes", n, len(s.buf)-pos)
			m.sawTables = false
			flush(nil)
			e.Check(m.sawTables, "tables", "WriteTables emitted no tables")
			e.Probe("explicit tables")
		}
		if e.P(1, 4) {
			tables()
		}
		for i, u := range c.units {
			if e.P(1, 40) {
				tables()
				m.sawTables = false
			}
			err := c.writeUnit(mw, u)
			e.Check(err == nil, "write-error", "unit %d (%s) refused: %v", i, kindNames[c.tracks[u.track].kind], err)
			e.Ev("write", u.track, u.pts, u.dts, len(s.buf)-pos)
			flush(u)
			m.unit(i, u)
		}
	}
	if len(c.units) > 1 {
		e.NonTrivial()
	}
	e.sample = c.describe()
}

// ---- T09 ----

// faultSink fails at a byte position, for a number of calls.
type faultSink struct {
	e       *Env
	buf     []byte
	at      []int // fail when this many bytes have been accepted
	forN    []int // calls
	kind    []int // 0 error, 1 partial, 2 full (partial up to the position), 3 a short write without error
	k       int
	left    int
	err     error
	fired   int
	inCall  bool
	healthy bool
}

func (s *faultSink) Write(p []byte) (int, error) {
	if s.left > 0 {
		s.left--
		s.fired++
		s.e.Fault("write-error")
		return 0, s.err
	}
	if s.k < len(s.at) && len(s.buf)+len(p) > s.at[s.k] {
		kd := s.kind[s.k]
		s.left = s.forN[s.k] - 1
		n := 0
		switch kd {
		case 1:
			n = len(p) / 2
		case 2:
			n = max(0, min(len(p), s.at[s.k]-len(s.buf)))
		}
		s.k++
		s.buf = append(s.buf, p[:n]...)
		s.fired++
		if n > 0 {
			s.e.Fault("short-write")
		} else {
			s.e.Fault("write-error")
		}
		return n, s.err
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func runT09(e *Env) {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 40, small: true, noSync: true})
	s := &faultSink{e: e, err: e.drawWriteErr()}
	// estimate the size
	size := 0
	for _, u := range c.units {
		for _, d := range u.data {
			size += len(d)*188/150 + 60
		}
	}
	pos := 0
	for range 1 + e.W(4, 2, 1) {
		pos += e.N(size/2 + 1)
		if e.P(1, 3) {
			pos = pos / 188 * 188
		}
		if e.P(1, 12) {
			pos = 0
		}
		s.at = append(s.at, pos)
		s.forN = append(s.forN, 1+e.W(5, 2, 1)*e.N(3))
		s.kind = append(s.kind, e.N(3))
	}
	mw := c.writer(s)
	type rng2 struct{ a, b int }
	var okRanges []rng2
	var kept []*tsUnit
	failed := 0
	after := 0
	call := func(fn func() error) bool {
		f0 := s.fired
		n0 := len(s.buf)
		err := fn()
		e.Ev("call", len(s.buf)-n0, err)
		if s.fired > f0 {
			failed++
			e.Check(err != nil, "silent", "a write reported success although the sink failed (%d of its bytes were accepted)", len(s.buf)-n0)
			e.Check(err == s.err || errors.Is(err, s.err), "error-identity", "the sink failed with %q, the writer with %q", s.err, err)
			return false
		}
		e.Check(err == nil, "spurious", "a write failed with %v although the sink accepted everything", err)
		e.Check(len(s.buf) > n0, "nothing", "a write reported success without writing")
		if failed > 0 {
			after++
		}
		okRanges = append(okRanges, rng2{n0, len(s.buf)})
		return true
	}
	if e.P(1, 4) {
		call(func() error {
			f0, n0 := s.fired, len(s.buf)
			n, err := mw.WriteTables()
			if s.fired == f0 {
				e.Check(n == len(s.buf)-n0, "count", "WriteTables returned %d, emitted %d", n, len(s.buf)-n0)
			}
			return err
		})
	}
	for _, u := range c.units {
		n0 := len(s.buf)
		done := call(func() error { return c.writeUnit(mw, u) })
		if !done && e.P(1, 3) {
			// the application tries again
			n0 = len(s.buf)
			e.Probe("write repeated by the application")
			done = call(func() error { return c.writeUnit(mw, u) })
		}
		if done {
			u.off0, u.off1 = n0, len(s.buf)
			kept = append(kept, u)
		}
	}
	if failed == 0 {
		e.Discard()
	}
	if after > 0 {
		e.NonTrivial()
	}
	e.sample = fmt.Sprintf("%s, %d writes failed, %d succeeded afterwards", c.describe(), failed, after)

	// what was accepted must be readable
	rx := s.buf
	// whole packets of successful writes
	var all []*tsPkt
	start := map[int]*tsPkt{}
	for _, r := range okRanges {
		o := r.a
		e.Check((r.b-r.a)%188 == 0, "packets", "a successful write emitted %d bytes, which is not a number of packets", r.b-r.a)
		for ; o+188 <= r.b; o += 188 {
			e.Check(rx[o] == 0x47, "packets", "a successful write emitted a packet without sync byte")
			p := parsePkt(rx[o : o+188 : o+188])
			p.idx = o
			all = append(all, p)
			start[o] = p
			for k := 1; k < 188; k++ {
				if rx[o+k] == 0x47 {
					e.Discard()
				}
			}
		}
	}
	inOK := func(i int) bool {
		for _, r := range okRanges {
			if i >= r.a && i < r.b {
				return true
			}
		}
		return false
	}
	// bytes of failed writes: a sync byte look-alike makes the position ambiguous
	prevBad := -1
	for i := range rx {
		if rx[i] == 0x47 && start[i] == nil {
			if inOK(i) {
				e.Discard()
			}
			if prevBad >= 0 && i-prevBad < 188 {
				e.Discard()
			}
			prevBad = i
		}
	}
	c.units = kept
	for _, p := range all {
		for ui, u := range kept {
			if p.idx >= u.off0 && p.idx < u.off1 && p.pid == int(c.tracks[u.track].tr.PID) {
				p.unit = ui
			}
		}
	}
	cnt := map[int]int{}
	lastOf := map[int]*tsPkt{}
	for _, p := range all {
		if p.unit >= 0 {
			p.k = cnt[p.unit]
			cnt[p.unit]++
			lastOf[p.unit] = p
		}
	}
	for _, p := range lastOf {
		p.last = true
	}
	var recv []*tsPkt
	seen := map[*tsPkt]bool{}
	for at := 0; at < len(rx); {
		if rx[at] != 0x47 {
			at++
			continue
		}
		if at+188 > len(rx) {
			break
		}
		if p := start[at]; p != nil {
			recv = append(recv, p)
			seen[p] = true
		} else {
			p := parsePkt(rx[at : at+188 : at+188])
			p.touched = true
			recv = append(recv, p)
		}
		at += 188
	}
	for _, p := range all {
		if !seen[p] {
			p.touched = true
		}
	}
	c.wire = rx
	must := c.survivors(all, recv)
	pmtAt := -1
	sawPAT := false
	for k, p := range recv {
		if p.touched {
			continue
		}
		if p.pid == 0 {
			sawPAT = true
		}
		if p.pid == 0x1000 && sawPAT {
			pmtAt = k
			break
		}
	}
	open := pmtAt >= 0
	for _, t := range c.tracks {
		if !needsDetection(t.kind) {
			continue
		}
		ok := false
		for k, p := range recv {
			if p.pid != int(t.tr.PID) || pmtAt < 0 {
				continue
			}
			if p.touched || p.splice {
				ok = false
				break
			}
			if !p.pusi {
				continue
			}
			ok = p.unit >= 0 && must[p.unit]
			if !ok || k > pmtAt {
				break
			}
			ok = false
		}
		open = open && ok
	}
	rv, err := e.newRecv(e.plainReader(rx))
	if err != nil {
		e.Check(!open, "init", "cannot open what was written (%v)", err)
		e.Probe("not openable")
		return
	}
	rv.drain()
	e.Check(rv.err == io.EOF, "end", "ended with %v", rv.err)
	for ti, t := range c.tracks {
		if t.kind == kKLVAsync {
			continue
		}
		ri := -1
		for k, x := range rv.r.Tracks() {
			if x.PID == t.tr.PID {
				ri = k
			}
		}
		e.Check(ri >= 0, "tracks", "track with PID %d not detected", t.tr.PID)
		g := rv.got[ri]
		k := 0
		for ui, u := range kept {
			if u.track != ti || !must[ui] {
				continue
			}
			h := hashUnits(u.data)
			for k < len(g) && !(g[k].hash == h && g[k].pts == u.pts&ts33 && g[k].dts == u.dts&ts33) {
				k++
			}
			if k >= len(g) {
				e.Fail("recovery", "track %d (%s): unit %d was written successfully but cannot be read back; deliveries: %s", ti, kindNames[t.kind], ui, dumpItems(g))
			}
			k++
			e.Probe("unit verified")
		}
	}
}

func (e *Env) drawWriteErr() error {
	switch e.N(4) {
	case 0:
		return newErr("connection reset")
	case 1:
		return io.ErrClosedPipe
	case 2:
		return io.ErrShortWrite
	default:
		return fmt.Errorf("write: %w", newErr("no space left on device"))
	}
}

var _ = mpegts.Writer{}
