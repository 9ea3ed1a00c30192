package main

// An independent view of the transport stream, used by the faulty link and by
// the oracles (ISO 13818-1, 2.4.3).

type tsPkt struct {
	idx     int // position in the written stream
	raw     []byte
	pid     int
	pusi    bool
	hasPay  bool
	cc      int
	payOff  int
	unit    int // unit index, -1 = tables
	k       int // packet number inside of the unit
	last    bool
	touched bool // altered by the link
	dup     bool
	splice  bool // a continuation whose payload looks like a PES start
}

func parsePkt(raw []byte) *tsPkt {
	p := &tsPkt{raw: raw, unit: -1}
	p.pid = int(raw[1]&0x1f)<<8 | int(raw[2])
	p.pusi = raw[1]&0x40 != 0
	p.hasPay = raw[3]&0x10 != 0
	p.cc = int(raw[3] & 15)
	p.payOff = 4
	if raw[3]&0x20 != 0 {
		p.payOff = 5 + int(raw[4])
	}
	if p.hasPay && p.payOff+3 <= 188 {
		pl := raw[p.payOff:]
		p.splice = !p.pusi && pl[0] == 0 && pl[1] == 0 && pl[2] == 1
	} else if p.hasPay && !p.pusi {
		p.splice = true // too short to tell
	}
	return p
}

// packets splits the written stream.
func (c *tsCase) packets() []*tsPkt {
	var out []*tsPkt
	ui := 0
	kk := 0
	for off := 0; off+188 <= len(c.wire); off += 188 {
		p := parsePkt(c.wire[off : off+188 : off+188])
		p.idx = off / 188
		for ui < len(c.units) && off >= c.units[ui].off1 {
			ui++
			kk = 0
		}
		if ui < len(c.units) && off >= c.units[ui].off0 && p.pid == int(c.tracks[c.units[ui].track].tr.PID) {
			p.unit = ui
			p.k = kk
			kk++
		}
		out = append(out, p)
	}
	lastOf := map[int]*tsPkt{}
	for _, p := range out {
		if p.unit >= 0 {
			lastOf[p.unit] = p
		}
	}
	for _, p := range lastOf {
		p.last = true
	}
	return out
}
