package main

import (
	"encoding/binary"
)

// mbox is a box of a recording that is going to be damaged.
type mbox struct {
	typ    string
	large  bool // 64-bit size
	pre    []byte
	kids   []*mbox
	size   uint64 // overrides the size if forced
	forced bool
}

// prefix before the children of a container.
func boxPrefix(t string) (int, bool) {
	switch t {
	case "moov", "trak", "mdia", "minf", "stbl", "moof", "traf", "mvex", "edts", "dinf", "udta":
		return 0, true
	case "stsd", "dref":
		return 8, true
	case "av01", "vp09", "hvc1", "hev1", "avc1", "mp4v":
		return 78, true
	case "Opus", "fLaC", "mp4a", "ac-3", "ec-3", "ipcm":
		return 28, true
	}
	return 0, false
}

// parseBoxes splits well-formed boxes.
func parseBoxes(b []byte) []*mbox {
	var l []*mbox
	for len(b) >= 8 {
		n := int(binary.BigEndian.Uint32(b))
		if n < 8 || n > len(b) {
			break
		}
		x := &mbox{typ: string(b[4:8])}
		body := b[8:n]
		if p, ok := boxPrefix(x.typ); ok && len(body) >= p {
			x.pre = append([]byte(nil), body[:p]...)
			x.kids = parseBoxes(body[p:])
		} else {
			x.pre = append([]byte(nil), body...)
		}
		l = append(l, x)
		b = b[n:]
	}
	return l
}

func (x *mbox) append(d []byte) []byte {
	at := len(d)
	d = append(d, 0, 0, 0, 0)
	d = append(d, x.typ...)
	if x.large {
		d = append(d, 0, 0, 0, 0, 0, 0, 0, 0)
	}
	d = append(d, x.pre...)
	for _, k := range x.kids {
		d = k.append(d)
	}
	n := uint64(len(d) - at)
	if x.forced {
		n = x.size
	}
	if x.large {
		binary.BigEndian.PutUint32(d[at:], 1)
		binary.BigEndian.PutUint64(d[at+8:], n)
	} else {
		binary.BigEndian.PutUint32(d[at:], uint32(n))
	}
	return d
}

func (x *mbox) clone() *mbox {
	y := *x
	y.pre = append([]byte(nil), x.pre...)
	y.kids = nil
	for _, k := range x.kids {
		y.kids = append(y.kids, k.clone())
	}
	return &y
}

// strip removes some of what a box contains.
func (x *mbox) strip(e *Env) {
	var keep []*mbox
	for _, k := range x.kids {
		if e.P(1, 2) {
			keep = append(keep, k)
		}
	}
	x.kids = keep
}

func flatten(l []*mbox, d []*mbox) []*mbox {
	for _, x := range l {
		d = append(d, x)
		d = flatten(x.kids, d)
	}
	return d
}

var mutTypes = []string{"moov", "trak", "mdia", "minf", "stbl", "stsd", "moof", "mfhd", "traf", "tfhd", "tfdt", "trun", "mdat", "mvhd", "tkhd", "mdhd",
	"hdlr", "avc1", "avcC", "hvc1", "hvcC", "mp4a", "esds", "Opus", "dOps", "ac-3", "dac3", "ec-3", "dec3", "ipcm", "pcmC", "fLaC", "dfLa", "av01", "av1C",
	"vp09", "vpcC", "mp4v", "udta", "meta", "ilst", "keys", "free", "wave", "edts", "elst", "stts", "stss", "ctts", "stsc", "stsz", "stco", "c608", "ftyp", "sidx"}

func u32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func cat(l ...[]byte) []byte {
	var d []byte
	for _, b := range l {
		d = append(d, b...)
	}
	return d
}

// interesting values of 32-bit fields.
func (e *Env) oddU32() uint32 {
	switch e.N(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 1<<32 - 1 - uint32(e.N(4))
	case 3:
		return 1<<31 - 2 + uint32(e.N(4))
	case 4:
		return uint32(e.N(40000))
	}
	return uint32(1) << e.N(32)
}

// damageBoxes applies structural damage to a recording.
func (e *Env) damageBoxes(root []*mbox) []*mbox {
	all := flatten(root, nil)
	if len(all) == 0 {
		return root
	}
	pick := func() *mbox {
		x := all[e.N(len(all))]
		return x
	}
	// the list that holds a box
	var find func(l *[]*mbox, x *mbox) (*[]*mbox, int)
	find = func(l *[]*mbox, x *mbox) (*[]*mbox, int) {
		for i, y := range *l {
			if y == x {
				return l, i
			}
			if p, k := find(&y.kids, x); p != nil {
				return p, k
			}
		}
		return nil, 0
	}
	insert := func(l *[]*mbox, i int, y *mbox) {
		*l = append(*l, nil)
		copy((*l)[i+1:], (*l)[i:])
		(*l)[i] = y
	}
	switch e.W(4, 2, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 5, 5) {
	case 12:
		e.damageCodec(all)
	case 13:
		e.damageTable(all)

	case 0: // a field
		x := pick()
		if n := len(x.pre); n >= 4 {
			off := e.N(n/4) * 4
			if e.P(1, 3) {
				off = e.N(n - 3)
			}
			binary.BigEndian.PutUint32(x.pre[off:], e.oddU32())
			e.Fault("field-overwritten")
		}
	case 1: // a bit
		x := pick()
		if len(x.pre) > 0 {
			x.pre[e.N(len(x.pre))] ^= 1 << e.N(8)
			e.Fault("bit-flip")
		}
	case 2: // a size
		x := pick()
		x.forced = true
		x.large = x.large || e.P(1, 3)
		n := uint64(len((&mbox{typ: x.typ, pre: x.pre, kids: x.kids, large: x.large}).append(nil)))
		switch e.N(6) {
		case 0:
			x.size = 0
		case 1:
			x.size = uint64(e.N(24))
		case 2:
			x.size = n + uint64(e.N(20)) - 10
		case 3:
			x.size = -uint64(e.N(2000)) // the next position is before this one
		case 4:
			x.size = 1<<63 - uint64(e.N(3)) + 1
		case 5:
			x.size = 1 << e.N(64)
		}
		e.Fault("box-size")
	case 3: // a type
		x := pick()
		x.typ = mutTypes[e.N(len(mutTypes))]
		e.Fault("box-type")
	case 4: // a copy
		x := pick()
		l, i := find(&root, x)
		n := 1
		if e.P(1, 3) {
			n = 1 + e.N(30)
			if e.P(1, 150) { // so many that the file gets large
				size := len(x.append(nil))
				if e.P(1, 2) {
					x.strip(e)
					size = len(x.append(nil))
				}
				n = min((100_000+e.N(2_900_000))/size, 150_000)
				e.Fault("box-repeated-until-large")
			}
		}
		m := append([]*mbox(nil), (*l)[:i]...)
		for ; n > 0; n-- {
			m = append(m, x.clone())
		}
		*l = append(m, (*l)[i:]...)
		e.Fault("box-repeated")
	case 5: // a loss
		l, i := find(&root, pick())
		*l = append((*l)[:i], (*l)[i+1:]...)
		e.Fault("box-lost")
	case 6: // moved
		x := pick()
		l, i := find(&root, x)
		*l = append((*l)[:i], (*l)[i+1:]...)
		rest := flatten(root, nil)
		if len(rest) > 0 {
			y := rest[e.N(len(rest))]
			if l2, j := find(&root, y); e.P(1, 2) {
				insert(l2, j, x)
			} else {
				y.kids = append(y.kids, x)
			}
		}
		e.Fault("box-moved")
	case 7: // 64-bit size
		pick().large = true
		e.Fault("box-64-bit")
	case 8: // cut or extended content
		x := pick()
		if e.P(1, 2) {
			x.pre = x.pre[:e.N(len(x.pre)+1)]
		} else {
			x.pre = append(x.pre, e.blob(1, 40)...)
		}
		e.Fault("box-content")
	case 9: // deep nesting
		x := pick()
		names := []string{"mdia", "minf", "stbl", "edts", "traf", "moof", "udta", "trak", "moov", "stsd", x.typ}
		name := names[e.N(len(names))]
		n := e.R(1, 50)
		if e.P(1, 3) {
			n = e.R(50, 4000)
		}
		l, i := find(&root, x)
		in := []*mbox{x}
		pre := []*mbox{}
		if e.P(1, 2) { // with what the container needs
			pre = x.kids
			if len(pre) > 3 {
				pre = pre[:e.N(4)]
			}
		}
		for ; n > 0; n-- {
			y := &mbox{typ: name}
			for _, k := range pre {
				if len(k.kids) == 0 {
					y.kids = append(y.kids, k.clone())
				}
			}
			y.kids = append(y.kids, in...)
			if name == "stsd" {
				y.pre = make([]byte, 8)
			}
			in = []*mbox{y}
		}
		(*l)[i] = in[0]
		e.Fault("box-nested")
	case 10: // tables with large counts
		x := pick()
		y := &mbox{}
		n := e.oddU32()
		if e.P(1, 2) {
			n = uint32(e.R(1, 19200))
		}
		switch e.N(8) {
		case 0, 1:
			y.typ, y.pre = "trun", cat(u32(0), u32(n))
			if e.P(1, 2) {
				y.pre = cat(u32(1), u32(n), u32(e.oddU32()))
			}
		case 2:
			y.typ, y.pre = "stts", cat(u32(0), u32(1), u32(n), u32(e.oddU32()))
		case 3:
			y.typ, y.pre = "ctts", cat(u32(0), u32(1), u32(n), u32(e.oddU32()))
		case 4:
			y.typ, y.pre = "stsc", cat(u32(0), u32(1), u32(e.oddU32()), u32(n), u32(1))
		case 5:
			y.typ, y.pre = "stsz", cat(u32(0), u32(e.oddU32()), u32(n))
		case 6:
			y.typ, y.pre = "stss", cat(u32(0), u32(1), u32(n))
		case 7:
			y.typ, y.pre = "stco", cat(u32(0), u32(1), u32(n))
		}
		y.large = e.P(1, 4)
		m := 1
		if e.P(1, 3) {
			m = e.R(1, 300)
		}
		l, i := find(&root, x)
		if e.P(1, 2) {
			l, i = &x.kids, len(x.kids)
		}
		for ; m > 0; m-- {
			insert(l, i, y.clone())
		}
		e.Fault("table-count")
	case 11: // two boxes exchanged
		x, y := pick(), pick()
		if x != y && !holds(x, y) && !holds(y, x) {
			*x, *y = *y, *x
		}
		e.Fault("boxes-exchanged")
	}
	return root
}

var codecLeaves = map[string]bool{"avcC": true, "hvcC": true, "av1C": true, "esds": true, "dOps": true, "dfLa": true, "dec3": true, "dac3": true, "vpcC": true, "pcmC": true}

// damageCodec damages the codec parameters of a track.
func (e *Env) damageCodec(all []*mbox) {
	var l []*mbox
	for _, x := range all {
		if codecLeaves[x.typ] {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return
	}
	x := l[e.N(len(l))]
	forge := e.N(3) == 2
	if !forge && len(x.pre) > 0 {
		for n := 1 + e.N(2); n > 0; n-- {
			k := e.N(len(x.pre))
			if e.P(1, 2) {
				k = e.N(min(len(x.pre), 32))
			}
			v := []byte{0, 0, 1, 2, 0xff, 0xe0, 0x80}[e.N(7)]
			x.pre[k] = v
			if e.P(1, 2) && k+1 < len(x.pre) {
				x.pre[k+1] = []byte{0, 0, 0, 1, 2, 0xff}[e.N(6)]
			}
		}
		if e.P(1, 4) {
			x.pre = x.pre[:e.N(len(x.pre)+1)]
		}
		e.Fault("codec-field")
		return
	}
	e.Fault("codec-forged")
	switch x.typ {
	case "hvcC":
		if len(x.pre) < 23 {
			return
		}
		d := append([]byte(nil), x.pre[:22]...)
		orig := e.hevcArrays(x.pre)
		n := e.N(5)
		cnt := byte(n)
		if e.P(1, 5) {
			cnt = byte(e.N(8))
		}
		d = append(d, cnt)
		for range n {
			t := byte(32 + e.N(3))
			if e.P(1, 4) {
				t = byte(e.N(64))
			}
			m := e.W(3, 6, 2)
			d = append(d, 0x80|t, 0, byte(m))
			for range m {
				var u []byte
				switch o := orig[t]; e.N(4) {
				case 0:
				case 1:
					u = e.blob(1, 8)
				default:
					u = o
					if e.P(1, 3) {
						u = u[:e.N(len(u)+1)]
					}
				}
				d = append(d, byte(len(u)>>8), byte(len(u)))
				d = append(d, u...)
			}
		}
		x.pre = d
	case "avcC":
		if len(x.pre) < 8 {
			return
		}
		var sps []byte
		if l := int(x.pre[6])<<8 | int(x.pre[7]); l <= len(x.pre)-8 {
			sps = x.pre[8 : 8+l]
		}
		d := append([]byte(nil), x.pre[:5]...)
		set := func(mask byte, orig []byte) {
			m := e.W(2, 6, 2)
			d = append(d, mask|byte(m))
			for range m {
				var u []byte
				switch e.N(4) {
				case 0:
				case 1:
					u = e.blob(1, 8)
				default:
					u = orig
				}
				d = append(d, byte(len(u)>>8), byte(len(u)))
				d = append(d, u...)
			}
		}
		set(0xe0, sps)
		set(0, []byte{8, 1, 2})
		x.pre = d
	case "av1C":
		d := append([]byte(nil), x.pre[:min(4, len(x.pre))]...)
		for range e.N(4) {
			h := []byte{0x0a, 0x12, 0x08, 0x32, 0x0e}[e.N(5)]
			b := e.blob(0, 12)
			d = append(d, h)
			if h&2 != 0 {
				d = append(d, byte(len(b)))
			}
			d = append(d, b...)
		}
		x.pre = d
	case "esds":
		d := []byte{0, 0, 0, 0}
		for range e.N(6) {
			tag := []byte{3, 4, 5, 6, 1}[e.N(5)]
			b := e.blob(0, 24)
			switch {
			case tag == 3 && e.P(2, 3):
				b = []byte{0, 1, []byte{0, 0x80, 0x40, 0x20}[e.N(4)]}
			case tag == 4 && e.P(2, 3):
				b = append([]byte{[]byte{0x20, 0x40, 0x61, 0x6b, 0x6c, 0xff}[e.N(6)], 0x15}, make([]byte, 11)...)
			case tag == 5 && e.P(1, 2):
				b = [][]byte{nil, {0x12}, {0x12, 0x10}, {0, 0, 1, 0xb0}, {0, 0, 1}}[e.N(5)]
			}
			n := uint32(len(b))
			if e.P(1, 6) {
				n = e.oddU32()
			}
			d = append(d, tag, 0x80|byte(n>>21), 0x80|byte(n>>14), 0x80|byte(n>>7), byte(n)&0x7f)
			d = append(d, b...)
		}
		x.pre = d
	default:
		x.pre = e.blob(0, 60)
	}
}

// words per entry of the tables that describe samples.
var tableEntry = map[string]int{"stts": 2, "ctts": 2, "stsc": 3, "stsz": 1, "stss": 1, "stco": 1, "trun": 4, "elst": 3, "sidx": 3}

// damageTable edits entries of a table, that stays well formed.
func (e *Env) damageTable(all []*mbox) {
	var l []*mbox
	for _, x := range all {
		if tableEntry[x.typ] > 0 && len(x.pre) >= 12 {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return
	}
	x := l[e.N(len(l))]
	cntAt, at := 4, 8
	switch x.typ {
	case "stsz":
		cntAt, at = 8, 12
	case "trun":
		for _, f := range []byte{1, 4} { // offset and first flags
			if x.pre[3]&f != 0 {
				at += 4
			}
		}
	}
	w := tableEntry[x.typ]
	if x.typ == "trun" {
		w = 0
		for k := range 4 {
			w += int(x.pre[2] >> k & 1)
		}
	}
	if at > len(x.pre) || w == 0 {
		return
	}
	t := append([]byte(nil), x.pre[at:]...)
	for n := e.W(3, 2, 1, 1); n > 0; n-- { // entries added, repeated or lost
		c := len(t) / (4 * w)
		switch k := e.N(c + 1); e.N(3) {
		case 0:
			if k < c {
				t = append(t[:k*4*w:k*4*w], t[(k+1)*4*w:]...)
			}
		case 1:
			if k < c {
				t = append(t[:k*4*w:k*4*w], append(append([]byte(nil), t[k*4*w:(k+1)*4*w]...), t[k*4*w:]...)...)
			}
		case 2:
			var ent []byte
			for range w {
				ent = append(ent, u32(e.tableWord())...)
			}
			t = append(t[:k*4*w:k*4*w], append(ent, t[k*4*w:]...)...)
		}
	}
	for n := e.W(1, 3, 3, 2, 1); n > 0 && len(t) >= 4; n-- {
		binary.BigEndian.PutUint32(t[e.N(len(t)/4)*4:], e.tableWord())
	}
	x.pre = append(x.pre[:at:at], t...)
	if e.P(9, 10) {
		binary.BigEndian.PutUint32(x.pre[cntAt:], uint32(len(t)/(4*w)))
	}
	e.Fault("table-entries")
}

// tableWord draws a field of an entry.
func (e *Env) tableWord() uint32 {
	switch e.N(5) {
	case 0:
		return 0
	case 1:
		return uint32(e.N(6))
	case 2:
		return uint32(e.R(1_000_000, 10_000_000))
	case 3:
		return uint32(e.N(2000))
	}
	return e.oddU32()
}

// hevcArrays extracts the first unit of each array.
func (e *Env) hevcArrays(p []byte) map[byte][]byte {
	m := map[byte][]byte{}
	p = p[23:]
	for len(p) >= 5 {
		t, n, l := p[0]&0x3f, int(p[1])<<8|int(p[2]), int(p[3])<<8|int(p[4])
		if n != 1 || l > len(p)-5 {
			break
		}
		m[t] = p[5 : 5+l]
		p = p[5+l:]
	}
	return m
}

// holds tells whether y is inside x.
func holds(x, y *mbox) bool {
	for _, k := range x.kids {
		if k == y || holds(k, y) {
			return true
		}
	}
	return false
}

// damageFile damages a recording: structure first, then bytes.
func (e *Env) damageFile(b []byte) []byte {
	if !e.P(1, 8) {
		root := parseBoxes(b)
		for n := 1 + e.W(6, 3, 2, 1); n > 0; n-- {
			root = e.damageBoxes(root)
		}
		b = nil
		for _, x := range root {
			b = x.append(b)
			if len(b) > 4<<20 {
				e.Discard()
			}
		}
	}
	if len(b) > 0 && e.P(1, 3) {
		for n := 1 + e.N(4); n > 0; n-- {
			b[e.N(len(b))] = byte(e.N(256))
		}
		e.Fault("bytes-overwritten")
	}
	if e.P(1, 8) {
		b = b[:e.N(len(b)+1)]
		e.Fault("truncation")
	}
	return b
}
