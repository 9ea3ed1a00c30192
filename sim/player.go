package main

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

// A player of MP4 files that shares nothing with the code under test nor with go-mp4:
// it takes from the bytes what ISO 14496-12, -14, -15 and the codec bindings tell it to take,
// and refuses what they do not allow.

type bad struct{ s string }

func badf(f string, a ...any) { panic(bad{fmt.Sprintf(f, a...)}) }

// strictly runs fn and returns what it found wrong.
func strictly(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(bad)
			if !ok {
				panic(r)
			}
			msg = b.s
		}
	}()
	fn()
	return ""
}

// cur reads fields.
type cur struct {
	what string
	b    []byte
	p    int
}

func (c *cur) take(n int) []byte {
	if n < 0 || c.p+n > len(c.b) {
		badf("%s: %d bytes at %d of %d", c.what, n, c.p, len(c.b))
	}
	c.p += n
	return c.b[c.p-n : c.p : c.p]
}
func (c *cur) uint(n int) uint64 {
	v := uint64(0)
	for _, x := range c.take(n) {
		v = v<<8 | uint64(x)
	}
	return v
}
func (c *cur) u8() int     { return int(c.uint(1)) }
func (c *cur) u16() int    { return int(c.uint(2)) }
func (c *cur) u32() uint32 { return uint32(c.uint(4)) }
func (c *cur) left() int   { return len(c.b) - c.p }
func (c *cur) end() {
	if c.left() != 0 {
		badf("%s: %d bytes left over", c.what, c.left())
	}
}
func (c *cur) full() (int, uint32) {
	v := c.u32()
	return int(v >> 24), v & 0xFFFFFF
}
func (c *cur) zeros(n int) {
	for i, x := range c.take(n) {
		if x != 0 {
			badf("%s: reserved byte %d is %#x", c.what, i, x)
		}
	}
}
func (c *cur) want(v uint64, n int, field string) {
	if g := c.uint(n); g != v {
		badf("%s: %s is %#x, expected %#x", c.what, field, g, v)
	}
}

// pbox is a box.
type pbox struct {
	typ  string
	off  int // of the header, in the file
	hdr  int
	size int
	body []byte
}

// boxes splits bytes into boxes. If tail is not nil, an incomplete last box is stored into it.
func boxes(what string, b []byte, base int, tail *[]byte) []pbox {
	var l []pbox
	for p := 0; p < len(b); {
		left := len(b) - p
		c := cur{what: what, b: b[p:]}
		torn := func() bool {
			if tail == nil {
				badf("%s: incomplete box at %d", what, base+p)
			}
			*tail = b[p:]
			return true
		}
		if left < 8 && torn() {
			return l
		}
		size := int(c.u32())
		typ := string(c.take(4))
		hdr := 8
		if size == 1 {
			if left < 16 && torn() {
				return l
			}
			size = int(c.uint(8))
			hdr = 16
		}
		if size < hdr {
			badf("%s: box %q at %d has size %d", what, typ, base+p, size)
		}
		if size > left && torn() {
			return l
		}
		l = append(l, pbox{typ, base + p, hdr, size, b[p+hdr : p+size : p+size]})
		p += size
	}
	return l
}

func (x pbox) kids(skip int) []pbox {
	if skip > len(x.body) {
		badf("%s: too short", x.typ)
	}
	return boxes(x.typ, x.body[skip:], x.off+x.hdr+skip, nil)
}
func (x pbox) cur() *cur { return &cur{what: x.typ, b: x.body} }

// one returns the only box of a type.
func one(in string, l []pbox, typ string) pbox {
	r := opt(in, l, typ)
	if r == nil {
		badf("%s: no %s", in, typ)
	}
	return *r
}

// opt returns the box of a type, if any.
func opt(in string, l []pbox, typ string) *pbox {
	var r *pbox
	for i := range l {
		if l[i].typ == typ {
			if r != nil {
				badf("%s: more than one %s", in, typ)
			}
			r = &l[i]
		}
	}
	return r
}

// playTrack is what a player knows about a track.
type playTrack struct {
	id       uint32
	scale    uint32
	mdhdDur  uint64
	tkhdDur  uint64
	audio    bool
	width    int // track header
	height   int
	entry    string
	entryW   int
	entryH   int
	channels int
	bits     int
	rate     int
	config   string // codec configuration, rendered
	bitrates [][2]uint32
	edits    []playEdit
	stbl     []pbox
}

type playEdit struct {
	dur  uint64
	time int64
}

// descr reads a descriptor of ISO 14496-1.
func (c *cur) descr(tag int) *cur {
	c.want(uint64(tag), 1, "descriptor tag")
	n := 0
	for i := 0; ; i++ {
		if i == 4 {
			badf("%s: descriptor size has more than 4 bytes", c.what)
		}
		v := c.u8()
		n = n<<7 | v&0x7F
		if v&0x80 == 0 {
			break
		}
	}
	return &cur{what: fmt.Sprintf("%s descriptor %d", c.what, tag), b: c.take(n)}
}

// esds reads an elementary stream descriptor.
func (t *playTrack) esds(x pbox) string {
	c := x.cur()
	c.want(0, 4, "version")
	es := c.descr(3)
	c.end()
	if id := es.u16(); id != 0 && id != int(t.id&0xFFFF) {
		badf("esds: ES_ID %d of track %d", id, t.id)
	}
	es.want(0, 1, "stream flags")
	dc := es.descr(4)
	sl := es.descr(6)
	es.end()
	sl.want(2, 1, "predefined SL config")
	sl.end()
	ot := dc.u8()
	st := dc.u8()
	if st&1 != 1 || st&2 != 0 {
		badf("esds: stream type byte %#x", st)
	}
	dc.take(3)
	mx, av := dc.u32(), dc.u32()
	t.bitrates = append(t.bitrates, [2]uint32{mx, av})
	spec := "none"
	if dc.left() > 0 {
		s := dc.descr(5)
		spec = fmt.Sprintf("%x", s.b)
	}
	dc.end()
	return fmt.Sprintf("esds object %#x stream %d config %s", ot, st>>2, spec)
}

// nalus reads a counted list of NAL units.
func (c *cur) nalus(n int) string {
	s := ""
	for ; n > 0; n-- {
		s += fmt.Sprintf(" %x", c.take(c.u16()))
	}
	return s
}

// configBox reads the box that configures the codec of a sample entry.
func (t *playTrack) configBox(x pbox) string {
	c := x.cur()
	switch x.typ {
	case "avcC":
		c.want(1, 1, "version")
		prof := c.take(3)
		c.want(0xFF, 1, "length size")
		n := c.u8()
		if n&0xE0 != 0xE0 {
			badf("avcC: reserved bits %#x", n)
		}
		s := fmt.Sprintf("avcC %x sps%s", prof, c.nalus(n&0x1F))
		s += " pps" + c.nalus(c.u8())
		if c.left() > 0 { // the end of the record of high profiles is often omitted
			if p := prof[0]; p != 100 && p != 110 && p != 122 && p != 144 {
				badf("avcC: %d bytes left over", c.left())
			}
			c.take(3)
			c.nalus(c.u8())
		}
		c.end()
		return s
	case "hvcC":
		c.want(1, 1, "version")
		s := fmt.Sprintf("hvcC profile %x compat %x constraints %x level %x", c.take(1), c.take(4), c.take(6), c.take(1))
		if v := c.u16(); v&0xF000 != 0xF000 {
			badf("hvcC: reserved bits %#x", v)
		}
		r := c.take(4)
		if r[0]&0xFC != 0xFC || r[1]&0xFC != 0xFC || r[2]&0xF8 != 0xF8 || r[3]&0xF8 != 0xF8 {
			badf("hvcC: reserved bits %x", r)
		}
		s += fmt.Sprintf(" chroma %d depth %d %d", r[1]&3, r[2]&7, r[3]&7)
		c.take(2)
		if v := c.u8(); v&3 != 3 {
			badf("hvcC: length size %d", v&3+1)
		}
		for n := c.u8(); n > 0; n-- {
			typ := c.u8()
			if typ&0x40 != 0 {
				badf("hvcC: reserved bit of an array")
			}
			s += fmt.Sprintf(" type %d:%s", typ&0x3F, c.nalus(c.u16()))
		}
		c.end()
		return s
	case "av1C":
		b := c.take(4)
		if b[0] != 0x81 || b[3]&0xE0 != 0 || b[3]&0x10 == 0 && b[3]&0xF != 0 {
			badf("av1C: %x", b)
		}
		return fmt.Sprintf("av1C %x obus %x", b[1:3], c.take(c.left()))
	case "vpcC":
		c.want(1<<24, 4, "version")
		prof := c.u8()
		c.u8()
		s := fmt.Sprintf("vpcC profile %d format %x", prof, c.take(1))
		c.take(3)
		c.want(0, 2, "initialization data")
		c.end()
		return s
	case "esds":
		return t.esds(x)
	case "dOps":
		c.want(0, 1, "version")
		s := fmt.Sprintf("dOps channels %d", c.u8())
		c.take(6)
		if gain := c.u16(); gain != 0 {
			badf("dOps: gain %d", gain)
		}
		if c.u8() != 0 {
			c.take(2 + t.channels)
		}
		c.end()
		return s
	case "dfLa":
		c.want(0, 4, "version")
		s := "dfLa"
		for last := false; !last; {
			h := c.u8()
			last = h&0x80 != 0
			s += fmt.Sprintf(" block %d %x", h&0x7F, c.take(int(c.uint(3))))
		}
		c.end()
		return s
	case "dac3":
		s := fmt.Sprintf("dac3 %x", c.take(3))
		c.end()
		return s
	case "dec3":
		return fmt.Sprintf("dec3 %x", c.take(c.left()))
	case "pcmC":
		c.want(0, 4, "version")
		s := fmt.Sprintf("pcmC flags %d bits %d", c.u8(), c.u8())
		c.end()
		return s
	}
	badf("unknown configuration %q", x.typ)
	return ""
}

var entryConfig = map[string]string{"avc1": "avcC", "hvc1": "hvcC", "hev1": "hvcC", "av01": "av1C", "vp09": "vpcC", "mp4v": "esds",
	"Opus": "dOps", "fLaC": "dfLa", "mp4a": "esds", "ac-3": "dac3", "ec-3": "dec3", "ipcm": "pcmC"}

// stsd reads the sample description.
func (t *playTrack) stsd(x pbox) {
	c := x.cur()
	c.want(0, 4, "version")
	c.want(1, 4, "entry count")
	l := x.kids(8)
	if len(l) != 1 {
		badf("stsd: %d entries", len(l))
	}
	en := l[0]
	t.entry = en.typ
	c = en.cur()
	c.zeros(6)
	c.want(1, 2, "data reference index")
	if t.audio {
		c.zeros(8)
		t.channels, t.bits = c.u16(), c.u16()
		c.zeros(4)
		t.rate = c.u16()
		c.want(0, 2, "fraction of the sample rate")
	} else {
		c.zeros(16)
		t.entryW, t.entryH = c.u16(), c.u16()
		c.want(0x00480000, 4, "horizontal resolution")
		c.want(0x00480000, 4, "vertical resolution")
		c.zeros(4)
		c.want(1, 2, "frame count")
		if n := c.u8(); n > 31 {
			badf("%s: compressor name of %d characters", en.typ, n)
		}
		c.take(31)
		c.u16()
		c.want(0xFFFF, 2, "pre_defined")
	}
	kids := en.kids(c.p)
	cfg, ok := entryConfig[en.typ]
	if !ok {
		badf("unknown sample entry %q", en.typ)
	}
	t.config = t.configBox(one(en.typ, kids, cfg))
	if b := opt(en.typ, kids, "btrt"); b != nil {
		c := b.cur()
		c.u32()
		mx, av := c.u32(), c.u32()
		c.end()
		t.bitrates = append(t.bitrates, [2]uint32{mx, av})
	}
}

func (c *cur) word(version int) uint64 {
	switch version {
	case 0:
		return c.uint(4)
	case 1:
		return c.uint(8)
	}
	badf("%s: version %d", c.what, version)
	return 0
}

func (c *cur) matrix() {
	for i, v := range []uint64{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000} {
		c.want(v, 4, fmt.Sprintf("matrix value %d", i))
	}
}

// trak reads a track.
func readTrak(x pbox) *playTrack {
	t := &playTrack{}
	l := x.kids(0)
	mdia := one("trak", l, "mdia").kids(0)
	hd := one("mdia", mdia, "hdlr").cur()
	hd.want(0, 4, "version")
	hd.u32()
	h := string(hd.take(4))
	hd.zeros(12)
	if n := hd.take(hd.left()); len(n) == 0 || n[len(n)-1] != 0 {
		badf("hdlr: name %q is not terminated", n)
	}
	switch h {
	case "vide":
	case "soun":
		t.audio = true
	default:
		badf("handler %q", h)
	}

	c := one("trak", l, "tkhd").cur()
	v, flags := c.full()
	if flags&3 != 3 {
		badf("tkhd: track is not enabled or not in the movie: flags %#x", flags)
	}
	c.word(v)
	c.word(v)
	t.id = c.u32()
	c.zeros(4)
	t.tkhdDur = c.word(v)
	c.zeros(8)
	c.take(4)
	vol := c.u16()
	if vol != 0 && !t.audio || vol != 0x100 && t.audio {
		badf("tkhd: volume %#x of a %s track", vol, h)
	}
	c.zeros(2)
	c.matrix()
	w, hh := c.u32(), c.u32()
	c.end()
	if w&0xFFFF != 0 || hh&0xFFFF != 0 || t.audio && (w != 0 || hh != 0) {
		badf("tkhd: size %#x x %#x of a %s track", w, hh, h)
	}
	t.width, t.height = int(w>>16), int(hh>>16)
	if t.id == 0 {
		badf("tkhd: track id 0")
	}

	c = one("mdia", mdia, "mdhd").cur()
	v, _ = c.full()
	c.word(v)
	c.word(v)
	t.scale = c.u32()
	t.mdhdDur = c.word(v)
	if lang := c.u16(); lang != 0x55C4 {
		badf("mdhd: language %#x", lang)
	}
	c.zeros(2)
	c.end()

	minf := one("mdia", mdia, "minf").kids(0)
	if t.audio {
		c = one("minf", minf, "smhd").cur()
		c.want(0, 4, "version")
		c.zeros(4)
	} else {
		c = one("minf", minf, "vmhd").cur()
		c.want(1, 4, "version and flags")
		c.zeros(8)
	}
	c.end()
	dref := one("dinf", one("minf", minf, "dinf").kids(0), "dref")
	c = dref.cur()
	c.want(0, 4, "version")
	c.want(1, 4, "entry count")
	urls := dref.kids(8)
	if len(urls) != 1 || urls[0].typ != "url " {
		badf("dref: %d entries", len(urls))
	}
	c = urls[0].cur()
	c.want(1, 4, "flags (media data are in the same file)")
	c.end()
	t.stbl = one("minf", minf, "stbl").kids(0)
	t.stsd(one("stbl", t.stbl, "stsd"))

	if ed := opt("trak", l, "edts"); ed != nil {
		c = one("edts", ed.kids(0), "elst").cur()
		v, _ = c.full()
		for n := c.u32(); n > 0; n-- {
			en := playEdit{dur: c.word(v)}
			if v == 1 {
				en.time = int64(c.uint(8))
			} else {
				en.time = int64(int32(c.u32()))
			}
			c.want(0x10000, 4, "media rate")
			t.edits = append(t.edits, en)
		}
		c.end()
	}
	return t
}

// playHeader is what a player knows about a movie.
type playHeader struct {
	scale  uint32
	dur    uint64
	tracks []*playTrack
	trex   map[uint32][4]uint32
	user   []pbox
	nextID string // what is wrong with next_track_ID
	next   uint32
}

// readMoov reads a movie box.
func readMoov(x pbox, fragmented bool) *playHeader {
	h := &playHeader{}
	l := x.kids(0)
	if len(l) == 0 || l[0].typ != "mvhd" {
		badf("moov does not start with mvhd")
	}
	c := one("moov", l, "mvhd").cur()
	v, _ := c.full()
	c.word(v)
	c.word(v)
	h.scale = c.u32()
	h.dur = c.word(v)
	c.want(0x10000, 4, "rate")
	c.want(0x100, 2, "volume")
	c.zeros(10)
	c.matrix()
	c.zeros(24)
	next := c.u32()
	c.end()
	if h.scale == 0 {
		badf("mvhd: time scale 0")
	}
	ids := map[uint32]bool{}
	for _, b := range l {
		if b.typ == "trak" {
			t := readTrak(b)
			if ids[t.id] {
				badf("track %d is declared twice", t.id)
			}
			if next != 0xFFFFFFFF && t.id >= next {
				h.nextID = fmt.Sprintf("next_track_ID is %d with a track %d", next, t.id)
			}
			ids[t.id] = true
			h.tracks = append(h.tracks, t)
		}
	}
	mvex := opt("moov", l, "mvex")
	if (mvex != nil) != fragmented {
		badf("moov: mvex %v", mvex != nil)
	}
	h.next = next
	if mvex != nil {
		h.trex = map[uint32][4]uint32{}
		for _, b := range mvex.kids(0) {
			if b.typ != "trex" {
				continue
			}
			c := b.cur()
			c.want(0, 4, "version")
			id := c.u32()
			if _, ok := h.trex[id]; ok || !ids[id] {
				badf("trex of track %d: unknown or twice", id)
			}
			d := [4]uint32{c.u32(), c.u32(), c.u32(), c.u32()}
			c.end()
			if d[0] != 1 {
				badf("trex: sample description %d", d[0])
			}
			h.trex[id] = d
		}
		for id := range ids {
			if _, ok := h.trex[id]; !ok {
				badf("no trex of track %d", id)
			}
		}
	}
	if u := opt("moov", l, "udta"); u != nil {
		h.user = u.kids(0)
	}
	return h
}

// checkFtyp reads the file type.
func checkFtyp(x pbox, allowed ...string) {
	if x.typ != "ftyp" {
		badf("the file starts with %q", x.typ)
	}
	c := x.cur()
	major := string(c.take(4))
	c.u32()
	ok := false
	var brands []string
	for c.left() > 0 {
		brands = append(brands, string(c.take(4)))
		for _, a := range allowed {
			ok = ok || brands[len(brands)-1] == a
		}
	}
	in := false
	for _, b := range brands {
		in = in || b == major
	}
	if !ok || !in {
		badf("ftyp: major brand %q, compatible %q", major, brands)
	}
}

// playSample is a sample as it is played.
type playSample struct {
	dur  uint32
	off  int64
	sync bool
	data []byte
	pos  uint64 // in the file, of presentations only
}

func (s playSample) String() string {
	return fmt.Sprintf("%d/%d/%v/%x", s.dur, s.off, s.sync, hashBytes(s.data)) + fmt.Sprintf("/%d", len(s.data))
}

// readFragment plays a movie fragment. file is the whole file (offsets are relative to it),
// media the bodies of the following mdat boxes.
func readFragment(h *playHeader, moof pbox, file []byte, base int, mdat []pbox) string {
	l := moof.kids(0)
	if len(l) == 0 || l[0].typ != "mfhd" {
		badf("moof does not start with mfhd")
	}
	c := one("moof", l, "mfhd").cur()
	c.want(0, 4, "version")
	out := fmt.Sprintf("seq %d", c.u32())
	c.end()
	for _, b := range l {
		if b.typ != "traf" {
			continue
		}
		k := b.kids(0)
		if len(k) == 0 || k[0].typ != "tfhd" {
			badf("traf does not start with tfhd")
		}
		c := one("traf", k, "tfhd").cur()
		v, fl := c.full()
		if v != 0 {
			badf("tfhd: version %d", v)
		}
		id := c.u32()
		d, ok := h.trex[id]
		if !ok {
			badf("tfhd: track %d is not declared", id)
		}
		start := uint64(moof.off)
		if fl&1 != 0 {
			start = c.uint(8)
		} else if fl&0x20000 == 0 {
			badf("tfhd: data offsets are not relative to the fragment")
		}
		if fl&2 != 0 {
			d[0] = c.u32()
		}
		if fl&8 != 0 {
			d[1] = c.u32()
		}
		if fl&0x10 != 0 {
			d[2] = c.u32()
		}
		if fl&0x20 != 0 {
			d[3] = c.u32()
		}
		c.end()
		c = one("traf", k, "tfdt").cur()
		v, _ = c.full()
		out += fmt.Sprintf(" track %d @%d:", id, c.word(v))
		c.end()
		pos := start
		for _, t := range k {
			if t.typ != "trun" {
				continue
			}
			c := t.cur()
			v, fl := c.full()
			if v > 1 {
				badf("trun: version %d", v)
			}
			n := c.u32()
			if fl&1 != 0 {
				pos = start + uint64(int64(int32(c.u32())))
			}
			first, hasFirst := uint32(0), fl&4 != 0
			if hasFirst {
				first = c.u32()
			}
			for i := uint32(0); i < n; i++ {
				s := playSample{dur: d[1]}
				size, flags := d[2], d[3]
				if fl&0x100 != 0 {
					s.dur = c.u32()
				}
				if fl&0x200 != 0 {
					size = c.u32()
				}
				if fl&0x400 != 0 {
					flags = c.u32()
				} else if i == 0 && hasFirst {
					flags = first
				}
				if fl&0x800 != 0 {
					if v == 0 {
						s.off = int64(c.u32())
					} else {
						s.off = int64(int32(c.u32()))
					}
				}
				if flags&0xF000FFFF != 0 && flags&0xF0000000 != 0 {
					badf("trun: reserved sample flags %#x", flags)
				}
				s.sync = flags&0x10000 == 0
				s.data = mediaAt(mdat, pos, uint64(size))
				pos += uint64(size)
				out += " " + s.String()
			}
			c.end()
		}
	}
	return out
}

// mediaAt returns the bytes of a sample, that must lie in a media data box.
func mediaAt(mdat []pbox, pos, size uint64) []byte {
	if size == 0 {
		return nil
	}
	for _, m := range mdat {
		lo := uint64(m.off + m.hdr)
		if pos >= lo && pos+size <= uint64(m.off+m.size) {
			return m.body[pos-lo : pos-lo+size]
		}
	}
	badf("a sample of %d bytes at %d is not in media data", size, pos)
	return nil
}

// table reads a sample table of counted entries.
func (t *playTrack) table(name string, fields int) ([][]uint32, int, bool) {
	x := opt("stbl", t.stbl, name)
	if x == nil {
		return nil, 0, false
	}
	c := x.cur()
	v, _ := c.full()
	n := c.u32()
	if uint64(n)*uint64(fields)*4 != uint64(c.left()) {
		badf("%s: %d entries in %d bytes", name, n, c.left())
	}
	var l [][]uint32
	for ; n > 0; n-- {
		var en []uint32
		for i := 0; i < fields; i++ {
			en = append(en, c.u32())
		}
		l = append(l, en)
	}
	return l, v, true
}

// samples plays the sample tables of a track of a movie that is not fragmented.
func (t *playTrack) samples(mdat []pbox) []playSample {
	c := one("stbl", t.stbl, "stsz").cur()
	c.want(0, 4, "version")
	uniform, n := c.u32(), int(c.u32())
	sizes := make([]uint32, 0, 16)
	for i := 0; i < n; i++ {
		if uniform == 0 {
			sizes = append(sizes, c.u32())
		} else {
			sizes = append(sizes, uniform)
		}
	}
	c.end()
	out := make([]playSample, n)

	stts, _, ok := t.table("stts", 2)
	if !ok {
		badf("no stts")
	}
	k := 0
	for _, en := range stts {
		if en[0] == 0 {
			badf("stts: empty entry")
		}
		for j := uint32(0); j < en[0]; j++ {
			if k == n {
				badf("stts: more than %d samples", n)
			}
			out[k].dur = en[1]
			k++
		}
	}
	if k != n {
		badf("stts: %d of %d samples", k, n)
	}

	ctts, v, ok := t.table("ctts", 2)
	if ok {
		k = 0
		for _, en := range ctts {
			if en[0] == 0 {
				badf("ctts: empty entry")
			}
			for j := uint32(0); j < en[0]; j++ {
				if k == n {
					badf("ctts: more than %d samples", n)
				}
				out[k].off = int64(en[1])
				if v == 1 {
					out[k].off = int64(int32(en[1]))
				}
				k++
			}
		}
		if k != n {
			badf("ctts: %d of %d samples", k, n)
		}
	}

	stss, _, ok := t.table("stss", 1)
	if !ok {
		for i := range out {
			out[i].sync = true
		}
	}
	prev := uint32(0)
	for _, en := range stss {
		if en[0] <= prev || int(en[0]) > n {
			badf("stss: sample %d after %d, of %d", en[0], prev, n)
		}
		prev = en[0]
		out[en[0]-1].sync = true
	}

	stsc, _, ok := t.table("stsc", 3)
	if !ok {
		badf("no stsc")
	}
	stco, _, ok := t.table("stco", 1)
	if !ok {
		badf("no stco")
	}
	for i, en := range stsc {
		if i == 0 && en[0] != 1 || i > 0 && en[0] <= stsc[i-1][0] || int(en[0]) > len(stco) || en[1] == 0 || en[2] != 1 {
			badf("stsc: entry %d is %v, with %d chunks", i, en, len(stco))
		}
	}
	k = 0
	next := 0
	per := uint32(0)
	for i := range stco {
		for next < len(stsc) && stsc[next][0] <= uint32(i+1) {
			per = stsc[next][1]
			next++
		}
		if per == 0 {
			badf("stsc: chunk %d is not described", i+1)
		}
		pos := uint64(stco[i][0])
		for j := per; j > 0; j-- {
			if k == n {
				badf("stsc: more than %d samples", n)
			}
			out[k].data, out[k].pos = mediaAt(mdat, pos, uint64(sizes[k])), pos
			pos += uint64(sizes[k])
			k++
		}
	}
	if k != n {
		badf("stsc: %d of %d samples are in chunks", k, n)
	}
	return out
}

// codecTraits is what the generator knows about drawn parameters.
type codecTraits struct {
	w, h  int
	bytes []byte // bytes of the configuration record
}

// cropped is the size of a picture (H.264 7.4.2.1.1).
func (p *h264P) cropped() (int, int) {
	ux, uy := 1, 1
	if p.chroma != 0 && !p.sepPlane {
		if p.chroma < 3 {
			ux = 2
		}
		if p.chroma == 1 {
			uy = 2
		}
	}
	f := 1
	if !p.frameOnly {
		f = 2
	}
	w, h := int(p.wMbs+1)*16, int(p.hMap+1)*16*f
	if p.crop {
		w -= ux * int(p.cropV[0]+p.cropV[1])
		h -= uy * f * int(p.cropV[2]+p.cropV[3])
	}
	return w, h
}

func (p *h265P) cropped() (int, int) {
	ux, uy := 1, 1
	if p.chroma == 1 || p.chroma == 2 {
		ux = 2
	}
	if p.chroma == 1 {
		uy = 2
	}
	w, h := int(p.w), int(p.h)
	if p.win {
		w -= ux * int(p.winV[0]+p.winV[1])
		h -= uy * int(p.winV[2]+p.winV[3])
	}
	return w, h
}

// expectTrack renders what a player must see of a track, except for what trackView leaves out.
func (e *Env) expectTrack(id int, scale uint32, c mp4codecs.Codec, mx, av uint32) string {
	w, h := -1, -1
	entry, cfg := "", ""
	audio := false
	ch, bits, rate := -1, 16, -1
	tr := e.traits[c]
	es := func(ot, st int, spec []byte) string {
		s := "none"
		if spec != nil {
			s = fmt.Sprintf("%x", spec)
		}
		return fmt.Sprintf("esds object %#x stream %d config %s", ot, st, s)
	}
	bitsOf := func(fn func(b *bitw)) []byte {
		var b bitw
		fn(&b)
		return b.b
	}
	switch c := c.(type) {
	case *mp4codecs.H264:
		entry, w, h = "avc1", tr.w, tr.h
		cfg = fmt.Sprintf("avcC %x sps %x pps %x", c.SPS[1:4], c.SPS, c.PPS)
	case *mp4codecs.H265:
		entry, w, h = "hvc1", tr.w, tr.h
		b := tr.bytes
		cfg = fmt.Sprintf("hvcC profile %x compat %x constraints %x level %x chroma %d depth %d %d type 32: %x type 33: %x type 34: %x", b[0:1], b[1:5], b[5:11], b[11:12], b[12], b[13], b[14], c.VPS, c.SPS, c.PPS)
	case *mp4codecs.AV1:
		entry, w, h = "av01", tr.w, tr.h
		n := len(c.SequenceHeader) - 1
		obu := []byte{c.SequenceHeader[0] | 2}
		for n >= 128 {
			obu = append(obu, byte(n&0x7F|0x80))
			n >>= 7
		}
		obu = append(append(obu, byte(n)), c.SequenceHeader[1:]...)
		cfg = fmt.Sprintf("av1C %x obus %x", tr.bytes, obu)
	case *mp4codecs.VP9:
		entry, w, h = "vp09", c.Width, c.Height
		r := 0
		if c.ColorRange {
			r = 1
		}
		cfg = fmt.Sprintf("vpcC profile %d format %x", c.Profile, []byte{c.BitDepth<<4 | c.ChromaSubsampling<<1 | byte(r)})
	case *mp4codecs.MPEG4Video:
		entry, cfg = "mp4v", es(0x20, 4, c.Config)
	case *mp4codecs.MPEG1Video:
		entry, cfg = "mp4v", es(0x61, 4, c.Config)
	case *mp4codecs.MJPEG:
		entry, cfg, w, h = "mp4v", es(0x6C, 4, nil), c.Width, c.Height
	case *mp4codecs.Opus:
		audio, entry, ch, rate = true, "Opus", c.ChannelCount, 48000
		cfg = fmt.Sprintf("dOps channels %d", c.ChannelCount)
	case *mp4codecs.FLAC:
		audio, entry, ch, bits, rate = true, "fLaC", int(c.StreamInfo.ChannelCount), int(c.StreamInfo.BitDepth), int(c.StreamInfo.SampleRate)
		s := c.StreamInfo
		var b boxw
		b.u16(int(s.MinBlockSize))
		b.u16(int(s.MaxBlockSize))
		b.u8(int(s.MinFrameSize >> 16))
		b.u16(int(s.MinFrameSize & 0xFFFF))
		b.u8(int(s.MaxFrameSize >> 16))
		b.u16(int(s.MaxFrameSize & 0xFFFF))
		b.u64(uint64(s.SampleRate)<<44 | uint64(s.ChannelCount-1)<<41 | uint64(s.BitDepth-1)<<36 | s.TotalSamples)
		b.raw(s.MD5[:])
		cfg = fmt.Sprintf("dfLa block 0 %x", b.b)
	case *mp4codecs.MPEG4Audio:
		audio, entry, rate = true, "mp4a", c.Config.SampleRate
		ac := fullASC(c.Config)
		ch = ac.ChannelCount //nolint:staticcheck
		cfg = es(0x40, 5, ascOf(&ac))
	case *mp4codecs.MPEG1Audio:
		audio, entry, ch, rate = true, "mp4a", c.ChannelCount, c.SampleRate
		cfg = es(0x6B, 5, nil)
	case *mp4codecs.AC3:
		audio, entry, ch, rate = true, "ac-3", c.ChannelCount, c.SampleRate
		cfg = fmt.Sprintf("dac3 %x", bitsOf(func(b *bitw) {
			b.bits(uint64(map[int]int{48000: 0, 44100: 1, 32000: 2}[c.SampleRate]), 2)
			b.bits(uint64(c.Bsid), 5)
			b.bits(uint64(c.Bsmod), 3)
			b.bits(uint64(c.Acmod), 3)
			b.flag(c.LfeOn)
			b.bits(uint64(c.BitRateCode), 5)
			b.bits(0, 5)
		}))
	case *mp4codecs.EAC3:
		audio, entry, ch, rate = true, "ec-3", c.ChannelCount, c.SampleRate
		cfg = fmt.Sprintf("dec3 %x", bitsOf(func(b *bitw) {
			b.bits(uint64(c.DataRate), 13)
			b.bits(0, 3)
			b.bits(uint64(map[int]int{48000: 0, 44100: 1, 32000: 2}[c.SampleRate]), 2)
			b.bits(16, 5)
			b.bits(0, 1)
			b.flag(c.Asvc)
			b.bits(uint64(c.Bsmod), 3)
			b.bits(uint64(c.Acmod), 3)
			b.flag(c.LfeOn)
			b.bits(0, 3)
			b.bits(uint64(c.NumDepSub), 4)
			if c.NumDepSub > 0 {
				b.bits(uint64(c.ChanLoc), 9)
			} else {
				b.bits(0, 1)
			}
		}))
	case *mp4codecs.LPCM:
		audio, entry, ch, bits, rate = true, "ipcm", c.ChannelCount, c.BitDepth, c.SampleRate
		f := 0
		if c.LittleEndian {
			f = 1
		}
		cfg = fmt.Sprintf("pcmC flags %d bits %d", f, c.BitDepth)
	}
	if rate > 0xFFFF {
		rate = -1 // does not fit: the configuration of the codec is authoritative
	}
	return renderTrack(uint32(id), scale, audio, entry, w, h, ch, bits, rate, cfg, mx, av)
}

func renderTrack(id, scale uint32, audio bool, entry string, w, h, ch, bits, rate int, cfg string, mx, av uint32) string {
	s := fmt.Sprintf("track %d/%d %s", id, scale, entry)
	if audio {
		s += fmt.Sprintf(" audio channels %d bits %d rate %d", ch, bits, rate)
	} else {
		s += fmt.Sprintf(" video %dx%d", w, h)
	}
	return s + fmt.Sprintf(" bitrates %d %d %s", mx, av, cfg)
}

// view renders a track in the terms of expectTrack. c tells which fields have a meaning.
func (t *playTrack) view(c mp4codecs.Codec) string {
	w, h, rate := t.width, t.height, t.rate
	switch c := c.(type) {
	case *mp4codecs.MPEG4Video, *mp4codecs.MPEG1Video:
		w, h = -1, -1
	case *mp4codecs.FLAC:
		if c.StreamInfo.SampleRate > 0xFFFF {
			rate = -1
		}
	case *mp4codecs.MPEG4Audio:
		if c.Config.SampleRate > 0xFFFF {
			rate = -1
		}
	}
	if !t.audio && (t.entryW != t.width || t.entryH != t.height) {
		badf("track %d: %dx%d in the track header, %dx%d in the sample entry", t.id, t.width, t.height, t.entryW, t.entryH)
	}
	mx, av := uint32(0), uint32(0)
	for i, b := range t.bitrates {
		if i > 0 && b != t.bitrates[0] {
			badf("track %d: bitrates %v", t.id, t.bitrates)
		}
		mx, av = b[0], b[1]
	}
	return renderTrack(t.id, t.scale, t.audio, t.entry, w, h, t.channels, t.bits, rate, t.config, mx, av)
}

// ascOf encodes an AudioSpecificConfig (ISO 14496-3, 1.6.2.1).
func ascOf(c *mpeg4audio.AudioSpecificConfig) []byte {
	var w bitw
	ascBits(&w, c)
	for w.n%8 != 0 {
		w.flag(false)
	}
	return w.b
}

var _ = bytes.Equal
