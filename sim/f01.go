package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

func init() {
	real := []string{"fmp4.Init, Part, Parts", "internal/mp4", "go-mp4 reader and writer"}
	register(&Prop{
		ID: "F01", Quick: 80000, Run: runF01,
		Rule:   "A run is non-trivial when a header and at least one part with a sample were recorded, read back and compared.",
		Real:   append(real, "seekablebuffer.Buffer"),
		Stub:   []string{"file (in memory, drawn start offset)"},
		Assume: []string{"codec parameters are valid for their codec, track ids are unique 32-bit numbers, parts have at most 19200 samples per track (documented limit)"},
	})
	register(&Prop{
		ID: "F02", Quick: 70000, Run: runF02,
		Rule:   "A run is non-trivial when at least one storage operation of a recording failed.",
		Real:   real,
		Stub:   []string{"file (write errors, partial writes, failed seeks, full disk; every operation of the recording fails in turn)"},
		Assume: []string{"a storage that writes less than asked returns an error, as io.Writer requires"},
	})
	register(&Prop{
		ID: "F03", Quick: 1200, Run: runF03,
		Rule:   "A run is non-trivial when a recording with at least one complete part was torn inside a later header or part.",
		Real:   real,
		Stub:   []string{"file (crash after any storage operation, inside any write, and at any byte)"},
		Assume: []string{"after a crash the file holds the effect of a prefix of the storage operations, the last one possibly in part"},
	})
	register(&Prop{
		ID: "F04", Quick: 4500, Run: runF04,
		Rule:   "A run is non-trivial when a header was read in pieces or with a failed operation.",
		Real:   real,
		Stub:   []string{"file (short reads, read and seek errors)"},
		Assume: []string{"boxes placed around the header are well-formed and of types that the header does not use", "bytes that the header is made of are not delivered together with io.EOF (go-mp4 loses them); others may be"},
	})
	register(&Prop{
		ID: "F05", Quick: 400000, Run: runF05,
		Rule:   "A run is non-trivial when data was overwritten or appended after a seek.",
		Real:   []string{"seekablebuffer.Buffer"},
		Stub:   []string{"user of the buffer"},
		Assume: []string{"seeking past the end extends the buffer with zeros at once, as documented by its tests (a file would do it at the next write)"},
	})
}

func mustNil(e *Env, err error, class string) {
	if err != nil {
		e.Fail(class, "%v", err)
	}
}

func runF01(e *Env) {
	in := e.genInit(initOpts{maxTracks: 5, userData: true})
	o := partOpts{maxParts: 5, maxSamples: 8, big: true}
	if e.P(1, 300) {
		o.maxSamples, o.maxParts, o.big = 19200, 1, false
	} else if e.P(1, 12) {
		o.maxSamples = 60
	}
	parts := e.genParts(in, o)
	e.Ev("case", initFull(in), len(parts))
	wantInit, wantFull, wantParts := initView(in), initFull(in), partsView(parts)
	samples := 0
	for _, p := range parts {
		for _, t := range p.Tracks {
			samples += len(t.Samples)
		}
	}

	// parameters that do not fit are refused
	if len(in.Tracks) != 0 && e.P(1, 16) {
		odd := *in.Tracks[e.N(len(in.Tracks))]
		odd.Codec = e.oddCodec()
		one := &fmp4.Init{Tracks: []*fmp4.InitTrack{&odd}}
		var b seekablebuffer.Buffer
		if err := one.Marshal(&b); err == nil {
			var back fmp4.Init
			err = back.Unmarshal(bytes.NewReader(b.Bytes()))
			e.Check(err == nil && initView(&back) == initView(one), "not-refused", "the header of a track was written without error, but it cannot be read back (%v), or it differs: %s", err, initView(one))
		} else {
			e.Fault("unrepresentable parameters")
		}
	}

	// record to a file
	f := e.newFile(nil)
	mustNil(e, in.Marshal(f), "write-error")
	initLen := len(f.data)
	var offs []int
	for _, p := range parts {
		offs = append(offs, len(f.data))
		mustNil(e, p.Marshal(f), "write-error")
		e.Check(f.pos == int64(len(f.data)), "file-position", "position %d after a part that ends at %d", f.pos, len(f.data))
	}
	offs = append(offs, len(f.data))
	e.Ev("file", f.data)
	if e.verbose {
		for i := range parts {
			e.Ev("part", offs[i], wantParts[i])
		}
	}

	e.Check(initFull(in) == wantFull, "caller-modified", "the header was modified by writing it")
	e.Check(diffViews(partsView(parts), wantParts) == "", "caller-modified", "parts were modified by writing them: %s", diffViews(partsView(parts), wantParts))

	// the same content gives the same bytes, in memory and all at once
	b, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return in.Marshal(b) })
	mustNil(e, err, "write-error")
	e.Check(bytes.Equal(b, f.data[:initLen]), "not-deterministic", "header differs when it is written again")
	b, err = marshalBuf(func(b *seekablebuffer.Buffer) error { return parts.Marshal(b) })
	mustNil(e, err, "write-error")
	e.Check(bytes.Equal(b, f.data[initLen:]), "not-deterministic", "parts differ when they are written again")

	// play back
	var in2 fmp4.Init
	hdr := f.data[:initLen]
	if e.P(1, 2) {
		hdr = f.data
	}
	mustNil(e, in2.Unmarshal(bytes.NewReader(hdr)), "header-read-error")
	e.Check(initView(&in2) == wantInit, "header-differs", "got %s want %s", initView(&in2), wantInit)
	for _, t := range in2.Tracks {
		e.checkASC(t.Codec)
	}

	i := 0
	for i < len(parts) {
		n := 1 + e.N(len(parts)-i)
		start := offs[i]
		if i == 0 && e.P(1, 4) {
			start = 0 // header and parts together
		}
		seg := append([]byte(nil), f.data[start:offs[i+n]]...)
		keep := append([]byte(nil), seg...)
		var ps fmp4.Parts
		mustNil(e, ps.Unmarshal(seg), "part-read-error")
		d := diffViews(partsView(ps), wantParts[i:i+n])
		e.Check(d == "", "part-differs", "parts %d-%d: %s", i, i+n-1, d)
		e.Check(bytes.Equal(seg, keep), "input-modified", "reading parts modified the input")
		if e.P(1, 3) {
			b, err = marshalBuf(func(b *seekablebuffer.Buffer) error { return ps.Marshal(b) })
			mustNil(e, err, "rewrite-error")
			e.Check(bytes.Equal(b, f.data[offs[i]:offs[i+n]]), "rewrite-differs", "parts written again after having been read differ")
			e.Probe("rewritten")
		}
		e.Ev("read", i, n)
		i += n
	}
	if samples > 0 {
		e.NonTrivial()
	}
	if samples > 3000 {
		e.Probe("large-part")
	}
	if e.P(1, 100) {
		e.fastLPCM()
	}
}

// fastLPCM records a LPCM track with a sample rate that does not fit the 16 bits of the sample entry.
func (e *Env) fastLPCM() {
	rate := []int{96000, 192000, 88200, 65536}[e.N(4)]
	in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: uint32(rate), Codec: &mp4codecs.LPCM{BitDepth: 24, SampleRate: rate, ChannelCount: 2}}}}
	b, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return in.Marshal(b) })
	if err != nil {
		e.Probe("fast LPCM refused")
		return
	}
	var in2 fmp4.Init
	mustNil(e, in2.Unmarshal(bytes.NewReader(b)), "header-read-error")
	if c, ok := in2.Tracks[0].Codec.(*mp4codecs.LPCM); ok && c.SampleRate == rate&0xFFFF {
		e.Fail("lpcm-rate-wrap", "a LPCM track with %d Hz is read back with %d Hz", rate, c.SampleRate)
	}
	e.Check(initView(&in2) == initView(in), "header-differs", "got %s want %s", initView(&in2), initView(in))
}

// recording is a sequence of writes to a storage.
type recording struct {
	in    *fmp4.Init
	parts fmp4.Parts
}

func (rc *recording) write(f io.WriteSeeker, i int) error {
	if i == 0 {
		return rc.in.Marshal(f)
	}
	if i == len(rc.parts)+1 { // all parts at once
		return rc.parts.Marshal(f)
	}
	return rc.parts[i-1].Marshal(f)
}

func (e *Env) genRecording(maxParts int) *recording {
	rc := &recording{in: e.genInit(initOpts{maxTracks: 3, userData: true})}
	rc.parts = e.genParts(rc.in, partOpts{minParts: 1, maxParts: maxParts, maxSamples: 5})
	return rc
}

func runF02(e *Env) {
	rc := e.genRecording(2)
	e.Ev("case", initFull(rc.in), len(rc.parts))
	var pre []byte
	for i := 0; i <= len(rc.parts)+1; i++ {
		ref := e.newFile(append([]byte(nil), pre...))
		ref.pos = int64(len(pre))
		mustNil(e, rc.write(ref, i), "write-error")
		ops := ref.opN
		kind, sticky := e.N(2), e.P(1, 2)
		werr := e.drawWriteErr()
		stride := 1
		if ops > 3000 {
			stride = ops / 3000
		}
		for op := 0; op < ops; op += stride {
			f := e.newFile(append([]byte(nil), pre...))
			f.pos = int64(len(pre))
			f.failOp, f.failKind, f.sticky, f.err = op, kind, sticky, werr
			err := rc.write(f, i)
			if !f.fired {
				e.Fail("nondeterministic-ops", "operation %d of %d was not reached in the second writing", op, ops)
			}
			e.Check(err != nil, "fault-not-reported", "%s error at operation %d of %d while writing item %d was not reported", f.firedOp, op, ops, i)
		}
		// full disk
		grow := len(ref.data) - len(pre)
		for k := 0; k < 8; k++ {
			f := e.newFile(append([]byte(nil), pre...))
			f.pos = int64(len(pre))
			f.full = int64(len(pre) + e.N(grow))
			f.err = werr
			err := rc.write(f, i)
			e.Check(f.fired, "nondeterministic-ops", "disk of %d bytes not filled by %d", f.full, len(ref.data))
			e.Check(err != nil, "fault-not-reported", "full disk at %d of %d while writing item %d was not reported", f.full, len(ref.data), i)
		}
		e.Ev("item", i, ops, len(ref.data))
		pre = ref.data
		e.NonTrivial()
	}
}

func runF03(e *Env) {
	rc := e.genRecording(3)
	e.Ev("case", initFull(rc.in), len(rc.parts))
	wantInit, want := initView(rc.in), partsView(rc.parts)
	want = append(want, want...) // the parts are written once more, all at once
	// the complete recording, with the boundary of every item
	full := e.newFile(nil)
	var ends []int
	for i := 0; i <= len(rc.parts); i++ {
		mustNil(e, rc.write(full, i), "write-error")
		ends = append(ends, len(full.data))
	}
	initLen := ends[0]

	// check of a torn file of which `complete` items were recorded
	check := func(data []byte, complete int, how string, arg int) {
		var in fmp4.Init
		err := in.Unmarshal(bytes.NewReader(data))
		if complete >= 1 {
			if len(data) > initLen && err != nil && complete < len(ends) && !sameInit(&in, wantInit) {
				// the file goes on with a torn part: reading it from the start of the complete header only must work
				in = fmp4.Init{}
				err = in.Unmarshal(bytes.NewReader(data[:initLen]))
			}
			if err == nil {
				e.Check(initView(&in) == wantInit, "torn-header-differs", "%s %d: header read as %s", how, arg, initView(&in))
			} else if len(data) == initLen {
				e.Fail("complete-header-lost", "%s %d: %v", how, arg, err)
			}
		} else {
			e.Check(err != nil || initView(&in) == wantInit, "torn-header-accepted", "%s %d: a torn header was read as %s instead of %s", how, arg, initView(&in), wantInit)
			return
		}
		if len(data) < initLen {
			return
		}
		var ps fmp4.Parts
		err = ps.Unmarshal(data[initLen:])
		got := partsView(ps)
		n := complete - 1
		if len(got) < n {
			e.Fail("complete-part-lost", "%s %d: %d of %d complete parts read (%v)", how, arg, len(got), n, err)
		}
		d := diffViews(got[:n], want[:n])
		e.Check(d == "", "complete-part-altered", "%s %d: %s", how, arg, d)
		if err == nil {
			// everything that is delivered must have been recorded
			e.Check(len(got) <= len(want), "torn-part-accepted", "%s %d: %d parts", how, arg, len(got))
			for k := n; k < len(got); k++ {
				e.Check(got[k] == want[k], "torn-part-accepted", "%s %d: a torn part was read without error as %s instead of %s", how, arg, clip(got[k]), clip(want[k]))
				e.Probe("part-complete-before-last-op")
			}
		}
		e.Fault("crash")
	}

	// crash at any storage operation of any item
	pre := []byte{}
	for i := 0; i <= len(rc.parts)+1; i++ {
		ref := e.newFile(append([]byte(nil), pre...))
		ref.pos = int64(len(pre))
		mustNil(e, rc.write(ref, i), "write-error")
		for op := 0; op < ref.opN; op++ {
			f := e.newFile(append([]byte(nil), pre...))
			f.pos = int64(len(pre))
			f.failOp, f.sticky, f.err = op, true, errCrash
			f.noLog = true
			f.failKind = e.N(2)
			rc.write(f, i) //nolint:errcheck
			check(f.data, i, "crash at operation", op)
		}
		pre = ref.data
		if i >= 2 {
			e.NonTrivial()
		}
	}
	// cut at any byte (loss of the tail of the file)
	data := full.data
	lo, step := 0, 1
	if len(data) > 3000 {
		step = 1 + len(data)/3000
		lo = e.N(step)
	}
	for cut := lo; cut < len(data); cut += step {
		complete := 0
		for complete < len(ends) && ends[complete] <= cut {
			complete++
		}
		check(data[:cut:cut], complete, "cut at byte", cut)
	}
	if len(rc.parts) > 0 {
		e.NonTrivial()
	}
}

var errCrash = errors.New("crash")

func sameInit(in *fmp4.Init, want string) bool { return initView(in) == want }

// fillerBox is a well-formed box that readers must skip.
func (e *Env) fillerBox() []byte {
	names := []string{"free", "skip", "uuid", "wide", "abcd", "sidx", "emsg", "prft"}
	n := e.N(60)
	if e.P(1, 10) {
		n = e.N(5000)
	}
	b := e.blob(n, n)
	name := names[e.N(len(names))]
	if e.P(1, 8) { // 64-bit size
		l := len(b) + 16
		h := []byte{0, 0, 0, 1, name[0], name[1], name[2], name[3], 0, 0, 0, 0, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
		return append(h, b...)
	}
	l := len(b) + 8
	return append([]byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l), name[0], name[1], name[2], name[3]}, b...)
}

func runF04(e *Env) {
	rc := e.genRecording(1)
	want := initView(rc.in)
	f0 := e.newFile(nil)
	mustNil(e, rc.in.Marshal(f0), "write-error")
	hdr := f0.data
	// surround it: boxes before, between ftyp and moov, after, and parts
	ftypLen := int(hdr[2])<<8 | int(hdr[3])
	var data []byte
	before := 0
	if e.P(1, 2) {
		for i := e.N(3); i > 0; i-- {
			data = append(data, e.fillerBox()...)
			before++
		}
	}
	data = append(data, hdr[:ftypLen]...)
	if e.P(1, 2) {
		for i := e.N(3); i > 0; i-- {
			data = append(data, e.fillerBox()...)
			before++
		}
	}
	data = append(data, hdr[ftypLen:]...)
	after := e.N(3)
	for i := 0; i < after; i++ {
		if e.P(1, 2) {
			data = append(data, e.fillerBox()...)
		} else {
			b, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return rc.parts.Marshal(b) })
			mustNil(e, err, "write-error")
			data = append(data, b...)
		}
	}
	withEOF := e.P(1, 3)
	if withEOF { // the end is announced with bytes that the header does not need
		data = append(data, 0, 0, 0, 12, 'f', 'r', 'e', 'e', 1, 2, 3, 4)
	}
	e.Ev("case", want, len(data), before, after)

	var plain fmp4.Init
	mustNil(e, plain.Unmarshal(bytes.NewReader(data)), "header-read-error")
	e.Check(initView(&plain) == want, "header-differs", "got %s want %s (%d boxes before, %d after)", initView(&plain), want, before, after)

	// any segmentation
	f := e.newFile(data)
	f.shortReads = true
	f.r = e.Sub()
	f.withEOF = withEOF
	f.pos = int64(e.N(len(data) + 1)) // where the file happens to be
	var in fmp4.Init
	err := in.Unmarshal(f)
	mustNil(e, err, "short-read-error")
	e.Check(initView(&in) == want, "short-read-differs", "got %s want %s", initView(&in), want)
	e.NonTrivial()

	// every operation fails in turn
	ref := e.newFile(data)
	in = fmp4.Init{}
	mustNil(e, in.Unmarshal(ref), "header-read-error")
	sticky := e.P(1, 2)
	rerr := e.drawReadErr()
	step := 1
	if ref.opN > 1500 {
		step = ref.opN / 1500
	}
	lo := e.N(step)
	for op := lo; op < ref.opN; op += step {
		f := e.newFile(data)
		f.failOp, f.failKind, f.sticky, f.err = op, e.N(2), sticky, rerr
		var in fmp4.Init
		err := in.Unmarshal(f)
		if err == nil {
			// the MP4 library goes on after a failed size probe, and takes a file that ends after the header as complete
			e.Check(initView(&in) == want, "partial-result", "%s error %v at operation %d of %d gave a partial header without error: %s", f.firedOp, rerr, op, ref.opN, initView(&in))
			e.Probe("fault-absorbed")
		} else if errors.Is(err, rerr) {
			e.Probe("fault-surfaced")
		} else {
			// the MP4 library goes on after some failed seeks, and fails later
			e.Check(f.firedOp != "read", "error-hidden", "%s error %v at operation %d of %d was reported as %v", f.firedOp, rerr, op, ref.opN, err)
			e.Probe("fault-reported-as-other")
		}
	}
}

func runF05(e *Env) {
	var b seekablebuffer.Buffer
	var m []byte
	pos := 0
	r := e.Sub()
	n := 1 + e.N(40)
	put := func(p []byte) {
		if end := pos + len(p); end > len(m) {
			m = append(m, make([]byte, end-len(m))...)
		}
		copy(m[pos:], p)
		pos += len(p)
	}
	moved := false
	for i := 0; i < n; i++ {
		op := e.W(8, 6, 1, 2, 1, 1)
		l := 0
		switch e.N(4) {
		case 0:
			l = 1 + e.N(16)
		case 1:
			l = e.N(300)
		case 2:
			l = 8
		}
		p := make([]byte, l)
		r.fill(p)
		switch op {
		case 0:
			k, err := b.Write(append([]byte(nil), p...))
			e.Check(k == len(p) && err == nil, "write-result", "Write(%d) = %d, %v", len(p), k, err)
			if moved && len(p) > 0 {
				e.NonTrivial()
			}
			put(p)
		case 1:
			wh := e.N(3)
			var off int64
			switch e.W(4, 2, 1) {
			case 0:
				off = int64(e.N(len(m) + 1))
			case 1:
				off = -int64(e.N(len(m) + 3))
			case 2:
				off = int64(e.N(600))
			}
			t := off
			switch wh {
			case io.SeekCurrent:
				t += int64(pos)
			case io.SeekEnd:
				t += int64(len(m))
			}
			k, err := b.Seek(off, wh)
			if t < 0 {
				e.Check(err != nil, "negative-seek", "Seek(%d,%d) to %d gave %d without error", off, wh, t, k)
			} else {
				e.Check(err == nil && k == t, "seek-result", "Seek(%d,%d) = %d, %v instead of %d", off, wh, k, err, t)
				pos = int(t)
				if pos > len(m) {
					m = append(m, make([]byte, pos-len(m))...)
					e.Probe("seek-past-end")
				}
				moved = true
			}
		case 2:
			b.Reset()
			m, pos, moved = nil, 0, false
		case 3: // a string, through the helper of the standard library
			k, err := io.WriteString(&b, string(p))
			e.Check(k == len(p) && err == nil, "write-result", "WriteString(%d) = %d, %v", len(p), k, err)
			put(p)
		case 4: // a copy from a reader
			sr := e.newSimReader(p)
			sr.zero = false
			k, err := io.Copy(&b, sr)
			e.Check(int(k) == len(p) && err == nil, "write-result", "Copy(%d) = %d, %v", len(p), k, err)
			put(p)
		case 5:
			if l > 0 && e.P(1, 2) {
				c := rune(e.N(0x30000))
				k, err := b.WriteRune(c)
				q := []byte(string(c))
				e.Check(k == len(q) && err == nil, "write-result", "WriteRune(%d) = %d, %v", c, k, err)
				put(q)
			} else if l > 0 {
				err := b.WriteByte(p[0])
				e.Check(err == nil, "write-result", "WriteByte: %v", err)
				put(p[:1])
			}
		}
		e.Ev("op", op, l, pos, len(m))
		e.Check(bytes.Equal(b.Bytes(), m), "content", "after operation %d (kind %d) the buffer holds %d bytes, the file %d, or they differ", i, op, b.Len(), len(m))
		k, err := b.Seek(0, io.SeekCurrent)
		e.Check(err == nil && int(k) == pos, "position", "after operation %d (kind %d) the position is %d instead of %d", i, op, k, pos)
	}
}
