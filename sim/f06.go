package main

import (
	"bytes"
	"runtime"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
)

func init() {
	register(&Prop{
		ID: "F06", Quick: 300000, Run: runF06,
		Rule:   "A run is non-trivial when a damaged header or part was given to the reader.",
		Real:   []string{"fmp4.Init, Parts", "internal/mp4", "go-mp4 reader and writer", "codec parameter parsers"},
		Stub:   []string{"file with damaged content"},
		Assume: []string{"the input is a damaged recording of at most 4 MB"},
	})
}

func totalAlloc() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// cost limits, relative to the size of the input: one part may hold maxSamplesPerTrun samples.
func (e *Env) costs(n int, st0, al0 uint64, what string) {
	steps := e.Steps() - st0
	alloc := totalAlloc() - al0
	if e.verbose {
		println("cost", what, n, steps, alloc)
	}
	lim := 600_000 + 300*uint64(n)
	if n > 100_000 && what != "writing" {
		lim = 30_600_000 + 40*uint64(n) // in large files, what is not linear stands out
	}
	e.Check(steps <= lim, "steps", "%s: %d steps for %d bytes", what, steps, n)
	e.Check(alloc <= 6<<20+1000*uint64(n), "memory", "%s: %d bytes allocated for %d bytes of input", what, alloc, n)
}

func runF06(e *Env) {
	rc := e.genRecording(2)
	var b []byte
	var err error
	hdr := e.P(1, 2)
	if hdr {
		b, err = marshalBuf(func(b *seekablebuffer.Buffer) error { return rc.in.Marshal(b) })
	} else {
		b, err = marshalBuf(func(b *seekablebuffer.Buffer) error { return rc.parts.Marshal(b) })
	}
	mustNil(e, err, "write-error")
	b = e.damageFile(append([]byte(nil), b...))
	e.Ev("input", hdr, b)
	e.NonTrivial()
	st0, al0 := e.Steps(), totalAlloc()
	if hdr {
		var in fmp4.Init
		err = in.Unmarshal(bytes.NewReader(b))
		e.costs(len(b), st0, al0, "header")
		if err != nil {
			e.Probe("header refused")
			e.Ev("refused", err)
			return
		}
		e.Probe("header accepted")
		e.Check(len(in.Tracks) > 0, "no-tracks", "accepted header without tracks")
		e.fromFile(b, 1, "ftyp", "moov", "mvhd")
		e.fromFile(b, len(in.Tracks), "trak", "tkhd", "mdhd", "stsd")
		for _, t := range in.Tracks {
			e.Check(t.Codec != nil && t.TimeScale != 0, "incomplete-track", "accepted header with track %+v", *t)
		}
		e.Ev("accepted", initView(&in))
		c, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return in.Marshal(b) })
		if err != nil {
			e.Probe("header not writable")
			return
		}
		// parameters that were damaged may be written in another way, or may not be readable again
		var in2 fmp4.Init
		if in2.Unmarshal(bytes.NewReader(c)) == nil && initView(&in2) == initView(&in) {
			e.Probe("header rewritten identical")
		}
		return
	}
	keep := append([]byte(nil), b...)
	var ps fmp4.Parts
	err = ps.Unmarshal(b)
	e.costs(len(b), st0, al0, "parts")
	e.Check(bytes.Equal(keep, b), "input-modified", "the input was modified")
	if err != nil {
		e.Probe("parts refused")
		e.Ev("refused", err)
		return
	}
	e.Probe("parts accepted")
	tracks, runs, long := 0, 0, false
	for _, p := range ps {
		tracks += len(p.Tracks)
		for _, t := range p.Tracks {
			runs += min(1, len(t.Samples))
			long = long || len(t.Samples) > 19200
		}
	}
	e.fromFile(b, len(ps), "moof", "mfhd", "mdat")
	e.fromFile(b, tracks, "traf", "tfhd", "tfdt")
	e.fromFile(b, runs, "trun")
	v := partsView(ps)
	for _, s := range v {
		e.Ev("accepted", s)
	}
	c, err := marshalBuf(func(b *seekablebuffer.Buffer) error { return ps.Marshal(b) })
	if err != nil {
		e.Probe("parts not writable")
		return
	}
	if long {
		// read from many truns, written in a single one, of which the reader accepts 19200 samples at most
		e.Probe("part with too many samples for one trun")
		return
	}
	var ps2 fmp4.Parts
	err = ps2.Unmarshal(c)
	e.Check(err == nil, "rewritten-unreadable", "parts that were accepted and written back are not readable: %v", err)
	d := diffViews(partsView(ps2), v)
	e.Check(d == "", "rewritten-differs", "parts that were accepted and written back: %s", d)
}

// fromFile checks that what was read n times is there n times: identifiers, times and sizes come from their boxes, not from nowhere.
func (e *Env) fromFile(b []byte, n int, types ...string) {
	for _, t := range types {
		if k := bytes.Count(b, []byte(t)); k < n {
			e.Fail("read-from-nothing", "%d items were read that need a %s box each, of which there are %d", n, t, k)
		}
	}
}
