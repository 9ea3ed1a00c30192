package main

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

func init() {
	register(&Prop{
		ID: "P05", Quick: 250000, Run: runP05,
		Rule:   "A run is non-trivial when a damaged presentation was given to the reader.",
		Real:   []string{"pmp4.Presentation, Track, Sample", "internal/mp4", "go-mp4 reader and writer", "codec parameter parsers"},
		Stub:   []string{"file with damaged content"},
		Assume: []string{"the input is a damaged presentation of at most 4 MB"},
	})
}

func runP05(e *Env) {
	m := e.genMovie(movieOpts{maxTracks: 3, maxSamples: 12})
	var buf bytes.Buffer
	mustNil(e, m.p.Marshal(&buf), "write-error")
	b := e.damageFile(append([]byte(nil), buf.Bytes()...))
	e.Ev("input", b)
	e.NonTrivial()
	st0, al0 := e.Steps(), totalAlloc()
	var p pmp4.Presentation
	err := p.Unmarshal(bytes.NewReader(b))
	e.costs(len(b), st0, al0, "presentation")
	if err != nil {
		e.Probe("refused")
		e.Ev("refused", err)
		return
	}
	e.Probe("accepted")
	e.fromFile(b, 1, "ftyp", "moov", "mvhd")
	e.fromFile(b, len(p.Tracks), "trak", "tkhd", "elst", "mdhd", "stsd", "stts")
	with := 0
	for _, t := range p.Tracks {
		with += min(1, len(t.Samples))
	}
	e.fromFile(b, with, "stsc", "stsz", "stco")
	n := 0
	for i, t := range p.Tracks {
		e.Check(t.Codec != nil && t.TimeScale != 0, "incomplete-track", "accepted presentation with track %+v", *t)
		for j, s := range t.Samples {
			if n == 2000 {
				break
			}
			n++
			st0, al0 = e.Steps(), totalAlloc()
			pl, err := s.GetPayload()
			e.costs(len(b), st0, al0, "payload")
			e.Check(err != nil || len(pl) == int(s.PayloadSize), "payload-size", "track %d sample %d: payload of %d bytes, %d declared", i, j, len(pl), s.PayloadSize)
			if err != nil {
				e.Probe("payload refused")
			}
		}
	}
	for _, v := range presView(&p) {
		e.Ev("accepted", v)
	}
	tot := uint64(len(b))
	for _, t := range p.Tracks {
		for _, s := range t.Samples {
			tot += uint64(s.PayloadSize) // samples may overlap
		}
	}
	if tot > 64<<20 {
		e.Probe("overlapping payloads")
		return
	}
	if len(p.Tracks) > 1000 {
		// the writer looks at every track to find the next sample
		e.Probe("too many tracks to write")
		return
	}
	st0, al0 = e.Steps(), totalAlloc()
	err = p.Marshal(&countSink{})
	if err != nil {
		e.Probe("not writable")
	}
	e.costs(int(tot), st0, al0, "writing")
}
