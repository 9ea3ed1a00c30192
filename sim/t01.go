package main

import "io"

func init() {
	register(&Prop{
		ID:    "T01",
		Title: "MPEG-TS write-transport-read delivers every unit exactly once",
		Quick: 70000,
		Run:   runT01,
		Rule:  "A run is non-trivial when at least one unit was written and the stream was read to its end.",
		Real:  []string{"mpegts.Writer", "mpegts.Reader", "go-astits muxer and demuxer", "rewindablereader", "codec framing (Annex-B, ADTS, LATM, Opus, AC-3, E-AC-3, MPEG-1 audio, KLV)"},
		Stub:  []string{"network / file (SimSink, SimReader)", "encoders (drawn payloads)", "clock (drawn timestamps)"},
		Assume: []string{"payloads are inside of the limits the formats impose (NALU count, ADTS and LATM sizes, PMT in one packet)",
			"the transport in this property is lossless; its segmentation and timing are adversarial"},
	})
}

func runT01(e *Env) {
	c := genTS(e, tsOpts{})
	c.oversize = e.P(1, 2)
	wire := c.mux()
	rd := e.newSimReader(wire)
	rv, err := e.newRecv(rd)
	if err != nil {
		e.Fail("init", "reader cannot open a stream written by the writer: %v (%s)", err, c.describe())
	}
	c.checkTracks(rv.r.Tracks())
	rv.drain()
	e.Check(rv.err == io.EOF, "end", "stream ended with %v instead of EOF", rv.err)
	if len(rv.decErr) > 0 {
		e.Fail("decode-error", "decode error on an intact stream: %s", rv.decErr[0])
	}
	c.checkExact(rv.got, c.expected(false), "intact stream")
	for _, u := range c.units {
		if u.pts>>33 != c.units[0].pts>>33 {
			e.Probe("33-bit wrap inside stream")
			break
		}
	}
	if len(wire) > 1<<20 {
		e.Probe("stream larger than the rewind buffer")
	}
	e.NonTrivial()
	e.sample = c.describe()
}
