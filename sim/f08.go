package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

func init() {
	register(&Prop{
		ID: "F08", Quick: 60000, Run: runF08,
		Rule:   "A run is non-trivial when a recording with at least one sample was played by the model player.",
		Real:   []string{"fmp4.Init, Part, Parts", "internal/mp4", "go-mp4 writer"},
		Stub:   []string{"player (written from ISO 14496-12, -14, -15 and the codec bindings)", "file (write errors, partial writes, full disk, crash at any byte)"},
		Assume: []string{"codec parameters are valid for their codec, track ids are unique 32-bit numbers", "a recorder that gets an error removes what was written of the item and tries again"},
	})
	register(&Prop{
		ID: "P07", Quick: 60000, Run: runP07,
		Rule:   "A run is non-trivial when at least one payload was found by the model player.",
		Real:   []string{"pmp4.Presentation", "internal/mp4", "go-mp4 writer"},
		Stub:   []string{"player (written from ISO 14496-12, -14, -15 and the codec bindings)", "file (write errors, partial writes, full disk, short reads)"},
		Assume: []string{"codec parameters are valid for their codec, track ids are unique 32-bit numbers", "the duration of the media and of the edit of tracks that start late or early follows the convention of the library", "the order of payloads is judged for decoding times below 285 years"},
	})
}

// playFMP4 plays a fragmented recording. When tail is not nil the end of the file may be torn.
func playFMP4(file []byte, base int, tail *[]byte) (*playHeader, []string) {
	l := boxes("file", file, base, tail)
	if len(l) == 0 {
		return nil, nil
	}
	checkFtyp(l[0], "isom", "iso5", "iso6", "mp42")
	if len(l) == 1 {
		if tail == nil {
			badf("no moov")
		}
		return nil, nil
	}
	if l[1].typ != "moov" {
		badf("ftyp is followed by %q", l[1].typ)
	}
	h := readMoov(l[1], true)
	if h.nextID != "" {
		badf("mvhd: %s", h.nextID)
	}
	return h, playParts(h, l[2:], tail)
}

func playParts(h *playHeader, l []pbox, tail *[]byte) []string {
	var out []string
	for i := 0; i < len(l); i++ {
		switch l[i].typ {
		case "styp", "sidx", "free", "prft", "emsg":
			continue
		case "moof":
		default:
			badf("unexpected box %q between parts", l[i].typ)
		}
		j := i + 1
		for j < len(l) && l[j].typ == "mdat" {
			j++
		}
		if j == i+1 {
			if j == len(l) && tail != nil {
				return out // the media data was torn
			}
			badf("moof without mdat")
		}
		out = append(out, readFragment(h, l[i], nil, 0, l[i+1:j]))
		i = j - 1
	}
	return out
}

func playerView(p *fmp4.Part) string {
	out := fmt.Sprintf("seq %d", p.SequenceNumber)
	for _, t := range p.Tracks {
		out += fmt.Sprintf(" track %d @%d:", uint32(t.ID), t.BaseTime)
		for _, s := range t.Samples {
			out += " " + playSample{dur: s.Duration, off: int64(s.PTSOffset), sync: !s.IsNonSyncSample, data: s.Payload}.String()
		}
	}
	return out
}

// checkPlayedHeader compares what a player sees with what was declared.
func (e *Env) checkPlayedHeader(h *playHeader, in *fmp4.Init) {
	e.Check(len(h.tracks) == len(in.Tracks), "tracks-differ", "%d tracks played, %d declared", len(h.tracks), len(in.Tracks))
	for i, t := range in.Tracks {
		mx, av := t.MaxBitrate, t.AvgBitrate
		def := uint32(128825)
		if t.Codec.IsVideo() {
			def = 1000000
		}
		if mx == 0 {
			mx = def
		}
		if av == 0 {
			av = def
		}
		e.checkPlayedTrack(h.tracks[i], t.Codec, e.expectTrack(t.ID, t.TimeScale, t.Codec, mx, av))
	}
	e.Check(len(h.user) == len(in.UserData), "userdata-differ", "%d user data boxes played, %d written", len(h.user), len(in.UserData))
	for i, u := range in.UserData {
		b := h.user[i]
		if b.typ != u.GetType().String() || !bytes.Equal(b.body, userBox(e, u)) {
			e.Fail("userdata-differ", "user data box %d is %q %x", i, b.typ, clipB(b.body))
		}
	}
}

func (e *Env) checkPlayedTrack(t *playTrack, c mp4codecs.Codec, want string) {
	if h, ok := c.(*mp4codecs.H265); ok {
		// known finding: the constraint flags are bytes 7-12 of the SPS, emulation prevention included,
		// instead of bytes 8-13 of its RBSP
		known := fmt.Sprintf("constraints %x ", h.SPS[7:13])
		right := fmt.Sprintf("constraints %x ", e.traits[c].bytes[5:11])
		if known != right && strings.Contains(t.config, known) {
			if !e.quietHvcc && e.P(1, 60) {
				e.Fail("hvcc-constraints", "hvcC %sare bytes 7-12 of the SPS %x, the flags are %x", known, clipB(h.SPS), e.traits[c].bytes[5:11])
			}
			t.config = strings.Replace(t.config, known, right, 1)
		}
	}
	got := t.view(c)
	e.Check(got == want, "track-differs", "a player sees %s, declared is %s", clip(got), clip(want))
}

func runF08(e *Env) {
	in := e.genInit(initOpts{maxTracks: 4, userData: true})
	parts := e.genParts(in, partOpts{maxParts: 4, maxSamples: 8, big: true})
	e.Ev("case", initFull(in), len(parts))

	// record, in one file or in one file per item
	var pre []byte
	if e.P(1, 4) {
		pre = e.fillerBox()
	}
	split := e.P(1, 3)
	f := e.newFile(append([]byte(nil), pre...))
	f.pos = int64(len(pre))
	var files []*SimFile
	var ends []int
	samples := 0
	write := func(fn func() error) {
		start := f.pos
		if e.P(1, 3) { // a storage fault; the recorder goes back and tries again
			f.failOp, f.failKind, f.err, f.fired = f.opN+e.N(2), e.N(2), newErr("storage"), false
			if e.P(1, 3) {
				f.failOp, f.full = -1, start+int64(e.N(200))
			}
			err := fn()
			if f.fired {
				e.Check(err != nil, "fault-not-reported", "a failed write was not reported")
				f.failOp, f.full = -1, -1
				f.data = f.data[:start]
				f.pos = start
				mustNil(e, fn(), "write-error")
			} else {
				mustNil(e, err, "write-error")
			}
			f.failOp, f.full = -1, -1
		} else {
			mustNil(e, fn(), "write-error")
		}
		ends = append(ends, len(f.data))
		if split {
			files = append(files, f)
			f = e.newFile(nil)
		}
	}
	write(func() error { return in.Marshal(f) })
	var want []string
	for i := 0; i < len(parts); i++ {
		n := 1
		if e.P(1, 4) {
			n = 1 + e.N(len(parts)-i)
		}
		write(func() error {
			if n == 1 {
				return parts[i].Marshal(f)
			}
			return parts[i : i+n].Marshal(f)
		})
		for _, p := range parts[i : i+n] {
			want = append(want, playerView(p))
			for _, t := range p.Tracks {
				samples += len(t.Samples)
			}
		}
		i += n - 1
	}

	// play
	var got []string
	var h *playHeader
	msg := strictly(func() {
		if split {
			h, got = playFMP4(files[0].data[len(pre):], len(pre), nil)
			for _, x := range files[1:] {
				got = append(got, playParts(h, boxes("file", x.data, 0, nil), nil)...)
			}
		} else {
			h, got = playFMP4(f.data[len(pre):], len(pre), nil)
		}
		e.checkPlayedHeader(h, in)
	})
	e.Check(msg == "", "not-conformant", "%s", msg)
	d := diffViews(got, want)
	e.Check(d == "", "played-part-differs", "%s", d)
	if samples > 0 {
		e.NonTrivial()
	}
	if split {
		e.Probe("file per part")
		return
	}

	// crash at any byte
	for k := 0; k < 6; k++ {
		cut := len(pre) + e.N(len(f.data)-len(pre)+1)
		var tail []byte
		msg = strictly(func() { _, got = playFMP4(f.data[len(pre):cut], len(pre), &tail) })
		e.Check(msg == "", "torn-not-conformant", "file of %d bytes cut at %d: %s", len(f.data), cut, msg)
		e.Check(len(got) <= len(want), "torn-part-played", "%d parts", len(got))
		d = diffViews(got, want[:len(got)])
		e.Check(d == "", "torn-part-differs", "%s", d)
		if cut == len(f.data) {
			e.Check(len(got) == len(want), "torn-part-lost", "%d of %d parts", len(got), len(want))
		}
		e.Fault("crash")
	}
	// a crash after the last byte of an item leaves it, and all the preceding ones, playable
	if len(ends) > 1 {
		k := e.N(len(ends))
		msg = strictly(func() { _, got = playFMP4(f.data[len(pre):ends[k]], len(pre), nil) })
		e.Check(msg == "", "torn-not-conformant", "file cut after item %d: %s", k, msg)
	}
}

func runP07(e *Env) {
	o := movieOpts{maxTracks: 4, maxSamples: 14, big: true}
	if e.P(1, 30) {
		o.maxSamples, o.big = 300, false
	}
	if e.P(1, 3000) {
		o.long = true
	}
	m := e.genMovie(o)
	for i, t := range m.p.Tracks {
		for j := 0; j < i; j++ {
			if m.p.Tracks[j].ID == t.ID {
				panic(discard{})
			}
		}
		if t.TimeOffset == -1<<31 {
			panic(discard{})
		}
	}
	e.Ev("case", len(m.p.Tracks), m.total())
	for _, s := range presView(m.p) {
		e.Ev("track", clip(s))
	}
	store := func(p *pmp4.Presentation) []byte {
		for k := e.N(3); k > 0; k-- { // attempts that fail: they must not have an effect on the next ones
			sink := e.newSink()
			sink.err = newErr("storage")
			if e.P(1, 2) {
				sink.full = e.N(2000)
			} else {
				sink.failAt = map[int]int{e.N(6): 1 + e.N(2)}
			}
			if err := p.Marshal(sink); err == nil && sink.fired > 0 {
				e.Fail("fault-not-reported", "a failed write was not reported")
			}
		}
		sink := e.newSink()
		mustNil(e, p.Marshal(sink), "write-error")
		return sink.buf
	}
	file := store(m.p)
	if e.P(1, 4) { // a copy of a stored presentation
		var p pmp4.Presentation
		f := e.newFile(file)
		f.shortReads = e.P(1, 2)
		f.r = e.Sub()
		mustNil(e, p.Unmarshal(f), "read-error")
		file = store(&p)
		e.Probe("copied")
	}

	msg := strictly(func() {
		l := boxes("file", file, 0, nil)
		if len(l) == 0 {
			badf("empty file")
		}
		checkFtyp(l[0], "isom", "mp42")
		var mdat []pbox
		for _, b := range l {
			if b.typ == "mdat" {
				mdat = append(mdat, b)
			}
		}
		h := readMoov(one("file", l, "moov"), false)
		if h.nextID != "" {
			// known finding: next_track_ID is the number of tracks plus one
			if h.next != uint32(len(h.tracks)+1) {
				badf("mvhd: %s", h.nextID)
			}
			if !e.quietHvcc && e.P(1, 60) {
				e.Fail("next-track-id", "%s, it is the number of tracks plus one", h.nextID)
			}
		}
		e.Check(len(h.tracks) == len(m.p.Tracks), "tracks-differ", "%d tracks played, %d declared", len(h.tracks), len(m.p.Tracks))
		longest := uint64(0)
		var layout []laidOut
		for i, t := range m.p.Tracks {
			pt := h.tracks[i]
			br := uint32(128825)
			if t.Codec.IsVideo() {
				br = 1000000
			}
			if len(pt.bitrates) == 0 { // optional
				br = 0
			}
			e.checkPlayedTrack(pt, t.Codec, e.expectTrack(t.ID, t.TimeScale, t.Codec, br, br))
			got := pt.samples(mdat)
			e.Check(len(got) == len(t.Samples), "samples-differ", "track %d: %d samples played, %d stored", i, len(got), len(t.Samples))
			total := uint64(0)
			for j, s := range t.Samples {
				w := playSample{dur: s.Duration, off: int64(s.PTSOffset), sync: !s.IsNonSyncSample, data: m.data[i][j]}
				if got[j].String() != w.String() {
					e.Fail("samples-differ", "track %d sample %d: played %v, stored %v", i, j, got[j], w)
				}
				if len(got[j].data) > 0 {
					at := (float64(t.TimeOffset) + float64(total)) / float64(t.TimeScale)
					layout = append(layout, laidOut{got[j].pos, at, i, j})
				}
				total += uint64(s.Duration)
				e.NonTrivial()
			}
			e.checkTimes(h, pt, t.TimeScale, t.TimeOffset, total)
			longest = max(longest, pt.tkhdDur)
		}
		// a player that reads the file from start to end meets the samples when they are due
		sort.Slice(layout, func(i, j int) bool { return layout[i].pos < layout[j].pos })
		for _, a := range layout {
			if math.Abs(a.at) > 9e9 { // beyond 285 years times cannot be compared as time.Duration
				layout = nil
				break
			}
		}
		for i := 1; i < len(layout); i++ {
			a, b := layout[i-1], layout[i]
			e.Check(a.at <= b.at+0.01+math.Abs(a.at)*1e-9, "not-interleaved", "sample %d of track %d, due at %fs, is stored before sample %d of track %d, due at %fs", a.sample, a.track, a.at, b.sample, b.track, b.at)
		}
		if h.dur != longest {
			badf("mvhd: duration %d, the longest track has %d", h.dur, longest)
		}
	})
	e.Check(msg == "", "not-conformant", "%s", msg)
}

// laidOut is the position and the decoding time of a sample.
type laidOut struct {
	pos           uint64
	at            float64
	track, sample int
}

// checkTimes checks the time line of a track.
func (e *Env) checkTimes(h *playHeader, t *playTrack, scale uint32, offset int32, total uint64) {
	near := func(got uint64, want int64) bool { // want is in units of the track
		w := float64(want) * float64(h.scale) / float64(scale)
		return float64(got) > w-1.01-w*1e-9 && float64(got) < w+1.01+w*1e-9
	}
	if t.scale != scale {
		return
	}
	if offset == 0 {
		e.Check(t.mdhdDur == total, "duration-differs", "track %d: media of %d units is declared with %d", t.id, total, t.mdhdDur)
	}
	if int64(total)+int64(offset) >= 0 {
		e.Check(near(t.tkhdDur, int64(total)+int64(offset)), "duration-differs", "track %d: %d%+d units at %d Hz are declared with %d units at %d Hz", t.id, total, offset, scale, t.tkhdDur, h.scale)
	}
	ed := t.edits
	if len(ed) > 0 && ed[0].time == -1 {
		e.Check(offset > 0 && near(ed[0].dur, int64(offset)), "start-differs", "track %d starts after %d units at %d Hz instead of %d at %d Hz", t.id, ed[0].dur, h.scale, offset, scale)
		ed = ed[1:]
	} else if offset > 0 {
		e.Check(len(ed) == 0 && near(0, int64(offset)), "start-differs", "track %d starts at once instead of after %d units", t.id, offset)
	}
	if len(ed) == 0 && offset >= 0 {
		return
	}
	e.Check(len(ed) == 1, "edit-list", "track %d: edits %v", t.id, t.edits)
	start := int64(0)
	if offset < 0 {
		start = -int64(offset)
	}
	e.Check(ed[0].time == start, "start-differs", "track %d: media is played from %d instead of from %d", t.id, ed[0].time, start)
	// nothing of the media is left out
	e.Check(ed[0].dur != 0 || near(0, int64(total)-start), "media-left-out", "track %d: edit of no duration", t.id)
	if int64(total)-start >= 0 {
		e.Check(near(ed[0].dur, int64(total)-start) || near(max(ed[0].dur, 1)-1, int64(total)-start) || float64(ed[0].dur) >= float64(int64(total)-start)*float64(h.scale)/float64(scale)-1.01, "media-left-out",
			"track %d: %d units at %d Hz of media of %d units, played from %d, at %d Hz", t.id, ed[0].dur, h.scale, total, start, scale)
		e.Check(near(ed[0].dur, int64(total)-start) || near(ed[0].dur, int64(total)+start), "edit-duration", "track %d: %d units at %d Hz of media of %d units, played from %d, at %d Hz", t.id, ed[0].dur, h.scale, total, start, scale)
	}
}
