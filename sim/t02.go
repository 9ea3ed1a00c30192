package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
)

func init() {
	register(&Prop{
		ID: "T02", Title: "MPEG-TS reading does not depend on how the transport segments the bytes",
		Quick: 160000, Run: runT02,
		Rule:   "A run is non-trivial when the same bytes were read to the end under two segmentations.",
		Real:   []string{"mpegts.Reader", "preDemuxer", "rewindablereader", "go-astits demuxer"},
		Stub:   []string{"network (SimReader: whole, fixed, random, datagram and tiny reads, empty reads, data together with EOF)", "damage on the link (random corruption, drops, garbage)"},
		Assume: []string{"parameters are detected within the first MiB (documented rewind limit)"},
	})
	register(&Prop{
		ID: "T03", Title: "MPEG-TS reader surfaces I/O and callback errors and keeps what preceded them",
		Quick: 200000, Run: runT03,
		Rule:   "A run is non-trivial when an injected read error, truncation or callback error fired.",
		Real:   []string{"mpegts.Reader", "errorWrapper", "rewindablereader", "go-astits demuxer"},
		Stub:   []string{"network (SimReader with an error or end at a drawn byte)", "application callback (fails at a drawn delivery)"},
		Assume: []string{"a failed source keeps failing with the same error"},
	})
}

type tsHistory struct {
	initErr string
	tracks  string
	items   []string
	decErr  []string
	err     error
	initE   error
}

func (e *Env) readAll(src io.Reader) *tsHistory {
	h := &tsHistory{}
	rv, err := e.newRecv(src)
	if err != nil {
		h.initErr = err.Error()
		h.initE = err
		return h
	}
	for _, t := range rv.r.Tracks() {
		h.tracks += fmt.Sprint(t.PID, t.Language, codecView(t.Codec), ";")
	}
	rv.drain()
	h.err = rv.err
	idx := make([]int, len(rv.got))
	for _, ti := range rv.order {
		it := rv.got[ti][idx[ti]]
		idx[ti]++
		h.items = append(h.items, fmt.Sprintf("%d %d %d %x", ti, it.pts, it.dts, it.hash))
	}
	h.decErr = rv.decErr
	return h
}

// damage applies byte and packet level damage without any model of its effect.
func (e *Env) damage(wire []byte) []byte {
	out := append([]byte(nil), wire...)
	n := 1 + e.N(6)
	for range n {
		if len(out) == 0 {
			break
		}
		switch e.N(6) {
		case 0: // flip
			i := e.N(len(out))
			out[i] ^= 1 << e.N(8)
			e.Fault("bit-flip")
		case 1: // overwrite
			i := e.N(len(out))
			l := min(1+e.N(300), len(out)-i)
			e.Sub().fill(out[i : i+l])
			e.Fault("overwrite")
		case 2: // delete bytes
			i := e.N(len(out))
			l := min(1+e.N(400), len(out)-i)
			out = append(out[:i], out[i+l:]...)
			e.Fault("bytes-lost")
		case 3: // insert garbage
			i := e.N(len(out))
			g := make([]byte, 1+e.N(400))
			e.Sub().fill(g)
			out = append(out[:i:i], append(g, out[i:]...)...)
			e.Fault("garbage")
		case 4: // drop a packet
			i := e.N(len(out)) / 188 * 188
			j := min(i+188*(1+e.N(3)), len(out))
			out = append(out[:i], out[j:]...)
			e.Fault("packet-loss")
		case 5: // duplicate
			i := e.N(len(out)) / 188 * 188
			j := min(i+188*(1+e.N(7)), len(out))
			d := append([]byte(nil), out[i:j]...)
			out = append(out[:j:j], append(d, out[j:]...)...)
			e.Fault("duplicate")
		}
	}
	return out
}

func runT02(e *Env) {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 16})
	wire := c.mux()
	if e.P(2, 3) {
		wire = e.damage(wire)
	}
	if len(wire) > 1<<20 {
		e.Discard()
	}
	a := e.readAll(e.plainReader(wire))
	b := e.readAll(e.newSimReader(wire))
	e.Check(a.initErr == b.initErr, "init", "initialization depends on segmentation: %q / %q", a.initErr, b.initErr)
	e.Check(a.tracks == b.tracks, "tracks", "detected tracks depend on segmentation:\n%s\n%s", a.tracks, b.tracks)
	for i := 0; i < len(a.items) && i < len(b.items); i++ {
		e.Check(a.items[i] == b.items[i], "deliveries", "delivery %d depends on segmentation: %s / %s", i, a.items[i], b.items[i])
	}
	e.Check(len(a.items) == len(b.items), "deliveries", "number of deliveries depends on segmentation: %d / %d", len(a.items), len(b.items))
	e.Check(fmt.Sprint(a.decErr) == fmt.Sprint(b.decErr), "decode-errors", "decode errors depend on segmentation: %v / %v", a.decErr, b.decErr)
	e.Check(fmt.Sprint(a.err) == fmt.Sprint(b.err), "end", "end depends on segmentation: %v / %v", a.err, b.err)
	if a.initErr == "" {
		e.NonTrivial()
		if len(a.decErr) > 0 {
			e.Probe("decode errors compared")
		}
	} else {
		e.Probe("unreadable stream compared")
	}
	e.sample = c.describe()
}

// readErrors are what real sources return.
func (e *Env) drawReadErr() error {
	switch e.N(9) {
	case 0:
		return newErr("connection reset")
	case 1:
		return os.ErrDeadlineExceeded
	case 2:
		return net.ErrClosed
	case 3:
		return context.Canceled
	case 4:
		return io.ErrClosedPipe
	case 5:
		return &net.OpError{Op: "read", Net: "udp", Err: newErr("timeout")}
	case 6:
		return fmt.Errorf("tls: peer closed the connection: %w", io.EOF)
	case 7:
		return fmt.Errorf("http: body closed: %w", io.ErrUnexpectedEOF)
	default:
		return errors.Join(newErr("a"), newErr("b"))
	}
}

func runT03(e *Env) {
	c := genTS(e, tsOpts{noHuge: true, maxUnits: 16})
	c.overlong = false
	wire := c.mux()
	want := c.expected(false)
	mode := e.N(3)
	switch mode {
	case 0, 1: // read error (0) or truncation (1)
		at := e.N(len(wire))
		switch e.N(4) {
		case 0:
			at = at / 188 * 188
		case 1: // close to a packet boundary
			at = max(0, min(len(wire)-1, at/188*188-3+e.N(7)))
		}
		rd := e.newSimReader(wire)
		var rerr error = io.EOF
		if mode == 0 {
			rerr = e.drawReadErr()
			rd.err = rerr
			rd.errAt = at
			e.Ev("error-at", at, rerr.Error())
		} else {
			rd.data = wire[:at]
			e.Fault("truncation")
			e.Ev("cut-at", at)
		}
		rv, err := e.newRecv(rd)
		e.NonTrivial()
		if err != nil {
			e.Probe("error during initialization")
			e.Check(err == rerr || errors.Is(err, rerr), "error-identity", "initialization returned %q instead of %q", err, rerr)
			// the beginning was not enough: not all detecting tracks have a complete unit, or no tables
			e.Check(!c.openable(at), "init", "initialization failed with %q although the first %d bytes contain tables and one unit of each track", err, at)
			return
		}
		c.checkTracks(rv.r.Tracks())
		rv.drain()
		e.Check(rv.err == rerr || errors.Is(rv.err, rerr), "error-identity", "read returned %q instead of %q", rv.err, rerr)
		for range 3 { // errors keep being reported
			err := rv.r.Read()
			e.Check(err != nil, "error-sticky", "read succeeded after the source failed")
		}
		e.Check(rd.postEnd < 40, "progress", "%d reads from a failed source", rd.postEnd)
		// everything completely received before the error is delivered
		c.checkPrefix(rv, want, at, mode == 1)
		e.sample = fmt.Sprintf("%s, %v at byte %d of %d", c.describe(), rerr, at, len(wire))

	case 2: // callback error
		rv, err := e.newRecv(e.newSimReader(wire))
		if err != nil {
			e.Fail("init", "cannot open: %v", err)
		}
		total := 0
		for _, w := range want {
			total += len(w)
		}
		if total == 0 {
			e.Discard()
		}
		rv.cbFail = e.N(total)
		rv.cbErr = newErr("application failure")
		if e.P(1, 4) {
			rv.cbErr = io.EOF
		}
		n := 0
		for {
			err := rv.r.Read()
			rv.reads++
			if n == 0 && rv.ncb == rv.cbFail+1 {
				e.Fault("callback-error")
				e.Check(err == rv.cbErr, "callback-error", "callback returned %v, Read returned %v", rv.cbErr, err)
				n++
				continue
			}
			if err != nil {
				rv.err = err
				break
			}
		}
		e.Check(n == 1, "callback-error", "the failing callback was never called")
		e.Check(rv.err == io.EOF, "end", "stream ended with %v", rv.err)
		c.checkExact(rv.got, want, "after callback error")
		e.NonTrivial()
	}
}

// openable tells whether the first n bytes are enough to detect the tracks.
func (c *tsCase) openable(n int) bool {
	// tables are at the beginning
	pk := c.packets()
	pat, pmt := -1, -1
	for _, p := range pk {
		if p.pid == 0 && pat < 0 {
			pat = p.idx
		}
		if p.pid == 0x1000 && pmt < 0 {
			pmt = p.idx
		}
	}
	if pat < 0 || pmt < 0 || n < 188*(pat+1) || n < 188*(pmt+1) {
		return false
	}
	for ti, t := range c.tracks {
		if !needsDetection(t.kind) {
			continue
		}
		ok := false
		for _, u := range c.units {
			if u.track == ti && u.off1 <= n {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// checkPrefix: with the first n bytes received, deliveries of each track are a
// prefix of the written units, complete up to the last fully received one.
func (c *tsCase) checkPrefix(rv *tsRecv, want [][]expItem, n int, eof bool) {
	e := c.e
	for ti, t := range c.tracks {
		g := rv.got[ti]
		w := want[ti]
		kn := kindNames[t.kind]
		full := 0 // units that must be there
		torn := -1
		for k, x := range w {
			u := c.units[x.unit]
			if u.off1 <= n {
				full = k + 1
				if !eof && isVideoKind(t.kind) {
					// the end of a video unit is known only when the next one starts
					next := -1
					for _, y := range c.units[x.unit+1:] {
						if y.track == u.track {
							next = y.off1
							if y.off1-y.off0 >= 188 {
								// the first packet of the unit, after tables
								next = c.firstPacketEnd(y)
							}
							break
						}
					}
					if next < 0 || next > n {
						full = k
					}
				}
			} else if torn < 0 {
				torn = k
			}
		}
		for k := range g {
			if k < len(w) && g[k].hash == w[k].hash && g[k].pts == w[k].pts && g[k].dts == w[k].dts {
				continue
			}
			// at the end of the stream the last unit of a track without explicit length may be torn
			if eof && k == len(g)-1 && k == torn && isVideoKind(t.kind) && g[k].pts == w[k].pts {
				e.Probe("torn video unit at end of stream")
				continue
			}
			// an asynchronous KLV unit takes the last timestamp received
			if k < len(w) {
				e.Fail("prefix", "track %d (%s) delivery %d is %d/%d %s, written %d/%d %s", ti, kn, k, g[k].pts, g[k].dts, sizes(g[k].data), w[k].pts, w[k].dts,
					sizes(c.units[w[k].unit].data))
			}
			e.Fail("prefix", "track %d (%s): delivery %d does not correspond to a written unit: %d/%d %s", ti, kn, k, g[k].pts, g[k].dts, sizes(g[k].data))
		}
		e.Check(len(g) >= full, "prefix-lost", "track %d (%s): %d units were completely received before the end at byte %d, %d delivered", ti, kn, full, n, len(g))
	}
}

// firstPacketEnd is the offset after the first packet of the unit on its own track.
func (c *tsCase) firstPacketEnd(u *tsUnit) int {
	pid := int(c.tracks[u.track].tr.PID)
	for o := u.off0; o+188 <= u.off1; o += 188 {
		if int(c.wire[o+1]&0x1f)<<8|int(c.wire[o+2]) == pid {
			return o + 188
		}
	}
	return u.off1
}
