package main

import (
	"errors"
	"fmt"
	"io"
)

// Virtual I/O components: what deployments put around the library.

// errInjected is the identity of injected faults.
type errInjected struct{ what string }

func (e *errInjected) Error() string { return "injected: " + e.what }

func newErr(what string) error { return &errInjected{what: what} }

// ---- chunked reader (a socket, a pipe, a datagram source, a file) ----

const (
	chunkWhole = iota
	chunkFixed
	chunkRandom
	chunkDatagram
	chunkTiny
)

// SimReader delivers data in chunks chosen by the run.
type SimReader struct {
	e        *Env
	data     []byte
	pos      int
	mode     int
	size     int
	zero     bool  // may return (0, nil)
	withEOF  bool  // may return data and the final error in the same call
	err      error // final error (nil = io.EOF)
	errAt    int   // offset at which err is returned; -1 = end
	oneShot  bool  // the error is returned once, then data continues
	fired    bool
	log      bool
	calls    int
	zeros    int
	afterErr int
	r        *rng
	postEnd  int // calls after a final error was returned
}

// newSimReader draws a segmentation policy.
func (e *Env) newSimReader(data []byte) *SimReader {
	r := &SimReader{e: e, data: data, errAt: -1}
	r.mode = e.W(3, 3, 4, 3, 1)
	switch r.mode {
	case chunkFixed:
		r.size = 1 + e.N(2000)
	case chunkDatagram:
		r.size = 188 * (1 + e.N(7))
	}
	r.zero = e.P(1, 5)
	r.withEOF = e.P(1, 3)
	r.r = e.Sub()
	e.Ev("reader", r.mode, r.size, r.zero, r.withEOF, len(data))
	return r
}

// plainReader delivers everything as asked, without faults.
func (e *Env) plainReader(data []byte) *SimReader {
	return &SimReader{e: e, data: data, errAt: -1, r: &rng{s: 1}}
}

func (r *SimReader) end() int {
	if r.errAt >= 0 && !r.fired && r.errAt < len(r.data) {
		return r.errAt
	}
	return len(r.data)
}

func (r *SimReader) final() error {
	if r.errAt >= 0 && r.err != nil {
		if !r.fired {
			r.fired = true
			r.e.Fault("read-error")
		}
		if !r.oneShot {
			r.postEnd++
		}
		return r.err
	}
	r.postEnd++
	return io.EOF
}

// Read implements io.Reader.
func (r *SimReader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	end := r.end()
	if r.errAt >= 0 && r.fired && !r.oneShot {
		r.postEnd++
		return 0, r.err
	}
	if r.pos >= end {
		return 0, r.final()
	}
	if r.zero && r.r.n(7) == 0 && r.zeros < 3 {
		r.zeros++
		return 0, nil
	}
	r.zeros = 0
	n := len(p)
	switch r.mode {
	case chunkFixed, chunkDatagram:
		n = min(n, r.size)
	case chunkRandom:
		switch r.r.n(4) {
		case 0:
			n = min(n, 1+r.r.n(8))
		case 1:
			n = min(n, 1+r.r.n(188))
		case 2:
			n = min(n, 1+r.r.n(1400))
		}
	case chunkTiny:
		n = min(n, 1+r.r.n(3))
	}
	n = min(n, end-r.pos)
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos >= end && r.withEOF {
		return n, r.final()
	}
	return n, nil
}

// ---- sink (socket, file) ----

// SimSink is an io.Writer with faults.
type SimSink struct {
	e       *Env
	buf     []byte
	calls   int
	failAt  map[int]int // write call -> 1 error, 2 short+error
	err     error
	fired   int
	full    int // capacity, -1 = no limit
	onWrite func(p []byte)
}

func (e *Env) newSink() *SimSink { return &SimSink{e: e, full: -1} }

// Write implements io.Writer.
func (s *SimSink) Write(p []byte) (int, error) {
	c := s.calls
	s.calls++
	if s.onWrite != nil {
		s.onWrite(p)
	}
	if s.full >= 0 && len(s.buf)+len(p) > s.full {
		n := s.full - len(s.buf)
		s.buf = append(s.buf, p[:n]...)
		s.fired++
		s.e.Fault("disk-full")
		return n, s.err
	}
	switch s.failAt[c] {
	case 1:
		s.fired++
		s.e.Fault("write-error")
		return 0, s.err
	case 2:
		n := len(p) / 2
		s.buf = append(s.buf, p[:n]...)
		s.fired++
		s.e.Fault("short-write")
		return n, s.err
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

// ---- file (Read, Write, Seek over one byte array) ----

// SimFile is a file with faults.
type SimFile struct {
	e    *Env
	data []byte
	pos  int64

	// fault plan, by operation index
	opN      int
	failOp   int // -1 none
	failKind int // 0 error, 1 partial + error
	err      error
	fired    bool
	firedOp  string
	sticky   bool
	noLog    bool
	full     int64 // capacity, -1 none

	shortReads bool // reads return fewer bytes than asked (legal for io.Reader)
	withEOF    bool
	r          *rng
	nread      int
	nwrite     int
	nseek      int
	// region restriction (for mutation tests): called at each read
	onRead func(off int64, n int)
	logSet bool
	log    []fileOp
}

type fileOp struct {
	op  byte // r w s
	off int64
	n   int
}

func (e *Env) newFile(data []byte) *SimFile {
	return &SimFile{e: e, data: data, failOp: -1, full: -1, r: &rng{s: 7}}
}

func (f *SimFile) fault(op string) bool {
	i := f.opN
	f.opN++
	if f.failOp >= 0 && (i == f.failOp || (f.sticky && i > f.failOp)) {
		if !f.fired {
			f.firedOp = op
			if !f.noLog {
				f.e.Fault(op + "-error")
			}
		}
		f.fired = true
		return true
	}
	return false
}

// Read implements io.Reader.
func (f *SimFile) Read(p []byte) (int, error) {
	f.nread++
	if len(p) == 0 {
		return 0, nil
	}
	if f.fault("read") {
		n := 0
		if f.failKind == 1 && f.pos < int64(len(f.data)) {
			n = copy(p[:len(p)/2], f.data[f.pos:])
			f.pos += int64(n)
		}
		return n, f.err
	}
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := len(p)
	if f.shortReads {
		switch f.r.n(4) {
		case 0:
			n = min(n, 1+f.r.n(4))
		case 1:
			n = 1 + f.r.n(n)
		}
	}
	if f.logSet {
		f.log = append(f.log, fileOp{'r', f.pos, n})
	}
	n = copy(p[:n], f.data[f.pos:])
	f.pos += int64(n)
	if f.withEOF && f.pos >= int64(len(f.data)) {
		return n, io.EOF
	}
	return n, nil
}

// Write implements io.Writer.
func (f *SimFile) Write(p []byte) (int, error) {
	f.nwrite++
	if f.fault("write") {
		n := 0
		if f.failKind == 1 {
			n = len(p) / 2
			f.put(p[:n])
		}
		return n, f.err
	}
	if f.full >= 0 && f.pos+int64(len(p)) > f.full {
		n := max(0, f.full-f.pos)
		f.put(p[:n])
		f.fired = true
		f.firedOp = "full"
		f.e.Fault("disk-full")
		return int(n), f.err
	}
	if f.logSet {
		f.log = append(f.log, fileOp{'w', f.pos, len(p)})
	}
	f.put(p)
	return len(p), nil
}

func (f *SimFile) put(p []byte) {
	end := f.pos + int64(len(p))
	if end > int64(len(f.data)) {
		f.data = append(f.data, make([]byte, end-int64(len(f.data)))...)
	}
	copy(f.data[f.pos:], p)
	f.pos = end
}

// Seek implements io.Seeker.
func (f *SimFile) Seek(off int64, whence int) (int64, error) {
	f.nseek++
	if f.fault("seek") {
		return 0, f.err
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.data))
	default:
		return 0, errors.New("invalid whence")
	}
	if off < 0 {
		return 0, fmt.Errorf("negative seek: %d", off)
	}
	f.pos = off
	return off, nil
}
