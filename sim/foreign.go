package main

import (
	"bytes"
	"fmt"

	amp4 "github.com/abema/go-mp4"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// A writer of MP4 boxes that shares nothing with the code under test nor with go-mp4,
// and that lays out files in any way that ISO 14496-12, -14, -15 and the codec bindings permit
// and that the library supports.

func init() {
	real := []string{"internal/mp4", "go-mp4 reader"}
	register(&Prop{
		ID: "F07", Quick: 100000, Run: runF07,
		Rule:   "A run is non-trivial when a header and at least one sample, laid out by the foreign writer, were read and compared.",
		Real:   append([]string{"fmp4.Init, Parts"}, real...),
		Stub:   []string{"writer (written from ISO 14496-12), file (short reads)"},
		Assume: []string{"defaults of samples are in the track fragment, not in trex (Parts does not see the header)", "every run has a data offset, relative to its moof (default-base-is-moof)", "one sample entry per track, 4-byte NALU lengths"},
	})
	register(&Prop{
		ID: "P06", Quick: 100000, Run: runP06,
		Rule:   "A run is non-trivial when at least one payload, laid out by the foreign writer, was retrieved and compared.",
		Real:   append([]string{"pmp4.Presentation"}, real...),
		Stub:   []string{"writer (written from ISO 14496-12), file (short reads, position moved by others between calls)"},
		Assume: []string{"tracks have an edit list box, sample sizes are listed one by one, chunk offsets are 32-bit (the reader reports the others as unsupported)", "sample tables appear in the order required by the reader"},
	})
}

// boxw builds boxes.
type boxw struct{ b []byte }

func (w *boxw) u8(v int)     { w.b = append(w.b, byte(v)) }
func (w *boxw) u16(v int)    { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *boxw) u32(v uint32) { w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func (w *boxw) u64(v uint64) { w.u32(uint32(v >> 32)); w.u32(uint32(v)) }
func (w *boxw) raw(b []byte) { w.b = append(w.b, b...) }
func (w *boxw) str(s string) { w.b = append(w.b, s...) }
func (w *boxw) zero(n int)   { w.b = append(w.b, make([]byte, n)...) }

// full writes version and flags.
func (w *boxw) full(version int, flags uint32) { w.u32(uint32(version)<<24 | flags) }

// foreign is a writer with its habits.
type foreign struct {
	e     *Env
	large int // 1 box in large has a 64-bit size, 0 none
}

// box makes a box.
func (g *foreign) box(name string, fn func(w *boxw)) []byte {
	var in boxw
	fn(&in)
	var w boxw
	if g.large != 0 && g.e.P(1, g.large) {
		w.u32(1)
		w.str(name)
		w.u64(uint64(len(in.b) + 16))
	} else {
		w.u32(uint32(len(in.b) + 8))
		w.str(name)
	}
	w.raw(in.b)
	return w.b
}

func (g *foreign) blobBox(name string, lo, hi int) []byte {
	return g.box(name, func(w *boxw) { w.raw(g.e.blob(lo, hi)) })
}

// extra makes boxes that readers must skip.
func (g *foreign) extra(w *boxw, names ...string) {
	if !g.e.P(1, 3) {
		return
	}
	for i := g.e.R(1, 2); i > 0; i-- {
		w.raw(g.blobBox(names[g.e.N(len(names))], 0, 30))
	}
}

func descr(e *Env, tag byte, body []byte) []byte {
	out := []byte{tag}
	n := len(body)
	min := 1
	for m := n >> 7; m > 0; m >>= 7 {
		min++
	}
	l := min
	if e.P(1, 2) {
		l = 4
	} else if min < 4 {
		l = e.R(min, 4)
	}
	for i := l - 1; i >= 0; i-- {
		c := byte(n>>(7*i)) & 0x7F
		if i > 0 {
			c |= 0x80
		}
		out = append(out, c)
	}
	return append(out, body...)
}

// esds makes an elementary stream descriptor.
func (g *foreign) esds(w *boxw, objectType int, stream int, spec []byte) {
	e := g.e
	w.raw(g.box("esds", func(w *boxw) {
		w.full(0, 0)
		var es boxw
		es.u16(e.N(65536))
		flags := 0
		if e.P(1, 8) {
			flags |= 0x80
		}
		if e.P(1, 8) {
			flags |= 0x40
		}
		if e.P(1, 8) {
			flags |= 0x20
		}
		es.u8(flags | e.N(32))
		if flags&0x80 != 0 {
			es.u16(e.N(65536))
		}
		if flags&0x40 != 0 {
			u := e.blob(0, 20)
			es.u8(len(u))
			es.raw(u)
		}
		if flags&0x20 != 0 {
			es.u16(e.N(65536))
		}
		var dc boxw
		dc.u8(objectType)
		dc.u8(stream<<2 | e.N(2)<<1 | 1)
		dc.u8(e.N(256))
		dc.u16(e.N(65536))
		dc.u32(uint32(e.U(1 << 32)))
		dc.u32(uint32(e.U(1 << 32)))
		if spec != nil {
			dc.raw(descr(e, 5, spec))
		}
		es.raw(descr(e, 4, dc.b))
		if !e.P(1, 8) {
			es.raw(descr(e, 6, []byte{2}))
		}
		w.raw(descr(e, 3, es.b))
	}))
}

var ascRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// asc encodes an AudioSpecificConfig (ISO 14496-3, 1.6.2.1).
func asc(e *Env, c *mpeg4audio.AudioSpecificConfig) []byte {
	var w bitw
	ascBits(&w, c)
	for w.n%8 != 0 {
		w.flag(false)
	}
	return w.b
}

// sampleEntry makes the sample entry of a codec.
func (g *foreign) sampleEntry(c mp4codecs.Codec) []byte {
	e := g.e
	visual := func(name string, width, height int, fn func(w *boxw)) []byte {
		return g.box(name, func(w *boxw) {
			w.zero(6)
			w.u16(1)
			w.zero(16)
			w.u16(width)
			w.u16(height)
			w.u32(0x00480000)
			w.u32(0x00480000)
			w.u32(0)
			w.u16(1)
			nm := "foreign encoder"[:e.N(16)]
			w.u8(len(nm))
			w.str(nm)
			w.zero(31 - len(nm))
			w.u16(24)
			w.u16(0xFFFF)
			g.extra(w, "btrt", "free", "pasp", "clap")
			fn(w)
			if e.P(1, 3) {
				w.raw(g.box("pasp", func(w *boxw) { w.u32(1); w.u32(1) }))
			}
			if e.P(1, 3) {
				w.raw(g.box("colr", func(w *boxw) { w.str("nclx"); w.u16(1); w.u16(1); w.u16(1); w.u8(0x80) }))
			}
			if e.P(1, 3) {
				w.raw(g.box("btrt", func(w *boxw) { w.u32(1); w.u32(uint32(e.U(1 << 32))); w.u32(2) }))
			}
			g.extra(w, "free", "xyzw", "fiel", "uuid")
		})
	}
	audio := func(name string, channels, size, rate int, fn func(w *boxw)) []byte {
		return g.box(name, func(w *boxw) {
			w.zero(6)
			w.u16(1)
			w.zero(8)
			w.u16(channels)
			w.u16(size)
			w.zero(4)
			w.u32(uint32(rate) << 16)
			g.extra(w, "btrt", "free", "chnl")
			fn(w)
			if e.P(1, 3) {
				w.raw(g.box("btrt", func(w *boxw) { w.u32(1); w.u32(uint32(e.U(1 << 32))); w.u32(2) }))
			}
			g.extra(w, "free", "xyzw", "srat", "uuid")
		})
	}
	dim := func() int { return e.R(1, 4096) }
	switch c := c.(type) {
	case *mp4codecs.H264:
		return visual("avc1", dim(), dim(), func(w *boxw) {
			w.raw(g.box("avcC", func(w *boxw) {
				w.u8(1)
				w.raw(c.SPS[1:4])
				w.u8(0xFF)
				w.u8(0xE1)
				w.u16(len(c.SPS))
				w.raw(c.SPS)
				w.u8(1)
				w.u16(len(c.PPS))
				w.raw(c.PPS)
				switch c.SPS[1] {
				case 100, 110, 122, 144:
					if e.P(1, 2) {
						w.u8(0xFC | e.N(4))
						w.u8(0xF8)
						w.u8(0xF8)
						w.u8(0)
					}
				}
			}))
		})
	case *mp4codecs.H265:
		return visual([]string{"hvc1", "hev1"}[e.N(2)], dim(), dim(), func(w *boxw) {
			w.raw(g.box("hvcC", func(w *boxw) {
				w.u8(1)
				w.raw(e.blob(12, 12))
				w.u16(0xF000 | e.N(4096))
				w.u8(0xFC | e.N(4))
				w.u8(0xFC | e.N(4))
				w.u8(0xF8 | e.N(8))
				w.u8(0xF8 | e.N(8))
				w.u16(e.N(65536))
				w.u8(e.N(64)<<2 | 3)
				type arr struct {
					typ   int
					nalus [][]byte
				}
				arrs := []arr{{32, [][]byte{c.VPS}}, {33, [][]byte{c.SPS}}, {34, [][]byte{c.PPS}}}
				if e.P(1, 3) {
					a := arr{39 + e.N(2), nil}
					for i := e.N(3); i > 0; i-- {
						a.nalus = append(a.nalus, append([]byte{byte(a.typ << 1), 1}, e.blob(1, 20)...))
					}
					arrs = append(arrs, a)
				}
				for i := len(arrs) - 1; i > 0; i-- {
					if e.P(1, 3) {
						j := e.N(i + 1)
						arrs[i], arrs[j] = arrs[j], arrs[i]
					}
				}
				w.u8(len(arrs))
				for _, a := range arrs {
					w.u8(e.N(2)<<7 | a.typ)
					w.u16(len(a.nalus))
					for _, n := range a.nalus {
						w.u16(len(n))
						w.raw(n)
					}
				}
			}))
		})
	case *mp4codecs.AV1:
		return visual("av01", dim(), dim(), func(w *boxw) {
			w.raw(g.box("av1C", func(w *boxw) {
				w.u8(0x81)
				w.u8(e.N(256))
				w.u8(e.N(256))
				if e.P(1, 2) {
					w.u8(0x10 | e.N(16))
				} else {
					w.u8(0)
				}
				obu := func(b []byte) {
					w.u8(int(b[0]) | 2)
					n := len(b) - 1
					for n >= 128 {
						w.u8(n&0x7F | 0x80)
						n >>= 7
					}
					w.u8(n)
					w.raw(b[1:])
				}
				obu(c.SequenceHeader)
				if e.P(1, 3) { // metadata
					obu(append([]byte{5 << 3}, e.blob(1, 20)...))
				}
			}))
		})
	case *mp4codecs.VP9:
		return visual("vp09", c.Width, c.Height, func(w *boxw) {
			w.raw(g.box("vpcC", func(w *boxw) {
				w.full(1, 0)
				w.u8(int(c.Profile))
				w.u8(e.N(63))
				r := 0
				if c.ColorRange {
					r = 1
				}
				w.u8(int(c.BitDepth)<<4 | int(c.ChromaSubsampling)<<1 | r)
				w.raw(e.blob(3, 3))
				w.u16(0)
			}))
		})
	case *mp4codecs.MPEG4Video:
		return visual("mp4v", dim(), dim(), func(w *boxw) { g.esds(w, 0x20, 4, c.Config) })
	case *mp4codecs.MPEG1Video:
		return visual("mp4v", dim(), dim(), func(w *boxw) { g.esds(w, 0x61, 4, c.Config) })
	case *mp4codecs.MJPEG:
		return visual("mp4v", c.Width, c.Height, func(w *boxw) { g.esds(w, 0x6C, 4, nil) })
	case *mp4codecs.Opus:
		return audio("Opus", c.ChannelCount, 16, 48000, func(w *boxw) {
			w.raw(g.box("dOps", func(w *boxw) {
				w.u8(0)
				w.u8(c.ChannelCount)
				w.u16(e.N(65536))
				w.u32(uint32(e.U(1 << 32)))
				w.u16(e.N(65536))
				if c.ChannelCount <= 2 && e.P(1, 2) {
					w.u8(0)
				} else {
					w.u8(1 + e.N(254))
					w.u8(e.R(1, 255))
					w.u8(e.N(2))
					w.raw(e.blob(c.ChannelCount, c.ChannelCount))
				}
			}))
		})
	case *mp4codecs.FLAC:
		return audio("fLaC", int(c.StreamInfo.ChannelCount), int(c.StreamInfo.BitDepth), int(c.StreamInfo.SampleRate)&0xFFFF, func(w *boxw) {
			w.raw(g.box("dfLa", func(w *boxw) {
				w.full(0, 0)
				more := e.N(3)
				last := func(i int) int {
					if i == more {
						return 0x80
					}
					return 0
				}
				w.u8(last(0))
				w.u8(0)
				w.u16(34)
				s := c.StreamInfo
				w.u16(int(s.MinBlockSize))
				w.u16(int(s.MaxBlockSize))
				w.u8(int(s.MinFrameSize >> 16))
				w.u16(int(s.MinFrameSize & 0xFFFF))
				w.u8(int(s.MaxFrameSize >> 16))
				w.u16(int(s.MaxFrameSize & 0xFFFF))
				w.u64(uint64(s.SampleRate)<<44 | uint64(s.ChannelCount-1)<<41 | uint64(s.BitDepth-1)<<36 | s.TotalSamples)
				w.raw(s.MD5[:])
				for i := 1; i <= more; i++ {
					b := e.blob(0, 40)
					w.u8(last(i) | 4)
					w.u8(0)
					w.u16(len(b))
					w.raw(b)
				}
			}))
		})
	case *mp4codecs.MPEG4Audio:
		return audio("mp4a", 2, 16, 48000, func(w *boxw) { cfg := fullASC(c.Config); g.esds(w, 0x40, 5, asc(e, &cfg)) })
	case *mp4codecs.MPEG1Audio:
		return audio("mp4a", c.ChannelCount, 16, c.SampleRate, func(w *boxw) { g.esds(w, 0x6B, 5, nil) })
	case *mp4codecs.AC3:
		return audio("ac-3", c.ChannelCount, 16, c.SampleRate, func(w *boxw) {
			w.raw(g.box("dac3", func(w *boxw) {
				var b bitw
				b.bits(uint64(c.Fscod), 2) //nolint:staticcheck
				b.bits(uint64(c.Bsid), 5)
				b.bits(uint64(c.Bsmod), 3)
				b.bits(uint64(c.Acmod), 3)
				b.flag(c.LfeOn)
				b.bits(uint64(c.BitRateCode), 5)
				b.bits(0, 5)
				w.raw(b.b)
			}))
		})
	case *mp4codecs.EAC3:
		return audio("ec-3", c.ChannelCount, 16, c.SampleRate, func(w *boxw) {
			w.raw(g.box("dec3", func(w *boxw) {
				var b bitw
				b.bits(uint64(c.DataRate), 13)
				b.bits(0, 3)
				b.bits(uint64(e.N(3)), 2)
				b.bits(16, 5)
				b.bits(0, 1)
				b.flag(c.Asvc)
				b.bits(uint64(c.Bsmod), 3)
				b.bits(uint64(c.Acmod), 3)
				b.flag(c.LfeOn)
				b.bits(0, 3)
				b.bits(uint64(c.NumDepSub), 4)
				if c.NumDepSub > 0 {
					b.bits(uint64(c.ChanLoc), 9)
				} else {
					b.bits(0, 1)
				}
				w.raw(b.b)
				if e.P(1, 4) { // extension (joint object coding)
					w.u8(1)
					w.u8(16)
				}
			}))
		})
	case *mp4codecs.LPCM:
		return audio("ipcm", c.ChannelCount, c.BitDepth, c.SampleRate, func(w *boxw) {
			w.raw(g.box("pcmC", func(w *boxw) {
				w.full(0, 0)
				v := 0
				if c.LittleEndian {
					v = 1
				}
				w.u8(v)
				w.u8(c.BitDepth)
			}))
		})
	}
	panic("unknown codec")
}

// ftyp makes the first box.
func (g *foreign) ftyp() []byte {
	e := g.e
	return g.box("ftyp", func(w *boxw) {
		brands := []string{"isom", "iso5", "iso6", "mp41", "mp42", "dash", "cmfc", "hlsf", "avc1", "msdh", "M4V "}
		w.str(brands[e.N(len(brands))])
		w.u32(uint32(e.U(1 << 32)))
		for i := e.N(6); i > 0; i-- {
			w.str(brands[e.N(len(brands))])
		}
	})
}

func (g *foreign) times(w *boxw, v int) {
	e := g.e
	for i := 0; i < 2; i++ {
		if v == 1 {
			w.u64(e.U(1 << 34))
		} else {
			w.u32(uint32(e.U(1 << 32)))
		}
	}
}

func (g *foreign) mvhd() []byte {
	return g.box("mvhd", func(w *boxw) {
		v := g.e.N(2)
		w.full(v, 0)
		g.times(w, v)
		w.u32([]uint32{1000, 600, 90000}[g.e.N(3)])
		if v == 1 {
			w.u64(g.e.U(1 << 40))
		} else {
			w.u32(uint32(g.e.U(1 << 32)))
		}
		w.u32(0x10000)
		w.u16(0x100)
		w.zero(10)
		for _, m := range []uint32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000} {
			w.u32(m)
		}
		w.zero(24)
		w.u32(0xFFFFFFFF)
	})
}

func (g *foreign) tkhd(id int) []byte {
	return g.box("tkhd", func(w *boxw) {
		v := g.e.N(2)
		w.full(v, uint32(g.e.R(1, 7)))
		g.times(w, v)
		w.u32(uint32(id))
		w.u32(0)
		if v == 1 {
			w.u64(g.e.U(1 << 40))
		} else {
			w.u32(uint32(g.e.U(1 << 32)))
		}
		w.zero(8)
		w.u16(0)
		w.u16(0)
		w.u16(0x100)
		w.u16(0)
		for _, m := range []uint32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000} {
			w.u32(m)
		}
		w.u32(1920 << 16)
		w.u32(1080 << 16)
	})
}

func (g *foreign) elst(dur uint64, mediaTime int64) []byte {
	return g.box("edts", func(w *boxw) {
		w.raw(g.box("elst", func(w *boxw) {
			v := g.e.N(2)
			w.full(v, 0)
			w.u32(1)
			if v == 1 {
				w.u64(dur)
				w.u64(uint64(mediaTime))
			} else {
				w.u32(uint32(dur))
				w.u32(uint32(mediaTime))
			}
			w.u32(0x10000)
		}))
	})
}

// trak makes a track; tables makes the sample tables.
func (g *foreign) trak(id int, scale uint32, dur uint64, c mp4codecs.Codec, edit func(w *boxw), tables func(w *boxw), tail bool) []byte {
	e := g.e
	return g.box("trak", func(w *boxw) {
		w.raw(g.tkhd(id))
		edit(w)
		g.extra(w, "tref", "free", "xyzw")
		w.raw(g.box("mdia", func(w *boxw) {
			w.raw(g.box("mdhd", func(w *boxw) {
				v := e.N(2)
				if dur >= 1<<32 {
					v = 1
				}
				w.full(v, 0)
				g.times(w, v)
				w.u32(scale)
				if v == 1 {
					w.u64(dur)
				} else {
					w.u32(uint32(dur))
				}
				w.u16(0x55C4)
				w.u16(0)
			}))
			g.extra(w, "elng", "free")
			w.raw(g.box("hdlr", func(w *boxw) {
				w.full(0, 0)
				w.u32(0)
				if c == nil {
					w.str("clcp")
				} else if c.IsVideo() {
					w.str("vide")
				} else {
					w.str("soun")
				}
				w.zero(12)
				w.str("Handler"[:e.N(8)])
				w.u8(0)
			}))
			w.raw(g.box("minf", func(w *boxw) {
				if c == nil {
					w.raw(g.box("nmhd", func(w *boxw) { w.full(0, 0) }))
				} else if c.IsVideo() {
					w.raw(g.box("vmhd", func(w *boxw) { w.full(0, 1); w.zero(8) }))
				} else {
					w.raw(g.box("smhd", func(w *boxw) { w.full(0, 0); w.zero(4) }))
				}
				w.raw(g.box("dinf", func(w *boxw) {
					w.raw(g.box("dref", func(w *boxw) {
						w.full(0, 0)
						w.u32(1)
						w.raw(g.box("url ", func(w *boxw) { w.full(0, 1) }))
					}))
				}))
				g.extra(w, "free", "xyzw")
				w.raw(g.box("stbl", func(w *boxw) {
					w.raw(g.box("stsd", func(w *boxw) {
						w.full(0, 0)
						w.u32(1)
						if c == nil { // closed captions, that the library skips
							w.raw(g.box("c608", func(w *boxw) {
								w.zero(6)
								w.u16(1)
								g.extra(w, "free", "xyzw")
							}))
							return
						}
						w.raw(g.sampleEntry(c))
					}))
					tables(w)
				}))
			}))
		}))
		if tail {
			g.extra(w, "free", "xyzw")
			if e.P(1, 4) {
				w.raw(g.box("udta", func(w *boxw) {
					w.raw(g.box("free", func(w *boxw) { w.raw(e.blob(0, 20)) }))
				}))
				g.extra(w, "free", "xyzw")
			}
		}
	})
}

func userBox(e *Env, i amp4.IBox) []byte {
	var b bytes.Buffer
	_, err := amp4.Marshal(&b, i, amp4.Context{UnderUdta: true})
	mustNil(e, err, "internal")
	return b.Bytes()
}

// header makes a fMP4 header.
func (g *foreign) header(in *fmp4.Init) []byte {
	e := g.e
	var w boxw
	g.extra(&w, "free", "xyzw", "uuid")
	w.raw(g.ftyp())
	g.extra(&w, "free", "xyzw", "uuid", "pdin")
	w.raw(g.box("moov", func(w *boxw) {
		w.raw(g.mvhd())
		g.extra(w, "free", "iods", "pssh", "xyzw")
		mvexAt := e.N(2)
		mvex := func() {
			w.raw(g.box("mvex", func(w *boxw) {
				if e.P(1, 2) {
					w.raw(g.box("mehd", func(w *boxw) { w.full(0, 0); w.u32(uint32(e.U(1 << 32))) }))
				}
				for _, t := range in.Tracks {
					w.raw(g.box("trex", func(w *boxw) {
						w.full(0, 0)
						w.u32(uint32(t.ID))
						w.u32(1)
						w.u32(0)
						w.u32(0)
						w.u32(0)
					}))
				}
			}))
		}
		udtaAt := e.N(len(in.Tracks) + 2)
		udta := func() {
			if len(in.UserData) == 0 {
				return
			}
			w.raw(g.box("udta", func(w *boxw) {
				for _, u := range in.UserData {
					g.extra(w, "xyzw", "abcd", "hnti")
					w.raw(g.box(u.GetType().String(), func(w *boxw) { w.raw(userBox(e, u)) }))
				}
			}))
		}
		if mvexAt == 0 {
			mvex()
		}
		for i, t := range in.Tracks {
			if udtaAt == i {
				udta()
			}
			empty := func(w *boxw) {
				for _, n := range []string{"stts", "stsc", "stco"} {
					w.raw(g.box(n, func(w *boxw) { w.full(0, 0); w.u32(0) }))
				}
				w.raw(g.box("stsz", func(w *boxw) { w.full(0, 0); w.u32(0); w.u32(0) }))
				g.extra(w, "free", "xyzw")
			}
			edit := func(w *boxw) {
				if e.P(1, 3) {
					w.raw(g.elst(0, int64(e.N(5000))))
				}
			}
			captions := func() {
				if e.P(1, 10) {
					w.raw(g.trak(e.R(1, 9), 1000, 0, nil, edit, empty, true))
				}
			}
			captions()
			w.raw(g.trak(t.ID, t.TimeScale, 0, t.Codec, edit, empty, true))
			captions()
		}
		if udtaAt == len(in.Tracks) {
			udta()
		}
		if mvexAt == 1 {
			mvex()
		}
		if udtaAt == len(in.Tracks)+1 {
			udta()
		}
		g.extra(w, "free", "xyzw")
	}))
	return w.b
}

// segment makes a part. abs is its position inside of the file, or -1 when it is not known to the writer.
func (g *foreign) segment(p *fmp4.Part, abs int64, last bool) []byte {
	e := g.e
	type run struct {
		t, lo, hi int
		off       int
	}
	var runs []*run
	perTrack := make([][]*run, len(p.Tracks))
	for i, t := range p.Tracks {
		lo := 0
		for lo < len(t.Samples) {
			hi := len(t.Samples)
			if e.P(1, 2) {
				hi = e.R(lo+1, hi)
			}
			perTrack[i] = append(perTrack[i], &run{t: i, lo: lo, hi: hi})
			lo = hi
		}
		if e.P(1, 8) {
			perTrack[i] = append(perTrack[i], &run{t: i, lo: len(t.Samples), hi: len(t.Samples)})
		}
		runs = append(runs, perTrack[i]...)
	}
	// position of the runs inside of the data: any order
	if e.P(1, 2) {
		for i := len(runs) - 1; i > 0; i-- {
			j := e.N(i + 1)
			runs[i], runs[j] = runs[j], runs[i]
		}
	}
	var data boxw
	for _, r := range runs {
		if e.P(1, 5) { // gap
			data.raw(e.blob(1, 20))
		}
		r.off = len(data.b)
		for _, s := range p.Tracks[r.t].Samples[r.lo:r.hi] {
			data.raw(s.Payload)
		}
	}
	if e.P(1, 5) {
		data.raw(e.blob(1, 20))
	}
	if len(runs) > 1 {
		e.Probe("runs")
	}

	mdatHead, toEnd := 8, false
	switch {
	case e.P(1, 8):
		mdatHead = 16
	case last && e.P(1, 4):
		toEnd = true // up to the end of the file
	}
	saved := *g // the layout must be the same in both passes
	e0 := e.Sub()
	var out []byte
	size := 0
	for pass := 0; pass < 2; pass++ {
		*g = saved
		sub := &Env{Src: newSrc(e0.s)}
		sub.probes, sub.faults = map[string]int{}, map[string]int{}
		g.e = sub
		var w boxw
		if sub.P(1, 3) {
			w.raw(g.box("styp", func(w *boxw) { w.str("msdh"); w.u32(0); w.str("msix") }))
		}
		if sub.P(1, 4) {
			w.raw(g.box("sidx", func(w *boxw) {
				w.full(0, 0)
				w.u32(1)
				w.u32(1000)
				w.u32(0)
				w.u32(0)
				w.u16(0)
				w.u16(1)
				w.u32(1234)
				w.u32(5678)
				w.u32(0x90000000)
			}))
		}
		g.extra(&w, "free", "xyzw", "emsg", "prft", "uuid")
		moofPos := len(w.b)
		moof := g.box("moof", func(w *boxw) {
			w.raw(g.box("mfhd", func(w *boxw) { w.full(0, 0); w.u32(p.SequenceNumber) }))
			g.extra(w, "free", "xyzw", "pssh")
			for i, t := range p.Tracks {
				w.raw(g.traf(t, func(k int) (int, int, int, bool) {
					if k >= len(perTrack[i]) {
						return 0, 0, 0, false
					}
					r := perTrack[i][k]
					return r.lo, r.hi, size + mdatHead + r.off - moofPos, true
				}, abs+int64(moofPos), abs >= 0))
				g.extra(w, "free", "xyzw")
			}
		})
		w.raw(moof)
		g.extra(&w, "free", "xyzw")
		size = len(w.b)
		switch {
		case toEnd:
			w.u32(0)
			w.str("mdat")
		case mdatHead == 16:
			w.u32(1)
			w.str("mdat")
			w.u64(uint64(len(data.b) + 16))
		default:
			w.u32(uint32(len(data.b) + 8))
			w.str("mdat")
		}
		w.raw(data.b)
		out = w.b
	}
	*g = saved
	if !toEnd {
		var w boxw
		g.extra(&w, "free", "xyzw", "mfra")
		out = append(out, w.b...)
	}
	return out
}

func sampleFlags(e *Env, s *fmp4.Sample, noise uint32) uint32 {
	f := noise &^ 0x10000
	if s.IsNonSyncSample {
		f |= 0x10000
	}
	return f
}

// traf makes a track fragment.
func (g *foreign) traf(t *fmp4.PartTrack, run func(k int) (lo, hi, off int, ok bool), abs int64, absKnown bool) []byte {
	e := g.e
	return g.box("traf", func(w *boxw) {
		// defaults
		var defDur, defSize, defFlags uint32
		has := func(v *uint32, get func(s *fmp4.Sample) uint32) bool {
			if !e.P(1, 2) {
				return false
			}
			if len(t.Samples) == 0 {
				*v = uint32(e.U(1 << 32))
				return true
			}
			*v = get(t.Samples[e.N(len(t.Samples))])
			return true
		}
		noise := uint32(0)
		if e.P(1, 2) {
			noise = uint32(e.U(1<<32)) & 0x0FFFFFFF
		}
		hasDur := has(&defDur, func(s *fmp4.Sample) uint32 { return s.Duration })
		hasSize := has(&defSize, func(s *fmp4.Sample) uint32 { return uint32(len(s.Payload)) })
		hasFlags := has(&defFlags, func(s *fmp4.Sample) uint32 { return sampleFlags(e, s, noise) })
		w.raw(g.box("tfhd", func(w *boxw) {
			fl := uint32(0x20000)
			base := absKnown && e.P(1, 4)
			if base {
				fl = 1
			}
			desc := e.P(1, 4)
			if desc {
				fl |= 2
			}
			if hasDur {
				fl |= 8
			}
			if hasSize {
				fl |= 16
			}
			if hasFlags {
				fl |= 32
			}
			w.full(0, fl)
			w.u32(uint32(t.ID))
			if base {
				w.u64(uint64(abs))
			}
			if desc {
				w.u32(1)
			}
			if hasDur {
				w.u32(defDur)
			}
			if hasSize {
				w.u32(defSize)
			}
			if hasFlags {
				w.u32(defFlags)
			}
		}))
		g.extra(w, "free", "xyzw", "senc", "saiz", "saio")
		w.raw(g.box("tfdt", func(w *boxw) {
			if t.BaseTime < 1<<32 && e.P(1, 2) {
				w.full(0, 0)
				w.u32(uint32(t.BaseTime))
			} else {
				w.full(1, 0)
				w.u64(t.BaseTime)
			}
		}))
		g.extra(w, "free", "xyzw", "senc", "saiz", "saio")
		for k := 0; ; k++ {
			lo, hi, off, ok := run(k)
			if !ok {
				break
			}
			ss := t.Samples[lo:hi]
			fl := uint32(1)
			all := func(fn func(i int, s *fmp4.Sample) bool) bool {
				for i, s := range ss {
					if !fn(i, s) {
						return false
					}
				}
				return true
			}
			if !(hasDur && all(func(_ int, s *fmp4.Sample) bool { return s.Duration == defDur })) || e.P(1, 4) {
				fl |= 0x100
			}
			if !(hasSize && all(func(_ int, s *fmp4.Sample) bool { return uint32(len(s.Payload)) == defSize })) || e.P(1, 4) {
				fl |= 0x200
			}
			switch {
			case hasFlags && all(func(_ int, s *fmp4.Sample) bool { return sampleFlags(e, s, noise) == defFlags }) && !e.P(1, 4):
			case hasFlags && all(func(i int, s *fmp4.Sample) bool { return i == 0 || sampleFlags(e, s, noise) == defFlags }) && !e.P(1, 4):
				fl |= 4
			default:
				fl |= 0x400
			}
			// without flags of any kind, samples are sync samples
			if !hasFlags && all(func(_ int, s *fmp4.Sample) bool { return !s.IsNonSyncSample }) && e.P(1, 2) {
				fl &^= 0x400
			}
			neg, cts := false, false
			for _, s := range ss {
				if s.PTSOffset < 0 {
					neg = true
				}
				if s.PTSOffset != 0 {
					cts = true
				}
			}
			if cts || e.P(1, 4) {
				fl |= 0x800
			}
			v := 1
			if !neg && e.P(1, 2) {
				v = 0
			}
			w.raw(g.box("trun", func(w *boxw) {
				w.full(v, fl)
				w.u32(uint32(len(ss)))
				w.u32(uint32(off))
				if fl&4 != 0 {
					if len(ss) > 0 {
						w.u32(sampleFlags(e, ss[0], noise))
					} else {
						w.u32(0)
					}
				}
				for _, s := range ss {
					if fl&0x100 != 0 {
						w.u32(s.Duration)
					}
					if fl&0x200 != 0 {
						w.u32(uint32(len(s.Payload)))
					}
					if fl&0x400 != 0 {
						w.u32(sampleFlags(e, s, noise))
					}
					if fl&0x800 != 0 {
						w.u32(uint32(s.PTSOffset))
					}
				}
			}))
			g.extra(w, "free", "xyzw")
		}
		g.extra(w, "free", "xyzw", "sdtp", "subs")
	})
}

func runF07(e *Env) {
	in := e.genInit(initOpts{maxTracks: 4, userData: true})
	g := &foreign{e: e, large: []int{0, 0, 12, 3}[e.N(4)]}
	hdr := g.header(in)
	o := partOpts{maxParts: 4, maxSamples: 10, big: true}
	if e.P(1, 50) {
		o.maxSamples, o.big = 200, false
	}
	parts := e.genParts(in, o)
	if e.P(1, 2) { // regular streams, that can be compacted
		dur := e.drawDur()
		for _, p := range parts {
			for _, t := range p.Tracks {
				for i, s := range t.Samples {
					s.Duration = dur
					s.IsNonSyncSample = i > 0
				}
			}
		}
	}
	whole := e.P(1, 2)
	data := append([]byte(nil), hdr...)
	var media []byte
	var segs [][]byte
	for i, p := range parts {
		abs := int64(-1)
		if whole {
			abs = int64(len(data))
		}
		s := g.segment(p, abs, i == len(parts)-1 && whole)
		segs = append(segs, s)
		data = append(data, s...)
		media = append(media, s...)
	}
	want, wantParts := initView(in), partsView(parts)
	e.Ev("case", want, len(hdr), len(data))
	for _, p := range wantParts {
		e.Ev("part", clip(p))
	}

	// header alone, or followed by parts
	hd := hdr
	if e.P(1, 2) {
		hd = data
	}
	f := e.newFile(hd)
	f.shortReads = e.P(1, 2)
	f.r = e.Sub()
	var got fmp4.Init
	mustNil(e, got.Unmarshal(f), "header-read-error")
	if v := initView(&got); v != want {
		e.Fail("header-differs", "got %s want %s", clip(v), clip(want))
	}
	for _, t := range got.Tracks {
		e.checkASC(t.Codec)
	}

	// parts: the whole file, all segments together, or one by one
	var ps fmp4.Parts
	switch {
	case whole:
		mustNil(e, ps.Unmarshal(data), "part-read-error")
	case e.P(1, 2):
		mustNil(e, ps.Unmarshal(media), "part-read-error")
	default:
		for _, s := range segs {
			var p fmp4.Parts
			mustNil(e, p.Unmarshal(s), "part-read-error")
			ps = append(ps, p...)
		}
	}
	d := diffViews(partsView(ps), wantParts)
	e.Check(d == "", "part-differs", "%s", d)
	for _, p := range parts {
		for _, t := range p.Tracks {
			if len(t.Samples) > 0 {
				e.NonTrivial()
			}
		}
	}
}

// movieFile lays out a presentation.
func (g *foreign) movieFile(m *movie) []byte {
	e := g.e
	type chunk struct {
		t, lo, hi int
		off       int
	}
	var order []*chunk
	perTrack := make([][]*chunk, len(m.p.Tracks))
	for i, t := range m.p.Tracks {
		lo := 0
		max := len(t.Samples)
		fix := 0
		if e.P(1, 2) {
			fix = e.R(1, 5)
		}
		for lo < max {
			hi := max
			switch {
			case fix != 0 && lo+fix < max:
				hi = lo + fix
			case fix == 0 && e.P(3, 4):
				hi = e.R(lo+1, max)
			}
			perTrack[i] = append(perTrack[i], &chunk{t: i, lo: lo, hi: hi})
			lo = hi
		}
	}
	// interleaving of the tracks
	next := make([]int, len(perTrack))
	for {
		var avail []int
		for i := range next {
			if next[i] < len(perTrack[i]) {
				avail = append(avail, i)
			}
		}
		if len(avail) == 0 {
			break
		}
		k := avail[e.N(len(avail))]
		order = append(order, perTrack[k][next[k]])
		next[k]++
	}
	if e.P(1, 3) { // chunks can be anywhere
		for i := len(order) - 1; i > 0; i-- {
			j := e.N(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	// several data boxes
	var datas [][]*chunk
	if e.P(1, 3) && len(order) > 1 {
		k := e.R(1, len(order)-1)
		datas = [][]*chunk{order[:k], order[k:]}
	} else {
		datas = [][]*chunk{order}
	}
	moovAt := e.N(len(datas) + 1)

	saved := *g
	e0 := e.Sub()
	var out []byte
	for pass := 0; pass < 2; pass++ {
		*g = saved
		sub := &Env{Src: newSrc(e0.s)}
		sub.probes, sub.faults = map[string]int{}, map[string]int{}
		e := sub
		g.e = sub
		var w boxw
		w.raw(g.ftyp())
		g.extra(&w, "free", "xyzw", "uuid")
		moov := func() {
			w.raw(g.box("moov", func(w *boxw) {
				w.raw(g.mvhd())
				g.extra(w, "free", "iods", "xyzw")
				for i, t := range m.p.Tracks {
					if e.P(1, 10) {
						w.raw(g.trak(e.R(1, 9), 1000, 100, nil, func(w *boxw) { w.raw(g.elst(100, 0)) }, func(w *boxw) {
							w.raw(g.box("stts", func(w *boxw) { w.full(0, 0); w.u32(1); w.u32(1); w.u32(100) }))
							w.raw(g.box("stsc", func(w *boxw) { w.full(0, 0); w.u32(1); w.u32(1); w.u32(1); w.u32(1) }))
							w.raw(g.box("stsz", func(w *boxw) { w.full(0, 0); w.u32(0); w.u32(1); w.u32(2) }))
							w.raw(g.box("stco", func(w *boxw) { w.full(0, 0); w.u32(1); w.u32(40) }))
						}, true))
					}
					var sum uint32
					for _, s := range t.Samples {
						sum += s.Duration
					}
					dur := uint64(uint32(int32(sum) + t.TimeOffset))
					w.raw(g.trak(t.ID, t.TimeScale, dur, t.Codec, func(w *boxw) {
						w.raw(g.elst(dur, 0))
					}, func(w *boxw) {
						g.extra(w, "free", "xyzw")
						// decoding times, compacted or not
						var ent [][2]uint32
						for _, s := range t.Samples {
							if n := len(ent); n > 0 && ent[n-1][1] == s.Duration && !e.P(1, 6) {
								ent[n-1][0]++
							} else {
								ent = append(ent, [2]uint32{1, s.Duration})
							}
						}
						w.raw(g.box("stts", func(w *boxw) {
							w.full(0, 0)
							w.u32(uint32(len(ent)))
							for _, x := range ent {
								w.u32(x[0])
								w.u32(x[1])
							}
						}))
						var opt [][]byte
						sync, cts, neg := true, false, false
						for _, s := range t.Samples {
							sync = sync && !s.IsNonSyncSample
							cts = cts || s.PTSOffset != 0
							neg = neg || s.PTSOffset < 0
						}
						if !sync || e.P(1, 4) {
							opt = append(opt, g.box("stss", func(w *boxw) {
								w.full(0, 0)
								var l []uint32
								for i, s := range t.Samples {
									if !s.IsNonSyncSample {
										l = append(l, uint32(i+1))
									}
								}
								w.u32(uint32(len(l)))
								for _, x := range l {
									w.u32(x)
								}
							}))
						}
						if cts || e.P(1, 4) {
							var ent [][2]uint32
							for _, s := range t.Samples {
								if n := len(ent); n > 0 && ent[n-1][1] == uint32(s.PTSOffset) && !e.P(1, 6) {
									ent[n-1][0]++
								} else {
									ent = append(ent, [2]uint32{1, uint32(s.PTSOffset)})
								}
							}
							v := 1
							if !neg && e.P(1, 2) {
								v = 0
							}
							opt = append(opt, g.box("ctts", func(w *boxw) {
								w.full(v, 0)
								w.u32(uint32(len(ent)))
								for _, x := range ent {
									w.u32(x[0])
									w.u32(x[1])
								}
							}))
						}
						var sc [][2]uint32
						for k, c := range perTrack[i] {
							n := uint32(c.hi - c.lo)
							if l := len(sc); l == 0 || sc[l-1][1] != n || e.P(1, 8) {
								sc = append(sc, [2]uint32{uint32(k + 1), n})
							}
						}
						stsc := g.box("stsc", func(w *boxw) {
							w.full(0, 0)
							w.u32(uint32(len(sc)))
							for _, x := range sc {
								w.u32(x[0])
								w.u32(x[1])
								w.u32(1)
							}
						})
						stsz := g.box("stsz", func(w *boxw) {
							w.full(0, 0)
							w.u32(0)
							w.u32(uint32(len(t.Samples)))
							for _, s := range t.Samples {
								w.u32(s.PayloadSize)
							}
						})
						stco := g.box("stco", func(w *boxw) {
							w.full(0, 0)
							w.u32(uint32(len(perTrack[i])))
							for _, c := range perTrack[i] {
								w.u32(uint32(c.off))
							}
						})
						// any order, except that stco comes after stsc and stsz
						opt = append(opt, stsc, stsz, g.blobBox("free", 0, 9))
						for k := len(opt) - 1; k > 0; k-- {
							j := e.N(k + 1)
							opt[k], opt[j] = opt[j], opt[k]
						}
						cut := len(opt)
						for _, x := range opt[:cut] {
							w.raw(x)
						}
						w.raw(stco)
						g.extra(w, "free", "xyzw", "sgpd", "sbgp", "sdtp")
					}, true))
				}
				if e.P(1, 3) {
					w.raw(g.box("udta", func(w *boxw) {
						w.raw(g.box("meta", func(w *boxw) {
							w.full(0, 0)
							w.raw(g.box("hdlr", func(w *boxw) { w.full(0, 0); w.u32(0); w.str("mdir"); w.str("appl"); w.zero(9) }))
							w.raw(g.box("ilst", func(w *boxw) {
								w.raw(g.box("\xA9too", func(w *boxw) {
									w.raw(g.box("data", func(w *boxw) { w.u32(1); w.u32(0); w.str("Lavf") }))
								}))
							}))
						}))
					}))
				}
			}))
			g.extra(&w, "free", "xyzw")
		}
		for k := 0; k <= len(datas); k++ {
			if k == moovAt {
				moov()
			}
			if k == len(datas) {
				break
			}
			var data boxw
			var at []int
			for _, c := range datas[k] {
				if e.P(1, 5) {
					data.raw(e.blob(1, 20))
				}
				at = append(at, len(data.b))
				for _, s := range m.data[c.t][c.lo:c.hi] {
					data.raw(s)
				}
			}
			if e.P(1, 5) {
				data.raw(e.blob(1, 20))
			}
			switch {
			case k == len(datas)-1 && moovAt <= k && e.P(1, 6):
				w.u32(0)
				w.str("mdat")
			case e.P(1, 6):
				w.u32(1)
				w.str("mdat")
				w.u64(uint64(len(data.b) + 16))
			default:
				w.u32(uint32(len(data.b) + 8))
				w.str("mdat")
			}
			for j, c := range datas[k] {
				c.off = len(w.b) + at[j]
			}
			w.raw(data.b)
		}
		out = w.b
	}
	*g = saved
	return out
}

func runP06(e *Env) {
	o := movieOpts{maxTracks: 4, maxSamples: 14, big: true}
	if e.P(1, 30) {
		o.maxSamples, o.big = 300, false
	}
	m := e.genMovie(o)
	g := &foreign{e: e, large: []int{0, 0, 12, 3}[e.N(4)]}
	file := g.movieFile(m)
	want := presView(m.p)
	e.Ev("case", len(m.p.Tracks), m.total(), len(file))
	for _, s := range want {
		e.Ev("track", clip(s))
	}
	f := e.newFile(file)
	f.shortReads = e.P(1, 2)
	f.r = e.Sub()
	f.pos = int64(e.N(len(file) + 1))
	var p pmp4.Presentation
	mustNil(e, p.Unmarshal(f), "read-error")
	for _, t := range p.Tracks {
		e.checkASC(t.Codec)
	}
	d := diffViews(presView(&p), want)
	e.Check(d == "", "presentation-differs", "%s", d)

	type ref struct{ t, s int }
	var refs []ref
	for i, t := range m.data {
		for j := range t {
			refs = append(refs, ref{i, j})
		}
	}
	if e.P(1, 2) {
		r := e.Sub()
		for i := len(refs) - 1; i > 0; i-- {
			j := r.n(i + 1)
			refs[i], refs[j] = refs[j], refs[i]
		}
	}
	for _, x := range refs {
		if e.P(1, 4) {
			f.pos = int64(e.N(len(file) + 100))
		}
		pl, err := p.Tracks[x.t].Samples[x.s].GetPayload()
		mustNil(e, err, "retrieve-error")
		w := m.data[x.t][x.s]
		if !bytes.Equal(pl, w) {
			e.Fail("payload-differs", "track %d sample %d: got %d bytes %x, stored %d bytes %x", x.t, x.s, len(pl), clipB(pl), len(w), clipB(w))
		}
		e.NonTrivial()
	}
}

var _ = fmt.Sprint
