From 87580252791f48a431588c06224a67d52cec7754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 01/47] fix: MPEG1Audio is not a video codec

---
 pkg/formats/mpegts/codecs/mpeg1_audio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/codecs/mpeg1_audio.go b/pkg/formats/mpegts/codecs/mpeg1_audio.go
index 149aa6b..f74c409 100644
--- a/pkg/formats/mpegts/codecs/mpeg1_audio.go
+++ b/pkg/formats/mpegts/codecs/mpeg1_audio.go
@@ -11,7 +11,7 @@ type MPEG1Audio struct {
 
 // IsVideo implements Codec.
 func (*MPEG1Audio) IsVideo() bool {
-	return true
+	return false
 }
 
 func (*MPEG1Audio) isCodec() {}
-- 
2.43.0


From ba8c9028331f62af2b0c9d12db839931b5ec1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 02/47] fix: do not loop forever when the source of a MPEG-TS
 reader returns an error that wraps io.EOF

---
 pkg/formats/mpegts/robust_demuxer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index c3fd978..1a010b2 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -52,7 +52,8 @@ func (r *errorWrapper) Read(p []byte) (int, error) {
 		// since they are needed by astits to handle the last packet of a stream.
 		// they are transformed into astits.ErrNoMorePackets.
 		// https://github.com/asticode/go-astits/blob/7c2bf6b71173d24632371faa01f28a9122db6382/packet_buffer.go#L131
-		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		// astits doesn't unwrap errors, therefore errors that wrap io.EOF must be handled like any other error.
+		if err != io.EOF && err != io.ErrUnexpectedEOF { //nolint:errorlint
 			err = &wrappedError{w: err}
 		}
 	}
-- 
2.43.0


From 067eecb4efa60cf4e399048d0cebe47fb03804df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 03/47] fix: MPEG-TS reader did not find audio parameters
 already seen while looking for those of another track

---
 pkg/formats/mpegts/reader.go         |  6 ++++++
 pkg/formats/mpegts/robust_demuxer.go | 30 ++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index ee8b6fd..a583124 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -202,7 +202,13 @@ func (r *Reader) Initialize() error {
 
 	tracks := make([]*Track, len(pmt.ElementaryStreams))
 
+	// parameters of a track might be in data that has already been read
+	// while looking for parameters of another track.
+	dem.recording = true
+
 	for i, es := range pmt.ElementaryStreams {
+		dem.restart()
+
 		var track Track
 		err = track.unmarshal(dem, es)
 		if err != nil {
diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index 1a010b2..06c7169 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -126,6 +126,11 @@ type robustDemuxer struct {
 
 	dem            *astits.Demuxer
 	ptsInterceptor *ptsInterceptor
+
+	// when recording is true, data is stored and can be read again after restart().
+	recording   bool
+	recorded    []*robustDemuxerData
+	recordedPos int
 }
 
 func (d *robustDemuxer) initialize() {
@@ -143,7 +148,32 @@ func (d *robustDemuxer) initialize() {
 	)
 }
 
+// restart makes nextData() return recorded data again, before any new data.
+func (d *robustDemuxer) restart() {
+	d.recordedPos = 0
+}
+
 func (d *robustDemuxer) nextData() (*robustDemuxerData, error) {
+	if d.recordedPos < len(d.recorded) {
+		data := d.recorded[d.recordedPos]
+		d.recordedPos++
+		return data, nil
+	}
+
+	data, err := d.readData()
+	if err != nil {
+		return nil, err
+	}
+
+	if d.recording {
+		d.recorded = append(d.recorded, data)
+		d.recordedPos++
+	}
+
+	return data, nil
+}
+
+func (d *robustDemuxer) readData() (*robustDemuxerData, error) {
 	for {
 		data, err := d.dem.NextData()
 		if err != nil {
-- 
2.43.0


From 13aa7ccd70cfd855970eef7adb6165c9d0455bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 04/47] fix: BufferedReader dropped data that was returned
 together with an error

---
 pkg/formats/mpegts/buffered_reader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/buffered_reader.go b/pkg/formats/mpegts/buffered_reader.go
index 87f9613..ef11e77 100644
--- a/pkg/formats/mpegts/buffered_reader.go
+++ b/pkg/formats/mpegts/buffered_reader.go
@@ -12,6 +12,7 @@ type BufferedReader struct {
 	r         io.Reader
 	midbuf    []byte
 	midbufpos int
+	err       error
 }
 
 // NewBufferedReader allocates a BufferedReader.
@@ -32,8 +33,14 @@ func (r *BufferedReader) Read(p []byte) (int, error) {
 		return n, nil
 	}
 
+	// return the error that was received together with the data.
+	if err := r.err; err != nil {
+		r.err = nil
+		return 0, err
+	}
+
 	mn, err := r.r.Read(r.midbuf[:cap(r.midbuf)])
-	if err != nil {
+	if mn == 0 && err != nil {
 		return 0, err
 	}
 
@@ -41,6 +48,7 @@ func (r *BufferedReader) Read(p []byte) (int, error) {
 		return 0, fmt.Errorf("received packet with size %d not multiple of %d", mn, packetSize)
 	}
 
+	r.err = err
 	r.midbuf = r.midbuf[:mn]
 	n := copy(p, r.midbuf)
 	r.midbufpos = n
-- 
2.43.0


From 300ff2be5d23d2cda38948da95d412817bcdef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 05/47] fix: MPEG-TS writer emitted clock references on the
 wrong track when tracks had been used by another writer

---
 pkg/formats/mpegts/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 56d0ee1..24f00a5 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -70,6 +70,9 @@ func (w *Writer) Initialize() error {
 		w.W)
 
 	for _, track := range w.Tracks {
+		// the track might have been used by another writer
+		track.isLeading = false
+
 		if track.PID == 0 {
 			track.PID = w.nextPID
 			w.nextPID++
-- 
2.43.0


From e48963db3bfba011787fe5d273e6c0701e01404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 06/47] fix: MPEG-TS writer emitted corrupted packets after an
 error of the output

---
 pkg/formats/mpegts/writer.go | 38 ++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 24f00a5..c8968b3 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -56,6 +56,7 @@ type Writer struct {
 	Tracks []*Track
 
 	nextPID            uint16
+	buf                bytes.Buffer
 	mux                *astits.Muxer
 	pcrCounter         int
 	leadingTrackChosen bool
@@ -67,7 +68,7 @@ func (w *Writer) Initialize() error {
 
 	w.mux = astits.NewMuxer(
 		context.Background(),
-		w.W)
+		&w.buf)
 
 	for _, track := range w.Tracks {
 		// the track might have been used by another writer
@@ -105,7 +106,31 @@ func (w *Writer) WriteTables() (int, error) {
 	if !w.leadingTrackChosen && len(w.Tracks) > 0 {
 		w.mux.SetPCRPID(w.Tracks[0].PID)
 	}
-	return w.mux.WriteTables()
+
+	_, err := w.mux.WriteTables()
+	n, err2 := w.flush()
+	if err == nil {
+		err = err2
+	}
+	return n, err
+}
+
+// flush writes to the output what was generated by the muxer.
+// The muxer does not write to the output directly since, in case of errors, it would be left
+// in the middle of a packet and it would corrupt subsequent ones.
+func (w *Writer) flush() (int, error) {
+	n, err := w.buf.WriteTo(w.W)
+	w.buf.Reset()
+	return int(n), err
+}
+
+func (w *Writer) writeMuxerData(data *astits.MuxerData) error {
+	_, err := w.mux.WriteData(data)
+	_, err2 := w.flush()
+	if err == nil {
+		err = err2
+	}
+	return err
 }
 
 // NewWriter allocates a Writer.
@@ -386,7 +411,7 @@ func (w *Writer) writeVideo(
 		oh.PTS = &astits.ClockReference{Base: pts}
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writeMuxerData(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -397,7 +422,6 @@ func (w *Writer) writeVideo(
 			Data: data,
 		},
 	})
-	return err
 }
 
 func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
@@ -420,7 +444,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 		w.pcrCounter--
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writeMuxerData(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -435,7 +459,6 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 			Data: data,
 		},
 	})
-	return err
 }
 
 func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8, data []byte) error {
@@ -472,7 +495,7 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 		OptionalHeader: oh,
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writeMuxerData(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -480,5 +503,4 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 			Data:   data,
 		},
 	})
-	return err
 }
-- 
2.43.0


From f2331f4d15fced91a122a9569e0611db79568263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 07/47] fix: MPEG-TS reader delivered empty access units when
 they were composed by an access unit delimiter only

---
 pkg/formats/mpegts/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index a583124..aa02238 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -273,6 +273,11 @@ func (r *Reader) OnDataH265(track *Track, cb ReaderOnDataH265Func) {
 
 		if au[0][0] == byte(h265.NALUType_AUD_NUT<<1) {
 			au = au[1:]
+
+			if len(au) == 0 {
+				r.onDecodeError(fmt.Errorf("access unit is empty"))
+				return nil
+			}
 		}
 
 		return cb(pts, dts, au)
@@ -291,6 +296,11 @@ func (r *Reader) OnDataH264(track *Track, cb ReaderOnDataH264Func) {
 
 		if au[0][0] == byte(h264.NALUTypeAccessUnitDelimiter) {
 			au = au[1:]
+
+			if len(au) == 0 {
+				r.onDecodeError(fmt.Errorf("access unit is empty"))
+				return nil
+			}
 		}
 
 		return cb(pts, dts, au)
-- 
2.43.0


From 029d9007c04332819b2b543fe499d86fcb575e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 08/47] fix: MPEG-TS reader delivered MPEG-1 audio units
 without any frame

---
 pkg/formats/mpegts/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index aa02238..307e83a 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -396,6 +396,11 @@ func (r *Reader) OnDataMPEG1Audio(track *Track, cb ReaderOnDataMPEG1AudioFunc) {
 			return nil
 		}
 
+		if len(data) == 0 {
+			r.onDecodeError(fmt.Errorf("access unit is empty"))
+			return nil
+		}
+
 		var frames [][]byte
 
 		for len(data) > 0 {
-- 
2.43.0


From 14dd370818fae1f1e539c53fb7b2883a609477ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 09/47] fix: fMP4 header: report every storage error, leave no
 torn header

Init.Marshal wrote the boxes directly to the storage. The MP4 library drops
some write errors, and box sizes are placeholders until the end of a box, so
that a failed or interrupted call could look successful or could leave a
readable header without some of the tracks. Write the header at once, as
pmp4 does.
---
 pkg/formats/fmp4/init.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index f4b46d7..62803e9 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -8,6 +8,7 @@ import (
 	amp4 "github.com/abema/go-mp4"
 
 	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
+	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
 )
 
 // Init is a fMP4 initialization block.
@@ -201,7 +202,11 @@ func (i Init) Marshal(w io.WriteSeeker) error {
 		|    |    |....|
 	*/
 
-	mw := &imp4.Writer{W: w}
+	// write into a buffer and flush it at once,
+	// in order not to lose storage errors and not to leave an incomplete but valid header on the storage.
+	var outBuf seekablebuffer.Buffer
+
+	mw := &imp4.Writer{W: &outBuf}
 	mw.Initialize()
 
 	_, err := mw.WriteBox(&amp4.Ftyp{ // <ftyp/>
@@ -285,5 +290,6 @@ func (i Init) Marshal(w io.WriteSeeker) error {
 		return err
 	}
 
-	return nil
+	_, err = w.Write(outBuf.Bytes())
+	return err
 }
-- 
2.43.0


From 6afe5a95a832438cd9b46394d74a62822b76f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 10/47] fix: fMP4 part: report every storage error, leave no
 readable torn part

Part.Marshal wrote the boxes directly to the storage and filled in the sample
data offsets last: after an interruption the part was read back without error
with the payload of its samples taken from the wrong place. Moreover the MP4
library drops some write errors. Write the part at once, as pmp4 does.
---
 pkg/formats/fmp4/part.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/formats/fmp4/part.go b/pkg/formats/fmp4/part.go
index 349f262..caff520 100644
--- a/pkg/formats/fmp4/part.go
+++ b/pkg/formats/fmp4/part.go
@@ -6,6 +6,7 @@ import (
 	amp4 "github.com/abema/go-mp4"
 
 	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
+	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
 )
 
 const (
@@ -35,7 +36,11 @@ func (p Part) Marshal(w io.WriteSeeker) error {
 		|mdat|
 	*/
 
-	mw := &imp4.Writer{W: w}
+	// write into a buffer and flush it at once,
+	// in order not to lose storage errors and not to leave an incomplete but valid part on the storage.
+	var outBuf seekablebuffer.Buffer
+
+	mw := &imp4.Writer{W: &outBuf}
 	mw.Initialize()
 
 	moofOffset, err := mw.WriteBoxStart(&amp4.Moof{}) // <moof>
@@ -102,5 +107,6 @@ func (p Part) Marshal(w io.WriteSeeker) error {
 		}
 	}
 
-	return nil
+	_, err = w.Write(outBuf.Bytes())
+	return err
 }
-- 
2.43.0


From c044bc5ae6d012f59efa6b88002b224cc0df5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 11/47] fix: seekablebuffer: honour the position in every
 writing method

WriteString, WriteByte, WriteRune and ReadFrom were promoted from bytes.Buffer:
they appended at the end whatever the position was and did not move it, so that
io.WriteString and io.Copy (which select them) corrupted the content.
---
 .../fmp4/seekablebuffer/seekablebuffer.go     | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go b/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
index e38cc90..02f2790 100644
--- a/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
+++ b/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"unicode/utf8"
 )
 
 // Buffer is a bytes.Buffer with an additional Seek() method.
@@ -32,6 +33,28 @@ func (b *Buffer) Write(p []byte) (int, error) {
 	return n, nil
 }
 
+// WriteString implements io.StringWriter.
+func (b *Buffer) WriteString(s string) (int, error) {
+	return b.Write([]byte(s))
+}
+
+// WriteByte implements io.ByteWriter.
+func (b *Buffer) WriteByte(c byte) error {
+	_, err := b.Write([]byte{c})
+	return err
+}
+
+// WriteRune writes a rune.
+func (b *Buffer) WriteRune(r rune) (int, error) {
+	return b.Write(utf8.AppendRune(nil, r))
+}
+
+// ReadFrom implements io.ReaderFrom.
+func (b *Buffer) ReadFrom(r io.Reader) (int64, error) {
+	// hide ReadFrom from io.Copy.
+	return io.Copy(struct{ io.Writer }{b}, r)
+}
+
 // Read implements io.Reader.
 func (b *Buffer) Read(_ []byte) (int, error) {
 	return 0, fmt.Errorf("unimplemented")
-- 
2.43.0


From 02359773b773041fc9cdd65388ea2632998db2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 12/47] fix: mp4: prevent infinite loops and stack exhaustion
 with hostile boxes

A top-level box with a 64-bit size that overflows moved the reader back and
made fmp4.Init, fmp4.Parts and pmp4.Presentation read the same boxes forever.
Some containers (mdia, minf, stbl, edts, traf) could be nested without limit,
with memory usage that grows with the square of the depth, up to a fatal
stack overflow.
---
 internal/mp4/check_box.go        | 26 ++++++++++++++++++++++++++
 pkg/formats/fmp4/init.go         |  5 +++++
 pkg/formats/fmp4/parts.go        |  7 +++++++
 pkg/formats/pmp4/presentation.go |  5 +++++
 4 files changed, 43 insertions(+)
 create mode 100644 internal/mp4/check_box.go

diff --git a/internal/mp4/check_box.go b/internal/mp4/check_box.go
new file mode 100644
index 0000000..8937a29
--- /dev/null
+++ b/internal/mp4/check_box.go
@@ -0,0 +1,26 @@
+package mp4
+
+import (
+	"fmt"
+
+	amp4 "github.com/abema/go-mp4"
+)
+
+const (
+	maxBoxDepth = 16
+)
+
+// CheckBox checks that a box can be read safely.
+// It prevents infinite loops and stack exhaustion, that would be caused
+// by size overflows and by an unlimited number of nested boxes.
+func CheckBox(h *amp4.ReadHandle) error {
+	if h.BoxInfo.Size < h.BoxInfo.HeaderSize || (h.BoxInfo.Offset+h.BoxInfo.Size) < h.BoxInfo.Offset {
+		return fmt.Errorf("invalid size of box '%v': %d", h.BoxInfo.Type, h.BoxInfo.Size)
+	}
+
+	if len(h.Path) > maxBoxDepth {
+		return fmt.Errorf("too many nested boxes")
+	}
+
+	return nil
+}
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 62803e9..41a8be9 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -38,6 +38,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 	var codecBoxesReader *imp4.CodecBoxesReader
 
 	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBox(h)
+		if err != nil {
+			return nil, err
+		}
+
 		switch state {
 		case readingUserData:
 			if len(h.Path) < 3 {
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index e055ac8..bfe9155 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -6,6 +6,8 @@ import (
 	"io"
 
 	amp4 "github.com/abema/go-mp4"
+
+	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
 )
 
 const (
@@ -34,6 +36,11 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 	var tfhd *amp4.Tfhd
 
 	_, err := amp4.ReadBoxStructure(bytes.NewReader(byts), func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBox(h)
+		if err != nil {
+			return nil, err
+		}
+
 		if h.BoxInfo.IsSupportedType() {
 			switch h.BoxInfo.Type.String() {
 			case "moof":
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index bb7466f..f6b7e56 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -63,6 +63,11 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	var curSampleSizes []uint32
 
 	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBox(h)
+		if err != nil {
+			return nil, err
+		}
+
 		if state == readingCodec {
 			ret, err := codecBoxesReader.Read(h)
 			if err != nil {
-- 
2.43.0


From 6248a2cc00a2ca3344acb1c7fc31b5df4153ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 13/47] fix: fMP4 parts: make the sample count limits effective

The limit on samples of a trun was checked at a wrong position when the box
has a 64-bit size, and could be exceeded. Truns of 20 bytes could declare 19200
samples each, without taking space elsewhere, any number of times. Samples of
a track were copied every time a trun was met.
---
 pkg/formats/fmp4/parts.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index bfe9155..06c3014 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -2,6 +2,7 @@ package fmp4
 
 import (
 	"bytes"
+	"encoding/binary"
 	"fmt"
 	"io"
 
@@ -34,6 +35,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 	var curTrack *PartTrack
 	var tfdt *amp4.Tfdt
 	var tfhd *amp4.Tfhd
+	totalSampleCount := 0
 
 	_, err := amp4.ReadBoxStructure(bytes.NewReader(byts), func(h *amp4.ReadHandle) (any, error) {
 		err := imp4.CheckBox(h)
@@ -119,11 +121,18 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 
 				// prevent RAM exhaustion due to unlimited Trun unmarshaling
 				rawBox := byts[h.BoxInfo.Offset:]
-				if len(rawBox) >= 16 {
-					sampleCount := uint32(rawBox[12])<<24 | uint32(rawBox[13])<<16 | uint32(rawBox[14])<<8 | uint32(rawBox[15])
+				countPos := int(h.BoxInfo.HeaderSize) + 4
+				if len(rawBox) >= (countPos + 4) {
+					sampleCount := binary.BigEndian.Uint32(rawBox[countPos:])
 					if sampleCount > maxSamplesPerTrun {
 						return nil, fmt.Errorf("sample count (%d) exceeds maximum (%d)", sampleCount, maxSamplesPerTrun)
 					}
+
+					// samples can take no space at all inside the Trun, but they have a payload
+					totalSampleCount += int(sampleCount)
+					if totalSampleCount > len(byts) {
+						return nil, fmt.Errorf("sample count (%d) exceeds size (%d)", totalSampleCount, len(byts))
+					}
 				}
 
 				box, _, err := h.ReadPayload()
@@ -138,11 +147,6 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						return nil, fmt.Errorf("unsupported flags")
 					}
 
-					existing := len(curTrack.Samples)
-					tmp := make([]*Sample, existing+len(trun.Entries))
-					copy(tmp, curTrack.Samples)
-					curTrack.Samples = tmp
-
 					pos := uint64(trun.DataOffset) + moofOffset
 					if uint64(len(byts)) < pos {
 						return nil, fmt.Errorf("invalid data_offset / moof_offset")
@@ -150,7 +154,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 
 					ptr := byts[pos:]
 
-					for i, e := range trun.Entries {
+					for _, e := range trun.Entries {
 						s := &Sample{}
 
 						if (trunFlags & trunFlagSampleDurationPresent) != 0 {
@@ -187,7 +191,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						s.Payload = ptr[:size]
 						ptr = ptr[size:]
 
-						curTrack.Samples[existing+i] = s
+						curTrack.Samples = append(curTrack.Samples, s)
 					}
 				}
 
-- 
2.43.0


From c9346395df06812dde6481fa159657b9115f360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 14/47] fix: fMP4 header: refuse truns inside user data

A trun of 20 bytes can declare 2^32 samples without taking space elsewhere,
and was unmarshaled without limits when found inside the user data.
---
 pkg/formats/fmp4/init.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 41a8be9..67c0ebe 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -48,6 +48,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 			if len(h.Path) < 3 {
 				state = waitingTrak
 			} else {
+				// prevent RAM exhaustion due to unlimited Trun unmarshaling
+				if h.BoxInfo.Type == amp4.BoxTypeTrun() {
+					return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
+				}
+
 				box, _, err := h.ReadPayload()
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 4cc5cb83d66886301c2418c75a0640a9faa2d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 15/47] fix: pmp4: report seek errors while retrieving a
 payload

GetPayload checked the wrong variable: after a failed seek it returned, without
error, the bytes at the current position of the file.
---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index f6b7e56..5e505a8 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -367,7 +367,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
 						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
-						if err != nil {
+						if err2 != nil {
 							return nil, err2
 						}
 
-- 
2.43.0


From c1e75d0a2a23a1f90dff4a8e49146ef0bdcbdcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 16/47] fix: pmp4: refuse presentations that exceed 4 GiB
 instead of corrupting them

Chunk offsets and the size of the mdat box are 32-bit: when they overflowed,
Marshal reported success and the samples were read back from other places.
---
 pkg/formats/pmp4/presentation.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 5e505a8..b1eab74 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	amp4 "github.com/abema/go-mp4"
@@ -413,7 +414,7 @@ func (p Presentation) Marshal(w io.Writer) error {
 
 	dataSize, sortedSamples := p.sortSamples()
 
-	err := p.marshalFtypAndMoov(w)
+	err := p.marshalFtypAndMoov(w, dataSize)
 	if err != nil {
 		return err
 	}
@@ -421,7 +422,7 @@ func (p Presentation) Marshal(w io.Writer) error {
 	return p.marshalMdat(w, dataSize, sortedSamples)
 }
 
-func (p *Presentation) sortSamples() (uint32, []*Sample) {
+func (p *Presentation) sortSamples() (uint64, []*Sample) {
 	sampleCount := 0
 	for _, track := range p.Tracks {
 		sampleCount += len(track.Samples)
@@ -429,7 +430,7 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 
 	processedSamples := make([]int, len(p.Tracks))
 	elapsed := make([]int64, len(p.Tracks))
-	offset := uint32(0)
+	offset := uint64(0)
 	sortedSamples := make([]*Sample, sampleCount)
 	pos := 0
 
@@ -457,11 +458,11 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		}
 
 		sample := p.Tracks[bestTrack].Samples[processedSamples[bestTrack]]
-		sample.offset = offset
+		sample.offset = uint32(offset)
 
 		processedSamples[bestTrack]++
 		elapsed[bestTrack] += int64(sample.Duration)
-		offset += sample.PayloadSize
+		offset += uint64(sample.PayloadSize)
 		sortedSamples[pos] = sample
 		pos++
 	}
@@ -469,7 +470,7 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 	return offset, sortedSamples
 }
 
-func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
+func (p *Presentation) marshalFtypAndMoov(w io.Writer, dataSize uint64) error {
 	var outBuf seekablebuffer.Buffer
 	mw := &imp4.Writer{W: &outBuf}
 	mw.Initialize()
@@ -540,6 +541,11 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
 
 	dataOffset := moovEndOffset + 8
 
+	// mdat size and chunk offsets are 32-bit
+	if (uint64(dataOffset) + dataSize) > math.MaxUint32 {
+		return fmt.Errorf("presentation is too big")
+	}
+
 	for i := range p.Tracks {
 		for j := range stcos[i].ChunkOffset {
 			stcos[i].ChunkOffset[j] += uint32(dataOffset)
@@ -555,8 +561,8 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
 	return err
 }
 
-func (p *Presentation) marshalMdat(w io.Writer, dataSize uint32, sortedSamples []*Sample) error {
-	mdatSize := uint32(8) + dataSize
+func (p *Presentation) marshalMdat(w io.Writer, dataSize uint64, sortedSamples []*Sample) error {
+	mdatSize := 8 + dataSize
 
 	_, err := w.Write([]byte{byte(mdatSize >> 24), byte(mdatSize >> 16), byte(mdatSize >> 8), byte(mdatSize)})
 	if err != nil {
-- 
2.43.0


From d7a6505cbe81753cd5042476819d8a703732141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 17/47] fix: pmp4: prevent division by zero when samples per
 chunk are zero

---
 pkg/formats/pmp4/presentation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index b1eab74..5c2d636 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -290,6 +290,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					if i != (len(stsc.Entries) - 1) {
 						chunkCount = stsc.Entries[i+1].FirstChunk - entry.FirstChunk
 					} else {
+						if entry.SamplesPerChunk == 0 {
+							return nil, fmt.Errorf("invalid stsc")
+						}
+
 						remaining := len(curTrack.Samples) - sampleCount
 						if (remaining % int(entry.SamplesPerChunk)) != 0 {
 							return nil, fmt.Errorf("invalid stsc")
-- 
2.43.0


From 1d618a6fcd277b9f1e34fbffdce50ffa0fa328ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 18/47] fix: pmp4: prevent RAM exhaustion while retrieving a
 payload

The declared size of a sample, up to 4 GiB, was reserved before checking that
the file contains it.
---
 pkg/formats/pmp4/presentation.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 5c2d636..706d66d 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -371,7 +371,17 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					curTrack.Samples[i].PayloadSize = sampleSize
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
-						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
+						// prevent RAM exhaustion due to an invalid size
+						fileSize, err2 := r.Seek(0, io.SeekEnd)
+						if err2 != nil {
+							return nil, err2
+						}
+
+						if (int64(sampleOffset) + int64(sampleSize)) > fileSize {
+							return nil, io.ErrUnexpectedEOF
+						}
+
+						_, err2 = r.Seek(int64(sampleOffset), io.SeekStart)
 						if err2 != nil {
 							return nil, err2
 						}
-- 
2.43.0


From 9091098c21cc7deb528699f725c3350f94e185ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 19/47] fix: pmp4: refuse samples without a position

Without a stco box (or with co64, that is not supported), or when chunks do not
cover all samples, samples were returned without GetPayload, and any attempt to
retrieve their payload or to write them caused a panic.
---
 pkg/formats/pmp4/presentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 706d66d..05bed01 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -411,6 +411,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		return fmt.Errorf("no tracks found")
 	}
 
+	for _, track := range p.Tracks {
+		for _, sample := range track.Samples {
+			if sample.GetPayload == nil {
+				return fmt.Errorf("position of samples not provided")
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From d3c62acc779480889b78750ab6124401939524b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 20/47] fix: pmp4: limit the number of samples according to the
 size of the file

A stts entry of 8 bytes can declare millions of samples, for each track, without
a limit on the whole presentation. Sample tables that appear more than once in
a track made reading time grow with the square of the file size.
---
 pkg/formats/pmp4/presentation.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 05bed01..27e4d47 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -62,8 +62,15 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 	var curChunks []*chunk
 	var curSampleSizes []uint32
+	var curTables map[string]struct{}
+	totalSampleCount := int64(0)
 
-	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+	fileSize, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+
+	_, err = amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
 		err := imp4.CheckBox(h)
 		if err != nil {
 			return nil, err
@@ -87,6 +94,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 		}
 
+		switch h.BoxInfo.Type.String() {
+		case "stss", "ctts", "stsc", "stsz", "stco":
+			if _, ok := curTables[h.BoxInfo.Type.String()]; ok || curTables == nil {
+				return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
+			}
+			curTables[h.BoxInfo.Type.String()] = struct{}{}
+		}
+
 		switch h.BoxInfo.Type.String() {
 		case "ftyp":
 			if state != waitingFtyp {
@@ -119,6 +134,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			curTrack = &Track{}
 			curChunks = nil
 			curSampleSizes = nil
+			curTables = make(map[string]struct{})
 			p.Tracks = append(p.Tracks, curTrack)
 			state = waitingTkhd
 			return h.Expand()
@@ -209,6 +225,12 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					return nil, fmt.Errorf("max samples reached")
 				}
 
+				// each sample takes at least 4 bytes in the stsz box
+				totalSampleCount += int64(entry.SampleCount)
+				if (totalSampleCount * 4) > fileSize {
+					return nil, fmt.Errorf("sample count (%d) exceeds file size (%d)", totalSampleCount, fileSize)
+				}
+
 				for range entry.SampleCount {
 					curTrack.Samples = append(curTrack.Samples, &Sample{
 						Duration: entry.SampleDelta,
-- 
2.43.0


From e8b9afc124ff5c6e0ea905697da4c7acf6f8e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 21/47] fix: h264 DTS extractor: take colour_plane_id into
 account

When separate_colour_plane_flag is 1, the slice header contains a 2-bit
colour_plane_id before frame_num. It was not read, therefore the picture
order count was read from the wrong position.
---
 pkg/codecs/h264/dts_extractor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 2d0f288..735209e 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -40,6 +40,13 @@ func getPictureOrderCount(buf []byte, sps *SPS, idr bool) (uint32, error) {
 		return 0, err
 	}
 
+	if sps.SeparateColourPlaneFlag {
+		_, err = bits.ReadBits(buf, &pos, 2) // colour_plane_id
+		if err != nil {
+			return 0, err
+		}
+	}
+
 	_, err = bits.ReadBits(buf, &pos, int(sps.Log2MaxFrameNumMinus4+4)) // frame_num
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 8727c48d4c4d9eb9e1098458bdc6a7782dd1495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 22/47] fix: DTS extractors: do not retain parameters of the
 caller

The SPS and the PPS are compared with the previous ones in order to
detect a change. The previous ones were references to buffers of the
caller; when the caller reused them, changes of parameters were missed.
---
 pkg/codecs/h264/dts_extractor.go | 2 +-
 pkg/codecs/h265/dts_extractor.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 735209e..50171eb 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -130,7 +130,7 @@ outer:
 				if err != nil {
 					return 0, false, fmt.Errorf("invalid SPS: %w", err)
 				}
-				d.sps = nalu
+				d.sps = bytes.Clone(nalu)
 				d.spsp = &spsp
 
 				// reset state
diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index ca52e6c..be70da1 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -170,7 +170,7 @@ outer:
 				}
 
 				d.spsp = &spsp
-				d.sps = nalu
+				d.sps = bytes.Clone(nalu)
 
 				// reset state
 				d.randomReceived = false
@@ -191,7 +191,7 @@ outer:
 				}
 
 				d.ppsp = &ppsp
-				d.pps = nalu
+				d.pps = bytes.Clone(nalu)
 			}
 
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP:
-- 
2.43.0


From f3e6310a34ceeea6ecf51c069969248d682c5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 23/47] fix: h265 DTS extractor: use the reference set of the
 SPS when it is the only one

When the SPS contains a single short-term reference picture set,
short_term_ref_pic_set_idx is not in the slice header and is inferred to
be zero. The difference between PTS and DTS was always zero instead.
---
 pkg/codecs/h265/dts_extractor.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index be70da1..a5858e7 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -86,17 +86,22 @@ func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
 			return 0, err
 		}
 	} else {
-		if len(sps.ShortTermRefPicSets) <= 1 {
+		if len(sps.ShortTermRefPicSets) == 0 {
 			return 0, nil
 		}
 
-		b := int(math.Ceil(math.Log2(float64(len(sps.ShortTermRefPicSets)))))
-		var tmp uint64
-		tmp, err = bits.ReadBits(buf, &pos, b)
-		if err != nil {
-			return 0, err
+		// when there is a single set, the index is not present and is zero
+		shortTermRefPicSetIdx := 0
+
+		if len(sps.ShortTermRefPicSets) > 1 {
+			b := int(math.Ceil(math.Log2(float64(len(sps.ShortTermRefPicSets)))))
+			var tmp uint64
+			tmp, err = bits.ReadBits(buf, &pos, b)
+			if err != nil {
+				return 0, err
+			}
+			shortTermRefPicSetIdx = int(tmp)
 		}
-		shortTermRefPicSetIdx := int(tmp)
 
 		if len(sps.ShortTermRefPicSets) <= shortTermRefPicSetIdx {
 			return 0, fmt.Errorf("invalid short_term_ref_pic_set_idx")
-- 
2.43.0


From 99c2cbfa9f0555c021ecd6da97b0c09d52a3fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 24/47] fix: h264 DTS extractor: recover from a wrong guess of
 the POC increment

When access units are lost, the picture order counts of the ones that are
left may look like the ones of a stream in which the increment is 4. The
guess was never revised: decoding times were wrong, or were not returned at
all, until the SPS changed.
---
 pkg/codecs/h264/dts_extractor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 50171eb..bbd4a9c 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -201,6 +201,13 @@ outer:
 			return 0, false, err
 		}
 
+		if d.pocIncrement == 4 && (poc%4) != 0 {
+			// increment was deduced from non-consecutive access units
+			d.pocIncrement = 2
+			d.expectedPOC /= 2
+			d.auCount = 5
+		}
+
 		if d.auCount < 5 && d.pocIncrement == 2 {
 			if (poc % 2) != 0 {
 				d.pocIncrement = 1
-- 
2.43.0


From 6f1369a3552a41d60e089aa69ed925be1fc0280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 25/47] fix: h265 DTS extractor: read the whole reference
 picture set of the slice header

Slice headers that contain a reference picture set with many pictures did
not fit into the bytes that were taken into consideration, and the DTS
was not returned.
---
 pkg/codecs/h265/dts_extractor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index a5858e7..abe6e92 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -10,7 +10,13 @@ import (
 )
 
 const (
-	maxBytesToGetPOC = 12
+	/*
+		(size(nal_unit_header) + size(slice header until slice_pic_order_cnt_lsb) +
+		max_size(st_ref_pic_set)) * 4 / 3 =
+		(2 + 6 + 16 * (max_size(delta_poc_minus1) + size(used_by_curr_pic_flag)) / 8) * 4 / 3 =
+		(2 + 6 + 16 * 4) * 4 / 3 = 96
+	*/
+	maxBytesToGetPOC = 96
 )
 
 func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
-- 
2.43.0


From ea627a91821a5e897002b22beb158e5aa162ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 26/47] fix: mpegts reader: discard duplicate packets instead
 of losing or repeating the unit they belong to

---
 pkg/formats/mpegts/robust_demuxer.go | 60 +++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index 06c7169..7d989f1 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -1,6 +1,7 @@
 package mpegts
 
 import (
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -12,6 +13,7 @@ import (
 // this is a wrapper around astits.Demuxer with the following differences:
 // - non-fatal errors are not returned, but routed to OnDecodeError.
 // - last PTS is intercepted and returned.
+// - duplicate packets are discarded.
 
 const (
 	packetSize = 188
@@ -60,6 +62,61 @@ func (r *errorWrapper) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// packets can be sent twice (ISO 13818-1, 2.4.3.3), but astits.Demuxer mistakes the second copy
+// for a discontinuity and discards the data the packet belongs to, or returns the same data twice.
+type duplicateFilter struct {
+	R io.Reader
+
+	prev map[uint16][]byte
+}
+
+func (r *duplicateFilter) Read(p []byte) (int, error) {
+	if len(p) != packetSize {
+		return 0, fmt.Errorf("unsupported")
+	}
+
+	for {
+		_, err := io.ReadFull(r.R, p)
+		if err != nil {
+			return 0, err
+		}
+
+		if !r.isDuplicate(p) {
+			return packetSize, nil
+		}
+	}
+}
+
+func (r *duplicateFilter) isDuplicate(p []byte) bool {
+	payloadPos := 4
+	if p[3]&0x20 != 0 {
+		payloadPos += 1 + int(p[4])
+	}
+
+	pid := uint16(p[1]&0x1f)<<8 | uint16(p[2])
+	hasPayload := (p[3]&0x10 != 0)
+	transportError := (p[1]&0x80 != 0)
+
+	if p[0] != syncByte || transportError || !hasPayload || payloadPos >= packetSize || pid == astits.PIDNull {
+		return false
+	}
+
+	// tables can be sent several times by muxers that do not increase the continuity counter.
+	payloadStartIndicator := (p[1]&0x40 != 0)
+	isPES := payloadPos <= (packetSize-3) && isPESPayload(p[payloadPos:])
+
+	// the adaptation field of a copy may contain a different PCR.
+	payload := p[payloadPos:]
+	prev, ok := r.prev[pid]
+	if ok && (!payloadStartIndicator || isPES) &&
+		prev[0] == p[1] && prev[1] == p[3]&0x0f && bytes.Equal(prev[2:], payload) {
+		return true
+	}
+
+	r.prev[pid] = append(append(prev[:0], p[1], p[3]&0x0f), payload...)
+	return false
+}
+
 type ptsInterceptor struct {
 	R io.Reader
 
@@ -139,7 +196,8 @@ func (d *robustDemuxer) initialize() {
 	}
 
 	errorWrapper := &errorWrapper{R: d.R}
-	d.ptsInterceptor = &ptsInterceptor{R: errorWrapper}
+	duplicateFilter := &duplicateFilter{R: errorWrapper, prev: make(map[uint16][]byte)}
+	d.ptsInterceptor = &ptsInterceptor{R: duplicateFilter}
 
 	d.dem = astits.NewDemuxer(
 		context.Background(),
-- 
2.43.0


From b1e90dc44c0ab7deb9e2d194014a7d40fa560dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 27/47] fix: fmp4 init: do not mistake user data of tracks for
 user data of the file

User data of a track (ISO 14496-12, 8.10.1) was refused, or read in place of the user data of the file.
---
 pkg/formats/fmp4/init.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 67c0ebe..c4adc1b 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -97,6 +97,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 			return h.Expand()
 
 		case "udta":
+			// skip user data of tracks
+			if len(h.Path) != 2 {
+				return nil, nil
+			}
+
 			if state != waitingTrak {
 				return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
 			}
-- 
2.43.0


From 4f32b8eaa022d579369c819e4747b6c8e0cdd45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 28/47] fix: fmp4 init: skip unknown boxes inside of user data

An unknown box inside of the user data made the whole header unreadable.
---
 pkg/formats/fmp4/init.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index c4adc1b..d541a69 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -53,6 +53,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 					return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
 				}
 
+				// skip unknown boxes
+				if !h.BoxInfo.IsSupportedType() {
+					return nil, nil
+				}
+
 				box, _, err := h.ReadPayload()
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 5b513eec2c418b7c574968bb61e8518dccaf528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 29/47] fix: fmp4 parts: support flags of the first sample of a
 run

first-sample-flags of the Trun box (ISO 14496-12, 8.8.8) were ignored, and random access samples were reported as non-random access ones.
---
 pkg/formats/fmp4/part.go  | 1 +
 pkg/formats/fmp4/parts.go | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/fmp4/part.go b/pkg/formats/fmp4/part.go
index caff520..ad34cc2 100644
--- a/pkg/formats/fmp4/part.go
+++ b/pkg/formats/fmp4/part.go
@@ -11,6 +11,7 @@ import (
 
 const (
 	trunFlagDataOffsetPreset                       = 0x01
+	trunFlagFirstSampleFlagsPresent                = 0x04
 	trunFlagSampleDurationPresent                  = 0x100
 	trunFlagSampleSizePresent                      = 0x200
 	trunFlagSampleFlagsPresent                     = 0x400
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 06c3014..313ca61 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -154,7 +154,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 
 					ptr := byts[pos:]
 
-					for _, e := range trun.Entries {
+					for i, e := range trun.Entries {
 						s := &Sample{}
 
 						if (trunFlags & trunFlagSampleDurationPresent) != 0 {
@@ -170,9 +170,12 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						}
 
 						var sampleFlags uint32
-						if (trunFlags & trunFlagSampleFlagsPresent) != 0 {
+						switch {
+						case (trunFlags & trunFlagSampleFlagsPresent) != 0:
 							sampleFlags = e.SampleFlags
-						} else {
+						case i == 0 && (trunFlags&trunFlagFirstSampleFlagsPresent) != 0:
+							sampleFlags = trun.FirstSampleFlags
+						default:
 							sampleFlags = tfhd.DefaultSampleFlags
 						}
 						s.IsNonSyncSample = ((sampleFlags & sampleFlagIsNonSyncSample) != 0)
-- 
2.43.0


From fa9092d2d65bdab04e01f352684e194c31146712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 30/47] fix: pmp4: read the duration of tracks with 64-bit
 headers

The duration of version-1 Mdhd boxes was considered zero, and this resulted in a wrong time offset.
---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 27e4d47..8b28ac7 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -190,7 +190,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 
 			curTrack.TimeScale = mdhd.Timescale
-			trackDuration = mdhd.DurationV0
+			trackDuration = uint32(mdhd.GetDuration())
 			state = waitingStsd
 
 		case "minf", "stbl":
-- 
2.43.0


From ac5a303ac6dc9a1233982627a8d2570033826b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 31/47] fix: mpeg4audio: do not keep the configuration of an
 invalid AudioMuxElement

A configuration was put in force even when the element that contained it was refused, and the next element that relied on it caused a nil pointer dereference or wrong payloads.
---
 pkg/codecs/mpeg4audio/audio_mux_element.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/audio_mux_element.go b/pkg/codecs/mpeg4audio/audio_mux_element.go
index 09ab571..1318e35 100644
--- a/pkg/codecs/mpeg4audio/audio_mux_element.go
+++ b/pkg/codecs/mpeg4audio/audio_mux_element.go
@@ -28,6 +28,10 @@ type AudioMuxElement struct {
 func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 	pos := 0
 
+	// save the configuration only once the element has been decoded,
+	// in order not to use an invalid configuration to decode next elements.
+	streamMuxConfig := e.StreamMuxConfig
+
 	if e.MuxConfigPresent {
 		var err error
 		e.UseSameStreamMux, err = bits.ReadFlag(buf, &pos)
@@ -36,8 +40,8 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 		}
 
 		if !e.UseSameStreamMux {
-			e.StreamMuxConfig = &StreamMuxConfig{}
-			err = e.StreamMuxConfig.unmarshalBits(buf, &pos)
+			streamMuxConfig = &StreamMuxConfig{}
+			err = streamMuxConfig.unmarshalBits(buf, &pos)
 			if err != nil {
 				return err
 			}
@@ -46,15 +50,15 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 
 	// we are assuming AudioMuxVersionA = 0
 
-	if e.StreamMuxConfig == nil {
+	if streamMuxConfig == nil {
 		return fmt.Errorf("no StreamMuxConfig available")
 	}
 
-	e.Payloads = make([][][][]byte, e.StreamMuxConfig.NumSubFrames+1)
+	e.Payloads = make([][][][]byte, streamMuxConfig.NumSubFrames+1)
 
-	for i := range e.StreamMuxConfig.NumSubFrames + 1 {
+	for i := range streamMuxConfig.NumSubFrames + 1 {
 		var li payloadLengthInfo
-		li.StreamMuxConfig = e.StreamMuxConfig
+		li.StreamMuxConfig = streamMuxConfig
 		err := li.unmarshalBits(buf, &pos)
 		if err != nil {
 			return err
@@ -68,7 +72,7 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 		e.Payloads[i] = payloadMux.Payloads
 	}
 
-	if e.StreamMuxConfig.OtherDataPresent {
+	if streamMuxConfig.OtherDataPresent {
 		return fmt.Errorf("OtherDataPresent is not supported (yet)")
 	}
 
@@ -81,6 +85,8 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 		return fmt.Errorf("detected unread bytes")
 	}
 
+	e.StreamMuxConfig = streamMuxConfig
+
 	return nil
 }
 
-- 
2.43.0


From a20b689eb073ca75e18da43a379f4d3125cd9398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 32/47] fix: mpegts reader: support metadata cells numbered
 throughout the stream

Sequence numbers of metadata access unit cells are increased throughout the stream (ISO 13818-1, 2.12.4.2), while the reader discarded access units in which they didn't start from zero.
---
 pkg/formats/mpegts/reader.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index 307e83a..4f8484a 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -67,18 +67,14 @@ func findPMT(dem *robustDemuxer) (*astits.PMTData, error) {
 }
 
 func readMetadataAUWrapper(in []byte) ([]byte, error) {
-	expectedSeqNum := 0
-
 	var au substructs.MetadataAUCell
 	n, err := au.Unmarshal(in)
 	if err != nil {
 		return nil, err
 	}
 
-	if int(au.SequenceNumber) != expectedSeqNum {
-		return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
-	}
-	expectedSeqNum++
+	// cells are numbered throughout the stream, not throughout the access unit.
+	expectedSeqNum := au.SequenceNumber + 1
 
 	switch au.CellFragmentIndication {
 	case 0b11:
@@ -103,7 +99,7 @@ func readMetadataAUWrapper(in []byte) ([]byte, error) {
 		}
 		n += n2
 
-		if int(au.SequenceNumber) != expectedSeqNum {
+		if au.SequenceNumber != expectedSeqNum {
 			return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
 		}
 		expectedSeqNum++
-- 
2.43.0


From 0e0c915ccfa04512f33d0f90d866c90a2bae22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 33/47] fix: mpeg4audio: return an error when an ADTS frame
 does not fit into the length field

The length was cut to 13 bits, its excess overwrote the channel configuration, and the stream could not be decoded.
---
 pkg/codecs/mpeg4audio/adts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 4d661a9..988fd7f 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -161,6 +161,11 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 
 		frameLen := len(pkt.AU) + 7
 
+		// frame length takes 13 bits
+		if frameLen > 0x1FFF {
+			return nil, fmt.Errorf("frame length (%d) is too big, maximum is %d", frameLen, 0x1FFF)
+		}
+
 		const fullness = 0x07FF // like ffmpeg does
 
 		buf[pos+0] = 0xFF
-- 
2.43.0


From a5661f03ab921d975fc59b915b06102891873a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 34/47] fix: mpeg4audio: return an error when an
 AudioMuxElement does not fit into the length field

The excess of the length overwrote the sync word, and the stream could not be decoded.
---
 pkg/codecs/mpeg4audio/audio_sync_stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 2adb6f4..61412c2 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -53,6 +53,12 @@ func (s AudioSyncStream) Marshal() ([]byte, error) {
 	for _, el := range s.AudioMuxElements {
 		shiftedSyncWord := 0x2B7 << 5
 		le := len(el)
+
+		// element length takes 13 bits
+		if le > 0x1FFF {
+			return nil, fmt.Errorf("AudioMuxElement length (%d) is too big, maximum is %d", le, 0x1FFF)
+		}
+
 		buf[n] = byte(shiftedSyncWord >> 8)
 		buf[n+1] = byte(shiftedSyncWord) | byte(le>>8)
 		buf[n+2] = byte(le)
-- 
2.43.0


From f64843ffd9ec5933e1c19bd09f862cdf2634fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 35/47] fix: mp4: write tier and profile space of H265 tracks

the tier and the profile space in hvcC were always zero, therefore
High tier streams were declared as Main tier ones.
---
 internal/mp4/codec_boxes.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index eb04178..47d51ce 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -753,6 +753,8 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 
 		_, err = w.WriteBox(&amp4.HvcC{ // <hvcC/>
 			ConfigurationVersion:        1,
+			GeneralProfileSpace:         info.H265SPS.ProfileTierLevel.GeneralProfileSpace,
+			GeneralTierFlag:             info.H265SPS.ProfileTierLevel.GeneralTierFlag != 0,
 			GeneralProfileIdc:           info.H265SPS.ProfileTierLevel.GeneralProfileIdc,
 			GeneralProfileCompatibility: info.H265SPS.ProfileTierLevel.GeneralProfileCompatibilityFlag,
 			GeneralConstraintIndicator: [6]uint8{
-- 
2.43.0


From 07f1c4f1217f686417a1e8ab9f84e1e84a8e3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 36/47] fix: pmp4: support durations that do not fit into 32
 bits

the duration of a track was computed modulo 2^32 and durations were
always written into 32-bit fields, therefore tracks longer than 13 hours
(at 90 kHz) had a wrong duration and were cut by their edit list.
---
 pkg/formats/pmp4/presentation.go |  31 +++++---
 pkg/formats/pmp4/track.go        | 127 +++++++++++++++++++++----------
 2 files changed, 105 insertions(+), 53 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 8b28ac7..0c3c332 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -538,14 +538,30 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer, dataSize uint64) error {
 		return err
 	}
 
-	mvhd := &amp4.Mvhd{ // <mvhd/>
+	duration := uint64(0)
+	mvhdVersion := uint8(0)
+
+	for _, track := range p.Tracks {
+		duration = max(duration, track.presentationDuration())
+	}
+
+	// durations that do not fit into 32 bits require version 1
+	if duration > math.MaxUint32 {
+		mvhdVersion = 1
+	}
+
+	_, err = mw.WriteBox(&amp4.Mvhd{ // <mvhd/>
+		FullBox: amp4.FullBox{
+			Version: mvhdVersion,
+		},
 		Timescale:   globalTimescale,
+		DurationV0:  uint32(duration),
+		DurationV1:  duration,
 		Rate:        65536,
 		Volume:      256,
 		Matrix:      [9]int32{0x00010000, 0, 0, 0, 0x00010000, 0, 0, 0, 0x40000000},
 		NextTrackID: uint32(len(p.Tracks) + 1),
-	}
-	mvhdOffset, err := mw.WriteBox(mvhd)
+	})
 	if err != nil {
 		return err
 	}
@@ -562,15 +578,6 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer, dataSize uint64) error {
 
 		stcos[i] = res.stco
 		stcosOffsets[i] = res.stcoOffset
-
-		if res.presentationDuration > mvhd.DurationV0 {
-			mvhd.DurationV0 = res.presentationDuration
-		}
-	}
-
-	err = mw.RewriteBox(mvhdOffset, mvhd)
-	if err != nil {
-		return err
 	}
 
 	err = mw.WriteBoxEnd() // </moov>
diff --git a/pkg/formats/pmp4/track.go b/pkg/formats/pmp4/track.go
index 23d37fb..e23612f 100644
--- a/pkg/formats/pmp4/track.go
+++ b/pkg/formats/pmp4/track.go
@@ -1,6 +1,8 @@
 package pmp4
 
 import (
+	"math"
+
 	amp4 "github.com/abema/go-mp4"
 
 	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
@@ -22,9 +24,8 @@ func allSamplesAreSync(samples []*Sample) bool {
 }
 
 type headerTrackMarshalResult struct {
-	stco                 *amp4.Stco
-	stcoOffset           int
-	presentationDuration uint32
+	stco       *amp4.Stco
+	stcoOffset int
 }
 
 // Track is a track of a Presentation.
@@ -36,6 +37,22 @@ type Track struct {
 	Samples    []*Sample
 }
 
+func (t *Track) sampleDuration() uint64 {
+	ret := uint64(0)
+	for _, sa := range t.Samples {
+		ret += uint64(sa.Duration)
+	}
+	return ret
+}
+
+func (t *Track) presentationDuration() uint64 {
+	v := ((int64(t.sampleDuration()) + int64(t.TimeOffset)) * globalTimescale) / int64(t.TimeScale)
+	if v < 0 {
+		return 0
+	}
+	return uint64(v)
+}
+
 func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 	/*
 		|trak|
@@ -74,20 +91,30 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 		return nil, err
 	}
 
-	sampleDuration := uint32(0)
-	for _, sa := range t.Samples {
-		sampleDuration += sa.Duration
+	sampleDuration := t.sampleDuration()
+
+	// durations that do not fit into 32 bits require version 1
+	tkhdVersion := uint8(0)
+	presentationDuration := t.presentationDuration()
+	if presentationDuration > math.MaxUint32 {
+		tkhdVersion = 1
 	}
 
-	presentationDuration := uint32(((int64(sampleDuration) + int64(t.TimeOffset)) * globalTimescale) / int64(t.TimeScale))
+	mdhdVersion := uint8(0)
+	mediaDuration := int64(sampleDuration) + int64(t.TimeOffset)
+	if mediaDuration > math.MaxUint32 {
+		mdhdVersion = 1
+	}
 
 	if t.Codec.IsVideo() {
 		_, err = w.WriteBox(&amp4.Tkhd{ // <tkhd/>
 			FullBox: amp4.FullBox{
-				Flags: [3]byte{0, 0, 3},
+				Version: tkhdVersion,
+				Flags:   [3]byte{0, 0, 3},
 			},
 			TrackID:    uint32(t.ID),
-			DurationV0: presentationDuration,
+			DurationV0: uint32(presentationDuration),
+			DurationV1: presentationDuration,
 			Width:      uint32(info.Width * 65536),
 			Height:     uint32(info.Height * 65536),
 			Matrix:     [9]int32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000},
@@ -98,10 +125,12 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 	} else {
 		_, err = w.WriteBox(&amp4.Tkhd{ // <tkhd/>
 			FullBox: amp4.FullBox{
-				Flags: [3]byte{0, 0, 3},
+				Version: tkhdVersion,
+				Flags:   [3]byte{0, 0, 3},
 			},
 			TrackID:        uint32(t.ID),
-			DurationV0:     presentationDuration,
+			DurationV0:     uint32(presentationDuration),
+			DurationV1:     presentationDuration,
 			AlternateGroup: 1,
 			Volume:         256,
 			Matrix:         [9]int32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000},
@@ -132,8 +161,12 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 	}
 
 	_, err = w.WriteBox(&amp4.Mdhd{ // <mdhd/>
+		FullBox: amp4.FullBox{
+			Version: mdhdVersion,
+		},
 		Timescale:  t.TimeScale,
-		DurationV0: uint32(int64(sampleDuration) + int64(t.TimeOffset)),
+		DurationV0: uint32(mediaDuration),
+		DurationV1: uint64(mediaDuration),
 		Language:   [3]byte{'u', 'n', 'd'},
 	})
 	if err != nil {
@@ -302,43 +335,55 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 	}
 
 	return &headerTrackMarshalResult{
-		stco:                 stco,
-		stcoOffset:           stcoOffset,
-		presentationDuration: presentationDuration,
+		stco:       stco,
+		stcoOffset: stcoOffset,
 	}, nil
 }
 
-func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint32) error {
+func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint64) error {
+	var entries []amp4.ElstEntry
+
 	if t.TimeOffset > 0 {
-		_, err := w.WriteBox(&amp4.Elst{
-			EntryCount: 2,
-			Entries: []amp4.ElstEntry{
-				{ // pause
-					SegmentDurationV0: uint32((uint64(t.TimeOffset) * globalTimescale) / uint64(t.TimeScale)),
-					MediaTimeV0:       -1,
-					MediaRateInteger:  1,
-					MediaRateFraction: 0,
-				},
-				{ // presentation
-					SegmentDurationV0: uint32((uint64(sampleDuration) * globalTimescale) / uint64(t.TimeScale)),
-					MediaTimeV0:       0,
-					MediaRateInteger:  1,
-					MediaRateFraction: 0,
-				},
+		entries = []amp4.ElstEntry{
+			{ // pause
+				SegmentDurationV1: (uint64(t.TimeOffset) * globalTimescale) / uint64(t.TimeScale),
+				MediaTimeV1:       -1,
+				MediaRateInteger:  1,
+				MediaRateFraction: 0,
 			},
-		})
-		return err
+			{ // presentation
+				SegmentDurationV1: (sampleDuration * globalTimescale) / uint64(t.TimeScale),
+				MediaTimeV1:       0,
+				MediaRateInteger:  1,
+				MediaRateFraction: 0,
+			},
+		}
+	} else {
+		entries = []amp4.ElstEntry{{
+			SegmentDurationV1: ((sampleDuration +
+				uint64(-int64(t.TimeOffset))) * globalTimescale) / uint64(t.TimeScale),
+			MediaTimeV1:       -int64(t.TimeOffset),
+			MediaRateInteger:  1,
+			MediaRateFraction: 0,
+		}}
+	}
+
+	// durations and times that do not fit into 32 bits require version 1
+	version := uint8(0)
+	for i := range entries {
+		if entries[i].SegmentDurationV1 > math.MaxUint32 || entries[i].MediaTimeV1 > math.MaxInt32 {
+			version = 1
+		}
+		entries[i].SegmentDurationV0 = uint32(entries[i].SegmentDurationV1)
+		entries[i].MediaTimeV0 = int32(entries[i].MediaTimeV1)
 	}
 
 	_, err := w.WriteBox(&amp4.Elst{
-		EntryCount: 1,
-		Entries: []amp4.ElstEntry{{
-			SegmentDurationV0: uint32(((uint64(sampleDuration) +
-				uint64(-t.TimeOffset)) * globalTimescale) / uint64(t.TimeScale)),
-			MediaTimeV0:       -t.TimeOffset,
-			MediaRateInteger:  1,
-			MediaRateFraction: 0,
-		}},
+		FullBox: amp4.FullBox{
+			Version: version,
+		},
+		EntryCount: uint32(len(entries)),
+		Entries:    entries,
 	})
 	return err
 }
-- 
2.43.0


From 1280f8bb89d007e168df0880344d0c76d602eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 37/47] fix: h264: take cropping into account in the width of
 monochrome streams

CropUnitX is 1, not 0, when ChromaArrayType is 0 (ITU-T H.264, 7.4.2.1.1).
---
 pkg/codecs/h264/sps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 616c25e..4384947 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -740,7 +740,7 @@ func (s SPS) Width() int {
 
 	var cropUnitX uint32
 	if chromaArrayType == 0 {
-		cropUnitX = 0
+		cropUnitX = 1
 	} else {
 		cropUnitX = subWidthC
 	}
-- 
2.43.0


From 5af287841fd0d930c85781aa7b2870ed8a8437d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 38/47] fix: mp4: return an error when the configuration of a
 MPEG-4 audio track cannot be written

---
 internal/mp4/codec_boxes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index 47d51ce..5e0d5c0 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -1117,7 +1117,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			return err
 		}
 
-		enc, _ := codec.Config.Marshal()
+		enc, err := codec.Config.Marshal()
+		if err != nil {
+			return err
+		}
 
 		_, err = w.WriteBox(&amp4.Esds{ // <esds/>
 			Descriptors: []amp4.Descriptor{
-- 
2.43.0


From 9336a277efe9571fe4284e3b7af58e7c40e22a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 39/47] fix: mpeg4audio: refuse to encode LATM elements that
 are not supported

AudioMuxElement.Marshal() panicked when the frame length type of a layer
was not supported and the configuration was in band, and wrote an invalid
element when the configuration declared other data.
---
 pkg/codecs/mpeg4audio/audio_mux_element.go | 27 +++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/audio_mux_element.go b/pkg/codecs/mpeg4audio/audio_mux_element.go
index 1318e35..d74fddb 100644
--- a/pkg/codecs/mpeg4audio/audio_mux_element.go
+++ b/pkg/codecs/mpeg4audio/audio_mux_element.go
@@ -90,7 +90,11 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 	return nil
 }
 
-func (e AudioMuxElement) marshalSize() int {
+func (e AudioMuxElement) marshalSize() (int, error) {
+	if e.StreamMuxConfig.OtherDataPresent {
+		return 0, fmt.Errorf("OtherDataPresent is not supported (yet)")
+	}
+
 	n := 0
 
 	if e.MuxConfigPresent {
@@ -112,7 +116,7 @@ func (e AudioMuxElement) marshalSize() int {
 			for lay := range p.Layers {
 				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
-					return 0
+					return 0, err
 				}
 			}
 		}
@@ -121,26 +125,29 @@ func (e AudioMuxElement) marshalSize() int {
 		n += payloadMux{Payloads: e.Payloads[i]}.marshalSizeBits()
 	}
 
-	// we are assuming OtherDataPresent=false
-
 	n2 := n / 8
 	if n%8 != 0 {
 		n2++
 	}
 
-	return n2
+	return n2, nil
 }
 
 // Marshal encodes an AudioMuxElement.
 func (e AudioMuxElement) Marshal() ([]byte, error) {
-	buf := make([]byte, e.marshalSize())
+	size, err := e.marshalSize()
+	if err != nil {
+		return nil, err
+	}
+
+	buf := make([]byte, size)
 	pos := 0
 
 	if e.MuxConfigPresent {
 		bits.WriteFlagUnsafe(buf, &pos, e.UseSameStreamMux)
 
 		if !e.UseSameStreamMux {
-			err := e.StreamMuxConfig.marshalToBits(buf, &pos)
+			err = e.StreamMuxConfig.marshalToBits(buf, &pos)
 			if err != nil {
 				return nil, err
 			}
@@ -157,14 +164,14 @@ func (e AudioMuxElement) Marshal() ([]byte, error) {
 			li.Programs[prog].Layers = make([]payloadLengthInfoLayer, len(p.Layers))
 
 			for lay := range p.Layers {
-				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
+				err = li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
 					return nil, err
 				}
 			}
 		}
 
-		err := li.marshalToBits(buf, &pos)
+		err = li.marshalToBits(buf, &pos)
 		if err != nil {
 			return nil, err
 		}
@@ -172,7 +179,5 @@ func (e AudioMuxElement) Marshal() ([]byte, error) {
 		payloadMux{Payloads: e.Payloads[i]}.marshalToBits(buf, &pos)
 	}
 
-	// we are assuming OtherDataPresent=false
-
 	return buf, nil
 }
-- 
2.43.0


From ca33433dc71ea92814e5811cc20c35f8038190bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 40/47] fix: mpeg1audio: return the right length of MPEG-2
 layer 3 frames

They contain 576 samples, not 1152.
---
 pkg/codecs/mpeg1audio/frame_header.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg1audio/frame_header.go b/pkg/codecs/mpeg1audio/frame_header.go
index 5e4c7a1..7e503f1 100644
--- a/pkg/codecs/mpeg1audio/frame_header.go
+++ b/pkg/codecs/mpeg1audio/frame_header.go
@@ -183,10 +183,11 @@ func (h *FrameHeader) Unmarshal(buf []byte) error {
 
 // FrameLen returns the length of the frame associated with the header.
 func (h FrameHeader) FrameLen() int {
+	l := (h.SampleCount() / 8) * h.Bitrate / h.SampleRate
 	if h.Padding {
-		return (144 * h.Bitrate / h.SampleRate) + 1
+		l++
 	}
-	return (144 * h.Bitrate / h.SampleRate)
+	return l
 }
 
 // SampleCount returns the number of samples contained into the frame.
-- 
2.43.0


From e3440b0a5787e8633d55d71a3bc7931ad0959f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 41/47] fix: vp9: frames that show an existing frame cannot be
 randomly accessed

---
 pkg/codecs/vp9/is_random_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/vp9/is_random_access.go b/pkg/codecs/vp9/is_random_access.go
index f8dfd3c..7208c0a 100644
--- a/pkg/codecs/vp9/is_random_access.go
+++ b/pkg/codecs/vp9/is_random_access.go
@@ -7,5 +7,5 @@ func IsRandomAccess(frame []byte) bool {
 	if err != nil {
 		return false
 	}
-	return !h.NonKeyFrame
+	return !h.ShowExistingFrame && !h.NonKeyFrame
 }
-- 
2.43.0


From 4b7d19a4aaab0c4c6722f5b1fbe2d0f0e862c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 42/47] fix: h265: compute DTS of streams with several temporal
 sub-layers

when several sub-layers are present, the reordering depth of the highest one
was ignored and every reordered frame was refused with a 'negative pts-dts
difference' error.
---
 pkg/codecs/h265/dts_extractor.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index abe6e92..ff50c4e 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -185,11 +185,7 @@ outer:
 
 				// reset state
 				d.randomReceived = false
-				if len(d.spsp.MaxNumReorderPics) == 1 {
-					d.reorderedFrames = int(d.spsp.MaxNumReorderPics[0])
-				} else {
-					d.reorderedFrames = 0
-				}
+				d.reorderedFrames = int(d.spsp.MaxNumReorderPics[d.spsp.MaxSubLayersMinus1])
 				d.pause = d.reorderedFrames
 			}
 
-- 
2.43.0


From c1f55776e70798ad54cae412037bf13e3c6afebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 43/47] fix: mpeg4video: do not panic when a configuration ends
 with a start code prefix

---
 pkg/codecs/mpeg4video/is_valid_config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/codecs/mpeg4video/is_valid_config.go b/pkg/codecs/mpeg4video/is_valid_config.go
index 556e245..dfdb1c3 100644
--- a/pkg/codecs/mpeg4video/is_valid_config.go
+++ b/pkg/codecs/mpeg4video/is_valid_config.go
@@ -24,6 +24,11 @@ func IsValidConfig(config []byte) error {
 		}
 
 		pos += i
+
+		if pos+4 > len(config) {
+			return fmt.Errorf("start code is truncated")
+		}
+
 		startCode := StartCode(config[pos+3])
 
 		switch {
-- 
2.43.0


From f95a4460b71d29456bc7db5ec3eceb22c687ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 44/47] fix: av1: read separate_uv_delta_q before
 film_grain_params_present

---
 pkg/codecs/av1/sequence_header.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index 54129f2..e859afb 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -184,6 +184,13 @@ func (c *SequenceHeader_ColorConfig) unmarshal(seqProfile uint8, buf []byte, pos
 		}
 	}
 
+	if !c.MonoChrome {
+		_, err = bits.ReadFlag(buf, pos) // separate_uv_delta_q
+		if err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1655754d4137d42313a656a867297e9d9680057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 45/47] fix: bits: read large signed exponential-golomb values
 correctly

---
 pkg/bits/read.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e6bf762..bb04132 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -96,11 +96,10 @@ func ReadGolombSigned(buf []byte, pos *int) (int32, error) {
 		return 0, err
 	}
 
-	vi := int32(v)
-	if (vi & 0x01) != 0 {
-		return (vi + 1) / 2, nil
+	if (v & 0x01) != 0 {
+		return int32(v/2 + 1), nil
 	}
-	return -vi / 2, nil
+	return -int32(v / 2), nil
 }
 
 // ReadFlag reads a boolean flag.
-- 
2.43.0


From 6ae493c2fe4e3f3cf6324cba38abc3e04add7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 46/47] fix: bits: do not read past the end of the buffer when
 no bits are requested

---
 pkg/bits/read.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index bb04132..4b6c4a9 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -25,6 +25,11 @@ func ReadBits(buf []byte, pos *int, n int) (uint64, error) {
 
 // ReadBitsUnsafe reads N bits.
 func ReadBitsUnsafe(buf []byte, pos *int, n int) uint64 {
+	// do not access the buffer, that might have been read entirely
+	if n == 0 {
+		return 0
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		v := uint64((buf[*pos>>0x03] >> (res - n)) & (1<<n - 1))
-- 
2.43.0


From 8eb99647e472b75b073623a24f58f9e1350a373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:40 +0000
Subject: [PATCH 47/47] fix: mpegts: do not assign to a track the PID of
 another one

---
 pkg/formats/mpegts/writer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index c8968b3..d079c02 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -75,6 +75,9 @@ func (w *Writer) Initialize() error {
 		track.isLeading = false
 
 		if track.PID == 0 {
+			for w.isPIDUsed(w.nextPID) {
+				w.nextPID++
+			}
 			track.PID = w.nextPID
 			w.nextPID++
 		}
@@ -97,6 +100,15 @@ func (w *Writer) Initialize() error {
 	return nil
 }
 
+func (w *Writer) isPIDUsed(pid uint16) bool {
+	for _, track := range w.Tracks {
+		if track.PID == pid {
+			return true
+		}
+	}
+	return false
+}
+
 // WriteTables explicitly writes PAT and PMT tables to the output.
 // This is useful for cases where PAT/PMT need to be captured before any
 // media data is written (e.g., to send to late-joining MPEG-TS clients).
-- 
2.43.0

