#!/usr/bin/env python3
# Single source of properties.jsonl and MANIFEST.json.
#   python3 tools/props.py          (run in /verif)
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, level="exploration", note="", observe=None, na=None, hook=None):
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, observe=observe, na=na, hook=hook))

TS = "pkg/formats/mpegts/"
FM = "pkg/formats/fmp4/"
PM = "pkg/formats/pmp4/"

SIM = "seeded search, so it samples an unbounded space: no exhaustiveness is claimed. Trusted: the reference model and parsers in /verif/sim, the Go compiler, and the statement-level instrumentation of the build overlay. "

# ---------------------------------------------------------------- MPEG-TS
prop("T01", "MPEG-TS write-transport-read delivers every unit exactly once",
     "Whatever tracks are declared and whatever units are written to a MPEG-TS stream, reading the stream back reports the same tracks (order, PID, language, codec and codec parameters, video or not) and delivers every written unit exactly once per track, in order, with identical payload and with its timestamps modulo 2^33, and no decode error, however the bytes are split by the transport. "
     "An asynchronous KLV unit carries the most recent timestamp of the stream and is left out only if there is none yet. A unit that does not fit in the length fields of its format is refused with an error and leaves no trace in the stream.",
     ["inputs", "histories", "schedules", "configurations"],
     "every set of 1-5 tracks over all 12 codecs, every unit history (payload textures, packet-boundary sizes, 33-bit wrap, clock jumps, B-frame reordering), every segmentation of the byte stream",
     "The unit tests write and read fixed samples of one or two units per codec, in one read; interleavings of tracks, sizes around packet and PES limits, detection order, wraps and segmentations are not reached.",
     [TS+"writer.go", TS+"reader.go", TS+"track.go", TS+"robust_demuxer.go", TS+"pre_demuxer.go", TS+"codecs", TS+"substructs",
      "pkg/codecs/h264/annexb.go", "pkg/codecs/mpeg4audio/adts.go", "pkg/codecs/mpeg4audio/audio_sync_stream.go"],
     [{"name": "per-codec packetisation and tables", "where": TS+"writer.go"}, {"name": "track detection and rewind", "where": TS+"reader.go Initialize"},
      {"name": "per-codec depacketisation", "where": TS+"reader.go OnData*"}],
     observe=["Reader.Tracks", "OnData* callbacks", "OnDecodeError callback"],
     note="Real muxer, demuxer and dependencies between a simulated sink and a simulated source. ")

prop("T02", "MPEG-TS reading does not depend on how the transport segments the bytes",
     "For any byte stream, intact or damaged, the tracks found, the units delivered, the decode errors reported and the final error are the same whether the source returns everything at once, single bytes, datagrams, random pieces, empty reads, or the last data together with the end.",
     ["schedules", "inputs", "fault_sequences"],
     "every byte stream (valid, or damaged by bit flips, losses, duplications, garbage) under every sequence of read sizes",
     "Tests always read from a bytes.Reader, which is one schedule of one source.",
     [TS+"reader.go", TS+"pre_demuxer.go", TS+"robust_demuxer.go", "pkg/rewindablereader/reader.go"],
     [{"name": "re-assembly of 188-byte packets from partial reads", "where": TS+"pre_demuxer.go"}, {"name": "rewind over partially consumed chunks", "where": "pkg/rewindablereader/reader.go"}],
     note="Metamorphic: the same bytes are read under two simulated transports and the whole histories are compared. ")

prop("T03", "MPEG-TS reader surfaces I/O and callback errors and keeps what preceded them",
     "When the source of a MPEG-TS reader fails or ends at any byte, the reader reports that very error (never success, never a hang), reports a failure again if called again, and everything that was completely received before is delivered unaltered. "
     "An error returned by an application callback is returned by the read in progress, and reading can go on afterwards without losing or repeating units.",
     ["fault_sequences", "crash_points"],
     "every fault position in the stream, every error a source can return (wrapped EOF included), every failing callback",
     "Tests have no failing source at all: position and identity of the error are never exercised.",
     [TS+"reader.go", TS+"pre_demuxer.go", TS+"robust_demuxer.go"],
     [{"name": "errorWrapper / Read", "where": TS+"reader.go"}, {"name": "error propagation", "where": TS+"pre_demuxer.go"}],
     level="fault_enumeration",
     note="Fault position, error identity and callback index are drawn; a run without a fired fault is not counted. ")

prop("T04", "MPEG-TS link damage is confined to the units it hits",
     "When a link loses, damages, duplicates or reorders packets or inserts garbage between them, the reader keeps going until the end of the stream: it delivers, in order, every unit of every track whose packets all survived and were not adjacent to damage, and never delivers something that is neither a written unit nor attributable to a damaged one. "
     "Damage on one track does not affect the units of the others.",
     ["fault_sequences", "histories", "inputs"],
     "every sequence of packet losses, corruptions of payload or sync, transport-error marks, duplications, reorderings and garbage bursts",
     "Tests have one fixed sample with a corrupted packet; the effect of a fault on neighbouring units and other tracks depends on where it falls.",
     [TS+"robust_demuxer.go", TS+"pre_demuxer.go", TS+"reader.go"],
     [{"name": "resynchronisation on the sync byte", "where": TS+"pre_demuxer.go"}, {"name": "recovery from demuxer errors", "where": TS+"robust_demuxer.go"}],
     level="fault_enumeration",
     note="An independent packet parser computes which units survive a drawn fault sequence; ambiguous cases (sync-byte look-alikes after garbage, aliasing of continuity counters) are excluded from the must-deliver set. ")

prop("T05", "A MPEG-TS reader that joins late recovers at the next tables",
     "A reader that starts at an arbitrary byte of a live stream, or after arbitrary leading garbage, opens the stream at the first tables it meets, finds the same tracks, and from then on delivers every complete unit exactly once with its timestamps.",
     ["crash_points", "inputs", "histories"],
     "every join position (aligned or not), every leading garbage, every history of repeated tables",
     "Tests read every sample from its first byte.",
     [TS+"reader.go", TS+"pre_demuxer.go", TS+"writer.go"],
     [{"name": "periodic tables", "where": TS+"writer.go"}, {"name": "sync search", "where": TS+"pre_demuxer.go"}],
     note="Join position and garbage are drawn; the oracle is the suffix of the written history computed with an independent packet parser. ")

prop("T06", "MPEG-TS timestamps unwrap to the written ones over any history",
     "Decoding the timestamps received from a stream with a shared time decoder yields, for every unit, a value whose distance from the first one equals the written distance, across any number of 33-bit wraps, reorderings between presentation and decoding times, losses and jumps, provided that consecutive timestamps differ by less than 2^32 in either direction.",
     ["histories", "fault_sequences"],
     "every history of forward and backward steps smaller than 2^32 ticks, any number of wraps, with units lost on the way",
     "Tests check one wrap in each direction with hand-picked values.",
     [TS+"time_decoder.go", TS+"reader.go", TS+"writer.go"],
     [{"name": "TimeDecoder.Decode", "where": TS+"time_decoder.go"}],
     note="64-bit reference clock; simulated streams span up to many wraps (26.5 h each). ")

prop("T07", "Hostile MPEG-TS input cannot crash, hang or exhaust the reader",
     "Whatever bytes are received, in whatever pieces, opening and reading a MPEG-TS stream never panics, ends within a number of steps proportional to the amount of data, and allocates an amount of memory proportional to the amount of data; what it delivers has at least one element and can be handed to a writer. "
     "Structure-aware damage of tables, descriptors, PES headers, adaptation fields and codec payloads is included.",
     ["inputs", "fault_sequences"],
     "every byte stream derived from valid streams by structural or random corruption",
     "Fuzz seeds in the tests cover single calls with few mutations; whole-stream histories under corruption are not explored.",
     [TS+"reader.go", TS+"track.go", TS+"robust_demuxer.go", TS+"substructs"],
     [{"name": "bounds checks of parsers", "where": TS+"substructs, "+TS+"track.go"}],
     note="Step counts are deterministic (statement counter inside the library and go-astits), so a livelock is a reproducible event. ")

prop("T08", "The MPEG-TS writer always emits a conformant stream",
     "At any point of any write history, the bytes emitted are whole 188-byte packets with sync byte, continuity counters that advance by one per payload packet of a PID, program tables before the first unit, before each random access point of the leading track and again at bounded intervals, and clock references that are only on the announced PID, recur at least every few units and precede the decoding time of their unit by a second at most. "
     "Tables announce each declared track with its PID, stream type and descriptors, and every unit starts with a PES header that carries exactly its timestamps modulo 2^33.",
     ["histories", "inputs", "configurations"],
     "every set of tracks and every history of writes",
     "Tests compare the packets of a few fixed writes; the 16-step counter cycle, table cadence and clock cadence need long mixed histories.",
     [TS+"writer.go", TS+"track.go"],
     [{"name": "Writer.writeVideo / writeAudio / writeData / WriteTables", "where": TS+"writer.go"}],
     note="Checked by an independent parser written from ISO 13818-1, not by the library's own reader. ")

prop("T09", "MPEG-TS sink failures surface and do not corrupt later units",
     "When the sink of a MPEG-TS writer fails, the write in progress reports that error and no write reports success unless all its bytes were accepted. "
     "Once the sink works again, every later unit that the writer accepts is emitted as whole packets and is delivered intact to a reader of the resulting stream.",
     ["fault_sequences"],
     "every failing sink call (error, short write, full disk) in every write history",
     "Tests have no failing sink.",
     [TS+"writer.go"],
     [{"name": "error propagation of the muxer", "where": TS+"writer.go"}],
     level="fault_enumeration",
     note="Failing call index and kind are drawn. ")

prop("T10", "Rewinding and buffering readers are transparent to the stream",
     "A rewindable reader returns exactly the bytes and errors of its source, and after a rewind exactly the bytes already read followed by the rest, for any sequence of read sizes, rewinds and source faults; when asked to record more than it can hold (1 MiB), it reports an error instead of returning wrong bytes. "
     "The buffered reader for packet sources yields exactly the bytes of the received datagrams in order, and surfaces source errors without losing data.",
     ["histories", "schedules", "fault_sequences"],
     "every history of reads, rewinds and source behaviours (short reads, empty reads, data with an error)",
     "Tests perform one read and one rewind.",
     ["pkg/rewindablereader/reader.go", TS+"buffered_reader.go"],
     [{"name": "Reader.Read / Rewind", "where": "pkg/rewindablereader/reader.go"}, {"name": "BufferedReader.Read", "where": TS+"buffered_reader.go"}],
     note="Refinement against a 20-line model. ")

prop("T11", "Any conforming MPEG-TS multiplex is read as it was sent",
     "Whatever multiplexer produced it, a stream that conforms to ISO 13818-1 and whose codecs are supported is read like one made by the library's own writer: same tracks (PID, language, codec, codec parameters; streams of unsupported types are reported as such and do no harm) and every unit of every track exactly once, in order, with identical payload and timestamps. "
     "In particular this holds for packets of several tracks interleaved in any order, stuffing and adaptation fields anywhere, payload-less packets, packets sent twice, null packets, tables that span several packets, come late or are repeated at any point, additional programs, descriptors and PES header fields, bounded and unbounded PES lengths, and for every admissible framing of the units (start code lengths, access unit delimiters, Opus control fields, fragmented metadata).",
     ["schedules", "inputs", "configurations", "histories"],
     "every interleaving of the packets of 1-5 supported and 0-2 unsupported streams, tables and null packets; every choice of optional fields, stuffing and framing by the sender; every segmentation of the transport",
     "The unit tests read streams written by the library itself, whose writer never interleaves tracks, never stuffs in the middle of a unit and uses one framing per codec.",
     [TS+"reader.go", TS+"track.go", TS+"robust_demuxer.go", TS+"pre_demuxer.go", TS+"substructs", "pkg/codecs/h264/annexb.go", "pkg/codecs/mpeg4audio/adts.go", "pkg/codecs/mpeg4audio/audio_sync_stream.go"],
     [{"name": "demultiplexing by PID", "where": TS+"reader.go Read"}, {"name": "track detection from descriptors", "where": TS+"track.go"}, {"name": "fragmented metadata", "where": TS+"reader.go readMetadataAUWrapper"},
      {"name": "duplicate packets, last timestamp", "where": TS+"robust_demuxer.go"}],
     observe=["Reader.Tracks", "OnData* callbacks"],
     note="The sender is a simulated node written from the standards, whose packet scheduler decides every interleaving. ")

# ---------------------------------------------------------------- fMP4
prop("F01", "Fragmented MP4: what is recorded is what is played back",
     "For any tracks, codec configurations and sequence of parts, a recording written to a file and read back (from any mixture of concatenated or separate parts) yields the same tracks, time scales and codec parameters, and for every part the same sequence number, tracks, base times and samples, with identical payload, duration, presentation offset and sync flag. "
     "Writing the same content always gives the same bytes and leaves the caller's values unchanged.",
     ["inputs", "histories", "configurations"],
     "every set of tracks over all codecs, every part history (sample counts, sizes, flags, offsets, 64-bit base times)",
     "Tests marshal two or three fixed parts; mixtures of tracks, flags, large base times and many samples are not reached.",
     [FM+"init.go", FM+"init_track.go", FM+"part.go", FM+"part_track.go", FM+"parts.go", FM+"sample.go", FM+"codec.go", FM+"seekablebuffer/seekablebuffer.go"],
     [{"name": "data offset back-patching", "where": FM+"part.go, "+FM+"part_track.go"}, {"name": "trun reconstruction", "where": FM+"parts.go"}],
     note="Recorder and player run against a simulated file and against the in-memory seekable buffer; both must give the same bytes. ")

prop("F02", "Fragmented MP4 recording reports every storage fault",
     "When the storage fails (error, partial write, failed seek, full disk) at any operation while a header or a part is being recorded, the call reports an error; it reports success only if the stored bytes are the complete recording.",
     ["fault_sequences", "crash_points"],
     "every storage operation of every recording, each failing in every supported way",
     "Tests record to an in-memory buffer that cannot fail.",
     [FM+"init.go", FM+"part.go", FM+"init_track.go", FM+"part_track.go"],
     [{"name": "error returns of every box write", "where": FM+"part.go, "+FM+"init.go"}],
     level="fault_enumeration",
     note="Within a run every operation index of the recording is failed in turn, so single faults are enumerated for the drawn recording. ")

prop("F03", "A torn fragmented recording keeps all its complete parts readable",
     "If recording stops at any byte (crash, full disk), the header that was completely stored and every complete part before the tear are read back identical; reading a prefix never yields a part or a sample that was not recorded, and an incomplete last part is reported as an error or as absent, never as data.",
     ["crash_points", "fault_sequences"],
     "every cut position of every recording, and loss of any suffix of the last write",
     "Tests never read an incomplete recording.",
     [FM+"parts.go", FM+"init.go"],
     [{"name": "size checks while reading boxes", "where": FM+"parts.go"}],
     level="fault_enumeration",
     note="Every storage operation and every cut position of small recordings, every n-th of large ones. ")

prop("F04", "Fragmented MP4 header reading depends only on the bytes",
     "Reading a fragmented MP4 header gives the same result however the storage splits the reads, whatever precedes or follows the header boxes, and when a read or seek fails it reports an error (that of the storage, when a read failed) or still gives the complete result, never a partial one.",
     ["schedules", "fault_sequences", "inputs"],
     "every header over all codecs, every read segmentation, every failing operation",
     "Tests read headers from memory in one piece.",
     [FM+"init.go", FM+"init_track.go"],
     [{"name": "Init.Unmarshal", "where": FM+"init.go"}],
     note="Every read and seek of the reading fails in turn; well-formed foreign boxes surround the header boxes. ")

prop("P08", "MP4 presentation reading depends only on the bytes",
     "Reading a MP4 presentation gives the same result however the storage splits the reads, wherever its position is and whatever follows the presentation, and when a read or seek fails it reports an error (that of the storage, when a read failed) or still gives the complete result, never a partial one.",
     ["schedules", "fault_sequences", "inputs"],
     "every presentation over all codecs, every read segmentation, every failing operation",
     "Tests read presentations from memory in one piece, without errors.",
     [PM+"presentation.go", PM+"track.go", "internal/mp4/codec_boxes.go"],
     [{"name": "Presentation.Unmarshal", "where": PM+"presentation.go"}],
     note="Every read and seek of the reading fails in turn. ")

prop("F05", "The in-memory seekable buffer behaves like a file",
     "For any sequence of writes (through any writing method, including the ones that the standard library picks), seeks and resets, the in-memory seekable buffer returns the same results, has the same position and holds the same bytes as a file.",
     ["histories"],
     "every history of operations",
     "Tests do three operations.",
     [FM+"seekablebuffer/seekablebuffer.go"],
     [{"name": "Buffer.Write / Seek", "where": FM+"seekablebuffer/seekablebuffer.go"}],
     note="Refinement against a byte-array file model. ")

prop("F06", "Hostile fragmented MP4 input cannot crash, hang or exhaust the reader",
     "Whatever bytes a fragmented MP4 header or part consists of, reading it never panics, ends within a number of steps proportional to its size, does not reserve memory out of proportion to its size, and whatever it accepts can be written back without panic and comes from boxes of the input: a header has tracks, a track of a part has its mandatory boxes.",
     ["inputs", "fault_sequences"],
     "every byte string derived from valid recordings by structural or random corruption (box sizes, counts, offsets, types)",
     "Fuzz seeds cover few mutations of few samples.",
     [FM+"parts.go", FM+"init.go", FM+"init_track.go", FM+"codec.go"],
     [{"name": "bounds and count guards", "where": FM+"parts.go"}],
     note="Box-aware mutations on drawn recordings; steps and allocated bytes are counted. ")

prop("F07", "Any conforming fragmented MP4 is read as it was written",
     "A fragmented MP4 (header and parts) that conforms to ISO 14496-12 and to the bindings of the supported codecs is read like one written by the library itself, whoever wrote it: same tracks (id, time scale, codec parameters; tracks with codecs known not to be supported are left out and do no harm), same user data, same parts (sequence number, tracks, base times) and same samples (duration, presentation offset, sync flag, payload), in order. "
     "In particular this holds for unknown or unused boxes at any place where the standard permits them, 64-bit box sizes, 32 and 64-bit versions of headers, optional descriptor and configuration fields, user data and edit lists of tracks, defaults of a track fragment in place of values of each sample, flags of the first sample, any number of runs per track with data in any order and with gaps, and data boxes that extend up to the end of the file.",
     ["inputs", "configurations", "histories"],
     "every layout that the simulated writer can choose for 1-4 tracks of all codecs and 0-4 parts; header read alone or with parts behind it, parts read one by one, together, or inside of the whole file; every segmentation of the storage",
     "The unit tests read headers and parts written by the library itself, plus a handful of recorded headers.",
     [FM+"init.go", FM+"parts.go", "internal/mp4/codec_boxes.go", "pkg/codecs/flac/stream_info.go", "pkg/codecs/mpeg4audio/audio_specific_config.go"],
     [{"name": "header state machine", "where": FM+"init.go Unmarshal"}, {"name": "part state machine, sample defaults and data offsets", "where": FM+"parts.go Unmarshal"}, {"name": "codec configuration", "where": "internal/mp4/codec_boxes.go CodecBoxesReader.Read"}],
     note="The writer is a simulated node written from the standards that shares no code with the library or go-mp4. ")

prop("F08", "A conforming player sees in a fragmented MP4 what was recorded",
     "At any point of a recording, and after a storage fault followed by a new attempt, the stored bytes are a fragmented MP4 that conforms to ISO 14496-12 and to the bindings of the codecs: boxes that nest exactly, a header that declares each track once with its id, time scale, handler, picture size or audio format, codec configuration and bitrates, and parts made of one movie fragment and its media data. "
     "A player that follows the standards, and nothing else, sees the declared tracks and user data and, for each part, the recorded sequence number, tracks, base times and samples (duration, presentation offset, sync flag, payload), whether items are in one file or in one file each, wherever in the file they start. If the recording is torn at any byte, the player sees every complete part and nothing that was not recorded.",
     ["inputs", "histories", "crash_points", "configurations", "fault_sequences"],
     "every set of 1-4 tracks over all codecs and their parameters, every sequence of parts, storage faults with retries at any item, crash at any byte",
     "The unit tests compare a few fixed headers and parts with fixed bytes, and a header or part is read back by the same library: an error that writer and reader share, or in fields that the reader ignores, is not seen.",
     [FM+"init.go", FM+"init_track.go", FM+"part.go", FM+"part_track.go", "internal/mp4/codec_boxes.go", "internal/mp4/codec_info.go", "pkg/codecs/h264/sps.go", "pkg/codecs/h265/sps.go", "pkg/codecs/av1/sequence_header.go"],
     [{"name": "header boxes", "where": FM+"init_track.go"}, {"name": "fragments and data offsets", "where": FM+"part.go Marshal"}, {"name": "codec configuration", "where": "internal/mp4/codec_boxes.go WriteCodecBoxes"}],
     note="The player is a simulated node written from the standards that shares no code with the library or go-mp4; picture sizes and profiles come from the generator of parameter sets. Wrong constraint flags of H265 (required by existing tests) are a known finding. ")


# ---------------------------------------------------------------- pMP4
prop("P01", "MP4 presentation: what is stored is what is retrieved",
     "For any tracks and samples, a presentation written to storage and read back yields the same tracks, codec parameters, time scales, time offsets and samples (duration, presentation offset, sync flag, payload size), and each payload can be retrieved intact in any order and any number of times.",
     ["inputs", "histories", "configurations"],
     "every set of tracks over all codecs, every sample table (run lengths, sync patterns, offsets, sizes), every retrieval order",
     "Tests store fixed presentations and retrieve in order.",
     [PM+"presentation.go", PM+"track.go", PM+"sample.go"],
     [{"name": "chunk interleaving and sample tables", "where": PM+"track.go"}, {"name": "lazy payload access", "where": PM+"presentation.go"}],
     note="Sequential interleavings of retrievals from several tracks over one shared file whose position is moved by others. Presentations above 4 GiB must be refused. ")

prop("P02", "MP4 payload retrieval under storage faults fails cleanly and recovers",
     "When a seek or a read fails while a payload is retrieved from a presentation, or a payload cannot be provided while a presentation is written, the call reports that error and never returns other bytes; the same retrieval succeeds once the storage works again, and other samples are unaffected.",
     ["fault_sequences", "histories"],
     "every operation of every retrieval, failing in every supported way, in every retrieval order",
     "Tests have no failing storage.",
     [PM+"presentation.go", PM+"track.go"],
     [{"name": "GetPayload closures", "where": PM+"track.go"}],
     level="fault_enumeration",
     note="Every operation of the drawn retrievals fails in turn. ")

prop("P03", "MP4 presentation writing reports every storage fault",
     "When the storage or the payload source fails at any operation while a presentation is being written, the call reports an error; it reports success only if the stored bytes are the complete presentation.",
     ["fault_sequences", "crash_points"],
     "every storage operation and payload request of every presentation, each failing in every supported way",
     "Tests write to memory that cannot fail.",
     [PM+"presentation.go", PM+"track.go"],
     [{"name": "error returns of every box write", "where": PM+"presentation.go"}],
     level="fault_enumeration",
     note="Within a run every operation index is failed in turn. ")

prop("P04", "A truncated MP4 presentation never yields wrong data",
     "If a presentation is cut at any byte, reading it either reports an error or yields samples whose payloads, when retrieved, are identical to the stored ones or reported as errors.",
     ["crash_points"],
     "every cut position of every presentation",
     "Tests never read an incomplete presentation.",
     [PM+"presentation.go", PM+"track.go"],
     [{"name": "box traversal and lazy payload access", "where": PM+"presentation.go"}],
     level="fault_enumeration",
     note="Every cut position of small files, every n-th of large ones. ")

prop("P05", "Hostile MP4 presentations cannot crash, hang or exhaust the reader",
     "Whatever bytes a presentation consists of, opening it and retrieving its payloads never panics, ends within a number of steps proportional to its size, and does not reserve memory out of proportion; every sample of a presentation that is accepted has a payload that can be asked for.",
     ["inputs", "fault_sequences"],
     "every byte string derived from valid presentations by structural or random corruption",
     "Fuzz seeds cover few mutations of one sample.",
     [PM+"presentation.go", PM+"track.go"],
     [{"name": "bounds and count guards", "where": PM+"track.go"}],
     note="Box-aware mutations; steps and allocated bytes are counted. ")

prop("P06", "Any conforming MP4 presentation of supported layout is read as it was written",
     "A non-fragmented MP4 that conforms to ISO 14496-12, with an edit list box per track, individually listed sample sizes and 32-bit chunk offsets, is read like one written by the library itself, whoever wrote it: same tracks (id, time scale, codec parameters, time offset), same samples (duration, presentation offset, sync flag, size), and every payload can be retrieved in any order and equals the stored one. "
     "In particular this holds for samples grouped in chunks of any size, chunks of several tracks interleaved in any order and with gaps, several data boxes, data before or after the tables or up to the end of the file, tables compacted or not, unused boxes anywhere, 64-bit box sizes, and 32 and 64-bit versions of headers.",
     ["inputs", "configurations", "histories"],
     "every layout that the simulated writer can choose for 1-4 tracks of all codecs and up to 300 samples; every segmentation of the storage; other users moving the file position between calls",
     "The unit tests read presentations written by the library itself, which puts each track in one chunk after the tables.",
     [PM+"presentation.go", "internal/mp4/codec_boxes.go"],
     [{"name": "chunk and sample tables", "where": PM+"presentation.go Unmarshal"}, {"name": "GetPayload of read samples", "where": PM+"presentation.go"}],
     note="The writer is a simulated node written from the standards that shares no code with the library or go-mp4. ")

prop("P07", "A conforming player sees in a stored MP4 presentation what was stored",
     "A presentation that was stored, at the first attempt or after attempts that failed, is a file that conforms to ISO 14496-12 and to the bindings of the codecs, whose boxes nest exactly and whose sample tables agree with one another. A player that follows the standards, and nothing else, sees the declared tracks (id, time scale, handler, picture size or audio format, codec configuration), their starting times and durations, of any length, and for each sample its duration, presentation offset, sync flag and payload; nothing of the media is left out by edit lists; payloads of all tracks are laid out in order of decoding time, so that the file can be played while it is being read from start to end. The same holds for a presentation that is read from a storage and stored again.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every set of 1-4 tracks over all codecs and their parameters, every sample table up to 300 samples per track with any duration, offset and size, storage faults in preceding attempts",
     "The unit tests compare fixed presentations with fixed bytes, and a presentation is read back by the same library: an error that writer and reader share, or in fields that the reader ignores (durations, edit lists, picture sizes), is not seen.",
     [PM+"presentation.go", PM+"track.go", "internal/mp4/codec_boxes.go", "internal/mp4/codec_info.go"],
     [{"name": "sample tables", "where": PM+"track.go marshalSTTS, marshalSTSC, ..."}, {"name": "durations and edit lists", "where": PM+"track.go marshal, marshalELST"}, {"name": "chunk offsets", "where": PM+"presentation.go marshalFtypAndMoov"}, {"name": "interleaving", "where": PM+"presentation.go sortSamples"}],
     note="The player is a simulated node written from the standards that shares no code with the library or go-mp4. next_track_ID and the constraint flags of H265, whose wrong values existing tests require, are known findings. ")


# ---------------------------------------------------------------- concurrency / ownership
prop("X01", "Independent instances do not interfere under any schedule",
     "Readers, writers, recorders, players and extractors used by different threads behave exactly as if each ran alone, for every interleaving of their execution, as long as no instance is shared.",
     ["schedules"],
     "every interleaving, at the granularity of single statements, of 2-4 threads each driving its own instance",
     "Tests run one instance at a time; hidden shared state (package-level buffers, caches, pools) shows up only under particular interleavings.",
     ["pkg/formats", "pkg/codecs", "pkg/rewindablereader", "internal"],
     [{"name": "absence of shared mutable package state", "where": "whole repository"}],
     hook="statement-level preemption points, added by the build overlay (no change in /repo)",
     note="A cooperative scheduler preempts at instrumented statements of the library; memory-model effects below statement level are outside of the technique. ")

prop("X02", "Ownership: delivered data never changes and inputs are never modified",
     "Data handed to the application stays as it was delivered, whatever is read afterwards; data handed in by the application is never modified (its spare capacity included) and is not referenced in a way that lets later changes by the application alter what was already written.",
     ["histories", "schedules"],
     "every history of deliveries and of later reads, and of writes whose input buffers are reused afterwards",
     "Tests compare each delivery at once and throw it away; reuse of buffers shows up only later.",
     [TS+"reader.go", TS+"writer.go", FM+"part.go", FM+"parts.go", PM+"track.go", "pkg/codecs/h264/annexb.go"],
     [{"name": "buffer allocation per delivery", "where": TS+"reader.go"}],
     note="Every delivered slice is re-hashed at the end of the run; inputs live in poisoned larger buffers. ")

prop("X03", "Endless sessions and huge files take bounded memory, work and I/O",
     "A session that does not end (reading a MPEG-TS stream, with or without loss; writing one, with or without write errors; extracting decoding times; receiving LATM audio) keeps working as it did at its beginning, whatever its length: it delivers the same units, holds no more memory and does no more work per unit. "
     "Writing a presentation holds at most one payload at a time, opening one or the header of a recording reads its tables and not its media, getting a payload reads that payload; the result is the same at any size, and presentations that the format cannot address are refused before any byte is written.",
     ["histories", "fault_sequences", "inputs"],
     "sessions of any length, files up to the limits of the formats",
     "Tests run over a handful of units and a few kilobytes; growth becomes visible after hours.",
     [TS+"reader.go", TS+"writer.go", TS+"robust_demuxer.go", "pkg/rewindablereader", PM+"presentation.go", FM+"init.go", "pkg/codecs/h264/dts_extractor.go", "pkg/codecs/h265/dts_extractor.go", "pkg/codecs/mpeg4audio/audio_mux_element.go"],
     [{"name": "Reader.Read", "where": TS+"reader.go"}, {"name": "Presentation.Marshal", "where": PM+"presentation.go"}],
     note="Sources repeat a stream without end with counters that go on; disks are sparse (0.5-4 GiB); memory is measured after a collection at the same point of each cycle. ")

# ---------------------------------------------------------------- DTS
prop("D01", "H264 decoding times are valid for any picture history",
     "Fed with access units of an H264 stream in decoding order, decoding-time extraction returns times that never decrease and that are never after the presentation time of the unit, whatever was lost, duplicated or damaged before; what cannot be determined is reported as an error. The only exception are the steps of 1 ms after the previous time that it makes, at most as many as there are reordered pictures, while it finds out how many pictures are reordered. "
     "On an intact stream with a constant frame rate, for every reordering structure, picture order count increment and counter width, times are strictly increasing, follow the frame rate after the start, and are equal to presentation times when pictures are not reordered. "
     "After losses, damage, a clock jump or new parameters it goes back to work without errors within three intact groups of pictures. The outcome does not depend on whether the application reuses its buffers.",
     ["histories", "fault_sequences", "configurations"],
     "every group-of-pictures structure, picture order count increment, counter width and reordering depth, with losses, damage, encoder restarts and clock jumps",
     "Tests replay a dozen recorded sequences.",
     ["pkg/codecs/h264/dts_extractor.go", "pkg/codecs/h264/sps.go"],
     [{"name": "DTSExtractor.Extract", "where": "pkg/codecs/h264/dts_extractor.go"}],
     note="A bit-exact encoder model generates SPS, slice headers and timestamps; the encoder clock is known. ")

prop("D02", "H265 decoding times are valid for any picture history",
     "Fed with access units of an H265 stream in decoding order, decoding-time extraction returns times that never decrease and that are never after the presentation time of the unit, whatever was lost, duplicated or damaged before; what cannot be determined is reported as an error. "
     "On an intact stream with a constant frame rate, for every reordering structure that the parameter sets declare and every way of coding reference picture sets (in the SPS, in the slice, predicted from one another), there is no error, times are strictly increasing, get to the decoding times of the encoder and stay there, and are equal to presentation times when pictures are not reordered. "
     "After losses, damage, a clock jump or new parameters it goes back to work at the next intact random access unit. The outcome does not depend on whether the application reuses its buffers.",
     ["histories", "fault_sequences", "configurations"],
     "every group-of-pictures structure, reference picture set coding and reordering depth, with losses, damage, encoder restarts and clock jumps",
     "Tests replay a few recorded sequences.",
     ["pkg/codecs/h265/dts_extractor.go", "pkg/codecs/h265/sps.go", "pkg/codecs/h265/pps.go"],
     [{"name": "DTSExtractor.Extract", "where": "pkg/codecs/h265/dts_extractor.go"}],
     note="As D01, with an H265 slice header model. ")

# ---------------------------------------------------------------- chain
prop("L01", "LATM audio sessions survive loss, late join and damage",
     "A receiver of LATM audio (AudioMuxElement, with the configuration in band or out of band) that holds the configuration in force decodes each intact element to exactly the payloads that were sent, for every number of subframes, programs and layers; before any configuration arrived, and on elements that are cut or damaged beyond what can be decoded, it returns an error. "
     "An element that is refused changes neither the configuration in force nor the result of the following elements, and never crashes the receiver. Elements written by the library are, bit by bit, those of ISO 14496-3. The same holds for sessions carried by MPEG-TS with loss of packets.",
     ["histories", "fault_sequences", "configurations", "inputs"],
     "every configuration with 1-64 subframes, 1-16 programs and 1-8 layers; every sequence of elements with and without configuration, changes of configuration, lost, cut, damaged and repeated elements, late join",
     "The unit tests decode single elements that carry their own configuration.",
     ["pkg/codecs/mpeg4audio/audio_mux_element.go", "pkg/codecs/mpeg4audio/stream_mux_config.go", "pkg/codecs/mpeg4audio/payload_length_info.go", "pkg/codecs/mpeg4audio/payload_mux.go", "pkg/codecs/mpeg4audio/audio_sync_stream.go", TS+"reader.go"],
     [{"name": "AudioMuxElement.Unmarshal", "where": "pkg/codecs/mpeg4audio/audio_mux_element.go"}],
     note="Sender is either the library or a bit writer written from the standard. ")

prop("Z01", "Remuxing between formats preserves every unit and its timing",
     "Units received from a MPEG-TS stream, recorded into a fragmented MP4 and a plain MP4 and read back, are the same units in the same order with the same relative times, for any tracks the formats have in common and with the process restarting between any two parts.",
     ["histories", "crash_points", "configurations"],
     "every set of common tracks, every unit history, every segmentation into parts, crash and restart between parts",
     "No test connects two formats.",
     [TS, FM, PM],
     [{"name": "sample construction helpers", "where": FM+"sample.go"}],
     note="End-to-end pipeline with restart of every component from durable state only. ")

prop("Z02", "A live recorder gets cut points, parameters, frames and durations right",
     "Over a link that loses, repeats, reorders, cuts or damages units, a recorder that relies on the codec functions of the library finds out of each unit that arrives intact, for H264, H265, AV1, VP9, VP8, MPEG-4 video, JPEG, Opus, FLAC, AAC, MPEG-1/2 audio, AC-3, E-AC-3 and G711: whether decoding can start there, every parameter the encoder announced (all the fields of SPS, PPS, sequence headers, frame headers and identification headers), its frames and their durations. Parameters that end early are refused, damaged units never crash it, images sent as RFC 2435 JPEG look the same, fields of bits and protected payloads that travel within units are read as they were written, and recordings play with the announced parameters, cut points and durations.",
     ["inputs", "fault_sequences", "crash_points"],
     "every parameter set, every unit, every sequence of link faults, crashes of the recorder at any byte",
     "Tests parse a table of samples and never follow a stream.",
     ["pkg/codecs", "pkg/bits", FM, "internal/mp4"],
     [{"name": "parameter sets", "where": "pkg/codecs/h264/sps.go"}, {"name": "IsRandomAccess", "where": "pkg/codecs"}, {"name": "frame headers and durations", "where": "pkg/codecs/opus/packet_duration.go"}],
     note="Model encoders written from the specifications know the truth; faults of the link and of the recorder are drawn by the scheduler; the recording is judged by the model player of F08. ")

# ---------------------------------------------------------------- pure functions
PURE = "pure function of one byte string or one value: no schedule, time, I/O, history or party for simulation to vary, so running it under a simulator would be input fuzzing under another name. "
prop("N01", "Codec header and parameter parsers invert their writers",
     "For every valid codec configuration (MPEG-4 audio configurations, Opus headers and descriptors, AC-3/E-AC-3/MPEG-1 audio headers, FLAC stream info, JPEG segments, AV1 and VP9 headers, AVCC, Annex-B, AV1 bitstream, LATM) writing and parsing are inverse of each other.",
     ["inputs"], "every valid configuration", "Tests hold a table of samples.",
     ["pkg/codecs"], [{"name": "Marshal/Unmarshal pairs", "where": "pkg/codecs"}],
     na=PURE + "Those used by the containers are exercised inside T01, F01 and P01 as part of a system run.")
prop("N02", "Parameter set parsing matches the standards",
     "Width, height, frame rate and reordering limits derived from H264 and H265 parameter sets and AV1 sequence headers are those the standards define, for every valid parameter set.",
     ["inputs"], "every valid parameter set", "Tests hold a table of samples.",
     ["pkg/codecs/h264/sps.go", "pkg/codecs/h265/sps.go", "pkg/codecs/av1/sequence_header.go"], [{"name": "SPS.Unmarshal", "where": "pkg/codecs"}],
     na=PURE + "The parameters a live recorder receives are covered by Z02, the fields that drive stateful behaviour (picture order counts, reordering depth) by D01 and D02.")
prop("N03", "Codec parsers never panic on arbitrary input",
     "Every codec parser returns an error or a value for every byte string.",
     ["inputs"], "every byte string", "Fuzz targets exist and hold a few seeds.",
     ["pkg/codecs", "pkg/bits"], [{"name": "bounds checks", "where": "pkg/bits/read.go"}],
     na=PURE + "Those reachable from a container are exercised with hostile input by T07, F06 and P05, those reachable from a live stream by the link faults of Z02.")
prop("N04", "G711 companding matches the standard",
     "A-law and mu-law encoding and decoding are the functions of G.711 for every sample.",
     ["inputs"], "all 65536 samples and 256 codes", "Tests hold one sample; the domain is small enough to enumerate, which is not simulation.",
     ["pkg/codecs/g711"], [{"name": "tables", "where": "pkg/codecs/g711"}],
     na=PURE + "The sound a live receiver hears and sends back is covered by Z02.")
prop("N05", "Bit-level reading and writing are inverse and bounded",
     "Bit fields and Exp-Golomb codes are read as written at every bit offset, and reading past the end is an error.",
     ["inputs"], "every offset, width and value", "Tests hold a few values.",
     ["pkg/bits"], [{"name": "ReadBits / WriteBits", "where": "pkg/bits"}],
     na=PURE)

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    claimed = set(open(os.path.join(here, "tools", "claimed.txt")).read().split())
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"], "hook_needed": p["hook"]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] not in claimed:
            na.append({"property": p["id"], "reason": "machinery not finished; no claim yet"})
        else:
            checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                           "thorough_cmd": "./check.sh %s thorough" % p["id"],
                           "technique": "deterministic simulation with fault injection (seeded search)",
                           "level": p["level"], "level_note": p["note"] + SIM})
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "build overlay (go build -overlay), no guarded code in /repo",
                   "enable": "check.sh instruments a copy of every source file of the current tree in a scratch directory and builds it with -overlay; /repo itself contains no hook",
                   "source_commits": []},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
