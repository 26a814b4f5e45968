#!/usr/bin/env python3
"""Writes ../properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
BI = "body-image/src/lib.rs"; BA = "barc/src/lib.rs"; CO = "barc/src/compress.rs"
MH = "body-image/src/_mem_handle_ext.rs"
F = "body-image-futio/src/"; CLI = "barc-cli/src/main.rs"; REC = "barc-cli/src/record.rs"

prop("C01", "A body reads back exactly the bytes written, in every state",
 "Whatever sequence of appends built a body, and whichever of the RAM, file, file-slice or memory-mapped states it is in or is converted between, its reported length and every way of reading it (reader with any read sizes, seek, copy-out, explode) give exactly the appended bytes in order. Converting, gathering or cloning a body never changes its content or that of its clones.",
 ["histories", "inputs", "configurations"],
 "All append/write-back/prepare/map/gather/clone sequences, all buffer sizes incl. empty and page-boundary ones, all read sizes, all slice offsets (aligned or not).",
 "Existing tests read a few short fixed strings with read_to_end; they never combine states with odd read sizes, unaligned slices, clones or copy-out.",
 [BI, MH],
 [("sink state transitions", BI+":BodySink::{push,write_all,write_back,prepare}"),
  ("image state transitions", BI+":BodyImage::{mem_map,gather,explode,reader,write_to}"),
  ("temporary memory advice around copy-out", MH+":tmp_advise")],
 [("state", "Ram / file / file slice / memory map representation"), ("len", "length reported to users")],
 ["BodyReader::read", "BodyImage::write_to", "BodyImage::explode"])
prop("C02", "Ingesting from a byte source captures the source exactly",
 "Reading a body from any byte source yields exactly the bytes the source produced before its end, however the source splits them, however often it is interrupted, and whatever length estimate and buffer sizes are given. A source error other than an interruption is returned as that error and never as a shorter body.",
 ["inputs", "fault_sequences", "configurations"],
 "All source chunkings, interruption and error positions, length estimates, buffer sizes and RAM thresholds.",
 "Existing tests ingest two short slices from memory; none splits reads, interrupts, fails or crosses the RAM-to-file switch at a buffer boundary.",
 [BI], [("RAM fill loop", BI+":BodyImage::read_from"), ("file fill loop", BI+":read_to_body_fs")],
 None, ["BodyImage::read_from return value"])
prop("C03", "No body longer than the configured maximum is ever accepted",
 "For every way a body is taken in (synchronous ingest, each asynchronous sink, response decoding, compressed archive response bodies), a body of at most the configured maximum length is accepted and one of even a single byte more is refused with a too-long error. The decision depends only on the total length, not on chunking, estimates or when it moved from RAM to a file.",
 ["inputs", "configurations", "histories"],
 "All body lengths around the limit, all chunkings, estimates, RAM thresholds and ingest paths.",
 "Existing tests try one length per path far above the limit; none measures the boundary or a body that first accumulated in RAM and then spilled to file.",
 [BI, F+"sink.rs", F+"decode.rs", BA],
 [("limit check in RAM phase", BI+":BodyImage::read_from"), ("limit check in file phase", BI+":read_to_body_fs"),
  ("limit check on async send", F+"sink.rs:AsyncBodySink::poll_send")],
 None, ["Result of each ingest path"])
prop("C04", "RAM held for a body stays bounded by the configured RAM limit",
 "While a body is being ingested, decoded or streamed into a sink, and afterwards, the heap held for it never exceeds a small constant multiple of the configured RAM limit and buffer sizes, no matter how long the body is. A body longer than the RAM limit always ends up file-backed, and one within the limits (and not expected to exceed them) stays in RAM without touching the file system.",
 ["inputs", "configurations"],
 "All body lengths up to the maximum, chunkings, estimates, RAM limits and buffer sizes, for ingest, sinks, decode and archive reads.",
 "Existing tests use bodies of a few hundred bytes and never measure allocation; they only ask is_ram once.",
 [BI, F+"sink.rs", F+"decode.rs", BA],
 [("buffer hand-off in ingest loop", BI+":BodyImage::read_from"), ("spill to file", BI+":BodySink::write_back"),
  ("spill in async sink", F+"sink.rs:AsyncBodySink::poll_send"), ("archive body placement", BA+":BarcReader::read")],
 None, ["process heap high-water mark", "is_ram()", "file-system calls"])
prop("C05", "I/O failures are reported and never become silently wrong bodies",
 "If any file operation underlying a body fails, is interrupted or is cut short, the call either completes with exactly the right bytes or returns an error; it never reports success with missing, duplicated or altered bytes. A failed spill to file leaves the sink empty and in RAM as documented, still usable, and a body whose backing file is shorter than its length is never copied out as if complete.",
 ["fault_sequences", "histories"],
 "Every file operation position x {no space, I/O error, interruption, short transfer, truncated backing file} over all sink/image/ingest/copy-out histories.",
 "Existing tests run on a healthy file system only; no error path after file creation is executed.",
 [BI, F+"sink.rs", F+"stream.rs"],
 [("documented failure state", BI+":BodySink::write_back"), ("copy-out length", BI+":BodyImage::write_to"),
  ("interrupt handling", F+"stream.rs:AsyncBodyImage::poll_impl")],
 None, ["Results vs. injected faults"])
prop("C06", "Temporary storage stays in the configured directory and is released",
 "Every temporary file a body uses is created in the configured directory, is never left visible there once the call returns, and its descriptor, mapping and space are released when the last body, clone, reader or stream referring to it is dropped, including after errors. Bodies that fit in RAM create no file at all.",
 ["histories", "fault_sequences", "configurations"],
 "All histories of create/convert/clone/read/drop in any drop order, with and without injected failures, for sync and async paths.",
 "Existing tests never look at the directory, descriptors or mappings and never drop clones in different orders.",
 [BI, BA, F+"sink.rs", F+"stream.rs"],
 [("temp file creation", BI+":BodySink::{with_fs,write_back}"), ("archive decompression to file", BA+":read_body_fs"),
  ("configured directory", BI+":Tunables::temp_dir")],
 None, ["open/mmap calls", "/proc/self/fd", "/proc/self/maps", "directory listing"])
prop("C07", "Clones and concurrent readers of one body never disturb each other",
 "Any number of threads may simultaneously read, seek, copy out, stream, memory-map, gather or drop clones and readers of the same body, and each one independently observes the complete, unchanged content from its own position. This holds for every state and every interleaving.",
 ["schedules", "histories"],
 "All interleavings of reader steps over shared RAM, file, slice and memory-mapped bodies, any thread count.",
 "Existing tests read every body from a single thread, one reader at a time.",
 [BI, MH, F+"stream.rs"],
 [("independent positions over a shared file", BI+":BodyImage::reader"), ("reference counted states", BI+":ImageState"),
  ("shared memory advice", MH+":tmp_advise")],
 None, ["bytes observed per reader"])
prop("C08", "Archive records survive a write/read round trip unchanged",
 "Any record within the format limits that was successfully written to an archive, with any compression strategy, is read back with the same type, the same header names with the same values in the same per-name order, and byte-identical request and response bodies. This holds for every reader configuration and whatever states the bodies were in when written.",
 ["inputs", "configurations", "histories"],
 "All records (headers of any legal count and content, empty/large bodies in any state), strategies and levels, reader tunables.",
 "Existing tests write a handful of fixed records and mostly compare lengths, not content; header counts stay under a dozen.",
 [BA, CO],
 [("record writing", BA+":write_record"), ("plain reading", BA+":BarcReader::read"), ("compressed reading", BA+":read_compressed"),
  ("header block parsing", BA+":parse_headers"), ("encoder finish", CO+":EncodeWrapper::finish")],
 None, ["BarcReader::read result vs record written"])
prop("C09", "Archive writes only append, and offsets address records for good",
 "Writing a record returns the offset at which that record can be read forever after, by any reader positioned there in any order, and a sequential read visits the same offsets in write order, ending with none exactly at the end of the file. Bytes of records written earlier are never altered by later writes, by reopening the file, or by reading.",
 ["histories", "inputs"],
 "All histories of writes, reopenings and reads at arbitrary known offsets, through one or several handles in sequence.",
 "Existing tests write at most two records and seek once; file bytes are never compared across writes.",
 [BA], [("append and head rewrite", BA+":BarcWriter::write"), ("position handling", BA+":BarcReader::{read,offset,seek}")],
 None, ["file bytes before/after", "offset()"])
prop("C10", "Readers concurrent with a writer see only whole, committed records",
 "A reader in the same or another process, running at any point while a record is being written, sees exactly the records already completed, each whole and unchanged, followed by end-of-records; it never sees a partial, torn or garbled record or an error. Once the write completes, the same reader picks the new record up without reopening.",
 ["schedules", "crash_points", "histories"],
 "Every point between two file operations of the writer, every strategy, several readers at different positions, in and out of process.",
 "The one existing test alternates whole writes and reads on one thread; no reader ever runs in the middle of a write.",
 [BA, CO], [("reserve, write, commit protocol", BA+":BarcWriter::write"), ("reserved head handling", BA+":BarcReader::read"),
  ("trailing encoder output", CO+":EncodeWrapper::finish")],
 None, ["reader results at each writer file operation"])
prop("C11", "Crashes and failed archive writes cost at most the record in progress",
 "If the writing process dies, or a file operation fails, at any point during a record write, every record acknowledged before remains readable in full and no partial record is ever returned as a record. If a write reports failure, later successful writes through the same file are still reachable by sequential reading, and a write is never acknowledged unless its record can be read back.",
 ["crash_points", "fault_sequences", "histories"],
 "Every file operation of every write x {process death, error, short write}, for all strategies, followed by continued use.",
 "No existing test kills a writer, injects a write error, or continues after one.",
 [BA, CO], [("reserve, write, commit protocol", BA+":BarcWriter::write"), ("encoder finish and drop", CO+":EncodeWrapper::finish")],
 None, ["archive content after fault", "write result"])
prop("C12", "Malformed archive files produce errors, never crashes or runaway use",
 "For any file content at all, reading it as an archive from any offset returns a record all of whose announced bytes are present, end-of-records or an error, in bounded steps; it never panics, loops, or allocates memory out of proportion to the file and the configured limits. After an error the reader's position is where it was before the failing read.",
 ["inputs", "histories"],
 "All byte strings: truncations, mutated and adversarial heads, corrupt compressed payloads, arbitrary seek positions; all reader configurations.",
 "Existing tests use four hand-made bad files; heads with inconsistent lengths or tiny block lengths are never tried.",
 [BA, CO], [("head parsing", BA+":read_record_head"), ("length-driven reading", BA+":{read_headers,read_body_ram,read_body_fs,slice_body}"),
  ("header parsing", BA+":parse_headers")],
 None, ["BarcReader::read outcome", "offset()", "allocation high-water mark"])
prop("C13", "The on-disk archive format is exactly the published one",
 "Every record written has the published 54-byte head, with lengths that exactly describe the following blocks, blank-line separated human-readable blocks when uncompressed, and a complete gzip or Brotli stream of the same blocks when compressed. Conversely, every file an independent implementation produces by that format is read correctly.",
 ["inputs", "configurations", "histories"],
 "All records, strategies and levels, in both directions (this writer to independent reader, independent writer to this reader).",
 "Existing tests only pass the writer's output to the matching reader, so a symmetric change to both goes unnoticed; two sample files are read.",
 [BA, CO, "barc/README.md"], [("head layout", BA+":write_record_head"), ("block layout", BA+":{write_headers,write_body}"), ("head parsing", BA+":read_record_head")],
 None, ["raw file bytes"])
prop("C14", "A dialog converted to a record and back is the same dialog",
 "Any HTTP dialog, with any method, URL, version, status, decoded-encodings list, headers and bodies, converts to an archive record and back to an equal dialog, also after the record has been written and read. A record lacking or garbling the required descriptions is refused with an error naming the problem.",
 ["inputs", "histories"],
 "All dialogs, including those produced by response decoding, all HTTP versions and statuses; all mutilations of the descriptive headers.",
 "Existing tests convert two sample records in one direction and back, never one that was decoded.",
 [BA, BI], [("dialog to record", BA+":TryFrom<Dialog> for Record"), ("record to dialog", BA+":TryFrom<Record> for Dialog")],
 None, ["fields of the converted dialog"])
prop("C15", "Compression is applied exactly when the documented policy says so",
 "A record is compressed only by the selected algorithm, at the selected level, and only if its compressible bytes (bodies of compressible type, then headers) reach the strategy's minimum raised by its weighting of non-compressible body bytes, with response bodies counted as compressible only when known to be decoded if that check is on; otherwise it is stored plain. The choice never depends on body state or content.",
 ["inputs", "configurations"],
 "All content types, body sizes around the thresholds, decoded markers, minimum lengths, levels and body states.",
 "Existing tests cover a few content types and a couple of fixed sizes with the predicate, not the stored outcome around thresholds.",
 [CO], [("policy", CO+":CompressStrategy::is_compressible"), ("type classification", CO+":is_compressible_type"), ("identity check", CO+":is_identity")],
 None, ["compression flag in the stored head"])
prop("C16", "Concurrent writers of one archive handle never interleave records",
 "When any number of threads write through one archive handle, only one writes at a time; each acknowledged record appears exactly once, whole, at the offset its write returned, and each thread's records appear in the order it wrote them. Writers that wait always proceed once the current writer is released.",
 ["schedules", "histories"],
 "All interleavings of writer acquisition, writes and release across threads, with concurrent readers and all strategies.",
 "Existing tests use a single writer on a single thread.",
 [BA], [("write lock", BA+":BarcFile::writer"), ("writer", BA+":BarcWriter::write")],
 None, ["history of (thread, record id, returned offset) vs final file"])
prop("C17", "Every body stream delivers the whole body, in order, exactly once",
 "Each asynchronous stream over a body (direct, yielding, splitting, permit-based, dispatched), for each item type and body state, produces items whose concatenation is exactly the body, then ends and stays ended. Splitting streams never emit an item larger than configured, and file reads never exceed the configured buffer size.",
 ["inputs", "schedules", "configurations"],
 "All bodies, states (incl. unaligned archive slices), item types, sizes, poll schedules and spurious polls, thread pools of any size.",
 "Existing tests forward a few small bodies through a runtime and check lengths; they never drive polls by hand or check content.",
 [F+"stream.rs", F+"uni_body_buf.rs", F+"mem_map_buf.rs"],
 [("polling", F+"stream.rs:AsyncBodyImage::poll_impl"), ("permit wrapper", F+"stream.rs:PermitBodyImage"), ("dispatch wrapper", F+"stream.rs:DispatchBodyImage"),
  ("split/yield wrappers", F+"stream.rs:{SplitBodyImage,YieldBodyImage}")],
 None, ["Stream::poll_next results"])
prop("C18", "Every body sink stores exactly what it accepted, in order",
 "Each asynchronous sink (direct, permit-based, dispatched) that accepts a sequence of buffers and is flushed holds exactly their concatenation, whatever the buffer types and sizes, the initial state of the body, the moment of spilling to file, and the interleaving with permits or pool threads. It spills to file exactly when the RAM limit would be exceeded.",
 ["inputs", "schedules", "configurations"],
 "All buffer sequences (incl. empty and memory-mapped ones), limits, poll schedules and pool sizes.",
 "Existing tests forward single bodies and compare lengths; content, order across the spill and hand-driven polls are unchecked.",
 [F+"sink.rs"], [("send", F+"sink.rs:AsyncBodySink::poll_send"), ("permit wrapper", F+"sink.rs:PermitBodySink"), ("dispatch wrapper", F+"sink.rs:DispatchBodySink")],
 None, ["content of the recovered body"])
prop("C19", "Blocking file work runs only where the chosen policy allows",
 "Under the permit policy a stream or sink performs file operations only while holding a permit of its semaphore, so no more run at once than there are permits; under the dispatch policy it performs them only on the pool's threads, never on the polling thread. RAM-only work needs neither, and every permit is returned after use, on error, and when the operation is dropped midway.",
 ["schedules", "fault_sequences", "configurations"],
 "All interleavings of concurrent streams and sinks over any permit count or pool size, with cancellation at any poll and I/O errors.",
 "Existing tests only see that transfers complete; where and how concurrently file operations happen is never observed.",
 [F+"sink.rs", F+"stream.rs", F+"blocking.rs", F+"tune.rs"],
 [("arbiter", F+"blocking.rs:StatefulArbiter"), ("permit acquisition", F+"{sink,stream}.rs:Permit*"), ("dispatch", F+"{sink,stream}.rs:Dispatch*")],
 None, ["thread and permit count at each file operation"])
prop("C20", "Asynchronous bodies always make progress and cancel cleanly",
 "A stream or sink that returns pending always arranges a later wake-up, so polling only when woken completes every transfer whatever the interleaving with permits, pool threads and other tasks. Dropping one at any point leaves other tasks, clones and the body able to complete, and leaks no permit or file.",
 ["schedules", "histories"],
 "All poll/wake/drop schedules for every wrapper, contended permits, busy pools, spurious polls.",
 "Existing tests run to completion on a multi-threaded runtime that masks missed wake-ups by chance, and never drop midway.",
 [F+"sink.rs", F+"stream.rs"], [("recursion for waking", F+"{sink,stream}.rs:poll_flush/poll_next"), ("pending dispatch", F+"{sink,stream}.rs:DispatchState")],
 None, ["waker calls vs pending results"])
prop("C21", "HTTP body metadata always agrees with the data delivered",
 "For every body used as an HTTP message body, the size hint is exact and equals the bytes still to be delivered, the end-of-stream flag is never set while data is still to come, is set once all data was delivered, and is set from the start for empty bodies. There are never trailers.",
 ["inputs", "schedules"],
 "All bodies, states, wrappers and points between polls.",
 "Existing tests never call these methods; the HTTP layer that relies on them for framing is not built in the test configuration.",
 [F+"stream.rs"], [("metadata", F+"stream.rs:http_body::Body impls")],
 None, ["size_hint/is_end_stream before and after each poll"])
prop("C22", "Response decoding is exact, bounded and all-or-nothing",
 "Decoding a dialog whose headers name a supported compression replaces the body by exactly the original bytes and records the removed encodings followed by identity; with no compression the body is untouched and reported as such. Unsupported, corrupt, truncated or over-long content yields an error and leaves the dialog exactly as it was.",
 ["inputs", "configurations", "fault_sequences"],
 "All bodies, encodings, compressors' settings, header spellings, truncation/corruption points, tunables and body states.",
 "Existing tests decode an empty body to see it fail; no successful decode, truncation or limit is tested offline.",
 [F+"decode.rs", BI], [("decode", F+"decode.rs:decode_res_body"), ("decompress", F+"decode.rs:decompress")],
 None, ["dialog before/after"])
prop("C23", "Encodings are discovered from headers per the documented rules",
 "From any combination of transfer- and content-encoding headers the discovered list has chunked first exactly when the transfer-encoding names it, and at most one compression, last, being the most recently applied one of the transfer-encoding or else of the content-encoding. Unknown or malformed values never cause a failure, and chunked detection agrees with the list.",
 ["inputs"],
 "All header multisets: repeated headers, any case, spacing, order, unknown and malformed tokens.",
 "Existing tests list half a dozen combinations.",
 [F+"decode.rs"], [("discovery", F+"decode.rs:{find_encodings,parse_encodings,find_chunked}")],
 None, ["returned list"])
prop("C24", "Stream buffers behave as one contiguous byte sequence",
 "A stream buffer of any origin (heap or memory map), under any sequence of advancing, splitting, copying and converting, always exposes exactly the not-yet-consumed bytes; its split parts are disjoint, non-empty, no larger than requested and together equal to the original. Buffers remain valid after the body they came from is dropped.",
 ["inputs", "histories"],
 "All operation sequences over buffers of both origins and all sizes and offsets.",
 "Existing tests never split or advance these buffers directly.",
 [F+"uni_body_buf.rs", F+"mem_map_buf.rs"], [("buffer", F+"uni_body_buf.rs:UniBodyBuf"), ("mapped part", F+"mem_map_buf.rs:MemMapBuf")],
 None, ["bytes exposed"])
prop("C25", "The cat command prints exactly the selected records and parts",
 "For any archive and any combination of start offset, start index, count and part flags, cat prints exactly the selected records in order, each with a separator naming the file and that record's true offset, followed by exactly the selected parts. It fails with a nonzero exit for unreadable input and never modifies its inputs.",
 ["inputs", "configurations"],
 "All archives (plain and compressed) and flag combinations, incl. counts of zero or beyond the end.",
 "The command line tool has no tests at all.",
 [CLI], [("cat", CLI+":cat"), ("selection", CLI+":filter_flags"), ("parts", CLI+":part_flags")],
 None, ["stdout, exit status, input bytes"])
prop("C26", "The cp command copies exactly the selected records, losslessly",
 "For any input archives and any selection and compression flags, cp appends exactly the selected records, in order and with unchanged headers and bodies, to the output, compressed as asked; existing output records and all inputs are unchanged. Copying a file onto itself, under any spelling of its path, is refused without changing it.",
 ["inputs", "configurations", "histories"],
 "All archives, compression in and out, selections, pre-existing outputs, path spellings and repeated runs.",
 "The command line tool has no tests at all.",
 [CLI, BA], [("cp", CLI+":cp"), ("strategy", CLI+":compress_flags"), ("selection", CLI+":filter_flags")],
 None, ["output archive, input bytes, exit status"])
prop("C27", "A fetched dialog is the complete exchange or an error",
 "A request run over HTTP returns a dialog whose request parts are those sent and whose response status, version, headers and body are exactly those the server sent, for every framing, chunking and blocking policy; if the response is cut short, malformed, too long for the configured limits, or exceeds a timeout, the result is the corresponding error and never a dialog with a partial body.",
 ["inputs", "fault_sequences", "schedules", "configurations"],
 "All server behaviours (framings, fragmentations, truncations, stalls, oversized), policies and tunables; also through the record command.",
 "The HTTP client code is not even compiled in the test configuration; upstream tests exchange a few bodies with a well-behaved server.",
 [F+"fetch.rs", F+"lib.rs", REC], [("exchange", F+"fetch.rs:request_dialog"), ("body collection", F+"fetch.rs:resp_future"), ("dialog assembly", F+"lib.rs:InDialog::prepare")],
 None, ["dialog vs server log"])
prop("C28", "What is recorded of a request is what is sent",
 "For any request built for recording, with no body, an in-memory body or a body in any state, the recorded method, URL, headers and body equal those of the request actually produced, and sending it consumes nothing from the recording.",
 ["inputs", "configurations"],
 "All methods, URLs, header multisets, bodies and states, all stream wrappers and both kinds of request body.",
 "Existing offline tests never build a recorded request; content equality of both sides is never compared.",
 [F+"wrappers.rs", F+"lib.rs"], [("recording", F+"wrappers.rs:RequestRecorder impls")],
 None, ["request stream content vs recorded body"])
prop("C29", "Safe use of the public interface has no undefined behaviour",
 "No sequence of safe calls, on any thread interleaving, reads uninitialised memory, accesses memory outside a live allocation or mapping, leaks memory, or races on data. Bytes returned to callers are always bytes that were written by a caller or read from a source.",
 ["inputs", "schedules", "programs"],
 "The union of all workloads of the other properties, run under memory, initialisation and race checkers.",
 "Tests observe results, not the validity of the memory accesses producing them.",
 [BI, BA, F+"stream.rs", F+"mem_map_buf.rs"],
 [("uninitialised read buffers", BI+":{BodyImage::read_from,read_to_body_fs}"), ("uninitialised read buffers", BA+":{read_headers,read_body_ram,read_body_fs}"),
  ("uninitialised read buffers", F+"stream.rs:AsyncBodyImage::poll_impl"), ("mapping lifetime", F+"mem_map_buf.rs:MemMapBuf")],
 None, ["sanitizer, Miri and valgrind reports"])
prop("C30", "Log lines are whole, correctly filtered and correctly labelled",
 "Every enabled log message appears exactly once as one whole line with its level, target and emitting thread's name, never mixed with another thread's line, whatever threads log at once; and messages below the configured verbosity, or from foreign targets when only local detail is asked for, never appear.",
 ["schedules", "configurations"],
 "All verbosity levels, levels x targets, thread names and counts of concurrently logging threads.",
 "The existing test logs two messages on one thread and checks nothing about the output.",
 ["piccolog/src/lib.rs"], [("logger", "piccolog/src/lib.rs:Piccolog"), ("setup", "piccolog/src/lib.rs:setup_logger")],
 None, ["stderr lines"])
prop("C31", "Configurations hold exactly what was set, or refuse it",
 "A configuration finished from a builder reports the last value set for every setting and the documented default for every other, and is what bodies are then collected by; inconsistent settings (empty buffers or items, zero size estimates, a RAM limit above the body limit, a response timeout above the body timeout) are refused when set or finished. Builders and configurations copied or finished earlier are not affected by later changes.",
 ["histories", "inputs", "configurations"],
 "All sequences of settings, copies and finishes on both builders, with values at and around every bound.",
 "Existing tests check the defaults and set a few values once; none sets, copies and finishes in different orders, tries inconsistent values or compares all other settings.",
 [BI, F+"tune.rs"], [("body settings", BI+":Tuner"), ("asynchronous settings", F+"tune.rs:FutioTuner")],
 None, ["Tunables and FutioTunables getters", "bodies collected under them"])
prop("C32", "Errors lead back to what failed",
 "When a call fails because an operation underneath it failed (a file call, the given source or destination, a connection), the error returned describes itself including the text of its cause, and its chain of causes includes that failure with the same kind. When input is refused, the error is the one for that flaw and carries the offending value.",
 ["fault_sequences", "inputs"],
 "All operations on bodies, archives, sinks, streams and connections, each failing at any underlying operation with any kind of error; all kinds of refused input.",
 "Existing tests match a few error variants by hand; no test injects a failure and follows the error back to it, or prints one.",
 [BI, BA, CO, F+"lib.rs"], [("body errors", BI+":BodyError"), ("archive errors", BA+":BarcError"), ("conversion errors", BA+":DialogConvertError"), ("asynchronous errors", F+"lib.rs:FutioError"), ("encoder errors", CO+":NotedFile")],
 None, ["returned errors, their text and source chain"])
prop("C33", "The record command stores one whole exchange or nothing",
 "The record command requests exactly the given address with the accept value asked for and appends exactly one record holding the whole exchange, decoded unless told otherwise and compressed as asked for. If it fails for any reason it says so, ends with a failure status, and leaves the archive's records as they were with none added.",
 ["inputs", "fault_sequences", "histories"],
 "All option combinations and spellings, responses (framing, encoding, size, type), failures of the server or its data, and histories of runs into one archive.",
 "The record command is not compiled in the test configuration and has no test.",
 [REC, CLI, F+"fetch.rs"], [("command", REC+":record"), ("options", CLI+":compress_flags")],
 None, ["the requests a server receives", "the archive file", "exit status and stderr"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
