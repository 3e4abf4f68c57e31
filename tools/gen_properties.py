#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that statements are reviewable in one place)."""
import json, os
SD = "crates/stream-download/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Bytes read at a position are the resource's bytes at that position",
 "Every byte that a read on an open stream returns for stream position p equals byte p of the remote resource. "
 "This holds for every sequence of reads and seeks, every chunking of the source, every prefetch and batch size and every storage type, however reader and download task interleave.",
 ["schedules", "inputs", "histories", "configurations"],
 "all interleavings of reader and download task; all read/seek programs; all chunkings, prefetch sizes, batch sizes, storage providers, known and unknown content length",
 "The tests run a few read/seek orders on real threads with one timing each; the holes left by a seek, the prefetch that a seek interrupts and a notification that overtakes a write need a particular interleaving.",
 [SD+"lib.rs", SD+"source/mod.rs", SD+"source/handle.rs", SD+"storage/memory.rs", SD+"storage/temp.rs", SD+"storage/bounded.rs"],
 [("readers return data only from downloaded ranges", "StreamDownload::read in lib.rs"), ("downloaded ranges are recorded after the write and flush", "Source::write, Source::handle_prefetch in source/mod.rs"), ("storage writer position follows the source position", "Source::seek in source/mod.rs")],
 state=[("downloaded ranges", "which byte ranges are in storage", "source/handle.rs Downloaded"), ("remaining bytes", "tail of a chunk that did not fit during prefetch", "source/mod.rs Source::remaining_bytes")],
 observe=["the buffer after each Read::read"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C02", "Reads and seeks always return: no lost wake-up, deadlock, livelock or panic",
 "Every read and seek on an open stream returns (with data, end of file or an error) as long as the source keeps answering, and the download task keeps advancing until the stream is complete, failed or cancelled, or its bounded storage is full of unread data. "
 "No interleaving of reader and download task leaves both of them waiting, and none makes either of them panic; a read whose bytes are all in storage and past the prefetch does not wait for the source to deliver more.",
 ["schedules", "histories", "configurations"],
 "all interleavings (bounded preemptions, timer firings and environment answers) of reader, download task and canceller over all short read/seek programs and configurations",
 "A missed wake-up needs the notification to fall into a window of a few instructions; tests only ever see one schedule per run and hang rather than fail.",
 [SD+"source/handle.rs", SD+"source/mod.rs", SD+"lib.rs"],
 [("position request followed by condition variable wait", "SourceHandle::wait_for_position, PositionReached in source/handle.rs"), ("writer back-pressure wake-up", "NotifyRead in source/handle.rs, Source::write in source/mod.rs"), ("completion signal", "Source::signal_download_complete in source/mod.rs")],
 state=[("requested position", "where the reader waits for the download to get to", "source/handle.rs RequestedPosition")],
 observe=["termination of every reader call", "panics on either side"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C03", "End of file is reported exactly at the end of the resource",
 "A read with a non-empty buffer returns zero bytes only when the reader's position is at or beyond the end of the resource (or of what a source that ended early has delivered), and reading until end of file yields every byte from the current position to the end exactly once. "
 "Once at the end, reads keep returning zero, and do not block once the download has ended.",
 ["schedules", "inputs", "histories", "configurations"],
 "all interleavings; all read sizes, seeks to, before and past the end; known and unknown length; all storage types; resources of length 0 and shorter than the prefetch size",
 "Tests read to the end with a handful of buffer sizes; the end is decided by three racing conditions (stream done, position reached, storage contents).",
 [SD+"lib.rs", SD+"source/mod.rs", SD+"storage/memory.rs", SD+"storage/bounded.rs"],
 [("requested position is clamped to the content length", "StreamDownload::normalize_requested_position in lib.rs"), ("stream-done signal ends waits", "PositionReached in source/handle.rs"), ("storage limits reads to what was written", "MemoryStorage::read, BoundedStorageReader::read")],
 observe=["return value of Read::read", "read_to_end contents"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C04", "Seek lands on the requested position, clamped to the length, or errors",
 "A successful seek returns the absolute position it was asked for (from start, current position or end), limited to the content length when that is known, and the next read starts exactly there. "
 "Seeking relative to the end of a stream of unknown length, or to a negative position, is an error and leaves the position unchanged.",
 ["inputs", "histories", "schedules"],
 "all sequences of seeks (three origins, offsets around zero, the current position, the downloaded edge, the length and the extremes of the offset type) and reads, for every interleaving with the download",
 "Tests use a few fixed offsets on streams whose download is either complete or stalled at a fixed point.",
 [SD+"lib.rs"], [("absolute position computation and clamping", "get_absolute_seek_position, normalize_requested_position in lib.rs"), ("seek outside the downloaded ranges restarts the source", "SourceHandle::seek, Source::handle_seek")],
 observe=["return value of Seek::seek", "stream position after a failed seek"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C05", "A seekable download of known length completes with no gap left",
 "When the download of a seekable source of known length completes successfully in unbounded storage, every byte of the resource has been fetched and stored, whatever seeks happened on the way. "
 "The download returns for the ranges that seeks skipped and then ends by itself.",
 ["schedules", "histories", "configurations"],
 "all seek programs and interleavings; chunk, prefetch and batch sizes",
 "The gaps depend on where the download was when each seek request was taken; tests have two or three fixed seek patterns.",
 [SD+"source/mod.rs", SD+"source/handle.rs"], [("gap search at the end of each range", "Source::finish_or_find_next_gap"), ("gap search at each seek", "Source::handle_seek"), ("interval set of downloaded ranges", "Downloaded in source/handle.rs")],
 state=[("downloaded ranges", "which byte ranges are in storage", "source/handle.rs Downloaded")],
 observe=["storage contents at completion", "calls on the source"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C06", "Range requests to the source are well-formed and only ask for missing data",
 "Every range the download task asks a source for is non-empty and lies within the content length when that is known (with an explicit end unless the storage is bounded), and starts at a byte that is not in storage yet when the storage is unbounded. "
 "It starts exactly where the following bytes are stored, and it ends no later than the next byte already in storage.",
 ["schedules", "histories", "configurations"],
 "all seek programs (including several seeks in a row and seeks during prefetch) and interleavings with the download",
 "The request is computed from the downloaded ranges at the moment the seek is handled, which races with the reader's decision to seek; tests fix that moment.",
 [SD+"source/mod.rs"], [("should_seek check and gap computation", "Source::should_seek, Source::handle_seek"), ("gap completion", "Source::finish_or_find_next_gap")],
 observe=["SourceStream::seek_range arguments"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C07", "Bounded storage never loses unread data and applies back-pressure",
 "With bounded storage the download never overwrites bytes that the reader has not consumed yet: it pauses when the buffer is full of unread data and resumes when the reader consumes some. "
 "A read larger than the capacity, or a forward seek by more than the capacity (after limiting the target to a known length), returns an error instead of blocking, and any other read delivers the correct next bytes of the stream.",
 ["schedules", "inputs", "histories", "configurations"],
 "all interleavings of reader and download over small ring capacities, chunk sizes around the capacity, read sizes up to and beyond it, and short seeks",
 "The wake-up of a paused writer and the wrap-around position depend on how reads and chunk arrivals interleave.",
 [SD+"storage/bounded.rs", SD+"source/mod.rs", SD+"lib.rs"], [("ring buffer accounting", "BoundedStorageReader, BoundedStorageWriter"), ("wait for read", "Source::write, NotifyRead"), ("excess checks", "check_for_excessive_read, check_for_excessive_seek in lib.rs")],
 state=[("ring positions", "absolute read and write positions", "storage/bounded.rs SharedInfo")],
 observe=["bytes returned by reads", "storage capacity used"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C08", "Bounded storage behaves as a fixed-size window over an unbounded stream",
 "For every sequence of writes, reads and position changes on a bounded storage's reader and writer, a write accepts exactly as many bytes as fit without overwriting unread data, and a read returns exactly the bytes most recently written at the reader's position, no more than the writer has written. "
 "Requests it cannot serve are reported as an error or as zero bytes, never as wrong data or a panic.",
 ["inputs", "histories"], "all operation sequences up to a depth over small capacities, with both sides' sizes and seek targets around the wrap-around point",
 "Unit tests check fixed sequences; wrap-around, exactly-full and seek-back cases multiply.",
 [SD+"storage/bounded.rs"], [("ring arithmetic", "SharedInfo::mapped_read_position / mapped_write_position, Read and Write impls")],
 state=[("ring positions", "absolute read and write positions", "storage/bounded.rs SharedInfo")],
 observe=["results of Read/Write/Seek on the bounded reader and writer"])

prop("C09", "Memory and temp-file storage return what was written where it was written",
 "For every sequence of writes and seeks on the writer and reads and seeks on the reader of an unbounded storage, a read returns exactly the bytes last written at the reader's position and never reports bytes beyond the furthest position written. "
 "Reader and writer positions are independent of each other, and data written and flushed is visible to the next read.",
 ["inputs", "histories"], "all operation sequences up to a depth over a small address space, with known and unknown initial length",
 "Unit tests check fixed sequences with contiguous writes; holes, rewrites of ranges the reader already looked at and partial reads multiply.",
 [SD+"storage/memory.rs", SD+"storage/temp.rs"], [("shared buffer with separate positions", "MemoryStorage"), ("separate handles on one file", "TempStorageProvider::into_reader_writer")],
 observe=["results of Read/Write/Seek on the storage handles"])

prop("C10", "Adaptive storage picks the right backend and behaves exactly like it",
 "Adaptive storage keeps a stream of unknown length in the fixed-length backend within the configured buffer size, a stream no longer than the buffer size in the fixed-length backend, and any longer stream in the variable-length backend. "
 "For every sequence of operations it returns the same results and reports the same limits as the storage it picked.",
 ["inputs", "configurations", "histories"], "all content lengths around the buffer size (none, zero, below, equal, above, extreme), all buffer sizes up to a bound, all operation sequences up to a depth",
 "Tests check three lengths; the delegation is written out by hand per backend and per operation.",
 [SD+"storage/adaptive.rs", SD+"storage/mod.rs"], [("selection by content length", "AdaptiveStorageProvider::into_reader_writer"), ("delegation", "AdaptiveStorageReader, AdaptiveStorageWriter")],
 observe=["which inner provider is used and with which length", "results of every operation", "errors for reads larger than the buffer"])

prop("C11", "A failed download is reported by every waiting and later operation",
 "When the download fails (a seek request is refused, the storage cannot be written, or the source's completion hook reports an error), a reader blocked on missing data and every later read or seek returns an error. "
 "The source's completion hook runs exactly once per download, after the last byte was taken from it, with the outcome that occurred; without such a failure no operation reports one.",
 ["schedules", "fault_sequences", "histories"], "a failure injected at each seek request, each storage write, flush or position change and at completion, in every interleaving with the reader",
 "Tests inject one failure at one place; the failure flag and the wake-up are separate steps that race with the reader's checks.",
 [SD+"source/mod.rs", SD+"source/handle.rs", SD+"lib.rs"], [("failure flag set before completion is signalled", "Source::download"), ("checks before and after waiting", "check_for_failure in lib.rs")],
 observe=["results of reads and seeks after the fault", "SourceStream::on_finish calls"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C12", "Cancelling or dropping a stream stops the download and releases everyone",
 "After cancellation (through the reader, its token, or dropping the reader with cancel-on-drop) the download task ends wherever it was, runs the completion hook once with the cancelled outcome, and every blocked or later read that needs missing data returns an error. "
 "Without cancel-on-drop, dropping the reader does not stop a download that can proceed, and cancelling a completed download changes nothing. A callback can cancel too, at any of its calls.",
 ["schedules", "histories", "configurations"], "cancellation or drop at every point of the download and of each reader call, for every storage type and phase (prefetching, downloading, waiting for space, stalled, seeking)",
 "Tests cancel at one or two fixed moments.",
 [SD+"lib.rs", SD+"source/mod.rs"], [("cancellation branch of the download loop", "Source::download_inner"), ("drop cancels", "Drop for StreamDownload in lib.rs")],
 observe=["SourceStream::on_finish outcome", "drop of the source", "results of reads"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C13", "A stalled source is reconnected at the exact position, losing nothing",
 "When no chunk arrives within the retry timeout the source is asked to reconnect at the position of the next byte that is to be stored, and again after each further timeout until data flows. "
 "Whatever was delivered before and after a stall or a failed reconnection attempt, the stored bytes are the resource's bytes, and the reconnect callback runs once per successful reconnection and not for a failed or timed-out one.",
 ["schedules", "fault_sequences", "configurations"], "stalls before every chunk, reconnect attempts that succeed, fail or themselves stall, in every interleaving with the reader, for every storage and prefetch size",
 "Tests stall once at one place with real timers.",
 [SD+"source/mod.rs"], [("timeout around the next chunk", "Source::download_inner"), ("reconnect at the writer's position", "Source::handle_reconnect")],
 observe=["SourceStream::reconnect arguments and times", "on_reconnect callback", "bytes read"], hook=None)

prop("C14", "Progress reports are consistent and end with exactly one completion",
 "Each progress report states a position and a current chunk that are really in storage at that moment, the chunk containing the last byte before the position; prefetch reports come only while prefetching, and within a contiguous download positions grow by exactly the bytes stored. "
 "A download that completes reports completion exactly once and last; one that is cancelled or fails never does, and the elapsed time never runs backwards.",
 ["schedules", "inputs", "histories", "configurations"], "all chunkings (including empty chunks), prefetch sizes, seeks, storages and interleavings",
 "Tests collect reports for one download without seeks.",
 [SD+"source/mod.rs", SD+"settings.rs"], [("report functions", "report_prefetch_progress, report_downloading_progress, report_download_complete in source/mod.rs")],
 observe=["the on_progress callback"], hook=None)

prop("C15", "Reads after start or a seek wait for the prefetch amount, never for more",
 "The first read that has to wait returns only after the prefetch amount (or the whole stream, or as much as the storage can hold) has been stored from the start, and a read that has to wait after a seek that restarted the source likewise waits for the prefetch amount from the seek target; once that much is there it waits for nothing but its own bytes. "
 "A seek that needs data from elsewhere while prefetching ends the prefetch early. "
 "A prefetch size of zero, or larger than the stream or the storage, never blocks a read for good.",
 ["schedules", "configurations", "histories"], "all prefetch sizes from zero to beyond the length and capacity, all chunk sizes and interleavings",
 "Tests use one prefetch size with one chunk size per case.",
 [SD+"source/mod.rs"], [("ranges become readable only when prefetch ends", "Source::handle_prefetch"), ("seek restarts prefetch", "Source::handle_seek")],
 state=[("prefetch phase", "whether and from where prefetch is in progress", "Source::prefetch_complete, prefetch_start_position")],
 observe=["bytes stored at the moment a blocked read returns"], hook=None)

prop("C16", "Sources that cannot seek are never asked to; seeks wait for the stream",
 "A source that says it does not support seeking never receives a range request, whatever the reader does. "
 "A forward seek on such a stream completes once the download has reached the target (or the stream has ended), a backward seek completes at once, and reads afterwards return the right bytes.",
 ["schedules", "histories", "configurations"], "all seek/read programs and interleavings on a non-seekable source with known and unknown length",
 "Tests have one such case.",
 [SD+"source/mod.rs"], [("should_seek and gap completion check seek support", "Source::should_seek, Source::finish_or_find_next_gap")],
 observe=["SourceStream::seek_range calls", "results of reads after seeks"], hook=None)

prop("C17", "The registry gives each input to the first entry whose rules match",
 "For every input and every set of registered entries, the registry resolves the input with the first entry, by ascending priority number and in registration order among equals, one of whose rules matches it, calls that entry's handler once and no other, and reports no match only when there is none. "
 "A rule matches exactly when all of its stated conditions (prefix; plain string or regular expression for inputs that are not URLs; URL scheme and domain for those that are) hold for the input, and an entry chosen by a prefix rule gets the rest of the input and that prefix.",
 ["inputs", "configurations"], "all small inputs (URLs and plain strings) against all small rule sets and entry orders",
 "Tests use a few hand-picked inputs and rules.",
 [SD+"registry/mod.rs", SD+"registry/matcher.rs"], [("ordered search", "Registry::find_match"), ("rule evaluation", "registry/matcher.rs")],
 observe=["the registry's result and which entries' handlers ran"])

prop("C18", "HTTP streams issue the right requests and turn bad responses into errors",
 "Opening an HTTP stream issues one plain GET and takes length, type and range support from the response headers; seeking to [start, end) requests exactly the bytes start through end-1 (open-ended without end), and seeking to the end of the content issues no request and yields an empty stream. "
 "Any request that fails or is answered with an error status, on opening, seeking or reconnecting, is reported as an error carrying the decoded message and its body never becomes stream content; a reconnect, or a seek whose range the server ignores, continues at the requested byte whenever the content length is known, whether or not the server supports ranges.",
 ["inputs", "fault_sequences", "histories"], "all sequences of open, seek and reconnect up to a depth against a server model with every combination of header presence, success, transport error and error status",
 "Tests run against a well-behaved local server plus one error case.",
 [SD+"http/mod.rs"], [("range formatting", "format_range_header_bytes, HttpStream::seek_range"), ("response checking", "ClientResponse::into_result in HttpStream::new and seek_range")],
 observe=["requests received by the client", "results and chunks of the stream"])

prop("C19", "AsyncRead sources stream every byte in order and refuse to seek",
 "Wrapping an asynchronous reader yields exactly its bytes in order up to its end, for every pattern of short reads, pending polls and errors, with the content length given by the caller. "
 "Such a stream declares itself not seekable, refuses range requests and reconnects without being disturbed by them, and reports a read error as an error item instead of dropping or inventing bytes.",
 ["inputs", "fault_sequences"], "all patterns of short read, pending, error and end up to a depth",
 "Tests wrap one in-memory buffer.",
 [SD+"async_read.rs"], [("reader stream adapter", "AsyncReadStream")],
 observe=["items of the stream", "bytes read through StreamDownload"])

prop("C20", "Process pipelines run the configured commands and end cleanly on failure",
 "A process stream delivers exactly the final command's standard output, with every command of a pipeline fed by the one before it and run with exactly the arguments the builders were given, in order. "
 "When the last command fails, or the download does, what the commands wrote to their error output is reported in the log; after a success or a cancellation it is not. A command that takes longer than the last one is left to finish after a success. Cancelling or dropping the stream, or a failed download, ends every process of the pipeline, the outcome given to the completion hook is passed on unchanged, and temporary files are removed.",
 ["inputs", "configurations", "fault_sequences"], "all pipelines up to three stages with every combination of stage success, failure, early exit and output size class; all combinations of builder options",
 "Tests run one or two pipelines of real commands; option combinations are checked by formatting only.",
 [SD+"process/mod.rs", SD+"process/command_builder.rs", SD+"process/ffmpeg.rs", SD+"process/yt_dlp.rs"], [("pipeline wiring and status collection", "SpawnedCommand / ProcessStream in process/mod.rs"), ("argument construction", "FfmpegConvertAudioCommand, YtDlpCommand")],
 observe=["bytes read", "argv seen by the child processes", "on_finish result", "log events", "processes and files left"])

prop("C21", "The OpenDAL source streams the object, seeks exactly and knows its length",
 "A stream over an OpenDAL operator yields the object's bytes from the current position, reports the object's length (none for an empty object), and after a range request or reconnect continues at exactly the requested byte and stops at the requested end. "
 "A missing object or a failing read is reported as an error.",
 ["inputs", "histories"], "all object sizes up to a bound, chunk sizes and sequences of range requests and reconnects up to a depth",
 "The test downloads one object from one service.",
 ["crates/stream-download-opendal/src/lib.rs"], [("reader creation per range", "OpendalStream")],
 observe=["chunks of the stream, content_length, errors"])

prop("C22", "A failed chunk is skipped without losing, duplicating or shifting data",
 "When the source yields an error instead of a chunk and later continues, the download carries on: bytes delivered before and after the error are stored at their own positions, a seekable source of known length whose stream ended early is asked again for the missing part, and readers see only correct data. "
 "An error item or an empty chunk alone never fails the stream, ends it or hangs it.",
 ["fault_sequences", "schedules", "configurations"], "error items at every position of the chunk sequence (alone, repeated, before the end of a range, during prefetch) in every interleaving",
 "Tests inject no error items.",
 [SD+"source/mod.rs"], [("error items are skipped", "Source::handle_bytes"), ("missing parts are requested again", "Source::finish_or_find_next_gap")],
 observe=["bytes read", "calls on the source"], hook=None)

prop("C23", "Storage writes are bounded by the batch size and yield in between",
 "No single write handed to the storage exceeds the configured batch size, whatever the chunk sizes, and the concatenation of the accepted writes is exactly the received data, in order, also when the storage accepts only part of a write. "
 "The download task lets other tasks run between batches, so a large chunk does not delay them until it is fully written.",
 ["inputs", "configurations", "schedules"], "all chunk sizes and batch sizes up to a bound, storages that accept full, partial or no writes",
 "Tests check the final contents only.",
 [SD+"source/mod.rs"], [("batched write loop with yield", "Source::write_batched")],
 observe=["sizes of writes on the storage", "polls of a concurrent task between writes"])

prop("C24", "A dead download task never leaves a reader waiting",
 "When the download task ends in any way other than completing, failing or being cancelled (a panic in the source, the storage or a callback, or the runtime shutting down under it), every blocked read and seek returns an error instead of waiting for ever, and so does every later one. "
 "Nothing passes for end of file or data in that case, the waiters for completion are released, and the source is dropped.",
 ["fault_sequences", "schedules", "histories"], "the task dying at each of its calls to the source, the storage and the callbacks, or at any moment by shutdown, in every interleaving with the reader",
 "No test kills the task; the reader's wait has no timeout, so every path out of the task has to release it.",
 [SD+"source/mod.rs", SD+"lib.rs", SD+"source/handle.rs"], [("failure and completion are signalled when the task's state is dropped", "Drop for Source in source/mod.rs"), ("finished guard", "from_create_stream in lib.rs")],
 observe=["results of reads and seeks", "StreamHandle::wait_for_completion", "drop of the source"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C25", "Settings take effect as given, in any order, and default as documented",
 "Each setting acts on a stream exactly as it was last given, whatever the order of the builder calls and whatever else was set: the prefetch amount, the batch write size, the retry timeout, cancellation on drop and the two callbacks. "
 "A setting that was not given acts as its documented default (256 kilobytes, 4096 bytes, 5 seconds, cancel, no callback), and the getters and the equality of settings agree with that.",
 ["configurations", "histories"], "all sequences of builder calls up to a depth over two or three values per setting, each observed on a running stream",
 "Tests set one or two settings at a time; most builder methods rebuild the whole struct.",
 [SD+"settings.rs", SD+"source/mod.rs", SD+"lib.rs"], [("builder methods", "impl Settings in settings.rs"), ("use of the settings", "Source::new in source/mod.rs, StreamDownload::from_create_stream in lib.rs")],
 observe=["prefetch target and reports", "sizes of storage writes", "time of the first reconnect", "effect of dropping the reader", "getters, equality and debug output"])

prop("C26", "Opening a stream yields a running download or reports why not",
 "Opening a stream creates the source, then the storage for the source's content length, and returns a reader whose content length is the source's and which has started to download. "
 "When the source cannot be created, or the storage cannot, opening reports which of the two it was with the original error's message, nothing goes on running or keeps resources (no task, no request, no temporary file), and the completion hook is not run. "
 "Handles and tokens taken from the reader, and their clones, all refer to this download and stay valid after the reader is gone.",
 ["inputs", "configurations", "fault_sequences"], "all combinations of source creation (at once, late, failing), content length, storage provider and its failure, way of opening, and order in which reader, handles and tokens are used and dropped",
 "Tests open streams that work, and one URL that does not.",
 [SD+"lib.rs", SD+"storage/mod.rs", SD+"storage/temp.rs", SD+"storage/adaptive.rs", SD+"storage/bounded.rs"], [("creation", "StreamDownload::from_create_stream in lib.rs"), ("errors", "StreamInitializationError in lib.rs")],
 observe=["result and error text of opening", "calls on source and storage provider", "files left", "resolution of wait_for_completion"])

prop("C27", "Streams side by side on one runtime are independent",
 "Streams opened side by side on one runtime do not affect each other: whatever happens to one (its source stalls, its bounded storage is full and nobody reads it, it fails, panics, is cancelled or dropped, its seek takes long), the others go on, complete, and deliver the right bytes as if they were alone. "
 "A download that waits, for its source, for its reader or for room in its storage, never blocks the thread of the runtime it runs on.",
 ["schedules", "fault_sequences", "configurations"], "all interleavings of two download tasks on one single-threaded runtime and their readers, over what may happen to the first",
 "Tests open one stream at a time; a task that spins or blocks while it waits goes unnoticed as long as it is alone on its runtime.",
 [SD+"lib.rs", SD+"source/mod.rs", SD+"source/handle.rs"], [("download task", "Source::download in source/mod.rs"), ("waiting for the reader", "Source::write in source/mod.rs"), ("nothing is shared between streams", "StreamDownload::from_create_stream in lib.rs")],
 observe=["bytes and outcome of the second stream", "whether its task gets to run"], hook="scheduling points at the atomics (cfg stream_download_mc)")

prop("C28", "Default middleware applies to every request of the streams created after it",
 "Every HTTP stream the library creates with a middleware client of its own after default middleware was added sends every request (opening, seeking, reconnecting) through all default middleware added before its creation, in the order they were added, each exactly once. "
 "The error of a middleware that refuses is reported and nothing is sent; streams that exist already keep the middleware they have; clients supplied by the caller, and clients without middleware, get none.",
 ["histories", "configurations"], "all sequences up to a depth of adding passing and refusing middleware, opening streams in each way, and requests of old and new streams",
 "Default middleware is a setting of the whole process that can only grow, so tests in one process cannot try more than one history.",
 [SD+"settings.rs", SD+"http/reqwest_middleware_client.rs", SD+"http/mod.rs"], [("default middleware", "Settings::add_default_middleware in settings.rs"), ("client creation", "Client::create for ClientWithMiddleware in http/reqwest_middleware_client.rs")],
 observe=["requests as the server receives them", "errors of opening, seeking and reconnecting"])

prop("C29", "Every stream gets a storage of its own, and nothing of it is left afterwards",
 "The storages made from one provider, or from its clones, are independent: what is written to one is read back from that one only, and its position is not moved by the use of another. A storage's reader and writer each stay usable after the other, the provider and all other storages are dropped. "
 "A temporary-file storage creates exactly one file, where and how the provider was told to (directory, prefix, builder called once per storage, its errors reported), and the file is gone once the storage is. "
 "A bounded storage asks the storage it wraps for no more than the smaller of content length and buffer size and never writes past that.",
 ["histories", "configurations"], "all sequences up to a depth of making storages from a provider and its clones, writing to, reading from and dropping their halves",
 "Tests make one storage of each kind; a leftover file or a shared position shows up only when several are made, used and dropped in some order.",
 [SD+"storage/mod.rs", SD+"storage/memory.rs", SD+"storage/temp.rs", SD+"storage/adaptive.rs", SD+"storage/bounded.rs"], [("temporary files", "TempStorageProvider in storage/temp.rs"), ("shared memory", "MemoryStorage in storage/memory.rs"), ("inner storage", "BoundedStorageProvider::into_reader_writer in storage/bounded.rs")],
 observe=["bytes read from each storage", "files in the directory", "calls of the file builder", "content length the inner provider is given and positions it is written at"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
