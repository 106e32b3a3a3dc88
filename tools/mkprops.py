"""Writes properties.jsonl (kept as a script so that the wording has one home)."""
import json
import os

G = "mediagrains/gsf.py"
A = "mediagrains/utils/asyncbinaryio.py"
IOB = "mediagrains/utils/iobytes.py"
GR = "mediagrains/grains/Grain.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state or []],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
                          "hook_needed": None}})


prop("G01", "What is written to a GSF file is exactly what is read back",
     "A file produced by the encoder, synchronous or asynchronous, in one go or progressively, over any file or stream "
     "that transfers bytes in whatever pieces it likes, conforms to the published format and contains exactly the "
     "header, segments, tags, flow metadata and grains that were added, each grain once, in order, in its own segment. "
     "Reading it back with any decoder, transport, chunking and data loading mode delivers exactly those values. Values "
     "which the format cannot hold are refused, not written as others.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "for all file descriptions (format versions 7 to 9, any segments, tags, flow metadata, grains of every type with "
     "boundary values), all ways of handing them to an encoder, all pairs of encoder and decoder transport, all short "
     "transfers, chunk boundaries and completion delays",
     "The tests encode a few hand-made grains to one in-memory buffer and decode one stored file; they never meet a "
     "transport that transfers fewer bytes than asked, and compare few of the combinations of writer, reader and "
     "loading mode.",
     [G, A, IOB, "gsf_docs"], [("encoding", G), ("decoding", G), ("transports", A)],
     ["bytes of the file", "decoded header", "decoded grains"])

prop("G02", "A dump cut off at any point still reads as an exact prefix",
     "If the process writing a progressive file dies at any moment, leaving only what had reached storage with the last "
     "write possibly torn, then reading what is left delivers exactly a leading part of the grains that were written, "
     "including every grain that is complete there, and nothing else. Once the header is complete such a file is read "
     "without an error (an incomplete grain is left out, or reports the missing data when its data is asked for), and "
     "each segment count is either exact or marks the number as unknown; with an incomplete header a clear error is "
     "raised. The same holds for a stream whose sender goes away.",
     ["crash_points", "schedules", "configurations", "inputs"],
     "for all files, all crash points between and inside raw writes of every encoder and transport, and all ways of "
     "reading the remains",
     "No test truncates a file at arbitrary offsets or reconstructs what storage holds part way through a dump; that "
     "must hold for every crash point and every reader.",
     [G, A, IOB], [("progressive dump, segment count patching and terminator", G), ("end of file handling", G)],
     ["surviving storage image", "decoded grains", "exceptions"],
     [("segment count position", "where the count is patched when the dump ends", G)])

prop("G03", "Storage errors are reported and never turn into wrong data",
     "When reading or writing the underlying file fails (an I/O error, a full disk, a connection reset), the operation "
     "that needed it reports an error to its caller. Grains delivered before a read error are exactly right, and after "
     "a write error what is in the file reads back as an exact prefix of what was added, containing at least every "
     "grain whose addition was acknowledged on unbuffered storage.",
     ["fault_sequences", "configurations", "inputs", "schedules"],
     "for all files, every raw read and write as the point of failure, every kind of error, all encoders, decoders and "
     "transports",
     "The tests use in-memory buffers that never fail; error paths have to hold for every position of the fault.",
     [G, A, IOB], [("exact length reads", G), ("failed write handling", G)], ["exceptions", "decoded grains",
                                                                             "surviving file"])

prop("G04", "Deferred grain data loads correctly however tasks are scheduled",
     "With an asynchronous decoder that defers loading, awaiting grains from any number of tasks, in any order, "
     "concurrently with each other and with the iteration that produces further grains, gives each grain exactly its "
     "own data and never disturbs the iteration, also when some of those tasks are cancelled or a read fails. When the "
     "decoder is closed, early or not, grains not yet awaited are loaded or left permanently without data as the "
     "loading mode says, and grains already being loaded get their data.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "for all files, all interleavings of iteration, loads, cancellations and closing, all I/O completion orders and "
     "read faults",
     "The tests await every grain immediately, one at a time; the file position is shared state whose handling only "
     "shows under interleavings the tests do not produce.",
     [G, A, GR], [("out of order reads under a lock", G), ("closing of sessions", G)],
     ["grain data", "order of iteration"],
     [("unloaded lazy grains", "grains whose data is still in the file", G)])

prop("G05", "Deferred data behaves like the bytes it stands for",
     "With a synchronous decoder that defers loading, every deferred data element behaves as the bytes it stands for, "
     "in every order of access interleaved with the iteration and with other deferred elements, and its length is known "
     "without reading. Accessing it leaves the position of the file unchanged, even if reading fails; after a failure "
     "it can be accessed again and then gives the right bytes.",
     ["histories", "fault_sequences", "inputs"],
     "for all files, all interleavings of iteration, accesses of every kind and unrelated use of the file position, all "
     "read faults and short reads",
     "The tests access one element once on an in-memory buffer; restoring the position and retrying after a fault are "
     "not exercised.",
     [IOB, G], [("lazy loading with restored position", IOB)], ["values", "file position"])

prop("G06", "Asynchronous byte streams behave like ordinary binary files",
     "Each asynchronous adapter, over memory, a wrapped file or a network stream, gives for every sequence of reads, "
     "writes, seeks, position queries and truncations the results that a plain sequential byte file would give, within "
     "the operations it supports. Reading an exact number of bytes never silently loses, repeats or reorders data, "
     "whatever the sizes and timing of the underlying transfers.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "for all operation sequences on all adapters, all chunkings, short transfers, delays and read faults",
     "The tests call each method a few times from a fresh position; agreement with a byte file is a property of every "
     "sequence of operations.",
     [A], [("adapters", A)], ["returned bytes", "positions", "final contents"])

prop("G07", "All ways of reading a file agree, and all of them terminate",
     "For every sequence of bytes, valid, truncated or corrupted, every synchronous and asynchronous way of reading it "
     "finishes, and all agree on the header, on the grains delivered, in order, and on whether the file is accepted; "
     "loading modes differ only in when data is read and skipping data only leaves the data out. A file that is not "
     "accepted leads to an error, never to endless work.",
     ["inputs", "configurations", "schedules"],
     "for all byte sequences (valid files with random mutations, truncations, block edits), all pairs of decoders, "
     "transports and loading modes",
     "The two decoders are separate implementations and the tests compare them on well-formed files only.",
     [G, A, IOB], [("synchronous and asynchronous block readers", G)], ["decoded header", "decoded grains",
                                                                        "exceptions"])

prop("G08", "Readers skip what they do not know, and follow concatenated files",
     "Blocks of unknown type at any level where the format allows them, fill blocks, and properties appended to known "
     "blocks by newer minor versions do not change what any reader delivers for the parts it knows. Several complete "
     "files one after another are read as one sequence of grains, each with the version and header of its own file, "
     "unless concatenation is switched off, in which case reading stops at the end of the first.",
     ["inputs", "configurations", "schedules"],
     "for all files written by an independent writer with unknown blocks and properties in all allowed places, all "
     "concatenations, all readers, transports and chunkings",
     "The tests hold a handful of hand-written blocks; tolerance has to hold for every position and size of unknown "
     "content.",
     [G, "gsf_docs"], [("block seeking and child block iteration", G), ("concatenation", G)],
     ["decoded header", "decoded grains"])

prop("G09", "Encoder operations apply exactly once or are rejected without effect",
     "For every history of operations on an encoder, its open form and its segments, across repeated dumps of the same "
     "encoder, every accepted grain is written exactly once, every accepted tag, segment and flow is in the header, and "
     "segment counts equal the number of grains written. Operations that come too late, such as adding tags or segments "
     "once the header has been written, or that make no sense are rejected with an error and change nothing. A dump "
     "that fails for a grain with values which do not fit in the format loses no other grain.",
     ["histories", "configurations", "schedules"],
     "for all sequences of operations, through every object that offers them, before, during and after dumps, "
     "synchronous and asynchronous, on seekable and unseekable outputs",
     "The tests check single rejections and single dumps; exactly-once over histories, and what a rejected operation "
     "leaves behind, needs arbitrary sequences.",
     [G], [("active dump checks", G), ("write counts", G)], ["file contents", "exceptions", "segment counts"])

prop("G10", "Tasks sharing a streaming encoder do not damage each other's grains",
     "When several tasks add grains to one asynchronous progressive dump concurrently, each grain whose addition "
     "completed is in the file exactly once and whole, the grains of one task are in the order it added them, and the "
     "segment counts are right. A task that is cancelled while adding leaves its current grain either whole, once, or "
     "absent, and the file stays readable.",
     ["schedules", "fault_sequences", "histories"],
     "for all numbers of producers, all completion orders of writes, partial writes, back-pressure and cancellations at "
     "any point",
     "No test uses an encoder from two tasks or cancels an addition.",
     [G, A], [("asynchronous encoder", G)], ["file contents", "segment counts"])

prop("G11", "Wrapping an elementary stream in grains conserves every byte",
     "Wrapping raw video, raw audio, AAC or H.264 data in grains yields grains whose data, concatenated, is exactly the "
     "input, split at the frame boundaries of the stream, with metadata taken from the stream and timestamps that "
     "follow one another at the media rate without gaps, drift or overlap. Neither the split nor the metadata depends "
     "on how the input delivers its bytes. A damaged stream is refused where it is damaged, or still conserved.",
     ["inputs", "schedules", "configurations"],
     "for all generated streams, frame sizes, rates, start times and deliveries of the input",
     "The tests wrap one stored sample per codec, read from a file at once.",
     ["mediagrains/utils/grain_wrapper.py", "mediagrains/utils/adts_aac_grain_wrapper.py",
      "mediagrains/utils/h264_grain_wrapper.py", "mediagrains/utils/h264_parser.py"],
     [("frame splitting", "mediagrains/utils/h264_grain_wrapper.py")], ["grain data", "timestamps", "metadata"])

prop("G12", "Command line tools give the same result through pipes as through files",
     "Wrapping media with the command line tools and extracting it again gives back the original bytes, for every "
     "combination of named files and standard input and output and however pipes split the data. Extraction of chosen "
     "segments gives exactly their data, probing reports the header and the time range of the grains (also where several files follow one another), and a truncated "
     "or failing input is never silently completed with wrong data.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "for all media, options, files or pipes on either side, all pipe chunkings and truncations",
     "The tests do not run the tools through pipes at all.",
     ["mediagrains/tools/_file_or_pipe.py", "mediagrains/tools/wrap_in_gsf.py",
      "mediagrains/tools/extract_from_gsf.py", G], [("pipe wrapper", "mediagrains/tools/_file_or_pipe.py")],
     ["output bytes", "exit"])

prop("G13", "A grain's awaited data is the same for everyone who awaits it",
     "A grain given its data as an awaitable can be awaited by any number of tasks, before, during and after the data "
     "arrives, with any of them cancelled: each gets the same data, the awaitable runs once, and afterwards the data is "
     "present on the grain like data given directly, for every grain type including array grains. An error of the "
     "awaitable reaches those that await it, and data set explicitly meanwhile is not overwritten.",
     ["schedules", "histories", "fault_sequences"],
     "for all grain types, all interleavings of awaits, cancellations, completion or failure of the awaitable, and "
     "explicit assignments",
     "The tests await a grain once from one task with an awaitable that is ready.",
     [GR, "mediagrains/grains/EventGrain.py", "mediagrains/numpy/numpy_grains"], [("awaiting a grain", GR)],
     ["results of awaiting", "grain data", "grain length"])

prop("G14", "Test pattern generators are repeatable and independent of each other",
     "The grain a test pattern generator yields for a point in time depends only on the generator's parameters and that "
     "point: it is the same whether asked for directly or reached through a range or stepping, however accesses to this "
     "and other generators are interleaved, and whatever is done to grains yielded before. Grains once yielded do not "
     "change later, and a range yields one grain per period with contiguous timestamps.",
     ["histories", "schedules", "configurations"],
     "for all generators and parameters and all interleavings of accesses, ranges, reading and modifying their grains",
     "The tests consume one generator at a time and look at each grain once.",
     ["mediagrains/patterngenerators"],
     [("generators", "mediagrains/patterngenerators/abc.py"), ("cached samples",
                                                               "mediagrains/patterngenerators/audio/tone.py")],
     ["grain data", "timestamps"])

prop("G15", "Damage inside one grain's payload or unknown blocks stays there",
     "Changing bytes of a grain's payload, of an unknown block's contents or of one grain's metadata values (to others "
     "the format allows; texts excluded), without changing sizes, changes only what is delivered for that part: every "
     "other grain and the header are delivered unchanged, by every reader, whether it loads grains at once, later or as "
     "its session ends. The readers never interpret payload bytes as structure, even if they look like it. (The payload "
     "of an event grain that is no event any more may be reported with an error where it is loaded.)",
     ["inputs", "fault_sequences", "configurations"],
     "for all files, all byte positions outside tags and sizes, all corrupted values, all readers and transports",
     "The tests never corrupt a file other than at its header.",
     [G, IOB], [("block nesting", G)], ["decoded header", "decoded grains"])

prop("G16", "A grain's views agree with its whole history; copies are independent",
     "Everything that can be read from a grain - its attributes and derived timestamps, the metadata dictionary, the "
     "tuple it stands for, its components, time labels, unit offsets and event data, its bytes, length and expected "
     "length, and the component or channel arrays of numpy grains - shows the effects of all changes made so far "
     "through any of these, and only these. List elements taken earlier stay live; lists behave like Python lists, also "
     "while absent; objects handed in can be changed afterwards without changing the grain. Reading, comparing, "
     "encoding, copying and converting change nothing. A deep copy or a converted grain equals its original then, keeps "
     "its metadata, and neither changes with the other later. Arrays never reach beyond the data. A "
     "grain starts with what its constructor was given, and documented defaults for the rest.",
     ["histories", "inputs", "schedules"],
     "for all grain types, all histories of changes through all interfaces by several users of a grain and its copies, "
     "and all values the metadata can hold",
     "The tests set each attribute once on a fresh grain and read that attribute back.",
     [GR, "mediagrains/grains", "mediagrains/numpy/numpy_grains"], [("grain views", GR)],
     ["attributes", "metadata", "data", "component and channel arrays", "equality"])

prop("G17", "Sessions give back what they opened, and others can follow",
     "A decoder or encoder session that is given a file object it has to open (an AsyncBinaryIO) opens it once, uses it "
     "only while it is open and closes it exactly once, however the session ends: normally, by leaving early, by an "
     "error in its body, because the input is no valid GSF file, because reading, writing, opening or closing failed, "
     "or by cancellation at any moment, including while it is being begun or ended. A file handed over open is never "
     "closed. The body's error is what the caller gets, no task keeps running, and the same decoder or encoder can then "
     "be used for another session, which works as if the failed one had not been: its header holds all tags and "
     "segments that were accepted, no grain is written twice by sessions that ended well, and none accepted later is "
     "lost or refused.",
     ["histories", "schedules", "fault_sequences"],
     "for all sequences of sessions of one decoder or encoder, all ways and moments of their ending and all schedules "
     "of the tasks using them",
     "The tests run one session to its normal end and never look at whether the file was closed.",
     [G, IOB], [("entering and leaving sessions", G), ("opening and closing files", IOB)],
     ["operations on the file", "exceptions", "file contents", "decoded grains"])

prop("G18", "Comparing recordings finds every difference, and only differences",
     "Comparing two grains, or two sequences of grains, says that they match exactly if everything that is compared "
     "and not excluded is equal - or differs by what the given options expect - and names the rest: each attribute, "
     "metadata key, list element or data word that differs is reported as failing where it is, everything excluded is "
     "marked as such and never fails, and everything else is reported as matching. This holds however the data gets "
     "there: grains made in memory or loaded from files through short reads and delays, data loaded already, deferred or "
     "awaited, bytes of any kind or numpy. One option, pair or earlier comparison has no effect on another. Sequences "
     "of different lengths differ, no more grains are taken from an iterable than are needed to tell, and the "
     "comparison leaves the grains unchanged. An error while reading data reaches the caller; it is never taken for a "
     "match or for a difference, and comparing again afterwards gives the right answer.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "for all pairs of recordings, all places in which they differ, all comparison options and all read errors and "
     "short reads while deferred data is loaded",
     "The tests compare single hand-made pairs of grains in memory that differ in one attribute, and never compare "
     "sequences, deferred data or data which can't be read.",
     ["mediagrains/comparison", GR, G], [("comparison", "mediagrains/comparison/__init__.py")],
     ["verdict", "failing attributes", "descriptions", "differences reported", "exceptions"])

prop("G19", "Conversion of video keeps the picture",
     "Converting a numpy video grain gives a grain of the format asked for in which every sample is what the exact "
     "conversion of the picture gives, up to the rounding steps involved: formats that only arrange samples differently "
     "lose nothing, added bits are noise below the bits there were, lost bits are rounded away, subsampled chroma is "
     "the mean of what it stands for, colours follow BT.709, and values beyond the ends of the range stop there. This "
     "holds for all pairs of formats with component access and v210, at all sizes the formats can have, wherever the "
     "data lies in memory and however it got there, for the extremes of sample values and of the random noise, for "
     "conversions of converted grains, and for several threads converting at a time. Timestamps, ids and rates go with "
     "the picture, the original doesn't change and shares nothing with the result. Conversions can be registered; the "
     "last one registered is the one used, also on the way to a third format. What isn't possible raises "
     "NotImplementedError, and a failed conversion has no effect on others.",
     ["inputs", "configurations", "histories", "schedules", "fault_sequences"],
     "for all format pairs, dimensions, layouts, sample values and noise, all chains of conversions and schedules of "
     "the threads converting",
     "The tests convert one 16x16 test pattern of five mid-range values with whatever noise comes up, for each pair.",
     ["mediagrains/numpy/convert.py", "mediagrains/numpy/numpy_grains/VideoGrain.py"],
     [("conversion", "mediagrains/numpy/convert.py")],
     ["samples", "metadata", "exceptions"])

prop("G20", "The hypothesis strategies draw the grains that were asked for",
     "A grain drawn from one of the strategies of mediagrains.hypothesis is of the type asked for and each of its "
     "attributes is the value given, one of those the given strategy can draw, one in the documented domain if None was "
     "given or nothing, or the documented default if it is DONOTSET; its data has the size that goes with these and is "
     "all zero, or, for the strategies with data, valid samples for the format (finite, not negative floats) or the data "
     "asked for. This holds for every sequence of choices the engine makes: random ones, the simplest, those of an "
     "earlier example again, which give an equal grain, and simplified ones as in shrinking; draws that are given up "
     "have no effect. Drawing from a template changes nothing but the data. Drawn grains are independent of each other, "
     "of templates and of what the caller passed, timestamps not set are the time of drawing, and strategies always "
     "have examples. Unknown types and attributes raise ValueError.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "for all strategies and their parameters, all choice sequences of the engine, and all histories of draws, given up "
     "draws and changes of drawn grains",
     "The strategies are only used by tests of other parts, with their default parameters; nothing looks at what they "
     "draw.",
     ["mediagrains/hypothesis/strategies.py"],
     [("strategies", "mediagrains/hypothesis/strategies.py")],
     ["grain attributes", "data", "exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
