#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay readable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

TESTS_NOIO = ("The suite round-trips a few random byte strings through in-memory streams; it never runs the four "
              "programs, real files, pipes, short transfers or more than one delivery of the same data.")

prop("C01", "compress/uncompress round trip is exact under every I/O schedule",
 "Whenever no I/O operation or allocation fails, compress exits with status 0 for every input and every valid combination of options, and uncompress applied to what it wrote exits with status 0 and reproduces the input byte for byte. This holds however the data is delivered: named file, standard input, standard output, pipe, redirected or appended file, in transfers of any size, with any number and size of blocks. It holds equally for the Compressor/Decompressor library classes with any memory limit of at least 100 bytes.",
 ["inputs", "schedules", "configurations"],
 "every byte string, every option vector (encoder, transform, starting points, preprocessing, memory limit, verbosity), every partition of reads and writes, every kind of source and target",
 TESTS_NOIO + " They fix the encoder to 'B' or 'H' and at most 30 starting points.",
 ["compress.cpp", "uncompress.cpp", "Compressor.cpp", "Decompressor.cpp", "Streams.cpp", "Streams.hpp", "BWTBlock.cpp",
  "PrecompressorBlock.cpp", "WaveletCoders.cpp", "WaveletTree.hpp", "HuffmanCoders.cpp", "BitCoders.cpp", "Utils.cpp",
  "Utils.hpp", "bwtransforms/*", "preprocessors/*", "probmodels/*"],
 [("block loop and slicing", "Compressor.cpp:Compressor::compress, PrecompressorBlock.cpp:sliceIntoBlocks"),
  ("mirror block loop", "Decompressor.cpp:Decompressor::decompress"),
  ("back-patched block headers", "Streams.cpp:RawOutStream::getPos/write48bits"),
  ("buffered byte and bit input", "Streams.cpp:RawInStream::fetchByte, Streams.hpp:readBit/readByte/flushBuffer")],
 ["exit status of compress and uncompress", "bytes of the archive and of the restored file"])

prop("C02", "preprocess/postprocess round trip is exact under every I/O schedule",
 "Whenever no I/O operation or allocation fails, preprocess exits with status 0 for every input, block size and preprocessing string, and postprocess applied to what it wrote exits with status 0 and reproduces the input byte for byte, however input and output are delivered and in transfers of any size.",
 ["inputs", "schedules", "configurations"],
 "every byte string, every block size, every sequence of pair-replacement rounds, every partition of reads and writes, every kind of source and target",
 "The preprocess and postprocess programs have no test at all; the pair replacer is tested on single in-memory buffers and the block reader on constant data.",
 ["preprocess.cpp", "postprocess.cpp", "PrecompressorBlock.cpp", "Streams.cpp", "preprocessors/Precompressor.cpp",
  "preprocessors/PairReplacer.cpp", "preprocessors/Grammar.cpp", "preprocessors/Postprocessor.cpp", "preprocessors/FrequencyTable.cpp"],
 [("block loop", "preprocess.cpp:preprocess, postprocess.cpp:postprocess"),
  ("grammar serialisation", "preprocessors/Grammar.cpp:writeGrammar/readGrammar"),
  ("in-place pair replacement", "preprocessors/PairReplacer.cpp:writeReplacedVersion")],
 ["exit status of both programs", "bytes written by both programs"])

prop("C03", "A failed write is never reported as success",
 "If any of the four programs exits with status 0, its target holds the complete, correct output, whatever errors writing, seeking, flushing or closing the target met (no space left, quota, input/output error, broken pipe), at whatever point they occurred and whether they lasted or passed. Equivalently, when output could not be stored completely the exit status is not 0.",
 ["fault_sequences", "inputs", "configurations"],
 "every position and kind of failing write, seek or close on the target, transient or lasting, for every program, option vector, input and kind of target",
 "No test makes an output operation fail.",
 ["Streams.cpp", "compress.cpp", "uncompress.cpp", "preprocess.cpp", "postprocess.cpp"],
 [("buffered writes to the target", "Streams.cpp:RawOutStream::writeByte/writeBlock/flush/write48bits/~RawOutStream")],
 ["exit status", "bytes stored in the target"])

prop("C04", "A failed read is never taken for the end of the input",
 "If any of the four programs exits with status 0, its output represents the whole input: an error while reading the input, at any point and whether it lasts or passes, is either overcome or makes the exit status non-zero. It is never treated as the end of the data.",
 ["fault_sequences", "inputs", "configurations"],
 "every position and kind of failing read on the source, transient or lasting, for every program, option vector, input and kind of source",
 "No test makes an input operation fail.",
 ["Streams.cpp", "Streams.hpp", "PrecompressorBlock.cpp", "compress.cpp", "uncompress.cpp", "preprocess.cpp", "postprocess.cpp"],
 [("buffered reads of the source", "Streams.cpp:RawInStream::fetchByte/peekByte/readBlock")],
 ["exit status", "what the output decodes to"])

prop("C05", "Incomplete archives are rejected in bounded time, never half-believed",
 "Given any proper prefix of an archive written by compress (or of a file written by preprocess), including the empty file, uncompress (or postprocess) stops within a number of steps comparable to that of processing the whole file and exits with a non-zero status. Whatever it wrote before that is a prefix of the original data.",
 ["crash_points", "inputs", "configurations"],
 "every input and option vector, every cut position, delivery of the prefix as file or pipe in transfers of any size",
 "No test decodes an incomplete archive.",
 ["Streams.hpp", "Streams.cpp", "Decompressor.cpp", "uncompress.cpp", "postprocess.cpp", "PrecompressorBlock.cpp",
  "WaveletCoders.cpp", "HuffmanCoders.cpp", "preprocessors/Grammar.cpp", "preprocessors/Postprocessor.cpp"],
 [("explicit end-of-archive marker", "PrecompressorBlock.cpp:writeEmptyHeader/readBlockHeader"),
  ("end-of-data test", "Streams.hpp:RawInStream::readBit/readByte/compressedDataEnding")],
 ["exit status and running time of uncompress/postprocess", "bytes they wrote"])

prop("C06", "A killed or failed run leaves nothing that passes for a finished one",
 "If compress or preprocess is killed at any instant, or fails for any I/O error or for lack of memory, a target it has begun to write is either rejected (non-zero exit) by uncompress or postprocess or decodes to exactly the input, whatever file was there before. Running the same command again on the leftovers, once faults have stopped, exits with status 0 and produces the same bytes as a run that was never disturbed; the same holds for re-running a killed or failed uncompress or postprocess.",
 ["crash_points", "fault_sequences", "histories"],
 "every instant of death (any system call, part-way through a write, or between calls), every failing call, every history of up to several disturbed runs followed by an undisturbed one, over targets that did or did not exist before",
 "No test interrupts a run or re-runs over leftovers.",
 ["Streams.cpp", "Compressor.cpp", "Decompressor.cpp", "PrecompressorBlock.cpp", "preprocess.cpp", "postprocess.cpp"],
 [("targets are truncated when opened", "Streams.cpp:RawOutStream::RawOutStream"),
  ("end marker is written last", "Compressor.cpp:compress, preprocess.cpp:preprocess")],
 ["bytes left in the target at the instant of death", "exit status and output of later runs"])

prop("C07", "Output depends only on the input bytes and the coding options",
 "For given input bytes and given coding options, each of the four programs and the library classes always write the same bytes: it makes no difference whether data comes from or goes to a named file, standard stream, pipe, appended or already existing file, how transfers are split, what verbosity is set, what memory contained before, or which runs came earlier.",
 ["schedules", "histories", "configurations", "inputs"],
 "every pair of deliveries (source kind, target kind, transfer sizes, previous target content, prior memory content, verbosity) of the same input and options",
 "Tests produce every output once, in one way.",
 ["Streams.cpp", "Streams.hpp", "Compressor.cpp", "PrecompressorBlock.cpp", "BWTBlock.cpp", "WaveletCoders.cpp", "HuffmanCoders.cpp",
  "bwtransforms/BWTransform.cpp", "preprocessors/*"],
 [("position handling for back-patched headers", "Streams.cpp:RawOutStream::getPos/write48bits"),
  ("reading blocks of a fixed size whatever the transfer sizes", "Streams.cpp:RawInStream::readBlock")],
 ["bytes written"])

prop("C08", "Running out of memory never yields a wrong result",
 "If any memory allocation fails at any point, each of the four programs either still completes with exactly the output of an undisturbed run or ends with a non-zero status; it never exits with status 0 having written anything else.",
 ["fault_sequences", "inputs", "configurations"],
 "every allocation (and every set of later allocations) failing, for every program, option vector and input",
 "No test makes an allocation fail.",
 ["bwtransforms/Divsufsorter.hpp", "bwtransforms/divsufsort.c", "bwtransforms/SA-IS-bwt.cpp", "bwtransforms/sais.hxx",
  "PrecompressorBlock.cpp", "HuffmanCoders.cpp", "Utils.hpp", "Streams.cpp"],
 [("error codes of the suffix sorters", "bwtransforms/divsufsort.c:divbwt/divbwtf, bwtransforms/sais.hxx:saisxx_bwt"),
  ("malloc/realloc of block memory", "PrecompressorBlock.cpp")],
 ["exit status", "bytes written"])

prop("C09", "The stream classes behave as a plain byte sequence",
 "For every sequence of operations, a file output stream leaves exactly the bytes of the written bytes and blocks in order, each position it reported being the number of bytes written before, with each 48-bit value stored big-endian at the position it was given, and flushed bytes visible to readers at once. A file input stream returns exactly the bytes and bits of the file in order for every mix of bit, byte, 48-bit and block reads and bit-buffer flushes, and reports the data as ending only when at most the final byte is left. Neither depends on how the operating system splits transfers.",
 ["histories", "schedules"],
 "every sequence of stream operations and every partition of the underlying transfers, with data of every length around the buffer sizes",
 "RawStreamTest writes constant data, reads three bytes and counts bytes; back-patching, bit reads, buffer boundaries and split transfers are not touched.",
 ["Streams.cpp", "Streams.hpp"],
 [("output buffer", "Streams.cpp:RawOutStream::writeByte/writeBlock/flush/getPos/write48bits"),
  ("input buffer and bit buffer", "Streams.hpp:RawInStream::readBit/readByte/flushBuffer/compressedDataEnding, Streams.cpp:fetchByte/peekByte/read48bits/readBlock")],
 ["bytes in the file after each flush", "values returned by each operation"],
 hook="BWTC_SIM_BUFFER (optional): smaller stream buffers so that boundaries are met often")

prop("C10", "Block framing and reported sizes are true",
 "In every archive that compress completes, on any kind of target, each transformed block is preceded by a 48-bit length equal to the number of bytes from there to the next block, the declared original sizes add up to the input size, the declared numbers of blocks are right and exactly one end marker closes the archive. The compressed size reported by the library and by compress -v 1 equals the number of bytes written, and the size returned by Decompressor equals the number of bytes restored. In every file that preprocess completes, each block is as long as declared and exactly one end marker closes the file; preprocess -v 1 reports the number of blocks and the size of the input, and postprocess -v 1 the number of blocks, as they are.",
 ["inputs", "configurations", "schedules"],
 "every input, option vector, number and size of blocks, kind of target (including non-seekable and already partly filled ones) and partition of writes",
 "No test looks at the length fields, the block counts or the returned sizes; the decoder ignores the length fields, so wrong ones go unnoticed.",
 ["Compressor.cpp", "Decompressor.cpp", "WaveletCoders.cpp", "HuffmanCoders.cpp", "PrecompressorBlock.cpp", "BWTBlock.cpp", "BitCoders.hpp",
  "preprocessors/Grammar.cpp", "Streams.cpp"],
 [("length accounting", "WaveletCoders.cpp:finishBlock, HuffmanCoders.cpp:finishBlock, BitCoders.hpp:BitEncoder::counter"),
  ("back-patching", "Streams.cpp:RawOutStream::write48bits")],
 ["archive bytes walked by an independent parser", "returned and printed sizes"])

prop("C11", "Nothing but the target is ever written, and it only once the run can start",
 "Given different files as input and target, none of the programs ever modifies its input or any file other than the target. If the input cannot be opened or an option is invalid, the program exits with a non-zero status and a target that already exists keeps its previous content.",
 ["fault_sequences", "configurations", "histories"],
 "every program, every failing open, invalid option value or fault during the run, every previous content of the target",
 "No test runs the programs, let alone with an unopenable input or over an existing target.",
 ["compress.cpp", "uncompress.cpp", "preprocess.cpp", "postprocess.cpp", "Compressor.cpp", "Decompressor.cpp", "Streams.cpp"],
 [("input is opened before the target", "Compressor.cpp/Decompressor.cpp constructors, preprocess.cpp:preprocess, postprocess.cpp:postprocess"),
  ("option validators", "compress.cpp:validate*, preprocess.cpp:validatePreprocOption")],
 ["exit status", "every file of the simulated disk after the run"])

prop("C12", "Library operations do not influence one another",
 "Compressor and Decompressor operations on different objects give the same bytes and return the same sizes as each of them alone, however they are interleaved, whichever ran earlier in the same process, and whether they use the library's file streams or streams of the caller.",
 ["schedules", "histories", "configurations", "inputs"],
 "every interleaving of two or three callers at any point of the code, every mix of compression and decompression, options and inputs, with equal or different options",
 "Tests use one object at a time and check only that decoder and encoder agree; state shared between objects would go unnoticed.",
 ["Compressor.cpp", "Decompressor.cpp", "EntropyCoders.cpp", "WaveletCoders.cpp", "HuffmanCoders.cpp", "BitCoders.cpp", "probmodels/*",
  "preprocessors/*", "bwtransforms/*", "Streams.cpp", "Utils.cpp"],
 [("all coding state lives in objects owned by one Compressor or Decompressor", "Compressor.hpp, Decompressor.hpp, EntropyCoders.cpp"),
  ("no mutable statics in the coding path", "Utils.cpp, bwtransforms/divsufsort.c, bwtransforms/sais.hxx")],
 ["output files of every operation", "returned sizes"])

prop("C13", "Runs never write outside their own memory, even when they fail",
 "On every input and under every I/O or allocation fault, a run that is not itself given a damaged archive never writes outside the heap memory it allocated and never frees memory twice or frees what it did not allocate; with no fault it is never ended by a signal and never trips an internal check.",
 ["inputs", "fault_sequences", "configurations"],
 "every input, option vector, delivery and fault sequence of all programs",
 "Tests run without memory checking on a handful of inputs.",
 ["PrecompressorBlock.cpp", "BWTBlock.cpp", "preprocessors/PairReplacer.cpp", "Utils.hpp", "bwtransforms/*", "HuffmanCoders.cpp", "WaveletTree.hpp", "Streams.cpp"],
 [("one spare byte per block for the transform's sentinel", "PrecompressorBlock.cpp, bwtransforms/BWTransform.cpp"),
  ("circular buffer of a third of the block", "preprocessors/PairReplacer.cpp, Utils.hpp:CircularBuffer")],
 ["guard zones around every heap block", "how the process ended"])

prop("C14", "Memory use is bounded by the memory limit, not by the input",
 "The peak heap memory of compress depends on the memory limit only and not on how long the input is: once the input is longer than a few blocks, a longer input of the same kind does not need more memory, nor does delivery through a pipe or standard streams need more than the compressed size of one block in addition. The same holds for preprocess and the block size, and for uncompress and postprocess with the limit used when the file was written. The peak itself stays within 1.5 times the memory limit plus 4 MiB for compress, and within twice the limit (for preprocess and postprocess: the block size) plus 4 MiB for the other programs.",
 ["inputs", "schedules", "configurations"],
 "every input length, memory limit, encoder and kind of source and target",
 "No test measures memory.",
 ["Compressor.cpp", "Decompressor.cpp", "PrecompressorBlock.cpp", "Streams.cpp", "preprocess.cpp", "postprocess.cpp", "preprocessors/Precompressor.cpp"],
 [("fixed block sizes derived from the limit", "Compressor.cpp:compress"),
  ("blocks are freed after use", "Compressor.cpp, Decompressor.cpp, preprocess.cpp, postprocess.cpp")],
 ["peak of live heap bytes"])

prop("C15", "Every run ends soon after a fault",
 "After an I/O error on its source or target, a failed allocation, or the early end of its input, each of the four programs ends within a number of steps comparable to that of an undisturbed run, provided interruptions and would-block errors occur only finitely often. It never loops for ever on an operation that keeps failing.",
 ["fault_sequences", "inputs", "configurations"],
 "every position and kind of failing read, write, seek, close, open or allocation, lasting or passing, every program, option vector and input",
 "No test makes an operation fail, so loops that retry or wait for more data are never exercised.",
 ["Streams.cpp", "Streams.hpp", "Compressor.cpp", "Decompressor.cpp", "PrecompressorBlock.cpp", "postprocess.cpp", "HuffmanCoders.cpp", "WaveletCoders.cpp"],
 [("errors end the program", "Streams.cpp:RawOutStream, RawInStream"), ("loops until a whole block is read", "Streams.cpp:RawInStream::readBlock")],
 ["number of basic blocks executed until the process ends"])

# Pure functions: no schedule, fault, clock, I/O or history in them.
prop("N01", "Both transform algorithms compute the same Burrows-Wheeler transform",
 "For every block the two selectable transform algorithms produce the same transformed block, starting points and character counts, equal to those defined by sorting all suffixes.",
 ["inputs"], "every byte string and every number of starting points",
 "Tests sample short random strings.",
 ["bwtransforms/divsufsort.c", "bwtransforms/sais.hxx", "bwtransforms/BWTransform.cpp"],
 [("suffix sorters", "bwtransforms/*")], ["return values of the transform functions"])
prop("N02", "Huffman code lengths are optimal and prefix-free",
 "For every frequency table the computed code lengths satisfy Kraft's equality and minimise the total encoded length, and the derived codes are prefix-free.",
 ["inputs"], "every frequency table over 256 symbols", "Tests check a few tables.",
 ["Utils.cpp"], [("in-place code length computation", "Utils.cpp:calculateCodeLengths, computeHuffmanCodes")],
 ["returned lengths and codes"])
prop("N03", "Packed integers decode to what was encoded",
 "Unpacking a packed integer gives the original value and the reported number of bytes for every integer below 2^56.",
 ["inputs"], "every integer below 2^56", "Tests try a range of values.",
 ["Utils.cpp", "Utils.hpp"], [("seven bits per byte with continuation flag", "Utils.cpp:packInteger/unpackInteger")],
 ["returned values"])

with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
