#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, not there."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Automatic compression honours the requested maximum error",
  "Compressing any series of finite numbers with automatic compressor selection at a maximum error of E percent (0 to 50) and any selection sampling level (0 to 6), then decompressing, gives in every frame a mean absolute percentage error of at most E percent. "
  "A sample that was zero adds no error when it comes back as zero and makes the error infinite otherwise.",
  ["inputs", "configurations"], "every finite series x every E in 0..50 x every sampling level 0..6 x every frame of the stream",
  "The tests run auto on one recorded file at E=0 and E=5 with sampling level 0; the bound has to hold for every signal shape, magnitude, frame length and sampling level.",
  ["atsc/src/frame/mod.rs", "atsc/src/compressor/fft.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/compressor/rle.rs", "atsc/src/utils/error.rs", "atsc/src/optimizer/utils.rs"],
  [("candidates are filtered by their reported error; RLE is a zero-error fallback", "atsc/src/frame/mod.rs compress_best"),
   ("error-control loops of FFT and Polynomial", "compress_bounded in fft.rs and polynomial.rs")],
  [("DataStats", "min/max/bit depth that select the constant path and the integer encodings", "atsc/src/optimizer/utils.rs")],
  ["CompressedStream::compress_chunk_bounded_with -> to_bytes -> from_bytes -> decompress", "the atsc command line"])

p("C02", "Lossless settings reproduce the series exactly",
  "With a maximum error of 0 and the automatic, polynomial or idw compressor, and with the rle compressor at any setting, decompression returns numbers exactly equal to the finite input samples. The same holds for the constant compressor, and for every error setting of the automatic one, on a frame whose samples are all equal.",
  ["inputs", "configurations"], "every finite series (any magnitude, sign, fractional or integer, any frame length) x the lossless configurations",
  "Tests check lossless mode on one file of medium-sized integers-valued doubles; encodings switch on value ranges, fractional parts and lengths the samples never cross.",
  ["atsc/src/compressor/rle.rs", "atsc/src/compressor/constant.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/optimizer/utils.rs", "atsc/src/frame/mod.rs"],
  [("bit depth selection by integer range and fractional part", "atsc/src/optimizer/utils.rs DataStats::new"),
   ("index RLE encode/decode", "atsc/src/compressor/rle.rs"), ("store-everything fallback", "polynomial.rs compress_bounded")],
  [("Bitdepth", "width used to store values", "atsc/src/optimizer/utils.rs")],
  ["CompressedStream round trip"])

p("C03", "Forced polynomial and idw compression honours the maximum error",
  "When the polynomial or the idw compressor is selected explicitly with a maximum error of E percent (0 to 50), every decompressed frame has a mean absolute percentage error of at most E percent, counting a zero sample as exact only when it comes back as zero.",
  ["inputs", "configurations"], "every finite series x E in 0..50 x {polynomial, idw}",
  "Two unit tests on a 17-sample vector and one e2e file; the control loop's step, iteration cap and fallback depend on the length and the data.",
  ["atsc/src/compressor/polynomial.rs", "atsc/src/utils/error.rs", "atsc/src/utils/mod.rs"],
  [("error-control loop, point step and store-everything fallback", "atsc/src/compressor/polynomial.rs compress_bounded")],
  [("point_step / data_points", "which samples are kept", "polynomial.rs Polynomial")],
  ["CompressedStream round trip"])

p("C04", "The error a compressor reports is the error of what it stored",
  "For every finite series and error target, the error figure that a bounded compression returns with its compressed bytes is the mean absolute percentage error between the input and the decompression of those same bytes (up to floating-point rounding; zero samples count as in C01). A series too large for single precision may be reported with an error that is not a number, which is within no target. In particular no compressor reports less error than it causes.",
  ["inputs", "configurations"], "every finite series x every target error x {noop, fft, polynomial, idw, rle, constant}; constant also on series that are not constant",
  "No test compares the reported figure with a measurement; automatic selection trusts it blindly.",
  ["atsc/src/compressor/mod.rs", "atsc/src/compressor/fft.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/compressor/rle.rs"],
  [("calculate_error over the would-be output inside compress_bounded", "fft.rs, polynomial.rs")],
  [("CompressorResult.error", "error claimed for the bytes", "atsc/src/compressor/mod.rs")],
  ["Compressor::get_compress_bounded_results + Compressor::decompress"])

p("C05", "Every finite sample comes back exactly once and in order",
  "Planning and compressing a series with any compressor and then decompressing returns exactly one value per finite input sample, in input order; NaN and infinite samples are dropped and nothing else is. The plan splits the cleaned series, without gap or overlap, into non-empty chunks of at most 131072 samples, and the output is the concatenation of the chunks' own decompressions.",
  ["inputs", "configurations"], "every series length (0, 1, around every power of two and 3-smooth size, several maximal frames) x every compressor x any placement of NaN and infinities",
  "Tests use four lengths for chunk planning and three recorded files; padding, trimming and chunk arithmetic differ for each length.",
  ["atsc/src/optimizer/mod.rs", "atsc/src/data.rs", "atsc/src/frame/mod.rs", "atsc/src/compressor/fft.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/utils/mod.rs"],
  [("clean_data, get_chunks_sizes, get_execution", "atsc/src/optimizer/mod.rs"), ("Gibbs padding and trimming by frame length", "fft.rs gibbs_sizing, to_data"), ("frames decoded in order", "data.rs decompress")],
  [("chunk_sizes", "partition of the series", "optimizer/mod.rs OptimizerPlan"), ("sample_count", "samples a frame must give back", "frame/mod.rs CompressorFrame")],
  ["OptimizerPlan::plan + get_execution", "CompressedStream::decompress"])

p("C06", "The noop compressor stores every sample rounded to the nearest integer",
  "For any finite series whose values fit a signed 64-bit integer, compressing with noop and decompressing yields, sample by sample, the input rounded to the nearest integer with ties away from zero; integer-valued input is therefore reproduced exactly.",
  ["inputs"], "every finite series with |x| < 2^63, every frame length",
  "Unit tests cover four values and one file.",
  ["atsc/src/compressor/noop.rs"], [("round, i64, variable-length integers", "atsc/src/compressor/noop.rs")],
  observe=["CompressedStream round trip with Noop"])

p("C07", "Decompressed values never leave the range of the frame's input",
  "In every frame stored as polynomial, idw, rle or constant, whether selected automatically or not, each decompressed value lies between the smallest and largest input sample of that frame; in one stored as fft it lies between those bounds rounded to single precision, as long as the samples stay below 1e30 in magnitude. No finite input with samples below 1e30 in magnitude ever decompresses to NaN or infinity.",
  ["inputs", "configurations"], "every finite series x every lossy compressor x every error target",
  "Overshoot of splines and Gibbs ringing depend on the signal; tests check only an average error.",
  ["atsc/src/compressor/fft.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/utils/mod.rs"],
  [("clamping after interpolation / inverse transform", "round_and_limit_f64, FFT::round")],
  [("min/max stored with the frame", "clamp limits", "fft.rs, polynomial.rs")],
  ["CompressedStream round trip per chunk"])

p("C08", "Compression is deterministic and frames are independent",
  "Compressing the same chunk with the same settings always produces the same bytes and decompressing the same bytes always produces the same numbers, in any thread, any process and at any time. A frame's decompressed content does not depend on which frames precede or follow it in the stream.",
  ["schedules", "histories", "inputs"], "every input x repeated runs, concurrent compressions in many threads, separate processes, every position of a frame in a stream",
  "Tests compress each input once, in one thread; nothing compares two runs or two positions.",
  ["atsc/src/compressor/rle.rs", "atsc/src/compressor/fft.rs", "atsc/src/frame/mod.rs", "atsc/src/data.rs"],
  [("ordered map instead of a hash map", "rle.rs IndexRLE::new"), ("no state shared between frames", "data.rs")],
  observe=["bytes of to_bytes and output of decompress across threads, runs and stream positions"])

p("C09", "Version-1 .bro files keep their documented binary meaning",
  "A stream written by the current code is readable by a fixed, independent decoder of the version-1 format (magic BRRO, little-endian version, frame count, frames with sample count, compressor tag and payload) which reconstructs the same numbers as the current decompressor, and .bro files written by the released version decompress to the numbers they decompressed to then (to the fifth decimal for polynomial and idw frames and to single precision for fft frames; samples beyond 1e300, and beyond 1e30 in fft frames, excepted).",
  ["inputs", "histories", "programs"], "every stream the compressor can write x an independent reader; every archived version-1 file x the current reader",
  "Every test writes and reads with the same build, so a change made on both sides at once goes unnoticed while archived data becomes unreadable.",
  ["atsc/src/header.rs", "atsc/src/data.rs", "atsc/src/frame/mod.rs", "atsc/src/compressor/mod.rs", "atsc/src/compressor/constant.rs", "atsc/src/compressor/noop.rs", "atsc/src/compressor/rle.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/compressor/fft.rs"],
  [("Encode/Decode implementations, enum order, bincode standard configuration", "compressor/*.rs, frame/mod.rs, header.rs")],
  observe=["CompressedStream::to_bytes", "CompressedStream::from_bytes + decompress on archived files"])

p("C10", "A stream of any number of frames survives serialisation",
  "For any number of frames (none, one, hundreds) of any mix of compressors, serialising a stream and reading it back yields a stream that decompresses to the same numbers as before, namely the frames' outputs in the order they were added. The header's frame count equals the number of frames, staying at 255 when there are more.",
  ["inputs", "histories"], "every sequence of chunk additions (any count, compressor mix, sizes from one sample up)",
  "Tests build streams of one frame.",
  ["atsc/src/data.rs", "atsc/src/header.rs", "atsc/src/frame/mod.rs"],
  [("add_frame, to_bytes, from_bytes", "data.rs, header.rs")],
  [("frame_count", "u8 count of frames in the header", "header.rs")],
  ["CompressedStream API", "atsc -u on the serialised bytes"])

p("C11", "Damaged or foreign .bro input is rejected without side effects",
  "Decompressing a file that is not a version-1 stream - foreign magic, a newer version, cut short at any byte, or arbitrary bytes after a valid header - never hangs, never accesses memory out of bounds and never modifies or creates an output file unless it exits successfully. A file with foreign magic never produces any output. Every strict prefix of a valid non-empty stream and every file of a higher version is refused with a non-zero exit status; a complete file, including one with no samples, is accepted.",
  ["inputs", "crash_points", "fault_sequences"], "every truncation point of every stream; every version number; every byte sequence after the header",
  "One unit test checks one higher version number.",
  ["atsc/src/main.rs", "atsc/src/data.rs", "atsc/src/header.rs", "atsc/src/utils/readers/bro_reader.rs"],
  [("magic and version check", "header.rs from_bytes, bro_reader.rs"), ("decode everything before writing", "main.rs process_single_file")],
  observe=["exit status of atsc -u, content of the output path before and after"])

p("C12", "WBRO files store every number bit for bit",
  "Writing any sequence of 64-bit floats (NaN payloads, infinities, signed zeros and subnormals included) to a WBRO file and reading it back returns the identical bit patterns in the same order, for every length. A WBRO built sample by sample equals one built from the whole sequence, carries a sample count equal to the number of samples, and holds them in chunks of 2048 with only the last one shorter.",
  ["inputs", "histories"], "every sequence of f64 bit patterns x every length, incl. around multiples of 2048 x both construction paths",
  "Tests use three samples.",
  ["wavbrro/src/wavbrro.rs", "wavbrro/src/read.rs", "wavbrro/src/write.rs"],
  [("chunking and rkyv serialisation", "wavbrro.rs"), ("header and payload offsets", "read.rs, write.rs")],
  [("sample_count, chunks", "content of the file", "wavbrro.rs WavBrro")],
  ["WavBrro::{add_sample,to_file,to_file_with_data,from_file,to_bytes,from_bytes}"])

p("C13", "Damaged WBRO data is refused, wherever the bytes lie in memory",
  "Reading a WBRO file without the WBRO markers returns an error; reading damaged bytes, including a file cut short at any byte, is refused (error or panic) or yields a sequence, but never touches memory outside the buffer, and a file cut short is never accepted as a series, unless what is left is itself a complete WBRO file. Whether bytes are accepted and what they decode to depends only on their values, never on the address they are stored at.",
  ["inputs", "crash_points"], "every truncation point, random corruption and every buffer alignment",
  "No test reads a damaged file or a buffer at another alignment.",
  ["wavbrro/src/read.rs", "wavbrro/src/wavbrro.rs"],
  [("is_wavbrro_file", "read.rs"), ("rkyv byte validation before deserialisation", "wavbrro.rs from_bytes")],
  observe=["WavBrro::from_file, WavBrro::from_bytes under AddressSanitizer and Miri"])

p("C14", "The time index returns the exact timestamp of every sample",
  "After any sequence of non-decreasing timestamps (seconds of a day) has been accepted by the index, the sample count is the number of accepted timestamps, the timestamp of sample i is exactly the i-th accepted one for every i, the list of all timestamps is exactly the accepted sequence, and minimum and maximum are its first and last elements.",
  ["histories", "inputs"], "every non-decreasing timestamp sequence: regular rates, gaps, rate changes, jitter, repeated timestamps, single points",
  "The crate has no behavioural test at all (only no_run doc tests).",
  ["vsri/src/lib.rs"],
  [("segment construction", "vsri/src/lib.rs update_for_point, generate_segment, fits_segment"), ("get_time, get_all_timestamps, get_sample_count", "vsri/src/lib.rs")],
  [("vsri_segments", "[rate, x0, y0, length] lines", "vsri/src/lib.rs Vsri")],
  ["Vsri public API"])

p("C15", "Time index lookups find the recorded sample or the right neighbour",
  "For every recorded timestamp, looking up its sample returns the position of the first sample recorded at it, and a timestamp outside every recorded stretch of regular sampling has no sample. For a timestamp in a gap between two stretches, this-or-next returns the first sample after the gap and this-or-previous the last sample before it; before the first timestamp next is 0 and previous is none, and past the last one next is none. A time interval is reported empty exactly when it overlaps no stretch from first to last sample inclusive.",
  ["histories", "inputs"], "every accepted timestamp sequence x every query timestamp and interval",
  "No behavioural test exists; multi-segment and single-point indexes are never exercised.",
  ["vsri/src/lib.rs"],
  [("get_sample, get_this_or_next, get_this_or_previous, get_next_sample, get_previous_sample, is_empty", "vsri/src/lib.rs")],
  [("vsri_segments", "[rate, x0, y0, length] lines", "vsri/src/lib.rs Vsri")],
  ["Vsri public API"])

p("C16", "A persisted time index is equivalent to the one in memory",
  "Writing an index to a file and loading it gives an index that answers every query like the original, and flushing and reloading at any points during a sequence of updates never changes what the updates return or the final index. Flushing again writes the same file.",
  ["crash_points", "histories"], "every update history x every set of points at which the process stops after a flush and resumes from the file",
  "No test loads an index.",
  ["vsri/src/lib.rs"], [("flush, flush_to, load", "vsri/src/lib.rs")],
  [("index file", "min, max, one line per segment", "vsri/src/lib.rs flush_to")],
  ["Vsri::{flush_to,load} interleaved with update_for_point"])

p("C17", "The time index refuses points in the past and is unchanged by refusing",
  "Offering the index a timestamp smaller than the largest one it holds returns an error and leaves every later answer and the persisted file unchanged; every timestamp not smaller than the largest one is accepted.",
  ["histories"], "every update history with out-of-order points inserted anywhere",
  "No behavioural test exists.",
  ["vsri/src/lib.rs"], [("check against max_ts before any change", "vsri/src/lib.rs update_for_point")],
  [("max_ts", "largest accepted timestamp", "vsri/src/lib.rs Vsri")],
  ["Vsri::update_for_point result and subsequent queries"])

p("C18", "csv-compressor gives every value back with its own time of day",
  "Compressing a CSV of (millisecond timestamp, value) rows that lie within one day in non-decreasing order with csv-compressor, writing the time index, and decompressing yields one row per finite-valued input row, in order, whose timestamp is the second of the day of that row and whose value obeys the selected compressor's guarantee for that row's value.",
  ["inputs", "configurations", "histories"], "every one-day series: gaps, jitter, duplicate seconds, non-finite values x compressor x error",
  "The crate's tests only parse and print two-row CSV files; compression and decompression are never run.",
  ["csv-compressor/src/main.rs", "csv-compressor/src/metric.rs", "csv-compressor/src/csv.rs", "vsri/src/lib.rs"],
  [("append_samples / get_samples pair samples and index", "csv-compressor/src/metric.rs"), ("process_args", "csv-compressor/src/main.rs")],
  [("Metric", "WavBrro and Vsri filled in step", "csv-compressor/src/metric.rs")],
  ["files written by the csv-compressor binary"])

p("C19", "CSV values are read exactly, in order, or the file is refused",
  "Reading a well-formed CSV (any column order, extra columns, two columns of one name, of which the first counts, quoting, CRLF, empty lines, with or without header) yields the value column of every row in order, parsed to exactly the number written. A CSV with a missing column, an unparsable value, a row with the wrong number of fields, or invalid text is refused with an error - never a crash, never a partial or shifted result.",
  ["inputs"], "every CSV byte content x header mode x field selection",
  "Tests use two-row files with one kind of error each.",
  ["atsc/src/csv.rs", "atsc/src/main.rs"],
  [("read_samples, read_samples_with_headers", "atsc/src/csv.rs")],
  observe=["atsc::csv functions", "atsc --csv exit status and output"])

p("C20", "Directory mode treats every file as if it were the only one",
  "Running atsc on a directory gives every valid input file in it exactly the output a single-file run would give it, whatever other files (foreign formats, files too short to have a header, previously written outputs) are present, and leaves those other files untouched. Running it again gives the same result.",
  ["inputs", "histories", "configurations"], "every mix of valid, foreign and previously produced files, any number of files, compress and decompress, repeated runs",
  "One test compresses a fresh directory with two valid files.",
  ["atsc/src/main.rs"], [("process_directory", "atsc/src/main.rs")],
  observe=["directory contents after atsc DIR and atsc -u DIR compared with single-file runs"])

p("C21", "Success is only reported when the whole output was written",
  "If writing an output file fails part-way (disk full, file-size limit, device error), atsc, csv-compressor and the WBRO writer do not finish successfully: an exit status of zero (or a normal return) implies the output file holds the complete result. The input file is never modified by a failing run.",
  ["fault_sequences", "crash_points"], "every byte offset at which writing can fail x every output kind (.bro, .wbro, .vsri, .csv)",
  "No test injects a write failure.",
  ["wavbrro/src/write.rs", "atsc/src/main.rs", "csv-compressor/src/csv.rs", "csv-compressor/src/main.rs", "vsri/src/lib.rs"],
  [("write calls and their result handling", "write.rs, csv.rs, flush_to, fs::write")],
  observe=["exit status and output size under RLIMIT_FSIZE and /dev/full"])

p("C22", "Automatic selection never keeps a larger frame than an eligible candidate",
  "With full-data selection (sampling level 0), a frame compressed automatically is never larger than what the fft, polynomial or rle compressor produces for the same data and error target when that candidate's measured error is within the target. A frame whose samples are all equal costs at most 16 payload bytes whatever its length.",
  ["inputs", "configurations"], "every finite series x every error target",
  "Tests never look at the size or at which compressor was chosen.",
  ["atsc/src/frame/mod.rs", "atsc/src/compressor/mod.rs"],
  [("filter by error, minimum by size", "frame/mod.rs compress_best")],
  observe=["frame payload sizes parsed from to_bytes against Compressor::get_compress_bounded_results"])

p("C23", "Interpolating compressors keep the first, last and stored samples",
  "For samples below 1e300 in magnitude, a frame compressed with polynomial or idw, with an error target, a number of points or neither, decompresses to values that agree with the input (to the fifth decimal) at the first sample, the last sample, and every sample position at the regular spacing the frame records.",
  ["inputs", "configurations"], "every finite series, length, error target and number of points",
  "Unit tests pin a few 12- to 17-sample vectors.",
  ["atsc/src/compressor/polynomial.rs"],
  [("positions recomputed from the frame size and the step on both sides", "polynomial.rs compress_hinted, get_positions")],
  [("point_step", "spacing of stored samples", "polynomial.rs Polynomial")],
  ["CompressedStream round trip"])

p("C24", "The command line, the library and every input format agree",
  "For the same numbers and settings, atsc on a WBRO file, atsc on a CSV with or without header, csv-compressor on a CSV, and the library produce byte-identical .bro content; atsc -u writes exactly the numbers the library decompresses; and no run modifies its input file.",
  ["inputs", "configurations"], "every series x compressor x error x sampling level x input format",
  "Tests never compare two routes to the same output.",
  ["atsc/src/main.rs", "csv-compressor/src/main.rs", "atsc/src/data.rs", "atsc/src/optimizer/mod.rs"],
  [("compress_data / decompress_data in both binaries", "atsc/src/main.rs, csv-compressor/src/main.rs")],
  observe=["bytes of the files written by each route"])

p("C25", "wav2wbro recovers the 64-bit samples packed in a WAV",
  "Converting a 16-bit four-channel WAV whose channels carry the four 16-bit words of 64-bit floats (least significant word first) yields a WBRO file with exactly those floats in order, bit for bit, omitting only NaNs. Fewer channels carry the low words, the others being zero; more channels or another sample format are refused and leave any older output alone. With --validate it reports a difference exactly when a NaN was omitted.",
  ["inputs"], "every sequence of f64 bit patterns and every length",
  "The tools crate has no tests.",
  ["tools/src/bin/wav2wbro.rs", "wavbrro/src/wavbrro.rs"],
  [("join_u16_into_f64, channel cycling", "tools/src/bin/wav2wbro.rs")],
  observe=["the .wbro file written by the wav2wbro binary"])

p("C26", "Codecs are free of undefined behaviour and arithmetic overflow",
  "Compressing, serialising, reading back and decompressing any finite series with any compressor, and building, persisting and querying WBRO data and time indexes, completes without memory errors, undefined behaviour, arithmetic overflow or panics, in debug and release builds alike and with identical results in both (except that samples from 1e30 on, which overflow the single precision of fft, may yield NaNs with differing bits when fft is forced).",
  ["inputs", "programs", "configurations"], "every valid workload on the public API x {debug, release} builds",
  "Tests run without sanitizers, in one build profile, on a handful of inputs.",
  ["atsc/src/compressor/fft.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/compressor/rle.rs", "atsc/src/data.rs", "atsc/src/header.rs", "wavbrro/src/wavbrro.rs", "vsri/src/lib.rs"],
  [("safe Rust over rkyv, bincode and SIMD FFT kernels", "whole workspace")],
  observe=["AddressSanitizer, Miri and overflow-check reports; output digests of checked and release builds"])

p("C27", "The default error measure is the mean absolute percentage error",
  "For two equally long series the default error is the mean over samples of |generated - original| / |original|, taking a sample that was zero as no error when reproduced and infinite error otherwise, so identical series always have error zero; the MSE, NMSE and MAE measures equal their textbook definitions on series that are not all zero, and the symmetric one is the sum of the differences over the sum of both magnitudes, per sample, so never above 1. Series of different lengths are never given an error value.",
  ["inputs"], "every pair of finite series",
  "Tests use one five-sample pair without zeros.",
  ["atsc/src/utils/error.rs"], [("error_mape and the other measures", "atsc/src/utils/error.rs")],
  observe=["atsc::utils::error functions against an independent implementation"])

p("C28", "FFT frames decode on the grid they were encoded on",
  "For every frame length, an FFT frame that keeps all the signal's frequencies reproduces the signal to single-precision accuracy, and one that keeps fewer reproduces any signal made of no more than that many of the frame's strongest frequencies, whichever compression entry point (bounded, hinted or plain) wrote it.",
  ["inputs", "configurations"], "every frame length (below and above the padding threshold, powers of two or not) x every entry point x constant-plus-few-sinusoid and arbitrary signals",
  "The full-spectrum round trip is tested at length 12 only, below the length at which padding starts.",
  ["atsc/src/compressor/fft.rs", "atsc/src/utils/mod.rs"],
  [("Gibbs padding on encode and trimming on decode", "fft.rs gibbs_sizing, to_data"), ("mirrored spectrum", "fft.rs get_mirrored_freqs")],
  [("frequencies", "kept (position, re, im)", "fft.rs FFT")],
  ["atsc::compressor::fft::{fft, fft_set, fft_allowed_error, fft_to_data}"])

p("C29", "A command line outside the documented ranges is refused and touches no file",
  "An error above 50, a selection sampling level above 6, an unknown compressor or option, no input or one that does not exist, a directory given to csv-compressor, or --fields without a comma makes atsc, csv-compressor and wav2wbro end with a nonzero status, leaving every file as it was. Every documented value (errors 0 to 50, levels 0 to 6, every compressor name) is accepted on a valid input.",
  ["inputs", "configurations"], "every command line of the three executables, next to valid inputs and outputs of earlier runs",
  "No test runs an executable.",
  ["atsc/src/main.rs", "csv-compressor/src/main.rs", "tools/src/bin/wav2wbro.rs"],
  [("ranges of the clap arguments, conversion of the error to a fraction", "atsc/src/main.rs Args, csv-compressor/src/main.rs Args")],
  observe=["exit status and the directory's content before and after"])

p("C30", "Verbose output lists exactly the samples",
  "With --verbose atsc prints every sample it read (when compressing) or decompressed, in order and exactly as large as it is, one list per file, and writes the same files as without it, when it prints nothing.",
  ["inputs", "configurations"], "every series (non-finite numbers included) x WBRO, CSV and .bro inputs x single files and directories",
  "No test runs an executable.",
  ["atsc/src/main.rs"],
  [("println of the vector read or decompressed", "atsc/src/main.rs compress_data, decompress_data")],
  observe=["standard output and files of the atsc binary"])

p("C31", "Runs at the same time do not disturb each other",
  "Any number of runs of atsc, csv-compressor and wav2wbro at the same time in one directory, each on inputs and outputs of its own (or sharing an input that none of them writes), all succeed and leave exactly the files, with exactly the content, that the same runs leave one after the other.",
  ["schedules", "inputs", "configurations"], "every set of runs and every interleaving of them",
  "Tests run one thing at a time, on files of their own.",
  ["atsc/src/main.rs", "csv-compressor/src/main.rs", "tools/src/bin/wav2wbro.rs", "wavbrro/src/write.rs", "vsri/src/lib.rs"],
  [("every run writes only the output named after its input", "main.rs of each executable")],
  observe=["exit statuses and content of the shared directory"])

p("C32", "A killed run is never mistaken for a finished one and can be repeated",
  "When a run of atsc, csv-compressor or wav2wbro is killed at any point, its input is unchanged; a .bro or WBRO file that it left incomplete, in the place of an older one or not, is refused by atsc (a cut WBRO file whose rest is itself a complete archive is one); csv-compressor refuses an incomplete pair of stream and time index or recovers every row from it; and the same command run again succeeds with the output of an undisturbed run.",
  ["crash_points", "inputs", "configurations"], "every kill point, by byte of output and by time, of every kind of run",
  "No test runs or kills an executable.",
  ["atsc/src/main.rs", "csv-compressor/src/main.rs", "csv-compressor/src/metric.rs", "tools/src/bin/wav2wbro.rs", "wavbrro/src/wavbrro.rs", "wavbrro/src/write.rs", "atsc/src/data.rs", "vsri/src/lib.rs"],
  [("outputs are created afresh and written from start to end", "main.rs of each executable, wavbrro/src/write.rs, Vsri::flush_to")],
  observe=["files left by killed runs and what the executables make of them"])

p("C33", "wav2wbro refuses a WAV it cannot read whole",
  "On a WAV file that is cut short at any byte, or whose RIFF, WAVE, format or data header is damaged, wav2wbro ends with a nonzero status and neither creates nor changes its output.",
  ["inputs", "crash_points"], "every WAV file x every cut and header damage",
  "The tools crate has no tests.",
  ["tools/src/bin/wav2wbro.rs"],
  [("read_samples_from_wav_file ends with the first error", "tools/src/bin/wav2wbro.rs")],
  observe=["exit status and output of the wav2wbro binary"])

p("C34", "Automatic compression never inflates",
  "With full-data selection (sampling level 0) the frames of a finite series compressed automatically hold at most 8 payload bytes per sample and 64 more, at most 1, 3 or 5 per sample and 64 more when all samples are integers that fit unsigned 8, signed 16 or signed 32 bits, at any error target.",
  ["inputs", "configurations"], "every finite series of one frame x every error target",
  "Tests never look at the size of incompressible data.",
  ["atsc/src/frame/mod.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/compressor/rle.rs", "atsc/src/optimizer/utils.rs"],
  [("minimum by size among the candidates; bit depth of the stored points", "frame/mod.rs compress_best, polynomial.rs, optimizer/utils.rs")],
  observe=["frame payload sizes parsed from to_bytes"])

p("C35", "A timestamp is the start of its day plus the second of the day",
  "For every timestamp in seconds, before 1970 too, day_elapsed_seconds is the number of seconds since the UTC midnight before it (0 to 86399), and start_day_ts of every date and time with any fraction of a second is that midnight.",
  ["inputs"], "every timestamp that chrono can represent",
  "One timestamp is tested.",
  ["vsri/src/lib.rs"],
  [("day_elapsed_seconds, start_day_ts", "vsri/src/lib.rs")],
  observe=["vsri::day_elapsed_seconds, vsri::start_day_ts"])

p("C36", "A cut-short time index is never taken for the whole",
  "When the time index that csv-compressor wrote is cut short at any byte, decompressing the stream with it fails, or gives every row with its right timestamp (which is possible when nothing but the end of the last line is missing).",
  ["crash_points", "inputs"], "every time index x every cut",
  "Tests load only complete index files.",
  ["vsri/src/lib.rs", "csv-compressor/src/main.rs", "csv-compressor/src/metric.rs"],
  [("Vsri::load parses every line; get_samples asks for the time of every sample", "vsri/src/lib.rs, csv-compressor/src/metric.rs")],
  observe=["Vsri::load and get_time, the csv-compressor binary"])

p("C37", "Memory stays proportional to the series and is given back",
  "Compressing or decompressing a frame of n samples with any compressor holds at most 450 bytes per sample (and 256 KiB) at once, and except with idw, which looks at all samples anew for each point it adds, allocates in all at most 6000 bytes per sample (and 1 MiB) when compressing and 600 when decompressing. "
  "A WBRO file in memory takes at most 100 bytes per sample and 200 in all to build, write or read, a time index at most 200 bytes per stretch and 600 in all to fill, write or read, each with at most 256 KiB on top, and looking into an index allocates nothing that grows with it. "
  "Doing any of this again and again, with the same or other samples, leaves no more memory allocated than doing it once.",
  ["inputs", "histories", "configurations"], "every finite series up to the maximal frame x every compressor, error target and sampling level x repetitions; WBRO files and time indexes of any size",
  "Tests look at results on small inputs; nothing measures what a maximal frame costs or what repeated use leaves behind.",
  ["atsc/src/compressor/rle.rs", "atsc/src/compressor/fft.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/frame/mod.rs", "atsc/src/data.rs", "wavbrro/src/wavbrro.rs", "wavbrro/src/read.rs", "vsri/src/lib.rs"],
  [("lists of run positions grow in place", "atsc/src/compressor/rle.rs IndexRLE::new"), ("chunks of 2048 samples", "wavbrro/src/wavbrro.rs"), ("one segment per stretch", "vsri/src/lib.rs update_for_point")],
  observe=["a counting allocator around the public API"])

p("C38", "csv-compressor writes the requested outputs and nothing else",
  "csv-compressor creates or replaces exactly the files that its options ask for (.bro unless --no-compression, .vsri, .wavbro), each with the same content whatever other outputs are asked for, and with -u exactly the .wbro and the .csv. "
  "On a CSV with a timestamp or value that is no number, a missing column, a short or long row, a row earlier than the one before it or bytes that are no text, on a missing input, and with -u when the index is missing or covers fewer samples, it ends with a nonzero status and changes no file.",
  ["inputs", "configurations"], "every one-day CSV x every combination of output options x every listed defect x every set of files there before",
  "The tests call the library part; the option handling of the executable has none.",
  ["csv-compressor/src/main.rs", "csv-compressor/src/csv.rs", "csv-compressor/src/metric.rs"],
  [("everything is read before anything is written", "csv-compressor/src/main.rs")],
  observe=["exit status and files of the csv-compressor binary"])

p("C39", "An output lies beside its input, under its name",
  "Whatever the name and directory of the input file and however they are written on the command line, atsc, csv-compressor and wav2wbro (on .wav files) put the output into the directory of the input, under the same name with what follows the last dot replaced by the extension of the output, or with that extension appended to a name without one (a dot at the start counts for none). csv-compressor's -o names another place, with the same rule for the extension. No other file or directory is created or changed.",
  ["inputs", "configurations"], "every file name (spaces, several dots, leading dots and dashes, control characters, names that are not UTF-8 for atsc, up to the length limit) x directories, links to them, relative and absolute paths x working directories",
  "Tests use plain names in temporary directories.",
  ["atsc/src/main.rs", "csv-compressor/src/main.rs", "tools/src/bin/wav2wbro.rs"],
  [("set_extension on the given path", "main.rs of atsc and csv-compressor"), ("name and directory of the output", "tools/src/bin/wav2wbro.rs")],
  observe=["files of the real executables"])

p("C40", "All ways through the library to a frame agree",
  "For each compressor except the automatic one and every finite series and error target, the stream, the frame, the compressor enumeration and the compressor's own module give the same payload without and with a target, report the same error for it, and give the same numbers when decompressing it; a frame without a choice of compressor is a noop frame, and an automatic frame holds, at any sampling level, exactly what the compressor that it names makes of the same series and target by itself. Reading a payload or a stream and writing it again gives the same bytes.",
  ["inputs", "configurations"], "every finite series of one frame (below 1e30 for fft) x every compressor x every error target x every public way",
  "Each test goes one way on one small vector and compares with literal numbers.",
  ["atsc/src/data.rs", "atsc/src/frame/mod.rs", "atsc/src/compressor/mod.rs", "atsc/src/compressor/noop.rs", "atsc/src/compressor/fft.rs", "atsc/src/compressor/constant.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/compressor/rle.rs"],
  [("dispatch on the compressor", "atsc/src/compressor/mod.rs"), ("free functions with and without statistics", "fft.rs fft, fft_compressor, fft_allowed_error; polynomial.rs; rle.rs; noop.rs; constant.rs")],
  observe=["the public functions and types of the atsc library"])

p("C41", "Frame sizes, rounding and series statistics are exact",
  "The next transform size of n is the smallest product of powers of two and three above n, a number is decomposable exactly when it is such a product, and the previous power of two is the largest one not above n. "
  "The statistics of a finite series below 1e300 are its minimum and maximum with their first positions, its mean to rounding, whether any sample has a fraction, and the narrowest of unsigned 8, signed 16, signed 32 bits and double that holds all samples exactly. "
  "Rounding to d decimals goes to a nearest number of d decimals, the limited kind then into the given limits, and conversion to an integer with p decimals (up to 6) drops what lies beyond them, all to double precision.",
  ["inputs"], "every size; every finite series; every number of moderate magnitude",
  "Tests check five sizes, four roundings and three short series.",
  ["atsc/src/utils/mod.rs", "atsc/src/optimizer/utils.rs"],
  [("next_size, is_decomposable, prev_power_of_two, round_f64, round_and_limit_f64, f64_to_u64", "atsc/src/utils/mod.rs"), ("DataStats::new", "atsc/src/optimizer/utils.rs")],
  observe=["the public functions"])

p("C42", "Index and WBRO files keep the layout that is documented",
  "An index file is text: the smallest and the largest second on a line each, then a line per stretch with its rate, first sample, first second and number of samples; whatever is written so by another program is read as those seconds, the lookups and csv-compressor -u included, and whatever the library writes so reads back as the points that were added. "
  "A WBRO file is the marker WBRO0000WBRO followed by an archive of the samples in chunks of 2048, all of them full but the last, the table of chunks and the root that counts the samples; files made so by another program are read, and those written are exactly so.",
  ["inputs"], "every index with positive rates; every number of samples",
  "Tests read back what the same code wrote, so that both sides can change together; files of other versions and programs stop being readable unnoticed.",
  ["vsri/src/lib.rs", "vsri/README.md", "wavbrro/src/wavbrro.rs", "wavbrro/src/read.rs", "wavbrro/src/write.rs", "wavbrro/README.md"],
  [("Vsri::load, Vsri::flush_to", "vsri/src/lib.rs"), ("WavBrro", "wavbrro/src/wavbrro.rs"), ("read_wavbrro_file", "wavbrro/src/read.rs"), ("write_wavbrro_file", "wavbrro/src/write.rs")],
  observe=["bytes of index and WBRO files", "Vsri lookups", "WavBrro::from_file", "csv-compressor -u"])
p("C43", "Time stays in proportion to the samples",
  "Compressing and decompressing a frame of up to 131072 samples with any compressor but the quadratic idw, automatic choice included, takes a bounded number of times what sorting as many numbers takes, whatever the samples: at most 1200 for auto, 600 for fft with a target, 220 for polynomial and rle, some tens for everything else. "
  "The same goes for writing and reading WBRO files, for filling, writing and reading an index of a day, for reading CSV files and planning.",
  ["inputs"], "every series of up to one maximal frame; every index of one day",
  "Tests use a few samples, for which any cost is unnoticeable.",
  ["atsc/src/compressor/mod.rs", "atsc/src/compressor/fft.rs", "atsc/src/compressor/rle.rs", "atsc/src/compressor/polynomial.rs", "atsc/src/frame/mod.rs", "wavbrro/src/wavbrro.rs", "vsri/src/lib.rs", "atsc/src/csv.rs"],
  [("OptimizerPlan", "atsc/src/optimizer/mod.rs"), ("CompressedStream", "atsc/src/data.rs"), ("IndexRLE", "atsc/src/compressor/rle.rs"), ("Vsri::update_for_point", "vsri/src/lib.rs")],
  observe=["CPU time of the thread"])

p("C44", "A looser error target never costs more",
  "For a finite series of one frame (below 1e30 for fft), the fft, polynomial and idw compressors never store more frequencies or points for a larger error target than for a smaller one, and store no more bytes than without a target where the plain frame is within the target already. "
  "An fft frame that misses its target holds as many frequencies as it would for a target of zero, and never more than a tenth of the samples and 30.",
  ["inputs", "configurations"], "every finite series of one frame x every pair of targets",
  "Tests compress with one target each and never compare sizes.",
  ["atsc/src/compressor/fft.rs", "atsc/src/compressor/polynomial.rs"],
  [("the loop that adds frequencies", "fft.rs compress_bounded"), ("the loop that adds points", "polynomial.rs compress_bounded")],
  observe=["points and frequencies in the payload", "payload size", "decompressed numbers"])

p("C45", "Input and output in pieces give the same files",
  "atsc, csv-compressor and wav2wbro end with the same status and leave the same files however few bytes at a time the system hands over or takes for them and however long each call takes. "
  "This holds for files and for directories, and a damaged file is treated alike in one piece and in many.",
  ["inputs", "schedules"], "every input x every way in which its reads and writes are cut up or delayed",
  "Tests work on a local disk, where every read and write is done at once.",
  ["atsc/src/main.rs", "atsc/src/utils/readers/bro_reader.rs", "csv-compressor/src/main.rs", "tools/src/bin/wav2wbro.rs", "wavbrro/src/read.rs", "wavbrro/src/write.rs", "vsri/src/lib.rs"],
  [("read_file", "atsc/src/utils/readers/bro_reader.rs"), ("is_wavbro_file", "wavbrro/src/read.rs"), ("write_wavbro_file", "wavbrro/src/write.rs"), ("Vsri::flush_to", "vsri/src/lib.rs")],
  observe=["exit status", "files in the directory", "read and write calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
