#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
EXPL, FAULT = 'exploration', 'fault_enumeration'
# id -> (technique, level, note)
N = {
 'C01': ('runtime monitor: independent MAPE of every decompressed frame against the requested bound, generated workloads', EXPL,
         'Held on the generated series, errors and sampling levels of the run (all drawn from VERIF_SEED), optimised build with overflow and debug assertions on. Trusts the oracle mean-error computation and the generators; says nothing about series shapes that were never drawn.'),
 'C02': ('runtime monitor: numeric equality after a full round trip, boundary-value pairs enumerated plus generated series', EXPL,
         'All pairs of 60-odd boundary values and generated series through every lossless configuration. Compares with ==, so the sign of zero is not judged.'),
 'C03': ('runtime monitor: independent MAPE of forced polynomial/idw round trips', EXPL, 'Held on the generated series and error targets; idw restricted to short frames because it is quadratic.'),
 'C04': ('runtime monitor: reported error against the error measured on the decompressed bytes', EXPL, 'Equality up to a stated rounding tolerance; series beyond single precision may report NaN.'),
 'C05': ('runtime monitor: plan partition and sample conservation checks over every length and generated multi-frame series', EXPL, 'Every length 0..1100 (0..4200 thorough) for each compressor, plus generated series up to several maximal frames.'),
 'C06': ('runtime monitor: integer rounding oracle on no-op round trips', EXPL, 'Exact integer oracle on generated values, including ties and their neighbours.'),
 'C07': ('runtime monitor: range of every decompressed value against its frame input range', EXPL, 'Held on the generated series; the range is that of single-precision outward rounding where the property says so.'),
 'C08': ('runtime monitor: repeated executions compared across threads, processes and stream positions; Miri data race detector on two-thread runs', EXPL, 'Compares bytes and numbers of each work item over several executions; only nondeterminism that shows in them is seen.'),
 'C09': ('runtime monitor: frozen independent decoder and hand-made encoder run next to the real reader and writer, plus archived golden files', EXPL, 'The independent decoder defines version 1; FFT and interpolated values are compared within a stated tolerance.'),
 'C10': ('runtime monitor: frame-count and order oracle over streams of every frame count', EXPL, 'Every count 0..1039 (0..5499 thorough) and random larger streams.'),
 'C11': ('fault injection into .bro files with process-level monitors (exit status, output sentinel, signals, CPU limit) and AddressSanitizer', FAULT, 'Every truncation point of the generated streams in process, a share of them and mutations through the real executable, plain and AddressSanitizer builds. Aborts and panics count as refusals.'),
 'C12': ('runtime monitor: bit-pattern comparison through every way of writing and reading WBRO', EXPL, 'Every length around the chunk size and random bit patterns.'),
 'C13': ('fault injection into WBRO bytes at every truncation point and alignment, guard pages', FAULT, 'Reads beyond the buffer are seen by a guard page after the last byte; accepted results are compared over 16 alignments.'),
 'C14': ('runtime monitor: model of (position, time) against the real index over enumerated and random histories', EXPL, 'All short update histories over a small time domain, and random long ones.'),
 'C15': ('runtime monitor: reference lookups over the recorded history, every query second around each point', EXPL, 'All short histories and random long ones.'),
 'C16': ('runtime monitor: persisted index against the in-memory one on every query', EXPL, 'Random and enumerated histories, write and reload.'),
 'C17': ('runtime monitor: refused updates must leave the index bit-identical', EXPL, 'Random and enumerated histories with interleaved bad updates.'),
 'C18': ('runtime monitor: end-to-end csv-compressor runs against a day-second model', EXPL, 'Runs the real executables on generated one-day CSV files.'),
 'C19': ('runtime monitor: generated CSV grammar with an independent parser oracle; malformed variants must be refused', EXPL, 'Well-formed files are generated from the expected values; malformed ones by targeted mutations.'),
 'C20': ('runtime monitor: directory runs compared file by file with single-file runs', EXPL, 'Runs the real executable on generated directories.'),
 'C21': ('fault injection: file-size limit at every sampled byte offset, full devices and every single call on a file failing, exit status against file content', FAULT, 'Faults are made by RLIMIT_FSIZE with SIGXFSZ ignored, by /dev/full and by a preloaded library that fails one call on a file at a time, on scratch files only. Power loss is out of reach.'),
 'C22': ('runtime monitor: size of the automatic choice against every admissible candidate', EXPL, 'Candidates are compressed separately and their error measured independently.'),
 'C23': ('runtime monitor: stored points of the interpolating compressors, at their positions', EXPL, 'Positions recomputed from the stored payload by an independent parser.'),
 'C24': ('runtime monitor: differential runs of the executables and the library', EXPL, 'Byte comparison of outputs for generated series and settings.'),
 'C25': ('runtime monitor: generated WAV files against the bit patterns they carry', EXPL, 'WAV files are written by an independent encoder.'),
 'C26': ('sanitizers: overflow/debug assertions, AddressSanitizer, valgrind memcheck and Miri over the same work lists, digests compared between builds', EXPL, 'Same deterministic work list in the checked, release and AddressSanitizer builds; Miri interprets a small part of it (it is about ten thousand times slower).'),
 'C27': ('runtime monitor: error measures against compensated textbook computations', EXPL, 'Generated pairs of series including zeros and extreme ratios.'),
 'C28': ('runtime monitor: Parseval energy accounting of the dropped frequencies', EXPL, 'Independent DFT on the padded grid; ties between equal magnitudes accepted either way.'),
 'C29': ('runtime monitor: exit status and directory snapshots of refused and accepted command lines', EXPL, 'One refused and one accepted command line per case; the set of out-of-range values is a list plus combinations.'),
 'C30': ('runtime monitor: numbers parsed from the verbose output against the numbers written or decompressed', EXPL, 'Runs the real executable with and without --verbose on generated inputs.'),
 'C31': ('runtime monitor: concurrent runs with random starts and pauses against the same runs alone', EXPL, 'Interleavings are those that happened (overlapping pairs are counted in the evidence), steered by random delays between and within the runs (a preloaded library holds up each call on a file) and SIGSTOP.'),
 'C32': ('fault injection: runs killed at every output byte, before every call on a file and in the middle of every write, or at random moments, leftovers read back by the executables', FAULT, 'Kills are SIGXFSZ at a byte of output or SIGKILL at a call or moment; loss of the page cache (power failure) is out of reach.'),
 'C33': ('fault injection: WAV files cut at every byte and damaged headers, exit status and output monitored', FAULT, 'Every cut of small files, sampled cuts of larger ones.'),
 'C34': ('runtime monitor: payload size against the raw size of the series', EXPL, 'Held on the generated incompressible and mixed series.'),
 'C35': ('runtime monitor: own day arithmetic against the functions, whole days and random timestamps', EXPL, 'Every second of eight days; timestamps elsewhere are sampled.'),
 'C40': ('runtime monitor: bit-for-bit comparison of every public way to compress and decompress a frame', EXPL, 'Differential between parts of the code under test; what they should give is for C01 to C10.'),
 'C41': ('runtime monitor: sizes, statistics and rounding against own arithmetic', EXPL, 'All sizes up to 140000 in order, others sampled.'),
 'C37': ('runtime monitor: counting allocator around compression, decompression, WBRO files and indexes, repeated', EXPL, 'Bytes held and requested per thread, exact; limits are about three times what the code takes today.'),
 'C38': ('runtime monitor: directory snapshots around csv-compressor runs with every combination of output options', EXPL, 'Contents compared with a run that writes everything; one accepted, one refused and one decompressing run per case.'),
 'C39': ('runtime monitor: complete directory trees before and after runs on inputs of odd names and paths', EXPL, 'Own rule for the name of the output; six spellings of the path and several working directories.'),
 'C42': ('runtime monitor: independent writer and parser of index and WBRO files next to the code', EXPL, 'The layout is that of the documentation and of the files of the first version; little-endian 64-bit hosts.'),
 'C43': ('runtime monitor: CPU time of jobs on maximal frames against sorting as many numbers', EXPL, 'Limits are about a dozen times the most ever seen, and only the best of four attempts counts: sees changes of complexity, not of a constant factor.'),
 'C44': ('runtime monitor: stored points and frequencies compared between targets and with the plain frame', EXPL, 'A relation between runs of the code under test; whether the targets are met is for C01 and C03.'),
 'C45': ('fault injection: reads and writes cut to random pieces and delayed by a preloaded library, files and exit status against an undisturbed run', FAULT, 'Pieces and delays are random from the seed; calls that fail are for C21, and interrupted calls are left out (the system restarts them for files).'),
 'C36': ('fault injection: index files cut at every byte, times of all samples against those of the whole index', FAULT, 'Every cut of short index files, sampled cuts of longer ones in the quick tier.'),
}
import sys
todo = set(sys.argv[1:])
checks = []
na = []
for p in props:
    i = p['id']
    if i in todo or i not in N:
        na.append(dict(property=i, reason='check not built yet'))
        continue
    t, l, n = N[i]
    checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough', technique=t, level=l, level_note=n))
json.dump(dict(version=1, setup_cmd='./check.sh setup', checks=checks, not_applicable=na,
    notes='No hooks in /repo: every monitor observes the public API or the executables. check.sh rebuilds from /repo\'s working tree each time; build output is keyed by a content hash of the sources.'),
    open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
