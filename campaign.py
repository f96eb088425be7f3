"""Budgets and descriptions of the campaigns (no machinery here)."""
import os, re

PY = {'C15', 'C16', 'C17', 'C18', 'C19', 'C22', 'C23', 'C24'}
RUN_TIMEOUT = 60
MIN_BUDGET = {'quick': 40, 'thorough': 90}
SELFCHECK = {'quick': 200, 'thorough': 1500}
SLICE = {}

# runs per campaign: (quick, thorough); the wall limits only guard slow machines
RUNS = {
    'C01': (96000, 1200000), 'C02': (240000, 4000000), 'C03': (160000, 2000000), 'C04': (64000, 800000),
    'C05': (64000, 800000), 'C06': (64000, 800000), 'C07': (120000, 1500000), 'C08': (160000, 2500000),
    'C09': (200000, 3000000), 'C10': (80000, 1000000), 'C11': (160000, 2000000), 'C12': (64000, 800000),
    'C13': (36000, 400000), 'C14': (200000, 2500000),
    'C15': (14000, 250000), 'C16': (9000, 150000), 'C17': (10000, 150000), 'C18': (5000, 80000), 'C19': (8000, 120000),
    'C22': (15000, 300000), 'C23': (8000, 150000), 'C24': (5000, 100000),
}
WALL = {'quick': 240, 'thorough': 720}


def budget(prop, tier):
    n = RUNS[prop][0 if tier == 'quick' else 1]
    n = int(n * float(os.environ.get('VERIF_SCALE', '1')))
    return max(8, n), float(os.environ.get('VERIF_WALL', WALL[tier]))


def load_findings(here, prop):
    """known_findings.txt, lines
         finding: property=<id> plan=<file> class=/<class>/ match=/<regex on the detail>/ <what fails>
         fixed: property=<id> <commit> <what failed>        (suppresses nothing)"""
    out = []
    p = os.path.join(here, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) plan=(\S+) class=/(.*?)/ match=/(.*?)/ (.*)$', l.strip())
        if m and m.group(1) == prop:
            out.append(dict(plan=m.group(2), **{'class': m.group(3)}, match=m.group(4), what=m.group(5)))
    return out


_C = 'all of c/detools.c and c/heatshrink/heatshrink_decoder.c as in /repo, four builds (static and dynamic heatshrink, all stack variables pre-set to a pattern or to zero, minimal configuration), under ASan and UBSan; the real liblzma decoder'
_PYR = 'the whole detools Python package as in /repo (except hdiffpatch) on CPython 3.12 with its bsdiff and suffix_array extensions built with ASan and UBSan, and the real lzma, bz2, heatshrink2, zstandard and lz4'
_PYG = 'patches come from a reference model that builds patch and expected result from a list of operations, independently of /repo (data format patches from /repo itself)'
_PYA = ['stream objects raise exceptions for failures and may return less than asked for from the patch stream', 'the reference model in pysim/model.py follows the documented patch format']
_GEN = 'patches come from a reference model that builds patch and expected result from a list of operations, independently of /repo'
_A = ['the device keeps the callback contract of detools.h: a callback returns 0 or a negative code',
      'the reference encoders in sim/patchgen.cpp follow the documented patch format']

INFO = {
    'C01': dict(rule='one run = one generated patch (operations, sizes, seeks, compression) applied with one chunk schedule or the callback API and one fill pattern for uninitialised memory; non-trivial = the to-data is not empty',
                real=_C, stub='from-data, sink and chunk delivery are simulated; ' + _GEN, assume=_A),
    'C02': dict(rule='one run = one patch and a schedule of feed, dump, failing state I/O and crash events (between calls or inside a callback, with unsynced output lost, kept or torn); non-trivial = at least one restore took place',
                real=_C, stub='flash store for the dump, sink, from-data and power are simulated; ' + _GEN,
                assume=_A + ['the caller syncs its output before it commits a dump, and discards output beyond the to-offset the restored object reports',
                             'the restored object is of the same build as the dumped one']),
    'C03': dict(rule='one run = one in-place geometry and patch, a chunk schedule or the callback API, step callbacks present or not; non-trivial = the to-data is not empty',
                real=_C, stub='device memory and chunk delivery are simulated; ' + _GEN, assume=_A),
    'C04': dict(rule='one run = one in-place patch and 1-8 power cuts at chosen device operations (torn writes, torn erases, cut in or after a step store), each followed by a re-run; non-trivial = at least one cut fired',
                real=_C, stub='device memory, step store and power are simulated; ' + _GEN,
                assume=_A + ['a step store is atomic: after a cut it holds the old or the new step', 'a torn write leaves a prefix written and at most one more byte undefined; a torn erase leaves any mix of old, erased and undefined bytes']),
    'C05': dict(rule='one run = one in-place patch applied with two chunkings, then cut before or after one step store and re-run; non-trivial = the cut fired and the resumed history was compared',
                real=_C, stub='device memory, step store and power are simulated; ' + _GEN, assume=_A),
    'C06': dict(rule='one run = one in-place patch on a NOR-flash model (writes only clear erased bytes, erases act on whole blocks) with 0-8 power cuts; non-trivial = the to-data is not empty',
                real=_C, stub='flash, step store and power are simulated; ' + _GEN, assume=_A + ['erase blocks divide the segment size']),
    'C07': dict(rule='one run = one patch with one callback invocation (any of those a dry run makes) failing, in-place runs continued with a re-run and sometimes a second fault; non-trivial = the fault fired',
                real=_C, stub='from-data, sink, memory, step store and patch transport are simulated; ' + _GEN, assume=_A + ['after a failing patch read, bytes that had already arrived may still be applied']),
    'C08': dict(rule='one run = one patch whose delivery stops early, is mis-declared or has trailing bytes; chunked, callback and file APIs; non-trivial = delivery or declaration differs from the patch',
                real=_C, stub='patch transport, sink and memory are simulated; ' + _GEN, assume=_A),
    'C09': dict(rule='one run = one damaged or hostile patch (bit flips, lost, duplicated, swapped and replaced stretches, hostile sizes, random bytes); all runs are non-trivial',
                real=_C, stub='patch transport, from-data, sink and memory are simulated; ' + _GEN, assume=_A),
    'C10': dict(rule='one run = one lzma or dynamic heatshrink apply with failing allocations (one, every n-th, all after one, or above a size), then a fresh one; non-trivial = an allocation failed',
                real=_C, stub='the allocator is wrapped; ' + _GEN, assume=_A),
    'C11': dict(rule='one run = one file-to-file apply on a simulated disk with up to three faults and a stdio buffer size; non-trivial = a fault or short transfer fired',
                real=_C + '; glibc stdio buffering', stub='open, read, write, seek and close below stdio are simulated (fopencookie); ' + _GEN, assume=_A + ['short writes are retried or reported by stdio; short reads are legal']),
    'C12': dict(rule='one run = one file-based in-place apply with kills at chosen file or step operations and failing file operations; non-trivial = a kill or fault fired',
                real=_C + '; glibc stdio buffering', stub='the disk below stdio and the step store are simulated; ' + _GEN, assume=_A + ['a killed process loses its stdio buffers and keeps what was handed to the operating system']),
    'C13': dict(rule='one run = 2-5 concurrent sessions on one thread, switched at API calls and inside callbacks by the seeded scheduler, each compared with its solo run; non-trivial = at least one switch inside a callback',
                real=_C, stub='devices and scheduler are simulated; ' + _GEN, assume=_A + ['sessions are interleaved on one thread, not run in parallel']),
    'C14': dict(rule='one run = one command line invocation with valid or damaged files and up to three faults; non-trivial = a fault fired or an input was damaged',
                real=_C + '; c/main.c', stub='the disk below stdio, the step store files and exit() are simulated', assume=_A),
    'C15': dict(rule='one run = one sequential, bsdiff or data format patch applied with a short-read schedule, then with stream faults, truncation, damage, trailing data or changed from-data; non-trivial = the to-data is not empty',
                real=_PYR, stub='from, to and patch streams are simulated; ' + _PYG, assume=_PYA),
    'C16': dict(rule='one run = one in-place geometry and patch applied with a short-read schedule, then with stream faults, truncation, damage or a too small memory; non-trivial = the to-data is not empty',
                real=_PYR, stub='memory and patch streams are simulated; ' + _PYG, assume=_PYA),
    'C17': dict(rule='one run = one pair of images and one set of options, created in two environments (mapping working, failing or off, both suffix array algorithms) and then with stream, mapping, temporary file or allocation faults or an impossible option; non-trivial = the to-data is not empty',
                real=_PYR, stub='input and patch streams, temporary files, the clock, mmap availability and malloc of the two extensions are simulated; created patches are also applied by a reference applier', assume=_PYA),
    'C18': dict(rule='one run = a chain of 1-3 updates created by the Python package, sent over a lossy link with a retransmission protocol (streamed or stored first) to a device running the C library, with up to 8 power cuts; non-trivial = an image was not empty',
                real=_PYR + '; c/detools.c and heatshrink_decoder.c (static and dynamic heatshrink) with ASan and UBSan, the real liblzma', stub='link, protocol, clock, flash, state and step store and power are simulated',
                assume=['packets carry a checksum, so that damage on the link is seen by the device', 'a step or state store is atomic; a cut write or erase leaves a prefix', 'the device keeps the callback contract of detools.h']),
    'C19': dict(rule='one run = one function or command by file name on healthy, failing, full or incomplete disk, with short transfers, stale output files, jumping clock and all buffer sizes; all runs are non-trivial',
                real=_PYR + "; argparse, humanfriendly, pyelftools, Python's buffered file objects", stub='raw file operations, stdout and the clock are simulated (real scratch files below)', assume=['a file system may report a write failure at close, the last raw write then being lost']),
    'C22': dict(rule='one run = one patch read from a stream with short reads, then with stream faults, truncated, or printed by the command; non-trivial = the patch has a body',
                real=_PYR, stub='patch stream, disk and stdout are simulated; ' + _PYG, assume=_PYA),
    'C23': dict(rule='one run = one pair of images and options created in two environments and applied with short reads, then with stream, mapping, allocation or library faults while creating or applying, a damaged or truncated patch, other from-data or an impossible option; non-trivial = the to-data is not empty',
                real='the whole detools Python package as in /repo with hdiffpatch.cpp compiled with ASan and UBSan', stub='the HDiffPatch library (its sources are not in the repository) is a stand-in with a simple format that fails as the library does; streams, mmap, clock, malloc and the Python allocations of the binding are simulated',
                assume=['the library reports failures by exceptions when creating and by FALSE when applying', 'what the real library makes of the images is right']),
    'C24': dict(rule='one run = 2-4 operations (create, apply and information of all patch types, by stream or by file name, on the same or other data, some with a failing stream operation), each alone and then side by side in threads switched by a seeded schedule at lines (or instructions) of the package, at stream operations, locks and where an extension has released the interpreter lock; non-trivial = at least one switch between threads',
                real=_PYR + '; hdiffpatch.cpp over a stand-in for its library; real threads, files and mmap', stub='thread scheduling (one thread runs at a time), streams and locks of the package are simulated; the C extensions run without interruption while they hold the interpreter lock',
                assume=['streams are not shared by threads; files that are only read may be']),
}
