"""Which explorer configurations decide which property."""
import os
CORE = ['mc.cpp', 'venv.cpp']
HOOK_COMMITS = ['098a2ba']
NOT_APPLICABLE = {}
PLAN = {}

def cfg(arch, *harness, **kw):
    return dict(arch=arch, harness=CORE + list(harness), **kw)

def X(arch, *harness, **kw):
    """The same exploration of the library compiled for the architecture itself, under an emulator."""
    return cfg(arch, *harness, cross=True, **kw)

def prop(pid, level, technique, note, runs, **kw):
    PLAN[pid] = dict(level=level, technique=technique, note=note, runs=runs, **kw)

REF = 'Within the stated bounds every execution of the real library code was compared with an independently written reference model. Trusts the simulated CPUID and file system, and the reference model. '

ALL = lambda *h: [cfg('x86_64', *h), cfg('i386', *h, thorough_only=True), cfg('arm64', *h), cfg('arm32', *h, android=True), cfg('riscv64', *h)]
prop('P02', 'fault_enumeration', 'exhaustive fault injection into every allocation, open and read of the real code, judged by a consistency and finality oracle',
     'Every set of at most three faults (four in the thorough tier) at the events of each execution of the real library, on representative machines of every architecture. Trusts the simulated operating system.',
     ALL('faults.cpp') + [cfg('x86_64', 'faults.cpp', loglevel=5, thorough_only=True), cfg('arm64', 'faults.cpp', android=True, thorough_only=True)],
     rule='distinct fault sets at distinct events of the execution; each execution was judged')
prop('P03', 'fault_enumeration', 'exhaustive fault injection into every allocation, open and read of the real code, with complete accounting of files and memory',
     'Every set of at most three faults (four in the thorough tier) at the events of each execution of the real library, on representative machines of every architecture. Reachability of memory is decided conservatively by scanning the static data of the library.',
     ALL('faults.cpp') + [cfg('x86_64', 'faults.cpp', loglevel=5, thorough_only=True), cfg('arm64', 'faults.cpp', android=True, thorough_only=True)],
     rule='distinct fault sets at distinct events of the execution; each execution was judged')
prop('P04', 'model_checking', 'exhaustive bounded enumeration of machines, real code against a reference model of APIC topology',
     REF + 'Bounded by the number of processors and field widths.',
     [cfg('x86_64', 'x86_topology.cpp')])
prop('P05', 'model_checking', 'exhaustive bounded enumeration of CPUID cache declarations, real code against a reference model',
     REF + 'Bounded by the alphabets of geometry values and by 6 processors.',
     [cfg('x86_64', 'x86_topology.cpp'), cfg('i386', 'x86_topology.cpp', thorough_only=True)])
prop('P06', 'model_checking', 'exhaustive bounded enumeration of CPUID/XCR0 states, real code against a reference model',
     REF + 'All single bits and pairs of bits of every feature register, all register-state combinations, both 64-bit and 32-bit builds (the 32-bit code is explored compiled for the 64-bit host with a shim, and compiled for its own architecture).',
     [cfg('x86_64', 'x86_isa.cpp'), cfg('i386', 'x86_isa.cpp')])
prop('P07', 'model_checking', 'exhaustive enumeration of CPUID signatures and identification strings, real code against a documented table',
     REF + 'The table of family and model numbers is a transcription of vendor documentation.',
     [cfg('x86_64', 'x86_isa.cpp'), cfg('i386', 'x86_isa.cpp')])
prop('P08', 'model_checking', 'exhaustive enumeration of word and byte sequences up to a depth, real code against a word-rewriting reference model',
     REF + 'The reference works on lists of words, the library on a character buffer edited in place.',
     [cfg('x86_64', 'x86_name.cpp'), cfg('x86_64', 'x86_name.cpp', loglevel=5)])
prop('P09', 'model_checking', 'exhaustive bounded enumeration of kernel topology descriptions, real code against a reference model of clustering',
     REF + 'The ARM code is explored compiled for the 64-bit host with a shim, and compiled for its own architecture. Bounded by the number of processors and the alphabet of facts.',
     [cfg('arm64', 'arm_topology.cpp'), cfg('arm32', 'arm_topology.cpp'), cfg('arm32', 'arm_topology.cpp', android=True)])
prop('P10', 'model_checking', 'exhaustive bounded enumeration of identification-register reports, real code against a reference model of identity inference',
     REF + 'The tables of part numbers, companion cores and chipset configurations are transcriptions of vendor documentation. Where the kernel reports one identity only and does not say whose, several answers are accepted.',
     [cfg('arm64', 'arm_identity.cpp'), cfg('arm32', 'arm_identity.cpp')])
prop('P11', 'model_checking', 'exhaustive bounded enumeration of core types, frequencies and cluster layouts, real code against an ordering and partition oracle',
     REF + 'The roles of core types are a transcription.',
     [cfg('arm64', 'arm_identity.cpp'), cfg('arm32', 'arm_identity.cpp')])
prop('P12', 'model_checking', 'exhaustive bounded enumeration of core types, cluster layouts and chipsets, real code against a reference model of cache geometry and sharing',
     REF + 'The cache geometry of each core type is a transcription of vendor documentation, as the library has no other source for it.',
     [cfg('arm64', 'arm_cache.cpp'), cfg('arm32', 'arm_cache.cpp'), cfg('arm64', 'arm_cache.cpp', android=True)])
prop('P13', 'model_checking', 'exhaustive bounded enumeration of capability words, identities and vector lengths, real code against a reference model',
     REF + 'The list of cores whose capabilities old kernels under-report is a transcription.',
     [cfg('arm64', 'arm_isa.cpp'), cfg('arm64', 'arm_isa.cpp', android=True)])
prop('P14', 'model_checking', 'exhaustive bounded enumeration of capability words, architecture texts, identities and coprocessor registers, real code against a reference model',
     REF + 'The list of cores whose capabilities old kernels under-report is a transcription.',
     [cfg('arm32', 'arm_isa.cpp'), cfg('arm32', 'arm_isa.cpp', android=True)])
prop('P15', 'model_checking', 'exhaustive bounded enumeration of hardware and property texts, real code against a reference decoder',
     REF + 'The tables of device names are transcriptions.',
     [cfg('arm64', 'arm_chipset.cpp'), cfg('arm32', 'arm_chipset.cpp'), cfg('arm64', 'arm_chipset.cpp', android=True), cfg('arm32', 'arm_chipset.cpp', android=True)])
prop('P16', 'model_checking', 'exhaustive bounded enumeration of kernel topology lists, real code against a partition oracle',
     REF + 'The RISC-V code is explored compiled for the 64-bit host with a shim, and compiled for its own architecture. Bounded by the number of processors.',
     [cfg('riscv64', 'riscv.cpp')])
prop('P17', 'model_checking', 'exhaustive bounded enumeration of capability words and hardware-probe outcomes, real code against a reference model',
     REF + 'The RISC-V code is explored compiled for the 64-bit host with a shim, and compiled for its own architecture.',
     [cfg('riscv64', 'riscv.cpp')])
prop('P18', 'model_checking', 'exhaustive enumeration of list texts up to a length and of entry sequences up to a depth, real code against a reference set parser',
     REF + 'Bounded by the alphabets and lengths of texts; entries are shorter than the 256 bytes which the code documents as limit.',
     [cfg('arm64', 'lists.cpp'), cfg('x86_64', 'lists.cpp'), cfg('riscv64', 'lists.cpp')])

prop('P19', 'exploration', 'exhaustive enumeration of read boundaries on the real code, compared with the unsplit execution',
     'Every split position, chunk size and short read on representative machines, and three chunk sizes on all machines of other properties. Trusts the simulated read call.',
     ALL('shared.cpp') + [
         cfg('x86_64', 'shared.cpp', 'x86_topology.cpp', 'lists.cpp', twin='split', alias='P04.presence,P04.enumeration,P18.possible_text,P18.possible_entries,P18.long_lists,P18.limit,+P04,+P18'),
         cfg('arm64', 'shared.cpp', 'arm_topology.cpp', 'lists.cpp', 'arm_chipset.cpp', twin='split', alias='P09.presence,P09.partition,P15.lengths,P15.revisions,P15.device_names,P18.sibling_entries,P18.possible_text,P18.sibling_long,P18.limit,+P09,+P15,+P18'),
         cfg('arm32', 'shared.cpp', 'arm_isa.cpp', 'arm_cache.cpp', twin='split', android=True, alias='P14.text,P14.auxiliary_vector,P14.architecture_text,P12.reported,+P14'),
         cfg('riscv64', 'shared.cpp', 'riscv.cpp', 'lists.cpp', twin='split', alias='P16.nested,P16.big,P17.frequency,P17.numbers,+P16,+P17,+P18')],
     rule='executions whose reads were split and whose description was compared')
prop('P22', 'model_checking', 'exhaustive enumeration of kernel answers and query sequences on the real code against a reference lookup',
     REF + 'Bounded by representative machines and up to four of eight processor numbers.',
     ALL('shared.cpp'))
prop('P23', 'model_checking', 'exhaustive enumeration of call sequences over the public interface up to a depth, real code against a two-state reference model',
     REF + 'Bounded by sequence length.',
     ALL('shared.cpp'))
prop('P24', 'exploration', 'exhaustive enumeration of machines, each executed under different memory contents, sort orders and log levels, with comparison of the descriptions',
     'Self-composition of the real code: no reference model is needed. Trusts that memory contents are controlled through the allocator and by painting the stack.',
     ALL('shared.cpp') + [cfg('x86_64', 'shared.cpp', loglevel=5), cfg('arm64', 'shared.cpp', loglevel=5), cfg('arm32', 'shared.cpp', android=True, loglevel=5), cfg('riscv64', 'shared.cpp', loglevel=5)] + [
         c for level, extra in ((2, True), (5, False)) for c in (
         cfg('x86_64', 'shared.cpp', 'x86_topology.cpp', 'x86_isa.cpp', 'lists.cpp', twin='memory', loglevel=level, alias='P04.presence,P04.enumeration,P05.source,P05.mixed,P06.avx10,P07.hierarchy,P18.limit,+P05.levels,+P06.leaves,+P07.vendor_mix' + (',P05.levels,P05.descriptor,P06.leaves,P07.vendor_mix,P18.possible_entries,+P04,+P05,+P06,+P07,+P18' if extra else '')),
         cfg('arm64', 'shared.cpp', 'arm_topology.cpp', 'arm_identity.cpp', 'arm_cache.cpp', 'arm_isa.cpp', 'arm_chipset.cpp', 'lists.cpp', twin='memory', loglevel=level, alias='P09.partition,P09.offline_usual,P10.three_clusters,P12.single,P13.mixed,P15.revisions,P18.sibling_long,+P09.presence' + (',P09.presence,P09.offline,P09.facts_pairs6,P10.partial,P11.pairs,P12.three,P15.lengths,P18.sibling_entries,+P09,+P10,+P11,+P12,+P13,+P15,+P18' if extra else '')),
         cfg('arm32', 'shared.cpp', 'arm_topology.cpp', 'arm_identity.cpp', 'arm_cache.cpp', 'arm_isa.cpp', 'arm_chipset.cpp', twin='memory', android=True, loglevel=level, alias='P14.auxiliary_vector,P12.reported,P10.chips_layout,P15.cores,+P14.text' + (',P14.text,P14.architecture_text,P10.chips,P15.several_sources,+P09,+P10,+P12,+P14,+P15' if extra else '')),
         cfg('riscv64', 'shared.cpp', 'riscv.cpp', 'lists.cpp', twin='memory', loglevel=level, alias='P16.nested,P16.ties,P16.big,P16.vendors,P17.numbers,P17.frequency' + (',P16.nested7,P17.bits,+P16,+P17,+P18' if extra else '')))],
     rule='executions compared with another execution of the same machine', compare='the description depends on the log level or on the compiler')

prop('P20', 'exploration', 'exhaustive enumeration of edits, line and byte sequences of every system file, real code under memory and undefined-behaviour sanitizers with a consistency oracle',
     'Every execution of the real library is judged by sanitizers and by a structural oracle; where only useless text is added, the description must not change. Bounded by single edits (pairs nearby), short sequences and representative machines.',
     ALL('files.cpp') + [cfg('x86_64', 'files.cpp', loglevel=5), cfg('arm32', 'files.cpp', loglevel=5, android=True, thorough_only=True)],
     rule='executions with distinct malformed contents, each judged')
prop('P21', 'model_checking', 'exhaustive bounded enumeration of arrangements of /proc/cpuinfo, real code compared with the canonical arrangement',
     'The description from each arrangement is compared with that from the canonical arrangement of the same facts, whose facts are themselves compared with the reference. Bounded to three processors.',
     [cfg('x86_64', 'files.cpp'), cfg('arm64', 'files.cpp'), cfg('arm32', 'files.cpp', android=True), cfg('arm32', 'files.cpp', thorough_only=True)])

LOG = ('deps/clog/src/clog.c', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'log_calls.c'))
prop('P25', 'exploration', 'exhaustive enumeration of message and name lengths, levels, formats and failing allocations, real code with recorded writes compared with the expected line',
     'Every write of the real loggers is recorded and compared byte by byte with the expected line. Bounded by lengths (all up to 1100 bytes and around larger powers of two).',
     [cfg('x86_64', 'log.cpp', loglevel=l, targets=LOG) for l in range(6)],
     rule='log calls with distinct level, format, name and length, each judged')

OS = lambda arch, osname, **kw: cfg(arch, 'os.cpp', 'platforms.cpp', os=osname, **kw)
OTHER = 'The code for the other system is compiled for the Linux host against small headers, and every question to that system is answered by a simulation, which is trusted. '
PLAN['P24']['runs'] += [OS(arch, osname, twin='memory', alias=alias) for arch, osname, alias in (
    ('wasm', 'emscripten_threads', 'P26.counts'), ('x86_64', 'mach', 'P27.counts,P27.levels,+P27.sharing'), ('x86_64', 'freebsd', 'P27.counts,P27.levels'),
    ('arm64', 'mach', 'P28.counts,P28.devices,P28.names,P28.isa,+P28.caches,+P28.isa_sets'), ('x86_64', 'windows', 'P29.layouts,P29.inactive,+P29.caches'),
    ('arm64', 'windows', 'P30.layouts,P30.inactive,P30.geometry,P30.identity,P30.names,P30.isa,+P30.caches'))]
prop('P26', 'model_checking', 'exhaustive enumeration of processor counts, host kinds and failing allocations, real code against a reference description',
     REF + OTHER + 'Bounded by 200 processors and four failing allocations.',
     [OS('wasm', 'emscripten'), OS('wasm', 'emscripten_threads'), OS('wasm', 'emscripten_threads', loglevel=5, thorough_only=True)])
prop('P27', 'model_checking', 'exhaustive bounded enumeration of the counts and sharing which the system reports, cache levels and failing questions, real code against a reference model',
     REF + OTHER + 'Bounded by 24 processors and the alphabet of values.',
     [OS('x86_64', 'mach'), OS('x86_64', 'freebsd'), OS('x86_64', 'mach', loglevel=5, thorough_only=True), OS('x86_64', 'freebsd', loglevel=5, thorough_only=True)])
PHONE = dict(defs=('-DVERIF_IPHONE=1',), target_defs=('-DTARGET_OS_IPHONE=1',), variant='ios')
prop('P28', 'model_checking', 'exhaustive bounded enumeration of families, counts, cache sizes, device names, feature reports and failing questions, real code against a reference model',
     REF + OTHER + 'The tables of families and devices are transcriptions. Bounded by 24 processors and the alphabet of values.',
     [OS('arm64', 'mach'), OS('arm64', 'mach', **PHONE), OS('arm64', 'mach', loglevel=5, thorough_only=True)])
prop('P29', 'model_checking', 'exhaustive bounded enumeration of arrangements of processors in groups, packages and cores, cache sharing and failing questions, real code against a reference model',
     REF + OTHER + 'Every arrangement of up to 7 (9) processors, and regular ones of up to 192.',
     [OS('x86_64', 'windows')])
prop('P30', 'model_checking', 'exhaustive bounded enumeration of arrangements of processors, cache reports, registry contents, features and failing questions, real code against a reference model',
     REF + OTHER + 'Every arrangement of up to 7 (9) processors, and regular ones of up to 192.',
     [OS('arm64', 'windows')])

T_ = dict(san='tsan', targets=(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'threads_user.c'),))
prop('P01', 'model_checking', 'stateless model checking of the real code under a controlled scheduler: every schedule of 2-3 threads up to a preemption bound, with a happens-before race detector',
     'Every access of the instrumented library to shared memory and every synchronization operation is a scheduling point; race freedom justifies sequentially consistent interleavings. Trusts the model of the once guard, mutexes and atomics, and the compiler instrumentation. Bounded to 2-3 threads and 2 (3) preemptions on representative machines.',
     [cfg('x86_64', 'threads.cpp', **T_), cfg('i386', 'threads.cpp', thorough_only=True, **T_), cfg('arm64', 'threads.cpp', **T_), cfg('arm32', 'threads.cpp', android=True, **T_), cfg('arm64', 'threads.cpp', android=True, thorough_only=True, **T_), cfg('riscv64', 'threads.cpp', **T_)])

T = lambda arch, **kw: cfg(arch, 'tools.cpp', tools=True, **kw)
TOOLS = [T('x86_64'), T('i386', cross=True), T('arm64'), T('arm32', android=True), T('arm32', cross=True), T('riscv64'), T('arm64', cross=True, thorough_only=True), T('riscv64', cross=True, thorough_only=True)]
prop('P31', 'model_checking', 'exhaustive bounded enumeration of machines and failing system calls, real command-line programs on the real library, whose output is compared with a report written from the public description',
     'Every execution runs the real program and library; standard output and exit status are recorded. The tables of names and labels are transcriptions. Whether the description itself is right is the matter of other properties.',
     TOOLS + [cfg('arm64', 'os.cpp', 'tools.cpp', os='mach', tools=True)])
prop('P32', 'exploration', 'exhaustive enumeration of CPUID leaf structures, file lengths, read sizes and failures, real command-line programs whose output is compared with the expected text',
     'Every execution runs the real program on simulated CPUID leaves and files and compares the complete output. Bounded by the numbers of leaves, file lengths and read sizes.',
     TOOLS, rule='executions with distinct leaves, lengths, read sizes and failures, each judged')

SIM = lambda arch, *h, **kw: [cfg(arch, *h, twin='mock', **kw), cfg(arch, *h, twin='mock', mock=True, **kw)]
prop('P33', 'model_checking', 'exhaustive bounded enumeration of operation sequences on the simulation interface against a reference model, and of machines described by the real code both directly and through the simulation interface',
     'Sequences of operations on simulated files and registers are compared with a model of them; every machine is described by two builds of the real library, one with and one without simulation, whose descriptions are compared. Facts which the interface cannot express (XCR0, one coprocessor register, vector lengths) are taken from the same simulated system in both builds.',
     [cfg('x86_64', 'mock.cpp', mock=True), cfg('arm32', 'mock.cpp', android=True, mock=True), cfg('i386', 'mock.cpp', mock=True, cross=True), cfg('arm64', 'mock.cpp', mock=True, cross=True)]
     + SIM('x86_64', 'x86_topology.cpp', 'x86_isa.cpp', 'lists.cpp', alias='P04.presence,P04.enumeration,P04.regular,P04.leafB,P04.legacy,P04.declaration,P05.levels,P05.source,P05.mixed,P06.avx10,P07.hierarchy,P18.limit,P18.possible_entries,+P04,+P05,+P06,+P07,+P18')
     + SIM('arm64', 'arm_topology.cpp', 'arm_identity.cpp', 'arm_cache.cpp', 'arm_isa.cpp', 'arm_chipset.cpp', 'lists.cpp', alias='P09.presence,P09.partition,P10.three_clusters,P12.single,P13.mixed,P13.bits,P15.revisions,P15.lengths,P18.sibling_long,P18.sibling_entries,+P09,+P10,+P11,+P12,+P13,+P15,+P18')
     + SIM('arm32', 'arm_topology.cpp', 'arm_identity.cpp', 'arm_cache.cpp', 'arm_isa.cpp', 'arm_chipset.cpp', android=True, alias='P14.subsets,P14.coprocessors,P14.architecture_text,P12.reported,P10.chips_layout,P15.cores,P15.two_sources,P15.several_sources,+P09,+P10,+P12,+P14,+P15'),
     compare='a simulated machine is described otherwise than a real one with the same facts')

# The same explorations of the library as compiled for 32-bit x86, ARM and RISC-V themselves, under an emulator where needed:
# this binds the executions above, in which that code is compiled for the host, to the code users run.
for _pids, _runs in (
    ('P02 P03', [X('i386', 'faults.cpp'), X('arm64', 'faults.cpp', thorough_only=True), X('arm32', 'faults.cpp', android=True), X('riscv64', 'faults.cpp')]),
    ('P04 P05', [X('i386', 'x86_topology.cpp')]),
    ('P06 P07', [X('i386', 'x86_isa.cpp')]),
    ('P08', [X('i386', 'x86_name.cpp')]),
    ('P09', [X('arm64', 'arm_topology.cpp', thorough_only=True), X('arm32', 'arm_topology.cpp', android=True)]),
    ('P10 P11', [X('arm64', 'arm_identity.cpp', thorough_only=True), X('arm32', 'arm_identity.cpp')]),
    ('P12', [X('arm64', 'arm_cache.cpp', thorough_only=True), X('arm32', 'arm_cache.cpp')]),
    ('P13', [X('arm64', 'arm_isa.cpp', reduced='bits,exceptions,mixed')]),
    ('P14', [X('arm32', 'arm_isa.cpp', thorough_only=True), X('arm32', 'arm_isa.cpp', android=True)]),
    ('P15', [X('arm64', 'arm_chipset.cpp', android=True, thorough_only=True), X('arm32', 'arm_chipset.cpp', reduced='models,cores,suffixes,letter_case,words,lengths,revisions')]),
    ('P16 P17', [X('riscv64', 'riscv.cpp')]),
    ('P18', [X('i386', 'lists.cpp'), X('arm32', 'lists.cpp', reduced='present_text,possible_entries,limit,long_lists,sibling_entries,sibling_long'), X('arm64', 'lists.cpp', thorough_only=True), X('riscv64', 'lists.cpp', thorough_only=True)]),
    ('P19 P22 P23', [X('i386', 'shared.cpp'), X('arm64', 'shared.cpp', thorough_only=True), X('arm32', 'shared.cpp', android=True), X('riscv64', 'shared.cpp')]),
    ('P20', [X('i386', 'files.cpp'), X('arm64', 'files.cpp', thorough_only=True), X('arm32', 'files.cpp', android=True, reduced='edits,useless_lines'), X('riscv64', 'files.cpp', thorough_only=True)]),
    ('P21', [X('i386', 'files.cpp'), X('arm64', 'files.cpp', thorough_only=True), X('arm32', 'files.cpp', android=True)]),
    ('P24', [X('arm64', 'shared.cpp'), X('arm32', 'shared.cpp', android=True), X('riscv64', 'shared.cpp')]),
    ('P25', [X('i386', 'log.cpp', targets=LOG), X('arm32', 'log.cpp', targets=LOG)])):
    for _p in _pids.split(): PLAN[_p]['runs'] = PLAN[_p]['runs'] + _runs
