"""Which monitor binaries, builds and case counts decide each property."""
CONFIGS = {
    'default': ['G3LOG_DEBUG DEBUG'],
    'dyn': ['G3LOG_DEBUG DEBUG', 'G3_DYNAMIC_LOGGING'],
    'dynmax': ['G3LOG_DEBUG DEBUG', 'G3_DYNAMIC_MAX_MESSAGE_SIZE'],
    'names': ['G3LOG_DEBUG DBUG', 'CHANGE_G3LOG_DEBUG_TO_DBUG', 'G3_LOG_FULL_FILENAME', 'PRETTY_FUNCTION'],
    'nosig': ['G3LOG_DEBUG DEBUG', 'DISABLE_FATAL_SIGNALHANDLING'],
}
VARIANTS = {
    # optimized, asserts off, as the library is shipped
    'rel': {'flags': ['-O2', '-DNDEBUG'], 'perturb': ['-DVF_INTERPOSE', '-DVF_COUNT_ALLOC']},
    # schedule perturbation at every function entry and exit of the library and the harness
    'pert': {'flags': ['-O1', '-DNDEBUG'], 'instrument': True, 'perturb': ['-DVF_INTERPOSE']},
    'asan': {'flags': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'], 'instrument': True},
    'tsan': {'flags': ['-O1', '-DNDEBUG', '-fsanitize=thread'], 'instrument': True},
    # for memcheck
    'vg': {'flags': ['-O1', '-g', '-DNDEBUG', '-DVF_SLOW']},
}
HARNESS_EXTRA = {}
TRACE = 'events are stamped by one shared-memory counter at the client boundary (before the call, after the return, inside the sink)'
SCHED = 'schedules are sampled (seeded perturbation at function boundaries, spurious wake-ups, gates), not enumerated; x86-64 Linux, libstdc++'
CHECKS = {}
SCALE = {'P20': 1.5, 'P21': 2, 'P17': 8, 'P03': 12, 'P04': 10, 'P06': 8, 'P07': 8, 'P08': 8, 'P09': 10, 'P11': 8, 'P13': 7, 'P14': 10, 'P15': 8, 'P16': 8, 'P19': 12, 'P25': 12, 'P27': 8, 'P28': 10, 'P02': 5}  # case counts of the quick tier


def add(prop, rule, units, level='exploration', assumptions=(), **kw):
    for u in units:
        if 'scenario' not in u and u.get('variant') != 'vg':
            u['quick'] = int(u['quick'] * SCALE.get(prop, 3))
    CHECKS[prop] = dict(rule=rule, units=units, level=level, assumptions=list(assumptions) or [TRACE, SCHED], **kw)


add('P01', 'seeded plans (threads, sinks and their kinds, sizes, bursts, gates, life cycles); distinct = different observed interleaving of the logging threads at the first sink',
    [dict(harness='deliver', quick=240), dict(harness='deliver', variant='rel', quick=120),
     dict(harness='deliver', scenario='Huge', quick=3, thorough=8, chunk=1, variant='rel'), dict(harness='deliver', scenario='ManySinks', quick=6, thorough=24, chunk=1, variant='rel'), dict(harness='deliver', scenario='Giant', quick=3, thorough=12, chunk=1, variant='rel'), dict(harness='deliver', scenario='Volume', quick=1, thorough=3, chunk=1, variant='rel'), dict(harness='deliver', scenario='LongShutdown', quick=2, thorough=8, chunk=1, variant='rel')])
add('P02', 'seeded plans; distinct = different observed interleaving at the first sink',
    [dict(harness='deliver', quick=240), dict(harness='deliver', variant='rel', quick=80),
     dict(harness='deliver', scenario='HugeOrder', quick=2, thorough=8, chunk=1, variant='rel'), dict(harness='deliver', scenario='ManySinksOrder', quick=4, thorough=24, chunk=1, variant='rel')])
add('P09', 'add/remove controllers against concurrent loggers, and removals under backlog; distinct = different vector of windows (messages seen per dynamic sink)',
    [dict(harness='deliver', quick=200), dict(harness='deliver', variant='rel', quick=80),
     dict(harness='deliver', scenario='HugeRemoval', quick=2, thorough=8, chunk=1, variant='rel'), dict(harness='deliver', scenario='ManySinks', quick=6, thorough=24, chunk=1, variant='rel'), dict(harness='deliver', scenario='LongRemoval', quick=3, thorough=12, chunk=1, variant='rel')])
add('P10', 'blocked and slow sinks among free ones with loggers and handle callers; distinct = different configuration or interleaving',
    [dict(harness='isolate', quick=240), dict(harness='isolate', variant='rel', quick=60),
     dict(harness='deliver', scenario='ManySinks', quick=6, thorough=24, chunk=1, variant='rel'), dict(harness='isolate', scenario='LongBlock', quick=2, thorough=8, chunk=1, variant='rel')])
add('P11', 'handle calls of eight shapes against loggers, removal and shutdown; distinct = different execution order of calls and messages in the sinks',
    [dict(harness='calls', quick=320), dict(harness='calls', variant='rel', quick=100),
     dict(harness='calls', scenario='LongCalls', quick=1, thorough=4, chunk=1, variant='rel'), dict(harness='isolate', scenario='HugeShutdown', quick=1, thorough=4, chunk=1, variant='rel')])
add('P28', 'life cycles with random sinks, backlog, kept-alive sinks, calls during destruction; distinct = different destruction outcome vector',
    [dict(harness='isolate', quick=160), dict(harness='isolate', variant='rel', quick=80),
     dict(harness='isolate', scenario='HugeShutdown', quick=1, thorough=4, chunk=1, variant='rel'), dict(harness='deliver', scenario='LongShutdown', quick=2, thorough=8, chunk=1, variant='rel'), dict(harness='deliver', scenario='ManySinks', quick=3, thorough=24, chunk=1, variant='rel')])

add('P03', 'call sites with known file, line and function, levels around every boundary, texts of all sizes and bytes, 1-4 threads; distinct = different sequence of (site, level) received',
    [dict(harness='record', quick=160), dict(harness='record', config='names', quick=80), dict(harness='deliver', scenario='Giant', quick=2, thorough=8, chunk=1, variant='rel')], assumptions=['the C library formats local times correctly (fixed-offset zones)', SCHED])
add('P04', 'generated formats and arguments, lengths around the limit; distinct = case',
    [dict(harness='record', quick=120), dict(harness='record', config='dynmax', quick=120), dict(harness='record', variant='asan', quick=40)],
    assumptions=['snprintf of the C library is the reference'])
add('P19', 'random operation sequences over six messages against a field model; distinct = sequence',
    [dict(harness='record', variant='rel', quick=200), dict(harness='record', variant='asan', quick=60)], assumptions=['single-threaded use of one message object'])
add('P14', '22 statement forms in 11 syntactic contexts with random conditions, levels and handlers that throw; distinct = different mix of statements',
    [dict(harness='macro', quick=120), dict(harness='macro', config='dyn', quick=160), dict(harness='record', scenario='OddStreams', quick=300, thorough=3000)], assumptions=['what a statement logs when one of its own operands throws is left open'])

FATAL = 'distinct = different (kind, place, configuration, delivery order at the sinks)'
add('P05', 'random backlog, sinks (slow, gated, held, file), loggers and handle callers, then one event of 22 kinds; ' + FATAL,
    [dict(harness='fatal', quick=500, timeout=12), dict(harness='fatal', variant='rel', quick=300, timeout=12), dict(harness='fatal', config='nosig', variant='rel', quick=150, timeout=12),
     dict(harness='fatal', scenario='LongFlush', quick=4, thorough=16, chunk=1, variant='rel')])
add('P06', '22 kinds of events in 6 phases and 12 places; distinct = (kind, phase, place)',
    [dict(harness='fatal', quick=1500, timeout=12), dict(harness='fatal', variant='rel', quick=800, timeout=12), dict(harness='fatal', config='nosig', variant='rel', quick=300, timeout=12),
     dict(harness='fatal', scenario='InitProcess', quick=60, timeout=12), dict(harness='fatal', scenario='InitProcess', quick=60, timeout=12, variant='rel'), dict(harness='fatal', scenario='LongDeath', quick=4, thorough=16, chunk=1, variant='rel')])
add('P08', 'hooks set before and after initialization, logging, crashing or fatal themselves; ' + FATAL,
    [dict(harness='fatal', quick=1200, timeout=12), dict(harness='fatal', variant='rel', quick=600, timeout=12), dict(harness='fatal', config='nosig', variant='rel', quick=200, timeout=12),
     dict(harness='fatal', scenario='LongHook', quick=2, thorough=8, chunk=1, variant='rel')])
add('P25', '22 kinds of events with texts of all sizes, three phases; ' + FATAL,
    [dict(harness='fatal', quick=700, timeout=12), dict(harness='fatal', variant='rel', quick=500, timeout=12)])
add('P26', 'sequences of events with returning, throwing and forwarding handlers; ' + FATAL,
    [dict(harness='fatal', quick=1500, timeout=12), dict(harness='fatal', variant='rel', quick=800, timeout=12), dict(harness='fatal', config='nosig', variant='rel', quick=300, timeout=12)])
add('P27', '2-8 raisers of mixed kinds at random offsets over a backlog; ' + FATAL,
    [dict(harness='fatal', quick=700, timeout=12), dict(harness='fatal', variant='rel', quick=500, timeout=12),
     dict(harness='fatal', scenario='LongSimultaneous', quick=2, thorough=8, chunk=1, variant='rel')])
add('P12', '1-6 life cycles with messages before, between and after, inactive workers, illegal initializations; distinct = different configuration or delivery order',
    [dict(harness='fatal', quick=1200, timeout=12), dict(harness='fatal', variant='rel', quick=600, timeout=12), dict(harness='fatal', scenario='ManyLives', variant='rel', quick=4, thorough=8, chunk=1)])
add('P07', 'random sequences of install, restore, override, reset, initialize and application changes; distinct = different table of all 64 dispositions at the end',
    [dict(harness='signal', quick=1500, variant='rel'), dict(harness='signal', quick=500, config='nosig', variant='rel'), dict(harness='signal', quick=200)],
    assumptions=['the application does not change the disposition of a signal while the logger holds it', 'the kernel reports dispositions correctly'])
add('P13', 'random level operations over 24 level values against a reference map, with statements of four forms after each; loggers against controllers; distinct = different sequence of decisions',
    [dict(harness='level', config='dyn', quick=700), dict(harness='level', config='dyn', variant='rel', quick=500), dict(harness='level', variant='rel', quick=150), dict(harness='level', scenario='ManyLevels', config='dyn', variant='rel', quick=12, thorough=60, chunk=1)],
    assumptions=['levels are added and reset while no other thread logs (as documented)', SCHED])
add('P15', 'random writers, intervals, headers, formatters; killed by SIGKILL at a random moment or ended orderly; distinct = (messages processed, interval, file size)',
    [dict(harness='file', quick=900), dict(harness='file', variant='rel', quick=1200), dict(harness='file', scenario='LongFile', variant='rel', quick=24, thorough=100, chunk=2)], assumptions=['a killed process: the kernel keeps what was written', SCHED], level='fault_enumeration')
add('P16', 'sequences of entries, successful and failing changes with a virtual clock and existing files; loggers against a changer; distinct = different sequence of files',
    [dict(harness='file', quick=900), dict(harness='file', variant='rel', quick=1200)], assumptions=['file names with one second resolution, clock virtual', SCHED])
add('P17', 'random prefixes, directories, ids, instants and zones; distinct = (prefix, directory, id)',
    [dict(harness='file', variant='rel', quick=4000)], assumptions=['C locale', 'Linux file system'])
add('P18', 'random zones (POSIX rules, both hemispheres, odd offsets), instants (epoch, offset changes, leap days, 32-bit limits, sub-second edges) and formats; distinct = different (specifier set, kind of instant, daylight saving, sign)',
    [dict(harness='time', variant='rel', quick=4000), dict(harness='time', quick=500)],
    assumptions=['C locale', 'zone rules as in POSIX TZ strings; for times where the C library applies other rules (before 1970) its offset is used', 'instants representable by system_clock'])
add('P22', 'producers and consumers of all styles over three item types, blocked consumers, task runners with nested submissions and backlog, spawned tasks of ten shapes; distinct = different order of items/tasks',
    [dict(harness='queue', quick=900), dict(harness='queue', variant='rel', quick=600),
     dict(harness='queue', scenario='LongQueue', quick=6, thorough=24, chunk=1, variant='rel')])
add('P23', 'gated sinks; eight statement forms whose every operand (text, format, file, function, expression, level) is overwritten and freed or unmapped, and ten call sites in a library that is unloaded, before the sinks run; distinct = different set of records',
    [dict(harness='own', variant='asan', quick=240), dict(harness='own', variant='rel', quick=600), dict(harness='own', config='names', variant='rel', quick=200)])
CONC = ['P01', 'P02', 'P05', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P16', 'P18', 'P22', 'P23', 'P26', 'P27', 'P28', 'P15', 'P03', 'P14']
HARNESS_OF = {'P01': 'deliver', 'P02': 'deliver', 'P09': 'deliver', 'P10': 'isolate', 'P28': 'isolate', 'P11': 'calls', 'P03': 'record', 'P04': 'record', 'P19': 'record',
              'P14': 'macro', 'P05': 'fatal', 'P06': 'fatal', 'P08': 'fatal', 'P25': 'fatal', 'P26': 'fatal', 'P27': 'fatal', 'P12': 'fatal', 'P07': 'signal', 'P13': 'level',
              'P15': 'file', 'P16': 'file', 'P17': 'file', 'P18': 'time', 'P22': 'queue', 'P23': 'own'}
def san(prop, variant, quick, config='default', **kw):
    return dict(harness=HARNESS_OF[prop], variant=variant, config=config, quick=quick, san=True, timeout=40, **{'as': prop}, **kw)
add('P21', 'the workloads of the concurrent properties under ThreadSanitizer; distinct = different order of observed events',
    [san(p, 'tsan', 120, 'dyn' if p == 'P13' else 'default') for p in CONC] + [san('P04', 'tsan', 40, 'dynmax'), san('P14', 'tsan', 40, 'dyn')])

add('P20', 'the workloads of all other properties under AddressSanitizer and UBSan, memcheck on a sample, resource accounting over life cycles; distinct = different order of observed events',
    [san(p, 'asan', 60, 'dyn' if p == 'P13' else 'default') for p in HARNESS_OF] +
    [san('P04', 'asan', 40, 'dynmax'), san('P23', 'asan', 40, 'names'), san('P14', 'asan', 40, 'dyn')] +
    [dict(harness='cycle', variant='rel', quick=340, timeout=40), dict(harness='cycle', config='dyn', variant='rel', quick=60, timeout=40), dict(harness='cycle', variant='asan', quick=40, timeout=60)] +
    [san(p, 'vg', 4, 'dyn' if p == 'P13' else 'default', chunk=1, thorough=60) for p in ('P01', 'P11', 'P03', 'P04', 'P14', 'P12', 'P25', 'P13', 'P16', 'P15', 'P18', 'P23', 'P19')])
