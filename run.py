#!/usr/bin/env python3
"""Builds the monitors from /repo's working tree, runs them, and judges.

  run.py check P01 [--tier quick|thorough]     the registered check
  run.py replay out/P01-xxxx.json              re-runs the case of a reported violation
  run.py build                                 builds everything (setup)
Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 the check itself failed.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
sys.path.insert(0, VERIF)
from checks import CHECKS, CONFIGS, VARIANTS, HARNESS_EXTRA

JOBS = min(8, os.cpu_count() or 4)
EXCL = '-finstrument-functions-exclude-file-list=/usr/include,/usr/lib'
HDIR = os.path.join(VERIF, 'harness')


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def tree_hash():
    parts = []
    for root, _, files in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(files):
            p = os.path.join(root, f)
            parts += [os.path.relpath(p, REPO), open(p, 'rb').read()]
    for f in sorted(os.listdir(HDIR)):
        p = os.path.join(HDIR, f)
        if os.path.isfile(p):
            parts += [f, open(p, 'rb').read()]
    return sha(*parts)


def repo_sources():
    d = os.path.join(REPO, 'src')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp') and 'windows' not in f]


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout


class Builder:
    """Builds (harness, variant, config) binaries; compilations of one check run in parallel."""

    def __init__(self):
        self.th = tree_hash()
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)
        self.jobs = {}
        self.lock = threading.Lock()

    def gen(self, config):
        d = os.path.join(BUILD, 'gen', config, 'g3log')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, 'generated_definitions.hpp')
        text = '#pragma once\n' + ''.join('#define %s\n' % x for x in CONFIGS[config])
        if not os.path.exists(p) or open(p).read() != text:
            open(p, 'w').write(text)
        return os.path.dirname(d)

    def obj(self, src, variant, config, plain=False, extra=()):
        v = VARIANTS[variant]
        flags = ['-std=c++17', '-g1', '-I' + os.path.join(REPO, 'src'), '-I' + self.gen(config), '-I' + HDIR]
        flags += ['-DVF_CFG_' + config] + list(extra)
        if plain == 'perturb':
            flags += ['-O2'] + v.get('perturb', [])
        else:
            flags += v['flags']
            if v.get('instrument') and not plain:
                flags += ['-finstrument-functions', EXCL]
        cxx = v.get('cxx', 'g++')
        key = sha(self.th, src, cxx, ' '.join(flags))
        d = os.path.join(BUILD, 'obj')
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, os.path.basename(src) + '.' + key + '.o')

        def work():
            if os.path.exists(o):
                return o
            tmp = o + '.tmp%d' % os.getpid()
            rc, out = run_cmd([cxx] + flags + ['-c', src, '-o', tmp])
            if rc:
                raise HarnessError('compilation of %s failed:\n%s' % (src, out[-4000:]))
            os.replace(tmp, o)
            return o
        with self.lock:
            if key not in self.jobs:
                self.jobs[key] = self.pool.submit(work)
            return self.jobs[key]

    def request(self, harness, variant, config):
        extra = HARNESS_EXTRA.get(harness, [])
        js = [self.obj(s, variant, config) for s in repo_sources()]
        js.append(self.obj(os.path.join(HDIR, 'h_%s.cpp' % harness), variant, config, extra=extra))
        js.append(self.obj(os.path.join(HDIR, 'vf.cpp'), variant, config, plain=True))
        js.append(self.obj(os.path.join(HDIR, 'perturb.cpp'), variant, config, plain='perturb'))
        return js

    def link(self, harness, variant, config, jobs):
        v = VARIANTS[variant]
        objs = [j.result() for j in jobs]
        exe = os.path.join(BUILD, 'bin', '%s.%s.%s.%s' % (harness, variant, config, sha(*objs)))
        if os.path.exists(exe):
            return exe
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + '.tmp%d' % os.getpid()
        rc, out = run_cmd([v.get('cxx', 'g++')] + v['flags'] + objs + ['-o', tmp, '-pthread', '-ldl', '-rdynamic'])
        if rc:
            raise HarnessError('link failed:\n' + out[-4000:])
        os.replace(tmp, exe)
        return exe


def build_plugin(variant, config):
    """the shared object with call sites that the ownership monitor loads and unloads"""
    v = VARIANTS[variant]
    src = os.path.join(HDIR, 'own_lib.cpp')
    b = Builder()
    flags = ['-std=c++17', '-g1', '-I' + os.path.join(REPO, 'src'), '-I' + b.gen(config), '-I' + HDIR] + v['flags'] + ['-shared', '-fPIC', '-fno-gnu-unique']
    so = os.path.join(BUILD, 'so', 'plugin.%s.so' % sha(b.th, variant, config, ' '.join(flags)))
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = so + '.tmp%d' % os.getpid()
        rc, out = run_cmd([v.get('cxx', 'g++')] + flags + [src, '-o', tmp])
        if rc:
            raise HarnessError('plugin: ' + out[-3000:])
        os.replace(tmp, so)
    return so


def prune(keep_recent=400):
    for sub in ('obj', 'bin', 'so'):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d):
            continue
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda p: os.stat(p).st_mtime, reverse=True)
        for p in fs[keep_recent:]:
            os.unlink(p)


def env_for(variant):
    e = {k: v for k, v in os.environ.items() if not k.endswith('SAN_OPTIONS')}
    e.pop('TZ', None)
    e['ASAN_OPTIONS'] = ('abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:'
                         'handle_sigbus=0:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:'
                         'check_initialization_order=1:max_malloc_fill_size=4096:malloc_fill_byte=190:max_free_fill_size=4096:free_fill_byte=221')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
    e['TSAN_OPTIONS'] = ('halt_on_error=0:report_signal_unsafe=0:second_deadlock_stack=1:exitcode=0:history_size=4:'
                         'suppressions=' + os.path.join(HDIR, 'tsan.supp'))
    e['LC_ALL'] = 'C'
    e['VF_BUILD'] = BUILD
    return e


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


NORANDOM = []


def run_chunk(unit, exe, prop, seed, first, n, tier, tmp):
    cmd = NORANDOM + [exe, '--prop', unit.get('as', prop), '--seed', str(seed), '--first', str(first), '--n', str(n), '--tmp', tmp,
                      '--timeout', str(unit.get('timeout', 20)), '--stop', '3']
    if unit.get('san'):
        cmd.append('--san')
    if unit.get('scenario'):
        cmd += ['--scenario', unit['scenario']]
    if tier == 'thorough':
        cmd.append('--thorough')
    if unit['variant'] == 'vg':
        cmd = ['valgrind', '--quiet', '--error-exitcode=0', '--leak-check=no', '--trace-children=no', '--num-callers=14', '--max-threads=200',
               '--suppressions=' + os.path.join(HDIR, 'vg.supp')] + cmd
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(env_for(unit['variant']), **unit.get('env', {})), text=True, errors='replace')
    viols, done = [], None
    for l in r.stdout.splitlines():
        if not l.startswith('{'):
            continue
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if 'viol' in j:
            v = j['viol']
            v['cmd'] = [os.path.basename(exe)] + cmd[len(NORANDOM) + 1:]
            v['unit'] = {k: unit[k] for k in ('harness', 'variant', 'config') if k in unit}
            v['unit'].update({k: unit[k] for k in ('as', 'san', 'scenario', 'timeout') if k in unit})
            viols.append(v)
        if 'done' in j:
            done = j['done']
    if unit['variant'] == 'vg':
        viols = [v for v in viols if v['class'] != 'hang'] + memcheck_reports(r.stderr, unit, exe, seed, first, n)
    if done is None and r.returncode in (-4, -6, -7, -8, -11) and unit['variant'] != 'vg':
        # the judging process only reads the trace, but a scenario may use the library in it (values, formatting)
        v = {'class': 'crash', 'scenario': unit['harness'], 'case': first, 'seed': seed, 'n': n, 'cmd': [os.path.basename(exe)] + cmd[1:],
             'unit': {k: unit[k] for k in ('harness', 'variant', 'config', 'as', 'san', 'scenario', 'timeout') if k in unit},
             'text': 'the monitored process died by signal %d: %s' % (-r.returncode, r.stderr[-400:])}
        viols.append(v)
        done = {'cases': 1, 'evals': 1, 'events': 0, 'inconclusive': 0, 'scenarios': {}, 'stat': {}, 'cover': [], 'samples': [], 'hashes': []}
    if done is None:
        raise HarnessError('%s ended with %d without a result\n%s\n%s' % (' '.join(cmd), r.returncode, r.stdout[-1500:], r.stderr[-3000:]))
    return viols, done


def memcheck_reports(err, unit, exe, seed, first, n):
    """memcheck writes the reports of all the children of a chunk to its own stderr"""
    by, out = {}, []
    for l in err.splitlines():
        m = re.match(r'==(\d+)== ?(.*)', l)
        if m:
            by.setdefault(m.group(1), []).append(m.group(2))
    for lines in by.values():
        text = []
        for l in lines + ['']:
            if l.strip():
                text.append(l.strip())
                continue
            t = ' <- '.join(x[:160] for x in text[:10])
            first_frame = text[1] if len(text) > 1 else ''
            text = []
            if 'vf_raise_here' in first_frame:
                continue  # the crash that the case is about
            if re.match(r'(Conditional jump|Use of uninit|Invalid |Syscall param|Source and destination|Mismatched free|Argument|realloc)', t):
                out.append({'class': 'memcheck', 'scenario': '%s/%s' % (unit['harness'], unit.get('as', '')), 'case': first, 'seed': seed, 'text': t,
                            'cmd': [os.path.basename(exe), '--first', str(first), '--n', str(n)],
                            'unit': {k: unit[k] for k in ('harness', 'variant', 'config', 'as', 'san', 'timeout') if k in unit}, 'n': n})
    return out[:5]


def san_setup(exe, variant):
    """sanitizers dislike exotic address space layouts: fall back to a fixed layout"""
    if variant not in ('tsan', 'asan'):
        return
    for pre in ([], ['setarch', os.uname().machine, '-R']):
        r = subprocess.run(pre + [exe, '--list'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(variant))
        if r.returncode == 0:
            NORANDOM[:] = pre
            return
    raise HarnessError('%s does not start: %s' % (exe, r.stderr.decode(errors='replace')[-500:]))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = CHECKS[prop]
    b = Builder()
    units = [dict(u) for u in spec['units']]
    built = []
    for u in units:
        u.setdefault('config', 'default')
        u.setdefault('variant', 'pert')
        built.append((u, b.request(u['harness'], u['variant'], u['config'])))
    for u in units:
        if u['harness'] == 'own':
            u['env'] = {'VF_PLUGIN': build_plugin(u['variant'], u['config'])}
    exes = [(u, b.link(u['harness'], u['variant'], u['config'], j)) for u, j in built]
    for u, e in exes:
        san_setup(e, u['variant'])
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='vf_', dir='/tmp')
    os.chmod(tmp, 0o755)
    chunks = []
    for ui, (u, exe) in enumerate(exes):
        total = u['quick'] if tier == 'quick' else u.get('thorough', u['quick'] * 8)
        size = max(1, min(u.get('chunk', 25), (total + JOBS - 1) // JOBS))
        for first in range(0, total, size):
            chunks.append((first, ui, min(size, total - first)))
    chunks.sort()
    viols, results, skipped = [], [], 0
    limit = spec.get('limit', 420 if tier == 'quick' else 3000)
    stop = threading.Event()

    def one(ch):
        first, ui, n = ch
        if stop.is_set():
            return None
        if time.time() - t0 > limit:
            return 'skipped'
        u, exe = exes[ui]
        v, d = run_chunk(u, exe, prop, seed, first, n, tier, tmp)
        if len([x for x in v]) and tier == 'quick':
            viol_count[0] += len(v)
            if viol_count[0] >= 6:
                stop.set()
        return ui, v, d
    viol_count = [0]
    try:
        with concurrent.futures.ThreadPoolExecutor(spec.get('jobs', JOBS)) as ex:
            for r in ex.map(one, chunks):
                if r == 'skipped':
                    skipped += 1
                elif r:
                    ui, v, d = r
                    viols += v
                    results.append((ui, d))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # ---- known findings
    kf = known_findings()
    listed = [f for f in kf['findings'] if f['property'] == prop]
    fresh, hits = [], {}
    for v in viols:
        for f in listed:
            if re.search(f['scenario'], v['scenario']) and v['class'] == f['class'] and re.search(f['text'], v['text'], re.S):
                hits.setdefault(f['id'], []).append(v)
                break
        else:
            fresh.append(v)
    for f in listed:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, f['what'], '' if f['id'] in hits else ' (not met in this run)'))
    # ---- evidence
    cases = sum(d['cases'] for _, d in results)
    events = sum(d['events'] for _, d in results)
    hashes = set()
    stat, scen, cover = {}, {}, [0] * 32
    samples, incon = [], 0
    per_unit = {}
    for ui, d in results:
        u = exes[ui][0]
        name = '%s/%s/%s' % (u['harness'], u['variant'], u['config'])
        per_unit[name] = per_unit.get(name, 0) + d['cases']
        hashes.update(d['hashes'])
        incon += d['inconclusive']
        for k, x in d['stat'].items():
            stat[k] = stat.get(k, 0) + x
        for k, x in d['scenarios'].items():
            scen[k] = scen.get(k, 0) + x
        for i, x in enumerate(d['cover']):
            cover[i] += x
        if len(samples) < 12:
            samples += d['samples'][:3]
    cov = {'evaluations': sum(d['evals'] for _, d in results), 'executions': cases, 'distinct_nontrivial': len(hashes), 'rule': spec['rule'], 'samples': samples[:12] or ['none'],
           'trace_events': events, 'cases_per_scenario': scen, 'cases_per_build': per_unit,
           'observed': {k: round(x, 3) for k, x in sorted(stat.items())}, 'inconclusive_reruns': incon, 'chunks_skipped_for_time': skipped,
           'spurious_wakeups_injected': cover[31], 'build_s': round(tb, 1)}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov, 'assumptions': spec['assumptions'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d distinct, %d trace events, %.1f s (build %.1f s), %d violations, %d known' %
          (prop, tier, cases, len(hashes), events, time.time() - t0, tb, len(fresh), sum(map(len, hits.values()))))
    if fresh:
        os.makedirs(OUT, exist_ok=True)
        seen = set()
        for v in fresh:
            key = (v['class'], v['scenario'])
            if key in seen and len(seen) < 50:
                continue
            seen.add(key)
            p = os.path.join(OUT, '%s-%s.json' % (prop, sha(json.dumps(v, sort_keys=True))[:10]))
            json.dump({'property': prop, 'violation': v, 'tier': tier}, open(p, 'w'), indent=1)
            print('  [%s/%s case %d seed %d, %s] %s' % (v['scenario'], v['class'], v['case'], v['seed'], v['unit'], v['text'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        prune()
        return 1
    if not cases or not hashes:
        print('nothing was observed: the check is inconclusive')
        return 2
    prune()
    return 0


def replay(path):
    d = json.load(open(path))
    v = d['violation']
    b = Builder()
    u = v['unit']
    spec = CHECKS[d['property']]
    j = b.request(u['harness'], u['variant'], u['config'])
    if u['harness'] == 'own':
        u = dict(u, env={'VF_PLUGIN': build_plugin(u['variant'], u['config'])})
    exe = b.link(u['harness'], u['variant'], u['config'], j)
    san_setup(exe, u['variant'])
    tmp = tempfile.mkdtemp(prefix='vf_', dir='/tmp')
    os.chmod(tmp, 0o755)
    rc = 0
    try:
        for _ in range(10):
            # the scenario is chosen from the case number, so the same selection flags are needed
            vs, _d = run_chunk(dict(u), exe, d['property'], v['seed'], v['case'], v.get('n', 1), d['tier'], tmp)
            for x in vs:
                print('[%s/%s] %s' % (x['scenario'], x['class'], x['text']))
                rc = 1
            if rc:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print('reproduced' if rc else 'not reproduced in 10 runs')
    return rc


def main(a):
    if a[0] == 'check':
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        return check(a[1], tier)
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'build':
        b = Builder()
        seen, js = set(), []
        for p, spec in CHECKS.items():
            for u in spec['units']:
                k = (u['harness'], u.get('variant', 'pert'), u.get('config', 'default'))
                if k not in seen:
                    seen.add(k)
                    js.append((k, b.request(*k)))
                    if k[0] == 'own':
                        build_plugin(k[1], k[2])
        for k, j in js:
            b.link(*k, j)
        print('built %d monitors' % len(js))
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except HarnessError as e:
        print('CHECK ERROR: ' + str(e))
        sys.exit(2)
