"""Writes MANIFEST.json and known_findings.json from checks.py, properties.jsonl and the log of /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
SAN = 'ThreadSanitizer over the concurrent workloads (race detector)'
TECH = {
    'P01': 'runtime monitoring: recorded event log of concurrent runs, offline exactly-once and content checker',
    'P02': 'runtime monitoring: recorded event log, offline real-time order and agreement checker',
    'P03': 'runtime monitoring: records compared field by field with what each call site is known to supply',
    'P04': 'runtime monitoring: differential oracle (snprintf) at the sink, AddressSanitizer',
    'P05': 'runtime monitoring: dying child processes, shared-memory event log, offline completeness and order checker',
    'P06': 'runtime monitoring: dying child processes, wait status and statement trace checker',
    'P07': 'runtime monitoring: kernel signal dispositions compared with a reference model over operation sequences',
    'P08': 'runtime monitoring: dying child processes, hook call log checker',
    'P09': 'runtime monitoring: recorded event log, offline window and contiguity checker',
    'P10': 'runtime monitoring: overlap and thread identity monitors inside sinks, progress under blocked sinks',
    'P11': 'runtime monitoring: recorded call history, offline exactly-once, order and result checker',
    'P12': 'runtime monitoring: life cycle histories against a reference automaton',
    'P13': 'runtime monitoring: decisions compared with a reference level map, interval checker for concurrent changes',
    'P14': 'runtime monitoring: operand evaluation counters against the language-level expectation',
    'P15': 'runtime monitoring with fault injection: SIGKILL at random moments, file prefix checker',
    'P16': 'runtime monitoring with injected open failures and name clashes: conservation checker over all files',
    'P17': 'runtime monitoring: directory contents compared with an independent name reference',
    'P18': 'runtime monitoring: differential oracle (independent calendar and zone rules)',
    'P19': 'runtime monitoring: random operation sequences against a field model, AddressSanitizer',
    'P20': 'AddressSanitizer, UBSan, memcheck and resource accounting over all workloads',
    'P21': SAN,
    'P22': 'runtime monitoring: recorded queue and task histories, offline linearizability conditions',
    'P23': 'runtime monitoring: operands overwritten, freed or unloaded while messages are in flight, AddressSanitizer',
    'P25': 'runtime monitoring: dying child processes, fatal text checker',
    'P26': 'runtime monitoring: handler call log, state checker after handled events',
    'P27': 'runtime monitoring: dying child processes with simultaneous events, event log checker',
    'P28': 'runtime monitoring: destruction log, thread count and bounded-time monitors',
}
NOTE = 'Monitors judged every execution explored (seeded workloads, schedules perturbed at function boundaries, spurious wake-ups, injected faults); schedules and inputs are sampled, not enumerated. Trusts the compiler, glibc and the kernel. '
checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    checks.append({'property': pid, 'quick_cmd': 'python3 run.py check %s --tier quick' % pid, 'thorough_cmd': 'python3 run.py check %s --tier thorough' % pid,
                   'technique': TECH[pid], 'level': c['level'], 'level_note': NOTE + 'Assumes: ' + '; '.join(c['assumptions']) + '.'})
claimed = set(CHECKS)
na = [{'property': json.loads(l)['id'], 'reason': 'no monitor yet'} for l in open(os.path.join(V, 'properties.jsonl')) if json.loads(l)['id'] not in claimed]
m = {'version': 1, 'setup_cmd': 'python3 run.py build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the monitors observe the client boundary, sinks, files, signals and process status; perturbation is inserted by -finstrument-functions.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
PROP = {
    'mark a printf-style': ('P04', 'a printf-style message of exactly the maximum size lost its last character without the truncation marker'),
    'LogMessage assignment': ('P19', 'assigning or swapping messages left the file path and the details formatter behind'),
    'querying an unreg': ('P13', 'querying the state of an unregistered level registered it'),
    'enabling and disabling': ('P21', 'enabling or disabling a level while other threads log was a data race on the level text and flag'),
    'logging while a fatal': ('P21', 'logging while a fatal event shut the logger down raced on the logger pointer and dereferenced null'),
    'hook is taken': ('P08', 'two simultaneous fatal events both called, and raced on, the pre-fatal hook'),
    'before initializeLogging is': ('P06', 'a fatal event before the first initialization called an empty std::function and threw bad_function_call'),
    'installing the crash': ('P07', 'installing twice saved the own handler as the application\'s, so that it was never given back'),
    'formatting times before': ('P18', 'formatting a time before the epoch with a fraction threw length_error or showed the wrong second'),
    'an escaped percent': ('P18', 'the escaped percent sign in %%f was taken for a fraction specifier'),
    'opening a log file whose': ('P16', 'a file change within the second of the previous one truncated the file with the entries'),
    'the note about': ('P16', 'the note about a failed file change was glued to the next entry'),
    'on a thread of the logger': ('P06', 'a fatal event raised on the thread of the logger or a sink deadlocked'),
    'a later fatal event': ('P27', 'a second fatal event terminated the process while the first one was being flushed: messages were lost'),
    'embedded null': ('P03', 'the text of a message was cut off at an embedded null character'),
    'the base name': ('P03', 'a parenthesis in the path of a source file cut off its shown name'),
    'longer than 1023': ('P18', 'a time of more than 1023 characters was replaced by its format string'),
    'keeps alive': ('P05', 'a fatal event did not wait for sinks that the application keeps alive: their messages were lost'),
    'a crash in the pre-fatal': ('P08', 'a crash in the pre-fatal hook of a fatal signal blocked forever'),
    'any true condition': ('P14', 'a contract check on a true condition of a value other than 1, as flags & 4, was fatal'),
    'size of zero': ('P04', 'with a maximum message size of zero printf-style messages were logged empty, without the truncation marker'),
    'interval of zero': ('P15', 'a file sink with a write interval of zero divided by zero at its first entry'),
    'root is not mistaken': ('P17', 'a log file for the root directory was created in the current directory'),
    'logged while the logger is initialized': ('P12', 'a message logged by one thread while another initialized the logger crashed the process or was reported but never delivered'),
    'passes the raise': ('P06', 'as the init process, or with an own signal action that returns, the code after the fatal event ran while the exit handlers did'),
    'raised again in its handler': ('P06', 'a fatal signal without an active logger ended the process by exit(signal number) instead of the signal'),
}
fixed = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        p = [v for k, v in PROP.items() if k in s]
        assert len(p) == 1, (s, p)
        fixed.append('fixed: property=%s %s %s' % (p[0][0], h, p[0][1]))
json.dump({'findings': [], 'fixed': fixed}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable,', len(fixed), 'fixed')
