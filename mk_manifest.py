#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECHNIQUE = 'deterministic simulation with fault injection (seeded search)'
NOTES = {
    'C01': 'Seeded search over schemas, targets, initial directories and failing/short/interrupted operations of one '
           'simulated run of the real command line; every byte compared with an undisturbed run. Samples, no proof. '
           'Trusts the simulated system calls (sim/vfs.py, sim/kernel.py) and that Python-level seams see all I/O.',
    'C02': 'Seeded search over damaged, missing and rejected schemas, failing operations, asynchronous exceptions and '
           'kills at any line before the code is complete; directory trees compared before and after. Samples.',
    'C03': 'Seeded search over histories of runs with faults, kills and power loss (torn and lost unsynced data) and '
           'damage of the output directory, each ended by one undisturbed run. Samples.',
    'C04': 'Every change of the simulated file system made by a run is observed at the system-call seam and compared '
           'with the set of documented files; faults and kills injected. Samples schemas, layouts and faults.',
    'C05': 'Seeded search over process environments, hash and address layouts, clocks, directories and in-process '
           'histories; output compared byte for byte with a reference run. Samples.',
    'C06': 'Seeded preemptive scheduling (at line and call granularity) of threads that generate in one interpreter; '
           'outcomes compared with the same calls alone. Switches inside one bytecode line or C call are not explored.',
    'C07': 'Seeded interleaving of the file operations of several simulated processes with faults and kills; files '
           'compared with undisturbed runs. Samples.',
    'C08': 'Seeded placement of atomic replacements of the schema file between the operations of one run; the outcome '
           'must be that of exactly one version. Samples.',
    'C09': 'Seeded preemptive scheduling (every line or byte code of the generated modules) of threads that parse and '
           'serialize; results, errors and inputs compared with the same calls alone in a fresh process. Library '
           'calls are atomic here. Samples.',
    'C10': 'Asynchronous exceptions at seeded lines of the generated code and exhausted stacks; retries and later '
           'calls compared with fresh processes, inputs and module state before and after. Samples.',
    'C11': 'Documents stored and damaged in the simulated machine (values, bytes, torn and stale writes, power loss), '
           'read by the generated code and judged by an independent model of the documented rules; written back and '
           'read again. Five known findings are listed and suppressed only in exactly their form. Samples.',
    'C12': 'Generated Go code is rewritten so that a seeded scheduler decides every switch of goroutines (between '
           'statements, between evaluation and assignment) and every order of map iteration; outcomes compared with '
           'single calls in fresh processes. Library calls are atomic. Samples.',
    'C13': 'Documents stored and damaged in the simulated machine, read by the compiled Go code under seeded orders '
           'of map iteration and judged by an independent model of the documented rules; written back and read '
           'again. Three known findings are suppressed only in exactly their form. Samples.',
    'C14': 'Documents stored and damaged in the simulated machine, read by the compiled C++ code (address sanitizer) with '
           'several contents of fresh memory and judged by an independent model of the documented rules; written back '
           'and read again. jsoncpp is a stand-in. Six known findings are suppressed only in exactly their form. Samples.',
    'C15': 'A seeded scheduler decides every switch between threads at every basic block of the compiled code; outcomes '
           'compared with single calls in fresh processes. Calls into compiled libraries are atomic. Samples.',
    'C17': 'Documents relayed over chains of simulated nodes running the Python, Go and C++ code of earlier and present '
           'versions of random schemas, through a simulated disk with faults, stale and repeated deliveries; content '
           'compared with an independent model at every node. Samples; what the languages represent differently and '
           'the known findings of C11, C13, C14 are kept out of the documents.',
    'C16': 'Seeded failures of allocations (operator new) inside calls of the compiled code, in histories of calls; '
           'outcomes, live blocks and later calls compared with fresh processes. One known finding. Samples.',
}
PURE = 'Pure function of its input: no schedule, clock, I/O, fault or interleaving takes part in it, so a simulator ' \
       'would only be input generation in disguise. '
NA = {
    'C60': PURE + 'The parts that meet faults (damaged and replaced schemas) are claimed in C02 and C08.',
    'C61': PURE,
    'C62': PURE,
    'C63': PURE + 'Compilation of generated code is exercised on the way to the checks of generated code (C14 reports C++ '
                  'that does not compile).',
    'C64': PURE,
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as fid:
        props = [json.loads(line) for line in fid if line.strip()]
    checks, missing = [], []
    for prop in props:
        pid = prop['id']
        if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            checks.append({'property': pid, 'quick_cmd': 'python3 run.py ' + pid,
                           'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + pid,
                           'evidence_file': 'evidence/{}.json'.format(pid), 'technique': TECHNIQUE,
                           'level': 'exploration', 'level_note': NOTES[pid]})
        else:
            missing.append({'property': pid, 'reason': NA.get(pid, 'No check built yet.')})
    doc = {'version': 1,
           'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 8))"',
           'hooks': {'guard': 'none', 'enable': 'No hooks were added to /repo: every seam is installed from outside, '
                     'in the simulated process.', 'source_commits': []},
           'checks': checks, 'not_applicable': missing,
           'notes': 'Replay a violation with: python3 run.py replay <file>. Determinism: python3 run.py selftest '
                    '<id>. Findings: known_findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fid:
        json.dump(doc, fid, indent=1)
        fid.write('\n')


if __name__ == '__main__':
    main()
