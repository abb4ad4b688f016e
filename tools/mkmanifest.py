"""Generates MANIFEST.json from zmon/propinfo.py (claimed properties) and properties.jsonl."""
import json, pathlib, sys
R = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(R))
from zmon import propinfo
TECH = {
    'C01': 'runtime monitoring: seeded workloads on the real code, stored arrays and loads compared with a numpy model',
    'C02': 'runtime monitoring: independent row-to-partition oracle over generated key sequences, mutation log at the OS boundary',
    'C03': 'runtime monitoring: online model checking of operation histories with byte-level tree snapshots',
    'C04': 'runtime monitoring: reference merge model over generated span positions, direct and through insertion',
    'C05': 'runtime monitoring: call log of the user function (exactly-once) plus byte-level frame conditions',
    'C06': 'runtime monitoring: windows observed by the user function checked against a neighbourhood model',
    'C07': 'runtime monitoring: selection oracle evaluated independently, agreement across operations',
    'C08': 'runtime monitoring with fault injection at every observed file-system mutation and callback',
    'C09': 'runtime monitoring with process kills at every observed file-system mutation (forked sessions)',
    'C10': 'runtime monitoring: online checker of the interleaved synchronizer/mutation event trace',
    'C11': 'runtime monitoring: multi-process stress with injected delays, offline serializability checker over event logs',
    'C12': 'runtime monitoring: mutation audit hook plus tree snapshots around every operation',
    'C13': 'runtime monitoring: online view model over operation histories',
    'C14': 'runtime monitoring: online synchronization model over reference/view histories',
    'C15': 'runtime monitoring: schema model over histories, fault injection in the additions',
    'C16': 'runtime monitoring: hostile metadata through create/reopen sessions, field-level comparison',
    'C17': 'runtime monitoring: generated keys through every codec, order oracle',
    'C18': 'runtime monitoring: index answers compared with a direct scan over histories',
    'C19': 'runtime monitoring: differential lazy / in-memory / numpy execution of generated programs',
    'C20': 'runtime monitoring: differential execution of generated expressions on compressed and plain arrays',
    'C21': 'runtime monitoring: tree snapshots and content comparison around copies',
    'C22': 'runtime monitoring with injected on-disk damage, independent zarr reader as oracle',
    'C23': 'runtime monitoring: child processes in many time zones, controlled partition ages',
    'C24': 'runtime monitoring: histories with non-partitioned variables, observation inside user functions',
    'C25': 'runtime monitoring: exhaustive small-domain and random periods against sets of instants',
    'C26': 'runtime monitoring: mutation audit hook with containment oracle, hostile directory names',
    'C27': 'runtime monitoring: fault injection at every file mutation and torn writes, old-or-new oracle on the stored tree, retry',
}
NOTE = {
    'exploration': 'Seeded generation, no enumeration: a violation that needs an input shape, history or schedule the generators do not produce is missed.',
    'fault_enumeration': 'Every mutation observed in the fault-free run of each generated scenario is a candidate fault point (quick samples them, thorough covers more); scenarios themselves are sampled.',
}
ids = [json.loads(l)['id'] for l in open(R / 'properties.jsonl')]
checks = [{'property': i, 'quick_cmd': f'./run.py {i} --tier quick', 'thorough_cmd': f'./run.py {i} --tier thorough',
           'technique': TECH[i], 'level': propinfo.INFO[i]['level'], 'level_note': NOTE[propinfo.INFO[i]['level']]} for i in ids if i in propinfo.INFO]
na = [{'property': i, 'reason': 'not claimed yet: its monitor is still being built'} for i in ids if i not in propinfo.INFO]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(R / 'MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
