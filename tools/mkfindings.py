"""Regenerates the 'fixed' lines of known_findings.jsonl from the fix: commits of /repo (maintenance tool, never run by a check)."""
import json, pathlib, subprocess
R = pathlib.Path(__file__).resolve().parents[1]
PROP = {  # distinctive part of the commit subject -> properties it repaired
    'store and split the non-partitioned variables': 'C24', 'refuse in-memory datasets whose': 'C02', 'check the partitioning keys before': 'C02',
    'keep the existing samples located one time unit': 'C04', 'wait for the running tasks': 'C08', 'parse the partition keys from the end': 'C26',
    'write partitions in a hidden directory': 'C09', 'report a lock as acquired': 'C11', 'a synchronizer sent to another process': 'C11',
    'hold the synchronizer from the listing': 'C11', 'refuse to drop the axis': 'C15', 'do not truncate the configuration when it': 'C15',
    'store the immutable variables again': 'C24', 'copy the immutable variables': 'C21', 'report all the partitions that cannot be read': 'C22',
    'load the immutable variables in the computations': 'C24', 'write the variables again when an insertion': 'C08', 'complete the deletion of a variable': 'C15',
    'hold the synchronizer of a view': 'C10', 'do not truncate the configuration of a view': 'C13', 'apply the filters and the indexer': 'C13',
    'computations with overlap on a view made of': 'C06', 'load the non-partitioned variables of the reference': 'C13', 'read the stored data again when a view': 'C13',
    'synchronize the partitions of the view only': 'C14', 'raise when the arrays to concatenate': 'C19', 'update with any callable': 'C05',
    'load a view when the selected reference': 'C13', 'dropping a partition also drops what': 'C09', 'drop the variable of a view from the partitions not yet': 'C13',
    'restore the type of the keys of a sequence': 'C16', 'record the fill value of a variable': 'C16',
}
extra = R / 'tools' / 'findings_extra.json'
if extra.exists():
    PROP.update(json.load(open(extra)))
lines = []
old = R / 'known_findings.jsonl'
if old.exists():
    lines += [l for l in old.read_text().splitlines() if l.strip() and json.loads(l)['status'] == 'known']
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        p = [v for k, v in PROP.items() if k in s]
        assert len(p) == 1, (s, p)
        lines.append(json.dumps({'status': 'fixed', 'property': p[0], 'commit': h, 'what': f'fixed: property={p[0]} {h} {s[5:]}'}))
old.write_text('\n'.join(lines) + '\n')
print(len(lines))
