"""Lines of the code under test that no check reaches (maintenance tool): tools/uncovered.py LINES.json... (files written with ZMON_LINES)."""
import ast, collections, json, pathlib, sys
ROOT = pathlib.Path('/repo/zcollection')
seen = collections.defaultdict(set)
for f in sys.argv[1:]:
    for k, v in json.load(open(f)).items():
        seen[k].update(v)
for p in sorted(ROOT.rglob('*.py')):
    if 'tests' in p.parts:
        continue
    name = str(p.relative_to(ROOT))
    src = p.read_text()
    lines = src.splitlines()
    code = compile(src, str(p), 'exec')
    want, todo = set(), [code]
    while todo:
        c = todo.pop()
        want |= {ln for _, _, ln in c.co_lines() if ln}
        todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
    for n in ast.walk(ast.parse(src)):   # docstrings
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            want -= set(range(n.lineno, n.end_lineno + 1))
    miss = sorted(want - seen[name])
    print(f'== {name}: {len(want) - len(miss)}/{len(want)}')
    for m in miss:
        print(f'   {m}: {lines[m - 1].strip()[:140]}')
