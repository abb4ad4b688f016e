"""Index queries against a direct scan: the ranges an index function emits are recomputed by the oracle from the model's rows."""
import numpy as np
import pyarrow as pa, pyarrow.compute as pc
import zcollection
from zcollection import indexing, view
from .. import env, gen
from ..gen import Var, chance, pick

CASES = {'quick': 200, 'thorough': 4000}

COLS = {'a': 'int64', 'b': 'uint16', 'tag': 'S4', 'w': 'float64', 'c': 'int8'}
VALUES = {'a': [0, 1, 2, -5], 'b': [0, 1, 65535], 'tag': [b'aaaa', b'bbbb', b'zz\xffz'], 'w': [0.5, -1.0, 2.0], 'c': [-128, 0, 127]}


def setup(ctx, shard):
    return env.make(shard)


def ranges(values, columns, style, salt):
    """The ranges of a partition and their columns: a deterministic function of its axis."""
    rng = np.random.default_rng([gen.ident(values), salt])
    n = len(values)
    out = []
    if style == 'sparse' and rng.random() < .4:
        return out
    if style == 'runs':
        cuts = sorted({0, n, *rng.integers(0, n + 1, size=3).tolist()})
        spans = list(zip(cuts[:-1], cuts[1:]))
    else:
        spans = []
        for _ in range(int(rng.integers(1, 7))):
            s = int(rng.integers(0, n))
            spans.append((s, int(rng.integers(s + 1, n + 1))))
            if rng.random() < .4:  # nested in the previous one
                s2 = int(rng.integers(s, spans[-1][1]))
                spans.append((s2, int(rng.integers(s2 + 1, spans[-1][1] + 1))))
            if rng.random() < .2:
                spans.append(spans[-1])
    for s, t in spans:
        out.append((s, t) + tuple(VALUES[c][int(rng.integers(len(VALUES[c])))] for c in columns))
    if style != 'runs':
        out = [out[i] for i in rng.permutation(len(out))]
    return out


class Boom(Exception):
    pass


def index_func(zds, dtype, axis, columns, style, salt, fail=None):
    if fail is not None and gen.ident(gen.raw(zds.variables[axis])) == fail:
        raise Boom('index function')
    r = ranges(gen.raw(zds.variables[axis]), columns, style, salt)
    return np.array(r, dtype=np.dtype(dtype)) if r else np.empty(0, np.dtype(dtype))


class TheIndex(indexing.Indexer):
    columns = ()

    def dtype(self, **kwargs):
        return super().dtype() + [(c, COLS[c]) for c in self.columns]

    @classmethod
    def create(cls, path, zds, filesystem=None, meta=None, **kwargs):
        return super()._create(path, zds, meta=meta, filesystem=filesystem)

    def update(self, zds, partition_size=None, npartitions=None, *, style='any', salt=0, **kwargs):
        super()._update(zds, index_func, partition_size, npartitions, dtype=self.dtype(), axis=zds.axis, columns=self.columns, style=style, salt=salt, **kwargs)


def matches(spec, columns, key, entry, query, op):
    d = dict(zip(columns, entry[2:]))
    d.update(zip(spec.key_names, key))
    hits = [d[c] in ([v] if np.isscalar(v) or isinstance(v, bytes) else list(v)) for c, v in query.items()]
    if not hits:
        return True
    if op in (None, 'and'):
        return all(hits)
    if op == 'or':
        return any(hits)
    if op == 'xor':
        return sum(hits) % 2 == 1
    if op == 'and_not':
        return hits[0] and not any(hits[1:])
    return not all(hits)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .2), nvars=(1, 2))
    place = gen.Place(ctx, rng)
    zc, model = gen.populate(ctx, rng, spec, place, nparts=(1, 6), nrows=(1, 9))
    columns = tuple(c for c in COLS if chance(rng, .6)) or ('a', )
    cls = type('Ix', (TheIndex, ), {'columns': columns})
    iplace = gen.Place(ctx, rng)
    iplace.fs.makedirs(iplace.base, exist_ok=True)
    path = f'{iplace.base}/index.parquet' if chance(rng, .7) else f'{place.base}/index.parquet'
    fs = iplace.fs if path.startswith(iplace.base) else place.fs
    meta = pick(rng, [None, {'attribute': b'value'}, {'k': b'', 'x': b'\x00\xff'}])
    index = cls.create(path, zc, filesystem=fs, meta=meta)
    style = pick(rng, ['any', 'any', 'runs', 'sparse'])
    entries = {}
    salt = 0

    def update(keys=None):
        nonlocal salt
        salt += chance(rng, .5)
        kw = {}
        if keys is not None:
            chosen = frozenset(keys)
            kw['filters'] = lambda d: tuple(d[n] for n in spec.key_names) in chosen
        else:
            keys = model.keys()
        index.update(zc, style=style, salt=salt, partition_size=None if chance(rng, .6) else int(rng.integers(1, 4)), **kw)
        for k in keys:
            was = entries.get(k)
            entries[k] = ranges(model.parts[k][spec.axis], columns, style, salt)
            if was and not entries[k]:
                ctx.count('emptied_partitions')
        ctx.log('update', [spec.path(k) for k in keys], 'salt', salt)
        ctx.count('updates')

    def failed():
        """An update whose function fails for one partition leaves the index as it was."""
        k = pick(rng, model.keys())
        was = fs.cat_file(path) if fs.exists(path) else None
        ctx.log('failing update', spec.path(k))
        ctx.expect_raises(Boom, lambda: index.update(zc, style=style, salt=salt + 1, fail=gen.ident(model.parts[k][spec.axis])), 'the index function failed')
        now = fs.cat_file(path) if fs.exists(path) else None
        ctx.check(was == now, 'a failed update changed the stored index')
        ctx.count('failed_updates')

    def refused():
        bad = pick(rng, ['operator', 'column'])
        ctx.log('refusal', bad)
        if bad == 'operator':
            ctx.expect_raises(ValueError, lambda: list(index.query({columns[0]: VALUES[columns[0]][0]}, logical_op=pick(rng, ['nand', 'not', 'AND', 'and_']))), 'query with an unknown operator')
        else:
            ctx.expect_raises((ValueError, KeyError), lambda: list(index.query({'nope': 1})), 'query of an unknown column')
        ctx.count('refused_queries')

    def check(what):
        if not fs.exists(path):
            return
        tab = index.table
        names = list(COLS_ALL(columns, spec))
        rows = sorted(tuple(r[c] for c in names) for r in tab.to_pylist())
        want = sorted(tuple(en) + k for k, es in entries.items() for en in es)
        ctx.check(rows == want, f'{what}: content of the index', got=rows[:8], expected=want[:8], sizes=(len(rows), len(want)))
        ctx.count('tables')
        for _ in range(3):
            pool = list(columns) + list(spec.key_names)
            n = int(rng.integers(0, min(4, len(pool)) + 1))
            query = {}
            for c in rng.permutation(pool)[:n]:
                vals = VALUES.get(c) or sorted({k[spec.key_names.index(c)] for k in entries}) or [0]
                v = pick(rng, vals)
                form = pick(rng, ['scalar', 'scalar', 'list', 'array', 'tuple', 'none'])
                if form == 'list':
                    v = [pick(rng, vals) for _ in range(int(rng.integers(1, 3)))]
                elif form == 'tuple':
                    v = tuple(vals)
                elif form == 'array' and not isinstance(v, bytes):
                    v = np.array(vals)[:2]
                elif form == 'none':
                    v = []
                query[str(c)] = v
            op = pick(rng, [None, 'and', 'or', 'xor', 'and_not', 'invert'])
            mask, keep = None, (lambda k, en: True)
            if chance(rng, .3):
                c0 = pick(rng, ['start', 'stop'])
                lim = int(rng.integers(0, 6))
                mask = pc.less(index.table[c0], lim)
                keep = lambda k, en, i=('start', 'stop').index(c0): en[i] < lim
                ctx.count('masked_queries')
            sel = {k: [en for en in es if keep(k, en) and matches(spec, columns, k, en, query, op)] for k, es in entries.items()}
            sel = {k: s for k, s in sel.items() if s}
            ctx.log('query', query, op, 'mask' if mask is not None else '')
            got = list(index.query(query, logical_op=op, mask=mask))
            per = {}
            for key, sl in got:
                ctx.check(tuple(n for n, _ in key) == spec.key_names, f'{what}: keys of the answer', got=key)
                per.setdefault(tuple(int(v) for _, v in key), []).append((int(sl.start), int(sl.stop)))
            ctx.check([k for k in per] == sorted(sel), f'{what}: partitions of the answer', got=list(per), expected=sorted(sel), query=query, op=op)
            for k, sls in per.items():
                union = sorted({i for en in sel[k] for i in range(en[0], en[1])})
                ctx.check([i for a, b in sls for i in range(a, b)] == union, f'{what}: rows selected in {spec.path(k)}', got=sls, expected=union, query=query, op=op)
                if any(x[0] <= y[0] and y[1] < x[1] for x in sel[k] for y in sel[k]):
                    ctx.count('nested_selections')
                ctx.count('selections')
            # load
            here = [k for k in model.keys() if k in sel]
            f2, p2, fk = gen.random_filter(rng, spec, model.keys())
            here = [k for k in here if p2(dict(zip(spec.key_names, k)))]
            lazy = chance(rng, .5)
            names2 = None
            if chance(rng, .4):
                names2 = [v.name for v in spec.part_vars if chance(rng, .5)] or [spec.axis]
            zds = zc.load(indexer=index.query(query, logical_op=op, mask=mask), filters=f2, delayed=lazy, selected_variables=names2)
            if not here:
                ctx.check(zds is None, f'{what}: loading with an empty answer returned data')
                ctx.count('empty_answers')
            else:
                exp = spec.concat([spec.take(model.parts[k], sorted({i for en in sel[k] for i in range(en[0], en[1])})) for k in here])
                exp.update(model.fixed or {})
                gen.check_dataset(ctx, f'{what}: load', spec, zds, exp, names=names2, delayed=lazy)
                ctx.count('loads')
            if vw is not None and not changed:
                got = vw.load(indexer=index.query(query, logical_op=op, mask=mask), filters=f2, delayed=lazy, selected_variables=names2 and names2 + ['extra'])
                if not here:
                    ctx.check(got is None, f'{what}: loading a view with an empty answer returned data')
                else:
                    exp['extra'] = np.full(exp[spec.axis].shape if spec.axis in exp else (), 4.5)
                    for n_, arr in exp.items():
                        if names2 is None or n_ in names2 or n_ == 'extra':
                            ctx.check(gen.same(gen.raw(got.variables[n_]), arr), f'{what}: the view loads other values of {n_}')
                    ctx.count('view_loads')
            # the other columns
            full = list(index.query(query, logical_op=op, mask=mask, only_partition_keys=False))
            groups = {}
            for key, sl in full:
                d = {n_: (v.item() if hasattr(v, 'item') else v) for n_, v in key}
                ctx.check(set(d) == set(columns) | set(spec.key_names), f'{what}: columns of the answer', got=sorted(d))
                groups.setdefault(tuple(d[n_] for n_ in list(columns) + list(spec.key_names)), set()).update(range(int(sl.start), int(sl.stop)))
            want = {}
            for k, es in sel.items():
                for en in es:
                    want.setdefault(tuple(en[2:]) + k, set()).update(range(en[0], en[1]))
            ctx.check(groups == want, f'{what}: rows of the answer with all the columns', query=query, op=op)
            ctx.sig(style, op, tuple(sorted(COLS.get(c, 'key') for c in query)), mask is not None, min(len(sel), 3), fk, lazy)

    vw, changed = None, False
    if chance(rng, .4):
        vplace = gen.Place(ctx, rng)
        vw = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filesystem=vplace.fs)
        vw.add_variable(Var('extra', 'f8', (spec.dim, ), 4.5).meta())
    if chance(rng, .2):
        failed()
        if not fs.exists(path):
            ctx.expect_raises(ValueError, lambda: index.table, 'content of an index which does not exist')
    update()
    check('first update')
    for step in range(int(rng.integers(1, 5))):
        op = pick(rng, ['reopen', 'insert', 'insert', 'drop', 'partial', 'all', 'fail', 'refuse'])
        if op == 'fail':
            failed()
        elif op == 'refuse':
            refused()
        elif op == 'reopen':
            if not fs.exists(path):
                continue
            before = index.table
            index = cls.open(path, filesystem=fs)
            ctx.check(index.meta == (meta or {}), 'the reopened index has other metadata', got=index.meta, expected=meta)
            ctx.check(index.table.schema.names == before.schema.names and index.table.equals(before.replace_schema_metadata(index.table.schema.metadata)),
                      'the reopened index has another content')
            ctx.count('reopened')
        elif op == 'insert':
            ks = gen.random_keys(rng, spec, int(rng.integers(1, 3)))
            if model.keys() and chance(rng, .6):
                ks = sorted({*ks, pick(rng, model.keys())})
            rows = gen.rows_for(rng, spec, ks, nrows=(1, 9))
            zc.insert(gen.make_dataset(spec, rows, chance(rng, .5)))
            model.insert(rows)
            touched = set(spec.split(rows))
            changed = True
            extra = [k for k in model.keys() if k not in touched and chance(rng, .3)]
            update(sorted(touched | set(extra)))
            ctx.count('changed')
        elif op == 'drop' and len(model.keys()) > 1:
            k = pick(rng, model.keys())
            zc.drop_partitions(filters=lambda d: tuple(d[n] for n in spec.key_names) == k)
            model.drop([k])
            changed = True
            ctx.count('dropped')
        elif op == 'partial':
            update([k for k in model.keys() if chance(rng, .5)])
        else:
            update()
        ctx.log(op)
        check(op)
    ctx.sample({'columns': columns, 'style': style, 'entries': {spec.path(k): v for k, v in list(entries.items())[:3]}})
    place.close()
    iplace.close()


def COLS_ALL(columns, spec):
    return ('start', 'stop') + tuple(columns) + tuple(spec.key_names)
