"""Containment: whatever a directory is called or spelled, operations give the usual results and mutate nothing outside the directory they address."""
import functools, os, warnings
import fsspec
import numpy as np
import zcollection
from zcollection import collection, view
from .. import audit, calls, env, gen, tree
from ..gen import chance, pick
from . import idx
from .c08 import merge_func, merged, upd_func

CASES = {'quick': 110, 'thorough': 2200}
ODD = ['run=1', 'a=1/b=2', 'x=', '=', 'with space', ' lead', 'v1.0', '.hidden', 'dot.', 'été', 'a+b(c)', "it's", '#1', '%41', 'a,b', 'a&b', '{x}', '^a$', '-rf', 'c|d',
       'time', '.immutable', '.zgroup', '.old', 'a.b=c.d', '0', 'run=1x', 'key=001']


def setup(ctx, shard):
    return env.make(shard)


def odd_name(rng, spec):
    r = rng.random()
    names = spec.key_names
    if r < .35:
        return pick(rng, ODD), 'odd'
    if r < .5:
        return f'{pick(rng, names)}={int(pick(rng, [0, 1, 2, 2020]))}', 'key'
    if r < .65:
        k = gen.random_keys(rng, spec, 1)[0]
        return spec.path(k), 'partition'
    if r < .75:
        return '/'.join(f'{n}={int(rng.integers(0, 30))}' for n in reversed(names)), 'reversed'
    if r < .85:
        return pick(rng, names) if chance(rng, .5) else spec.axis, 'keyname'
    return 'plain', 'plain'


class Spot:
    """A directory, the way the user spells it and the same one in canonical form."""

    def __init__(self, ctx, rng, spec, parent, fs, kind):
        name, self.name_kind = odd_name(rng, spec)
        self.fs, self.kind = fs, kind
        self.root = os.path.normpath(f'{parent}/{ctx.fresh("p").name}/{name}')
        full = self.root
        how = pick(rng, ['abs', 'slash', 'double', 'dot', 'url', 'relative', 'dotdot', 'slashes'])
        if kind == 'memory' and how in ('relative', 'dot', 'dotdot', 'double'):
            how = 'abs'
        head, tail = os.path.split(full)
        self.base = {'abs': lambda: full, 'slash': lambda: full + '/', 'slashes': lambda: full + '//' if kind == 'local' else full + '/', 'double': lambda: f'{head}//{tail}',
                     'dot': lambda: f'{head}/./{tail}', 'dotdot': lambda: f'{parent}/../{os.path.basename(parent)}/{os.path.relpath(full, parent)}',
                     'url': lambda: ('file://' if kind == 'local' else 'memory:/') + full, 'relative': lambda: os.path.relpath(full, parent)}[how]()
        self.how = how

    def snap(self, skip=()):
        return tree.snap(self.root, self.fs, skip)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .3), nvars=(1, 2), dtypes=['f8', 'i4', 'i8'], codecs=False)
    kind = pick(rng, ['local', 'local', 'memory'])
    top = ctx.fresh('top')
    top.mkdir()
    old = os.getcwd()
    if kind == 'local':
        fs, parent = fsspec.filesystem('file'), str(top)
    else:
        fs, parent = fsspec.filesystem('memory'), f'/zm{os.getpid()}{top.name}'
        fs.makedirs(parent, exist_ok=True)
    os.chdir(top)
    try:
        scenario(ctx, rng, spec, kind, fs, parent)
    finally:
        os.chdir(old)
        if kind == 'memory' and fs.exists(parent):
            fs.rm(parent, recursive=True)


def scenario(ctx, rng, spec, kind, fs, parent):
    spot = Spot(ctx, rng, spec, parent, fs, kind)
    ctx.log('spec', spec.describe(), kind, spot.base, spot.how)
    # neighbours: another collection with a similar name, and plain files in the parent directories
    near = os.path.dirname(spot.root)
    fs.makedirs(near, exist_ok=True)
    neighbour = gen.Place.__new__(gen.Place)
    neighbour.kind, neighbour.fs = kind, fs
    neighbour.base = pick(rng, [f'{spot.root}2', f'{spot.root}.bak', f'{near}/neighbour', f'{near}/{spec.path(gen.random_keys(rng, spec, 1)[0])}'])
    if neighbour.base == spot.root or neighbour.base.startswith(spot.root + '/') or spot.root.startswith(neighbour.base + '/'):
        neighbour.base = f'{near}/neighbour'
    zn, nmodel = gen.populate(ctx, rng, spec, neighbour, nparts=(1, 3), nrows=(1, 3))
    for name in ('.zcollection.bak', 'README', '.zmetadata'):
        with audit.unmonitored(), fs.open(f'{near}/{name}', 'wb') as f:
            f.write(b'kept')
    vspot = Spot(ctx, rng, spec, parent, fs, kind)
    cspot = Spot(ctx, rng, spec, parent, fs, kind)
    ispot = Spot(ctx, rng, spec, parent, fs, kind)
    # an index is a file, its directory exists
    ispot.base = ispot.root
    fs.makedirs(os.path.dirname(ispot.root), exist_ok=True)
    universe = gen.random_keys(rng, spec, int(rng.integers(3, 6)))
    model = gen.Model(spec)
    place = gen.Place.__new__(gen.Place)
    place.kind, place.fs, place.base = kind, fs, spot.base

    def contained(label, fn, *targets, create=False):
        """Run an operation that may modify the given spots only."""
        before = tree.snap(parent, fs)
        events = []
        with audit.armed([parent] if kind == 'local' else [], events=events), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = fn()
        after = tree.snap(parent, fs)
        roots = [os.path.relpath(t.root, parent) for t in targets]
        inside = lambda p: any(p == r or p.startswith(r + '/') for r in roots)
        above = lambda p: any(r.startswith(p + '/') for r in roots)
        a = {p: v for p, v in before.items() if not inside(p)}
        b = {p: v for p, v in after.items() if not inside(p)}
        if create:
            # the parent directories of a new collection
            a, b = ({p: v for p, v in t.items() if v is not None or not above(p)} for t in (a, b))
        ctx.check(a == b, f'{label} modified something else', **tree.diff(a, b))
        for _, _, op, path in events:
            rel = os.path.relpath(path, parent)
            if rel == '.' or inside(rel) or (op == 'mkdir' and above(rel)):
                continue
            ctx.check(False, f'{label}: {op} outside of the directory it addresses', path=rel, allowed=roots)
        ctx.count('mutations_seen', len(events))
        ctx.count('operations')
        ctx.count(label.split()[0])
        ctx.sig(label.split()[0], spot.name_kind, spot.how, kind, bool(events))
        return res

    def verify(what, zc):
        paths = [spec.path(k) for k in model.keys()]
        got = list(zc.partitions(relative=True))
        ctx.check(got == paths, f'{what}: listing', got=got, expected=paths)
        got = list(zc.partitions())
        ctx.check([os.path.normpath(p) for p in got] == [f'{spot.root}/{p}' for p in paths], f'{what}: absolute listing', got=got, expected=paths)
        flt, pred, fk = gen.random_filter(rng, spec, model.keys() or universe)
        sel = model.keys(pred)
        got = list(zc.partitions(filters=flt, relative=True))
        ctx.check(got == [spec.path(k) for k in sel], f'{what}: filtered listing', got=got, expected=[spec.path(k) for k in sel], filter=str(flt))
        exp = model.expect(pred)
        d = chance(rng, .5)
        zds = contained('load', lambda: zc.load(filters=flt, delayed=d))
        if exp is None:
            ctx.check(zds is None, f'{what}: an empty selection loads data')
        else:
            gen.check_dataset(ctx, what, spec, zds, exp, delayed=d, codecs=False)
            token = calls.new()
            res = contained('map', lambda: zc.map(functools.partial(upd_func, spec=spec, token=token, targets=()), filters=flt).compute())
            ctx.check([tuple(map(tuple, k)) for k, _ in res] == [tuple(zip(spec.key_names, k)) for k in sel], f'{what}: keys of a map', got=[k for k, _ in res], expected=sel)
        ctx.count('verified')

    def refused(label, fn):
        """Creating something where anything already exists is refused, and leaves it alone."""
        def attempt():
            try:
                fn()
            except ValueError:
                return True
        ctx.check(contained(label, attempt), f'{label}: created over something that exists')
        ctx.count('refused')

    taken = [near, neighbour.base, f'{near}/README']
    one = gen.make_dataset(spec, gen.rows_for(rng, spec, universe[:1], nrows=(1, 2)), False)
    refused('refused-create', lambda: zcollection.create_collection(spec.axis, one, spec.partitioning(), pick(rng, taken), filesystem=fs))
    refused('refused-view', lambda: zcollection.create_view(pick(rng, taken), view.ViewReference(neighbour.base, fs), filesystem=fs))
    zc = contained('create', lambda: gen.create(spec, place), spot, create=True)
    v, vvars, ix = None, [], None
    todo = ['insert', 'insert', 'merge', 'update', 'overlap', 'drop', 'addvar', 'view', 'view', 'copy', 'index', 'validate', 'reopen', 'fail']
    todo = ['insert'] + [todo[int(i)] for i in rng.permutation(len(todo))[:8]]
    cand = [x.name for x in spec.part_vars if x.name.startswith('var')]
    for op in todo:
        ctx.log(op)
        if op in ('insert', 'merge'):
            ks = [k for k in universe if chance(rng, .5)] or [pick(rng, universe)]
            rows = gen.rows_for(rng, spec, ks, nrows=(1, 4))
            ds = gen.make_dataset(spec, rows, chance(rng, .5), rng)
            kw = {'merge_callable': functools.partial(merge_func, token=calls.new())} if op == 'merge' else {}
            ret = contained(op, lambda: list(zc.insert(ds, **kw)), spot)
            ctx.check(sorted(map(os.path.normpath, ret)) == sorted(f'{spot.root}/{spec.path(k)}' for k in ks), f'{op}: returned partitions', got=ret)
            if op == 'merge':
                rows = model.complete(rows)
                if model.fixed is None and spec.fixed_vars:
                    model.fixed = {x.name: rows[x.name] for x in spec.fixed_vars}
                for k, r in spec.split(rows).items():
                    model.parts[k] = merged(spec, model.parts[k], r) if k in model.parts else r
            else:
                model.insert(rows)
        elif op in ('update', 'overlap'):
            salt = int(rng.integers(2**31))
            f = functools.partial(upd_func, spec=spec, token=calls.new(), targets=cand[:1], salt=salt)
            depth = 0 if op == 'update' else 1
            sel = model.keys()
            contained(op, lambda: zc.update(f, depth=depth), spot)
            new = {}
            for i, k in enumerate(sel):
                lo, hi = max(0, i - depth), i + depth + 1
                axis = np.concatenate([model.parts[q][spec.axis] for q in sel[lo:hi]])
                off = sum(model.parts[q][spec.axis].shape[0] for q in sel[lo:i])
                r = dict(model.parts[k])
                x = spec.var(cand[0])
                val = gen.result_array(x, axis.shape[0], spec.sizes, spec.dim, [gen.ident(axis), salt])
                r[cand[0]] = val[tuple(slice(off, off + spec.nrows(r)) if d == spec.dim else slice(None) for d in x.dims)]
                new[k] = r
            model.parts.update(new)
        elif op == 'drop':
            flt, pred, _ = gen.random_filter(rng, spec, model.keys() or universe)
            sel = model.keys(pred)
            ret = contained('drop', lambda: list(zc.drop_partitions(filters=flt)), spot)
            ctx.check(sorted(map(os.path.normpath, ret)) == sorted(f'{spot.root}/{spec.path(k)}' for k in sel), 'drop: returned partitions', got=ret)
            model.drop(sel)
        elif op == 'addvar':
            nv = gen.random_new_var(rng, 'new1', pick(rng, spec.part_vars).dims)
            contained('addvar', lambda: zc.add_variable(nv.meta()), spot)
            spec.vars.append(nv)
            for r in model.parts.values():
                r['new1'] = gen.full(spec, nv, spec.nrows(r))
            verify('after addvar', zc)
            contained('dropvar', lambda: zc.drop_variable('new1'), spot)
            spec.vars.remove(nv)
            for r in model.parts.values():
                del r['new1']
        elif op == 'validate':
            if model.parts:
                k = pick(rng, model.keys())
                with fs.open(f'{spot.root}/{spec.path(k)}/.zmetadata', 'wb') as h:
                    h.write(b'{')
                ret = contained('validate', lambda: zc.validate_partitions(fix=True), spot)
                ctx.check(list(map(os.path.normpath, ret)) == [f'{spot.root}/{spec.path(k)}'], 'validate: damaged partitions', got=ret)
                model.drop([k])
        elif op == 'reopen':
            zc = contained('reopen', lambda: gen.reopen(place, 'w'))
        elif op == 'fail':
            # an insertion that fails half-way cleans up at home only
            ks = universe[:2]
            rows = gen.rows_for(rng, spec, ks, nrows=(1, 3))
            ds = gen.make_dataset(spec, rows, False)
            if any(k in model.parts for k in ks):
                def bad():
                    try:
                        zc.insert(ds, merge_callable=functools.partial(merge_func, token=calls.new(), fail_at=1))
                    except Exception as exc:
                        return exc
                contained('fail', bad, spot)
                # the partitions of the dataset that did not exist may have been written
                now = {p: k for k in model.parts for p in [spec.path(k)]}
                for k in ks:
                    if k not in model.parts:
                        zc.drop_partitions(filters=lambda d, k=k: tuple(d[n] for n in spec.key_names) == k)
        elif op == 'copy':
            flt, pred, _ = gen.random_filter(rng, spec, model.keys() or universe)
            if not fs.exists(cspot.root):
                zcopy = contained('copy', lambda: zc.copy(cspot.base, filters=flt, filesystem=fs), cspot, create=True)
                exp = model.expect(pred)
                got = [os.path.normpath(p) for p in zcopy.partitions()]
                ctx.check(got == [f'{cspot.root}/{spec.path(k)}' for k in model.keys(pred)], 'copy: listing', got=got)
                if exp is not None:
                    gen.check_dataset(ctx, 'copy', spec, zcopy.load(delayed=False), exp, delayed=False, codecs=False)
                    salt = int(rng.integers(2**31))
                    contained('copy-drop', lambda: list(zcopy.drop_partitions()), cspot)
        elif op == 'view':
            if v is None:
                v = contained('view', lambda: zcollection.create_view(vspot.base, view.ViewReference(spot.base, fs), filesystem=fs), vspot, create=True)
            else:
                v = contained('view-open', lambda: zcollection.open_view(vspot.base, filesystem=fs))
                contained('view-sync', lambda: v.sync(), vspot)
            if not vvars:
                nv = gen.random_new_var(rng, 'vv1', pick(rng, spec.part_vars).dims, dtypes=['f8', 'i4'])
                contained('view-add', lambda: v.add_variable(nv.meta()), vspot)
                vvars.append(nv)
            flt, pred, _ = gen.random_filter(rng, spec, model.keys() or universe)
            known = {os.path.relpath(p, vspot.root) for p in map(os.path.normpath, v.partitions())}
            # what the view covers is judged elsewhere (C13, C14); here: it only knows partitions of its reference
            ctx.check(known <= {spec.path(k) for k in model.parts}, 'view: partitions', got=sorted(known))
            nv = vvars[0]
            salt = int(rng.integers(2**31))

            def vf(zds, nv=nv, salt=salt):
                ax = gen.raw(zds.variables[spec.axis])
                return {nv.name: gen.result_array(nv, ax.shape[0], spec.sizes, spec.dim, [gen.ident(ax), salt])}

            if known and known == {spec.path(k) for k in model.parts}:
                contained('view-update', lambda: v.update(vf, filters=flt, depth=0), vspot)
                zds = contained('view-load', lambda: v.load(filters=flt, delayed=False))
                sel = model.keys(pred)
                ctx.check((zds is None) == (not sel), 'view: selection', got=zds is None, expected=len(sel))
                if sel:
                    exp = np.concatenate([gen.result_array(nv, spec.nrows(model.parts[k]), spec.sizes, spec.dim, [gen.ident(model.parts[k][spec.axis]), salt]) for k in sel],
                                         axis=nv.dims.index(spec.dim))
                    ctx.check(gen.same(gen.raw(zds.variables['vv1']), exp), 'view: values after an update')
                    rows = model.expect(pred)
                    for n in spec.names:
                        ctx.check(gen.same(gen.raw(zds.variables[n]), rows[n]), f'view: values of {n}')
        elif op == 'index' and model.parts:
            if ix is None:
                ix = contained('index', lambda: idx.Idx.create(ispot.base, zc, filesystem=fs), ispot, create=True)
            contained('index-update', lambda: ix.update(zc), ispot)
            got = ix.query({'parity': 0})
            exp = {}
            for k in model.keys():
                rr = [slice(a, b) for a, b, p in idx.runs(idx.parity(model.parts[k][spec.axis])) if p == 0]
                if rr:
                    exp[tuple(zip(spec.key_names, k))] = rr
            answer = {}
            for k, x in got:
                answer.setdefault(tuple(map(tuple, k)), []).append((x.start, x.stop))
            ctx.check(answer == {k: [(x.start, x.stop) for x in v_] for k, v_ in exp.items()}, 'index: answer', got=str(answer)[:300], expected=str(exp)[:300])
            ix = contained('index-open', lambda: idx.Idx.open(ispot.base, filesystem=fs))
            zds = contained('index-load', lambda: zc.load(indexer=ix.query({'parity': 0}), delayed=False))
            ctx.check((zds is None) == (not exp), 'index: load')
        verify(f'after {op}', zc)
    # the neighbour still works
    gen.check_dataset(ctx, 'neighbour', spec, zn.load(delayed=False), nmodel.expect(), codecs=False, delayed=False)
    ctx.sample({'spelling': spot.base[-60:], 'how': spot.how, 'ops': todo})
