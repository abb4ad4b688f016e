"""Schema histories (add / drop variables) with insertions, updates, reopens, refusals and injected faults, against a model."""
import copy, functools, json, warnings
import dask.array as da
import numpy as np
from zcollection import dataset, meta
from zcollection.meta import Attribute
from .. import audit, calls, env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 140, 'thorough': 3000}
LIMITS = {'case': 300}


def setup(ctx, shard):
    return env.make(shard)


def upd(zds, spec=None, var=None, salt=0):
    ax = gen.raw(zds.variables[spec.axis])
    return {var.name: gen.result_array(var, ax.shape[0], spec.sizes, spec.dim, [gen.ident(ax), salt])}


def as_dict(md):
    return {n: json.dumps(v.get_config(), sort_keys=True, default=str) for n, v in md.variables.items()}


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .3), nvars=(1, 3), dtypes=['f8', 'i4', 'i8', 'f4', 'u1', 'i2'])
    place = gen.Place(ctx, rng)
    zc = gen.create(spec, place)
    model = gen.Model(spec)
    universe = gen.random_keys(rng, spec, 6)
    n = 0
    hist = []
    ctx.log('spec', spec.describe(), place.kind)

    def insert(ks):
        missing = [v.name for v in spec.part_vars if v.name.startswith('add') and chance(rng, .3)]
        # a missing variable is created with the sizes found in the inserted dataset: another variable must have its dimensions
        left = {d for v in spec.vars if v.name not in missing for d in v.dims}
        missing = [m for m in missing if set(spec.var(m).dims) <= left]
        rows = gen.rows_for(rng, spec, ks, nrows=(1, 5), missing=missing)
        for v in spec.fixed_vars:
            if model.fixed is not None:
                rows[v.name] = model.fixed[v.name]
        zc.insert(gen.make_dataset(spec, rows, chance(rng, .5), rng))
        model.insert(rows)
        if missing:
            ctx.count('inserted_without_the_variable')

    def check(what, z=None):
        z = zc if z is None else z
        exp_md = {v.name: json.dumps(v.meta().get_config(), sort_keys=True, default=str) for v in spec.vars}
        ctx.check(as_dict(z.metadata) == exp_md, f'{what}: metadata of the session', got=sorted(z.metadata.variables), expected=sorted(exp_md))
        ctx.check({x.name for x in z.variables()} == set(spec.names), f'{what}: variables()')
        if not model.parts:
            ctx.check(z.load(delayed=False) is None, f'{what}: data in an empty collection')
            return
        d = chance(rng, .5)
        gen.check_dataset(ctx, f'{what}: load', spec, z.load(delayed=d), model.expect(), delayed=d)
        gen.check_stored(ctx, f'{what}: stored', spec, place.fs, place.base, model)

    if chance(rng, .75):
        insert(universe[:3])
    else:
        ctx.count('started_empty')
    check('start')
    for step in range(int(rng.integers(4, 9))):
        op = pick(rng, ['add', 'add', 'drop', 'insert', 'update', 'reopen', 'refused', 'fault'])
        added = [v for v in spec.part_vars if v.name not in (spec.axis, ) + tuple(spec.keys)]
        if op == 'add':
            n += 1
            tpl = pick(rng, spec.part_vars)
            nv = gen.random_new_var(rng, f'add{n}', tpl.dims)
            if chance(rng, .2):
                # the name of a variable dropped before
                old = [h[1] for h in hist if h[0] == 'drop' and h[1] not in spec.names]
                if old:
                    nv.name = pick(rng, old)
                    ctx.count('name_reused')
            if chance(rng, .3):
                shape = tuple(1 if d == spec.dim else spec.sizes[d] for d in nv.dims)
                blank = np.zeros(shape, nv.dtype)
                cls = dataset.DelayedArray if chance(rng, .5) else dataset.Array
                var = cls(nv.name, da.from_array(blank) if cls is dataset.DelayedArray else blank, nv.dims, attrs=nv.attributes(),
                          compressor=nv.compressor, fill_value=nv.fill, filters=nv.filters)
            else:
                var = nv.meta()
            zc.add_variable(var)
            spec.vars.append(nv)
            for k, rows in model.parts.items():
                rows[nv.name] = gen.full(spec, nv, spec.nrows(rows))
            ctx.count('added')
            if not model.parts:
                ctx.count('changed_empty')
            hist.append(('add', nv.name))
        elif op == 'drop':
            if not added:
                continue
            x = pick(rng, added)
            before = place.snap()
            zc.drop_variable(x.name)
            spec.vars.remove(x)
            for rows in model.parts.values():
                rows.pop(x.name)
            after = place.snap()
            left = [p for p in after if f'/{x.name}/' in f'/{p}/']
            ctx.check(not left, 'a dropped variable is still stored', files=left[:4])
            other = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and f'/{x.name}/' not in f'/{p}/' and p != '.zcollection'
                     and not p.endswith('.zmetadata')]
            ctx.check(not other, 'dropping a variable changed other files', files=other[:4])
            ctx.count('dropped')
            hist.append(('drop', x.name))
            if not [v for v in spec.part_vars if v.name.startswith(('var', 'add'))]:
                ctx.count('all_dropped')
        elif op == 'insert':
            insert([k for k in universe if chance(rng, .4)] or universe[:1])
            hist.append(('insert', ))
        elif op == 'update':
            if not added or not model.parts:
                continue
            x = pick(rng, added)
            salt = int(rng.integers(2**31))
            zc.update(functools.partial(upd, spec=spec, var=x, salt=salt), variables=[x.name])
            for rows in model.parts.values():
                rows[x.name] = gen.result_array(x, spec.nrows(rows), spec.sizes, spec.dim, [gen.ident(rows[spec.axis]), salt])
            ctx.count('updated_' + ('added' if x.name.startswith('add') else 'original'))
            hist.append(('update', x.name))
        elif op == 'reopen':
            zc = gen.reopen(place, 'w')
            ctx.count('reopened')
            hist.append(('reopen', ))
        elif op == 'refused':
            before = place.snap()
            md = as_dict(zc.metadata)
            ex = pick(rng, spec.vars)
            bad = {
                'an existing name': lambda: zc.add_variable(gen.Var(ex.name, 'f8', pick(rng, spec.part_vars).dims, 1.0).meta()),
                'an unknown dimension': lambda: zc.add_variable(gen.Var('bad', 'f8', (spec.dim, 'zzz'), 1.0).meta()),
                'no partitioning dimension': lambda: zc.add_variable(gen.Var('bad', 'f8', (pick(rng, list(spec.sizes) or ['x']), ), 1.0).meta()),
                'an unserializable attribute': lambda: zc.add_variable(
                    meta.Variable('bad', np.dtype('f8'), dimensions=pick(rng, spec.part_vars).dims, attrs=(Attribute('a', object()), ), fill_value=1.0)),
                'dropping an unknown variable': lambda: zc.drop_variable('nothing'),
                'dropping a key': lambda: zc.drop_variable(pick(rng, spec.keys)),
                'dropping the axis': lambda: zc.drop_variable(spec.axis),
            }
            if spec.fixed_vars:
                bad['dropping a non-partitioned variable'] = lambda: zc.drop_variable(pick(rng, spec.fixed_vars).name)
            names = list(bad)
            for name in [names[int(i)] for i in rng.permutation(len(names))[:4]]:
                exc = ctx.expect_raises((ValueError, TypeError), bad[name], name)
                now = place.snap()
                ctx.check(now == before, f'refused change ({name}) modified stored files', diff=tree.diff(before, now))
                ctx.check(as_dict(zc.metadata) == md, f'refused change ({name}) modified the metadata of the session')
                ctx.count('refused')
                ctx.sig('refused', name, place.kind, bool(model.parts))
            hist.append(('refused', ))
        elif op == 'fault':
            if place.kind != 'local' or not model.parts:
                continue
            n += 1
            nv = gen.random_new_var(rng, f'add{n}', pick(rng, spec.part_vars).dims)
            md = as_dict(zc.metadata)
            with open(f'{place.base}/.zcollection') as f:
                cfg = f.read()
            # the injected error hits the creation of the arrays (not the configuration file)
            at = int(rng.integers(2, 6 + 4 * len(model.parts)))
            with audit.armed([place.base], fault_at=at, fault_pred=lambda o, p: not p.endswith('.zcollection')) as s:
                try:
                    zc.add_variable(nv.meta())
                    raised = None
                except Exception as exc:
                    raised = exc
            if raised is None:
                if s.fired:
                    ctx.count('absorbed')
                spec.vars.append(nv)
                for k, rows in model.parts.items():
                    rows[nv.name] = gen.full(spec, nv, spec.nrows(rows))
            else:
                ctx.check(s.fired > 0, f'adding a variable failed: {type(raised).__name__} {raised}')
                ctx.check(as_dict(zc.metadata) == md, 'a failed addition modified the metadata of the session')
                with open(f'{place.base}/.zcollection') as f:
                    ctx.check(json.loads(f.read()) == json.loads(cfg), 'a failed addition modified the stored metadata')
                left = [p for p in place.snap() if f'/{nv.name}/' in f'/{p}/']
                ctx.check(not left, 'a failed addition left files', files=left[:4])
                ctx.count('failed_additions')
            hist.append(('fault', raised is not None))
        ctx.log(*hist[-1])
        check(hist[-1][0])
        if chance(rng, .3):
            check('reopened', gen.reopen(place, 'r'))
        ctx.sig(hist[-1][0], hist[-2][0] if len(hist) > 1 else '', place.kind, bool(model.parts), spec.kind)
    ctx.sample({'history': hist, 'variables': spec.names})
    place.close()
