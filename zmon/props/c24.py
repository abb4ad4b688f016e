"""Variables without the partitioning dimension: written once, kept through every history, present in every access, absent from the partitions."""
import copy, functools, warnings
import numpy as np
import zcollection
from zcollection import view
from .. import calls, env, gen, tree
from ..gen import chance, pick
from .c08 import merge_func, merged

CASES = {'quick': 130, 'thorough': 2400}


def setup(ctx, shard):
    return env.make(shard)


def see(zds, token=None, spec=None, targets=(), salt=0, partition_info=None):
    """Record what a user function receives (as map, map_overlap or update function)."""
    seen = {n: gen.raw(v) for n, v in zds.variables.items()}
    calls.add(token, seen)
    if not targets:
        return tuple(sorted(seen))
    n = seen[spec.axis].shape[0]
    return {t: gen.result_array(spec.var(t), n, spec.sizes, spec.dim, [gen.ident(seen[spec.axis]), salt]) for t in targets}


def plain(zds, token=None, spec=None, targets=(), salt=0):
    return see(zds, token, spec, targets, salt)


def change_fixed(zds, spec=None, name=None):
    v = spec.var(name)
    return {name: np.zeros(tuple(spec.sizes[d] for d in v.dims), v.dtype)}


def fixed_files(place):
    return {p: v for p, v in place.snap().items() if p.startswith('.immutable')}


def check_seen(ctx, what, spec, model, seen, names):
    ctx.check(set(seen) == set(names), f'{what}: variables given to the function', got=sorted(seen), expected=sorted(names))
    for n, exp in model.fixed.items():
        if n in names:
            ctx.check(gen.same(seen[n], exp), f'{what}: {n} differs from the values stored first', got=seen[n].tolist(), expected=exp.tolist())
            ctx.count('fixed_arrays_checked')


def selection(rng, spec):
    fixed = [v.name for v in spec.fixed_vars]
    part = [v.name for v in spec.part_vars]
    kind = pick(rng, ['all', 'fixed', 'part', 'mixed'])
    some = lambda s: [n for n in s if chance(rng, .6)] or [pick(rng, s)]
    return kind, {'all': None, 'fixed': some(fixed), 'part': some(part), 'mixed': some(fixed) + some(part)}[kind]


def observe(ctx, what, spec, place, zc, model, rng):
    names = [v.name for v in spec.fixed_vars]
    got = list(zc.partitions(relative=True))
    ctx.check(got == [spec.path(k) for k in model.keys()], f'{what}: listing differs', got=got)
    gen.check_stored(ctx, what, spec, place.fs, place.base, model)
    if model.fixed is not None:
        stored = gen.zarr_rows(place.fs, f'{place.base}/.immutable')
        ctx.check(set(stored) == set(names), f'{what}: variables stored apart', got=sorted(stored), expected=names)
        for n, (arr, dims) in stored.items():
            ctx.check(dims == spec.var(n).dims and gen.same(arr, model.fixed[n]), f'{what}: stored values of {n}', got=arr.tolist(), expected=model.fixed[n].tolist())
        ctx.count('stored_once')
    flt, pred, fkind = gen.random_filter(rng, spec, model.keys() or [gen.random_keys(rng, spec, 1)[0]])
    sel = model.keys(pred)
    kind, selected = selection(rng, spec)
    d = chance(rng, .5)
    op = pick(rng, ['load', 'load', 'map', 'map_overlap'])
    label = f'{what}: {op} selecting {kind}'
    ctx.log(label, flt if isinstance(flt, str) else fkind, selected, 'delayed', d, len(sel))
    want = list(spec.names) if selected is None else selected
    if op == 'load':
        zds = zc.load(filters=flt, delayed=d, selected_variables=selected)
        if not sel:
            ctx.check(zds is None, f'{label}: nothing is selected, yet something is loaded')
        else:
            gen.check_dataset(ctx, label, spec, zds, model.expect(pred), names=selected, delayed=d)
    elif op == 'map' or kind == 'fixed':
        token = calls.new()
        res = zc.map(functools.partial(plain, token=token, spec=spec), filters=flt, delayed=d, selected_variables=selected).compute() if sel else []
        ctx.check([tuple(map(tuple, k)) for k, _ in res] == [tuple(zip(spec.key_names, k)) for k in sel], f'{label}: keys', got=[k for k, _ in res])
        ctx.check(len(calls.get(token)) == len(sel), f'{label}: number of calls')
        for seen in calls.get(token):
            check_seen(ctx, label, spec, model, seen, want)
    else:
        token = calls.new()
        depth = int(rng.integers(0, 4))
        f = see if chance(rng, .5) else plain
        res = zc.map_overlap(functools.partial(f, token=token, spec=spec), depth=depth, filters=flt, delayed=d, selected_variables=selected).compute() if sel else []
        ctx.check(len(res) == len(sel) == len(calls.get(token)), f'{label}: number of results', got=len(res), expected=len(sel))
        for seen in calls.get(token):
            check_seen(ctx, label, spec, model, seen, want)
    if sel:
        ctx.count(f'seen_{op}')
        ctx.count(f'selected_{kind}')
    ctx.sig(op, kind, d, fkind, spec.kind, spec.axis == spec.dim, min(len(sel), 3), place.kind)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=True, nvars=(1, 2))
    if chance(rng, .25):
        # a scalar variable uses no dimension at all
        spec.vars.append(gen.random_var(rng, 'scalar', (), codecs=False, dtypes=['f8', 'i4']))
        ctx.count('scalars')
    place = gen.Place(ctx, rng)
    universe = gen.random_keys(rng, spec, int(rng.integers(2, 7)))
    zc = gen.create(spec, place)
    ctx.check(zc.immutable, 'the collection ignores that it has variables that are not partitioned')
    model = gen.Model(spec)
    model_fixed = lambda: None if model.fixed is None else {n: a.copy() for n, a in model.fixed.items()}
    ops = []
    ctx.log('spec', spec.describe(), place.kind)
    first = None
    for step in range(int(rng.integers(3, 8))):
        choices = ['insert', 'insert', 'merge'] + (['update', 'overlap', 'drop', 'dropall', 'addvar', 'dropvar', 'refused'] if model.parts else ['update'])
        op = pick(rng, choices)
        before = fixed_files(place)
        kept = model_fixed()
        ctx.log('op', op)
        if op in ('insert', 'merge'):
            ks = [k for k in universe if chance(rng, .5)] or [pick(rng, universe)]
            missing = ()
            # the variables with a fill value may be absent of a dataset
            if chance(rng, .3):
                missing = tuple(v.name for v in spec.fixed_vars if v.fill is not None and chance(rng, .6))
                if len(missing) == len(spec.fixed_vars) and not [v for v in spec.part_vars if 'x' in v.dims or 'y' in v.dims] and model.fixed is None:
                    missing = missing[:-1]
                have = {d for v in spec.vars if v.name not in missing for d in v.dims}
                missing = tuple(n for n in missing if set(spec.var(n).dims) <= have)
            rows = gen.rows_for(rng, spec, ks, nrows=(1, 5), missing=missing)
            if missing:
                ctx.count('inserted_without_them')
            if kept is not None and any(not gen.same(rows[n], a) for n, a in kept.items() if n in rows):
                ctx.count('inserted_other_values')
            ds = gen.make_dataset(spec, rows, chance(rng, .5), rng)
            kw = {} if chance(rng, .6) else {'npartitions': int(rng.integers(1, 4))}
            if op == 'merge':
                kw['merge_callable'] = functools.partial(merge_func, token=calls.new())
            zc.insert(ds, **kw)
            if op == 'merge':
                rows = model.complete(rows)
                if model.fixed is None:
                    model.fixed = {v.name: rows[v.name] for v in spec.fixed_vars}
                for k, r in spec.split(rows).items():
                    model.parts[k] = merged(spec, model.parts[k], r) if k in model.parts else r
                ctx.count('merges')
            else:
                model.insert(rows)
            first = first or step
        elif op in ('update', 'overlap'):
            cand = [v.name for v in spec.part_vars if v.name.startswith(('var', 'new'))]
            targets = [n for n in cand if chance(rng, .6)] or [cand[0]] if cand else []
            if targets:
                flt, pred, _ = gen.random_filter(rng, spec, model.keys() or [gen.random_keys(rng, spec, 1)[0]])
                sel = model.keys(pred)
                token = calls.new()
                salt = int(rng.integers(2**31))
                kind, selected = selection(rng, spec)
                if kind == 'fixed':
                    kind, selected = 'all', None
                if selected is not None and spec.axis not in selected:
                    selected = [spec.axis, *selected]
                kw = {}
                if op == 'overlap':
                    kw['depth'] = int(rng.integers(1, 4))
                if chance(rng, .5):
                    kw['variables'] = tuple(targets)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    zc.update(functools.partial(see if op == 'overlap' and chance(rng, .5) else plain, token=token, spec=spec, targets=tuple(targets), salt=salt),
                              filters=flt, selected_variables=selected, delayed=chance(rng, .5), trim=True, **kw)
                want = set(spec.names) if selected is None else set(selected)
                for seen in calls.get(token):
                    extra = set(targets) if op == 'overlap' and selected is not None else set()
                    ctx.check(set(seen) in (want, want | extra), f'{op} selecting {kind}: variables given to the function', got=sorted(seen), expected=sorted(want))
                    check_seen(ctx, f'{op} selecting {kind}', spec, model, seen, set(seen))
                ctx.check(len(calls.get(token)) >= len(sel), f'{op}: number of calls')
                for i, k in enumerate(sel):
                    r = dict(model.parts[k])
                    depth = kw.get('depth', 0)
                    lo, hi = max(0, i - depth), min(len(sel), i + depth + 1)
                    axis = np.concatenate([model.parts[q][spec.axis] for q in sel[lo:hi]])
                    off = sum(model.parts[q][spec.axis].shape[0] for q in sel[lo:i])
                    n = spec.nrows(r)
                    for t in targets:
                        v = spec.var(t)
                        val = gen.result_array(v, axis.shape[0], spec.sizes, spec.dim, [gen.ident(axis), salt])
                        r[t] = val[tuple(slice(off, off + n) if d == spec.dim else slice(None) for d in v.dims)]
                    model.parts[k] = r
                if sel:
                    ctx.count(f'seen_{op}')
                    ctx.count(f'selected_{kind}')
        elif op in ('drop', 'dropall'):
            flt, pred, _ = (None, None, 0) if op == 'dropall' else gen.random_filter(rng, spec, model.keys())
            zc.drop_partitions(filters=flt)
            model.drop(model.keys(pred))
            ctx.count('emptied' if not model.parts else 'drops')
        elif op == 'addvar' and not any(v.name == 'new1' for v in spec.vars):
            nv = gen.random_new_var(rng, 'new1', pick(rng, [v.dims for v in spec.part_vars]))
            zc.add_variable(nv.meta())
            spec.vars.append(nv)
            for r in model.parts.values():
                r['new1'] = gen.full(spec, nv, spec.nrows(r))
            ctx.count('schema_changes')
        elif op == 'dropvar' and any(v.name == 'new1' for v in spec.vars):
            zc.drop_variable('new1')
            spec.vars[:] = [v for v in spec.vars if v.name != 'new1']
            for r in model.parts.values():
                del r['new1']
            ctx.count('schema_changes')
        elif op == 'refused':
            name = pick(rng, [v.name for v in spec.fixed_vars])
            tree_before = place.snap()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if chance(rng, .5):
                    ctx.expect_raises(ValueError, lambda: zc.drop_variable(name), 'a variable that is not partitioned was dropped')
                else:
                    ctx.expect_raises(Exception, lambda: zc.update(functools.partial(change_fixed, spec=spec, name=name), depth=int(pick(rng, [0, 1]))),
                                      'an update of a variable that is not partitioned was accepted')
            keep = lambda t: {p: v for p, v in t.items() if v is not None}
            ctx.check(keep(tree_before) == keep(place.snap()), 'a refused operation on a variable that is not partitioned modified the collection',
                      **tree.diff(tree_before, place.snap()))
            ctx.count('refused')
        ops.append(op)
        after = fixed_files(place)
        if kept is not None:
            ctx.check(before == after, f'{op} rewrote the variables that are not partitioned', **tree.diff(before, after))
        if chance(rng, .3):
            zc = gen.reopen(place, 'w')
            ctx.count('reopens')
        observe(ctx, f'after step {step} ({op})', spec, place, zc, model, rng)
        if chance(rng, .3):
            observe(ctx, f'reopened after step {step} ({op})', spec, place, gen.reopen(place, 'r'), model, rng)
        if model.parts and chance(rng, .15):
            vplace = gen.Place(ctx, rng)
            v = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filesystem=vplace.fs)
            nv = gen.random_new_var(rng, 'vv1', pick(rng, [x.dims for x in spec.part_vars]), dtypes=['f8', 'i4'])
            v.add_variable(nv.meta())
            full = copy.deepcopy(spec)
            full.vars.append(nv)
            exp = model.expect()
            exp['vv1'] = gen.full(spec, nv, spec.nrows(exp))
            kind, selected = selection(rng, full)
            d = chance(rng, .5)
            gen.check_dataset(ctx, f'view selecting {kind}', full, v.load(delayed=d, selected_variables=selected), exp, names=selected, attrs=False, delayed=d)
            token = calls.new()
            v.map(functools.partial(plain, token=token, spec=full), selected_variables=selected).compute()
            for seen in calls.get(token):
                check_seen(ctx, f'view map selecting {kind}', full, model, seen, full.names if selected is None else selected)
            ctx.check(not any(p.startswith('.immutable') for p in vplace.snap()), 'the view stores the variables that are not partitioned')
            ctx.count('views')
            vplace.close()
    ctx.sample({'ops': ops, 'fixed': [(v.name, v.dims) for v in spec.fixed_vars], 'partitions': len(model.parts)})
    place.close()
