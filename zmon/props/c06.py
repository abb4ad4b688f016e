"""Overlap computations: what the function receives is compared with a slice-and-concatenate reference; stored results with the trimmed part."""
import warnings
import numpy as np
import zcollection
from zcollection import view
from .. import calls, env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 200, 'thorough': 4000}


def setup(ctx, shard):
    return env.make(shard)


def record(zds, spec, token, info, salt, args):
    seen = {n: gen.raw(v) for n, v in zds.variables.items()}
    calls.add(token, {'seen': seen, 'info': info, 'args': args})
    return seen


def map_func(zds, *args, spec=None, token=None, salt=0, partition_info=None):
    seen = record(zds, spec, token, partition_info, salt, args)
    return (gen.ident(seen[spec.axis]), partition_info)


def map_plain(zds, *args, spec=None, token=None, salt=0):
    seen = record(zds, spec, token, None, salt, args)
    return (gen.ident(seen[spec.axis]), None)


def values(spec, v, axis, salt):
    """Row-wise deterministic values, so that a wrong slice gives different values."""
    out = []
    ax = v.dims.index(spec.dim)
    shape = tuple(1 if d == spec.dim else spec.sizes[d] for d in v.dims)
    for t in axis:
        out.append(gen.result_array(v, 1, spec.sizes, spec.dim, [gen.ident(np.array([t])), salt]).reshape(shape))
    return np.concatenate(out, axis=ax)


def upd_func(zds, *args, spec=None, token=None, salt=0, targets=(), trim=True, masked=False, partition_info=None):
    seen = record(zds, spec, token, partition_info, salt, args)
    axis = seen[spec.axis]
    if not trim:
        axis = axis[partition_info[1]]
    return results(spec, targets, axis, salt, masked)


def results(spec, targets, axis, salt, masked):
    out = {n: values(spec, spec.var(n), axis, salt) for n in targets}
    return {n: gen.mask_result(spec.var(n), a, salt) for n, a in out.items()} if masked else out


def upd_plain(zds, *args, spec=None, token=None, salt=0, targets=(), masked=False):
    seen = record(zds, spec, token, None, salt, args)
    return results(spec, targets, seen[spec.axis], salt, masked)


def expected_window(spec, model, sel, i, depth):
    lo, hi = max(0, i - depth), min(len(sel), i + depth + 1)
    rows = spec.concat(model.parts[k] for k in sel[lo:hi])
    start = sum(spec.nrows(model.parts[k]) for k in sel[lo:i])
    return rows, slice(start, start + spec.nrows(model.parts[sel[i]]))


def check_call(ctx, what, spec, model, c, rows, sl, info, names, skip=()):
    ctx.check(set(c['seen']) == names, f'{what}: variables given to the function', got=sorted(c['seen']), expected=sorted(names))
    for n in names:
        if n in skip:
            continue
        exp = (model.fixed or {}).get(n) if n in (model.fixed or {}) else rows[n]
        ctx.check(gen.same(c['seen'][n], exp), f'{what}: {n} given to the function differs', got=c['seen'][n].tolist()[:30], expected=exp.tolist()[:30])
        ctx.count('window_arrays_checked')
    if info:
        ctx.check(c['info'] is not None and c['info'][0] == spec.dim, f'{what}: partition_info dimension', got=c['info'])
        s = c['info'][1]
        ctx.check((s.start, s.stop, s.step) == (sl.start, sl.stop, None) or
                  range(*s.indices(10**6)) == range(sl.start, sl.stop), f'{what}: wrong slice', got=str(s), expected=str(sl))
        ctx.count('slices_checked')


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .3), nvars=(1, 2), dtypes=['f8', 'i4', 'i8', 'S5'])
    place = gen.Place(ctx, rng)
    zc, model = gen.populate(ctx, rng, spec, place, nparts=(1, 8), nrows=(1, 6))
    what = pick(rng, ['collection', 'collection', 'view'])
    obj = zc
    cands = [v.name for v in spec.part_vars if v.name.startswith('var')]
    full = spec
    if what == 'view':
        vplace = gen.Place(ctx, rng)
        obj = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filesystem=vplace.fs)
        template = pick(rng, [v for v in spec.part_vars])
        nv = gen.random_new_var(rng, 'vv1', template.dims, dtypes=['f8', 'i4'])
        obj.add_variable(nv.meta())
        import copy
        full = copy.deepcopy(spec)
        full.vars.append(nv)
        for k, r in model.parts.items():
            n = spec.nrows(r)
            r['vv1'] = gen.full(spec, nv, n)
        cands = ['vv1']
    spec = full
    model.spec = full
    for step in range(2):
        depth = int(pick(rng, [0, 1, 1, 2, 3, 9]))
        flt, pred, fkind = gen.random_filter(rng, spec, model.keys())
        sel = model.keys(pred)
        delayed = chance(rng, .5)
        token = calls.new()
        salt = int(rng.integers(2**31))
        info = chance(rng, .6)
        args = (3,) if chance(rng, .3) else ()
        selected = None
        op = pick(rng, ['map', 'update'])
        targets = [n for n in cands if chance(rng, .7)] or [cands[0]]
        if chance(rng, .3):
            selected = [spec.axis] + [n for n in spec.names if n != spec.axis and chance(rng, .5)]
            if what == 'view' and op == 'update':
                selected += [t for t in targets if t not in selected]
        names = set(spec.names) if selected is None else set(selected)
        kw = {'depth': depth, 'filters': flt, 'delayed': delayed}
        if selected is not None:
            kw['selected_variables'] = list(selected)
        ctx.log(what, op, 'depth', depth, fkind, flt if isinstance(flt, str) else '', 'n', len(sel), 'delayed', delayed, 'info', info, 'selected', selected)
        label = f'{what} {op} depth={depth}'
        if op == 'map':
            if chance(rng, .5):
                kw['partition_size'] = int(rng.integers(1, 4))
            elif chance(rng, .5):
                kw['npartition' if what == 'collection' else 'npartitions'] = int(rng.integers(1, 5))
            import functools
            f = functools.partial(map_func if info else map_plain, spec=spec, token=token, salt=salt)
            res = obj.map_overlap(f, *args, **kw).compute()
            ctx.check(len(res) == len(sel), f'{label}: number of results', got=len(res), expected=len(sel))
            log = calls.get(token)
            ctx.check(len(log) == len(sel), f'{label}: number of calls', got=len(log), expected=len(sel))
            unused = list(log)
            for i, (k, item) in enumerate(zip(sel, res)):
                rows, sl = expected_window(spec, model, sel, i, depth)
                ctx.check(tuple(map(tuple, item[0])) == tuple(zip(spec.key_names, k)), f'{label}: result {i} has the keys of another partition',
                          got=item[0], expected=k)
                ctx.check(item[1][0] == gen.ident(rows[spec.axis]), f'{label}: result {i} comes from other data', key=k)
                j = next((j for j, c in enumerate(unused) if gen.ident(c['seen'][spec.axis]) == gen.ident(rows[spec.axis]) and
                          (not info or (c['info'][1].start, c['info'][1].stop) == (sl.start, sl.stop))), None)
                ctx.check(j is not None, f'{label}: no call received the expected window of {k}', expected=str(sl))
                check_call(ctx, label, spec, model, unused.pop(j), rows, sl, info, names)
            ctx.count('map_windows', len(sel))
        else:
            trim = not info or chance(rng, .6)
            kw['trim'] = trim if depth else True
            trim = kw['trim']
            given = chance(rng, .5)
            masked = chance(rng, .3)
            if what == 'collection' and given:
                kw['variables'] = tuple(targets)
            if chance(rng, .5):
                kw['npartitions'] = int(rng.integers(1, 9))
            import functools
            if depth == 0 and what == 'collection':
                info = False     # without overlap the function gets no partition_info
            if depth == 0:
                info = False
            if info:
                f = functools.partial(upd_func, spec=spec, token=token, salt=salt, targets=targets, trim=trim, masked=masked)
            else:
                f = functools.partial(upd_plain, spec=spec, token=token, salt=salt, targets=targets, masked=masked)
            before = place.snap()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                obj.update(f, *args, **kw)
            log = calls.get(token)
            if what == 'view':
                ctx.check(before == place.snap(), f'{label}: the reference was modified')
            seen_names = names | (set(targets) if depth and selected is not None else set())
            exp = []
            for i, k in enumerate(sel):
                rows, sl = expected_window(spec, model, sel, i, depth)
                exp.append((k, rows, sl))
            # the trial call sees the first partition alone
            unused = list(log)
            for k, rows, sl in exp:
                j = next((j for j, c in enumerate(unused) if gen.ident(c['seen'][spec.axis]) == gen.ident(rows[spec.axis]) and
                          (not info or (c['info'][1].start, c['info'][1].stop) == (sl.start, sl.stop))), None)
                ctx.check(j is not None, f'{label}: no call received the expected window of {k}', expected=str(sl),
                          got=[(c['seen'][spec.axis].shape[0], str(c['info'])) for c in log])
                c = unused.pop(j)
                if set(c['seen']) != seen_names and set(c['seen']) == names:
                    pass
                check_call(ctx, label, spec, model, c, rows, sl, info, set(c['seen']), skip=())
                ctx.check(set(c['seen']) in (names, seen_names), f'{label}: variables given to the function', got=sorted(c['seen']))
            ctx.check(len(unused) <= (0 if kw.get('variables') or not sel else 1), f'{label}: additional calls', got=len(unused))
            for c in unused:
                n = spec.nrows(model.parts[sel[0]])
                check_call(ctx, f'{label}: trial call', spec, model, c, model.parts[sel[0]], slice(0, n), info, set(c['seen']))
                ctx.check(set(c['seen']) in (names, seen_names), f'{label}: variables given to the trial call', got=sorted(c['seen']))
                ctx.count('trial_calls')
            for k in sel:
                new = dict(model.parts[k])
                for n in targets:
                    new[n] = values(spec, spec.var(n), new[spec.axis], salt)
                model.parts[k] = new
            ctx.count('update_windows', len(sel))
            if not trim:
                ctx.count('untrimmed_updates')
            if sel or what == 'collection' or model.parts:
                d = chance(rng, .5)
                gen.check_dataset(ctx, f'after {label}', spec, obj.load(delayed=d), model.expect(), attrs=False, delayed=d)
        if depth >= len(sel) > 0:
            ctx.count('depth_beyond_ends')
        if len(sel) > 2 * depth + 1 and depth:
            ctx.count('interior_windows')
        if what == 'view' and sel:
            ctx.count('view_windows')
        ctx.sig(what, op, min(depth, 4), fkind, delayed, info, selected is not None, min(len(sel), 6), place.kind)
    ctx.sample({'what': what, 'op': op, 'depth': depth, 'sizes': [spec.nrows(model.parts[k]) for k in sel], 'calls': len(log)})
    place.close()
    if what == 'view':
        vplace.close()
