"""Updates: the user function records every call (identity and content of the data it saw); exactly-once accounting, byte-level frame, content."""
import copy, functools, warnings
import dask.array as da
import numpy as np
from .. import calls, env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 110, 'thorough': 2500}


def setup(ctx, shard):
    return env.make(shard)


def user_func(zds, *args, token=None, spec=None, targets=None, salt=0, masked=False, lazy=False, how='raw', **kwargs):
    read = gen.raw if how == 'raw' else (lambda v: np.ma.getdata(v.values))
    seen = {n: read(v) for n, v in zds.variables.items()}
    calls.add(token, {'seen': seen, 'args': args, 'kwargs': kwargs, 'delayed': zds.delayed})
    ident = gen.ident(seen[spec.axis])
    n = seen[spec.axis].shape[0]
    out = {}
    for name in targets:
        v = spec.var(name)
        arr = gen.result_array(v, n, spec.sizes, spec.dim, [ident, salt])
        if masked:
            arr = gen.mask_result(v, arr, salt)
        if lazy:
            arr = da.from_array(arr, chunks=max(1, n // 2) if arr.ndim else -1)
        out[name] = arr
    return out


def swap_func(zds, token=None, first=None, second=None, axis=None):
    calls.add(token, gen.ident(gen.raw(zds.variables[axis])))
    return {first: zds.variables[second].array, second: zds.variables[first].array}


def swap(ctx, rng, spec, zc, model):
    """The results depend on the variables they replace."""
    flt, pred, fkind = gen.random_filter(rng, spec, model.keys())
    sel = model.keys(pred)
    delayed = chance(rng, .6)
    token = calls.new()
    kw = {'variables': ('var1', 'twin')} if chance(rng, .5) else {}
    ctx.log('swap', fkind, len(sel), delayed)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        zc.update(functools.partial(swap_func, token=token, first='var1', second='twin', axis=spec.axis), filters=flt, delayed=delayed, **kw)
    ctx.check(set(calls.get(token)) == {gen.ident(model.parts[k][spec.axis]) for k in sel}, 'the function was applied to other partitions')
    for k in sel:
        r = model.parts[k]
        model.parts[k] = dict(r, var1=r['twin'], twin=r['var1'])
    ctx.count('swapped', len(sel))
    gen.check_dataset(ctx, 'after a swap of two variables', spec, zc.load(delayed=chance(rng, .5)), model.expect())


def refusals(ctx, rng, spec, place, zc, model):
    """Updates that cannot be done raise, and change nothing."""
    before = place.snap()
    kind = pick(rng, ['unknown', 'callable', 'depth'])
    func = lambda zds: {'var1': gen.raw(zds.variables['var1']), 'var1_unknown': gen.raw(zds.variables['var1'])}
    kw = {'depth': int(rng.integers(0, 2))} if kind == 'unknown' else {}
    if kind == 'callable':
        func = 'var1'
    elif kind == 'depth':
        func, kw = (lambda zds: {'var1': gen.raw(zds.variables['var1'])}), {'depth': -1}
    ctx.log('refusal', kind, kw)
    ctx.expect_raises(TypeError if kind == 'callable' else ValueError, lambda: zc.update(func, **kw), f'update ({kind})')
    after = place.snap()
    ctx.check(before == after, f'a refused update ({kind}) changed the collection', **tree.diff(before, after))
    ctx.count('refused_updates')


class CallableObject:
    def __init__(self, **kw):
        self.kw = kw

    def __call__(self, zds, *args, **kwargs):
        return user_func(zds, *args, **self.kw, **kwargs)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .3), nvars=(1, 4))
    twin = chance(rng, .4)
    if twin:
        v = copy.copy(spec.var('var1'))
        v.name = 'twin'
        spec.vars.append(v)
    place = gen.Place(ctx, rng)
    zc, model = gen.populate(ctx, rng, spec, place, nparts=(1, 9))
    if chance(rng, .2):
        zc = gen.reopen(place, 'w')
    candidates = [v.name for v in spec.part_vars if v.name != spec.axis and v.name not in spec.keys]
    for step in range(int(rng.integers(1, 4))):
        targets = [n for n in candidates if chance(rng, .6)] or [pick(rng, candidates)]
        flt, pred, fkind = gen.random_filter(rng, spec, model.keys())
        sel = model.keys(pred)
        salt = int(rng.integers(2**31))
        token = calls.new()
        base_kw = dict(token=token, spec=spec, targets=targets, salt=salt, masked=chance(rng, .4), lazy=chance(rng, .25),
                       how=pick(rng, ['raw', 'raw', 'values']))
        form = pick(rng, ['partial', 'object', 'closure'])
        func = {'partial': functools.partial(user_func, **base_kw), 'object': CallableObject(**base_kw),
                'closure': lambda zds, *a, **k: user_func(zds, *a, **base_kw, **k)}[form]
        kw = {'filters': flt, 'delayed': chance(rng, .5)}
        given = chance(rng, .5)
        if given:
            kw['variables'] = tuple(targets)
        if chance(rng, .6):
            kw['npartitions'] = int(rng.integers(1, 12))
        selected = None
        if chance(rng, .4):
            others = [n for n in spec.names if n != spec.axis and chance(rng, .5)]
            selected = [spec.axis] + others
            kw['selected_variables'] = list(selected)
        args = (1, 'a') if chance(rng, .4) else ()
        extra = {'coef': 2.5} if chance(rng, .4) else {}
        ctx.log('update', targets, fkind, flt if isinstance(flt, str) else '', 'n selected', len(sel), {k: v for k, v in kw.items() if k != 'filters'},
                form, 'masked', base_kw['masked'], 'lazy', base_kw['lazy'], args, extra)
        keep_sel = kw.get('selected_variables')
        before = place.snap()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            zc.update(func, *args, **kw, **extra)
        after = place.snap()
        if keep_sel is not None:
            ctx.check(keep_sel == selected, 'the caller\'s list of selected variables was modified', got=keep_sel)
        # exactly-once accounting
        log = calls.get(token)
        per = {}
        for c in log:
            ax = c['seen'][spec.axis]
            k = next((k for k in model.keys() if gen.same(model.parts[k][spec.axis], ax)), None)
            ctx.check(k is not None, 'the function received data that is not one partition', axis=ax.tolist()[:20])
            per[k] = per.get(k, 0) + 1
            exp_names = set(spec.names) if selected is None else set(selected)
            ctx.check(set(c['seen']) == exp_names, 'the function received other variables', got=sorted(c['seen']), expected=sorted(exp_names))
            ctx.check(c['args'] == args and c['kwargs'] == extra, 'the function received other arguments', got=(c['args'], c['kwargs']))
            ctx.check(c['delayed'] == kw['delayed'], 'lazy flag of the dataset given to the function')
            for name, arr in c['seen'].items():
                exp = model.fixed[name] if name in (model.fixed or {}) else model.parts[k][name]
                ctx.check(gen.same(arr, exp), f'{name} of {spec.path(k)} given to the function differs')
                ctx.count('call_arrays_checked')
        allowed = {k: 1 for k in sel}
        ctx.check(set(per) == set(allowed), 'the function was applied to other partitions', got=[spec.path(k) for k in per],
                  expected=[spec.path(k) for k in sel])
        for k, n in per.items():
            extra_ok = 1 if (not given and k == sel[0]) else 0
            ctx.check(1 <= n <= 1 + extra_ok, f'the function was called {n} times for {spec.path(k)}', first=spec.path(sel[0]), given=given)
        ctx.count('calls', len(log))
        if not sel:
            ctx.count('empty_selections')
        if not given and sel:
            ctx.count('inferred_updates')
        # frame: only chunk files of the updated arrays of the selected partitions may change
        ok = {f'{spec.path(k)}/{n}/' for k in sel for n in targets}
        keep = lambda t: {p: d for p, d in t.items() if not (any(p.startswith(o) for o in ok) and not p.rsplit('/', 1)[1].startswith('.'))}
        a, b = keep(before), keep(after)
        ctx.check(a == b, 'update changed files it does not address', **tree.diff(a, b))
        ctx.count('frame_files_checked', len(a))
        # content
        for k in sel:
            rows = model.parts[k]
            idt = gen.ident(rows[spec.axis])
            n = rows[spec.axis].shape[0]
            new = dict(rows)
            for name in targets:
                v = spec.var(name)
                new[name] = gen.result_array(v, n, spec.sizes, spec.dim, [idt, salt])
            model.parts[k] = new
            ctx.count('partitions_updated')
        if base_kw['masked']:
            ctx.count('masked_updates')
        d = chance(rng, .5)
        gen.check_dataset(ctx, f'after update {step}', spec, zc.load(delayed=d), model.expect(), delayed=d)
        nb = kw.get('npartitions')
        ctx.sig(fkind, given, kw['delayed'], form, base_kw['masked'], base_kw['lazy'], min(len(sel), 4),
                None if nb is None else (nb > len(sel)) - (nb < len(sel)), place.kind)
    if twin:
        swap(ctx, rng, spec, zc, model)
    if chance(rng, .3):
        refusals(ctx, rng, spec, place, zc, model)
    gen.check_stored(ctx, 'stored', spec, place.fs, place.base, model)
    gen.check_dataset(ctx, 'reopened', spec, gen.reopen(place, 'r').load(delayed=False), model.expect())
    ctx.sample({'targets': targets, 'filter': str(flt), 'calls': len(log), 'selected': [spec.path(k) for k in sel][:4]})
    place.close()
