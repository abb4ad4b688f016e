"""The reference changes, the view is synchronized; shapes, kept values, fill values, the returned predicate and is_synced are compared with a model."""
import functools, warnings
import numpy as np
import zcollection
from zcollection import view
from .. import calls, env, gen, recsync, tree
from ..gen import chance, pick
from .c13 import ViewModel, upd

CASES = {'quick': 140, 'thorough': 3000}
LIMITS = {'case': 300}


def setup(ctx, shard):
    return env.make(shard)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .25), nvars=(1, 2), resolutions=('Y', 'M', 'D', 'h', 'm'))
    place = gen.Place(ctx, rng)
    vplace = gen.Place(ctx, rng)
    zc = gen.create(spec, place)
    model = gen.Model(spec)
    universe = gen.random_keys(rng, spec, 6)
    rows = gen.rows_for(rng, spec, universe[:4], nrows=(2, 6))
    zc.insert(gen.make_dataset(spec, rows, False))
    model.insert(rows)
    names = spec.key_names
    flt, pred, kind = gen.random_filter(rng, spec, model.keys(), kinds=('none', 'none', 'str', 'compound'))
    v = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filters=flt, filesystem=vplace.fs)
    if flt is None:
        pred = lambda d: True
    vm = ViewModel(spec, model, model.keys(pred))
    axis = {k: model.parts[k][spec.axis] for k in vm.covered}   # what the view knows of the reference
    ctx.log('spec', spec.describe(), place.kind, vplace.kind, 'filter', kind, flt, [spec.path(k) for k in vm.covered])
    reopened = 0

    def stale():
        """{key: why} of the partitions to synchronize."""
        out = {}
        for k in model.keys():
            if k not in vm.covered:
                if pred(dict(zip(names, k))):
                    out[k] = 'new'
            else:
                a, b = axis[k], model.parts[k][spec.axis]
                if not gen.same(a, b):
                    out[k] = 'extend' if len(b) > len(a) and gen.same(a, b[:len(a)]) else 'reset'
        return out

    def add():
        nv = gen.random_new_var(rng, f'view{len(vm.vars)}{int(rng.integers(1000))}', pick(rng, spec.part_vars).dims)
        v.add_variable(nv.meta())
        vm.add(nv)

    def update():
        f2, p2, k2 = gen.random_filter(rng, spec, model.keys(), kinds=('none', 'none', 'str'))
        targets = [x for x in vm.vars if chance(rng, .6)] or [pick(rng, vm.vars)]
        salt = int(rng.integers(2**31))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            v.update(functools.partial(upd, token=calls.new(), spec=spec, targets=targets, salt=salt), filters=f2)
        for k in vm.keys(p2):
            axv = model.parts[k][spec.axis]
            for t in targets:
                vm.vals[k, t.name] = gen.result_array(t, len(axv), spec.sizes, spec.dim, [gen.ident(axv), salt])

    for _ in range(int(rng.integers(1, 3))):
        add()
    update()
    hist = []
    for rnd in range(int(rng.integers(2, 4))):
        # -- the reference changes
        for _ in range(int(rng.integers(0, 4))):
            op = pick(rng, ['new', 'extend', 'extend', 'same', 'shrink', 'modify', 'drop', 'redo', 'grow-other', 'swap', 'patch', 'patch'])
            ks = model.keys()
            if op == 'new' or not ks:
                cand = [k for k in universe if k not in model.parts]
                if not cand:
                    continue
                r = gen.rows_for(rng, spec, [pick(rng, cand)], nrows=(1, 5))
            else:
                k = pick(rng, ks)
                cur = model.parts[k]
                n = spec.nrows(cur)
                if op == 'drop':
                    if len(ks) < 2:
                        continue
                    zc.drop_partitions(filters=lambda d: tuple(d[x] for x in names) == k)
                    model.drop([k])
                    hist.append(op)
                    ctx.log('reference', op, spec.path(k))
                    ctx.count('ref_drop')
                    continue
                if op == 'same':
                    r = gen.rows_for(rng, spec, [k], nrows=(n, n))
                    for x in [spec.axis]:
                        r[x] = cur[x]
                elif op == 'extend':
                    extra = gen.rows_for(rng, spec, [k], nrows=(1, 4))
                    r = spec.concat([cur, spec.take(extra, range(spec.nrows(extra)))])
                elif op == 'shrink':
                    m = int(rng.integers(1, n)) if n > 1 else 1
                    r = spec.take(cur, range(m))
                elif op in ('modify', 'patch'):
                    r = spec.take(cur, range(n))
                    other = gen.rows_for(rng, spec, [k], nrows=(n, n))
                    i = int(rng.integers(n))
                    a = r[spec.axis].copy()
                    a[i] = other[spec.axis][i]
                    r[spec.axis] = a
                    if op == 'patch':   # longer, and one row of the former part is another one
                        extra = gen.rows_for(rng, spec, [k], nrows=(1, 4))
                        r = spec.concat([r, spec.take(extra, range(spec.nrows(extra)))])
                elif op == 'swap':
                    r = spec.take(cur, list(range(n))[::-1])
                elif op == 'grow-other':
                    extra = gen.rows_for(rng, spec, [k], nrows=(1, 3))
                    r = spec.concat([spec.take(extra, range(spec.nrows(extra))), cur])
                else:
                    r = gen.rows_for(rng, spec, [k], nrows=(1, 6))
            if spec.kind == 'date' and op in ('extend', 'modify', 'patch', 'swap', 'grow-other'):
                pass   # order inside a partition is free
            for x in spec.fixed_vars:
                r[x.name] = model.fixed[x.name]
            zc.insert(gen.make_dataset(spec, r, chance(rng, .5), rng))
            model.insert(r)
            hist.append(op)
            ctx.log('reference', op, [spec.path(k) for k in spec.split(r)], len(r[spec.axis]))
            ctx.count('ref_' + op.replace('-', '_'))
        if chance(rng, .2):
            zc.update(lambda zds: {spec.part_vars[-1].name: gen.raw(zds.variables[spec.part_vars[-1].name])}, variables=[spec.part_vars[-1].name])
        if chance(rng, .3) and (flt is None or isinstance(flt, str)):
            v = zcollection.open_view(vplace.base, filesystem=vplace.fs)
            ctx.count('reopened')
        # -- before
        want = stale()
        snap = tree.snap(vplace.base, vplace.fs)
        ctx.check(v.is_synced() == (not want), 'is_synced before synchronizing', stale={spec.path(k): w for k, w in want.items()})
        ctx.check(snap == tree.snap(vplace.base, vplace.fs), 'is_synced modified the view')
        ctx.count('is_synced_true' if not want else 'is_synced_false')
        ref = place.snap()
        newf = None
        if chance(rng, .25):
            newf, pred2, _ = gen.random_filter(rng, spec, universe, kinds=('str', 'compound'))
            flt, pred = newf, pred2
            want = stale()
        got = v.sync(newf) if newf is not None else v.sync()
        ctx.check(ref == place.snap(), 'synchronizing modified the reference')
        # -- after
        for k, why in want.items():
            n = spec.nrows(model.parts[k])
            for x in vm.vars:
                blank = gen.full(spec, x, n)
                if why == 'extend':
                    old = vm.vals[k, x.name]
                    ax_ = x.dims.index(spec.dim)
                    m = min(old.shape[ax_], n)
                    sl = tuple(slice(0, m) if d == spec.dim else slice(None) for d in x.dims)
                    blank[sl] = old[sl]
                vm.vals[k, x.name] = blank
            axis[k] = model.parts[k][spec.axis]
            if why == 'new':
                vm.covered.append(k)
            ctx.count('sync_' + why)
        sel = [p[len(v.base_dir) + 1:] for p in v.partitions(filters=got)]
        ctx.check(sel == [spec.path(k) for k in sorted(want)], 'the returned predicate selects other partitions', got=sel,
                  expected={spec.path(k): w for k, w in want.items()})
        for k in universe:
            ctx.check(bool(got(dict(zip(names, k)))) == (k in want), f'the returned predicate is wrong for {spec.path(k)}', expected=k in want)
        ctx.check(v.is_synced(), 'the view is not in sync after synchronizing')
        lst = [p[len(v.base_dir) + 1:] for p in v.partitions()]
        ctx.check(lst == [spec.path(k) for k in vm.keys()], 'partitions of the view after synchronizing', got=lst)
        if not vm.keys():
            ctx.check(v.load() is None, 'data loaded from an empty view')
        else:
            d = chance(rng, .5)
            gen.check_dataset(ctx, 'load after sync', vm.full_spec(), v.load(delayed=d), vm.expect(), delayed=d)
        ctx.count('syncs')
        for why in set(want.values()):
            ctx.sig(why, tuple(sorted(set(want.values()))), place.kind, vplace.kind, newf is not None, reopened, spec.kind, len(vm.vars))
        # idempotence
        if chance(rng, .3):
            again = v.sync()
            ctx.check(not any(again(dict(zip(names, k))) for k in universe), 'a second synchronization reports changes')
        if chance(rng, .5) and vm.keys():
            update()
            gen.check_dataset(ctx, 'load after sync and update', vm.full_spec(), v.load(delayed=False), vm.expect())
        if chance(rng, .3):
            add()
    ctx.sample({'history': hist, 'partitions': len(vm.keys())})
    place.close()
    vplace.close()
