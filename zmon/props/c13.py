"""Histories on views against a model made of the reference's rows and of the view's own arrays."""
import copy, functools, warnings
import numpy as np
import zcollection
from zcollection import view
from .. import calls, env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 140, 'thorough': 3000}
LIMITS = {'case': 300}


def setup(ctx, shard):
    return env.make(shard)


def upd(zds, token=None, spec=None, targets=(), salt=0, lazy=False, masked=False):
    ax = gen.raw(zds.variables[spec.axis])
    calls.add(token, {n: gen.raw(v) for n, v in zds.variables.items()})
    out = {t.name: gen.result_array(t, ax.shape[0], spec.sizes, spec.dim, [gen.ident(ax), salt]) for t in targets}
    if masked:
        out = {t.name: gen.mask_result(t, out[t.name], salt) for t in targets}
    if lazy:
        import dask.array as da
        out = {k: da.from_array(v) for k, v in out.items()}
    return out


def seen_func(zds):
    return {n: gen.raw(v) for n, v in zds.variables.items()}


class ViewModel:
    def __init__(self, spec, model, covered):
        self.spec, self.ref, self.covered = spec, model, list(covered)
        self.vars = []
        self.vals = {}

    def full_spec(self):
        s = copy.copy(self.spec)
        s.vars = list(self.spec.vars) + list(self.vars)
        return s

    def keys(self, pred=None):
        return [k for k in self.ref.keys(pred) if k in self.covered]

    def add(self, v):
        self.vars.append(v)
        for k in self.keys():
            self.vals[k, v.name] = gen.full(self.spec, v, self.spec.nrows(self.ref.parts[k]))

    def rows(self, k):
        r = dict(self.ref.parts[k])
        for v in self.vars:
            r[v.name] = self.vals[k, v.name]
        return r

    def expect(self, pred=None, slices=None):
        ks = self.keys(pred)
        fs = self.full_spec()
        parts = []
        for k in ks:
            r = self.rows(k)
            if slices is not None:
                if k not in slices:
                    continue
                ix = [i for sl in slices[k] for i in range(*sl.indices(self.spec.nrows(r)))]
                r = fs.take(r, ix)
            parts.append(r)
        if not parts:
            return None
        out = fs.concat(parts)
        out.update(self.ref.fixed or {})
        return out


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .35), nvars=(1, 3))
    place = gen.Place(ctx, rng)
    vplace = gen.Place(ctx, rng)
    zc, model = gen.populate(ctx, rng, spec, place, nparts=(2, 6), nrows=(1, 5))
    flt, pred, kind = gen.random_filter(rng, spec, model.keys(), kinds=('none', 'none', 'str', 'compound', 'set'))
    v = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filters=flt, filesystem=vplace.fs)
    vm = ViewModel(spec, model, model.keys(pred))
    names = spec.key_names
    ref0 = place.snap()
    ctx.log('view filter', kind, flt if isinstance(flt, str) else '', [spec.path(k) for k in vm.covered])

    def listing(what):
        f2, p2, _ = gen.random_filter(rng, spec, model.keys())
        got = [p[len(v.base_dir) + 1:] for p in v.partitions(filters=f2)]
        want = [spec.path(k) for k in vm.keys(p2)]
        ctx.check(got == want, f'{what}: partitions of the view', got=got, expected=want)
        ctx.count('listings')

    def check(what):
        listing(what)
        fs = vm.full_spec()
        ctx.check({x.name for x in v.variables()} == {x.name for x in vm.vars}, f'{what}: variables of the view')
        if not vm.vars:
            ctx.expect_raises(ValueError, lambda: v.load(), f'{what}: loading a view without variables')
            return
        f2, p2, k2 = gen.random_filter(rng, spec, model.keys())
        keys2 = vm.keys(p2)
        sel = None
        if chance(rng, .4):
            sel = [x.name for x in fs.vars if chance(rng, .5)]
            if not any(spec.dim in fs.var(n).dims for n in sel):
                sel.append(pick(rng, [x for x in fs.vars if spec.dim in x.dims]).name)
        slices, ixer = None, None
        if chance(rng, .35) and model.keys():
            slices, ixer = {}, []
            for k in model.keys():
                if chance(rng, .6):
                    n = spec.nrows(model.parts[k])
                    a = int(rng.integers(0, n))
                    sl = [slice(a, int(rng.integers(a + 1, n + 1)))]
                    if chance(rng, .4) and sl[0].stop < n:
                        sl.append(slice(sl[0].stop, n))
                    slices[k] = sl
                    ixer += [(tuple(zip(names, k)), s_) for s_ in sl]
        d = chance(rng, .5)
        zds = v.load(delayed=d, filters=f2, indexer=ixer, selected_variables=sel)
        exp = vm.expect(p2, slices)
        if exp is None:
            ctx.check(zds is None, f'{what}: an empty selection returned data')
            ctx.count('empty_selections')
        else:
            gen.check_dataset(ctx, f'{what}: load', fs, zds, exp, names=sel, delayed=d, codecs=True)
            ctx.count('loads')
            if ixer is not None:
                ctx.count('indexer_loads')
        if keys2 and chance(rng, .5):
            res = v.map(seen_func, filters=f2, delayed=chance(rng, .5), selected_variables=sel,
                        npartitions=None if chance(rng, .5) else int(rng.integers(1, 6))).compute()
            ctx.check([tuple(map(tuple, k)) for k, _ in res] == [tuple(zip(names, k)) for k in keys2], f'{what}: keys of map')
            for k, (_, seen) in zip(keys2, res):
                r = vm.rows(k)
                r.update(model.fixed or {})
                want = set(r) if sel is None else set(sel)
                ctx.check(set(seen) == want, f'{what}: map received other variables', got=sorted(seen), expected=sorted(want))
                for n, a in seen.items():
                    ctx.check(gen.same(a, r[n]), f'{what}: map received other values of {n} in {spec.path(k)}')
                    ctx.count('map_arrays_checked')
        ctx.sig(k2, d, sel is not None, ixer is not None, min(len(keys2), 3), len(vm.vars), place.kind, vplace.kind)

    check('created')
    n = 0
    hist = []
    for step in range(int(rng.integers(4, 9))):
        op = pick(rng, ['add', 'add', 'update', 'update', 'update', 'drop', 'reopen', 'refused', 'refdrop'])
        if op in ('update', 'drop') and not vm.vars:
            op = 'add'
        hist.append(op)
        ctx.log('step', op)
        before = tree.snap(vplace.base, vplace.fs)
        if op == 'add':
            n += 1
            nv = gen.random_new_var(rng, f'view{n}', pick(rng, spec.part_vars).dims)
            if vm.vars and chance(rng, .3):
                nv = copy.copy(vm.vars[-1])
                nv.name = f'view{n}'
            v.add_variable(nv.meta())
            vm.add(nv)
            ctx.count('added')
        elif op == 'update':
            f2, p2, k2 = gen.random_filter(rng, spec, model.keys())
            keys2 = vm.keys(p2)
            targets = [x for x in vm.vars if chance(rng, .5)] or [pick(rng, vm.vars)]
            salt = int(rng.integers(2**31))
            token = calls.new()
            sel = None
            if chance(rng, .4):
                sel = [spec.axis, pick(rng, vm.vars).name]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                v.update(functools.partial(upd, token=token, spec=spec, targets=targets, salt=salt, lazy=chance(rng, .2), masked=chance(rng, .3)), filters=f2,
                         delayed=chance(rng, .5), selected_variables=sel, npartitions=None if chance(rng, .5) else int(rng.integers(1, 6)))
            after = tree.snap(vplace.base, vplace.fs)
            may = tuple(f'{spec.path(k)}/{t.name}/' for k in keys2 for t in targets)
            changed = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
            bad = [p for p in changed if not p.startswith(may)]
            ctx.check(not bad, 'an update changed other files of the view', files=bad[:5], updated=may)
            old = dict(vm.vals)
            for k in keys2:
                axv = model.parts[k][spec.axis]
                for t in targets:
                    vm.vals[k, t.name] = gen.result_array(t, len(axv), spec.sizes, spec.dim, [gen.ident(axv), salt])
            for seen in calls.get(token):
                # every dataset handed to the function is that of a partition of the selection, reference and view values side by side
                want = (set(spec.names) | {x.name for x in vm.vars}) if sel is None else set(sel)
                ctx.check(set(seen) == want, 'the update function received other variables', got=sorted(seen), expected=sorted(want))
                own = [k for k in keys2 if gen.same(model.parts[k][spec.axis], seen[spec.axis])]
                ctx.check(bool(own), 'the update function received rows of no selected partition')
                for nm, a in seen.items():
                    cand = [old[k, nm] for k in own] if nm not in spec.names else [model.fixed[nm]] if nm in (model.fixed or {}) else [model.parts[k][nm] for k in own]
                    ctx.check(any(gen.same(a, c) for c in cand), f'the update function received other values of {nm}')
                    ctx.count('call_arrays_checked')
            ctx.count('updates')
            ctx.count('partitions_updated', len(keys2))
            twins = [(a, b) for a in vm.vars for b in vm.vars if a.name < b.name and (a.dtype, a.dims, a.filters) == (b.dtype, b.dims, b.filters) and gen.same_fill(a.fill, b.fill)]
            if twins and keys2:
                # the results depend on the variables they replace
                a, b = (x.name for x in pick(rng, twins))
                d = chance(rng, .6)
                ctx.log('swap', a, b, d)
                v.update(lambda zds: {a: zds.variables[b].array, b: zds.variables[a].array}, filters=f2, delayed=d)
                for k in keys2:
                    vm.vals[k, a], vm.vals[k, b] = vm.vals[k, b], vm.vals[k, a]
                ctx.count('swapped')
        elif op == 'drop':
            x = vm.vars.pop(int(rng.integers(len(vm.vars))))
            v.drop_variable(x.name)
            after = tree.snap(vplace.base, vplace.fs)
            mine = tuple(spec.path(k) + '/' for k in vm.keys())
            left = [p for p in after if f'/{x.name}/' in '/' + p + '/' and p.startswith(mine)]
            ctx.check(not left, 'a dropped variable is still stored', files=left[:4])
            changed = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and p != '.view' and f'/{x.name}/' not in '/' + p + '/']
            ctx.check(not changed, 'dropping a variable changed other files', files=changed[:4])
            ctx.count('dropped')
        elif op == 'reopen':
            v = zcollection.open_view(vplace.base, filesystem=vplace.fs)
            ctx.check(before == tree.snap(vplace.base, vplace.fs), 'opening a view changed its files')
            ctx.count('reopened')
        elif op == 'refused':
            target = pick(rng, spec.vars)
            nm = target.name
            ctx.expect_raises(ValueError, lambda: v.add_variable(target.meta()), 'adding a variable of the reference')
            ctx.expect_raises(ValueError, lambda: v.drop_variable(nm), 'dropping a variable of the reference')
            ctx.expect_raises(ValueError, lambda: v.drop_variable('nothing'), 'dropping an unknown variable')
            if vm.vars:
                x = pick(rng, vm.vars)
                ctx.expect_raises(ValueError, lambda: v.add_variable(x.meta()), 'adding a variable again')
                ctx.expect_raises(Exception, lambda: v.add_variable(gen.Var('bad', 'f8', (spec.dim, 'zzz')).meta()), 'adding a variable with unknown dimensions')
                pt = pick(rng, spec.part_vars)
                if vm.keys():
                    ctx.expect_raises(ValueError, lambda: v.update(lambda zds: {pt.name: gen.raw(zds.variables[pt.name])}), 'updating a variable of the reference')
                    ctx.expect_raises(ValueError, lambda: v.update(lambda zds: {'nothing': gen.raw(zds.variables[spec.axis])}), 'updating an unknown variable')
            ctx.check(before == tree.snap(vplace.base, vplace.fs), 'a refused operation changed the view', diff=tree.diff(before, tree.snap(vplace.base, vplace.fs)))
            ctx.count('refused')
        elif op == 'refdrop':
            ks = model.keys()
            if len(ks) > 1:
                k = pick(rng, ks)
                zc.drop_partitions(filters=lambda d: tuple(d[x] for x in names) == k)
                model.drop([k])
                ref0 = place.snap()
                ctx.count('reference_drops')
        check(op)
        ctx.check(ref0 == place.snap(), f'{op}: the reference collection changed')
        if chance(rng, .3):
            check(op)
    ctx.sample({'history': hist, 'partitions': len(vm.keys()), 'variables': [x.name for x in vm.vars]})
    place.close()
    vplace.close()
