"""Hostile metadata through create / reopen / re-create; field-by-field comparison and identical treatment of the same data by both sessions."""
import copy, json, pickle
import numcodecs, numpy as np, zarr
import zcollection
from zcollection import collection, meta, partitioning
from zcollection.meta import Attribute, Dimension
from .. import env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 200, 'thorough': 4000}

FILLS = {
    'f8': [None, float('nan'), float('inf'), float('-inf'), 0.0, 1.7976931348623157e308, 5e-324, 0.1],
    'f4': [None, float('nan'), float('-inf'), 0.1, np.float32(3.4e38)],
    'f2': [None, float('nan'), 2.5], 'i8': [None, -2**63, 2**63 - 1, 0], 'u8': [None, 2**64 - 1], 'i1': [-128], 'u1': [255, 0], '?': [None, True, False],
    'M8[ns]': [None, np.datetime64('NaT'), np.datetime64('2000-01-01T00:00:00.000000001'), np.datetime64('1950-01-01')],
    'M8[D]': [np.datetime64('2001-02-03'), np.datetime64('NaT')], 'm8[s]': [None, np.timedelta64(-5, 's'), np.timedelta64('NaT')],
    'S5': [None, b'', b'a\xff'], 'U4': [None, 'é', ''], 'c16': [None, complex(float('nan'), float('inf')), 1 - 2j], '>i4': [None, 7], '>f8': [None, -1.0],
}
ATTRS = [1, -2.5, 'text', 'é \u2603 "quoted" \\ /', '', [1, 2, 3], ['a', None], True, False, None, {'k': [1, {'z': 2}]}, 2**70, 1e300, float('nan'), float('inf'),
         np.int16(4), np.float32(0.5), np.array([1, 2]), np.bool_(True), np.array([[1, 2], [3, 4]]), np.zeros((1, 2, 2)), np.array([0.5])]
CODECS = [None, lambda: zarr.Blosc(), lambda: zarr.Blosc(cname='zlib', clevel=9, shuffle=0), lambda: numcodecs.Zlib(7), lambda: numcodecs.Zstd(3),
          lambda: numcodecs.BZ2(2), lambda: numcodecs.LZMA(), lambda: numcodecs.LZ4(3), lambda: numcodecs.GZip(2)]


def setup(ctx, shard):
    return env.make(shard)


def random_attr_list(ctx, rng, n=3):
    out = []
    for i in range(int(rng.integers(0, n + 1))):
        raw = pick(rng, ATTRS)
        a = Attribute(pick(rng, ['units', 'a b', 'é', '_x', 'long_name']) + str(i), raw)
        want = raw.tolist() if isinstance(raw, (np.ndarray, np.generic)) else raw
        ctx.check(norm(a.get_config()[1]) == norm(want), 'the value of an attribute changed', got=repr(a.get_config()[1]), expected=repr(want))
        out.append(a)
    return out


def norm(x):
    if isinstance(x, float) and x != x:
        return 'NaN'
    if isinstance(x, (list, tuple)):
        return [norm(i) for i in x]
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return x


def attr_map(attrs):
    return {a.name: norm(a.value) for a in attrs}


def fill_key(v, dtype):
    if v is None:
        return None
    a = np.array(v, dtype)
    return (str(a.dtype), a.tobytes(), isinstance(v, str))


def codec(c):
    return None if c is None else json.dumps(c.get_config(), sort_keys=True, default=str)


def fields(v):
    return {'name': v.name, 'dtype': np.dtype(v.dtype).str, 'dimensions': tuple(v.dimensions), 'fill_value': fill_key(v.fill_value, v.dtype),
            'attrs': attr_map(v.attrs), 'compressor': codec(v.compressor), 'filters': [codec(f) for f in v.filters]}


def ds_fields(md):
    return {'dimensions': tuple(md.dimensions), 'attrs': attr_map(md.attrs), 'chunks': [(d.name, d.value) for d in md.chunks],
            'block_size_limit': md.block_size_limit, 'variables': {n: fields(v) for n, v in md.variables.items()}}


def part_fields(p):
    return {'class': type(p).__name__, 'variables': tuple(p.variables), 'resolution': getattr(p, 'resolution', None), 'dtype': tuple(map(tuple, p.dtype())),
            'len': len(p)}


def session_fields(z):
    return {'axis': z.axis, 'immutable': z.immutable, 'partitioning': part_fields(z.partitioning), 'dim': z.partition_properties.dim, **ds_fields(z.metadata)}


def differing(a, b):
    return {k: differing(a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)} if isinstance(a, dict) and isinstance(b, dict) else (a, b)


def perturb(rng, v):
    """A copy of a variable with one field changed."""
    kw = dict(dimensions=v.dimensions, attrs=v.attrs, compressor=v.compressor, fill_value=v.fill_value, filters=v.filters)
    name, dtype = v.name, v.dtype
    what = pick(rng, ['name', 'dtype', 'dimensions', 'fill_value', 'attrs', 'compressor', 'filters'])
    if what == 'name':
        name = v.name + 'x'
    elif what == 'dtype':
        dtype = np.dtype('i2') if v.dtype != np.dtype('i2') else np.dtype('i4')
        kw['fill_value'] = None
    elif what == 'dimensions':
        kw['dimensions'] = tuple(v.dimensions) + ('w', )
    elif what == 'fill_value':
        dtype, kw['fill_value'] = np.dtype('f8'), 12345.5
    elif what == 'attrs':
        kw['attrs'] = tuple(v.attrs) + (Attribute('zz', 1), )
    elif what == 'compressor':
        kw['compressor'] = numcodecs.Zlib(4)
    else:
        kw['filters'] = tuple(v.filters) + (numcodecs.Shuffle(3), )
    return meta.Variable(name, dtype, **kw), what


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .3), nvars=(1, 2))
    for i in range(int(rng.integers(2, 6))):
        dt = pick(rng, list(FILLS))
        comp = pick(rng, CODECS)
        filters = ()
        if chance(rng, .3):
            if dt == 'i8':
                filters = (numcodecs.Delta('<i8'), )
            elif np.dtype(dt).kind in 'iuf' and np.dtype(dt).isnative:
                filters = (numcodecs.Shuffle(np.dtype(dt).itemsize), )
            if filters and chance(rng, .4):
                filters += (numcodecs.Shuffle(np.dtype(dt).itemsize), )
        spec.vars.append(gen.Var(f'h{i}', dt, pick(rng, spec.part_vars).dims, pick(rng, FILLS[dt]), comp() if comp else None, filters))
    if spec.kind == 'seq':
        spec.key_dtype = None if chance(rng, .3) else tuple(pick(rng, ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']) for _ in spec.keys)
    md = spec.metadata()
    for v in md.variables.values():
        if chance(rng, .5):
            v.attrs = tuple(random_attr_list(ctx, rng))
    md.attrs = random_attr_list(ctx, rng)
    if chance(rng, .5):
        md.block_size_limit = int(rng.integers(1, 10**9))
    place = gen.Place(ctx, rng)
    part = spec.partitioning()
    zc = collection.Collection(spec.axis, md, part, place.base, mode='w', filesystem=place.fs)
    want = session_fields(zc)
    ctx.check(want['variables'] == ds_fields(md)['variables'] and want['partitioning'] == part_fields(part), 'the session does not hold the given metadata')
    ctx.log('spec', spec.describe(), place.kind)
    first = place.snap()
    has_nan = any('NaN' in json.dumps(norm([a.value for a in x.attrs]), default=str) for x in [md, *md.variables.values()])
    for mode in ('r', 'w'):
        z = gen.reopen(place, mode)
        got = session_fields(z)
        ctx.check(got == want, f'reopened ({mode}) with another configuration', differs=differing(got, want))
        if not has_nan:
            ctx.check(z.metadata == md, 'reopened metadata is not equal to the original', attrs=repr([[(a.name, a.value) for a in x.attrs] for x in [md, *md.variables.values()]]), fills=repr([(x.dtype, x.fill_value) for x in md.variables.values()]))
        ctx.check(place.snap() == first, 'opening changed the stored configuration')
        ctx.count('reopens')
    ctx.count('variables_compared', len(md.variables))
    for v in md.variables.values():
        ctx.sig(np.dtype(v.dtype).str, repr(v.fill_value), type(v.compressor).__name__, len(v.filters), sorted(type(a.value).__name__ for a in v.attrs))
    # re-creating over it
    if chance(rng, .7):
        other = copy.deepcopy(md)
        if chance(rng, .6):
            other.attrs = [Attribute('other', 1)]
            other.variables[spec.part_vars[-1].name].attrs = ()
            other.block_size_limit = 17
        try:
            collection.Collection(spec.axis, other, spec.partitioning(), place.base, mode='w', filesystem=place.fs)
        except ValueError:
            pass
        ctx.check(place.snap() == first, 're-creating changed the stored configuration')
        ctx.count('recreated')
    # equality
    names = list(md.variables)
    for _ in range(4):
        v = md.variables[pick(rng, names)]
        w = meta.Variable.from_config(json.loads(json.dumps(v.get_config())))
        ctx.check(fields(w) == fields(v), 'a variable changed through its configuration', differs=differing(fields(w), fields(v)))
        nan_attr = 'NaN' in json.dumps(norm([a.value for a in v.attrs]), default=str)
        if not nan_attr:
            ctx.check(v == w and not (v != w) and w.get_config() == v.get_config(), 'equal variables compare different')
            if v.attrs:
                w.attrs = tuple(reversed(w.attrs))
                ctx.check(v == w, 'the order of the attributes matters')
        p, what = perturb(rng, v)
        diff = fields(p) != fields(v)
        ctx.check((p != v) == diff and (p == v) == (not diff), f'variables differing by {what} compare equal')
        ctx.check((p.get_config() == v.get_config()) == (p == v), f'configurations and equality disagree ({what})')
        r = pickle.loads(pickle.dumps(v))
        ctx.check(fields(r) == fields(v), 'a variable changed when pickled')
        ctx.count('equalities')
    md2 = meta.Dataset.from_config(json.loads(json.dumps(md.get_config())))
    ctx.check(ds_fields(md2) == ds_fields(md), 'the metadata changed through its configuration', differs=differing(ds_fields(md2), ds_fields(md)))
    for what in ('dimensions', 'attrs', 'chunks', 'block_size_limit', 'variables'):
        m = copy.deepcopy(md2)
        if what == 'dimensions':
            m.dimensions = m.dimensions + ('w', )
        elif what == 'attrs':
            m.attrs = m.attrs + [Attribute('zzz', 0)]
        elif what == 'chunks':
            m.chunks = m.chunks + [Dimension('x', 999)]
        elif what == 'block_size_limit':
            m.block_size_limit += 1
        else:
            del m.variables[pick(rng, names)]
        ctx.check(m != md2 and not (m == md2), f'datasets differing by {what} compare equal')
    pp = pickle.loads(pickle.dumps(part))
    ctx.check(part_fields(pp) == part_fields(part), 'the partitioning changed when pickled', got=part_fields(pp))
    # same data through both sessions
    ks = gen.random_keys(rng, spec, 2)
    rows = gen.rows_for(rng, spec, ks, nrows=(1, 5))
    other_place = gen.Place(ctx, rng, (place.kind, ))
    za = collection.Collection(spec.axis, copy.deepcopy(md), spec.partitioning(), other_place.base, mode='w', filesystem=other_place.fs)
    zb = gen.reopen(place, 'w')
    d = chance(rng, .5)
    za.insert(gen.make_dataset(spec, rows, d))
    zb.insert(gen.make_dataset(spec, rows, d))
    for k in ks:
        p = spec.path(k)
        fa, fb = f'{other_place.base}/{p}', f'{place.base}/{p}'
        ra, rb = gen.zarr_rows(other_place.fs, fa), gen.zarr_rows(place.fs, fb)
        ctx.check(set(ra) == set(rb) and set(ra) == {v.name for v in spec.part_vars}, 'the sessions stored other variables')
        for n in ra:
            ctx.check(gen.same(ra[n][0], rb[n][0]) and ra[n][1] == rb[n][1], f'the reopened session stored other values of {n}')
            ja, jb = json.loads(other_place.fs.cat_file(f'{fa}/{n}/.zarray')), json.loads(place.fs.cat_file(f'{fb}/{n}/.zarray'))
            ctx.check(ja == jb, f'the reopened session stored {n} differently', a=ja, b=jb)
            v = md.variables[n]
            ctx.check(ja['dtype'] == np.dtype(v.dtype).str and (ja['compressor'] is None) == (v.compressor is None)
                      and len(ja['filters'] or []) == len(v.filters), f'{n} is not stored as declared', stored=ja)
            ctx.count('stored_definitions_compared')
    la, lb = za.load(delayed=d), zb.load(delayed=d)
    for n in md.variables:
        ctx.check(gen.same(gen.raw(la.variables[n]), gen.raw(lb.variables[n])), f'the sessions load other values of {n}')
        ctx.check(gen.same(gen.raw(lb.variables[n]), rows[n], exact_dtype=False), f'the reopened session loads other values of {n} than those inserted')
        va, vb = la.variables[n], lb.variables[n]
        ctx.check(attr_map(va.attrs) == attr_map(vb.attrs) == attr_map(md.variables[n].attrs), f'the sessions load other attributes of {n}')
        ctx.check(fill_key(va.fill_value, va.dtype) == fill_key(vb.fill_value, vb.dtype), f'the sessions load other fill values of {n}')
        ctx.check(fill_key(vb.fill_value, vb.dtype) == fill_key(md.variables[n].fill_value, vb.dtype), f'fill value of {n}', got=repr(vb.fill_value))
    ctx.check(attr_map(la.attrs) == attr_map(lb.attrs) == attr_map(md.attrs), 'the sessions load other dataset attributes')
    ctx.count('sessions_compared')
    ctx.sample({'variables': [(v.name, np.dtype(v.dtype).str, repr(v.fill_value)) for v in md.variables.values()]})
    place.close()
    other_place.close()
