"""Validation against an independent read of each partition, after damage injected in the stored files."""
import json, os, warnings
import numcodecs, numpy as np, zarr
from .. import env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 150, 'thorough': 3500}


def setup(ctx, shard):
    return env.make(shard)


def readable(fs, path):
    """What a reader of the stored data meets: (every declared array can be read, as a whole and chunk by chunk; error; both agree)."""
    outcomes = []
    for whole in (True, False):
        try:
            md = json.loads(fs.cat_file(f'{path}/.zmetadata'))['metadata']
            group = zarr.open_consolidated(fs.get_mapper(path), mode='r')
            for key in md:
                if not key.endswith('/.zarray'):
                    continue
                arr = group[key[:-len('/.zarray')]]
                if whole or not arr.shape:
                    arr[...]
                    continue
                grid = [range(0, s, c) for s, c in zip(arr.shape, arr.chunks)]
                for corner in np.ndindex(*[len(g) for g in grid]):
                    arr[tuple(slice(g[i], g[i] + c) for g, i, c in zip(grid, corner, arr.chunks))]
            outcomes.append((True, ''))
        except Exception as exc:            # noqa: whatever the reader meets
            outcomes.append((False, f'{type(exc).__name__}: {exc}'))
    return outcomes[0] + (outcomes[0][0] == outcomes[1][0], )


def damage(ctx, rng, place, path, spec):
    """Damages one file of a partition."""
    fs = place.fs
    files = sorted(f for f in fs.find(path))
    chunks = [f for f in files if not os.path.basename(f).startswith('.')]
    kinds = ['truncate', 'empty', 'garbage', 'flip', 'metadata', 'metadata_gone', 'append', 'shape', 'meta_file', 'missing_chunk', 'variable_gone', 'codec', 'dtype']
    if place.kind == 'local':
        kinds += ['unreadable', 'unreadable_dir', 'directory', 'unreadable']
    kind = pick(rng, kinds)
    if kind in ('truncate', 'empty', 'garbage', 'flip', 'append', 'missing_chunk', 'unreadable', 'directory') and not chunks:
        kind = 'metadata'
    target = pick(rng, chunks) if chunks else None
    ctx.log('damage', kind, os.path.relpath(target, path) if target else '')
    if kind == 'truncate':
        data = fs.cat_file(target)
        fs.pipe_file(target, data[:int(rng.integers(0, max(len(data), 1)))])
    elif kind == 'empty':
        fs.pipe_file(target, b'')
    elif kind == 'garbage':
        fs.pipe_file(target, rng.bytes(int(rng.integers(1, 64))))
    elif kind == 'append':
        fs.pipe_file(target, fs.cat_file(target) + rng.bytes(int(rng.integers(1, 9))))
    elif kind == 'flip':
        data = bytearray(fs.cat_file(target))
        if data:
            i = int(rng.integers(len(data)))
            data[i] ^= 1 << int(rng.integers(8))
        fs.pipe_file(target, bytes(data))
    elif kind == 'missing_chunk':
        fs.rm_file(target)
    elif kind == 'unreadable':
        os.chmod(target, 0)
    elif kind == 'unreadable_dir':
        os.chmod(f'{path}/{pick(rng, spec.part_vars).name}', 0)
    elif kind == 'directory':
        os.remove(target)
        os.mkdir(target)
    elif kind == 'metadata':
        fs.pipe_file(f'{path}/.zmetadata', pick(rng, [b'', b'{', b'[]', b'{"metadata": {}}', b'\xff\xfe\x00', b'{"zarr_consolidated_format": 9, "metadata": {}}', b'null']))
    elif kind == 'metadata_gone':
        fs.rm_file(f'{path}/.zmetadata')
    elif kind == 'meta_file':
        f = pick(rng, [f for f in files if os.path.basename(f) in ('.zarray', '.zgroup', '.zattrs')])
        fs.rm_file(f) if chance(rng, .5) else fs.pipe_file(f, b'{')
    elif kind == 'variable_gone':
        fs.rm(f'{path}/{pick(rng, spec.part_vars).name}', recursive=True)
    else:
        md = json.loads(fs.cat_file(f'{path}/.zmetadata'))
        name = pick(rng, spec.part_vars).name
        z = md['metadata'][f'{name}/.zarray']
        if kind == 'shape':
            z['chunks'] = [c + 3 for c in z['chunks']]
        elif kind == 'dtype':
            z['dtype'] = pick(rng, ['<f8', '|i1', '<q9', 'nothing'])
        else:
            z['compressor'] = pick(rng, [{'id': 'nothing'}, {'id': 'zlib', 'level': 1}, None, {'id': 'lz4', 'acceleration': 1}])
        fs.pipe_file(f'{path}/.zmetadata', json.dumps(md).encode())
    return kind


def heal(place):
    """Directories must be removable again."""
    if place.kind == 'local':
        for base, dirs, files in os.walk(place.base):
            for d in dirs:
                os.chmod(f'{base}/{d}', 0o755)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .2), nvars=(1, 4))
    place = gen.Place(ctx, rng, ('local', 'local', 'local', 'memory'))
    zc, model = gen.populate(ctx, rng, spec, place, nparts=(1, 7), nrows=(1, 9))
    base = zc.partition_properties.dir
    names = spec.key_names
    keys = model.keys()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.check(zc.validate_partitions() == [], 'an intact collection was reported')
        chosen = [k for k in keys if chance(rng, pick(rng, [.2, .6, 1.]))]
        kinds = {}
        for k in chosen:
            path = f'{place.base}/{spec.path(k)}'
            kinds[k] = [damage(ctx, rng, place, path, spec)]
            if chance(rng, .2):
                try:
                    kinds[k].append(damage(ctx, rng, place, path, spec))
                except (OSError, KeyError, ValueError, TypeError, AttributeError, IndexError):
                    pass            # nothing left to damage there
        states = {k: readable(place.fs, f'{place.base}/{spec.path(k)}') for k in keys}
        if not all(s[2] for s in states.values()):
            ctx.count('ambiguous')          # some codecs notice the damage when the whole array is read only: both answers are right
            return heal(place)
        bad = [k for k in keys if not states[k][0]]
        ctx.count('damaged', len(chosen))
        ctx.count('unreadable', len(bad))
        ctx.count('harmless_damage', len([k for k in chosen if states[k][0]]))
        ctx.check(set(bad) <= set(chosen), 'the harness damaged another partition', bad=bad)
        for k in chosen:
            for kd in kinds[k]:
                ctx.sig(kd, states[k][0], place.kind)
        flt, pred, fkind = gen.random_filter(rng, spec, keys, ('none', 'none', 'str', 'func', 'set', 'empty'))
        sel = model.keys(pred)
        want = {f'{base}/{spec.path(k)}' for k in bad if k in sel}
        ctx.log('filter', fkind, [spec.path(k) for k in sel], 'unreadable', {spec.path(k): states[k][1][:60] for k in bad})
        reader = gen.reopen(place, pick(rng, ['r', 'w'])) if chance(rng, .6) else zc
        before = place.snap()
        for _ in range(2):
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter('always')
                got = reader.validate_partitions(filters=flt)
            ctx.check(len(got) == len(set(got)) and set(got) == want, 'reported partitions', got=sorted(got), want=sorted(want),
                      why={spec.path(k): states[k][1] for k in bad}, damage={spec.path(k): kinds[k] for k in chosen})
            warned = [str(w.message) for w in seen if issubclass(w.category, RuntimeWarning) and 'partition' in str(w.message).lower()]
            ctx.check(all(any(p in m for m in warned) for p in want), 'a reported partition comes without warning', got=warned, want=sorted(want))
            ctx.count('validations')
        ctx.check(place.snap() == before, 'validation modified the collection', diff=tree.diff(before, place.snap()))
        # what was reported valid can be loaded
        good = [k for k in sel if states[k][0]]
        if good:
            ok = frozenset(good)
            zds = zc.load(filters=lambda d: tuple(d[n] for n in names) in ok, delayed=False) if not any('dtype' in kinds.get(k, ()) or 'variable_gone' in kinds.get(k, ())
                                                                                               or 'shape' in kinds.get(k, ()) or 'codec' in kinds.get(k, ()) or 'metadata' in kinds.get(k, ()) for k in good) else None
            if zds is not None:
                intact = [k for k in good if k not in chosen]
                if len(intact) == len(good):
                    gen.check_dataset(ctx, 'valid partitions', spec, zds, model.expect(lambda d: tuple(d[n] for n in names) in ok), codecs=False)
                    ctx.count('loaded')
        # removal
        writer = gen.reopen(place, 'w') if chance(rng, .5) else zc
        if chance(rng, .2):
            ro = gen.reopen(place, 'r')
            ctx.expect_raises(Exception, lambda: ro.validate_partitions(filters=flt, fix=True), 'partitions removed by a read-only session')
            ctx.check(place.snap() == before, 'a read-only session modified the collection')
        if place.kind == 'local' and any('unreadable_dir' in kinds.get(k, ()) for k in bad):
            heal(place)         # an unprivileged user cannot remove them
            ctx.count('healed')
            return
        got = writer.validate_partitions(filters=flt, fix=True)
        ctx.check(set(got) == want and len(got) == len(want), 'removed partitions', got=sorted(got), want=sorted(want))
        gone = [k for k in bad if k in sel]
        left = [k for k in keys if k not in gone]
        now = place.snap()
        stays = lambda p: not any(p == spec.path(k) or p.startswith(spec.path(k) + '/') for k in gone)
        lost = [p for p, h in before.items() if h is not None and stays(p) and now.get(p) != h]
        ctx.check(not lost, 'fixing modified other files', lost=lost[:9])
        ctx.check(not [p for p in now if not stays(p)], 'fixing left files of the removed partitions', got=[p for p in now if not stays(p)][:9])
        ctx.check(not [p for p in now if p not in before], 'fixing created files', got=[p for p in now if p not in before][:9])
        ctx.check(list(writer.partitions(relative=True)) == [spec.path(k) for k in left], 'partitions after fixing', got=list(writer.partitions(relative=True)))
        ctx.count('removed', len(gone))
        ctx.check(writer.validate_partitions(filters=flt) == [], 'validation after fixing')
        ctx.check(gen.reopen(place, 'r').validate_partitions(filters=flt) == [], 'validation after fixing, in a new session')
        if all(states[k][0] and k not in chosen for k in left):
            zds = writer.load(delayed=chance(rng, .5))
            if left:
                keep = frozenset(left)
                gen.check_dataset(ctx, 'after fixing', spec, zds, model.expect(lambda d: tuple(d[n] for n in names) in keep), codecs=False)
                ctx.count('loaded')
            else:
                ctx.check(zds is None, 'loaded after fixing everything', got=zds)
        # the removed partitions can be inserted again
        if gone and chance(rng, .5):
            rows = spec.concat(model.parts[k] for k in gone) if len(gone) > 1 else dict(model.parts[gone[0]])
            if model.fixed:
                rows = dict(rows, **model.fixed)
            writer.insert(gen.make_dataset(spec, rows, False))
            ctx.check(not [p for p in writer.validate_partitions() if any(p.endswith(spec.path(k)) for k in gone)], 'reinserted partitions are reported')
            ctx.count('reinserted')
    heal(place)
    place.close()
