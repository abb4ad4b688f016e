"""Removal by age: controlled creation times, many time zones, several file systems."""
import datetime, os, time
import zcollection
from .. import agedfs, env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 300, 'thorough': 6000}
ZONES = ['UTC0', 'XXX-14', 'XXX12', 'XXX-5:45', 'XXX+3:30', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'AAA0BBB-2,J1/0,J365/23', 'AAA11', 'AAA-9:30AAB-10:30,M10.1.0,M4.1.0/3']


def setup(ctx, shard):
    return env.make(shard)


def random_zone(rng):
    if chance(rng, .7):
        return pick(rng, ZONES)
    # a change of the local time in the recent past or in the near future
    now = time.gmtime(time.time() + int(pick(rng, [-7000, -1800, -300, 300, 1800, 7000])))
    day = datetime.date(2001, now.tm_mon, min(now.tm_mday, 28) if now.tm_mon == 2 else now.tm_mday).timetuple().tm_yday
    at = f'{now.tm_hour}:{now.tm_min:02d}:{now.tm_sec:02d}'
    if chance(rng, .5):
        return f'AAA0BBB-1,J{day}/{at},J{day % 365 + 1}/{at}'
    return f'AAA0BBB-1,J{(day - 2) % 365 + 1}/{at},J{day}/{at}'


class zone:
    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.tz
        time.tzset()

    def __exit__(self, *exc):
        if self.old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.old
        time.tzset()


def random_age(rng, limit):
    """Seconds, away from the limit by a margin the duration of the run cannot cover."""
    off = float(pick(rng, [100, 600, 2700, 3700, 7300, 5 * 3600, 13 * 3600, 15 * 3600, 27 * 3600, 40 * 86400])) * float(rng.uniform(1, 1.3))
    return limit + (off if chance(rng, .5) else -off)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .2), nvars=(1, 2), codecs=False)
    kind = pick(rng, ['aged', 'aged', 'naive', 'east', 'memory', 'memory_naive', 'real', 'real_memory'])
    place = gen.Place(ctx, rng, ('memory', ) if 'memory' in kind else ('local', ))
    if kind in ('aged', 'naive', 'east'):
        place.fs = {'aged': agedfs.AgedFS, 'naive': agedfs.NaiveFS, 'east': agedfs.EastFS}[kind]()
    with zone(random_zone(rng)):
        ctx.log('zone', os.environ['TZ'], kind)
        zc, model = gen.populate(ctx, rng, spec, place, nparts=(2, 7), nrows=(1, 3))
        if chance(rng, .3):
            zc = gen.reopen(place, 'w')
        base = zc.partition_properties.dir
        limit = float(pick(rng, [0, -5000, 1, 60, 3600, 5400, 86400, 86400 * 30, 200000.5, 7200, 36000]))
        ages = {}
        if kind.startswith('real'):
            limit = float(pick(rng, [0, 0, -60, 3600, 86400 * 400, 600]))
            ages = {k: .01 for k in model.parts}            # created a moment ago
            time.sleep(.02)
        else:
            now = time.time()
            for k in model.parts:
                # a limit in the past concerns partitions created in the past
                ages[k] = abs(random_age(rng, limit)) + 60 if limit <= 0 else random_age(rng, limit)
                if limit == 0 and chance(rng, .4):
                    ages[k] = -ages[k]                       # a clock that is ahead: not older than anything
                t = now - ages[k]
                path = f'{place.base}/{spec.path(k)}'
                if 'memory' in kind:
                    for f in place.fs.find(path):
                        d = datetime.datetime.fromtimestamp(t, tz=datetime.timezone.utc)
                        place.fs.store[f].created = d.replace(tzinfo=None) if kind == 'memory_naive' else d
                else:
                    agedfs.TIMES[path] = t
        try:
            flt, pred, fkind = gen.random_filter(rng, spec, model.keys())
            sel = model.keys(pred)
            want = [k for k in sel if ages[k] > limit]
            keep = [k for k in model.keys() if k not in want]
            ctx.log('drop', fkind, limit, {spec.path(k): round(ages[k], 1) for k in sel})
            before = place.snap()
            kw = {} if flt is None and chance(rng, .5) else {'filters': flt}
            got = list(zc.drop_partitions(timedelta=datetime.timedelta(seconds=limit), **kw))
            ctx.check(sorted(got) == sorted(f'{base}/{spec.path(k)}' for k in want), 'dropped partitions', zone=os.environ['TZ'], limit=limit, got=got, want=[spec.path(k) for k in want],
                      ages={spec.path(k): ages[k] for k in sel}, fs=kind)
            ctx.check(list(zc.partitions(relative=True)) == [spec.path(k) for k in keep], 'partitions left', got=list(zc.partitions(relative=True)), want=[spec.path(k) for k in keep])
            now_ = place.snap()
            gone = tuple(spec.path(k) for k in want)
            stays = lambda p: not any(p == g or p.startswith(g + '/') for g in gone)
            lost = [p for p, h in before.items() if h is not None and stays(p) and now_.get(p) != h]
            ctx.check(not lost and not [p for p in now_ if not stays(p) or p not in before], 'files after the removal', lost=lost[:9], left=[p for p in now_ if not stays(p) or p not in before][:9])
            zds = gen.reopen(place, 'r').load(delayed=False)
            if keep:
                ok = frozenset(keep)
                gen.check_dataset(ctx, 'partitions left', spec, zds, model.expect(lambda d: tuple(d[n] for n in spec.key_names) in ok), codecs=False)
            else:
                ctx.check(zds is None, 'loaded after dropping everything')
            ctx.check(list(zc.drop_partitions(timedelta=datetime.timedelta(seconds=limit), **kw)) == [], 'dropped again')
            ctx.check(place.snap() == now_, 'a second removal changed the collection')
            ctx.count('removals')
            ctx.count('dropped', len(want))
            ctx.count('kept_young', len([k for k in sel if k not in want]))
            ctx.count('near_the_offset', len([k for k in sel if abs(ages[k] - limit) < 15 * 3600]))
            ctx.count('fs_' + kind)
            ctx.sig(kind, os.environ['TZ'].split(',')[0] if ',J' not in os.environ['TZ'] else 'changing', fkind, limit)
        finally:
            agedfs.TIMES.clear()
    place.close()
