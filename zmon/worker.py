"""One shard of a check: python -m zmon.worker PROP TIER SEED SHARD NSHARDS SCRATCH OUT [CASE]"""
from __future__ import annotations
import importlib, json, os, pathlib, shutil, sys, threading, time, traceback, warnings, logging


def drop_privileges():
    if os.geteuid() == 0 and os.environ.get('ZMON_UID'):
        uid = int(os.environ['ZMON_UID'])
        try:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
        except OSError:
            pass


INFRA = ('CommClosedError', 'TimeoutError', 'MemoryError', 'KilledWorker', 'CancelledError', 'FutureCancelledError', 'ClosedClientError')


def is_infra(exc):
    if isinstance(exc, MemoryError):
        return True
    if isinstance(exc, OSError) and getattr(exc, 'errno', None) in (12, 23, 24, 28) and not getattr(exc, 'zmon_injected', False):
        return True
    return type(exc).__name__ in INFRA


def main():
    prop, tier, seed, shard, nshards, scratch, out = sys.argv[1:8]
    only = [int(c) for c in sys.argv[8].split(',')] if len(sys.argv) > 8 else None
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    drop_privileges()
    os.chdir(scratch)
    sys.path.insert(0, os.environ.get('ZMON_REPO', '/repo'))
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from zmon import core, cov
    cov.start(os.path.realpath(os.environ.get('ZMON_REPO', '/repo')))
    mod = importlib.import_module(f'zmon.props.{prop.lower()}')
    ctx = core.Ctx(prop, tier, seed, scratch)
    limits = getattr(mod, 'LIMITS', {})
    case_limit = limits.get('case', 150)
    deadline = time.time() + limits.get(tier, 240 if tier == 'quick' else 2400)
    total = mod.CASES[tier]
    done = 0
    state = {'case': None, 't': time.time(), 'fin': False}

    def dump(status, extra=None):
        data = {
            'status': status, 'shard': shard, 'done': done, 'planned': planned,
            'counters': dict(ctx.counters), 'sigs': sorted(ctx.sigs), 'samples': ctx.samples,
            'violations': ctx.violations, 'findings': ctx.findings, 'lines': cov.lines(),
        }
        if extra:
            data.update(extra)
        tmp = out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(data, f)
        os.replace(tmp, out)

    def watchdog():
        while not state['fin']:
            time.sleep(1)
            if state['case'] is not None and time.time() - state['t'] > case_limit:
                stacks = []
                for tid, frame in sys._current_frames().items():
                    stacks.append(''.join(traceback.format_stack(frame)[-6:]))
                dump('hang', {'case': state['case'], 'stacks': stacks[:12], 'trace': ctx.trace[-40:]})
                os._exit(3)

    cases = only if only is not None else list(range(shard, total, nshards))
    planned = len(cases)
    if not cases:
        dump('ok')
        return
    threading.Thread(target=watchdog, daemon=True).start()
    from zmon import audit
    guard = audit.armed((), allowed=[os.path.dirname(scratch), '/dev', '/proc'])
    guard.__enter__()  # last line of defence, stays armed for the whole process
    env = mod.setup(ctx, shard) if hasattr(mod, 'setup') else None
    infra = 0
    for case in cases:
        if time.time() > deadline:
            break
        for attempt in (0, 1, 2):
            ctx.begin(case)
            state['case'], state['t'] = case, time.time()
            with open(out + '.case', 'w') as stream:
                stream.write(str(case))
            try:
                mod.run(ctx, env)
                ctx.counters['cases'] += 1
            except core.Violation as v:
                ctx.violations.append({'case': case, 'msg': v.msg, 'detail': core.jsonable(v.detail), 'trace': ctx.trace[-60:],
                                       'tb': traceback.format_exc()[-2500:]})
            except core.Inconclusive as e:
                ctx.counters['inconclusive_cases'] += 1
            except BaseException as e:  # noqa: B902
                if isinstance(e, KeyboardInterrupt):
                    raise
                if is_infra(e) and attempt < 2:
                    infra += 1
                    ctx.counters['infra_retries'] += 1
                    state['case'] = None
                    if env is not None and hasattr(env, 'restart'):
                        env.restart()
                    continue
                ctx.violations.append({'case': case, 'msg': f'unexpected {type(e).__name__}: {str(e)[:600]}', 'detail': {},
                                       'trace': ctx.trace[-60:], 'tb': traceback.format_exc()[-4000:]})
            break
        state['case'] = None
        done += 1
        for p in pathlib.Path(scratch).iterdir():
            if p.name.startswith('keep'):
                continue
            if p.is_dir() and not p.is_symlink():
                shutil.rmtree(p, ignore_errors=True)
        if len(ctx.violations) >= 3:
            break
        if 'ZMON_STOP' in os.environ:     # stop all the workers at the first violation (tools only)
            flag = pathlib.Path(out).with_name('stop')
            if ctx.violations:
                flag.touch()
            if flag.exists():
                break
    state['fin'] = True
    dump('ok')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
