"""Exploration engine.

A check is a module with

    ID          property id
    TECHNIQUE   one line
    BOUNDS      dict tier -> human readable description of the bound
    RULE        what a case is and which oracle decides it
    ASSUMPTIONS list of str
    cases(tier) generator of JSON-able case descriptors, simplest first, deterministic
    run(case, env) -> Obs     executes the case on the real code and compares with the model;
                              raises Violation if they disagree
    (optional) finish(stats, env)  cross-case obligations, run once in the parent process
    (optional) render(case) -> str human readable form for replay files

All cases of the generator are executed: worker r of n takes the cases with index % n == r.  The
violation that is reported is the one with the smallest index, i.e. the simplest one.
"""
import contextlib
import functools
import glob
import hashlib
import itertools
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Violation(Exception):
    """the real code disagrees with the model"""


class Hang(Exception):
    """a single execution did not return"""


class Obs:
    """what one execution contributed to the coverage"""

    __slots__ = ('states', 'transitions', 'outcome', 'known', 'sample')

    def __init__(self, states=(), transitions=1, outcome=None, known=(), sample=None):
        self.states = states            # canonical states visited
        self.transitions = transitions  # steps executed on the real code
        self.outcome = outcome          # what was observed (to show that cases do not collapse)
        self.known = known              # (known finding id, detail) pairs seen in this execution
        self.sample = sample


def h64(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


class Env:
    """The closed world an execution runs in: a scratch directory, pristine constants, clean caches."""

    def __init__(self, base: str, rank: int) -> None:
        self.root = os.path.join(base, f'w{rank}')
        os.makedirs(self.root, exist_ok=True)
        self._files = []
        self._content = {}
        import oelint_parser.cls_item
        import oelint_parser.cls_stash
        import oelint_parser.constants
        self.item = oelint_parser.cls_item
        self.stash_mod = oelint_parser.cls_stash
        self.constants = oelint_parser.constants
        self.Stash = oelint_parser.cls_stash.Stash
        self.CONSTANTS = oelint_parser.constants.CONSTANTS
        with open(oelint_parser.constants.DEFAULT_DB) as i:
            self._db = i.read()
        self._db_keys = json.loads(self._db)
        self._dirty_constants = False

    # -- files ------------------------------------------------------------------------------------
    def path(self, name: str) -> str:
        return os.path.join(self.root, name)

    def write(self, name: str, text: str) -> str:
        """create a file below the scratch directory"""
        p = os.path.join(self.root, name)
        if self._content.get(p) != text:
            d = os.path.dirname(p)
            if not os.path.isdir(d):
                os.makedirs(d)
            with open(p, 'w', newline='') as o:
                o.write(text)
            if p not in self._content:
                self._files.append(p)
            self._content[p] = text
        return p

    def drop_files(self) -> None:
        for p in self._files:
            with contextlib.suppress(FileNotFoundError):
                os.unlink(p)
        self._files = []
        self._content = {}

    def wipe(self) -> None:
        """remove everything in the scratch directory"""
        for x in os.listdir(self.root):
            p = os.path.join(self.root, x)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        self._files = []
        self._content = {}

    # -- library ----------------------------------------------------------------------------------
    def stash(self, **kwargs):
        kwargs.setdefault('quiet', True)
        return self.Stash(**kwargs)

    def clear_caches(self) -> None:
        """forget every memoised result (they keep whole stashes alive)"""
        for v in list(vars(self.Stash).values()):
            f = getattr(v, 'cache_clear', None)
            if f:
                f()

    def reset_constants(self) -> None:
        """pristine constant database, through the public interface"""
        self.CONSTANTS.OverrideConstants(json.loads(self._db))

    def end(self) -> None:
        """after an execution"""
        self.clear_caches()


def fresh(fn):
    """result of a function that runs in a process of its own, which leaves no trace in this one; exceptions count as results"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_PROF, 60)
        try:
            try:
                res = (True, fn())
            except Exception as e:  # noqa: B902
                res = (False, str(e) if isinstance(e, Violation) else f'raised {type(e).__name__}: {e}')
            with os.fdopen(w, 'wb') as o:
                pickle.dump(res, o)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, 'the process died')


def _alarm(_sig, _frm):
    raise Hang()


def execute(mod, case, env, limit=40.0):
    """one execution, with a CPU time guard"""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        return mod.run(case, env)
    except Hang:
        raise Violation(f'did not return within {limit:.0f} s of CPU time')
    except Violation:
        raise
    except (Exception, RecursionError) as e:  # noqa: B902 - anything the library raises is an observation
        if getattr(e, 'harness', False):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        if any('/oelint_parser/' in f.filename for f in tb):
            last = [f for f in tb if '/oelint_parser/' in f.filename][-1]
            raise Violation(f'raised {type(e).__name__}: {str(e)[:300]} '
                            f'({os.path.basename(last.filename)}: {last.name})') from e
        # the harness called something that is not there or got an unusable value back
        last = tb[-1]
        raise Violation(f'unusable answer: {type(e).__name__}: {str(e)[:300]} '
                        f'({os.path.basename(last.filename)}:{last.lineno})') from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        env.end()


def _worker(mod, tier, rank, n, base, deadline, minidx, cur, queue):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    out = {'rank': rank, 'execs': 0, 'transitions': 0, 'states': set(), 'outcomes': set(), 'violation': None,
           'known': {}, 'samples': [], 'capped': False, 'total': 0, 'error': None}
    try:
        env = Env(base, rank)
        if hasattr(mod, 'prepare'):
            mod.prepare(env)
        nsamples = 0
        for idx, case in enumerate(mod.cases(tier)):
            out['total'] = idx + 1
            if idx % n != rank:
                continue
            if idx > minidx.value:
                break
            if time.time() > deadline:
                out['capped'] = True
                break
            cur[rank * 2] = idx
            cur[rank * 2 + 1] = int(time.time())
            try:
                obs = execute(mod, case, env)
            except Violation as e:
                out['violation'] = (idx, case, str(e))
                with minidx.get_lock():
                    minidx.value = min(minidx.value, idx)
                break
            out['execs'] += 1
            out['transitions'] += obs.transitions
            for s in obs.states:
                out['states'].add(h64(s))
            if obs.outcome is not None:
                out['outcomes'].add(h64(obs.outcome))
            for kid, detail in obs.known:
                e = out['known'].setdefault(kid, [0, idx, detail])
                e[0] += 1
            if obs.sample is not None or (nsamples < 3 and idx > 50 * (nsamples + 1)) or not nsamples:
                nsamples += 1
                if nsamples <= 3:
                    out['samples'].append({'index': idx, 'case': case,
                                           'observed': repr(obs.outcome if obs.sample is None else obs.sample)[:600]})
    except BaseException:  # noqa: B902
        out['error'] = traceback.format_exc()
    cur[rank * 2 + 1] = 0
    out['states'] = list(out['states'])
    out['outcomes'] = list(out['outcomes'])
    queue.put(out)


def load_known(pid):
    try:
        with open(KNOWN) as i:
            return [x for x in json.load(i)['findings'] if x['property'] == pid]
    except FileNotFoundError:
        return []


def write_replay(mod, case, msg):
    os.makedirs(REPLAYS, exist_ok=True)
    name = f'{mod.ID}-{h64(case):016x}.json'
    p = os.path.join(REPLAYS, name)
    with open(p, 'w') as o:
        json.dump({'property': mod.ID, 'message': msg, 'case': case,
                   'human': mod.render(case) if hasattr(mod, 'render') else None,
                   'replay': f'bash check.sh {mod.ID} --replay {os.path.relpath(p, VERIF)}'}, o, indent=1)
    return p


def scratch_base():
    for d in ('/dev/shm', None):
        try:
            return tempfile.mkdtemp(prefix='mc-', dir=d)
        except OSError:
            continue
    raise RuntimeError('no scratch directory')


def _sweep():
    """scratch directories of runs that were killed"""
    for d in glob.glob('/dev/shm/mc-*'):
        with contextlib.suppress(OSError, ValueError):
            with open(os.path.join(d, 'pid')) as i:
                pid = int(i.read())
            if not os.path.exists(f'/proc/{pid}'):
                shutil.rmtree(d, ignore_errors=True)


def run_check(mod, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    _sweep()
    base = scratch_base()
    with open(os.path.join(base, 'pid'), 'w') as o:
        o.write(str(os.getpid()))
    try:
        return _run_check(mod, tier, replay, t0, seed, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run_check(mod, tier, replay, t0, seed, base):
    if replay:
        with open(replay) as i:
            case = json.load(i)['case']
        env = Env(base, 0)
        if hasattr(mod, 'prepare'):
            mod.prepare(env)
        try:
            obs = execute(mod, case, env)
        except Violation as e:
            print(f'reproduced: {e}')
            print(f'VIOLATION property={mod.ID} replay={replay}')
            return 1
        print('not reproduced', repr(obs.outcome)[:2000])
        return 0

    budget = float(os.environ.get('VERIF_BUDGET') or getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 5400))
    deadline = t0 + budget
    n = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))
    ctx = multiprocessing.get_context('fork')
    minidx = ctx.Value('q', 1 << 60)
    cur = ctx.Array('q', 2 * n, lock=False)
    queue = ctx.Queue()
    sys.stdout.flush()
    procs = [ctx.Process(target=_worker, args=(mod, tier, r, n, base, deadline, minidx, cur, queue), daemon=True)
             for r in range(n)]
    for p in procs:
        p.start()
    results = {}
    hung = None
    while len(results) < n:
        try:
            r = queue.get(timeout=1)
            results[r['rank']] = r
            continue
        except Exception:  # noqa: B902, S110 - queue.Empty
            pass
        now = time.time()
        for r, p in enumerate(procs):
            if r in results:
                continue
            if cur[r * 2 + 1] and now - cur[r * 2 + 1] > 240:
                hung = (cur[r * 2], 'did not return within 240 s')
                p.kill()
                results[r] = None
            elif not p.is_alive() and queue.empty():
                time.sleep(0.5)
                if queue.empty():
                    hung = (cur[r * 2], f'the process died (exit code {p.exitcode})')
                    results[r] = None
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    errors = [r['error'] for r in results.values() if r and r['error']]
    if errors:
        sys.stderr.write(errors[0])
        return 2
    viol = None
    for r in results.values():
        if r and r['violation'] and (viol is None or r['violation'][0] < viol[0]):
            viol = r['violation']
    if hung and (viol is None):
        case = next(itertools.islice(mod.cases(tier), hung[0], None))
        viol = (hung[0], case, hung[1])
    ok = [r for r in results.values() if r]
    stats = {
        'execs': sum(r['execs'] for r in ok),
        'transitions': sum(r['transitions'] for r in ok),
        'states': set().union(*[r['states'] for r in ok]) if ok else set(),
        'outcomes': set().union(*[r['outcomes'] for r in ok]) if ok else set(),
        'known': {},
        'capped': any(r['capped'] for r in ok),
    }
    for r in ok:
        for k, (c, idx, d) in r['known'].items():
            e = stats['known'].setdefault(k, [0, idx, d])
            e[0] += c
            if idx < e[1]:
                e[1:] = [idx, d]
    extra = {}
    if viol is None and hasattr(mod, 'finish'):
        env = Env(base, 99)
        try:
            extra = mod.finish(tier, stats, env) or {}
        except Violation as e:
            viol = (-1, getattr(e, 'case', {'finish': True}), str(e))
    samples = sorted((s for r in ok for s in r['samples']), key=lambda s: s['index'])[:6]
    rc = 0
    if viol is not None:
        rc = 1
    evidence = {
        'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(stats['states']),
            'transitions': stats['transitions'],
            'traces_validated_against_impl': stats['execs'],
            'distinct_outcomes': len(stats['outcomes']),
            'exhaustive': not stats['capped'] and viol is None,
            'time_cap_hit': stats['capped'],
            'bound': mod.BOUNDS[tier],
            'rule': mod.RULE,
            'samples': samples or [{'note': 'violation found before the first sample'}],
            **extra,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': 0 if rc == 0 else 1,
    }
    known = {k['id']: k for k in load_known(mod.ID)}
    if stats['known']:
        evidence['coverage']['known_findings_seen'] = {
            k: {'executions': c, 'first_index': i, 'first': d} for k, (c, i, d) in stats['known'].items()}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{mod.ID}.json'), 'w') as o:
        json.dump(evidence, o, indent=1, default=str)
    for k in sorted(stats['known']):
        print(f'KNOWN-FINDING: property={mod.ID} {known[k]["what"]}')
    c = evidence['coverage']
    print(f'{mod.ID} tier={tier} seed={seed}: states={c["states"]} transitions={c["transitions"]} '
          f'executions={c["traces_validated_against_impl"]} outcomes={c["distinct_outcomes"]} '
          f'exhaustive={c["exhaustive"]} wall={evidence["wall_s"]}s')
    if viol is not None:
        p = write_replay(mod, viol[1], viol[2])
        print(f'  {viol[2]}')
        if hasattr(mod, 'render'):
            print('  ' + mod.render(viol[1]).replace('\n', '\n  '))
        print(f'VIOLATION property={mod.ID} replay={p}')
    return rc
