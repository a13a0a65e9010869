"""Runner shared by all checks: sharded, seeded, shrinking generated-input search.

A check module (``checks/cNN.py``) defines

* ``PROPERTY``: id, ``RULE``: what makes a case non-trivial,
* ``SUBS``: list of :class:`Sub`. Every sub-check owns a Hypothesis strategy which
  produces *plain literals* (a "case") and a function deciding the case against an
  oracle. Because cases are literals, a shrunk failure is stored as text and is
  replayed without Hypothesis.
* optionally ``FINDINGS``: callables that demonstrate recorded known findings.
"""
import argparse
import collections
import dataclasses
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, List, Optional


CPU_LIMIT = 15.0      # per case, seconds of CPU: a normal case takes milliseconds
WALL_LIMIT = 120.0    # per case, seconds: only reached by a blocked case
MEMORY_LIMIT = 3 << 30


class Violation(AssertionError):
    """The property does not hold for the case."""


class Reject(Exception):
    """The case is outside of the domain of the property."""


class _Hang(BaseException):
    pass


@dataclasses.dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]
    fn: Callable[[Any, 'Ctx'], None]
    quick: int = 2000
    thorough: int = 100000
    # optional explicitly enumerated cases, run before generation (in shard 0)
    cases: Optional[Callable[[], list]] = None


class Stats:

    def __init__(self):
        self.evaluations = 0
        self.rejected = 0
        self.labels = collections.Counter()
        self.hashes = set()
        self.samples = []
        self.frozen = False


class Ctx:
    """Handed to the decision function of a sub-check."""

    def __init__(self, stats=None, tmp=None):
        self.labels = set()
        self.is_nontrivial = False
        self._tmp = tmp

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True

    def reject(self):
        raise Reject

    def scratch(self):
        """An empty scratch directory for this case."""
        path = os.path.join(self._tmp or tempfile.gettempdir(), 'case')
        if os.path.isdir(path):
            shutil.rmtree(path)
        os.makedirs(path)
        return path

    def fail(self, *message):
        raise Violation(' '.join(map(str, message)))

    def check(self, condition, *message):
        if not condition:
            self.fail(*message)


def _on_alarm(signum, frame):
    raise _Hang(f'signal {signum}')


def _arm(cpu, wall):
    signal.setitimer(signal.ITIMER_PROF, cpu)
    signal.setitimer(signal.ITIMER_REAL, wall)


def execute(sub, case, ctx, reset):
    """Run one case. Raises ``Violation`` (or whatever the code raised) on failure."""
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    cwd = os.getcwd()
    try:
        reset()
        _arm(CPU_LIMIT, WALL_LIMIT)
        try:
            sub.fn(case, ctx)
        finally:
            _arm(0, 0)
    except _Hang as err:
        raise Violation(f'the operation did not terminate ({err})') from None
    except RecursionError:
        raise Violation('RecursionError: ' + traceback.format_exc(limit=-4)) from None
    finally:
        os.chdir(cwd)


def _derive_seed(*parts):
    text = '/'.join(map(str, parts))
    return int(hashlib.sha256(text.encode()).hexdigest()[:15], 16)


def _case_hash(sub, case):
    return hashlib.sha1(f'{sub.name}:{case!r}'.encode('utf-8', 'surrogatepass')).digest()[:10]


def run_job(sub, shard, examples, seed, tmp, reset):
    """Generated search of one shard of one sub-check. Returns (stats, failure)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25

    stats = Stats()
    failures = []

    def one(case):
        ctx = Ctx(tmp=tmp)
        try:
            execute(sub, case, ctx, reset)
        except Reject:
            if not failures:
                stats.evaluations += 1
                stats.rejected += 1
            hypothesis.reject()
        except Exception as err:
            message = str(err) if isinstance(err, Violation) else traceback.format_exc()
            failures.append((case, message))
            raise
        finally:
            if ctx.labels or ctx.is_nontrivial or not failures:
                pass
        if failures:
            return
        stats.evaluations += 1
        stats.labels.update(ctx.labels)
        if ctx.is_nontrivial:
            digest = _case_hash(sub, case)
            if digest not in stats.hashes:
                stats.hashes.add(digest)
                if len(stats.samples) < 3 or (
                    len(stats.samples) < 6 and len(stats.hashes) % 97 == 0
                ):
                    stats.samples.append({
                        'sub': sub.name,
                        'case': repr(case)[:1500],
                        'labels': sorted(ctx.labels),
                    })

    if sub.cases is not None and shard == 0:
        for case in sub.cases():
            try:
                one(case)
            except hypothesis.errors.UnsatisfiedAssumption:
                continue
            except Exception:
                return stats, failures[-1]

    if examples:
        test = hypothesis.given(sub.strategy())(one)
        test = hypothesis.seed(seed)(test)
        test = settings(
            max_examples=examples,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )(test)
        try:
            test()
        except hypothesis.errors.Unsatisfiable:
            pass
        except Exception:
            if not failures:
                raise
        if failures:
            return stats, failures[-1]
    return stats, None


def _child(sub, shard, examples, seed, tmp, reset, out):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    sys.stdin = open(os.devnull)
    result = {}
    try:
        os.makedirs(tmp)
        os.chdir(tmp)
        stats, failure = run_job(sub, shard, examples, seed, tmp, reset)
        result = {'stats': stats, 'failure': failure}
    except BaseException:
        result = {'error': traceback.format_exc()}
    with open(out + '.part', 'wb') as fp:
        pickle.dump(result, fp)
    os.rename(out + '.part', out)
    os._exit(0)


# --------------------------------------------------------------------------- main


def _literal(text):
    return eval(  # noqa: S307 (our own replay files)
        text,
        {'__builtins__': {}, 'inf': float('inf'), 'nan': float('nan'), 'frozenset': frozenset, 'set': set},
    )


def _load(prop):
    return importlib.import_module(f'checks.{prop.lower()}')


def _reset_fn():
    from vlib import state
    return state.reset


def _check_import(repo):
    import marsh
    where = os.path.realpath(os.path.dirname(marsh.__file__))
    if where != os.path.realpath(os.path.join(repo, 'marsh')):
        raise RuntimeError(f'marsh was imported from {where}')


def replay(module, path):
    with open(path) as fp:
        record = json.load(fp)
    sub = next(s for s in module.SUBS if s.name == record['sub'])
    reset = _reset_fn()
    tmp = tempfile.mkdtemp(prefix='verif-')
    print(f'replaying {record["property"]}/{record["sub"]} from {path}')
    os.chdir(tmp)
    try:
        if record['kind'] == 'case':
            case = _literal(record['case'])
            print(f'case: {case!r}')
            try:
                execute(sub, case, Ctx(tmp=tmp), reset)
            except Reject:
                print('the case is outside of the domain')
                return 0
            except Exception as err:
                message = str(err) if isinstance(err, Violation) else traceback.format_exc()
                print(message)
                print(f'VIOLATION property={record["property"]} replay={path}')
                return 1
        else:
            _, failure = run_job(
                sub, record['shard'], record['examples'], record['seed'], tmp, reset,
            )
            if failure:
                print(f'case: {failure[0]!r}\n{failure[1]}')
                print(f'VIOLATION property={record["property"]} replay={path}')
                return 1
        print('the property holds for the replayed input')
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)


def _findings_file(here):
    known = []
    path = os.path.join(here, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as fp:
            known = [line.strip() for line in fp if line.strip()]
    return known


def main(argv, here, repo):
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--replay')
    parser.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1)
    parser.add_argument('--only', help='run a single sub-check (development)')
    parser.add_argument('--scale', type=float, default=1.0, help='scale example counts')
    parser.add_argument('--thorough', action='store_true')
    args = parser.parse_args(argv)
    start = time.time()
    tier = 'thorough' if args.thorough else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    _check_import(repo)
    module = _load(args.property)
    prop = module.PROPERTY
    if args.replay:
        return replay(module, os.path.abspath(args.replay))

    root = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        return _campaign(module, prop, args, tier, seed, here, root, start)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _campaign(module, prop, args, tier, seed, here, root, start):
    reset = _reset_fn()
    reset()
    jobs = []
    subs = [s for s in module.SUBS if not args.only or s.name == args.only]
    for sub in subs:
        total = sub.thorough if tier == 'thorough' else sub.quick
        total = max(1, int(total * args.scale)) if total else 0
        # the number of shards must not depend on the machine
        shards = max(1, min(8 if tier != 'thorough' else 32, total // 50))
        for shard in range(shards):
            examples = total // shards + (1 if shard < total % shards else 0)
            jobs.append((sub, shard, examples, _derive_seed(seed, prop, sub.name, shard)))
    jobs.sort(key=lambda job: -job[2])

    limit = 780 if tier != 'thorough' else 6 * 3600
    mp = multiprocessing.get_context('fork')
    pending = list(enumerate(jobs))
    running = {}
    results = {}
    errors = []
    failed = None
    while (pending or running) and not failed and not errors:
        while pending and len(running) < args.jobs:
            index, (sub, shard, examples, job_seed) = pending.pop(0)
            out = os.path.join(root, f'{index}.result')
            proc = mp.Process(
                target=_child,
                args=(sub, shard, examples, job_seed, os.path.join(root, str(index)), reset, out),
            )
            sys.stdout.flush()
            proc.start()
            running[index] = (proc, out)
        multiprocessing.connection.wait([p.sentinel for p, _ in running.values()], timeout=5)
        for index, (proc, out) in list(running.items()):
            if proc.is_alive():
                continue
            proc.join()
            del running[index]
            if not os.path.exists(out):
                errors.append(f'worker {index} ({jobs[index][0].name}) died with {proc.exitcode}')
                continue
            with open(out, 'rb') as fp:
                result = pickle.load(fp)
            if 'error' in result:
                errors.append(f'worker {index} ({jobs[index][0].name}):\n{result["error"]}')
                continue
            results[index] = result
            if result['failure'] and failed is None:
                failed = index
        if time.time() - start > limit:
            errors.append('time budget hit: inconclusive')
    for proc, _ in running.values():
        proc.kill()
        proc.join()

    known = _findings_file(here)
    finding_lines = []
    for text, demo in getattr(module, 'FINDINGS', []):
        line = f'KNOWN-FINDING: property={prop} {text}'
        if line in known:
            reset()
            if demo():
                finding_lines.append(line)
            reset()

    evidence = _evidence(module, prop, tier, seed, results, jobs, start, failed is not None)
    evidence['coverage']['known_findings'] = finding_lines
    evidence_dir = os.path.join(here, 'evidence')
    os.makedirs(evidence_dir, exist_ok=True)
    with open(os.path.join(evidence_dir, f'{prop}.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1)
        fp.write('\n')

    for line in finding_lines:
        print(line)
    if failed is not None:
        return _report(prop, jobs[failed], results[failed]['failure'], here)
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    cov = evidence['coverage']
    print(
        f'{prop}: held on {cov["evaluations"]} cases '
        f'({cov["distinct_nontrivial"]} distinct non-trivial) in {evidence["wall_s"]} s',
    )
    return 0


def _evidence(module, prop, tier, seed, results, jobs, start, violated):
    evaluations = 0
    hashes = set()
    per_sub = {}
    samples = []
    for index in sorted(results):
        sub = jobs[index][0]
        stats = results[index]['stats']
        entry = per_sub.setdefault(
            sub.name,
            {'evaluations': 0, 'rejected': 0, 'nontrivial': set(), 'labels': collections.Counter()},
        )
        entry['evaluations'] += stats.evaluations
        entry['rejected'] += stats.rejected
        entry['nontrivial'] |= stats.hashes
        entry['labels'] += stats.labels
        evaluations += stats.evaluations
        hashes |= stats.hashes
        if stats.samples and sum(s['sub'] == sub.name for s in samples) < 3:
            # the last ones: Hypothesis starts with the simplest inputs
            samples.extend(stats.samples[-2:])
    for entry in per_sub.values():
        entry['nontrivial'] = len(entry['nontrivial'])
        entry['labels'] = dict(entry['labels'].most_common(60))
    return {
        'property': prop,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': module.RULE,
            'samples': samples,
            'per_sub_check': per_sub,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - start, 2),
        'violations': int(violated),
    }


def _report(prop, job, failure, here):
    sub, shard, examples, job_seed = job
    case, message = failure
    replays = os.path.join(here, 'replays')
    os.makedirs(replays, exist_ok=True)
    digest = _case_hash(sub, case).hex()[:8]
    path = os.path.join(replays, f'{prop}-{sub.name}-{digest}.json')
    record = {
        'property': prop,
        'sub': sub.name,
        'kind': 'case',
        'case': repr(case),
        'shard': shard,
        'examples': examples,
        'seed': job_seed,
        'message': message,
    }

    def confirmed():
        with open(path, 'w') as fp:
            json.dump(record, fp, indent=1)
        done = subprocess.run(
            [sys.executable, '-s', os.path.join(here, 'run.py'), prop, '--replay', path],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700,
        )
        return done.returncode == 1

    try:
        ok = confirmed()
        if not ok:
            record['kind'] = 'campaign'
            ok = confirmed()
    except subprocess.TimeoutExpired:
        ok = False
    print(f'{prop}/{sub.name} failed for the case:\n  {case!r}\n{message}')
    if not ok:
        print('the failure does not reproduce from its replay file', file=sys.stderr)
        return 2
    print(f'VIOLATION property={prop} replay={path}')
    return 1
