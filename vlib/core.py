"""Runner: generated-input search with Hypothesis, sharded over worker processes.

A property module defines RELATIONS, a list of Relation.  Each relation has a strategy producing a
JSON-able case and a check function that raises Violation when the oracle rejects what meent did.
Exit codes: 0 held, 1 violated (VIOLATION line printed), 2 the harness itself failed.
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
REPO_PKG = os.path.join(os.path.abspath(os.environ.get('VERIF_REPO', '/repo')), 'meent') + os.sep
SHRINK_SECONDS = 40.
PATIENCE = (330., 480.)


class Violation(Exception):
    pass


class Skip(Exception):
    """case outside the domain the relation speaks about; not counted as evaluated."""


class Relation:
    def __init__(self, name, strategy, check, quick, thorough, shards=1, weight=1., rule='',
                 exhaustive=False):
        self.name = name
        self.strategy = strategy      # callable(shard) -> hypothesis strategy
        self.check = check            # callable(case) -> dict(nontrivial=bool, labels=[...])
        self.quick, self.thorough = quick, thorough
        self.shards = shards
        self.weight = weight
        self.rule = rule
        self.exhaustive = exhaustive


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


def derive_seed(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def canon(case):
    return json.dumps(case, sort_keys=True)


def came_through_meent(exc):
    tb = exc.__traceback__
    while tb is not None:
        if REPO_PKG in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def evaluate(rel, case):
    """Run one case.  Returns (status, payload): ok / skip / bad / error."""
    try:
        info = rel.check(case) or {}
        return 'ok', info
    except Skip as e:
        return 'skip', str(e)
    except Violation as e:
        return 'bad', str(e)
    except MemoryError:
        raise
    except Exception as e:                                             # noqa: BLE001
        # no valid input raises on a tree where the property holds, in meent, in a backend differentiating or compiling
        # it, or in the check reading what it returned
        tail = traceback.format_exception(type(e), e, e.__traceback__)[-3:]
        return 'bad', 'unexpected exception on a valid input: ' + ''.join(tail)


class _Found(Exception):
    pass


class HarnessError(Exception):
    pass


def independent_draws(share=0.1):
    """Hypothesis prefers small integers and follows most drawn cases with five near copies.  A search for rare
    combinations is better served by independent cases drawn evenly over the stated ranges (ends and repeated values
    still get extra weight from Hypothesis), so only a share of the cases is varied in that way."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    from hypothesis.internal.conjecture.providers import HypothesisProvider
    vary = ConjectureRunner.generate_mutations_from
    dist = HypothesisProvider._draw_integer_from_distribution
    if getattr(vary, 'sparse', False):
        return

    def sparse(self, data):
        if self.random.random() < share:
            vary(self, data)

    def even(self, min_value, max_value):
        if min_value is None or max_value is None or max_value - min_value > 1 << 20:
            return dist(self, min_value, max_value)
        return self._random.randint(min_value, max_value)
    sparse.sparse = True
    ConjectureRunner.generate_mutations_from = sparse
    HypothesisProvider._draw_integer_from_distribution = even



def run_shard(module, rel_index, shard, n, seed, deadline):
    """Executed in a worker process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    from hypothesis import strategies as st
    import warnings
    warnings.simplefilter('ignore')
    independent_draws()

    mod = importlib.import_module(module)
    rel = mod.RELATIONS[rel_index]
    out = dict(relation=rel.name, shard=shard, evaluations=0, skipped=0, labels={}, samples=[],
               keys=set(), nontrivial_keys=set(), violation=None, timed_out=0)
    t0 = time.time()
    known = {}
    state = {'fail_at': None, 'last': None}

    def body(case):
        key = canon(case)
        if key in known:
            raise _Found()
        if state['fail_at'] is not None and time.time() - state['fail_at'] > SHRINK_SECONDS:
            return
        if state['fail_at'] is None and time.time() > deadline:
            out['timed_out'] += 1
            return
        case = json.loads(key)
        status, info = evaluate(rel, case)
        if status == 'error':
            raise HarnessError(info)
        if status == 'skip':
            out['skipped'] += 1
            hypothesis.reject()
        if status == 'bad':
            if state['fail_at'] is None:
                state['fail_at'] = time.time()
            known[key] = info
            state['last'] = (case, info)
            raise _Found()
        out['evaluations'] += 1
        h = hashlib.md5(key.encode()).hexdigest()
        out['keys'].add(h)
        if info.get('nontrivial', True):
            out['nontrivial_keys'].add(h)
            if len(out['samples']) < 3:
                out['samples'].append({'relation': rel.name, 'case': case,
                                       'labels': info.get('labels', [])})
        for lab in info.get('labels', []):
            out['labels'][lab] = out['labels'].get(lab, 0) + 1

    strategy = rel.strategy(shard)
    test = given(strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    report_multiple_bugs=False,
                    phases=[Phase.generate, Phase.shrink])(test)
    try:
        test()
    except _Found:
        out['violation'] = state['last']
    except HarnessError:
        raise
    except Exception:
        if state['last'] is not None:        # e.g. Flaky: the recorded failure is still real
            out['violation'] = state['last']
        else:
            raise
    if state['last'] is not None and out['violation'] is None:
        out['violation'] = state['last']
    if out['violation'] is not None:
        # smallest recorded failing case by encoded size
        key = min(known, key=len)
        out['violation'] = (json.loads(key), known[key])
    out['seconds'] = time.time() - t0
    return out


def _init_worker():
    import io
    os.environ["TQDM_DISABLE"] = "1"
    sys.stdout = io.StringIO()        # meent prints; keep workers quiet
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:
        pass


def run_property(pid, tier, seed, only=None, procs=8):
    import concurrent.futures as cf
    import multiprocessing as mp

    module = f'props.{pid.lower()}'
    mod = importlib.import_module(module)
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', 480 if tier == 'quick' else 3000))
    deadline = t0 + budget
    tasks = []
    for i, rel in enumerate(mod.RELATIONS):
        if only and rel.name not in only:
            continue
        n = rel.quick if tier == 'quick' else rel.thorough
        if n <= 0:
            continue
        shards = rel.shards if tier == 'quick' or rel.exhaustive else max(rel.shards, 8 if rel.shards > 1 else 4)
        per = max(1, -(-n // shards))
        for s in range(shards):
            tasks.append((rel.weight * per, i, s, per, derive_seed(seed, pid, rel.name, s)))
    tasks.sort(key=lambda t: -t[0])
    results, failures = [], []
    ctx = mp.get_context('spawn')
    # a worker that hangs (never seen to depend on the code under test) must not take the answer with it: shards that
    # are not back in time are run once more in fresh processes
    for patience in (PATIENCE if tier == 'quick' else (None,)):
        ex = cf.ProcessPoolExecutor(max_workers=min(procs, max(1, len(tasks))), mp_context=ctx, initializer=_init_worker)
        futs = {ex.submit(run_shard, module, *t[1:], deadline): t for t in tasks}
        done, late = cf.wait(futs, timeout=patience)
        for f in done:
            t = futs[f]
            try:
                results.append(f.result())
            except Exception as e:                                     # noqa: BLE001
                failures.append(f'{mod.RELATIONS[t[1]].name}/{t[2]}: {type(e).__name__}: {e}')
        tasks = [futs[f] for f in late]
        if not late:
            ex.shutdown()
            break
        for pr in list((ex._processes or {}).values()):
            pr.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    failures += [f'{mod.RELATIONS[t[1]].name}/{t[2]}: no answer' for t in tasks if late]
    return mod, results, failures, time.time() - t0


def write_replay(pid, relation, case, message):
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(canon(case).encode()).hexdigest()[:8]
    path = os.path.join(d, f'{pid}-{relation}-{h}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'relation': relation, 'case': case, 'message': message}, f, indent=1)
    return path


def known_findings(mod, pid):
    """(lines, violations): probe each recorded finding of this property."""
    lines = []
    for text, probe in getattr(mod, 'KNOWN', []):
        if probe():
            lines.append(f'KNOWN-FINDING: property={pid} {text}')
    return lines


def main(pid, tier, seed, only=None):
    mod, results, failures, wall = run_property(pid, tier, seed, only)
    bad = [r for r in results if r['violation'] is not None]
    keys, ntkeys, labels, samples, per_rel = set(), set(), {}, [], {}
    evals = skipped = timed = 0
    seen_rel = set()
    for r in sorted(results, key=lambda r: (r['relation'], r['shard'])):
        evals += r['evaluations']
        skipped += r['skipped']
        timed += r['timed_out']
        keys |= {r['relation'] + k for k in r['keys']}
        ntkeys |= {r['relation'] + k for k in r['nontrivial_keys']}
        d = per_rel.setdefault(r['relation'], {'evaluations': 0, 'distinct_nontrivial': 0, 'skipped': 0,
                                               'seconds': 0.})
        d['evaluations'] += r['evaluations']
        d['distinct_nontrivial'] += len(r['nontrivial_keys'])
        d['skipped'] += r['skipped']
        d['seconds'] = round(d['seconds'] + r.get('seconds', 0.), 1)
        for k, v in r['labels'].items():
            labels[f"{r['relation']}:{k}"] = labels.get(f"{r['relation']}:{k}", 0) + v
        if r['relation'] not in seen_rel and r['samples']:
            samples.append(r['samples'][-1])
            seen_rel.add(r['relation'])
    known_lines = []
    if not failures:
        try:
            known_lines = known_findings(mod, pid)
        except Exception as e:                                         # noqa: BLE001
            if not bad:
                failures.append('known-finding probe: ' + repr(e))
    for line in known_lines:
        print(line)
    for r in bad:
        case, msg = r['violation']
        path = write_replay(pid, r['relation'], case, msg)
        print(f'{pid} {r["relation"]}: {msg.strip()[:1500]}')
        print(f'VIOLATION property={pid} replay={path}')
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(ntkeys),
            'rule': '; '.join(f'{r.name}: {r.rule}' for r in mod.RELATIONS if r.rule),
            'samples': samples,
            'distinct': len(keys), 'out_of_domain_draws': skipped, 'not_run_for_time': timed,
            'per_relation': per_rel, 'classes': labels,
        },
        'wall_s': round(wall, 2), 'violations': len(bad),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'known_findings': known_lines, 'harness_failures': failures,
    }
    with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid} {tier}: {evals} cases ({len(ntkeys)} distinct non-trivial), {len(bad)} violations, '
          f'{wall:.1f}s')
    if bad:
        return 1
    if failures:
        for f in failures:
            print('HARNESS ERROR', f, file=sys.stderr)
        return 2
    if evals == 0:
        print('HARNESS ERROR nothing was evaluated', file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module(f"props.{rec['property'].lower()}")
    rel = next(r for r in mod.RELATIONS if r.name == rec['relation'])
    status, info = evaluate(rel, rec['case'])
    print(status, info if status != 'ok' else '')
    if status == 'bad':
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0 if status in ('ok', 'skip') else 2
