"""Exploration engine: exhaustive, sharded, deterministic.

A check is a module ``mc.checks.cXX`` that defines

``ID, LEVEL, RULE, ASSUMPTIONS``
    metadata for the evidence file.

``cases(tier)``
    generator of ``(key, payload)``; the whole bounded space of the check, in a
    fixed order, simplest first.  ``key`` is a unique, stable, human readable
    identification of the case (it is what known findings are matched by).

``run(payload, ctx)``
    executes the case on the real code and yields/returns an iterable of
    ``(subkey, message)`` violations (none when the property held).  ``ctx``
    counts states/transitions/validated traces and distinct outcomes.

Worker processes take the next case that no other has taken, so every case is
run exactly once and the split does not matter to the result.
"""

import collections
import contextlib
import hashlib
import importlib
import io
import itertools
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MDPO_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
NPROC = int(os.environ.get('MC_PROCS', '8'))
CASE_TIMEOUT = 60
#: only every n-th case, to try planted bugs quickly; a check runs them all
STRIDE = int(os.environ.get('MC_STRIDE', '1'))
MAX_VIOLATIONS_PER_WORKER = 40
MAX_PRINT = 8


def bind_to_repo():
    """Make ``import mdpo`` take the working tree of the repository."""
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONPATH'] = SRC
    os.environ.pop('_MDPO_RUNNING', None)
    sys.path.insert(0, SRC)
    import mdpo

    where = os.path.dirname(os.path.abspath(mdpo.__file__))
    if where != os.path.join(SRC, 'mdpo'):
        raise SystemExit(f'mdpo imported from {where}, not from {SRC}')


class Hang(BaseException):
    pass


def _alarm(_sig, _frm):
    raise Hang()


class Ctx:
    """What a case reports besides violations."""

    def __init__(self, scratch, tier):
        self.scratch = scratch          # private directory of the worker
        self.tier = tier
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = set()
        self.trivial = 0
        self.samples = []
        self.notes = collections.Counter()
        self.memo = {}                  # per-worker cache, for check modules

    def outcome(self, *parts):
        """Record the observed outcome (hash) of a non-trivial evaluation."""
        h = hashlib.blake2b(repr(parts).encode('utf-8', 'surrogatepass'),
                            digest_size=8).digest()
        self.outcomes.add(h)

    def path(self, *names):
        return os.path.join(self.scratch, *names)

    def fresh_dir(self, name='d'):
        """An empty directory inside the scratch of this worker."""
        p = os.path.join(self.scratch, name)
        if os.path.isdir(p):
            shutil.rmtree(p)
        os.makedirs(p)
        return p


def tb_digest():
    """A traceback summary that does not depend on line numbers."""
    et, ev, _tb = sys.exc_info()
    return f'{et.__name__}: {ev}'


def run_case(mod, payload, ctx):
    """Run one case; an exception of the code under test is a violation."""
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        return [(s, m) for s, m in (mod.run(payload, ctx) or [])]
    except Hang:
        return [('hang', f'no answer within {CASE_TIMEOUT} s')]
    except SystemExit as e:
        return [('exit', f'SystemExit({e.code!r})')]
    except Exception:
        return [('exception', tb_digest())]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def digest(msg):
    return hashlib.sha256(msg.encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def load_known(pid):
    """Known findings of a property: {(case key, subkey): (finding, digest)}."""
    path = os.path.join(VERIF, 'known_findings.json')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            data = json.load(f)
        for finding in data['findings']:
            if finding['property'] != pid:
                continue
            for c in finding['cases']:
                out[(c['case'], c['sub'])] = (finding, c.get('digest'))
    return out


def claim(counter):
    """Number of the next case, which no other worker gets."""
    with counter.get_lock():
        counter.value += 1
        return counter.value - 1


def worker(modname, tier, i, counter, conn, only=None):
    try:
        bind_to_repo()
        mod = importlib.import_module(modname)
        signal.signal(signal.SIGALRM, _alarm)
        known = load_known(mod.ID)
        scratch = tempfile.mkdtemp(prefix='mdpo-mc-')
        os.chdir(scratch)
        home = os.path.join(scratch, 'home')
        os.makedirs(home)
        ctx = Ctx(home, tier)
        violations, known_hits, count, capped = [], {}, 0, False
        # the code under test must not talk to our stdout/stderr/stdin
        sys.stdin = io.StringIO('')
        mine = claim(counter)
        try:
            sink = io.StringIO()
            with contextlib.redirect_stdout(sink), \
                    contextlib.redirect_stderr(sink):
                for idx, (key, payload) in enumerate(
                        itertools.islice(mod.cases(tier), 0, None, STRIDE)):
                    if only is not None:
                        if key != only:
                            continue
                    else:
                        if idx != mine:
                            continue
                        mine = claim(counter)
                    count += 1
                    before = ctx.evaluations
                    res = run_case(mod, payload, ctx)
                    if ctx.evaluations == before:
                        ctx.evaluations += 1
                    if len(ctx.samples) < 2 or (
                            count in (50, 500) and i == 0):
                        ctx.samples.append(key)
                    if sink.tell() > 1 << 16:
                        sink.seek(0)
                        sink.truncate()
                    for sub, msg in res:
                        k = known.get((key, sub))
                        if k and k[1] in (None, digest(msg)):
                            known_hits.setdefault(
                                k[0]['id'], []).append((key, sub))
                            continue
                        violations.append({
                            'case': key, 'sub': sub, 'message': msg,
                            'digest': digest(msg),
                        })
                    if len(violations) >= int(os.environ.get(
                            'MC_MAXV', MAX_VIOLATIONS_PER_WORKER)):
                        capped = True
                        if 'MC_STOP' in os.environ:
                            counter.value = 1 << 60
                        break
        finally:
            os.chdir('/')
            shutil.rmtree(scratch, ignore_errors=True)
        conn.send({
            'ok': True, 'count': count, 'violations': violations,
            'known': known_hits, 'capped': capped,
            'states': ctx.states, 'transitions': ctx.transitions,
            'traces': ctx.traces, 'evaluations': ctx.evaluations,
            'trivial': ctx.trivial,
            'outcomes': ctx.outcomes, 'samples': ctx.samples,
            'notes': dict(ctx.notes),
        })
    except BaseException:
        conn.send({'ok': False, 'error': traceback.format_exc()})
    finally:
        conn.close()


def explore(pid, tier, only=None, procs=None):
    modname = f'mc.checks.{pid.lower()}'
    n = 1 if only is not None else (procs or NPROC)
    mp = multiprocessing.get_context('fork')
    jobs, counter = [], mp.Value('l', 0)
    for i in range(n):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(modname, tier, i, counter, b, only))
        p.start()
        b.close()
        jobs.append((p, a))
    results = []
    for p, a in jobs:
        try:
            results.append(a.recv())
        except EOFError:
            results.append({'ok': False, 'error': 'worker died'})
        p.join()
    return results


def write_evidence(mod, tier, seed, tot, wall, nviol):
    cov = {
        'evaluations': tot['evaluations'],
        'distinct_nontrivial': len(tot['outcomes']),
        'rule': mod.RULE,
        'samples': tot['samples'],
        'cases': tot['count'],
        'exhaustive': not tot['capped'] and STRIDE == 1,
        'known_finding_cases': sum(len(v) for v in tot['known'].values()),
    }
    if tot['states'] or mod.LEVEL == 'model_checking':
        cov['states'] = tot['states']
        cov['transitions'] = tot['transitions']
        cov['traces_validated_against_impl'] = tot['traces']
    for k, v in sorted(tot['notes'].items()):
        cov[f'note_{k}'] = v
    ev = {
        'property': mod.ID,
        'tier': tier,
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': cov,
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(wall, 3),
        'violations': nviol,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{mod.ID}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, os.path.join(d, f'{mod.ID}.json'))


def merge(results):
    tot = {
        'count': 0, 'evaluations': 0, 'states': 0, 'transitions': 0,
        'traces': 0, 'trivial': 0, 'outcomes': set(), 'samples': [],
        'violations': [], 'known': {}, 'capped': False,
        'notes': collections.Counter(),
    }
    for r in results:
        for k in ('count', 'evaluations', 'states', 'transitions', 'traces',
                  'trivial'):
            tot[k] += r[k]
        tot['outcomes'] |= r['outcomes']
        tot['samples'] += r['samples']
        tot['violations'] += r['violations']
        tot['capped'] |= r['capped']
        tot['notes'].update(r['notes'])
        for k, v in r['known'].items():
            tot['known'].setdefault(k, []).extend(v)
    tot['samples'] = [str(s)[:600] for s in tot['samples'][:8]]
    tot['violations'].sort(key=lambda v: (len(v['case']), v['case'], v['sub']))
    return tot


def main(argv):
    import argparse

    ap = argparse.ArgumentParser(prog='python -m mc')
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay', help='replay file written by a violation')
    ap.add_argument('--procs', type=int)
    ap.add_argument('--list-violations', help='write all violations here')
    a = ap.parse_args(argv)
    sys.dont_write_bytecode = True
    pid = a.property.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only, tier = None, a.tier
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        only, tier = rep['case'], rep['tier']
        pid = rep['property']
    bind_to_repo()
    mod = importlib.import_module(f'mc.checks.{pid.lower()}')
    if only is None and hasattr(mod, 'NPROC'):
        a.procs = mod.NPROC
    t0 = time.time()
    results = explore(pid, tier, only, a.procs)
    bad = [r for r in results if not r['ok']]
    if bad:
        sys.stdout.write(f'ERROR check {pid}: {bad[0]["error"]}\n')
        return 3
    tot = merge(results)
    wall = time.time() - t0
    viol = tot['violations']
    if only is None:
        write_evidence(mod, tier, seed, tot, wall, len(viol))
    findings = {f['id']: f for f, _ in load_known(pid).values()}
    for fid in sorted(tot['known']):
        hits = tot['known'][fid]
        sys.stdout.write(
            f'KNOWN-FINDING: property={pid} {fid}: {findings[fid]["what"]}'
            f' [{len(hits)} case(s)]\n')
    if a.list_violations:
        with open(a.list_violations, 'w') as f:
            json.dump(viol, f, indent=1)
    sys.stdout.write(
        f'{pid} {tier}: cases={tot["count"]} evaluations={tot["evaluations"]}'
        f' states={tot["states"]} transitions={tot["transitions"]}'
        f' distinct_outcomes={len(tot["outcomes"])}'
        f' violations={len(viol)}{" (capped)" if tot["capped"] else ""}'
        f' wall={wall:.1f}s\n')
    if not viol:
        return 0
    outdir = os.path.join(VERIF, 'out')
    os.makedirs(outdir, exist_ok=True)
    for v in viol[:MAX_PRINT]:
        name = f'{pid}-{digest(v["case"] + v["sub"])}.json'
        path = os.path.join(outdir, name)
        with open(path, 'w') as f:
            json.dump({
                'property': pid, 'tier': tier, 'seed': seed, **v,
                'replay_cmd': f'cd {VERIF} && ./run {pid} --replay {path}',
            }, f, indent=1)
        sys.stdout.write(f'VIOLATION property={pid} replay={path}\n')
        sys.stdout.write(f'  case: {v["case"][:400]!r}\n  {v["sub"]}: ')
        sys.stdout.write(v['message'][:1500].replace('\n', '\n    ') + '\n')
    return 1
