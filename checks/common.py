"""Check plumbing: verdicts, replay of counterexamples on the unpatched code, evidence, known findings."""
import json
import os
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FBS_REPO', '/repo')
EVID = os.path.join(HERE, 'evidence')
PY = '/opt/venv/bin/python'


def env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', PYTHONDONTWRITEBYTECODE='1',
             PYTHONPATH=HERE + os.pathsep + REPO, TF_CPP_MIN_LOG_LEVEL='3')
    return e


def known_findings():
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.jsonl')):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('status') == 'open':
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.functions = {}
        self.bounds = []
        self.stubs = []
        self.assumptions = []
        self.notes = []
        self.violations = []
        self.known = []
        self.problems = []
        self.samples = []
        self.vcs = 0
        self.refuted = 0
        self.regions = 0
        self.states = 0
        self.vacuous = 0
        self._known = [k for k in known_findings() if k['property'] == pid]
        self.seen_sites = set()
        self.sub = ''
        self.hyg = []
        self.njobs = 0
        self.undecided = 0

    # ---- parallel jobs
    def jobs(self, jobs, procs=6, timeout=800):
        """jobs: [(site, function(check), fallback replay kind, fallback data)]; each runs in a forked process on a
        private Check, results are merged.  Nothing here may touch a jax backend before the fork."""
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        warnings.filterwarnings('ignore', message='.*os.fork.*')
        pend = list(enumerate(jobs))[::-1]
        end = self.t0 + (800 if self.quick else 3400)
        live = {}
        results = {}
        from multiprocessing.connection import wait
        while pend or live:
            if time.time() > end:
                pend = []
            while pend and len(live) < procs:
                i, job = pend.pop()
                a, b = ctx.Pipe(False)
                pr = ctx.Process(target=_job, args=(self, i, job, b))
                pr.start()
                b.close()
                live[a] = (i, pr, time.time(), job)
            for conn in wait(list(live), timeout=1):
                i, pr, t, job = live.pop(conn)
                try:
                    results[i] = conn.recv()
                except EOFError:
                    results[i] = None
                conn.close()
                pr.join()
            for conn in list(live):
                i, pr, t, job = live[conn]
                if time.time() - t > timeout or time.time() > end:
                    pr.kill()
                    live.pop(conn)
                    results[i] = None
        for i, job in enumerate(jobs):
            self.njobs += 1
            r = results.get(i)
            if r is None:
                self.problems.append(f'{job[0]}: worker died or ran out of time')
                self.undecided += 1
                continue
            self.undecided += bool(r['problems'])
            self.absorb(r)

    def export(self):
        from symjax.smt import STATS
        return {'functions': self.functions, 'bounds': self.bounds, 'stubs': self.stubs,
                'assumptions': self.assumptions, 'notes': self.notes, 'violations': self.violations,
                'known': self.known, 'problems': self.problems, 'samples': self.samples, 'vcs': self.vcs,
                'refuted': self.refuted, 'regions': self.regions, 'states': self.states, 'vacuous': self.vacuous,
                'hyg': self.hyg,
                'stats': {k: v for k, v in vars(STATS).items() if isinstance(v, (int, float))}}

    def absorb(self, r):
        from symjax.smt import STATS
        for k, v in r['functions'].items():
            self.encoded(k, v)
        for f in ('bounds', 'stubs', 'assumptions'):
            for x in r[f]:
                if x not in getattr(self, f):
                    getattr(self, f).append(x)
        for f in ('notes', 'violations', 'known', 'problems', 'samples', 'hyg'):
            getattr(self, f).extend(r[f])
        self.samples = self.samples[:14]
        for f in ('vcs', 'refuted', 'regions', 'vacuous'):
            setattr(self, f, getattr(self, f) + r[f])
        self.states = max(self.states, r['states'])
        for k, v in r['stats'].items():
            setattr(STATS, k, getattr(STATS, k, 0) + v)

    # ---- bookkeeping for the evidence
    def encoded(self, name, neqns):
        self.functions[name] = max(self.functions.get(name, 0), neqns)

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def stub(self, s):
        if s not in self.stubs:
            self.stubs.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # ---- verdicts
    def candidate(self, site, what, kind, data):
        """A counterexample from the solver (or an execution that broke): replay on the real code before reporting."""
        self.refuted += 1
        if site in self.seen_sites:
            return
        self.seen_sites.add(site)
        d = os.path.join(EVID, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.pid}{self.sub}_{len(self.seen_sites)}.json')
        json.dump({'property': self.pid, 'site': site, 'what': what, 'kind': kind, 'data': data},
                  open(path, 'w'), indent=1, default=jsonable)
        ok, text = replay(path)
        if ok is True:
            for k in self._known:
                if k['site'] == site:
                    self.known.append((k, text))
                    return
            self.violations.append({'site': site, 'what': what, 'replay': path, 'observed': text})
        else:
            self.problems.append(f'{site}: {what}: counterexample did not reproduce on the real code ({text})')

    def broke(self, site, e, kind, data):
        """The symbolic execution failed: either the code is broken (then the replay shows it) or the engine is."""
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exception(e)
        n = len(self.problems)
        what = f'symbolic execution failed ({type(e).__name__}: {str(e)[:300]})'
        if kind is None:
            self.problems.append(f'{site}: {what}')
        else:
            self.candidate(site, what, kind, data)

    def problem(self, site, exc):
        self.problems.append(f'{site}: {type(exc).__name__}: {exc}')

    # ---- finish
    def finish(self, level='other', explanation=None, exhaustive_note=''):
        try:
            from symjax.smt import STATS
            st = STATS
        except Exception:
            st = None
        import z3
        cov = {
            'explanation': explanation or '',
            'functions_encoded': [{'name': k, 'equations': v} for k, v in sorted(self.functions.items())],
            'bounds': self.bounds,
            'stubs': self.stubs,
            'verification_conditions': self.vcs,
            'refuted': self.refuted,
            'regions_explored': self.regions,
            'symbolic_states': self.states,
            'reachability_witnesses': self.vacuous,
            'solver': f'z3 {z3.get_version_string()}',
            'solver_queries': st.queries if st else 0,
            'solver_unsat': st.unsat if st else 0,
            'solver_sat': st.sat if st else 0,
            'solver_unknown': st.unknown if st else 0,
            'cvc5_queries': st.cvc5_queries if st else 0,
            'solver_time_s': round(st.time, 3) if st else 0,
            'samples': self.samples,
            'known_findings_seen': [k['site'] for k, _ in self.known],
            'inconclusive': self.problems,
            'sites': self.njobs,
            'sites_undecided': self.undecided,
            'notes': self.notes,
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': level, 'coverage': cov, 'assumptions': self.assumptions or ['none beyond the stated bounds'],
              'wall_s': round(time.time() - self.t0, 2),
              'violations': [{'site': v['site'], 'what': v['what'], 'replay': v['replay'], 'observed': v['observed']}
                             for v in self.violations]}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, f'.{self.pid}.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1, default=jsonable)
        os.replace(tmp, os.path.join(EVID, f'{self.pid}.json'))
        for k, text in self.known:
            print(f'KNOWN-FINDING: property={self.pid} {k["site"]}: {k["what"]}')
        for v in self.violations:
            print(f'{self.pid}: {v["site"]}: {v["what"]}: {v["observed"]}')
            print(f'VIOLATION property={self.pid} replay={v["replay"]}')
        print(f'{self.pid}: {self.vcs} conditions over {self.regions} regions, {cov["solver_queries"]} solver queries '
              f'({cov["solver_time_s"]} s), {ev["wall_s"]} s')
        if self.violations:
            return 1
        if self.problems:
            for p in self.problems:
                print(f'INCONCLUSIVE {self.pid}: {p}', file=sys.stderr)
            # the property held on everything that was decided; a minority of undecided sites (recorded in the
            # evidence) is no alarm, a majority is no answer
            if not self.njobs or 2 * self.undecided >= self.njobs or self.vcs == 0:
                return 2
        if self.vcs == 0:
            print(f'INCONCLUSIVE {self.pid}: no verification condition was generated', file=sys.stderr)
            return 2
        return 0


def _job(parent, i, job, conn):
    import resource
    site, fn, kind, data = job
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    c = Check(parent.pid, parent.tier)
    c.sub = f'_j{i}'
    try:
        fn(c)
    except Exception as e:
        c.broke(site, e, kind, data)
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        conn.send(c.export())
    except Exception as e:
        conn.send({**Check(parent.pid, parent.tier).export(), 'problems': [f'{site}: {e}']})
    conn.close()
    os._exit(0)


def jsonable(x):
    if isinstance(x, Fraction):
        return float(x)
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    return str(x)


def replay(path, timeout=400):
    """Fresh process, no stubs.  Returns (True: reproduced / False: not / None: replay failed, text)."""
    try:
        p = subprocess.run([PY, '-m', 'checks.replay', path], cwd=HERE, env=env(), capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'replay timed out'
    out = p.stdout.strip().splitlines()
    text = out[-1] if out else ''
    if p.returncode == 17:
        return True, text
    if p.returncode == 0:
        return False, text
    return None, 'replay error: ' + (p.stderr.strip().splitlines()[-1] if p.stderr.strip() else text)
