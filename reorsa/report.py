"""Obligation bookkeeping, known findings, evidence files and exit codes."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.json')

OK, BAD, UNK = 'proved', 'violated', 'undecided'


class Ob:
    """One obligation: a rule applied to a construct in a configuration."""
    __slots__ = ('config', 'rule', 'construct', 'status', 'detail', 'where')

    def __init__(self, config, rule, construct, status, detail='', where=''):
        self.config, self.rule, self.construct = config, rule, construct
        self.status, self.detail, self.where = status, detail, where

    def tup(self):
        return (self.config, self.rule, self.construct, self.status, self.detail[:1500], self.where)


class Collector:
    """What a worker hands back for one configuration."""

    def __init__(self, config):
        self.config = config
        self.obs = []
        self.functions = set()
        self.stats = {}

    def add(self, rule, construct, status, detail='', where=''):
        self.obs.append(Ob(self.config, rule, construct, status, str(detail), where).tup())

    def ok(self, rule, construct, detail='', where=''):
        self.add(rule, construct, OK, detail, where)

    def bad(self, rule, construct, detail='', where=''):
        self.add(rule, construct, BAD, detail, where)

    def unk(self, rule, construct, detail='', where=''):
        self.add(rule, construct, UNK, detail, where)

    def decide(self, cond, rule, construct, detail='', where=''):
        """cond True: proved; False: violated; None: undecided."""
        self.add(rule, construct, OK if cond else (BAD if cond is False else UNK), detail, where)

    def count(self, key, k=1):
        self.stats[key] = self.stats.get(key, 0) + k

    def cover(self, x):
        """Record which functions an analysis session went through."""
        from .interp import LOOPS
        run = x.I.run if hasattr(x.I, 'run') else None
        self.functions |= set(getattr(x.I, 'seen_functions', ()))
        self.count('events', len(x.I.events))


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def _work(job):
    func, config, limit = job
    c = Collector(config.name if hasattr(config, 'name') else str(config))
    t0 = time.time()
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        func(config, c)
    except Timeout:
        c.unk('analysis', c.config, 'time limit of %d s reached' % limit)
    except RecursionError:
        c.unk('analysis', c.config, 'recursion limit reached')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        c.unk('analysis', c.config, '%s: %s at %s' % (type(e).__name__, e, ' < '.join(
            '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))))
    finally:
        signal.alarm(0)
    return (c.config, c.obs, sorted(c.functions), c.stats, time.time() - t0)


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def run(pid, func, configs, rules, explanation, tier='quick', limit=400, jobs=8, assumptions=(), need=()):
    """Run func(config, collector) for every configuration and write the evidence; returns the exit code.

    ``need``: unless at least one obligation of these rules has been decided, the check gives no answer (exit 2)."""
    t0 = time.time()
    jobs_list = [(func, c, limit) for c in configs]
    if jobs > 1 and len(jobs_list) > 1:
        with mp.get_context('fork').Pool(min(jobs, len(jobs_list)), maxtasksperchild=1) as pool:
            res = pool.map(_work, jobs_list, chunksize=1)
    else:
        res = [_work(j) for j in jobs_list]
    obs = [Ob(*o) for r in res for o in r[1]]
    functions = sorted({f for r in res for f in r[2]})
    stats = {}
    for r in res:
        for k, v in r[3].items():
            stats[k] = stats.get(k, 0) + v
    known = load_known(pid)
    bad = [o for o in obs if o.status == BAD]
    listed, fresh = {}, {}
    for o in bad:
        hit = next((k for k in known if k['rule'] == o.rule and k['construct'] == o.construct), None)
        (listed if hit else fresh).setdefault((o.rule, o.construct), []).append(o)
    nok = sum(o.status == OK for o in obs)
    unk = [o for o in obs if o.status == UNK]
    by_rule = {}
    for o in obs:
        b = by_rule.setdefault(o.rule, {OK: 0, BAD: 0, UNK: 0})
        b[o.status] += 1
    code = 0
    for k in known:
        key = (k['rule'], k['construct'])
        if key in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    missing = [r for r in need if not any(o.rule in need and o.status != UNK for o in obs)]
    samples = []
    seen = set()
    for o in obs:
        if o.status == OK and o.rule not in seen:
            seen.add(o.rule)
            samples.append(dict(config=o.config, rule=o.rule, construct=o.construct, detail=o.detail[:300]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join('evidence', '%s.violation.txt' % pid)
    full = os.path.join(HERE, path)
    if fresh:
        code = 1
        with open(full, 'w') as f:
            f.write('property %s: %d violated obligations on %d constructs\n' % (pid, sum(map(len, fresh.values())),
                                                                                 len(fresh)))
            f.write('reproduce with: cd /verif && python3 -m reorsa %s\n\n' % pid)
            for (rule, cons), os_ in fresh.items():
                f.write('rule %s (%s)\n  construct: %s\n' % (rule, rules.get(rule, ''), cons))
                if os_[0].where:
                    f.write('  at: %s\n' % os_[0].where)
                f.write('  configurations: %s\n  detail: %s\n\n' % (', '.join(sorted({o.config for o in os_})),
                                                                    os_[0].detail))
        for (rule, cons), os_ in list(fresh.items())[:8]:
            print('%s: rule %s: %s: %s%s' % (pid, rule, cons, os_[0].detail[:300],
                                             ' [%s]' % os_[0].where if os_[0].where else ''))
    elif os.path.exists(full):
        os.remove(full)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(explanation=explanation, rules={r: rules.get(r, '') for r in by_rule},
                            configurations=[dict(name=r[0], seconds=round(r[4], 2), obligations=len(r[1]))
                                            for r in res],
                            obligations=len(obs), discharged=nok, violated=len(bad), undecided=len(unk),
                            by_rule=by_rule, undecided_list=[dict(config=o.config, rule=o.rule, construct=o.construct,
                                                                  detail=o.detail[:300]) for o in unk[:60]],
                            functions_analysed=functions, measured=stats, samples=samples[:20],
                            known_findings=['%s: %s' % k for k in listed]),
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d obligations in %d configurations: %d proved, %d violated (%d listed constructs), %d undecided; %.1f s'
          % (pid, len(obs), len(res), nok, len(bad), len(listed), len(unk), time.time() - t0))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if missing:
        print('%s: no answer: nothing decided for %s' % (pid, ', '.join(missing)))
        for o in unk[:5]:
            print('  ', o.config, o.rule, o.construct, o.detail[:200])
        return 2
    return code
