"""Obligation bookkeeping, known findings, evidence."""
import json, os, re, sys, time
import facts

VERIF = facts.VERIF


class Fatal(Exception):
    """an anchor the check depends on is gone"""


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.n = 0
        self.ok = 0
        self.byrule = {}
        self.viol = {}        # key -> (message, where)
        self.undecided = {}   # key -> why
        self.fns = set()
        self.paths = 0
        self.samples = []
        self.notes = []
        self.floors = {}

    def ob(self, rule, key, good, msg='', where=None):
        """one obligation; key must not contain line numbers. good: True / False / None (undecided)"""
        self.n += 1
        c = self.byrule.setdefault(rule, [0, 0])
        c[0] += 1
        if good:
            self.ok += 1
            c[1] += 1
            if c[1] <= 2:
                self.samples.append({'rule': rule, 'instance': key, 'verdict': 'holds'})
        elif good is None:
            self.undecided.setdefault('%s|%s' % (rule, key), msg)
        else:
            self.viol.setdefault('%s|%s' % (rule, key), (msg, where))
        return good

    def analysed(self, *fids):
        self.fns.update(f for f in fids if f)

    def floor(self, rule, n):
        """rule must have matched at least n instances"""
        self.floors[rule] = n

    def need(self, x, what):
        if x is None or x == [] or x is False:
            raise Fatal('anchor not found: ' + what)
        return x


def known():
    """[(property, key)] of findings, from known_findings.txt"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', l)
                if m:
                    out.append((m.group(1), m.group(2), m.group(3)))
    return out


def where_str(P, site):
    if not site:
        return '?'
    fid, sp = site[0], site[1]
    f = P.fns.get(fid) if P else None
    file = f.get('file') if f else None
    s = short_fn(fid)
    if sp is not None:
        return '%s (%s)' % (s, sp if isinstance(sp, str) else ('%s:%s' % (sp[0], sp[1]) if isinstance(sp, (list, tuple)) else '%s:%s' % (file, sp)))
    return s


def short_fn(fid):
    return fid.replace('procedural_modelling::', '')


def finish(rep, level, explanation, assumptions, t0, P=None):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for r, n in rep.floors.items():
        got = rep.byrule.get(r, [0, 0])[0]
        if got < n:
            rep.viol['floor|%s' % r] = ('rule %s matched %d instances, at least %d expected: the code it speaks about '
                                        'is gone or no longer recognised' % (r, got, n), None)
    kf = {(p, k): d for p, k, d in known()}
    listed = {k: kf[(rep.pid, k)] for k in rep.viol if (rep.pid, k) in kf}
    new = {k: v for k, v in rep.viol.items() if k not in listed}
    for k, d in listed.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (rep.pid, d, k))
    ev = {
        'property': rep.pid, 'tier': rep.tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': explanation,
            'obligations': rep.n, 'discharged': rep.ok,
            'undecided': len(rep.undecided),
            'undecided_list': [{'instance': k, 'why': w} for k, w in list(rep.undecided.items())[:40]],
            'rules': {r: {'instances': a, 'hold': b} for r, (a, b) in sorted(rep.byrule.items())},
            'functions_analysed': len(rep.fns),
            'functions': sorted(short_fn(f) for f in rep.fns)[:400],
            'paths_analysed': rep.paths,
            'samples': rep.samples[:40],
            'notes': rep.notes,
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', rep.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d hold, %d undecided, %d violations; %d functions, %d paths, %.1f s'
          % (rep.pid, rep.n, rep.ok, len(rep.undecided), len(new), len(rep.fns), rep.paths, time.time() - t0))
    for k in list(rep.undecided)[:10]:
        print('UNDECIDED', k, '--', rep.undecided[k])
    if new:
        rp = os.path.join(VERIF, 'evidence', 'replay-%s.json' % rep.pid)
        with open(rp, 'w') as f:
            json.dump([{'key': k, 'what': m, 'where': where_str(P, w)} for k, (m, w) in new.items()], f, indent=1)
        for k, (m, w) in list(new.items())[:30]:
            print('  %s\n    %s\n    at %s' % (k, m, where_str(P, w)))
        print('VIOLATION property=%s replay=%s' % (rep.pid, rp))
        return 1
    return 0
