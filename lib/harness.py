"""Common frame of every check: arguments, verdicts, replay files, known findings, evidence."""
import argparse, hashlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build, run as R


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.b = build.Builder()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known_seen = set()
        self.inconclusive = 0
        self.rule = ''
        self.level = 'exploration'
        self.assumptions = []
        self.known = load_known(prop)
        self.budget = float(os.environ.get('VERIF_BUDGET', '0')) or (240.0 if self.quick else 780.0)

    # ------------------------------------------------------------ bookkeeping
    def left(self): return self.budget - (time.time() - self.t0)
    def n(self, quick, thorough): return quick if self.quick else thorough
    def tmp(self, *p):
        d = os.path.join(self.b.dir, *p); os.makedirs(os.path.dirname(d), exist_ok=True); return d
    def count(self, key, k=1): self.counters[key] = self.counters.get(key, 0) + k
    def ev(self, k=1): self.evaluations += k
    def nt(self, key):
        self.nontrivial.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
    def sample(self, x, limit=6):
        if len(self.samples) < limit: self.samples.append(x)

    def violation(self, sig, what, replay):
        """sig: stable identification of what failed; replay: text that reproduces it."""
        for k in self.known:
            if k['sig'] == sig:
                if sig not in self.known_seen:
                    self.known_seen.add(sig)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
                return
        if any(v['sig'] == sig for v in self.violations): return
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.txt' % (self.prop, hashlib.sha1(sig.encode()).hexdigest()[:10]))
        with open(path, 'w') as f: f.write('property %s\n%s\n\n%s\n' % (self.prop, what, replay))
        self.violations.append({'sig': sig, 'what': what, 'path': path})
        if len(self.violations) <= 10:
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            print('  ' + what.replace('\n', '\n  ')[:1500], flush=True)

    def write_evidence(self):
        d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.nontrivial), 'rule': self.rule,
               'samples': self.samples or ['none'], 'observed': self.counters, 'inconclusive': self.inconclusive}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations), 'assumptions': self.assumptions}
        with open(os.path.join(d, self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)


def load_known(prop):
    """known_findings.txt lines:  finding: property=<id> sig=<signature> :: <what fails>
    (fixed: lines are a record and suppress nothing)"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property=%s ' % prop):
                rest = line[len('finding: property=%s ' % prop):]
                sig, _, what = rest.partition(' :: ')
                out.append({'sig': sig[len('sig='):].strip(), 'what': what.strip()})
    return out


def main(mod, prop, tier, seed):
    ctx = Ctx(prop, tier, seed)
    try:
        mod.check(ctx)
        if not ctx.violations and (ctx.evaluations == 0 or len(ctx.nontrivial) == 0):
            ctx.violation('observed-nothing', 'the run observed nothing the property speaks about: %s' % ctx.counters,
                          'run the check again')
    except build.BuildError as e:
        print('BUILD FAILED: %s' % e, flush=True)
        ctx.b.close()
        return 3
    except Exception:
        traceback.print_exc()
        ctx.b.close()
        return 4
    ctx.write_evidence()
    ctx.b.close()
    print('%s %s: %d evaluations, %d distinct non-trivial, %d inconclusive, %d violations, %.1fs  %s' % (
        prop, tier, ctx.evaluations, len(ctx.nontrivial), ctx.inconclusive, len(ctx.violations), time.time() - ctx.t0,
        json.dumps(ctx.counters, default=str)[:1500]), flush=True)
    return 1 if ctx.violations else 0
