"""Check context: obligations, violations, known findings, evidence."""
import json, os, sys, time, hashlib, traceback, subprocess, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SORO_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class AnalysisError(Exception):
    """The analysis itself is broken (vanished anchor, zero instances, harness does not compile)."""


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.oblig = []         # (text, status)   status in discharged / undecided
        self.notes = []
        self.analysed = {}
        self.explain = ''
        self.level = 'other'

    # -- results
    def ok(self, what):
        self.oblig.append((what, 'discharged'))

    def undecided(self, what):
        self.oblig.append((what, 'undecided'))

    def violate(self, key, text):
        """key: stable identity of the failing construct (never a line number)."""
        if any(k == key for k, _ in self.viol):
            return
        self.viol.append((key, text))

    def check(self, cond, what, key=None, text=None):
        if cond:
            self.ok(what)
        else:
            self.violate(key or what, text or what)
        return cond

    def note(self, s):
        self.notes.append(s)

    def need(self, n, minimum, what):
        self.analysed[what] = n
        if n < minimum:
            raise AnalysisError(f'{what}: found {n}, at least {minimum} expected - anchor vanished')

    @property
    def thorough(self):
        return self.tier == 'thorough'


def known_findings():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN '):
                head, _, desc = l.partition(' :: ')
                kv = dict(x.split('=', 1) for x in head.split()[1:])
                res.append((kv['property'], kv['key'], desc))
    return res


def finish(ctx, meta):
    known = {k: d for p, k, d in known_findings() if p == ctx.prop}
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(ctx.prop + '-'):
            os.unlink(os.path.join(rdir, f))
    real = []
    for key, text in ctx.viol:
        kk = key.replace(' ', '_')
        if kk in known:
            print(f'KNOWN-FINDING: property={ctx.prop} {known[kk]} [{text}]')
        else:
            real.append((kk, text))
    for i, (key, text) in enumerate(real):
        path = os.path.join(rdir, f'{ctx.prop}-{i}.txt')
        with open(path, 'w') as f:
            f.write(f'property: {ctx.prop}\nrule/construct: {key}\n{text}\nreplay: python3 {VERIF}/check.py {ctx.prop} {ctx.tier}\n')
        print(f'{ctx.prop}: {text}')
        print(f'VIOLATION property={ctx.prop} replay={path}')
    disch = [o for o, s in ctx.oblig if s == 'discharged']
    und = [o for o, s in ctx.oblig if s != 'discharged']
    analysed = ', '.join(f'{k}: {v}' for k, v in ctx.analysed.items())
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': meta['level'], 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(real),
        'coverage': {
            'explanation': f"{meta['technique']}. Rule: {ctx.explain} Analysed: {analysed}. "
                           f"Obligations: {len(ctx.oblig)}, discharged: {len(disch)}, undecided: {len(und)}, "
                           f"known findings: {len(ctx.viol) - len(real)}.",
            'obligations': len(ctx.oblig) + len(ctx.viol), 'discharged': len(disch),
            'undecided': und[:50], 'analysed': ctx.analysed,
            'sample_obligations': disch[:200], 'notes': ctx.notes[:50],
        },
    }
    if meta['level'] == 'proof':
        ev['coverage']['checker_cmd'] = f'python3 {VERIF}/check.py {ctx.prop} {ctx.tier}'
        ev['coverage']['trusted_base'] = ['clang 18 front end and optimiser', 'g++-12 front end and optimiser', '/verif/lib']
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{ctx.prop} [{ctx.tier}] obligations={len(ctx.oblig)+len(ctx.viol)} discharged={len(disch)} undecided={len(und)} "
          f"violations={len(real)} ({analysed}) {time.time()-ctx.t0:.1f}s")
    for u in und:
        print('  undecided:', u)
    return 1 if real else 0


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)


def srcfile(rel):
    p = os.path.join(REPO, rel)
    if not os.path.exists(p):
        raise AnalysisError(f'{rel} does not exist')
    return open(p, errors='replace').read()


def scratch(prefix='soro-verif-'):
    return tempfile.mkdtemp(prefix=prefix)
