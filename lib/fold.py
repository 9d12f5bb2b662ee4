"""Optimiser-as-normaliser.

A witness is a C++ predicate over the code in /repo: `bool w(args)` that is true exactly when the
specification agrees with the implementation. The witness is compiled together with /repo's current source and
the compiler's own intermediate representation is inspected: the obligation is discharged when dataflow
(SCCP, GVN, inst-combine, loop deletion ...) reduces the function to the constant `true` for all arguments.
Nothing is executed.  If it does not normalise to `true`, the same predicate is instantiated at constant
arguments taken from a boundary lattice; an instance that reduces to the constant `false` is a counterexample.
"""
import os, re, subprocess, time, itertools, concurrent.futures as cf
from common import *

def clang_flags(opt):
    return ['clang++-18', '-std=c++23', opt, '-S', '-emit-llvm', '-w', '-ferror-limit=5', '-D__cpp_concepts=202002L',
            '-DFMT_CONSTEVAL=', '-DFMT_DEPRECATED_OSTREAM', '-Wno-invalid-constexpr', '-DSTD',
            '-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize', '-fno-math-errno', '-fno-trapping-math',
            '-mllvm', '-disable-loop-idiom-all', '-mllvm', '-inline-threshold=3000', '-mllvm', '-inlinecold-threshold=3000', '-mllvm', '-inline-cold-callsite-threshold=3000', '-fno-vectorize', '-fno-slp-vectorize', '-fbracket-depth=1024',
            '-fconstexpr-steps=200000000',
            '-mllvm', '-unroll-threshold=6000', '-mllvm', '-unroll-max-iteration-count-to-analyze=64', '-mllvm', '-unroll-full-max-count=64',
            '-mllvm', '-memdep-block-scan-limit=20000', '-mllvm', '-memssa-check-limit=20000', '-mllvm', '-memdep-block-number-limit=1000']


def gcc_flags(opt):
    return ['g++-12', '-std=gnu++23', opt, '-S', '-w', '-fcoroutines', '-DFMT_CONSTEVAL=', '-DFMT_DEPRECATED_OSTREAM', '-DSTD',
            '-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize', '-fno-math-errno', '-fno-trapping-math',
            '-finline-limit=3000', '--param=max-completely-peeled-insns=6000', '--param=max-completely-peel-times=64', '-fdump-tree-optimized=/dev/stdout']


class W:
    def __init__(self, name, params, body, dom=None, what='', loc='', exhaustive=False, throws=False):
        self.throws = throws
        self.name, self.params, self.body, self.dom, self.what, self.loc = name, params, body, dom, what, loc
        self.exhaustive = exhaustive


def _parse_ll(txt, allow=None):
    """function name -> 'true' | 'false' | 'other'.
    'true': every return is the constant true and nothing but bookkeeping stores is left besides."""
    res = {}
    for m in re.finditer(r'^define [^\n]*? @([A-Za-z0-9_]+)\([^\n]*\{\n(.*?)^\}', txt, re.S | re.M):
        name, body = m.group(1), m.group(2)
        rets = re.findall(r'^\s+ret (.*?)(?:,.*)?$', body, re.M)
        calls = [c for c in re.findall(r'\b(?:call|invoke)\b[^@\n]*@([\w.$]+)', body)
                 if not re.match(r'llvm\.(lifetime|memset|memcpy|memmove|assume|experimental|dbg)', c) and not (allow and re.fullmatch(allow, c))]
        indirect = re.search(r'\b(call|invoke)\b[^@\n]*$', body, re.M)
        vals = set(rets)
        if rets and not calls and not indirect and 'unreachable' not in body and len(vals) == 1 and vals <= {'i1 true', 'i1 false'}:
            res[name] = vals.pop().split()[-1]
        elif not rets and calls and not indirect and all(re.fullmatch(r'witness_throw|__cxa_throw|__cxa_allocate_exception|_ZNSt\w*(error|exception)\w*C[12]\w*', c) for c in calls):
            res[name] = 'throws'  # ends in an exception for every input
        elif not rets and not [c for c in calls if c != 'llvm.trap'] and not indirect:
            res[name] = 'false'  # never returns: undefined behaviour (or a violated container precondition) for every input
        else:
            res[name] = 'other'
    return res


def _parse_gcc(txt):
    res = {}
    for m in re.finditer(r'^;; Function [^\n]*\(([A-Za-z0-9_]+), funcdef_no.*?\n(.*?)^\}', txt, re.S | re.M):
        name, body = m.group(1), m.group(2)
        st = [l.strip() for l in body.split('\n')]
        st = [l for l in st if l and (l.startswith('return') or '=' in l or 'if ' in l or '(' in l) and not l.startswith(';;')
              and not re.match(r'^(bool|_Bool|int|long|unsigned|double|float|struct|const|void|char|short)\b', l) and '<bb' not in l
              and not re.match(r'^# ', l)]
        # only a header line plus `return 1;`
        rets = [l for l in st if l.startswith('return')]
        others = [l for l in st if not l.startswith('return') and name not in l]
        if rets and not others and all(r == 'return 1;' for r in rets):
            res[name] = 'true'
        elif rets and not others and all(r == 'return 0;' for r in rets):
            res[name] = 'false'
        else:
            res[name] = 'other'
    return res


def verdict(w, v):
    if w.throws:
        return {'throws': 'true', 'true': 'false', 'false': 'false'}.get(v, v)
    return 'false' if v == 'throws' else v


def unwind(t, keep, k):
    """one level of recursion: the calls of a function that calls itself are directed to a copy of it that is not recursive
    itself (it calls the original), which the inliner accepts; the original is left alone so that it does not grow"""
    defs = [(m.group(1), m.start(), m.end()) for m in re.finditer(r'^define [^\n]*? @([\w.$]+)\([^\n]*\{\n.*?^\}\n', t, re.S | re.M)]
    rec = [d for d in defs if re.search(r'\bcall\b[^\n]*@' + re.escape(d[0]) + r'\(', t[d[1]:d[2]]) and '.rec' not in d[0]]
    if not rec:
        return t
    out, last = [], 0
    names = {d[0] for d in rec}
    for nm, a, b in defs:
        out.append(t[last:a])
        full = t[a:b]
        if nm in names:
            head, body = full.split('\n', 1)
            copy = re.sub(r' #\d+(?= |$)', '', head).replace(f'@{nm}(', f'@{nm}.rec{k}(')
            copy = re.sub(r'\b(noinline|optnone) ', '', copy)
            if nm not in keep:
                keep.add(nm)
                head = re.sub(r' #\d+(?= [^#]*\{$)', '', head)
                head = re.sub(r' (personality [^{]*)?\{$', lambda m: ' noinline optnone ' + (m.group(1) or '') + '{', head)
            out += [head, '\n', body, copy, '\n', body]
        else:
            for x in names:
                full = full.replace(f'@{x}(', f'@{x}.rec{k}(')
            out.append(full)
        last = b
    out.append(t[last:])
    return ''.join(out)


class Fold:
    budget = 420  # seconds after the start of the check, beyond which nothing but short attempts are made

    def __init__(self, ctx, preamble, incs=(), defs=('-DNDEBUG',), stubs=False, gcc=True, prelude=True, allow=None, deep=False, peel=9, again=3, inl=30000, nest=False, rec=0):
        self.inl, self.nest, self.rec = inl, nest, rec
        self.deep, self.peel, self.again = deep, peel, again
        self.allow = allow  # bookkeeping calls (lazy initialisation guards) that may remain beside the constant
        self.ctx, self.preamble, self.incs, self.defs, self.gcc = ctx, preamble, list(incs), list(defs), gcc
        self.ws = []
        self.stubs, self.prelude = stubs, prelude

    def add(self, name, params, body, dom=None, what='', loc='', exhaustive=False, throws=False):
        """throws: the witness holds iff it ends in an exception"""
        assert re.match(r'^\w+$', name), name
        assert name not in {w.name for w in self.ws}, name
        if not re.search(r'\breturn\b', body):
            body = f'return ({body});'
        self.ws.append(W(name, params, body, dom, what or name, loc, exhaustive, throws))

    def _unit(self, ws, insts=None):
        s = ['#define WITNESS_UNIT 1']
        s.append(self.preamble)
        s.append('#define W_INL static inline __attribute__((always_inline))')
        for w in ws:
            s.append(f'W_INL bool impl_{w.name}({w.params}) {{ {w.body} }}')
            if insts is None:
                args = ', '.join(self._argnames(w.params))
                s.append(f'extern "C" __attribute__((noinline)) bool {w.name}({w.params}) {{ return impl_{w.name}({args}); }}')
        for nm, w, args in insts or []:
            s.append(f'extern "C" __attribute__((noinline)) bool {nm}() {{ return impl_{w.name}({", ".join(args)}); }}')
        return '\n'.join(s) + '\n'

    @staticmethod
    def _split(params):
        out, depth, cur = [], 0, ''
        for c in params:
            if c in '<([{':
                depth += 1
            if c in '>)]}':
                depth -= 1
            if c == ',' and depth == 0:
                out.append(cur.strip()); cur = ''
            else:
                cur += c
        if cur.strip():
            out.append(cur.strip())
        return out

    @classmethod
    def _argnames(cls, params):
        return [re.search(r'(\w+)$', p).group(1) for p in cls._split(params)]

    def _compile(self, src, tag, comp, opt):
        d = self.dir
        f = os.path.join(d, f'{tag}.cc')
        open(f, 'w').write(src)
        inc = [f'-I{i}' for i in self.incs] + [f'-I{REPO}/include', f'-I{REPO}/web/server/include']
        if self.stubs:
            inc += ['-isystem', f'{VERIF}/stubs']
        # the build's own prelude supplies the standard headers some project headers rely on
        if self.prelude:
            inc += ['-include', '/opt/vp/soro/prelude.h']
        left = lambda: max(5, min(400, self.ctx.t0 + self.budget - time.time()))
        if comp == 'clang+':
            # peel every loop a few times and optimise again: loops whose trip count only follows from (constant) data
            shim = ['-isystem', f'{VERIF}/stubs/shim']
            peel = ['-mllvm', '-unroll-allow-peeling', '-mllvm', f'-unroll-force-peel-count={self.peel}', '-mllvm', '-unroll-peel-max-count=12', '-mllvm', f'-inline-threshold={self.inl}', '-mllvm', f'-inlinecold-threshold={self.inl}', '-mllvm', f'-inline-cold-callsite-threshold={self.inl}']
            if self.nest:  # loops around loops as well, one iteration per round
                peel += ['-mllvm', '-unroll-allow-loop-nests-peeling']
            ll = os.path.join(d, f'{tag}.ll')
            r = sh(clang_flags(opt) + peel + shim + self.defs + inc + [f, '-o', ll], timeout=left())
            if r.returncode != 0:
                return None, r.stderr
            fl = [x for x in clang_flags(opt) if x not in ('-std=c++23', '-Wno-invalid-constexpr') and not x.startswith('-D') and not x.startswith('-fconstexpr')]
            # clang 18 keeps await_suspend out of line until the coroutine is split; it is by now
            t = re.sub(r'\bnoinline ', '', open(ll).read())
            # only the witnesses are of interest: everything else may vanish once it is inlined
            t = re.sub(r'^define dso_local (?=[^\n]*@_Z)', 'define internal ', t, flags=re.M)
            t = re.sub(r'^(@_Z\S+) = (?:dso_local )?(unnamed_addr )?alias ', r'\1 = internal \2alias ', t, flags=re.M)
            kept = set()
            if self.rec:
                t = unwind(t, kept, 0)
            open(ll, 'w').write(t)
            for k in range(self.again):
                r = sh(fl + peel + ['-x', 'ir', ll, '-o', ll + f'{k}.ll'], timeout=left())
                if r.returncode != 0:
                    return None, r.stderr
                ll = ll + f'{k}.ll'
                # a peeled loop would otherwise not be unrolled any more
                t = re.sub(r', !llvm\.loop !\d+', '', open(ll).read())
                if self.rec:
                    t = unwind(t, kept, k + 1)
                open(ll, 'w').write(t)
                r = sh(fl + ['-x', 'ir', ll, '-o', ll + '.u.ll'], timeout=left())
                if r.returncode != 0:
                    return None, r.stderr
                ll = ll + '.u.ll'
                res = _parse_ll(open(ll).read(), self.allow)
                if all(v != 'other' for w, v in res.items() if not w.startswith('_')):
                    return res, ''
            return _parse_ll(open(ll).read(), self.allow), ''
        if comp == 'clang':
            shim = ['-isystem', f'{VERIF}/stubs/shim']
            r = sh(clang_flags(opt) + shim + self.defs + inc + [f, '-o', '-'], timeout=400 if not tag.startswith('inst') else left())
            txt = r.stdout
        else:
            r = sh(gcc_flags(opt) + self.defs + inc + [f, '-o', '/dev/null'], timeout=400)
            txt = r.stdout
        if r.returncode != 0:
            return None, r.stderr
        return (_parse_ll(txt, self.allow) if comp == 'clang' else _parse_gcc(txt)), ''

    def _round(self, ws, comp, opt, chunk=None):
        n = len(ws)
        if not n:
            return {}
        k = chunk or max(1, min(8, (n + 39) // 40 if comp != 'clang+' else (n + 7) // 8))
        parts = [ws[i::k] for i in range(k)]
        res = {}
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(self._compile, self._unit(p), f'{comp}{opt}_{i}', comp, opt) for i, p in enumerate(parts)]
            for p, fu in zip(parts, futs):
                try:
                    r, err = fu.result()
                except subprocess.TimeoutExpired:
                    if comp == 'clang' and opt == '-O2':
                        raise AnalysisError('a witness unit did not compile in time')
                    continue
                if r is None:
                    if comp != 'clang' or opt != '-O2':
                        continue
                    self.err = err
                    self._bisect(p, comp, opt, res, ex)
                else:
                    res.update(r)
        return res

    def _bisect(self, p, comp, opt, res, ex):
        """find the witnesses that do not compile"""
        if not getattr(self, 'pre_ok', None):
            r, err = self._compile(self._unit([]), 'pre', comp, '-O0')
            if r is None:
                raise AnalysisError('the current tree does not compile in a witness unit:\n' + '\n'.join(err.split('\n')[:12]))
            self.pre_ok = True
        work = [p]
        while work:
            nxt = []
            futs = [(g, ex.submit(self._compile, self._unit(g), f'b_{g[0].name}_{len(g)}', comp, opt)) for g in work]
            for g, fu in futs:
                r, err = fu.result()
                if r is not None:
                    res.update(r)
                elif len(g) == 1:
                    res[g[0].name] = 'error'
                    g[0].err = err
                else:
                    k = max(1, (len(g) + 3) // 4)
                    nxt += [g[i:i + k] for i in range(0, len(g), k)]
            work = nxt

    def run(self, cap=600):
        """discharges everything into ctx"""
        ctx = self.ctx
        self.dir = scratch()
        try:
            todo = list(self.ws)
            proven, refuted, broken = {}, {}, []
            rounds = ([('clang', '-O2')] if not (self.deep == 'only' and self.nest) else []) + ([('clang', '-O3')] if self.deep != 'only' else []) + ([('clang+', '-O3')] if self.deep else []) + ([('gcc', '-O2'), ('gcc', '-O3')] if self.gcc else [])
            for comp, opt in rounds:
                if not todo:
                    break
                r = self._round(todo, comp, opt)
                nxt = []
                for w in todo:
                    v = verdict(w, r.get(w.name))
                    if v == 'true':
                        proven[w.name] = f'{comp} {opt}'
                    elif v == 'error':
                        broken.append(w)
                    elif v == 'false':
                        refuted[w.name] = 'for every input'
                    else:
                        nxt.append(w)
                todo = nxt
            self.proven = proven
            if broken:
                for w in broken:
                    e = [l for l in getattr(w, 'err', '').split('\n') if 'error:' in l][:1]
                    ctx.undecided(f'{w.what} ({w.name}): witness no longer compiles: {e[0] if e else "?"}')
                if 2 * len(broken) > len(self.ws):
                    raise AnalysisError(f'{len(broken)} of {len(self.ws)} witnesses do not compile against the current tree:\n' + getattr(broken[0], 'err', '')[:1500])
            und = []
            if todo:
                insts = []
                for w in todo:
                    if not w.dom:
                        continue
                    combos = list(itertools.islice(itertools.product(*w.dom), 200000))
                    if len(combos) > cap:
                        step = len(combos) / cap
                        combos = [combos[int(i * step)] for i in range(cap)]
                    for j, c in enumerate(combos):
                        insts.append((f'{w.name}__{j}', w, [str(x) for x in c]))
                vals = {}
                k = max(1, min(8, len(insts) // 50 + 1))
                with cf.ThreadPoolExecutor(8) as ex:
                    futs = [ex.submit(self._compile, self._unit(todo, insts[i::k]), f'inst_{i}', 'clang', '-O2') for i in range(k)] if insts else []
                    for fu in futs:
                        try:
                            r, err = fu.result()
                        except subprocess.TimeoutExpired:
                            continue
                        if r:
                            vals.update(r)
                if self.deep:
                    # a few instances per remaining witness, with loops peeled as well
                    more = []
                    for w in todo[:120]:
                        mine = [x for x in insts if x[1] is w and verdict(w, vals.get(x[0])) not in ('true', 'false')]
                        more += mine[::max(1, len(mine) // 4)][:4]
                    if more and not any(verdict(w, vals.get(nm)) == 'false' for nm, w, _ in insts):
                        k = max(1, min(8, len(more) // 4))
                        with cf.ThreadPoolExecutor(8) as ex:
                            futs = [ex.submit(self._compile, self._unit(todo, more[i::k]), f'deep_{i}', 'clang+', '-O3') for i in range(k)]
                            for fu in futs:
                                try:
                                    r, err = fu.result()
                                except subprocess.TimeoutExpired:
                                    continue
                                if r:
                                    vals.update({a: b for a, b in r.items() if b in ('true', 'false', 'throws')})
                for w in todo:
                    bad = [(nm, a) for nm, ww, a in insts if ww is w and verdict(w, vals.get(nm)) == 'false']
                    good = [1 for nm, ww, a in insts if ww is w and verdict(w, vals.get(nm)) == 'true']
                    if bad:
                        refuted[w.name] = 'for input (' + ', '.join(f'{p} = {x}' for p, x in zip(self._split(w.params), bad[0][1])) + ')'
                    elif w.exhaustive and len(good) == len([1 for nm, ww, a in insts if ww is w]):
                        proven[w.name] = f'clang -O2 for each of the {len(good)} values of its domain'
                    else:
                        und.append((w, len(good)))
            for w in self.ws:
                if w.name in proven:
                    ctx.ok(f'{w.what} [{proven[w.name]}: folds to true]')
                elif w.name in refuted:
                    ctx.violate(w.name, f'{w.loc}: {w.what} - refuted {refuted[w.name]} (witness {w.name}: `{w.body[:400]}{"..." if len(w.body) > 400 else ""}` reduces to false)')
            for w, g in und:
                ctx.undecided(f'{w.what} ({w.name}): not normalised; no counterexample in the boundary lattice ({g} constant instances hold)')
            return proven, refuted, und
        finally:
            (None if os.environ.get("KEEPDIR") else shutil.rmtree(self.dir, ignore_errors=True))


I64 = ['INT64_MIN', '-1', '0', '1', '2', '59', '60', '3600', '86400', 'INT32_MAX', 'INT64_MAX', '-86401', '1700000000']
