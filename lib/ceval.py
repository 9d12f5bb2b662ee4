"""Constant propagation over the resolved syntax tree.

Evaluates a function abstractly for given constant arguments; unknown values are TOP and a branch on TOP explores
both sides, so the result is the set of all outcomes the function can have: ('ret', value), ('throw', type).
"""
import sys
from facts import children

sys.setrecursionlimit(40000)


class Top:
    def __repr__(self):
        return 'TOP'


TOP = Top()


class Rec(dict):
    def __hash__(self):
        return id(self)


class Budget(Exception):
    pass


def freeze(v):
    if isinstance(v, list):
        return ('list',) + tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return ('rec',) + tuple(sorted((k, freeze(x)) for k, x in v.items()))
    return v


class Eval:
    def __init__(self, prog, maxsteps=200000, hooks=None):
        self.p, self.steps, self.max = prog, 0, maxsteps
        self.hooks = hooks or {}

    def call(self, f, args, this=TOP, depth=0):
        """-> list of outcomes"""
        if depth > 150 or f.get('body') is None:
            return [('ret', TOP)]
        env = {}
        for p, a in zip(f['params'], args):
            env[p['id']] = a
        for p in f['params'][len(args):]:
            env[p['id']] = self.expr1(p['init'], {}, depth) if p.get('init') else TOP
        env['this'] = this
        outs = []
        for kind, val, e in self.stmt(f['body'], env, depth):
            if kind == 'ret':
                outs.append(('ret', val))
            elif kind == 'throw':
                outs.append(('throw', val))
            elif kind == 'next':
                outs.append(('ret', None))
        uniq, seen = [], set()
        for o in outs:
            k = repr(freeze(o[1])) + o[0]
            if k not in seen:
                seen.add(k)
                uniq.append(o)
        return uniq

    # ---- statements: list of (kind, value, env) with kind next/ret/throw/brk/cont
    def stmt(self, s, env, depth):
        self.steps += 1
        if self.steps > self.max:
            raise Budget()
        if s is None:
            return [('next', None, env)]
        k = s['k']
        if k == 'block':
            return self.seq(s['a'], env, depth)
        if k == 'decl':
            for v in s['vars']:
                if v.get('bind'):
                    val = self.expr1(v.get('init'), env, depth)
                    for i, b in enumerate(v['bind']):
                        env[b['id']] = self.component(val, i)
                    env[v['id']] = val
                    continue
                if v.get('init') is not None:
                    r = self.exprs(v['init'], env, depth)
                    if len(r) == 1 and r[0][0] == 'throw':
                        return [('throw', r[0][1], env)]
                    env[v['id']] = r[0][1] if len(r) == 1 else TOP
                else:
                    env[v['id']] = TOP
            return [('next', None, env)]
        if k == 'return':
            if s.get('e') is None:
                return [('ret', None, env)]
            return [('ret' if kk == 'val' else 'throw', v, env) for kk, v in self.exprs(s['e'], env, depth)]
        if k == 'if':
            res = []
            if s.get('init'):
                self.stmt(s['init'], env, depth)
            if s.get('var'):
                v = s['var']
                env[v['id']] = self.expr1(v.get('init'), env, depth)
            c = self.expr1(s['cond'], env, depth)
            c = self.truth(c)
            if c is not False:
                res += self.stmt(s['then'], dict(env), depth)
            if c is not True:
                res += self.stmt(s.get('else'), dict(env), depth)
            return res
        if k == 'switch':
            if s.get('init'):
                self.stmt(s['init'], env, depth)
            c = self.expr1(s['cond'], env, depth)
            return self.switch(s, c, env, depth)
        if k in ('case', 'default'):
            return self.stmt(s.get('sub'), env, depth)
        if k == 'break':
            return [('brk', None, env)]
        if k == 'continue':
            return [('cont', None, env)]
        if k == 'rfor':
            rng = self.expr1(s['range'], env, depth)
            if isinstance(rng, Rec) and 'data_' in rng:
                rng = rng['data_']
            if isinstance(rng, list):
                states, done = [env], []
                for x in rng:
                    nxt = []
                    for e in states:
                        e = dict(e)
                        v = s['var']
                        if v.get('bind'):
                            for i, b in enumerate(v['bind']):
                                e[b['id']] = self.component(x, i)
                        e[v['id']] = x
                        for kk, val, e2 in self.stmt(s['body'], e, depth):
                            if kk in ('next', 'cont'):
                                nxt.append(e2)
                            elif kk == 'brk':
                                done.append(('next', None, e2))
                            else:
                                done.append((kk, val, e2))
                    states = nxt
                    if len(states) > 64:
                        raise Budget()
                return done + [('next', None, e) for e in states]
            # unknown range: zero or one abstract iteration with everything unknown
            e = dict(env)
            self.havoc(s['body'], e)
            v = s['var']
            e[v['id']] = TOP
            for b in v.get('bind') or ():
                e[b['id']] = TOP
            res = [('next', None, e)]
            for kk, val, e2 in self.stmt(s['body'], dict(e), depth):
                if kk in ('ret', 'throw'):
                    res.append((kk, val, e2))
            return res
        if k in ('for', 'while', 'do'):
            if s.get('init'):
                self.stmt(s['init'], env, depth)
            states, done = [env], []
            first = k == 'do'
            for _ in range(400):
                nxt = []
                for e in states:
                    c = True if first else (self.truth(self.expr1(s['cond'], e, depth)) if s.get('cond') else True)
                    if c is not True:
                        done.append(('next', None, e))
                    if c is False:
                        continue
                    if c is None:
                        e = dict(e)
                        self.havoc(s, e)
                    for kk, val, e2 in self.stmt(s['body'], dict(e), depth):
                        if kk in ('next', 'cont'):
                            if s.get('inc'):
                                self.expr1(s['inc'], e2, depth)
                            if c is None:
                                self.havoc(s, e2)
                                done.append(('next', None, e2))
                            else:
                                nxt.append(e2)
                        elif kk == 'brk':
                            done.append(('next', None, e2))
                        else:
                            done.append((kk, val, e2))
                first = False
                states = nxt
                if not states:
                    return done
                if len(states) > 64:
                    raise Budget()
            raise Budget()
        if k == 'try':
            res = []
            for kk, val, e in self.stmt(s['body'], dict(env), depth):
                if kk == 'throw':
                    for h in s['handlers']:
                        e2 = dict(env)
                        self.havoc(s['body'], e2)
                        res += self.stmt(h['body'], e2, depth)
                else:
                    res.append((kk, val, e))
            return res
        if k in ('nop', 'goto'):
            return [('next', None, env)]
        if k == 'other' and 'Stmt' in s.get('cls', ''):
            self.havoc(s, env)
            return [('next', None, env)]
        # expression statement
        r = self.exprs(s, env, depth)
        out = []
        if any(kk == 'val' for kk, _ in r):
            out.append(('next', None, env))
        out += [('throw', v, env) for kk, v in r if kk == 'throw']
        return out

    def seq(self, stmts, env, depth):
        states, done = [env], []
        for s in stmts:
            nxt = []
            for e in states:
                for kk, val, e2 in self.stmt(s, e, depth):
                    if kk == 'next':
                        nxt.append(e2)
                    else:
                        done.append((kk, val, e2))
            states = self.merge(nxt)
            if not states:
                break
        return done + [('next', None, e) for e in states]

    @staticmethod
    def merge(envs):
        if len(envs) <= 1:
            return envs
        uniq, seen = [], set()
        for e in envs:
            k = repr([(a, freeze(b)) for a, b in sorted(e.items(), key=lambda x: str(x[0]))])
            if k not in seen:
                seen.add(k)
                uniq.append(e)
        if len(uniq) > 32:
            # join
            j = {}
            for k in uniq[0]:
                vs = {repr(freeze(e.get(k, TOP))) for e in uniq}
                j[k] = uniq[0][k] if len(vs) == 1 else TOP
            return [j]
        return uniq

    def havoc(self, s, env):
        for n in walk_all(s):
            if n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                t = n['a'][0]
                if t and t['k'] == 'ref' and 'id' in t:
                    env[t['id']] = TOP
            if n['k'] == 'un' and n['op'] in ('++', '--') and n['a'][0]['k'] == 'ref' and 'id' in n['a'][0]:
                env[n['a'][0]['id']] = TOP
            if n['k'] == 'call':
                for x in [n.get('o')] + n.get('a', []):
                    if x and x['k'] == 'ref' and 'id' in x and not isinstance(env.get(x['id']), (int, str, bool, float)):
                        env[x['id']] = TOP

    def switch(self, s, c, env, depth):
        body = s['body']
        items = body['a'] if body['k'] == 'block' else [body]
        flat = []
        for it in items:
            labels = []
            while it is not None and it['k'] in ('case', 'default'):
                labels.append(it)
                it = it.get('sub')
            flat.append((labels, it))
        starts, default = [], None
        for i, (labels, _) in enumerate(flat):
            for l in labels:
                if l['k'] == 'default':
                    default = i
                elif c is TOP:
                    starts.append(i)
                else:
                    v = int(l['val']['v']) if l['val'] and 'v' in l['val'] else TOP
                    if l.get('hi') and 'v' in l['hi']:
                        if isinstance(v, int) and v <= c <= int(l['hi']['v']):
                            starts.append(i)
                    elif v is TOP or v == c:
                        starts.append(i)
        if not starts or c is TOP:
            if default is not None:
                starts.append(default)
            else:
                starts.append(len(flat))
        res = []
        for st in dict.fromkeys(starts):
            for kk, val, e in self.seq([x for _, x in flat[st:] if x is not None], dict(env), depth):
                res.append(('next', None, e) if kk == 'brk' else (kk, val, e))
        return res

    # ---- expressions
    @staticmethod
    def truth(v):
        if v is TOP:
            return None
        if isinstance(v, (int, float, bool)):
            return bool(v)
        return None if not isinstance(v, str) else True

    @staticmethod
    def component(v, i):
        if isinstance(v, (list, tuple)) and i < len(v):
            return v[i]
        if isinstance(v, Rec):
            ks = list(v)
            if i < len(ks):
                return v[ks[i]]
        return TOP

    def expr1(self, n, env, depth):
        r = self.exprs(n, env, depth)
        vals = [v for k, v in r if k == 'val']
        return vals[0] if len(vals) == 1 and len(r) == 1 else TOP

    def exprs(self, n, env, depth):
        """-> list of ('val', v) / ('throw', v)"""
        self.steps += 1
        if self.steps > self.max:
            raise Budget()
        if n is None:
            return [('val', TOP)]
        k = n['k']
        if k == 'throw':
            return [('throw', n['a'][0].get('t') if n['a'][0] else '')]
        if 'v' in n and k not in ('call', 'bin', 'un', 'cond'):
            return [('val', int(n['v']))]
        if k == 'str':
            return [('val', n.get('s', TOP))]
        if k == 'flit':
            return [('val', float(n['fv']))]
        if k == 'null':
            return [('val', 0)]
        if k == 'this':
            return [('val', env.get('this', TOP))]
        if k == 'ref':
            if 'id' in n:
                return [('val', env.get(n['id'], TOP))]
            d = n.get('d') or {}
            if d.get('k') in ('Function', 'CXXMethod'):
                return [('val', ('fn', d))]
            if d.get('k') == 'Var':
                return [('val', self.global_(d, depth))]
            return [('val', TOP)]
        if k == 'mem':
            b = self.expr1(n['b'], env, depth) if n.get('b') else TOP
            if isinstance(b, Rec):
                return [('val', b.get(n['n'], TOP))]
            if isinstance(b, tuple) and n['n'] in ('first', 'second'):
                return [('val', b[0 if n['n'] == 'first' else 1])]
            if isinstance(b, list) and n['n'] in ('first', 'second') and len(b) == 2:
                return [('val', b[0 if n['n'] == 'first' else 1])]
            return [('val', TOP)]
        if k == 'cond':
            c = self.truth(self.expr1(n['a'][0], env, depth))
            r = []
            if c is not False:
                r += self.exprs(n['a'][1], env, depth)
            if c is not True:
                r += self.exprs(n['a'][2], env, depth)
            return r
        if k == 'bin':
            return [('val', self.binop(n, env, depth))]
        if k == 'un':
            op, x = n['op'], n['a'][0]
            v = self.expr1(x, env, depth)
            if op == '&' or op == '*':
                return [('val', v)]
            if op in ('++', '--'):
                nv = v + (1 if op == '++' else -1) if isinstance(v, int) else TOP
                if x['k'] == 'ref' and 'id' in x:
                    env[x['id']] = nv
                return [('val', v if n.get('post') else nv)]
            if v is TOP:
                return [('val', TOP)]
            if op == '!':
                t = self.truth(v)
                return [('val', TOP if t is None else int(not t))]
            if op == '-' and isinstance(v, (int, float)):
                return [('val', -v)]
            if op == '~' and isinstance(v, int):
                return [('val', ~v)]
            return [('val', v if op == '+' else TOP)]
        if k == 'cast':
            v = self.expr1(n['a'][0], env, depth)
            t = n.get('t', '')
            if isinstance(v, float) and any(x in t for x in ('int', 'long', 'short', 'char')):
                v = int(v)
            v = self.wrap(v, t)
            return [('val', v)]
        if k == 'init':
            vals = [self.expr1(x, env, depth) if x else 0 for x in n['a']]
            if n.get('fields') and not n.get('nbases') and len(n['fields']) == len(vals) and 'std::' not in n.get('t', '').split('<')[0]:
                return [('val', Rec(zip(n['fields'], vals)))]
            # std::array<T, N>: {{...}}
            if n.get('t', '').startswith('std::array') and len(vals) == 1 and isinstance(vals[0], list):
                return [('val', vals[0])]
            return [('val', vals)]
        if k == 'ctor':
            return self.ctor(n, env, depth)
        if k == 'sub':
            b, i = self.expr1(n['a'][0], env, depth), self.expr1(n['a'][1], env, depth)
            return [('val', self.index(b, i))]
        if k == 'call':
            return self.callx(n, env, depth)
        if k == 'lambda':
            return [('val', ('lam', n, env))]
        if k == 'zero':
            return [('val', 0)]
        # unknown: still visit children for throws
        return [('val', TOP)]

    @staticmethod
    def index(b, i):
        if isinstance(b, Rec) and len(b) == 1:
            b = list(b.values())[0]
        if isinstance(b, (list, tuple)) and isinstance(i, int) and 0 <= i < len(b):
            return b[i]
        if isinstance(b, str) and isinstance(i, int) and 0 <= i <= len(b):
            return ord(b[i]) if i < len(b) else 0
        return TOP

    def global_(self, d, depth):
        for v in self.p.vars.values():
            if v['q'] == d['q']:
                if v.get('const') and v.get('init'):
                    key = ('g', d['q'])
                    if not hasattr(self, 'gcache'):
                        self.gcache = {}
                    if key not in self.gcache:
                        self.gcache[key] = TOP
                        self.gcache[key] = self.expr1(v['init'], {}, depth + 1)
                    return self.gcache[key]
        return TOP

    def binop(self, n, env, depth):
        op = n['op']
        a = self.expr1(n['a'][0], env, depth)
        if op == '&&':
            t = self.truth(a)
            if t is False:
                return 0
            u = self.truth(self.expr1(n['a'][1], env, depth))
            if u is False:
                return 0
            return 1 if t and u else TOP
        if op == '||':
            t = self.truth(a)
            if t is True:
                return 1
            u = self.truth(self.expr1(n['a'][1], env, depth))
            if u is True:
                return 1
            return 0 if t is False and u is False else TOP
        b = self.expr1(n['a'][1], env, depth)
        if op == ',':
            return b
        if op == '=':
            self.assign(n['a'][0], b, env, depth)
            return b
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.wrap(self.arith(op[:-1], a, b), n.get('t', ''))
            self.assign(n['a'][0], v, env, depth)
            return v
        return self.wrap(self.arith(op, a, b), n.get('t', ''))

    WIDTH = {'unsigned int': 32, 'unsigned char': 8, 'unsigned short': 16, 'unsigned long': 64, 'unsigned long long': 64}

    def wrap(self, v, t):
        w = self.WIDTH.get(t.replace('const ', ''))
        if w and isinstance(v, int) and not isinstance(v, bool):
            return v & ((1 << w) - 1)
        return v

    def assign(self, t, v, env, depth):
        if t['k'] == 'ref' and 'id' in t:
            env[t['id']] = v
        elif t['k'] == 'mem' and t.get('b'):
            b = self.expr1(t['b'], env, depth)
            if isinstance(b, Rec):
                b[t['n']] = v
        elif t['k'] in ('sub', 'call'):
            a = t['a']
            b = self.expr1(a[0], env, depth) if a else TOP
            i = self.expr1(a[1], env, depth) if len(a) > 1 else TOP
            if isinstance(b, list):
                if isinstance(i, int) and 0 <= i < len(b):
                    b[i] = v
                else:
                    for j in range(len(b)):
                        b[j] = TOP

    @staticmethod
    def arith(op, a, b):
        if a is TOP or b is TOP:
            return TOP
        try:
            if op in ('==', '!=', '<', '>', '<=', '>='):
                if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
                    if op == '==':
                        return int(freeze(a) == freeze(b))
                    if op == '!=':
                        return int(freeze(a) != freeze(b))
                    return TOP
                if isinstance(a, str) != isinstance(b, str):
                    return TOP
                return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
            if isinstance(a, str) or isinstance(b, str):
                return a + b if op == '+' and isinstance(a, str) and isinstance(b, str) else TOP
            if op in '+-*':
                return a + b if op == '+' else a - b if op == '-' else a * b
            if op == '/':
                if b == 0:
                    return TOP
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                return a / b
            if op == '%':
                return TOP if b == 0 else (abs(a) % abs(b)) * (1 if a >= 0 else -1)
            if op in ('&', '|', '^', '<<', '>>'):
                return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op]
        except Exception:
            return TOP
        return TOP

    def ctor(self, n, env, depth):
        t = n.get('t', '')
        args = n['a']
        if n.get('copy') or n.get('move'):
            return self.exprs(args[0], env, depth)
        base = t.split('<')[0]
        if 'basic_string' in base:
            if not args:
                return [('val', '')]
            return self.exprs(args[0], env, depth)
        if base in ('std::pair', 'std::tuple'):
            return [('val', tuple(self.expr1(a, env, depth) for a in args))]
        if base in ('std::vector', 'std::map', 'std::set', 'std::unordered_map', 'std::array', 'std::initializer_list', 'std::unordered_set'):
            if not args or n.get('default'):
                return [('val', [])]
            v = self.expr1(args[0], env, depth)
            if isinstance(v, list):
                return [('val', list(v))]
            return [('val', TOP)]
        if 'optional' in base and len(args) == 1:
            return self.exprs(args[0], env, depth)
        # repo constructor: run its member initialisers
        d = n.get('d') or {}
        f = self.p.funcs.get(d.get('u', ''))
        if f and f.get('ctor') and f.get('inits') is not None:
            e = {}
            for i, p in enumerate(f['params']):
                e[p['id']] = self.expr1(args[i], env, depth) if i < len(args) else TOP
            r = Rec()
            for it in f['inits']:
                if 'field' in it:
                    r[it['field']] = self.expr1(it['init'], e, depth + 1)
            return [('val', r)]
        if len(args) == 1 and not t.startswith('std::'):
            return self.exprs(args[0], env, depth)
        return [('val', TOP)]

    def apply(self, fn, args, depth):
        if isinstance(fn, tuple) and fn and fn[0] == 'lam':
            n, env = fn[1], fn[2]
            us = [n['u']] + list(n.get('insts') or ())
            for u in us:
                f = self.p.funcs.get(u)
                if f and f.get('body') is not None and not f.get('dep'):
                    e = dict(env)
                    for p, a in zip(f['params'], args):
                        e[p['id']] = a
                    outs = []
                    for kk, val, _ in self.stmt(f['body'], e, depth + 1):
                        outs.append(('throw', val) if kk == 'throw' else ('val', val))
                    return outs
        if isinstance(fn, tuple) and fn and fn[0] == 'fn':
            f = self.p.funcs.get(fn[1].get('u', ''))
            if f:
                return [('val' if k == 'ret' else 'throw', v) for k, v in self.call(f, args, depth=depth + 1)]
        return [('val', TOP)]

    def callx(self, n, env, depth):
        d = n.get('d') or {}
        q = d.get('q', '')
        name = n.get('n', '')
        args = n['a']
        op = n.get('op')
        if q in self.hooks:
            return self.hooks[q](self, n, env, depth)
        if 'fn' in n:
            fn = self.expr1(n['fn'], env, depth)
            return self.apply(fn, [self.expr1(a, env, depth) for a in args], depth)
        if op == '()':
            fn = self.expr1(args[0], env, depth)
            if isinstance(fn, tuple) and fn and fn[0] in ('lam', 'fn'):
                # pick the instantiation that was resolved for this call
                f = self.p.funcs.get(d.get('u', ''))
                av = [self.expr1(a, env, depth) for a in args[1:]]
                if fn[0] == 'lam' and f and f.get('body') is not None:
                    e = dict(fn[2])
                    for p, a in zip(f['params'], av):
                        e[p['id']] = a
                    return [('throw', val) if kk == 'throw' else ('val', val) for kk, val, _ in self.stmt(f['body'], e, depth + 1)]
                return self.apply(fn, av, depth)
        f = self.p.funcs.get(d.get('u', ''))
        if f and f.get('body') is not None and not f.get('coro'):
            av = []
            if op and d.get('k') == 'CXXMethod':
                this = self.expr1(args[0], env, depth)
                av = [self.expr1(a, env, depth) for a in args[1:]]
            else:
                this = self.expr1(n['o'], env, depth) if n.get('o') else TOP
                av = [self.expr1(a, env, depth) for a in args]
            return [('val' if k == 'ret' else 'throw', v) for k, v in self.call(f, av, this, depth + 1)]
        obj = self.expr1(n['o'], env, depth) if n.get('o') else None
        av = [self.expr1(a, env, depth) for a in args]
        if op:
            if op in ('==', '!=', '<', '>', '<=', '>=', '+') and len(av) == 2:
                return [('val', self.arith(op, av[0], av[1]))]
            if op == '[]' and len(av) == 2:
                return [('val', self.lookup(av[0], av[1]))]
            if op in ('*', '->') and len(av) == 1:
                return [('val', av[0])]
            if op == '=' and len(av) == 2:
                self.assign(args[0], av[1], env, depth)
                return [('val', av[1])]
        if obj is not None:
            if name in ('data', 'c_str', 'value', 'get', 'str', 'begin', 'cbegin') or n.get('conv'):
                return [('val', obj)]
            if name in ('size', 'length') and isinstance(obj, (str, list)):
                return [('val', len(obj))]
            if name == 'empty' and isinstance(obj, (str, list)):
                return [('val', int(not obj))]
            if name == 'at' and av:
                r = self.lookup(obj, av[0])
                if r is None:
                    return [('throw', 'std::out_of_range')]
                return [('val', r)]
            if name == 'find' and isinstance(obj, list) and av:
                r = self.lookup(obj, av[0])
                return [('val', ('it', obj, r, av[0]) if r is not TOP else TOP)]
            if name in ('contains', 'count') and isinstance(obj, list) and av and av[0] is not TOP:
                return [('val', int(any(freeze(x) == freeze(av[0]) or (isinstance(x, (tuple, list)) and len(x) == 2 and freeze(x[0]) == freeze(av[0])) for x in obj)))]
            if name == 'compare' and isinstance(obj, str) and len(av) == 1 and isinstance(av[0], str):
                return [('val', (obj > av[0]) - (obj < av[0]))]
        if name in ('strcmp', '__builtin_strcmp') and len(av) == 2 and all(isinstance(x, str) for x in av):
            return [('val', (av[0] > av[1]) - (av[0] < av[1]))]
        if name in ('move', 'forward', 'as_const') and len(av) == 1:
            return [('val', av[0])]
        if name == 'to_underlying' and len(av) == 1:
            return [('val', av[0])]
        if 'v' in n:
            return [('val', int(n['v']))]
        if d.get('noreturn'):
            return [('throw', '')]
        return [('val', TOP)]

    @staticmethod
    def lookup(b, i):
        if b is TOP or i is TOP:
            return TOP
        if isinstance(b, Rec) and len(b) == 1:
            b = list(b.values())[0]
        if isinstance(b, str) and isinstance(i, int):
            return ord(b[i]) if i < len(b) else 0
        if isinstance(b, list):
            if b and all(isinstance(x, (tuple, list)) and len(x) == 2 for x in b):
                for x in b:
                    if freeze(x[0]) == freeze(i):
                        return x[1]
                    if x[0] is TOP:
                        return TOP
                if not isinstance(i, int) or not isinstance(b[0][0], int) is False:
                    return None
            if isinstance(i, int):
                return b[i] if 0 <= i < len(b) else None
        return TOP


def walk_all(s):
    st = [s]
    while st:
        x = st.pop()
        if 'k' in x:
            yield x
        st.extend(children(x))
