"""Requests: captured parameters exist, lookups and numbers from a request are checked before use, unknown things are reported as such."""
import re
from common import *
import facts

# containers indexed by the same kind of number
DOM = [{'stations_', 'station_positions_', 'full_station_names_', 'station_to_irs_', 'station_store_'}, {'elements_', 'element_data_', 'element_positions_', 'starting_at_', 'ending_at_', 'element_store_', 'graph_'},
       {'station_routes_', 'station_route_store_', 'sr_to_participating_irs_'}, {'routes_', 'irs_to_exclusion_sets_'}, {'exclusion_sets_'}, {'trains_', 'train_store_'}]
LOOKUP = re.compile(r'\boptional<|\bexpected<|optional_ptr|_Node_(const_)?iterator|_Rb_tree_(const_)?iterator|__normal_iterator|\biterator\b')
CHECKED = {'has_value', 'operator bool', 'is_valid'}


def dom(name):
    return next((i for i, d in enumerate(DOM) if name in d), name)


class Tok:
    n = 0

    def __init__(s, kind, what):
        Tok.n += 1
        s.kind, s.what, s.id = kind, what, Tok.n

    def __hash__(s):
        return s.id


class Handler:
    """walks one handler with a path condition: facts is a set of (token, bound) pairs"""

    def __init__(s, prog, ctx, ncap, name):
        s.p, s.ctx, s.ncap, s.name = prog, ctx, ncap, name
        s.stack, s.sinks, s.idx = [], 0, set()
        s.f = None

    # ---- values: None | ('caps',) | Tok | ('size', name)
    def ev(s, n, env, facts_):
        if n is None or not isinstance(n, dict):
            return None
        k = n.get('k')
        if k == 'ref' and 'id' in n:
            return env.get(n['id'])
        if k == 'mem':
            if n['n'] == 'path_params_':
                s.ev(n['b'], env, facts_)
                return ('caps',)
            b = s.ev(n['b'], env, facts_)
            if n.get('arrow') and isinstance(b, Tok) and b.kind == 'lookup':
                s.deref(b, n, facts_)
            return b if b == ('caps',) or isinstance(b, Tok) and b.kind == 'text' else None
        if k == 'bin' and n['op'] in ('&&', '||'):
            s.ev(n['a'][0], env, facts_)
            t, f = s.cond(n['a'][0], env)
            s.ev(n['a'][1], env, facts_ | (t if n['op'] == '&&' else f))
            return None
        if k == 'cond':
            s.ev(n['a'][0], env, facts_)
            t, f = s.cond(n['a'][0], env)
            x = s.ev(n['a'][1], env, facts_ | t)
            y = s.ev(n['a'][2], env, facts_ | f)
            return x or y
        if k == 'un':
            v = s.ev(n['a'][0], env, facts_)
            if n['op'] == '*' and isinstance(v, Tok) and v.kind == 'lookup':
                s.deref(v, n, facts_)
                return v.what if isinstance(v.what, Tok) else None
            return v if n['op'] in ('&', '+') else None
        if k in ('cast',):
            return s.ev(n['a'][0], env, facts_)
        if k == 'sub':
            b, i = s.ev(n['a'][0], env, facts_), s.ev(n['a'][1], env, facts_)
            return s.index(n, n['a'][0], b, n['a'][1], i, facts_)
        if k == 'ctor':
            vs = [s.ev(a, env, facts_) for a in n['a']]
            return next((v for v in vs if v is not None), None) if len(vs) <= 2 else None
        if k == 'lambda':
            for u in n.get('insts') or [n['u']]:
                g = s.p.funcs.get(u)
                if g and g.get('body') and not g.get('dep') and g not in s.stack:
                    s.stack.append(g)
                    old, s.f = s.f, g
                    e = dict(env)
                    for c in n.get('caps', ()):
                        if c.get('init') and 'id' in c:
                            e[c['id']] = s.ev(c['init'], env, facts_)
                    s.block(g['body'], e, facts_)
                    s.f = old
                    s.stack.pop()
            return None
        if k == 'call':
            return s.call(n, env, facts_)
        for c in facts.children(n):
            s.ev(c, env, facts_)
        return None

    def where(s, n):
        return f"{s.f['file']}:{n.get('l') or s.f['line']}"

    def deref(s, tok, n, facts_):
        key = (tok.id, n.get('i'), s.f['u'])
        if key in s.idx:
            return
        s.idx.add(key)
        s.sinks += 1
        if (tok, 'set') in facts_ or (tok, 'any') in facts_ or any((x, 'any') in facts_ for x in getattr(tok, 'src', ())):
            s.ctx.ok(f'{s.name}: {s.where(n)}: the result of the lookup is used only after it was found to exist')
        else:
            s.ctx.violate(f'lookup:{s.name}:{tok.what if isinstance(tok.what, str) else ""}', f'{s.where(n)}: {s.name} uses the result of a lookup ({tok.what if isinstance(tok.what, str) else "parsed text"}) with names or numbers from the request without having checked that it exists')

    def cname(s, n):
        """name of the container an expression stands for"""
        while n is not None:
            k = n.get('k')
            if k == 'mem':
                return n['n']
            if k == 'ref':
                c = s.cont.get(n.get('id'))
                return c or n.get('n')
            if k in ('un', 'cast') and n.get('a'):
                n = n['a'][0]
            elif k == 'call' and n.get('o') is not None:
                n = n['o']
            elif k == 'call' and n.get('a'):
                n = n['a'][0]
            else:
                return None
        return None

    cont = {}
    captok = {}

    def cap(s, i):
        return s.captok.setdefault(i, Tok('text', 'request parameter'))

    def index(s, n, cn, base, inode, i, facts_):
        if base == ('caps',):
            if 'v' in inode:
                v = int(inode['v'])
                key = ('cap', n.get('i'), s.f['u'])
                if key not in s.idx:
                    s.idx.add(key)
                    s.sinks += 1
                    s.ctx.check(v < s.ncap, f'{s.name}: parameter {v} of {s.ncap} exists', f'param:{s.name}:{v}', f'{s.where(n)}: {s.name} reads request parameter {v}, but a route leading to it captures only {s.ncap}')
            return s.cap(int(inode['v']) if 'v' in inode else None)
        if isinstance(i, Tok) and i.kind == 'text':
            op = n.get('d', {}).get('n')
            key = ('t', n.get('i'), s.f['u'])
            if key not in s.idx:
                s.idx.add(key)
                s.sinks += 1
                if (i, 'any') in facts_ or any(t is i for t, _ in facts_):
                    s.ctx.ok(f'{s.name}: {s.where(n)}: a name from the request was looked for before')
                else:
                    s.ctx.violate(f'name:{s.name}:{s.cname(cn)}', f'{s.where(n)}: {s.name} accesses {s.cname(cn)} with a name from the request ({op}) without having checked that it exists')
            return None
        if isinstance(i, Tok) and i.kind == 'num':
            c = s.cname(cn) or '?'
            key = ('n', n.get('i'), s.f['u'])
            if key not in s.idx:
                s.idx.add(key)
                s.sinks += 1
                if (i, 'any') in facts_ or (i, dom(c)) in facts_:
                    s.ctx.ok(f'{s.name}: {s.where(n)}: {c} is accessed with a number from the request that was checked to be in range')
                elif isinstance(dom(c), str) and any(t is i for t, _ in facts_):
                    s.ctx.undecided(f'{s.name}: {s.where(n)}: {c} is accessed with a number checked against another container')
                else:
                    s.ctx.violate(f'number:{s.name}:{c}', f'{s.where(n)}: {s.name} accesses {c} with a number from the request that was not checked to be in its range')
        return None

    def call(s, n, env, facts_):
        d = n.get('d') or {}
        name = d.get('n') or ''
        argn = list(n.get('a', ()))
        objn, obj = n.get('o'), None
        if objn is not None:
            obj = s.ev(objn, env, facts_)
        elif n.get('op') and d.get('k') == 'CXXMethod' and argn and not d.get('static') and name != 'operator()':
            objn = argn.pop(0)
            obj = s.ev(objn, env, facts_)
        if name == 'operator()' and argn and n.get('op') and n['a'][0].get('k') == 'ref' and isinstance(env.get(n['a'][0].get('id')), dict):
            lam = env[n['a'][0]['id']]['lambda']
            args = [s.ev(a, env, facts_) for a in argn[1:]]
            g = s.p.funcs.get(d.get('u'))
            return s.enter(g, args, env, facts_, argn[1:]) if g else None
        args = [s.ev(a, env, facts_) for a in argn]
        g = s.p.funcs.get(d.get('u'))
        toks = [a for a in args if isinstance(a, Tok)] + (['caps'] if ('caps',) in args else [])
        if obj == ('caps',):
            if name in ('front', 'back', 'operator[]', 'at'):
                if name in ('operator[]', 'at'):
                    return s.index(n, objn, obj, argn[0], args[0], facts_)
                i = 0 if name == 'front' else s.ncap - 1
                s.ctx.check(s.ncap > 0, f'{s.name}: a first and a last request parameter exist', f'param:{s.name}:{name}', f'{s.where(n)}: {s.name} reads a request parameter, but a route leading to it captures none')
                return s.cap(i)
            if name == 'size':
                return None
            return obj
        if name in ('operator[]', 'at') and obj is not None or name in ('operator[]', 'at') and args:
            return s.index(n, objn, obj, argn[0], args[0], facts_) if argn else None
        if isinstance(obj, Tok) and obj.kind == 'lookup':
            if name in CHECKED or name.startswith('operator bool'):
                return None
            if name in ('operator*', 'operator->', 'value', 'get'):
                s.deref(obj, n, facts_)
                return obj.what if isinstance(obj.what, Tok) else None
            if name == 'value_or' and isinstance(obj.what, Tok):
                s.lenient(obj, n, 'replaces a malformed number of the request by another value')
            return None
        if isinstance(obj, Tok) and obj.kind in ('text', 'num'):
            return obj
        if name == 'size' and objn is not None:
            return ('size', s.cname(objn))
        if name in ('size', 'ssize') and argn and not d.get('repo'):
            return ('size', s.cname(argn[0]))
        if not toks and not (g and any(a.get('k') == 'ref' and 'route_request' in a.get('t', '') for a in argn)):
            # a lookup without request data is not our business; its arguments were walked
            if objn is not None and isinstance(obj, Tok):
                return obj
            if g and g.get('body') and not toks and name.startswith('operator') is False and LOOKUP.search(d.get('ret', '')) and 'route_request' in str(d.get('params')):
                return s.enter(g, args, env, facts_, argn)
            return None
        t = toks[0] if toks else None
        if re.match(r'(try_)?parse_(int|fp)|str_to_absolute_time', name):
            num = Tok('num', 'number of the request')
            return Tok('lookup', num) if LOOKUP.search(d.get('ret', '')) else num
        if LOOKUP.search(d.get('ret', '')) or d.get('ret', '').endswith('*') and toks:
            if g and g.get('body') and g not in s.stack and len(s.stack) < 6:
                s.enter(g, args, env, facts_, argn)
            num = next((x for x in toks if isinstance(x, Tok) and x.kind == 'num'), None)
            r = Tok('lookup', name)
            r.src = [x for x in toks if isinstance(x, Tok)]
            return r
        if g and g.get('body') and g not in s.stack and len(s.stack) < 6:
            r = s.enter(g, args, env, facts_, argn)
            # what a helper cuts out of a text of the request is text of the request
            return t if r is None and isinstance(t, Tok) and t.kind == 'text' and re.search(r'vector<.*basic_string|vector<.*string_view', d.get('ret', '')) else r
        if not d.get('repo') and isinstance(t, Tok):
            return t if name in ('move', 'forward', 'min', 'max', 'to_string', 'string', 'basic_string', 'get', 'ref', 'cref', 'as_const') else None
        return None

    def enter(s, g, args, env, facts_, argn=()):
        if g is None or not g.get('body') or g in s.stack or len(s.stack) > 8:
            return None
        e = dict(env) if g.get('lambda') else {}
        for i, p in enumerate(g.get('params', ())):
            e[p['id']] = args[i] if i < len(args) else None
            if i < len(argn):
                c = s.cname(argn[i])
                if c:
                    s.cont[p['id']] = c
        old, s.f = s.f, g
        oldl, s.loops = s.loops, s.loops if g.get('lambda') else 0
        s.stack.append(g)
        oldr, s.ret = getattr(s, 'ret', None), []
        s.block(g['body'], e, facts_)
        r = s.ret
        s.ret = oldr
        s.stack.pop()
        s.f, s.loops = old, oldl
        return next((x for x in r if x is not None), None)

    # ---- conditions: facts if true, facts if false
    def cond(s, n, env):
        E = frozenset()
        k = n.get('k')
        if k == 'un' and n['op'] == '!':
            t, f = s.cond(n['a'][0], env)
            return f, t
        if k == 'cast':
            return s.cond(n['a'][0], env)
        if k == 'bin' and n['op'] in ('&&', '||'):
            t1, f1 = s.cond(n['a'][0], env)
            t2, f2 = s.cond(n['a'][1], env)
            return (t1 | t2, E) if n['op'] == '&&' else (E, f1 | f2)
        if k == 'call' and n.get('op') == '!' and n['a']:
            t, f = s.cond(n['a'][0], env)
            return f, t
        op = n.get('op') if k in ('bin', 'call') else None
        if op in ('<', '<=', '>', '>=', '==', '!='):
            quiet = Handler(s.p, Quiet(), s.ncap, s.name)
            quiet.f, quiet.cont, quiet.stack, quiet.captok = s.f, s.cont, list(s.stack), s.captok
            a = n['a'] if not n.get('o') else [n['o']] + n['a']
            x, y = (quiet.ev(z, env, frozenset()) for z in a[:2])
            for p, q, o, qn in ((x, y, op, a[1]), (y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), a[0])):
                if isinstance(p, Tok) and p.kind == 'num' and isinstance(q, tuple) and q[0] == 'size':
                    fact = frozenset({(p, dom(q[1]))})
                    if o == '<':
                        return fact, E
                    if o == '>=':
                        return E, fact
                    return E, E
                if isinstance(p, Tok) and p.kind == 'num' and o in ('<', '<=', '>', '>='):
                    # compared with something else: who knows
                    if 'v' not in qn:
                        return frozenset({(p, 'any')}), frozenset({(p, 'any')})
                if isinstance(p, Tok) and p.kind == 'lookup' and o in ('==', '!='):
                    fact = frozenset({(p, 'set')})
                    return (fact, E) if o == '!=' else (E, fact)
            return E, E
        if k in ('ref', 'call', 'mem'):
            quiet = Handler(s.p, Quiet(), s.ncap, s.name)
            quiet.f, quiet.cont, quiet.stack, quiet.captok = s.f, s.cont, list(s.stack), s.captok
            if k == 'ref':
                v = env.get(n.get('id'))
                if isinstance(v, tuple) and v[0] == 'flag':
                    return v[1], v[2]
                if isinstance(v, Tok) and v.kind == 'lookup':
                    return frozenset({(v, 'set')}), E
                return E, E
            d = n.get('d') or {}
            o = n.get('o') if n.get('o') is not None else (n['a'][0] if n.get('op') and n.get('a') else None)
            if o is not None and (d.get('n') in CHECKED or (d.get('n') or '').startswith('operator bool')):
                v = quiet.ev(o, env, frozenset())
                if isinstance(v, Tok) and v.kind == 'lookup':
                    return frozenset({(v, 'set')}), E
            if d.get('n') in ('contains', 'count', 'contains_if') or (d.get('n') or '').startswith('contains'):
                args = [quiet.ev(a, env, frozenset()) for a in n.get('a', ())]
                fs = frozenset((a, 'any') for a in args if isinstance(a, Tok))
                return fs, E
            g = s.p.funcs.get(d.get('u'))
            args = [quiet.ev(a, env, frozenset()) for a in n.get('a', ())]
            if g and g.get('body'):
                st = [x for x in g['body'].get('a', ()) if x.get('k') != 'nop']
                e = dict(env) if g.get('lambda') else {}
                off = 1 if n.get('op') == '()' else 0
                for i, p in enumerate(g.get('params', ())):
                    if i + off < len(args):
                        e[p['id']] = args[i + off]
                        c = s.cname(n['a'][i + off])
                        if c:
                            s.cont[p['id']] = c
                if len(st) == 1 and st[0]['k'] == 'return' and st[0].get('e'):
                    return s.cond(st[0]['e'], e)
            fs = frozenset((a, 'any') for a in args if isinstance(a, Tok))
            return fs, fs
        return E, E

    # ---- statements; returns (exits, facts afterwards)
    def block(s, n, env, facts_):
        if n is None:
            return False, facts_
        k = n.get('k')
        if k == 'block':
            for x in n['a']:
                ex, facts_ = s.block(x, env, facts_)
                if ex:
                    return True, facts_
            return False, facts_
        if k == 'decl':
            for v in n['vars']:
                s.var(v, env, facts_)
            return False, facts_
        if k == 'if':
            if n.get('init'):
                s.block(n['init'], env, facts_)
            if n.get('var'):
                s.var(n['var'], env, facts_)
            c = n.get('cond')
            if c is not None:
                s.ev(c, env, facts_)
            t, f = s.cond(c, env) if c is not None else (frozenset(), frozenset())
            if n.get('var') and isinstance(env.get(n['var']['id']), Tok) and env[n['var']['id']].kind == 'lookup':
                t = t | {(env[n['var']['id']], 'set')}
            s.malformed(n, t, f)
            e1, f1 = s.block(n.get('then'), env, facts_ | t)
            e2, f2 = s.block(n.get('else'), env, facts_ | f) if n.get('else') else (False, facts_ | f)
            if e1 and f and len(s.stack) == 1 and n.get('then'):
                s.answer(n['then'], f, n)
            if e1 and e2:
                return True, facts_
            return False, f2 if e1 else f1 if e2 else f1 & f2
        if k in ('for', 'while', 'do', 'rfor'):
            if n.get('init'):
                s.block(n['init'], env, facts_)
            if k == 'rfor':
                v = s.ev(n['range'], env, facts_)
                env[n['var']['id']] = v if isinstance(v, Tok) and v.kind == 'text' else None
                s.loops += 1
                s.block(n['body'], env, facts_)
                s.loops -= 1
                return False, facts_
            t = frozenset()
            if n.get('cond'):
                s.ev(n['cond'], env, facts_)
                t, _ = s.cond(n['cond'], env)
            s.loops += 1
            s.block(n.get('body'), env, facts_ | t)
            s.loops -= 1
            if n.get('inc'):
                s.ev(n['inc'], env, facts_)
            return False, facts_
        if k == 'return':
            v = s.ev(n.get('e'), env, facts_)
            if getattr(s, 'ret', None) is not None:
                s.ret.append(v)
            return True, facts_
        if k in ('break', 'continue'):
            return True, facts_
        if k == 'switch':
            s.ev(n['cond'], env, facts_)
            s.block(n['body'], env, facts_)
            return False, facts_
        if k in ('case', 'default'):
            s.block(n.get('sub'), env, facts_)
            return False, facts_
        if k == 'try':
            s.block(n['body'], env, facts_)
            for h in n.get('handlers', ()):
                s.block(h['body'], env, facts_)
            return False, facts_
        s.ev(n, env, facts_)
        if k == 'bin' and n['op'] == '=' and n['a'][0].get('k') == 'ref':
            env[n['a'][0].get('id')] = s.ev(n['a'][1], env, facts_)
        return k == 'throw', facts_

    loops = 0

    def lenient(s, tok, n, what):
        key = ('len', n.get('i'), n.get('l'), s.f['u'])
        if key not in s.idx:
            s.idx.add(key)
            s.sinks += 1
            s.ctx.violate(f'lenient:{s.name}:{s.f["q"].split("::")[-1]}', f'{s.where(n)}: {s.name} {what} instead of answering with an error')

    def malformed(s, n, t, f):
        """the branch taken when a number of the request could not be read must not carry on as if nothing had happened"""
        parsed = lambda fs: next((x for x, b in fs if b == 'set' and x.kind == 'lookup' and isinstance(x.what, Tok)), None)
        tok, bad = (parsed(f), n.get('then')) if parsed(f) else (parsed(t), n.get('else'))
        if tok is None:
            return
        inner = [x for x in facts.walk(bad)] if bad else []
        acts = any(x.get('k') in ('throw', 'break') or x.get('k') in ('bin', 'un', 'call') and (x.get('op') or '') in ('=', '|=', '&=', '+=', '++') for x in inner)
        rets = [x for x in inner if x.get('k') == 'return']
        if rets:
            for r in rets:
                sub = [x for x in facts.walk(r.get('e')) if x.get('k') in ('call', 'ref', 'mem', 'str')] if r.get('e') else []
                if re.search(r'\bexpected<', s.f.get('ret', '')) and not sub and r.get('e'):
                    s.lenient(tok, r, 'reports a malformed number of the request as a valid, empty value')
                else:
                    s.ctx.ok(f'{s.name}: {s.where(r)}: a malformed number ends the request')
        elif s.loops and not acts and not any(x.get('k') == 'call' and not x.get('op') and (x.get('d') or {}).get('repo') for x in inner):
            s.lenient(tok, n, 'skips a malformed number of the request')

    def answer(s, then, f, n):
        """what is answered when the check fails"""
        lk = [t for t, b in f if t.kind == 'lookup' and isinstance(t.what, str)] + [t for t, b in f if t.kind == 'num' and b != 'any']
        if not lk:
            return
        rets = [x for x in facts.walk(then) if x.get('k') == 'return']
        for r in rets:
            names = [x.get('d', {}).get('n') or '' for x in facts.walk(r) if x.get('k') == 'call']
            if any(x in ('not_found_response', 'bad_request_response') for x in names):
                s.ctx.ok(f'{s.name}: {s.where(r)}: an unknown name or number is answered as not found')
            elif any('json_response' in x for x in names) or not names:
                s.ctx.violate(f'answer:{s.name}', f'{s.where(r)}: {s.name} answers a request for something unknown as if it existed')
            else:
                s.ctx.undecided(f'{s.name}: {s.where(r)}: answer to an unknown name or number')

    def var(s, v, env, facts_):
        i = v.get('init')
        if i is not None and i.get('k') == 'lambda':
            env[v['id']] = {'lambda': i}
            return
        env[v['id']] = s.ev(i, env, facts_) if i else None
        if i is not None and v['t'].replace('const ', '') == 'bool':
            t, f = s.cond(i, env)
            env[v['id']] = ('flag', t, f)
        if i is not None:
            x = i
            while x.get('k') in ('cast',) and x.get('a'):
                x = x['a'][0]
            if x.get('k') == 'mem' and (v['t'].endswith('&') or True):
                s.cont[v['id']] = x['n']
            elif x.get('k') == 'ref' and s.cont.get(x.get('id')):
                s.cont[v['id']] = s.cont[x['id']]


class Quiet:
    def ok(s, *a): pass
    violate = undecided = ok

    def check(s, c, *a): return c


def captures(rx):
    n, i = 0, 0
    while i < len(rx):
        if rx[i] == '\\':
            i += 2
            continue
        if rx[i] == '[':
            i = rx.find(']', i + 1)
        elif rx[i] == '(' and rx[i + 1:i + 3] != '?:':
            n += 1
        i += 1
    return n


def routes(p):
    """[(method, regex, [handler functions], lambda function, site)]"""
    res = []
    for f in p.funcs.values():
        if not f.get('body') or f.get('dep'):
            continue
        for n in facts.ftree(f):
            if n.get('k') == 'call' and (n.get('d') or {}).get('n') == 'route' and 'router' in (n['d'].get('q') or ''):
                strs = [x['s'] for a in n['a'][:2] for x in facts.walk(a) if x.get('k') == 'str']
                lam = [x for a in n['a'][2:] for x in facts.walk(a) if x.get('k') == 'lambda']
                if len(strs) < 2 or not lam:
                    res.append((None, None, [], None, (f, n)))
                    continue
                g = p.funcs.get(lam[0]['u'])
                hs = []
                for x in facts.ftree(g) if g else ():
                    if x.get('k') == 'call' and (x.get('d') or {}).get('repo') and any('route_request' in a.get('t', '') for a in x.get('a', ())):
                        h = p.funcs.get(x['d'].get('u'))
                        hs.append(h or x['d'])
                res.append((strs[0], strs[1], hs, g, (f, n)))
    return res


def run(ctx):
    ctx.explain = ('the route table is read from the resolved program and each handler is walked along its control flow, through helpers, with the facts established by its conditions: every request parameter read is captured by the route, '
                   'every number from the request that indexes a container was compared with that container\'s size, every name looked up was found, and a failing check is answered as not found')
    p = facts.load()
    rs = routes(p)
    handlers = {}
    for m, rx, hs, g, (f, n) in rs:
        if rx is None:
            ctx.undecided(f'{facts.loc(f, n)}: route not resolved')
            continue
        c = captures(rx)
        for h in hs:
            if h.get('body') is not None and h.get('u'):
                q = h['q'].split('::')[-1]
                o = handlers.get(h['u'])
                handlers[h['u']] = (h, min(c, o[1]) if o else c)
            else:
                ctx.undecided(f'{h.get("q")}: no body')
        if not hs and '.*' not in rx:
            ctx.undecided(f'{facts.loc(f, n)}: route {rx} has no handler in the project')
    sinks = 0
    for h, c in handlers.values():
        w = Handler(p, ctx, c, h['q'].replace('soro::server::', ''))
        w.cont, w.captok = {}, {}
        w.f = h
        w.stack = [h]
        w.block(h['body'], {}, frozenset())
        sinks += w.sinks
    ctx.need(len(handlers), 10, 'request handlers')
    ctx.need(sinks, 15, 'uses of request data')
    ctx.analysed['routes'] = len(rs)
