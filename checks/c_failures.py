"""Failures are seen: no outcome that may be a failure is dropped, and no value is taken out of an outcome, an optional or a lookup that was not checked."""
import re
from common import *
import facts
from c_parallel import parents

OPT = re.compile(r'^(?:const )?(?:std|cista|soro::utls|tl|soro)::(?:\w+::)*(optional|expected|basic_optional)<')
FAIL = re.compile(r'^(?:const )?std::expected<|^(?:const )?std::error_code\b|^(?:const )?std::unexpected<')
FIND = {'find', 'find_if', 'find_if_not', 'find_position', 'lower_bound_exact', 'adjacent_find', 'search', 'mismatch', 'min_element_opt'}
ESTABLISH = {'STOP_IS_HALT_BUT_STATION_ROUTE_NO_HALT': 'get_halt_idx(', 'TRANSIT_TIME_BUT_NO_RUNTIME_CHECKPOINT': 'get_runtime_checkpoint_node('}
LOAD = {'load_buffer', 'load_file', 'load_string', 'load', 'load_buffer_inplace'}
NOEXIT = {'abort', 'exit', 'terminate', 'throw_verify', 'unreachable', '__builtin_unreachable', '__builtin_trap'}
TRUST = {'sassert', 'expect', 'ensure', 'verify', 'verify_ex', 'EXPECT_TRUE', 'assert'}
VALID = {'has_value', 'operator bool', 'is_valid', 'valid', 'operator!'}


def strip(n):
    while isinstance(n, dict):
        if n.get('k') in ('cast', 'paren') and n.get('a'):
            n = n['a'][0]
        elif n.get('k') == 'ctor' and len(n.get('a', ())) == 1 and (n.get('copy') or n.get('move')):
            n = n['a'][0]
        elif n.get('k') == 'ctor' and len(n.get('a', ())) >= 1 and (n.get('t') or '').endswith('bool_with_loc'):
            n = n['a'][0]
        elif n.get('k') == 'call' and (n.get('d') or {}).get('n') in ('move', 'forward', 'as_const') and len(n.get('a', ())) == 1:
            n = n['a'][0]
        else:
            break
    return n


def key(n):
    """a name for the object an expression denotes, or None"""
    n = strip(n)
    if not isinstance(n, dict):
        return None
    k = n.get('k')
    if k == 'ref' and 'id' in n:
        return f'v{n["id"]}'
    if k == 'ref':
        return (n.get('d') or {}).get('q')
    if k == 'this':
        return 'this'
    if k == 'mem':
        b = key(n['b'])
        return f'{b}.{n["n"]}' if b else None
    if k == 'un' and n.get('op') == '*':
        b = key(n['a'][0])
        return f'*{b}' if b else None
    if k == 'lit':
        return f'#{n.get("v")}'
    if k == 'str':
        return repr(n.get('s'))
    if k in ('sub',) or k == 'call' and (n.get('d') or {}).get('n') in ('operator[]', 'at'):
        a = ([n['o']] if n.get('o') is not None else []) + list(n.get('a', ()))
        ks = [key(x) for x in a]
        return f'{ks[0]}[{ks[1]}]' if len(ks) == 2 and all(ks) else None
    if k == 'call' and (n.get('d') or {}).get('const') and n.get('o') is not None:
        ks = [key(n['o'])] + [key(x) for x in n.get('a', ())]
        return f'{n["d"]["n"]}({",".join(ks)})' if all(ks) else None
    if k == 'call' and n.get('op') in ('*', '->'):
        b = key((n.get('a') or [n.get('o')])[0])
        return f'*{b}' if b else None
    return None


def roots(k):
    return set(re.findall(r'v\d+', k))


class Mute:
    def ok(s, *a):
        pass
    violate = undecided = ok


class Walk:
    def __init__(s, p, ctx, f, nulls):
        s.p, s.ctx, s.f = p, ctx, f
        s.lookups = {}      # key -> text of the lookup
        s.flags = {}
        s.outcomes = set()  # results of something that may fail at run time: asserting success is not enough
        s.brk = []
        s.ends = set()
        s.loadvar = {}
        s.docs = {key(x['o']) for x in facts.ftree(f) if x.get('k') == 'call' and (x.get('d') or {}).get('n') in LOAD and x.get('o') is not None} - {None}
        s.nulls = nulls
        s.sites = 0
        s.seen = set()
        s.stack = []
        s.est = {}
        s.byload = 0

    def name(s):
        return s.f['q'].split('(')[0]

    def where(s, n):
        return f"{s.f['file']}:{n.get('l') or s.f['line']}"

    def tracked(s, n):
        """what may be absent: text, or None"""
        m = strip(n)
        if not isinstance(m, dict):
            return None
        t = m.get('t') or ''
        if OPT.match(t):
            return 'optional or outcome'
        k = key(m)
        if k in s.lookups:
            return s.lookups[k]
        if m.get('k') == 'call' and (m.get('d') or {}).get('n') in FIND and ('iterator' in t or t.endswith('*')):
            return f'result of {m["d"]["n"]}'
        if m.get('k') == 'call' and (m.get('d') or {}).get('u') in s.nulls:
            return f'pointer from {m["d"]["n"]}'
        return None

    def deref(s, n, o, F, how):
        w = s.tracked(o)
        if not w:
            return
        o_ = strip(o)
        if (id(n)) in s.seen:
            return
        s.seen.add(id(n))
        k = key(o_)
        s.sites += 1
        if k and k in F:
            s.ctx.ok(f'{s.where(n)}: {s.name()}: checked before its value is used')
            return
        d = o_.get('d') or {}
        if d.get('n') in ('get_node', 'get_node_idx') and 'sequence_point::' in (d.get('q') or ''):
            s.byload += 1
            return
        nm = o_.get('n') or (o_.get('d') or {}).get('n') or 'value'
        if k is None and o_.get('k') not in ('call',):
            s.ctx.undecided(f'{s.where(n)}: {s.name()}: {nm}: object not tracked')
            return
        if k is None and o_.get('k') == 'call' and not o_.get('d'):
            s.ctx.undecided(f'{s.where(n)}: {s.name()}: {nm}: call not resolved')
            return
        s.ctx.violate(f'unchecked:{s.name()}:{nm}', f'{s.where(n)}: {s.name()} takes the value of {nm} ({w}) without having checked that there is one')

    # -- expressions
    def ev(s, n, F):
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'bin' and n.get('op') in ('&&', '||'):
            s.ev(n['a'][0], F)
            t, f = s.cond(n['a'][0])
            s.ev(n['a'][1], F | (t if n['op'] == '&&' else f))
            return
        if k == 'cond':
            s.ev(n['a'][0], F)
            t, f = s.cond(n['a'][0])
            s.ev(n['a'][1], F | t)
            s.ev(n['a'][2], F | f)
            return
        if k == 'lambda':
            s.closure(n, F)
            return
        if k == 'un' and n.get('op') == '*':
            s.deref(n, n['a'][0], F, '*')
        if k == 'mem' and n.get('arrow'):
            s.deref(n, n['b'], F, '->')
        if k == 'call':
            d = n.get('d') or {}
            nm = d.get('n') or ''
            o = n.get('o')
            if o is None and n.get('op') and n.get('a') and d.get('k') == 'CXXMethod':
                o = n['a'][0]
            if nm in ('operator*', 'operator->') and o is not None and len(n.get('a', ())) <= 1:
                s.deref(n, o, F, nm)
            if nm in ('child', 'children', 'first_child', 'document_element', 'select_node', 'select_nodes', 'begin', 'find_node') and o is not None and 'xml_document' in ((strip(o) or {}).get('t') or '') and key(o) in s.docs and id(n) not in s.seen:
                s.seen.add(id(n))
                s.sites += 1
                if f'loaded({key(o)})' in F:
                    s.ctx.ok(f'{s.where(n)}: {s.name()}: the document is read only after it was parsed successfully')
                else:
                    s.ctx.violate(f'xml:{s.name()}', f'{s.where(n)}: {s.name()} reads a document without having checked that it could be parsed')
            if nm == 'error' and o is not None and OPT.match((strip(o) or {}).get('t') or ''):
                kk = key(o)
                s.sites += 1
                if kk and ('!' + kk) not in F and id(n) not in s.seen:
                    s.seen.add(id(n))
                    s.ctx.violate(f'error:{s.name()}', f'{s.where(n)}: {s.name()} asks for the error of an outcome that may be a success')
            if d.get('q', '').endswith('utls::propagate') and n.get('a'):
                kk = key(n['a'][0])
                s.sites += 1
                if id(n) not in s.seen:
                    s.seen.add(id(n))
                    if kk and ('!' + kk) not in F:
                        s.ctx.violate(f'propagate:{s.name()}', f'{s.where(n)}: {s.name()} passes on the failure of an outcome that may be a success')
                    else:
                        s.ctx.ok(f'{s.where(n)}: {s.name()}: the failure passed on is one')
            if nm in TRUST and n.get('a') and d.get('q', '').startswith(('soro::utls', 'utl::')):
                pass
        for c in facts.children(n):
            if isinstance(c, dict) and c.get('k') in ('block', 'decl', 'if', 'for', 'while', 'return', 'rfor', 'switch'):
                s.st(c, F)
            else:
                s.ev(c, F)

    def closure(s, n, F):
        for c in n.get('caps', ()):
            if c.get('init'):
                s.ev(c['init'], F)
        for u in n.get('insts') or [n['u']]:
            g = s.p.funcs.get(u)
            if g and g.get('body') and not g.get('dep') and g not in s.stack:
                s.stack.append(g)
                old, s.f, ob, s.brk = s.f, g, s.brk, []
                s.st(g['body'], F)
                s.f, s.brk = old, ob
                s.stack.pop()

    def cond(s, n):
        """what is known to be there when the condition is true / false; '!k': known to be absent"""
        E = frozenset()
        m = strip(n)
        if not isinstance(m, dict):
            return E, E
        k = m.get('k')
        d = m.get('d') or {}
        if k == 'un' and m['op'] == '!' or k == 'call' and m.get('op') == '!' and m.get('a'):
            t, f = s.cond(m['a'][0])
            return f, t
        if k == 'bin' and m['op'] in ('&&', '||'):
            t1, f1 = s.cond(m['a'][0])
            t2, f2 = s.cond(m['a'][1])
            return (t1 | t2, E) if m['op'] == '&&' else (E, f1 | f2)
        if k == 'ref' and key(m) in s.flags:
            return s.flags[key(m)]
        o = m.get('o')
        if o is None and k == 'call' and m.get('a') and m.get('op'):
            o = m['a'][0]
        if k == 'call' and d.get('n') in LOAD and o is not None and key(o):
            return frozenset({f'loaded({key(o)})'}), E
        if k == 'call' and (d.get('n') in VALID or (d.get('n') or '').startswith('operator bool')) and o is not None:
            kk = key(o)
            if kk is None and (strip(o) or {}).get('k') == 'call':
                return s.cond(o)
            return (frozenset({kk} | s.loadvar.get(kk, E)), frozenset({'!' + kk})) if kk else (E, E)
        if k in ('bin', 'call') and m.get('op') in ('==', '!=') and len(([m['o']] if m.get('o') is not None else []) + list(m.get('a', ()))) == 2:
            a = ([m['o']] if m.get('o') is not None else []) + list(m['a'])
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                sx = strip(x)
                if isinstance(sx, dict) and sx.get('k') == 'mem' and sx.get('n') == 'status' and key(sx['b']) in s.loadvar and any(z.get('n') == 'status_ok' or (z.get('d') or {}).get('n') == 'status_ok' for z in facts.walk(y)):
                    g = frozenset({key(sx['b'])} | s.loadvar[key(sx['b'])])
                    return (g, E) if m['op'] == '==' else (E, g)
                kk = key(x)
                sy = strip(y)
                if kk and (s.tracked(x)):
                    isend = key(y) in s.ends or any((z.get('d') or {}).get('n') in ('end', 'cend', 'nullopt', 'last', 'rend') or z.get('n') in ('nullopt', 'end', 'last') or 'nullopt' in (z.get('t') or '') or z.get('k') == 'null' for z in facts.walk(sy)) or 'iterator' in (sy.get('t') or '')
                    if isend:
                        there, gone = frozenset({kk}), frozenset({'!' + kk})
                        return (there, gone) if m['op'] == '!=' else (gone, there)
                    # equal to a definite value
                    if m['op'] == '==':
                        return frozenset({kk}), E
                    return E, frozenset({kk})
        kk = key(m)
        if kk and (k in ('ref', 'mem') or k == 'call') and (OPT.match(m.get('t') or '') or kk in s.lookups):
            return frozenset({kk}), frozenset({'!' + kk})
        if k == 'call' and d.get('u') in s.p.funcs:
            g = s.p.funcs[d['u']]
            stm = [x for x in (g.get('body') or {}).get('a', ()) if x.get('k') != 'nop'] if g.get('body') else []
            if len(stm) == 1 and stm[0]['k'] == 'return' and stm[0].get('e') is not None:
                off = 1 if m.get('op') == '()' else 0
                t, f = s.cond(stm[0]['e'])
                sub = {f'v{q["id"]}': key(a) for q, a in zip(g.get('params', ()), m.get('a', ())[off:])}
                if m.get('o') is not None:
                    sub['this'] = key(m['o'])

                def mp(fs):
                    out = set()
                    for z in fs:
                        for a, b in sub.items():
                            if re.search(rf'{a}(?!\d)', z):
                                z = re.sub(rf'{a}(?!\d)', lambda _: b, z) if b else ''
                        if z:
                            out.add(z)
                    return frozenset(out)
                return mp(t), mp(f)
        return E, E

    def kill(s, F, k, engaged):
        rs = k
        F = frozenset(z for z in F if not (z.lstrip('!') == rs or z.lstrip('!').startswith(rs + '.') or z.lstrip('!').startswith(rs + '[') or ('*' + rs) in z))
        return F | {k} if engaged else F

    def var(s, v, F):
        i = v.get('init')
        if i is not None:
            s.ev(i, F)
            k = f'v{v["id"]}'
            F = s.kill(F, k, False)
            m = strip(i)
            if isinstance(m, dict) and m.get('k') == 'call' and (m.get('d') or {}).get('n') in LOAD and m.get('o') is not None and key(m['o']):
                s.loadvar[k] = frozenset({f'loaded({key(m["o"])})'})
                F = s.kill(F, f'loaded({key(m["o"])})', False)
            if v['t'].replace('const ', '') == 'bool':
                s.flags[k] = s.cond(i)
            if isinstance(m, dict) and m.get('k') == 'call' and (m.get('d') or {}).get('n') in FIND and ('iterator' in v['t'] or 'iterator' in (m.get('t') or '') or '*' in v['t']) and not OPT.match(v['t']):
                s.lookups[k] = f'result of {m["d"]["n"]}'
                if len(m.get('a', ())) > 1 and key(m['a'][1]):
                    s.ends.add(key(m['a'][1]))
            if isinstance(m, dict) and m.get('k') == 'call' and (m.get('d') or {}).get('n') in ('end', 'cend', 'rend'):
                s.ends.add(k)
            if isinstance(m, dict) and m.get('k') == 'call' and (m.get('d') or {}).get('u') in s.nulls:
                s.lookups[k] = f'pointer from {m["d"]["n"]}'
            if 'expected<' in v['t'] and OPT.match(v['t']):
                s.outcomes.add(k)
            if OPT.match(v['t']):
                if s.engaged(i):
                    F = F | {k}
                kk = key(i)
                if kk and kk in F:
                    F = F | {k}
                if kk and '!' + kk in F:
                    F = F | {'!' + k}
        return F

    def engaged(s, i):
        """initialised or assigned with a value"""
        x = i
        while isinstance(x, dict) and x.get('k') in ('cast', 'paren', 'ctor', 'init') and len(x.get('a', ())) == 1:
            y = x['a'][0]
            if not isinstance(y, dict):
                return False
            t = y.get('t') or ''
            if not OPT.match(t) and 'nullopt' not in t and 'unexpected' not in t and 'unexpect_t' not in t and not (y.get('k') == 'init' and not y.get('a')):
                return True
            x = y
        return isinstance(x, dict) and x.get('k') == 'call' and (x.get('d') or {}).get('n') in ('make_optional',)

    # -- statements: (leaves, facts)
    def st(s, n, F):
        if not isinstance(n, dict):
            return False, F
        k = n.get('k')
        if k == 'block':
            for x in n['a']:
                ex, F = s.st(x, F)
                if ex:
                    return True, F
            return False, F
        if k == 'decl':
            for v in n['vars']:
                F = s.var(v, F)
            return False, F
        if k == 'if':
            if n.get('init'):
                _, F = s.st(n['init'], F)
            t = f = frozenset()
            if n.get('var'):
                F = s.var(n['var'], F)
                if OPT.match(n['var']['t']) or f'v{n["var"]["id"]}' in s.lookups:
                    t, f = frozenset({f'v{n["var"]["id"]}'}), frozenset({f'!v{n["var"]["id"]}'})
            if n.get('cond') is not None:
                s.ev(n['cond'], F)
                t2, f2 = s.cond(n['cond'])
                t, f = t | t2, f | f2
            e1, f1 = s.st(n.get('then'), F | t)
            e2, f2 = s.st(n['else'], F | f) if n.get('else') else (False, F | f)
            if e1 and e2:
                return True, F
            return False, f2 if e1 else f1 if e2 else f1 & f2
        if k in ('for', 'while', 'do', 'rfor'):
            s.brk.append(None)
            r = s.loop(n, F, k)
            s.brk.pop()
            return r
        if k == 'return':
            s.leaves(n, F)
            s.ev(n.get('e'), F)
            return True, F
        return s.st2(n, F, k)

    def leaves(s, n, F):
        for x in facts.walk(n):
            if x.get('k') == 'ref' and (x.get('d') or {}).get('n') in ESTABLISH:
                s.est.setdefault(x['d']['n'], set()).update(z for z in F if z.startswith('!'))

    def switch(s, n, F):
        body = n['body'].get('a', ()) if n['body'].get('k') == 'block' else [n['body']]
        s.brk.append([])
        labels, dflt, cur, gone = 0, False, F, True
        for x in body:
            y = x
            while y.get('k') in ('case', 'default'):
                labels += y['k'] == 'case'
                dflt |= y['k'] == 'default'
                cur = F if gone else cur & F
                gone = False
                y = y.get('sub') or {}
            if gone and not x.get('k') in ('case', 'default'):
                continue
            gone, cur = s.st(y, cur)
        outs = s.brk.pop()
        if not gone:
            outs.append(cur)
        en = s.p.enums.get(((strip(n['cond']) or {}).get('t') or '').replace('const ', '').replace('enum ', ''))
        whole = dflt or (en is not None and labels >= len(en['vals']))
        if not whole:
            outs.append(F)
        if not outs:
            return True, F
        G = outs[0]
        for o in outs[1:]:
            G = G & o
        return False, G

    def loop(s, n, F, k):
        if True:
            if n.get('init'):
                _, F = s.st(n['init'], F)
            if k == 'rfor':
                s.ev(n['range'], F)
                G = F - s.written(n['body'], F)
                s.st(n['body'], G)
                return False, G
            G = F - s.written(n, F)
            t = f = frozenset()
            if n.get('var'):
                G = s.var(n['var'], G)
            if n.get('cond') is not None:
                s.ev(n['cond'], G)
                t, f = s.cond(n['cond'])
            s.st(n.get('body'), G | t if k != 'do' else G)
            if n.get('inc'):
                s.ev(n['inc'], G)
            brk = any(x.get('k') in ('break', 'goto') for x in facts.walk(n.get('body')))
            return False, G if brk else G | f

    def st2(s, n, F, k):
        if k in ('break', 'continue', 'goto'):
            if k == 'break' and s.brk and s.brk[-1] is not None:
                s.brk[-1].append(F)
            return True, F
        if k == 'switch':
            s.ev(n['cond'], F)
            return s.switch(n, F)
        if k in ('case', 'default'):
            return s.st(n.get('sub'), F)
        if k == 'try':
            s.st(n['body'], F)
            for h in n.get('handlers', ()):
                s.st(h['body'], F)
            return False, F
        if k == 'throw':
            s.ev(n, F)
            return True, F
        if k == 'other' and n.get('cls', '').endswith('Stmt'):
            for x in n.get('a', ()):
                ex, F = s.st(x, F)
            return False, F
        s.ev(n, F)
        # what a statement establishes
        m = strip(n)
        d = m.get('d') or {}
        if m.get('k') == 'call' and d.get('n') in TRUST and m.get('a'):
            t, _ = s.cond(m['a'][0])
            return False, F | frozenset(z for z in t if z not in s.outcomes and not (z.startswith('loaded(') and d['n'] in ('sassert', 'ensure', 'assert', 'expect')))
        if m.get('k') == 'call' and d.get('n') in NOEXIT:
            return True, F
        if m.get('k') == 'call' and d.get('u') in s.p.funcs and d.get('n') not in TRUST:
            F = F | s.summary(m, d)
        a = None
        if m.get('k') == 'bin' and m.get('op') == '=':
            a = m['a']
        elif m.get('k') == 'call' and d.get('n') == 'operator=' and len(m.get('a', ())) == 2:
            a = m['a']
        elif m.get('k') == 'call' and d.get('n') == 'operator=' and m.get('o') is not None:
            a = [m['o'], m['a'][0]]
        if a:
            kk = key(a[0])
            if kk:
                tt = (strip(a[1]) or {}).get('t') or ''
                eng = OPT.match((strip(a[0]) or {}).get('t') or '') and not OPT.match(tt) and 'nullopt' not in tt and 'unexpected' not in tt and not (strip(a[1]).get('k') == 'init' and not strip(a[1]).get('a'))
                F = s.kill(F, kk, bool(eng) or s.engaged(a[1]) or key(a[1]) in F)
        if m.get('k') == 'call' and d.get('n') == 'emplace' and m.get('o') is not None and OPT.match((strip(m['o']) or {}).get('t') or ''):
            kk = key(m['o'])
            F = F | {kk} if kk else F
        if m.get('k') == 'call' and d.get('n') == 'reset' and m.get('o') is not None:
            kk = key(m['o'])
            F = s.kill(F, kk, False) if kk else F
        return False, F

    def summary(s, m, d):
        """what holds for the arguments after the call returned"""
        g = s.p.funcs[d['u']]
        args = [(q, a) for q, a in zip(g.get('params', ()), m.get('a', ())) if key(a) and (s.tracked(a) or key(a) in s.loadvar)]
        if not args or not g.get('body') or g.get('dep') or g in s.stack or len(s.stack) > 6:
            return frozenset()
        w = Walk(s.p, Mute(), g, s.nulls)
        w.stack = s.stack + [g]
        w.loadvar = {f'v{q["id"]}': frozenset({f'v{q["id"]}'}) for q, a in args}
        out, F = w.st(g['body'], frozenset())
        if out or any(x.get('k') == 'return' for x in facts.walk(g['body'])):
            return frozenset()
        r = set()
        for q, a in args:
            if f'v{q["id"]}' in F:
                r |= {key(a)} | s.loadvar.get(key(a), frozenset())
        return frozenset(r)

    def written(s, n, F):
        ks = set()
        for x in facts.walk(n):
            a = None
            if x.get('k') == 'bin' and x.get('op', '').endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                a = x['a'][0]
            elif x.get('k') == 'un' and x['op'] in ('++', '--'):
                a = x['a'][0]
            elif x.get('k') == 'call' and ((x.get('d') or {}).get('n') in ('operator=', 'reset', 'operator++', 'operator--')):
                a = x['o'] if x.get('o') is not None else (x.get('a') or [None])[0]
            kk = key(a) if a is not None else None
            if kk:
                ks.add(kk)
        return frozenset(z for z in F if any(z.lstrip('!') == k or z.lstrip('!').startswith(k + '.') for k in ks))


def up_to_condition(par, x):
    while x is not None:
        q = par.get(id(x))
        if q is None:
            return False
        if q.get('k') in ('if', 'while', 'for', 'do', 'cond') and (q.get('cond') is x or q.get('k') == 'cond'):
            return True
        if q.get('k') == 'return' or q.get('k') == 'call' and (q.get('d') or {}).get('n') in ('verify', 'verify_ex') and q['a'] and q['a'][0] is x:
            return True
        if q.get('k') in ('block', 'decl', 'case'):
            return False
        x = q
    return False


def run(ctx):
    ctx.explain = ('every function of the program is walked along its control flow with the set of optionals, outcomes and lookups known to hold a value; taking a value is allowed only where that is known. '
                   'Calls whose outcome may be a failure must be used')
    p = facts.load()
    sites = calls = fn = byload = 0
    est = {}
    live, todo = set(), [f['u'] for f in p.funcs.values() if f['n'] == 'try_parsing_timetable']
    ctx.need(len(todo), 1, 'functions loading a timetable')
    while todo:
        u = todo.pop()
        if u in live or u not in p.funcs:
            continue
        live.add(u)
        for x in facts.ftree(p.funcs[u]):
            if (x.get('d') or {}).get('u'):
                todo.append(x['d']['u'])
            if x.get('k') == 'lambda':
                todo += x.get('insts') or [x['u']]
    nulls = {u for u, f in p.funcs.items() if f.get('body') and any(x.get('k') == 'return' and (strip(x.get('e')) or {}).get('k') == 'null' for x in facts.walk(f['body']))}
    for f in sorted(p.funcs.values(), key=lambda f: (f['file'], f['line'], f['u'])):
        if f.get('dep') or not f.get('body'):
            continue
        fn += 1
        # dropped outcomes
        par = None
        for n in facts.ftree(f):
            if n.get('k') == 'call' and FAIL.match(n.get('t') or '') and not (n.get('t') or '').endswith('&') and (n.get('d') or {}).get('n') not in ('operator=', 'move', 'forward', 'operator*', 'swap'):
                if (n.get('d') or {}).get('n', '').startswith('operator'):
                    continue
                par = par or parents(f)
                calls += 1
                q, x = par.get(id(n)), n
                while q is not None and q.get('k') in ('paren', 'cleanups'):
                    x, q = q, par.get(id(q))
                void = q is not None and q.get('k') == 'cast' and 'void' == (q.get('t') or '')
                body = q is not None and (q.get('k') == 'block' or q.get('k') in ('if', 'for', 'while', 'rfor', 'case', 'default') and (q.get('then') is x or q.get('else') is x or q.get('body') is x or q.get('sub') is x))
                if body or void or q is None:
                    ctx.violate(f'dropped:{f["q"].split("(")[0]}:{(n.get("d") or {}).get("n")}', f'{facts.loc(f, n)}: {f["q"].split("(")[0]} ignores whether {(n.get("d") or {}).get("n")} failed')
        # outcomes kept in a variable must be looked at
        for n in facts.walk(f['body']):
            for v in n.get('vars', ()) if n.get('k') == 'decl' else ():
                if re.search(r'\berror_code$', v['t']) and '&' not in v['t']:
                    par = par or parents(f)
                    calls += 1
                    cs = [x for x in facts.ftree(f) if x.get('k') == 'ref' and x.get('id') == v['id'] and up_to_condition(par, x)]
                    if cs:
                        ctx.ok(f'{facts.loc(f, n)}: {f["q"].split("(")[0]}: {v["n"]} decides')
                    else:
                        ctx.violate(f'ignored:{f["q"].split("(")[0]}:{v["n"]}', f'{facts.loc(f, n)}: {f["q"].split("(")[0]} keeps an error code in {v["n"]} and nothing depends on it')
                    continue
                if not re.match(r'(?:const )?std::expected<', v['t']) or not v.get('init'):
                    continue
                par = par or parents(f)
                calls += 1
                used = False
                for x in facts.ftree(f):
                    if x.get('k') != 'ref' or x.get('id') != v['id']:
                        continue
                    q, y = par.get(id(x)), x
                    while q is not None and (q.get('k') in ('paren', 'cleanups') or q.get('k') == 'cast' and q.get('t') != 'void'):
                        y, q = q, par.get(id(q))
                    n_ = (q.get('d') or {}).get('n') if q is not None and q.get('k') == 'call' else None
                    if q is None or n_ in ('operator*', 'operator->', 'value', 'error') or q.get('k') == 'block' or q.get('k') == 'cast' or q.get('k') == 'call' and q.get('op') in ('*', '->'):
                        continue
                    if q.get('k') == 'ctor' and 'bool_with_loc' in (q.get('t') or '') or n_ in TRUST:
                        continue
                    if (n_ or '').startswith('operator bool') or n_ == 'has_value':
                        z = par.get(id(q))
                        while z is not None and z.get('k') in ('paren', 'cleanups', 'cast'):
                            z = par.get(id(z))
                        if z is not None and ('bool_with_loc' in (z.get('t') or '') or z.get('k') == 'block' or z.get('k') == 'call' and (z.get('d') or {}).get('n') in TRUST - {'verify', 'verify_ex'}):
                            continue
                    used = True
                if used:
                    ctx.ok(f'{facts.loc(f, n)}: {f["q"].split("(")[0]}: the outcome kept in {v["n"]} is looked at')
                else:
                    ctx.violate(f'ignored:{f["q"].split("(")[0]}:{v["n"]}', f'{facts.loc(f, n)}: {f["q"].split("(")[0]} keeps an outcome in {v["n"]} and never looks at whether it failed')
        if f.get('lambda') or f['file'].endswith('utls/container/optional.h'):
            continue
        w = Walk(p, ctx, f, nulls)
        w.stack = [f]
        for i in f.get('inits', ()):
            if i.get('init'):
                w.ev(i['init'], frozenset())
        w.st(f['body'], frozenset())
        sites += w.sites
        byload += w.byload
        for a, b in w.est.items():
            if f['u'] in live:
                est.setdefault(a, set()).update(b)
    for e, what in ESTABLISH.items():
        if any(what in z for z in est.get(e, ())):
            ctx.ok(f'a train for which {what[:-1]} finds nothing is refused with {e} ({byload} places rely on it)')
        elif byload:
            ctx.violate(f'established:{e}', f'{byload} places take the node of a sequence point without checking, but no function refuses a train for which {what[:-1]} finds nothing ({e})')
    ctx.analysed['functions walked'] = fn
    ctx.analysed['calls that may fail'] = calls
    ctx.need(sites, 30, 'values taken out of optionals, outcomes and lookups')
