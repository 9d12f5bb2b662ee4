"""Work done in parallel: no two runs touch the same place without a common lock; everything started is waited for."""
import re
from common import *
import facts, effects
from effects import Effects, Val, ext, overlap, races, show

PAR = {'utl::parallel_for', 'utl::parallel_for_run', 'utl::parallel_for_run_threadlocal'}
THREAD = re.compile(r'\bstd::(jthread|thread)\b')
POLICY = re.compile(r'execution::.*(parallel|unsequenced)|__pstl::execution')


def parents(f):
    par = {}
    for n in facts.ftree(f):
        for c in facts.children(n):
            par[id(c)] = n
    return par


def deref(n, decls):
    """the lambda (or function) an argument stands for"""
    while n is not None and n.get('k') == 'call' and n.get('d', {}).get('n') in ('move', 'forward', 'ref', 'cref') and n.get('a'):
        n = n['a'][0]
    if n.get('k') == 'un' and n['op'] == '&':
        n = n['a'][0]
    if n.get('k') == 'ctor' and len(n['a']) == 1:
        n = n['a'][0]
    if n.get('k') == 'ref' and n.get('id') in decls:
        i = decls[n['id']].get('init')
        return deref(i, decls) if i else None
    if n.get('k') == 'lambda' or n.get('k') == 'ref' and n.get('d', {}).get('k') in ('Function', 'CXXMethod') or n.get('k') == 'mem':
        return n
    return None


class Site:
    pass


def spawn_sites(f):
    res = []
    for n in facts.ftree(f):
        if n.get('k') == 'call' and n.get('d'):
            q, a = n['d'].get('q', ''), n.get('a', [])
            if q in PAR:
                res.append(('for', n, a))
            elif q == 'std::async':
                if a and 'launch' in a[0].get('t', ''):
                    a = a[1:]
                res.append(('async', n, a))
            elif n.get('o') is not None and n['d'].get('n') in ('emplace_back', 'push_back', 'emplace') and THREAD.search(n['o'].get('t', '')) and a and not THREAD.search(a[0].get('t', '')):
                res.append(('thread', n, a))
            elif q.startswith('std::') and a and POLICY.search(a[0].get('t', '')):
                res.append(('algo', n, a[1:]))
        elif n.get('k') == 'ctor' and THREAD.match(n.get('t', '').replace('const ', '')) and n.get('a') and not n.get('copy') and not n.get('move'):
            res.append(('thread', n, n['a']))
    return res


def run(ctx, collect=None):
    ctx.explain = ('every place that starts parallel work is found in the resolved program; the reads and writes of the work, followed through all calls, references, lambdas, statics and mutable members, are collected with the locks held; '
                   'two runs of the same work must not touch the same place unless both only read it, the subscript is derived one-to-one from the number of the run, or both hold the same lock; '
                   'the starting function must wait for what it started and must not touch the shared state before')
    p = facts.load()
    sites = callees = accs = 0
    for f in sorted(p.funcs.values(), key=lambda f: (f['file'], f['line'], f['u'])):
        if f.get('dep') or not f.get('body'):
            continue
        sp = spawn_sites(f)
        if not sp:
            continue
        par = parents(f)
        decls = {}
        for n in facts.ftree(f):
            for v in n.get('vars', ()) if n.get('k') == 'decl' else ():
                decls[v['id']] = v
        regions = []
        for kind, n, a in sp:
            sites += 1
            where = f"{f['file']}: {f['q'].split('(')[0]}"
            e = Effects(p)
            e.stack.append(f)
            e.locks, e.this, e.ret = frozenset(), frozenset({(('T',), ())}), None
            # enclosing loops: their variables distinguish the runs
            loops, x = [], n
            while id(x) in par:
                x = par[id(x)]
                if x['k'] in ('for', 'rfor', 'while', 'do'):
                    loops.append(x)
            env, idx = {}, set()
            for l in loops[:1]:
                # numbers counted by the loop
                up = [t for t in facts.walk(l) if t.get('k') == 'un' and t['op'] in ('++', '--') and t['a'][0].get('k') == 'ref'] + [t for t in facts.walk(l) if t.get('k') == 'bin' and t.get('op') in ('+=', '-=') and 'v' in t['a'][1] and t['a'][0].get('k') == 'ref']
                for t in up:
                    i = t['a'][0].get('id')
                    inner = any(t2.get('k') == 'decl' and any(v['id'] == i for v in t2['vars']) for t2 in facts.walk(l.get('body')))
                    other = [t2 for t2 in facts.walk(l) if t2.get('k') == 'bin' and t2.get('op', '').endswith('=') and t2['op'] not in ('==', '!=', '<=', '>=') and t2 is not t and t2['a'][0].get('id') == i and i is not None]
                    if i in decls and not inner and not other and effects.SCALAR.match(decls[i]['t']):
                        idx.add(i)
                if l.get('k') == 'rfor' and effects.SCALAR.match(l['var']['t']):
                    idx.add(l['var']['id'])
            # references and views that stand for other objects
            for v in sorted(decls.values(), key=lambda v: v['l']):
                if v['id'] in idx:
                    continue
                if v.get('init') and (v['t'].endswith('&') or effects.VIEW.search(v['t'])) and not v.get('bind'):
                    pv = e.ev(v['init'], env)
                    if pv.paths:
                        env[v['id']] = Val(pv.paths)
            aenv = dict(env)
            for i in idx:
                aenv[i] = Val(frozenset({(('S', i), ())}), True)
            for l in loops[:1]:
                for m in facts.walk(l.get('body')):
                    if m.get('k') == 'decl':
                        for v in m['vars']:
                            if v.get('init') and not v['t'].endswith('&') and effects.SCALAR.match(v['t']):
                                aenv[v['id']] = Val(frozenset({(('S', v['id']), ())}), e.ev(v['init'], aenv).item)
            fn_i = next((i for i, y in enumerate(a) if deref(y, decls) is not None and (deref(y, decls)['k'] == 'lambda' or kind in ('async', 'thread'))), None)
            if fn_i is None:
                ctx.undecided(f'{where}: the work handed to {n.get("n") or "a thread"} cannot be resolved')
                continue
            fn = deref(a[fn_i], decls)
            if kind == 'for':
                if n['d']['q'] == 'utl::parallel_for':
                    c = next((e.ev(y, env) for y in a[:fn_i] if y['k'] != 'str' and not effects.SCALAR.match(y.get('t', '')) and 'char' not in y.get('t', '')), effects.NONE)
                    args = [Val(ext(c.paths, ('x', 'item')))]
                elif n['d']['n'].endswith('threadlocal'):
                    args = [Val(frozenset({(('L', 'threadlocal'), ())})), Val(item=True)]
                else:
                    args = [Val(item=True)]
            elif kind == 'algo':
                c = e.ev(a[0], env)
                args = [Val(ext(c.paths, ('x', 'item')))] * 2
            else:
                args = []
                for y in a[fn_i + 1:]:
                    byref = y['k'] == 'call' and y.get('d', {}).get('n') in ('ref', 'cref') or y.get('t', '').endswith('*') or 'iterator' in y.get('t', '') or 'reference_wrapper' in y.get('t', '')
                    v = e.ev(y, aenv)
                    args.append(Val(v.paths if byref else frozenset(), v.item))
            # a copy of a loop variable is the number of this run
            renv = dict(env)
            if fn.get('k') == 'lambda':
                for c in fn.get('caps', ()):
                    if not c.get('byref') and 'id' in c:
                        src = aenv.get(c['id'])
                        if c.get('init') and c['init'].get('k') != 'ref':
                            src = e.ev(c['init'], aenv)
                        if not effects.VIEW.search(c.get('t', '')):
                            renv[c['id']] = Val(frozenset({(('L', c['id']), ())}), bool(src and src.item))
                us = fn.get('insts') or [fn['u']]
                fs = [p.funcs[u] for u in us if u in p.funcs and not p.funcs[u].get('dep')]
            else:
                fs = [p.funcs[fn['d']['u']]] if fn.get('d', {}).get('u') in p.funcs else []
                if fn.get('k') == 'mem' or fn.get('d', {}).get('k') == 'CXXMethod':
                    this, args = (args[0].paths if args else frozenset()), args[1:]
            if not fs:
                ctx.undecided(f'{where}: the work handed to {n.get("n") or "a thread"} has no body here')
                continue
            e.acc, e.seen = [], set()
            e.stack = []
            for g in fs:
                e.region(g, args, frozenset({(('T',), ())}) if fn.get('k') == 'lambda' else frozenset(), renv)
            callees += e.calls
            accs += len(e.acc)
            r = Site()
            r.kind, r.n, r.acc, r.names, r.where, r.loops, r.multi = kind, n, e.acc, e.names, where, loops, bool(loops) or kind in ('for', 'algo')
            regions.append(r)
            if r.multi:
                bad = races(e.acc)
                seen = set()
                for w, o in bad:
                    nm = show(w.path, e.names)
                    if nm in seen:
                        continue
                    seen.add(nm)
                    how = 'written' if o.w else 'read'
                    ctx.violate(f'race:{f["q"].split("(")[0]}:{nm}', f'{w.where}: work started in parallel by {where} writes {nm} ({w.what}), which another run may have {how} at {o.where} at the same time; there is no common lock and no subscript of its own')
                if not bad:
                    ctx.ok(f'{where}: {len(e.acc)} shared reads and {sum(a.w for a in e.acc)} shared writes of the work given to {n.get("n") or kind}, over {e.calls} function bodies, do not interfere')
        if collect is not None:
            collect.append((f, regions))
        # started work and the function that started it
        waits = [m for m in facts.ftree(f) if m.get('k') == 'call' and m.get('o') is not None and m['d'].get('n') in ('join', 'get', 'wait') and re.search(r'\bstd::(j?thread|future|shared_future)\b', m['o'].get('t', ''))]
        for m in facts.ftree(f):  # the wait may sit in a lambda of the same function
            if m.get('k') == 'lambda':
                for u in m.get('insts') or [m['u']]:
                    g = p.funcs.get(u)
                    if g and g.get('body') and not g.get('dep') and any(x.get('k') == 'call' and x.get('o') is not None and x['d'].get('n') == 'join' and THREAD.search(x['o'].get('t', '')) for x in facts.ftree(g)):
                        waits.append({'i': m['i'], 'd': {'n': 'join'}})
        for r in regions:
            if r.kind not in ('thread', 'async'):
                continue
            th = re.search(r'jthread', (r.n.get('o') or r.n).get('t', ''))
            if r.kind == 'thread' and not th:
                det = [m for m in facts.ftree(f) if m.get('k') == 'call' and m.get('d', {}).get('n') == 'detach']
                if det:
                    ctx.violate(f'detach:{f["q"].split("(")[0]}', f'{f["file"]}:{det[0]["l"]}: {r.where} detaches a thread that works on its local state')
                elif not [m for m in waits if m['d']['n'] == 'join']:
                    ctx.violate(f'join:{f["q"].split("(")[0]}', f'{facts.loc(f, r.n)}: {r.where} starts threads and never joins them')
                else:
                    ctx.ok(f'{r.where}: the threads started are joined')
            # code between start and wait
            after = [m['i'] for m in waits if m['i'] > r.n['i']]
            end = min(after) if after else None
            inlambda = set()
            for m in facts.ftree(f):
                if m.get('k') == 'lambda':
                    inlambda |= {id(x) for x in facts.walk(m)}
            top = []
            lastloop = r.loops[-1] if r.loops else None
            inloop = {id(x) for x in facts.walk(lastloop)} if lastloop else set()
            for m in facts.ftree(f):
                if id(m) in inlambda or m is r.n or id(m) in {id(x) for x in facts.walk(r.n)}:
                    continue
                if m.get('k') in ('bin', 'un', 'call') and (id(m) in inloop or (m['i'] > r.n['i'] and (end is None or m['i'] < end))):
                    top.append(m)
            e2 = Effects(p)
            e2.stack.append(f)
            e2.locks, e2.this, e2.ret = frozenset(), frozenset({(('T',), ())}), None
            anc = {id(x) for m in top for x in facts.walk(m) if x is not m}
            for m in top:
                if id(m) in anc or any(id(x) == id(r.n) for x in facts.walk(m)):
                    continue
                if m.get('k') == 'call' and m.get('d', {}).get('n') in ('join', 'for_each', 'reserve', 'emplace_back', 'push_back') and (m.get('o') is None or re.search(r'thread|future', m['o'].get('t', ''))):
                    continue
                e2.ev(m, {})
            hit = None
            for x in r.acc:
                for y in e2.acc:
                    if (x.w or y.w) and x.path[0] == y.path[0] and x.path[0][0] in 'ST' and not (x.locks & y.locks):
                        a_, b_ = x.path[1], y.path[1]
                        k = min(len(a_), len(b_))
                        if all(p_ == q_ or p_[0] == 'x' == q_[0] for p_, q_ in zip(a_[:k], b_[:k])) and (x.w and len(b_) >= len(a_) or y.w and len(a_) >= len(b_)):
                            hit = hit or (x, y)
            if hit:
                nm = show(hit[0].path, {**r.names, **e2.names})
                ctx.violate(f'early:{f["q"].split("(")[0]}:{nm}', f'{hit[1].where}: {r.where} touches {nm} while the work it started may still use it ({hit[0].where})')
            else:
                ctx.ok(f'{r.where}: shared state is left alone until the work is done ({len(e2.acc)} accesses between start and wait)')
        # the number of processors may be reported as 0
        for m in facts.ftree(f):
            if m.get('k') == 'call' and m.get('d', {}).get('n') == 'hardware_concurrency':
                x = m
                while par.get(id(x), {}).get('k') == 'cast':
                    x = par[id(x)]
                v = next((v for v in decls.values() if v.get('init') is x), None)
                if v is None:
                    ctx.ok(f'{f["file"]}: {f["q"].split("(")[0]}: the number of processors is not used as it is')
                    continue
                units = [f] + [g for g in p.funcs.values() if g.get('in') == f['u'] and g.get('body')]
                uses = [t for g in units for t in facts.ftree(g) if t.get('k') == 'bin' and t.get('op') in ('/', '%') and t['a'][1].get('k') == 'ref' and t['a'][1].get('id') == v['id']]
                tested = [t for g in units for t in facts.ftree(g) if t.get('k') == 'bin' and t.get('op') in ('==', '!=', '>', '<', '>=', '<=', '=') and any(y.get('id') == v['id'] for y in t['a'] if y.get('k') == 'ref') and any(y.get('v') in ('0', '1') for y in t['a'] if y.get('k') != 'ref')]
                if uses and not tested:
                    ctx.violate(f'processors:{f["q"].split("(")[0]}', f'{facts.loc(f, uses[0])}: {f["q"].split("(")[0]} divides by the number of processors, which the standard library reports as 0 when it is unknown')
                else:
                    ctx.ok(f'{f["file"]}: {f["q"].split("(")[0]}: an unknown number of processors is handled')
        # two different works of one function at the same time
        live = [r for r in regions if r.kind in ('thread', 'async')]
        for i, r in enumerate(live):
            for s in live[i + 1:]:
                for x in r.acc:
                    for y in s.acc:
                        if (x.w or y.w) and x.path == y.path and not (x.locks & y.locks):
                            ctx.violate(f'pair:{f["q"].split("(")[0]}:{show(x.path, r.names)}', f'{x.where} and {y.where}: two pieces of work started by {r.where} use {show(x.path, r.names)} at the same time')
    ctx.analysed['accesses followed'] = accs
    ctx.analysed['function bodies followed'] = callees
    ctx.need(sites, 5, 'places that start parallel work')
