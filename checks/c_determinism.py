"""Results depend on the input only: not on directory order, schedules, addresses, clocks, random numbers, or what was computed before."""
import re
from common import *
import facts, effects, c_parallel
from effects import Effects, Val, show

DIR = re.compile(r'\b(recursive_)?directory_iterator\b')
HASH = re.compile(r'\b(unordered_(multi)?(map|set)|hash_storage|hash_map|hash_set|hash_multimap)<')
PTRKEY = re.compile(r'^(const )?[\w:]*(map|set|hash_storage)<[^<>,]*\*')
SORT = {'sort', 'stable_sort', 'erase_duplicates', 'sort_unique', 'is_sorted', 'sort_and_intersect', 'utl_sort'}
NEUTRAL_ALGO = {'any_of', 'all_of', 'none_of', 'count_if', 'count', 'distance', 'end', 'cend', 'is_empty', 'empty', 'contains', 'contains_if', 'is_permutation', 'forward', 'move', 'as_const', 'size', 'ssize'}
NEUTRAL_USE = NEUTRAL_ALGO | {'reserve', 'clear', 'resize', 'shrink_to_fit', 'operator==', 'operator!='}
SEQ = {'push_back', 'emplace_back', 'push', 'push_front', 'emplace_front', 'append', 'concat', 'operator<<', 'operator+=', 'back_inserter', 'front_inserter', 'insert_or_assign', 'put', 'write', 'String', 'Uint', 'Int', 'Double', 'Key', 'add', 'append_range'}
SYNC = re.compile(r'\b(mutex|shared_mutex|recursive_mutex|once_flag|condition_variable|latch|barrier)\b')
CLOCK = re.compile(r'^(std::chrono::\w*::now|std::chrono::_V2::\w+::now|std::rand|rand|std::time|time|std::clock|clock|getenv|std::getenv|secure_getenv|gettimeofday|clock_gettime|getpid|gettid|random|drand48|lrand48|std::this_thread::get_id|std::thread::get_id|pthread_self|tmpnam|std::tmpnam|std::random_device::operator\(\))$')
LOGFILE = ('include/soro/utls/sassert.h',)


def strip(n):
    while isinstance(n, dict) and (n.get('k') in ('cast', 'paren') or n.get('k') == 'ctor' and len(n.get('a', ())) == 1 and (n.get('copy') or n.get('move')) or n.get('k') == 'call' and (n.get('d') or {}).get('n') in ('move', 'forward', 'as_const') and len(n.get('a', ())) == 1):
        n = n.get('e') or n['a'][0]
    return n


def refs(n, ids):
    return any(x.get('k') == 'ref' and x.get('id') in ids for x in facts.walk(n))


def decls_of(f):
    return {v['id']: v for n in facts.ftree(f) if n.get('k') == 'decl' for v in n['vars']}


class Dir:
    """sequences whose order the operating system chose, until they are sorted"""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.sources = 0
        self.carriers = {}   # functions that hand such a sequence out: usr -> where it comes from

    def source(self, n):
        """an expression that yields entries in an order of the operating system"""
        n = strip(n)
        if not isinstance(n, dict):
            return None
        if DIR.search((n.get('t') or '').split('<')[0]) and n.get('k') in ('ctor', 'call', 'init'):
            return 'the order in which the directory is listed'
        if n.get('k') == 'call' and (n.get('d') or {}).get('u') in self.carriers:
            return self.carriers[n['d']['u']]
        # views over such a sequence keep its order
        if n.get('k') == 'call' and (n.get('op') == '|' or 'view' in (n.get('t') or '') or 'subrange' in (n.get('t') or '') or (n.get('d') or {}).get('n') in ('to_vec', 'to', 'iterable_to_vec', 'vec', 'enumerate', 'transform')):
            for a in n.get('a', ()):
                s = self.source(a)
                if s:
                    return s
        return None

    def name(self, f):
        return f['q'].split('(')[0]

    def where(self, f, n):
        return facts.loc(f, n)

    def run(self):
        todo = [f for f in sorted(self.p.funcs.values(), key=lambda f: (f['file'], f['line'], f['u'])) if not f.get('dep') and f.get('body')]
        seen = set()
        for _ in range(6):
            before = len(self.carriers)
            for f in todo:
                self.function(f, seen)
            if len(self.carriers) == before:
                break

    def function(self, f, seen):
        par = c_parallel.parents(f)
        decls = decls_of(f)
        for n in facts.ftree(f):
            s = self.source(n)
            if not s or (f['u'], n.get('i'), id(n)) in seen:
                continue
            seen.add((f['u'], n.get('i'), id(n)))
            # the node as it is used: through casts, moves, single-argument constructors and views
            x = n
            while True:
                q = par.get(id(x))
                if q is None:
                    break
                if q.get('k') in ('cast', 'paren') or q.get('k') == 'ctor' and (q.get('copy') or q.get('move')) or self.source(q) and q.get('k') != 'decl':
                    x = q
                    seen.add((f['u'], x.get('i'), id(x)))
                    continue
                break
            self.sources += 1
            self.used(f, x, par, decls, s)

    def used(self, f, x, par, decls, s):
        q = par.get(id(x))
        k = q.get('k') if q else None
        if k == 'rfor' and strip(q.get('range')) is strip(x) or k == 'rfor' and id(q.get('range')) == id(x):
            return self.loop(f, q, {q['var']['id']} | {b['id'] for b in q['var'].get('bind', ())}, s)
        if k == 'return':
            if not f.get('lambda'):
                self.carriers.setdefault(f['u'], s)
            return
        for v in decls.values():
            i = v.get('init')
            if i is not None and (i is x or strip(i) is strip(x)):
                if v.get('n', '').startswith('__'):
                    # hidden variable of a range loop
                    continue
                return self.var(f, v, par, s, q)
        if k == 'call':
            nm = (q.get('d') or {}).get('n', '')
            if nm in NEUTRAL_ALGO or nm in SORT:
                self.ctx.ok(f'{self.where(f, q)}: {self.name(f)}: {nm} does not depend on the order')
                return
            if nm in ('begin', 'cbegin'):
                g = par.get(id(q))
                while g is not None and g.get('k') in ('cast', 'ctor', 'paren'):
                    g = par.get(id(g))
                if g is not None and g.get('k') == 'call' and (g.get('d') or {}).get('n') in NEUTRAL_ALGO:
                    return
                lp = [v for v in decls.values() if v.get('init') is not None and any(y is q for y in facts.walk(v['init']))]
                if lp and self.in_for_init(par, lp[0], f):
                    return self.loop(f, self.in_for_init(par, lp[0], f), {lp[0]['id']}, s)
                self.first(f, q, s)
                return
            if nm in ('find_if', 'find', 'operator*', 'operator->', 'front', 'back', 'operator[]', 'at', 'path'):
                self.first(f, q, s)
                return
            if nm in ('for_each',):
                lam = [y for y in facts.walk(q) if y.get('k') == 'lambda']
                for y in lam:
                    for u in y.get('insts') or [y['u']]:
                        g = self.p.funcs.get(u)
                        if g and g.get('body') and not g.get('dep'):
                            self.body(f, g['body'], {z['id'] for z in g.get('params', ())}, s, q, set(decls))
                return
        self.ctx.undecided(f'{self.where(f, x)}: {self.name(f)}: use of {s} not understood')

    def in_for_init(self, par, v, f):
        for n in facts.ftree(f):
            if n.get('k') == 'for' and n.get('init') and any(y.get('k') == 'decl' and any(w['id'] == v['id'] for w in y['vars']) for y in facts.walk(n['init'])):
                return n
        return None

    def first(self, f, n, s):
        self.ctx.violate(f'first:{self.name(f)}', f'{self.where(f, n)}: {self.name(f)} picks whichever entry comes first; {s} decides')

    # a variable holding the entries in that order
    def var(self, f, v, par, s, after):
        us = [n for n in facts.ftree(f) if n.get('k') == 'ref' and n.get('id') == v['id']]
        units = [f] + [g for g in self.p.funcs.values() if g.get('in') == f['u'] and g.get('body')]
        if not us:
            return
        if DIR.search(v['t'].split('<')[0]):
            lp = self.in_for_init(par, v, f)
            if lp:
                return self.loop(f, lp, {v['id']}, s)
            for u in us:
                q = par.get(id(u))
                while q is not None and q.get('k') in ('cast', 'ctor', 'paren'):
                    q = par.get(id(q))
                if q is None:
                    continue
                nm = (q.get('d') or {}).get('n', '')
                if q.get('k') == 'rfor':
                    self.loop(f, q, {q['var']['id']}, s)
                elif q.get('k') in ('while', 'for', 'do'):
                    continue
                elif nm in ('operator*', 'operator->'):
                    w = q
                    while w is not None and w.get('k') not in ('while', 'for', 'do', 'rfor'):
                        w = par.get(id(w))
                    if w is None:
                        return self.first(f, q, s)
                    self.loop(f, w, {v['id']}, s)
                    return
            return
        self.follow(f, v['id'], v['n'], us, par, s)

    def follow(self, f, vid, name, us, par, s):
        """uses of a sequence in that order, in the order of the text; a sort ends the search"""
        for u in us:
            x, q = u, par.get(id(u))
            while q is not None and q.get('k') in ('cast', 'paren') or q is not None and q.get('k') == 'ctor' and (q.get('copy') or q.get('move')) or q is not None and q.get('k') == 'call' and (q.get('d') or {}).get('n') in ('move', 'forward', 'as_const', 'begin', 'end', 'cbegin', 'cend'):
                x, q = q, par.get(id(q))
            if q is None:
                continue
            nm = (q.get('d') or {}).get('n', '')
            if q.get('k') == 'call' and nm in SORT:
                self.ctx.ok(f'{self.where(f, q)}: {self.name(f)}: {name} is brought into a definite order before it is used')
                return
            if q.get('k') == 'call' and nm in NEUTRAL_USE:
                continue
            if q.get('k') == 'return':
                if not f.get('lambda'):
                    self.carriers.setdefault(f['u'], s)
                return
            if q.get('k') == 'rfor' and any(y is u for y in facts.walk(q.get('range'))):
                self.loop(f, q, {q['var']['id']} | {b['id'] for b in q['var'].get('bind', ())}, s)
                continue
            if q.get('k') == 'call' and nm in ('front', 'back', 'operator[]', 'at', 'operator*', 'operator->'):
                if nm in ('operator[]', 'at'):
                    self.ctx.violate(f'order:{self.name(f)}:{name}', f'{self.where(f, u)}: {self.name(f)} uses positions of {name}, whose order is {s}; it was not sorted')
                else:
                    self.first(f, q, s)
                return
            if q.get('k') == 'call' and nm in SEQ | {'insert', 'emplace'} and q.get('o') is not None and any(y is u for y in facts.walk(q['o'])):
                continue  # still being filled
            self.ctx.violate(f'order:{self.name(f)}:{name}', f'{self.where(f, u)}: {self.name(f)} goes on with {name}, whose order is {s}; it was not sorted')
            return

    def loop(self, f, l, ids, s):
        self.body(f, l['body'], ids, s, l, None)

    def body(self, f, body, ids, s, l, _):
        e = Effects(self.p)
        e.stack.append(f)
        e.locks, e.this, e.ret = frozenset(), frozenset({(('T',), ())}), None
        env = {i: Val(frozenset({(('L', ('entry', i)), ())})) for i in ids}
        inner = set()
        for n in facts.walk(body):
            if n.get('k') == 'decl':
                inner |= {v['id'] for v in n['vars']}
        e.st(body, env)
        names = e.names
        own = set(decls_of(f)) | {v['id'] for v in f.get('params', ())} | {b['id'] for v in decls_of(f).values() for b in v.get('bind', ())}
        if f.get('in'):
            g = self.p.funcs.get(f['in'])
            while g:
                own |= set(decls_of(g)) | {v['id'] for v in g.get('params', ())}
                g = self.p.funcs.get(g.get('in'))
        par = c_parallel.parents(f)
        loop_ids = {id(n) for n in facts.walk(l)}
        done = set()
        for a in e.acc:
            if not a.w or a.path[0][0] == 'L':
                continue
            key = (a.path, a.what)
            if key in done:
                continue
            done.add(key)
            nm = show(a.path, names)
            steps = a.path[1]
            if a.path[0][0] == 'G' and re.search(r'\b(clog|cerr|cout)\b', str(a.path[0][1])):
                continue
            if a.path[0][0] == 'S' and a.path[0][1] not in own:
                continue
            if a.what in SEQ or a.what in ('insert', 'emplace') and self.is_seq(f, a.path):
                if a.path[0][0] == 'S':
                    later = [n for n in facts.ftree(f) if n.get('k') == 'ref' and n.get('id') == a.path[0][1] and id(n) not in loop_ids and self.later(n, l)]
                    self.follow(f, a.path[0][1], nm, later, par, s)
                else:
                    self.ctx.violate(f'order:{self.name(f)}:{nm}', f'{a.where}: {self.name(f)} adds to {nm} in an order given by {s}')
            elif a.what == '=' or a.what == 'operator=':
                if any(t[0] == 'x' for t in steps):
                    continue
                asg = [n for n in facts.walk(body) if (n.get('k') == 'bin' and n.get('op') == '=' or n.get('k') == 'call' and (n.get('d') or {}).get('n') == 'operator=') and f"{f['file']}:{n.get('l') or f['line']}" == a.where]
                rhs = [list(n['a'])[-1] for n in asg]
                if rhs and all(strip(r).get('k') in ('lit', 'flit', 'str', 'null') or strip(r).get('k') == 'call' and (strip(r).get('d') or {}).get('n') in ('min', 'max') for r in rhs):
                    continue
                if asg:
                    self.ctx.violate(f'last:{self.name(f)}:{nm}', f'{a.where}: the last entry decides {nm}; {s} decides which one that is')
                else:
                    self.ctx.undecided(f'{a.where}: {nm} is assigned for every entry in an order given by {s}')
        # leaving with the entry at hand
        for n in facts.walk(body):
            if n.get('k') == 'return' and n.get('e') is not None and self.depends(body, n['e'], ids) and not f.get('lambda'):
                t = f.get('ret') or ''
                self.ctx.violate(f'first:{self.name(f)}', f'{self.where(f, n)}: {self.name(f)} answers with the first entry found; {s} decides which one that is')
        self.ctx.ok(f'{self.where(f, l)}: {self.name(f)}: effects of the loop over entries examined ({len(e.acc)} accesses)')

    def is_seq(self, f, path):
        if path[1]:
            return False
        d = decls_of(f)
        v = d.get(path[0][1]) if path[0][0] == 'S' else None
        return bool(v and re.search(r'\b(basic_vector|vector|deque|list|basic_string)<', v['t'][:60]))

    def later(self, n, l):
        return n.get('i', 0) > l.get('i', 0)

    def depends(self, body, e, ids):
        ids = set(ids)
        for _ in range(4):
            for n in facts.walk(body):
                if n.get('k') == 'decl':
                    for v in n['vars']:
                        if v.get('init') and refs(v['init'], ids):
                            ids.add(v['id'])
        return refs(e, ids)


def iterated(p):
    """(function, node, type) of everything iterated"""
    for f in p.funcs.values():
        if f.get('dep') or not f.get('body'):
            continue
        for n in facts.ftree(f):
            if n.get('k') == 'rfor' and n.get('range'):
                yield f, n, n['range'].get('t') or ''
            elif n.get('k') == 'call' and (n.get('d') or {}).get('n') in ('begin', 'cbegin', 'operator|', 'all', 'for_each', 'to_vec'):
                for a in ([n['o']] if n.get('o') is not None else []) + list(n.get('a', ())):
                    yield f, n, a.get('t') or ''


def sorted_after(f, n):
    """the entries are put into a sequence that is sorted later in the same function"""
    par = c_parallel.parents(f)
    q = n
    while q is not None and not (q.get('k') == 'call' and (q.get('d') or {}).get('n') in ('insert', 'append', 'copy', 'concat', 'assign', 'transform')):
        q = par.get(id(q))
    if q is None:
        return False
    keys = {x['n'] for y in ([q['o']] if q.get('o') is not None else q.get('a', ())) for x in facts.walk(y) if x.get('k') in ('mem', 'ref') and 'n' in x and not (x.get('d') or {}).get('k', '').startswith('CXXM')}
    keys -= {'begin', 'end'}
    mems = {x['n'] for y in ([q['o']] if q.get('o') is not None else q.get('a', ())) for x in facts.walk(y) if x.get('k') == 'mem' and (x.get('d') or {}).get('k') == 'Field'}
    keys = mems or keys
    for m in facts.ftree(f):
        if m.get('k') == 'call' and (m.get('d') or {}).get('n') in SORT and m.get('i', 0) > q.get('i', 0) and any(x.get('n') in keys for x in facts.walk(m)):
            return True
    return False


def run(ctx):
    ctx.explain = ('sources of accidental order or value (directory listings, work finished by several threads, containers ordered or hashed by address, clocks, random numbers, environment, mutable static state) are found in the resolved program; '
                   'every sequence filled in such an order must be sorted before its first other use, no result may take the first or last such entry, work done in parallel may only combine its results in order-independent ways')
    p = facts.load()
    d = Dir(ctx, p)
    d.run()
    ctx.need(d.sources, 3, 'places that read a directory')
    # order of threads
    sink = Ctx(ctx.prop, ctx.tier)
    regions = []
    c_parallel.run(sink, regions)
    n_ = 0
    for f, rs in regions:
        for r in rs:
            if not r.multi:
                continue
            n_ += 1
            bad = None
            for a in r.acc:
                if not a.w or a.path[0][0] == 'L' or any(t == ('x', 'item') for t in a.path[1]):
                    continue
                if a.path[0][0] == 'G' and re.search(r'\b(clog|cerr|cout)\b', str(a.path[0][1])):
                    continue
                if a.what in SEQ or a.what in ('=', 'operator=') and not any(t[0] == 'x' for t in a.path[1]):
                    nm = show(a.path, r.names)
                    # sorted right after the region?
                    if a.what in SEQ and a.path[0][0] == 'S':
                        later = [x for x in facts.ftree(f) if x.get('k') == 'ref' and x.get('id') == a.path[0][1] and x.get('i', 0) > max(y.get('i', 0) for y in facts.walk(r.n))]
                        par = c_parallel.parents(f)
                        k = None
                        for u in later:
                            q = par.get(id(u))
                            while q is not None and (q.get('k') in ('cast', 'paren') or q.get('k') == 'call' and (q.get('d') or {}).get('n') in ('begin', 'end')):
                                q = par.get(id(q))
                            k = (q.get('d') or {}).get('n') if q is not None and q.get('k') == 'call' else None
                            if k not in NEUTRAL_USE:
                                break
                        if k in SORT:
                            continue
                    bad = (a, nm)
                    break
            if bad:
                ctx.violate(f'schedule:{r.where}:{bad[1]}', f'{bad[0].where}: the work started in parallel by {r.where} combines its results in {bad[1]} ({bad[0].what}) in the order in which the threads happen to finish')
            else:
                ctx.ok(f'{r.where}: results of the parallel work are combined independently of the schedule')
    ctx.need(n_, 4, 'parallel regions')
    # addresses
    nk = 0
    for f, n, t in iterated(p):
        nk += 1
        m = PTRKEY.search(t)
        if m and not re.search(r'basic_string_view|less<void>', t) and (HASH.search(t) or not re.search(r'\*[^,<>]*, *(?!std::less)[\w:]*[cC]omp', t)):
            if n.get('k') == 'call' and sorted_after(f, n):
                continue
            ctx.violate(f'address:{f["q"].split("(")[0]}', f'{facts.loc(f, n)}: {f["q"].split("(")[0]} iterates over {t[:90]}, whose order is that of memory addresses')
    ctx.ok(f'{nk} iterations: none over a container ordered or hashed by address')
    ns = 0
    for f in p.funcs.values():
        if f.get('dep') or not f.get('body'):
            continue
        ps_ = [v['t'] for v in f.get('params', ())]
        cmp_ = f.get('lambda') or f['n'] in ('operator<', 'operator<=>', 'operator>') or len(ps_) == 2 and ps_[0] == ps_[1]
        for n in facts.ftree(f):
            if n.get('k') == 'call' and (n.get('d') or {}).get('n') in ('sort', 'stable_sort', 'erase_duplicates', 'min_element', 'max_element') and n.get('a'):
                ns += 1
                t = n['a'][0].get('t') or ''
                el = re.match(r'^(?:const )?(?:std|cista|soro)::[\w:]*?(?:basic_)?vector<([^<>,]*\*)(?: ?const)?,', t) or re.match(r'^__gnu_cxx::__normal_iterator<([^<>]*\*) ?\*, ', t)
                its = 'iterator' in t.split('<')[0]
                custom = n['a'][2:] if its else n['a'][1:]
                gen = f['file'].startswith('include/soro/utls/std_wrapper') and len(n['a']) > 2
                if el and not custom and not gen and not f['file'].startswith('include/soro/utls/std_wrapper'):
                    ctx.violate(f'addresssort:{f["q"].split("(")[0]}', f'{facts.loc(f, n)}: {f["q"].split("(")[0]} orders {el.group(1)} by memory address')
            if cmp_ and n.get('k') == 'bin' and n.get('op') in ('<', '>', '<=', '>='):
                ts = [(a.get('t') or '') for a in n['a']]
                if all(re.search(r'\* ?(const)?$', t) for t in ts) and not any('char' in t for t in ts):
                    ctx.violate(f'addresscmp:{f["q"].split("(")[0]}', f'{facts.loc(f, n)}: {f["q"].split("(")[0]} compares by memory address')
    ctx.ok(f'{ns} orderings: none by address')
    # clocks, random numbers, environment
    nc = 0
    for f in p.funcs.values():
        if f.get('dep') or not f.get('body'):
            continue
        for n in facts.ftree(f):
            if n.get('k') in ('call', 'ctor'):
                nc += 1
                q = (n.get('d') or {}).get('q', '')
                if (CLOCK.match(q) or n.get('k') == 'ctor' and 'random_device' in (n.get('t') or '')) and f['file'] not in LOGFILE:
                    ctx.violate(f'ambient:{f["q"].split("(")[0]}:{q}', f'{facts.loc(f, n)}: {f["q"].split("(")[0]} asks {q or "a random device"}')
    ctx.ok(f'{nc} calls: no clock, random number or environment is asked')
    # hidden state
    nv = 0
    stat = {}
    for f in p.funcs.values():
        if f.get('dep') or not f.get('body'):
            continue
        for n in facts.ftree(f):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    nv += 1
                    if (v.get('static') or v.get('tls')) and not v.get('constexpr') and not v['t'].startswith('const ') and not SYNC.search(v['t']):
                        stat.setdefault((f['u'], v['id']), (f, v, n))
    for (u, i), (f, v, n) in stat.items():
        par = c_parallel.parents(f)
        units = [f] + [g for g in p.funcs.values() if g.get('in') == u and g.get('body')]
        w = None
        for g in units:
            pg = c_parallel.parents(g)
            for x in facts.ftree(g):
                if x.get('k') == 'ref' and x.get('id') == i:
                    q = pg.get(id(x))
                    top = x
                    while q is not None and (q.get('k') == 'mem' or q.get('k') == 'cast' and not (q.get('t') or '').startswith('const') or q.get('k') == 'sub'):
                        top, q = q, pg.get(id(q))
                    if q is None:
                        continue
                    if q.get('k') == 'bin' and q.get('op', '').endswith('=') and q['op'] not in ('==', '!=', '<=', '>=') and q['a'][0] is top or q.get('k') == 'un' and q['op'] in ('++', '--'):
                        w = x
                    elif q.get('k') == 'call':
                        dd = q.get('d') or {}
                        if (q.get('o') is top or dd.get('k') == 'CXXMethod' and q.get('op') and q['a'][0] is top) and not dd.get('const') and dd.get('n') not in effects.ACCESS and dd.get('k') == 'CXXMethod':
                            w = x
                        elif q.get('op') in ('++', '--', '+=', '-=', '|=', '<<') and q['a'] and q['a'][0] is top:
                            w = x
        if w is not None:
            ctx.violate(f'state:{f["q"].split("(")[0]}:{v["n"]}', f'{facts.loc(f, w)}: {f["q"].split("(")[0]} changes "{v["n"]}", which keeps its value for later calls')
        else:
            ctx.ok(f'{facts.loc(f, n)}: static "{v["n"]}" of {f["q"].split("(")[0]} is never changed')
    glob = {v.get('q'): v for v in p.vars.values() if not v.get('constexpr') and not v.get('const') and not v['t'].startswith('const ') and not SYNC.search(v['t'])}
    for f in p.funcs.values():
        if f.get('dep') or not f.get('body') or not glob:
            continue
        for n in facts.ftree(f):
            tgt = None
            if n.get('k') == 'bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                tgt = n['a'][0]
            elif n.get('k') == 'un' and n['op'] in ('++', '--'):
                tgt = n['a'][0]
            elif n.get('k') == 'call' and n.get('o') is not None and not (n.get('d') or {}).get('const') and (n.get('d') or {}).get('n') not in effects.ACCESS:
                tgt = n['o']
            elif n.get('k') == 'call' and n.get('op') in ('++', '--', '+=', '-=', '=') and n.get('a'):
                tgt = n['a'][0]
            while isinstance(tgt, dict) and tgt.get('k') in ('mem', 'cast', 'sub', 'paren') and (tgt.get('d') or {}).get('q') not in glob:
                tgt = tgt.get('b') or tgt.get('e') or (tgt.get('a') or [None])[0]
            q = (tgt.get('d') or {}).get('q') if isinstance(tgt, dict) else None
            if q in glob:
                ctx.violate(f'state:{q}', f'{facts.loc(f, n)}: {f["q"].split("(")[0]} changes the global "{q}"')
    ctx.ok(f'{nv} variables: no hidden state survives a call')
    ctx.analysed['calls examined'] = nc
    ctx.analysed['variables examined'] = nv
