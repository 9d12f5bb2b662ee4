"""Effect analysis: which objects a callable reads and writes, followed through calls, references and lambdas.

A location is a root (captured variable, this, global, element handed to the region) plus steps (field, subscript).
A subscript is 'item' when it is derived one-to-one from the number handed to this run of the region.
"""
import re, itertools
import facts

PURE = set('begin end cbegin cend rbegin rend forward move get as_const ref cref tie addressof size ssize empty data distance advance next prev make_pair make_tuple min max pair to_string '
           'all_of any_of none_of find find_if count count_if contains contains_if is_sorted accumulate equal lower_bound upper_bound binary_search for_each min_element max_element '
           'get_if holds_alternative visit to_vec to_set all pairwise enumerate zip transform filter iterable_to_vec vec transform_if find_position find_if_position includes search mismatch '
           'forward_as_tuple apply invoke holds cista_members'.split())
MUT = set('sort stable_sort reverse fill fill_n rotate iota unique remove remove_if partition stable_partition shuffle swap iter_swap nth_element generate partial_sort inplace_merge exchange'.split())
DEST = set('copy copy_if transform move set_difference set_union set_intersection merge unique_copy replace_copy remove_copy'.split())
ACCESS = set('begin end cbegin cend rbegin rend data at operator[] front back find lower_bound upper_bound equal_range operator* operator-> get value c_str size empty contains count capacity view '
             'native_handle first second load first_child next_sibling child attribute children parent'.split())
SYNC = re.compile(r'^(const )?std::(atomic|atomic_flag|mutex|shared_mutex|recursive_mutex|timed_mutex|condition_variable|once_flag|counting_semaphore|latch|barrier)\b')
LOCK = re.compile(r'^(const )?std::(lock_guard|scoped_lock|unique_lock)\b')
VIEW = re.compile(r'\*( const)?$|iterator|\bspan<|string_view|reference_wrapper|it_range|_range|_view|subrange|&$|\bxml_node\b|\bxml_attribute\b')
SCALAR = re.compile(r'^(const )?(volatile )?(unsigned |signed )?(char|short|int|long|long long|bool|float|double|std::byte)\b[^<>:]*$')


class Val:
    __slots__ = ('paths', 'item', 'fn', 'obj')

    def __init__(s, paths=frozenset(), item=False, fn=None, obj=None):
        s.paths, s.item, s.fn, s.obj = paths, item, fn, obj


NONE = Val()


OWN = re.compile(r'^(const )?(std|cista|soro|fmt|boost)\S*?::(vector|basic_vector|set|map|multimap|unordered_\w+|deque|list|priority_queue|stack|queue|pair|tuple|array|hash_storage|optional)<')


def ext(paths, step):
    """a held view (marker 'h') is an element of a container of references: its element is what it refers to"""
    return frozenset((r, st[:-1] if st and st[-1] == ('h',) else (st + (step,))[:9]) for r, st in paths)


def held(paths):
    return frozenset((r, st if st and st[-1] == ('h',) else st + (('h',),)) for r, st in paths)


class Access:
    __slots__ = ('w', 'path', 'where', 'locks', 'what')

    def __init__(s, w, path, where, locks, what):
        s.w, s.path, s.where, s.locks, s.what = w, path, where, locks, what


class Effects:
    def __init__(self, prog, maxdepth=60):
        self.p, self.maxdepth = prog, maxdepth
        self.acc = []
        self.seen = set()
        self.stack = []
        self.calls = 0
        self.names = {}

    # -- recording ------------------------------------------------------------
    def rec(self, w, paths, n, what=''):
        for path in paths:
            if path[0][0] == 'L' or path[1] and path[1][-1] == ('h',):
                continue
            f = self.stack[-1] if self.stack else None
            where = f"{f['file']}:{n.get('l') or f['line']}" if f else '?'
            key = (w, path, where, self.locks)
            if key in self.seen:
                continue
            self.seen.add(key)
            self.acc.append(Access(w, path, where, self.locks, what or n.get('n') or n.get('op') or n.get('k')))

    # -- entry ----------------------------------------------------------------
    def region(self, func, binds, this=frozenset(), env=None):
        """func: function facts; binds: list of Val for its parameters"""
        self.locks = frozenset()
        self.invoke(func, binds, this, dict(env or {}))

    def invoke(self, f, args, this, env):
        if f.get('body') is None or len(self.stack) > self.maxdepth or any(x is f for x in self.stack):
            return Val(frozenset().union(*[a.paths for a in args]) if args else frozenset())
        env = dict(env)
        for i, p in enumerate(f.get('params', ())):
            self.bind_param(env, p, args[i] if i < len(args) else NONE)
        key = (f['u'], this, self.locks, tuple((p['id'], env[p['id']].paths, env[p['id']].item, id(env[p['id']].fn[0]) if env[p['id']].fn else 0) for p in f.get('params', ()))) if not f.get('lambda') else None
        if key is not None:
            if not hasattr(self, 'memo'):
                self.memo = {}
            if key in self.memo:
                return self.memo[key]
            self.memo[key] = NONE
        self.calls += 1
        self.stack.append(f)
        saved, self.locks_saved = self.locks, None
        old_this, self.this = getattr(self, 'this', frozenset()), this
        ret = [frozenset(), None]
        old_ret, self.ret = getattr(self, 'ret', None), ret
        try:
            for i in f.get('inits', ()):
                if i.get('init'):
                    self.ev(i['init'], env)
            self.st(f['body'], env)
        finally:
            self.stack.pop()
            self.locks = saved
            self.this = old_this
            self.ret = old_ret
        v = Val(ret[0], fn=ret[1])
        if key is not None:
            self.memo[key] = v
        return v

    def bind_param(self, env, p, a):
        t = p['t']
        if a.fn:
            env[p['id']] = Val(a.paths, a.item, a.fn)
        elif OWN.match(t) and not t.endswith('&'):
            env[p['id']] = Val(frozenset({(('L', p['id']), ())}) | (held(a.paths) if VIEW.search(t) else frozenset()))
        elif t.endswith('&') or VIEW.search(t):
            env[p['id']] = Val(a.paths or frozenset({(('L', p['id']), ())}), a.item)
        else:
            env[p['id']] = Val(frozenset({(('L', p['id']), ())}), a.item)

    # -- statements -----------------------------------------------------------
    def st(self, n, env):
        if n is None:
            return
        k = n['k']
        if k == 'block':
            saved = self.locks
            for x in n['a']:
                self.st(x, env)
            self.locks = saved
        elif k == 'decl':
            for v in n['vars']:
                self.decl(v, env)
        elif k == 'if':
            saved = self.locks
            if n.get('init'):
                self.st(n['init'], env)
            if n.get('var'):
                self.decl(n['var'], env)
            if n.get('cond'):
                self.ev(n['cond'], env)
            self.st(n.get('then'), env)
            self.st(n.get('else'), env)
            self.locks = saved
        elif k in ('for', 'while', 'do'):
            saved = self.locks
            if n.get('init'):
                self.st(n['init'], env)
            if n.get('var'):
                self.decl(n['var'], env)
            for _ in range(2):
                if n.get('cond'):
                    self.ev(n['cond'], env)
                self.st(n.get('body'), env)
                if n.get('inc'):
                    self.ev(n['inc'], env)
            self.locks = saved
        elif k == 'rfor':
            if n.get('init'):
                self.st(n['init'], env)
            r = self.ev(n['range'], env) if n.get('range') else NONE
            self.rec(False, r.paths, n)
            el = ext(r.paths, ('x', 'other'))
            self.bind_var(n['var'], Val(el), env)
            self.st(n['body'], env)
        elif k == 'switch':
            if n.get('init'):
                self.st(n['init'], env)
            self.ev(n['cond'], env)
            self.st(n['body'], env)
        elif k in ('case', 'default'):
            self.st(n.get('sub'), env)
        elif k == 'return':
            if n.get('e'):
                v = self.ev(n['e'], env)
                if self.ret is not None:
                    self.ret[0] |= v.paths
                    self.ret[1] = self.ret[1] or v.fn
        elif k == 'try':
            self.st(n['body'], env)
            for h in n.get('handlers', ()):
                self.st(h['body'], env)
        elif k in ('nop', 'break', 'continue', 'goto'):
            pass
        elif k == 'other' and n.get('cls', '').endswith('Stmt'):
            for x in n['a']:
                self.st(x, env)
        else:
            self.ev(n, env)

    def decl(self, v, env):
        t = v['t']
        if v.get('tls'):
            env[v['id']] = Val(frozenset({(('L', v['id']), ())}))
            return
        if v.get('static'):
            # initialised once under the language's own lock
            return
        if LOCK.match(t):
            i = v.get('init')
            if i is not None and i.get('a'):
                for a in i['a']:
                    x = self.ev(a, env)
                    self.locks |= frozenset(p for p in x.paths if p[0][0] != 'L')
            return
        val = self.ev(v['init'], env) if v.get('init') else NONE
        self.bind_var(v, val, env)

    def bind_var(self, v, val, env):
        t = v['t']
        if v.get('bind'):
            alias = t.endswith('&')
            for b in v['bind']:
                env[b['id']] = Val(ext(val.paths, ('f', b['n'])) if alias or VIEW.search(b['t']) else frozenset({(('L', b['id']), ())}))
            env[v['id']] = Val(val.paths)
            return
        if val.fn:
            env[v['id']] = val
        elif OWN.match(t) and not t.endswith('&'):
            env[v['id']] = Val(frozenset({(('L', v['id']), ())}) | (held(val.paths) if VIEW.search(t) else frozenset()))
        elif t.endswith('&') or VIEW.search(t):
            env[v['id']] = Val(val.paths or frozenset({(('L', v['id']), ())}), val.item)
        else:
            env[v['id']] = Val(frozenset({(('L', v['id']), ())}), val.item and bool(SCALAR.match(t)))
        self.names[v['id']] = v['n']

    # -- expressions ----------------------------------------------------------
    def ev(self, n, env):
        if n is None or not isinstance(n, dict):
            return NONE
        m = getattr(self, 'e_' + n['k'], None)
        if m:
            return m(n, env)
        ps = frozenset()
        for c in facts.children(n):
            if c.get('k') in ('block', 'decl', 'if', 'for', 'while', 'return', 'rfor', 'switch'):
                self.st(c, env)
            else:
                ps |= self.ev(c, env).paths
        return Val(ps)

    def read(self, v, n):
        self.rec(False, v.paths, n)
        return v

    def e_lit(self, n, env): return NONE
    e_flit = e_str = e_null = e_zero = e_sizeof = e_lit

    def e_this(self, n, env):
        return Val(self.this)

    def e_ref(self, n, env):
        if 'id' in n:
            v = env.get(n['id'])
            if v is None:
                root = ('G', n['n']) if n.get('static') else ('S', n['id'])
                self.names[n['id']] = n['n']
                v = Val(frozenset({(root, ())}))
            self.rec(False, v.paths, n)
            return v
        d = n.get('d') or {}
        if d.get('k') in ('Function', 'CXXMethod'):
            return Val(fn=('decl', d, None))
        if d.get('k') == 'Var' and d.get('global') and not d.get('constexpr') and not d.get('tls'):
            v = Val(frozenset({(('G', d['q']), ())}))
            self.rec(False, v.paths, n)
            return v
        return NONE

    def e_mem(self, n, env):
        d = n.get('d') or {}
        b = self.ev(n['b'], env)
        if d.get('k') in ('Function', 'CXXMethod'):
            return b
        if d.get('k') == 'Var' and d.get('global'):
            if d.get('constexpr'):
                return NONE
            v = Val(frozenset({(('G', d['q']), ())}))
        else:
            v = Val(ext(b.paths, ('f', n['n'] + ('!' if d.get('mutable') else ''))))
        self.rec(False, v.paths, n)
        return v

    def index(self, base, i, n):
        v = Val(ext(base.paths, ('x', 'item' if i.item else 'other')))
        self.rec(False, v.paths, n)
        return v

    def e_sub(self, n, env):
        return self.index(self.ev(n['a'][0], env), self.ev(n['a'][1], env), n)

    def e_un(self, n, env):
        v = self.ev(n['a'][0], env)
        if n['op'] in ('++', '--'):
            if not (VIEW.search(n['a'][0].get('t', '')) and n['a'][0]['k'] == 'ref' and n['a'][0].get('id') in env):
                self.write(v, n, n['a'][0])
            return Val(v.paths if VIEW.search(n.get('t', '')) else frozenset())
        if n['op'] in ('*', '&'):
            return v
        return NONE

    def write(self, v, n, target):
        if SYNC.match(target.get('t', '')):
            return
        self.rec(True, v.paths, n)

    def assign(self, target, val, n, env):
        # rebinding of a local pointer / iterator is no write to what it points at
        if target['k'] == 'ref' and target.get('id') in env and VIEW.search(target.get('t', '')) and not target.get('t', '').endswith('&'):
            o = env[target['id']]
            env[target['id']] = Val(o.paths | val.paths, False)
            return o
        v = self.ev(target, env)
        if target['k'] == 'ref' and target.get('id') in env and env[target['id']].item:
            env[target['id']] = Val(env[target['id']].paths, False)
        self.write(v, n, target)
        return v

    def e_bin(self, n, env):
        if n.get('rewritten'):
            for x in n['a']:
                self.ev(x, env)
            if n.get('inner'):
                self.ev(n['inner'], env)
            return NONE
        op = n['op']
        a, b = n['a']
        if op == '=' or (op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
            val = self.ev(b, env)
            return self.assign(a, val, n, env)
        x, y = self.ev(a, env), self.ev(b, env)
        if op == ',':
            return y
        if op in ('+', '-') and VIEW.search(n.get('t', '')):
            return Val(x.paths | y.paths)
        # one item per number: shifting by a constant keeps that
        it = op in ('+', '-') and (x.item and 'v' in b or y.item and 'v' in a and op == '+')
        return Val(item=it)

    def e_cond(self, n, env):
        self.ev(n['a'][0], env)
        x, y = self.ev(n['a'][1], env), self.ev(n['a'][2], env)
        return Val(x.paths | y.paths, x.item and y.item, x.fn or y.fn)

    def e_cast(self, n, env):
        v = self.ev(n['a'][0], env)
        return v

    def e_init(self, n, env):
        ps = frozenset()
        for x in n['a']:
            if x:
                v = self.ev(x, env)
                if VIEW.search(x.get('t', '')):
                    ps |= v.paths
        return Val(ps)

    def e_new(self, n, env):
        for x in n['a']:
            self.ev(x, env)
        return NONE

    def e_delete(self, n, env):
        v = self.ev(n['a'][0], env)
        self.rec(True, v.paths, n)
        return NONE

    def e_throw(self, n, env):
        for x in n['a']:
            self.ev(x, env)
        return NONE

    def e_lambda(self, n, env):
        e = dict(env)
        for c in n.get('caps', ()):
            if c.get('init'):
                v = self.ev(c['init'], env)
                if not c.get('byref') and 'id' in c and not VIEW.search(c.get('t', '')):
                    e[c['id']] = Val(frozenset({(('L', c['id']), ())}), v.item)
        return Val(fn=('lambda', n, e, self.this if hasattr(self, 'this') else frozenset()))

    def closure(self, fn, args, inst=None):
        """calls a lambda (all instantiations of a generic one unless a particular one is known)"""
        if fn[0] == 'decl':
            f = self.p.funcs.get(fn[1].get('u'))
            return self.invoke(f, args, frozenset(), {}) if f else NONE
        n, e, this = fn[1], fn[2], fn[3]
        us = [inst] if inst and inst in self.p.funcs else (n.get('insts') or [n['u']])
        r = frozenset()
        for u in us:
            f = self.p.funcs.get(u)
            if f and not f.get('dep'):
                if any(x is f for x in self.stack):
                    continue
                r |= self.invoke_closure(f, args, this, e).paths
        return Val(r)

    def invoke_closure(self, f, args, this, e):
        # captured names are looked up in the environment the lambda was made in; later declarations of that scope do not matter
        return self.invoke(f, args, this, e)

    def e_ctor(self, n, env):
        args = [self.ev(a, env) for a in n['a']]
        for v, a in zip(args, n['a']):
            self.rec(False, v.paths, a)
        d = n.get('d') or {}
        f = self.p.funcs.get(d.get('u'))
        if n.get('copy') or n.get('move'):
            return args[0] if args else NONE
        if f and f.get('body') is not None:
            self.invoke(f, args, frozenset({(('L', ('obj', n['i'])), ())}), {})
        else:
            for v in args:
                if v.fn and len(self.stack) < self.maxdepth:
                    self.closure(v.fn, [])
        if len(args) == 1 and args[0].fn:
            return args[0]
        return Val(frozenset().union(*[v.paths for v, a in zip(args, n['a']) if VIEW.search(a.get('t', '')) or VIEW.search(n.get('t', ''))]) if args else frozenset(), item=len(args) == 1 and args[0].item)

    def e_call(self, n, env):
        d = n.get('d') or {}
        name = d.get('n') or n.get('n') or ''
        argn = list(n.get('a', ()))
        obj = None
        if n.get('o') is not None:
            obj, objn = self.ev(n['o'], env), n['o']
        elif n.get('op') and d.get('k') == 'CXXMethod' and argn and not d.get('static'):
            objn = argn.pop(0)
            if name == 'operator=' and objn['k'] == 'ref' and objn.get('id') in env and VIEW.search(objn.get('t', '')):
                return self.assign(objn, self.ev(argn[0], env), n, env)
            obj = self.ev(objn, env)
        args = [self.ev(a, env) for a in argn]
        allp = frozenset().union(*[v.paths for v in args]) if args else frozenset()
        # calling a function object
        if name == 'operator()' and obj is not None and obj.fn:
            return self.closure(obj.fn, args, d.get('u'))
        if not d and n.get('fn') is not None:
            v = self.ev(n['fn'], env)
            if v.fn:
                return self.closure(v.fn, args)
            return Val(allp)
        f = self.p.funcs.get(d.get('u'))
        if f is None and d.get('repo') and d.get('pu'):
            f = self.p.funcs.get(d['pu'])
        view = bool(VIEW.search(d.get('ret', '')) or VIEW.search(n.get('t', '')))
        if f is not None and f.get('body') is not None:
            r = self.invoke(f, args, obj.paths if obj is not None else frozenset(), {})
            if not view and not r.fn:
                return Val(item='narrow' in name and len(args) == 1 and args[0].item)
            return r
        # a function outside the project
        q = d.get('q', '')
        if obj is not None:
            ot = objn.get('t', '')
            sync = bool(SYNC.match(ot))
            maplike = re.search(r'\b(map|unordered_map|hash_map|hash_storage)<', ot) and name == 'operator[]'
            if not sync and not d.get('static'):
                if d.get('const') or (name in ACCESS and not maplike):
                    self.rec(False, obj.paths, n)
                elif name.startswith('operator') and n.get('op') in ('++', '--', '+=', '-=') and VIEW.search(ot):
                    pass
                else:
                    self.rec(True, obj.paths, n, name)
            if name in ('operator[]', 'at') and args:
                return self.index(obj, args[0], n)
            if name in ('operator*', 'operator->', 'get', 'value') and not re.search(r'(vector|map|set|array)<', ot.split('::iterator')[0][:40]):
                for v in args:
                    if v.fn:
                        self.closure(v.fn, [])
                return Val(obj.paths)
            res = Val((ext(obj.paths, ('x', 'other')) | (allp if view else frozenset())) if view or n.get('t', '').endswith('&') else frozenset())
        else:
            params = d.get('params', [])
            for i, (v, a) in enumerate(zip(args, argn)):
                pt = params[i] if i < len(params) else ''
                if v.fn:
                    continue
                at = a.get('t', '')
                if name in MUT or (name in DEST and i > 0 and 'const' not in at and 'inserter' not in at and i == len([x for x in args if not x.fn]) - 1 and VIEW.search(at)):
                    if VIEW.search(at) or pt.endswith('&'):
                        if not pt.startswith('const'):
                            self.rec(True, ext(v.paths, ('x', 'other')) if VIEW.search(at) else v.paths, n, name)
                elif name in ('back_inserter', 'front_inserter', 'inserter'):
                    self.rec(True, v.paths, n, name)
                elif pt.endswith('&') and not pt.endswith('&&') and not pt.startswith('const') and name not in PURE and not SYNC.match(at) and 'v' not in a:
                    if n.get('op') not in ('<<', '|', '+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>=', '<=>', '[]'):
                        self.rec(True, v.paths, n, name)
                    elif n.get('op') == '<<' and i == 0:
                        self.rec(True, v.paths, n, name)
                else:
                    self.rec(False, v.paths, a)
            if name in ('operator+', 'operator-') and VIEW.search(n.get('t', '')):
                return Val(allp)
            res = Val(allp if view or name in PURE or n.get('t', '').endswith('&') else frozenset(), item=name in ('move', 'forward', 'as_const') and len(args) == 1 and args[0].item,
                      fn=args[0].fn if args and name in ('ref', 'cref', 'forward', 'move') else None)
        base = (obj.paths if obj is not None else frozenset()) | allp
        for v in args:
            if v.fn and len(self.stack) < self.maxdepth:
                self.closure(v.fn, [Val(ext(base, ('x', 'other')))] * 4)
        return res


def overlap(p, q):
    """may the same location be meant when the two runs have different items? returns False only if certainly not"""
    if p[0] != q[0]:
        return False
    for a, b in zip(p[1], q[1]):
        if a[0] == 'x' and b[0] == 'x':
            if a[1] == 'item' and b[1] == 'item':
                return False
        elif a != b:
            return False
    return True


def races(acc):
    """pairs of accesses of two runs of one region that touch the same place without a common lock, at least one writing"""
    res = []
    ws = [a for a in acc if a.w]
    for w in ws:
        for a in acc:
            if not overlap(w.path, a.path):
                continue
            if w.locks & a.locks:
                continue
            # a reader of a container holding the written element touches the element only if it reads that deep;
            # looking up an element (a strict prefix of the written path) does not
            if not a.w and len(a.path[1]) < len(w.path[1]):
                continue
            res.append((w, a))
            break
    return res


def show(path, names):
    r, st = path
    base = {'S': lambda: names.get(r[1], '?'), 'G': lambda: str(r[1]), 'T': lambda: 'this', 'I': lambda: 'item'}.get(r[0], lambda: str(r))()
    return base + ''.join('.' + s[1] if s[0] == 'f' else f"[{'i' if s[1] == 'item' else '*'}]" for s in st)
