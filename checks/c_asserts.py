"""Assertions observe: what is only evaluated in some builds changes nothing, and the facility reports exactly the failures."""
import os, re
from common import *
import facts, effects, fold
from c_parallel import parents
from effects import Effects, Val, show

BLOCKS = {'soro::utls::sasserts', 'soro::utls::expects', 'soro::utls::ensures'}
CHECKS = {'soro::utls::sassert', 'soro::utls::expect', 'soro::utls::ensure'}
STREAM = re.compile(r'\b(clog|cerr|cout)\b')


def conditionals(path):
    """regions of a file that depend on NDEBUG: [(first line, last line, text)]"""
    res, stack = [], []
    lines = open(path, errors='replace').read().split('\n')
    for i, l in enumerate(lines):
        m = re.match(r'\s*#\s*(ifdef|ifndef|if|elif|else|endif)\b(.*)', l)
        if not m:
            continue
        if m[1] in ('if', 'ifdef', 'ifndef'):
            stack.append((i, 'NDEBUG' in m[2]))
        elif m[1] == 'elif' and stack:
            stack[-1] = (stack[-1][0], stack[-1][1] or 'NDEBUG' in m[2])
        elif m[1] == 'endif' and stack:
            a, d = stack.pop()
            if d:
                res.append((a + 1, i + 1, lines[a + 1:i]))
    return res


def ghost(p, f, a):
    """a number that only exists for the checks: every use outside of them updates it or is itself an argument of a check"""
    if a.path[0][0] != 'S' or a.path[1]:
        return False
    vid = a.path[0][1]
    top = f
    while top.get('in') and p.funcs.get(top['in']):
        top = p.funcs[top['in']]
    units, todo = [], [top]
    while todo:
        u = todo.pop()
        units.append(u)
        todo += [g for g in p.funcs.values() if g.get('in') == u['u'] and g.get('body')]
    n_ = 0
    for g in units:
        if g.get('dep'):
            continue
        par = parents(g)
        for n in facts.ftree(g):
            if n.get('k') != 'ref' or n.get('id') != vid:
                continue
            n_ += 1
            if 'k' not in (par.get(id(n)) or {}) or par[id(n)].get('k') == 'lambda':
                continue  # captured: its uses are those in the lambda
            x, q = n, par.get(id(n))
            while q is not None and q.get('k') in ('cast', 'paren'):
                x, q = q, par.get(id(q))
            inside = False
            y = q
            while y is not None:
                if y.get('k') == 'call' and (y.get('d') or {}).get('q') in CHECKS | BLOCKS:
                    inside = True
                y = par.get(id(y))
            if inside or in_block(p, g):
                continue
            if q is not None and q.get('k') == 'un' and q['op'] in ('++', '--') or q is not None and q.get('k') == 'bin' and q.get('op') in ('=', '+=', '-=', '|=') and q['a'][0] is x:
                w = par.get(id(q))
                if w is None or w.get('k') in ('block', 'if', 'for', 'while', 'rfor'):
                    continue
            return False
    return n_ > 0


def in_block(p, g):
    """g is (part of) a block only run with assertions"""
    while g.get('lambda') and g.get('in'):
        o = p.funcs.get(g['in'])
        if not o or not o.get('body'):
            return False
        for n in facts.ftree(o):
            if n.get('k') == 'call' and (n.get('d') or {}).get('q') in BLOCKS and any(x.get('k') == 'lambda' and (x.get('u') == g['u'] or g['u'] in (x.get('insts') or ())) for x in facts.walk(n)):
                return True
        g = o
    return False


def run(ctx):
    ctx.explain = ('every block that is only run in builds with assertions is found in the resolved program and its effects are followed through all calls: it may not write anything that exists outside of it, and may not leave the surrounding function; '
                   'code that depends on the assertion mode in any other way is only allowed inside the facility; the facility itself is folded in both modes')
    p = facts.load()
    nb = nc = acc = 0
    par = None
    for f in sorted(p.funcs.values(), key=lambda f: (f['file'], f['line'], f['u'])):
        if f.get('dep') or not f.get('body'):
            continue
        for n in facts.ftree(f):
            if n.get('k') != 'call':
                continue
            q = (n.get('d') or {}).get('q', '')
            if q in CHECKS:
                nc += 1
            if q not in BLOCKS:
                continue
            nb += 1
            where = f'{facts.loc(f, n)}: {f["q"].split("(")[0]}'
            e = Effects(p)
            e.stack.append(f)
            e.locks, e.this, e.ret = frozenset(), frozenset({(('T',), ())}), None
            # references and pointers among the surrounding variables stand for what they were made from
            env = {}
            v = e.ev(n['a'][0], env) if n.get('a') else effects.NONE
            if v.fn is None:
                # a block held in a variable
                i = n['a'][0] if n.get('a') else None
                while i is not None and i.get('k') in ('cast', 'ctor', 'call') and i.get('a'):
                    i = i['a'][0]
                d = None
                for m in facts.ftree(f):
                    for w in m.get('vars', ()) if m.get('k') == 'decl' else ():
                        if i is not None and w['id'] == i.get('id') and w.get('init'):
                            d = w
                v = e.ev(d['init'], env) if d else v
            if v.fn is None:
                ctx.undecided(f'{where}: the block cannot be resolved')
                continue
            e.acc, e.seen = [], set()
            e.stack = []
            e.closure(v.fn, [])
            acc += len(e.acc)
            bad = [a for a in e.acc if a.w and a.path[0][0] != 'L' and not (a.path[0][0] == 'G' and STREAM.search(str(a.path[0][1])))]
            bad = [a for a in bad if not ghost(p, f, a)]
            for a in bad[:1]:
                nm = show(a.path, e.names)
                ctx.violate(f'effect:{f["q"].split("(")[0]}:{nm}', f'{a.where}: the check at {where} changes {nm} ({a.what}), and is not run when assertions are off')
            if not bad:
                ctx.ok(f'{where}: the block only observes ({len(e.acc)} accesses, {e.calls} bodies)')
    ctx.need(nb, 8, 'blocks run only with assertions')
    ctx.analysed['assertion calls'] = nc
    ctx.analysed['accesses followed'] = acc
    # other uses of the mode
    nf = 0
    for base in ('src', 'include', 'web/server'):
        for dp, _, fs in os.walk(os.path.join(REPO, base)):
            for fn in fs:
                if not fn.endswith(('.h', '.cc', '.cpp', '.hpp')):
                    continue
                nf += 1
                rel = os.path.relpath(os.path.join(dp, fn), REPO)
                if rel == 'include/soro/utls/sassert.h':
                    continue
                for a, b, t in conditionals(os.path.join(dp, fn)):
                    body = re.sub(r'//.*', '', '\n'.join(t))
                    body = re.sub(r'/\*.*?\*/', '', body, flags=re.S)
                    body = re.sub(r'^\s*#.*$', '', body, flags=re.M)
                    st = [x.strip() for x in re.split(r';', body) if x.strip()]
                    if all(re.match(r'^[\s{}]*(uLOG|(soro::)?(utls::)?(sassert|expect|ensure)s?\b)', x) or not x.strip('{} \n\t') for x in st):
                        continue
                    ctx.violate(f'mode:{rel}', f'{rel}:{a}: the code between lines {a} and {b} depends on whether assertions are on')
    ctx.ok(f'{nf} files: nothing but the assertion facility depends on the assertion mode')
    facility(ctx)


PRE = r"""
#include <chrono>
#include <filesystem>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <ctime>
#include "fmt/ostream.h"
static int w_thrown = 0;
namespace w_fmt { template <typename... A> inline void print(A&&...) {} }
namespace std { namespace w_fs { struct path { path(const char*) {} path filename() const { return *this; } const char* string() const { return ""; } }; }
namespace w_chrono { struct system_clock { static int now() { return 0; } static long to_time_t(int) { return 0; } }; using steady_clock = system_clock; }
struct w_stream { const char* rdbuf() const { return ""; } const char* str() const { return ""; } };
struct w_log { template <typename T> w_log& operator<<(T&&) { return *this; } }; static w_log w_clog;
inline int w_put(struct tm const*, const char*) { return 0; } 
struct w_error { template <typename T> w_error(T&&) { ++::w_thrown; } }; }
#define fmt w_fmt
#define filesystem w_fs
#define chrono w_chrono
#define stringstream w_stream
#define clog w_clog
#define put_time w_put
#define runtime_error w_error
#define logic_error w_error
#define gmtime_r(a, b) ((void)0)
#define throw (void)
#include "soro/utls/sassert.h"
#undef throw
#undef fmt
"""


def facility(ctx):
    for mode, defs in (('debug', []), ('release', ['-DNDEBUG'])):
        f = fold.Fold(ctx, PRE, defs=defs, stubs=True, gcc=False, prelude=False, allow=r'_ZNSt6chrono3_V212system_clock3nowEv')
        for fn in ('sassert', 'expect', 'ensure'):
            for a, args in (('plain', ''), ('message', ', "text"'), ('values', ', "text {} {}", x, x')):
                if mode == 'debug':
                    f.add(f'{mode}_{fn}_{a}', 'bool b, int x', f'if (b) {{ w_thrown = 0; int y = x; soro::utls::{fn}(true{args.replace("x, x", "y, y") if a == "values" else args}); return (w_thrown == 0) && y == x; }} else {{ w_thrown = 0; int y = x; soro::utls::{fn}(false{args.replace("x, x", "y, y") if a == "values" else args}); return (w_thrown != 0) && y == x; }}',
                          dom=[['true', 'false'], ['0', '3']], what=f'{fn} ({a}) fails exactly when its condition does not hold', loc='include/soro/utls/sassert.h')
                else:
                    f.add(f'{mode}_{fn}_{a}', 'bool b, int x', f'w_thrown = 0; int y = x; soro::utls::{fn}(b{args.replace("x, x", "y, y") if a == "values" else args}); return w_thrown == 0 && y == x;',
                          dom=[['true', 'false'], ['0', '3']], what=f'{fn} ({a}) does nothing when assertions are off', loc='include/soro/utls/sassert.h')
        for fn in ('sasserts', 'expects', 'ensures'):
            f.add(f'{mode}_{fn}', 'int x', f'int y = x; soro::utls::{fn}([&]() {{ y = static_cast<int>(static_cast<unsigned>(y) + 1U); }}); return y == {"static_cast<int>(static_cast<unsigned>(x) + 1U)" if mode == "debug" else "x"};',
                  dom=[['0', '3']], what=f'{fn} runs its block {"exactly once" if mode == "debug" else "not at all when assertions are off"}', loc='include/soro/utls/sassert.h')
        f.add(f'{mode}_keep', 'bool b', 'soro::utls::bool_with_loc const l{b}; return static_cast<bool>(l) == b && l.b_ == b;', dom=[['true', 'false']], what='the condition survives the note of its place', loc='include/soro/utls/sassert.h')
        f.run()
