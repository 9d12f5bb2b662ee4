"""Coroutine-based sequences: order, laziness, ownership of the coroutine, failures."""
import re
from common import *
from fold import Fold

D = 'include/soro/utls/coroutine/'
INL = 'static inline __attribute__((always_inline))'

PRE = '''#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <exception>
#include <functional>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <version>
#include <coroutine>
#include "%s/harness/witness/fixed_vec.h"
// stand-ins for the exception facility, so that the optimiser can follow a failure through the coroutine machinery
static int e_cur, e_out, e_n;
struct e_ptr {
  int id{0};
  constexpr e_ptr() = default;
  constexpr e_ptr(std::nullptr_t) {}
  constexpr explicit e_ptr(int i) : id{i} {}
  constexpr e_ptr(e_ptr const&) = default;
  constexpr e_ptr(e_ptr&& o) noexcept : id{o.id} { o.id = 0; }
  constexpr e_ptr& operator=(e_ptr const&) = default;
  constexpr e_ptr& operator=(e_ptr&& o) noexcept { id = o.id; if (&o != this) o.id = 0; return *this; }
  constexpr explicit operator bool() const { return id != 0; }
  friend constexpr bool operator==(e_ptr const& a, e_ptr const& b) { return a.id == b.id; }
};
namespace std {
using e_ptr = ::e_ptr;
inline e_ptr e_current() noexcept { return e_ptr{e_cur}; }
inline void e_rethrow(e_ptr p) { e_out = p.id; ++e_n; }
}
#define exception_ptr e_ptr
#define current_exception e_current
#define rethrow_exception e_rethrow
#define final
#include "soro/utls/coroutine/generator.h"
#include "soro/utls/coroutine/iterator.h"
#include "soro/utls/coroutine/recursive_generator.h"
#include "soro/utls/coroutine/coro_map.h"
#include "soro/utls/coroutine/collect.h"
#undef exception_ptr
#undef current_exception
#undef rethrow_exception
#undef final
using namespace soro::utls;
using i64 = int64_t;
struct ctl { int destroyed{0}; int step{0}; void (*fail)(void*) {nullptr}; void* promise{nullptr}; };
struct guard { ctl& c; ~guard() { ++c.destroyed; } };
template <typename P> struct probe : P { void* operator new(std::size_t n) { return __builtin_malloc(n); } void operator delete(void* p) { __builtin_free(p); } template <typename... A> probe(ctl& c, A const&...) { c.promise = this; c.fail = [](void* p) { static_cast<probe*>(p)->unhandled_exception(); }; } };
// the body of a coroutine fails: exactly what the compiler generates for an escaping exception
static inline __attribute__((always_inline)) void fail(ctl& c, int id) { e_cur = id; c.fail(c.promise); e_cur = 0; }
static inline __attribute__((always_inline)) void reset() { e_cur = 0; e_out = 0; e_n = 0; }
namespace std {
template <typename T, typename... A> struct coroutine_traits<generator<T>, ctl&, A...> { using promise_type = probe<typename generator<T>::promise_type>; };
template <typename T, typename... A> struct coroutine_traits<coro_it<T>, ctl&, A...> { using promise_type = probe<typename coro_it<T>::promise_type>; };
template <typename T, typename... A> struct coroutine_traits<recursive_generator<T>, ctl&, A...> { using promise_type = probe<typename recursive_generator<T>::promise_type>; };
}
''' % VERIF


def early(b):
    """conjunctions collected in `ok` become early returns, so that nothing is executed (and optimised) beyond a failed comparison"""
    m = re.match(r'^(.*?)bool ok(?: = true)?; \{ (.*) \} return ok && (.*);$', b, re.S)
    if not m:
        return b
    pre, mid, post = m.groups()
    mid = re.sub(r'\bok = ok && (.*?);', lambda x: f'if (!({x.group(1)})) return false;', mid)
    mid = re.sub(r'\bok = (.*?);', lambda x: f'if (!({x.group(1)})) return false;', mid)
    return f'{pre}if (![&]() -> bool {{ {mid} return true; }}()) return false; return {post};'


def run(ctx):
    ctx.explain = ('coroutines that yield symbolic values are driven through each operation of the generators and iterators; the compiler inlines the coroutine into its consumer and must reduce order, laziness, '
                   'number of destructions and delivery of failures to constants. Failures are modelled by stand-ins for the exception facility.')
    pre = PRE
    # coroutine bodies: n values, optional failure at step k
    kinds = {'gen': ('generator<i64>', 'generator.h'), 'genc': ('generator<i64 const>', 'generator.h'), 'it': ('coro_it<i64>', 'iterator.h'), 'itr': ('coro_it<i64 const&>', 'iterator.h'),
             'itm': ('coro_it<i64&>', 'iterator.h'), 'rec': ('recursive_generator<i64>', 'recursive_generator.h'), 'recc': ('recursive_generator<i64 const>', 'recursive_generator.h')}
    N = 5 if ctx.thorough else 4
    P = [f'a{i}' for i in range(N)]
    for k, (T, _) in kinds.items():
        for n in range(N + 1):
            ps = ''.join(f', i64 const& {p}_' for p in P[:n])
            own = ''.join(f' i64 {p} = {p}_;' for p in P[:n])
            for at in [None] + list(range(n + 1)):
                body = ''
                for i in range(n):
                    if at == i:
                        body += ' fail(c, 7); co_return;'
                        break
                    body += f' c.step = {i + 1}; co_yield {P[i]};'
                if at == n:
                    body += ' fail(c, 7);'
                body += f' c.step = {n + 1}; co_return;' if at is None else ' co_return;'
                pre += f'{INL} {T} {k}{n}{"" if at is None else f"f{at}"}(ctl& c{ps}) {{ guard x{{c}};{own}{body} }}\n'
    # nested sequences: a0, child(a1, a2), a3
    nested = {'mid': 'co_yield a0; co_yield rec2(d, a1, a2); co_yield a3;', 'first': 'co_yield rec2(d, a0, a1); co_yield a2; co_yield a3;', 'last': 'co_yield a0; co_yield a1; co_yield rec2(d, a2, a3);',
              'empty': 'co_yield a0; co_yield rec0(d); co_yield a1; co_yield a2; co_yield a3;', 'none': 'co_yield a0; co_yield recursive_generator<i64>{}; co_yield a1; co_yield a2; co_yield a3;',
              'named': 'co_yield a0; auto ch = rec2(d, a1, a2); co_yield ch; co_yield a3;', 'two': 'co_yield rec1(d, a0); co_yield a1; co_yield rec2(d, a2, a3);',
              'loop': 'for (int i = 0; i < 2; ++i) { co_yield rec1(d, i == 0 ? a0 : a1); } co_yield a2; co_yield a3;'}
    for k, b in nested.items():
        pre += f'{INL} recursive_generator<i64> nest_{k}(int, ctl& c, ctl& d, i64 a0, i64 a1, i64 a2, i64 a3) {{ guard x{{c}}; {b} }}\n'
    pre += f'{INL} recursive_generator<i64> deep1(int, ctl& c, ctl& d, i64 a1, i64 a2) {{ guard x{{c}}; co_yield a1; co_yield rec1(d, a2); }}\n'
    pre += f'{INL} recursive_generator<i64> deep2(int, ctl& b, ctl& c, ctl& d, i64 a0, i64 a1, i64 a2, i64 a3) {{ guard x{{b}}; co_yield a0; co_yield deep1(0, c, d, a1, a2); co_yield a3; }}\n'
    pre += f'{INL} recursive_generator<i64> lev1(int, ctl& c, ctl& d, i64 a1, i64 a2, i64 a3) {{ guard x{{c}}; co_yield a1; co_yield rec1(d, a2); co_yield a3; }}\n'
    pre += f'{INL} recursive_generator<i64> lev2(int, ctl& b, ctl& c, ctl& d, i64 a0, i64 a1, i64 a2, i64 a3, i64 a4) {{ guard x{{b}}; co_yield a0; co_yield lev1(0, c, d, a1, a2, a3); co_yield a4; }}\n'
    pre += f'{INL} recursive_generator<i64> lev3(int, ctl& a, ctl& b, ctl& c, ctl& d, i64 a0, i64 a1, i64 a2, i64 a3, i64 a4) {{ guard x{{a}}; co_yield lev2(0, b, c, d, a0, a1, a2, a3, a4); co_yield a0; }}\n'
    for at in (0, 1, 2):
        pre += f'{INL} recursive_generator<i64> nestf{at}(int, ctl& c, ctl& d, i64 a0, i64 a1, i64 a2, i64 a3) {{ guard x{{c}}; co_yield a0; co_yield rec2f{at}(d, a1, a2); co_yield a3; }}\n'
    f = Fold(ctx, pre, deep=True, gcc=False, allow=r'_Zn[wa].*|_Zd[la].*|malloc|free', peel=5, again=5)
    params = lambda n: ', '.join(f'i64 {p}' for p in P[:n])
    dom = lambda n: [[str(3 * i + 1)] for i in range(n)] if n else None

    def start(k, n, sfx=''):
        args = ''.join(f', {p}' for p in P[:n])
        if k.startswith('it'):
            return f'auto it = {k}{n}{sfx}(c{args}); decltype(it) const e{{}};'
        return f'auto g = {k}{n}{sfx}(c{args}); auto it = g.begin(); auto const e = g.end();'

    for k, (T, h) in kinds.items():
        for n in range(N + 1):
            seq = ''
            for i in range(n):
                inc = '++it;' if (i % 2 == 0 or k.startswith('it')) else 'it++;'
                seq += f' ok = ok && it != e && !(it == e) && *it == {P[i]} && *it == {P[i]} && c.step == {i + 1} && c.destroyed == 0; {inc}'
            f.add(f'{k}_seq{n}', params(n), f'reset(); ctl c; bool ok = true; {{ {start(k, n)}{seq} ok = ok && it == e && !(it != e) && c.step == {n + 1}; }} return ok && c.destroyed == 1 && e_n == 0;',
                  dom(n), f'{T} yields its {n} values in order, each once, on demand, then ends; the coroutine is destroyed exactly once', D + h)
            if k.startswith('gen') or k.startswith('rec') and n == 0:
                f.add(f'{k}_for{n}', params(n), f'reset(); ctl c; fv<i64> o; for (auto const& v : {k}{n}(c{"".join(", " + p for p in P[:n])})) o.push_back(v); return o.size() == {n}' + ''.join(f' && o[{i}] == {P[i]}' for i in range(n)) + ' && c.destroyed == 1;',
                      dom(n), f'a loop over {T} sees exactly its {n} values', D + h)
            for stop in range(0, n):
                f.add(f'{k}_stop{n}_{stop}', params(n), f'reset(); ctl c; bool ok = true; {{ {start(k, n)}' + f' ok = ok && *it == {P[0]};' + ''.join(f' ++it; ok = ok && *it == {P[i + 1]};' for i in range(stop)) + f' ok = ok && c.destroyed == 0 && c.step == {stop + 1}; }} return ok && c.destroyed == 1;',
                      dom(n), f'{T} abandoned after {stop + 1} of {n} values is destroyed exactly once', D + h)
            # failures
            for at in range(0, n + 1):
                s = f'reset(); ctl c; bool ok = true; {{ {start(k, n, f"f{at}")}'
                if at == 0 and k.startswith('it'):
                    s += ' bool const atend = it == e; ok = ok && atend;'
                for i in range(at):
                    s += f' ok = ok && it != e && *it == {P[i]} && e_n == 0; ++it;'
                s += f' ok = ok && e_n >= 1 && e_out == 7; }} return ok && c.destroyed == 1;'
                f.add(f'{k}_fail{n}_{at}', params(n), s, dom(n), f'{T}: a failure after {at} values reaches the consumer instead of ending the sequence', D + h)
        # ownership
        f.add(f'{k}_types', '', f'!std::is_copy_constructible_v<{T}> && !std::is_copy_assignable_v<{T}> && std::is_move_constructible_v<{T}> && std::is_nothrow_destructible_v<{T}>', None, f'{T} cannot be copied, only moved', D + h)
        one = f'{k}2(c, a0, a1)'
        if k.startswith('it'):
            f.add(f'{k}_move', params(2), f'reset(); ctl c; bool ok; {{ auto x = {one}; auto y = std::move(x); decltype(x) const e{{}}; ok = x == e && *y == a0 && c.destroyed == 0; ++y; ok = ok && *y == a1; }} return ok && c.destroyed == 1;', dom(2), f'moving {T} transfers the coroutine', D + h)
            f.add(f'{k}_end', '', f'{T} const x, y; return x == y && !(x != y);', None, f'two past-the-end {T} are equal', D + h)
            f.add(f'{k}_deref', params(2), f'reset(); ctl c; auto it = {one}; return ' + ('std::is_lvalue_reference_v<decltype(*it)>' if k != 'it' else '!std::is_reference_v<decltype(*it)>') + ' && *it == a0;', dom(2), f'dereferencing {T}', D + h)
            if k == 'itm':
                f.add('itm_write', params(2), f'reset(); ctl c; auto it = itm2(c, a0, a1); *it = 5; return *it == 5;', dom(2), 'writing through a reference iterator changes the yielded object', D + h)
        else:
            f.add(f'{k}_move', params(2), f'reset(); ctl c; bool ok; {{ auto x = {one}; auto y = std::move(x); ok = c.destroyed == 0; auto it = y.begin(); ok = ok && *it == a0; ++it; ok = ok && *it == a1 && it != y.end(); }} return ok && c.destroyed == 1;', dom(2), f'moving {T} transfers the coroutine', D + h)
            f.add(f'{k}_unused', params(2), f'reset(); ctl c; {{ auto x = {one}; }} return c.destroyed == ' + ('1' if k.startswith('gen') else '(c.step != 0 ? 1 : 0)') + ';', dom(2), f'{T} that is never iterated is destroyed', D + h)
        if k.startswith('gen'):
            f.add(f'{k}_rebegin', params(2), f'reset(); ctl c; auto x = {one}; auto const& k = x; auto i1 = x.begin(); auto i2 = x.begin(); auto i3 = k.begin(); return *i1 == a0 && *i2 == a0 && *i3 == a0 && c.step == 1 && i1 != x.end() && i3 != k.end();', dom(2), f'begin() of {T} can be called repeatedly', D + h)
            f.add(f'{k}_end', '', f'typename {T}::iterator const x, y; return x == y && !(x != y);', None, f'two past-the-end iterators of {T} are equal', D + h)
        if k.startswith('rec'):
            f.add(f'{k}_assign', params(4), f'reset(); ctl c, d; bool ok; {{ auto x = {k}2(c, a0, a1); auto y = {k}2(d, a2, a3); auto i = x.begin(); ok = *i == a0; auto j = y.begin(); x = std::move(y); ok = ok && c.destroyed == 1 && d.destroyed == 0; }} return ok && c.destroyed == 1 && d.destroyed == 1;', dom(4), f'assigning {T} destroys the old coroutine once', D + h)
            f.add(f'{k}_selfassign', params(2), f'reset(); ctl c; bool ok; {{ auto x = {one}; auto i = x.begin(); auto& r = x; x = std::move(r); ok = c.destroyed == 0 && *i == a0; }} return ok && c.destroyed == 1;', dom(2), f'self-assignment keeps {T} alive', D + h)
            f.add(f'{k}_default', '', f'{T} x; bool const e = x.begin() == x.end(); {T} y; y = std::move(x); return e && y.begin() == y.end();', None, f'a default-constructed {T} is empty', D + h)
            f.add(f'{k}_swap', params(4), f'reset(); ctl c, d; bool ok; {{ auto x = {k}2(c, a0, a1); auto y = {k}2(d, a2, a3); x.swap(y); ok = *x.begin() == a2 && *y.begin() == a0; swap(x, y); }} return ok && c.destroyed == 1 && d.destroyed == 1;', dom(4), f'swapping {T} exchanges the coroutines', D + h)
    # nested
    R = D + 'recursive_generator.h'
    A = 'a0, a1, a2, a3'
    for k in nested:
        nd = {'mid': 1, 'first': 1, 'last': 1, 'empty': 1, 'none': 0, 'named': 1, 'two': 2, 'loop': 2}[k]
        f.add(f'nest_{k}', params(4), f'reset(); ctl c, d; bool ok = true; {{ auto g = nest_{k}(0, c, d, {A}); auto it = g.begin();' + ''.join(f' ok = ok && it != g.end() && *it == {p}; ++it;' for p in P[:4]) + f' ok = ok && it == g.end(); }} return ok && c.destroyed == 1 && d.destroyed == {nd} && e_n == 0;',
              dom(4), f'nested sequences are flattened in order ({k})', R)
        f.add(f'nest_{k}_stop', params(4), f'reset(); ctl c, d; bool ok; {{ auto g = nest_{k}(0, c, d, {A}); auto it = g.begin(); ok = *it == a0; ++it; ok = ok && *it == a1; }} return ok && c.destroyed == 1 && d.destroyed <= {nd};',
              dom(4), f'abandoning a nested sequence destroys the coroutines ({k})', R)
    f.add('nest_deep', params(4), f'reset(); ctl b, c, d; bool ok = true; {{ auto g = deep2(0, b, c, d, {A}); auto it = g.begin();' + ''.join(f' ok = ok && it != g.end() && *it == {p}; ++it;' for p in P[:4]) + ' ok = ok && it == g.end(); } return ok && b.destroyed == 1 && c.destroyed == 1 && d.destroyed == 1;',
          dom(4), 'sequences nested twice are flattened in order', R)
    p5 = ', '.join(f'i64 a{i}' for i in range(5))
    for nm, more, extra in (('lev2', 'b', ''), ('lev3', 'a, b', ' ok = ok && it != g.end() && *it == a0; ++it;')):
        f.add(f'nest_{nm}', p5, f'reset(); ctl a, b, c, d; bool ok = true; {{ auto g = {nm}(0, {more}, c, d, a0, a1, a2, a3, a4); auto it = g.begin();' + ''.join(f' ok = ok && it != g.end() && *it == a{i}; ++it;' for i in range(5)) + extra + f' ok = ok && it == g.end(); }} return ok && b.destroyed == 1 && c.destroyed == 1 && d.destroyed == 1 && a.destroyed == {more.count("a")};',
              [[str(i + 1)] for i in range(5)], 'values behind a nested sequence follow it on every level', R)
        f.add(f'nest_{nm}_stop', p5, f'reset(); ctl a, b, c, d; bool ok; {{ auto g = {nm}(0, {more}, c, d, a0, a1, a2, a3, a4); auto it = g.begin(); ok = *it == a0; ++it; ok = ok && *it == a1; ++it; ok = ok && *it == a2; }} return ok && b.destroyed == 1 && c.destroyed == 1 && d.destroyed == 1;',
              [[str(i + 1)] for i in range(5)], 'abandoning sequences nested several times destroys all of them', R)
    for at in (0, 1, 2):
        s = f'reset(); ctl c, d; bool ok = true; {{ auto g = nestf{at}(0, c, d, {A}); auto it = g.begin(); ok = ok && *it == a0 && e_n == 0; ++it;'
        for i in range(at):
            s += f' ok = ok && *it == {P[1 + i]} && e_n == 0; ++it;'
        f.add(f'nest_fail{at}', params(4), s + ' ok = ok && e_n >= 1 && e_out == 7; } return ok && c.destroyed == 1 && d.destroyed == 1;', dom(4), f'a failure of a nested sequence after {at} values reaches the consumer', R)
    # helpers on top
    for n in range(0, 4):
        arr = f'std::array<i64, {n}> const v{{{", ".join(P[:n])}}};'
        f.add(f'map_{n}', params(n), f'{arr} fv<i64> o; for (auto const e : coro_map(v, [](i64 const x) {{ return x + 1; }})) o.push_back(e); return o.size() == {n}' + ''.join(f' && o[{i}] == {P[i]} + 1' for i in range(n)) + ';', dom(n), f'mapping over {n} elements applies the function to each in order', D + 'coro_map.h')
        f.add(f'collect_{n}', params(n), f'{arr} auto const o = collect<fv<i64>>(v); auto const q = collect<fv<i64>>(v, [](i64 const x) {{ return x - 1; }}); return o.size() == {n} && q.size() == {n}' + ''.join(f' && o[{i}] == {P[i]} && q[{i}] == {P[i]} - 1' for i in range(n)) + ';', dom(n), f'collecting {n} elements keeps them all in order', D + 'collect.h')
        f.add(f'fmap_{n}', params(n), f'reset(); ctl c; fv<i64> o; for (auto const e : fmap([](i64 const x) {{ return x * 3; }}, rec{n}(c{"".join(", " + p for p in P[:n])}))) o.push_back(e); return o.size() == {n}' + ''.join(f' && o[{i}] == {P[i]} * 3' for i in range(n)) + ';', dom(n), f'fmap over a recursive generator with {n} values', R)
    for w in f.ws:
        w.body = early(w.body)
    f.run()
    ctx.need(len(f.ws), 100, 'witnesses')
