"""Container and algorithm helpers: what they keep, order, find and merge, for every content."""
import itertools
from common import *
from fold import Fold

U = 'include/soro/utls/'


def lit(keys, off=0):
    return 'fv<KV>{' + ', '.join(f'KV{{{k}, p{i + off}}}' for i, k in enumerate(keys)) + '}'


def elems(pairs):
    return 'fv<KV>{' + ', '.join(f'KV{{{k}, p{i}}}' for k, i in pairs) + '}'


def params(n):
    return ', '.join(f'int64_t p{i}' for i in range(n))


def dom(n):
    return [[str(11 * (i + 1))] for i in range(n)]


class Cases:
    """cases of one helper, grouped by size into witnesses over symbolic payloads"""

    def __init__(self, f):
        self.f, self.g, self.n = f, {}, 0

    def add(self, name, n, body, what, loc):
        self.n += 1
        self.g.setdefault((name, n), [what, loc, []])[2].append(body)

    def flush(self):
        for (name, n), (what, loc, bodies) in self.g.items():
            per = 1
            for i in range(0, len(bodies), per):
                b = ' '.join(f'if (![&] {{ {x} }}()) return false;' for x in bodies[i:i + per])
                self.f.add(f'{name}_{n}_{i // per}', params(n), b + ' return true;', dom(n) if n else None, f'{what} ({n} elements, {len(bodies[i:i + per])} shapes, any payload)', loc)


def run(ctx):
    ctx.explain = ('each helper is applied to sequences whose shape (order pattern, which elements match) is fixed and whose contents are symbolic, for every shape up to a small length, and compared with the '
                   'sequence the definition prescribes; boolean and counting helpers are compared with the logical formula over symbolic elements; the compiler must reduce each comparison to true')
    full = ctx.thorough
    M = 5 if full else 4
    pre = f'''#include "{VERIF}/harness/witness/fixed_vec.h"
#include <concepts>
#include <cstdint>
#include <map>
#include <list>
#include <numeric>
#include <optional>
#include <filesystem>
#include <iostream>
#include <fstream>
#include <chrono>
#include <iomanip>
#include <sstream>
#include "utl/verify.h"
#include "utl/erase_if.h"
#include "soro/base/soro_types.h"
#include "soro/utls/sassert.h"
#include "soro/utls/narrow.h"
#include "soro/utls/algo/remove_after.h"
#include "soro/utls/algo/remove_until.h"
#include "soro/utls/container/it_range.h"
#include "soro/utls/container/constexpr_map.h"
#include "soro/utls/container/sorted_vector.h"
#include "soro/utls/container/optional.h"
#include "soro/utls/container/offset_container.h"
#include "soro/utls/container/id_iterator.h"
#include "soro/utls/concepts/yields.h"
#include "soro/utls/concepts/is_any_of.h"
#include "soro/utls/concepts/invocable_returns.h"
#include "soro/utls/concepts/iterable_helpers.h"
#include "soro/utls/concepts/arithmetic.h"
''' + ''.join(f'#include "soro/utls/std_wrapper/{x}.h"\n' for x in ('accumulate', 'all_of', 'any_of', 'contains', 'contains_if', 'copy', 'count', 'count_if', 'find', 'find_if', 'find_if_position', 'find_position', 'is_sorted', 'min_element', 'reverse', 'set_difference', 'sort')) + '''
#include "soro/utls/tuple/apply_at.h"
#include "soro/utls/tuple/find_if.h"
#include "soro/utls/tuple/for_each.h"
#include "soro/utls/tuple/slice.h"
#include "soro/utls/template/decay.h"
#include "soro/utls/template/is_vector.h"
#include "soro/utls/template/type_at_position.h"
#include "soro/utls/ranges/to.h"
#define vector fixed_vec
#include "soro/utls/container/priority_queue.h"
#include "soro/utls/algo/slice.h"
#include "soro/utls/algo/merge_unique.h"
#include "soro/utls/algo/multi_set_merge.h"
#include "soro/utls/algo/overlap.h"
#include "soro/utls/algo/sort_and_intersect.h"
#undef vector
#define SPEC(...) ([&]() -> bool { return (__VA_ARGS__); }())
namespace u = soro::utls;
using A0 = std::array<int64_t, 0>; using A1 = std::array<int64_t, 1>; using A2 = std::array<int64_t, 2>; using A3 = std::array<int64_t, 3>; using A4 = std::array<int64_t, 4>;
template <typename T> concept prvalue_ok = true;
constexpr u::constexpr_map<int, int, 3> CM{{{{3, 30}, {1, 10}, {2, 20}}}};
template <int K> concept cm_has = requires { typename std::integral_constant<int, CM.at(K)>; };
'''
    import os
    def have(x):
        return os.path.exists(f'{REPO}/include/soro/utls/{x}')
    f = Fold(ctx, pre, stubs=True, deep=True)
    c = Cases(f)
    # removal
    for n in range(0, M + 2):
        for m in itertools.product((0, 1), repeat=n):
            v = lit(m)
            last = max([i for i in range(n) if m[i]], default=-1)
            first = min([i for i in range(n) if m[i]], default=n)
            c.add('remove_after', n, f'auto v = {v}; u::remove_after(v, [](auto const& e) {{ return e.k == 1; }}); return same_seq(v, {elems([(m[i], i) for i in range(0, last + 1)])});',
                  'everything behind the last match is removed, nothing else', U + 'algo/remove_after.h')
            c.add('remove_until', n, f'auto v = {v}; u::remove_until(v, [](auto const& e) {{ return e.k == 1; }}); return same_seq(v, {elems([(m[i], i) for i in range(first, n)])});',
                  'everything before the first match is removed, nothing else', U + 'algo/remove_until.h')
    # slices
    for n in range(0, M + 1):
        ks = list(range(n))
        for a in range(0, n + 1):
            for b in range(a, n + 1):
                e = elems([(i, i) for i in range(a, b)])
                c.add('slice', n, f'auto v = {lit(ks)}; auto const& w = v; auto const r = u::slice(w, {a}, {b}); if (!same_seq(r, {e}) || !same_seq(v, {lit(ks)})) return false; u::slice(v, {a}, {b}); return same_seq(v, {e});',
                      'a slice keeps exactly the positions from..to-1, the copying form leaves its input alone', U + 'algo/slice.h')
                c.add('slice_range', n, f'auto const v = {lit(ks)}; auto const r = u::slice_range(v, {a}, {b}); return r.begin() == v.begin() + {a} && r.end() == v.begin() + {b};',
                      'the range form of a slice spans exactly the positions from..to-1', U + 'algo/slice.h')
        for a in range(0, n + 2):
            for b in range(0, n + 2):
                ra, rb = (0 if a > n else a), min(b, n)
                if ra <= rb:
                    e = elems([(i, i) for i in range(ra, rb)])
                    c.add('slice_clasp', n, f'auto v = {lit(ks)}; auto const& w = v; auto const r = u::slice_clasp(w, {a}, {b}); if (!same_seq(r, {e})) return false; u::slice_clasp(v, {a}, {b}); return same_seq(v, {e});',
                          'a clasped slice limits its bounds to the sequence', U + 'algo/slice.h')
                    c.add('slice_clasp_range', n, f'auto const v = {lit(ks)}; auto const r = u::slice_clasp_range(v, {a}, {b}); return r.begin() == v.begin() + {ra} && r.end() == v.begin() + {rb};',
                          'a clasped range limits its bounds to the sequence', U + 'algo/slice.h')
    # priority queue / sorted vector
    for n in range(1, M + 1):
        for perm in itertools.permutations(range(n)):
            order = sorted(range(n), key=lambda i: -perm[i])
            pushes = ''.join(f'q.emplace(KV{{{k}, p{i}}});' for i, k in enumerate(perm))
            pops = ''.join(f'if (q.empty() || !same(q.top(), KV{{{perm[i]}, p{i}}})) return false; q.pop();' for i in order)
            c.add('pq_max', n, f'auto const cmp = [](auto const& a, auto const& b) {{ return a.k < b.k; }}; u::priority_queue<KV, decltype(cmp)> q(cmp); if (!q.empty()) return false; {pushes} if (std::distance(q.begin(), q.end()) != {n}) return false; {pops} return q.empty();',
                  'elements leave a priority queue greatest first, all of them, once', U + 'container/priority_queue.h')
            pops = ''.join(f'if (q.empty() || !same(q.top(), KV{{{perm[i]}, p{i}}})) return false; q.pop();' for i in reversed(order))
            c.add('pq_min', n, f'auto const cmp = [](auto const& a, auto const& b) {{ return a.k > b.k; }}; u::priority_queue<KV, decltype(cmp)> q(cmp); {pushes} {pops} return q.empty();',
                  'a priority queue follows the comparison it was given', U + 'container/priority_queue.h')
            srt = elems([(perm[i], i) for i in reversed(order)])
            rsr = elems([(perm[i], i) for i in order])
            c.add('sorted_vector', n, f'u::sorted_vector<KV, fv<KV>> const s({lit(perm)}); fv<KV> o(s.begin(), s.end()); for (unsigned i = 0; i < s.size(); ++i) if (!same(s[i], o[i]) || !same(s.at(i), o[i])) return false; return s.size() == {n} && same_seq(o, {srt});',
                  'a sorted vector holds its elements in ascending order', U + 'container/sorted_vector.h')
            c.add('sorted_vector_cmp', n, f'u::sorted_vector<KV, fv<KV>> s({lit(perm)}, [](auto const& a, auto const& b) {{ return a.k > b.k; }}); auto o = s.move_out(); return same_seq(o, {rsr});',
                  'a sorted vector follows the comparison it was given', U + 'container/sorted_vector.h')
            c.add('wrap_sort', n, f'auto v = {lit(perm)}; u::sort(v); auto w = {lit(perm)}; u::sort(w, [](auto const& a, auto const& b) {{ return a.k > b.k; }}); return same_seq(v, {srt}) && same_seq(w, {rsr});',
                  'sort orders ascending, or by the given comparison', U + 'std_wrapper/sort.h')
            c.add('wrap_min', n, f'auto const v = {lit(perm)}; return same(*u::min_element(v, [](auto const& a, auto const& b) {{ return a.k < b.k; }}), KV{{{perm[order[-1]]}, p{order[-1]}}});',
                  'min_element yields the least element', U + 'std_wrapper/min_element.h')
            c.add('wrap_is_sorted', n, f'auto const v = {lit(perm)}; return u::is_sorted(v) == {"true" if list(perm) == sorted(perm) else "false"} && u::is_sorted(v, [](auto const& a, auto const& b) {{ return a.k > b.k; }}) == {"true" if list(perm) == sorted(perm, reverse=True) else "false"};',
                  'is_sorted holds exactly for ascending sequences', U + 'std_wrapper/is_sorted.h')
            c.add('wrap_reverse', n, f'auto v = {lit(perm)}; u::reverse(v); return same_seq(v, {elems([(perm[i], i) for i in reversed(range(n))])});', 'reverse reverses', U + 'std_wrapper/reverse.h')
    # heap histories: pushes and pops mixed, long enough that a new element's parent is not the top
    import random
    rnd = random.Random(7)
    seen = set()
    while len(seen) < (60 if full else 24):
        n = rnd.choice((5, 6, 7))
        perm = list(range(n))
        rnd.shuffle(perm)
        ops, pend, left = [], [], n
        while left or pend:
            if left and (not pend or rnd.random() < .7):
                i = n - left
                left -= 1
                pend.append(i)
                ops.append(f'q.emplace(KV{{{perm[i]}, p{i}}});')
            else:
                j = max(pend, key=lambda i: perm[i])
                pend.remove(j)
                ops.append(f'if (q.empty() || !same(q.top(), KV{{{perm[j]}, p{j}}})) return false; q.pop();')
        if tuple(ops) in seen:
            continue
        seen.add(tuple(ops))
        c.add('pq_mixed', n, f'auto const cmp = [](auto const& a, auto const& b) {{ return a.k < b.k; }}; u::priority_queue<KV, decltype(cmp)> q(cmp); {" ".join(ops)} return q.empty();',
              'the greatest element present leaves a priority queue next, whatever was inserted and removed before', U + 'container/priority_queue.h')
    # sorted set operations
    subs = [s for k in range(0, 4) for s in itertools.combinations(range(3), k)]
    for a in subs:
        for b in subs:
            n = len(a) + len(b)
            ia, ib = {k: i for i, k in enumerate(a)}, {k: i + len(a) for i, k in enumerate(b)}
            uni = elems([(k, ia.get(k, ib.get(k))) for k in sorted(set(a) | set(b))])
            inter = elems([(k, ia[k]) for k in sorted(set(a) & set(b))])
            diff = elems([(k, ia[k]) for k in sorted(set(a) - set(b))])
            A, B = lit(a), lit(b, len(a))
            S = U + 'algo/'
            c.add('merge_unique', n, f'return same_seq(u::merge_unique({A}, {B}), {uni});', 'merging two sorted sequences gives the sorted union without duplicates', S + 'merge_unique.h')
            c.add('get_overlap', n, f'return same_seq(u::get_overlap({A}, {B}), {inter}) && same_seq(u::intersect({A}, {B}), {inter});', 'the intersection of sorted sequences', S + 'overlap.h')
            ov = 'true' if set(a) & set(b) else 'false'
            if n < 4:
                c.add('overlap', n, f'return u::overlap({A}, {B}) == {ov};', 'overlap holds exactly when an element is shared', S + 'overlap.h')
            c.add('set_difference', n, f'fv<KV> r; u::set_difference({A}, {B}, std::back_inserter(r)); return same_seq(r, {diff});', 'set difference', U + 'std_wrapper/set_difference.h')
            ra, rb = a[::-1], b[::-1]
            if len(a) < 3 or len(b) < 3 or full:
                ib2 = {k: i for i, k in enumerate(ra)}
                inter2 = elems([(k, ib2[k]) for k in sorted(set(a) & set(b))])
                c.add('sort_intersect', n, f'auto x = {lit(ra)}; auto y = {lit(rb, len(a))}; return same_seq(u::sort_and_intersect(x, y), {inter2}) && u::is_sorted(x) && u::is_sorted(y) && x.size() == {len(a)} && y.size() == {len(b)};',
                      'sort-and-intersect yields the sorted intersection', S + 'sort_and_intersect.h')
    c.flush()
    # symbolic elements
    D = [['0', '1', '5'], ['1', '5'], ['0', '5', '7'], ['5', '2']]
    for n in range(0, 4):
        T = f'A{n}'
        ps = [f'a{i}' for i in range(n)]
        P = ''.join(f'int64_t {p}, ' for p in ps) + 'int64_t x'
        arr = f'{T} const v{{{", ".join(ps)}}};'
        d = D[:n] + [['0', '5']]
        W = U + 'std_wrapper/'
        anyeq = ' || '.join(f'{p} == x' for p in ps) or 'false'
        alleq = ' && '.join(f'{p} == x' for p in ps) or 'true'
        cnt = ' + '.join(f'({p} == x)' for p in ps) or '0'
        pos = ''.join(f'{p} == x ? {i}u : ' for i, p in enumerate(ps)) + f'{n}u'
        pr = '[&](auto const& e) -> bool { return e == x; }'
        for nm, e in (('contains', f'u::contains(v, x) == SPEC({anyeq})'), ('contains_if', f'u::contains_if(v, {pr}) == SPEC({anyeq})'), ('any_of', f'u::any_of(v, {pr}) == SPEC({anyeq})'),
                      ('all_of', '([&] { ' + ''.join(f' if ({p} != x) return !u::all_of(v, {pr});' for p in ps) + f' return u::all_of(v, {pr}); }}())'), ('count', f'u::count(v, x) == static_cast<std::size_t>({cnt})'), ('count_if', f'u::count_if(v, {pr}) == static_cast<std::size_t>({cnt})'),
                      ('find_position', f'u::find_position(v, x) == static_cast<std::size_t>({pos})'), ('find_if_position', f'u::find_if_position(v, {pr}) == static_cast<std::size_t>({pos})'),
                      ('find', f'u::find(v, x) - std::begin(v) == static_cast<std::ptrdiff_t>({pos})'), ('find_if', f'u::find_if(v, {pr}) - std::begin(v) == static_cast<std::ptrdiff_t>({pos})'),
                      ('accumulate', f'u::accumulate(v, x) == x{"".join(" + " + p for p in ps)} && u::accumulate(v, x, [](auto s, auto e) {{ return s - e; }}) == x{"".join(" - " + p for p in ps)}'),
                      ('is_sorted', f'u::is_sorted(v) == SPEC({" && ".join(f"{a} <= {b}" for a, b in zip(ps, ps[1:])) or "true"})')):
            f.add(f'w_{nm}_{n}', P, arr + f' return {e};', d, f'{nm} over {n} elements', W + nm + '.h')
        f.add(f'w_copy_{n}', P, arr + f' std::array<int64_t, {n + 1}> o{{}}; auto const it = u::copy(v, o.begin()); return it - o.begin() == {n}' + ''.join(f' && o[{i}] == {p}' for i, p in enumerate(ps)) + ' && o.back() == 0;', d, f'copy of {n} elements', W + 'copy.h')
        f.add(f'range_{n}', P, arr + f' auto const r = u::make_range(v.begin(), v.end()); auto const s = u::make_range(v); return r.begin() == v.begin() && r.end() == v.end() && s.begin() == v.begin() && s.end() == v.end();', d, f'an iterator range spans exactly its bounds ({n})', U + 'container/it_range.h')
    f.add('range_unpack', 'int64_t x', 'A2 v{x, x}; auto r = u::make_range(v.begin(), v.end()); std::tuple<decltype(v.begin())&, decltype(v.begin())&> t = r; return std::get<0>(t) == v.begin() && std::get<1>(t) == v.end() && &std::get<0>(t) != &std::get<1>(t);', [['1']], 'a range unpacks into begin and end', U + 'container/it_range.h')
    # map
    f.add('cmap', 'int k0, int k1, int k2, int q', 'using M = u::constexpr_map<int, int, 3>; M const m{{{{k0, 100}, {k1, 200}, {k2, 300}}}}; if (q == k0) return m.at(q) == 100; if (q == k1) return m.at(q) == 200; if (q == k2) return m.at(q) == 300; return true;',
          [['1'], ['2', '1'], ['3'], ['1', '2', '3']], 'the constant map yields the value of the first entry with the key', U + 'container/constexpr_map.h')
    f.add('cmap_missing', '', 'cm_has<1> && cm_has<2> && cm_has<3> && !cm_has<0> && !cm_has<4> && !cm_has<-1> && CM.at(1) == 10 && CM.at(2) == 20 && CM.at(3) == 30', None, 'an absent key is never answered with a value', U + 'container/constexpr_map.h')
    # optional
    O = U + 'container/optional.h'
    OD = [['0', '1', 'UINT32_MAX', 'UINT32_MAX - 1'], ['0', '7', 'UINT32_MAX']]
    o = 'using O = u::optional<uint32_t>; O const o = O(a); bool const has = a != UINT32_MAX;'
    for nm, e in (('has', 'o.has_value() == has && static_cast<bool>(o) == has'), ('value_or', 'o.value_or(b) == (has ? a : b) && O(o).value_or(b) == (has ? a : b)'),
                  ('reset', '([&] { O x = o; x.reset(); return !x.has_value(); }()) && ([&] { O x; return !x.has_value(); }()) && !O(std::nullopt).has_value()'),
                  ('value', '!has || (*o == a && o.value() == a && *o.operator->() == a)'),
                  ('write', '([&] { O x = o; if (!has) return true; x.value() = 3; return *x == 3 && (*o == a); }())'),
                  ('copy', '([&] { O x = o; O y; y = x; return y.has_value() == has && (!has || *y == a) && x.has_value() == has; }())'),
                  ('execute_if', '([&] { int64_t s = -1; o.execute_if([&](uint32_t v) { s = v; }); return s == (has ? int64_t(a) : -1); }())'),
                  ('and_then', '([&] { O const r = o.and_then([&](uint32_t) { return O(b); }); if (!has || b == UINT32_MAX) return !r.has_value(); return r.has_value() && *r == b; }())'),
                  ('transform', '([&] { auto const r = o.transform([&](uint32_t const& v) { return int64_t(v) + 1; }); return r == (has ? int64_t(a) + 1 : 0); }())'),
                  ('or_else', '([&] { if (has) return *o.or_else([&] { return O(b); }) == a; O const r = o.or_else([&] { return O(b); }); if (b == UINT32_MAX) return !r.has_value(); return *r == b; }())'),
                  ('swap', '([&] { O x = o; O y = O(b); x.swap(y); return x.has_value() == (b != UINT32_MAX) && y.has_value() == has && (!x.has_value() || *x == b) && (!y.has_value() || *y == a); }())')):
        f.add(f'opt_{nm}', 'uint32_t a, uint32_t b', f'{o} return {e};', OD, f'optional value: {nm}', O)
    # index iterator, offset container
    I = U + 'container/id_iterator.h'
    idp = 'std::array<uint32_t, 4> const ids{2, 0, 3, 1}; struct C { using value_type = int64_t; using size_type = std::size_t; using iterator = int64_t const*; A4 d; size_type size() const { return 4; } int64_t const& operator[](size_type i) const { return d[i]; } } const c{A4{p0, p1, p2, p3}}; using V = __gnu_cxx::__normal_iterator<uint32_t const*, std::vector<uint32_t>>; using It = u::id_iterator<V, C>; It const it{V{ids.data()}, &c};'
    for nm, e in (('deref', '*it == p2 && it[0] == p2 && it[1] == p0 && it[2] == p3 && it[3] == p1'), ('inc', '([&] { auto a = it; auto& r = ++a; auto b = it; auto o = b++; return *a == p0 && &r == &a && *b == p0 && *o == p2; }())'),
                  ('dec', '([&] { auto a = it; a += 2; auto b = a; --a; auto o = b--; return *a == p0 && *b == p0 && *o == p3; }())'), ('jump', '([&] { auto a = it; a += 3; auto b = a; b -= 2; return *a == p1 && *b == p0 && a - it == 3 && b - a == -2; }())'),
                  ('cmp', '([&] { auto a = it; a += 1; return a > it && a >= it && it < a && it <= a && a != it && it == it && !(a < it) && !(a == it) && it >= it && it <= it && !(it != it) && !(it > a) && !(it >= a) && !(a <= it) && !(it > it) && !(it < it) && it != a && !(it == a); }())'),
                  ('plus', '*(it + 2) == p3 && *((it + 3) - 2) == p0 && *(2 + it) == p3')):
        f.add(f'idit_{nm}', 'int64_t p0, int64_t p1, int64_t p2, int64_t p3', f'{idp} return {e};', [['10'], ['20'], ['30'], ['40']], f'index iterator: {nm}', I)
    f.add('offset_container', 'int64_t p0, int64_t p1', 'struct V { A4 d{}; V() = default; V(std::size_t) {} auto& operator[](std::size_t i) { return d[i]; } auto const& operator[](std::size_t i) const { return d[i]; } }; u::offset_container<V> o(10, 4); o[10] = p0; o[13] = p1; auto const& k = o; return k[10] == p0 && k[13] == p1 && k[11] == 0 && &o[11] - &o[10] == 1;',
          [['3'], ['4']], 'an offset container shifts indices by its offset', U + 'container/offset_container.h')
    # tuples
    Tu = U + 'tuple/'
    f.add('tuple_find_if', 'int a, int b, int c, int x', 'std::tuple<int, long, short> const t{a, b, static_cast<short>(c)}; return u::tuple::find_if(t, [&](auto const& e) { return static_cast<long>(e) == x; }) == (a == x ? 0u : b == x ? 1u : static_cast<short>(c) == x ? 2u : 3u);', [['1', '2'], ['2', '1'], ['3'], ['1', '2', '3', '4']], 'find_if on a tuple gives the first matching position or the size', Tu + 'find_if.h')
    f.add('tuple_for_each', 'int a, int b, int c', 'std::tuple<int, int, int> const t{a, b, c}; int64_t s = 1; u::tuple::for_each(t, [&](auto const& e) { s = s * 3 + e; }); std::tuple<int, int, int> m{a, b, c}; u::tuple::for_each(m, [](auto& e) { e = 5; }); return s == ((int64_t(3) + a) * 3 + b) * 3 + c && m == std::tuple(5, 5, 5);', [['1'], ['2'], ['3']], 'for_each visits every component once in order', Tu + 'for_each.h')
    for i in range(3):
        f.add(f'tuple_apply_{i}', 'int a, int b, int c', f'std::tuple<int, int, int> t{{a, b, c}}; auto const& ct = t; int64_t s = 0; int k = 0; u::tuple::apply_at(ct, {i}, [&](auto const& e) {{ s = e; ++k; }}); u::tuple::apply_at(t, {i}, [&](auto& e) {{ e = 77; ++k; }}); return s == {"abc"[i]} && k == 2 && std::get<{i}>(t) == 77' + ''.join(f' && std::get<{j}>(t) == {"abc"[j]}' for j in range(3) if j != i) + ';', [['1'], ['2'], ['3']], f'apply_at {i} touches exactly that component', Tu + 'apply_at.h')
    for a in range(0, 4):
        for b in range(a, 5):
            exp = ', '.join('wxyz'[a:b])
            f.add(f'tuple_slice_{a}_{b}', 'int w, long x, short y, unsigned z', f'auto const r = u::tuple::slice<{a}, {b}>(std::tuple<int, long, short, unsigned>{{w, x, y, z}}); auto const e = std::make_tuple({exp}); return std::is_same_v<decltype(r), decltype(e)> && r == e;', [['1'], ['2'], ['3'], ['4']], f'tuple slice [{a}, {b})', Tu + 'slice.h')
    # type level
    f.add('types_1', '', 'u::is_any_of<int, char, int> && !u::is_any_of<int, char, long> && !u::is_any_of<int> && !u::is_any_of<int, int&>', None, 'membership of a type in a list', U + 'concepts/is_any_of.h')
    f.add('types_2', '', 'u::arithmetic<int> && u::arithmetic<double> && u::arithmetic<char> && !u::arithmetic<int*> && !u::arithmetic<std::string>', None, 'arithmetic types', U + 'concepts/arithmetic.h')
    f.add('types_3', '', 'u::yields<int, std::vector<int>> && !u::yields<int, std::vector<long>> && u::yields<bool, std::array<bool, 2>> && u::predicate_yields<bool, std::vector<int>, bool (*)(int)> && !u::predicate_yields<bool, std::vector<int>, int (*)(int)>', None, 'element type of a range', U + 'concepts/yields.h')
    f.add('types_4', '', 'u::invocable_returns<int (*)(char), int, char> && !u::invocable_returns<int (*)(char), long, char> && !u::invocable_returns<int (*)(char*), int, double>', None, 'return type constraint', U + 'concepts/invocable_returns.h')
    f.add('types_5', '', 'std::is_same_v<u::type_at_position_t<0, int, char, long>, int> && std::is_same_v<u::type_at_position_t<1, int, char, long>, char> && std::is_same_v<u::type_at_position_t<2, int, char, long>, long> && std::is_same_v<u::first_t<char, int>, char>', None, 'type at a position', U + 'template/type_at_position.h')
    f.add('types_6', '', 'u::is_vector_v<soro::vector<int>> && !u::is_vector_v<int> && !u::is_vector_v<std::array<int, 2>> && std::is_same_v<u::decay_t<int const>, int> && std::is_same_v<u::decay_t<int&>, int>', None, 'vector and decay traits', U + 'template/is_vector.h')
    f.add('types_7', '', 'u::is_random_access_iterable<std::vector<int>> && u::is_contiguous_iterable<std::vector<int>> && !u::is_random_access_iterable<std::list<int>> && u::is_bidirectional_iterable<std::list<int>> && u::is_forward_iterable<std::list<int>> && u::is_input_iterable<std::list<int>> && !u::is_input_iterable<int> && !u::is_contiguous_iterable<std::list<int>>', None, 'iterator category constraints', U + 'concepts/iterable_helpers.h')
    f.add('types_8', '', 'std::is_same_v<decltype(std::declval<std::array<int, 2> const&>() | u::to<std::vector>()), std::vector<int>> && std::is_same_v<decltype(std::declval<std::list<long>&>() | u::to<std::vector>()), std::vector<long>>', None, 'converting a range to a container keeps the element type', U + 'ranges/to.h')
    f.run()
    merged(ctx, pre, full)
    ctx.need(c.n, 100, 'shapes')
    ctx.need(len(f.ws), 100, 'witnesses')


def merged(ctx, pre, full):
    """helpers over several or unsorted sequences: need whole loop nests evaluated"""
    # loops instead of the library's introsort, for the helpers that sort
    o = '#include "soro/utls/algo/overlap.h"\n'
    pre = pre.replace(o, f'#include "{VERIF}/harness/witness/plain_algo.h"\n{o}#undef all_of\n#undef any_of\n#undef none_of\n#undef find_if\n#undef unique\n#undef sort\n')
    f = Fold(ctx, pre, stubs=True, nest=True, deep='only', peel=1, again=11)
    c = Cases(f)
    S = U + 'algo/'
    lists = [s for k in range(0, 4) for s in itertools.combinations(range(3), k)]
    import random
    rnd = random.Random(11)
    picks = [(a,) for a in lists] + [(a, b) for a in lists for b in lists]
    tri = [(a, b, d) for a in lists for b in lists for d in lists]
    picks += rnd.sample(tri, 120 if full else 30)
    if not full:
        picks = [p for p in picks if len(p) != 2 or len(p[0]) < 3 or len(p[1]) < 2]
    picks += [((0, 2, 4, 6), (1, 2, 3, 6)), ((), ())]
    for p in picks:
        flat, decl, own = 0, '', {}
        for i, r in enumerate(p):
            decl += f'auto const x{i} = {lit(r, flat)}; '
            for j, k in enumerate(r):
                own.setdefault(k, []).append(flat + j)
            flat += len(r)
        rs = ', '.join(f'R{{x{i}.begin(), x{i}.end()}}' for i in range(len(p)))
        exp = sorted(own)
        ok = ' && '.join([f'm.size() == {len(exp)}'] + [f'm[{i}].k == {k} && (' + ' || '.join(f'm[{i}].p == p{q}' for q in own[k]) + ')' for i, k in enumerate(exp)])
        c.add('multi_merge', flat, f'{decl} using R = std::pair<KV const*, KV const*>; fv<R> r{{{rs}}}; auto const m = u::multi_set_merge<fv<KV>>(r); return {ok};',
              'merging several sorted sets gives their sorted union', S + 'multi_set_merge.h')
    seqs = [(), (0,), (1,), (0, 1), (1, 0), (2, 0), (2, 1, 0), (1, 2, 0), (0, 2, 1)]
    for a in seqs:
        for b in seqs:
            n = len(a) + len(b)
            if n > 4 and not full and (a, b) != ((2, 1, 0), (1, 2, 0)):
                continue
            A, B = lit(a), lit(b, len(a))
            ov = 'true' if set(a) & set(b) else 'false'
            c.add('overlap_non_sorted', n, f'auto const x = {A}; auto const y = {B}; return u::overlap_non_sorted(x, y) == {ov} && same_seq(x, {A}) && same_seq(y, {B});', 'overlap of unsorted sequences holds exactly when an element is shared', S + 'overlap.h')
            inter = elems([(k, i) for i, k in enumerate(a) if k in b])
            c.add('get_overlap_non_sorted', n, f'auto const x = {A}; auto const y = {B}; return same_seq(u::get_overlap_non_sorted(x, y), {inter});', 'the shared elements of unsorted sequences, in the order of the first', S + 'overlap.h')
    for n in range(0, 5 if full else 4):
        for perm in itertools.permutations(range(n)):
            exp = sorted(range(n), key=lambda i: perm[i])
            c.add('permutation_index', n, f'auto const v = {lit(perm)}; auto const x = u::get_permutation_index(v); return x.size() == {n}' + ''.join(f' && x[{i}] == {e}' for i, e in enumerate(exp)) + ';', 'the permutation that sorts a sequence', S + 'overlap.h')
    for a, b in (((0, 1, 3, 5), (2, 4, 5)), ((0, 2, 4), (1, 3, 5)), ((3, 4), (0, 1, 2, 3)), ((0, 1), (2, 3, 4)), ((1, 2, 6), (0, 3, 6))):
        ov = 'true' if set(a) & set(b) else 'false'
        n = len(a) + len(b)
        c.add('overlap', n, f'return u::overlap({lit(a)}, {lit(b, len(a))}) == {ov} && u::overlap({lit(b, len(a))}, {lit(a)}) == {ov};', 'overlap holds exactly when an element is shared', S + 'overlap.h')
    c.flush()
    f.run()
    ctx.need(c.n, 60, 'shapes of merged sequences')
