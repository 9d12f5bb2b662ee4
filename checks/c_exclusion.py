"""Exclusion sets: set algebra, order, membership and iteration over block-compressed bit sets."""
import itertools
from common import *
from fold import Fold

H, C = 'include/soro/infrastructure/exclusion/exclusion_set.h', 'src/infrastructure/exclusion/exclusion_set.cc'

# members as (block, bit) in blocks of eight positions
SETS = [[], [0], [7], [8], [3, 5], [3, 5, 7], [9, 12], [3, 12], [3, 9, 12], [16], [3, 20], [20, 23], [0, 8, 16], [12, 20], [0, 15], [31], [7, 8]]


def L(s):
    return '{' + ', '.join(f'{x}u' for x in s) + '}'


def it(name, s):
    """iteration written out, one step per member"""
    b = f'{{ auto i = {name}.begin(); auto const e = {name}.end(); '
    for x in s:
        b += f'if (i == e || *i != {x}u) return false; ++i; '
    return b + 'if (!(i == e)) return false; } '


def run(ctx):
    ctx.explain = ('sets are built from sorted member lists; union, difference, comparison, containment, membership, counting, iteration, insertion and clearing are compared with the result set theory prescribes, '
                   'for every pair of a family of member lists that covers equal, nested, overlapping and disjoint sets within and across blocks (block size of the bit vector: a parameter of the code, eight in the analysis); '
                   'the compiler must reduce each comparison to true')
    pre = f'''#include "{VERIF}/harness/witness/fixed_vec.h"
#include <concepts>
#include <compare>
#include <limits>
#include <chrono>
#include <filesystem>
#include <iomanip>
#include <iostream>
#include <sstream>
#define WITNESS_BITS "{VERIF}/harness/witness/bits.h"
#include "soro/base/soro_types.h"
#include "soro/utls/sassert.h"
#include "soro/utls/std_wrapper/is_sorted.h"
#define vector word_vec
#include "soro/infrastructure/exclusion/exclusion_set.h"
#include "{REPO}/src/infrastructure/exclusion/exclusion_set.cc"
#undef vector
using namespace soro::infra;
using u32 = uint32_t; using ids = word_vec<u32>;
static inline bool same(exclusion_set const& s, ids const& e) {{
  if (e.empty() != s.empty() || s.any() == e.empty() || s.count() != e.size()) return false;
  auto const x = s.expanded_set();
  if (!(x == e)) return false;
  return s.ok();
}}
static inline bool members(exclusion_set const& s, ids const& e) {{
  for (u32 v = 0; v < 40; ++v) {{ bool in = false; for (std::size_t i = 0; i < e.size(); ++i) in |= e[i] == v; if (s[v] != in) return false; }}
  return true;
}}
'''
    f = Fold(ctx, pre, incs=[], stubs=True, deep=True, gcc=False)
    full = ctx.thorough
    sets = list(SETS)
    if full:
        sets += [[x for x in range(6) if m >> x & 1] for m in range(1, 64, 3)] + [[5, 13, 21], [13], [2, 30], [30, 31], [8, 15], [0, 31]]
    n = 0
    for i, a in enumerate(sets):
        f.add(f'make_{i}', '', f'auto const s = make_exclusion_set(7u, ids{L(a)}); {it("s", a)}return s.id_ == 7u && same(s, ids{L(a)});', None, f'a set holds exactly the members {a} it was made from, iterates them in order and counts them', C)
        f.add(f'member_{i}', '', f'return members(make_exclusion_set(ids{L(a)}), ids{L(a)});', None, f'membership of every position in {a}', C)
        f.add(f'clear_{i}', '', f'auto s = make_exclusion_set(ids{L(a)}); s.clear(); return same(s, ids{{}});', None, f'clearing {a} leaves the empty set', C)
        f.add(f'self_{i}', '', f'auto s = make_exclusion_set(ids{L(a)}); auto const t = s; s |= s; if (!same(s, ids{L(a)}) || s.compare(s) != std::partial_ordering::equivalent || !s.contains(s) || !(s == t)) return false; s -= s; return same(s, ids{{}});', None, f'union, comparison and difference of {a} with itself', C)
        # symbolic membership: any position
        for v in ([0, 4, 7, 8, 11, 19, 31] if not full else range(0, 33)):
            r = sorted(set(a) | {v})
            f.add(f'set_{i}_{v}', '', f'auto s = make_exclusion_set(ids{L(a)}); s.set({v}u); return same(s, ids{L(r)}) && members(s, ids{L(r)});', None, f'inserting {v} into {a} adds exactly that member', C)
    for (i, a), (j, b) in itertools.product(enumerate(sets), repeat=2):
        A, B = set(a), set(b)
        n += 1
        o = 'equivalent' if A == B else 'less' if A < B else 'greater' if A > B else 'unordered'
        mk = f'auto const a = make_exclusion_set(1u, ids{L(a)}); auto const b = make_exclusion_set(2u, ids{L(b)}); '
        keep = f' && same(a, ids{L(a)}) && same(b, ids{L(b)})'
        f.add(f'or_{i}_{j}', '', mk + f'auto const r = a | b; ' + it('r', sorted(A | B)) + f'return same(r, ids{L(sorted(A | B))}){keep};', None, f'{a} | {b} has exactly the members of either', C)
        f.add(f'minus_{i}_{j}', '', mk + f'auto const r = a - b; ' + it('r', sorted(A - B)) + f'return same(r, ids{L(sorted(A - B))}){keep};', None, f'{a} - {b} has exactly the members of the first not in the second', C)
        f.add(f'assign_{i}_{j}', '', f'auto a = make_exclusion_set(1u, ids{L(a)}); auto c = a; auto const b = make_exclusion_set(2u, ids{L(b)}); auto& r = (a |= b); auto& q = (c -= b); '
              f'return &r == &a && &q == &c && same(a, ids{L(sorted(A | B))}) && same(c, ids{L(sorted(A - B))}) && same(b, ids{L(b)});', None, f'assigning union and difference of {a} and {b} change the left set only', C)
        f.add(f'compare_{i}_{j}', '', mk + f'return a.compare(b) == std::partial_ordering::{o} && a.contains(b) == {str(A >= B).lower()};', None, f'{a} compared with {b} is {o}', C)
    # arbitrary contents: in a shape, position i is known unset (0), known set (1) or unknown (?); lowest and highest are known
    SH = ['1', '0001??1', '1??????1', '00000001??1', '000000000001???1????1', '0000000011111111', '00000000000000001?1?01', '01?????????????????????????????1', '001???????1', '0000000000000000000000001',
          '1??????????????????????1', '00000?11'.replace('?', '1'), '0000000010?????100000001']
    if full:
        SH += ['11?', '0000000?1'.replace('?', '1'), '1???????????????', '00000000????????????????1'.replace('????????????????', '1???????????????', 1), '0000000000000000????1???1'.replace('????1', '1???1')]
    SH = [x.rstrip('?') for x in SH]
    assert all(x.lstrip('0')[0] == '1' and x[-1] == '1' for x in SH)
    one = lambda x, c: sum(1 << i for i, k in enumerate(x) if k == c)
    bound = lambda x: (x.index('1'), len(x) - 1)

    def mk2(nm, x):
        """blocks of the shape: constants where known, a parameter masked elsewhere"""
        lo, hi = bound(x)
        f0, l0 = lo // 8 * 8, hi // 8 * 8 + 7
        cs, ps = [], []
        for k in range(0, 40, 8):
            u, o = one(x, '?') >> k & 255, one(x, '1') >> k & 255
            cs.append(f'uint8_t const {nm}{k // 8}w = ' + (f'uint8_t((p{nm}{k // 8} & {u}) | {o}); ' if u else f'{o}; '))
            if u:
                ps.append(f'uint8_t p{nm}{k // 8}')
        put = ''.join(f'{nm}.bits_.blocks_.put({(k - f0) // 8}, {nm}{k // 8}w); ' for k in range(f0, l0, 8))
        return ps, ''.join(cs) + f'exclusion_set {nm}; {nm}.first_ = {f0}; {nm}.last_ = {l0}; {nm}.first_bit_set_ = {lo}; {nm}.last_bit_set_ = {hi}; {nm}.bits_.resize({l0 - f0 + 1}); {put}'

    def same_bits(r, e, lo, hi):
        """e: block number -> expected contents"""
        f0, l0 = lo // 8 * 8, hi // 8 * 8 + 7
        eq = ' && '.join(f'{r}.bits_.blocks_.get({(k - f0) // 8}) == uint8_t({e(k // 8)})' for k in range(f0, l0, 8))
        return (f'{eq} && {r}.first_ == {f0}u && {r}.last_ == {l0}u && {r}.bits_.size() == {l0 - f0 + 1}u && {r}.bits_.blocks_.size() == {(l0 - f0 + 1) // 8}u '
                f'&& {r}.first_bit_set_ == {lo}u && {r}.last_bit_set_ == {hi}u')
    av, bv = (lambda k: f'a{k}w'), (lambda k: f'b{k}w')
    D1 = ['0', '255', '0x55', '0xaa', '0x42']
    dom = lambda ps: [D1 if len(ps) < 3 else ['0', '255', '0x5a'] if len(ps) < 6 else ['0', '0x5a']] * len(ps)
    for (i, x), (j, y) in itertools.product(enumerate(SH), repeat=2):
        (pa, ma), (pb, mb) = mk2('a', x), mk2('b', y)
        ps, m = pa + pb, ma + mb
        d = dom(ps)
        (xl, xh), (yl, yh) = bound(x), bound(y)
        keep = ' && ' + same_bits('a', av, xl, xh) + ' && ' + same_bits('b', bv, yl, yh)
        f.add(f'sym_or_{i}_{j}', ', '.join(ps), m + f'auto const r = a | b; return {same_bits("r", lambda k: f"a{k}w | b{k}w", min(xl, yl), max(xh, yh))}{keep};', d, f'union of all sets of shapes {x} and {y} is the bitwise union', C)
        ks = sorted({k // 8 for z in ((xl, xh), (yl, yh)) for k in range(z[0] // 8 * 8, z[1] + 1, 8)})

        def split(k, up, down):
            """a decision tree over the blocks, the code evaluated at the leaves"""
            if k == len(ks):
                o = 'equivalent' if up and down else 'less' if up else 'greater' if down else 'unordered'
                return f'return a.compare(b) == std::partial_ordering::{o} && a.contains(b) == {str(down).lower()};'
            q = ks[k]
            A, B = f'a{q}w', f'b{q}w'
            if not up and not down:
                return split(len(ks), False, False)
            t = ''
            if up and down:
                t += f'if ({A} == {B}) {{ {split(k + 1, True, True)} }} '
            if up:
                t += f'if (uint8_t({A} | {B}) == {B}) {{ {split(k + 1, True, False)} }} '
            if down:
                t += f'if (uint8_t({A} | {B}) == {A}) {{ {split(k + 1, False, True)} }} '
            return t + split(k + 1, False, False)
        f.add(f'sym_cmp_{i}_{j}', ', '.join(ps), m + split(0, True, True), d, f'comparison of all sets of shapes {x} and {y} is set inclusion', C)
        n3 = max(len(x), len(y))
        px, py = x.ljust(n3, '0'), y.ljust(n3, '0')
        r = ''.join('0' if a == '0' or b == '1' else '1' if a == '1' and b == '0' else '?' for a, b in zip(px, py)).rstrip('0')
        if r.strip('0') and r.lstrip('0')[0] == '1' and r[-1] == '1':
            f.add(f'sym_minus_{i}_{j}', ', '.join(ps), m + f'auto const r = a - b; return {same_bits("r", lambda k: f"a{k}w & ~b{k}w", *bound(r))}{keep};', d, f'difference of all sets of shapes {x} and {y} has the remaining bits, tightly stored', C)
        elif not r:
            f.add(f'sym_minus_{i}_{j}', ', '.join(ps), m + 'auto const r = a - b; return r.empty() && !r.any() && r.count() == 0;', d, f'difference of all sets of shapes {x} and {y} is empty', C)
    for i, x in enumerate(SH):
        ps, m = mk2('a', x)
        pl, d = ', '.join(ps), dom(ps)
        f.add(f'sym_at_{i}', pl, m + 'uint64_t const aw = a0w | uint64_t(a1w) << 8 | uint64_t(a2w) << 16 | uint64_t(a3w) << 24 | uint64_t(a4w) << 32; ' + ' '.join(f'if (a[{k}u] != (((aw >> {k}) & 1) != 0)) return false;' for k in range(36)) + ' return !a[1000u] && !a[0xffffffffu];', d, f'membership of every position in all sets of shape {x}', C)
        f0, l0 = bound(x)[0] // 8, bound(x)[1] // 8
        f.add(f'sym_count_{i}', pl, m + f'return a.count() == {" + ".join(f"static_cast<std::size_t>(__builtin_popcount(a{k}w))" for k in range(f0, l0 + 1))} && a.any() && !a.empty();', d, f'count of all sets of shape {x}', C)
        for k in (0, 6, 9, 17, 33):
            if k < len(x) and x[k] == '?':
                continue
            f.add(f'sym_set_{i}_{k}', pl, m + f'a.set({k}u); return {same_bits("a", lambda q: f"a{q}w | {1 << k % 8}" if q == k // 8 else f"a{q}w", min(k, bound(x)[0]), max(k, bound(x)[1]))};', d, f'inserting {k} into all sets of shape {x} adds exactly that bit', C)
    # sequences of operations keep the representation tight
    seqs = [([3, 20], [20], [30]), ([0, 8, 16], [8], [9]), ([0, 8, 16], [0, 16], [0]), ([3, 5, 20, 28], [3, 5, 28], [1, 31]), ([12], [12], [5]), ([20, 23], [20], [2]), ([1, 31], [31], [31]), ([1, 31], [1], [1]), ([9, 10, 30], [9, 30], [11])]
    for k, (a, b, c) in enumerate(seqs):
        r1, r2 = sorted(set(a) - set(b)), sorted((set(a) - set(b)) | set(c))
        f.add(f'seq_{k}', '', f'auto s = make_exclusion_set(ids{L(a)}); s -= make_exclusion_set(ids{L(b)}); if (!same(s, ids{L(r1)}) || !members(s, ids{L(r1)})) return false; auto t = s; s |= make_exclusion_set(ids{L(c)}); '
              f'if (!same(s, ids{L(r2)}) || !members(s, ids{L(r2)})) return false; t.set({c[0]}u); ' + (f't.set({c[1]}u); ' if len(c) > 1 else '') + f'return same(t, ids{L(r2)}) && t.compare(s) == std::partial_ordering::equivalent;',
              None, f'({a} - {b}) | {c}, also by single insertions', C)
    f.run()
    ctx.need(len(f.ws), 700, 'witnesses')
    ctx.analysed['pairs of sets'] = n
