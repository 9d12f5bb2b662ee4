"""Calendar time: absolute/relative conversion, midnight, intervals, operating-day bit fields."""
import itertools
from common import *
from fold import Fold

T, I, H, C = 'include/soro/base/time.h', 'include/soro/timetable/interval.h', 'include/soro/timetable/bitfield.h', 'src/timetable/bitfield.cc'
U = ['0', '1', '59', '3600', '86399', '86400', '86401', '1700000000', '0x7fffffffu', '0x80000000u', '0xfffffffeu', '0xffffffffu']
DAYS = ['0', '1', '-1', '19000', '30000', '-30000']


def run(ctx):
    ctx.explain = ('time conversions, interval predicates and operating-day bit fields are compared with integer arithmetic on seconds and days for every value; '
                   'bit fields are built on an arbitrary first day from masks whose positions are unset, set or arbitrary, and every operation is compared day by day with set theory on days; '
                   'the compiler must reduce each comparison to true')
    pre = f'''#include "{VERIF}/harness/witness/fixed_vec.h"
#include <chrono>
#include <compare>
#include <filesystem>
#include <iomanip>
#include <iostream>
#include <limits>
#include <sstream>
#include "{VERIF}/harness/witness/fmt_fix.h"
#define WITNESS_BITS "{VERIF}/harness/witness/bits.h"
#include "soro/base/soro_types.h"
#include "soro/base/time.h"
#include "soro/timetable/interval.h"
#include "utl/verify.h"
namespace std {{ template <typename T> using witness_vec = fv<T, 16>; }}
#define vector witness_vec
#include "soro/timetable/bitfield.h"
#include "{REPO}/src/timetable/bitfield.cc"
#undef vector
using namespace soro; using namespace soro::tt; using u32 = uint32_t; using day = bitfield::anchor_time;
static inline day D(int d) {{ return day{{date::days{{d}}}}; }}
static inline absolute_time A(u32 s) {{ return absolute_time{{absolute_time::duration{{s}}}}; }}
static inline u32 N(absolute_time t) {{ return t.time_since_epoch().count(); }}
'''
    f = Fold(ctx, pre, incs=[f'{VERIF}/harness/throw_shim'], stubs=True, deep=True, gcc=False)
    # -- base/time.h
    f.add('rep', 'u32 a', 'N(rep_to_absolute_time(a)) == a && absolute_time_to_rep(rep_to_absolute_time(a)) == a && absolute_time_to_rep(A(a)) == a', [U], 'a time is exactly its count of seconds', T)
    f.add('rel_abs', 'u32 a, u32 b', 'N(relative_to_absolute(A(a), relative_time{b})) == u32(a + b)', [U, U], 'anchor plus relative time', T)
    f.add('abs_rel', 'u32 a, u32 b', 'absolute_to_relative(A(a), A(b)).count() == u32(b - a)', [U, U], 'time relative to an anchor', T)
    f.add('rel_inverse', 'u32 a, u32 b', 'absolute_to_relative(A(a), relative_to_absolute(A(a), relative_time{b})).count() == b && relative_to_absolute(A(a), absolute_to_relative(A(a), A(b))) == A(b)', [U, U], 'the two conversions undo each other', T)
    f.add('midnight', 'u32 a', 'N(midnight(A(a))) == a - a % 86400u', [U], 'midnight is the start of the same day', T)
    f.add('ymd', '', 'N(ymd_to_abs(date::year_month_day{date::year{1970}, date::month{1}, date::day{2}})) == 86400u && N(ymd_to_abs(date::year_month_day{date::year{2020}, date::month{3}, date::day{1}})) == 18322u * 86400u', None, 'a calendar date starts at its midnight', T)
    f.add('valid_abs', 'u32 a', 'soro::valid(A(a)) == (a != 0xffffffffu) && soro::valid(relative_time{a}) == (a != 0xffffffffu)', [U], 'only the sentinel is invalid', T)
    f.add('invalid', '', '!soro::valid(INVALID<absolute_time>) && !soro::valid(INVALID<relative_time>) && !soro::valid(INVALID<duration2>)', None, 'the sentinel is invalid', T)
    f.add('no_mix', '', '!std::is_convertible_v<u32, absolute_time> && !std::is_convertible_v<u32, relative_time> && !std::is_convertible_v<relative_time, absolute_time> && !std::is_convertible_v<absolute_time, relative_time>', None, 'times, durations and counts do not convert implicitly', T)
    f.add('units', 'u32 a', 'a &= 0xfff; return soro::seconds{soro::minutes{a}}.count() == a * 60u && soro::seconds{soro::hours{a}}.count() == a * 3600u && soro::seconds{soro::days{a}}.count() == a * 86400u;', [U], 'minutes, hours and days in seconds', T)
    # -- interval
    f.add('iv_valid', 'u32 a, u32 b', 'interval{.start_ = A(a), .end_ = A(b)}.valid() == (a <= b)', [U, U], 'an interval is valid iff it does not end before it starts', I)
    f.add('iv_overlap', 'u32 a, u32 b, u32 c, u32 d', 'if (b < a || d < c) return true; bool const o = !(b < c) && !(d < a); return interval{.start_ = A(a), .end_ = A(b)}.overlaps(interval{.start_ = A(c), .end_ = A(d)}) == o;', [U[::3]] * 4, 'closed intervals overlap iff they share a point', I)
    f.add('iv_point', 'u32 a, u32 b, u32 c', 'if (b < a) return true; bool const in = a <= c && c <= b; return interval{.start_ = A(a), .end_ = A(b)}.overlaps(interval{.start_ = A(c), .end_ = A(c)}) == in && interval{.start_ = A(c), .end_ = A(c)}.overlaps(interval{.start_ = A(a), .end_ = A(b)}) == in;', [U[::2]] * 3, 'a point overlaps an interval iff it lies in it', I)
    f.add('iv_eq', 'u32 a, u32 b, u32 c, u32 d', 'interval const x{.start_ = A(a), .end_ = A(b)}, y{.start_ = A(c), .end_ = A(d)}; if (a == c) { if (b == d) return x == y && !(x != y); return !(x == y) && x != y; } return !(x == y) && x != y;', [U[::3]] * 4, 'intervals are equal iff both ends are', I)
    f.add('iv_default', 'u32 a', 'interval const i; return i.valid() && i.overlaps(interval{.start_ = A(a), .end_ = A(a)}) && N(i.start_) == 0 && N(i.end_) == 0xffffffffu;', [U], 'the default interval covers all times', I)
    # -- bit fields: a shape says for each day after the first whether it is unset, set or arbitrary
    SH = ['0', '1', '?', '0?', '10', '1?0', '01??1', '00100', '??????', '1000000?', '0?0?0?0?0', '00000000000000000001', '1111111111']
    if ctx.thorough:
        SH += ['?????????', '0000', '?0', '01', '0??????0', '1?????????????1', '000000000000000000000?000000000001']
    ps = lambda nm, s: [f'uint64_t {nm}'] if '?' in s else []

    def mask(nm, s, off):
        """a field on the days [d + off, d + off + len) made from its textual mask, arbitrary days being parameters"""
        m = [f"(c{k} ? '1' : '0')" if c == '?' else f"'{c}'" for k, c in enumerate(s)]
        e = ''.join(f'if (c{k}) e |= {1 << k}u; ' if c == '?' else f'e |= {1 << k}u; ' if c == '1' else '' for k, c in enumerate(s))
        return f"uint64_t e = 0; {e}char const m_{nm}[] = {{{', '.join(m)}, 0}}; auto {nm} = make_bitfield(D(d + {off}), D(d + {off + len(s) - 1}), m_{nm}); "

    def word(s, var):
        o, u = (sum(1 << k for k, c in enumerate(s) if c == x) for x in '1?')
        return f'uint64_t(({var} & {u}u) | {o}u)' if u else f'uint64_t({o})'

    def mk(nm, s, off, var):
        """the same field, given directly"""
        return f'bitfield {nm}; {nm}.first_date_ = D(d + {off}); {nm}.last_date_ = D(d + {off + len(s) - 1}); {nm}.bitset_.w_ = {word(s, var)}; '

    def bit(s, off, var, k):
        """is day d + k in the field"""
        k -= off
        if k < 0 or k >= len(s):
            return 'false'
        return f'((({var} >> {k}) & 1u) != 0)' if s[k] == '?' else 'true' if s[k] == '1' else 'false'

    def is_(nm, lo, hi, w):
        return f'if ({nm}.first_date_ != D(d + {lo}) || {nm}.last_date_ != D(d + {hi}) || !{nm}.ok() || {nm}.bitset_.w_ != ({w})) return false; '

    known = lambda s: '?' not in s
    lim = 'd = int(int16_t(d)); '
    M = ['0', '0xffffffffu', '0x55555555u', '0xaaaaaaaau', '0x0f0f']
    for i, s in enumerate(SH):
        pl = ', '.join(['int d'] + ps('v', s))
        dm = [DAYS] + ([M] if '?' in s else [])
        b = lambda k, s=s: bit(s, 0, 'v', k)
        n = len(s)
        f.add(f'make_{i}', ', '.join(['int d'] + [f'bool c{k}' for k, c in enumerate(s) if c == '?']), lim + mask('f', s, 0) + is_('f', 0, n - 1, 'e') + 'return true;', [DAYS] + [['true', 'false']] * s.count('?'), f'a field made from mask {s} contains exactly the days marked in it, and nothing else can be asked for', C)
        for k in range(n):
            f.add(f'at_{i}_{k}', pl, lim + mk('f', s, 0, 'v') + f'bool const in = {b(k)}; return f.at(D(d + {k})) == in && f[D(d + {k})] == in;', dm, f'mask {s}: day {k} is in the field iff it is marked', C)
        f.add(f'count_{i}', pl, lim + mk('f', s, 0, 'v') + f'return f.count() == static_cast<std::size_t>(__builtin_popcountll({word(s, "v")}));', dm, f'number of operating days of mask {s}', C)
        f.add(f'self_{i}', pl, lim + mk('f', s, 0, 'v') + 'auto const g = f; return f == g && f.equivalent(g) && (f | g) == g && (f | g).equivalent(f);', dm, f'mask {s}: a field equals itself and is its own union', C)
        for j, x in enumerate(('d - 1', f'd + {n}', 'd - 1000', 'd + 512', '0x7fffffff')):
            f.add(f'out_{i}_{j}', pl, lim + mk('f', s, 0, 'v') + f'(void)f.at(D({x})); return false;', dm, f'mask {s}: days outside the range cannot be asked for ({x})', C, throws=True)
        for k in sorted({-3, -1, 0, 1, 4, n, n + 5}):
            for v in (1, 0):
                lo, hi = min(0, k), max(n - 1, k)
                w = f'({word(s, "v")} << {-lo})'
                w = f'{w} | (1ull << {k - lo})' if v else f'{w} & ~(1ull << {k - lo})'
                f.add(f'set_{i}_{k + 3}_{v}', pl, lim + mk('f', s, 0, 'v') + f'f.set(D(d + {k}), {["false", "true"][v]}); ' + is_('f', lo, hi, w) + 'return true;', dm, f'mask {s}: setting day {k} to {v} changes that day only', C)
        if not known(s):
            continue
        ds = [k for k in range(n) if s[k] == '1']
        steps = ''.join(f'if (it == e || *it != D(d + {k})) return false; ++it; ' for k in ds)
        f.add(f'iter_{i}', 'int d', lim + mk('f', s, 0, '') + f'auto it = f.begin(); auto const e = f.end(); {steps}return it == e && !(it != e);', dm, f'mask {s}: iteration visits the operating days in order', C)
        vs = ''.join(f'if (r[{j}] != D(d + {k})) return false; ' for j, k in enumerate(ds))
        f.add(f'days_{i}', 'int d', lim + mk('f', s, 0, '') + f'auto const r = f.get_set_days(); if (r.size() != {len(ds)}) return false; {vs}return true;', dm, f'mask {s}: list of operating days', C)
        if ds:
            f.add(f'ends_{i}', 'int d', 'd = int(uint16_t(d) & 0x7fff); ' + mk('f', s, 0, '') + f'return N(f.first_set_date()) == u32(d + {ds[0]}) * 86400u && N(f.last_set_date()) == u32(d + {ds[-1]}) * 86400u;', dm, f'mask {s}: first and last operating day', C)
        for a in sorted({-2, 0, 1, n - 1, n, n + 3}):
            for z in sorted({a, a + 1, n - 1, n + 2}):
                if z < a or a < -2:
                    continue
                w = [k for k in ds if a <= k <= z]
                st = ''.join(f'if (it == e || *it != D(d + {k})) return false; ++it; ' for k in w)
                for part in ('0', '86399'):
                    f.add(f'window_{i}_{a + 2}_{z + 2}_{part}', 'int d', 'd = 3 + int(uint16_t(d) & 0x3fff); ' + mk('f', s, 0, '') + f'auto it = f.from(A(u32(d + {a}) * 86400u + {part}u)); auto const e = f.to(A(u32(d + {z}) * 86400u + {part}u)); {st}return it == e;', dm,
                          f'mask {s}: the days from {a} up to {z} (any time of day) are exactly the operating days between them', C)
    PA = [s for s in SH if len(s) <= 12]
    for (i, x), (j, y), off in itertools.product(enumerate(PA), enumerate(PA), (0, 1, -2, 7)):
        if not ctx.thorough and (i * 7 + j * 3 + off) % 3 and known(x) != known(y):
            continue
        pl = ', '.join(['int d'] + ps('v', x) + ps('w', y))
        dm = [DAYS] + ([M] if '?' in x else []) + ([M] if '?' in y else [])
        lo, hi = min(0, off), max(len(x) - 1, off + len(y) - 1)

        two = lim + mk('f', x, 0, 'v') + mk('g', y, off, 'w')
        nm = f'{i}_{j}_{off + 2}'
        f.add(f'or_{nm}', pl, two + 'auto const r = f | g; ' + is_('r', lo, hi, f'{word(x, "v")} << {-lo} | {word(y, "w")} << {off - lo}') + 'return true;', dm, f'union of masks {x} and {y} ({off} days apart) contains the days of either', C)
        f.add(f'orkeep_{nm}', pl, two + 'auto const f0 = f; auto const g0 = g; (void)(f | g); if (!(f == f0) || !(g == g0)) return false; auto c = f; c |= g; return c == (f | g) && g == g0;', dm, f'union of masks {x} and {y} ({off} days apart) leaves the operands alone', C)
        diff = [k for k in range(lo, hi + 1) if bit(x, 0, 'v', k) != bit(y, off, 'w', k)]
        if known(x) and known(y):
            f.add(f'equivalent_{nm}', pl, two + f'return f.equivalent(g) == {str(not diff).lower()} && g.equivalent(f) == {str(not diff).lower()};', dm, f'masks {x} and {y} ({off} days apart) are equivalent iff they mark the same days', C)
            same = off == 0 and x == y
            f.add(f'equal_{nm}', pl, two + f'return (f == g) == {str(same).lower()};', dm, f'masks {x} and {y} ({off} days apart) are equal iff range and days agree', C)
        elif any('?' not in bit(x, 0, '?', k) + bit(y, off, '?', k) for k in diff):
            f.add(f'equivalent_{nm}', pl, two + 'return !f.equivalent(g) && !g.equivalent(f);', dm, f'masks {x} and {y} ({off} days apart) mark different days', C)
    f.run()
    ctx.need(len(f.ws), 300, 'witnesses')
