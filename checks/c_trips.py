"""Trips of a train: which operating days run in an interval, when they start and end, and what a sequence point says about them."""
import itertools
from common import *
from fold import Fold

C, SP = 'src/timetable/train.cc', 'src/timetable/sequence_point.cc'

PRE = f'''#include "{VERIF}/harness/witness/fixed_vec.h"
#include <chrono>
#include <compare>
#include <coroutine>
#include <expected>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <unordered_map>
#include <variant>
#include "{VERIF}/harness/witness/fmt_fix.h"
#define WITNESS_BITS "{VERIF}/harness/witness/bits.h"
namespace std {{ template <typename T, typename A = void> using witness_vec = fv<T, 16>; }}
#include "soro/base/soro_types.h"
#include "soro/infrastructure/infrastructure.h"
#include "soro/rolling_stock/train_physics.h"
#include "soro/infrastructure/path/length.h"
#include "soro/utls/container/id_iterator.h"
#include "soro/utls/coroutine/iterator.h"
#include "utl/verify.h"
namespace soro {{ template <typename T> using witness_vec = std::witness_vec<T>; }}
#include "{REPO}/src/rolling_stock/train_physics.cc"
// the path of a train is not iterated here; a pointer is no class with member types
namespace soro::utls {{
template <typename T, typename C> struct id_iterator<T const*, C> {{ template <typename V> id_iterator(T const*, V const*) {{}} bool operator==(id_iterator const&) const; T operator*() const; id_iterator& operator++(); }};
template <typename T, typename V> id_iterator(T const*, V const*) -> id_iterator<T const*, V>;
}}
#define vector witness_vec
#include "{REPO}/src/timetable/train.cc"
#include "{REPO}/src/timetable/bitfield.cc"
#include "{REPO}/src/timetable/sequence_point.cc"
#undef vector
using namespace soro; using namespace soro::tt; using u32 = uint32_t; using day = bitfield::anchor_time;
static inline day D(int d) {{ return day{{date::days{{d}}}}; }}
static inline absolute_time A(u32 s) {{ return absolute_time{{absolute_time::duration{{s}}}}; }}
static inline u32 N(absolute_time t) {{ return t.time_since_epoch().count(); }}
union box {{ train t; box() : t() {{}} ~box() {{}} }};  // never destroyed: the vehicles are not looked at
static inline bool inv(sequence_point::type t) {{ return static_cast<unsigned>(t) > 3u; }}
'''


def run(ctx):
    ctx.explain = ('a train with an arbitrary departure and arrival (up to several days after its operating day) is asked for its trips in an arbitrary interval; the sequence of operating days it answers is compared with '
                   'the definition (first departure to last arrival shares a point with the interval), for operating-day masks and positions of the interval relative to them; the compiler must reduce each comparison to true')
    f = Fold(ctx, PRE, incs=[f'{VERIF}/harness/throw_shim'], stubs=True, deep=True, gcc=False)
    tr = 'box bx; train& t = bx.t; sequence_point p, q; p.departure_ = relative_time{dep}; q.arrival_ = relative_time{arr}; t.sequence_points_.push_back(p); t.sequence_points_.push_back(q); '
    MASKS = ['1', '101', '0110', '11111'] if not ctx.thorough else ['1', '0', '101', '0110', '11111', '10001', '0000001', '1100100']
    DAY = 86400
    U = ['0', '1', '3600', '43199', '43200', '86398', '86399']
    i = 0
    for m, base, arrd, arrs in itertools.product(MASKS, (1000,) if not ctx.thorough else (7, 1000, 30000), (0, 1, 2), (43200, 86399) if not ctx.thorough else (0, 1, 43200, 86399)):
        n = len(m)
        mk = f't.service_days_.first_date_ = D({base}); t.service_days_.last_date_ = D({base + n - 1}); t.service_days_.bitset_.w_ = {sum(1 << k for k, c in enumerate(m) if c == "1")}u; '
        arr = arrd * DAY + arrs
        for ka, ln in itertools.product(range(-1, n + arrd + 1), (0, 1, n + 3)):
            # the start lies in a stretch of the day for which the first candidate day is fixed
            for lo, hi in ((0, arrs - 1), (arrs, arrs), (arrs + 1, DAY - 1)):
                if lo > hi:
                    continue
                i += 1
                if not ctx.thorough and i % 11 and not (arrd == 1 and m == '101'):
                    continue
                body = f'dep %= 86400u; sa = {lo}u + sa % {hi - lo + 1}u; sb %= {DAY}u; if ( dep > {arr}u) return true; u32 const arr = {arr}u; '
                body += f'u32 const a = {(base + ka) * DAY}u + sa, b = {(base + ka + ln) * DAY}u + sb; if (b < a) return true; '
                body += tr + mk + 'auto const r = t.departures(interval{.start_ = A(a), .end_ = A(b)}); auto it = r.begin(); auto const e = r.end(); '
                for k, c in enumerate(m):
                    if c == '1':
                        d = (base + k) * DAY
                        body += f'if (u32({d}u + {arr}u) >= a && {d}u + dep <= b) {{ if (it == e || *it != A({d}u)) return false; ++it; }} '
                body += 'return it == e;'
                f.add(f'departures_{m}_{base}_{arr}_{ka + 1}_{ln}_{lo}', 'u32 dep, u32 sa, u32 sb', body, [U, U, U], f'operating days {m}, last arrival {arr} s after midnight: the trips in an interval starting on day {ka} ({lo} s to {hi} s) and ending {ln} days later are those running in it', C)
        # every trip
        st = ''.join(f'if (it == e || *it != A({(base + k) * DAY}u)) return false; ++it; ' for k, c in enumerate(m) if c == '1')
        if '1' in m:
            f.add(f'all_{m}_{base}_{arr}', 'u32 dep', f'dep %= 86400u; u32 const arr = {arr}u; if (dep > arr) return true; ' + tr + mk + f'auto const r = t.departures(); auto it = r.begin(); auto const e = r.end(); {st}return it == e;', [U], f'operating days {m}: without an interval every operating day is a trip', C)
            ds = [k for k, c in enumerate(m) if c == '1']
            ck = ''.join(f'if (v[{j}].train_id_ != id || v[{j}].anchor_ != A({(base + k) * DAY}u)) return false; ' for j, k in enumerate(ds))
            f.add(f'trips_{m}_{base}_{arr}', 'u32 dep, u32 id', f'dep %= 86400u; u32 const arr = {arr}u; if (dep > arr) return true; ' + tr + mk + f't.id_ = id; auto const v = t.trips(); if (v.size() != {len(ds)} || t.trip_count() != {len(ds)}) return false; {ck}return true;', [U, ['0', '1', '7']], f'operating days {m}: the list of trips', C)
            f.add(f'ends_{m}_{base}_{arr}', 'u32 dep', f'dep %= 86400u; u32 const arr = {arr}u; ' + tr + mk + f'return t.first_absolute_departure() == A({(base + ds[0]) * DAY}u + dep) && t.last_absolute_arrival() == A({(base + ds[-1]) * DAY}u + arr);', [U], f'operating days {m}: first departure and last arrival of all', C)
    BIG = ['0', '1', '3600', '86399', '86400', '200000', '0xfffffffeu']
    two = 'u32 dep, u32 arr'
    f.add('first_last', two, tr + 'return t.first_departure() == relative_time{dep} && t.last_arrival() == relative_time{arr};', [BIG, BIG], 'first departure and last arrival of a trip', C)
    f.add('event', 'u32 dep, u32 arr, u32 d', tr + 'd = d % 40000u; auto const v = t.event_interval(A(d * 86400u)); return v.start_ == A(d * 86400u + dep) && v.end_ == A(d * 86400u + arr);', [BIG, BIG, ['0', '1', '30000']], 'a trip lasts from its first departure to its last arrival', C)
    # -- sequence points
    Y = ['sequence_point::type::TRANSIT', 'sequence_point::type::OPERATIONS', 'sequence_point::type::PASSENGER', 'sequence_point::type::REQUEST']
    ty = 'if (inv(y)) return true; sequence_point p; p.type_ = y; p.departure_ = relative_time{dep}; p.arrival_ = relative_time{arr}; '
    T = 'sequence_point::type y, u32 dep, u32 arr'
    dm = [Y, BIG + ['0xffffffffu'], BIG]
    f.add('halt', T, ty + 'return p.is_halt() == (y != sequence_point::type::TRANSIT) && p.is_transit() == !p.is_halt();', dm, 'a sequence point is a halt unless it is a transit', SP)
    f.add('halt_of', T + ', sequence_point::type z', ty + 'return inv(z) || p.is_halt(z) == (y == z);', dm + [Y], 'a halt of a given kind', SP)
    f.add('transit', T, ty + 'return p.has_transit_time() == (y == sequence_point::type::TRANSIT && dep != 0xffffffffu) && p.is_measurable() == (y != sequence_point::type::TRANSIT || dep != 0xffffffffu) && p.transit_time() == relative_time{dep};', dm, 'a transit has a time iff its departure is set; halts and timed transits are measurable', SP)
    f.add('on_day', T + ', int d', ty + 'd = d < 0 ? -(d % 40000) : d % 40000; date::year_month_day const x{date::sys_days{date::days{17000}}}; return p.absolute_arrival(x) == A(17000u * 86400u + arr) && p.absolute_departure(x) == A(17000u * 86400u + dep);', dm + [['0']], 'arrival and departure on a given day', SP)
    for n in range(1, 5):
        ps = ', '.join(f'sequence_point::type y{k}' for k in range(n))
        f.add(f'halts_{n}', ps + ', u32 d', 'box bx; train& t = bx.t; sequence_point p; p.departure_ = p.arrival_ = relative_time{d}; u32 c = 0; ' + ''.join(f'if (inv(y{k})) return true; p.type_ = y{k}; t.sequence_points_.push_back(p); c += y{k} != sequence_point::type::TRANSIT; ' for k in range(n)) + 'return t.total_halts() == c;', [Y] * n + [['0', '5']], f'number of halts among {n} sequence points', C)
    f.add('freight', 'bool a, bool b', 'box bx; train& t = bx.t; t.physics_ = soro::rs::train_physics({}, si::ZERO<si::weight>, si::ZERO<si::length>, si::ZERO<si::speed>, static_cast<soro::rs::CTC>(a), static_cast<soro::rs::FreightTrain>(b)); return t.is_freight() == b && t.has_ctc() == a && bool(t.freight()) == b && bool(t.ctc()) == a;', [['true', 'false']] * 2, 'freight train and train control', C)
    # -- which speed limits concern a train
    for ty in range(6):
        for ef in range(4):
            want = 'true' if ty == 1 and ef <= 1 else 'false'
            f.add(f'effected_{ty}_{ef}', 'float lim', f'box bx; train& t = bx.t; infra::speed_limit s; s.type_ = static_cast<infra::speed_limit::type>({ty}); s.effects_ = static_cast<infra::speed_limit::effects>({ef}); s.limit_ = si::speed{{lim}}; '
                  f'if (si::is_zero(s.limit_)) return !t.effected_by(s); return t.effected_by(s) == {want};', [['0.0f', '1.0f', '50.0f', '0.004f']], 'a train is concerned by general speed limits for all or conventional trains that are not zero', C)
    f.run()
    ctx.need(len(f.ws), 100, 'witnesses')
