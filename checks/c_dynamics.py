"""Driving dynamics: the forces and limits of a train, and how accelerating, coasting and braking follow from them."""
from common import *
import itertools
from fold import Fold

TP, RP, IV, IC, RC = 'src/rolling_stock/train_physics.cc', 'src/runtime/runtime_physics.cc', 'include/soro/runtime/interval.h', 'src/runtime/interval.cc', 'src/runtime/runtime.cc'

STD = f'''#include "{VERIF}/harness/witness/fixed_vec.h"
#include <any>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <compare>
#include <coroutine>
#include <expected>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <unordered_map>
#include <variant>
#include "{VERIF}/harness/witness/fmt_fix.h"
'''
HELP = '''
#define SPEC(...) ([&]() -> bool { return (__VA_ARGS__); }())
#define IF(...) if (__builtin_expect_with_probability(__VA_ARGS__, 0, 1.0))
using namespace soro;
static inline bool near(double a, double b) { double const d = a - b; return __builtin_bit_cast(uint64_t, a) == __builtin_bit_cast(uint64_t, b) || (d <= 1e-7 && d >= -1e-7) || std::abs(d) <= 1e-9 * std::abs(b); }
'''
PRE = STD + f'''namespace std {{ template <typename T, typename A = void> using witness_vec = fv<T, 8>; }}
#include "soro/base/soro_types.h"
#include "soro/si/units.h"
#include "soro/si/constants.h"
#include "utl/verify.h"
#include "utl/pairwise.h"
#include "soro/utls/sassert.h"
#include "soro/utls/template/is_vector.h"
namespace soro {{ template <typename T> using witness_vec = std::witness_vec<T>; }}
#define vector witness_vec
#include "soro/rolling_stock/train_series.h"
#define private public
#include "soro/rolling_stock/train_physics.h"
#undef private
#include "{REPO}/src/rolling_stock/train_physics.cc"
#include "{REPO}/src/runtime/runtime_physics.cc"
#undef vector
{HELP}
namespace r = soro::rs;
static inline r::tractive_piece_t piece(double a, double b, double c, double from, double to) {{ r::tractive_piece_t p; std::get<0>(p.piece_.factors_).val_ = a; std::get<1>(p.piece_.factors_).val_ = b; std::get<2>(p.piece_.factors_).val_ = c; p.from_ = si::speed{{from}}; p.to_ = si::speed{{to}}; return p; }}
static inline void resist(r::traction_vehicle& v, double a, double b, double c) {{ std::get<0>(v.resistance_curve_.factors_).val_ = a; std::get<1>(v.resistance_curve_.factors_).val_ = b; std::get<2>(v.resistance_curve_.factors_).val_ = c; }}
static inline r::traction_vehicle simple(double force, double resistance, double max, double dec) {{ r::traction_vehicle v; v.tractive_curve_.pieces_.push_back(piece(0, 0, force, 0, 1e9)); resist(v, 0, 0, resistance); v.max_speed_ = si::speed{{max}}; v.deacceleration_ = si::acceleration{{dec}}; v.weight_ = si::weight{{1.}}; return v; }}
union box {{ r::train_physics t; template <typename... A> box(A&&... a) : t(std::forward<A>(a)...) {{}} ~box() {{}} }};
// a train built in place: every member that is read is written first
union raw {{ r::train_physics t; raw(double w, double m, r::CTC c = r::CTC::NO, r::FreightTrain f = r::FreightTrain::NO) {{ t.vehicles_.n = 0; t.carriage_weight_.val_ = w; t.length_.val_ = 1.; t.max_speed_.val_ = m; t.ctc_ = c; t.freight_ = f; }} ~raw() {{}}
  r::traction_vehicle& add(double max, double dec) {{ auto& v = t.vehicles_.d[t.vehicles_.n++]; v.tractive_curve_.pieces_.n = 1; v.max_speed_.val_ = max; v.deacceleration_.val_ = dec; v.weight_.val_ = 1.; return v; }}
  void pull(r::traction_vehicle& v, double a, double b, double c) {{ auto& p = v.tractive_curve_.pieces_.d[0]; std::get<0>(p.piece_.factors_).val_ = a; std::get<1>(p.piece_.factors_).val_ = b; std::get<2>(p.piece_.factors_).val_ = c; p.from_.val_ = 0.; p.to_.val_ = 1e9; }}
  void simple(double force, double resistance, double max, double dec) {{ auto& v = add(max, dec); pull(v, 0, 0, force); resist(v, 0, 0, resistance); }} }};
using vs = soro::witness_vec<r::traction_vehicle>;
static inline bool is(soro::runtime_result const& x, double t, double d, double v) {{ return near(x.time_.val_, t) && near(x.distance_.val_, d) && near(x.speed_.val_, v); }}
'''


def physics(ctx):
    f = Fold(ctx, PRE, incs=[f'{VERIF}/harness/throw_shim'], stubs=True, deep=True, nest=True, peel=1, again=7, gcc=False, defs=['-ffp-contract=off'])
    V = ['0.0', '1.5', '20.25', '3.0']
    K = 4 if ctx.thorough else 3
    d = lambda *p: ', '.join('double ' + x for x in p)
    # -- what a train consists of
    f.add('given', d('w', 'l', 'm') + ', bool c, bool fr', 'box b(vs{simple(1., 0., 10., -1.)}, si::weight{w}, si::length{l}, si::speed{m}, static_cast<r::CTC>(c), static_cast<r::FreightTrain>(fr)); return near(b.t.weight().val_, w) && near(b.t.length().val_, l) && bool(b.t.ctc()) == c && bool(b.t.freight()) == fr;',
          [V, V, V, ['true', 'false'], ['true', 'false']], 'weight, length, train control and kind of traffic are those given', TP)
    for n in range(1, 4):
        ms = [f'm{i}' for i in range(n)]
        mk = 'raw b(1., m); ' + ''.join(f'b.simple({i + 1}., 0.5, {m}, -{i + 1}.0); ' for i, m in enumerate(ms))
        lo = ' && '.join(f'x <= {q}' for q in ms + ['m'])
        eq = ' || '.join(f'x == {q}' for q in ms + ['m'])
        nan = ' || '.join(f'{q} != {q}' for q in ms + ['m'])
        vals = ['5.0', '7.0', '6.0', '4.0']
        for pi, perm in enumerate(itertools.permutations(vals[:n + 1])):
            decl = ''.join(f'double const {q} = {v}; ' for q, v in zip(ms + ['m'], perm))
            f.add(f'max_speed_{n}_{pi}', '', f'{decl}{mk}double const x = b.t.max_speed().val_; return ({lo}) && ({eq});', None, f'the maximum speed of a train with {n} vehicles is the least of its own and theirs', TP)
        f.add(f'deceleration_{n}', d('m0', 'm1', 'm2', 'm')[: None], mk + 'return near(b.t.deacceleration().val_, -1.0);', [V] * 4, f'the braking of a train with {n} vehicles is that of the first', TP)
    for n in range(1, 4):
        P = [f'{q}{i}' for i in range(n) for q in 'abcrst']
        mk = 'raw b(1., 50.); ' + ''.join(f'{{ auto& v = b.add(50., -1.); b.pull(v, a{i}, b{i}, c{i}); resist(v, r{i}, s{i}, t{i}); }} ' for i in range(n))
        sm = lambda a, b_, c: '0.0' + ''.join(f' + ({c}{i} + (({b_}{i} + ({a}{i} * x)) * x))' for i in range(n))
        f.add(f'forces_{n}', d(*P, 'x'), f'if (!(x < 1e9)) return true; {mk}return near(b.t.tractive_force(si::speed{{x}}).val_, {sm("a", "b", "c")}) && near(b.t.resistive_force(si::speed{{x}}).val_, {sm("r", "s", "t")});',
              [['0.5'], ['2.0'], ['100.0'], ['0.25'], ['3.0'], ['40.0']] * n + [V], f'tractive and resistive force of {n} vehicles are the sums over the vehicles, each by its polynomial', TP)
    for n in range(1, 4):
        bounds = [10.0 * (i + 1) for i in range(n)]
        P = [f'{q}{i}' for i in range(n) for q in 'abc']
        mk = 'r::tractive_curve_t c; ' + ''.join(f'c.pieces_.push_back(piece(a{i}, b{i}, c{i}, {10.0 * i}, {10.0 * (i + 1)})); ' for i in range(n))
        for i in range(n):
            for x in (10.0 * i, 10.0 * i + 3.5, 10.0 * i + 9.75):
                f.add(f'curve_{n}_{int(x * 100)}', d(*P), f'{mk}double const x = {x}; return near(c(si::speed{{x}}).val_, c{i} + ((b{i} + (a{i} * x)) * x));', [['0.5', '-1.0'], ['2.0'], ['100.0', '7.0']] * n, f'at {x} a tractive curve of {n} pieces is its piece {i}', 'include/soro/utls/math/piecewise_function.h')
    for n in range(1, 4):
        mk = 'r::tractive_curve_t c; ' + ''.join(f'c.pieces_.push_back(piece(0, 0, 1, {10.0 * i}, {10.0 * (i + 1)})); ' for i in range(n))
        for x in (10.0 * n, 10.0 * n + 4.5, 1000.0):
            f.add(f'curve_end_{n}_{int(x * 10)}', '', f'{mk}(void)c(si::speed{{{x}}}); return true;', None, f'a speed beyond the last of {n} pieces is refused', 'include/soro/utls/math/piecewise_function.h', throws=True)
    for v, w in ((5.0, 5.0), (3.0, 5.0), (0.0, 0.0)):
        f.add(f'brake_up_{int(v)}_{int(w)}', '', f'raw b(1., 50.); b.simple(1., 0., 60., -0.5); (void)brake(b.t, si::speed{{{v}}}, si::speed{{{w}}}); return true;', None, 'braking to a speed that is not lower is refused', RP, throws=True)
    # -- coasting
    st = 'double t = 0.0, s = 0.0; '
    for k in range(0, K + 1):
        chk = f'if (x.size() != {k + 1} || !is(x[0], 0.0, 0.0, v)) return false; '
        pre = st + 'double const d0 = 0.0; ' + ''.join(f'double const d{i + 1} = d{i} + v * 0.5; ' for i in range(k + 1))
        asm = ''.join(f'if (!(d{i} < d)) return true; ' for i in range(k)) + f'if (d{k} < d || d != d || v != v) return true; '
        for i in range(1, k + 1):
            chk += f'if (!is(x[{i}], {0.5 * i}, {"d" if i == k else f"d{i}"}, v)) return false; '
        f.add(f'coast_{k}', d('v', 'd'), f'{pre}{asm}auto const x = coast(si::speed{{v}}, si::length{{d}}); {chk}return true;', [['1.5', '20.25', '4.0'], [str(x) for x in (0.0, 0.5, 1.2, 3.3, 9.0, 15.0, 25.0, 28.0, 38.0)]], f'coasting in {k} half seconds: constant speed, the last step ends at the distance', RP)
    # -- braking
    for k in range(1, K + 2):
        for a in ('-0.5', '-1.25'):
            pre = f'double const a = {a}; double const T = -(v - w) / a; double const d0 = 0.0, v0 = v; ' + ''.join(f'double const d{i + 1} = d{i} + v{i} * 0.5, v{i + 1} = v{i} + a * 0.5; ' for i in range(k))
            asm = 'if (!(v > w)) return true; ' + ''.join(f'if (!({0.5 * i} < T)) return true; ' for i in range(k)) + f'if ({0.5 * k} < T) return true; '
            chk = f'if (x.size() != {k + 1} || !is(x[0], 0.0, 0.0, v)) return false; ' + ''.join(f'if (!is(x[{i}], {0.5 * i}, d{i}, v{i})) return false; ' for i in range(1, k))
            chk += f'return is(x[{k}], {0.5 * k}, 0.5 * a * (T * T) + v * T, w);'
            f.add(f'brake_{k}_{a[1:].replace(".", "d")}', d('v', 'w'), f'{pre}{asm}raw b(1., 50.); b.simple(1., 0., 60., a); auto const x = brake(b.t, si::speed{{v}}, si::speed{{w}}); {chk}',
                  [['20.2', '20.25', '20.3', '20.5', '20.6', '20.625', '20.75', '20.9', '21.0', '21.1', '21.25', '21.4', '21.875', '21.9', '22.4', '22.5', '23.0'], ['20.0']], f'braking in {k} half seconds with {a} m/s^2: constant deceleration, ends at the target speed after its braking distance', RP)
    # -- accelerating
    for k in range(0, K + 1):
        for w in ('50.0',):
            force = lambda i: f'((0.0 + (c + ((b + (a * v{i})) * v{i}))) - (0.0 + (t + ((s + (r * v{i})) * v{i})))) / ({w} * 1.06)'
            pre = 'double const d0 = 0.0, v0 = v; ' + ''.join(f'double const v{i + 1} = v{i} + ({force(i)}) * 0.5, d{i + 1} = d{i} + (v{i} + v{i + 1}) * 0.5 * 0.5; ' for i in range(k + 1))
            asm = ''.join(f'if (v{i} < m) if (v{i} < g) if (d{i} < l) if (v{i} < 1e9) ' for i in range(k))
            mkb = f'raw u({w}, m); {{ auto& q = u.add(m, -1.0); u.pull(q, a, b, c); resist(q, r, s, t); }} auto const x = accelerate(u.t, si::speed{{v}}, si::speed{{g}}, si::length{{l}}); '
            full = f'if (x.size() != {k + 1}) return false; ' + ''.join(f'if (!is(x[{i}], {0.5 * i}, d{i}, v{i})) return false; ' for i in range(k + 1)) + 'return true;'
            cut = 'return true;' if k == 0 else f'if (x.size() != {k}) return false; ' + ''.join(f'if (!is(x[{i}], {0.5 * i}, {"l" if i == k - 1 and k > 1 else f"d{i}"}, v{i})) return false; ' for i in range(k)) + 'return true;'
            for why, end in (('max', f'if (!(v{k} < m)) if (!(d{k} > l)) '), ('goal', f'if (v{k} < m) if (!(v{k} < g)) if (!(d{k} > l)) '),
                             ('there', f'if (v{k} < m) if (v{k} < g) if (!(d{k} < l)) if (!(d{k} > l)) '), ('past', f'if (d{k} > l) if (!(d{k} < l)) ')):
                if k == 0 and why == 'past':
                    continue
                f.add(f'accelerate_{k}_{why}_{w[:-2]}', d(*'abcrst', 'v', 'm', 'g', 'l'), f'{pre}{(asm + end).replace('if (', 'IF (')}{{ {mkb}{cut if why == "past" else full} }} return true;',
                      [['0.0'], ['0.0', '-1.5'], ['100.0', '60.0'], ['0.0'], ['0.0', '0.5'], ['10.0'], ['0.0', '5.0'], ['20.0', '6.0', '0.6'], ['20.0', '0.3', '5.7', '1.1'], ['0.0', '100.0', '0.3', '3.1', '6.0', '0.8']], f'accelerating for {k} half seconds, until {dict(max="the maximum speed", goal="the target speed", there="the distance", past="beyond the distance")[why]}: each step follows from the forces', RP)
    f.run()
    return len(f.ws)


PRE2 = STD + f'''#define WITNESS_BITS "{VERIF}/harness/witness/bits.h"
namespace std {{ template <typename T, typename A = void> using witness_vec = fvx<T, 8>; }}
#include "soro/base/soro_types.h"
#include "soro/infrastructure/infrastructure.h"
#include "soro/rolling_stock/train_physics.h"
#include "soro/timetable/timetable.h"
#include "soro/infrastructure/path/length.h"
#include "soro/utls/coroutine/iterator.h"
#include "utl/verify.h"
#include "utl/concat.h"
namespace soro {{ template <typename T> using witness_vec = std::witness_vec<T>; }}
#define vector witness_vec
#include "soro/runtime/interval.h"
#include "soro/runtime/runtime_physics.h"
#include "{REPO}/src/timetable/sequence_point.cc"
#include "{REPO}/src/runtime/interval.cc"
#define BORDER_TYPES BORDER_TYPES_OF_RUNTIME
#include "{REPO}/src/runtime/runtime.cc"
#undef BORDER_TYPES
#undef vector
{HELP}
namespace n = soro::runtime; namespace t = soro::tt; namespace i = soro::infra;
alignas(i::node) static unsigned char node_mem[6][sizeof(i::node)];
static inline i::node::ptr ND(int k) {{ return i::node::ptr(reinterpret_cast<i::node*>(node_mem[k])); }}
union tbox {{ t::train t; tbox() : t() {{}} ~tbox() {{}} }};
static inline n::interval iv(double d, double l, double r) {{ return n::interval(si::length{{d}}, si::speed{{l}}, si::speed{{r}}, t::sequence_point::optional_ptr{{std::nullopt}}, {{}}); }}
'''


def intervals(ctx):
    f = Fold(ctx, PRE2, incs=[f'{VERIF}/harness/throw_shim'], stubs=True, deep=True, nest=True, peel=1, again=7, gcc=False, defs=['-ffp-contract=off'])
    V = ['0.0', '1.5', '20.25', '3.0']
    d = lambda *p: ', '.join('double ' + x for x in p)
    sp = 't::sequence_point p; p.min_stop_time_ = duration2{q}; p.departure_ = relative_time{e}; '
    for ha, hb in ((0, 0), (1, 0), (0, 1)):
        mk = sp + 'auto x = iv(a, b, c); auto y = iv(a, g, h); ' + ('x.sequence_point_ = t::sequence_point::optional_ptr{&p}; ' if ha else '') + ('y.sequence_point_ = t::sequence_point::optional_ptr{&p}; ' if hb else '')
        for na in range(0, 3):
            for nb in range(0, 3):
                ev = '' + ''.join(f'x.events_.push_back(n::event(ND({k}), si::length{{{k}.0}})); ' for k in range(na)) + ''.join(f'y.events_.push_back(n::event(ND({3 + k}), si::length{{{3 + k}.0}})); ' for k in range(nb))
                ids = list(range(na)) + [3 + k for k in range(nb)]
                ck = f'x.events_.size() == {len(ids)} && ' + ''.join(f'x.events_[{j}].node_ == ND({k}) && near(x.events_[{j}].distance_.val_, {k}.0) && ' for j, k in enumerate(ids))
                f.add(f'append_{ha}{hb}_{na}_{nb}', d('a', 'b', 'c', 'g', 'h') + ', uint32_t q, uint32_t e', f'{mk}{ev}x.append(y); return {ck}near(x.distance_.val_, a) && near(x.limit_left_.val_, b) && near(x.limit_right_.val_, h) && x.is_halt() == {"true" if ha or hb else "false"}' + (' && x.departure() == relative_time{e} && x.min_stop_time() == duration2{q};' if ha or hb else ';'),
                      [V[:2]] * 5 + [['3'], ['7']], f'appending an interval with {nb} events to one with {na} keeps place and left limit, takes the right limit, the stop and the events', IV)
    for h in (0, 1):
        f.add(f'target_{h}', d('a', 'b', 'c') + ', uint32_t q, uint32_t e', sp + 'auto x = iv(a, b, c); ' + ('x.sequence_point_ = t::sequence_point::optional_ptr{&p}; return near(x.target_speed().val_, 0.0);' if h else 'return near(x.target_speed().val_, c);'), [V] * 3 + [['3'], ['7']], 'a train has stopped at a halt, elsewhere it has the speed of the next limit', IV)
    # -- a limit that holds from the last signal on
    for m in range(0, 4):
        for pat in itertools.product((10.0, 20.0), repeat=m):
            for at in range(0, m + 2):
                right, left, k = [str(x) for x in pat], [f'{100.0 + q}' for q in range(m)], min(at, m)
                old = pat[at] if at < m else None
                while k < m and pat[k] == old:
                    right[k] = 'w'
                    if k + 1 < m:
                        left[k + 1] = 'w'
                    k += 1
                mk = 'n::interval_list l; ' + ''.join(f'l.push_back(iv({q}.0, {100.0 + q}, {x})); ' for q, x in enumerate(pat))
                f.add(f'last_signal_{m}_{at}_' + ''.join(str(int(x > 15)) for x in pat), d('w'), f'{mk}auto const to = n::insert_last_signal_spl(si::speed{{w}}, l, {at}); if (to != {k} || l.size() != {m}) return false; ' + ''.join(f'if (!near(l[{q}].limit_right_.val_, {right[q]}) || !near(l[{q}].limit_left_.val_, {left[q]}) || !near(l[{q}].distance_.val_, {q}.0)) return false; ' for q in range(m)) + 'return true;',
                      [['5.0', '10.0']], f'a limit announced at interval {at} of {m} replaces the limit there, up to the next change', IC)
    f.add('seconds', 'double x', 'if (!(x >= 0.0 && x < 4e9)) return true; return n::si_to_relative_time(si::from_s(x)) == relative_time{static_cast<relative_time::rep>(std::floor(x))};', [['0.0', '0.5', '0.999', '1.0', '59.5', '86399.75', '3999999999.5']], 'times are rounded down to whole seconds', RC)
    f.add('seconds_back', 'uint32_t x', 'return near(n::relative_to_si_time(relative_time{x}).val_, static_cast<double>(x));', [['0', '1', '3600', '4000000000u']], 'whole seconds are taken over', RC)
    f.run()
    return len(f.ws)


def run(ctx):
    ctx.explain = ('the force, speed-limit, coasting, braking and accelerating functions are applied to symbolic speeds, distances and coefficients; for each number of half-second steps up to a small bound the resulting '
                   'sequence is compared with the one the equations of motion prescribe; the compiler must reduce each comparison to true')
    a = physics(ctx)
    b = intervals(ctx)
    ctx.need(a, 40, 'witnesses of the physics')
    ctx.need(b, 30, 'witnesses of intervals')
