"""Dimensional safety and arithmetic of physical quantities."""
from common import *
from fold import Fold

V = ['0.0', '-1.0', '1.0', '0.004', '0.02', '3.6', '36.0', '80.0', '1000.0', '-273.15', '1e6', '0.5']
NAMED = ['si::unitless', 'si::length', 'si::time', 'si::weight', 'si::current', 'si::speed', 'si::acceleration', 'si::force', 'si::area']
# exponent vectors (m, s, kg, A)
EXP = {'si::unitless': (0, 0, 0, 0), 'si::length': (1, 0, 0, 0), 'si::time': (0, 1, 0, 0), 'si::weight': (0, 0, 1, 0), 'si::current': (0, 0, 0, 1),
       'si::speed': (1, -1, 0, 0), 'si::acceleration': (1, -2, 0, 0), 'si::force': (1, -2, 1, 0), 'si::area': (2, 0, 0, 0)}


def ident(s):
    return s.replace('::', '_')


def run(ctx):
    ctx.explain = ('for all pairs of named and derived units: the unit of a product/quotient/power has the summed/subtracted/multiplied exponents in lowest terms, '
                   'quantities of different units cannot be added, compared, assigned or converted (the expression must not type-check), and arithmetic acts on the '
                   'stored magnitude only; unit conversions use the right factor')
    H = 'include/soro/utls/strong_types/fraction.h'
    Un = 'include/soro/si/units.h'
    pre = r'''
#include <bit>
#include <cstdint>
#include <cmath>
#include <utility>
#include "utl/verify.h"
#include "soro/si/units.h"
using namespace soro;
template <typename T> struct ex;
template <typename N, typename D, typename P> struct ex<utls::fraction<N, D, P>> {
  template <typename T> static constexpr int of = static_cast<int>(utls::count_v<T, N>) - static_cast<int>(utls::count_v<T, D>);
  template <typename T> static constexpr bool lowest = utls::count_v<T, N> == 0 || utls::count_v<T, D> == 0;
  static constexpr int m = of<utls::meter_tag>, s = of<utls::second_tag>, kg = of<utls::kilogram_tag>, A = of<utls::ampere_tag>;
  static constexpr bool reduced = lowest<utls::meter_tag> && lowest<utls::second_tag> && lowest<utls::kilogram_tag> && lowest<utls::ampere_tag>;
  static constexpr bool dbl = std::is_same_v<P, double>;
};
template <typename A, typename B> constexpr bool same() { return ex<A>::m == ex<B>::m && ex<A>::s == ex<B>::s && ex<A>::kg == ex<B>::kg && ex<A>::A == ex<B>::A; }
template <typename T> constexpr bool is(int m, int s, int kg, int A) { return ex<T>::m == m && ex<T>::s == s && ex<T>::kg == kg && ex<T>::A == A && ex<T>::reduced && ex<T>::dbl; }
template <typename A, typename B> concept adds = requires(A a, B b) { a + b; };
template <typename A, typename B> concept subs = requires(A a, B b) { a - b; };
template <typename A, typename B> concept adda = requires(A a, B b) { a += b; };
template <typename A, typename B> concept suba = requires(A a, B b) { a -= b; };
template <typename A, typename B> concept lt = requires(A a, B b) { a < b; };
template <typename A, typename B> concept gt = requires(A a, B b) { a > b; };
template <typename A, typename B> concept le = requires(A a, B b) { a <= b; };
template <typename A, typename B> concept ge = requires(A a, B b) { a >= b; };
template <typename A, typename B> concept eq = requires(A a, B b) { a == b; };
template <typename A, typename B> concept ne = requires(A a, B b) { a != b; };
template <typename A, typename B> concept asg = requires(A a, B b) { a = b; };
template <typename A, typename B> constexpr bool unmixable() {
  return !adds<A, B> && !subs<A, B> && !adda<A, B> && !suba<A, B> && !lt<A, B> && !gt<A, B> && !le<A, B> && !ge<A, B> && !eq<A, B> && !ne<A, B> &&
         !asg<A, B> && !std::is_convertible_v<A, B> && !std::is_assignable_v<A&, B>;
}
template <typename A, typename B> constexpr bool mixable() { return adds<A, B> && subs<A, B> && lt<A, B> && eq<A, B> && ne<A, B> && ge<A, B>; }
static inline bool bits(double a, double b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }
static inline bool near(double a, double b) { return bits(a, b) || std::abs(a - b) <= 1e-9 * (1.0 + std::abs(b)); }
#define SPEC(...) ([&]() -> bool { return (__VA_ARGS__); }())
#define IMPL(...) ([&]() -> bool { return (__VA_ARGS__); }())
using mps_again = decltype(std::declval<si::acceleration>() * std::declval<si::time>());
using joule = decltype(std::declval<si::force>() * std::declval<si::length>());
using watt = decltype(std::declval<joule>() / std::declval<si::time>());
using hertz = decltype(std::declval<si::unitless>() / std::declval<si::time>());
using coulomb = decltype(std::declval<si::current>() * std::declval<si::time>());
'''
    exps = dict(EXP)
    exps.update({'mps_again': (1, -1, 0, 0), 'joule': (2, -2, 1, 0), 'watt': (2, -3, 1, 0), 'hertz': (0, -1, 0, 0), 'coulomb': (0, 1, 0, 1)})
    f = Fold(ctx, pre, stubs=True, gcc=False)
    for u, e in exps.items():
        f.add(f'unit_{ident(u)}', '', f'is<{u}>({",".join(map(str, e))})', None, f'{u} has the exponents (m,s,kg,A) = {e} in lowest terms', Un)
    us = list(exps)
    for i, a in enumerate(us):
        for b in us:
            p = tuple(x + y for x, y in zip(exps[a], exps[b]))
            q = tuple(x - y for x, y in zip(exps[a], exps[b]))
            # operands as products/quotients of the two: the result type may be spelled differently, its exponents must agree
            f.add(f'dim_{ident(a)}_{ident(b)}', '', f'is<decltype(std::declval<{a}>() * std::declval<{b}>())>({",".join(map(str, p))}) && is<decltype(std::declval<{a}>() / std::declval<{b}>())>({",".join(map(str, q))})',
                  None, f'exponents of {a} * {b} and {a} / {b} add and subtract', H)
            if exps[a] != exps[b]:
                f.add(f'nomix_{ident(a)}_{ident(b)}', '', f'unmixable<{a}, {b}>()', None, f'{a} and {b} cannot be added, compared, assigned or converted', H)
    for u in us:
        e = exps[u]
        f.add(f'noscalar_{ident(u)}', '', f'!adds<{u}, double> && !subs<double, {u}> && !eq<{u}, double> && !lt<{u}, double> && !lt<double, {u}> && !asg<double, {u}> && !std::is_convertible_v<{u}, double> && !std::is_convertible_v<double, {u}>',
              None, f'{u} does not mix with a bare number', H)
        for k in (1, 2, 3):
            f.add(f'pow{k}_{ident(u)}', '', f'is<decltype(std::declval<{u}>().template pow<{k}>())>({",".join(str(k * x) for x in e)}) && is<decltype(utls::pow<{k}>(std::declval<{u}>()))>({",".join(str(k * x) for x in e)})', None, f'{u}^{k} multiplies the exponents', H)
        f.add(f'selfmix_{ident(u)}', '', f'mixable<{u}, {u}>() && is<decltype(std::declval<{u}>() + std::declval<{u}>())>({",".join(map(str, e))}) && is<decltype(std::declval<{u}>() - std::declval<{u}>())>({",".join(map(str, e))}) && is<std::remove_cvref_t<decltype(-std::declval<{u}>())>>({",".join(map(str, e))}) && is<std::remove_cvref_t<decltype(2.0 * std::declval<{u}>())>>({",".join(map(str, e))}) && is<std::remove_cvref_t<decltype(std::declval<{u}>() * 2.0)>>({",".join(map(str, e))}) && is<std::remove_cvref_t<decltype(utls::abs(std::declval<{u}>()))>>({",".join(map(str, e))})',
              None, f'sums, differences, negation, scaling and abs of {u} keep the unit', H)
    # equal exponents in a different order are interchangeable
    f.add('reordered_converts', '', 'std::is_convertible_v<decltype(std::declval<si::length>() * std::declval<si::weight>()), decltype(std::declval<si::weight>() * std::declval<si::length>())>', None, 'unit spelled in another order converts', H)
    f.add('mps_assignable', '', 'std::is_convertible_v<mps_again, si::speed>', None, 'acceleration * time is usable as speed', H)
    # arithmetic on magnitudes
    two = [V, V]
    for u in ('si::length', 'si::speed', 'si::force', 'si::unitless'):
        n = ident(u)
        for nm, op in (('add', '+'), ('sub', '-')):
            f.add(f'{n}_{nm}', 'double a, double b', f'{u} const x{{a}}; {u} const y{{b}}; auto const r = x {op} y; return bits(r.val_, a {op} b) && bits(x.val_, a) && bits(y.val_, b);', two, f'{u} {op} acts on magnitudes and leaves operands alone', H)
            f.add(f'{n}_{nm}_assign', 'double a, double b', f'{u} x{{a}}; {u} const y{{b}}; auto& r = (x {op}= y); return bits(x.val_, a {op} b) && &r == &x && bits(y.val_, b);', two, f'{u} {op}=', H)
        f.add(f'{n}_add_lvalues', 'double a, double b', f'{u} x{{a}}; {u} y{{b}}; auto const r = x + y; auto const q = x - y; return bits(r.val_, a + b) && bits(q.val_, a - b) && bits(x.val_, a) && bits(y.val_, b);', two, f'{u} sums do not modify named operands', H)
        f.add(f'{n}_mul', 'double a, double b', f'auto const r = {u}{{a}} * si::time{{b}}; return bits(r.val_, a * b);', two, f'{u} * time multiplies magnitudes', H)
        f.add(f'{n}_div', 'double a, double b', f'auto const r = {u}{{a}} / si::time{{b}}; return bits(r.val_, a / b);', [V, V[1:]], f'{u} / time divides magnitudes', H)
        f.add(f'{n}_scale', 'double a, double b', f'{u} x{{a}}; auto const r = b * x; auto const q = x * b; bool const kept = bits(x.val_, a); x *= b; return bits(r.val_, a * b) && bits(q.val_, a * b) && kept && bits(x.val_, a * b);', two, f'scaling {u}', H)
        f.add(f'{n}_neg', 'double a', f'bits((-{u}{{a}}).val_, -a)', [V], f'-{u}', H)
        f.add(f'{n}_abs', 'double a', f'bits(utls::abs({u}{{a}}).val_, std::abs(a))', [V], f'abs({u})', H)
        for nm, op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            f.add(f'{n}_{nm}', 'double a, double b', f'({u}{{a}} {op} {u}{{b}}) == SPEC(a {op} b)', two, f'{u} {op} {u} orders by magnitude', H)
        f.add(f'{n}_eq', 'double a, double b', f'({u}{{a}} == {u}{{b}}) == SPEC(std::abs(a - b) < 0.01) && ({u}{{a}} != {u}{{b}}) == SPEC(!(std::abs(a - b) < 0.01))', [V + ['0.0099', '1.0101', '1.009'], V + ['0.0101', '1.0']], f'{u} equality is agreement to one hundredth and != is its negation', H)
        f.add(f'{n}_equal_scalar', 'double a, double b', f'utls::equal({u}{{a}}, b) == SPEC(std::abs(a - b) < 0.01) && utls::equal(b, {u}{{a}}) == SPEC(std::abs(a - b) < 0.01)', two, f'equal({u}, magnitude)', H)
        f.add(f'{n}_valid', 'double a', f'si::valid({u}{{a}}) == !std::isnan(a)', [V], f'{u} is valid unless not-a-number', Un)
        f.add(f'{n}_invalid', '', f'!si::valid(si::INVALID<{u}>) && !si::valid({u}{{}}) && si::valid(si::ZERO<{u}>) && bits(si::ZERO<{u}>.val_, 0.0)', None, f'INVALID, default and ZERO {u}', Un)
        f.add(f'{n}_is_zero', 'double a', f'si::is_zero({u}{{a}}) == SPEC(std::abs(a) < 0.01)', [V + ['0.0099', '-0.0101', '-0.0099']], f'is_zero({u})', Un)
        f.add(f'{n}_pow2', 'double a', f'near(({u}{{a}}.template pow<2>()).val_, a * a) && near(utls::pow<2>({u}{{a}}).val_, a * a) && near(utls::pow<3>({u}{{a}}).val_, a * a * a)', [V], f'{u} squared and cubed', H)
        for k in (0, 1, 3, 4, 5):
            for c in ('1.5', '-2.0', '0.5'):
                f.add(f'{n}_pow{k}_{ident(c).replace(".", "d").replace("-", "m")}', '', f'near(({u}{{{c}}}.template pow<{k}>()).val_, {" * ".join([c] * k) or "1.0"})' + (f' && near(utls::pow<{k}>({u}{{{c}}}).val_, {" * ".join([c] * k)})' if k else ''), None, f'{u} to the power of {k}', H)
    f.add('converts_keeps_value', 'double a', 'auto x = si::length{a} * si::weight{1.0}; decltype(si::weight{1.0} * si::length{a}) const y = x; return bits(y.val_, a);', [V], 'converting between spellings keeps the magnitude', H)
    conv = [('from_m', 'a', 'si::length'), ('from_km', 'a * 1000.0', 'si::length'), ('from_s', 'a', 'si::time'), ('from_m_s', 'a', 'si::speed'), ('from_km_h', 'a / 3.6', 'si::speed'),
            ('from_kg', 'a', 'si::weight'), ('from_ton', 'a * 1000.0', 'si::weight'), ('from_m_s2', 'a', 'si::acceleration')]
    for fn, spec, t in conv:
        f.add(f'conv_{fn}', 'double a', f'auto const r = si::{fn}(a); return std::is_same_v<std::remove_cv_t<decltype(r)>, {t}> && near(r.val_, {spec});', [V], f'{fn} yields {t} with magnitude {spec}', Un)
    acc = [('as_s', 'si::time', 'a'), ('as_ton', 'si::weight', 'a / 1000.0'), ('as_km_h', 'si::speed', 'a * 3.6'), ('as_m', 'si::length', 'a'), ('as_precision', 'si::unitless', 'a')]
    for fn, t, spec in acc:
        f.add(f'conv_{fn}', 'double a', f'near(si::{fn}({t}{{a}}), {spec})', [V], f'{fn} reads {t} as {spec}', Un)
        others = [o for o in NAMED if o != t]
        f.add(f'only_{fn}', '', ' && '.join(f'!std::is_invocable_v<decltype(&si::{fn}), {o}>' for o in others + ['double']), None, f'{fn} accepts only {t}', Un)
    f.add('fp_equal', 'double a, double b', 'soro::equal(a, b) == SPEC(std::abs(a - b) < 0.01)', [V + ['0.0099', '1.0101'], V], 'approximate equality of plain doubles', 'include/soro/base/fp_precision.h')
    f.add('fp_zero', 'double a', 'soro::zero(a) == SPEC(std::abs(0.0 - a) < 0.01)', [V + ['0.0099', '-0.0101', '-0.0099', '0.011']], 'approximate zero of plain doubles', 'include/soro/base/fp_precision.h')
    f.add('fp_equal_f', 'float a, float b', 'soro::equal(a, b) == SPEC(std::abs(a - b) < 0.01f)', [['0.0f', '1.0f', '1.0099f', '1.011f', '-1.0f'], ['0.0f', '1.0f', '0.005f']], 'approximate equality of plain floats', 'include/soro/base/fp_precision.h')
    f.run()
    ctx.need(len(f.ws), 400, 'witnesses')
