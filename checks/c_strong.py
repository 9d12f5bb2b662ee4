"""Strong types and compile-time type lists."""
from common import *
from fold import Fold

I = ['INT64_MIN', '-7', '-1', '0', '1', '2', '60', 'INT64_MAX']
NZ = ['-7', '-1', '1', '2', '60']


def run(ctx):
    ctx.explain = ('operators of strong types over integers are compared with the arithmetic of the representation, mixing and converting is tested as a constraint that must not be satisfied, '
                   'and each type-list operation is compared with the list it must produce; the compiler must reduce each witness to true')
    H, L = 'include/soro/utls/strong_types/strong_type.h', 'include/soro/utls/strong_types/type_list.h'
    pre = f'''#include <cstdint>
#include <type_traits>
#include <utility>
#include "soro/utls/strong_types/strong_type.h"
#include "soro/utls/strong_types/type_list.h"
using namespace soro::utls;
#define SPEC(...) ([&]() -> bool {{ return (__VA_ARGS__); }}())
struct A {{}}; struct B {{}}; struct C {{}}; struct D {{}};
template <typename P> using SA = strong_type<P, A>;
template <typename P> using SB = strong_type<P, B>;
template <typename P> using SAB = strong_type<P, A, B>;
#define CAN(nm, op) template <typename X, typename Y> concept nm = requires(X x, Y y) {{ x op y; }};
CAN(c_add, +) CAN(c_sub, -) CAN(c_mul, *) CAN(c_div, /) CAN(c_pa, +=) CAN(c_ma, -=) CAN(c_ta, *=) CAN(c_da, /=) CAN(c_eq, ==) CAN(c_ne, !=) CAN(c_lt, <) CAN(c_le, <=) CAN(c_gt, >) CAN(c_ge, >=) CAN(c_ss, <=>)
template <typename X, typename Y> constexpr bool anyop = c_add<X, Y> || c_sub<X, Y> || c_mul<X, Y> || c_div<X, Y> || c_pa<X&, Y> || c_ma<X&, Y> || c_ta<X&, Y> || c_da<X&, Y> || c_eq<X, Y> || c_ne<X, Y> || c_lt<X, Y> || c_le<X, Y> || c_gt<X, Y> || c_ge<X, Y> || c_ss<X, Y>;
template <typename X, typename Y> constexpr bool conv = std::is_convertible_v<X, Y> || std::is_constructible_v<Y, X> || std::is_assignable_v<Y&, X>;
template <typename... T> using tl = type_list<T...>;
template <typename X, typename Y> constexpr bool same = std::is_same_v<X, Y>;
'''
    f = Fold(ctx, pre)
    for T in ('int64_t', 'int32_t', 'uint32_t', 'uint8_t', 'int16_t'):
        t = T[:-2]
        un = f'using S = SA<{T}>;'
        dom = I if T == 'int64_t' else ['0', '1', '2', '7', '60', '100']
        dz = NZ if T == 'int64_t' else ['1', '2', '7', '60']
        for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
            g = f'if (b == 0 || (std::is_signed_v<{T}> && b == static_cast<{T}>(-1))) return true;' if op == '/' else ''
            d = dz if op == '/' else dom
            f.add(f'{t}_{nm}', f'{T} a, {T} b', f'{un} {g} S x{{a}}; S y{{b}}; auto const r = x {op} y; return same<std::remove_cvref_t<decltype(r)>, S> && r.val_ == static_cast<{T}>(a {op} b) && x.val_ == a && y.val_ == b;',
                  [dom, d], f'{op} on strong {T} computes {op} and leaves both operands unchanged', H)
            f.add(f'{t}_{nm}_assign', f'{T} a, {T} b', f'{un} {g} S x{{a}}; S const y{{b}}; auto& r = (x {op}= y); return &r == &x && x.val_ == static_cast<{T}>(a {op} b) && y.val_ == b;',
                  [dom, d], f'{op}= on strong {T} updates the left operand only', H)
            f.add(f'{t}_{nm}_const', '', f'c_{nm}<SA<{T}> const&, SA<{T}> const&> && c_{nm}<SA<{T}>, SA<{T}>> && c_{nm}<SA<{T}>&, SA<{T}> const&>', None, f'{op} on strong {T} accepts constants and temporaries', H)
        for nm, op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            f.add(f'{t}_{nm}', f'{T} a, {T} b', f'{un} return (S{{a}} {op} S{{b}}) == (a {op} b);', [dom, dom], f'{op} on strong {T} orders like the representation', H)
        f.add(f'{t}_same_size', '', f'sizeof(SA<{T}>) == sizeof({T}) && std::is_trivially_copyable_v<SA<{T}>> && same<typename SA<{T}>::precision_t, {T}>', None, f'strong {T} is as small as its representation', H)
        f.add(f'{t}_no_mix', '', f'!anyop<SA<{T}>, SB<{T}>> && !anyop<SB<{T}>, SA<{T}>> && !anyop<SA<{T}>, SAB<{T}>> && !anyop<SAB<{T}>, SA<{T}>> && !conv<SA<{T}>, SB<{T}>> && !conv<SAB<{T}>, SA<{T}>>', None,
              f'strong {T} of different kinds do not mix', H)
        f.add(f'{t}_no_raw', '', f'!anyop<SA<{T}>, {T}> && !anyop<{T}, SA<{T}>> && !std::is_convertible_v<{T}, SA<{T}>> && !std::is_convertible_v<SA<{T}>, {T}> && !std::is_assignable_v<SA<{T}>&, {T}>', None,
              f'strong {T} does not mix with bare numbers', H)
    # floating point: compare representation bits of results computed the same way
    for T in ('double', 'float'):
        for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
            b = f'using S = SA<{T}>; using R = std::conditional_t<sizeof({T}) == 8, uint64_t, uint32_t>; S x{{a}}; S y{{b}}; auto r = x {op} y; {T} e = a {op} b; return __builtin_bit_cast(R, r.val_) == __builtin_bit_cast(R, e) && __builtin_bit_cast(R, x.val_) == __builtin_bit_cast(R, a) && __builtin_bit_cast(R, y.val_) == __builtin_bit_cast(R, b);'
            f.add(f'{T}_{nm}', f'{T} a, {T} b', b, [['-7.5', '1.0', '2.25'], ['-7.5', '1.0', '3.0']], f'{op} on strong {T}', H)
        for nm, op in (('eq', '=='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
            f.add(f'{T}_{nm}', f'{T} a, {T} b', f'using S = SA<{T}>; auto const r = [&] {{ return S{{a}} {op} S{{b}}; }}; if (a == b) return r() == (0 {op} 0); if (a < b) return r() == (0 {op} 1); if (a > b) return r() == (1 {op} 0); return !r();', [['-7.5', '1.0', '2.25'], ['-7.5', '1.0', '3.0']], f'{op} on strong {T}', H)
    # type lists
    import itertools
    al = ['A', 'B', 'C']
    lists = [c for n in range(0, 5) for c in itertools.product(al, repeat=n)]
    if not ctx.thorough:
        lists = [l for l in lists if len(l) <= 3] + [('A', 'B', 'A', 'C'), ('B', 'A', 'A', 'A'), ('A', 'A', 'B', 'A'), ('C', 'B', 'B', 'A')]
    # long lists with many repetitions: counted operations must not saturate
    lists += [tuple('AAAAAA'), tuple('ABAABAA'), tuple('BAAAAAB'), tuple('ABABABABA'), tuple('CAAACAAB')]
    n = 0
    for l in lists:
        nm = ''.join(l) or 'e'
        T = f'tl<{", ".join(l)}>'
        conj = []
        for x in al:
            conj.append(f'count_v<{x}, {T}> == {l.count(x)}')
            r = list(l)
            if x in r:
                r.remove(x)
            conj.append(f'same<remove_once_t<{x}, {T}>, tl<{", ".join(r)}>>')
            for k in range(0, 4 if len(l) < 5 else 8):
                r = list(l)
                for _ in range(k):
                    if x in r:
                        r.remove(x)
                conj.append(f'same<remove_times_t<{k}, {x}, {T}>, tl<{", ".join(r)}>>')
            conj.append(f'same<push_front_t<{x}, {T}>, tl<{", ".join([x] + list(l))}>>')
        conj.append(f'same<push_front_t<void, {T}>, {T}>')
        for k in range(0, 7):
            conj.append(f'same<concat_times_t<{k}, {T}>, tl<{", ".join(list(l) * k)}>>')
        for m in (('A',), ('B', 'C'), ()):
            conj.append(f'same<concat_t<{T}, tl<{", ".join(m)}>>, tl<{", ".join(l + m)}>>')
        n += len(conj)
        f.add(f'list_{nm}', '', ' && '.join(conj), None, f'operations on the type list <{", ".join(l)}>: count, remove, push, concatenate, repeat', L)
    f.run()
    ctx.need(len(f.ws), 80, 'witnesses')
    ctx.need(n, 500, 'type-list equations')
