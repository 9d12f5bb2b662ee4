"""Checked narrowing: for every pair of built-in integer types and every input."""
from common import *
from fold import Fold

TYPES = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t']


def dom(t):
    if t == 'bool':
        return ['false', 'true']
    T = t.replace('_t', '').upper()
    d = ['0', '1', '2', '100', '127', '128', '255', '256', '32767', '32768', '65535', '65536', '2147483647', '2147483648u', '4294967295u',
         '4294967296', '9223372036854775807', '9223372036854775808u', '18446744073709551615u', '-1', '-2', '-128', '-129', '-32768', '-32769',
         '-2147483648LL', '-2147483649LL', 'INT64_MIN']
    return [f'static_cast<{t}>({x})' for x in d]


def run(ctx):
    ctx.explain = ('for each ordered pair (Out, In) of the eight fixed-width integer types (plus char, bool and long long) the conversion must, for every '
                   'input, trip its assertion exactly when the value is not representable in Out and otherwise return the identical value; '
                   'with assertions compiled out a representable value must still come back unchanged')
    pre = '#include <cstdint>\n#include <limits>\n#include <utility>\n#include "soro/utls/narrow.h"\n'
    f = Fold(ctx, pre, incs=[f'{VERIF}/harness/assert_shim'])
    n = 0
    pairs = [(o, i) for o in TYPES for i in TYPES] + [('char', 'int64_t'), ('char', 'uint8_t'), ('int16_t', 'char'), ('uint32_t', 'char'),
             ('unsigned long long', 'int64_t'), ('long long', 'uint64_t'), ('int32_t', 'unsigned long long'), ('uint16_t', 'bool')]
    def spec(o, i):
        if 'char' in (o, i) or 'bool' in (o, i):   # std::in_range excludes character types
            oo = 'signed char' if o == 'char' else o
            ii = {'char': 'signed char', 'bool': 'unsigned char'}.get(i, i)
            return f'std::in_range<{oo}>(static_cast<{ii}>(v))', f'std::cmp_equal(static_cast<{oo}>(r), static_cast<{ii}>(v))'
        return f'std::in_range<{o}>(v)', 'std::cmp_equal(r, v)'

    for o, i in pairs:
        nm = f'narrow_{o}_from_{i}'.replace(' ', '_')
        fits, same = spec(o, i)
        f.add(nm, f'{i} v',
              f'soro::utls::g_witness_failed = false; auto const r = soro::utls::narrow<{o}>(static_cast<{i}>(v)); '
              f'bool const failed = soro::utls::g_witness_failed; bool const fits = {fits}; '
              f'return std::is_same_v<std::remove_cv_t<decltype(r)>, {o}> && failed == !fits && (!fits || {same});',
              dom=[dom(i)], what=f'narrow<{o}>({i}) is the identity on representable values and is rejected on all others', loc='include/soro/utls/narrow.h')
        n += 1
    f.run()
    # release build: real assertion header, NDEBUG
    g = Fold(ctx, pre)
    for o, i in pairs:
        nm = f'release_narrow_{o}_from_{i}'.replace(' ', '_')
        fits, same = spec(o, i)
        g.add(nm, f'{i} v', f'auto const r = soro::utls::narrow<{o}>(static_cast<{i}>(v)); bool const fits = {fits}; return !fits || {same};',
              dom=[dom(i)], what=f'release build: narrow<{o}>({i}) returns representable values unchanged', loc='include/soro/utls/narrow.h')
    g.run()
    ctx.need(n, 60, 'type pairs')
    # the rule has teeth: a planted wrong specification must be refuted
    probe = Ctx(ctx.prop, ctx.tier)
    h = Fold(probe, pre, incs=[f'{VERIF}/harness/assert_shim'], gcc=False)
    h.add('probe', 'int16_t v', 'soro::utls::g_witness_failed = false; (void)soro::utls::narrow<int8_t>(int16_t(v)); return !soro::utls::g_witness_failed;',
          dom=[dom('int16_t')])
    h.run()
    if not probe.viol:
        raise AnalysisError('positive self-example was not refuted')
