"""Calendar-time values: points, durations, units, literals, validity, interval membership."""
from common import *
from fold import Fold

D = ['INT64_MIN', '-86401', '-60', '-1', '0', '1', '2', '59', '60', '3600', '86400', '1700000000', 'INT64_MAX - 1', 'INT64_MAX']
S = ['-3600', '-7', '-1', '0', '1', '5', '60', '86400', '1000000007']
NZ = ['-3600', '-7', '-1', '1', '5', '60', '86400', '1000000007']
U = ['0', '1', '2', '59', '60', '24', '100', '3600', '86400']


def run(ctx):
    ctx.explain = ('every operation on time points and durations is compared, as a witness over the current source, with integer arithmetic on counts of '
                   'seconds; the compiler must reduce each witness to the constant true for all inputs')
    pre = ('#include <cstdint>\n#include <iostream>\n#include <sstream>\n#include "soro/utls/unixtime.h"\n'
           f'#include "{REPO}/src/utls/unixtime.cc"\n'
           'using soro::utls::unixtime; using soro::utls::duration; using namespace soro::utls::literals;\n'
           'template <typename A, typename B> constexpr bool is() { return std::is_same_v<std::remove_cvref_t<A>, B>; }\n'
           '#define SEC(e) static_cast<time_t>(e)\n')
    f = Fold(ctx, pre)
    H, C = 'include/soro/utls/unixtime.h', 'src/utls/unixtime.cc'
    two, twos = [D, D], [S, S]
    for t in ('unixtime', 'duration'):
        f.add(f'{t}_roundtrip', 'int64_t a', f'SEC({t}(a)) == a', [D], f'a {t} holds exactly the seconds it was built from', H)
        f.add(f'{t}_size_t', 'int64_t a', f'static_cast<size_t>({t}(a)) == static_cast<size_t>(a)', [D], f'{t} converts to size_t like its count', H)
        for op in ('+', '-', '*'):
            f.add(f'{t}_{dict(zip("+-*", ("add", "sub", "mul")))[op]}', 'int64_t a, int64_t b',
                  f'auto const x = {t}(a); auto const y = {t}(b); auto const r = x {op} y; return is<decltype(r), {t}>() && SEC(r) == a {op} b && SEC(x) == a && SEC(y) == b;',
                  twos, f'{t} {op} {t} is {op} on the counts and leaves the operands alone', H)
        f.add(f'{t}_div', 'int64_t a, int64_t b', f'if (b == 0 || b == -1) return true; auto const r = {t}(a) / {t}(b); return is<decltype(r), {t}>() && SEC(r) == a / b;', [S, NZ], f'{t} / {t}', H)
        f.add(f'{t}_mod', 'int64_t a, int64_t b', f'if (b == 0 || b == -1) return true; auto const r = {t}(a) % {t}(b); return is<decltype(r), {t}>() && SEC(r) == a % b;', [S, NZ], f'{t} % {t}', H)
        for nm, op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            f.add(f'{t}_{nm}', 'int64_t a, int64_t b', f'({t}(a) {op} {t}(b)) == (a {op} b)', two, f'{t} {op} orders like the counts', H)
        f.add(f'{t}_spaceship', 'int64_t a, int64_t b', f'({t}(a) <=> {t}(b)) == (a <=> b)', two, f'{t} <=> orders like the counts', H)
        f.add(f'{t}_plus_assign', 'int64_t a, int64_t b', f'auto x = {t}(a); auto const y = {t}(b); auto& r = (x += y); return SEC(x) == a + b && SEC(y) == b && &r == &x;', twos, f'{t} += adds in place', H)
        f.add(f'{t}_limits', '', f'std::numeric_limits<{t}>::max() == {t}(INT64_MAX) && std::numeric_limits<{t}>::min() == {t}(INT64_MIN) && std::numeric_limits<{t}>::is_integer && std::numeric_limits<{t}>::is_signed', None, f'numeric limits of {t}', H)
        f.add(f'{t}_default_invalid', '', f'!soro::utls::valid({t}{{}})', None, f'a default constructed {t} is invalid', H)
        f.add(f'{t}_valid', 'int64_t a', f'soro::utls::valid({t}(a)) == (a != INT64_MAX)', [D], f'every {t} other than the sentinel is valid', H)
        f.add(f'{t}_no_implicit', '', f'!std::is_convertible_v<int64_t, {t}> && !std::is_convertible_v<{t}, int64_t> && !std::is_convertible_v<unixtime, duration> && !std::is_convertible_v<duration, unixtime>', None, f'{t} does not convert implicitly from or to counts or the other kind', H)
        f.add(f'{t}_copy', 'int64_t a', f'auto const x = {t}(a); {t} y = x; {t} z; z = y; return SEC(y) == a && SEC(z) == a && z == x;', [D], f'{t} copies keep the value', H)
    f.add('duration_minus_assign', 'int64_t a, int64_t b', 'auto x = duration(a); auto const y = duration(b); auto& r = (x -= y); return SEC(x) == a - b && SEC(y) == b && &r == &x;', twos, 'duration -= subtracts in place', H)
    f.add('point_plus_duration', 'int64_t a, int64_t b', 'auto const r = unixtime(a) + duration(b); return is<decltype(r), unixtime>() && SEC(r) == a + b;', twos, 'point + duration is a later point', H)
    f.add('point_minus_duration', 'int64_t a, int64_t b', 'auto const r = unixtime(a) - duration(b); return is<decltype(r), unixtime>() && SEC(r) == a - b;', twos, 'point - duration is an earlier point', H)
    f.add('point_duration_inverse', 'int64_t a, int64_t b', '(unixtime(a) + duration(b)) - duration(b) == unixtime(a) && (unixtime(a) - duration(b)) + duration(b) == unixtime(a)', twos, 'adding and removing a duration returns to the same point', H)
    f.add('as_duration', 'int64_t a', 'auto const r = unixtime(a).as_duration(); return is<decltype(r), duration>() && SEC(r) == a;', [D], 'a point read as duration since the epoch', H)
    f.add('point_float', 'int64_t a', 'static_cast<float>(unixtime(a)) == static_cast<float>(a)', [D], 'point to float', H)
    f.add('point_eq_count', 'int64_t a, int64_t b', '(unixtime(a) == b) == (a == b) && (unixtime(a) != b) == (a != b)', two, 'a point compares with a raw count', H)
    f.add('point_lt_count', 'int64_t a, int64_t b', '(unixtime(a) < b) == (a < b) && (unixtime(a) >= b) == (a >= b) && (unixtime(a) <= b) == (a <= b) && (unixtime(a) > b) == (a > b)', two, 'a point orders against a raw count', H)
    f.add('in_interval', 'int64_t t, int64_t s, int64_t e', 'unixtime(t).in_interval(unixtime(s), unixtime(e)) == (s <= t && t <= e)', [D, D, D], 'interval membership is inclusive at both ends', C)
    for unit, k in (('seconds', 1), ('minutes', 60), ('hours', 3600), ('days', 86400)):
        f.add(f'from_{unit}', 'int64_t a', f'auto const r = soro::utls::from_{unit}(a); return is<decltype(r), duration>() && SEC(r) == a * {k};', [S], f'{unit} to duration multiplies by {k}', H)
    for lit, k in (('_s', 1), ('_m', 60), ('_h', 3600)):
        f.add(f'literal{lit}', 'uint64_t a', f'auto const r = soro::utls::literals::operator""{lit}(a); return is<decltype(r), duration>() && SEC(r) == static_cast<time_t>(a * {k});', [U], f'literal {lit} multiplies by {k}', H)
    f.add('constants', '', 'SEC(soro::utls::EPOCH) == 0 && !soro::utls::valid(soro::utls::INVALID_TIME) && !soro::utls::valid(soro::utls::INVALID_DURATION) && SEC(soro::utls::ZERO_DURATION) == 0 '
          '&& soro::utls::END_OF_TIME == std::numeric_limits<unixtime>::max() && soro::utls::duration::INVALID_VALUE == std::numeric_limits<time_t>::max()', None, 'named constants', H)
    f.add('named_invalid', '', '!soro::utls::valid(duration{duration::INVALID_VALUE}) && soro::utls::valid(soro::utls::EPOCH) && soro::utls::valid(soro::utls::ZERO_DURATION)', None, 'sentinels are the only invalid values', H)
    f.add('end_of_time_is_last', 'int64_t a', 'unixtime(a) <= soro::utls::END_OF_TIME', [D], 'no point is later than the end of time', H)
    f.run()
    # static members defined in the .cc: their (constant) initialisers
    ctx.need(len(f.ws), 50, 'witnesses')

    # discretisation defaults + speeds of the simulation
    pre = ('#include <cstdint>\n#include <iostream>\n#include <sstream>\n#include "soro/simulation/granularity.h"\n'
           'using soro::simulation::kilometer_per_hour; using soro::utls::unixtime; using soro::utls::duration;\n'
           'template <typename A, typename B> constexpr bool is() { return std::is_same_v<std::remove_cvref_t<A>, B>; }\n')
    g = Fold(ctx, pre)
    K = 'include/soro/simulation/kilometer_per_hour.h'
    V = ['0', '1', '2', '80', '120', '300', '65534', '65535']
    for nm, op in (('add', '+'), ('sub', '-')):
        g.add(f'kmh_{nm}', 'uint16_t a, uint16_t b', f'auto const x = kilometer_per_hour(a); auto const y = kilometer_per_hour(b); auto const r = x {op} y; return is<decltype(r), kilometer_per_hour>() && static_cast<size_t>(r) == static_cast<uint16_t>(a {op} b) && static_cast<size_t>(x) == a && static_cast<size_t>(y) == b;', [V, V], f'speed {op} speed', K)
    for nm, op in (('div', '/'), ('mod', '%')):
        g.add(f'kmh_{nm}', 'uint16_t a, uint16_t b', f'if (b == 0) return true; auto const r = kilometer_per_hour(a) {op} kilometer_per_hour(b); return static_cast<size_t>(r) == static_cast<size_t>(a {op} b);', [V, V[1:]], f'speed {op} speed', K)
    for nm, op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
        g.add(f'kmh_{nm}', 'uint16_t a, uint16_t b', f'(kilometer_per_hour(a) {op} kilometer_per_hour(b)) == (a {op} b)', [V, V], f'speeds compare with {op} like their counts', K)
    g.add('kmh_plus_assign', 'uint16_t a, uint16_t b', 'auto x = kilometer_per_hour(a); auto& r = (x += kilometer_per_hour(b)); return &r == &x && static_cast<size_t>(x) == static_cast<uint16_t>(a + b);', [V, V], 'speed +=', K)
    g.add('kmh_increment', 'uint16_t a', 'auto x = kilometer_per_hour(a); auto& r = ++x; return &r == &x && static_cast<size_t>(x) == static_cast<uint16_t>(a + 1);', [V], '++speed', K)
    g.add('kmh_float', 'uint16_t a', 'static_cast<float>(kilometer_per_hour(a)) == static_cast<float>(a)', [V], 'speed to float', K)
    g.add('kmh_from_wide', 'int32_t a', 'if (a < 0 || a > 65535) return true; return static_cast<size_t>(kilometer_per_hour(a)) == static_cast<size_t>(a);', [['0', '1', '255', '256', '65535']], 'speed from a wider integer keeps representable values', K)
    g.add('kmh_no_implicit', '', '!std::is_convertible_v<uint16_t, kilometer_per_hour> && !std::is_convertible_v<kilometer_per_hour, size_t>', None, 'speeds do not mix with counts implicitly', K)
    g.add('kmh_default', '', 'kilometer_per_hour{} == kilometer_per_hour(uint16_t{65535}) && soro::simulation::ZERO_KMH == kilometer_per_hour(uint16_t{0})', None, 'speed sentinel and zero', K)
    g.add('granularity_positive', '', 'static_cast<size_t>(soro::simulation::default_granularity::get<kilometer_per_hour>()) > 0 && static_cast<time_t>(soro::simulation::default_granularity::get<unixtime>()) > 0 && static_cast<time_t>(soro::simulation::default_granularity::get<duration>()) > 0', None, 'every discretisation step is positive', 'include/soro/simulation/granularity.h')
    g.add('granularity_same', '', 'static_cast<time_t>(soro::simulation::default_granularity::get<unixtime>()) == static_cast<time_t>(soro::simulation::default_granularity::get<duration>())', None, 'points and durations are discretised with the same step', 'include/soro/simulation/granularity.h')
    g.run()
