"""Text helpers and checked parsing: equality, prefixes, splitting, hashing, numbers, error results."""
import itertools
from common import *
from fold import Fold

S, PI, PF, R, T = 'include/soro/utls/string.h', 'include/soro/utls/parse_int.h', 'include/soro/utls/parse_fp.h', 'include/soro/utls/result.h', 'include/soro/base/time.h'
CH = ["'a'", "'b'", "'.'", "char(-1)"]


def run(ctx):
    ctx.explain = ('text comparison, prefix test, splitting and hashing are compared with their definition for every content of the enumerated lengths; number parsing is compared with the contract of std::from_chars, which is left uninterpreted '
                   '(any error, any stop position, any value): a parsed number is returned iff the library accepted all of the input, otherwise the failure it reported; the compiler must reduce each comparison to true')
    chars = lambda t: ''.join(t.replace('%d', str(i)) for i in range(9))
    pre = f'''// plain comparisons in place of the library's, so that they can be evaluated
extern "C" void witness_capacity_exceeded();
#define W_FN __attribute__((always_inline)) constexpr inline
W_FN int w_memcmp(char const* a, char const* b, decltype(sizeof 0) n) {{ {chars('if (n == %d) return 0; if (a[%d] != b[%d]) return static_cast<unsigned char>(a[%d]) < static_cast<unsigned char>(b[%d]) ? -1 : 1; ')}witness_capacity_exceeded(); return 0; }}
W_FN int w_memcmp(void const* a, void const* b, decltype(sizeof 0) n) {{ return w_memcmp(static_cast<char const*>(a), static_cast<char const*>(b), n); }}
W_FN char const* w_memchr(char const* a, int c, decltype(sizeof 0) n) {{ {chars('if (n == %d) return nullptr; if (a[%d] == static_cast<char>(c)) return a + %d; ')}witness_capacity_exceeded(); return nullptr; }}
W_FN void* w_memchr(void const* a, int c, decltype(sizeof 0) n) {{ return (void*)w_memchr(static_cast<char const*>(a), c, n); }}
W_FN decltype(sizeof 0) w_strlen(char const* a) {{ decltype(sizeof 0) n = 0; while (a[n]) ++n; return n; }}
W_FN int w_strcmp(char const* a, char const* b) {{ while (*a && *a == *b) {{ ++a; ++b; }} return static_cast<int>(static_cast<unsigned char>(*a)) - static_cast<int>(static_cast<unsigned char>(*b)); }}
W_FN int w_strncmp(char const* a, char const* b, decltype(sizeof 0) n) {{ for (; n != 0; --n, ++a, ++b) {{ if (*a != *b) return static_cast<int>(static_cast<unsigned char>(*a)) - static_cast<int>(static_cast<unsigned char>(*b)); if (!*a) return 0; }} return 0; }}
#define __builtin_memcmp w_memcmp
#define __builtin_memchr w_memchr
#define __builtin_strlen w_strlen
#include "/opt/vp/soro/prelude.h"
#include "{VERIF}/harness/witness/fixed_vec.h"
#include <charconv>
#include <chrono>
#include <compare>
#include <expected>
#include <filesystem>
#include <limits>
#include <sstream>
#include <system_error>
#include "{VERIF}/harness/witness/fmt_fix.h"
#include "date/date.h"
#include "utl/logging.h"
#include "utl/verify.h"
#include "soro/base/soro_types.h"
// std::from_chars: any outcome
namespace std {{ struct w_fc {{ std::errc ec; std::ptrdiff_t len; long long val; double dval; char const* first; char const* last; int calls; bool text; char bytes[4]; }}; }}
static std::w_fc fc;
namespace std {{
template <typename T> inline from_chars_result w_from_chars(char const* a, char const* b, T& v) {{
  ++fc.calls; if (fc.text) fc.len = b - a; else {{ fc.first = a; fc.last = b; }}
  for (int i = 0; i < 4; ++i) if (a + i < b) fc.bytes[i] = a[i];
  if (fc.ec == std::errc{{}}) {{ if constexpr (std::is_floating_point_v<T>) v = static_cast<T>(fc.dval); else v = static_cast<T>(fc.val); }}
  return {{a + fc.len, fc.ec}};
}}
template <typename T> using w_vector = fv<T, 8>;
}}
namespace date {{ template <typename... A> inline std::string w_format(A const&...) {{ return {{}}; }} }}
namespace fmt {{ template <typename... A> inline std::string w_format(A const&...) {{ return {{}}; }} }}
#define strcmp w_strcmp
#define strncmp w_strncmp
#define strlen w_strlen
#define from_chars w_from_chars
#define vector w_vector
#define format w_format
#define message value
#include "soro/utls/string.h"
#include "soro/utls/parse_int.h"
#include "soro/utls/parse_fp.h"
#include "soro/utls/result.h"
#include "soro/base/time.h"
#undef vector
#undef format
#undef message
using namespace soro; using utls::equal; using sv = std::string_view;
static inline bool is(sv x, char const* b, std::size_t n) {{ return x.data() == b && x.size() == n; }}
'''
    f = Fold(ctx, pre, incs=[f'{VERIF}/harness/throw_shim', f'{VERIF}/harness/log_shim'], stubs=True, deep=True, prelude=False, gcc=False, peel=3, again=5, allow=r'_ZNSt3_V2\w+')
    cs = lambda nm, n: [f'char {nm}{i}' for i in range(n)]
    nz = lambda nm, n: ''.join(f'if ({nm}{i} == 0) return true; ' for i in range(n))
    arr = lambda nm, n: f'char const {nm}[] = {{{", ".join([f"{nm}{i}" for i in range(n)] + ["0"])}}}; '
    # -- equality
    N = 4 if ctx.thorough else 3
    for n, m in itertools.product(range(N + 1), repeat=2):
        par = ', '.join(cs('a', n) + cs('b', m))
        dom = [CH[:2]] * (n + m)
        want = 'false' if n != m else 'true'
        body = nz('a', n) + nz('b', m) + arr('a', n) + arr('b', m)
        forms = dict(cc='equal(a, b)', vv='equal(sv{a, %d}, sv{b, %d})' % (n, m), vc='equal(sv{a, %d}, b)' % n, cv='equal(a, sv{b, %d})' % m)
        if n <= 2 and m <= 2:
            forms |= dict(sc='equal(soro::string(a, %d), b)' % n, cs='equal(a, soro::string(b, %d))' % m)
        for k, e in forms.items():
            tree = lambda e: ''.join(f'if (a{i} != b{i}) return !{e}; ' for i in range(min(n, m))) + (f'return {e};' if n == m else f'return !{e};')
            b = tree(e)
            f.add(f'equal_{k}_{n}_{m}', par, body + b, dom, f'texts of {n} and {m} characters are equal iff all characters agree ({e})', S)
            # a view into a longer text
        for k, e in dict(vv='equal(sv{a, %d}, sv{b, %d})' % (n, m), vc='equal(sv{a, %d}, b)' % n, cv='equal(b, sv{a, %d})' % n).items():
            b2 = nz('a', n) + nz('b', m) + f'char const a[] = {{{", ".join([f"a{i}" for i in range(n)] + ["t", "0"])}}}; ' + arr('b', m) + 'if (t == 0) return true; '
            b = tree(e)
            f.add(f'equal_part_{k}_{n}_{m}', par + (', ' if par else '') + 'char t', b2 + b, dom + [CH[:2]], f'part of a text: {n} and {m} characters are equal iff all characters of the part agree ({e})', S)
        b = ''.join(f'if (a{i} != b{i}) return !utls::starts_with(a, b); ' for i in range(min(n, m))) + f'return {"!" if m > n else ""}utls::starts_with(a, b);'
        f.add(f'starts_{n}_{m}', par, body + b, dom, f'a text of {n} characters starts with one of {m} iff the first {m} characters agree', S)
    # -- splitting: letters are arbitrary characters other than those of the delimiter
    for delim, texts in ((',', ['', 'x', ',', 'x,y', 'xy,z', ',x', 'x,', ',,', 'x,,y', 'x,y,z', 'xy', 'x,y,', ',x,,']), ('::', ['x', '::', 'x::y', 'xy::z', '::x', 'x::', 'x::y::z', '::::', 'xy'])):
        for i, t in enumerate(texts):
            toks = t.split(delim) if t else []
            names, k, chars = [], 0, []
            for c in t:
                if c in delim:
                    chars.append(f"'{c}'")
                else:
                    chars.append(f'x{k}'); names.append(f'char x{k}'); k += 1
            pos, chk = 0, ''
            for j, tk in enumerate(toks):
                chk += f'if (!is(r[{j}], t + {pos}, {len(tk)})) return false; '
                pos += len(tk) + len(delim)
            f.add(f'split_{len(delim)}_{i}', ', '.join(names), ''.join(f"if (x{q} == '{delim[0]}') return true; " for q in range(k)) + f"char const t[] = {{{', '.join(chars + ['0'])}}}; auto const r = utls::split(sv{{t, {len(t)}}}, sv{{\"{delim}\", {len(delim)}}}); if (r.size() != {len(toks)}) return false; {chk}return true;",
                  [CH[:2]] * k, f'splitting a text like "{t}" at "{delim}" yields the {len(toks)} parts between the delimiters', S)
    # -- hashing (recursive: decided by the front end's constant evaluation)
    def fnv(t):
        h = 2166136261
        for c in t.encode('latin1') + b'\0':
            h = (h ^ c) * 16777619 % 2 ** 32
        return h
    for i, t in enumerate(['', 'a', 'b', 'ab', 'ba', 'signal', '\xe4\xff', 'spurwechsel-lang', 'x' * 40]):
        q = ''.join(c if c.isascii() and (c.isalnum() or c == '-') else f'\\{ord(c):03o}' for c in t)
        f.add(f'hash_{i}', '', f'constexpr uint32_t h = utls::str_hash("{q}"), g = utls::str_hash("{q}", {len(t)}); return h == {fnv(t)}u && g == h;', None, f'hash of a text of {len(t)} characters is FNV-1a over the text and its terminator', S)
    # -- integers
    E = ['std::errc{}', 'std::errc::invalid_argument', 'std::errc::result_out_of_range']
    V = ['0', '1', '-1', '127', '255', '65535', '2147483647']
    L = ['0', '1', '2', '3']
    setup = 'char const t[] = "123"; fc = {}; fc.ec = ec; fc.len = len; fc.val = v; '
    for ty in ('int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int', 'unsigned', 'int64_t', 'uint64_t'):
        f.add(f'try_int_{ty}', 'std::errc ec, std::ptrdiff_t len, long long v', setup + f'auto const r = utls::try_parse_int<{ty}>(sv{{t, 3}}); if (fc.first != t || fc.last != t + 3) return false; '
              f'if (ec != std::errc{{}}) return !r.has_value() && r.error().value() == static_cast<int>(ec); if (len != 3) return !r.has_value() && r.error().value() == static_cast<int>(std::errc::invalid_argument); '
              f'return r.has_value() && *r == static_cast<{ty}>(v);', [E, L, V], f'parsing {ty}: the value iff all of the input is a number, otherwise the failure', PI)
        for k, e in dict(range='t, t + 3', cstr='static_cast<char const*>(t)', view='sv{t, 3}', str='std::string{t, 3}').items():
            chk = '' if k == 'str' else 'if (fc.first != t || fc.last != t + 3) return false; '
            f.add(f'int_{ty}_{k}', 'long long v', setup.replace('= ec', '= std::errc{}').replace('= len', '= 3') + f'auto const r = utls::parse_int<{ty}>({e}); {chk}return fc.calls == 1 && fc.last - fc.first == 3 && r == static_cast<{ty}>(v);', [V],
                  f'parse_int<{ty}>({e}) reads all of the text', PI)
    f.add('try_int_empty', '', 'char const t[] = ""; fc = {}; fc.ec = std::errc::invalid_argument; auto const r = utls::try_parse_int<int>(sv{t, 0}); return !r.has_value() && fc.first == t && fc.last == t;', None, 'an empty text is no number', PI)
    f.add('str_time', 'std::errc ec, std::ptrdiff_t len, long long v', setup + 'auto const r = str_to_absolute_time(sv{t, 3}); if (ec == std::errc{} && len == 3) return r.has_value() && r->time_since_epoch().count() == static_cast<uint32_t>(v); '
          'if (r.has_value()) return false; return r.error().value() == static_cast<int>(ec != std::errc{} ? ec : std::errc::invalid_argument);', [E, L, V], 'a time is parsed iff all of the text is a number; the failure is passed on', T)
    # -- floating point
    for ty in ('float', 'double'):
        for k, e in dict(range='t, t + 3', cstr='static_cast<char const*>(t)', view='sv{t, 3}', size='t, std::size_t{3}', str='std::string{t, 3}').items():
            chk = '' if k == 'str' else 'if (fc.first != t || fc.last != t + 3) return false; '
            f.add(f'fp_{ty}_{k}', 'long long v', f'char const t[] = "1.5"; fc = {{}}; fc.len = 3; fc.dval = static_cast<double>(static_cast<int16_t>(v)); auto const r = utls::parse_fp<{ty}>({e}); {chk}return fc.calls == 1 && fc.last - fc.first == 3 && r == static_cast<{ty}>(fc.dval);',
                  [V], f'parse_fp<{ty}>({e}) reads all of the text', PF)
        for k, t in enumerate(('1,5', 'x.,', ',,x', 'xyz')):
            par = [f'char {c}' for c in t if c.isalpha()]
            src = ', '.join(c if c.isalpha() else f"'{c}'" for c in t)
            chk = ''.join(f"if (fc.bytes[{q}] != {c if c.isalpha() else chr(39) + ('.' if c == ',' else c) + chr(39)}) return false; " for q, c in enumerate(t))
            f.add(f'fp_comma_{ty}_{k}', ', '.join(par), ''.join(f"if ({c} == ',') return true; " for c in t if c.isalpha()) + f"char const t[] = {{{src}, 0}}; fc = {{}}; fc.text = true; fc.dval = 2.5; auto const r = utls::parse_fp<{ty}, utls::replace_comma::ON>(t, std::size_t{{3}}); {chk}return fc.calls == 1 && fc.len == 3 && r == {ty}(2.5);",
                  [CH[:2]] * len(par), f'decimal commas are read as points, everything else is left alone (like "{t}")', PF)
    # -- results
    f.add('unexpected_code', 'int c', 'if (c == 0) return true; std::error_code const e{c, std::generic_category()}; auto const u = utls::unexpected(e); auto const w = utls::unexpected(e, "x"); return u.error().value() == c && w.error().value() == c && &u.error().category() == &e.category() && &w.error().category() == &e.category();', [['1', '2', '-1']], 'a failure keeps its code and category', R)
    f.add('unexpected_errc', 'std::errc e', 'if (e == std::errc{}) return true; return utls::unexpected(e).error().value() == static_cast<int>(e) && utls::unexpected(e, "x").error().value() == static_cast<int>(e);', [E[1:]], 'a failure keeps its condition', R)
    f.add('propagate', 'int c', 'if (c == 0) return true; utls::result<int> const r = std::unexpected(std::error_code{c, std::generic_category()}); auto const p = utls::propagate(r); utls::result<double> const q = utls::propagate(r); return p.error() == r.error() && !q.has_value() && q.error() == r.error() && r.error().value() == c;', [['1', '2', '-1']], 'propagating a failure keeps it', R)
    f.run()
    ctx.need(len(f.ws), 100, 'witnesses')
