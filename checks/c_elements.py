"""Elements: what they are made of, who their neighbours are, where they lie and how their nodes are connected."""
import itertools
from common import *
from fold import Fold

E, G, N, S, L, LEN = 'src/infrastructure/graph/element.cc', 'src/infrastructure/graph/graph_creation.cc', 'src/infrastructure/graph/node.cc', 'include/soro/infrastructure/graph/section.h', 'src/infrastructure/line.cc', 'include/soro/infrastructure/path/length.h'

HEAD = f'''#define FV_COPY_EACH
#define EAGER_CAP 6
#include "{VERIF}/harness/witness/fixed_vec.h"
#include "{VERIF}/harness/witness/small_map.h"
#include <cassert>
#include <chrono>
#include <compare>
#include <coroutine>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <unordered_map>
#include <variant>
#include "{VERIF}/harness/witness/fmt_fix.h"
#define WITNESS_BITS "{VERIF}/harness/witness/bits.h"
namespace std {{ template <typename T, typename A = void> using witness_vec = fv<T, 6>; template <typename K, typename V, typename C = void> using witness_map = small_map<K, V>; }}
#include "utl/verify.h"
#include "utl/concat.h"
#include "cista/reflection/comparable.h"
#include "date/date.h"
#define vector witness_vec
#define map witness_map
#include "soro/base/soro_types.h"
#undef map
#undef vector
#include "soro/utls/string.h"
namespace soro::infra {{ struct border; }}
template <> struct fv<soro::infra::border, 6> {{}};  // incomplete where stations are declared, and not looked at
namespace soro::infra {{ struct intermediate_station_route; struct section; struct station_route; }}
template <> struct fv<soro::infra::intermediate_station_route, 6> {{}};
namespace utl {{ template <typename C, typename F> auto w_to_vec(C&& c, F&& f) {{ std::witness_vec<std::decay_t<decltype(f(*std::begin(c)))>> v; for (auto&& x : c) v.push_back(f(x)); return v; }} }}
#define to_vec w_to_vec
#define vector witness_vec
#define map witness_map
#include "soro/infrastructure/graph/graph.h"
#include "soro/infrastructure/infrastructure.h"
#include "{REPO}/src/infrastructure/graph/element.cc"
#include "{REPO}/src/infrastructure/graph/node.cc"
'''
# names of rail plan nodes: only compared, by hash or by content
NAMES = f'''namespace soro::utls {{ struct wname {{ char const* s; std::size_t n; hash h;
  template <std::size_t K> consteval wname(char const (&c)[K]) : s(c), n(K - 1), h(str_hash(c)) {{}}
  constexpr std::size_t size() const {{ return n; }} constexpr std::size_t length() const {{ return n; }} constexpr bool empty() const {{ return n == 0; }} constexpr char const* data() const {{ return s; }} constexpr char const* c_str() const {{ return s; }}
  bool operator==(char const* c) const {{ return __builtin_strcmp(s, c) == 0; }} bool operator==(wname const& o) const {{ return h == o.h; }} }};
constexpr hash str_hash(wname const& x) {{ return x.h; }} }}
namespace std {{ using witness_name = soro::utls::wname; }}
'''
CREATE = f'''#include "soro/infrastructure/station/station.h"
#include "soro/infrastructure/parsers/iss/construction_materials.h"
#define string witness_name
#include "{REPO}/src/infrastructure/graph/graph_creation.cc"
#undef string
'''
LEN_INC = f'''#include "soro/infrastructure/infrastructure.h"
#include "soro/infrastructure/path/length.h"
#include "{REPO}/src/infrastructure/line.cc"
'''
TAIL = f'''#undef vector
#undef map
#undef to_vec
using namespace soro; using namespace soro::infra; using u32 = uint32_t; using u64 = uint64_t; using lid = line::id;
inline kilometrage KM(u64 b) {{ return kilometrage{{std::bit_cast<double>(b)}}; }}
inline bool at(kilometrage const& a, u64 b) {{ return std::bit_cast<u64>(a) == b; }}
template <int N, int M> struct world {{
  element e[N]; node n[M]; int c = 0, k = 0; graph g; station st; construction_materials mats;
  world() {{}}
  template <typename X> X& add(type t, bool r) {{ X x; x.type_ = t; x.id_ = static_cast<element_id>(c); x.rising_ = r; e[c].e_ = std::move(x); X& y = e[c].template as<X>(); nds<X, 0>(y); ++c; return y; }}
  template <typename X, std::size_t I> void nds(X& y) {{ if constexpr (I < std::tuple_size_v<std::remove_cvref_t<decltype(X::nodes_)>>) {{ n[k].id_ = static_cast<u32>(k); n[k].element_ = &e[c]; y.nodes_[I] = &n[k]; ++k; nds<X, I + 1>(y); }} }}
}};
template <typename X, typename W> void conn1(X& x, W& w) {{
  if constexpr (requires {{ connect_nodes(x, static_cast<element_ptr>(&w.e[0])); }}) {{ connect_nodes(x, static_cast<element_ptr>(&w.e[0])); }}
  else if constexpr (requires {{ connect_nodes(w.e[0]); }}) {{ connect_nodes(w.e[0]); }} else {{ w.g.elements_.push_back(&w.e[0]); connect_nodes(w.g); }}
}}
template <int N, int M> union box {{ world<N, M> w; box() : w() {{}} ~box() {{}} }};
'''
TAIL = TAIL.replace('graph g; station st; construction_materials mats;', 'graph g;')

KIND = {'end_element': (['BUMPER', 'TRACK_END'], 2, 2), 'simple_element': (['KM_JUMP', 'BORDER', 'LINE_SWITCH'], 2, 4), 'simple_switch': (['SIMPLE_SWITCH'], 2, 6), 'cross': (['CROSS'], 4, 8),
        'track_element': (['MAIN_SIGNAL', 'PROTECTION_SIGNAL', 'APPROACH_SIGNAL', 'RUNTIME_CHECKPOINT', 'EOTD', 'SPEED_LIMIT', 'POINT_SPEED', 'BRAKE_PATH', 'LZB_START', 'LZB_END', 'LZB_BLOCK_SIGN', 'ETCS_START', 'ETCS_END', 'ETCS_BLOCK_SIGN', 'FORCED_HALT', 'META', 'HALT'], 1, 2),
        'undirected_track_element': (['TUNNEL', 'ENTRY', 'TRACK_NAME', 'RUNTIME_CHECKPOINT_UNDIRECTED', 'LEVEL_CROSSING', 'SLOPE'], 2, 4)}
# which kilometrage belongs to which neighbour slot, and the names it is set under
KM = {'end_element': (['km_'], [0, 0]), 'track_element': (['km_'], [0, 0]), 'undirected_track_element': (['km_'], [0] * 4),
      'simple_element': (['start_km_', 'end_km_'], [0, 0, 1, 1]), 'simple_switch': (['start_km_', 'stem_km_', 'branch_km_'], [0, 0, 1, 1, 2, 2]),
      'cross': (['start_left_km_', 'end_left_km_', 'start_right_km_', 'end_right_km_'], [0, 0, 1, 1, 2, 2, 3, 3])}
NAMED = {'simple_element': {'KmSprungAnfang': [0], 'Streckenwechsel0': [0], 'KmSprungEnde': [1], 'Streckenwechsel1': [1], 'Betriebsstellengrenze': [0, 1]},
         'simple_switch': {'Weichenanfang': [0], 'Weichenstamm': [1], 'WeichenabzweigLinks': [2], 'WeichenabzweigRechts': [2]},
         'cross': {p + s: [i] for p in ('Kreuzung', 'Kreuzungsweiche') for i, s in enumerate(['AnfangLinks', 'EndeLinks', 'AnfangRechts', 'EndeRechts'])},
         'end_element': {'Prellbock': [0]}, 'track_element': {'HauptsignalS': [0]}, 'undirected_track_element': {'Tunnel': [0]}}
B = lambda x: str(bool(x)).lower()




def own(kind, t, extra=''):
    return f'w.add<{kind}>(type::{t}, r); {kind}& x = w.e[0].as<{kind}>(); ' + extra


def box(n, m):
    return f'box<{n}, {m}> bx; auto& w = bx.w; auto& e = w.e; auto& n = w.n; '


def run(ctx):
    ctx.explain = ('elements of every type are made, named, placed, connected and traversed with the repository\'s own code on small graphs; the outcome is compared with the definition of each kind of element, '
                   'and the compiler must reduce each comparison to true')
    th = ctx.thorough
    incs = [f'{VERIF}/harness/{x}_shim' for x in ('infra', 'eager', 'throw', 'log')]
    mk = lambda *parts, **kw: Fold(ctx, HEAD + ''.join(parts) + TAIL, incs=incs, stubs=True, gcc=False, deep='only', **{'peel': 3, **kw})
    n = 0
    f = mk()
    types = [(k, t) for k, (ts, _, _) in KIND.items() for t in ts]
    order = [t for k in ('end_element', 'simple_element', 'simple_switch', 'cross', 'track_element', 'undirected_track_element') for t in KIND[k][0]]
    # -- what an element is
    for k, t in types:
        b = box(1, 4) + own(k, t) + 'element const& q = e[0]; '
        if k == 'cross':
            b += 'x.start_left_end_right_arc_ = a; x.start_right_end_left_arc_ = b; '
        sw = 'true' if k == 'simple_switch' else '(a || b)' if k == 'cross' else 'false'
        b += f'if (q.type() != type::{t} || q.id() != 0 || q.rising() != r || q.falling() == r) return false; ' + f'for (int i = 0; i < {len(order)}; ++i) if (q.is(static_cast<type>(i)) != (i == {order.index(t)})) return false; '
        b += f'if (n[0].type() != type::{t} || !n[0].is(type::{t}) || n[0].is(type::{order[(order.index(t) + 1) % len(order)]})) return false; '
        for p, v in (('is_end_element', k == 'end_element'), ('is_simple_element', k == 'simple_element'), ('is_track_element', 'track' in k), ('is_section_element', 'track' not in k), ('is_directed_track_element', k == 'track_element'),
                     ('is_undirected_track_element', k == 'undirected_track_element'), ('joins_tracks', k in ('cross', 'simple_switch'))):
            b += f'if (q.{p}() != {B(v)}) return false; '
        b += f'if (q.nodes().size() != {KIND[k][1]} || q.neighbours().size() != {KIND[k][2]} || q.nodes()[0] != &n[0] || q.nodes()[{KIND[k][1] - 1}] != &n[{KIND[k][1] - 1}]) return false; '
        f.add(f'what_{t}', 'bool r, bool a, bool b', b + f'return q.is_cross_switch() == ({sw if k == "cross" else "false"}) && q.is_switch() == ({sw});', [['false', 'true']] * 3, f'{t} elements: type, id, direction and classification', E, exhaustive=True)
    # -- where it lies
    for k, (ts, _, slots) in KIND.items():
        fields, of = KM[k]
        for t in ts if len(ts) < 4 else ts[:1]:
            for s in range(slots):
                b = box(2, 6) + own(k, t) + f'w.add<track_element>(type::HALT, false); auto& o = w.e[1].as<track_element>(); o.km_ = KM(v); o.neighbours_[0] = &e[0]; '
                b += ''.join(f'x.{fl} = KM(u{i}); ' for i, fl in enumerate(fields)) + f'x.neighbours_[{s}] = &e[1]; '
                u = f'u{of[s]}'
                f.add(f'km_{t}_{s}', ', '.join(['bool r', 'u64 v'] + [f'u64 u{i}' for i in range(4)]), b + f'return at(e[0].get_km(&e[1]), {u}) && at(e[1].get_km(&e[0]), v) && std::bit_cast<u64>(e[0].get_distance(&e[1])) == std::bit_cast<u64>(std::abs(std::bit_cast<double>({u}) - std::bit_cast<double>(v)));',
                      [['false'], ['std::bit_cast<u64>(7.5)'], ['std::bit_cast<u64>(1.25)'], ['std::bit_cast<u64>(2.25)'], ['std::bit_cast<u64>(3.5)'], ['std::bit_cast<u64>(12.5)']], f'kilometrage of {t} towards neighbour {s}, and distance', E)
        f.add(f'self_{ts[0]}', 'bool r', box(1, 4) + own(k, ts[0]) + 'return std::bit_cast<double>(e[0].get_distance(&e[0])) == 0.0;', [['false', 'true']], 'an element has no distance to itself', E, exhaustive=True)
    # -- the way back along the tracks
    W = lambda kinds: ''.join(f'w.add<{KD[c]}>(type::{c}, false); ' for c in kinds)
    KD = {t: k for k, t in types}
    for k, t in types if th else [(k, ts[0]) for k, (ts, _, _) in KIND.items()]:
        b = box(3, 12) + own(k, t) + W(['HALT', 'HALT'])
        last = KIND[k][1]
        p1, p2 = f'&n[{last}]', f'&n[{last + 1}]'
        for m in range(KIND[k][1]):
            for c, r, o in [(0, 0, 0), (1, 0, 0)] + [(2, r, o) for r in (0, 1) for o in (0, 1)]:
              f.add(f'back_{t}_{m}_{c}{r}{o}', '', f'bool const r = {B(r)}, o = {B(o)}; int const c = {c}; ' + b + f'node& m = n[{m}]; m.reverse_edges_.clear(); if (c == 0) return m.reverse_ahead() == nullptr; '
                  f'if (c == 1) {{ m.reverse_edges_.push_back({p1}); return m.reverse_ahead() == {p1}; }} '
                  + (f'x.neighbours_[r ? 4 : 5] = &e[1]; m.reverse_edges_.push_back(o ? {p1} : {p2}); m.reverse_edges_.push_back(o ? {p2} : {p1}); n[{last}].next_node_ = &m; n[{last + 1}].next_node_ = &m; return m.reverse_ahead() == {p2};' if k == 'simple_switch' else
                     f'm.reverse_edges_.push_back(o ? {p1} : {p2}); m.reverse_edges_.push_back(o ? {p2} : {p1}); n[{last}].next_node_ = r ? &m : nullptr; n[{last}].branch_node_ = r ? nullptr : &m; n[{last + 1}].next_node_ = r ? nullptr : &m; n[{last + 1}].branch_node_ = r ? &m : nullptr; return m.reverse_ahead() == (r ? {p1} : {p2});'),
                  None, f'node before node {m} of {t}: none, the only one, the one that leads straight here', E)
    f.run()
    n += len(f.ws)
    # -- making elements, naming their parts, connecting them
    f = mk(NAMES, CREATE, allow='_Znwm|_ZdlPvm?')
    for k, (ts, nn, slots) in KIND.items():
        for t in ts:
            b = 'union cb { struct { graph g; station st, st2; construction_materials m; } v; cb() : v() {} ~cb() {} } u; graph& g = u.v.g; station& st = u.v.st; construction_materials& m = u.v.m; station& st2 = u.v.st2; '
            chk = lambda var, i, base, rp, rr, at='st.elements_[0]': (f'if ({var}->type() != type::{t} || {var}->id() != {i} || {var}->rising() != {rr} || {var}->nodes().size() != {nn} || {var}->neighbours().size() != {slots}) return false; '
                + f'if (g.elements_[{i}] != {var} || g.element_store_[{i}].get() != {var} || {at} != {var} || m.rp_id_to_element_id_.at({rp}) != {i}) return false; '
                + ''.join(f'if (g.nodes_[{base + j}] != {var}->nodes()[{j}] || g.node_store_[{base + j}].get() != g.nodes_[{base + j}] || g.nodes_[{base + j}]->id_ != {base + j} || g.nodes_[{base + j}]->element_ != {var} || g.nodes_[{base + j}]->next_node_ != nullptr || g.nodes_[{base + j}]->branch_node_ != nullptr) return false; ' for j in range(nn))
                + ''.join(f'if ({var}->neighbours()[{j}] != nullptr) return false; ' for j in range(slots)))
            size = lambda c: f'if (g.elements_.size() != {c} || g.nodes_.size() != {c * nn} || g.element_store_.size() != {c} || g.node_store_.size() != {c * nn} || g.element_data_.size() != {c} || g.element_id_to_section_ids_.size() != {c} || st.elements_.size() != 1 || st2.elements_.size() != {c - 1}) return false; '
            b += f'auto* a = create_element(g, st, m, type::{t}, p, r); ' + chk('a', 0, 0, 'p', 'r') + size(1) + f'if (get_or_create_element(g, st, m, type::{t}, p, r) != a) return false; ' + size(1)
            if nn < 4:
                b += f'auto* b = get_or_create_element(g, st2, m, type::{t}, p + 1, !r); ' + chk('b', 1, nn, 'p + 1', '!r', 'st2.elements_[0]') + size(2) + 'if (a->id() != 0) return false; '
            f.add(f'make_{t}', 'u32 p, bool r', b.replace('auto* b =', 'auto* b2 =').replace('b->', 'b2->').replace('!= b)', '!= b2)').replace('!= b |', '!= b2 |') + 'return true;', [['7'], ['false', 'true']], f'creating {t}: kind, ids, nodes, and its place in the graph', G)
    allnames = sorted({x for d in NAMED.values() for x in d})
    for k, d in NAMED.items():
        t = KIND[k][0][0]
        fields, _ = KM[k]
        lf = [x.replace('_km_', '_line_').replace('km_', 'line_') if x == 'km_' else x.replace('_km_', '_line_') for x in fields]
        for nm in (allnames + ['Sonstiges'] if k in ('simple_element', 'simple_switch', 'cross') else list(d) + ['Sonstiges']):
            hit = d.get(nm, [0] if k in ('end_element', 'track_element', 'undirected_track_element') else None)
            b = box(1, 4) + own(k, t) + ''.join(f'x.{a} = KM({100 + i}); x.{c} = {10 + i}; ' for i, (a, c) in enumerate(zip(fields, lf))) + f'set_km_point_and_line(e[0], soro::utls::wname("{nm}"), KM(v), l); '
            if hit is None:
                if k != 'simple_element' or True:
                    f.add(f'name_{k}_{nm}', 'bool r, u64 v, lid l', b + 'return true;', [['false', 'true'], ['77'], ['3']], f'{k}: {nm} is not one of its parts and is refused', G, throws=True)
                continue
            f.add(f'name_{k}_{nm}', 'bool r, u64 v, lid l', b + 'return ' + ' && '.join(f'at(x.{a}, {"v" if i in hit else 100 + i}) && x.{c} == {"l" if i in hit else 10 + i}' for i, (a, c) in enumerate(zip(fields, lf))) + ';',
                  [['false', 'true'], ['77'], ['3']], f'{k}: kilometrage and line of {nm}', G)
    # neighbours
    slots_of = {'simple_switch': {x: 2 * i[0] for x, i in NAMED['simple_switch'].items()}, 'cross': {x: 2 * i[0] for x, i in NAMED['cross'].items()},
                'simple_element': {x: 2 * i[0] for x, i in NAMED['simple_element'].items() if len(i) == 1}}
    for k, (ts, _, slots) in KIND.items():
        for t in ts if len(ts) < 4 else ts[:2]:
            for nm in (slots_of.get(k) or {'Irgendwas': 0}) if k != 'simple_element' else {**slots_of[k], 'Betriebsstellengrenze': 'own', 'Irgendwas': 'own'}:
                at = slots_of.get(k, {}).get(nm, 'own')
                b = box(4, 12) + own(k, t) + W(['HALT', 'HALT', 'HALT']) + ''.join(f'x.neighbours_[{i}] = {"nullptr" if k == "undirected_track_element" else "&e[2]"}; ' for i in range(slots)) + f'set_neighbour(e[0], soro::utls::wname("{nm}"), &e[1], d); '
                if k == 'undirected_track_element':
                    b += f'set_neighbour(e[0], soro::utls::wname("{nm}"), &e[2], !d); '
                    b += 'return x.end_rising_neighbour() == &e[1] && x.start_rising_neighbour() == &e[2] && x.start_falling_neighbour() == nullptr && x.end_falling_neighbour() == nullptr;'
                else:
                    # rising goes to the rising slot; where the part is not named, the end of a rising element and the start of a falling one is meant
                    want = '(d ? 0 : 1)' if k == 'end_element' else '(d ? 1 : 0)' if k == 'track_element' else f'((r ? 2 : 0) + (d ? 0 : 1))' if at == 'own' else f'({at} + (d ? 0 : 1))'
                    b += 'return ' + ' && '.join(f'x.neighbours_[{i}] == ({want} == {i} ? &e[1] : &e[2])' for i in range(slots)) + ';'
                for r, d in itertools.product((0, 1), (0, 1)):
                    f.add(f'neigh_{t}_{nm}_{r}{d}', '', f'bool const r = {B(r)}, d = {B(d)}; ' + b, None, f'{t}{", rising" if r else ""}: neighbour at {nm}{", rising" if d else ""}', G)
    b = box(4, 12) + own('undirected_track_element', 'TUNNEL') + W(['HALT', 'HALT', 'HALT'])
    f.add('neigh_undirected_order', 'bool r, bool d', b + ''.join(f'set_neighbour(e[0], soro::utls::wname("Tunnel"), &e[{i}], d); ' for i in (1, 2, 3, 1)) + 'return x.end_rising_neighbour() == &e[1] && x.start_rising_neighbour() == &e[2] && x.start_falling_neighbour() == &e[3] && x.end_falling_neighbour() == &e[1];',
          [['false', 'true']] * 2, 'undirected elements take their neighbours in the order end rising, start rising, start falling, end falling', G, exhaustive=True)
    f.add('border', 'bool r, bool low', box(3, 12) + own('simple_element', 'BORDER') + W(['HALT', 'HALT']) + ''.join(f'x.neighbours_[{i}] = &e[2]; ' for i in range(4)) + 'connect_border(x, low, &e[1]); return ' + ' && '.join(f'x.neighbours_[{i}] == ({"low" if i > 1 else "!low"} ? &e[1] : &e[2])' for i in range(4)) + ';',
          [['false', 'true']] * 2, 'borders are connected at their end when low and at their start when high', G, exhaustive=True)
    # connections: neighbours are undirected elements, whose first node leads up and whose second leads down
    two = lambda i: f'n[{{}} + 2 * ({i})'
    conn = lambda: 'conn1(x, w); '
    for k, (ts, nn, slots) in KIND.items():
        for t in ts if len(ts) < 4 else ts[:1]:
            b = box(slots + 1, nn + 2 * slots) + own(k, t) + W(['TUNNEL'] * slots) + ''.join(f'x.neighbours_[{i}] = &e[{i + 1}]; ' for i in range(slots))
            up = lambda i: f'&n[{nn} + 2 * ({i})]'
            dn = lambda i: f'&n[{nn} + 2 * ({i}) + 1]'
            # arm whose own kilometrage direction is d: leaving it towards rising kilometres means arriving at its rising neighbour going up
            arm = lambda s, d: f'({d} ? {dn(s + 1)} : {up(s)})'
            par, dom = 'bool r', [['false', 'true']]
            want = {}
            if k == 'end_element':
                want = {0: (f'(r ? nullptr : {up(0)})', 'nullptr'), 1: (f'(r ? {dn(1)} : nullptr)', 'nullptr')}
            elif k == 'track_element':
                want = {0: (f'(r ? {up(1)} : {dn(1)})', 'nullptr')}
            elif t == 'LINE_SWITCH':
                par, dom = 'bool r, bool s', [['false', 'true']] * 2
                b += 'x.end_rising_ = s; '
                want = {0: (f'(r ? {arm(2, "s")} : {up(0)})', 'nullptr'), 1: (f'(r ? {dn(1)} : {arm(2, "s")})', 'nullptr')}
            elif k in ('simple_element', 'undirected_track_element'):
                want = {0: (up(0), 'nullptr'), 1: (dn(3), 'nullptr')}
            elif k == 'simple_switch':
                par, dom = 'bool r, bool s, bool c', [['false', 'true']] * 3
                b += 'x.stem_rising_ = s; x.branch_rising_ = c; '
                want = {0: (f'(r ? {arm(2, "s")} : {arm(0, "r")})', f'(r ? {arm(4, "c")} : nullptr)'), 1: (f'(r ? {arm(0, "r")} : {arm(2, "s")})', f'(r ? nullptr : {arm(4, "c")})')}
            else:
                par, dom = 'bool r, bool el, bool sr, bool er, bool a1, bool a2', [['false', 'true']] * 6
                b += 'x.end_left_rising_ = el; x.start_right_rising_ = sr; x.end_right_rising_ = er; x.start_left_end_right_arc_ = a1; x.start_right_end_left_arc_ = a2; '
                SL, EL, SR, ER = arm(0, 'r'), arm(2, 'el'), arm(4, 'sr'), arm(6, 'er')
                # left/right lead along start left - end left, top/bottom along start right - end right; the one leading to the end may branch to the other end, the one leading to the start to the other start
                endl, startl, endr, startr = f'(a1 ? {ER} : nullptr)', f'(a2 ? {SR} : nullptr)', f'(a2 ? {EL} : nullptr)', f'(a1 ? {SL} : nullptr)'
                want = {0: (f'(sr ? {ER} : {SR})', f'(sr ? {endr} : {startr})'), 1: (f'(sr ? {SR} : {ER})', f'(sr ? {startr} : {endr})'),
                        2: (f'(r ? {EL} : {SL})', f'(r ? {endl} : {startl})'), 3: (f'(r ? {SL} : {EL})', f'(r ? {startl} : {endl})')}
            tail = conn() + ''.join(f'if (n[{m}].next_node_ != {a.replace("nullptr", "(node const*)nullptr")} || n[{m}].branch_node_ != {c.replace("nullptr", "(node const*)nullptr")}) return false; ' for m, (a, c) in want.items())
            ps = [q.split()[1] for q in par.split(', ')]
            for vs in itertools.product((0, 1), repeat=len(ps)):
                if len(ps) == 6 and not th and vs[4] != vs[5] and sum(vs[:4]) % 2:
                    continue
                f.add(f'conn_{t}_{"".join(map(str, vs))}', '', 'bool const ' + ', '.join(f'{q} = {B(v)}' for q, v in zip(ps, vs)) + '; ' + b + tail + 'return true;', None, f'{t}{vs}: where its nodes lead', G)
    # coming in: one lands on the node that leads to the opposite side
    lands = []
    for t in KIND['end_element'][0] + KIND['simple_element'][0][:2] + KIND['undirected_track_element'][0][:2]:
        k = KD[t]
        lands += [(k, t, s, f'bool const r = {B(r)}; ', d, 0 if d else 1) for r in (0, 1) for s in range(KIND[k][2]) for d in (0, 1)]
    lands += [('track_element', t, s, 'bool const r = false; ', d, 0) for t in KIND['track_element'][0][:2] for s in (0, 1) for d in (0, 1)]
    for r, s in itertools.product((0, 1), (0, 1)):
        c = f'bool const r = {B(r)}, s = {B(s)}; '
        z = 'x.end_rising_ = s; '
        lands += [('simple_element', 'LINE_SWITCH', 1 if r else 0, c + '/**/' + z, r, 0 if r else 1), ('simple_element', 'LINE_SWITCH', 2 if s else 3, c + '/**/' + z, 1 - s, 1 if r else 0)]
    for r, s, c, ls, lb in itertools.product((0, 1), repeat=5):
        if (ls == 0 and s == r) or (lb == 0 and c == r):
            continue  # on one line the two sides run in opposite directions
        p = f'bool const r = {B(r)}; /**/ x.stem_rising_ = {B(s)}; x.branch_rising_ = {B(c)}; x.start_line_ = 7; x.stem_line_ = {7 + ls}; x.branch_line_ = {7 + 2 * lb}; '
        lands += [('simple_switch', 'SIMPLE_SWITCH', 0 + 1 - r, p, r, 0 if r else 1), ('simple_switch', 'SIMPLE_SWITCH', 2 + 1 - s, p, s, 1 if r else 0), ('simple_switch', 'SIMPLE_SWITCH', 4 + 1 - c, p, c, 1 if r else 0)]
    for r, el, sr, er, l1, l2, l3 in itertools.product((0, 1), repeat=7):
        if (l1 == 0 and el == r) or (l3 == 0 and er == sr) or (not th and l2 and (r + el + sr + er + l1 + l3) % 3):
            continue
        p = f'bool const r = {B(r)}; /**/ x.end_left_rising_ = {B(el)}; x.start_right_rising_ = {B(sr)}; x.end_right_rising_ = {B(er)}; x.start_left_line_ = 7; x.end_left_line_ = {7 + l1}; x.start_right_line_ = {7 + 2 * l2}; x.end_right_line_ = {7 + 2 * l2 + 4 * l3}; '
        lands += [('cross', 'CROSS', s + 1 - d, p, d, m) for s, d, m in ((0, r, 2 if r else 3), (2, el, 3 if r else 2), (4, sr, 0 if sr else 1), (6, er, 1 if sr else 0))]
    for i, (k, t, s, p, d, m) in enumerate(lands):
        pre, post = p.split('/**/') if '/**/' in p else (p, '')
        b = pre + box(4, 12).replace('auto& n = w.n; ', 'auto& n = w.n; ') + f'auto& y = w.add<track_element>(type::HALT, {B(d)}); ' + own(k, t).replace('w.e[0].as', 'w.e[1].as') + post + W(['HALT', 'HALT'])
        b += ''.join(f'x.neighbours_[{j}] = &e[{2 + j % 2}]; ' for j in range(KIND[k][2])) + f'x.neighbours_[{s}] = &e[0]; y.ahead() = &e[1]; y.behind() = &e[2]; conn1(y, w); return n[0].next_node_ == &n[{1 + m}] && n[0].branch_node_ == nullptr;'
        f.add(f'into_{t}_{i}', '', b, None, f'coming into {t} at neighbour {s}{", rising" if d else ""} ({pre.strip()} {post.strip()}): the node that leads to the other side', G)
    f.run()
    n += len(f.ws)
    # -- the whole graph: every connection is also known at its far end
    f = mk(NAMES, CREATE, inl=2000000, again=5)
    rev = lambda m, *src: f'if (n[{m}].reverse_edges_.size() != {len(src)}{"".join(f" || n[{m}].reverse_edges_[{i}] != &n[{q}]" for i, q in enumerate(src))}) return false; '
    lead = lambda m, x, br=None: f'if (n[{m}].next_node_ != {f"&n[{x}]" if x is not None else "nullptr"} || n[{m}].branch_node_ != {f"&n[{br}]" if br is not None else "nullptr"}) return false; '
    fin = 'for (int i = 0; i < w.c; ++i) w.g.elements_.push_back(&e[i]); for (int i = 0; i < w.k; ++i) w.g.nodes_.push_back(&n[i]); infra::connect_nodes(w.g); '
    f.add('whole_line', '', box(3, 4) + 'auto& a = w.add<track_element>(type::HALT, true); auto& c = w.add<undirected_track_element>(type::TUNNEL, true); auto& d = w.add<track_element>(type::HALT, false); a.ahead() = &e[1]; d.ahead() = &e[1]; a.behind() = &e[1]; d.behind() = &e[1]; c.start_rising_neighbour() = &e[2]; c.end_falling_neighbour() = &e[0]; '
          + fin + lead(0, 1) + lead(1, 3) + lead(2, 0) + lead(3, 2) + rev(0, 2) + rev(1, 0) + rev(2, 3) + rev(3, 1) + 'return true;', None, 'along a line all nodes are connected, and every connection is known at its far end', G)
    f.add('whole_switch', '', box(4, 5) + 'auto& x = w.add<simple_switch>(type::SIMPLE_SWITCH, true); ' + ''.join(f'auto& t{i} = w.add<track_element>(type::HALT, {B(i == 0)}); t{i}.ahead() = &e[0]; t{i}.behind() = &e[0]; ' for i in range(3))
          + 'x.falling_start_neighbour() = &e[1]; x.rising_stem_neighbour() = &e[2]; x.rising_branch_neighbour() = &e[3]; ' + fin + lead(0, 3, 4) + lead(1, 2) + lead(2, 0) + lead(3, 1) + lead(4, 1) + rev(0, 2) + rev(1, 3, 4) + rev(2, 1) + rev(3, 0) + rev(4, 0) + 'return true;',
          None, 'at a switch all nodes are connected, and every connection, straight or branching, is known at its far end', G)
    f.run()
    n += len(f.ws)
    # -- sections, lines, lengths
    f = mk(LEN_INC)
    U = lambda k, t, r: (k, t, r)
    secs = [[('track_element', 'HALT', 0)], [('end_element', 'BUMPER', 0), ('track_element', 'HALT', 1), ('undirected_track_element', 'TUNNEL', 0), ('track_element', 'MAIN_SIGNAL', 0)],
            [('undirected_track_element', 'SLOPE', 1), ('simple_switch', 'SIMPLE_SWITCH', 1)], [('simple_element', 'BORDER', 1), ('track_element', 'EOTD', 1), ('track_element', 'SLOPE' if 0 else 'ETCS_END', 0), ('cross', 'CROSS', 0)], [('track_element', 'HALT', 1), ('track_element', 'HALT', 1)]]
    for si, els in enumerate(secs):
        m = len(els)
        b = box(m, sum(KIND[k][1] for k, _, _ in els)) + ''.join(f'w.add<{k}>(type::{t}, {B(r)}); ' for k, t, r in els) + 'union sb { section s; sb() : s() {} ~sb() {} } u; section& s = u.s; ' + ''.join(f's.rising_order_.push_back(&e[{i}]); s.falling_order_.push_back(&e[{m - 1 - i}]); ' for i in range(m))

        def same(expr, ids, sz='size()'):
            return f'{{ auto const& q = {expr}; if (q.{sz} != {len(ids)}) return false; ' + ''.join(f'if ({"q.d" if sz == "n" else "q"}[{i}] != &e[{x}]) return false; ' for i, x in enumerate(ids)) + '} '
        body = f'if (s.size() != {m} || s.first_rising() != &e[0] || s.last_rising() != &e[{m - 1}] || s.first_falling() != &e[{m - 1}] || s.last_falling() != &e[0]) return false; '
        for d, ids in (('Rising', list(range(m))), ('Falling', list(range(m))[::-1])):
            keep = [i for i in ids if els[i][0] != 'track_element' or els[i][2] == (d == 'Rising')]
            f.add(f'sec_{si}_{d}', '', b + body + same(f's.iterate<direction::{d}, skip::Yes>()', keep, 'n') + same(f's.iterate<direction::{d}, skip::No>()', ids, 'n') + same(f's.iterate<direction::{d}>()', keep, 'n') + 'return true;', None,
                  f'section {[t for _, t, _ in els]} in {d} direction: all elements, or those that face that way', S)
            for i in range(m):
                f.add(f'sec_{si}_{d}_{i}', '', b + same(f's.from(&e[{ids[i]}], direction::{d})', ids[i:]) + same(f's.to(&e[{ids[i]}], direction::{d})', ids[:i + 1]) + ''.join(same(f's.from_to(&e[{ids[i]}], &e[{ids[j]}], direction::{d})', ids[i:j + 1]) for j in range(i, m)) + 'return true;', None,
                      f'section {[t for _, t, _ in els]} in {d} direction: parts from and up to element {ids[i]}', S)
    for m in (1, 2, 3):
        for pos in range(2 * m + 1):
            # between or on the borders of segments that adjoin each other
            b = 'union lb { line l; lb() : l() {} ~lb() {} } u; line& l = u.l; l.id_ = 3; ' + ''.join(f'{{ line::segment g; g.from_ = kilometrage{{{10.0 * i}}}; g.to_ = kilometrage{{{10.0 * (i + 1)}}}; g.signalling_ = ((bits >> {i}) & 1) != 0; g.etcs_ = ((bits >> {i + 4}) & 1) != 0; l.segments_.push_back(g); }} ' for i in range(m))
            for km, idx in [(-1.0, 0), (0.0, 0)] + [(10.0 * i + 5.0, i) for i in range(m)] + [(10.0 * i, i) for i in range(1, m)] + [(10.0 * m, m - 1), (10.0 * m + 1, m - 1)] if pos == 0 else []:
                f.add(f'line_{m}_{int(km + 1)}', 'u32 bits', b + f'return l.has_signalling(kilometrage{{{km}}}) == (((bits >> {idx}) & 1) != 0) && l.has_etcs(kilometrage{{{km}}}) == (((bits >> {idx + 4}) & 1) != 0);', [['0', '0xff', '0x15', '0x2a']], f'line of {m} adjoining segments at {km}: the segment that covers it, or the nearest', L)
    for m in (1, 2, 3, 4):
        ks = [('undirected_track_element', 'TUNNEL'), ('simple_element', 'KM_JUMP'), ('undirected_track_element', 'TUNNEL'), ('undirected_track_element', 'SLOPE')][:m]
        b = box(m, 2 * m) + ''.join(f'{{ auto& x = w.add<{k}>(type::{t}, true); ' + (f'x.km_ = KM(a{i}); ' if k != 'simple_element' else 'x.start_km_ = KM(a1); x.end_km_ = KM(b1); x.start_rising_neighbour() = &e[0]; ' + (f'x.end_falling_neighbour() = &e[2]; ' if m > 2 else '')) + '} ' for i, (k, t) in enumerate(ks))
        b += 'std::witness_vec<element_ptr> v; ' + ''.join(f'v.push_back(&e[{i}]); ' for i in range(m)) + 'std::witness_vec<node_ptr> nv; ' + ''.join(f'nv.push_back(&n[{2 * i}]); ' for i in range(m))
        D = 'auto const D = [](u64 x) { return std::bit_cast<double>(x); }; '
        terms = ['std::abs(D(a0) - D(a1))', 'std::abs(D(b1) - D(a2))', 'std::abs(D(a2) - D(a3))'][:m - 1]
        f.add(f'length_{m}', 'u64 a0, u64 a1, u64 b1, u64 a2, u64 a3', b + D + 'double want = 0.0; ' + ''.join(f'want += {x}; ' for x in terms) + 'auto const r = std::bit_cast<u64>(get_path_length_from_elements(v)); if (r != std::bit_cast<u64>(want)) return false; return std::bit_cast<u64>(get_path_length_from_elements(nv)) == r;',
              [[f'std::bit_cast<u64>({x})'] for x in ('1.5', '4.0', '20.0', '17.25', '16.0')], f'length of a path of {m} elements: the distances between neighbours, measured on the facing sides', LEN)
    f.run()
    n += len(f.ws)
    ctx.need(n, 600, 'witnesses')
