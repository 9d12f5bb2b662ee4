"""Routes: what iterating a station route, an interlocking route or a train delivers."""
import itertools
from common import *
from fold import Fold

S, I, T, Q = 'src/infrastructure/station/station_route.cc', 'src/infrastructure/interlocking/interlocking_route.cc', 'src/timetable/train.cc', 'src/timetable/sequence_point.cc'

HEAD = f'''#define FV_COPY_EACH
#define EAGER_CAP 9
#include "{VERIF}/harness/witness/fixed_vec.h"
#include <cassert>
#include <chrono>
#include <compare>
#include <coroutine>
#include <expected>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <unordered_map>
#include <variant>
#include "{VERIF}/harness/witness/fmt_fix.h"
#define WITNESS_BITS "{VERIF}/harness/witness/bits.h"
namespace std {{ template <typename T, typename A = void> using witness_vec = fv<T, 8>; }}
#include "soro/base/soro_types.h"
#include "soro/utls/string.h"
#include "utl/verify.h"
#include "utl/concat.h"
#include "cista/reflection/comparable.h"
#include "date/date.h"
namespace soro::infra {{ struct border; }}
template <> struct fv<soro::infra::border, 8> {{}};  // incomplete where stations are declared, and not looked at
namespace soro {{ template <typename T> using witness_vec = std::witness_vec<T>; }}
namespace utl {{ template <typename C, typename F> auto w_to_vec(C&& c, F&& f) {{ std::witness_vec<std::decay_t<decltype(f(*std::begin(c)))>> v; for (auto&& x : c) v.push_back(f(x)); return v; }} }}
#define to_vec w_to_vec
#define vector witness_vec
#include "{VERIF}/harness/witness/id_iter.h"
#include "soro/infrastructure/infrastructure.h"
namespace soro::infra {{ inline void eager_copy(route_node* d, route_node const& v) {{ d->node_ = v.node_; d->omitted_ = v.omitted_; d->extra_spl_ = v.extra_spl_; }} }}
#include "{REPO}/src/infrastructure/graph/type_set.cc"
#include "{REPO}/src/infrastructure/graph/element.cc"
#include "{REPO}/src/infrastructure/graph/node.cc"
'''

SR = f'''#include "{REPO}/src/infrastructure/station/station_route.cc"
'''
# the parts of a route, by definition: the interlocking routes are judged on top of the station routes, the trains on top of both
SR_MODEL = '''
#include "soro/infrastructure/station/station_route.h"
namespace soro::infra {
node::idx station_route::size() const noexcept { return static_cast<node::idx>(path_->nodes_.size()); }
node::ptr station_route::nodes(node::idx const i) const { return path_->nodes_[i]; }
soro::vector<node::ptr> const& station_route::nodes() const { return path_->nodes_; }
bool station_route::operator==(station_route const& o) const { return id_ == o.id_; }
bool station_route::operator!=(station_route const& o) const { return id_ != o.id_; }
node::optional_idx station_route::get_halt_idx(rs::FreightTrain const f) const { return static_cast<bool>(f) ? freight_halt_ : passenger_halt_; }
node::optional_ptr station_route::get_halt_node(rs::FreightTrain const f) const { auto const i = get_halt_idx(f); return i.has_value() ? node::optional_ptr(nodes(*i)) : node::optional_ptr(std::nullopt); }
node::optional_ptr station_route::get_runtime_checkpoint_node() const { return runtime_checkpoint_.has_value() ? node::optional_ptr(nodes(*runtime_checkpoint_)) : node::optional_ptr(std::nullopt); }
utls::recursive_generator<route_node> station_route::from_to(node::idx const a, node::idx const b) const { route_node r; r.omitted_ = false; if (a + 0 < b) { r.node_ = nodes(static_cast<node::idx>(a + 0)); co_yield r; } if (a + 1 < b) { r.node_ = nodes(static_cast<node::idx>(a + 1)); co_yield r; } if (a + 2 < b) { r.node_ = nodes(static_cast<node::idx>(a + 2)); co_yield r; } if (a + 3 < b) { r.node_ = nodes(static_cast<node::idx>(a + 3)); co_yield r; } }
utls::recursive_generator<route_node> station_route::from(node::idx const a) const { co_yield from_to(a, size()); }
utls::recursive_generator<route_node> station_route::to(node::idx const b) const { co_yield from_to(0, b); }
utls::recursive_generator<route_node> station_route::iterate() const { co_yield from_to(0, size()); }
}
'''
IR = f'''#include "{REPO}/src/infrastructure/interlocking/interlocking_route.cc"
'''
IR_MODEL = '''
#include "soro/infrastructure/interlocking/interlocking_route.h"
namespace soro::infra {
inline unsigned model_at(infrastructure const& in, station_route::id s, unsigned i) { if (s > 0) i += in->station_routes_[0]->size(); if (s > 1) i += in->station_routes_[1]->size(); return i; }
station_route::id interlocking_route::first_sr_id() const { return station_routes_.front(); }
station_route::id interlocking_route::last_sr_id() const { return station_routes_.back(); }
station_route::id interlocking_route::sr_id(sr_offset const i) const { return station_routes_[i]; }
station_route::ptr interlocking_route::first_sr(infrastructure const& in) const { return in->station_routes_[station_routes_.front()]; }
station_route::ptr interlocking_route::last_sr(infrastructure const& in) const { return in->station_routes_[station_routes_.back()]; }
station_route::ptr interlocking_route::sr(sr_offset const i, infrastructure const& in) const { return in->station_routes_[station_routes_[i]]; }
node::ptr interlocking_route::first_node(infrastructure const& in) const { return first_sr(in)->nodes(start_offset_); }
node::ptr interlocking_route::last_node(infrastructure const& in) const { return last_sr(in)->nodes(end_offset_ - 1); }
node::idx interlocking_route::size(infrastructure const& in) const { return static_cast<node::idx>(model_at(in, last_sr_id(), end_offset_) - model_at(in, first_sr_id(), start_offset_)); }
bool interlocking_route::operator==(interlocking_route const& o) const { return id_ == o.id_; }
utls::recursive_generator<route_node> interlocking_route::from_to(station_route::id const s, node::idx const a, station_route::id const t, node::idx const b, infrastructure const& in) const { route_node r; r.omitted_ = false; unsigned const e = model_at(in, t, b); unsigned const i = model_at(in, s, a); if (i + 0 < e) { r.node_ = in->model_nodes_ + (i + 0); co_yield r; } if (i + 1 < e) { r.node_ = in->model_nodes_ + (i + 1); co_yield r; } if (i + 2 < e) { r.node_ = in->model_nodes_ + (i + 2); co_yield r; } if (i + 3 < e) { r.node_ = in->model_nodes_ + (i + 3); co_yield r; } if (i + 4 < e) { r.node_ = in->model_nodes_ + (i + 4); co_yield r; } if (i + 5 < e) { r.node_ = in->model_nodes_ + (i + 5); co_yield r; } if (i + 6 < e) { r.node_ = in->model_nodes_ + (i + 6); co_yield r; } if (i + 7 < e) { r.node_ = in->model_nodes_ + (i + 7); co_yield r; } if (i + 8 < e) { r.node_ = in->model_nodes_ + (i + 8); co_yield r; } }
utls::recursive_generator<route_node> interlocking_route::from(station_route::id const s, node::idx const a, infrastructure const& in) const { co_yield from_to(s, a, last_sr_id(), end_offset_, in); }
utls::recursive_generator<route_node> interlocking_route::to(station_route::id const s, node::idx const b, infrastructure const& in) const { co_yield from_to(first_sr_id(), start_offset_, s, b, in); }
utls::recursive_generator<route_node> interlocking_route::iterate(infrastructure const& in) const { co_yield from_to(first_sr_id(), start_offset_, last_sr_id(), end_offset_, in); }
}
'''
TRAIN = f'''#include "soro/rolling_stock/train_physics.h"
namespace soro::tt {{ struct train; }}
#include "soro/timetable/train.h"
namespace soro::tt {{ inline void eager_copy(train_node* d, train_node const& v) {{ d->node_ = v.node_; d->omitted_ = v.omitted_; d->extra_spl_ = v.extra_spl_; d->sequence_point_ = v.sequence_point_; }} }}
#include "{REPO}/src/timetable/bitfield.cc"
#include "{REPO}/src/timetable/sequence_point.cc"
#include "{REPO}/src/timetable/train.cc"
'''
TBOX = '''
union tbox { tt::train t; tbox() : t() {} ~tbox() {} };
'''

TAIL = f'''#undef vector
#undef to_vec
using namespace soro; using namespace soro::infra; using u32 = uint32_t; using idx = node::idx;
constexpr idx NONE = node::INVALID_IDX;
template <int N, int K, bool E> struct world {{
  element e[E ? N : 1]; node n[N]; int c = 0;
  station_route::path p[K]; station_route s[K];
  infrastructure_t it; infrastructure in{{&it}};
  world() {{}}
  void add(int r, type t) {{
    if constexpr (E) {{ track_element x; x.type_ = t; x.id_ = static_cast<element_id>(c); e[c].e_ = std::move(x); n[c].element_ = &e[c]; }}
    n[c].id_ = static_cast<node::id>(c); p[r].nodes_.push_back(&n[c]); ++c;
  }}
  void done() {{ for (int r = 0; r < K; ++r) {{ s[r].id_ = static_cast<u32>(r); s[r].path_ = &p[r]; it.station_routes_.push_back(&s[r]); }} }}
}};
template <int N, int K, bool E> union box {{ world<N, K, E> w; box() : w() {{}} ~box() {{}} }};
'''

TY = {'.': 'type::APPROACH_SIGNAL', 'M': 'type::MAIN_SIGNAL', 'H': 'type::HALT', 'B': 'type::BORDER', 'E': 'type::TRACK_END', 'S': 'type::SPEED_LIMIT'}


def world(srs, extra='', el=False):
    b = f'box<{sum(len(x) for x in srs)}, {len(srs)}, {str(el or any(set(x) != {"."} for x in srs)).lower()}> bx; auto& w = bx.w; ' + 'auto& n = w.n; auto& s = w.s; auto& in = w.in; '
    for r, kinds in enumerate(srs):
        for k in kinds:
            b += f'w.add({r}, {TY[k]}); '
    return b + 'w.done(); ' + extra


def seq(expr, nodes, more=None):
    """the sequence delivers exactly these nodes (numbers), then ends"""
    b = f'{{ auto const& r = {expr}; if (r.n != {len(nodes)}) return false; '
    for i, x in enumerate(nodes):
        b += f'if (r.d[{i}].node_ != &n[{x}]) return false; ' + (more(i, x) if more else '')
    return b + '} '


def run(ctx):
    ctx.explain = ('small infrastructures (station routes of up to four nodes, interlocking routes over up to three of them) are iterated in every way the interface offers; the nodes delivered, with their omission flags, extra speed '
                   'limits and sequence points, are compared with the definition; the compiler must reduce each comparison to true. Sequences are modelled by the list of values their body yields (the real ones are decided by P09)')
    inc = [f'{VERIF}/harness/{d}_shim' for d in ('train', 'infra', 'eager', 'throw')]
    fold = lambda *parts: Fold(ctx, HEAD + ''.join(parts[:-1]) + TAIL + parts[-1], incs=inc, stubs=True, deep="only", gcc=False)
    f = fold(SR, '')
    th = ctx.thorough

    def done(f):
        f.run()
        return len(f.ws)
    # -- station routes
    j = 0
    for size in (1, 3) if not th else (1, 2, 3, 4):
        subs = [c for k in range(size + 1) for c in itertools.combinations(range(size), k)]
        for om, ex in itertools.product(subs, subs):
            for a, b in [(a, b) for a in range(size + 2) for b in range(a, size + 1)] + [(size + 1, size + 1)]:
                j += 1
                if j % (9 if not th else 4 if size == 4 else 1) and not (om == (0, 2) and ex == (1,)) and not (om == () and ex == (0, 1)):
                    continue
                x = ''.join(f's[0].omitted_nodes_.push_back({o}); ' for o in om)
                x += f'speed_limit l[{max(1, len(ex))}]; ' if ex else ''
                x += ''.join(f'l[{k}].node_ = &n[{o}]; s[0].extra_speed_limits_.push_back(l[{k}]); ' for k, o in enumerate(ex))
                more = lambda i, q, om=om, ex=ex: (f'if (r.d[{i}].omitted_ != {"true" if q in om else "false"} || r.d[{i}].extra_spl_.has_value() != {"true" if q in ex else "false"}' + (f' || *r.d[{i}].extra_spl_ != &s[0].extra_speed_limits_[{ex.index(q)}]' if q in ex else '') + ') return false; ')
                body = world(['.' * size], x) + seq(f's[0].from_to({a}, {b})', list(range(a, b)) if a < size else [], more)
                if b == size:
                    body += seq(f's[0].from({a})', list(range(a, b)), more)
                if a == 0:
                    body += seq(f's[0].to({b})', list(range(a, b)), more)
                if a == 0 and b == size:
                    body += seq('s[0].iterate()', list(range(size)), more)
                f.add(f'sr_{size}_{"".join(map(str, om))}_{"".join(map(str, ex))}_{a}_{b}', '', body + 'return true;', None, f'station route of {size} nodes, omitted {om}, extra speed limits {ex}: nodes {a} up to {b}', S)
    for ends in itertools.product('.MHBE', repeat=2):
        a, b = ends[0] in 'BE', ends[1] in 'BE'
        f.add(f'ends_{"".join("dmhbe"[".MHBE".index(c)] for c in ends)}', '', world([ends[0] + '.' + ends[1]], el=True) + f'return s[0].is_through_route() == {str(a and b).lower()} && s[0].is_in_route() == {str(a and not b).lower()} && s[0].is_out_route() == {str(not a and b).lower()} && s[0].is_contained_route() == {str(not a and not b).lower()} && s[0].size() == 3 && s[0].nodes(1) == &n[1];', None, 'kind of a station route by its ends', S)
    f.add('halts', 'idx p, idx g, bool fr', world(['....'], 'p %= 5; g %= 5; if (p != 4) s[0].passenger_halt_ = soro::optional<idx>{p}; if (g != 4) s[0].freight_halt_ = soro::optional<idx>{g}; auto const h = static_cast<soro::rs::FreightTrain>(fr); auto const want = fr ? g : p; ') +
          'auto const i = s[0].get_halt_idx(h); auto const k = s[0].get_halt_node(h); if (want == 4) return !i.has_value() && !k.has_value(); return i.has_value() && *i == want && k.has_value() && *k == &n[want];',
          [list('01234'), list('01234'), ['true', 'false']], 'halt of a station route for passengers and freight', S, exhaustive=True)
    f.add('checkpoint', 'idx p', world(['....'], 'p %= 5; if (p != 4) s[0].runtime_checkpoint_ = soro::optional<idx>{p}; ') + 'auto const k = s[0].get_runtime_checkpoint_node(); return p == 4 ? !k.has_value() : k.has_value() && *k == &n[p];', [list('01234')], 'run-time checkpoint of a station route', S, exhaustive=True)
    f.add('same', 'u32 a, u32 b', world(['..'], 's[0].id_ = a; s[1].id_ = b; ') + 'return (s[0] == s[1]) == (a == b) && (s[0] != s[1]) == (a != b);', [['0', '1', '7']] * 2, 'station routes are equal iff they have the same identifier', S)
    for ms, su, pr in itertools.product((0, 1, 2), (0, 1), (0, 1)):
        f.add(f'cut_{ms}_{su}_{pr}', '', world(['...', '..', '..'], 'station_route_graph g; g.successors_.resize(3); g.predeccesors_.resize(3); ' + 'w.p[0].main_signals_.push_back(1); ' * ms + 'g.successors_[0].push_back(&s[1]); ' * su + 'g.predeccesors_[0].push_back(&s[2]); ' * pr) +
              f'return s[0].can_start_an_interlocking(g) == {str(bool(ms) or not pr).lower()} && s[0].can_end_an_interlocking(g) == {str(bool(ms) or not su).lower()};', None, 'interlocking routes start and end at main signals or where there is no neighbour', S)
    n = done(f)
    f = fold(SR_MODEL, IR, '')
    # -- interlocking routes
    shapes = [([2], ()), ([4], ()), ([1, 1], ()), ([2, 3], ()), ([1, 2, 1], ()), ([2, 2, 3], ())] + ([([3, 3, 3], ()), ([1, 1, 1], ()), ([4, 4], ())] if th else [])
    for sizes, _ in shapes:
        tag = ''.join(map(str, sizes))
        base = [sum(sizes[:r]) for r in range(len(sizes))]
        N = sum(sizes)
        for so, eo in itertools.product(range(sizes[0]), range(1, sizes[-1] + 1)):
            last = base[-1]
            if len(sizes) == 1 and eo <= so:
                continue
            nodes = list(range(so, last + eo))
            ir = f'interlocking_route ir; ir.id_ = 0; ir.start_offset_ = {so}; ir.end_offset_ = {eo}; ' + ''.join(f'ir.station_routes_.push_back({r}); ' for r in range(len(sizes))) + 'w.it.interlocking_.routes_.push_back(ir); '
            wd = world(['.' * k for k in sizes], ir)
            f.add(f'ir_{tag}_{so}_{eo}', '', wd + seq('ir.iterate(in)', nodes) + f'return ir.size(in) == {len(nodes)} && ir.first_node(in) == &n[{nodes[0]}] && ir.last_node(in) == &n[{nodes[-1]}] && ir.first_sr_id() == 0 && ir.last_sr_id() == {len(sizes) - 1} && ir.first_sr(in) == &s[0] && ir.last_sr(in) == &s[{len(sizes) - 1}]'
                  + ''.join(f' && ir.sr_id({r}) == {r} && ir.sr({r}, in) == &s[{r}]' for r in range(len(sizes))) + ';', None, f'interlocking route over station routes of {sizes} nodes from {so} up to {eo}: all nodes, size, ends', I)
            sub = [(r, so if r == 0 else 0, eo if r == len(sizes) - 1 else sizes[r]) for r in range(len(sizes))]
            ck = ''.join(f'if (r.d[{i}].station_route_ != &s[{r}] || r.d[{i}].from_ != {a} || r.d[{i}].to_ != {b}) return false; ' for i, (r, a, b) in enumerate(sub))
            f.add(f'parts_{tag}_{so}_{eo}', '', wd + f'auto const& r = ir.iterate_station_routes(w.it); if (r.n != {len(sub)}) return false; {ck}{{ auto const q = ir.station_routes(in); auto i = q.begin(); ' + ''.join(f'if (i == q.end() || &*i != &s[{r}]) return false; ++i; ' for r in range(len(sizes))) + 'if (!(i == q.end())) return false; } return true;', None, f'interlocking route over station routes of {sizes} nodes: its parts', I)
            inn = lambda r, i: base[r] + i in nodes
            ck = ''.join(f'if (ir.contains({r}, {i}) != {str(inn(r, i)).lower()}) return false; ' for r in range(len(sizes)) for i in range(sizes[r]))
            f.add(f'in_{tag}_{so}_{eo}', '', wd + ck + f'return !ir.contains(7, 0) && !ir.contains(7, {so});', None, f'interlocking route over station routes of {sizes} nodes: positions it contains', I)
            k = 0
            for r, i in [(r, i) for r in range(len(sizes)) for i in range(sizes[r]) if inn(r, i)]:
                p = base[r] + i
                bd = seq(f'ir.from({r}, {i}, in)', nodes[nodes.index(p):]) + seq(f'ir.to({r}, {i + 1}, in)', nodes[:nodes.index(p) + 1])
                for r2, i2 in [(r2, i2) for r2 in range(len(sizes)) for i2 in range(sizes[r2]) if inn(r2, i2) and base[r2] + i2 >= p]:
                    k += 1
                    if th or k % 3 == 0:
                        bd += seq(f'ir.from_to({r}, {i}, {r2}, {i2 + 1}, in)', list(range(p, base[r2] + i2 + 1)))
                f.add(f'part_{tag}_{so}_{eo}_{r}_{i}', '', wd + bd + 'return true;', None, f'interlocking route over station routes of {sizes} nodes: from, to and between positions', I)
    for c in '.MHBE':
        f.add(f'starts_{"dmhbe"[".MHBE".index(c)]}', '', world([c + '..', '..' + c], 'interlocking_route ir; ir.start_offset_ = 0; ir.end_offset_ = 3; ir.station_routes_.push_back(0); ir.station_routes_.push_back(1); ', True) + f'return ir.starts_on_ms(in) == {str(c == "M").lower()} && ir.ends_on_ms(in) == {str(c == "M").lower()} && interlocking_route::valid_end({TY[c]}) == {str(c != ".").lower()};', None, 'interlocking routes that start or end on a main signal', I)
    f.add('follows', '', world(['...', '..'], 'interlocking_route a, b, c; a.start_offset_ = 0; a.end_offset_ = 2; a.station_routes_.push_back(0); b.start_offset_ = 1; b.end_offset_ = 2; b.station_routes_.push_back(0); b.station_routes_.push_back(1); c.start_offset_ = 2; c.end_offset_ = 2; c.station_routes_.push_back(0); c.station_routes_.push_back(1); ') + 'return b.follows(a, in) && !a.follows(b, in) && !c.follows(a, in) && !a.follows(a, in);', None, 'a route follows another iff it starts where that one ends', I)
    f.add('irsame', 'u32 a, u32 b', 'interlocking_route x, y; x.id_ = a; y.id_ = b; return (x == y) == (a == b);', [['0', '1', '7']] * 2, 'interlocking routes are equal iff they have the same identifier', I)
    f.add('sub', 'idx a, idx b, idx c', 'sub_path p; p.from_ = a; p.to_ = b; return p.contains(c) == (a <= c && c < b);', [['0', '1', '7']] * 3, 'positions of a part of a route', I)
    n += done(f)
    f = fold(SR_MODEL, IR_MODEL, TRAIN, TBOX)
    # -- sequence points and trains
    Y = ['TRANSIT', 'OPERATIONS', 'PASSENGER', 'REQUEST']
    for y, fr, dep in itertools.product(Y, (0, 1), (0, 1)):
        want = 'halt' if y != 'TRANSIT' else 'cp' if dep else None
        b = world(['..', '....'], f'p = static_cast<idx>(p % 4); idx const g = static_cast<idx>((p + 1) % 4), c = static_cast<idx>((p + 2) % 4); s[1].passenger_halt_ = soro::optional<idx>{{p}}; s[1].freight_halt_ = soro::optional<idx>{{g}}; s[1].runtime_checkpoint_ = soro::optional<idx>{{c}}; tt::sequence_point q; q.station_route_ = 1; q.type_ = tt::sequence_point::type::{y}; ' + ('relative_time const dt{77}; q.departure_ = dt; ' if dep else '') + f'auto const h = static_cast<soro::rs::FreightTrain>({fr}); auto const i = q.get_node_idx(h, in); auto const k = q.get_node(h, in); ')
        f.add(f'at_{y}_{fr}_{dep}', 'idx p', b + ('return !i.has_value() && !k.has_value();' if want is None else f'idx const x = {"c" if want == "cp" else "g" if fr else "p"}; return i.has_value() && *i == x && k.has_value() && *k == &n[2 + x];'), [list('0123')], 'where a sequence point lies on its station route', Q, exhaustive=True)
    for c, om, sp in itertools.product('.MH', (0, 1), (0, 1)):
        f.add(f'omitted_{"dmh"[".MH".index(c)]}_{om}_{sp}', '', world([c], f'route_node rn; rn.node_ = &n[0]; rn.omitted_ = {str(bool(om)).lower()}; tt::sequence_point q; ', True) + f'tt::train_node t(rn, {"tt::sequence_point::optional_ptr(&q)" if sp else "{}"}); return t.omitted() == {str(bool(om or (c == "H" and not sp))).lower()} && t.node_ == &n[0] && t.sequence_point_.has_value() == {str(bool(sp)).lower()}{" && *t.sequence_point_ == &q" if sp else ""};', None, 'a node is left out iff its route leaves it out or it is a halt the train does not serve', T)
    # station routes (as kinds of nodes), positions where interlocking routes meet, stops (node numbers), flags
    W = [(['.H.', 'H.'], [0, 4], [1, 3]), (['.HM', 'M.H', '.'], [0, 2, 6], [1, 5]), (['H.M', '.HM', 'H.'], [0, 2, 5, 7], [0, 4, 6]), (['HM.', 'MH', '.H'], [0, 1, 3, 6], [0, 6]), (['H.M', 'M.H'], [0, 2, 3, 5], [0, 5]),
         (['H', 'MH'], [0, 1, 2], [0, 2]), (['.H', 'MM', 'H.'], [0, 2, 3, 5], [1, 4]), (['..H.', 'H...'], [1, 6], [2, 4]), (['..H', 'M..H..'], [1, 3, 7], [2, 6])] + ([(['HM', 'M', 'MH'], [0, 1, 2, 3, 4], [0, 4]), (['H.', 'M.', '.HM'], [0, 2, 6], [0, 5])] if th else [])
    for wi, (srs, cuts, stops) in enumerate(W):
        base = [sum(len(x) for x in srs[:r]) for r in range(len(srs) + 1)]
        N = base[-1]
        where = lambda p: [(r, p - base[r]) for r in range(len(srs)) if base[r] <= p < base[r + 1]][0]
        for bi, bo, fr in itertools.product((0, 1), (0, 1), (0, 1)):
            x = ''
            for r, kinds in enumerate(srs):
                h = [i for i, k in enumerate(kinds) if k == 'H']
                hs = [p for p in stops if where(p)[0] == r]
                if hs:
                    i = where(hs[0])[1]
                    x += f's[{r}].{"freight" if fr else "passenger"}_halt_ = soro::optional<idx>{{idx{{{i}}}}}; s[{r}].{"passenger" if fr else "freight"}_halt_ = soro::optional<idx>{{idx{{{(i + 1) % len(kinds)}}}}}; '
            x += 'tbox tb; tt::train& t = tb.t; t.physics_.freight_ = static_cast<soro::rs::FreightTrain>(%d); w.it.model_nodes_ = n; ' % fr
            for k in range(len(cuts) - 1):
                a, b = where(cuts[k]), where(cuts[k + 1] if cuts[k + 1] < N else N - 1)
                x += f'{{ interlocking_route ir; ir.id_ = {k}; ir.start_offset_ = {a[1]}; ir.end_offset_ = {b[1] + 1}; ' + ''.join(f'ir.station_routes_.push_back({r}); ' for r in range(a[0], b[0] + 1)) + f'w.it.interlocking_.routes_.push_back(ir); t.path_.push_back({k}); }} '
            for p in stops:
                x += f'{{ tt::sequence_point q; q.type_ = tt::sequence_point::type::PASSENGER; q.station_route_ = {where(p)[0]}; relative_time const dt{{dep}}; q.departure_ = dt; t.sequence_points_.push_back(q); }} '
            x += f't.break_in_ = {str(bool(bi)).lower()}; t.break_out_ = {str(bool(bo)).lower()}; '
            end = min(cuts[-1], N - 1)
            nodes = list(range(0 if bi else stops[0], (end if bo else stops[-1]) + 1))
            if bi:
                nodes = list(range(cuts[0], nodes[-1] + 1))

            def more(i, p):
                if p in stops:
                    return f'if (!r.d[{i}].sequence_point_.has_value() || *r.d[{i}].sequence_point_ != &t.sequence_points_[{stops.index(p)}]) return false; '
                return f'if (r.d[{i}].sequence_point_.has_value()) return false; '
            f.add(f'train_{wi}_{bi}_{bo}_{fr}', 'u32 dep', world(['.' * len(k) for k in srs], x) + seq('t.iterate(in)', nodes, more) + f'return t.get_start_node(in) == &n[{nodes[0]}] && t.first_station_route(in) == &s[{where(nodes[0])[0]}] && t.last_station_route(in) == &s[{where(nodes[-1])[0]}] && &t.first_interlocking_route(in) == &w.it.interlocking_.routes_[0] && &t.last_interlocking_route(in) == &w.it.interlocking_.routes_[{len(cuts) - 2}];',
                  [['0', '77']], f'train over {srs} with routes meeting at {cuts[1:-1]} and stops at {stops}{", entering" if bi else ""}{", leaving" if bo else ""}: nodes, stops and omitted halts', T)
    n += done(f)
    ctx.need(n, 300, 'witnesses')
