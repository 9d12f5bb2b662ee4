"""Graphs of trips: traversal, cycles, transitive edges and the ordering graph itself."""
import itertools
import random
from common import *
from fold import Fold

T, C, G, R, O, X = ('include/soro/utls/graph/traversal.h', 'include/soro/utls/graph/has_cycle.h', 'src/simulation/ordering/get_cycle.cc', 'src/simulation/ordering/remove_transitive_edges.cc',
                    'src/simulation/ordering/ordering_graph.cc', 'src/simulation/ordering/check_exclusion_paths.cc')

HEAD = f'''#define FV_COPY_EACH
#define EAGER_CAP 6
#include "{VERIF}/harness/witness/fixed_vec.h"
#include "{VERIF}/harness/witness/small_map.h"
#include "{VERIF}/harness/witness/small_queue.h"
#include <cassert>
#include <chrono>
#include <compare>
#include <coroutine>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <stack>
#include <string>
#include <unordered_map>
#include <variant>
#include "{VERIF}/harness/witness/fmt_fix.h"
#define WITNESS_BITS "{VERIF}/harness/witness/bits.h"
namespace std {{ template <typename T, typename A = void> using witness_vec = fv<T, 6>; template <typename K, typename V, typename C = void> using witness_map = small_map<K, V>;
  template <typename T> using witness_queue = small_queue<T>; template <typename T, typename X = void> using witness_stack = small_stack<T>; using ::small_pair; }}
#include <algorithm>
#include "{VERIF}/harness/witness/plain_algo.h"
#define vector witness_vec
#define map witness_map
#include "soro/base/soro_types.h"
#include "range/v3/range/conversion.hpp"
#include "utl/verify.h"
#include "utl/concat.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/pairwise.h"
#include "utl/timer.h"
#include "utl/logging.h"
#include "cista/containers/hash_set.h"
#include "cista/reflection/comparable.h"
#include "date/date.h"
namespace soro {{ template <typename T> using witness_vec = std::witness_vec<T>; }}
namespace cista::raw {{ template <typename T> using witness_set = small_set<T>; }}
namespace cista::offset {{ template <typename T> using witness_set = small_set<T>; }}
#define queue witness_queue
#define stack witness_stack
#define hash_set witness_set
#define pair small_pair
#include "soro/utls/graph/traversal.h"
namespace std::ranges::views {{ template <typename T> struct counting {{ using iterator_category = std::forward_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const*; using reference = T;
  T i; T operator*() const {{ return i; }} counting& operator++() {{ ++i; return *this; }} counting operator++(int) {{ return {{i++}}; }} bool operator==(counting const&) const = default; }};
  template <typename T> struct counting_range {{ T a, b; counting<T> begin() const {{ return {{a}}; }} counting<T> end() const {{ return {{b}}; }} }};
  template <typename A, typename B> auto w_iota(A a, B b) {{ using T = std::common_type_t<A, B>; return counting_range<T>{{static_cast<T>(a), static_cast<T>(b)}}; }} }}
#define iota w_iota
#include "soro/utls/graph/has_cycle.h"
#include "soro/utls/std_wrapper/contains.h"
#undef iota
#undef hash_set
#undef queue
#undef stack
#undef pair
'''
OG = f'''#include "soro/infrastructure/infrastructure.h"
#include "soro/timetable/timetable.h"
#include "{REPO}/src/infrastructure/graph/type_set.cc"
#include "soro/runtime/runtime.h"
#include "soro/simulation/ordering/ordering_graph.h"
namespace soro {{
static inline absolute_time A(uint32_t s) {{ return absolute_time{{absolute_time::duration{{s}}}}; }}
static inline bool lists(fv<uint32_t, 6> const& v, uint32_t m, int k) {{ if (v.n != k) return false; uint32_t s = 0; for (int i = 0; i < v.n; ++i) s |= 1u << v.d[i]; return s == m; }}
}}
using namespace soro::simulation; using namespace soro::infra;
'''
TAIL = '''#undef vector
#undef map
using namespace soro; using u32 = uint32_t;
struct gr { fv<u32, 6> o[4]; };
struct gr2 { fv<u32, 6> o; };
'''


def graphs(n, loops=False):
    pairs = [(a, b) for a in range(n) for b in range(n) if loops or a != b]
    for k in range(1 << len(pairs)):
        yield [p for i, p in enumerate(pairs) if k >> i & 1]


def drawn(k, seed, dag=False):
    """graphs with four nodes, numbered arbitrarily"""
    rnd, seen = random.Random(seed), []
    for _ in range(k):
        p, q = rnd.sample(range(4), 4), rnd.choice((.4, .5, .6))
        es = [(p[a], p[b]) for a in range(4) for b in range(4) if (a < b or (not dag and a > b and rnd.random() < .5)) and rnd.random() < (.85 if dag else q)]
        rnd.shuffle(es)
        if es and max(map(max, es)) == 3 and sorted(es) not in seen:
            seen.append(sorted(es))
            yield es


def reach(n, es, s):
    r, todo = set(), [s]
    while todo:
        x = todo.pop()
        for a, b in es:
            if a == x and b not in r:
                r.add(b); todo.append(b)
    return r


def run(ctx):
    th = ctx.thorough
    incs = [f'{VERIF}/harness/{x}_shim' for x in ('ordering', 'eager', 'throw', 'log')]
    mk = lambda *parts, **kw: Fold(ctx, HEAD + ''.join(parts) + TAIL, incs=incs, stubs=True, gcc=False, deep='only', **{'nest': True, 'peel': 1, 'again': 7, **kw})
    ctx.explain = ('every graph with three nodes (and a selection with four) is traversed, searched for cycles and reduced, ordering graphs are built from enumerated timetables, exclusion sets and filters, each by the code of the repository; '
                   'what comes out is compared with the mathematical definition computed by the check, and the compiler must reduce each comparison to true')
    n = 0
    f = mk()
    bits = lambda es: ''.join(f'{a}{b}_' for a, b in es)
    k4 = 24 if th else 6
    for es in itertools.chain(graphs(3), drawn(4 * k4, 3)):
        lists = 'gr g; ' + ''.join(f'g.o[{a}].push_back({b}); ' for a, b in es)
        # distances from 0
        dist, lay, d = {0: 0}, {0}, 0
        while lay:
            d += 1
            lay = {b for a, b in es if a in lay and b not in dist}
            dist.update({x: d for x in lay})
        seen = [x for x in dist if x]
        eds = [(a, b) for a, b in es if a in dist]
        for how in ('bfs', 'dfs'):
            b = lists + 'fv<u32, 6> v, p; fv<u32, 12> ea, eb; ' + f'utls::{how}(u32{{0}}, [&](u32 x) -> auto const& {{ return g.o[x]; }}, [&](u32 to, u32 from) {{ v.push_back(to); p.push_back(from); return false; }}, [&](u32 from, u32 to) {{ ea.push_back(from); eb.push_back(to); return false; }}); '
            b += f'if (v.n != {len(seen)} || ea.n != {len(eds)}) return false; '
            b += ''.join(f'{{ int c = 0; for (int i = 0; i < {len(seen)}; ++i) c += v.d[i] == {x}; if (c != 1) return false; }} ' for x in seen)
            b += ''.join(f'{{ int c = 0; for (int i = 0; i < {len(eds)}; ++i) c += ea.d[i] == {x} && eb.d[i] == {y}; if (c != 1) return false; }} ' for x, y in eds)
            ok = lambda i: '(' + ' || '.join(f'(p.d[{i}] == {x} && v.d[{i}] == {y})' for x, y in es if y and (how == 'dfs' or dist.get(x, 9) + 1 == dist.get(y))) + ')'
            b += ''.join(f'if (!{ok(i)}) return false; ' for i in range(len(seen)))
            if how == 'bfs':
                ix = lambda x: f'(' + ''.join(f'v.d[{i}] == {x} ? {i} : ' for i in range(len(seen))) + '-1)'
                b += ''.join(f'if ({ix(x)} > {ix(y)}) return false; ' for x in seen for y in seen if dist[x] < dist[y])
            f.add(f'{how}_{bits(es)}', '', b + 'return true;', None, f'{how} from 0 over {es}: every node it can reach once, from one that leads to it, every edge there once', T)
        if seen:
            for how in ('bfs', 'dfs'):
                f.add(f'{how}_stop_{bits(es)}', 'u32 k', lists + 'fv<u32, 6> v; int e = 0; ' + f'utls::{how}(u32{{0}}, [&](u32 x) -> auto const& {{ return g.o[x]; }}, [&](u32 to, u32) {{ v.push_back(to); return true; }}, [&](u32, u32) {{ ++e; return false; }}); return v.n == 1 && e == {len([1 for a, _ in es if a == 0])};', [['0']], f'{how} over {es} stops when asked to', T)
    f.run()
    n += len(f.ws)
    # -- is there a cycle at all
    f = mk(again=9, rec=1)
    for es in [e for k, e in enumerate(graphs(3, True)) if not any(a == b for a, b in e) or th or k % 7 == 3] + list({tuple(sorted(e)): e for e in [*drawn(2 * k4, 5), *drawn(k4, 6, True)]}.values()):
        m = max([3, *(max(e) + 1 for e in es)])
        cyc = any(a in reach(m, es, a) for a in range(m))
        b = f'fv<gr2, 6> g({m}); ' + ''.join(f'g.d[{x}].o.push_back({y}); ' for x, y in es)
        f.add(f'cycle_{bits(es)}', '', b + f'return utls::has_cycle(g, [](auto const& ns, std::size_t i) -> auto const& {{ return ns[i].o; }}) == {str(cyc).lower()};', None, f'{es}: {"has" if cyc else "has no"} cycle', C)
    f.run()
    n += len(f.ws)
    # -- graphs of trips
    def nodes(es, k, irs=None):
        return 'ordering_graph g; g.nodes_.resize(%d); ' % k + ''.join(f'g.nodes_[{i}].id_ = {i}; g.nodes_[{i}].ir_id_ = {i if irs is None else irs[i]}; ' for i in range(k)) + ''.join(f'g.nodes_[{a}].out_.push_back({b}); g.nodes_[{b}].in_.push_back({a}); ' for a, b in es)
    def same(k, out, inn):
        return ''.join(f'if (!lists(g.nodes_[{i}].out_, {sum(1 << x for x in out[i])}u, {len(out[i])}) || !lists(g.nodes_[{i}].in_, {sum(1 << x for x in inn[i])}u, {len(inn[i])}) || g.nodes_[{i}].id_ != {i}) return false; ' for i in range(k))
    f = mk(OG, f'#include "{REPO}/{G}"\n', again=9)
    for k, es in enumerate(itertools.chain(graphs(3, True), drawn(3 * k4, 7), [[(0, 1), (0, 2), (1, 0), (2, 3), (3, 0)], [(3, 1), (3, 0), (0, 3), (1, 2), (2, 3)]])):
        if any(a == b for a, b in es) and not (th or k % 7 == 5):
            continue
        m = max([3, *(max(e) + 1 for e in es)])
        def length(s):
            d, lay = 0, {s}
            for d in range(1, 6):
                lay = {b for a, b in es if a in lay}
                if s in lay:
                    return d
        ls = [length(s) for s in range(m)]
        E = ' || '.join(f'(a == {x} && b == {y})' for x, y in es) or 'false'
        cl = f'auto const closed = [](simulation::cycle const& c) {{ for (std::size_t i = 0; i < c.size(); ++i) {{ u32 const a = c[i], b = c[i + 1 < c.size() ? i + 1 : 0]; if (!({E})) return false; }} return true; }}; '
        if any(ls):
            f.add(f'shortest_{bits(es)}', '', nodes(es, m) + cl + f'auto const c = get_cycle(g); return c.has_value() && c->size() == {min(x for x in ls if x)} && closed(*c);', None, f'shortest cycle of {es}', G)
        else:
            f.add(f'none_{bits(es)}', '', nodes(es, m) + 'return !get_cycle(g).has_value() && get_cycles(g).empty();', None, f'{es}: no cycle', G)
        if any(ls) and (th or k % 3 == 0 or m == 4):
            on = [s for s in range(m) if ls[s]]
            f.add(f'cycles_{bits(es)}', '', nodes(es, m) + cl + f'auto const cs = get_cycles(g); if (cs.size() != {len(on)}) return false; ' + ''.join(f'if (cs[{j}].size() != {ls[s]} || !closed(cs[{j}]) || !utls::contains(cs[{j}], {s}u)) return false; ' for j, s in enumerate(on)) + 'return true;', None, f'the shortest cycle through every node of {es}', G)
    f.run()
    n += len(f.ws)
    f = mk(OG, f'#include "{REPO}/{R}"\n', again=9)
    for perm in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)):
        for es in graphs(4):
            if any(a > b for a, b in es):
                continue
            if perm != (0, 1, 2, 3) and not len(es) >= (3 if th else 6 if perm[0] == 2 else 5):
                continue
            red = [(a, b) for a, b in es if not any(b in reach(4, es, c) for x, c in es if x == a and c != b)]
            pe = [(perm[a], perm[b]) for a, b in es]
            pr = [(perm[a], perm[b]) for a, b in red]
            out = [[b for a, b in pr if a == i] for i in range(4)]
            inn = [[a for a, b in pr if b == i] for i in range(4)]
            f.add(f'reduce_{"".join(map(str, perm))}_{bits(es)}', '', nodes(pe, 4) + 'remove_transitive_edges(g); ' + same(4, out, inn) + 'return true;', None, f'without the edges of {pe} that a longer path replaces, {pr} remain', R)
    f.run()
    n += len(f.ws)
    # -- conflicting routes are ordered
    f = mk(OG, f'#include "{REPO}/{X}"\n', again=9)
    for j, (irs, sets) in enumerate(itertools.product(((0, 1, 2), (0, 1, 0), (2, 2, 2)), ([], [[0, 1]], [[0, 1], [1, 2]], [[0, 1, 2]], [[0], [1], [2]]))):
        of = lambda r: {x for s in sets if r in s for x in s}
        world = 'infrastructure infra; infra.t_.interlocking_.routes_.resize(3); infra.t_.exclusion_.irs_to_exclusion_sets_.resize(3); ' + ''.join(f'infra.t_.interlocking_.routes_[{r}].id_ = {r}; ' for r in range(3))
        world += ''.join(f'{{ interlocking_route::ids s; ' + ''.join(f's.push_back({r}); ' for r in s) + 'infra.t_.exclusion_.exclusion_sets_.push_back(s); } ' for s in sets) + ''.join(f'infra.t_.exclusion_.irs_to_exclusion_sets_[{r}].push_back({i}); ' for i, s in enumerate(sets) for r in s)
        for k, es in enumerate(graphs(3)):
            if (k * 7 + j) % (5 if th else 24):
                continue
            ok = all(irs[b] not in of(irs[a]) or b in reach(3, es, a) or a in reach(3, es, b) for a in range(3) for b in range(3) if a != b)
            f.add(f'paths_{j}_{bits(es)}', '', world + nodes(es, 3, irs) + f'return has_exclusion_paths(g, infra) == {str(ok).lower()};', None, f'nodes using routes {irs}, {sets} exclude each other, edges {es}: {"every" if ok else "not every"} conflict is ordered', X)
    f.run()
    n += len(f.ws)
    # -- the graph of a timetable
    f = mk(OG, f'#include "soro/simulation/ordering/remove_transitive_edges.h"\nnamespace soro::simulation {{ __attribute__((const, noinline)) void print_ordering_graph_stats(ordering_graph const&); void remove_transitive_edges(ordering_graph& g) {{ for (auto& x : g.nodes_) x.ir_id_ += 100; }} }}\n#include "{REPO}/{O}"\n', again=9)
    rnd, j = random.Random(7), -1
    while j < (90 if th else 30):
        sets = [sorted(rnd.sample(range(3), rnd.choice((1, 2, 2, 3)))) for _ in range(rnd.choice((1, 1, 2, 3)))]
        trains, total, times, day = [], 0, rnd.sample(range(1, 80), 40), rnd.choice((0, 86400))
        for t in range(rnd.choice((1, 2, 2, 3))):
            k = rnd.choice((1, 2, 2, 3, 3, 4))
            anchors = [day] if rnd.random() < .6 else sorted(rnd.sample((0, 86400, 172800), rnd.choice((1, 2))))
            sig = 0 if k == 1 else k - 1
            if total + (k * len(anchors) if sig else 0) > 6:
                continue
            total += k * len(anchors) if sig else 0
            ts = sorted(times.pop() for _ in range(sig + 2))
            trains.append(dict(id=t * 2 + 1, path=[rnd.randrange(3) for _ in range(k)], anchors=anchors, dep=ts[0], sig=[(x, x + rnd.choice((0, 1, 30, 70))) for x in ts[1:-1]], arr=ts[-1] + rnd.choice((1, 40))))
        lo, hi = rnd.choice(((None, None), (None, None), (0, 86400), (86400, 90000), (1, 500000)))
        only = rnd.choice(([], [], [], [1], [3, 1], [5], [9]))
        ns, trips, use, edges = [], [], [[] for _ in sets], set()
        for t in trains:
            if only and t['id'] not in only or not t['sig']:
                continue
            for a in t['anchors']:
                if lo is not None and not lo <= a <= hi:
                    continue
                first = len(ns)
                for i, (r, tm, out) in enumerate(zip(t['path'], [t['dep']] + [x for x, _ in t['sig']], [t['sig'][0][0]] + [x for _, x in t['sig'][:-1]] + [t['arr']])):
                    for s, m in enumerate(sets):
                        if r in m:
                            use[s].append((a + tm, len(ns), a + out))
                    if i:
                        edges.add((len(ns) - 1, len(ns)))
                    ns.append((r, t['id']))
                trips.append((t['id'], a, first, len(ns)))
        if any(len({x for x, *_ in u}) != len(u) for u in use):
            continue
        hard = any(x[1] > y[1] for u in use for x, y in zip(u, u[1:])) or any(sorted(u) != sorted(u, key=lambda x: x[2]) for u in use)
        if not hard and (len(ns) < 3 or j % 3) and not (j % 6 == 1 and trains):
            continue
        j += 1
        for u in use:
            u.sort()
            edges |= {(x[1], y[1]) for x, y in zip(u, u[1:])}
        w = 'infrastructure infra; tt::timetable tt; infra.t_.exclusion_.irs_to_exclusion_sets_.resize(4); ' + ''.join(f'{{ interlocking_route::ids s; ' + ''.join(f's.push_back({r}); ' for r in s) + 'infra.t_.exclusion_.exclusion_sets_.push_back(s); } ' for s in sets) + ''.join(f'infra.t_.exclusion_.irs_to_exclusion_sets_[{r}].push_back({i}); ' for i, s in enumerate(sets) for r in s)
        for t in trains:
            w += f'{{ tt::train& t = tt.t_.trains_.d[tt.t_.trains_.n++]; t.id_ = {t["id"]}; t.dep_ = relative_time{{{t["dep"]}}}; t.arr_ = relative_time{{{t["arr"]}}}; ' + ''.join(f't.path_.push_back({r}); ' for r in t['path']) + ''.join(f't.anchors_.push_back(A({a})); ' for a in t['anchors']) + ''.join(f't.signals_.push_back({{relative_time{{{a}}}, relative_time{{{b}}}}}); ' for a, b in t['sig']) + '} '
        w += 'ordering_graph::filter fl; ' + (f'fl.interval_.start_ = A({lo}); fl.interval_.end_ = A({hi}); ' if lo is not None else '') + ''.join(f'fl.trains_.push_back({i}); ' for i in only)
        w += 'ordering_graph const g(infra, tt); ' if lo is None and not only and j % 2 else 'ordering_graph const g(infra, tt, fl); '
        w += f'if (g.nodes_.size() != {len(ns)} || g.trip_to_nodes_.size() != {len(trips)}) return false; '
        out = [[b for a, b in edges if a == i] for i in range(len(ns))]
        inn = [[a for a, b in edges if b == i] for i in range(len(ns))]
        f.add(f'graph_{j}', '', w + same(len(ns), out, inn) + 'return true;', None, f'orderings of {trains} with exclusions {sets}, only {only or "all"} in {(lo, hi) if lo is not None else "every interval"}', O)
        b = ''.join(f'if (g.nodes_[{i}].ir_id_ != {100 + r} || g.nodes_[{i}].train_id_ != {t}) return false; ' for i, (r, t) in enumerate(ns))
        b += ''.join(f'{{ auto const s = g.trip_nodes(tt::train::trip{{.train_id_ = {i}, .anchor_ = A({a})}}); if (s.data() != &g.nodes_[{x}] || s.size() != {y - x}) return false; }} ' for i, a, x, y in trips)
        b += ''.join(f'if (&g.nodes_[{k}].next(g) != &g.nodes_[{k + 1}]) return false; ' for i, a, x, y in trips for k in range(x, y - 1))
        f.add(f'nodes_{j}', '', w + b + 'return true;', None, f'nodes and trips of {trains}, only {only or "all"} in {(lo, hi) if lo is not None else "every interval"}', O)
    f.run()
    n += len(f.ws)
    ctx.need(n, 400, 'witnesses')
