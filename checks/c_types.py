"""Element-type taxonomy: a partition, a complete enumeration, exact sets and counters."""
from common import *
from fold import Fold

END = ['BUMPER', 'TRACK_END']
SIMPLE = ['KM_JUMP', 'BORDER', 'LINE_SWITCH']
SWITCH = ['SIMPLE_SWITCH']
CROSS = ['CROSS']
LZB = ['LZB_START', 'LZB_END', 'LZB_BLOCK_SIGN']
ETCS = ['ETCS_START', 'ETCS_END', 'ETCS_BLOCK_SIGN']
DIRECTED = ['MAIN_SIGNAL', 'PROTECTION_SIGNAL', 'APPROACH_SIGNAL', 'RUNTIME_CHECKPOINT', 'EOTD', 'SPEED_LIMIT', 'POINT_SPEED', 'BRAKE_PATH'] + LZB + ETCS + ['FORCED_HALT', 'META', 'HALT']
UNDIRECTED = ['TUNNEL', 'ENTRY', 'TRACK_NAME', 'RUNTIME_CHECKPOINT_UNDIRECTED', 'LEVEL_CROSSING', 'SLOPE']
ALL = END + SIMPLE + SWITCH + CROSS + DIRECTED + UNDIRECTED
PRED = {'is_end_element': END, 'is_simple_element': SIMPLE, 'is_simple_switch': SWITCH, 'is_cross': CROSS, 'is_directed_track_element': DIRECTED,
        'is_undirected_track_element': UNDIRECTED, 'is_track_element': DIRECTED + UNDIRECTED, 'is_section_element': END + SIMPLE + SWITCH + CROSS,
        'is_border': ['BORDER'], 'is_halt': ['HALT'], 'is_lzb': LZB, 'is_etcs': ETCS, 'is_runtime_checkpoint': ['RUNTIME_CHECKPOINT', 'RUNTIME_CHECKPOINT_UNDIRECTED']}


def run(ctx):
    ctx.explain = ('for every element type the classification predicates agree with the frozen taxonomy (each type in exactly one of end/simple/switch/cross/directed/undirected), '
                   'identifiers convert back and forth, the enumeration lists every type once, a type set contains exactly what it was built from, and statistics count per type')
    H = 'include/soro/infrastructure/graph/type.h'
    pre = ('#include <cstdint>\n#include <limits>\n#include <utility>\n#include "soro/infrastructure/graph/type.h"\n#include "soro/infrastructure/graph/type_set.h"\n#include "soro/infrastructure/infra_stats.h"\n'
           f'#include "{REPO}/src/infrastructure/graph/type_set.cc"\nusing namespace soro::infra;\n')
    f = Fold(ctx, pre, incs=[f'{VERIF}/harness/fold_shim'], stubs=True)
    for p, members in PRED.items():
        for t in ALL:
            f.add(f'{p}_{t}', '', f'{"" if t in members else "!"}{p}(type::{t})', None, f'{p}({t}) is {t in members}', H)
    ids = [str(i) for i in range(len(ALL))]
    f.add('partition', 'uint8_t i', f'if (i >= {len(ALL)}) return true; auto const t = id_to_type(i); return int(is_end_element(t)) + int(is_simple_element(t)) + int(is_simple_switch(t)) + int(is_cross(t)) + int(is_directed_track_element(t)) + int(is_undirected_track_element(t)) == 1;',
          [ids], 'every type lies in exactly one class', H, exhaustive=True)
    f.add('track_or_section', 'uint8_t i', f'if (i >= {len(ALL)}) return true; auto const t = id_to_type(i); return is_track_element(t) != is_section_element(t);', [ids], 'a type is either a track or a section element', H, exhaustive=True)
    f.add('id_roundtrip', 'uint8_t i', 'type_to_id(id_to_type(i)) == i', [ids], 'type identifiers convert back and forth', H)
    f.add('count', '', f'type_count == {len(ALL)}', None, f'there are {len(ALL)} types', H)
    for t in ALL:
        f.add(f'type_roundtrip_{t}', '', f'id_to_type(type_to_id(type::{t})) == type::{t} && type_to_id(type::{t}) < type_count && type::{t} != type::INVALID', None, f'{t} is a numbered type', H)
        f.add(f'enumerated_once_{t}', '', f'auto const a = all_types(); int n = 0; for (auto const x : a) n += x == type::{t}; return n == 1 && a.size() == type_count;', None, f'{t} is enumerated exactly once', H)
    f.add('invalid_not_enumerated', '', 'for (auto const x : all_types()) if (x == type::INVALID) return false; return true;', None, 'the invalid marker is not enumerated', H)
    # type sets
    TS = 'src/infrastructure/graph/type_set.cc'
    for nm, members in (('three', ['HALT', 'BORDER', 'SLOPE']), ('one', ['CROSS']), ('dup', ['EOTD', 'EOTD', 'ENTRY']), ('none', [])):
        for t in ALL:
            lst = ', '.join(f'type::{m}' for m in members)
            f.add(f'set_{nm}_{t}', '', f'type_set const s{{{"" if members else "std::initializer_list<type>{}"}{lst}}}; return {"" if t in members else "!"}s.contains(type::{t});', None, f'the set {{{", ".join(members)}}} {"contains" if t in members else "does not contain"} {t}', TS)
        f.add(f'set_{nm}_size', '', f'type_set const s{{{"" if members else "std::initializer_list<type>{}"}{lst}}}; return s.end() - s.begin() == {len(members)};' if nm != 'dup' else 'type_set const s{type::EOTD, type::EOTD, type::ENTRY}; return s.end() - s.begin() >= 2;', None, f'size of set {nm}', TS)
    for t in ALL:
        f.add(f'full_set_{t}', '', f'type_set const s{{all_types()}}; return s.contains(type::{t});', None, f'the full set contains {t}', TS)
    f.add('full_set_invalid', '', 'type_set const s{all_types()}; return !s.contains(type::INVALID);', None, 'the full set does not contain the invalid marker', TS)
    # statistics
    IS = 'include/soro/infrastructure/infra_stats.h'
    for t in ALL:
        f.add(f'stats_slot_{t}', 'uint64_t v', f'infra_stats s; s.number(type::{t}) = v; bool ok = true; for (auto const o : all_types()) ok = ok && std::as_const(s).number(o) == (o == type::{t} ? v : 0); return ok && s.total_elements() == v && s.sections_ == 0 && s.stations_ == 0;', [['0', '1', '17']], f'counting {t} changes only its own counter and the total', IS)
    f.add('stats_total', 'uint64_t v, uint64_t w', 'infra_stats s; s.number(type::BUMPER) = v; s.number(type::SLOPE) += w; s.number(type::HALT)++; s.sections_ = 5; s.stations_ = 7; return s.total_elements() == v + w + 1;', [['0', '1', '17'], ['0', '3']], 'the total is the sum of the per-type counters', IS)
    f.run()
    ctx.need(len(f.ws), 500, 'witnesses')
