"""Names of element types: dataset tags -> type and type -> short name."""
import re
from common import *
import facts, ceval

# dataset tag -> element type it denotes (frozen from the dataset's documentation; F = falling, S = rising kilometrage)
TAGS = {}


def both(stem, t):
    TAGS[stem + 'F'] = t
    TAGS[stem + 'S'] = t


for stem, t in (('Bremsweg', 'BRAKE_PATH'), ('Fahrzeitmesspunkt', 'RUNTIME_CHECKPOINT'), ('ETCSAnfang', 'ETCS_START'), ('ETCSEnde', 'ETCS_END'), ('ETCSBlockkennzeichen', 'ETCS_BLOCK_SIGN'),
                ('LZBAnfang', 'LZB_START'), ('LZBEnde', 'LZB_END'), ('LZBBlockkennzeichen', 'LZB_BLOCK_SIGN'), ('GeschwZulaessig', 'SPEED_LIMIT'), ('Punktgeschw', 'POINT_SPEED'),
                ('Hauptsignal', 'MAIN_SIGNAL'), ('Schutzsignal', 'PROTECTION_SIGNAL'), ('Vorsignal', 'APPROACH_SIGNAL'), ('SignalZugschlussstelle', 'EOTD')):
    both(stem, t)
for stem, t in (('GeschwEndeSpeziell', 'SPEED_LIMIT'), ('FstrZugschlussstelle', 'EOTD'), ('HalteplatzGz', 'HALT'), ('HalteplatzRzLinks', 'HALT'), ('HalteplatzRzRechts', 'HALT'),
                ('HalteplatzRzBeide', 'HALT'), ('HalteplatzRzRechtsLinks', 'HALT'), ('Zwangshalt', 'FORCED_HALT')):
    both(stem, t)
TAGS.update({'Gleisbezeichnung': 'TRACK_NAME', 'Bahnuebergang': 'LEVEL_CROSSING', 'Zugang': 'ENTRY', 'Fahrzeitmesspunkt': 'RUNTIME_CHECKPOINT_UNDIRECTED', 'KmSprungAnfang': 'KM_JUMP',
             'KmSprungEnde': 'KM_JUMP', 'Neigung': 'SLOPE', 'Prellbock': 'BUMPER', 'Gleisende': 'TRACK_END', 'Betriebsstellengrenze': 'BORDER', 'Weichenanfang': 'SIMPLE_SWITCH',
             'Weichenstamm': 'SIMPLE_SWITCH', 'WeichenabzweigLinks': 'SIMPLE_SWITCH', 'WeichenabzweigRechts': 'SIMPLE_SWITCH', 'Streckenwechsel0': 'LINE_SWITCH', 'Streckenwechsel1': 'LINE_SWITCH',
             'Tunnel': 'TUNNEL'})
for k in ('Kreuzung', 'Kreuzungsweiche'):
    for a in ('Anfang', 'Ende'):
        for b in ('Links', 'Rechts'):
            TAGS[k + a + b] = 'CROSS'


def run(ctx):
    ctx.explain = ('constant propagation through the two naming functions for every element type and every dataset tag: each type has its own non-empty short name and none falls through to the '
                   'error exit; each tag of the tag vocabulary yields the type it denotes whatever its direction; the two spellings of the lookup agree; unknown tags give the invalid type')
    p = facts.load(['src/infrastructure/graph/type.cc'])
    types = p.enums.get('soro::infra::type')
    fstr, fget = p.by_q.get('soro::infra::get_type_str'), p.by_q.get('soro::infra::get_type')
    if not types or not fstr or not fget:
        raise AnalysisError('get_type / get_type_str / type not found')
    val = {e['n']: int(e['v']) for e in types['vals']}
    rev = {v: k for k, v in val.items()}
    names = {}
    for t, v in val.items():
        outs = ceval.Eval(p).call(fstr[0], [v])
        where = facts.loc(fstr[0])
        if any(k == 'throw' for k, _ in outs):
            ctx.violate(f'name-throws:{t}', f'{where}: get_type_str({t}) can leave through the error exit')
            continue
        if len(outs) != 1 or not isinstance(outs[0][1], str):
            ctx.undecided(f'get_type_str({t}) not constant: {outs}')
            continue
        s = outs[0][1]
        ctx.check(s != '', f'{t} has a non-empty name', f'name-empty:{t}', f'{where}: get_type_str({t}) is empty')
        if s in names:
            ctx.violate(f'name-dup:{t}', f'{where}: {t} and {names[s]} share the name "{s}"')
        else:
            ctx.ok(f'{t} is named "{s}"')
        names[s] = t
    ctx.need(len(names), 25, 'type names')

    # tag vocabulary: string constants of the dataset
    lits = {}
    for v in p.vars.values():
        if v['file'].endswith('iss_string_literals.h') and v.get('init') and v['init']['k'] == 'str':
            lits[v['init']['s']] = v['n']
    ctx.need(len(lits), 100, 'tag literals')
    n = 0
    for tag, c in sorted(lits.items()):
        res = []
        for f in fget:
            outs = ceval.Eval(p).call(f, [tag])
            res.append(outs[0][1] if len(outs) == 1 and outs[0][0] == 'ret' else None)
        if any(not isinstance(r, int) for r in res):
            ctx.undecided(f'get_type("{tag}") not constant')
            continue
        if len(set(res)) != 1:
            ctx.violate(f'tag-overloads:{c}', f'{facts.loc(fget[0])}: the lookups by character array and by string disagree on "{tag}"')
            continue
        got = rev.get(res[0], '?')
        exp = EXPECT.get(tag, 'INVALID')
        if tag in EXPECT:
            n += 1
        ctx.check(got == exp, f'tag "{tag}" denotes {exp}', f'tag:{tag}', f'{facts.loc(fget[0])}: tag "{tag}" ({c}) is read as {got}, it denotes {exp}')
    for tag in EXPECT:
        if tag not in lits:
            outs = [ceval.Eval(p).call(f, [tag]) for f in fget]
            for o in outs:
                if len(o) == 1 and isinstance(o[0][1], int) and rev.get(o[0][1]) != EXPECT[tag]:
                    ctx.violate(f'tag:{tag}', f'{facts.loc(fget[0])}: tag "{tag}" is read as {rev.get(o[0][1])}, it denotes {EXPECT[tag]}')
    ctx.need(n, 60, 'element tags')
    for tag in ('', 'x', 'HauptsignalX', 'Hauptsignal', 'hauptsignalS', 'HauptsignalS ', 'Tunnel2'):
        for f in fget:
            o = ceval.Eval(p).call(f, [tag])
            if len(o) == 1 and isinstance(o[0][1], int):
                ctx.check(rev.get(o[0][1]) == 'INVALID', f'unknown tag "{tag}" gives the invalid type', f'unknown:{tag}', f'{facts.loc(f)}: unknown tag "{tag}" is read as {rev.get(o[0][1])}')


EXPECT = dict(TAGS)
