"""Error codes: every failure kind has its own code, its own text, and belongs to its own family."""
import re
from common import *
from fold import Fold
import facts, ceval

FAM = {'rolling_stock': ('src/rolling_stock/rolling_stock_error.cc', 'include/soro/rolling_stock/rolling_stock_error.h'),
       'timetable': ('src/timetable/timetable_error.cc', 'include/soro/timetable/timetable_error.h'),
       'kss': ('src/timetable/parsers/kss/kss_error.cc', 'include/soro/timetable/parsers/kss/kss_error.h'),
       'route_transform': ('src/timetable/parsers/route_transform_error.cc', 'include/soro/timetable/parsers/route_transform_error.h')}
SYN = {'ir': ['interlocking', 'route'], 'infra': ['infrastructure'], 'no': ['no', 'not'], 'tt': ['timetable']}


def words(name):
    res = []
    for w in name.lower().split('_'):
        res += SYN.get(w, [w])
    return res


def score(name, msg):
    m = set(re.findall(r'[a-z]+', msg.lower()))
    ws = words(name)
    if 'unique' not in ws and 'unique' in m:
        return sum(1 for w in ws if w in m) / len(ws) - 0.3
    if 'first' not in ws and 'first' in m:
        return sum(1 for w in ws if w in m) / len(ws) - 0.3
    return sum(1 for w in ws if w in m) / len(ws)


def category_type(p, n, seen=()):
    """static class of the category object an expression denotes, or None"""
    while n:
        if n['k'] in ('cast', 'paren') or (n['k'] == 'un' and n.get('op') in '*&'):
            n = n['a'][0]
            continue
        t = re.sub(r'\b(const|struct|class)\b|[&*]', '', n.get('t') or '').strip()
        if t and t not in ('std::error_category',):
            return t
        if n['k'] == 'call':
            f = p.funcs.get((n.get('d') or {}).get('u', ''))
            if not f or f['u'] in seen or not f.get('body'):
                return None
            ts = {category_type(p, x['e'], seen + (f['u'],)) for x in facts.walk(f['body']) if x.get('k') == 'return' and x.get('e')}
            return ts.pop() if len(ts) == 1 else None
        return None
    return None


def run(ctx):
    ctx.explain = ('for each family and each enumerator: the code is registered, non-zero, round-trips and is truthy (compiler-IR normalisation); constant propagation through the text and name functions '
                   'gives a proper, distinct text that fits its own enumerator better than any other, and distinct family names; the category object a code is made with is the unit\'s own class')
    names, nmsg = {}, 0
    for fam, (cc, hh) in FAM.items():
        p = facts.load([cc])
        if p.missing:
            raise AnalysisError(f'{cc} missing')
        E = p.enums.get('soro::error::' + fam)
        if not E:
            raise AnalysisError(f'enum soro::error::{fam} missing')
        vals = {e['n']: int(e['v']) for e in E['vals']}
        f = Fold(ctx, f'#include <system_error>\n#include "{REPO}/{cc}"\nusing E = soro::error::{fam};\n', allow=r'__cxa_guard_(acquire|release)|(__cxa_)?atexit|_ZNK?St.*error_categoryD\d')
        f.add(f'{fam}_registered', '', 'std::is_error_code_enum_v<E> && !std::is_error_condition_enum_v<E>', None, f'{fam} is registered as a kind of error code', hh)
        for n, v in vals.items():
            f.add(f'{fam}_{n}', '', f'std::error_code const c = soro::error::make_error_code(E::{n}); return c.value() == static_cast<int>(E::{n}) && c.value() != 0 && static_cast<bool>(c);', None,
                  f'{fam}::{n} makes a non-success code with its own number', cc)
        f.add(f'{fam}_distinct', '', ' && '.join(f'static_cast<int>(E::{a}) != static_cast<int>(E::{b})' for i, a in enumerate(vals) for b in list(vals)[i + 1:]) or 'true', None,
              f'{fam}: enumerators are distinct', hh)
        f.run()
        for n, v in vals.items():
            ctx.check(v != 0, f'{fam}::{n} is not the success value', f'zero:{fam}:{n}', f'{hh}: {fam}::{n} has the value 0 that means success')
        # category class
        mk = [g for g in p.by_q.get('soro::error::make_error_code', []) if g.get('body')]
        if not mk:
            raise AnalysisError(f'make_error_code of {fam} missing')
        ty = None
        for n in facts.ftree(mk[0]):
            if n.get('k') == 'return' and n.get('e'):
                args = [x for x in facts.walk(n['e']) if x.get('k') in ('init', 'ctor', 'list') and len(x.get('a', [])) == 2]
                if args:
                    ty = category_type(p, args[0]['a'][1])
        msgf = [g for q, gs in p.by_q.items() if q.endswith('::message') for g in gs if g.get('body')]
        namef = [g for q, gs in p.by_q.items() if q.endswith('::name') for g in gs if g.get('body')]
        if ty:
            short = ty.split('::')[-1]
            own = {g['q'].split('::')[-2] for g in msgf}
            ctx.check(short in own, f'{fam} codes are made with {short}', f'category:{fam}', f'{facts.loc(mk[0])}: {fam} codes carry category {ty}, whose texts are not defined in {cc} ({own})')
        else:
            ctx.undecided(f'{fam}: category class of make_error_code not resolved')
        for g in namef:
            o = ceval.Eval(p).call(g, [])
            if len(o) == 1 and isinstance(o[0][1], str):
                s = o[0][1]
                ctx.check(s != '' and s not in names, f'{fam} family is called "{s}"', f'family-name:{fam}', f'{facts.loc(g)}: family name "{s}" of {fam} is empty or already used by {names.get(s)}')
                names.setdefault(s, fam)
            else:
                ctx.undecided(f'{fam}: name() not constant')
        for g in msgf:
            fb = ceval.Eval(p).call(g, [987654])
            fb = fb[0][1] if len(fb) == 1 else None
            texts = {}
            for n, v in vals.items():
                o = ceval.Eval(p).call(g, [v])
                nmsg += 1
                if any(k == 'throw' for k, _ in o):
                    ctx.violate(f'text-throws:{fam}:{n}', f'{facts.loc(g)}: the text of {fam}::{n} can throw')
                elif len(o) == 1 and isinstance(o[0][1], str):
                    t = o[0][1]
                    ok = t.strip() != '' and t != fb and t not in texts.values()
                    ctx.check(ok, f'{fam}::{n} reads "{t}"', f'text:{fam}:{n}', f'{facts.loc(g)}: {fam}::{n} has text "{t}", which is '
                              + ('empty' if not t.strip() else 'the text for unknown codes' if t == fb else 'also the text of another code'))
                    texts[n] = t
                else:
                    ctx.undecided(f'{fam}::{n}: text not constant')
            ks = list(texts)
            for i, a in enumerate(ks):
                for b in ks[i + 1:]:
                    own = score(a, texts[a]) + score(b, texts[b])
                    crs = score(a, texts[b]) + score(b, texts[a])
                    ctx.check(own >= crs - 1e-9, f'texts of {fam}::{a} and ::{b} are not interchanged', f'swapped:{fam}:{a}:{b}',
                              f'{facts.loc(g)}: {fam}::{a} reads "{texts[a]}" and {fam}::{b} reads "{texts[b]}" - each text fits the other enumerator')
                    if score(a, texts[a]) == 0:
                        ctx.violate(f'unrelated:{fam}:{a}', f'{facts.loc(g)}: text "{texts[a]}" of {fam}::{a} shares no word with the failure it names')
    ctx.need(nmsg, 15, 'texts')
