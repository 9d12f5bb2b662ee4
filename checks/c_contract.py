"""Client/server contract: every address the client requests reaches the right handler with the right values; answers carry the declared fields
with the data their name says; names of the store, element types and map tags agree between the parts."""
import re, os, json
from common import *
import facts, ceval
from c_requests import routes

# API call -> (handler, values expected at the captures of its route)
API = {
    'infrastructures': ('serve_infrastructure_names', []),
    'infrastructure.boundingBox': ('serve_bounding_box', ['infrastructure#0']),
    'infrastructure.stations': ('serve_station_names', ['infrastructure#0']),
    'infrastructure.station': ('serve_station', ['infrastructure#0', 'infrastructure.station#0']),
    'infrastructure.stationRoute': ('serve_station_route', ['infrastructure#0', 'infrastructure.stationRoute#0']),
    'infrastructure.interlockingRoute': ('serve_interlocking_route', ['infrastructure#0', 'infrastructure.interlockingRoute#0']),
    'infrastructure.element': ('serve_element', ['infrastructure#0', 'infrastructure.element#0']),
    'infrastructure.search': ('serve_search', ['infrastructure#0', 'infrastructure.search#0']),
    'infrastructure.timetables': ('serve_timetable_names', ['infrastructure#0']),
    'infrastructure.timetable.get': ('serve_timetable', ['infrastructure#0', 'infrastructure.timetable#0']),
    'infrastructure.timetable.ordering': ('serve_ordering_graph', ['infrastructure#0', 'infrastructure.timetable#0'] + [f'infrastructure.timetable.ordering#{i}' for i in range(3)]),
}
# field of an answer -> data it must carry (members that may deliver it)
FIELDS = {
    'serve_station': {'id': {'id_'}, 'ds100': {'ds100_'}, 'stationRoutes': {'station_routes_'}, 'interlockingRouteIds': {'station_to_irs_'}},
    'serve_station_names': {'stations': {'stations_'}},
    'serve_station_route': {'id': {'id_'}, 'name': {'name_'}, 'ds100': {'ds100_'}, 'path': {'element_positions_'}, 'fromElement': {'front'}, 'toElement': {'back'}},
    'serve_interlocking_route': {'id': {'id_'}, 'path': {'element_positions_'}},
    'serve_bounding_box': {'boundingBox': {'element_positions_'}},
    'serve_infrastructure_names': {'infrastructures': {'infrastructures_'}},
    'serve_timetable_names': {'timetables': {'timetables_'}},
    'serve_element': {'signal': {'signal_'}, 'rising': {'rising_'}, 'falling': {'falling_'}, 'name': {'name_'}, 'passenger': {'is_passenger_'}, 'idExtern': {'identifier_extern_'},
                      'idOp': {'identifier_operational_'}, 'limit': {'limit_'}, 'pointOfActivation': {'poa_'}, 'kilometrage': {'km_'}, 'line': {'line_'}},
    'soro::utls::gps': {'lon': {'lon_'}, 'lat': {'lat_'}},
    'soro::infra::station_route *': {'id': {'id_'}, 'name': {'name_'}, 'fromElement': {'front'}, 'toElement': {'back'}},
    'soro::infra::station *': {'id': {'id_'}, 'ds100': {'ds100_'}},
    'soro::tt::interval': {'start': {'start_'}, 'end': {'end_'}},
    'soro::tt::timetable': {'source': {'source_'}, 'interval': {'interval_'}},
    'soro::server::search_module::result': {'type': {'type_'}, 'id': {'id_'}, 'name': {'name_'}, 'boundingBox': {'bounding_box_'}, 'elementType': {'element_type_'}},
    'serialize_ordering_graph': {'key': {'id_'}, 'attributes.train': {'train_id_'}, 'attributes.route': {'ir_id_'}, 'attributes.offset': {'id_'}, 'source': {'id_'}, 'target': {'out_'}},
}
SAMPLES = {'string': ['abc', 'de_iss-2', 'A1_b-C'], 'number': ['0', '7', '1645'], 'array': ['', '5', '5,16,7']}


def norm(t):
    t = re.sub(r'\bconst\b', ' ', t or '')
    t = t.replace('&', ' ')
    return re.sub(r'\s+', ' ', t).strip().replace('* ', '*')


class Server:
    def __init__(s, p):
        s.p = p
        s.lam = {}
        s.ser = {}
        for f in p.funcs.values():
            if f.get('dep') or not f.get('body'):
                continue
            if f.get('lambda') and f.get('in'):
                s.lam.setdefault(f['in'], []).append(f)
            if f.get('n') in ('cereal_serialize', 'cereal_save') and len(f.get('params') or ()) >= 2 and (f.get('q') or '').startswith('soro::'):
                s.ser[norm(f['params'][1]['t'])] = f

    # ---- what an expression is computed from
    def env(s, f):
        """decl id -> [expressions it takes its value from]"""
        if '_cenv' in f:
            return f['_cenv']
        e = {}
        for n in facts.ftree(f):
            k = n.get('k')
            if k == 'decl':
                for v in n.get('vars', ()):
                    if v.get('init') is not None:
                        e.setdefault(v['id'], []).append(v['init'])
                    for b in v.get('bind', ()):
                        e.setdefault(b['id'], []).append(v['init'])
            elif k == 'rfor' and n.get('var'):
                e.setdefault(n['var']['id'], []).append(n.get('range'))
                for b in n['var'].get('bind', ()):
                    e.setdefault(b['id'], []).append(n.get('range'))
            elif k == 'lambda':
                for c in n.get('caps', ()):
                    if c.get('init') is not None and (c['init'].get('k') != 'ref' or c['init'].get('id') != c.get('id')):
                        e.setdefault(c['id'], []).append(c['init'])
            elif k in ('bin', 'call') and n.get('op') in ('=', '+=') and k == 'bin':
                l = n.get('a') or n.get('l')
        f['_cenv'] = e
        return e

    def mentions(s, n, f, seen=None, depth=0):
        """(names of members / methods the value is taken from, unresolved?)"""
        seen = seen if seen is not None else set()
        res, open_ = set(), False
        for x in facts.walk(n):
            if not isinstance(x, dict):
                continue
            k = x.get('k')
            if k == 'mem':
                res.add(x['n'])
            elif k == 'ref':
                i = x.get('id')
                if i is None or (f.get('u'), i) in seen:
                    continue
                seen.add((f.get('u'), i))
                owner = f
                srcs = s.env(f).get(i)
                while srcs is None and owner.get('in') and s.p.funcs.get(owner['in']):
                    owner = s.p.funcs[owner['in']]
                    srcs = s.env(owner).get(i)
                if srcs is None:
                    pi = [a for a in f.get('params', ()) if a['id'] == i]
                    if not pi:
                        open_ = True
                    continue
                for e in srcs:
                    r, o = s.mentions(e, owner, seen, depth)
                    res |= r
                    open_ |= o
            elif k == 'call':
                d = x.get('d') or {}
                if d.get('n') in ('front', 'back', 'keys', 'values') and not any(y.get('k') == 'mem' and y['n'] == 'path_params_' for y in facts.walk(x)):
                    res.add(d['n'])
                g = s.p.funcs.get(d.get('u'))
                if g and g.get('body') and not g.get('dep') and depth < 4 and d.get('repo') and g['u'] not in seen and d.get('n') not in ('cereal_serialize',):
                    seen.add(g['u'])
                    for y in facts.ftree(g):
                        if y.get('k') == 'return' and y.get('e') is not None:
                            r, o = s.mentions(y['e'], g, seen, depth + 1)
                            res |= r
                elif d.get('k') is None:
                    open_ = True
            elif k == 'lambda':
                for u in [x.get('u')] + list(x.get('insts', ())):
                    g = s.p.funcs.get(u)
                    if g and g.get('body') and g['u'] not in seen:
                        seen.add(g['u'])
                        for y in facts.ftree(g):
                            if y.get('k') == 'return' and y.get('e') is not None:
                                r, o = s.mentions(y['e'], g, seen, depth + 1)
                                res |= r
        return res, open_

    # ---- fields written by a function
    def fields(s, f, seen=None):
        """[(key, value expr, function, node, alternative)] of the object the function writes"""
        seen = seen if seen is not None else set()
        if f['u'] in seen:
            return []
        seen.add(f['u'])
        res = []
        for n in facts.ftree(f):
            if n.get('k') == 'call':
                d = n.get('d') or {}
                if d.get('n') == 'make_nvp':
                    key = None
                    a = n['a'][0]
                    ss = [x for x in facts.walk(a) if x.get('k') == 'str']
                    if ss:
                        key = ss[0]['s']
                    else:
                        for x in facts.walk(a):
                            if x.get('k') == 'ref':
                                v = next((v for v in s.p.vars.values() if v.get('u') == (x.get('d') or {}).get('u') or v.get('q') == (x.get('d') or {}).get('q')), None) if x.get('d') else None
                                if v and v.get('init') and v['init'].get('k') == 'str':
                                    key = v['init']['s']
                                for e in s.env(f).get(x.get('id'), ()):
                                    for y in facts.walk(e):
                                        if y.get('k') == 'str':
                                            key = y['s']
                    res.append((key, n['a'][1], f, n, f['u'] if f.get('lambda') else ''))
                elif d.get('repo') and any('JSONOutputArchive' in (q or '') for q in (d.get('params') or ())) and d.get('n') not in ('cereal_serialize', 'cereal_save'):
                    g = s.p.funcs.get(d.get('u'))
                    if g and g.get('body'):
                        res += s.fields(g, seen)
            if n.get('k') == 'lambda':
                for u in [n.get('u')] + list(n.get('insts', ())):
                    g = s.p.funcs.get(u)
                    if g and g.get('body') and not g.get('dep'):
                        res += s.fields(g, seen)
        return res

    def shape(s, t, depth=0):
        t = norm(t)
        f = s.ser.get(t)
        if f and depth < 6:
            fs = s.fields(f)
            if fs:
                return {'fields': {k: s.shape(e.get('t'), depth + 1) for k, e, *_ in fs if k}}
            el = []
            for n in facts.ftree(f):
                if n.get('k') == 'call' and (n.get('d') or {}).get('n') == 'operator()' and len(n.get('a', ())) >= 2:
                    for a in n['a'][1:]:
                        if 'SizeTag' not in (a.get('t') or ''):
                            el.append(s.shape(a.get('t'), depth + 1))
            if el:
                return {'array': el[0] if all(e == el[0] for e in el) else 'any'}
            return 'any'
        if re.match(r'(std::(__cxx11::)?basic_string(_view)?<char|(cista::)?(offset::|raw::)?basic_string|char ?\*|char\[)', t):
            return 'string'
        if t == 'bool':
            return 'boolean'
        if re.fullmatch(r'(unsigned |signed )?(char|short|int|long|long long|float|double|unsigned)|u?int\d+_t|std::size_t|long double', t):
            return 'number'
        m = re.match(r'(?:std::vector|cista::basic_vector|std::span|std::set)<(.*)$', t)
        if m:
            d, o = 0, ''
            for c in m.group(1):
                if c == '<':
                    d += 1
                if c == '>':
                    d -= 1
                if d < 0 or (c == ',' and d == 0):
                    break
                o += c
            return {'array': s.shape(o, depth + 1)}
        if re.match(r'ranges::|soro::utls::(recursive_)?generator<|std::ranges::', t):
            return {'array': 'any'}
        return 'any'


def subshape(c, sv):
    """first declared field the server's shape does not deliver, or None"""
    if c == 'any' or sv == 'any':
        return None
    if isinstance(c, str):
        if isinstance(sv, dict):
            return f'{c} declared, {"an object" if "fields" in sv else "a list"} delivered'
        return None if c == sv else f'{c} declared, {sv} delivered'
    if 'union' in c:
        return None
    if 'array' in c:
        if isinstance(sv, dict) and 'array' in sv:
            return subshape(c['array'], sv['array'])
        return f'a list declared, {sv if isinstance(sv, str) else "an object"} delivered'
    if 'fields' in c:
        if not isinstance(sv, dict) or 'fields' not in sv:
            return 'an object declared, ' + (sv if isinstance(sv, str) else 'a list') + ' delivered'
        for k, v in c['fields'].items():
            if k not in sv['fields']:
                if v['optional']:
                    continue
                return f'field {k} is not delivered (delivered: {", ".join(sorted(sv["fields"]))})'
            e = subshape(v['shape'], sv['fields'][k])
            if e:
                return f'{k}: {e}'
    return None


def client_facts():
    r = sh(['node', f'{VERIF}/tool/client.mjs', f'{REPO}/web/client/src'], timeout=120)
    if r.returncode:
        raise AnalysisError('client analysis failed:\n' + r.stderr[-1500:])
    return json.loads(r.stdout)


def url_for(parts, types, i):
    """concrete address with the i-th sample of every parameter -> (address, {parameter: text})"""
    u, vals = '', {}
    n = 0
    for x in parts:
        if 'l' in x:
            u += x['l']
        elif 'p' in x:
            t = types.get(x['p'], 'string')
            if isinstance(t, dict):
                t = 'array'
            if t not in SAMPLES:
                t = 'string'
            v = SAMPLES[t][i % 3]
            n += 1
            if t == 'string':
                v += 'xyz'[n % 3] * n      # distinct values, so that swaps show
            elif v:
                v += str(n)
            vals[x['p']] = v
            u += v.replace(',', x['sep']) if 'sep' in x else v
        else:
            return None, None
    return u, vals


def check_addresses(ctx, cl, rs, sv):
    byapi = {a['api']: a for a in cl['api']}
    handlers = {}
    order = [(m, rx, hs) for m, rx, hs, g, site in rs if rx]
    n = 0
    for api, (want, caps) in API.items():
        a = byapi.get(api)
        if a is None:
            ctx.undecided(f'{api}: no such call in the client')
            continue
        if a.get('unresolved') or not a['requests'] or any(q['url'] is None or any('u' in x for x in q['url']) for q in a['requests']):
            ctx.undecided(f'{api}: address not resolved')
            continue
        n += 1
        types = {}
        for b in cl['api']:
            for x, t in zip(b.get('params', ()), b.get('ptypes', ())):
                types[x] = t
        for q in a['requests']:
            if q['method'] and q['method'] != 'GET':
                ctx.violate(f'method:{api}', f'{a["at"]}: {api} is sent as {q["method"]}, the server only answers GET')
            bad = False
            for i in range(3):
                u, vals = url_for(q['url'], types, i)
                hit = [(rx, hs, re.fullmatch(rx.rstrip('$'), u)) for m, rx, hs in order if rx != '.*' and re.fullmatch(rx.rstrip('$'), u)]
                if not hit:
                    ctx.violate(f'address:{api}', f'web/client/src/{a["at"]}: {api} requests {u}, which matches no route of the server (handler {want})')
                    bad = True
                    break
                rx, hs, m = hit[0]
                names = [h.get('q', '').split('::')[-1] for h in hs]
                if want not in names:
                    if any(want in [h.get('q', '').split('::')[-1] for h in x[2]] for x in order):
                        ctx.violate(f'address:{api}', f'web/client/src/{a["at"]}: {api} requests {u}, which is answered by {", ".join(names)} instead of {want}')
                    else:
                        ctx.undecided(f'{api}: handler {want} not found')
                    bad = True
                    break
                got = list(m.groups())
                exp = [vals.get(c) for c in caps]
                if got[:len(exp)] != exp:
                    k = next((j for j in range(len(exp)) if j >= len(got) or got[j] != exp[j]), 0)
                    ctx.violate(f'values:{api}', f'web/client/src/{a["at"]}: {api} requests {u}; value {k} of route {rx} is {got[k] if k < len(got) else "missing"!r} instead of {caps[k]}')
                    bad = True
                    break
            if not bad:
                ctx.ok(f'{api} -> {want}, values in place')
                for h in hs:
                    if h.get('q', '').split('::')[-1] == want:
                        handlers[api] = h
    ctx.need(n, 8, 'API calls resolved')
    # tiles
    t, pre = cl.get('tiles'), cl.get('tilePrefix')
    if t and pre:
        u = ''
        ok = True
        for x in pre['parts']:
            if 'l' in x:
                u += x['l']
            elif x.get('p') == 'relativeUrl':
                u += t['v'].replace('{z}', '12').replace('{x}', '345').replace('{y}', '67')
            elif 'p' in x:
                u += 'infra_1'
        m = [(rx, hs, re.fullmatch(rx.rstrip('$'), u)) for m_, rx, hs in order if rx != '.*' and re.fullmatch(rx.rstrip('$'), u)]
        if 'infra_1' not in u:
            ctx.undecided('tile address not resolved')
        elif not m:
            ctx.violate('address:tiles', f'web/client/src/{pre["at"]}: map tiles are requested as {u}, which matches no route')
        else:
            ctx.check('serve_tile' in [h.get('q', '').split('::')[-1] for h in m[0][1]] and m[0][2].groups() == ('infra_1', '12', '345', '67'), 'tiles -> serve_tile, values in place', 'address:tiles',
                      f'web/client/src/{pre["at"]}: map tiles {u} are answered by {[h.get("q") for h in m[0][1]]} with {m[0][2].groups()}')
    else:
        ctx.undecided('tile address not found')
    return byapi, handlers


def alts(fs):
    d = {}
    for k, e, f, n, alt in fs:
        d.setdefault(alt, set()).add(k)
    return d


def check_shapes(ctx, byapi, handlers, sv):
    for api, h in handlers.items():
        a = byapi[api]
        where = f'web/client/src/{a["at"]}'
        hn = h['q'].split('::')[-1]
        if hn == 'serve_ordering_graph':
            continue
        fs = sv.fields(h)
        c = a['answer']
        if hn == 'serve_search':
            # the list is the root of the answer
            r = next((f for t, f in sv.ser.items() if t.endswith('search_module::result')), None)
            if not r:
                ctx.undecided('search result serializer not found')
                continue
            e = subshape(c, {'array': {'fields': {k: sv.shape(x.get('t')) for k, x, *_ in sv.fields(r)}}})
            ctx.check(e is None, f'{api}: declared fields delivered', f'fields:{api}', f'{where}: answer of {api} does not fit what {facts.loc(r)} delivers: {e}')
            continue
        if not fs or any(k is None for k, *_ in fs):
            ctx.undecided(f'{api}: fields of {hn} not resolved')
            continue
        keys = {k: sv.shape(x.get('t')) for k, x, *_ in fs}
        if isinstance(c, dict) and 'union' in c:
            al = alts(fs)
            common = al.get('', set())
            for v in c['union']:
                if 'fields' not in v:
                    continue
                req = {k for k, x in v['fields'].items() if not x['optional']}
                ctx.check(any(req <= s_ | common for a_, s_ in al.items() if a_), f'{api}: variant {sorted(req)} delivered', f'fields:{api}:{"+".join(sorted(req))}',
                          f'{where}: no variant of {hn} ({facts.loc(h)}) delivers the fields {", ".join(sorted(req))} the client declares (delivered: {"; ".join(", ".join(sorted(x)) for a_, x in al.items() if a_)})')
            continue
        if isinstance(c, dict) and 'fields' in c:
            # a direct answer also has to carry the fields that are "only available when fetched directly"
            c2 = {'fields': {k: dict(v, optional=False) for k, v in c['fields'].items()}}
            e = subshape(c2, {'fields': keys})
            ctx.check(e is None, f'{api}: declared fields delivered', f'fields:{api}', f'{where}: answer of {api} does not fit what {hn} ({facts.loc(h)}) delivers: {e}')
    # data behind every field
    every = set().union(*[x for d in FIELDS.values() for x in d.values()])
    n = 0
    for key, f in [(h['q'].split('::')[-1], h) for h in handlers.values()] + [(t, f) for t, f in sv.ser.items()]:
        tab = FIELDS.get(key)
        if not tab:
            continue
        for k, e, g, node, alt in sv.fields(f):
            want = tab.get(k)
            if not want:
                continue
            m, open_ = sv.mentions(e, g)
            n += 1
            if m & want:
                # other end of the same pair mentioned as well?
                twin = {'front': 'back', 'back': 'front', 'lon_': 'lat_', 'lat_': 'lon_', 'start_': 'end_', 'end_': 'start_', 'rising_': 'falling_', 'falling_': 'rising_',
                        'identifier_extern_': 'identifier_operational_', 'identifier_operational_': 'identifier_extern_'}.get(next(iter(m & want)))
                if twin and twin in m:
                    ctx.undecided(f'{key}.{k}: taken from both {twin} and {sorted(m & want)[0]}')
                else:
                    ctx.ok(f'{key}.{k} carries {sorted(m & want)[0]}')
            elif m & every and not open_:
                ctx.violate(f'data:{key}.{k}', f'{facts.loc(g, node)}: field "{k}" of {key} carries {", ".join(sorted(m & every))} instead of {"/".join(sorted(want))}')
            else:
                ctx.undecided(f'{facts.loc(g, node)}: data behind "{k}" of {key} not resolved')
    ctx.need(n, 15, 'fields traced to their data')
    # corners of a bounding box, in order
    f = sv.ser.get('soro::utls::bounding_box')
    if f:
        seq = []
        for n_ in facts.ftree(f):
            if n_.get('k') == 'call' and (n_.get('d') or {}).get('n') == 'operator()':
                for a in n_['a'][1:]:
                    m, _ = sv.mentions(a, f)
                    seq += [x for x in ('south_west_', 'north_east_') if x in m]
        ctx.check(seq == ['south_west_', 'north_east_'], 'bounding box is written south-west, north-east', 'data:bounding_box', f'{facts.loc(f)}: a bounding box is written as {seq} instead of south-west, north-east')


def check_ordering(ctx, cl, sv):
    p = sv.p
    fs = [f for f in p.funcs.values() if f.get('n') == 'serialize_ordering_graph' and f.get('body') and not f.get('dep')]
    if not fs:
        ctx.undecided('serialize_ordering_graph not found')
        return
    f = fs[0]
    env = sv.env(f)
    writers = {}   # writer var id -> {'stack': [...], 'keys': {path: expr}}
    bufof = {}
    for n in facts.ftree(f):
        if n.get('k') == 'decl':
            for v in n.get('vars', ()):
                if 'Writer' in (v.get('t') or ''):
                    for x in facts.walk(v.get('init') or {}):
                        if x.get('k') == 'ref' and x.get('id') is not None:
                            bufof[x['id']] = v['id']
                    writers[v['id']] = dict(stack=[], key=None, keys={}, n=v.get('n'))
    # all writer calls in program order, helper functions taking a writer are followed
    def events(g, wmap, depth=0):
        for n in facts.ftree(g):
            if n.get('k') != 'call':
                continue
            d = n.get('d') or {}
            o = n.get('o') or n.get('b') or (n['a'][0] if d.get('k') == 'CXXMethod' and n.get('a') and 'Writer' in (n['a'][0].get('t') or '') else None)
            if d.get('rec', '').startswith('rapidjson::') or 'rapidjson' in (d.get('q') or ''):
                base = o
                rest = n.get('a') or []
                if base is not None and rest and rest[0] is base:
                    rest = rest[1:]
                w = None
                for x in facts.walk(base or {}):
                    if x.get('k') == 'ref' and x.get('id') in wmap:
                        w = wmap[x['id']]
                if w is None:
                    continue
                yield w, d.get('n'), rest, n, g
            elif d.get('repo') and depth < 3 and any('Writer' in (q or '') for q in (d.get('params') or ())):
                h = p.funcs.get(d.get('u'))
                if h and h.get('body'):
                    m = {}
                    for a, q in zip(n.get('a') or [], h.get('params') or []):
                        for x in facts.walk(a):
                            if x.get('k') == 'ref' and x.get('id') in wmap:
                                m[q['id']] = wmap[x['id']]
                    yield from events(h, m, depth + 1)
    for w, m, args, n, g in events(f, {k: k for k in writers}):
        s = writers[w]
        if m in ('StartObject', 'StartArray'):
            s['stack'].append((m, s['key']))
            s['key'] = None
        elif m in ('EndObject', 'EndArray'):
            if s['stack']:
                s['stack'].pop()
            s['key'] = None
        elif m in ('String', 'Key', 'Uint', 'Int', 'Uint64', 'Int64', 'Double', 'Bool'):
            inobj = s['stack'] and s['stack'][-1][0] == 'StartObject'
            if inobj and s['key'] is None and m in ('String', 'Key'):
                ss = [x['s'] for a in args for x in facts.walk(a) if x.get('k') == 'str']
                s['key'] = ss[0] if ss else '?'
            else:
                path = '.'.join([k for _, k in s['stack'] if k] + [s['key'] or ''])
                s['keys'][path] = (args[0] if args else None, n, g)
                s['key'] = None
    if not writers or not any(s['keys'] for s in writers.values()):
        ctx.undecided('ordering graph: no writer resolved')
        return
    # which writer ends up under which name
    place = {}
    cur = None
    text = []
    for n in facts.ftree(f):
        if n.get('k') == 'str' and '"' in n['s'] and ':' in n['s']:
            mm = re.findall(r'"(\w+)"\s*:', n['s'])
            if mm:
                text.append((n.get('i', 0), 'name', mm[-1], n))
        if n.get('k') == 'call' and (n.get('d') or {}).get('n') == 'GetString':
            for x in facts.walk(n):
                if x.get('k') == 'ref' and x.get('id') in bufof:
                    text.append((n.get('i', 0), 'buf', bufof[x['id']], n))
                    break
    text.sort(key=lambda x: x[0])
    for _, k, v, n in text:
        if k == 'name':
            cur = v
        elif cur:
            place[cur] = v
            cur = None
    need = {'attributes': {'totalTrains'}, 'nodes': {'key'}, 'edges': {'source', 'target'}}
    for r in cl['reads']:
        if r['where'] == 'graph':
            need['attributes'].add(r['key'])
        else:
            need['nodes'].add('attributes.' + r['key'])
    for part, ks in need.items():
        w = place.get(part)
        if w is None:
            if place:
                ctx.violate(f'ordering:{part}', f'{facts.loc(f)}: the ordering graph is delivered without "{part}" (delivered: {", ".join(sorted(place))})')
            else:
                ctx.undecided(f'ordering graph: parts not resolved')
            continue
        have = set(writers[w]['keys'])
        for k in sorted(ks):
            ctx.check(k in have, f'ordering graph {part}.{k} delivered', f'ordering:{part}.{k}', f'{facts.loc(f)}: "{k}" is read from the {part} of the ordering graph but the server writes {", ".join(sorted(have)) or "nothing"} there')
    every = set().union(*FIELDS['serialize_ordering_graph'].values())
    for w in writers.values():
        for k, (e, n, g) in w['keys'].items():
            want = FIELDS['serialize_ordering_graph'].get(k)
            if not want or e is None:
                continue
            m, open_ = sv.mentions(e, g)
            last = direct(e)
            if last and last in every and last not in want and last != 'out_':
                ctx.violate(f'ordering-data:{k}', f'{facts.loc(g, n)}: "{k}" of the ordering graph carries {last} instead of {"/".join(sorted(want))}')
            elif m & want:
                ctx.ok(f'ordering graph {k} carries {sorted(m & want)[0]}')
            else:
                ctx.undecided(f'ordering graph {k}: data not resolved')


def direct(e):
    """member the expression reads directly (through casts and parentheses)"""
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'ctor') and (e.get('e') or e.get('a')):
        e = e.get('e') or e['a'][0]
    return e['n'] if isinstance(e, dict) and e.get('k') == 'mem' else None


def capset(sv, n, f, capmap, seen=None):
    """captures of the request an expression depends on"""
    seen = seen if seen is not None else set()
    res = set()
    if not isinstance(n, dict):
        return res
    i = capidx(n, capmap)
    if i is not None:
        return {i}
    for x in facts.children(n):
        res |= capset(sv, x, f, capmap, seen)
    if n.get('k') == 'ref' and n.get('id') is not None and n['id'] not in seen:
        seen.add(n['id'])
        for e in sv.env(f).get(n['id'], ()):
            res |= capset(sv, e, f, capmap, seen)
    return res


def capidx(n, capmap):
    """n is path_params_[i] / .at(i) / .front() / .back()"""
    if n.get('k') not in ('call', 'index', 'sub'):
        return None
    d = n.get('d') or {}
    nm = d.get('n')
    if nm not in ('operator[]', 'at', 'front', 'back'):
        return None
    kids = list(facts.children(n))
    base = n.get('o') or n.get('b') or (kids[0] if kids else None)
    if base is None:
        return None
    nc = None
    b = base
    while isinstance(b, dict) and b.get('k') in ('cast', 'paren'):
        b = b.get('e')
    if isinstance(b, dict) and b.get('k') == 'mem' and b['n'] == 'path_params_':
        nc = capmap['n']
    elif isinstance(b, dict) and b.get('k') == 'ref' and b.get('id') in capmap:
        nc = capmap['n']
    if nc is None:
        return None
    if nm == 'front':
        return 0
    if nm == 'back':
        return nc - 1
    for x in kids[1:] or kids:
        for y in facts.walk(x):
            if y.get('k') in ('int', 'lit') and y is not base and str(y.get('v')).isdigit():
                return int(y['v'])
            if 'cv' in y and y is not base and isinstance(y.get('cv'), (int, str)) and str(y['cv']).isdigit():
                return int(y['cv'])
    return None


# what a callee expects at its argument positions (from the front, without the object): captured values
ROLE = {'get_infra': [0], 'get_timetable': [0, 1]}
ASSIGN = {'start_': 2, 'end_': 3, 'trains_': 4}


def check_values(ctx, rs, sv):
    from c_requests import captures
    n_ = 0
    for m, rx, hs, g, site in rs:
        if not rx or rx == '.*':
            continue
        nc = captures(rx)
        for h in hs:
            if not h.get('body'):
                continue
            todo = [(h, {'n': nc})]
            seen = set()
            while todo:
                f, cm = todo.pop()
                if f['u'] in seen:
                    continue
                seen.add(f['u'])
                for v in [v for n in facts.ftree(f) if n.get('k') == 'decl' for v in n.get('vars', ())]:
                    i = v.get('init')
                    while isinstance(i, dict) and i.get('k') in ('cast', 'paren'):
                        i = i.get('e')
                    if isinstance(i, dict) and i.get('k') == 'mem' and i.get('n') == 'path_params_':
                        cm[v['id']] = True
                for n in facts.ftree(f):
                    k = n.get('k')
                    if k == 'call':
                        d = n.get('d') or {}
                        args = n.get('a') or []
                        if d.get('n') in ROLE:
                            args = [a for a in args if 'module' not in (a.get('t') or '')]
                            for a, want in zip(args, ROLE[d['n']]):
                                got = capset(sv, a, f, cm)
                                if len(got) == 1:
                                    n_ += 1
                                    ctx.check(got == {want}, f'{f["q"].split("::")[-1]}: {d["n"]} is given value {want}', f'role:{f["q"].split("::")[-1]}:{d["n"]}:{want}',
                                              f'{facts.loc(f, n)}: {d["n"]} is given value {got.pop()} of the request instead of value {want} (route {rx})')
                        u = d.get('u')
                        c = sv.p.funcs.get(u)
                        if c and c.get('body') and d.get('repo'):
                            cm2 = {'n': nc}
                            for a, q in zip(args, c.get('params') or []):
                                for x in [a]:
                                    while isinstance(x, dict) and x.get('k') in ('cast', 'paren'):
                                        x = x.get('e')
                                    if isinstance(x, dict) and ((x.get('k') == 'mem' and x.get('n') == 'path_params_') or (x.get('k') == 'ref' and x.get('id') in cm)):
                                        cm2[q['id']] = True
                            if len(cm2) > 1:
                                todo.append((c, cm2))
                    t = None
                    if k == 'bin' and n.get('op') == '=':
                        kids = list(facts.children(n))
                        t, v = kids[0], kids[1]
                    elif k == 'call' and (n.get('d') or {}).get('n') == 'operator=' and len(n.get('a') or ()) == 2:
                        t, v = n['a']
                    if t is not None:
                        while isinstance(t, dict) and t.get('k') in ('cast', 'paren'):
                            t = t.get('e')
                        if isinstance(t, dict) and t.get('k') == 'mem' and t['n'] in ASSIGN and nc == 5:
                            got = capset(sv, v, f, cm)
                            if len(got) == 1:
                                n_ += 1
                                want = ASSIGN[t['n']]
                                ctx.check(got == {want}, f'{t["n"]} takes value {want} of the request', f'role:{t["n"]}', f'{facts.loc(f, n)}: {t["n"]} takes value {got.pop()} of the request instead of value {want} (route {rx})')
    ctx.need(n_, 8, 'request values traced to their use')


def check_store(ctx, cl):
    st = cl['stores']
    if '' not in st or len(st) < 2:
        ctx.undecided('stores not found')
        return
    for w in cl['wiring']:
        if w['name'] is None or w['ns'] is None:
            ctx.undecided(f'{w["at"]}: name not resolved')
            continue
        s = st.get(w['ns'])
        if s is None:
            ctx.violate(f'store:{w["ns"]}', f'web/client/src/{w["at"]}: module "{w["ns"]}" is not registered in the store')
            continue
        if w['kind'] not in s:
            continue
        ctx.check(w['name'] in s[w['kind']], f'{w["ns"]}.{w["kind"]}.{w["name"]}', f'store:{w["ns"]}.{w["kind"]}.{w["name"]}',
                  f'web/client/src/{w["at"]}: {w["kind"]} "{w["name"]}" does not exist in store "{w["ns"]}" ({s["at"]})')
    ctx.need(len(cl['wiring']), 20, 'store names used')


# client constant -> element type of the server
CT = {'SWITCH': 'SIMPLE_SWITCH', 'END_OF_TRAIN_DETECTOR': 'EOTD', 'RTCP': 'RUNTIME_CHECKPOINT'}


def check_vocabulary(ctx, cl, sv):
    p = sv.p
    et = cl['vocab'].get('ElementType')
    types = p.enums.get('soro::infra::type')
    fn = [f for f in p.by_q.get('soro::infra::get_type_str', ()) if f.get('body') and 'type' in f['params'][0]['t']]
    if not et or not types or not fn:
        ctx.undecided('element vocabulary not found')
    else:
        name = {}
        for e in types['vals']:
            o = ceval.Eval(p).call(fn[0], [int(e['v'])])
            if len(o) == 1 and o[0][0] == 'ret' and isinstance(o[0][1], str):
                name[e['n']] = o[0][1]
        n = 0
        for c, v in et['v'].items():
            t = CT.get(c, c)
            if t not in name:
                continue
            n += 1
            ctx.check(v == name[t], f'{c} is called "{v}" on both sides', f'vocabulary:{c}', f'web/client/src/{et["at"]}: the client knows {c} as "{v}", the server delivers {t} as "{name[t]}" ({facts.loc(fn[0])})')
            if cl.get('icon'):
                u = ''.join(x.get('l', name[t]) for x in cl['icon']['parts'])
                ctx.check(os.path.exists(f'{REPO}/web/server/server_resources{u}'), f'icon {u} exists', f'icon:{c}', f'web/client/src/{cl["icon"]["at"]}: the icon {u} of {t} does not exist in web/server/server_resources')
        ctx.need(n, 12, 'element types known to both sides')
        lab = cl['vocab'].get('labels')
        if lab:
            have = [k for k, _ in lab['v']]
            for c in et['v']:
                ctx.check(have.count(c) == 1 and dict(lab['v'])[c], f'{c} has a label', f'label:{c}', f'web/client/src/{lab["at"]}: {c} has no label of its own')
            seen = {}
            for k, v in lab['v']:
                if v in seen:
                    ctx.violate(f'label-dup:{k}', f'web/client/src/{lab["at"]}: {k} and {seen[v]} share the label "{v}"')
                seen[v] = k
    # kinds of search results
    sr = cl['vocab'].get('SearchResultType')
    en = next((e for q, e in p.enums.items() if q.endswith('search_module::result::type')), None)
    f = next((f for f in p.funcs.values() if f.get('n') == 'type_to_string' and f.get('body') and 'search_module' in f['q']), None)
    if sr and en and f:
        for e in en['vals']:
            o = ceval.Eval(p).call(f, [int(e['v'])])
            if len(o) != 1 or not isinstance(o[0][1], str):
                ctx.undecided(f'name of search result kind {e["n"]} not constant')
                continue
            c = ''.join(w.capitalize() for w in e['n'].split('_'))
            v = sr['v'].get(c)
            ctx.check(v == o[0][1], f'search result kind {e["n"]} is "{v}" on both sides', f'kind:{e["n"]}', f'web/client/src/{sr["at"]}: {e["n"]} is delivered as "{o[0][1]}" ({facts.loc(f)}) but known to the client as {v!r}')
    else:
        ctx.undecided('kinds of search results not found')


KIND = {'soro::infra::station': 'STATION', 'soro::infra::station_route': 'STATION_ROUTE', 'soro::infra::interlocking_route': 'INTERLOCKING_ROUTE', 'soro::infra::element': 'ELEMENT'}
CONT = {'full_station_names_': 'STATION', 'stations_': 'STATION', 'station_routes_': 'STATION_ROUTE', 'routes_': 'INTERLOCKING_ROUTE', 'elements_': 'ELEMENT'}


def check_search_index(ctx, sv):
    """every entry of the search index: its kind fits what its id and name are taken from; a name is the text that was tested"""
    p = sv.p
    n_ = 0
    for f in p.funcs.values():
        if f.get('dep') or not f.get('body') or 'search_module.cc' not in (f.get('file') or ''):
            continue
        def kindof(e):
            ks = set()
            for x in expand(sv, e, f):
                if x.get('k') == 'mem' and x['n'] in ('id_',) and (x.get('d') or {}).get('rec') in KIND:
                    ks.add(KIND[x['d']['rec']])
                if x.get('k') == 'call' and (x.get('d') or {}).get('n') == 'id' and x['d'].get('rec') in KIND:
                    ks.add(KIND[x['d']['rec']])
                if x.get('k') == 'mem' and x['n'] == 'full_station_names_':
                    ks.add('STATION')
            return ks
        for n, conds in withconds(f):
            if n.get('k') not in ('init', 'ctor') or not norm(n.get('t')).endswith('search_module::result') or n.get('copy') or n.get('move'):
                continue
            a = n.get('a') or n.get('e') or []
            if len(a) < 4:
                continue
            def enumerators(e):
                return {(x.get('d') or {}).get('n') for x in expand(sv, e, f) if x.get('k') == 'ref' and (x.get('d') or {}).get('k') == 'EnumConstant' and 'result::type' in x['d'].get('q', '')}
            ts = enumerators(a[0])
            ks = kindof(a[3])
            if len(ts) == 1 and len(ks) == 1:
                n_ += 1
                ctx.check(ts == ks, f'{facts.loc(f, n)}: entry of kind {next(iter(ts))}', f'index-kind:{f["q"].split("::")[-1]}:{next(iter(ks))}', f'{facts.loc(f, n)}: a search entry of kind {next(iter(ts))} carries the id of a {next(iter(ks)).lower()}')
            else:
                ctx.undecided(f'{facts.loc(f, n)}: kind of search entry not resolved')
            # element entries name their type
            if ts == {'ELEMENT'}:
                given = len(a) > 4 and any((x.get('d') or {}).get('n') == 'get_type_str' for x in expand(sv, a[4], f))
                ctx.check(given, f'{facts.loc(f, n)}: element type given', 'index-element-type', f'{facts.loc(f, n)}: the search entry of an element carries no element type')
            # tested text == used text
            m, _ = sv.mentions(a[1], f)
            tested = set()
            for c in conds:
                for x in facts.walk(c):
                    if x.get('k') == 'call' and (x.get('d') or {}).get('n') == 'empty':
                        for y in facts.walk(x):
                            if y.get('k') == 'mem' and y['n'] not in ('empty', 'size'):
                                tested.add(y['n'])
            pair = {'name_', 'identifier_extern_', 'identifier_operational_'}
            if tested & pair:
                n_ += 1
                ctx.check(bool(m & tested & pair), f'{facts.loc(f, n)}: entry uses the text that was tested', f'index-name:{"+".join(sorted(tested & pair))}',
                          f'{facts.loc(f, n)}: the search entry is added when {", ".join(sorted(tested & pair))} is not empty but carries {", ".join(sorted(m & pair))}')
    ctx.need(n_, 5, 'search index entries')


def expand(sv, e, f, seen=None):
    seen = seen if seen is not None else set()
    for x in facts.walk(e):
        yield x
        if x.get('k') == 'ref' and x.get('id') is not None and x['id'] not in seen:
            seen.add(x['id'])
            for y in sv.env(f).get(x['id'], ()):
                if isinstance(y, dict):
                    yield from expand(sv, y, f, seen)


def withconds(f):
    """(node, conditions of the enclosing ifs' then branches)"""
    def go(n, cs):
        yield n, cs
        if n.get('k') == 'if':
            kids = list(facts.children(n))
            c, t, e = n.get('c') or n.get('cond'), n.get('then') or n.get('t'), n.get('else') or n.get('e')
            for x in kids:
                yield from go(x, cs + [c] if x is t and isinstance(c, dict) else cs)
            return
        for x in facts.children(n):
            yield from go(x, cs)
    yield from go(f['body'], [])


def check_tags(ctx, sv):
    """tags the export writes and the tile profile reads"""
    p = sv.p
    lua = f'{REPO}/web/server/server_resources/profile/profile.lua'
    if not os.path.exists(lua):
        ctx.undecided('tile profile not found')
        return
    txt = re.sub(r'--[^\n]*', '', open(lua).read())
    m = re.search(r'if\s+node:has_any_tag\("type"\)\s+then(.*?)\nend', txt, re.S)
    if not m:
        ctx.undecided('tile profile: exported nodes not found')
        return
    blk = m.group(1)
    def cstr(e, f):
        r = set()
        for x in facts.walk(e):
            if x.get('k') == 'str':
                r.add(x['s'])
            if x.get('k') == 'ref' and x.get('d') and x['d'].get('global'):
                for v in p.vars.values():
                    if v.get('q') == x['d'].get('q') and v.get('init'):
                        for y in facts.walk(v['init']):
                            if y.get('k') == 'str':
                                r.add(y['s'])
        return r
    ex = {}
    rising = None
    for f in p.funcs.values():
        if f.get('dep') or not f.get('body') or f.get('n') not in ('create_element_osm', 'create_station_osm'):
            continue
        tags = {}
        for n in facts.ftree(f):
            if n.get('k') == 'call' and (n.get('d') or {}).get('n') == 'osm_add_tag':
                ks = cstr(n['a'][0], f)
                if len(ks) == 1:
                    tags[ks.pop()] = (n['a'][1], n)
        ex[f['n']] = (f, tags)
    if len(ex) < 2:
        ctx.undecided('export functions not found')
        return
    fe, el = ex['create_element_osm']
    fs, stn = ex['create_station_osm']
    sub = re.search(r'get_tag\("(\w+)"\)', blk)
    key = re.findall(r'has_any_tag\("(\w+)"\)', blk)
    for k in key:
        ctx.check(k in el and k not in stn, f'elements carry "{k}", stations do not', f'tag:{k}', f'{facts.loc(fe)}: the tile profile tells elements from stations by the tag "{k}", the export writes {sorted(el)} for elements and {sorted(stn)} for stations')
    for k in ('id',):
        ctx.check(k in el and k in stn, f'exported nodes carry "{k}"', f'tag:{k}', f'{facts.loc(fe)}: the tag "{k}" the tile profile reads is not written for every node')
    ctx.check('name' in stn, 'exported stations carry "name"', 'tag:name', f'{facts.loc(fs)}: the tag "name" the tile profile reads is not written for stations')
    v = re.search(r'has_tag\("type",\s*"(\w+)"\)', blk)
    if v and 'type' in stn:
        ctx.check(cstr(stn['type'][0], fs) == {v.group(1)}, f'stations have type "{v.group(1)}"', 'tag:type', f'{facts.loc(fs)}: stations are written with type {sorted(cstr(stn["type"][0], fs))}, the tile profile looks for "{v.group(1)}"')
    d = re.search(r'has_tag\("(\w+)",\s*"(\w+)"\)\)?\s*then\s*node:add_bool\("rising",\s*(true|false)\)', blk)
    if d and d.group(1) in el:
        e, n = el[d.group(1)]
        while isinstance(e, dict) and e.get('k') in ('cast', 'paren'):
            e = e.get('e')
        kids = list(facts.children(e)) if isinstance(e, dict) else []
        if isinstance(e, dict) and e.get('k') == 'cond' and len(kids) == 3:
            c, a, b = kids
            neg = any(x.get('k') == 'un' and x.get('op') == '!' for x in facts.walk(c))
            up = any((x.get('d') or {}).get('n') == 'rising' or x.get('n') == 'rising' for x in facts.walk(c))
            a, b = (b, a) if neg else (a, b)
            if up and cstr(a, fe) and cstr(b, fe):
                good = (d.group(2) in cstr(a, fe)) == (d.group(3) == 'true') and cstr(a, fe) != cstr(b, fe)
                ctx.check(good, 'rising elements are exported as rising', 'tag:direction', f'{facts.loc(fe, n)}: rising elements are written with {sorted(cstr(a, fe))}, the tile profile marks "{d.group(2)}" as rising={d.group(3)}')
            else:
                ctx.undecided('direction tag not resolved')
        else:
            ctx.undecided('direction tag not resolved')
    elif d:
        ctx.violate('tag:direction', f'{facts.loc(fe)}: the tile profile reads the direction from the tag "{d.group(1)}", which is not written')
    # coordinates
    for f in p.funcs.values():
        if f.get('n') == 'osm_add_coordinates' and f.get('body'):
            for n in facts.ftree(f):
                if n.get('k') == 'call' and (n.get('d') or {}).get('n') == 'osm_add_key_value' or (n.get('k') == 'call' and not n.get('d') and len(n.get('a') or ()) == 3):
                    ks = cstr(n['a'][0], f)
                    m_ = {x['n'] for x in facts.walk(n['a'][1]) if x.get('k') == 'mem'}
                    if ks & {'lat', 'lon'} and m_ & {'lat_', 'lon_'}:
                        ctx.check({k + '_' for k in ks} == m_, f'{sorted(ks)[0]} is exported as such', f'tag:{sorted(ks)[0]}', f'{facts.loc(f, n)}: the coordinate "{sorted(ks)[0]}" of the export carries {sorted(m_)[0]}')


def run(ctx):
    ctx.explain = ('the client is evaluated symbolically on its syntax tree (addresses, declared answers, store names, vocabulary) and the server on its resolved program (routes, captured values and their uses, fields written and the data they are taken from); '
                   'both sides must agree, call by call and field by field')
    p = facts.load()
    cl = client_facts()
    rs = routes(p)
    sv = Server(p)
    byapi, handlers = check_addresses(ctx, cl, rs, sv)
    check_shapes(ctx, byapi, handlers, sv)
    check_ordering(ctx, cl, sv)
    check_values(ctx, rs, sv)
    check_store(ctx, cl)
    check_vocabulary(ctx, cl, sv)
    check_search_index(ctx, sv)
    check_tags(ctx, sv)
    ctx.analysed['routes'] = len(rs)
    ctx.analysed['serializers'] = len(sv.ser)
