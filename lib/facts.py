"""Resolved program facts from the libTooling extractor (tool/extract.cpp).

Sources are parsed in groups (one synthetic unit including several .cc files) so that headers are parsed once;
a group that does not parse cleanly is split until the offending file is alone.
"""
import os, json, hashlib, glob, concurrent.futures as cf, fcntl
from common import *

PARSE = ['-std=c++23', '-ferror-limit=0', '-Wno-everything', '-D__cpp_concepts=202002L', '-DFMT_CONSTEVAL=', '-DFMT_DEPRECATED_OSTREAM', '-DSTD', '-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-isystem', f'{VERIF}/stubs/shim', f'-I{REPO}/include', f'-I{REPO}/test/include',
         f'-I{REPO}/web/server/include', '-isystem', f'{VERIF}/stubs', '-include', 'fmt/std.h', '-include', 'verif_prelude.h']


def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def extractor():
    src = f'{VERIF}/tool/extract.cpp'
    key = _hash([src])
    out = f'{BUILD}/soro-extract-{key}'
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        return out
    with open(f'{BUILD}/extract.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        lib = '/usr/lib/llvm-18/lib'
        r = sh(['clang++-18', '-std=c++17', '-O0', '-DNDEBUG', '-fno-rtti', f'-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS',
                '-D__STDC_FORMAT_MACROS', src, '-o', out + '.tmp', f'{lib}/libclang-cpp.so.18.1', f'{lib}/libLLVM.so.18.1'], timeout=600)
        if r.returncode:
            raise AnalysisError('extractor does not build:\n' + r.stderr[-2000:])
        os.rename(out + '.tmp', out)
    return out


def sources(dirs=('src', 'web/server/src')):
    res = []
    for d in dirs:
        for p in glob.glob(f'{REPO}/{d}/**/*.cc', recursive=True):
            res.append(os.path.relpath(p, REPO))
    return sorted(res)


def _repo_inputs():
    res = []
    for d in ('include', 'src', 'web/server', 'test/include'):
        for b, ds, fs in os.walk(f'{REPO}/{d}'):
            ds[:] = [x for x in ds if x not in ('node_modules', '_build', 'build')]
            res += [os.path.join(b, f) for f in fs if f.endswith(('.h', '.cc', '.cpp', '.hpp', '.cu', '.inc', '.ipp'))]
    for b, ds, fs in os.walk(f'{VERIF}/stubs'):
        res += [os.path.join(b, f) for f in fs]
    return res


class Program:
    def __init__(self):
        self.funcs = {}       # usr -> func dict
        self.by_q = {}        # qualified name -> [func]
        self.records = {}
        self.enums = {}
        self.vars = {}
        self.units = []
        self.errors = {}


def _run_group(args):
    ex, files, out, flags = args
    unit = out + '.cc'
    with open(unit, 'w') as f:
        for x in files:
            f.write(f'#include "{x}"\n')
    r = sh([ex, REPO, out, unit, '--'] + flags, timeout=600)
    if not os.path.exists(out):
        return None, r.stderr[-3000:]
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    d['diag'] = r.stderr[:4000]
    return d, r.stderr


def _resolve(tu):
    """replace decl indexes by decl dicts and type indexes by strings, in place"""
    types, decls = tu['types'], tu['decls']
    for d in decls:
        if d is None:
            continue
        for k in ('t', 'ret', 'rect'):
            if k in d:
                d[k] = types[d[k]] if d[k] >= 0 else ''
        if 'params' in d:
            d['params'] = [types[x] if x >= 0 else '' for x in d['params']]

    def walk(n):
        if isinstance(n, dict):
            t = n.get('t')
            if isinstance(t, int):
                n['t'] = types[t] if t >= 0 else ''
            d = n.get('d')
            if isinstance(d, int):
                n['d'] = decls[d]
            if isinstance(n.get('ret'), int):
                n['ret'] = types[n['ret']] if n['ret'] >= 0 else ''
            if isinstance(n.get('base'), int):
                n['base'] = types[n['base']]
            for k, v in n.items():
                if k != 'd' and isinstance(v, (dict, list)):
                    walk(v)
        else:
            for v in n:
                if isinstance(v, (dict, list)):
                    walk(v)
    for k in ('funcs', 'records', 'enums', 'vars'):
        walk(tu[k])
    for r in tu['records']:
        r['bases'] = [types[b] for b in r['bases']]


def load(files=None, headers=(), ndebug=True, extra_defs=(), jobs=8):
    """files: repo-relative .cc files (default: all). headers: extra headers to parse."""
    files = files if files is not None else sources()
    missing = [f for f in files if not os.path.exists(os.path.join(REPO, f))]
    files = [f for f in files if f not in missing]
    ex = extractor()
    flags = PARSE + (['-DNDEBUG'] if ndebug else []) + list(extra_defs)
    key = _hash(_repo_inputs() + [f'{VERIF}/tool/extract.cpp'], json.dumps([files, list(headers), flags]))
    os.makedirs(f'{BUILD}/facts', exist_ok=True)
    cache = f'{BUILD}/facts/{key}.json'
    if os.path.exists(cache):
        tus = json.load(open(cache))
    else:
        d = scratch()
        try:
            paths = [os.path.join(REPO, f) for f in files] + [os.path.join(REPO, h) if not h.startswith('/') else h for h in headers]
            # neighbours share headers; balance by size
            k = max(1, min(jobs, (len(paths) + 3) // 4))
            n = (len(paths) + k - 1) // k
            groups = [paths[i:i + n] for i in range(0, len(paths), n)]
            tus, cnt = [], 0
            with cf.ThreadPoolExecutor(jobs) as pool:
                work = groups
                while work:
                    futs = []
                    for g in work:
                        cnt += 1
                        futs.append((g, pool.submit(_run_group, (ex, g, f'{d}/u{cnt}.json', flags))))
                    work = []
                    for g, fu in futs:
                        tu, err = fu.result()
                        if tu is None or tu['errors']:
                            if len(g) > 1:
                                # files that clash with others in one unit are parsed alone
                                import re
                                bad = {x for x in re.findall(r'^(/[^:\n]+\.cc):\d+:\d+: error', err, re.M)} & set(g)
                                if bad and len(bad) < len(g):
                                    work += [[x] for x in bad] + [[x for x in g if x not in bad]]
                                else:
                                    h = len(g) // 2
                                    work += [g[:h], g[h:]]
                                continue
                            if tu is None:
                                raise AnalysisError(f'cannot parse {g}: {err[-1500:]}')
                        tu['group'] = g
                        tus.append(tu)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for old in sorted(glob.glob(f'{BUILD}/facts/*.json'), key=os.path.getmtime)[:-12]:
            os.unlink(old)
        with open(cache + f'.{os.getpid()}', 'w') as f:
            json.dump(tus, f)
        os.rename(cache + f'.{os.getpid()}', cache)
    p = Program()
    p.missing = missing
    for tu in tus:
        _resolve(tu)
        p.units.append(tu['group'])
        if tu['errors']:
            p.errors[tu['group'][0]] = tu['diag']
        for f in tu['funcs']:
            u = f['u']
            if u in p.funcs and p.funcs[u].get('body') is not None:
                continue
            p.funcs[u] = f
        for r in tu['records']:
            if r['t'] not in p.records or not r['dep']:
                p.records.setdefault(r['t'], r)
        for e in tu['enums']:
            p.enums[e['q']] = e
        for v in tu['vars']:
            p.vars.setdefault(v['q'] + '@' + (v['file'] if not v['d'].get('repo') else v['file']), v)
    for f in p.funcs.values():
        p.by_q.setdefault(f['q'], []).append(f)
    return p


# -- tree helpers ------------------------------------------------------------
CHILD = ('a', 'b', 'o', 'fn', 'inner', 'init', 'cond', 'then', 'else', 'inc', 'body', 'range', 'e', 'sub', 'val', 'hi', 'vars', 'var', 'handlers', 'caps')


def children(n):
    for k in CHILD:
        v = n.get(k)
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(children(x))))


def ftree(f):
    """all nodes of a function including constructor initialisers and default arguments of its body"""
    for i in f.get('inits', ()):
        if i.get('init'):
            yield from walk(i['init'])
    if f.get('body'):
        yield from walk(f['body'])


def loc(f, n=None):
    return f"{f['file']}:{(n or f).get('l') or f['line']}"
