// Reads the web client without running it: resolves the addresses every API call requests (by symbolic evaluation of the
// client classes' syntax), the declared shapes of the answers, the store's wiring and the element vocabulary. Prints JSON.
import { createRequire } from 'module';
import fs from 'fs';
import path from 'path';
const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript');
const SRC = process.argv[2];
const K = ts.SyntaxKind;

function* files(d) {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    if (e.name === 'node_modules' || e.name === 'test') continue;
    const p = path.join(d, e.name);
    if (e.isDirectory()) yield* files(p);
    else if (/\.(ts|vue|js)$/.test(e.name)) yield p;
  }
}
const texts = new Map();
for (const f of files(SRC)) {
  let s = fs.readFileSync(f, 'utf8');
  let tpl = '';
  if (f.endsWith('.vue')) {
    tpl = (s.match(/<template>[\s\S]*<\/template>/) || [''])[0];
    // keep line numbers, blank out everything outside scripts
    let out = '', last = 0;
    const rx = /(<script[^>]*>)([\s\S]*?)<\/script>/g;
    for (let m; (m = rx.exec(s)); ) {
      out += s.slice(last, m.index).replace(/[^\n]/g, ' ') + m[1].replace(/[^\n]/g, ' ') + m[2] + ' ';
      last = m.index + m[0].length;
    }
    s = out + s.slice(last).replace(/[^\n]/g, ' ');
  }
  texts.set(f, { s, tpl });
}
const host = ts.createCompilerHost({});
const read0 = host.readFile.bind(host), exists0 = host.fileExists.bind(host);
const vname = (f) => (f.endsWith('.vue') ? f + '.ts' : f);
const virt = new Map([...texts].map(([f, v]) => [vname(f), v.s]));
host.readFile = (f) => virt.get(f) ?? read0(f);
host.fileExists = (f) => virt.has(f) || exists0(f);
host.getSourceFile = (f, o) => { const t = host.readFile(f); return t === undefined ? undefined : ts.createSourceFile(f, t, o, true); };
const options = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler, allowJs: true, noEmit: true, strict: true, baseUrl: SRC, paths: { '@/*': ['./*'] }, skipLibCheck: true, types: [] };
const prog = ts.createProgram([...virt.keys()], options, host);
const chk = prog.getTypeChecker();
const SF = [...virt.keys()].map((f) => prog.getSourceFile(f)).filter(Boolean);
const rel = (f) => path.relative(SRC, f).replace(/\.vue\.ts$/, '.vue');
const at = (n) => { const sf = n.getSourceFile(); return rel(sf.fileName) + ':' + (sf.getLineAndCharacterOfPosition(n.getStart()).line + 1); };

// ---------------------------------------------------------------- symbolic evaluation
const unk = { t: 'unk' };
const str = (...parts) => ({ t: 'str', parts });
const lit = (s) => ({ l: String(s) });
let requests = [];
let depth = 0;
function sym(id) {
  const s = chk.getSymbolAtLocation(id);
  return s && s.flags & ts.SymbolFlags.Alias ? chk.getAliasedSymbol(s) : s;
}
function declOf(id) { const s = sym(id); return s && s.declarations && s.declarations[0]; }
function asParts(v) {
  if (v.t === 'str') return v.parts;
  if (v.t === 'num') return [lit(v.v)];
  if (v.t === 'par') return [{ p: v.n }];
  return [{ u: 1 }];
}
function ev(n, env) {
  if (!n) return unk;
  switch (n.kind) {
    case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: case K.TypeAssertionExpression: case K.SatisfiesExpression: case K.AwaitExpression:
      return ev(n.expression, env);
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return str(lit(n.text));
    case K.NumericLiteral: return { t: 'num', v: n.text };
    case K.TemplateExpression: {
      let p = [lit(n.head.text)];
      for (const s of n.templateSpans) p = p.concat(asParts(ev(s.expression, env)), [lit(s.literal.text)]);
      return str(...p);
    }
    case K.BinaryExpression: {
      const o = n.operatorToken.kind;
      if (o === K.PlusToken) return str(...asParts(ev(n.left, env)), ...asParts(ev(n.right, env)));
      if (o === K.BarBarToken || o === K.QuestionQuestionToken) { const l = ev(n.left, env); return l.t === 'unk' || (l.t === 'str' && l.parts.length === 0) ? ev(n.right, env) : l; }
      if (o === K.EqualsToken) {
        const v = ev(n.right, env);
        if (n.left.kind === K.PropertyAccessExpression && n.left.expression.kind === K.ThisKeyword && env.self) env.self.props[n.left.name.text] = v;
        else if (n.left.kind === K.Identifier) env.vars.set(sym(n.left), v);
        return v;
      }
      if (o === K.PlusEqualsToken && n.left.kind === K.Identifier) {
        const v = str(...asParts(ev(n.left, env)), ...asParts(ev(n.right, env)));
        env.vars.set(sym(n.left), v);
        return v;
      }
      ev(n.left, env); ev(n.right, env);
      return unk;
    }
    case K.ArrayLiteralExpression: return { t: 'arr', v: n.elements.map((e) => ev(e, env)) };
    case K.ObjectLiteralExpression: {
      const props = {};
      for (const p of n.properties) {
        if (p.kind === K.SpreadAssignment) { const v = ev(p.expression, env); if (v.t === 'obj') Object.assign(props, v.props); continue; }
        const k = p.name && (p.name.text ?? (p.name.expression ? null : null));
        if (k == null) continue;
        if (p.kind === K.PropertyAssignment) props[k] = ev(p.initializer, env);
        else if (p.kind === K.ShorthandPropertyAssignment) { const s = chk.getShorthandAssignmentValueSymbol(p); props[k] = env.vars.get(s) ?? unk; }
        else if (p.kind === K.MethodDeclaration) props[k] = { t: 'fn', n: p, env };
      }
      return { t: 'obj', props };
    }
    case K.ArrowFunction: case K.FunctionExpression: return { t: 'fn', n, env };
    case K.ThisKeyword: return env.self ?? unk;
    case K.Identifier: {
      let s = sym(n);
      if (env.vars.has(s)) return env.vars.get(s);
      const d = s && s.declarations && s.declarations[0];
      if (d && d.kind === K.VariableDeclaration && d.initializer && depth < 30) { depth++; const v = ev(d.initializer, { vars: new Map(), self: null }); depth--; return v; }
      if (d && d.kind === K.FunctionDeclaration) return { t: 'fn', n: d, env: { vars: new Map(), self: null } };
      return unk;
    }
    case K.PropertyAccessExpression: {
      const o = ev(n.expression, env);
      return prop(o, n.name.text);
    }
    case K.ElementAccessExpression: {
      const o = ev(n.expression, env), i = ev(n.argumentExpression, env);
      if (o.t === 'obj' && i.t === 'str' && i.parts.every((p) => 'l' in p)) return prop(o, i.parts.map((p) => p.l).join(''));
      return unk;
    }
    case K.ConditionalExpression: { ev(n.condition, env); const a = ev(n.whenTrue, env), b = ev(n.whenFalse, env); return JSON.stringify(a.t === 'str' ? a : 0) === JSON.stringify(b.t === 'str' ? b : 0) ? a : unk; }
    case K.NewExpression: {
      const d = declOf(n.expression);
      if (d && d.kind === K.ClassDeclaration) return make(d, (n.arguments || []).map((a) => ev(a, env)));
      return unk;
    }
    case K.CallExpression: {
      const args = n.arguments.map((a) => ev(a, env));
      const c = n.expression;
      if (c.kind === K.Identifier && c.text === 'fetch') { requests.push({ url: args[0] ?? unk, opt: args[1] ?? unk, at: at(n) }); return unk; }
      if (c.kind === K.Identifier && (c.text === 'String' || c.text === 'encodeURIComponent' || c.text === 'encodeURI') && args[0]) return str(...asParts(args[0]));
      if (c.kind === K.PropertyAccessExpression) {
        const o = ev(c.expression, env), m = c.name.text;
        if (m === 'toString' && ['par', 'str', 'num'].includes(o.t)) return str(...asParts(o));
        if (m === 'join' && o.t === 'par' && !n.arguments.length) return str(...asParts(o));
        if (m === 'join' && o.t === 'par' && args[0]?.t === 'str' && args[0].parts.every((x) => 'l' in x)) return str(...asParts(o).map((x) => ('p' in x ? { ...x, sep: args[0].parts.map((y) => y.l).join('') } : x)));
        if (m === 'join' && o.t === 'arr' && args[0]?.t === 'str') { let p = []; o.v.forEach((x, i) => { if (i) p = p.concat(args[0].parts); p = p.concat(asParts(x)); }); return str(...p); }
        if (m === 'concat' && o.t === 'str') return str(...o.parts, ...args.flatMap(asParts));
        const f = prop(o, m);
        if (f.t === 'fn') return call(f, args);
        return unk;
      }
      const f = ev(c, env);
      if (f.t === 'fn') return call(f, args);
      return unk;
    }
  }
  return unk;
}
function prop(o, k) {
  if (o.t === 'obj') return o.props[k] ?? unk;
  if (o.t === 'inst') {
    if (k in o.props) return o.props[k];
    for (let c = o.cls; c; c = base(c)) for (const m of c.members) if (m.name && m.name.text === k && (m.kind === K.MethodDeclaration || m.kind === K.PropertyDeclaration)) {
      if (m.kind === K.MethodDeclaration) return { t: 'fn', n: m, env: { vars: new Map(), self: o } };
      return ev(m.initializer, { vars: new Map(), self: o });
    }
  }
  return unk;
}
function base(c) {
  const h = (c.heritageClauses || []).find((h) => h.token === K.ExtendsKeyword);
  const d = h && declOf(h.types[0].expression);
  return d && d.kind === K.ClassDeclaration ? d : null;
}
function make(c, args) {
  const o = { t: 'inst', cls: c, props: {} };
  construct(c, o, args);
  return o;
}
function construct(c, o, args) {
  const k = c.members.find((m) => m.kind === K.Constructor && m.body);
  if (!k) { const b = base(c); if (b) construct(b, o, args); return; }
  const env = { vars: new Map(), self: o };
  bind(k.parameters, args, env);
  for (const p of k.parameters) if (p.modifiers && p.modifiers.length && p.name.kind === K.Identifier) o.props[p.name.text] = env.vars.get(sym(p.name)) ?? unk;
  for (const s of k.body.statements) {
    if (s.kind === K.ExpressionStatement && s.expression.kind === K.CallExpression && s.expression.expression.kind === K.SuperKeyword) {
      const b = base(c);
      if (b) construct(b, o, s.expression.arguments.map((a) => ev(a, env)));
    } else stmt(s, env);
  }
}
function bind(ps, args, env) {
  ps.forEach((p, i) => {
    const v = args[i] && args[i].t !== 'undef' ? args[i] : p.initializer ? ev(p.initializer, env) : unk;
    if (p.name.kind === K.Identifier) env.vars.set(sym(p.name), v);
    else if (p.name.kind === K.ObjectBindingPattern) for (const e of p.name.elements) if (e.name.kind === K.Identifier) env.vars.set(sym(e.name), prop(v, (e.propertyName ?? e.name).text));
  });
}
function call(f, args) {
  if (depth > 40) return unk;
  depth++;
  const env = { vars: new Map(f.env.vars), self: f.env.self };
  bind(f.n.parameters, args, env);
  let r = unk;
  if (f.n.body) r = f.n.body.kind === K.Block ? block(f.n.body, env) ?? unk : ev(f.n.body, env);
  depth--;
  return r;
}
function block(b, env) {
  for (const s of b.statements) { const r = stmt(s, env); if (r !== undefined) return r; }
  return undefined;
}
function stmt(s, env) {
  switch (s.kind) {
    case K.VariableStatement:
      for (const d of s.declarationList.declarations) {
        const v = ev(d.initializer, env);
        if (d.name.kind === K.Identifier) env.vars.set(sym(d.name), v);
        else if (d.name.kind === K.ObjectBindingPattern) for (const e of d.name.elements) if (e.name.kind === K.Identifier) env.vars.set(sym(e.name), prop(v, (e.propertyName ?? e.name).text));
      }
      return undefined;
    case K.ExpressionStatement: ev(s.expression, env); return undefined;
    case K.ReturnStatement: return ev(s.expression, env);
    case K.Block: return block(s, env);
    case K.TryStatement: return block(s.tryBlock, env);
    case K.IfStatement: {
      ev(s.expression, env);
      const a = s.thenStatement && stmt(s.thenStatement, { vars: new Map(env.vars), self: env.self });
      const b = s.elseStatement && stmt(s.elseStatement, { vars: new Map(env.vars), self: env.self });
      return a !== undefined && b !== undefined ? a : undefined;
    }
  }
  return undefined;
}

// ---------------------------------------------------------------- declared shapes
function shape(t, d = 0) {
  if (d > 6) return 'any';
  if (t.flags & ts.TypeFlags.Any || t.flags & ts.TypeFlags.Unknown) return 'any';
  if (t.flags & ts.TypeFlags.StringLike) return 'string';
  if (t.flags & ts.TypeFlags.NumberLike) return 'number';
  if (t.flags & ts.TypeFlags.BooleanLike) return 'boolean';
  if (t.isUnion()) {
    const m = t.types.filter((x) => !(x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)));
    const s = m.map((x) => shape(x, d + 1));
    const js = [...new Set(s.map((x) => JSON.stringify(x)))];
    return js.length === 1 ? s[0] : { union: s };
  }
  if (chk.isArrayType(t)) return { array: shape(chk.getTypeArguments(t)[0], d + 1) };
  if (t.flags & ts.TypeFlags.Object) {
    const fields = {};
    for (const p of t.getProperties()) {
      const pd = p.valueDeclaration ?? p.declarations?.[0];
      if (!pd) continue;
      fields[p.name] = { optional: !!(p.flags & ts.SymbolFlags.Optional), shape: shape(chk.getTypeOfSymbolAtLocation(p, pd), d + 1) };
    }
    return { fields };
  }
  return 'any';
}
function answer(t) {
  const s = t.getSymbol();
  if (s && s.name === 'Promise') return chk.getTypeArguments(t)[0];
  return null;
}

// ---------------------------------------------------------------- run
const out = { api: [], stores: {}, wiring: [], vocab: {}, reads: [], requests: [] };
let clientCls = null;
for (const sf of SF) ts.forEachChild(sf, (n) => { if (n.kind === K.ClassDeclaration && n.name && n.name.text === 'SoroClient') clientCls = n; });
if (clientCls) {
  const client = make(clientCls, [str()]);
  const ctype = chk.getTypeAtLocation(clientCls);
  const par = (n) => ({ t: 'par', n });
  const walk = (o, type, name, d) => {
    // every callable of the interface, with one symbolic argument per parameter
    for (const p of type.getProperties()) {
      const pd = p.valueDeclaration ?? p.declarations?.[0];
      if (!pd || pd.getSourceFile().isDeclarationFile) continue;
      if (d === 0 && pd.parent !== clientCls) continue;
      const sig = chk.getTypeOfSymbolAtLocation(p, pd).getCallSignatures()[0];
      if (!sig) continue;
      const f = prop(o, p.name);
      if (f.t !== 'fn') { out.api.push({ api: name + p.name, unresolved: 1, at: at(pd) }); continue; }
      const ps = sig.getParameters().map((x, i) => name + p.name + '#' + i);
      requests = [];
      const r = call(f, ps.map(par));
      const ret = sig.getReturnType(), ans = answer(ret);
      if (ans) {
        const ptypes = sig.getParameters().map((x) => shape(chk.getTypeOfSymbolAtLocation(x, x.valueDeclaration)));
        out.api.push({ api: name + p.name, params: ps, ptypes, at: at(f.n), answer: shape(ans), requests: requests.map((q) => ({ url: q.url.t === 'str' ? q.url.parts : null, method: q.opt.t === 'obj' && q.opt.props.method?.t === 'str' ? q.opt.props.method.parts.map((x) => x.l).join('') : null, at: q.at })) });
      } else if (r.t === 'obj') walk(r, ret, name + p.name + '.', d + 1);
    }
  };
  walk(client, ctype, '', 0);
}

// stores: state keys, mutations, actions; names used anywhere
const constStr = (n) => { const v = ev(n, { vars: new Map(), self: null }); return v.t === 'str' && v.parts.every((p) => 'l' in p) ? v.parts.map((p) => p.l).join('') : null; };
const objOf = (n) => { while (n && [K.AsExpression, K.ParenthesizedExpression, K.SatisfiesExpression].includes(n.kind)) n = n.expression; if (n && n.kind === K.Identifier) { const d = declOf(n); if (d && d.initializer) return objOf(d.initializer); } return n && n.kind === K.ObjectLiteralExpression ? n : null; };
const keys = (o) => (o ? o.properties.map((p) => p.name && (p.name.text ?? constStr(p.name.expression ?? p.name))).filter(Boolean) : []);
function retObj(fn) {
  if (!fn || !fn.body) return null;
  if (fn.body.kind !== K.Block) return objOf(fn.body);
  for (const s of fn.body.statements) if (s.kind === K.ReturnStatement) return objOf(s.expression);
  return null;
}
function storeOf(o) {
  const g = (k) => o.properties.find((p) => p.name && p.name.text === k);
  const st = g('state');
  return { state: st ? keys(st.kind === K.MethodDeclaration ? retObj(st) : retObj(st.initializer) ?? objOf(st.initializer)) : [],
    mutations: keys(objOf(g('mutations')?.initializer)), actions: keys(objOf(g('actions')?.initializer)), node: o };
}
const stores = new Map();
const visit = (n, f) => { f(n); ts.forEachChild(n, (c) => visit(c, f)); };
for (const sf of SF) visit(sf, (n) => {
  if (n.kind !== K.CallExpression) return;
  const nm = n.expression.kind === K.Identifier ? n.expression.text : n.expression.name?.text;
  if (nm === 'createStore') { const o = objOf(n.arguments[0]); if (o) stores.set('', storeOf(o)); }
  if (nm === 'registerModule') { const k = constStr(n.arguments[0]), o = objOf(n.arguments[1]); if (k != null && o) stores.set(k, storeOf(o)); }
});
for (const [k, v] of stores) out.stores[k] = { state: v.state, mutations: v.mutations, actions: v.actions, at: at(v.node) };
const inside = (n) => { for (let p = n; p; p = p.parent) for (const [k, v] of stores) if (v.node === p) return k; return null; };
for (const sf of SF) visit(sf, (n) => {
  if (n.kind !== K.CallExpression) return;
  const c = n.expression;
  const nm = c.kind === K.Identifier ? c.text : c.name?.text;
  if (['mapState', 'mapMutations', 'mapActions', 'mapGetters'].includes(nm)) {
    let ns = '', list = n.arguments[0];
    if (n.arguments.length > 1) { ns = constStr(n.arguments[0]); list = n.arguments[1]; }
    const names = list.kind === K.ArrayLiteralExpression ? list.elements.map((e) => constStr(e)) : objOf(list) ? objOf(list).properties.map((p) => (p.initializer ? constStr(p.initializer) : null)) : [null];
    for (const x of names) out.wiring.push({ kind: nm.slice(3).toLowerCase(), ns, name: x, at: at(n) });
  } else if (nm === 'commit' || nm === 'dispatch') {
    const s = n.arguments[0] && constStr(n.arguments[0]);
    if (s == null) return;
    const here = inside(n);
    if (here === null && !(c.kind === K.PropertyAccessExpression && /\$?store$/i.test(c.expression.getText()))) return;
    let ns = here ?? '', name = s;
    if (s.includes('/')) { ns = s.slice(0, s.indexOf('/')); name = s.slice(s.indexOf('/') + 1); }
    out.wiring.push({ kind: nm === 'commit' ? 'mutations' : 'actions', ns, name, at: at(n) });
  }
});

// element vocabulary and enums with string values
for (const sf of SF) visit(sf, (n) => {
  if (n.kind === K.VariableDeclaration && n.name.kind === K.Identifier && ['ElementType'].includes(n.name.text)) {
    const o = objOf(n.initializer);
    if (o) out.vocab.ElementType = { at: at(n), v: Object.fromEntries(o.properties.map((p) => [p.name.text, constStr(p.initializer)])) };
  }
  if (n.kind === K.VariableDeclaration && n.name.kind === K.Identifier && n.name.text === 'ElementTypeLabels') {
    const o = objOf(n.initializer);
    if (o) out.vocab.labels = { at: at(n), v: o.properties.map((p) => [p.name.expression ? p.name.expression.name?.text ?? constStr(p.name.expression) : p.name.text, constStr(p.initializer)]) };
  }
  if (n.kind === K.EnumDeclaration && n.name.text === 'SearchResultType')
    out.vocab.SearchResultType = { at: at(n), v: Object.fromEntries(n.members.map((m) => [m.name.text, m.initializer ? constStr(m.initializer) : null])) };
});
// icon address
for (const sf of SF) visit(sf, (n) => {
  if (n.kind === K.FunctionDeclaration && n.name && n.name.text === 'getIconUrl') {
    const v = call({ n, env: { vars: new Map(), self: null } }, [{ t: 'par', n: 'type' }]);
    if (v.t === 'str') out.icon = { at: at(n), parts: v.parts };
  }
});
// tile address: relative template of the style and the prefix its requests get
for (const sf of SF) visit(sf, (n) => {
  if (n.kind === K.PropertyAssignment && n.name.text === 'tiles' && n.initializer.kind === K.ArrayLiteralExpression) { const s = constStr(n.initializer.elements[0]); if (s) out.tiles = { at: at(n), v: s }; }
  if (n.kind === K.CaseClause && constStr(n.expression) === 'Tile') visit(n, (m) => {
    if (m.kind === K.PropertyAssignment && m.name.text === 'url' && !out.tilePrefix) {
      const env = { vars: new Map(), self: null };
      visit(m, (i) => { if (i.kind === K.Identifier) { const d = declOf(i); if (d && d.kind === K.Parameter) env.vars.set(sym(i), { t: 'par', n: i.text }); } if (i.kind === K.PropertyAccessExpression && i.getText() === 'window.origin') env.origin = 1; });
      const v = ev(m.initializer, env);
      if (v.t === 'str') out.tilePrefix = { at: at(m), parts: v.parts };
    }
  });
});
// keys the ordering graph reads from what was delivered
for (const sf of SF) if (/ordering-graph\.vue\.ts$/.test(sf.fileName)) {
  const wr = new Set();
  const rd = [];
  visit(sf, (n) => {
    if (n.kind === K.ElementAccessExpression) {
      const k = constStr(n.argumentExpression);
      if (k == null) return;
      if (n.parent.kind === K.BinaryExpression && n.parent.operatorToken.kind === K.EqualsToken && n.parent.left === n) wr.add(k);
      else rd.push({ where: 'node', key: k, at: at(n) });
    }
    if (n.kind === K.CallExpression && n.expression.name?.text === 'getAttribute') { const k = n.arguments[0] && constStr(n.arguments[0]); if (k) rd.push({ where: 'graph', key: k, at: at(n) }); }
    if (n.kind === K.PropertyAccessExpression && n.expression.kind === K.Identifier && /^attr/.test(n.expression.text)) rd.push({ where: 'node', key: n.name.text, at: at(n) });
  });
  out.reads = rd.filter((r) => !wr.has(r.key));
}
console.log(JSON.stringify(out));
