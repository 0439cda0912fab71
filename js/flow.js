// node flow.js FILE...: abstract interpretation of page scripts. Nothing of them is run: their syntax trees are walked with
// abstract values (strings made of known text and named unknown parts), and every request they can start is reported.
const path = require('path'), fs = require('fs');
const ts = require(process.env.TS_LIB || '/opt/veriftools/node/node_modules/typescript');
const K = ts.SyntaxKind;
const modules = {};
let sinks = [], depth = 0, ids = [], file = '', CHECKED = true, lists = [], tables = [], fields = [], shared = [];

const lit = s => ({ t: 's', p: [{ lit: String(s) }] });
const sym = (x, extra) => Object.assign({ t: 'sym', x }, extra || {});
const undef = { t: 'u' };

function text(v) {
  if (!v) return '?';
  if (v.t === 's') return v.p.every(q => 'lit' in q) ? JSON.stringify(v.p.map(q => q.lit).join('')) : '`' + v.p.map(q => 'lit' in q ? q.lit : '${' + q.sym + '}').join('') + '`';
  if (v.t === 'sym') return v.x;
  if (v.t === 'c') return String(v.v);
  if (v.t === 'url') return 'url(' + text(v.base) + ')';
  return v.t;
}
function parts(v) {
  if (v.t === 's') return v.p;
  if (v.t === 'c') return [{ lit: String(v.v) }];
  if (v.t === 'sym') return [Object.assign({ sym: v.x }, v.enc ? { enc: true } : {}, v.twice ? { twice: true } : {}, v.oneof ? { oneof: v.oneof } : {})];
  if (v.t === 'usp') return [{ usp: uspList(v).slice(), open: uspOwner(v).open }];
  if (v.t === 'uspstr') return [{ usp: v.list, open: v.open }];
  if (v.t === 'url' || v.t === 'urlstr') return [{ url: text(v.base), usp: v.list, open: v.open }];
  return [{ sym: text(v) }];
}
function cat(a, b) {
  const out = [];
  for (const q of [...parts(a), ...parts(b)]) {
    const l = out[out.length - 1];
    if ('lit' in q && l && 'lit' in l) out[out.length - 1] = { lit: l.lit + q.lit };
    else out.push(q);
  }
  return { t: 's', p: out };
}
const known = v => v.t === 's' && v.p.every(q => 'lit' in q) ? v.p.map(q => q.lit).join('') : v.t === 'c' ? String(v.v) : null;

class Env {
  constructor(up) { this.up = up; this.m = new Map(); }
  find(n) { let e = this; while (e && !e.m.has(n)) e = e.up; return e; }
  get(n) { const e = this.find(n); return e ? e.m.get(n) : undefined; }
  set(n, v) { const e = this.find(n); (e || this).m.set(n, v); }
  def(n, v) { this.m.set(n, v); }
  all() { const r = []; let e = this; while (e) { for (const [k, v] of e.m) r.push([e, k, v]); e = e.up; } return r; }
}
function mergeEnv(snapA, snapB) {
  for (const [e, k, a] of snapA) {
    const b = snapB.find(x => x[0] === e && x[1] === k);
    if (b && b[2] !== a && text(b[2]) + JSON.stringify(parts(a)) !== text(a) + JSON.stringify(parts(b[2]))) e.m.set(k, sym('phi(' + text(a) + ',' + text(b[2]) + ')'));
    else e.m.set(k, a);
  }
}
function line(n) { const sf = n.getSourceFile(); return sf.getLineAndCharacterOfPosition(n.getStart()).line + 1; }
function sink(kind, v, n) { sinks.push({ kind, parts: parts(v), file: n.getSourceFile().fileName, line: line(n) }); }

function bindPattern(name, v, env) {
  if (ts.isIdentifier(name)) return env.def(name.text, v);
  if (ts.isArrayBindingPattern(name)) name.elements.forEach((e, i) => ts.isOmittedExpression(e) || bindPattern(e.name, v.t === 'arr' ? v.e[i] || undef : sym(text(v) + '[' + i + ']'), env));
  else if (ts.isObjectBindingPattern(name)) name.elements.forEach(e => bindPattern(e.name, member(v, (e.propertyName || e.name).text), env));
}
function member(v, n) {
  if (v.t === 'sym' && v.response) fields.push(n);
  if (v.t === 'obj' && Object.prototype.hasOwnProperty.call(v.f, n)) return v.f[n];
  if (v.t === 'url' && n === 'searchParams') return { t: 'usp', of: v };
  if (v.t === 'url' && n === 'href') return { t: 'urlstr', base: v.base, list: v.list, open: v.open };
  if (v.t === 'arr' && n === 'length') return { t: 'c', v: v.e.length };
  return sym(text(v) + '.' + n, n === 'checked' ? { box: true } : {});
}
function index(v, i) {
  const k = known(i);
  if (v.t === 'sym' && v.response && k !== null && isNaN(+k)) fields.push(k);
  if (k !== null && v.t === 'arr') return v.e[+k] || sym(text(v) + '[' + k + ']');
  if (k !== null) return /^[A-Za-z_$]/.test(k) ? member(v, k) : sym(text(v) + '[' + k + ']');
  if (v.t === 'obj') return sym((v.name || 'obj') + '[' + text(i) + ']', { oneof: Object.values(v.f).map(known) });
  return sym(text(v) + '[' + text(i) + ']');
}

function callFn(f, args, thisv) {
  if (depth > 12) return sym('?deep');
  depth++;
  const env = new Env(f.env);
  f.node.parameters.forEach((p, i) => {
    let v = args[i];
    if (p.dotDotDotToken) v = sym('rest');
    if (!v || v.t === 'u') v = p.initializer ? ev(p.initializer, env) : undef;
    bindPattern(p.name, v, env);
  });
  if (!(ts.isArrowFunction(f.node)) && thisv) env.def('this', thisv);
  let r = { rets: [] };
  if (ts.isBlock(f.node.body)) { block(f.node.body.statements, env, r); } else r.rets.push(ev(f.node.body, env));
  depth--;
  if (r.rets.length === 1 || (r.rets.length > 1 && r.rets.every(x => text(x) === text(r.rets[0])))) return r.rets[0];
  return r.rets.length ? sym('result of ' + (f.node.name ? f.node.name.text : 'function')) : undef;
}
function callback(f, callee, thisv) {
  const n = f.node.parameters.length;
  return callFn(f, Array.from({ length: n }, (_, i) => sym('arg' + i + '@' + callee, i === 0 && /^(\$|jQuery)\.(getJSON|get)$/.test(callee) && f.local ? { response: true } : {})), thisv);
}

function ev(n, env) {
  switch (n.kind) {
    case K.ParenthesizedExpression: case K.AwaitExpression: case K.NonNullExpression: case K.AsExpression: return ev(n.expression, env);
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return lit(n.text);
    case K.NumericLiteral: return { t: 'c', v: n.text };
    case K.TrueKeyword: return { t: 'c', v: 'true' };
    case K.FalseKeyword: return { t: 'c', v: 'false' };
    case K.NullKeyword: return { t: 'c', v: 'null' };
    case K.ThisKeyword: return env.get('this') || sym('this');
    case K.Identifier: { const v = env.get(n.text); return v === undefined ? (n.text === 'undefined' ? undef : sym(n.text)) : v; }
    case K.TemplateExpression: {
      let r = lit(n.head.text);
      for (const s of n.templateSpans) r = cat(cat(r, ev(s.expression, env)), lit(s.literal.text));
      return r;
    }
    case K.RegularExpressionLiteral: return sym(n.text);
    case K.ArrayLiteralExpression: return n.elements.some(ts.isSpreadElement) ? sym('array') : { t: 'arr', e: n.elements.map(e => ev(e, env)) };
    case K.ObjectLiteralExpression: {
      const f = {}; let odd = false;
      for (const p of n.properties) {
        if (ts.isPropertyAssignment(p)) {
          const k = ts.isComputedPropertyName(p.name) ? known(ev(p.name.expression, env)) : p.name.text;
          if (k === null) odd = true; else f[k] = ev(p.initializer, env);
        } else if (ts.isShorthandPropertyAssignment(p)) f[p.name.text] = ev(p.name, env);
        else if (ts.isSpreadAssignment(p)) { const o = ev(p.expression, env); if (o.t === 'obj' && !o.odd) Object.assign(f, o.f); else odd = true; }
        else odd = true;
      }
      return { t: 'obj', f, odd };
    }
    case K.FunctionExpression: case K.ArrowFunction: return { t: 'fn', node: n, env };
    case K.PropertyAccessExpression: return member(ev(n.expression, env), n.name.text);
    case K.ElementAccessExpression: return index(ev(n.expression, env), ev(n.argumentExpression, env));
    case K.ConditionalExpression: {
      const c = ev(n.condition, env), a = ev(n.whenTrue, env), b = ev(n.whenFalse, env);
      if (truth(c) !== null) return truth(c) ? a : b;
      const ka = known(a), kb = known(b);
      return sym(text(c) + '?' + text(a) + ':' + text(b), ka !== null && kb !== null ? { oneof: [ka, kb] } : {});
    }
    case K.PrefixUnaryExpression: case K.PostfixUnaryExpression: {
      const v = ev(n.operand, env);
      if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) { if (ts.isIdentifier(n.operand)) env.set(n.operand.text, sym('number')); return sym('number'); }
      if (n.operator === K.ExclamationToken && truth(v) !== null) return { t: 'c', v: String(!truth(v)) };
      return sym(ts.tokenToString(n.operator) + text(v));
    }
    case K.BinaryExpression: return binary(n, env);
    case K.NewExpression: {
      const c = ts.isIdentifier(n.expression) ? n.expression.text : '', args = (n.arguments || []).map(a => ev(a, env));
      if (c === 'URLSearchParams') return { t: 'usp', ...fromObj(args[0]) };
      if (c === 'URL') return { t: 'url', ...urlOf(args[0] || undef) };
      if (c === 'String') return args[0] || lit('');
      if (c === 'Option' && args.length > 1) return sym('new Option', { opt: [args[0], args[1]] });
      return sym('new ' + c + '(' + args.map(text).join(',') + ')');
    }
    case K.CallExpression: return call(n, env);
    case K.TypeOfExpression: return sym('typeof');
    case K.DeleteExpression: case K.VoidExpression: ev(n.expression, env); return undef;
    default: { ts.forEachChild(n, c => { if (ts.isExpressionNode ? ts.isExpressionNode(c) : false) ev(c, env); }); return sym('?' + K[n.kind]); }
  }
}
function fromObj(v) {
  if (!v || v.t === 'u') return { list: [] };
  if (v.t === 'obj') return { list: Object.entries(v.f).map(([k, x]) => [k, parts(x)]), open: v.odd };
  if (v.t === 'arr' && v.e.every(e => e.t === 'arr' && known(e.e[0]) !== null)) return { list: v.e.map(e => [known(e.e[0]), parts(e.e[1])]) };
  if (v.t === 'usp') return { list: [...uspList(v)], open: v.open };
  return { list: [], open: true, base: text(v) };
}
function urlOf(v) {
  return { base: v, list: [], open: true };
}
const uspOwner = u => u.of || u;
const uspList = u => uspOwner(u).list;

function assignTo(target, v, env) {
  if (ts.isParenthesizedExpression(target)) return assignTo(target.expression, v, env);
  if (ts.isIdentifier(target)) { env.set(target.text, v); return; }
  if (ts.isPropertyAccessExpression(target) || ts.isElementAccessExpression(target)) {
    const t = target.getText().replace(/\s+/g, '');
    if (/^(window\.|document\.|self\.|top\.)?location(\.href)?$/.test(t)) sink('navigate', v, target);
    const o = ev(target.expression, env);
    if (o.t === 'obj') {
      const k = ts.isPropertyAccessExpression(target) ? target.name.text : known(ev(target.argumentExpression, env));
      if (k === null) o.odd = true; else o.f[k] = v;
    }
    if (v.t === 'fn') { // e.g. $.param = function(..)
      env.get('$members') || modEnv(env).def('$members', { t: 'obj', f: {} });
      env.get('$members').f[t] = v;
    }
    return;
  }
  if (ts.isArrayLiteralExpression(target)) target.elements.forEach((e, i) => assignTo(e, index(v, { t: 'c', v: i }), env));
}
function modEnv(env) { while (env.up) env = env.up; return env; }

// whether a value counts as true, if that is known
function truth(v) {
  if (v.t === 'sym' && v.box) return CHECKED;
  if (v.t === 'u') return false;
  const k = known(v);
  if (k === null) return ['obj', 'arr', 'fn', 'url', 'usp'].includes(v.t) ? true : null;
  return v.t === 'c' ? !['false', 'null', '0'].includes(k) : k !== '';
}
function binary(n, env) {
  const o = n.operatorToken.kind;
  if (o === K.EqualsToken) { const v = ev(n.right, env); assignTo(n.left, v, env); return v; }
  if (o === K.PlusEqualsToken) { const v = cat(ev(n.left, env), ev(n.right, env)); assignTo(n.left, v, env); return v; }
  if (o >= K.FirstAssignment && o <= K.LastAssignment) { ev(n.right, env); assignTo(n.left, sym('?assigned'), env); return sym('?assigned'); }
  const a = ev(n.left, env), b = ev(n.right, env);
  const box = (x, y) => x.t === 'sym' && x.box && y.t === 'c' && ['true', 'false'].includes(String(y.v)) ? String(CHECKED) === String(y.v) : null;
  const same2 = box(a, b) !== null ? box(a, b) : box(b, a);
  if (same2 !== null && (o === K.EqualsEqualsEqualsToken || o === K.EqualsEqualsToken)) return { t: 'c', v: String(same2) };
  if (same2 !== null && (o === K.ExclamationEqualsEqualsToken || o === K.ExclamationEqualsToken)) return { t: 'c', v: String(!same2) };
  const ka = known(a), kb = known(b), bool = x => ({ t: 'c', v: String(x) });
  if (ka !== null && kb !== null) {
    const same = ka === kb && (a.t === 'c') === (b.t === 'c');
    if (o === K.EqualsEqualsEqualsToken) return bool(same);
    if (o === K.ExclamationEqualsEqualsToken) return bool(!same);
    if (a.t !== 'c' && b.t !== 'c' && o === K.EqualsEqualsToken) return bool(same);
    if (a.t !== 'c' && b.t !== 'c' && o === K.ExclamationEqualsToken) return bool(!same);
  }
  if (o === K.AmpersandAmpersandToken && truth(a) !== null) return truth(a) ? b : a;
  if (o === K.BarBarToken && truth(a) !== null) return truth(a) ? a : b;
  if (o === K.QuestionQuestionToken && truth(a) !== null && ka !== 'null' && a.t !== 'u') return a;
  if (o === K.PlusToken) return a.t === 'c' && b.t === 'c' ? sym('number') : cat(a, b);
  if (o === K.CommaToken) return b;
  return sym(text(a) + ts.tokenToString(o) + text(b));
}

const GET = new Set(['$.getJSON', '$.get', 'jQuery.getJSON', 'jQuery.get', 'fetch', 'window.fetch', '$.post']);
const NAV = new Set(['window.location.assign', 'window.location.replace', 'location.assign', 'location.replace', 'window.open', 'document.location.assign']);

function call(n, env) {
  const callee = n.expression, ct = callee.getText().replace(/\s+/g, '');
  const args = n.arguments.map(a => ev(a, env));
  if (ct === 'encodeURIComponent' && args.length) {
    const k = known(args[0]);
    if (args[0].t === 'sym' && args[0].enc) return sym(args[0].x, { enc: true, twice: true });
    if (k !== null) return { t: 's', p: [{ lit: encodeURIComponent(k) }] };
    return args[0].t === 'sym' ? sym(args[0].x, { enc: true, oneof: args[0].oneof && args[0].oneof.map(x => x === null ? null : encodeURIComponent(x)) }) : sym(text(args[0]), { enc: true });
  }
  if (ct === 'String' && args.length) return args[0];
  if (ct === 'encodeURI' || ct === 'escape') return sym(ct + '(' + args.map(text).join(',') + ')');
  if (GET.has(ct)) sink('get', args[0] || undef, n);
  if (NAV.has(ct)) sink('navigate', args[0] || undef, n);
  if (ct === '$' && args.length === 1) {
    if (args[0].t === 'fn') { callback(args[0], 'ready'); return sym('$'); }
    const k = known(args[0]);
    if (k !== null) { const m = /^#([\w-]+)/.exec(k); if (m) ids.push({ id: m[1], file: n.getSourceFile().fileName, line: line(n) }); }
    if (args[0].t === 'sym' && args[0].elem) return args[0];
    if (args[0].t === 'sym' && args[0].x.startsWith('$(')) return args[0];
    return sym('$(' + text(args[0]) + ')');
  }
  let thisv = undef, f = null;
  if (ts.isPropertyAccessExpression(callee)) {
    thisv = ev(callee.expression, env);
    const m = callee.name.text;
    if (m === 'getElementById' && args.length && known(args[0]) !== null) { ids.push({ id: known(args[0]), file: n.getSourceFile().fileName, line: line(n) }); return sym('$(' + JSON.stringify('#' + known(args[0])) + ')'); }
    if (m === 'querySelector' && args.length && known(args[0]) !== null) { const mm = /^#([\w-]+)/.exec(known(args[0])); if (mm) ids.push({ id: mm[1], file: n.getSourceFile().fileName, line: line(n) }); return sym('$(' + text(args[0]) + ')'); }
    if (thisv.t === 'usp') {
      const ow = uspOwner(thisv), k = args[0] && known(args[0]);
      if (m === 'set' || m === 'append') {
        if (k === null || k === undefined) ow.open = true;
        else if (m === 'append' && ow.open && !ow.list.some(e => e[0] === k)) ow.list.push([k, [{ sym: '?appended to the present value' }], 'append']);
        else { if (m === 'set') ow.list = ow.list.filter(e => e[0] !== k); ow.list.push([k, parts(args[1] || undef)]); }
        return undef;
      }
      if (m === 'delete' && k !== null) { ow.list = ow.list.filter(e => e[0] !== k); return undef; }
      if (m === 'toString') return { t: 'uspstr', list: ow.list.slice(), open: ow.open };
    }
    if (thisv.t === 'url' && m === 'toString') return { t: 'urlstr', base: thisv.base, list: thisv.list.slice(), open: thisv.open };
    if (m === 'toString' && (thisv.t === 's' || thisv.t === 'sym' || thisv.t === 'urlstr' || thisv.t === 'uspstr')) return thisv;
    if (m === 'concat' && thisv.t === 's') return args.reduce(cat, thisv);
    if (m === 'join' && thisv.t === 'arr') { const sep = args.length ? args[0] : lit(','); return thisv.e.reduce((a, b, i) => i ? cat(cat(a, sep), b) : cat(lit(''), b), lit('')); }
    if (m === 'includes' && args.length === 1 && known(args[0]) !== null) {
      if (thisv.t === 'arr' && thisv.e.every(e => known(e) !== null)) return { t: 'c', v: String(thisv.e.some(e => known(e) === known(args[0]) && (e.t === 'c') === (args[0].t === 'c'))) };
      if (thisv.t === 's' && known(thisv) !== null) return { t: 'c', v: String(known(thisv).includes(known(args[0]))) };
    }
    if ((m === 'startsWith' || m === 'endsWith') && args.length === 1 && known(args[0]) !== null && thisv.t === 's' && known(thisv) !== null) return { t: 'c', v: String(known(thisv)[m](known(args[0]))) };
    if (m === 'push' && thisv.t === 'arr') { thisv.e.push(...args); return undef; }
    if ((m === 'forEach' || m === 'map') && thisv.t === 'arr' && args[0] && args[0].t === 'fn') { const r = thisv.e.map((e, i) => callFn(args[0], [e, { t: 'c', v: i }])); return m === 'map' ? { t: 'arr', e: r } : undef; }
    if (ct === 'Object.entries' && args[0] && args[0].t === 'obj') return { t: 'arr', e: Object.entries(args[0].f).map(([k, v]) => ({ t: 'arr', e: [lit(k), v] })) };
    const mem = env.get('$members');
    if (mem && mem.f[ct]) return sym(ct + '(' + args.map(text).join(',') + ')');
  }
  if (ts.isPropertyAccessExpression(callee)) {
    const m = callee.name.text;
    if ((m === 'append' || m === 'prepend') && args[0] && args[0].opt) lists.push({ select: text(thisv), text: text(args[0].opt[0]), value: text(args[0].opt[1]), file: n.getSourceFile().fileName, line: line(n) });
    if (m === 'DataTable' && args[0] && args[0].t === 'obj') {
      const o = args[0].f.aaSorting || args[0].f.order, q = args[0].f.paging;
      tables.push({ order: o && o.t === 'arr' ? o.e.map(e => e.t === 'arr' ? e.e.map(known) : null) : null, paging: q ? known(q) : null, file: n.getSourceFile().fileName, line: line(n) });
    }
    if (/^(change|click|dblclick|on|submit|input|blur|keyup|addEventListener)$/.test(m)) for (const a of n.arguments) if (ts.isFunctionExpression(a) || ts.isArrowFunction(a)) captured(a);
  }
  f = ts.isPropertyAccessExpression(callee) ? member(thisv, callee.name.text) : ev(callee, env);
  if (f.t === 'fn') return callFn(f, args);
  const name = text(f);
  if (args.length === 1 && known(args[0]) === ':checked' && /\.is$/.test(name) || known(args[0] || undef) === 'checked' && args.length === 1 && /\.prop$/.test(name)) return sym(name + '(' + text(args[0]) + ')', { box: true });
  if (GET.has(ct) && args.length > 1 && args[1].t === 'fn' && parts(args[0])[0] && /^\//.test(parts(args[0])[0].lit || '')) args[1] = Object.assign({}, args[1], { local: true });
  for (const a of args) if (a.t === 'fn') callback(a, name, /^\$\(/.test(text(thisv)) && !/^\$\("?document/.test(text(thisv)) && /\.(change|click|dblclick|on|submit|input|blur|keyup|each)$/.test(name) ? sym(text(thisv)) : undefined);
  return sym(name + '(' + args.map(a => a.t === 'fn' ? 'fn' : text(a)).join(',') + ')');
}

// returns true when the end is not reached
// variables of a handler that the rounds of the loop around it share
function captured(f) {
  const names = new Set();
  (function walk(x) { if (ts.isIdentifier(x) && !(ts.isPropertyAccessExpression(x.parent) && x.parent.name === x) && !(ts.isPropertyAssignment(x.parent) && x.parent.name === x)) names.add(x.text); ts.forEachChild(x, walk); })(f.body);
  const declares = (node, nm, vars) => { // does this block or function declare the name itself?
    let hit = null;
    (function walk(x) {
      if (x !== node && ts.isFunctionLike(x)) { if (ts.isFunctionDeclaration(x) && x.name && x.name.text === nm) hit = hit || 'let'; return; }
      if (ts.isVariableDeclaration(x) && ts.isIdentifier(x.name) && x.name.text === nm) {
        const l = x.parent.flags & ts.NodeFlags.BlockScoped;
        if (!l && vars) hit = x;
        if (l) { let b = x.parent.parent; if (ts.isVariableStatement(x.parent.parent)) b = x.parent.parent.parent; if (b === node) hit = 'let'; }
      }
      ts.forEachChild(x, walk);
    })(node);
    return hit;
  };
  for (const nm of names) {
    const loops = [];
    for (let p = f; p; p = p.parent) {
      const fl = ts.isFunctionLike(p) || ts.isSourceFile(p);
      if (ts.isIterationStatement(p, false)) loops.push(p);
      if (fl && p.parameters && p.parameters.some(q => q.name.getText() === nm)) break;
      if (fl || ts.isBlock(p) || ts.isIterationStatement(p, false)) {
        const d = declares(p, nm, fl);
        if (d === 'let') break;
        if (d) { if (loops.some(l => d.pos >= l.pos && d.end <= l.end)) shared.push({ name: nm, file: f.getSourceFile().fileName, line: line(f) }); break; }
      }
      if (fl && p.name && p.name.text === nm) break;
    }
  }
}
function block(stmts, env, r) {
  for (const s of stmts) if (ts.isFunctionDeclaration(s) && s.name) env.def(s.name.text, { t: 'fn', node: s, env });
  for (const s of stmts) if (stmt(s, env, r)) return true;
  return false;
}
function stmt(s, env, r) {
  switch (s.kind) {
    case K.VariableStatement: for (const d of s.declarationList.declarations) { const v = d.initializer ? ev(d.initializer, env) : undef; if (v.t === 'obj' && ts.isIdentifier(d.name)) v.name = d.name.text; bindPattern(d.name, v, env); } return false;
    case K.ExpressionStatement: ev(s.expression, env); return false;
    case K.ReturnStatement: r.rets.push(s.expression ? ev(s.expression, env) : undef); return true;
    case K.ThrowStatement: return true;
    case K.Block: return block(s.statements, new Env(env), r);
    case K.IfStatement: {
      const c = truth(ev(s.expression, env));
      if (c === true) return stmt(s.thenStatement, env, r);
      if (c === false) return s.elseStatement ? stmt(s.elseStatement, env, r) : false;
      const before = env.all();
      const ta = stmt(s.thenStatement, env, r), after = env.all();
      for (const [e, k, v] of before) e.m.set(k, v);
      const tb = s.elseStatement ? stmt(s.elseStatement, env, r) : false;
      if (ta && tb) return true;
      if (ta) return false;
      if (tb) { for (const [e, k, v] of after) e.m.set(k, v); return false; }
      mergeEnv(after, env.all());
      return false;
    }
    case K.ForOfStatement: {
      const it = ev(s.expression, env);
      const one = v => { const e = new Env(env); if (ts.isVariableDeclarationList(s.initializer)) bindPattern(s.initializer.declarations[0].name, v, e); stmt(s.statement, e, r); };
      if (it.t === 'arr') it.e.forEach(one); else loop(env, () => one(sym('elem(' + text(it) + ')')));
      return false;
    }
    case K.ForInStatement: loop(env, () => { const e = new Env(env); if (ts.isVariableDeclarationList(s.initializer)) bindPattern(s.initializer.declarations[0].name, sym('key'), e); stmt(s.statement, e, r); }); return false;
    case K.ForStatement: {
      const e = new Env(env);
      if (s.initializer && ts.isVariableDeclarationList(s.initializer)) {
        for (const d of s.initializer.declarations) { const v = d.initializer ? ev(d.initializer, e) : undef; bindPattern(d.name, v, e); }
        // for (i = 0; i < known; i++): unroll
        const d = s.initializer.declarations[0];
        if (s.initializer.declarations.length === 1 && ts.isIdentifier(d.name) && s.condition && ts.isBinaryExpression(s.condition) && s.condition.operatorToken.kind === K.LessThanToken) {
          const a = known(e.get(d.name.text)), b = known(ev(s.condition.right, e));
          if (a !== null && b !== null && +b - +a <= 64) { for (let i = +a; i < +b; i++) { const f = new Env(env); f.def(d.name.text, { t: 'c', v: i }); stmt(s.statement, f, r); } return false; }
        }
        const up = s.condition && ts.isBinaryExpression(s.condition) && s.condition.operatorToken.kind === K.LessThanToken && s.incrementor && /^(\w+\+\+|\+\+\w+|\w+\s*\+=\s*1)$/.test(s.incrementor.getText()) && s.initializer.declarations.length === 1;
        for (const d2 of s.initializer.declarations) bindPattern(d2.name, sym(up ? 'index(' + (d2.initializer ? text(ev(d2.initializer, e)) : '?') + ',' + text(ev(s.condition.right, e)) + ')' : d2.name.getText()), e);
      }
      loop(e, () => stmt(s.statement, e, r));
      return false;
    }
    case K.WhileStatement: case K.DoStatement: loop(env, () => stmt(s.statement, env, r)); return false;
    case K.TryStatement: block(s.tryBlock.statements, new Env(env), r); if (s.catchClause) block(s.catchClause.block.statements, new Env(env), r); return false;
    case K.SwitchStatement: { ev(s.expression, env); const b = env.all(); for (const c of s.caseBlock.clauses) { block(c.statements, new Env(env), r); } mergeEnv(b, env.all()); return false; }
    case K.FunctionDeclaration: case K.EmptyStatement: case K.ImportDeclaration: case K.BreakStatement: case K.ContinueStatement: case K.ExportDeclaration: return false;
    case K.LabeledStatement: return stmt(s.statement, env, r);
    default: return false;
  }
}
function loop(env, body) {
  const a = env.all();
  body();
  mergeEnv(a, env.all());
}
function load(f) {
  f = path.resolve(f);
  if (modules[f]) return modules[f];
  const env = new Env(null);
  modules[f] = env;
  const sf = ts.createSourceFile(f, fs.readFileSync(f, 'utf8'), ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
  for (const s of sf.statements) if (ts.isImportDeclaration(s) && s.moduleSpecifier.text.startsWith('.')) {
    const m = load(path.join(path.dirname(f), s.moduleSpecifier.text)), nb = s.importClause && s.importClause.namedBindings;
    if (nb && ts.isNamedImports(nb)) for (const e of nb.elements) { const v = m.get((e.propertyName || e.name).text); if (v) env.def(e.name.text, v); }
  }
  block(sf.statements, env, { rets: [] });
  // declared functions nobody called from the outside are entry points as well
  return env;
}
const out = {};
for (const f of process.argv.slice(2)) {
  sinks = []; ids = []; depth = 0; CHECKED = false; lists = []; tables = []; fields = []; shared = [];
  for (const k of Object.keys(modules)) delete modules[k];
  load(f);
  const off = sinks;
  sinks = []; ids = []; depth = 0; CHECKED = true; lists = []; tables = []; fields = []; shared = [];
  for (const k of Object.keys(modules)) delete modules[k];
  const env = load(f);
  out[f] = { sinks: sinks, off: off, ids: ids, reads: [], lists, tables, fields, shared };
  const src = fs.readFileSync(f, 'utf8');
  const sf = ts.createSourceFile(f, src, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
  (function walk(n) {
    if (ts.isCallExpression(n) && /^\$\.param$/.test(n.expression.getText()) && n.arguments.length && ts.isStringLiteral(n.arguments[0])) out[f].reads.push(n.arguments[0].text);
    if (ts.isCallExpression(n) && /searchParams\.get$/.test(n.expression.getText()) && n.arguments.length && ts.isStringLiteral(n.arguments[0])) out[f].reads.push(n.arguments[0].text);
    ts.forEachChild(n, walk);
  })(sf);
}
console.log(JSON.stringify(out));
