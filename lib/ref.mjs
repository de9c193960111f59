// Reference model: which source nodes must carry counters, and a probed version of the program which
// counts them independently of the instrumenter. Works on acorn's AST (own parser, own insertion).
import { acorn, acornJsx } from './istanbul.mjs';

const LOOPS = new Set(['ForStatement', 'ForInStatement', 'ForOfStatement', 'WhileStatement', 'DoWhileStatement']);
const PLAIN = new Set(['ReturnStatement', 'ThrowStatement', 'BreakStatement', 'ContinueStatement', 'TryStatement',
  'SwitchStatement', 'IfStatement', 'WithStatement', 'LabeledStatement', 'DebuggerStatement', ...LOOPS]);
export const STMT_TYPES = PLAIN;

export function parse(code, sourceType = 'script', jsx = false) {
  const comments = [];
  const ast = (jsx ? acornJsx() : acorn).parse(code, { ecmaVersion: 'latest', sourceType: sourceType === 'commonjs' ? 'script' : sourceType, locations: true, ranges: false, preserveParens: true,
    allowReturnOutsideFunction: sourceType === 'commonjs', allowHashBang: true, onComment: comments });
  return { ast, comments };
}

export function children(n) {
  const out = [];
  for (const k in n) {
    if (k === 'type' || k === 'start' || k === 'end' || k === 'loc') continue;
    const v = n[k];
    if (Array.isArray(v)) { for (const x of v) if (x && typeof x.type === 'string') out.push([k, x]); }
    else if (v && typeof v.type === 'string') out.push([k, v]);
  }
  return out.sort((a, b) => a[1].start - b[1].start || b[1].end - a[1].end);
}

const isLogical = (n) => n.type === 'LogicalExpression';
const unparen = (n) => { while (n.type === 'ParenthesizedExpression') n = n.expression; return n; };
const MEMBERS = new Set(['MethodDefinition', 'PropertyDefinition', 'SwitchCase', 'VariableDeclarator', 'AssignmentPattern', 'FunctionExpression', 'ArrowFunctionExpression', 'ConditionalExpression', 'LogicalExpression',
  'VariableDeclaration', 'FunctionDeclaration', 'ClassDeclaration', 'ExportNamedDeclaration', 'ExportDefaultDeclaration']);
/** nodes a hint `next` can exclude, with everything in them */
export const ELIGIBLE = (n) => n.type === 'ParenthesizedExpression' ? ELIGIBLE(unparen(n)) : MEMBERS.has(n.type) || (/Statement$/.test(n.type) && n.type !== 'EmptyStatement') || (n.type === 'Property' && (n.method || n.kind !== 'init'));
/** excluded by the option ignoreClassMethods */
function methodIgnored(n, listed) {
  if (n.type === 'MethodDefinition' || (n.type === 'Property' && (n.method || n.kind !== 'init'))) {
    if (n.kind === 'constructor') return listed('constructor');
    if (n.computed) return false;
    return n.key.type === 'Identifier' ? listed(n.key.name) : false;
  }
  return n.type === 'FunctionExpression' && n.id ? listed(n.id.name) : false;
}
export const isFn = (n) => n.type === 'FunctionDeclaration' || n.type === 'FunctionExpression' || n.type === 'ArrowFunctionExpression';

/** How an initialiser's statement counter is placed: '' wrapped, 'block' | 'fn' | 'tag' before the declaration. */
export function hoisting(init) {
  if (init.type === 'TaggedTemplateExpression') return 'tag';
  let block = false, fn = false;
  (function walk(n) {
    if (n.type === 'BlockStatement' || n.type === 'StaticBlock') block = true;
    if (n.type === 'ClassExpression' || n.type === 'ArrowFunctionExpression' || n.type === 'FunctionExpression') fn = true;
    for (const [, c] of children(n)) walk(c);
  })(init);
  return block ? 'block' : fn ? 'fn' : '';
}

/** Lines (ended by LF, CR or CRLF) and columns (UTF-16 units, no byte order mark), as swc's source map counts them. */
export function locator(code) {
  const starts = [0];
  const re = /\r\n|[\n\r]/g; let m;
  while ((m = re.exec(code))) starts.push(m.index + m[0].length);
  return (pos) => {
    let lo = 0, hi = starts.length - 1;
    while (lo < hi) { const mid = (lo + hi + 1) >> 1; if (starts[mid] <= pos) lo = mid; else hi = mid - 1; }
    return { line: lo + 1, column: pos - (lo === 0 && code.startsWith('\ufeff') ? 1 : starts[lo]) };
  };
}
export const rkey = (r) => `${r.start.line}:${r.start.column}-${r.end.line}:${r.end.column}`;

/**
 * items: {kind:'s'|'f'|'b', type, node, range key(s), id(s)}; each id is a probe number.
 * reportLogic adds truth probes on logical leaves.
 */
export function analyze(code, sourceType = 'script', { reportLogic = false, ignoreClassMethods = [], hints = [], probeBase = 0, jsx = false } = {}) {
  const { ast, comments } = parse(code, sourceType, jsx);
  const loc = locator(code);
  const items = [];
  const ins = new Map(); // pos -> {close:[], open:[]}
  const at = (p) => { let x = ins.get(p); if (!x) ins.set(p, (x = { close: [], open: [] })); return x; };
  let nid = probeBase;
  const R = (n) => rkey({ start: loc(n.start), end: loc(n.end) });
  const P = (id) => `$p(${id})`;

  // Per node: text inserted before / after; filled by its ancestors before it is visited.
  const pre = new Map(), post = new Map();
  const addPre = (n, t) => pre.set(n, (pre.get(n) ?? '') + t);
  const addPost = (n, t) => post.set(n, t + (post.get(n) ?? ''));
  const wrapExpr = (n, id) => { addPre(n, `(${P(id)},`); addPost(n, ')'); };
  const blockWrap = (n, head = '') => { // a statement in a single-statement position
    addPre(n, `{${head}`); addPost(n, '}');
  };
  const stmtProbe = (n, id, hoistTo) => addPre(hoistTo ?? n, `${P(id)};`);
  // Excluded code still has its probes (it must run the same), but no items.
  let skip = 0;
  const hintAt = new Map(hints.map((x) => [x.start, x.kind]));
  const nameIgnored = (x) => x !== null && x !== undefined && ignoreClassMethods.includes(x);
  const hinted = (n) => hintAt.get(n.start) === 'next';
  const item = (o) => { if (!skip) items.push(o); return o; };
  const fnBodyDirectiveEnd = (body) => { let p = body.start + 1; for (const s of body.body) { if (s.directive === undefined) break; p = s.end; } return p; };

  function visitFn(n, nameInfo) {
    const id = nid++;
    item({ kind: 'f', type: n.type, node: n, range: R(n.body), id, ...nameInfo });
    if (n.body.type === 'BlockStatement') {
      at(fnBodyDirectiveEnd(n.body)).open.push(`;${P(id)};`);
    } else {
      const sid = nid++;
      item({ kind: 's', type: 'ConciseBody', node: n.body, range: R(n.body), id: sid });
      addPre(n.body, `(${P(id)},${P(sid)},`); addPost(n.body, ')');
    }
  }
  // ctx: list = the statement sits in a statement list; hoist = where a label chain starts
  function visitStmtPos(n, hoist) { // non-list single statement position
    if (n.type === 'BlockStatement') { visit(n, null, {}); return; }
    blockWrap(n); visit(n, null, {});
  }
  function visit(n, parent, ctx) {
    const out = (hinted(n) && ELIGIBLE(n)) || methodIgnored(n, nameIgnored);
    if (out) skip++;
    visitNode(n, parent, ctx);
    if (out) skip--;
  }
  function visitNode(n, parent, ctx) {
    const hint = skip ? null : hintAt.get(n.start);
    switch (n.type) {
      case 'ExpressionStatement':
        if (n.directive === undefined) {
          const id = nid++; item({ kind: 's', type: n.type, node: n, range: R(n), id }); stmtProbe(n, id, ctx.hoist);
        }
        break;
      case 'VariableDeclaration': {
        const forHead = parent && (parent.type === 'ForInStatement' || parent.type === 'ForOfStatement') && parent.left === n;
        const exportConst = parent && parent.type === 'ExportNamedDeclaration' && n.kind === 'const';
        const top = ctx.hoist ?? (parent && parent.type === 'ExportNamedDeclaration' ? parent : n);
        if (exportConst) {
          const id = nid++; item({ kind: 's', type: 'ExportConst', node: parent, range: R(parent), id });
          addPre(parent, `${P(id)};`);
        }
        for (const d of n.declarations) {
          if (d.init) {
            // Initialisers holding functions or classes (and tagged templates) are counted when the
            // declaration statement is reached, so that they keep their inferred names; all others when evaluated.
            const how = hoisting(d.init);
            if (how === 'fn' && exportConst) continue;
            if (hinted(d)) skip++;
            const id = nid++;
            item({ kind: 's', type: 'Init', node: d.init, range: R(d.init), id, declarator: d, decl: n, declParent: parent, how });
            if (how) addPre(top, `${P(id)};`); else if (!forHead) addPre(d, `[]=${P(id)},`);
            if (hinted(d)) skip--;
          }
        }
        break;
      }
      case 'PropertyDefinition':
        if (n.value) {
          const id = nid++; item({ kind: 's', type: 'ClassProp', node: n.value, range: R(n.value), id });
          addPre(n, `${n.static ? 'static ' : ''}#$p${id}=${P(id)};`);
        }
        break;
      default:
        if (PLAIN.has(n.type)) {
          const id = nid++; item({ kind: 's', type: n.type, node: n, range: R(n), id }); stmtProbe(n, id, ctx.hoist);
        }
    }
    if (n.type === 'IfStatement') {
      const c = nid++, a = nid++;
      const ids = [c, a]; if (hint === 'if') ids.shift(); if (hint === 'else') ids.pop();
      item({ kind: 'b', type: 'if', node: n, range: R(n), ranges: ids.map(() => R(n)), ids });
      const arm = (s, id) => { if (s.type === 'BlockStatement') at(s.start + 1).open.push(`${P(id)};`); else blockWrap(s, `${P(id)};`); };
      arm(n.consequent, c);
      if (n.alternate) arm(n.alternate, a); else addPost(n, ` else {${P(a)}}`);
    }
    if (n.type === 'ConditionalExpression') {
      const c = nid++, a = nid++;
      const kept = [[n.consequent, c], [n.alternate, a]].filter(([x]) => !hinted(x));
      item({ kind: 'b', type: 'cond-expr', node: n, range: R(n), ranges: kept.map(([x]) => R(x)), ids: kept.map(([, id]) => id) });
      wrapExpr(n.consequent, c); wrapExpr(n.alternate, a);
    }
    if (isLogical(n) && !ctx.inLogical) {
      const leaves = [];
      const gone = new Set();
      (function find(x, off) { const o = off || hinted(x); const u = unparen(x); if (isLogical(u)) { find(u.left, o); find(u.right, o); } else { leaves.push(x); if (o) gone.add(x); } })(n, false);
      const ids = leaves.map(() => nid++);
      const tids = reportLogic ? leaves.map(() => nid++) : null;
      const live = (l) => l && l.filter((_, i) => !gone.has(leaves[i]));
      item({ kind: 'b', type: 'binary-expr', node: n, range: R(n), ranges: live(leaves.map(R)), ids: live(ids), tids: live(tids) });
      leaves.forEach((l, i) => {
        if (tids) { addPre(l, `(${P(ids[i])},$q(${tids[i]},`); addPost(l, '))'); } else wrapExpr(l, ids[i]);
      });
    }
    if (n.type === 'SwitchStatement') {
      const ids = n.cases.map(() => nid++);
      const live = n.cases.map((c, i) => [c, ids[i]]).filter(([c]) => !hinted(c));
      item({ kind: 'b', type: 'switch', node: n, range: R(n), ranges: live.map(([c]) => R(c)), ids: live.map(([, id]) => id) });
      n.cases.forEach((c, i) => { if (c.consequent.length) addPre(c.consequent[0], `${P(ids[i])};`); else addPost(c, P(ids[i]) + ';'); });
    }
    if (n.type === 'AssignmentPattern') {
      const id = nid++;
      // a logical default is reported leaf by leaf under the default-arg branch
      item({ kind: 'b', type: 'default-arg', node: n, range: R(n), ranges: hinted(n.right) ? [] : [R(n.right)], ids: hinted(n.right) ? [] : [id] });
      wrapExpr(n.right, id);
    }
    if (isFn(n)) {
      const method = parent && parent.value === n && (parent.type === 'MethodDefinition' || (parent.type === 'Property' && (parent.method || parent.kind !== 'init')));
      visitFn(n, { method: method ? parent : null, fname: method ? (!parent.computed && parent.key.type === 'Identifier' ? parent.key.name : null) : n.id ? n.id.name : null });
    }
    for (const [k, c] of children(n)) {
      const cctx = {};
      const off = n.type === 'IfStatement' && ((hint === 'if' && k === 'consequent') || (hint === 'else' && k === 'alternate'));
      if (off) skip++;
      try {
      if (n.type === 'ForStatement' && k === 'init') cctx.hoist = ctx.hoist ?? n;
      if (isLogical(n) || n.type === 'ParenthesizedExpression') {
        if (isLogical(n)) cctx.inLogical = true; else cctx.inLogical = ctx.inLogical;
      }
      if (n.type === 'LabeledStatement' && k === 'body') {
        const top = ctx.hoist ?? n; // labelled bodies keep their label: probes go before the label
        if (c.type === 'FunctionDeclaration') visit(c, n, {}); else visit(c, n, { hoist: top });
        continue;
      }
      if ((LOOPS.has(n.type) || n.type === 'WithStatement') && k === 'body' && c.type !== 'BlockStatement') blockWrap(c);
      visit(c, n, cctx);
      } finally { if (off) skip--; }
    }
  }
  visit(ast, null, {});
  // emit
  (function emitOrder(n) {
    if (pre.has(n)) at(n.start).open.push(pre.get(n));
    for (const [, c] of children(n)) emitOrder(c);
    if (post.has(n)) at(n.end).close.push(post.get(n));
  })(ast);
  const ps = [...ins.keys()].sort((a, b) => a - b);
  let out = '', last = 0;
  for (const p of ps) { const x = ins.get(p); out += code.slice(last, p) + x.close.join('') + x.open.join(''); last = p; }
  out += code.slice(last);
  return { items, probed: out, nprobes: nid, ast, comments, loc };
}
