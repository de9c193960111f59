// Seeded generator of terminating JavaScript programs whose behaviour is visible through $t(id, value).
import { Rng } from './rng.mjs';

const STR = ['""', '"a"', "'b c'", '"0"', '"\\n"', '`q`', '"é"', '"日本"'];
// kinds of expressions which can stand unparenthesised as the base of a member or call, the operand of an operator, the test of a conditional
const BASE = new Set(['prim', 'fnraw']), OPERAND = new Set([...BASE, 'un', 'bin']), UNARY = new Set([...BASE, 'un']), TEST = new Set([...OPERAND, 'log']);
export class Gen {
  constructor(seed, o = {}) {
    this.r = seed instanceof Rng ? seed : new Rng(seed);
    this.o = { sourceType: 'script', size: 26, depth: 3, with: true, astral: false, comments: true, modules: false, async: true, classes: true, generators: true, directives: false, hints: null, ...o };
    this.tid = this.o.idBase ?? 0; this.names = this.o.nameBase ?? 0; this.budget = this.o.size; this.features = new Set();
  }
  id() { return ++this.tid; }
  fresh(p = 'v') { return p + (++this.names); }
  f(x) { this.features.add(x); }
  nl() { const r = this.r; if (!this.o.comments) return r.p(0.5) ? '\n' : ' '; return r.weighted([[10, ' '], [6, '\n'], [2, '\n  '], [1, ' /* c */ '], [1, ' // l\n'], [1, '\n\n\t'], [1, ' /*\n m\n */ ']]); }
  sp() { const r = this.r; return r.weighted([[14, ' '], [2, '\n'], [1, '  '], [1, '/**/'], [1, '\n\t']]); }
  // --- scopes
  program() {
    const root = { vars: [], fn: { kind: 'top', async: this.o.sourceType === 'module', gen: false }, labels: [], loop: false, brk: false, strict: this.o.sourceType === 'module', parent: null, cls: null };
    let out = '';
    if (this.o.directives && this.r.p(0.5)) { out += this.r.pick(['"use strict";', "'use strict'", '"use strict";\n"other";', '"other";']); root.strict = /use strict/.test(out); out += '\n'; this.f('directive'); }
    else if (this.o.strict) { root.strict = true; }
    const n = this.r.range(3, 7);
    for (let i = 0; i < n || this.budget > 4; i++) { if (i > 30) break; out += this.topItem(root) + this.nl(); }
    // known finding C10: what throws as the first item of a module without passing a counter leaves it without coverage
    if (this.o.sourceType === 'module' && (this.o.lead || /^\s*(export\s+default|export\s+class|class)\b/.test(out))) out = 'export {};\n' + out;
    return out;
  }
  topItem(s) {
    if (this.o.sourceType === 'module' && this.r.p(0.35)) return this.moduleItem(s);
    if (this.r.p(0.45)) { const c = this.child(s); return `try {${this.nl()}${this.stmt(c, this.o.depth)}${this.nl()}} catch (e) { $t(${this.id()}, e); }`; }
    return this.stmt(s, this.o.depth);
  }
  moduleItem(s) {
    this.budget--;
    const r = this.r; const k = r.int(9); const d = this.o.depth - 1; this.f('module' + k);
    switch (k) {
      case 0: { const a = this.fresh('i'); s.vars.push(a); return `import ${a} from "m${r.int(3)}";`; }
      case 1: { const a = this.fresh('i'), b = this.fresh('i'); s.vars.push(a, b); return `import {named as ${a},${this.sp()}other as ${b}} from "m${r.int(3)}";`; }
      case 2: { const a = this.fresh('x'); const kw = r.pick(['const', 'let', 'var']); if (r.p(0.2)) { const t = `export ${kw} ${a} = ${this.fnLike(s, d)};\n$t(${this.id()}, ${a}.name);`; s.vars.push(a); return t; } const t = `export ${kw} ${a} = ${this.expr(s, d)}, ${a}b = ${this.expr(s, d)};`; s.vars.push(a); return t; }
      case 3: { const a = this.fresh('xf'); const t = `export function ${a}(${this.params(s, d)})${this.fnBody(s, d, {})}`; s.vars.push(a); return t; }
      case 4: { const a = this.fresh('XC'); const t = `export class ${a} ${this.classBody(s, d)}`; s.vars.push(a); return t; }
      case 5: if (!this.hasDefault) { this.hasDefault = true; return r.pick([() => { const e = this.expr(s, d); return `export default ${/^\s*(function|class|async)\b/.test(e) ? `(${e})` : e};`; }, () => `export default function(${this.params(s, d)})${this.fnBody(s, d, {})}`, () => `export default class ${this.classBody(s, d)}`, () => `export default () => ${this.parenObj(this.expr(this.child(s, { fn: { kind: 'arrow' } }), d))};`, () => `export default function ${this.fresh('df')}()${this.fnBody(s, d, {})}`])(); } return ';';
      case 6: { const a = this.fresh('im'); return `import * as ${a} from "m${r.int(3)}";`; }
      case 7: { const a = this.fresh('ex'); return `var ${a} = ${this.expr(s, d)}; export {${a} as ${this.fresh('exn')}};`; }
      default: return `const ${(() => { const a = this.fresh('c'); this._c = a; return a; })()} = await ${this.sub(s, d, UNARY)};`;
    }
  }
  parenObj(e) { return /^(\/\*.*?\*\/|\s)*\{/.test(e) ? `(${e})` : e; }
  child(s, o = {}) { return { ...s, vars: [...s.vars], ...o }; }
  stmts(s, d, n) { const c = this.child(s); let out = ''; const k = n ?? this.r.range(0, 3); for (let i = 0; i < k; i++) out += this.stmt(c, d) + this.nl(); return out; }
  block(s, d) { return `{${this.nl()}${this.stmts(s, d)}}`; }
  body(s, d) { // a loop/if body: block, or a bare statement
    return this.r.p(0.65) ? this.block(s, d) : this.bare(s, d);
  }
  bare(s, d) {
    const r = this.r; return r.weighted([[6, () => this.exprStmt(s, d)], [1, () => ';'], [1, () => this.ifStmt(s, d - 1)], [1, () => this.loop(s, d - 1)], [1, () => this.block(s, d)],
      [s.fn.kind !== 'top' && !s.noret ? 1 : 0, () => this.ret(s, d)], [s.loop ? 1 : 0, () => this.r.pick(['break;', 'continue;'])], [0.5, () => `throw $e("e${this.id()}");`]])();
  }
  ret(s, d) { this.f('return'); return this.r.p(0.2) ? 'return;' : `return ${this.expr(s, d)};`; }
  exprStmt(s, d) {
    let e = this.r.p(0.6) ? `$t(${this.id()},${this.sp()}${this.expr(s, d)})` : this.expr(s, d);
    if (/^(\s|\/\*[^]*?\*\/)*(\{|function\b|class\b|let\b|async\b|["'`])/.test(e)) e = `(${e})`;
    return e + ';';
  }
  stmt(s, d) {
    this.budget--;
    const r = this.r;
    if (d <= 0 || this.budget < 0) return this.exprStmt(s, 1);
    const t = r.weighted([
      [8, 'expr'], [6, 'decl'], [5, 'if'], [4, 'loop'], [3, 'switch'], [3, 'try'], [4, 'func'], [2, 'block'], [1.2, 'label'], [0.7, 'empty'], [0.5, 'throw'], [0.4, 'debugger'],
      [s.fn.kind !== 'top' && !s.noret ? 3 : 0, 'ret'], [s.loop ? 1.5 : 0, 'jump'], [this.o.with && this.o.sourceType !== 'module' && !s.strict ? 0.8 : 0, 'with'], [this.o.classes ? 2.5 : 0, 'class'], [1, 'tag'], [1, 'assign'], [1.5, 'destr'], [0.6, 'upd'],
    ]);
    this.f('s:' + t);
    switch (t) {
      case 'expr': return this.exprStmt(s, d);
      case 'decl': return this.decl(s, d);
      case 'if': return this.ifStmt(s, d);
      case 'loop': return this.loop(s, d);
      case 'switch': return this.switchStmt(s, d);
      case 'try': return this.tryStmt(s, d);
      case 'func': return this.func(s, d);
      case 'block': return this.block(s, d - 1);
      case 'label': return this.label(s, d);
      case 'empty': return ';';
      case 'throw': return `if ($t(${this.id()}, ${this.expr(s, 1)}))${this.sp()}throw ${r.p(0.7) ? `$e("m${this.id()}")` : this.expr(s, 1)};`;
      case 'debugger': return 'debugger;';
      case 'ret': return this.ret(s, d - 1);
      case 'jump': return r.p(0.5) ? `if (${this.expr(s, 1)}) ${this.jump(s)}` : this.jump(s);
      case 'with': return `with ({${this.fresh('w')}: ${this.expr(s, 1)}, a: 1}) ${this.body(this.child(s), d - 1)}`;
      case 'class': return this.classDecl(s, d);
      case 'tag': return `$t(${this.id()}, ${this.tagged(s, d - 1)});`;
      case 'upd': return this.update(s) + ';';
      case 'assign': return this.assign(s, d);
      case 'destr': return this.destr(s, d);
    }
  }
  jump(s) { const r = this.r; if (s.labels.length && r.p(0.4)) { const l = r.pick(s.labels); return `${l.loop && r.p(0.5) ? 'continue' : 'break'} ${l.n};`; } return r.p(0.5) ? 'break;' : 'continue;'; }
  decl(s, d) {
    const r = this.r; const kw = r.pick(['var', 'let', 'const', 'const']); const n = r.weighted([[5, 1], [2, 2], [1, 3]]); const parts = [];
    const names = []; let named = '';
    for (let i = 0; i < n; i++) {
      const a = this.fresh(kw === 'const' ? 'k' : 'v'); names.push(a);
      if (kw !== 'const' && r.p(0.15)) parts.push(a);
      else if (r.p(0.3)) { parts.push(`${a}${this.sp()}=${this.sp()}${this.fnLike(s, d - 1)}`); if (r.p(0.2)) { this.f('inferred name'); named += `${this.nl()}$t(${this.id()}, ${a}.name);`; } }
      else parts.push(`${a}${this.sp()}=${this.sp()}${this.expr(s, d - 1)}`);
    }
    s.vars.push(...names);
    return `${kw} ${parts.join(',' + this.sp())};${named}`;
  }
  destr(s, d) {
    const r = this.r; const kw = r.pick(['var', 'let', 'const']); const a = this.fresh('d'), b = this.fresh('d'), c = this.fresh('d');
    const pat = r.pick([
      () => `{a: ${a} = ${this.expr(s, d - 1)}, b: {c: ${b}} = {c: ${this.expr(s, 1)}}, ...${c}}`,
      () => `[${a} = ${this.expr(s, d - 1)}, , ${b}, ...${c}]`,
      () => `{${a} = ${this.expr(s, d - 1)}, ${b}, [$t(${this.id()}, "k")]: ${c}}`,
      () => `[[${a}] = [${this.expr(s, 1)}], {${b} = ${this.expr(s, 1)}} = {}, ${c} = 1]`,
    ]);
    const p = pat(); const rhs = p.startsWith('{') ? r.pick([`{a: ${this.expr(s, 1)}}`, '{b: {c: 2}, z: 1}', '{k: 3}', '"str"', 'null']) : r.pick([`[${this.expr(s, 1)}, 2, 3]`, '[]', '"xyz"', 'new Set([1, 2])']);
    s.vars.push(a, b, c); this.f('destructuring');
    return `try {} finally {}${this.nl()}${kw} ${p} = ${rhs === 'null' && !r.p(0.1) ? '{a: 0}' : rhs};`;
  }
  assign(s, d) {
    const r = this.r; const v = s.vars.length ? r.pick(s.vars) : 'g1';
    const op = r.pick(['=', '+=', '||=', '&&=', '??=', '-=', '**=']);
    if (d > 0 && r.p(0.04)) { this.f('inferred name'); const w = /^(v|g)/.test(v) ? v : 'g1'; return r.pick([() => `$t(${this.id()}, (${w} = ${this.fnLike(s, d - 1)}).name);`, () => `$t(${this.id()}, ({p1: ${this.fnLike(s, d - 1)}}).p1.name);`, () => `(${w} = null, $t(${this.id()}, (${w} ??= ${this.fnLike(s, d - 1)}).name));`, () => `({m1: g1 = ${this.fnLike(s, d - 1)}} = {m1: 1});`])(); }
    return r.p(0.8) ? `${/^(v|g)/.test(v) ? v : 'g' + r.int(4)} ${/^v/.test(v) ? op : '='} ${this.expr(s, d - 1)};` : `({a: g1 = ${this.expr(s, 1)}, b: g2} = {b: ${this.expr(s, 1)}});`;
  }
  ifStmt(s, d) {
    const r = this.r;
    let out = `if${this.sp()}(${this.cond(s, d - 1)})${this.sp()}`;
    const e = r.p(0.5);
    if (d > 0 && r.p(0.1)) { this.f('if-in-if'); out += `if (${this.cond(s, d - 1)}) ${r.p(0.5) ? this.block(this.child(s), d - 1) : this.exprStmt(s, d - 1)} else ${r.p(0.5) ? this.block(this.child(s), d - 1) : this.exprStmt(s, d - 1)}${r.p(0.6) ? ` else ${this.body(this.child(s), d - 1)}` : ''}`; return out; }
    if (e) { out += this.r.p(0.75) ? this.block(this.child(s), d - 1) : this.exprStmt(s, d - 1); out += ` else ${r.p(0.3) ? this.ifStmt(s, d - 1) : this.body(this.child(s), d - 1)}`; }
    else out += this.body(this.child(s), d - 1);
    return out;
  }
  cond(s, d) { return this.r.p(0.5) ? this.logical(s, d) : this.expr(s, d); }
  loop(s, d) {
    const r = this.r; const c = this.fresh('n'); const s2 = this.child(s, { loop: true }); const lim = r.range(0, 3);
    if (d <= 0) return this.exprStmt(s, 1);
    switch (r.int(7)) {
      case 0: this.f('for'); return `for (${r.pick(['var', 'let'])} ${c} = ${r.p(0.3) ? `$t(${this.id()}, 0)` : '0'}${r.p(0.2) ? `, ${this.fresh('fi')} = ${this.fnLike(s, 1)}` : ''}; ${c} < ${lim}${r.p(0.3) ? ` && (${this.expr(s, 1)})` : ''};${this.sp()}${c}++${r.p(0.2) ? `, ${this.expr(s, 1)}` : ''})${this.sp()}${this.body(s2, d - 1)}`;
      case 1: this.f('while'); return `var ${c} = 0; while (${c}++ < ${lim}${r.p(0.4) ? ` && (${this.expr(s, 1)})` : ''})${this.sp()}${this.body(s2, d - 1)}`;
      case 2: this.f('do'); return `var ${c} = 0; do ${this.body(s2, d - 1)} while (${c}++ < ${lim}${r.p(0.3) ? ` && (${this.expr(s, 1)})` : ''});`;
      case 3: this.f('forin'); { const v = this.fresh('v'); return `for (${r.pick(['const', 'let', 'var'])} ${v} in ${r.pick(['{a: 1, b: 2}', '[7, 8]', '"xy"', `{p: ${this.expr(s, 1)}}`, 'null'])})${this.sp()}${this.body(this.child(s2, { vars: [...s2.vars, v] }), d - 1)}`; }
      case 4: this.f('forof'); { const v = this.fresh('v'); return `for (${r.pick(['const', 'let', 'var'])} ${r.pick([v, `[${v} = ${this.expr(s, 1)}]`])} of ${r.pick(['[[1], [2]]', '[["a"], []]', '["xy", "z"]', `[[${this.expr(s, 1)}]]`])})${this.sp()}${this.body(this.child(s2, { vars: [...s2.vars, v] }), d - 1)}`; }
      case 5: if (s.fn.async && this.o.async) { this.f('forawait'); const v = this.fresh('v'); return `for await (const ${v} of [${this.expr(s, 1)}, Promise.resolve(2)])${this.sp()}${this.block(this.child(s2, { vars: [...s2.vars, v] }), d - 1)}`; }
      // falls through
      default: this.f('for'); return `for (let ${c} = 0;;) { if (${c}++ >= ${lim}) break;${this.nl()}${this.stmts(s2, d - 1)}}`;
    }
  }
  label(s, d) {
    const n = this.fresh('L'); const r = this.r;
    if (r.p(0.2)) { // several labels of one statement
      const m = [n, ...Array.from({ length: r.range(1, 3) }, () => this.fresh('L'))]; this.f('label-chain'); const loop = r.p(0.75);
      const s2 = this.child(s, { labels: [...s.labels, ...m.map((x) => ({ n: x, loop }))] }); const h = m.map((x) => x + ':' + this.sp()).join('');
      return h + (loop ? this.loopOnly(s2, d, r.p(0.7) ? `if (${this.expr(s, 1)}) ${r.p(0.7) ? 'continue' : 'break'} ${r.pick(m)};` : '') : r.p(0.6) ? `{${this.nl()}if (${this.expr(s, 1)}) break ${r.pick(m)};${this.nl()}${this.stmts(s2, d - 1)}}` : r.p(0.5) ? this.ifStmt(s2, d - 1) : this.exprStmt(s2, d - 1));
    }
    if (r.p(0.6)) { const s2 = this.child(s, { labels: [...s.labels, { n, loop: true }] }); const l = this.loopOnly(s2, d); return `${n}:${this.sp()}${l}`; }
    const s2 = this.child(s, { labels: [...s.labels, { n, loop: false }] });
    return r.p(0.7) ? `${n}: {${this.nl()}${this.stmts(s2, d - 1)}if (${this.expr(s, 1)}) break ${n};${this.nl()}${this.stmts(s2, d - 1, 1)}}` : `${n}: ${this.r.p(0.5) ? this.exprStmt(s2, d - 1) : this.ifStmt(s2, d - 1)}`;
  }
  loopOnly(s, d, last = '') { const c = this.fresh('n'); const s2 = this.child(s, { loop: true }); if (last) return `for (let ${c} = 0; ${c} < ${this.r.range(1, 3)}; ${c}++)${this.sp()}{${this.nl()}${this.stmts(s2, d - 1)}${last}${this.nl()}${this.stmts(s2, d - 1, 1)}}`; return `for (let ${c} = 0; ${c} < ${this.r.range(1, 3)}; ${c}++)${this.sp()}${this.r.p(0.7) ? this.block(s2, d - 1) : this.bare(s2, d - 1)}`; }
  switchStmt(s, d) {
    const r = this.r; const n = r.range(0, 4); let out = `switch (${r.p(0.6) ? `$t(${this.id()}, ${r.int(4)})` : this.expr(s, d - 1)}) {${this.nl()}`; let def = false;
    const s2 = this.child(s, { loop: s.loop });
    // a declaration of one case which the others see, too
    const shared = n > 1 && r.p(0.35) ? this.fresh('sw') : null, at = r.p(0.92) ? 0 : r.int(n || 1); if (shared) this.f('switch-scope');
    for (let i = 0; i < n; i++) {
      if (!def && r.p(0.25)) { def = true; out += 'default:'; } else out += `case ${r.p(0.7) ? i : this.expr(s, 1)}:`;
      out += this.sp();
      const k = r.range(0, 2); const c = this.child(s2);
      if (shared && i === at) out += r.pick([() => `let ${shared} = ${this.expr(s2, 1)};`, () => `const ${shared} = $t(${this.id()}, ${i});`, () => `function ${shared}() { return $t(${this.id()}, 'sw'); }`, () => `class ${shared} { m1() { return $t(${this.id()}, 1); } }`])() + this.nl();
      if (shared && r.p(0.6)) out += `try { ${r.pick([() => `$t(${this.id()}, typeof ${shared});`, () => `${shared} = $t(${this.id()}, 'set');`, () => `${shared}();`, () => `$t(${this.id()}, ${shared});`])()} } catch (e) { $t(${this.id()}, e); }${this.nl()}`;
      if (r.p(0.2)) { const b = `{${this.stmts(c, d - 1, k)}${r.p(0.5) ? 'break;' : ''}}`; out += b + this.nl(); }
      else { for (let j = 0; j < k; j++) out += this.stmt(this.child(s2, { vars: [...s.vars] }), Math.min(d - 1, 1)) + this.nl(); if (r.p(0.6)) out += 'break;' + this.nl(); }
    }
    return out + '}';
  }
  tryStmt(s, d) {
    const r = this.r; const e = this.fresh('e'); const k = r.int(4);
    const t = `try {${this.nl()}${this.stmts(s, d - 1)}${r.p(0.4) ? `throw $e("t${this.id()}");` : ''}}`;
    const c = r.p(0.2) ? `catch ${this.block(this.child(s), d - 1)}` : `catch (${r.p(0.8) ? e : `{$own: ${e} = ${this.expr(s, 1)}}`}) {${r.p(0.6) ? `$t(${this.id()}, ${e});` : ''}${this.nl()}${this.stmts(s, d - 1)}}`;
    const f = `finally ${this.block(this.child(s), d - 1)}`;
    return k === 0 ? `${t} ${c}` : k === 1 ? `${t} ${c} ${f}` : k === 2 ? `${t} ${c}` : `${t} ${f}`;
  }
  params(s0, d) {
    const s = { ...s0, fn: { kind: 'params', async: false, gen: false } };
    const r = this.r; const n = r.range(0, 3); const out = []; const vs = [];
    for (let i = 0; i < n; i++) {
      const a = this.fresh('p'); vs.push(a);
      out.push(r.weighted([[6, () => a], [3, () => { this.f('default-param'); return `${a}${this.sp()}=${this.sp()}${this.expr(s, 1)}`; }], [1, () => `{${a} = ${this.expr(s, 1)}} = {}`], [1, () => `[${a} = ${this.expr(s, 1)}] = []`], [0.7, () => `{q: ${a}} = {q: 1}`]])());
    }
    if (r.p(0.12)) out.push(`...${this.fresh('p')}`);
    this._params = vs;
    return out.join(',' + this.sp());
  }
  fnBody(s, d, { async = false, gen = false, kind = 'fn', simple = false, noret = false, cls } = {}) {
    const s2 = this.child(s, { vars: [...s.vars, ...(this._params || [])], fn: { kind, async, gen }, labels: [], loop: false, noret, cls: cls ?? s.cls });
    let dir = '';
    if (this.o.directives && simple && this.r.p(0.3)) { this.f('fn-directive'); dir = this.r.pick(['"use strict";', "'use strict'\n", '"use asm-not"; "use strict";', '"marker";']); if (/use strict/.test(dir)) s2.strict = true; }
    let out = `{${this.r.p(0.3) ? this.nl() : ' '}${dir}`;
    const n = d <= 0 ? 0 : this.r.range(0, 3);
    for (let i = 0; i < n; i++) out += this.stmt(s2, d - 1) + this.nl();
    if (dir && this.r.p(0.7)) out += `$t(${this.id()}, typeof this);`;
    if (gen && this.r.p(0.7)) out += `yield ${this.expr(s2, 0)};`;
    if (!noret && this.r.p(0.6)) out += `return ${this.expr(s2, Math.min(d, 2))};${this.nl()}`;
    return out + '}';
  }
  func(s, d) {
    const r = this.r; const name = this.fresh('f'); const async = this.o.async && r.p(0.15), gen = this.o.generators && r.p(0.15);
    const simple = r.p(0.3); this._params = [];
    const ps = simple ? (() => { const a = this.fresh('p'); this._params = [a]; return a; })() : this.params(s, d - 1);
    const t = `${async ? 'async ' : ''}function${gen ? '*' : ''} ${name}(${ps})${this.sp()}${this.fnBody(s, d - 1, { async, gen, simple })}`;
    const call = this.callOf(name, async, gen, s);
    return `${t}${this.nl()}${r.p(0.85) ? call : ''}`;
  }
  callOf(name, async, gen, s) {
    const r = this.r; const args = Array.from({ length: r.int(3) }, () => this.expr(s, 1)).join(', ');
    if (async && gen) return `(async () => { try { for await (const y of ${name}(${args})) { $t(${this.id()}, y); if (!$fin()) break; } } catch (e) { $t(${this.id()}, e); } })();`;
    if (async) return `${name}(${args}).then(x => $t(${this.id()}, x), x => $t(${this.id()}, x));`;
    if (gen) return `try { for (const y of ${name}(${args})) { $t(${this.id()}, y); if (!$fin()) break; } } catch (e) { $t(${this.id()}, e); }`;
    return `try { $t(${this.id()}, ${name}(${args})); } catch (e) { $t(${this.id()}, e); }`;
  }
  fnLike(s, d) {
    const r = this.r; const k = r.int(7); this._params = []; this.f('fnexpr' + k);
    switch (k) {
      case 0: return `function(${this.params(s, 1)})${this.fnBody(s, d - 1, { simple: false })}`;
      case 1: return `function ${this.fresh('nm')}(${this.params(s, 1)})${this.fnBody(s, d - 1, {})}`;
      case 2: case 3: { const a = r.p(0.15) && this.o.async; const ps = this.params(s, 1); return `${a ? 'async ' : ''}(${ps}) => ${this.parenObj(this.expr(this.child(s, { vars: [...s.vars, ...this._params], fn: { kind: 'arrow', async: a || false, gen: false } }), Math.max(0, d - 1)))}`; }
      case 4: { const a = r.p(0.15) && this.o.async; const ps = this.params(s, 1); return `${a ? 'async ' : ''}(${ps}) =>${' '}${this.fnBody(s, d - 1, { async: a, kind: 'arrow' })}`; }
      case 5: return r.p(0.5) && this.o.generators ? `function*(${this.params(s, 1)})${this.fnBody(s, d - 1, { gen: true })}` : `function() ${this.fnBody(s, d - 1, { simple: true })}`;
      default: return this.o.classes ? `class ${r.p(0.4) ? this.fresh('CN') : ''} ${this.classBody(s, d - 1)}` : `() => 1`;
    }
  }
  classDecl(s, d) {
    const r = this.r; const n = this.fresh('C');
    const base = s.classes && s.classes.length && r.p(0.4) ? r.pick(s.classes) : null;
    const t = `class ${n} ${base ? `extends ${r.p(0.8) ? base : `($t(${this.id()}, 1), ${base})`} ` : ''}${this.classBody(s, d - 1, !!base)}`;
    s.classes = [...(s.classes ?? []), n]; s.vars.push(n);
    return `${t}${this.nl()}try { $t(${this.id()}, new ${n}(${r.p(0.4) ? this.expr(s, 1) : ''})${r.pick(['', '', `.m1()`, '.p1', '.m2(1)'])}); } catch (e) { $t(${this.id()}, e); }`;
  }
  key(s) { const r = this.r; return r.weighted([[6, () => r.pick(['m1', 'm2', 'p1', 'p2'])], [1, () => `"s ${r.int(3)}"`], [1, () => String(r.int(9))], [1, () => `[$t(${this.id()}, "ck${r.int(3)}")]`], [0.6, () => r.pick(['\'say "x"\'', '"b\\\\s"', '"q\\"r"', '"\\n"', '"é"', '"a`b"', '"${0}"', '"\\u2028"', '"it\'s"', '"*/"', '"</script>"', '0x10', '1e3', '.5', 'get', 'set', 'static', 'async', 'é', '$_', '\\u0061b', 'if'])], [s ? 1.2 : 0, () => { this.f('computed key'); return r.pick([() => `[(() => "ck${r.int(3)}")()]`, () => `[$t(${this.id()}, ${this.lit()} || "ck${r.int(3)}")]`, () => `[${this.lit()} ? "ck1" : "ck2"]`, () => `[(function() { return $t(${this.id()}, "m${r.int(3)}"); })()]`, () => `[${this.expr({ ...s, fn: { kind: 'params', async: false, gen: false } }, 1)}]`])(); }]])(); }
  classBody(s, d, derived = false) {
    const r = this.r; let out = '{' + this.nl(); const n = r.range(0, 4); this._params = []; const s2 = this.child(s, { strict: true, cls: true, labels: [], loop: false });
    const o = (k) => ({ ...k, kind: 'method' });
    const fs = { ...s2, fn: { kind: 'field', async: false, gen: false }, noret: true };
    if (r.p(0.3)) out += derived ? `constructor(${this.params(s2, 1)}) { super(${this.expr(fs, 0)}); ${this.stmts({ ...s2, fn: { kind: 'method' }, noret: true }, d)} }${this.nl()}` : `constructor(${this.params(s2, 1)})${this.fnBody(s2, d, o({ noret: true }))}${this.nl()}`;
    for (let i = 0; i < n; i++) {
      this._params = [];
      const st = r.p(0.25) ? 'static ' : ''; const b = Math.max(0, d);
      out += r.weighted([
        [6, () => `${st}${this.key(s2)}(${this.params(s2, 1)})${this.sp()}${this.fnBody(s2, b, o({}))}`],
        [2, () => `${st}get ${this.key(s2)}()${this.fnBody(s2, b, o({}))}`],
        [1, () => `${st}set ${this.key(s2)}(${this.fresh('sv')})${this.fnBody(s2, b, o({}))}`],
        [3, () => { this.f('class-field'); return `${st}${this.key(s2)} = ${this.r.p(0.4) ? this.fnLike(fs, b) : this.expr(fs, 1)};`; }],
        [1, () => `${st}${this.key(s2)};`],
        [1.5, () => { const p = this.fresh('#h'); this.f('private-field'); return `${st}${p} = ${this.expr(fs, 1)};`; }],
        [1, () => { const p = this.fresh('#pm'); this.f('private-method'); const c = st ? '' : ''; return `${st}${p}(${this.params(s2, 1)})${this.fnBody(s2, b, o({}))}${this.nl()}${st}call${p.slice(1)}() { return this.${p}(${c}); }`; }],
        [1, () => { this.f('static-block'); return `static {${this.nl()}${this.stmts({ ...fs, fn: { kind: 'static' } }, b)}}`; }],
        [0.7, () => `${st}${this.o.async && r.p(0.5) ? 'async ' : ''}*${this.key(s2)}(${this.params(s2, 1)})${this.fnBody(s2, b, o({ gen: true }))}`],
        [0.7, () => this.o.async ? `${st}async ${this.key(s2)}()${this.fnBody(s2, b, o({ async: true }))}` : ';'],
      ])() + this.nl();
    }
    return out + '}';
  }
  obj(s, d) {
    const r = this.r; const n = r.range(0, 3); const out = []; this._params = [];
    const s2 = this.child(s, { labels: [], loop: false });
    for (let i = 0; i < n; i++) out.push(r.weighted([
      [5, () => `${this.key(s2)}: ${this.expr(s, d - 1)}`], [2, () => `${this.key(s2)}(${this.params(s2, 1)})${this.fnBody(s2, d - 1, { kind: 'method' })}`], [1, () => `get ${this.key(s2)}()${this.fnBody(s2, d - 1, { kind: 'method' })}`],
      [1, () => `set ${this.key(s2)}(${this.fresh('sv')})${this.fnBody(s2, d - 1, { kind: 'method' })}`], [1, () => `...${this.r.pick(['{z: 1}', 'null', '[4]'])}`], [1, () => s.vars.length ? r.pick(s.vars) : 'x: 1'], [1, () => `fn: ${this.fnLike(s, d - 1)}`], [0.5, () => this.o.generators ? `*${this.key(s2)}()${this.fnBody(s2, d - 1, { kind: 'method', gen: true })}` : 'y: 2'], [0.5, () => this.o.async ? `async ${this.key(s2)}()${this.fnBody(s2, d - 1, { kind: 'method', async: true })}` : 'y: 2'],
    ])());
    return `{${this.sp()}${out.join(',' + this.sp())}}`;
  }
  tagged(s, d) { return `t\`a${this.r.p(0.7) ? `\${${this.expr(s, d)}}` : ''} z\``; }
  lit() { const r = this.r; return r.weighted([[5, () => String(r.int(5))], [3, () => r.pick(STR)], [1, () => 'null'], [1, () => 'undefined'], [2, () => r.pick(['true', 'false'])], [0.5, () => 'NaN'], [0.5, () => '/x/g'], [0.3, () => '3n'], [this.o.astral ? 1 : 0, () => '"😀"']])(); }
  logical(s, d) {
    const r = this.r; const op = r.pick(['&&', '||', '??']); const e = () => this.operand(s, d - 1);
    if (op === '??') return `${e()}${this.sp()}??${this.sp()}${e()}`;
    const n = r.weighted([[5, 2], [2, 3], [1, 4]]); let out = e(); for (let i = 1; i < n; i++) out += `${this.sp()}${r.p(0.7) ? op : r.pick(['&&', '||'])}${this.sp()}${r.p(0.2) ? `(${this.logical(s, d - 1)})` : e()}`;
    return out;
  }
  odd(s, d) { const r = this.r; this.f('odd'); return r.weighted([[4, () => `$x(${this.id()}, ${r.int(41)})`], [s && d > 0 ? 0.8 : 0, () => { this.f('getter-operand'); const s2 = this.child(s, { fn: { kind: 'method' }, labels: [], loop: false }); return `({${r.p(0.3) ? 'set p1(v) {}, ' : ''}get ${r.pick(['p1', '"m 1"', 'q', '[0]'])}() { return $t(${this.id()}, ${this.logical(s2, d - 1)}); }})`; }], [1.5, () => `$o.${r.pick(['p1', 'm1', 'q'])}`], [1, () => '$g'], [0.7, () => `$o?.["${r.pick(['p1', 'q'])}"]`]])(); }
  operand(s, d) { return this.r.p(0.22) ? this.odd(s, d) : this.sub(s, d, OPERAND); }
  /** an operand: parenthesised where its kind needs it, and sometimes where it does not */
  sub(s, d, kinds = BASE) {
    const e = this.expr(s, d); const k = this.k;
    return kinds.has(k) && !this.r.p(k === 'prim' ? 0.15 : 0.3) ? e : `(${e})`;
  }
  jsx(s, d) {
    const r = this.r; const tag = r.pick(['div', 'b', 'Comp', '$J.X', 'my-el', 'Comp', '']);
    const attr = () => r.pick([() => `a={${this.expr(s, d - 1)}}`, () => 'b="s &amp; t"', () => `{...(${this.expr(s, d - 1)})}`, () => 'data-c', () => `d=${d > 1 ? this.jsx(s, d - 1) : '"x"'}`, () => `on={${this.fnLike(s, d - 1)}}`])();
    const kid = () => r.weighted([[2, () => r.pick([' hi ', '\n  text \n', '&nbsp;', 'é'])], [4, () => `{${this.expr(s, d - 1)}}`], [1, () => '{/* c */}'], [2, () => (d > 1 ? this.jsx(s, d - 1) : 'x')], [2, () => `{${this.logical(s, d - 1)}}`]])();
    const attrs = tag ? Array.from({ length: r.int(3) }, attr).map((x) => ' ' + x).join('') : '';
    this.f('jsx ' + (tag || 'fragment'));
    if (tag && r.p(0.3)) return `<${tag}${attrs} />`;
    return `<${tag}${attrs}>${Array.from({ length: r.int(4) }, kid).join('')}</${tag}>`;
  }
  atom(s) { const r = this.r; return r.weighted([[4, () => `$t(${this.id()}, ${this.lit()})`], [3, () => this.lit()], [s.vars.length ? 4 : 0, () => r.pick(s.vars)], [0.4, () => 'g' + r.int(4)], [0.35, () => this.odd()]])(); }
  /** an expression; `this.k` is then its outermost kind */
  expr(s, d) { const [k, e] = this.expr0(s, d); this.k = k; return e; }
  expr0(s, d) {
    const r = this.r;
    if (d <= 0 || this.budget < -30) return ['prim', this.atom(s)];
    const k = r.weighted([[this.o.jsx ? 8 : 0, 'jsx'], [5, 'atom'], [5, 'log'], [4, 'tern'], [4, 'call'], [3, 'bin'], [3, 'fn'], [2.5, 'obj'], [2, 'arr'], [2, 'mem'], [1.5, 'tpl'], [1, 'tag'], [1.5, 'un'], [1.2, 'seq'], [1.5, 'asg'], [1.5, 'iife'], [1.2, 'map'], [s.fn.gen ? 3 : 0, 'yield'], [s.fn.async && this.o.async ? 3 : 0, 'await'], [1, 'opt'], [0.8, 'new'], [s.cls || s.fn.kind === 'method' ? 1 : 0, 'this'], [0.6, 'meta'], [1, 'par'], [0.5, 'upd']]);
    this.f('e:' + k);
    switch (k) {
      case 'jsx': return [k, this.jsx(s, d)];
      case 'atom': return ['prim', this.atom(s)];
      case 'log': return [k, this.logical(s, d)];
      case 'tern': { // arms are any assignment expressions
        const arm = (dd) => (r.p(0.45) ? this.expr(s, dd) : this.sub(s, dd, TEST));
        return [k, `${this.sub(s, d - 1, TEST)}${this.sp()}?${this.sp()}${arm(d - 1)}${this.sp()}:${this.sp()}${r.p(0.25) ? `${this.sub(s, d - 1, TEST)} ? ${arm(r.int(2))} : ${arm(r.int(2))}` : arm(d - 1)}`];
      }
      case 'call': return ['prim', `$t(${this.id()},${this.sp()}${this.expr(s, d - 1)})`];
      case 'bin': return [k, `${this.sub(s, d - 1, OPERAND)} ${r.pick(['+', '-', '*', '<', '===', '!=', '|', 'in', 'instanceof', '>', '%']).replace(/^(in|instanceof)$/, (m) => (r.p(0.3) ? m : '+'))} ${this.sub(s, d - 1, OPERAND)}`];
      case 'fn': { const f = this.fnLike(s, d - 1); return r.weighted([[4, () => ['prim', `(${f})`]], [4, () => ['prim', `$t(${this.id()}, ${f})`]], [3, () => [/^(function|async function|class)\b/.test(f) ? 'fnraw' : 'arrow', f]]])(); }
      case 'obj': return ['prim', `(${this.obj(s, d - 1)})`];
      case 'arr': return ['prim', `[${Array.from({ length: r.int(4) }, () => (r.p(0.15) ? `...[${this.expr(s, 0)}]` : this.expr(s, d - 1))).join(',' + this.sp())}]`];
      case 'mem': return ['prim', r.pick([() => `(${this.obj(s, d - 1)}).${r.pick(['m1', 'p1', 'zz'])}`, () => `[${this.expr(s, d - 1)}][${r.int(2)}]`, () => `${this.sub(s, d - 1)}?.p1`, () => `${this.sub(s, 0)}?.["length"]`])()];
      case 'tpl': { const e = this.expr(s, d - 1); return ['prim', `\`x\${${/^\(/.test(e) ? `$d(${e})` : e}}y${r.p(0.3) ? `\${typeof ${this.sub(s, d - 1, UNARY)}}` : ''}\``]; }
      case 'tag': return ['prim', this.tagged(s, d - 1)];
      case 'un': return [k, `${r.pick(['!', 'typeof ', 'void ', '!', '!!'])}${this.sub(s, d - 1, UNARY)}`];
      case 'upd': return ['un', this.update(s)];
      case 'seq': { // swc's printing pass may drop a function in front of a comma, so there is none
        const a = this.expr(s, d - 1); const drop = /=>|\bfunction\b|\bclass\b/.test(a) && !/^\$t\(/.test(a);
        return ['prim', `(${drop ? `$t(${this.id()}, ${a})` : a}, ${this.expr(s, d - 1)})`];
      }
      case 'asg': { const v = s.vars.filter((x) => /^v/.test(x)); const t = v.length && r.p(0.7) ? `${r.pick(v)} ${r.pick(['=', '||=', '??=', '&&=', '='])} ${this.expr(s, d - 1)}` : `g${r.int(4)} = ${this.expr(s, d - 1)}`; return r.p(0.8) ? ['prim', `(${t})`] : [k, t]; }
      case 'iife': { this._params = []; return ['prim', r.pick([() => `(function() ${this.fnBody(s, d - 1, { simple: true })})()`, () => `(() => ${this.fnBody(s, d - 1, { kind: 'arrow' })})()`, () => `((${this.params(s, 1)}) => ${this.parenObj(this.expr({ ...s, fn: { kind: 'arrow' } }, d - 1))})(${r.p(0.5) ? this.lit() : ''})`, () => `(function(${this.params(s, 1)}) ${this.fnBody(s, d - 1, {})}).call(${this.lit()})`])()]; }
      case 'map': { const p = this.fresh('p'); const s2 = { ...this.child(s), vars: [...s.vars, p], fn: { kind: 'arrow' }, labels: [], loop: false }; return ['prim', `[1, 2].${r.pick(['map', 'filter', 'forEach', 'some', 'reduce'])}(${r.p(0.6) ? `${p} => ${this.parenObj(this.expr(s2, d - 1))}` : `function(${p}) ${this.fnBody(s2, d - 1, {})}`})`]; }
      case 'yield': { const t = `yield ${this.expr(s, d - 1)}`; return r.p(0.8) ? ['prim', `(${t})`] : [k, t]; }
      case 'await': { const t = `await ${this.sub(s, d - 1, UNARY)}`; return r.p(0.7) ? ['prim', `(${t})`] : ['un', t]; }
      case 'opt': return ['prim', `${this.sub(s, 0)}?.[${this.expr(s, 1)}]`];
      case 'new': return ['prim', `new (class ${this.classBody(s, d - 2)})()`];
      case 'this': return ['prim', s.fn.kind === 'method' || s.fn.kind === 'field' ? 'this' : this.lit()];
      case 'meta': return ['prim', s.fn.kind === 'fn' ? r.pick(['new.target', 'arguments.length']) : this.lit()];
      case 'par': return ['prim', `(${this.expr(s, d - 1)})`];
    }
  }
  /** an update expression, some of which look like counters */
  update(s) {
    const r = this.r; this.f('update');
    return r.weighted([[2, () => `$n().${r.pick(['s', 'f'])}[${r.int(2)}]++`], [2, () => `$n().${r.pick(['b', 'bT'])}[0][${r.int(2)}]++`], [1, () => `g${r.int(3)}${r.pick(['++', '--'])}`], [1, () => `${r.pick(['++', '--'])}g${r.int(3)}`], [0.5, () => `$n().s["${r.int(2)}"]--`]])();
  }
}
export function generate(seed, o) { const g = new Gen(seed, o); const code = g.program(); return { code, features: g.features }; }
