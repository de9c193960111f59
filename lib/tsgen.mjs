// Turns JavaScript into TypeScript by inserting type-only text, and gives the same JavaScript with blanks in its
// place: both have every node at the same position.
import { acorn } from './istanbul.mjs';
import { children } from './ref.mjs';

const TYPES = ['any', 'unknown as never as any'.split(' ')[0], 'number | string', 'Array<any>', '{ a?: number; (): void }', '[x: number, ...y: string[]]', '(a: number, b?: string) => void', 'typeof globalThis', '"lit" | 1 | true', '`t${string}`', 'readonly any[]', 'Record<string, () => void>', 'unique symbol'.slice(0, 0) + 'object', 'keyof { a: 1 }', 'new () => any', 'never', 'undefined | null', 'any extends infer U ? U : never', '{ [k in "a" | "b"]?: number }', 'import("x").Y<any>'];
const DECLS = (k) => [`interface I${k} { x: number; m(a?: string): void; readonly [k: string]: any }`, `type A${k}<T = any> = T extends (...a: any[]) => infer R ? R : never;`, `declare function df${k}(x: number, y?: string): void;`, `declare const dc${k}: any, dd${k}: number;`, `declare let dl${k}: string;`, `declare class DC${k} { constructor(x: number); private y: any; get z(): number; static s: string; m(): void }`, `interface J${k} extends Array<any> { (x: number): string; new (x: string): J${k}; get g(): 1 }`, `declare enum DE${k} { a = 1, b }`, `type U${k} = { a: 1 } & { b: () => void };`];
const TOP = (k) => [`declare module "mod${k}" { export const a: number; export default function f(): void; }`, `declare namespace DN${k} { const a: number; function f(): void; namespace Q { type X = 1; } }`, `namespace TN${k} { export interface X { a: 1 } export type Y = 2; }`, `declare abstract class DA${k} { abstract m(): void; }`];
const MOD = (k) => [`import type { T${k} } from "types";`, `import type D${k} from "types";`, `export type { T${k}x } from "types";`, `export interface EI${k} { a: number }`, `export type ET${k} = string;`, `export declare function edf${k}(): void;`, `export declare const edc${k}: any;`, `declare global { interface Window { x${k}: any } }`, `import { type T${k} } from "m1";`, `export type * from "types";`];

/** @returns {{ts, js, inserted, kinds}} */
export function decorate(r, code, sourceType, { rate = 0.4 } = {}) {
  const tokens = []; const ast = acorn.parse(code, { ecmaVersion: 'latest', sourceType, preserveParens: true, onToken: tokens, allowHashBang: true });
  const ins = []; let n = 0; const kinds = {};
  const add = (pos, text, kind, prio = 0) => { ins.push({ pos, text, prio, seq: n++ }); kinds[kind] = (kinds[kind] ?? 0) + 1; };
  const p = (f = 1) => r.p(rate * f); const T = () => r.pick(TYPES);
  const tokBefore = (pos, label, from) => { let out = null; for (const t of tokens) { if (t.start >= pos) break; if (t.start >= from && t.type.label === label) out = t; } return out; };
  const tokAfter = (pos, label) => { for (const t of tokens) if (t.start >= pos && t.type.label === label) return t; return null; };
  const annotate = (x) => { if (!x) return; if (x.type === 'Identifier' || x.type === 'ObjectPattern' || x.type === 'ArrayPattern') { if (p()) add(x.end, `: ${T()}`, 'annotation'); } };
  function params(f, o) {
    const setter = o.setter; let optional = false;
    f.params.forEach((q, i) => {
      const pat = q.type === 'AssignmentPattern' ? q.left : q;
      if (q.type === 'Identifier' && !setter && f.params.slice(i).every((z) => z.type === 'Identifier') && p(0.4)) { add(q.end, `?: ${T()}`, 'optional'); optional = true; }
      else if (q.type === 'RestElement') { if (p()) add(q.end, ': any[]', 'rest'); } else if (q.type === 'Identifier' && optional) add(q.end, '?', 'optional'); else annotate(pat);
    });
  }
  function fn(f, parent, o) {
    const arrow = f.type === 'ArrowFunctionExpression';
    let open, close; // the parens of the parameters
    if (arrow) { const t = tokens.find((x) => x.start >= f.start && (x.type.label === '(' || x.type.label === 'name' && code.slice(x.start, x.end) !== 'async')); if (!t || t.type.label !== '(') return; if (o.cond) return params(f, {}); open = t; const ar = tokBefore(f.body.start, '=>', f.params.length ? f.params.at(-1).end : f.start); close = ar && tokBefore(ar.start, ')', f.params.length ? f.params.at(-1).end : f.start); }
    else { open = parent && (parent.type === 'MethodDefinition' || parent.type === 'Property') && parent.value === f ? tokAfter(f.start, '(') : tokAfter(f.id ? f.id.end : f.start, '('); close = tokBefore(f.body.start, ')', f.params.length ? f.params.at(-1).end : open.start); }
    if (!open || !close) return params(f, {});
    const ctor = parent?.kind === 'constructor', get = parent?.kind === 'get' , setter = parent?.kind === 'set';
    params(f, { setter });
    if (!ctor && !setter && p()) add(close.end, `: ${r.pick(['any', 'void | any', T(), f.params[0]?.type === 'Identifier' && !f.async && !f.generator ? `asserts ${f.params[0].name} is any` : 'any'])}`, 'return type');
    if (!arrow && !ctor && !get && !setter && p(0.5)) add(open.start, r.pick(['<T>', '<T, U extends T = any>', '<const T>', '<in_, T extends keyof any>']), 'type parameters');
    if (!arrow && !ctor && !get && !setter && p(0.3)) add(open.end, `this: any${f.params.length ? ', ' : ''}`, 'this parameter');
  }
  let k = 0;
  function list(body, { top = false } = {}) {
    let i = 0; while (i < body.length && body[i].directive !== undefined) i++;
    for (; i < body.length; i++) if (p(0.5)) { const pool = [...DECLS(k), ...(top ? TOP(k) : []), ...(top && sourceType === 'module' ? MOD(k) : [])]; k++; add(body[i].start, r.pick(pool) + r.pick([' ', '\n']), 'declaration', -1); }
    for (const s of body) {
      const d = s.type === 'ExportNamedDeclaration' || s.type === 'ExportDefaultDeclaration' ? s.declaration : s;
      if (d && d.type === 'FunctionDeclaration' && d.id && !d.generator && p(0.4)) { const pre = code.slice(s.start, d.start).replace(/\/\*[^]*?\*\/|\/\/.*/g, ' ').replace(/\s+/g, ' '); for (let q = r.range(1, 2); q > 0; q--) add(s.start, `${pre}${d.async && s.type === 'ExportDefaultDeclaration' ? '' : ''}function ${d.id.name}(x${q}: ${T()}, ...y: any[]): any;${r.pick([' ', '\n'])}`, 'overload', 5); }
    }
  }
  const simple = new Set(['CallExpression', 'Identifier', 'Literal', 'ArrayExpression', 'ObjectExpression', 'FunctionExpression', 'ClassExpression', 'TemplateLiteral', 'NewExpression', 'ThisExpression']);
  function walk(n, parent, key, o) {
    const inCond = o.cond || n.type === 'ConditionalExpression'; const c2 = { ...o, cond: inCond && n.type !== 'BlockStatement' && n.type !== 'ClassBody' };
    switch (n.type) {
      case 'Program': list(n.body, { top: true }); break;
      case 'BlockStatement': case 'StaticBlock': list(n.body); break;
      case 'VariableDeclaration': if (!(/^For(In|Of)/.test(parent.type))) for (const d of n.declarations) { if (d.id.type === 'Identifier' && !d.init && n.kind !== 'const' && p(0.2)) add(d.id.end, `!: ${T()}`, 'definite'); else annotate(d.id); } break;
      case 'CatchClause': if (n.param && p()) add(n.param.end, r.pick([': unknown', ': any']), 'catch'); break;
      case 'FunctionDeclaration': case 'FunctionExpression': case 'ArrowFunctionExpression': fn(n, parent, o); break;
      case 'ClassDeclaration': case 'ClassExpression': {
        if (n.id && p()) add(n.id.end, r.pick(['<T>', '<T = any, U extends T = T>']), 'class type parameters');
        if (n.superClass?.type === 'Identifier' && p()) add(n.superClass.end, '<any>', 'superclass type arguments');
        if (p(0.5)) add(n.body.start, ` implements I0${r.p(0.4) ? ', Array<any>' : ''} `, 'implements');
        for (const m of n.body.body) {
          if (m.type === 'StaticBlock') continue;
          const priv = m.key.type === 'PrivateIdentifier';
          if (p(0.5)) add(m.start, r.pick(['declare dz: any;', '[k: string]: any;', 'declare readonly q?: number;', 'private declare w: string;', 'static [k: number]: any;', 'declare static u: any;']) + ' ', 'class type member', -2);
          if (m.type === 'MethodDefinition' && m.kind === 'method' && !m.computed && !priv && !m.value.generator && p(0.4)) add(m.start, `${m.static ? 'static ' : ''}${code.slice(m.key.start, m.key.end)}(x: ${T()}): any; `, 'method overload', -1);
          if (m.type === 'MethodDefinition' && m.kind === 'constructor' && p(0.4)) add(m.start, `constructor(x: ${T()}, y?: any); `, 'constructor overload', -1);
          if (!priv && p(0.6)) add(m.start, r.pick(['public ', 'private ', 'protected ']), 'accessibility');
          if (m.type === 'PropertyDefinition') { if (p(0.3)) add(m.key.end + (m.computed ? tokAfter(m.key.end, ']').end - m.key.end : 0), r.pick([`: ${T()}`, ...(m.value ? [] : [priv ? '!: any' : '?: any', '!: any'])]), 'field type'); }
        }
        break;
      }
      case 'ParenthesizedExpression': if (simple.has(n.expression.type) && p(0.7) && parent.type !== 'ParenthesizedExpression' && key !== 'left' && key !== 'argument') add(n.expression.end, r.pick([' as any', ' satisfies unknown', ' as unknown as any', '!', ' as const'.slice(0, 0) + ' as any']), 'as'); break;
      case 'CallExpression': if (n.callee.type === 'Identifier' && !n.optional && p(0.3)) add(n.callee.end, r.pick(['<any>', '<string, number[]>']), 'type arguments'); break;
      case 'NewExpression': if (n.callee.type === 'Identifier' && p(0.3) && code[n.end - 1] === ')') add(n.callee.end, '<any>', 'type arguments'); break;
      case 'TaggedTemplateExpression': if (n.tag.type === 'Identifier' && p(0.3)) add(n.tag.end, '<any>', 'type arguments'); break;
      case 'MemberExpression': if (!n.optional && /^(Identifier|CallExpression|ParenthesizedExpression)$/.test(n.object.type) && p(0.3) && !o.chain && !/^(Assign|Update|Unary|For)/.test(parent.type) && key !== 'callee') add(n.object.end, '!', 'non-null'); break;
    }
    for (const [q, c] of children(n)) walk(c, n, q, { ...c2, chain: n.type === 'ChainExpression' || (o.chain && /^(Member|Call)/.test(n.type)) });
  }
  walk(ast, null, '', {});
  ins.sort((a, b) => a.pos - b.pos || a.prio - b.prio || a.seq - b.seq);
  let ts = '', js = '', last = 0;
  for (const x of ins) { const s = code.slice(last, x.pos); ts += s + x.text; js += s + x.text.replace(/[^\n]/g, ' '); last = x.pos; }
  return { ts: ts + code.slice(last), js: js + code.slice(last), inserted: ins.length, kinds };
}
