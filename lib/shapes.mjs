// Every expression form in every position an expression can have, and every statement form in every position of a
// statement: small programs, a few forms of one position in each. What random programs leave to chance is here once.
const EXPR = [
  // [precedence, text]: 3 primary, 2 operand of a unary, 1 assignment level, 0 sequence
  ...['0', '1', '""', "'x'", '`t`', '`t${x}`', 'null', 'undefined', 'true', '/r/g', '1n', 'NaN', 'x', 'this', 'o', 'a', '(x)', '((y))', '[]', '[1, , 2]', '[() => 1]', '[...a, x]',
    '{}', '{ p: 1 }', '{ m() { return 1; } }', '{ get p() { return 1; }, set p(v) { $t(1, v); } }', '{ async m() {}, *g() { yield 1; }, async *h() {} }', "{ 'k k'() { return 1; }, [`c${x}`]() { return 2; }, 3() {} }",
    '{ get "k"() { return 1; }, set [`c`](v) {} }', '{ f: () => 1, g: function () { return 2; } }', '{ ...o, x }', '{ __proto__: o }', 'f(x)', 'o.m()', 'o.p', "o['p']", 'o?.p', 'o?.m?.()', 'f?.(y)', 'nope?.p',
    'new C()', 'new C', 'new C(x).k', 'f`t${y}`', 'o.m`u`', '(0, o.m)()', 'f(...a)', 'f(() => x)', '(() => 1)()', '(function () { return 2; })()', '(x, y)', '(x ? o : a).length', 'f(x && y)', '(x || o).p', '[x && y][0]', 'f(x)(y)',
    '[1, 2].map((e) => e + 1)', 'f(function () { return x; })', 'f(class { static s = 1; })', '`${x && y}${() => 1}`', 'o.q = x ? 1 : 2, x', 'f(x = 1)', 'f({ d: x } = o)', '(o)', '(() => 1)', '(function n() {})', '(class {})', '($t(2, x))',
  ].map((t) => [/^o\.q = /.test(t) ? 0 : 3, t]),
  ...['function () {}', 'function () { return 1; }', 'function named(b) { return b; }', 'function (b = 1) { return b; }', 'function () { "use strict"; return this === undefined; }', 'function () { "a"; "b"; return 1; }', 'async function () {}', 'async function () { await 1; return 2; }',
    'function* () { yield 1; yield x; }', 'function* () { const r = yield; $t(3, r); }', 'async function* () { yield await 1; }', 'function ({ b, ...c }, [d] = [1]) { return d; }', 'function () { return; }', 'function () { ; }', 'function () { return arguments.length; }', 'function () { return new.target; }',
    'class {}', 'class N {}', 'class { m() { return 1; } }', 'class extends B {}', 'class extends B { constructor() { super(); this.k = 1; } }', 'class extends B { m() { return super.m(); } }', 'class extends B { constructor(...r) { $t(4, r.length); super(...r); } }',
    'class { static s = x; f = () => 2; #p = 3; #q() { return this.#p; } get g() { return this.#q(); } static { $t(5, this.s); } constructor() { this.k = this.g; } }', 'class { static #s = () => 1; static r() { return this.#s(); } }',
    'class { "k k"() {} [`c`]() {} 3() {} static async m() {} static *g() {} async *h() {} }', 'class { get p() { return 1; } set p(v) {} static get p() { return 2; } static set p(v) {} get #z() { return 3; } z() { return this.#z; } }', 'class { a; b = 1; static c; [`d`] = 2; "e e" = x && y; }', 'class { static { x ? $t(6) : $t(7); } static {} }',
    'class { x = this; y = () => this; z = (p) => p ?? 1 }', 'class { constructor() {} }', 'class { static async *[`w`]() { yield x; } }', 'class { static name = 1; }', 'class { static m() { return new this(); } }',
  ].map((t) => [2.5, t]),
  ...['!x', '!!x', '-1', 'typeof x', 'typeof nope', 'void 0', 'void f()', 'delete o.z', 'x++', '--x', 'o.n++', '!(x && y)', '!f(x)', '-x ** 0 ? 1 : 2'].map((t) => [/\?/.test(t) ? 1 : 2, t]).filter(([, t]) => !/\*\*/.test(t)),
  ...['() => {}', '() => 1', '() => void 0', 'async () => void 0', 'async () => {}', 'async () => { await 1; }', 'async (b) => await b', 'b => b', '(b = 1) => b', '({ b } = { b: 2 }) => b', '() => ({})', '() => ({ p: x })', '() => []', '() => { return; }', '() => { return x; }', '() => () => 1', '() => x ? 1 : 2', '() => x && y', '() => (x, y)', '() => { "use strict"; return 1; }', '(...r) => r.length', '() => { ; }', '() => this', '() => f(x)', '() => function () { return 1; }', '() => class {}', '(b) => { if (b) return 1; return 2; }', '() => `t${x}`', '() => x = 1', '() => delete o.z', '() => x++', '() => null', '() => async () => 1', '(b, c = b && x) => c',
    'x + 1', 'x + y * 2', 'x < y', 'x === y', '"p" in o', 'o instanceof C', 'x | 0', '(x || y) + 1', 'x + (y ? 1 : 2)', 'x ** 2', 'x + f(y)',
    'x = 3', 'x += 1', 'x ||= 4', 'x &&= y', 'x ??= 6', 'o.n = x', 'o.n ||= 1', 'x = y = 2', 'x = () => 1', 'o.fn = function () { return 1; }', 'x ||= () => 1', 'x = x ? 1 : 2', 'x = x && y', '{ p: x } = o', '{ p: x = 1, q = y && 2 } = {}', '[x = 7, y] = []', '[x, ...y] = a', '{ ["p"]: x, ...y } = o', '[o.n = (1, 2)] = []', '{ p: [x = () => 1] = [] } = {}', 'x -= y', 'x **= 2', 'x = class {}',
    'x && y', 'x || y', 'x ?? y', 'x && y || o', '(x || y) && o', 'x && (y ?? o)', 'x ?? null', '!x && y', 'x && y && o', 'x || (y || o)', '(x && y) || (x && o)', '(x && y) ?? (x || y)', 'x && f(y || o)', 'x || (() => 1)', 'x && function () { return 1; }', 'x && (y ? 1 : 2)', 'x || (y, o)', 'x || (y = 2)', 'x && !(y || o)', 'x || {}', 'x || []', 'x && class {}', '((x)) || ((y || o))', 'x && y.p', 'x || new C()', 'x ?? (y && o)', 'f(x) && f(y)', 'x && (y = o)', 'x || `t${y && 1}`', '(x ?? y) || 1', '[] || x', '({}) && x', 'x || [y || 1]', 'x && { p: y && 1 }',
    'x ? 1 : 2', 'x ? y ? 1 : 2 : 3', 'x ? 1 : y ? 2 : 3', 'x ? () => 1 : null', 'x ? function () { return 1; } : class {}', '(x, y) ? 1 : 2', '(x ? y : o) ? 1 : 2', 'x && y ? 1 : 2', 'x ? y && o : y || o', 'x ? {} : []', 'x ? (1, 2) : (y = 3)', 'x ? f(1) : f(2)', 'x ? void 0 : null', 'x ? `a` : `b${y}`', '(x ? 1 : 2)', 'x === 1 ? (y) : ((o))',
  ].map((t) => [1, t]),
  ...['x, y', 'x = 1, y', 'f(x), f(y), 3', '() => 1, 2', 'x && y, x || y'].map((t) => [0, t]),
].map(([p, t]) => (/^\{.*\} = /.test(t) && p === 1 ? [3, `(${t})`] : [p, t]));
const obj = (t) => /^\{/.test(t); const lead = (t) => /^(\{|function|class|async function|let\b)/.test(t);
// how a form is written where at least the given precedence is needed
const A = ([p, t]) => (p < 1 ? `(${t})` : t); // assignment level
const U = ([p, t]) => (p < 2 ? `(${t})` : t); // operand of a unary
const M = ([p, t]) => (p < 3 || obj(t) ? `(${t})` : t); // callee, object
const X = ([, t]) => t; // any expression
const S = ([p, t]) => (lead(t) || /^\(?\{/.test(t) && p < 3 ? `(${t})` : t); // where a statement starts
const B = (e) => (obj(e[1]) ? `(${e[1]})` : A(e)); // concise body

const POS = {
  var: (e) => `var v = ${A(e)}; N(v);`, let: (e) => `let v = ${A(e)}; N(v);`, const: (e) => `const v = ${A(e)}; N(v);`,
  second: (e) => `let w = $t(10, x), v = ${A(e)}, u = $t(11, y); N(v);`, first: (e) => `let v = ${A(e)}, u = $t(12, 1); N(v);`, pattern: (e) => `const { p: v, ...u } = ${A(e)}; N(v);`, 'array pattern': (e) => `const [v] = ${A(e)}; N(v);`,
  'pattern default': (e) => `const { w = ${A(e)} } = {}, [v = ${A(e)}] = []; K(w); K(v);`, 'pattern key': (e) => `const { [${A(e)}]: v } = o; K(v);`,
  'for init': (e) => `for (let v = ${A(e)}, i = 0; i < 2; i++) K(v);`, 'for init expression': (e) => `for (${/^let\b/.test(e[1]) ? A(e) : U(e)}; x > 9;) ;`, 'for test': (e) => `for (let i = 0; i < 2 && (${X(e)}); i++) $t(13);`, 'for update': (e) => `for (let i = 0; i++ < 2; ${X(e)}) $t(14);`,
  'for of': (e) => `for (const v of ${A(e)}) K(v);`, 'for in': (e) => `for (var v in ${X(e)}) $t(15, v);`, 'for of left': (e) => `for ({ p: o.n = ${A(e)} } of [{}, { p: 1 }]) $t(16);`, 'for of pattern': (e) => `for (const [v = ${A(e)}] of [[], [1]]) K(v);`,
  while: (e) => `let i = 0; while (i++ < 2 && ${M(e)}) $t(17);`, 'do while': (e) => `let i = 0; do $t(18); while (i++ < 2 && ${M(e)})`, 'do while plain': (e) => `do { break; } while (${X(e)})`,
  if: (e) => `if (${X(e)}) $t(19); else $t(20);`, 'if body': (e) => `if (x) ${S(e)}; else $t(21);`, 'else body': (e) => `if (x) $t(22); else ${S(e)}`, 'while body': (e) => `let i = 0; while (i++ < 2) ${S(e)}`, 'for body': (e) => `for (let i = 0; i < 2; i++) ${S(e)};`, 'label body': (e) => `lab: ${S(e)};`,
  switch: (e) => `switch (${X(e)}) { case 1: $t(23); default: $t(24); case "x": $t(25); }`, 'case test': (e) => `switch (x) { case ${X(e)}: $t(26); break; case y: $t(27); }`, 'case body': (e) => `switch (x) { case 0: ${S(e)}; break; default: $t(28); ${S(e)} }`, 'case const': (e) => `switch (x) { case 1: const v = ${A(e)}; N(v); default: $t(29); }`,
  throw: (e) => `throw ${X(e)};`, expression: (e) => `${S(e)};`, 'two expressions': (e) => `${S(e)}; ${S(e)}\n`, sequence: (e) => `$t(30, (${e[0] < 1 || /=>|function|class/.test(e[1]) ? '0' : A(e)}, ${A(e)}));`,
  assign: (e) => `z = ${A(e)}; N(z);`, 'assign member': (e) => `o.w = ${A(e)}; N(o.w);`, 'assign chain': (e) => `let w, v = w = ${A(e)}; K(v);`, 'assign add': (e) => `z += ${A(e)}; $t(31, typeof z);`, 'assign or': (e) => `z = 0; z ||= ${A(e)}; N(z);`, 'assign nullish': (e) => `z = null; z ??= ${A(e)}; N(z);`, 'assign and': (e) => `o.v &&= ${A(e)}; K(o.v);`, 'assign pattern': (e) => `({ p: z = ${A(e)} } = {}); K(z); [z = ${A(e)}] = [2]; K(z);`, 'computed target': (e) => `o[${X(e)}] = 1;`,
  and: (e) => `K(x && ${M(e)});`, or: (e) => `K(x || ${M(e)});`, nullish: (e) => `K(x ?? ${M(e)});`, 'and left': (e) => `K(${M(e)} && y);`, 'or left': (e) => `K(${M(e)} || y);`, 'and or': (e) => `K(x && ${M(e)} || y);`, 'or in and': (e) => `K((x || ${M(e)}) && y);`, 'logical statement': (e) => `x && ${M(e)};`, 'logical declarator': (e) => `const v = x || ${M(e)}; K(v);`,
  test: (e) => `K(${M(e)} ? 1 : 2);`, consequent: (e) => `K(x ? ${A(e)} : 2);`, alternate: (e) => `K(x ? 1 : ${A(e)});`, 'conditional statement': (e) => `x ? ${A(e)} : $t(32);`, 'conditional declarator': (e) => `const v = x ? ${A(e)} : y; K(v);`, 'conditional in conditional': (e) => `K(x ? y ? ${A(e)} : 1 : ${A(e)});`,
  not: (e) => `$t(33, !${U(e)});`, typeof: (e) => `$t(34, typeof ${U(e)});`, void: (e) => `$t(35, void ${U(e)});`, add: (e) => `$t(36, typeof (1 + ${U(e)}));`, 'less than': (e) => `$t(37, x < ${U(e)});`, in: (e) => `$t(38, "p" in ${M(e)});`, instanceof: (e) => `$t(39, ${M(e)} instanceof C);`,
  argument: (e) => `f(${A(e)}, $t(40, 1));`, 'new argument': (e) => `K(new C(${A(e)}));`, spread: (e) => `f(...${A(e)});`, 'array spread': (e) => `K([...${A(e)}]);`, 'object spread': (e) => `$t(41, { ...${A(e)} });`, callee: (e) => `K(${M(e)}(1));`, 'new callee': (e) => `K(new (${X(e)})());`, object: (e) => `$t(42, (${X(e)}).p);`, 'optional object': (e) => `$t(43, (${X(e)})?.p?.q);`, 'computed member': (e) => `$t(44, o[${X(e)}]);`, 'optional argument': (e) => `o.m?.(${A(e)});`, 'method call': (e) => `$t(45, typeof ${M(e)}?.toString());`,
  element: (e) => `K([x, ${A(e)}, y][1]);`, value: (e) => `const u = { v: ${A(e)}, w: $t(46, 1) }; N(u.v);`, 'computed key': (e) => `$t(47, Object.keys({ [${A(e)}]: 1 }).length);`, 'method key': (e) => `({ [${A(e)}]() { return 1; } });`, 'getter key': (e) => `({ get [${A(e)}]() { return 1; }, set [${A(e)}](v) {} });`,
  template: (e) => `$t(48, typeof \`a\${${X(e)}}b\`);`, tag: (e) => `${M(e)}\`u\${x}\`;`, 'tag argument': (e) => `f\`t\${${X(e)}}u\`;`, 'tag declarator': (e) => `const v = f\`t\${${X(e)}}\`; K(v);`,
  arrow: (e) => `const v = () => ${B(e)}; K(v());`, 'arrow argument': (e) => `f(() => ${B(e)})();`, 'async arrow': (e) => `(async () => ${B(e)})().then(K, T);`, 'arrow of arrow': (e) => `K((() => () => ${B(e)})()());`, 'arrow block': (e) => `const v = () => { return ${A(e)}; }; K(v());`, 'arrow default': (e) => `const v = (p = ${A(e)}) => p; K(v()); K(v(1));`, 'arrow pattern': (e) => `const v = ({ p = ${A(e)} } = {}) => p; K(v());`,
  'function default': (e) => `function g(p = ${A(e)}, q = p) { return q; } K(g()); K(g(1));`, 'function pattern': (e) => `function g({ p: [q = ${A(e)}] = [] }) { return q; } K(g({}));`, return: (e) => `function g() { return ${X(e)}; } K(g());`, 'return after': (e) => `function g() { $t(49); if (x) return ${X(e)}; return y; } K(g());`, 'strict return': (e) => `function g() { "use strict"; return ${X(e)}; } K(g());`, 'return logical': (e) => `function g() { return x && ${M(e)}; } K(g());`, 'return conditional': (e) => `function g() { return x ? ${A(e)} : y; } K(g());`,
  'expression default': (e) => `K((function (p = ${A(e)}) { return p; })());`, 'generator yield': (e) => `function* g() { const v = yield ${A(e)}; $t(50, v); return ${A(e)}; } const i = g(); K(i.next().value); K(i.next(1).value);`, 'yield star': (e) => `function* g() { yield* ${A(e)}; } for (const v of g()) K(v);`, await: (e) => `(async function () { K(await ${U(e)}); return ${A(e)}; })().then(K, T);`, 'for await': (e) => `(async () => { for await (const v of ${A(e)}) K(v); })().catch(T);`, 'async generator': (e) => `(async function* () { yield ${A(e)}; })().next().then((r) => K(r.value), T);`,
  method: (e) => `K({ m() { return ${X(e)}; } }.m());`, getter: (e) => `K({ get g() { return ${X(e)}; } }.g);`, setter: (e) => `({ set s(v) { ${S(e)}; } }).s = 1;`, 'method default': (e) => `K({ m(p = ${A(e)}) { return p; } }.m());`, 'setter default': (e) => `({ set s(v = ${A(e)}) { K(v); } }).s = undefined;`,
  field: (e) => `class G { w = ${A(e)}; v = $t(51, 1); } K(new G().w);`, 'static field': (e) => `class G { static w = ${A(e)}; } K(G.w);`, 'private field': (e) => `class G { #w = ${A(e)}; w() { return this.#w; } } K(new G().w());`, 'static private field': (e) => `class G { static #w = ${A(e)}; static w() { return this.#w; } } K(G.w());`, 'field key': (e) => `class G { [${A(e)}] = 1; static [${A(e)}] = 2; }`, 'class method key': (e) => `class G { [${A(e)}]() {} static get [${A(e)}]() { return 1; } }`,
  'field conditional': (e) => `class G { w = x ? ${A(e)} : 1; v = x || ${M(e)}; } K(new G().w); K(new G().v);`, extends: (e) => `class G extends (${X(e)}) { constructor() { super(); } } new G();`, 'class method': (e) => `class G { m() { return ${X(e)}; } static m() { return ${A(e)}; } } K(new G().m()); K(G.m());`, 'class getter': (e) => `class G { get g() { return ${X(e)}; } static get g() { return 1; } } K(new G().g);`, 'private method': (e) => `class G { #m(p = ${A(e)}) { return p; } m() { return this.#m(); } } K(new G().m());`, constructor: (e) => `class G { constructor(p = ${A(e)}) { this.p = p; ${S(e)}; } } K(new G().p);`, 'super argument': (e) => `class G extends B { constructor() { super(${A(e)}); } m() { return super.m(${A(e)}); } } K(new G().m());`, 'static block': (e) => `class G { static { ${S(e)}; const v = ${A(e)}; K(v); } }`, 'class expression': (e) => `const v = class { static s = ${A(e)}; }; N(v); K(v.s);`, 'class argument': (e) => `f(class extends B { m() { return ${X(e)}; } });`,
  'catch default': (e) => `try { throw {}; } catch ({ v = ${A(e)} }) { K(v); }`, finally: (e) => `function g() { try { return 1; } finally { ${S(e)}; } } K(g());`, 'finally return': (e) => `function g() { try { throw 1; } finally { return ${X(e)}; } } K(g());`, 'try return': (e) => `function g() { try { return ${X(e)}; } catch (e) { return 2; } } K(g());`, 'catch body': (e) => `try { throw 1; } catch { ${S(e)}; }`, block: (e) => `{ ${S(e)}; { const v = ${A(e)}; K(v); } }`, label: (e) => `lab: for (const i of a) { if (i) continue lab; ${S(e)}; }`, immediately: (e) => `(function () { return ${X(e)}; })();`, 'immediately arrow': (e) => `K((() => ${B(e)})());`, comma: (e) => `K((0, ${A(e)}));`, paren: (e) => `const v = (${X(e)}); K(v);`, 'double paren': (e) => `const v = ((${X(e)})); K(v);`,
};
const MODULE = { 'export const': (e, i) => `export const v${i} = ${A(e)}; N(v${i});`, 'export let': (e, i) => `export let v${i} = ${A(e)}, w${i} = 1; N(v${i});`, 'export two': (e, i) => `export const v${i} = 1, w${i} = ${A(e)}, u${i} = 2; N(w${i});`, 'export class': (e, i) => `export class G${i} { static s = ${A(e)}; m() { return ${A(e)}; } }`, 'export function': (e, i) => `export function g${i}(p = ${A(e)}) { return ${A(e)}; } K(g${i}());`, 'export pattern': (e, i) => `export const { p: v${i} = ${A(e)} } = {}; K(v${i});`, 'module const': (e, i) => `const v${i} = ${A(e)}; export { v${i} as w${i} }; N(v${i});` };
const ONCE = { 'export default': (e) => `export default ${S(e)};`, 'module await': (e) => `export const v = await ${U(e)};`, 'module expression': (e) => `${S(e)};` };

const STMT = [
  ';', '{}', '{ ; }', '$t(60);', '$t(60)\n', '"str";', 'x;', '{ $t(61); }', '{ let q = 1; $t(62, q); }', 'var q;', 'var q = 1, r;', 'let q; q = 1;', 'const q = 1;', 'const [q, { r = 2 } = {}] = [1];', 'var { p: q } = o;',
  'function q() { return 1; } K(q);', 'K(q); function q() { return 2; }', 'function* q() { yield 1; } K(q);', 'async function q() { await 1; } K(q);', 'class Q {} K(Q);', 'class Q extends B { m() {} } K(Q);', 'function q() {}', 'function q(p) { "use strict"; return this; } K(q);',
  'if (x) $t(63);', 'if (x) $t(63); else $t(64);', 'if (x) {} else {}', 'if (x) ; else ;', 'if (x) { $t(63); } else if (y) { $t(64); } else { $t(65); }', 'if (x) $t(63); else if (y) $t(64);', 'if (x) if (y) $t(63); else $t(64);', 'if (x) { if (y) $t(63); } else $t(64);', 'if (x && y) $t(63);', 'if (x) var q = 1;', 'if (x) function q() { return 1; }', 'if (x) for (;;) break;', 'if (x) switch (y) { case 1: }', 'if (x) try { $t(63); } catch { }', 'if (x) lab2: $t(63);', 'if (x) return; else $t(64);', 'if (x) { return 1; } $t(65);', 'if (!x) throw 1;', 'if (x, y) { }',
  'for (;;) break;', 'for (;;) { break; }', 'for (let i = 0; i < 2; i++) ;', 'for (let i = 0; i < 2; i++) $t(66, i);', 'for (let i = 0; i < 3; i++) { if (i == 1) continue; $t(66, i); }', 'for (var i = 0, j = 3; i < j; i++, j--) $t(66);', 'for (const k in o) $t(67, k);', 'for (k in o) ;', 'for (var k of a) { if (k == 2) break; }', 'for (const [k = 1] of [[], [2]]) $t(67, k);', 'for (o.n of a) $t(67, o.n);', 'for (const k of a) for (const l of a) $t(67, k + l);', 'for (const k of a) if (k == 1) continue; else $t(67);', 'for (let i = 0, g = () => i; i < 2; i++) $t(66, g());', 'for (let i = 0; i < 2; i++) K(() => i);', 'for (let k of a) { let k2 = k; K(() => k2); }', 'for (const k of [() => 1, function () {}]) K(k);', 'for (let i = x || 0; i < (y || 1) && i < 3; i += x ? 1 : 2) $t(66);', 'for (let i = 0; ; i++) if (i > 1) break;',
  'let i = 0; while (i < 2) i++;', 'let i = 0; while (i++ < 2) { $t(68); }', 'let i = 0; while (true) { if (i++ > 1) break; }', 'while (x && false) ;', 'let i = 0; do i++; while (i < 2)', 'let i = 0; do { if (i == 1) continue; } while (i++ < 2); $t(68);', 'do ; while (0) $t(68);',
  'l: $t(69);', 'l: { break l; }', 'l: { if (x) break l; $t(69); }', 'l: for (;;) { for (;;) break l; }', 'l: for (const k of a) { m: for (const j of a) { if (j == 1) continue l; else continue m; } }', 'l: m: for (const k of a) { continue l; }', 'l: while (true) { switch (x) { default: break l; } }', 'l: if (x) { break l; } else $t(69);', 'l: switch (x) { case 1: break l; default: $t(69); }', 'l: try { break l; } finally { $t(69); }', 'l: do { continue l; } while (false)', 'l: for (const k in o) for (;;) continue l;', 'l: x;', 'l: ;', 'l: {}', 'l: (() => 1)();',
  'switch (x) {}', 'switch (x) { case 1: }', 'switch (x) { default: }', 'switch (x) { case 0: $t(70); case 1: $t(71); break; default: $t(72); }', 'switch (x) { default: $t(72); case 1: $t(70); }', 'switch (x) { case 1: default: case 2: $t(70); }', 'switch (x) { case 1: { let q = 1; $t(70, q); break; } case 2: { break; } default: {} }', 'switch (x) { case 1: let q = 2; $t(70, q); break; default: q = 3; }', 'switch (true) { case x > 0: $t(70); break; case x && y: $t(71); }', 'switch (x) { case 1: function q() { return 5; } default: K(q); }', 'switch (x) { case 1: if (y) break; $t(70); case 2: for (;;) break; $t(71); }', 'switch (x) { case 0: switch (y) { case 1: $t(70); break; default: } break; case 1: $t(71); }', 'switch (x ? y : 1) { case y || 1: $t(70); }', 'switch (x) { case (() => 1)(): $t(70); case function () {}: }', 'switch (x) { case 1: return 1; case 0: throw 2; default: return; }', 'switch (x) { case 1: class Q {} K(Q); case 2: const r = () => 1; N(r); }', 'switch (x) { case 1:; case 2:;;; }',
  'try {} catch {}', 'try {} finally {}', 'try { $t(73); } catch (e) { $t(74, e); }', 'try { throw 1; } catch (e) { $t(74, e); } finally { $t(75); }', 'try { throw { p: 1 }; } catch ({ p: q, r = 2 }) { $t(74, q + r); }', 'try { try { throw 1; } finally { $t(75); } } catch { $t(74); }', 'try { return 1; } finally { $t(75); }', 'try { null.p; } catch (e) { var q = 1; }', 'for (const k of a) { try { continue; } finally { $t(75); } }', 'for (const k of a) try { break; } catch { } finally { $t(75); }',
  'throw x;', 'throw $e("m");', 'return;', 'return x;', 'return () => 1;', 'return x ? y : 1; $t(76);', 'return function () { return x; };', 'return { m() { return 1; } };', 'return (x, y);', 'debugger;', 'with (o) { $t(77, p); }', 'with (o) $t(77, p);', 'with (o) ;', 'with (o) if (x) p = 1;', 'with (o) var p = 5;', 'with (o) with ({ p: 9 }) $t(77, p);',
  'x = 1; y = 2;', 'x ||= 1; y = x && y;', 'x ? $t(78) : $t(79);', 'x && $t(78);', 'x ?? $t(78), y || $t(79);', 'const q = () => { const r = () => x; return r(); }; K(q);', 'const q = x ? () => 1 : function () { return 2; }; K(q);', 'const q = { m() { if (x) return 1; return 2; } }; K(q.m);', 'const q = a.map((k) => k * 2).filter(Boolean); $t(80, q);', 'a.forEach(function (k) { if (k > 1) return; $t(81, k); });', 'const q = [() => 1, () => 2]; K(q[0]);', 'K((function rec(k) { return k > 0 ? rec(k - 1) : 0; }));', 'let q = 1, r = () => q, s = 2; N(r);', 'var q = function () { return 1; }, r = q(), s = class {}; N(q); N(s);', '!function () { $t(82); }();', '(function () { $t(82); })(); (() => $t(83))();', 'new (class { constructor() { $t(82); } })();', 'f`t`;', 'const q = f`t${() => 1}`;', 'import("x").catch(() => 1);', 'yield;', 'const q = yield x;', 'await 1;', 'for await (const k of a) $t(84, k);', 'x++, y--;', 'delete o.n;', 'void x;', '({ p: x } = o);', '[x, y] = [y, x];', 'let\nq = 1\n', 'var q = 1\n;[1].map((k) => k)\n',
];
const SPOS = {
  function: (s) => `function g() { ${s} } R(g);`, 'function directive': (s) => `function g() { "use strict"; ${s} } R(g);`, 'two directives': (s) => `function g() { "a"; 'use strict'; ${s} } R(g);`, 'function end': (s) => `function g() { $t(90); ${s} $t(91); } R(g);`, 'function expression': (s) => `R(function () { ${s} });`, arrow: (s) => `R(() => { ${s} });`, async: (s) => `(async function () { ${s} })().then(K, T);`, 'async arrow': (s) => `(async () => { ${s} })().then(K, T);`, generator: (s) => `function* g() { ${s} } for (const v of g()) K(v);`,
  method: (s) => `R(() => ({ m() { ${s} } }).m());`, getter: (s) => `R(() => ({ get m() { ${s} } }).m);`, setter: (s) => `R(() => { ({ set m(v) { ${s} } }).m = 1; });`, 'class method': (s) => `class G { m() { ${s} } static m() { ${s} } } R(() => new G().m()); R(G.m);`, constructor: (s) => `class G { constructor() { ${s} } } R(() => new G());`, 'derived constructor': (s) => `class G extends B { constructor() { super(); ${s} } } R(() => new G());`, 'private method': (s) => `class G { #m() { ${s} } m() { this.#m(); } } R(() => new G().m());`, 'static block': (s) => `class G { static { ${s} } }`, 'default parameter': (s) => `function g(p = () => { ${s} }) { return p(); } R(g);`, 'field arrow': (s) => `class G { w = () => { ${s} }; } R(new G().w);`,
  block: (s) => `function g() { { ${s} } } R(g);`, if: (s) => `function g() { if (x) ${s} } R(g);`, else: (s) => `function g() { if (x) ; else ${s} } R(g);`, 'if else': (s) => `function g() { if (x) ${s} else $t(92); } R(g);`, 'if block': (s) => `function g() { if (x) { ${s} } else { ${s} } } R(g);`, 'else if': (s) => `function g() { if (x > 5) $t(93); else if (y) { ${s} } } R(g);`, for: (s) => `function g() { for (let z1 = 0; z1 < 2; z1++) ${s} } R(g);`, 'for of': (s) => `function g() { for (const z1 of a) { ${s} } } R(g);`, 'for of body': (s) => `function g() { for (const z1 of a) ${s} } R(g);`, 'for in': (s) => `function g() { for (const z1 in o) ${s} } R(g);`, while: (s) => `function g() { let z1 = 0; while (z1++ < 2) ${s} } R(g);`, do: (s) => `function g() { let z1 = 0; do { ${s} } while (z1++ < 1); } R(g);`, 'do body': (s) => `function g() { let z1 = 0; do ${s} while (z1++ < 1); } R(g);`,
  label: (s) => `function g() { lab: ${s} } R(g);`, 'label block': (s) => `function g() { lab: { ${s} } $t(94); } R(g);`, 'two labels': (s) => `function g() { lab: lbl: ${s} } R(g);`, 'label in if': (s) => `function g() { if (x) lab: ${s} } R(g);`, case: (s) => `function g() { switch (x) { case 1: ${s} default: $t(95); } } R(g);`, default: (s) => `function g() { switch (y) { default: ${s} case 7: $t(95); } } R(g);`, 'case block': (s) => `function g() { switch (x) { case 1: { ${s} } } } R(g);`, try: (s) => `function g() { try { ${s} } catch (e) { $t(96, e); } } R(g);`, catch: (s) => `function g() { try { throw 1; } catch (e) { ${s} } } R(g);`, finally: (s) => `function g() { try { $t(97); } finally { ${s} } } R(g);`, with: (s) => `function g() { with (o) ${s} } R(g);`, 'with block': (s) => `function g() { with (o) { ${s} } } R(g);`, nested: (s) => `function g() { return (() => { for (const z1 of a) { if (z1) { ${s} } } })(); } R(g);`,
};
const STOP = { top: (s) => s, 'top block': (s) => `{ ${s} }`, 'top if': (s) => `if (x) ${s}`, 'top label': (s) => `lab: ${s}`, 'top for': (s) => `for (const z1 of a) ${s}`, 'top strict': (s) => `"use strict"; ${s}` };

// K calls what is a function, N reads its name first, R runs a function whatever it does, T notes a rejection
const HEAD = `var z, k;
function K(v) { $t(100, v); if (typeof v === 'function') { try { const r = v(0, 1); $t(101, r); if (r && typeof r.next === 'function') { r.next(); r.next(2); } } catch (e) { $t(102, e); try { new v(); } catch (e) { $t(103, e); } } } else if (v && typeof v.m === 'function') { try { v.m(); } catch (e) { $t(104, e); } } }
function N(v) { if (typeof v === 'function' && !Object.getOwnPropertyDescriptor(v, 'name')?.writable) $t(105, v.name); K(v); }
function R(g) { for (const [i, j] of [[0, 1], [1, 0], [null, [1]], ['x', '']]) { x = i; y = j; try { K(g()); } catch (e) { $t(106, e); } } }
function T(e) { $t(107, e); }
function f(v) { return typeof v === 'function' ? v : () => v; }
class B { m() { return 8; } }
class C { constructor(k) { this.k = k; } }
`;
const LOCALS = 'let o = { p: 4, m() { return 2; }, n: 1 }, a = [1, 2];';
const VARS = `var x = 1, y = 0; ${LOCALS}\n`;

const EPER = 10;
// what is in the global object is not the same with coverage
const forms = (name) => (/^(for in|object spread)$/.test(name) ? EXPR.filter(([, t]) => t !== 'this') : EXPR);
/** all groups: { name, sourceType, wrap, items } */
let groups = null;
function build() {
  const out = []; const chunks = (l, k) => Array.from({ length: Math.ceil(l.length / k) }, (_, i) => l.slice(i * k, i * k + k));
  for (const [name, pos] of Object.entries(POS)) for (const c of chunks(forms(name), EPER)) {
    // in a function which is called with several values
    out.push({ name, sourceType: out.length % 2 ? 'module' : 'script', items: c.map((e) => [pos(e)]), wrap: (items) => HEAD + 'var x, y;\n' + items.map((s, i) => `function t${i}(x, y) { ${LOCALS} ${s}\n}\nfor (const [i, j] of [[0, 1], [1, {}], [null, 'x'], [[], undefined]]) { try { t${i}(i, j); } catch (e) { $t(108, e); } }`).join('\n') });
  }
  for (const [name, pos] of Object.entries(POS)) for (const c of chunks(forms(name), 24)) // in a block of the program itself
    out.push({ name: 'top ' + name, sourceType: out.length % 2 ? 'script' : 'module', items: c.map((e) => [pos(e)]), wrap: (items) => HEAD + VARS + items.map((s) => `try { ${s}\n} catch (e) { $t(109, e); }`).join('\n') });
  for (const [name, pos] of Object.entries(MODULE)) for (const c of chunks(EXPR, EPER))
    out.push({ name, sourceType: 'module', items: c.map((e, i) => [pos(e, i)]), wrap: (items) => HEAD + VARS + items.join('\n') });
  for (const [name, pos] of Object.entries(ONCE)) for (const e of EXPR) out.push({ name, sourceType: 'module', items: [[pos(e)]], wrap: (items) => HEAD + VARS + items.join('\n') });
  for (const [name, pos] of Object.entries(SPOS)) for (const c of chunks(STMT, 5))
    out.push({ name: 's ' + name, sourceType: out.length % 2 ? 'module' : 'script', items: c.map((s) => [pos(s)]), wrap: (items) => HEAD + 'var x, y;\n' + items.map((s) => `try { (function () { ${LOCALS} ${s}\n})(); } catch (e) { $t(108, e); }`).join('\n') });
  for (const [name, pos] of Object.entries(STOP)) for (const s of STMT) out.push({ name: 's ' + name, sourceType: out.length % 2 ? 'module' : 'script', items: [[pos(s)]], wrap: (items) => (name === 'top strict' ? items[0] + '\n' + HEAD + VARS : HEAD + VARS + items.join('\n')) });
  return out;
}
export function count() { groups ??= build(); return groups.length; }
/** what the group consists of: the program, and the programs of its items alone */
export function shape(i) {
  groups ??= build(); const g = groups[i]; const items = g.items.map((x) => x[0]);
  return { head: HEAD.length, name: g.name, sourceType: g.sourceType, code: g.wrap(items), alone: items.length > 1 ? items.map((s) => g.wrap([s])) : [], items };
}
