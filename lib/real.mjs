// Real packages as workload: loaded (every file of theirs through its own CommonJS loader) into a realm, driven, and
// compared: original, probed and instrumented.
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import util from 'node:util';
import { createRequire } from 'node:module';
import { analyze } from './ref.mjs';
import { compareCounts, compareStructure } from './evalprog.mjs';
import { generate } from './gen.mjs';

const ROOT = '/opt/veriftools/node/node_modules';
const req = createRequire(ROOT + '/x.js');
/** drivers run inside the realm: (module, out, tools) with tools.programs: generated program texts, tools.pick/int seeded */
export const PACKAGES = {
  semver(m, out, t) { const v = ['1.2.3', '1.2.3-beta.1', 'v2.0.0+b', '0.0.1', 'x', '10.20.30', '1.2', '4.0.0-rc.2', '']; const r = ['^1.2', '~1', '>=1 <2 || 3.x', '*', '1.2.3 - 2', '!', '<=4.0.0-0', '^0.0.1', 'latest']; for (const a of v) { out(m.valid(a), m.clean(' =' + a), m.coerce(a)?.version, m.prerelease(a)); for (const b of r) out(m.satisfies(a, b), m.validRange(b), m.satisfies(a, b, { includePrerelease: true, loose: true })); for (const k of ['major', 'minor', 'patch', 'prerelease', 'premajor', 'preminor', 'prepatch', 'zz']) { out(m.inc(a, k, 'alpha')); } for (const b of v) try { out(m.compare(a, b), m.diff(a, b)); } catch (e) { out(e.message); } } for (const a of r) for (const b of r) try { out(m.intersects(a, b), m.subset(a, b), m.minVersion(a)?.version, m.gtr('3.0.0', a), m.simplifyRange(v, b)); } catch (e) { out(e.message); } out(m.sort(['1.0.2', '1.0.0', '1.0.1']), m.maxSatisfying(['1.2.0', '1.3.0'], '^1')); },
  underscore(_, out, t) { const a = [5, 1, 4, 1, 3]; out(_.map(a, (x) => x * 2), _.reduce(a, (x, y) => x + y), _.groupBy(a, (x) => x % 2), _.sortBy(a), _.uniq(a), _.chunk(a, 2), _.zip(a, a), _.range(3), _.flatten([1, [2, [3, [4]]]]), _.isEqual({ a: [1, { b: new Date(0) }] }, { a: [1, { b: new Date(0) }] }), _.isEqual([0], [-0]), _.template('a<%= x %><% if (y) { %>Y<% } %><%- x %>')({ x: '<b>', y: t.int(2) }), _.escape('<&>"\''), _.omit({ a: 1, b: 2 }, 'a'), _.defaults({ a: 1 }, { a: 2, b: 3 }), _.invert({ a: 'x' }), _.countBy(a, String), _.difference(a, [1]), _.shuffle([]), _.memoize((x) => x + 1)(t.int(5)), _.compose((x) => x + 1, (x) => x * 2)(3), _.chain(a).filter((x) => x > 1).map((x) => x + 1).value(), _.partition(a, (x) => x > 2), _.isEmpty({}), _.clone(a), _.has({ a: { b: 1 } }, ['a', 'b']), _.get({ a: [1] }, ['a', 0]), _.min(a), _.max(a), _.pluck([{ a: 1 }], 'a'), _.where([{ a: 1, b: 2 }], { a: 1 }), _.object([['a', 1]]), _.findIndex(a, (x) => x === 4), _.sortedIndex([1, 3, 5], 4), _.invoke([[3, 1]], 'sort'), _.unzip([[1, 2], [3, 4]]), _.times(3, (x) => x), _.result({ f() { return 7; } }, 'f')); },
  handlebars(m, out, t) { m.registerHelper('up', (s) => String(s).toUpperCase()); m.registerPartial('p', '<{{x}}>'); for (const s of ['a {{x}} {{{x}}}', '{{#if x}}y{{else}}n{{/if}}', '{{#each l}}{{@index}}:{{this}} {{else}}none{{/each}}', '{{#with o}}{{k}}{{/with}}{{up x}}', '{{> p}}{{#unless x}}1{{/unless}}', '{{lookup l 1}}{{!-- c --}}', '{{#each o as |v k|}}{{k}}={{v}}{{/each}}', '{{', '{{#if}}', '{{x.y.z}}', '{{up (up x)}} {{~ x ~}} ', '{{#*inline "q"}}Q{{/inline}}{{> q}}']) for (const c of [{ x: 'A<', l: [1, 2], o: { k: 'v' } }, { x: 0, l: [], o: {} }, {}]) try { out(m.compile(s)(c)); } catch (e) { out(String(e.message).slice(0, 80)); } out(m.precompile('{{a}}').length > 5); },
  esprima(m, out, t) { for (const p of t.programs) for (const f of ['parseScript', 'parseModule', 'tokenize']) try { out(JSON.stringify(m[f](p, { range: true, comment: true, tolerant: true })).length); } catch (e) { out(e.message); } },
  escodegen(m, out, t) { for (const p of t.asts) try { out(m.generate(p), m.generate(p, { format: m.FORMAT_MINIFY })); } catch (e) { out(e.message); } },
  diff(m, out, t) { const a = t.programs[0], b = t.programs[0].replace(/e/g, 'x'); out(m.diffChars('abcde', 'axcdy'), m.diffWords('a b c', 'a c d').length, m.diffLines(a, b).length, m.diffCss('a{b:c}', 'a{b:d}'), m.diffJson({ a: 1 }, { a: 2, b: 1 }), m.diffArrays([1, 2], [2, 3]), m.applyPatch(a, m.createPatch('f', a, b)) === b, m.diffSentences('A. B.', 'A. C.'), m.structuredPatch('a', 'b', a, b).hunks.length, m.parsePatch(m.createTwoFilesPatch('a', 'b', a, b)).length); },
  'js-yaml'(m, out, t) { for (const s of ['a: 1\nb: [x, y]\nc:\n  - d\n  - {e: f}\n', '? k\n: v', '- &a 1\n- *a\n', 'a: |\n  x\n  y\nb: >-\n  z\n  w\n', '"\\u0041": \'it\'\'s\'', 'a: b: c', '!!binary "aGk="', '!!set {a, b}', '2001-12-14', '- 0x1F\n- 1e3\n- .inf\n- ~\n- yes', '%YAML 1.2\n---\na\n...\n---\nb', '[1, 2', '\t a', '<<: {a: 1}\nb: 2', 'a: !foo 1']) try { const v = m.loadAll(s); out(v, v.map((x) => m.dump(x, { sortKeys: true })), m.dump(v, { flowLevel: 0 })); } catch (e) { out(String(e.message).slice(0, 100)); } out(m.dump({ a: 'x\ny', b: [], c: {}, d: [[1, [2]]], e: null, f: new Date(0), g: '- q', h: 'true', i: ' s', j: NaN, k: -0, l: 'é'.repeat(90) })); },
  json5(m, out, t) { for (const s of ['{a: 1, "b": \'c\', d: [1,,], }', '{a: 1,}', '[+1, -.5, 0xF, 1e5, Infinity, NaN]', '"a\\\nb"', '// c\n{/* d */}', '{', "'\\x41\\u0042\\0'", 'nul', '{a:}', '\ufeff1', '[]x']) try { out(m.parse(s, (k, v) => (k === 'z' ? 1 : v))); } catch (e) { out(e.message); } out(m.stringify({ a: [1, { 'b-c': "it's" }], d: null, u: void 0 }, null, 2), m.stringify([1, '\u2028'], null, '\t'), m.stringify({ a: 1, b: 2 }, ['a'])); },
  ini(m, out, t) { for (const s of ['a=1\n[s]\nb=x;y\nc[]=1\nc[]=2\n', '; c\n[a.b]\nk="q=r"\nt=true\n', 'x\n[]\n=y', '[a\\.b]\nz = \'1\'']) { const v = m.parse(s); out(v, m.stringify(v), m.stringify(v, { section: 'q', whitespace: true })); } out(m.safe('a;b'), m.unsafe('"x"')); },
  'sprintf-js'(m, out, t) { for (const [f, ...a] of [['%s %d', 'x', 3], ['%05.2f|%-8s|%+d', 3.14159, 'ab', 5], ['%x %X %o %b %c %e %u', 255, 255, 8, 5, 65, 12345.678, -1], ['%(a)s %(b.c)s', { a: 1, b: { c: 2 } }], ['%2$s %1$s', 'a', 'b'], ['%%'], ['%j', { a: 1 }], ["%'*10s", 'x'], ['%z'], ['%s', () => 'f']]) try { out(m.sprintf(f, ...a), m.vsprintf(f, a)); } catch (e) { out(e.message); } },
  postcss(m, out, t) { for (const s of ['a { color: red; b: c !important }', '@media (x) { .a > b { c: d } }', '/* c */ a{}b{}', 'a { b: c', '@import "x";', 'a{b:url(x;y)}', 'a:hover::before{content:"\\"}"}', '}', ':root{--x: {a:b}}']) try { const r = m.parse(s); r.walkDecls((d) => { d.value = d.value + '!'; }); r.walkRules((x) => { x.selector += ' .z'; }); r.walkAtRules(() => {}); r.walkComments((c) => c.remove()); out(r.toString(), r.nodes.length, m([{ postcssPlugin: 'p', Declaration(d) { if (d.prop === 'b') d.prop = 'bb'; } }]).process(s, { from: void 0 }).css); } catch (e) { out(e.reason ?? e.message); } out(m.list.comma('a, b(c, d), e'), m.list.space('a "b c" d')); },
  ajv(m, out, t) { const A = m.default ?? m; const ajv = new A({ allErrors: true, strict: false }); for (const s of [{ type: 'object', properties: { a: { type: 'integer', minimum: 2 }, b: { enum: ['x', 'y'] } }, required: ['a'], additionalProperties: false }, { type: 'array', items: { anyOf: [{ type: 'string', pattern: '^a' }, { type: 'number', multipleOf: 2 }] }, uniqueItems: true, minItems: 1 }, { oneOf: [{ type: 'null' }, { const: 5 }], not: { type: 'boolean' } }, { $defs: { n: { type: 'object', properties: { c: { $ref: '#/$defs/n' } } } }, $ref: '#/$defs/n' }, { if: { type: 'string' }, then: { maxLength: 2 }, else: { type: ['number', 'object'] }, dependentRequired: { a: ['b'] }, patternProperties: { '^x': { type: 'string' } } }]) { const v = ajv.compile(s); for (const d of [{ a: 3, b: 'x' }, { a: 1, z: 1 }, {}, ['ab', 4, 4], [], null, 5, true, 'abc', { c: { c: { c: 1 } } }, { x1: 2, a: 1 }]) { out(v(d), ajv.errorsText(v.errors)); } } try { ajv.compile({ type: 'nope' }); } catch (e) { out(e.message.slice(0, 90)); } },
  acorn(m, out, t) { for (const p of t.programs) for (const o of [{ ecmaVersion: 2022, locations: true, sourceType: 'module' }, { ecmaVersion: 5 }, { ecmaVersion: 'latest', ranges: true, onComment: [], onToken: [], allowReturnOutsideFunction: true, preserveParens: true }]) try { out(JSON.stringify(m.parse(p, o), (k, v) => (typeof v === 'bigint' ? 'b' : v)).length); } catch (e) { out(e.message); } },
  pluralize(m, out, t) { for (const w of ['cat', 'child', 'ox', 'mouse', 'analysis', 'sheep', 'quiz', 'Man', 'THESIS', 'box', 'index', '', 'news']) out(m(w), m(w, 1), m(w, 2, true), m.singular(m.plural(w)), m.isPlural(w), m.isSingular(w)); m.addPluralRule(/gex$/i, 'gexii'); m.addIrregularRule('irr', 'irrs'); m.addUncountableRule('paper'); out(m('regex'), m('irr'), m('paper')); },
  'iconv-lite'(m, out, t) { for (const e of ['utf8', 'utf16', 'utf-16be', 'latin1', 'win1251', 'shift_jis', 'gbk', 'gb18030', 'big5', 'eucjp', 'utf7', 'utf-7-imap', 'utf32', 'base64', 'hex', 'cp437', 'nope']) try { const b = m.encode('aé日本😀Привет', e, { addBOM: !!t.int(2) }); out(e, b.toString('hex'), m.decode(b, e), m.encodingExists(e)); } catch (x) { out(x.message); } },
  chalk(m, out, t) { const c = new m.Instance({ level: 3 }); out(c.red.bold('x'), c.hex('#abc').underline('a\nb'), c.bgRgb(1, 2, 3)('y'), c`{red a {bold b}} ${1}`, c.keyword('orange')('o'), c.visible(''), new m.Instance({ level: 0 }).red('n'), new m.Instance({ level: 1 }).ansi256(200)('z')); try { c`{red`; } catch (e) { out(e.message); } },
  'source-map'(m, out, t) { const g = new m.SourceMapGenerator({ file: 'o.js', sourceRoot: '/r' }); for (let i = 0; i < 60; i++) g.addMapping({ generated: { line: 1 + t.int(9), column: t.int(40) }, original: { line: 1 + t.int(9), column: t.int(40) }, source: t.pick(['a.js', 'b.js']), name: t.pick([void 0, 'n', 'q']) }); g.setSourceContent('a.js', 'x'); const c = new m.SourceMapConsumer(g.toString()); let n = 0; c.eachMapping(() => n++); out(n, c.originalPositionFor({ line: 3, column: 7 }), c.generatedPositionFor({ source: '/r/a.js', line: 2, column: 1, bias: m.SourceMapConsumer.LEAST_UPPER_BOUND }), c.allGeneratedPositionsFor({ source: '/r/b.js', line: 2 }).length, c.sourceContentFor('/r/a.js'), c.hasContentsOfAllSources()); const s = new m.SourceNode(1, 0, 'a.js', ['a', new m.SourceNode(2, 1, 'b.js', 'b\nc'), 'd']); out(s.toString(), s.toStringWithSourceMap({ file: 'z' }).map.toString()); },
  'fast-json-stable-stringify'(m, out) { out(m({ b: 1, a: [3, { d: 1, c: null, u: void 0 }], t: { toJSON() { return 4; } }, n: NaN }), m([1, 'x'], (a, b) => (a.key < b.key ? 1 : -1)), m(void 0)); try { const c = {}; c.c = c; m(c); } catch (e) { out(e.message); } out(m({ b: 1, a: 2 }, { cmp: (a, b) => (a.key < b.key ? 1 : -1), cycles: true })); },
  'fast-levenshtein'(m, out) { out(m.get('kitten', 'sitting'), m.get('', 'a'), m.get('é', 'e', { useCollator: true }), m.get('same', 'same')); },
  'object-inspect'(m, out) { for (const v of [1, -0, 'x', null, void 0, [1, , 3], { a: 1, 'b c': [2] }, new Map([[1, { a: 1 }]]), new Set([1]), /x/g, new Date(0), Symbol('s'), 3n, Object(1), Object('s'), new Error('e').message, [[[[[1]]]]], Object.create(null), new WeakMap(), new (class Foo { x = 1; })()]) for (const o of [{}, { depth: 1, indent: 2 }, { quoteStyle: 'double', maxStringLength: 3 }]) out(m(v, o)); },
  rxjs(m, out, t) { const { of, from, interval, Subject, BehaviorSubject, ReplaySubject } = m; const ops = m; of(1, 2, 3).pipe(ops.map((x) => x * 2), ops.filter((x) => x > 2), ops.scan((a, b) => a + b, 0)).subscribe((x) => out(x), out, () => out('c')); from([[1, 2], [3]]).pipe(ops.mergeMap((x) => from(x)), ops.toArray()).subscribe((x) => out(x)); const s = new Subject(); s.pipe(ops.distinctUntilChanged(), ops.take(2), ops.startWith(9)).subscribe({ next: (x) => out(x), complete: () => out('done') }); s.next(1); s.next(1); s.next(2); s.next(3); const b = new BehaviorSubject(5); b.subscribe({ next: (x) => out(x), error: (e) => out(e.message) }); b.next(6); b.error(new Error('q')); const r = new ReplaySubject(2); r.next(1); r.next(2); r.next(3); r.subscribe((x) => out(x)); ops.combineLatest([of(1, 2), of('a')]).subscribe((x) => out(x)); ops.concat(of(1), ops.throwError(() => new Error('z'))).pipe(ops.catchError((e) => of(e.message)), ops.retry(1)).subscribe((x) => out(x)); ops.zip(of(1, 2), of(3, 4)).pipe(ops.reduce((a, x) => a + x[0] * x[1], 0)).subscribe((x) => out(x)); ops.range(1, 5).pipe(ops.bufferCount(2), ops.groupBy((x) => x.length), ops.mergeMap((g) => g.pipe(ops.count()))).subscribe((x) => out(x)); },
  tslib(m, out) { class A { constructor() { this.a = 1; } } function B() { return A.call ? this : this; } function P() {} P.prototype.x = 1; m.__extends(B, P); out(new B().x, m.__assign({ a: 1 }, { b: 2 }), m.__rest({ a: 1, b: 2 }, ['a']), [...m.__read([1, 2, 3], 2)], m.__spreadArray([1], [2, , 3], true)); m.__exportStar({ q: 1 }, {}); const g = m.__generator({}, function (_a) { switch (_a.label) { case 0: return [4, 1]; case 1: out(_a.sent()); return [4, 2]; case 2: return [2, 3]; } }); out(g.next(), g.next('s'), g.next(), g.next()); try { m.__extends(B, 1); } catch (e) { out(e.message); } out(m.__importDefault({ a: 1 }), m.__importStar({ a: 1 }), m.__makeTemplateObject(['a'], ['b']).raw); const it = m.__values([1, 2]); out(it.next(), it.next(), it.next()); return m.__awaiter({}, [], Promise, function* () { const x = yield 5; out(x); return x; }).then((x) => out(x)); },
  'pretty-format'(m, out) { for (const v of [1, [1, { a: 'x\n"y"' }], new Map([['k', new Set([1])]]), Object.create(null), new Error('e'), Symbol('a'), -0, 3n, /r/, new Date(0), new Date(NaN), function () {}, [void 0, null], { toJSON() { return { j: 1 }; } }, new Uint8Array(2), new WeakSet(), (function () { return arguments; })(1, 2)]) for (const o of [{}, { min: true }, { indent: 4, maxDepth: 1, printBasicPrototype: false }, { highlight: true, escapeString: false, printFunctionName: false }]) out(m.format(v, o)); try { m.format(1, { nope: 1 }); } catch (e) { out(e.message); } },
  jsesc(m, out) { for (const v of ['a"b\'c`', '\u2028é😀\0', { a: [1, 'x'], b: new Map([[1, 2]]) }, [1, 2, null, void 0, true], new Set(['q']), 255]) for (const o of [{}, { quotes: 'double', wrap: true }, { json: true }, { es6: true, minimal: true }, { compact: false, indent: '  ', numbers: 'hexadecimal' }, { escapeEverything: true, lowercaseHex: true, isScriptContext: true }]) try { out(m(v, o)); } catch (e) { out(e.message); } },
  'regexp-tree'(m, out) { for (const s of ['/a|b*?c{2,3}(?<n>x)\\k<n>[^\\d-z]/gi', '/(?:a)+(?=b)(?!c)\\b$/', '/[a-zA-Z0-9_]aa+|\\x41\\u0042/', '/(/', '/(a)(?<=b)\\1./s', '/\\//y']) try { const a = m.parse(s); out(JSON.stringify(a).length, m.generate(a), m.optimize(s).toString(), m.toRegExp(s).source); let n = 0; m.traverse(a, { Char() { n++; }, Group: { pre() { n += 10; }, post() { n += 100; } } }); out(n, m.transform(s, { Char(p) { if (p.node.value === 'a') p.remove(); } }).toString(), m.compatTranspile(s).toString()); } catch (e) { out(String(e.message).split('\n')[0]); } },
  'safe-regex'(m, out) { for (const s of ['(x+x+)+y', 'abc', '(a*)*', '[', /\bOakland\b/, '(a+){10}b']) out(m(s)); },
  esquery(m, out, t) { for (const q of ['FunctionDeclaration', ':function > BlockStatement', '[name="a"]', 'Identifier[name=/^v/]', 'CallExpression:has(Identifier)', ':not(Literal)', 'IfStatement ~ ExpressionStatement', '*:first-child', ':nth-child(2)', 'a,', '!VariableDeclaration > VariableDeclarator', '[arguments.length>1]', ':matches(Literal, Identifier) + *', '.test']) for (const a of t.asts) try { out(m.query(a, q).length); } catch (e) { out(String(e.message).slice(0, 60)); } },
  estraverse(m, out, t) { for (const a of t.asts) try { let n = 0; m.traverse(a, { enter(x) { n++; if (x.type === 'Literal') this.skip(); if (n > 400) this.break(); }, leave() { n += 1000; }, fallback: 'iteration' }); out(n); out(JSON.stringify(m.replace(JSON.parse(JSON.stringify(a, (k, v) => (typeof v === 'bigint' ? 1 : v))), { enter(x) { if (x.type === 'EmptyStatement') return this.remove(); if (x.type === 'Literal') return { type: 'Identifier', name: 'q' }; }, fallback: 'iteration' })).length); } catch (e) { out(e.message); } },
  levn(m, out) { for (const [ty, s] of [['Number', '5'], ['[Number]', '1,2'], ['{a: Number, b?: String}', 'a: 1, b: x'], ['Maybe Boolean', 'true'], ['(Number, String)', '(1, q)'], ['Number | String', 'z'], ['*', '{x: [1, null]}'], ['Date', '2012'], ['RegExp', '/a/g'], ['Int', '1.5'], ['[', 'x']]) try { out(m.parse(ty, s)); } catch (e) { out(e.message); } },
  'prelude-ls'(m, out) { out(m.map((x) => x + 1, [1, 2]), m.foldl((a, b) => a + b)(0)([1, 2, 3]), m.camelize('a-b_c'), m.dasherize('aBcD'), m.unique([1, 1, 2]), m.zipWith((a, b) => a * b, [1, 2], [3, 4]), m.words('a b'), m.sortBy((x) => -x, [1, 3, 2]), m.groupBy((x) => x % 2, [1, 2, 3]), m.span((x) => x < 2, [1, 2, 3]), m.partition((x) => x > 1, [1, 2]), m.gcd(12, 18), m.lcm(4, 6), m.Obj.mapValues?.((x) => x + 1, { a: 1 }), m.values({ a: 1 }), m.pairsToObj([['a', 1]]), m.take(2, [1, 2, 3]), m.flip((a, b) => a - b)(1, 2), m.fix((f) => (n) => (n < 2 ? 1 : n * f(n - 1)))(5), m.split(' ', 'a b'), m.capitalize('abc'), m.scanl((a, b) => a + b, 0, [1, 2])); },
  optionator(m, out) { const o = m({ prepend: 'Usage: x', options: [{ heading: 'H' }, { option: 'help', alias: 'h', type: 'Boolean', description: 'help' }, { option: 'n', type: 'Int', default: '3', example: '-n 4' }, { option: 'list', type: '[String]', concatRepeatedArrays: true, dependsOn: 'n' }, { option: 'e', enum: ['a', 'b'], type: 'String' }] }); for (const s of ['-h', '--n 5 q r', '--list a --list b -n 1', '--nope', '-e z', '--no-help', '-n x', '--help=1']) try { out(o.parse('node x ' + s)); } catch (e) { out(e.message); } out(o.generateHelp(), o.generateHelpForOption('n')); },
  'lru-cache'(M, out, t) { const c = new M({ max: 3, length: (v) => v.n ?? 1, dispose: (k) => out('d' + k), noDisposeOnSet: true }); for (let i = 0; i < 12; i++) { c.set('k' + t.int(6), { n: 1 + (i % 2) }); out(c.has('k1'), c.get('k2'), c.peek('k3'), c.length, c.keys()); } c.forEach((v, k) => out(k)); c.rforEach((v, k) => out(k)); c.del('k1'); c.prune(); out(c.dump().map((x) => x.k), c.itemCount); c.reset(); try { c.max = 'x'; } catch (e) { out(e.message); } },
  'neo-async'(m, out) { m.each([1, 2], (x, cb) => cb(), (e) => out('e', e)); m.map([1, 2], (x, cb) => cb(null, x * 2), (e, r) => out(r)); m.series([(cb) => cb(null, 1), (cb) => cb(null, 2)], (e, r) => out(r)); m.waterfall([(cb) => cb(null, 1), (a, cb) => cb(null, a + 1)], (e, r) => out(r)); m.auto({ a: (cb) => cb(null, 1), b: ['a', (r, cb) => cb(null, r.a + 1)] }, (e, r) => out(r)); m.filter([1, 2, 3], (x, cb) => cb(null, x > 1), (e, r) => out(r)); m.parallel({ a: (cb) => cb('err'), b: (cb) => cb() }, (e) => out(e)); m.reduce([1, 2], 0, (a, x, cb) => cb(null, a + x), (e, r) => out(r)); m.sortBy([3, 1], (x, cb) => cb(null, x), (e, r) => out(r)); let n = 0; m.whilst(() => n < 3, (cb) => { n++; cb(); }, () => out(n)); m.eachLimit({ a: 1, b: 2 }, 1, (x, cb) => cb(), () => out('l')); },
  'lines-and-columns'(m, out) { const l = new m.LinesAndColumns('a\r\nbc\n\nd'); for (let i = -1; i < 10; i++) out(l.locationForIndex(i)); for (let a = -1; a < 5; a++) for (let c = 0; c < 3; c++) out(l.indexForLocation({ line: a, column: c })); },
  'base64-js'(m, out, t) { for (let n = 0; n < 8; n++) { const b = new Uint8Array(n).map((_, i) => (i * 77 + n * 31) & 255); const s = m.fromByteArray(b); out(s, m.byteLength(s), [...m.toByteArray(s)]); } try { m.toByteArray('a'); } catch (e) { out(e.message); } out(m.fromByteArray(new Uint8Array(20000)).length); },
  'buffer/'(m, out) { const B = m.Buffer; const b = B.from('aé日😀'); out(b.toString('hex'), b.toString('base64'), b.slice(1, 3).toString('latin1'), B.concat([b, B.alloc(2, 1)]).length, b.equals(B.from(b)), b.indexOf('日'), b.includes('zz'), B.compare(b, B.from('b')), b.toJSON().data.length); const w = B.alloc(64); w.writeDoubleBE(1.5, 0); w.writeFloatLE(-0.25, 8); w.writeInt32BE(-5, 12); w.writeUIntBE(0x123456, 16, 3); w.writeIntLE(-300, 20, 6); out(w.readDoubleBE(0), w.readFloatLE(8), w.readInt32BE(12), w.readUIntBE(16, 3), w.readIntLE(20, 6), w.readUInt16LE(17), w.swap16().length, w.fill('ab').toString('ascii', 0, 5), w.write('xyz', 3, 'ucs2')); for (const f of [() => B.alloc(-1), () => w.readInt8(99), () => w.writeUInt8(256, 0), () => B.from(5), () => B.from({}), () => B.from([1, 2, 300])]) try { out(f().length); } catch (e) { out(e.message); } },
  'diff-match-patch'(M, out) { const d = new M(); const a = 'The quick brown fox jumps over the lazy dog.', b = 'That quick red fox jumped over some lazy cats!'; const x = d.diff_main(a, b); d.diff_cleanupSemantic(x); out(x.map((q) => [q[0], q[1]]), d.diff_levenshtein(x), d.diff_prettyHtml(x)); const p = d.patch_make(a, b); out(d.patch_toText(p), d.patch_apply(p, a.replace('lazy', 'slow')), d.match_main(a, 'jumsp', 10), d.diff_toDelta(x), d.patch_fromText(d.patch_toText(p)).length); d.diff_cleanupEfficiency(x); out(d.diff_text1(x) === a, d.diff_text2(x) === b); try { d.patch_fromText('x'); } catch (e) { out(e.message); } },
  ms(m, out) { for (const s of ['2d', '1.5h', '1m', '100', '-3 min', 'x', '1 y', '10ms', '2 weeks']) out(m(s)); for (const n of [500, 6e4, -36e5, 864e5, 3]) out(m(n), m(n, { long: true })); try { m(''); } catch (e) { out(e.message); } },
  deepmerge(m, out) { out(m({ a: [1], b: { c: 1 } }, { a: [2], b: { d: 2 } }), m.all([{ a: 1 }, { b: 2 }, { a: 3 }]), m({ a: [1] }, { a: [2] }, { arrayMerge: (x, y) => y, customMerge: (k) => (k === 'z' ? () => 1 : void 0) }), m([1], { a: 1 })); try { m.all(1); } catch (e) { out(e.message); } },
  dedent(m, out) { const d = m.default ?? m; out(d`
      a
        b ${1}
      c\n`, d('  x\n    y'), d.withOptions({ escapeSpecialCharacters: false })`\\ $`); },
  'path-browserify'(m, out) { for (const p of ['/a/b/../c.js', 'a//b/./', '', '/', '../x', 'a.b.c', '/..', '.x']) out(m.normalize(p), m.dirname(p), m.basename(p), m.basename(p, '.js'), m.extname(p), m.parse(p), m.isAbsolute(p), m.join(p, '..', 'q'), m.relative('/a/b', m.resolve('/', p)), m.format(m.parse(p))); },
  'readable-stream'(m, out) { const r = new m.Readable({ read() {} }); const tr = new m.Transform({ transform(c, e, cb) { cb(null, String(c).toUpperCase()); }, flush(cb) { this.push('!'); cb(); } }); const got = []; return new Promise((res) => { r.pipe(tr).on('data', (d) => got.push(String(d))).on('end', () => { out(got); const w = new m.Writable({ objectMode: true, highWaterMark: 1, write(c, e, cb) { out('w', c); setTimeout(cb, 0); } }); out(w.write(1), w.write(2)); w.end(3, () => { out('fin'); m.pipeline(m.Readable.from ? m.Readable.from(['x']) : r, new m.PassThrough(), (e) => { out(!!e); res(); }).resume(); }); }); r.push('a'); r.push('b'); r.push(null); }); },
  recast(m, out, t) { for (const p of t.programs.slice(0, 3)) try { const a = m.parse(p); m.visit(a, { visitLiteral(x) { this.traverse(x); }, visitIdentifier(x) { if (x.node.name === 'e') x.node.name = 'ee'; return false; } }); out(m.print(a).code, m.prettyPrint(a, { tabWidth: 2 }).code); } catch (e) { out(e.message); } },
  argparse(m, out) { const p = new m.ArgumentParser({ prog: 'x', addHelp: true, description: 'd', debug: true }); p.addArgument(['-f', '--foo'], { help: 'f', type: 'int', defaultValue: 3 }); p.addArgument(['bar'], { nargs: '*' }); p.addArgument(['--v'], { action: 'storeTrue' }); p.addArgument(['--c'], { choices: ['a', 'b'], action: 'append' }); const g = p.addMutuallyExclusiveGroup(); g.addArgument(['--p'], { action: 'count' }); g.addArgument(['--q']); for (const a of [[], ['-f', '5', 'x', 'y'], ['--v', '--c', 'a', '--c=b'], ['--foo=z'], ['--c', 'z'], ['--p', '--q', '1'], ['--nope']]) try { out(p.parseArgs(a)); } catch (e) { out(e.message); } out(p.formatHelp(), p.formatUsage()); },
  tapable(m, out) { const h = new m.SyncHook(['a']); h.tap('x', (a) => out(a)); h.tap({ name: 'y', before: 'x' }, (a) => out('y' + a)); h.intercept({ call: (a) => out('i' + a), register: (t) => t }); h.call(1); const w = new m.SyncWaterfallHook(['v']); w.tap('p', (v) => v + 1); w.tap('q', (v) => v * 2); out(w.call(3)); const b = new m.SyncBailHook(['v']); b.tap('p', () => void 0); b.tap('q', (v) => v); out(b.call(9)); const s = new m.AsyncSeriesHook(['v']); s.tapAsync('p', (v, cb) => cb()); s.tapPromise('q', () => Promise.resolve()); const l = new m.SyncLoopHook([]); let n = 0; l.tap('l', () => (++n < 3 ? true : void 0)); l.call(); out(n, h.isUsed()); return s.promise(1).then(() => new Promise((r) => { const pa = new m.AsyncParallelBailHook(['v']); pa.tapAsync('a', (v, cb) => cb(null, v)); pa.tap('b', (v) => 2); pa.callAsync(7, (e, x) => { out(x); r(); }); })); },
  'uri-js'(m, out) { for (const u of ['http://user:pw@EXAMPLE.com:80/a/../b?q=1#f', 'mailto:a@b.c?subject=x', 'urn:isbn:123', 'http://[::1]:8080/', '//x/y', '../z', 'HTTPS://日本.jp/é', 'ws://a/b', 'urn:uuid:F81D4FAE-7DEC-11D0-A765-00A0C91E6BF6', 'x:%zz']) try { const p = m.parse(u); out({ ...p }, m.serialize(p), m.normalize(u), m.resolve('http://a/b/c/d;p?q', u), m.equal(u, u.toUpperCase())); } catch (e) { out(e.message); } },
  picomatch(m, out) { for (const g of ['*.js', '**/a/*', '{a,b}.{js,ts}', '!(x)*', '[a-c]?', 'a/**', '+(a|b)', '!a.js', '', '**', '@(a|b)/c']) for (const s of ['a.js', 'x/a/b', 'b.ts', 'ab', 'a/b/c', '.x', 'b/c']) try { out(m.isMatch(s, g), m.isMatch(s, g, { dot: true, nocase: true, basename: true })); } catch (e) { out(e.message); } out(m.scan('!./foo/{a,b}/*.js', { tokens: true }), m.parse('a/{1..3}/*').output, m.makeRe('**/*.md').source); },
  'json-schema-traverse'(m, out) { m({ type: 'object', properties: { a: { items: [{ type: 'string' }, {}] }, b: { anyOf: [{}, { not: {} }] } }, definitions: { q: {} } }, { allKeys: true, cb: { pre: (s, p) => out(p), post: (s, p) => out('-' + p) } }); },
  'word-wrap'(m, out) { const s = 'The quick brown fox jumped over the lazy dog and then ran away.'; out(m(s), m(s, { width: 10, indent: '', trim: true }), m(s, { cut: true, width: 3, newline: '|' }), m(null), m('a'.repeat(60), { escape: (x) => x + '!' })); },
  'color-convert'(m, out) { for (const a of [[255, 0, 127], [0, 0, 0], [12, 200, 99]]) for (const k of Object.keys(m.rgb)) try { out(k, m.rgb[k](a), m.rgb[k].raw?.(a)); } catch (e) { out(e.message); } out(m.hex.rgb('abc'), m.keyword.hsl('blue'), m.lab.lch([50, 20, 30]), m.cmyk.rgb(10, 20, 30, 40), m.hsl.ansi256([200, 50, 50])); },
  clone(m, out) { const a = { d: new Date(0), r: /x/g, l: [1, { q: 2 }], n: null }; a.self = a; const b = m(a); out(b.l, b.self === b, b.d.getTime(), b.r.source, m([1]), m('s'), m.clonePrototype({ z: 1 }).z); },
  'deep-extend'(m, out) { out(m({ a: { b: 1 } }, { a: { c: new Date(0) }, l: [1, [2, { x: 1 }]] }, null, { r: /x/ }), m(), m(1)); },
  'strip-json-comments'(m, out) { for (const s of ['{"a":1 // x\n}', '/* b */[1]', '"//"', '{"a\\"//":1}', '//', '/*']) out(m(s), m(s, { whitespace: false })); },
  'node-int64'(M, out) { for (const a of [[1], ['0x123456789'], [0xffffffff, 0xfffffffe], [-5]]) { const x = new M(...a); out(x.toNumber(true), x.toString(16), x.toOctetString(' '), x.compare?.(new M(3)), x.valueOf(), x.inspect()); } },
  'stringify-object'(m, out) { out(m({ a: [1, { b: "it's" }], 'c-d': null, f: void 0, n: { o: new Date(0), p: Symbol.iterator } }, { indent: '  ', singleQuotes: false, inlineCharacterLimit: 12, filter: (o, k) => k !== 'f', transform: (o, k, v) => (k === 'a' ? v + '!' : v) }), m([]), m({})); },
  commander(m, out, t) { for (const a of [['-d', 'x'], ['--no-color', '--num', '5', 'run', 'a', 'b'], ['--nope'], ['--num'], ['help'], ['--list', 'a', 'b'], ['run']]) { const p = new m.Command(); p.exitOverride().configureOutput({ writeOut: (s) => out(s), writeErr: (s) => out(s) }); p.version('1.0').option('-d, --debug [v]', 'dbg', 'dflt').option('--no-color').option('--num <n>', 'n', (v) => +v).option('-l, --list <x...>'); p.command('run <a> [rest...]').description('r').action((x, y) => out('run', x, y)); p.command('x').action(() => out('x')); try { p.parse(a, { from: 'user' }); out(p.opts(), p.args); } catch (e) { out(e.code, e.message); } } },
  minimist(m, out) { for (const a of [['-a', '1', '--b=2', '--no-c', 'd'], ['-xyz3', '--', 'q'], ['--a.b.c', '5', '--a.b.d=x'], ['-n', '0x1f', '--s', '5'], ['--t', 'false']]) out(m(a), m(a, { string: ['s'], boolean: ['t', 'a'], alias: { n: ['num'] }, default: { z: 1 }, '--': true, stopEarly: true })); },
  co(m, out) { return m(function* () { out(yield Promise.resolve(1)); out(yield [Promise.resolve(2), function* () { return 3; }]); out(yield { a: Promise.resolve(4), b: 5 }); out(yield (cb) => cb(null, 6)); try { yield Promise.reject(new Error('r')); } catch (e) { out(e.message); } try { yield 5; } catch (e) { out(String(e.message).slice(0, 40)); } return 7; }).then((x) => { out(x); return m.wrap(function* (a) { return a; })(8); }).then((x) => out(x)); },
  'type-detect'(m, out) { for (const v of [1, 'x', [], {}, null, void 0, new Map(), new Set(), /x/, new Date(), () => 1, Symbol('a'), new Uint8Array(1), Promise.resolve(), (function () { return arguments; })(), new WeakMap(), [][Symbol.iterator](), JSON, Math]) out(m(v)); },
  kleur(m, out) { m.enabled = true; out(m.red('x'), m.bold().red('y'), m.bgBlue().white().underline('z'), m.green('a' + m.red('b') + 'c')); m.enabled = false; out(m.red('x')); },
  'lodash.groupby'(m, out) { out(m([1.2, 1.7, 2.1], Math.floor), m(['a', 'bb', 'cc'], 'length'), m({ x: { q: 1 }, y: { q: 2 } }, 'q'), m([{ a: { b: 1 } }], 'a.b'), m([{ a: 1, b: 2 }], { a: 1 }), m([[1, 2]], [0, 1]), m(null)); },
  'uglify-js'(m, out, t) { for (const p of t.programs.slice(0, 3)) for (const o of [{}, { compress: false, mangle: true, output: { beautify: true } }]) { const r = m.minify(p, o); out(r.error ? r.error.message : r.code); } },
};
export const names = Object.keys(PACKAGES);

const fnNames = (s) => s.replace(/\[(?:async|generator|class|Function|AsyncFunction|GeneratorFunction|AsyncGeneratorFunction)\b[^\]]*\]/gi, '[fn]');
export const show = (v) => { try { return fnNames(typeof v === 'string' ? v : util.inspect(v, { depth: 5, maxArrayLength: 60, maxStringLength: 400, breakLength: Infinity })).replace(/\n\s+at [^\n]*/g, ''); } catch (e) { return '<' + e.message + '>'; } };
const blank = (c) => c.replace(/istanbul(?=\s+ignore)/g, 'xxxxxxxx');

/** resolution as node's, for what the realm's modules require */
function resolver(from) { const r = createRequire(from); return (s) => { try { return r.resolve(s); } catch { return null; } }; }

/** one run of a package; texts: file -> text to run (default: the file itself) */
async function runPackage(name, textOf, tools, { hits = null, covVar = '__coverage__' } = {}) {
  const log = []; const loaded = [];
  const timers = []; const sandbox = { console: { log() {}, error() {}, warn() {}, info() {} }, setTimeout: (f, n, ...a) => { const t = setTimeout(f, n, ...a); timers.push(t); return t; }, clearTimeout, setImmediate, clearImmediate, setInterval: () => 0, clearInterval() {}, queueMicrotask, Buffer, URL, URLSearchParams, TextEncoder, TextDecoder, AbortController, performance: { now: () => 0 } };
  sandbox.process = { env: {}, argv: ['node', 'x'], platform: 'linux', pid: 1, version: process.version, versions: process.versions, cwd: () => '/', nextTick: (f, ...a) => queueMicrotask(() => f(...a)), emitWarning() {}, stdout: { isTTY: false, write() {} }, stderr: { isTTY: false, write() {} }, on() {}, once() {}, exit(c) { throw new Error('exit ' + c); }, hrtime: () => [0, 0], binding() { throw new Error('no'); }, browser: false, release: { name: 'node' } };
  const ctx = vm.createContext(sandbox);
  vm.runInContext('Function.prototype.toString = function() { return "function () { [code] }"; }; Math.random = (() => { let x = 7; return () => (x = (x * 16807) % 2147483647) / 2147483647; })();', ctx);
  if (hits) vm.runInContext('(function(hits){ const OP = Object.prototype, gpo = Object.getPrototypeOf, isA = Array.isArray, keys = Object.keys; Object.defineProperty(globalThis, "$p", {value: function(id) { hits[id] = (hits[id] || 0) + 1; return []; }}); Object.defineProperty(globalThis, "$q", {value: function(id, v) { if (v && (!isA(v) || v.length) && (gpo(v) !== OP || keys(v).length)) hits[id] = (hits[id] || 0) + 1; return v; }}); })', ctx)(hits);
  const cache = new Map();
  function load(file) {
    if (cache.has(file)) return cache.get(file).exports;
    if (file.endsWith('.json')) { const m = { exports: vm.runInContext('JSON.parse', ctx)(fs.readFileSync(file, 'utf8')) }; cache.set(file, m); return m.exports; }
    const m = vm.runInContext('({exports: {}})', ctx); m.id = m.filename = file; m.loaded = false; m.children = []; m.paths = []; cache.set(file, m); loaded.push(file);
    const res = resolver(file);
    const require = (s) => { if (s.startsWith('node:') || createRequire(file).resolve.paths(s) === null) return req(s); const p = res(s); if (!p) { const e = new Error(`Cannot find module '${s}'`); e.code = 'MODULE_NOT_FOUND'; throw e; } return load(p); };
    require.resolve = (s) => res(s); require.cache = {}; require.main = undefined; require.extensions = {};
    const f = vm.compileFunction(textOf(file), ['exports', 'require', 'module', '__filename', '__dirname'], { parsingContext: ctx, filename: file });
    f.call(m.exports, m.exports, require, m, file, path.dirname(file)); m.loaded = true;
    return m.exports;
  }
  const out = (...a) => { for (const x of a) log.push(show(x)); };
  try {
    const m = load(req.resolve(name));
    const drive = vm.runInContext('(' + PACKAGES[name].toString().replace(/^(?:'[^']*'|[\w$]+)?\s*\(/, 'function (') + ')', ctx);
    const tk = tools(ctx); const p = drive(m, out, tk);
    if (p && typeof p.then === 'function') await Promise.race([p, new Promise((r) => setTimeout(() => { log.push('async timeout'); r(); }, 4000))]);
    for (let i = 0; i < 4; i++) await new Promise((r) => setImmediate(r));
  } catch (e) { log.push('threw ' + (e instanceof SyntaxError ? 'SyntaxError ' : '') + show(e && e.message)); }
  for (const t of timers) clearTimeout(t);
  let cov = null; try { cov = vm.runInContext(`globalThis[${JSON.stringify(covVar)}] ? JSON.stringify(globalThis[${JSON.stringify(covVar)}], (k, v) => /_temp$/.test(k) ? undefined : v) : null`, ctx); } catch (e) { log.push('coverage ' + e.message); }
  return { log, loaded, cov: cov && JSON.parse(cov) };
}
/** all of one package: deviations by category, as evalProgram */
export async function evalPackage(h, name, seed, { reportLogic = false, structure = false } = {}) {
  const texts = new Map(); const text = (f) => { let t = texts.get(f); if (t === undefined) texts.set(f, (t = blank(fs.readFileSync(f, 'utf8').replace(/^#!.*/, '')))); return t; };
  const rnd = { n: 0 };
  const tools = (ctx) => {
    let x = 1 + (seed * 7919) % 100003; const next = () => (x = (x * 16807) % 2147483647);
    const programs = [0, 1, 2, 3].map((k) => generate(`real/${name}/${seed}/${k}`, { sourceType: k % 2 ? 'module' : 'script', size: 30, classes: k > 1 }).code);
    const asts = []; for (const p of programs) try { asts.push(analyze(p, 'script').ast); } catch {}
    const plain = JSON.stringify(asts, (k, v) => (typeof v === 'bigint' ? null : k === 'loc' ? undefined : v));
    return vm.runInContext('(function(j, pick, int){ const o = JSON.parse(j); o.pick = (l) => l[int(l.length)]; o.int = int; return o; })', ctx)(JSON.stringify({ programs, asts: JSON.parse(plain) }), null, (n) => next() % n);
  };
  const r0 = await runPackage(name, text, tools);
  const again = await runPackage(name, text, tools);
  if (r0.log.some((l) => /^threw SyntaxError/.test(l)) || JSON.stringify(r0.log) !== JSON.stringify(again.log)) return { status: 'skip', why: r0.log.join() === again.log.join() ? 'does not load' : 'not deterministic', dev: [] };
  const as = new Map(); let base = 0;
  for (const f of r0.loaded) { let a; try { a = analyze(text(f), 'commonjs', { reportLogic, probeBase: base }); } catch (e) { return { status: 'skip', why: 'not valid: ' + f, dev: [] }; } base = a.nprobes; as.set(f, a); }
  const hits = []; for (let i = 0; i < base; i++) hits.push(0);
  const r1 = await runPackage(name, (f) => as.get(f)?.probed ?? text(f), tools, { hits });
  if (JSON.stringify(r0.log) !== JSON.stringify(r1.log)) { let j = 0; while (r0.log[j] === r1.log[j]) j++; return { status: 'skip', why: 'probes interfere', detail: [r0.log[j], r1.log[j]], dev: [] }; }
  const outs = new Map(); const dev = []; let checked = 0, events = 0, sites = 0;
  for (const f of r0.loaded) { const q = await h.call({ op: 'instrument', code: text(f), filename: f, source_type: 'commonjs', options: reportLogic ? { reportLogic: true } : {} }); if (!q.ok) { if (q.panic || q.crash) dev.push({ cat: 'panic', sig: 'panic', detail: { f, q } }); return { status: dev.length ? 'ok' : 'skip', why: 'swc: ' + f, dev }; } outs.set(f, q.code); }
  const r2 = await runPackage(name, (f) => outs.get(f) ?? text(f), tools);
  if (JSON.stringify(r0.log) !== JSON.stringify(r2.log)) {
    const plain = new Map(); for (const f of r0.loaded) { const q = await h.call({ op: 'plain', code: text(f), filename: f, source_type: 'commonjs' }); plain.set(f, q.code); }
    const rp = await runPackage(name, (f) => plain.get(f) ?? text(f), tools);
    if (JSON.stringify(rp.log) !== JSON.stringify(r0.log)) return { status: 'skip', why: 'swc printer', dev: [] };
    let j = 0; while (r0.log[j] === r2.log[j]) j++; dev.push({ cat: 'behaviour', sig: 'behaviour of package', detail: { package: name, at: j, before: (r0.log[j] ?? '').slice(0, 300), after: (r2.log[j] ?? '').slice(0, 300) } });
    return { status: 'ok', dev, files: r0.loaded.length, checked, events, log: r0.log.length };
  }
  for (const f of r0.loaded) {
    const cov = r2.cov?.[f]; if (!cov) { dev.push({ cat: 'nocov', sig: 'no coverage', detail: { f } }); continue; }
    const c = compareCounts(as.get(f), hits, cov, text(f), { reportLogic }); for (const d of c.dev) dev.push({ ...d, detail: { file: f, ...d.detail } }); checked += c.checked; events += c.events;
    if (structure) {
      const raw = await h.call({ op: 'instrument', code: text(f), filename: f, source_type: 'commonjs', passes: false, options: { ...(reportLogic ? { reportLogic: true } : {}), debugInitialCoverageComment: true } });
      const st = compareStructure(cov, raw.code ?? '', raw.cov_comments?.[0] ? JSON.parse(raw.cov_comments[0]) : null); sites += st.sites; for (const d of st.dev) dev.push({ ...d, detail: { file: f, ...d.detail } });
    }
  }
  return { status: 'ok', dev, files: r0.loaded.length, checked, events, sites, log: r0.log.length };
}
