// Strings as they occur in paths, composed at random.
const PRE = ['', '', '/', '/', './', '../', '../../', '/./', '//', 'C:\\', 'c:/', '\\\\srv\\s\\', 'file:///', 'webpack:///', 'webpack://app/./', 'http://h/', '~/', '@scope/', '<', ' ', '\t', '.\\', './/', '\0', '#', '?', '"', '-', '.'];
const SEG = ['src', 'Src', 'lib', 'node_modules', '.', '..', 'a b', 'é', 'e\u0301', '日本', '😀', 'x%20y', '[id]', '(group)', '$x', '#h', '__tests__', 'dist', 'index', 'a', 'b', 'A', '*', '{a,b}', 'x.y', '.hidden', 'a\\b', "o'k", 'q"q', '`t`', '${v}', '<!--', '*/', '', 'null', '0', 'very'.repeat(20)];
const EXT = ['.js', '.js', '.js', '.ts', '.JS', '.test.js', '', '.min.js', '.mjs', '/', ' ', '.js?v=1', '.js#h', '.js ', '.vue?vue&type=script', '.d.ts', '.', '\\', '\n', '>', '.js.map', '.js/..'];
export function pathish(r) {
  const n = r.range(0, 4), sep = r.p(0.85) ? '/' : '\\';
  return r.pick(PRE) + Array.from({ length: n }, () => r.pick(SEG)).concat(r.pick(['index', 'f', 'a', 'Main', '日'])).join(sep) + r.pick(EXT);
}
/** a path which is easily taken for the same, or is another name of the same file */
export function near(r, path) {
  return r.pick([
    (p) => (/^[A-Za-z]:/.test(p) ? (p[0] === p[0].toUpperCase() ? p[0].toLowerCase() : p[0].toUpperCase()) + p.slice(1) : 'C:' + p), (p) => p.toLowerCase(), (p) => p.toUpperCase(), (p) => p.replace(/[a-z]/, (c) => c.toUpperCase()),
    (p) => p.replace(/\//g, '\\'), (p) => p.replace(/\\/g, '/'), (p) => p.replace(/^\.\//, ''), (p) => './' + p, (p) => p.replace(/^\//, ''), (p) => '/' + p, (p) => p + '/', (p) => p + ' ', (p) => ' ' + p, (p) => p.trim(),
    (p) => p.normalize('NFD'), (p) => p.normalize('NFC'), (p) => encodeURI(p), (p) => 'file://' + p, (p) => p + '?v=1', (p) => p.replace(/[?#].*$/s, ''), (p) => p.replace(/\/([^/]*)$/, '/./$1'), (p) => p.replace(/\/([^/]*)$/, '//$1'), (p) => [...p].slice(0, -1).join(''), (p) => p + '\0', (p) => p.slice(p.lastIndexOf('/') + 1),
  ])(path);
}
/** names of variables, and expressions which are not */
export function variableish(r) {
  return r.weighted([[3, ''], [1, 'window.'], [1, 'globalThis.'], [1, 'self.'], [1, 'this.'], [0.5, 'global.'], [0.5, '$'], [0.5, ' '], [0.5, '"'], [0.5, '__'], [0.5, '#']]) + r.pick(['cov', '__coverage__', 'coverage-data', 'my cov', 'a.b', 'x[0]', 'é', '日本', '😀', 'class', 'return', '0', '1e3', 'f()', '${x}', 'a\nb', "it's", '\u2028']) + r.weighted([[4, ''], [1, '__'], [0.5, ' '], [0.5, ';'], [0.5, '\\'], [0.5, '$']]);
}
