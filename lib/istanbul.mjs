// The reference implementation: istanbul-lib-instrument / istanbul-lib-coverage, as installed.
import { createRequire } from 'node:module';
const req = createRequire('/opt/veriftools/node/node_modules/');
export const ili = req('istanbul-lib-instrument');
export const ilc = req('istanbul-lib-coverage');
export const acorn = req('acorn');
let jsxParser = null;
export const acornJsx = () => (jsxParser ??= acorn.Parser.extend(req('acorn-jsx')()));
export const ts = () => req('typescript');
export function istanbulInstrument(code, filename, { sourceType = 'script', options = {}, plugins = [] } = {}) {
  const ins = ili.createInstrumenter({
    esModules: sourceType === 'module', compact: false, produceSourceMap: false, autoWrap: false,
    coverageVariable: options.coverageVariable ?? '__coverage__', reportLogic: options.reportLogic ?? false,
    ignoreClassMethods: options.ignoreClassMethods ?? [],
    parserPlugins: ['asyncGenerators', 'dynamicImport', 'objectRestSpread', 'optionalCatchBinding', 'topLevelAwait', 'classProperties', 'classPrivateProperties', 'classPrivateMethods', ...plugins],
  });
  const out = ins.instrumentSync(code, filename);
  return { code: out, cov: ins.lastFileCoverage() };
}
