import { plugin, instrumented, expect } from './demo.mjs';
const code = 'var a = 1;';
const r = plugin({ code, filename: '/a/b.js', config: '{}' }, { code, filename: 'C:\\x\\b.test.js', config: JSON.stringify({ unstableExclude: ['**/*.test.js'] }) }, { code, config: 'nope' });
expect('x', r.map(instrumented), [true, false, true]);
