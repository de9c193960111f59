import { buildHarness, buildPlugin } from './build.mjs';
for (const f of [buildHarness, buildPlugin]) { const b = f(); if (!b) process.exit(1); console.log('built', b); }
