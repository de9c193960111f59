// Real programs: the JavaScript and TypeScript sources installed with the tools of this sandbox.
import fs from 'node:fs';
import path from 'node:path';
const ROOTS = ['/opt/veriftools/node/node_modules', '/usr/share/javascript'];
let lists = null;
/** sorted lists of files by kind: js, ts, dts, jsx, tsx; one per distinct size and name */
export function corpus() {
  if (lists) return lists;
  lists = { js: [], ts: [], dts: [], jsx: [], tsx: [] }; const seen = new Set();
  const walk = (d) => {
    let es; try { es = fs.readdirSync(d, { withFileTypes: true }); } catch { return; }
    es.sort((a, b) => (a.name < b.name ? -1 : 1));
    for (const e of es) {
      const p = path.join(d, e.name);
      if (e.isDirectory()) { if (e.name !== '.bin') walk(p); continue; }
      if (!e.isFile()) continue;
      const k = /\.d\.[cm]?ts$/.test(e.name) ? 'dts' : /\.[cm]?js$/.test(e.name) ? 'js' : /\.[cm]?ts$/.test(e.name) ? 'ts' : /\.jsx$/.test(e.name) ? 'jsx' : /\.tsx$/.test(e.name) ? 'tsx' : null;
      if (!k) continue;
      let size; try { size = fs.statSync(p).size; } catch { continue; }
      if (size < 40 || size > 160000 || seen.has(e.name + size)) continue;
      seen.add(e.name + size); lists[k].push(p);
    }
  };
  for (const r of ROOTS) walk(r);
  return lists;
}
export const read = (p) => fs.readFileSync(p, 'utf8');
