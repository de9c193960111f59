import { plugin } from './plugin.mjs';
import { programs } from './programs.mjs';
import { oxide } from './oxide.mjs';
import { hints } from './hints.mjs';
import { files } from './files.mjs';
import { data } from './data.mjs';
import { modules } from './modules.mjs';
import { totality } from './totality.mjs';
const sources = [programs, oxide, hints, files, data, modules, totality, plugin];
export async function loadProp(id) {
  for (const s of sources) if (s[id]) return s[id];
  throw new Error('unknown property ' + id);
}
export const ids = () => sources.flatMap((s) => Object.keys(s)).sort();
