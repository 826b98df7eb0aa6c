// Streaming bridge to the JavaScript implementation.
// usage: node server.js DIR [demo_page.js]
// request line:  op \t settings[,settings...] \t input     (settings: cSAFC21rgz letters, as in the Rust CLI)
// The line "END" closes a batch; the answers of the batch are then written, one per
// request and setting:  OK \t fields...   or   ERR \t ErrorName
'use strict';
const fs = require('fs'), vm = require('vm'), path = require('path');
const dir = process.argv[2];
const first = ['data', 'rafsi', 'exceptions', 'tarmi', 'tools', 'jvozba', 'katna'];
const extra = fs.readdirSync(dir).filter(f => f.endsWith('.js')).map(f => f.slice(0, -3))
  .filter(f => !first.includes(f)).sort();
const order = ['data', ...extra, ...first.slice(1)];
let src = order.map(f => fs.readFileSync(path.join(dir, f + '.js'), 'utf8')).join('\n');
src += '\n;globalThis.__api = {};';
for (const n of ['analyseBrivla', 'isBrivla', 'getVeljvo', 'getLujvo', 'getLujvoWithAnalytics', 'getRafsiIndices',
  'scoreLujvo', 'searchSelrafsiFromRafsi', 'RAFSI_LIST', 'SETTINGS', 'makeSettingsIterator'])
  src += `\n__api.${n} = typeof ${n} === 'undefined' ? undefined : ${n};`;
const script = new vm.Script(src);
script.runInThisContext();
const MAIN = globalThis.__api;
let A = MAIN;
function fresh(f) {                                        // f with a library loaded anew
  const c = vm.createContext({});
  script.runInContext(c);
  A = c.__api;
  try { return f(); } finally { A = MAIN; }
}
const cache = new Map();
function settings(s) {
  let o = cache.get(s);
  if (!o) {
    o = {
      generateCmevla: s.includes('c'),
      yHyphens: s.includes('A') ? 'ALLOW_Y' : s.includes('F') ? 'FORCE_Y' : 'STANDARD',
      expRafsiShapes: s.includes('r'),
      consonants: s.includes('2') ? 'TWO_CONSONANTS' : s.includes('1') ? 'ONE_CONSONANT' : 'CLUSTER',
      glides: s.includes('g'), allowMZ: s.includes('z')
    };
    if (s.includes('-'))                                   // defaults left out
      for (const k of Object.keys(o)) if ([false, 'STANDARD', 'CLUSTER'].includes(o[k])) delete o[k];
    cache.set(s, o);
  }
  return { ...o };
}
let watch = null;                                          // the arguments and results of the last call
function seen(r, ...args) { if (watch !== null) watch.push([r, args]); return r; }
function call(f, ...args) {
  const before = JSON.stringify(args);
  const done = () => { if (JSON.stringify(args) !== before) throw Object.assign(new Error(), { name: 'ARGUMENT-CHANGED' }); };
  let r;
  try { r = f(...args); } catch (e) { done(); throw e; }
  done();
  return seen(r, ...args);
}
function trash(x) {
  if (Array.isArray(x)) { x.forEach(trash); x.push('trashed'); x.reverse(); x[0] = 'xx'; }
  else if (x && typeof x === 'object') for (const k of Object.keys(x)) x[k] = 'trashed';
}
function step(op, s, input) {
  try { return 'OK\t' + run(op, s, input); } catch (e) { return 'ERR\t' + ((e && e.name) || 'Error'); }
}
function history(h) {                                      // [[op, settings, input, trash?], ...] in a fresh library
  return fresh(() => {
    const state = () => run('T', '', '') + run('N', '', '') + JSON.stringify(A.SETTINGS);
    const before = state();
    const out = h.map(([op, s, input, t]) => {
      watch = [];
      const a = step(op, s, input);
      if (t) for (const [r, args] of watch) { trash(r); args.forEach(trash); }
      watch = null;
      return a;
    });
    out.push(state() === before ? 'same' : 'TABLES-CHANGED');
    return JSON.stringify(out);
  });
}
const LISTS = { S: () => A.SETTINGS, L: () => [['A', 'B'], [0, 1, 2]], E: () => [['A'], []], O: () => [] };
function iterators(h) {                                    // list letter, then n: new, digit: next of that one, m: spoil the last value
  const list = LISTS[h[0]](), its = [], out = [];
  let last = null;
  for (const c of h.slice(1)) {
    if (c === 'n') { its.push(A.makeSettingsIterator(list)); }
    else if (c === 'm') { if (last) { last[0] = 'xx'; last.push('xx'); } }
    else { const r = its[+c].next(); last = r.value; out.push(r.done ? '.' : r.value.join('/')); }
  }
  return out.join(' ');
}
function analytics(t, s) {
  const [w, sc, ix] = call(A.getLujvoWithAnalytics, t, s);
  return w + '\t' + sc + '\t' + ix.map(x => x.join('-')).join(',');
}
function run(op, s, input) {
  switch (op) {
    case 'A': { const [t, p] = call(A.analyseBrivla, input, settings(s)); return t + '\t' + p.join('|'); }
    case 'B': return call(A.isBrivla, input, settings(s)) === true ? 'true' : 'false';
    case 'V': return call(A.getVeljvo, input, settings(s)).join('|');
    case 'S': return String(call(A.scoreLujvo, input, settings(s)));
    case 'L': return analytics(input, settings(s));
    case 'M': return analytics(input === '' ? [] : input.split('|'), settings(s));
    case 'G': return call(A.getLujvo, input, settings(s));
    case 'D': {                                            // defaults: no options object at all
      if (input.includes(' ')) return A.getLujvo(input);
      const [t, p] = A.analyseBrivla(input); return t + '\t' + p.join('|');
    }
    case 'R': { const r = A.searchSelrafsiFromRafsi(input); return r === null || r === undefined ? '' : r; }
    case 'I': return call(A.getRafsiIndices, input.split('|')).map(x => x.join('-')).join(',');
    case 'T': return [...A.RAFSI_LIST.entries()].map(([k, v]) => k + '=' + v.join(',')).sort().join(';');
    case 'N': {                                            // settings iterator
      const it = A.makeSettingsIterator(A.SETTINGS); const out = [];
      for (let r = it.next(); !r.done && out.length < 1000; r = it.next()) out.push(r.value.join('/'));
      return out.join(' ');
    }
  }
  if (op === 'H') return history(JSON.parse(input));
  if (op === 'K') return fresh(() => iterators(input));
  throw new Error('bad op ' + op);
}
function write(str) {
  const buf = Buffer.from(str, 'utf8');
  let off = 0;
  while (off < buf.length) { try { off += fs.writeSync(1, buf, off); } catch (e) { if (e.code !== 'EAGAIN') throw e; } }
}
const unesc = x => x.includes('\\') ? JSON.parse('"' + x + '"') : x;
function answer(lines) {
  const out = [];
  for (const l of lines) {
    const [op, ss, raw] = l.split('\t');
    const input = unesc(raw);
    for (const s of ss.split(',')) {
      try { out.push('OK\t' + run(op, s, input)); }
      catch (e) { out.push('ERR\t' + ((e && e.name) || 'Error')); }
    }
  }
  out.push('');
  write(out.join('\n'));
}
const chunk = Buffer.alloc(1 << 20);
let pend = [], lines = [];
const { StringDecoder } = require('string_decoder');
const dec = new StringDecoder('utf8');
let rest = '';
for (;;) {
  let n;
  try { n = fs.readSync(0, chunk, 0, chunk.length, null); }
  catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') break; throw e; }
  if (n === 0) break;
  const parts = (rest + dec.write(chunk.subarray(0, n))).split('\n');
  rest = parts.pop();
  for (const p of parts) {
    if (p === 'END') { answer(lines); lines = []; }
    else if (p !== '') lines.push(p);
  }
}
