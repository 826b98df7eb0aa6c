// Drives the demo page (index.html's own scripts) in a stub DOM with a virtual clock.
// usage: node demo.js REPO; request: one JSON list of events per line, "END" closes a batch
// events: ["type", text]  ["click", id]  ["wait", ms]
// answer: OK \t pattern of the options shown   or   ERR \t what is wrong
'use strict';
const fs = require('fs'), vm = require('vm'), path = require('path');
const repo = process.argv[2];
const html = fs.readFileSync(path.join(repo, 'index.html'), 'utf8').replace(/<!--[^]*?-->/g, '');
const scripts = [...html.matchAll(/<script\b[^>]*\bsrc="([^"]*)"/g)].map(m => m[1]);
const read = f => fs.readFileSync(path.join(repo, f), 'utf8');
const isPage = f => /demo_page/.test(f);
const lib = scripts.filter(f => !isPage(f)).map(f => new vm.Script(read(f), { filename: f }));
const page = scripts.filter(isPage).map(f => new vm.Script('(function(){' + read(f) + '\n}).call(globalThis);', { filename: f }));
const elementsIn = [...html.replace(/<(script|style)\b[^]*?<\/\1>/g, '').matchAll(/<([a-z0-9]+)\b([^>]*)>/g)].map(m => {
  const attrs = {};
  for (const a of m[2].matchAll(/([\w-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) attrs[a[1]] = a[2] ?? a[3] ?? a[4] ?? '';
  return { tag: m[1], attrs };
});

// ------------------------------------------------------------------ stub DOM
const esc = s => String(s).replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
class Target {
  constructor() { this.listeners = []; }
  addEventListener(type, f, o) {
    if (f && !this.listeners.some(l => l[0] === type && l[1] === f)) this.listeners.push([type, f, o && o.once]);
  }
  removeEventListener(type, f) { this.listeners = this.listeners.filter(l => l[0] !== type || l[1] !== f); }
  fire(type, ev) {
    for (const l of [...this.listeners]) if (l[0] === type) {
      if (l[2]) this.removeEventListener(type, l[1]);
      ev.currentTarget = this;
      typeof l[1] === 'function' ? l[1].call(this, ev) : l[1].handleEvent(ev);
    }
    if (typeof this['on' + type] === 'function') this['on' + type](ev);
  }
  dispatchEvent(ev) { send(this, ev.type); return true; }
}
class Element extends Target {
  constructor(tag, attrs = {}) {
    super();
    this.tagName = tag.toUpperCase(); this.attributes_ = { ...attrs }; this.nodes = []; this.style = {}; this.dataset = {};
    this.value = attrs.value ?? '';
    const self = this;
    this.classList = {
      list: () => self.className.split(/\s+/).filter(Boolean),
      contains(c) { return this.list().includes(c); },
      add(...cs) { self.className = [...new Set([...this.list(), ...cs])].join(' '); },
      remove(...cs) { self.className = this.list().filter(c => !cs.includes(c)).join(' '); },
      toggle(c, force) {
        const on = force === undefined ? !this.contains(c) : !!force;
        on ? this.add(c) : this.remove(c); return on;
      },
      replace(a, b) { if (!this.contains(a)) return false; this.remove(a); this.add(b); return true; }
    };
  }
  get id() { return this.attributes_.id ?? ''; } set id(v) { this.attributes_.id = String(v); }
  get className() { return this.attributes_.class ?? ''; } set className(v) { this.attributes_.class = String(v); }
  get colSpan() { return +(this.attributes_.colspan ?? 1); } set colSpan(v) { this.attributes_.colspan = String(v); }
  get rowSpan() { return +(this.attributes_.rowspan ?? 1); } set rowSpan(v) { this.attributes_.rowspan = String(v); }
  setAttribute(k, v) { this.attributes_[k.toLowerCase()] = String(v); }
  getAttribute(k) { return this.attributes_[k.toLowerCase()] ?? null; }
  hasAttribute(k) { return k.toLowerCase() in this.attributes_; }
  removeAttribute(k) { delete this.attributes_[k.toLowerCase()]; }
  toggleAttribute(k, f) { (f ?? !this.hasAttribute(k)) ? this.setAttribute(k, '') : this.removeAttribute(k); }
  get innerHTML() { return this.nodes.map(n => n instanceof Element ? n.outerHTML : n).join(''); }
  set innerHTML(v) { this.nodes = v === '' || v === null ? [] : [String(v)]; }
  get outerHTML() {
    const t = this.tagName.toLowerCase();
    if (t === '#fragment') return this.innerHTML;
    const a = Object.entries(this.attributes_).map(([k, v]) => ` ${k}="${v}"`).join('');
    return t === 'br' ? `<br${a}>` : `<${t}${a}>${this.innerHTML}</${t}>`;
  }
  get textContent() { return this.innerHTML.replace(/<[^>]*>/g, ''); }
  set textContent(v) { this.nodes = v === '' ? [] : [esc(v)]; }
  get innerText() { return this.textContent; } set innerText(v) { this.nodes = [esc(v).replace(/\n/g, '<br>')]; }
  get firstChild() { return this.nodes[0] ?? null; } get lastChild() { return this.nodes[this.nodes.length - 1] ?? null; }
  get children() { return this.nodes.filter(n => n instanceof Element); }
  get childNodes() { return this.nodes; }
  put(x) {
    if (x instanceof Element) {
      if (x.tagName === '#FRAGMENT') { this.nodes.push(...x.nodes); x.nodes = []; } else { x.remove(); x.parent = this; this.nodes.push(x); }
    } else this.nodes.push(esc(x));
  }
  appendChild(x) { this.put(x); return x; }
  append(...xs) { xs.forEach(x => this.put(x)); }
  replaceChildren(...xs) { this.nodes = []; this.append(...xs); }
  removeChild(x) { this.nodes = this.nodes.filter(n => n !== x); return x; }
  remove() { if (this.parent) this.parent.removeChild(this); }
  insertAdjacentHTML(where, h) { where === 'afterbegin' ? this.nodes.unshift(h) : this.nodes.push(h); }
  create(tag) { const e = new Element(tag); this.put(e); return e; }
  createTHead() { return this.create('thead'); } createTBody() { return this.create('tbody'); }
  insertRow() { return this.create('tr'); } insertCell() { return this.create('td'); }
  focus() { } blur() { } click() { send(this, 'click'); }
}
let now, timers, nextTimer, windowT, documentT, elements;
function send(el, type) {
  const ev = { type, target: el, preventDefault() { }, stopPropagation() { } };
  el.fire(type, ev); documentT.fire(type, ev); windowT.fire(type, ev);
}
function setTimer(f, ms, every, args) {
  const id = nextTimer++;
  timers.set(id, { at: now + Math.max(0, +ms || 0), f, every: every ? Math.max(1, +ms || 0) : 0, args, id });
  return id;
}
function advance(to) {                                     // run the timers due by then; false if there is no end of them
  for (let n = 0; n < 500; n++) {
    let best = null;
    for (const t of timers.values()) if (t.at <= to && (!best || t.at < best.at || t.at === best.at && t.id < best.id)) best = t;
    if (!best) { if (to !== Infinity) now = to; return true; }
    now = Math.max(now, best.at);
    if (best.every) best.at = now + best.every; else timers.delete(best.id);
    best.f(...best.args);
  }
  return false;
}
const ctx = vm.createContext({ console: { log() { }, error() { }, warn() { }, debug() { } } });
function boot() {
  now = 0; timers = new Map(); nextTimer = 1;
  windowT = new Target(); documentT = new Target(); elements = new Map();
  for (const { tag, attrs } of elementsIn) if (attrs.id && !elements.has(attrs.id)) elements.set(attrs.id, new Element(tag, attrs));
  Object.assign(documentT, {
    readyState: 'loading', body: new Element('body'),
    getElementById: id => elements.get(id) ?? null,
    querySelector: q => q[0] === '#' ? elements.get(q.slice(1)) ?? null : [...elements.values()].find(e => e.tagName === q.toUpperCase()) ?? null,
    querySelectorAll: q => q[0] === '#' ? [elements.get(q.slice(1))].filter(Boolean)
      : [...elements.values()].filter(e => q[0] === '.' ? e.classList.contains(q.slice(1)) : e.tagName === q.toUpperCase()),
    createElement: t => new Element(t), createTextNode: s => String(s), createDocumentFragment: () => new Element('#fragment')
  });
  const tm = {
    setTimeout: (f, ms, ...a) => setTimer(f, ms, false, a), clearTimeout: id => { timers.delete(id); },
    setInterval: (f, ms, ...a) => setTimer(f, ms, true, a), clearInterval: id => { timers.delete(id); },
    requestAnimationFrame: f => setTimer(() => f(now), 16, false, []), cancelAnimationFrame: id => { timers.delete(id); },
    queueMicrotask: f => setTimer(f, 0, false, []), performance: { now: () => now }
  };
  Object.assign(windowT, tm, { document: documentT });
  Object.assign(ctx, tm, {
    document: documentT, window: windowT,
    addEventListener: windowT.addEventListener.bind(windowT), removeEventListener: windowT.removeEventListener.bind(windowT)
  });
  for (const s of page) s.runInContext(ctx);
  documentT.readyState = 'interactive';
  const ev = { type: 'DOMContentLoaded', target: documentT };
  documentT.fire('DOMContentLoaded', ev); windowT.fire('DOMContentLoaded', ev);
  documentT.readyState = 'complete';
  windowT.fire('load', { type: 'load', target: documentT });
}
// the library, loaded once; its answers are remembered so that long histories stay cheap
boot0();
function boot0() {
  windowT = new Target(); documentT = new Target();
  Object.assign(ctx, { document: documentT, window: windowT });
  for (const s of lib) s.runInContext(ctx);
}
const api = {};
for (const n of ['analyseBrivla', 'getLujvo', 'getVeljvo']) api[n] = vm.runInContext(n, ctx);
for (const n of ['analyseBrivla', 'getLujvo', 'getLujvoWithAnalytics', 'getVeljvo', 'selrafsiListFromRafsiList', 'scoreLujvo', 'isBrivla']) {
  const f = ctx[n], memo = new Map();
  if (typeof f !== 'function') continue;
  ctx[n] = function (...args) {
    const key = JSON.stringify(args);
    let r = memo.get(key);
    if (r === undefined) {
      try { r = { v: JSON.stringify(f(...args)) }; } catch (e) { r = { e }; }
      if (memo.size > 60000) memo.clear();
      memo.set(key, r);
    }
    if (r.e) throw r.e;
    return r.v === undefined ? undefined : vm.runInContext('JSON', ctx).parse(r.v);
  };
}

// -------------------------------------------------------------------- oracle
const OPTIONS = [['STANDARD', 'ALLOW_Y', 'FORCE_Y'], [false, true], ['CLUSTER', 'TWO_CONSONANTS', 'ONE_CONSONANT'], [false, true], [false, true]];
const NAMES = {
  STANDARD: [0, 0], ALLOW_Y: [0, 1], FORCE_Y: [0, 2], STD_RAF: [1, 0], EXP_RAF: [1, 1], CLUSTER: [2, 0], '2_CON': [2, 1],
  '1_CON': [2, 2], NO_GLIDE: [3, 0], GLIDE: [3, 1], NOMZ: [4, 0], MZ: [4, 1]
};
const COMBOS = [];
for (let i = 0; i < 72; i++) {
  const c = []; let b = i;
  for (const o of OPTIONS) { c.push(b % o.length); b = Math.floor(b / o.length); }
  COMBOS.push(c);
}
const answers = new Map();
function answer(text, cmevla) {                            // what each of the 72 cells must say
  const key = text + '\n' + cmevla;
  let r = answers.get(key);
  if (r) return r;
  r = COMBOS.map(c => {
    const s = { yHyphens: OPTIONS[0][c[0]], expRafsiShapes: !!c[1], consonants: OPTIONS[2][c[2]], glides: !!c[3], allowMZ: !!c[4] };
    const words = text.trim().split(/\s+/).filter(Boolean);
    if (words.length === 0) return ['', ''];
    if (words.length === 1) {
      let a;
      try { a = api.analyseBrivla(words[0], s); } catch (e) { return ['NOT BRIVLA', 'red']; }
      let t = `${a[0]} [${a[1].join(', ')}]`;
      if (a[0] !== 'GISMU' && a[0] !== 'ZIhEVLA') t += ' ' + api.getVeljvo(words[0], s).join(' ');
      return [t, a[0] === 'CMEVLA' ? 'yellow' : 'green'];
    }
    try { return [api.getLujvo(words, { generateCmevla: cmevla, ...s }), cmevla ? 'yellow' : 'green']; }
    catch (e) { return ['NO LUJVO FOUND', 'red']; }
  });
  if (answers.size > 4000) answers.clear();
  answers.set(key, r);
  return r;
}
const unescape = s => s.replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&#39;|&apos;/g, "'").replace(/&amp;/g, '&');
function grid(h) {                                         // rows of {head, cells laid out in columns}
  const rows = []; let cell = null, row = null, sect = '';
  for (const m of h.matchAll(/<(\/?)([a-z0-9]+)\b([^>]*)>|([^<]+)/gi)) {
    if (m[4] !== undefined) { if (cell) cell.text += m[4]; continue; }
    const close = m[1] === '/', tag = m[2].toLowerCase();
    if (tag === 'thead' || tag === 'tbody' || tag === 'tfoot') { sect = tag; row = cell = null; }
    else if (tag === 'tr') { cell = null; if (close) row = null; else { row = { sect, cells: [] }; rows.push(row); } }
    else if (tag === 'td' || tag === 'th') {
      if (close) { cell = null; continue; }
      if (!row) throw 'a cell outside a row';
      const at = k => { const a = m[3].match(new RegExp(`\\b${k}\\s*=\\s*["']?([^"'>]*)`, 'i')); return a ? a[1] : null; };
      cell = { text: '', cls: at('class') ?? '', cs: +(at('colspan') ?? 1), rs: +(at('rowspan') ?? 1) };
      row.cells.push(cell);
    } else if (cell) cell.text += ' ';
  }
  const body = [];
  for (const sect of ['thead', '', 'tbody']) {
    const rs = rows.filter(r => r.sect === sect), out = rs.map(() => []);
    rs.forEach((r, i) => {
      let x = 0;
      for (const c of r.cells) {
        c.text = unescape(c.text).trim().replace(/\s+/g, ' ');
        if (!Number.isInteger(c.cs) || !Number.isInteger(c.rs) || c.cs < 1 || c.rs < 1) throw 'a bad span';
        while (out[i][x]) x++;
        for (let a = 0; a < c.rs; a++) for (let b = 0; b < c.cs; b++) {
          if (!out[i + a]) throw 'a rowspan that leaves the table';
          if (out[i + a][x + b]) throw 'overlapping cells';
          out[i + a][x + b] = c;
        }
        x += c.cs;
      }
    });
    (sect === 'thead' ? body : body).push(...out.map(cells => ({ head: sect === 'thead', cells })));
  }
  return body;
}
function check(model) {
  const cls = id => { const e = elements.get(id); if (!e) throw `no element ${id}`; return e.classList.contains('active'); };
  if (cls('brivla') !== !model.cmevla || cls('cmevla') !== model.cmevla || cls('ezmode') !== model.ez)
    throw `buttons lit: brivla ${cls('brivla')}, cmevla ${cls('cmevla')}, easy mode ${cls('ezmode')}`;
  const table = elements.get('hard-mode');
  if (!model.shown) return 'not shown';
  const rows = grid(table.innerHTML);
  const heads = rows.filter(r => r.head), body = rows.filter(r => !r.head);
  const want = answer(model.text, model.cmevla);
  const hits = COMBOS.map(() => []);
  let pattern = '';
  const width = body.length ? body[0].cells.length : 0;
  for (const r of [...heads, ...body]) if (r.cells.length !== width || r.cells.includes(undefined)) throw 'a ragged table';
  const label = c => c && c.cls === '' && Object.prototype.hasOwnProperty.call(NAMES, c.text) ? NAMES[c.text] : null;
  // the row labels: leading columns whose every body cell is the name of a setting
  let ny = 0;
  while (ny < width && body.every(r => label(r.cells[ny]))) ny++;
  const dims = new Set();
  for (const r of body) for (let x = ny; x < width; x++) {
    const fixed = new Map();
    const put = l => { if (!l || fixed.has(l[0])) throw 'an option that labels a cell twice'; fixed.set(l[0], l[1]); dims.add(l[0]); };
    for (let y = 0; y < ny; y++) put(label(r.cells[y]));
    for (const h of heads) put(NAMES[h.cells[x].text]);
    COMBOS.forEach((c, i) => { if ([...fixed].every(([o, v]) => c[o] === v)) hits[i].push(r.cells[x]); });
  }
  COMBOS.forEach((c, i) => {
    if (model.ez && i !== 0) return;
    const name = c.map((v, o) => OPTIONS[o][v]).join('/');
    if (hits[i].length !== 1) throw `${hits[i].length} cells for ${name}`;
    const got = hits[i][0];
    if (got.text !== want[i][0]) throw `cell for ${name} says "${got.text}", the library "${want[i][0]}"`;
    if (got.cls !== want[i][1]) throw `cell for ${name} is ${got.cls}, not ${want[i][1]}`;
  });
  if (model.ez && (dims.size || body.length !== 1 || width !== 1)) throw 'easy mode shows more than one cell';
  // an option that has a row or a column is one that matters
  for (const o of dims) if (COMBOS.every((c, i) => COMBOS.every((d, j) => d.some((v, k) => k !== o && v !== c[k]) || want[i][0] === want[j][0])))
    throw `option ${o} is shown and does not matter`;
  return [...dims].sort().join('') || '-';
}
function run(events) {
  boot();
  const model = { text: '', cmevla: false, ez: false, shown: false };
  let settled = true;
  for (const [kind, x] of events) {
    if (kind === 'type') { elements.get('source').value = x; send(elements.get('source'), 'input'); model.text = x; model.shown = true; }
    else if (kind === 'click') {
      send(elements.get(x), 'click');
      if (x === 'ezmode') { model.ez = !model.ez; model.shown = true; }
      else if (model.cmevla !== (x === 'cmevla')) { model.cmevla = x === 'cmevla'; model.shown = true; }
    } else if (!advance(now + x)) settled = false;
    check({ ...model, shown: false });                      // the highlights at every moment
  }
  if (!settled || !advance(Infinity)) throw 'the timers never stop';
  return check(model);
}
let rest = '', lines = [];
const { StringDecoder } = require('string_decoder');
const dec = new StringDecoder('utf8'), chunk = Buffer.alloc(1 << 20);
for (;;) {
  let n;
  try { n = fs.readSync(0, chunk, 0, chunk.length, null); }
  catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') break; throw e; }
  if (n === 0) break;
  const parts = (rest + dec.write(chunk.subarray(0, n))).split('\n');
  rest = parts.pop();
  for (const p of parts) {
    if (p !== 'END') { lines.push(p); continue; }
    const out = lines.map(l => {
      try { return 'OK\t' + run(JSON.parse(l)); }
      catch (e) { return 'ERR\t' + String(typeof e === 'string' ? e : e && e.stack || e).replace(/\s+/g, ' ').slice(0, 400); }
    });
    lines = [];
    const buf = Buffer.from(out.map(x => x + '\n').join(''), 'utf8');
    let off = 0;
    while (off < buf.length) { try { off += fs.writeSync(1, buf, off); } catch (e) { if (e.code !== 'EAGAIN') throw e; } }
  }
}
