// Runs the SDK server of the repository under a controlled scheduler.
//   node driver.mjs <directory of sdkserver.mjs>
// One line of JSON in (a list of steps), one line out (a list of lists of events).  The server's own modules are loaded
// unchanged, afresh for every history; express, body-parser, ethers and the Carbon SDK are stand-ins that record what
// they are asked, and every completion (SDK promise, timer), the clock and every request is a step of the caller.
import { registerHooks } from 'node:module';
import { pathToFileURL } from 'node:url';
import readline from 'node:readline';
import path from 'node:path';

const DIR = process.argv[2];
const MAIN = pathToFileURL(path.join(DIR, 'sdkserver.mjs')).href;
const real = { setImmediate, setTimeout, now: Date.now, log: console.log, write: process.stdout.write.bind(process.stdout) };
const H = globalThis.__H = { events: [], calls: [], timers: [], clock: 0, apps: [], resp: [], opts: {} };
const ev = (...e) => H.events.push(e);

for (const k of ['log', 'info', 'warn', 'error', 'debug']) console[k] = () => {};
process.on('unhandledRejection', e => ev('crash', String(e && e.message || e)));
process.on('uncaughtException', e => ev('crash', String(e && e.message || e)));
process.exit = c => { ev('crash', 'exit ' + c); throw new Error('exit'); };
Date.now = () => H.clock;
globalThis.setTimeout = (f, ms, ...a) => { const k = H.timers.length; H.timers.push({ f: () => f(...a), ms, done: false }); ev('timer', k, ms); return { k, unref() { return this; }, ref() { return this; } }; };
globalThis.clearTimeout = t => { if (t && H.timers[t.k]) H.timers[t.k].done = true; };

// ------------------------------------------------------------------ stand-ins
function sent() { const e = new Error('Cannot set headers after they are sent to the client'); e.code = 'ERR_HTTP_HEADERS_SENT'; return e; }
class Res {
  constructor(n) { this.n = n; this.statusCode = 200; this.headersSent = false; this.locals = {}; this.h = {}; }
  status(c) { this.statusCode = c; return this; }
  set(k, v) { if (this.headersSent) throw sent(); if (typeof k === 'object') Object.assign(this.h, k); else this.h[k] = v; return this; }
  setHeader(k, v) { return this.set(k, v); } header(k, v) { return this.set(k, v); } type(t) { return this.set('content-type', t); }
  get writableEnded() { return this.headersSent; }
  finish(kind, text) { if (this.headersSent) throw sent(); this.headersSent = true; ev('resp', this.n, this.statusCode, kind, text); return this; }
  send(b) {
    if (b === undefined) return this.finish('empty', '');
    if (typeof b === 'string') return this.finish('text', b);
    if (typeof b === 'number') { this.statusCode = b; return this.finish('text', String(b)); }
    return this.json(b);
  }
  json(b) { return this.finish('json', JSON.stringify(b)); }
  end(b) { return this.finish(b === undefined ? 'empty' : 'text', b === undefined ? '' : String(b)); }
  sendStatus(c) { this.statusCode = c; return this.finish('text', String(c)); }
}
function match(pat, url, prefix) {
  if (pat instanceof RegExp) { const m = pat.exec(url); return m ? { params: { ...m.slice(1) } } : null; }
  const a = pat.split('/').filter(x => x), b = url.split('/').filter(x => x);
  if (prefix ? a.length > b.length : a.length !== b.length) return null;
  const params = {};
  for (let i = 0; i < a.length; i++) {
    if (a[i][0] === ':') params[a[i].slice(1).replace(/\(.*\)|\?$/g, '')] = decodeURIComponent(b[i]);
    else if (a[i].toLowerCase() !== b[i].toLowerCase()) return null;
  }
  return { params, rest: '/' + b.slice(a.length).join('/') };
}
function router() {
  const stack = [];
  const add = (method, pat, hs, prefix) => { for (const p of [pat].flat()) for (const h of hs.flat(9)) stack.push({ method, pat: p, h, prefix }); };
  const r = (req, res, out) => {
    let i = 0; const base = req.url;
    const next = err => {
      if (err === 'route' || err === 'router') err = undefined;
      for (;;) {
        if (i >= stack.length) return out(err);
        const l = stack[i++];
        const m = match(l.pat, base, l.prefix);
        if (!m || (l.method && l.method !== req.method && !(l.method === 'GET' && req.method === 'HEAD'))) continue;
        if ((l.h.length === 4) !== (err !== undefined)) continue;
        req.params = { ...req.params, ...m.params };
        const keep = req.url;
        if (l.prefix) req.url = m.rest;
        const back = e => { req.url = keep; next(e); };
        try { return err !== undefined ? l.h(err, req, res, back) : l.h(req, res, back); } catch (e) { req.url = keep; err = e; }
      }
    };
    next();
  };
  for (const m of ['get', 'post', 'put', 'delete', 'patch']) r[m] = (p, ...hs) => { if (!hs.length) return undefined; add(m.toUpperCase(), p, hs, false); return r; };
  r.all = (p, ...hs) => { add(null, p, hs, false); return r; };
  r.use = (p, ...hs) => { if (typeof p === 'function' || Array.isArray(p)) { hs.unshift(p); p = '/'; } add(null, p, hs, true); return r; };
  r.route = p => { const o = {}; for (const m of ['get', 'post', 'all', 'put', 'delete']) o[m] = (...hs) => { r[m](p, ...hs); return o; }; return o; };
  return r;
}
function json() {
  return (req, res, next) => {
    if (req.body !== undefined) return next();
    req.body = {};
    if (req.raw === undefined || req.raw === '') return next();
    try { req.body = JSON.parse(req.raw); } catch (e) { e.status = 400; return next(e); }
    next();
  };
}
function express() {
  const r = router();
  r.set = r.disable = r.enable = () => r;
  r.listen = (port, ...a) => { H.app = r; H.port = port; const cb = a.find(x => typeof x === 'function'); if (cb) cb(); return { close() {}, on() {}, address: () => ({ port }) }; };
  return r;
}
express.Router = () => router();
express.json = json;
express.urlencoded = () => (q, s, n) => n();

const hex40 = /^0x[0-9a-fA-F]{40}$/;
function getAddress(a) {
  if (typeof a !== 'string' || !hex40.test(a)) throw new Error(`invalid address (argument="address", value=${JSON.stringify(a)})`);
  return '0x' + [...a.slice(2).toLowerCase()].map((c, i) => i % 3 === 0 ? c.toUpperCase() : c).join('');
}
// a call to something outside the server; the caller finishes it
function pend(name, args) {
  const k = H.calls.length, c = { name, done: false };
  H.calls.push(c);
  const p = new Promise((ok, err) => { c.ok = ok; c.err = err; });
  ev('call', k, name, JSON.parse(JSON.stringify(args, (_, v) => v === undefined ? '<undefined>' : v)));
  return p;
}
// ... with the answer at once
function now(name, args) {
  const k = H.calls.length;
  H.calls.push({ name, done: true });
  const plan = H.opts.sync || {};
  ev('call', k, name, JSON.parse(JSON.stringify(args, (_, v) => v === undefined ? '<undefined>' : v)));
  const key = name + JSON.stringify(args);
  if (plan.throws && plan.throws.includes(name)) throw new Error('sdk says no to ' + name);
  if (name === 'hasLiquidityByPair' && plan.has) return plan.has.includes(args.join().toLowerCase());
  return plan[name];
}
class Wallet {
  constructor(a) { this.address = String(a); }
  static fromMnemonic(p) { if (H.opts.ethers6) throw new TypeError('fromMnemonic is not a function'); return new Wallet(p); }
  static fromPhrase(p) { return new Wallet(p); }
  connect() { return signer(this.address); }
}
function signer(address) {
  return { address, sendTransaction: tx => pend('sendTransaction', [address, tx]), signTransaction: tx => pend('signTransaction', [address, tx]) };
}
const provider = { getUncheckedSigner: signer, getSigner: signer };
class Contract {
  constructor(addr, abi, prov) {
    if (H.opts.badContract && String(addr).toLowerCase() === H.opts.badContract) throw new Error('bad contract ' + addr);
    const has = f => abi.some(x => x.includes('function ' + f + '('));
    for (const f of ['decimals', 'symbol', 'balanceOf', 'approve', 'transfer', 'allowance']) if (has(f)) this[f] = (...a) => pend(f, [addr, ...a]);
  }
}
const ethers = { utils: { getAddress }, getAddress, Wallet, Contract, providers: { JsonRpcProvider: class {} } };
class Sdk {
  constructor(o) { this._api = { _reader: { _contracts: { _provider: provider } } }; this.opts = o; }
  startDataSync() { ev('datasync'); return Promise.resolve(); }
  get isInitialized() { return true; }
  get pairs() { return now('pairs', []); }
  hasLiquidityByPair(...a) { return now('hasLiquidityByPair', a); }
}
for (const f of ['getLiquidityByPair', 'getUserStrategies', 'getMatchParams', 'getTradeData', 'getTradeDataFromActions', 'composeTradeByTargetTransaction',
  'composeTradeBySourceTransaction', 'createBuySellStrategy', 'updateStrategy', 'deleteStrategy', 'getRateLiquidityDepthByPair', 'getMinRateByPair', 'getMaxRateByPair'])
  Sdk.prototype[f] = function (...a) { return pend(f, a); };

Object.assign(H, { express, json, ethers, Sdk });
const STUBS = {
  'express': 'export default globalThis.__H.express; export const Router = globalThis.__H.express.Router; export const json = globalThis.__H.json;',
  'body-parser': 'const b = { json: globalThis.__H.json, urlencoded: () => (q, s, n) => n() }; export default b; export const json = b.json;',
  'ethers': 'export const ethers = globalThis.__H.ethers; export default ethers; export const Wallet = ethers.Wallet, Contract = ethers.Contract, utils = ethers.utils;',
  '@bancor/carbon-sdk': 'export const Sdk = globalThis.__H.Sdk; export default { Sdk };',
};
registerHooks({
  resolve(spec, ctx, nextResolve) {
    if (spec in STUBS) return { url: 'stub:' + spec, shortCircuit: true, format: 'module' };
    const r = nextResolve(spec, ctx);
    const q = ctx.parentURL && /\?i=\d+$/.exec(ctx.parentURL);
    if (q && r.url.startsWith('file:') && !r.url.includes('?')) return { ...r, url: r.url + q[0] };
    return r;
  },
  load(url, ctx, nextLoad) {
    if (url.startsWith('stub:')) return { format: 'module', source: STUBS[url.slice(5)], shortCircuit: true };
    return nextLoad(url, ctx);
  },
});

// ------------------------------------------------------------------ steps
let inst = 0;
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise(r => real.setImmediate(r)); };
async function step(s) {
  H.events = [];
  switch (s[0]) {
    case 'new': {
      const o = s[1] || {};
      Object.assign(H, { calls: [], timers: [], clock: o.clock ?? 1700000000000, resp: [], opts: o, app: null, port: null });
      process.argv.splice(2, process.argv.length, ...(o.argv || []));
      if (o.mnemonic === undefined || o.mnemonic === null) delete process.env.SDKSERVER_MEMONICPHRASE; else process.env.SDKSERVER_MEMONICPHRASE = o.mnemonic;
      try { await import(MAIN + '?i=' + (++inst)); } catch (e) { ev('crash', 'start: ' + (e && e.message)); }
      await settle();
      ev('listening', H.app ? H.port : null);
      break;
    }
    case 'tick': H.clock += s[1]; break;
    case 'fin': {
      const c = H.calls[s[1]];
      if (!c || c.done) { ev('nocall', s[1]); break; }
      c.done = true;
      if ('err' in s[2]) c.err(new Error(s[2].err)); else c.ok(s[2].ok);
      await settle();
      break;
    }
    case 'timer': {
      const c = H.timers[s[1]];
      if (!c || c.done) { ev('notimer', s[1]); break; }
      c.done = true; c.f();
      await settle();
      break;
    }
    case 'req': {
      const n = H.resp.length;
      const [, method, url0, headers, raw] = s;
      const url = url0.replace(/\{reqid:(\d+)\}/g, (_, k) => { try { return JSON.parse(H.resp[k].text).reqid; } catch (e) { return 'none'; } });
      const rec = { text: null };
      H.resp.push(rec);
      const res = new Res(n);
      const fin = res.finish.bind(res);
      res.finish = (k, t) => { const r = fin(k, t); rec.text = t; return r; };
      const [p, q] = url.split('?');
      const req = { method, url: p, path: p, originalUrl: url, query: Object.fromEntries(new URLSearchParams(q || '')), headers: headers || {}, params: {}, raw, ip: '127.0.0.1',
        get(k) { return this.headers[k.toLowerCase()]; }, header(k) { return this.get(k); } };
      if (!H.app) { ev('down', n); break; }
      H.app(req, res, err => {
        if (res.headersSent) { if (err) ev('crash', String(err.message || err)); return; }
        if (err) res.status(err.status || 500).send('Error: ' + (err.message || err));
        else res.status(404).send(`Cannot ${method} ${p}`);
      });
      await settle();
      break;
    }
  }
  return H.events;
}
const rl = readline.createInterface({ input: process.stdin });
for await (const line of rl) {
  if (!line.trim()) continue;
  let out;
  try {
    out = [];
    for (const h of JSON.parse(line)) out.push(await step(h));
  } catch (e) { out = { error: String(e && e.stack || e) }; }
  real.write(JSON.stringify(out) + '\n');
}
