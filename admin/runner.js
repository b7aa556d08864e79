// Runs the repository's admin/index.ts with stand-ins for the Fluence client,
// the network lists and the file system. Talks JSON lines with the harness:
//   in : {case: {args, files, environments, keys}} then {answer: ...} per call
//   out: {call: {name, args}} per call, then {done: {code, written, error, unsupported}}
'use strict';
const fs = require('fs');
const vm = require('vm');
const crypto = require('crypto');
const readline = require('readline');
const ts = require(process.argv[3]);

const ALPH = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
function enc(b) {
  let x = 0n, out = '';
  for (const c of b) x = x * 256n + BigInt(c);
  while (x > 0n) { out = ALPH[Number(x % 58n)] + out; x /= 58n; }
  for (const c of b) { if (c !== 0) break; out = '1' + out; }
  return out;
}
function dec(s) {
  let x = 0n;
  for (const c of s) {
    const i = ALPH.indexOf(c);
    if (i < 0) throw new Error('Non-base58 character');
    x = x * 58n + BigInt(i);
  }
  const out = [];
  while (x > 0n) { out.unshift(Number(x % 256n)); x /= 256n; }
  for (const c of s) { if (c !== '1') break; out.unshift(0); }
  return Buffer.from(out);
}
const bs58 = { encode: (b) => enc(Uint8Array.from(b)), decode: dec };

const path = require('path');
const compiled = {};
function load(file) {
  if (!(file in compiled)) {
    const js = ts.transpileModule(fs.readFileSync(file, 'utf8'), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true } }).outputText;
    compiled[file] = new vm.Script('(function (exports, require, module, process, console, __dirname, __filename, Buffer, setTimeout) {' + js + '\n})');
  }
  return compiled[file];
}

const waiting = [];
const lines = [];
readline.createInterface({ input: process.stdin }).on('line', (l) => {
  const m = JSON.parse(l);
  if (waiting.length) waiting.shift()(m); else lines.push(m);
}).on('close', () => process.exit(0));
const next = () => new Promise((ok) => (lines.length ? ok(lines.shift()) : waiting.push(ok)));
const say = (m) => process.stdout.write(JSON.stringify(m) + '\n');

function run(c) {
  return new Promise((finish) => {
    let unsupported = null, ended = false, busy = 0, moves = 0;
    const written = {};
    const end = (code, error) => { if (!ended) { ended = true; finish({ code, written, error: error === undefined ? null : String((error && error.message) || error), unsupported }); } };
    // anything a stand-in lacks means no verdict
    const only = (what, o) => new Proxy(o, { get: (t, k) => {
      moves++;
      if (k === '__esModule') return true;
      if (k in t || typeof k === 'symbol' || k === 'default' || k === 'then') return k === 'default' && !(k in t) ? only(what, o) : t[k];
      unsupported = unsupported || what + '.' + String(k);
      return undefined;
    } });
    const text = (p) => {
      const name = String(p).replace(/\\/g, '/').split('/').pop();
      if (!(name in c.files)) throw new Error('ENOENT: ' + p);
      return Buffer.from(c.files[name]);
    };
    const read = (p, o) => { const b = text(p); return typeof o === 'string' || (o && o.encoding) ? b.toString() : b; };
    const write = (p, d, o) => { if (!ended) written[String(p)] = (o && o.flag === 'a' && written[String(p)] || '') + Buffer.from(d).toString(); };
    const append = (p, d) => write(p, d, { flag: 'a' });
    const take = (p) => { if (!(String(p) in written)) throw new Error('ENOENT: ' + p); const d = written[String(p)]; delete written[String(p)]; return d; };
    const rename = (a, b) => { if (!ended) written[String(b)] = take(a); };
    const copy = (a, b) => { if (!ended) { if (!(String(a) in written)) throw new Error('ENOENT: ' + a); written[String(b)] = written[String(a)]; } };
    const remove = (p) => { if (!ended && String(p) in written) delete written[String(p)]; };
    const timer = (f, ms, ...a) => { busy++; return setTimeout(() => { busy--; moves++; f(...a); }, ms); };
    const call = (name) => async (...args) => {
      if (ended) return new Promise(() => {});
      say({ call: { name, args: args.map((a) => (ArrayBuffer.isView(a) ? Array.from(a) : a)) } });
      busy++;
      const m = await next();
      busy--; moves++;
      if ('refused' in m) throw new Error(m.refused);
      return m.answer;
    };
    class KeyPair {
      constructor(seed) {
        if (seed.length !== 32) throw new Error('secret key length');
        const sk = crypto.createPrivateKey({ key: Buffer.concat([Buffer.from('302e020100300506032b657004220420', 'hex'), Buffer.from(seed)]), format: 'der', type: 'pkcs8' });
        const pk = crypto.createPublicKey(sk).export({ format: 'der', type: 'spki' }).subarray(-32);
        const id = enc(Buffer.concat([Buffer.from('002408011220', 'hex'), pk]));
        this.Libp2pPeerId = only('PeerId', {
          toB58String: () => id, toString: () => id,
          privKey: only('privKey', { sign: async (m) => new Uint8Array(crypto.sign(null, Buffer.from(m), sk)) }),
        });
        this.signBytes = async (m) => new Uint8Array(crypto.sign(null, Buffer.from(m), sk));
        return only('KeyPair', this);
      }
    }
    const me = new KeyPair(crypto.createHash('sha256').update('admin client').digest());
    const modules = {
      './generated/export': only('export', { get_trust_bytes: call('get_trust_bytes'), issue_trust: call('issue_trust'), timestamp_sec: call('timestamp_sec') }),
      '@fluencelabs/fluence': only('fluence', {
        Fluence: only('Fluence', {
          start: async () => {}, stop: async () => {},
          getStatus: () => ({ isInitialized: true, isConnected: true, peerId: me.Libp2pPeerId.toB58String(), relayPeerId: c.relay }),
        }),
        KeyPair: only('KeyPair', { fromEd25519SK: async (b) => new KeyPair(b) }),
        setLogLevel: () => {},
      }),
      '@fluencelabs/fluence-network-environment': only('environment', c.environments),
      fs: only('fs', { readFileSync: read, writeFileSync: write, existsSync: (p) => String(p).split('/').pop() in c.files, 
        appendFileSync: append, renameSync: rename, copyFileSync: copy, unlinkSync: remove, rmSync: remove, mkdirSync() {},
        promises: only('fs.promises', { readFile: async (p, o) => read(p, o), writeFile: async (p, d, o) => write(p, d, o), appendFile: async (p, d) => append(p, d), rename: async (a, b) => rename(a, b), copyFile: async (a, b) => copy(a, b), unlink: async (p) => remove(p), rm: async (p) => remove(p), mkdir: async () => {} }) }),
      path: require('path'), util: require('util'),
      bs58,
    };
    modules['node:fs'] = modules.fs; modules['fs/promises'] = modules['node:fs/promises'] = modules.fs.promises; modules['node:path'] = modules.path; modules['node:util'] = modules.util;
    const own = {};
    const req = (from) => (m) => {
      if (m in modules) return modules[m];
      // a file of the tool itself
      const file = m.startsWith('.') && ['.ts', '/index.ts', ''].map((x) => path.resolve(path.dirname(from), m) + x).find((x) => x.endsWith('.ts') && fs.existsSync(x));
      if (file) {
        if (!(file in own)) { own[file] = { exports: {} }; start(file, own[file]); }
        return own[file].exports;
      }
      unsupported = unsupported || 'module ' + m;
      throw new Error('no module ' + m);
    };
    const quiet = { log() {}, error() {}, warn() {}, info() {}, debug() {}, table() {}, dir() {} };
    const proc = only('process', { argv: ['node', 'index.js', ...c.args], exit: (x) => { end(x === undefined ? proc.exitCode : x); throw new Exit(); }, env: {}, on() {}, cwd: () => '/admin', exitCode: 0, stdout: { write() {} }, stderr: { write() {} } });
    const module = { exports: {} };
    current = end;
    const start = (file, module) => load(file).runInThisContext()(module.exports, req(file), module, proc, quiet, '/admin', '/admin/index.js', Buffer, timer);
    try {
      start(path.resolve(process.argv[2]), module);
    } catch (e) {
      end(1, e);
    }
    // a tool that ends by running out of things to do
    const idle = (seen, quietTurns) => {
      if (ended) return;
      if (busy || moves !== seen) quietTurns = 0;
      if (quietTurns > 200) return end(proc.exitCode);
      setImmediate(idle, moves, quietTurns + 1);
    };
    idle(-1, 0);
  });
}
let current = () => {};
class Exit extends Error {}
process.on('unhandledRejection', (e) => { if (!(e instanceof Exit)) current(1, e); });
process.on('uncaughtException', (e) => { if (!(e instanceof Exit)) current(1, e); });
(async () => {
  for (;;) {
    const m = await next();
    say({ done: await run(m.case) });
  }
})();
