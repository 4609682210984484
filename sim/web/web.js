#!/usr/bin/env node
'use strict'
// web.js explore|replay: the lookup page (pwned-lookup-web/index.html) under a simulator. The page's own script runs in
// a small document; the user, the network and the clock are simulated, all of it decided by one seed.
const fs = require('fs'), path = require('path'), vm = require('vm'), crypto = require('crypto'), cp = require('child_process')
const { parse, Document, Target, SimEvent, visible } = require('./dom.js')
const md5 = s => crypto.createHash('md5').update(String(s), 'utf8').digest('hex')
const commas = n => String(n).replace(/\B(?=(\d{3})+$)/g, ',')

class Rng { // splitmix64
  constructor(s) { this.s = BigInt.asUintN(64, BigInt(s)) }
  next() { this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n); let z = this.s; z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n); z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn); return z ^ (z >> 31n) }
  below(n) { return Number(this.next() % BigInt(Math.max(1, n))) }
  chance(p) { return this.below(1000000) < p * 1000000 }
  pick(a) { return a[this.below(a.length)] }
}
const mix = (a, b) => new Rng(BigInt.asUintN(64, BigInt(a) * 0x9e3779b97f4a7c15n + BigInt(b))).next()

// ---------------------------------------------------------------- the page
function loadPage(file) {
  const tree = parse(fs.readFileSync(file, 'utf8')), scripts = []
  const walk = n => { if (typeof n === 'string') return; if (n.tag === 'script') {
    const type = n.attrs.type || ''; if (type && !/javascript|module/.test(type)) return
    let code = n.kids.join('')
    if (n.attrs.src) { const f = path.join(path.dirname(file), n.attrs.src); if (/md5/i.test(n.attrs.src) || !fs.existsSync(f)) return; code = fs.readFileSync(f, 'utf8') }
    if (type === 'module') code = `(() => { ${code}\n})()`
    scripts.push({ script: new vm.Script(code, { filename: n.attrs.src || 'index.html' }), late: 'defer' in n.attrs || type === 'module' })
  } n.kids.forEach(walk) }
  walk(tree); return { tree, scripts }
}

// ---------------------------------------------------------------- scenarios
const GOOD = 'ok', BAD = ['refused', 'stall', 'http500', 'http502json', 'http404', 'html', 'cut', 'bodylost', 'emptyobject']
const COUNTS = [0, 0, 0, 1, 2, 3, 9, 10, 999, 1000, 1001, 12345, 999999, 1000000, 1234567, 23174662, 4294967295, 4294967296, 18446744073]
const truth = (salt, h) => COUNTS[Number(mix(salt, parseInt(h.slice(0, 12), 16)) % BigInt(COUNTS.length))]
function delay(r, shape) { switch (shape) { case 0: return 1 + r.below(30); case 1: return 1 + r.below(600); case 2: return r.chance(0.15) ? 500 + r.below(20000) : 1 + r.below(60); default: return 50 } }
function generate(seed) {
  const r = new Rng(seed), s = { seed: String(seed), salt: r.below(1e9), strings: r.chance(0.5), ops: [], net: [], info: null }
  const shape = r.below(4), pBad = r.chance(0.5) ? 0 : r.pick([0.05, 0.2, 0.5]), n = 1 + r.below(r.chance(0.2) ? 40 : 12)
  const alpha = r.pick(['abcdefgh', 'ab', 'aäß€😀 %&=#?+/"<>\\', '0123456789abcdef'])
  const words = []; for (let i = 0; i < 1 + r.below(4); ++i) { let w = ''; for (let k = 1 + r.below(10); k > 0; --k) w += r.pick([...alpha]); words.push(w) }
  let t = 1 + r.below(50), cur = '', target = r.pick(words)
  const gap = r.pick([0, 5, 100, 1500])
  for (let i = 0; i < n; ++i) {
    t += r.chance(0.2) ? 0 : gap ? r.below(2 * gap) : 0
    const k = r.below(100)
    if (k < 70) {
      if (!target.startsWith(cur) || cur === target) { if (r.chance(0.5)) cur = [...cur].slice(0, -1).join(''); else { target = r.pick(words); cur = r.chance(0.3) ? '' : r.chance(0.3) ? target : [...target].slice(0, 1).join('') } }
      else cur = [...target].slice(0, [...cur].length + 1).join('')
      s.ops.push({ t, k: 'type', v: cur })
    } else if (k < 85) s.ops.push({ t, k: 'click' })
    else if (k < 92) s.ops.push({ t, k: 'toggle' })
    else if (k < 96) s.ops.push({ t, k: 'focusout' })
    else s.ops.push({ t, k: 'enter' })
  }
  for (let i = 0; i < n + 2; ++i) s.net.push({ h: delay(r, shape), b: r.chance(0.5) ? 0 : delay(r, shape), k: r.chance(pBad) ? r.pick(BAD) : GOOD })
  s.info = { h: delay(r, shape), b: 0, k: r.chance(0.2) ? r.pick(BAD) : GOOD, n: r.pick([0, 1, 999, 1000, 555278657, 4294967296]), u: 1 + r.below(2000000000) }
  return s
}

// ---------------------------------------------------------------- one run
class Violation extends Error { constructor(cls, text) { super(text); this.cls = cls } }
const turn = () => new Promise(f => setImmediate(f))
async function run(page, s, trace) {
  const st = { steps: 0, faults: {}, probes: {}, now: 0, io: 0, cls: null, text: '', fp: 0xcbf29ce484222325n, log: [] }
  const mark = (...a) => { const m = a.join(' '); for (let i = 0; i < m.length; ++i) st.fp = BigInt.asUintN(64, (st.fp ^ BigInt(m.charCodeAt(i))) * 0x100000001b3n); if (trace) st.log.push(`${String(st.now).padStart(8)} ms  ${m}`) }
  const fault = k => { st.faults[k] = (st.faults[k] || 0) + 1 }, probe = k => { st.probes[k] = (st.probes[k] || 0) + 1 }
  let seq = 0, queue = []
  const at = (dt, f, what) => { const e = { t: st.now + Math.max(0, Number.isFinite(+dt) ? +dt : 0), q: ++seq, f, what }; queue.push(e); return e }
  const pageError = e => { probe('page-error'); mark('page error', String(e && e.message)) }
  const doc = new Document(pageError), win = {}
  const wt = new Target(); wt._err = pageError; doc.defaultView = wt
  doc.build(page.tree)
  const passwords = new Set(), hashes = new Set(), lookups = []
  // network
  let nLookup = 0
  const leak = (where, text) => { text = String(text); for (const p of passwords) if ([...p].length >= 5 && !/^[0-9a-f]*$/i.test(p)) for (const f of [p, encodeURIComponent(p), Buffer.from(p).toString('base64')]) if (text.includes(f)) throw new Violation('password-sent', `the password itself leaves the page (${where})`) }
  function send(url, opts, cb) { // cb.head(status, text), cb.body(text), cb.fail(error)
    url = String(url && url.url || url); st.io++
    let v = null; try { leak('request ' + url, url + JSON.stringify(opts && { headers: opts.headers instanceof Map ? [...opts.headers] : opts.headers, body: opts.body && String(opts.body) } || null)) } catch (e) { v = e }
    if (v) { st.pending = st.pending || v; return {} }
    const m = /[?&]hash=([^&#]*)/.exec(url), isLookup = !!m || /lookup/.test(url)
    const i = isLookup ? nLookup++ : -1, p = isLookup ? (s.net[i] || { h: 20, b: 0, k: GOOD }) : s.info
    const rq = { i, url, hash: m ? decodeURIComponent(m[1]).toLowerCase() : null, k: p.k, ended: false, dead: false, time: `${i + 1}.${String(s.salt % 997).padStart(3, '0')}` }
    if (isLookup) { lookups.push(rq); rq.trigger = triggers.length; if (!hashes.has(rq.hash)) st.pending = st.pending || new Violation('wrong-question', `the page asks for ${rq.hash || url}, which is not the hash of a password that was to be looked up`) }
    mark('request', i, rq.hash || '')
    let body
    const N = x => s.strings ? String(x) : x
    if (isLookup) { rq.count = truth(s.salt, rq.hash || ''); body = JSON.stringify({ hash: rq.hash, found: N(rq.count), 'lookup-time-ms': s.strings ? rq.time : +rq.time }) }
    else { body = JSON.stringify({ count: N(p.n), 'last-update': N(p.u) }) }
    let status = 200; if (p.k !== GOOD) { fault('net.' + p.k); if (isLookup) rq.bad = true }
    switch (p.k) { case 'http500': status = 500; body = 'cannot read database\r\n'; break; case 'http404': status = 404; body = ''; break; case 'http502json': status = 502; body = JSON.stringify({ error: 'bad gateway' }); break; case 'html': body = '<html><body>Please log in</body></html>'; break; case 'cut': body = body.slice(0, body.length - 3 - s.salt % (body.length - 4)); break; case 'emptyobject': body = '{}'; break }
    rq.cancel = e => { if (!rq.ended) { rq.ended = rq.dead = rq.bad = true; mark('aborted', i); cb.fail(e) } }
    if (p.k === 'stall') { probe('never-answered'); return rq }
    at(p.h, () => {
      if (rq.dead) return
      if (p.k === 'refused') { rq.ended = true; mark('refused', i); cb.fail(new TypeError('Failed to fetch')); return }
      mark('head', i, status); cb.head(status)
      at(p.b, () => { if (rq.dead) return; rq.ended = true; if (p.k === 'bodylost') { mark('body lost', i); cb.fail(new TypeError('network error')) } else { mark('body', i); cb.body(body) } ; if (isLookup && lookups[lookups.length - 1] !== rq) probe('late-answer') }, 'body')
    }, 'head')
    return rq
  }
  class SimSignal extends Target { constructor() { super(); this.aborted = false; this.reason = undefined; this.onabort = null } _abort(r) { if (this.aborted) return; this.aborted = true; this.reason = r || Object.assign(new Error('The operation was aborted.'), { name: 'AbortError' }); this.dispatchEvent(new SimEvent('abort', { bubbles: false })) } throwIfAborted() { if (this.aborted) throw this.reason } static timeout(ms) { const x = new SimSignal(); at(ms, () => x._abort(Object.assign(new Error('timed out'), { name: 'TimeoutError' })), 'timer'); return x } }
  class SimAbort { constructor() { this.signal = new SimSignal() } abort(r) { this.signal._abort(r) } }
  function fetch(url, opts) {
    return new Promise((ok, no) => {
      const sig = opts && opts.signal; if (sig && sig.aborted) { no(sig.reason); return }
      let body = null, failed = null, waiters = []
      const rq = send(url, opts, {
        head: status => { const text = () => new Promise((a, b) => { if (failed) b(failed); else if (body !== null) a(body); else waiters.push([a, b]) })
          const res = { ok: status >= 200 && status < 300, status, statusText: status === 200 ? 'OK' : 'Error', url: String(url), redirected: false, type: 'basic', bodyUsed: false, headers: { get: k => /content-type/i.test(k) ? 'application/json' : null, has: () => false }, text, json: () => text().then(t => JSON.parse(t)), clone: () => res }
          ok(res) },
        body: t => { body = t; waiters.forEach(w => w[0](t)) },
        fail: e => { failed = e; no(e); waiters.forEach(w => w[1](e)) } })
      if (sig) sig.addEventListener('abort', () => rq.cancel && rq.cancel(sig.reason))
    })
  }
  class Xhr extends Target {
    constructor() { super(); this._err = pageError; this.readyState = 0; this.status = 0; this.responseText = ''; this.responseType = ''; this.headers = {} }
    open(m, u) { this.u = u; this.readyState = 1 } setRequestHeader(k, v) { this.headers[k] = v } getResponseHeader() { return 'application/json' } overrideMimeType() {}
    _ev(t) { this.dispatchEvent(new SimEvent(t, { bubbles: false })) }
    send(b) { this.rq = send(this.u, { headers: this.headers, body: b }, { head: c => { this.status = c; this.readyState = 2; this._ev('readystatechange') }, body: t => { this.responseText = t; try { this.response = this.responseType === 'json' ? JSON.parse(t) : t } catch (e) { this.response = null } this.readyState = 4; this._ev('readystatechange'); this._ev('load'); this._ev('loadend') }, fail: e => { this.readyState = 4; this.status = 0; this._ev('readystatechange'); this._ev(e.name === 'AbortError' ? 'abort' : 'error'); this._ev('loadend') } }) }
    abort() { this.rq && this.rq.cancel && this.rq.cancel(Object.assign(new Error('aborted'), { name: 'AbortError' })) }
  }
  // clock, storage, the rest of a browser
  const EPOCH = 1700000000000; const timers = new Map(); let nTimer = 0
  const setTimer = (f, ms, args, every) => { const id = ++nTimer; const go = () => { if (!timers.has(id)) return; if (every) timers.set(id, at(Math.max(1, ms), go, 'timer')); else timers.delete(id); mark('timer', id); try { typeof f === 'function' && f(...args) } catch (e) { pageError(e) } }; timers.set(id, at(Math.max(every ? 1 : 0, ms || 0), go, every ? 'interval' : 'timer')); return id }
  const clearTimer = id => { const e = timers.get(id); if (e) { timers.delete(id); queue = queue.filter(x => x !== e) } }
  class SimDate extends Date { constructor(...a) { if (a.length) super(...a); else super(EPOCH + st.now) } static now() { return EPOCH + st.now } }
  const store = () => { const m = new Map(); return { getItem: k => m.has(String(k)) ? m.get(String(k)) : null, setItem: (k, v) => { try { leak('browser storage', v) } catch (e) { st.pending = st.pending || e } m.set(String(k), String(v)) }, removeItem: k => m.delete(String(k)), clear: () => m.clear(), key: i => [...m.keys()][i] ?? null, get length() { return m.size } } }
  const rr = new Rng(mix(s.salt, 7)); const SimMath = Object.create(Math, { random: { value: () => rr.below(1e9) / 1e9 } })
  Object.assign(win, { document: doc, fetch, md5, XMLHttpRequest: Xhr, AbortController: SimAbort, AbortSignal: SimSignal, Event: SimEvent, CustomEvent: SimEvent, KeyboardEvent: SimEvent, InputEvent: SimEvent,
    setTimeout: (f, ms, ...a) => setTimer(f, +ms || 0, a, false), setInterval: (f, ms, ...a) => setTimer(f, +ms || 0, a, true), clearTimeout: clearTimer, clearInterval: clearTimer, requestAnimationFrame: f => setTimer(() => f(st.now), 16, [], false), cancelAnimationFrame: clearTimer, queueMicrotask,
    Date: SimDate, Math: SimMath, performance: { now: () => st.now, mark() {}, measure() {} }, console: { log() {}, error() {}, warn() {}, info() {}, debug() {} }, navigator: { onLine: true, language: 'en', userAgent: 'sim', sendBeacon: u => { send(u, {}, { head() {}, body() {}, fail() {} }); return true } }, location: { href: 'https://example.org/', origin: 'https://example.org', protocol: 'https:', host: 'example.org', hostname: 'example.org', pathname: '/', search: '', hash: '' }, history: { pushState() {}, replaceState() {} },
    localStorage: store(), sessionStorage: store(), alert() {}, confirm: () => true, URL, URLSearchParams, TextEncoder, TextDecoder, Intl, btoa: x => Buffer.from(x, 'latin1').toString('base64'), atob: x => Buffer.from(x, 'base64').toString('latin1'), addEventListener: (...a) => wt.addEventListener(...a), removeEventListener: (...a) => wt.removeEventListener(...a), dispatchEvent: e => wt.dispatchEvent(e) })
  for (const n of ['onload', 'onpageshow', 'onerror', 'onunhandledrejection', 'onfocus', 'onblur', 'onkeydown', 'onkeyup', 'onkeypress', 'oninput', 'onclick', 'ononline']) Object.defineProperty(win, n, { configurable: true, enumerable: true, get: () => wt[n] || null, set: f => { wt[n] = f } })
  const context = vm.createContext(win); win.window = win.self = win.globalThis_ = vm.runInContext('globalThis', context)
  doc._compile = code => vm.runInContext(`(function (event) { ${code}\n})`, context) // handlers written as attributes
  const exec = x => { try { x.script.runInContext(context) } catch (e) { pageError(e) } }
  // the user
  const triggers = []
  const el = id => doc.root.querySelector('#' + id)
  let input, box, button, found, hashEl, timeEl, result, error
  const there = e => { while (e.parentNode) e = e.parentNode; return e === doc || e === doc.root }
  const elements = () => { if (found && [input, box, button, found, hashEl, timeEl, result, error].every(there)) return; [input, box, button, found, hashEl, timeEl, result, error] = ['password', 'on-every-keypress', 'submit', 'found', 'hash', 'lookup-time-ms', 'result-container', 'error-container'].map((id, i) => el(id) || [input, box, button, found, hashEl, timeEl, result, error][i]) } // the page may have replaced them
  elements()
  if (![input, box, button, found, hashEl, timeEl, result, error].every(Boolean)) throw new Error('the page lacks an element that the check looks at')
  const ask = why => { passwords.add(input.value); hashes.add(md5(input.value)); triggers.push({ p: input.value, h: md5(input.value), t: st.now, why }) }
  const act = op => {
    elements(); mark('user', op.k, op.v || '')
    switch (op.k) {
      case 'type': input.value = op.v; passwords.add(op.v); if (box.checked) ask('type'); input.dispatchEvent(new SimEvent('keydown', { key: 'x' })); input.dispatchEvent(new SimEvent('input', { data: 'x' })); input.dispatchEvent(new SimEvent('keyup', { key: 'x' })); break
      case 'click': ask('click'); button.click(); break
      case 'toggle': box.click(); break
      case 'focusout': input.dispatchEvent(new SimEvent('blur', { bubbles: false })); input.dispatchEvent(new SimEvent('focusout')); break
      case 'enter': for (const t of ['keydown', 'keypress', 'keyup']) input.dispatchEvent(new SimEvent(t, { key: 'Enter', code: 'Enter', keyCode: 13 })); break
    }
  }
  // what is on the screen
  const shownHash = () => { const t = hashEl.title.toLowerCase(); if (/^[0-9a-f]{32}$/.test(t)) return t; const x = hashEl.textContent.toLowerCase().trim(); for (const h of hashes) if (x.length >= 8 && (x === h || (x.startsWith(h.slice(0, 8)) && x.endsWith(h.slice(-8))))) return h; return null }
  const expected = n => n > 0 ? `${commas(n)} times` : 'not found'
  const norm = x => x.replace(/[\s\u00a0]+/g, ' ').trim()
  function look() {
    if (st.pending) throw st.pending
    elements()
    const text = norm(found.textContent)
    if (!visible(found) || !text) return
    const h = shownHash(); if (!h) throw new Violation('answer-without-hash', `the page says "${text}" but shows no hash of a password that was looked up ("${norm(hashEl.textContent)}")`)
    const n = truth(s.salt, h)
    if (!hashEl.textContent.toLowerCase().includes(h.slice(0, 8)) || !hashEl.textContent.toLowerCase().includes(h.slice(-8))) throw new Violation('hash-text', `the hash shown ("${norm(hashEl.textContent)}") is not the one that is named in full (${h})`)
    if (text !== expected(n)) throw new Violation('wrong-answer', `the page says "${text}" for ${h}, which is in the database ${n} times`)
    if (!lookups.some(l => l.hash === h && !l.bad && l.ended)) throw new Violation('made-up-answer', `the page says "${text}" for ${h} although no usable answer has arrived for it`)
    const isF = found.classList.contains('found'), isN = found.classList.contains('notfound')
    if (isF !== (n > 0) || isN !== (n === 0)) throw new Violation('wrong-colour', `"${text}" is marked as ${isF && isN ? 'both found and not found' : isF ? 'found' : isN ? 'not found' : 'neither found nor not found'}`)
    const tm = norm(timeEl.textContent)
    if (tm && !lookups.some(l => l.hash === h && !l.bad && l.ended && norm(tm) === `${s.strings ? l.time : String(+l.time)} ms`)) throw new Violation('wrong-time', `the lookup time shown (${tm}) is not that of a lookup of ${h}`)
  }
  try {
    for (const x of page.scripts) if (!x.late) exec(x)
    doc.readyState = 'interactive'; for (const x of page.scripts) if (x.late) exec(x)
    doc.dispatchEvent(new SimEvent('DOMContentLoaded')); await turn()
    doc.readyState = 'complete'; { const b = doc.root.querySelector('body'), c = b && b.getAttribute('onload'); if (c && !wt.onload) try { wt.onload = doc._compile(c) } catch (e) { pageError(e) } } wt.dispatchEvent(new SimEvent('load', { bubbles: false })); await turn(); look()
    for (const op of s.ops) { const e = at(op.t, () => act(op), 'op'); e.t = op.t }
    while (queue.length) {
      if (++st.steps > 20000 || st.now > 3600000) break
      let b = 0; for (let i = 1; i < queue.length; ++i) if (queue[i].t < queue[b].t || (queue[i].t === queue[b].t && queue[i].q < queue[b].q)) b = i
      const e = queue.splice(b, 1)[0]; st.now = Math.max(st.now, e.t)
      if (e.what === 'interval' && !queue.some(x => x.what !== 'interval')) { if (++st.idle > 50) break } else st.idle = 0
      e.f(); await turn(); look(); mark('screen', visible(result) ? norm(found.textContent) : '-', visible(error) ? error.textContent.length > 0 : '-')
    }
    // everything that will ever be answered has been answered
    const last = triggers[triggers.length - 1], rq = lookups[lookups.length - 1]
    if (last) {
      if (!rq || rq.hash !== last.h) throw new Violation('not-asked', `the password entered last (${last.why}, hash ${last.h}) is never looked up${rq ? '; the last request is for ' + rq.hash : ''}`)
      const text = norm(found.textContent), err = norm(error.textContent)
      if (rq.ended && !rq.bad) {
        probe('answered')
        if (!visible(found) || !text) throw new Violation('no-answer', `the lookup of ${last.h} was answered but the page shows no answer${visible(error) && err ? ' but "' + err + '"' : ''}`)
        if (shownHash() !== last.h) throw new Violation('other-hash', `the page ends up with the answer for ${shownHash()} although ${last.h} was looked up last`)
        if (!norm(timeEl.textContent)) throw new Violation('no-time', 'the lookup time is missing')
        if (visible(error) && err) throw new Violation('error-beside-answer', `an error ("${err}") is shown although the last lookup was answered`)
      } else if (rq.ended) {
        probe('failed')
        if (visible(found) && text) throw new Violation('answer-after-failure', `the page says "${text}" although the lookup of the password entered last failed (${rq.k})`)
        if (!visible(error) || !err) throw new Violation('failure-hidden', `the lookup of the password entered last failed (${rq.k}) but the page does not say so`)
      } else {
        probe('unanswered')
        if (visible(found) && text) throw new Violation('answer-before-reply', `the page says "${text}" although the lookup of the password entered last has not been answered`)
      }
    }
    if (s.info.k === GOOD && norm(el('hash-count').textContent) !== commas(s.info.n)) throw new Violation('wrong-info', `the page says the database has ${norm(el('hash-count').textContent)} hashes, the service says ${commas(s.info.n)}`)
    if (s.info.k === GOOD && !/\d/.test(el('last-update').textContent)) throw new Violation('wrong-info', 'the time of the last update is missing')
  } catch (e) { if (!(e instanceof Violation)) throw e; st.cls = e.cls; st.text = e.message; mark('VIOLATION', e.cls, e.message) }
  st.triggers = triggers.length
  return st
}

// ---------------------------------------------------------------- minimising, exploring, replaying
async function minimise(page, s, cls, until) {
  const bad = async x => { try { return (await run(page, x)).cls === cls } catch (e) { return false } }
  let cur = s, changed = true
  while (changed && Date.now() < until) {
    changed = false
    for (let n = Math.max(1, cur.ops.length >> 1); n >= 1; n >>= 1) for (let o = 0; o < cur.ops.length && Date.now() < until;) { const x = { ...cur, ops: cur.ops.filter((_, i) => i < o || i >= o + n) }; if (await bad(x)) { cur = x; changed = true } else o += n }
    for (let i = 0; i < cur.net.length && Date.now() < until; ++i) {
      for (const simple of [{ h: 1, b: 0, k: GOOD }, { ...cur.net[i], b: 0 }, { ...cur.net[i], k: GOOD }]) { if (JSON.stringify(simple) === JSON.stringify(cur.net[i])) continue; const x = { ...cur, net: cur.net.map((p, k) => k === i ? simple : p) }; if (await bad(x)) { cur = x; changed = true; break } }
    }
    while (cur.net.length && Date.now() < until) { const x = { ...cur, net: cur.net.slice(0, -1) }; if (await bad(x)) { cur = x; changed = true } else break }
    if (cur.info.k !== GOOD || cur.info.h !== 1) { const x = { ...cur, info: { ...cur.info, k: GOOD, h: 1 } }; if (await bad(x)) { cur = x; changed = true } }
    for (let i = 0; i < cur.ops.length && Date.now() < until; ++i) { const t = i ? cur.ops[i - 1].t + 1 : 1; if (cur.ops[i].t !== t) { const d = cur.ops[i].t - t; const x = { ...cur, ops: cur.ops.map((o, k) => k >= i ? { ...o, t: o.t - d } : o) }; if (await bad(x)) { cur = x; changed = true } } }
  }
  return cur
}
const args = Object.fromEntries(process.argv.slice(2).filter(a => a.startsWith('--')).map(a => { const i = a.indexOf('='); return i < 0 ? [a.slice(2), '1'] : [a.slice(2, i), a.slice(i + 1)] }))
process.on('unhandledRejection', () => {})
async function worker() {
  const w = +args.worker, W = +args.workers, until = Date.now() + 1000 * +args.seconds, page = loadPage(args.page), t0 = Date.now()
  const sum = { seeds: 0, runs: 0, procs: 0, steps: 0, io: 0, simms: 0, keys: 0, dup: 0, irrep: 0, internals: 0 }, f = {}, p = {}, seen = new Set(); let stop = false, msg = '', sample = null
  process.on('message', () => { stop = true })
  let found = null
  for (let k = w; !stop && Date.now() < until; k += W) {
    const seed = mix(args.seed, k), s = generate(seed); let r
    try { r = await run(page, s) } catch (e) { sum.internals++; msg = String(e.stack).slice(0, 400); if (sum.internals > 20) break; continue }
    sum.seeds++; sum.runs++; sum.procs++; sum.steps += r.steps; sum.io += r.io; sum.simms += r.now; sum.keys += s.ops.length
    for (const x in r.faults) f[x] = (f[x] || 0) + r.faults[x]; for (const x in r.probes) p[x] = (p[x] || 0) + r.probes[x]
    if (r.triggers && r.io > 1) seen.add(r.fp)
    if (!sample && k > 8 && r.triggers > 1) sample = JSON.stringify(s)
    if (r.cls || sum.runs % 97 === 5) { // the same seed must take the same course
      const again = await run(page, generate(seed)); sum.dup++
      if (again.fp !== r.fp || again.cls !== r.cls) { sum.irrep++; msg = `seed ${seed} is not reproducible`; continue }
    }
    if (r.cls && !stop) {
      const m = await minimise(page, s, r.cls, Date.now() + 20000), fr = await run(page, m), file = path.join(args.replays, `${args.prop}-${seed}.replay`)
      fs.writeFileSync(file, JSON.stringify({ page: 'pwned-lookup-web/index.html', property: args.prop, class: fr.cls, text: fr.text, course: String(fr.fp), scenario: m }, null, 1))
      found = { file, class: fr.cls, text: fr.text, seed: String(seed), decs: `${s.ops.length + s.net.length} -> ${m.ops.length + m.net.length}` }; break
    }
  }
  process.send({ w, sum, f, p, found, msg, sample, wall: (Date.now() - t0) / 1000, seen: [...seen].map(x => x.toString(36)) }, () => process.exit(0))
}
async function explore() {
  const W = +args.workers, kids = [], res = []; let first = null
  await Promise.all(Array.from({ length: W }, (_, w) => new Promise(done => {
    const c = cp.fork(__filename, ['worker', ...process.argv.slice(3), `--worker=${w}`]); kids.push(c)
    const guard = setTimeout(() => c.kill('SIGKILL'), (+args.seconds + 60) * 1000)
    c.on('message', m => { res.push(m); if (m.found && !first) { first = m.found; kids.forEach(x => { if (x !== c && x.connected) x.send('stop') }) } })
    c.on('exit', () => { clearTimeout(guard); done() })
  })))
  const sum = {}, all = new Set(); let wall = 0
  for (const m of res) { for (const k in m.sum) sum[k] = (sum[k] || 0) + m.sum[k]; for (const k in m.f) sum['fault.' + k] = (sum['fault.' + k] || 0) + m.f[k]; for (const k in m.p) sum['probe.' + k] = (sum['probe.' + k] || 0) + m.p[k]; m.seen.forEach(x => all.add(x)); wall = Math.max(wall, m.wall) }
  sum.distinct = all.size; sum.badworkers = W - res.length; sum.wall = wall.toFixed(3)
  let out = Object.entries(sum).map(([k, v]) => `${k} ${v}`).join('\n') + '\n'
  for (const m of res) if (m.msg) out += `#internal ${m.msg.replace(/\n/g, ' ')}\n`
  if (first) for (const k in first) out += `found.${k} ${first[k]}\n`
  fs.writeFileSync(args.stats, out); const sm = res.find(m => m.sample); if (sm) fs.writeFileSync(args.stats + '.sample', sm.sample)
  process.exit(first ? 1 : 0)
}
async function replay() {
  const r = JSON.parse(fs.readFileSync(process.argv[3], 'utf8')), st = await run(loadPage(args.page), r.scenario, true)
  if ('trace' in args) console.log(st.log.join('\n'))
  console.log(`course ${st.fp}${String(st.fp) === r.course ? ' (as recorded)' : ' (recorded: ' + r.course + ')'}`)
  console.log(st.cls ? `violated property=${r.property} class=${st.cls} ${st.text}` : `held property=${r.property}`); process.exit(st.cls ? 1 : 0)
}
({ explore, worker, replay })[process.argv[2]]().catch(e => { console.error(e); process.exit(2) })
