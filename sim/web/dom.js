'use strict'
// A small document: elements, classes, attributes, texts and events, as far as a page of this kind can use them.
const VOID = new Set(['meta', 'link', 'input', 'br', 'img', 'hr', 'base', 'col', 'source', 'wbr', 'area', 'embed', 'param', 'track'])
const ENT = { hellip: '\u2026', amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0', ndash: '\u2013', mdash: '\u2014', middot: '\u00b7', thinsp: '\u2009' }
const decode = s => s.replace(/&(#x?[0-9a-fA-F]+|\w+);/g, (m, e) => e[0] === '#' ? String.fromCodePoint(e[1] === 'x' || e[1] === 'X' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : (e in ENT ? ENT[e] : m))
const escape = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;')

function parse(html) { // -> a plain tree: {tag, attrs, kids} or a string
  const root = { tag: '#root', attrs: {}, kids: [] }; const stack = [root]
  const re = /<!--[\s\S]*?-->|<![^>]*>|<\/([a-zA-Z][\w-]*)\s*>|<([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/g
  let pos = 0, m
  const text = t => { if (t) stack[stack.length - 1].kids.push(decode(t)) }
  while ((m = re.exec(html))) {
    text(html.slice(pos, m.index)); pos = re.lastIndex
    if (m[1]) { const t = m[1].toLowerCase(); for (let i = stack.length - 1; i > 0; --i) if (stack[i].tag === t) { stack.length = i; break } }
    else if (m[2]) {
      const n = { tag: m[2].toLowerCase(), attrs: {}, kids: [] }
      for (const a of m[3].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) n.attrs[a[1].toLowerCase()] = decode(a[2] ?? a[3] ?? a[4] ?? '')
      stack[stack.length - 1].kids.push(n)
      if (n.tag === 'script' || n.tag === 'style') { const e = html.toLowerCase().indexOf('</' + n.tag, pos); const end = e < 0 ? html.length : e; n.kids.push(html.slice(pos, end)); pos = re.lastIndex = end }
      else if (!VOID.has(n.tag) && !m[4]) stack.push(n)
    }
  }
  text(html.slice(pos)); return root
}

class SimEvent {
  constructor(type, init = {}) { this.type = type; Object.assign(this, init); this.defaultPrevented = false; this.stopped = false; this.bubbles = init.bubbles ?? true; this.target = null; this.currentTarget = null }
  preventDefault() { this.defaultPrevented = true }
  stopPropagation() { this.stopped = true }
  stopImmediatePropagation() { this.stopped = this.stoppedNow = true }
}
class Target {
  constructor() { this._l = new Map() }
  addEventListener(type, f, opt) { if (!f) return; const l = this._l.get(type) ?? []; if (!l.some(x => x.f === f)) l.push({ f, once: !!(opt && opt.once) }); this._l.set(type, l); if (opt && opt.signal) opt.signal.addEventListener('abort', () => this.removeEventListener(type, f)) }
  removeEventListener(type, f) { this._l.set(type, (this._l.get(type) ?? []).filter(x => x.f !== f)) }
  dispatchEvent(ev) {
    if (!ev.target) ev.target = this
    for (let n = this; n && !ev.stopped; n = ev.bubbles ? n._up() : null) {
      ev.currentTarget = n
      for (const x of [...(n._l.get(ev.type) ?? [])]) {
        if (x.once) n.removeEventListener(ev.type, x.f)
        try { typeof x.f === 'function' ? x.f.call(n, ev) : x.f.handleEvent(ev) } catch (e) { this._err(e) }
        if (ev.stoppedNow) break
      }
      let on = n['on' + ev.type]
      if (on === undefined && n._attr && n._attr.has('on' + ev.type) && n.ownerDocument._compile) try { on = n.ownerDocument._compile(n._attr.get('on' + ev.type)) } catch (e) { this._err(e) }
      if (typeof on === 'function') try { if (on.call(n, ev) === false) ev.preventDefault() } catch (e) { this._err(e) }
    }
    return !ev.defaultPrevented
  }
  _up() { return null }
  _err() {}
}
class ClassList {
  constructor(el) { this.el = el }
  get _a() { return this.el.className.split(/\s+/).filter(Boolean) }
  set _a(a) { this.el.className = a.join(' ') }
  _ok(c) { for (const x of c) if (String(x) === '' || /\s/.test(String(x))) throw Object.assign(new Error(`The token '${x}' is not valid`), { name: 'InvalidCharacterError' }) }
  add(...c) { this._ok(c); const a = this._a; for (const x of c) if (!a.includes(String(x))) a.push(String(x)); this._a = a }
  remove(...c) { this._ok(c); this._a = this._a.filter(x => !c.map(String).includes(x)) }
  contains(c) { return this._a.includes(String(c)) }
  toggle(c, force) { this._ok([c]); const want = force === undefined ? !this.contains(c) : !!force; want ? this.add(c) : this.remove(c); return want }
  replace(a, b) { if (!this.contains(a)) return false; this.remove(a); this.add(b); return true }
  item(i) { return this._a[i] ?? null }
  get length() { return this._a.length }
  get value() { return this.el.className }
  set value(v) { this.el.className = v }
  toString() { return this.el.className }
  forEach(f) { this._a.forEach(f) }
  [Symbol.iterator]() { return this._a[Symbol.iterator]() }
}
class Text { constructor(s) { this.data = String(s); this.parentNode = null } get textContent() { return this.data } set textContent(s) { this.data = String(s) } get nodeValue() { return this.data } set nodeValue(s) { this.data = String(s) } get nodeType() { return 3 } remove() { this.parentNode && this.parentNode.removeChild(this) } }
class Element extends Target {
  constructor(doc, tag) { super(); this.ownerDocument = doc; this.localName = tag; this.childNodes = []; this.parentNode = null; this._attr = new Map(); this.style = { setProperty(k, v) { this[k] = v }, removeProperty(k) { delete this[k] } }; this.value = ''; this.checked = false; this.disabled = false }
  get tagName() { return this.localName.toUpperCase() }
  get nodeName() { return this.tagName }
  get nodeType() { return 1 }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null }
  get children() { return this.childNodes.filter(n => n instanceof Element) }
  get firstChild() { return this.childNodes[0] ?? null }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null }
  get firstElementChild() { return this.children[0] ?? null }
  getAttribute(k) { return this._attr.has(k) ? this._attr.get(k) : null }
  hasAttribute(k) { return this._attr.has(k) }
  setAttribute(k, v) { this._attr.set(k, String(v)); if (k === 'value') this.value = String(v); if (k === 'checked') this.checked = true; if (k === 'disabled') this.disabled = true }
  removeAttribute(k) { this._attr.delete(k); if (k === 'checked') this.checked = false; if (k === 'disabled') this.disabled = false }
  toggleAttribute(k, f) { const w = f === undefined ? !this.hasAttribute(k) : f; w ? this.setAttribute(k, '') : this.removeAttribute(k); return w }
  get id() { return this.getAttribute('id') ?? '' } set id(v) { this.setAttribute('id', v) }
  get title() { return this.getAttribute('title') ?? '' } set title(v) { this.setAttribute('title', v) }
  get name() { return this.getAttribute('name') ?? '' } set name(v) { this.setAttribute('name', v) }
  get type() { return this.getAttribute('type') ?? '' } set type(v) { this.setAttribute('type', v) }
  get href() { return this.getAttribute('href') ?? '' } set href(v) { this.setAttribute('href', v) }
  get className() { return this.getAttribute('class') ?? '' } set className(v) { this.setAttribute('class', v) }
  get hidden() { return this.hasAttribute('hidden') } set hidden(v) { this.toggleAttribute('hidden', !!v) }
  get classList() { return this._cl ?? (this._cl = new ClassList(this)) } set classList(v) { this.className = String(v) }
  get dataset() { const el = this, key = k => 'data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase()); return new Proxy({}, { get: (_, k) => el.getAttribute(key(k)) ?? undefined, set: (_, k, v) => { el.setAttribute(key(k), v); return true }, deleteProperty: (_, k) => { el.removeAttribute(key(k)); return true }, has: (_, k) => el.hasAttribute(key(k)) }) }
  get textContent() { return this.childNodes.map(n => n.textContent).join('') }
  set textContent(v) { this.replaceChildren(...(v === null || v === undefined || String(v) === '' ? [] : [String(v)])) }
  get innerText() { return this.textContent } set innerText(v) { this.textContent = v === null ? '' : String(v) }
  get innerHTML() { return this.childNodes.map(n => n instanceof Text ? escape(n.data) : n.outerHTML).join('') }
  set innerHTML(v) { this.replaceChildren(); for (const k of parse(String(v)).kids) this.appendChild(this.ownerDocument._make(k)) }
  get outerHTML() { return `<${this.localName}${[...this._attr].map(([k, v]) => ` ${k}="${v.replace(/"/g, '&quot;')}"`).join('')}>${this.innerHTML}</${this.localName}>` }
  _node(n) { if (n instanceof Element || n instanceof Text) { n.parentNode && n.parentNode.removeChild(n); n.parentNode = this; return n } const t = new Text(n); t.parentNode = this; return t }
  appendChild(n) { if (n && n._fragment) { for (const k of [...n.childNodes]) this.appendChild(k); return n } this.childNodes.push(this._node(n)); return n }
  append(...a) { a.forEach(n => this.appendChild(n)) }
  prepend(...a) { this.childNodes.unshift(...a.map(n => this._node(n))) }
  insertBefore(n, ref) { const x = this._node(n); const i = ref ? this.childNodes.indexOf(ref) : -1; i < 0 ? this.childNodes.push(x) : this.childNodes.splice(i, 0, x); return n }
  removeChild(n) { const i = this.childNodes.indexOf(n); if (i >= 0) { this.childNodes.splice(i, 1); n.parentNode = null } return n }
  replaceChildren(...a) { for (const n of this.childNodes) n.parentNode = null; this.childNodes = []; this.append(...a) }
  replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o) }
  remove() { this.parentNode && this.parentNode.removeChild(this) }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false }
  insertAdjacentText(w, t) { w === 'afterbegin' ? this.prepend(t) : this.append(t) }
  insertAdjacentHTML(w, t) { for (const k of parse(String(t)).kids) w === 'afterbegin' ? this.prepend(this.ownerDocument._make(k)) : this.appendChild(this.ownerDocument._make(k)) }
  *_all() { for (const c of this.childNodes) if (c instanceof Element) { yield c; yield* c._all() } }
  _is(simple) {
    const re = /^([a-zA-Z*][\w-]*|\*)?((?:#[\w-]+|\.[\w-]+|\[[^\]]+\]|:checked|:not\([^)]*\))*)$/.exec(simple); if (!re) return false
    if (re[1] && re[1] !== '*' && re[1].toLowerCase() !== this.localName) return false
    for (const p of re[2].match(/#[\w-]+|\.[\w-]+|\[[^\]]+\]|:checked|:not\([^)]*\)/g) ?? []) {
      if (p[0] === '#' && this.id !== p.slice(1)) return false
      if (p[0] === '.' && !this.classList.contains(p.slice(1))) return false
      if (p === ':checked' && !this.checked) return false
      if (p.startsWith(':not(') && this._is(p.slice(5, -1))) return false
      if (p[0] === '[') { const a = /^\[([\w-]+)(?:([~^$*]?=)["']?([^"'\]]*)["']?)?\]$/.exec(p); if (!a || !this.hasAttribute(a[1])) return false; const v = this.getAttribute(a[1]); if (a[2] === '=' && v !== a[3]) return false; if (a[2] === '^=' && !v.startsWith(a[3])) return false; if (a[2] === '$=' && !v.endsWith(a[3])) return false; if (a[2] === '*=' && !v.includes(a[3])) return false }
    }
    return true
  }
  matches(sel) {
    return sel.split(',').some(s => { const parts = s.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/); let n = this
      if (!n._is(parts[parts.length - 1])) return false
      for (let i = parts.length - 2; i >= 0; --i) {
        if (parts[i] === '>') { --i; n = n.parentElement; if (!n || !n._is(parts[i])) return false }
        else { for (n = n.parentElement; n && !n._is(parts[i]); n = n.parentElement); if (!n) return false }
      }
      return true })
  }
  querySelectorAll(sel) { return [...this._all()].filter(e => e.matches(sel)) }
  querySelector(sel) { for (const e of this._all()) if (e.matches(sel)) return e; return null }
  getElementsByClassName(c) { return [...this._all()].filter(e => e.classList.contains(c)) }
  getElementsByTagName(t) { return [...this._all()].filter(e => t === '*' || e.localName === t.toLowerCase()) }
  closest(sel) { for (let n = this; n; n = n.parentElement) if (n.matches(sel)) return n; return null }
  focus() {} blur() {} select() {} scrollIntoView() {}
  click() { if (this.disabled) return; if (this.type === 'checkbox') { this.checked = !this.checked; this.dispatchEvent(new SimEvent('click')); this.dispatchEvent(new SimEvent('input')); this.dispatchEvent(new SimEvent('change')) } else this.dispatchEvent(new SimEvent('click')) }
  _up() { return this.parentNode }
  _err(e) { this.ownerDocument._err(e) }
}
class Document extends Target {
  constructor(onError) { super(); this._err = onError; this.readyState = 'loading'; this.root = new Element(this, '#root'); this.cookie = ''; this.title = ''; this.activeElement = null; this.visibilityState = 'visible'; this.hidden = false; this.defaultView = null }
  _make(n) { if (typeof n === 'string') return new Text(n); const e = new Element(this, n.tag); for (const k in n.attrs) e.setAttribute(k, n.attrs[k]); for (const k of n.kids) e.appendChild(this._make(k)); return e }
  build(tree) { for (const k of tree.kids) this.root.appendChild(this._make(k)); for (const e of this.root._all()) e.parentNode === this.root && (e.parentNode = this.root); this.root._up = () => this }
  _up() { return this.defaultView }
  get documentElement() { return this.querySelector('html') } get body() { return this.querySelector('body') } get head() { return this.querySelector('head') }
  getElementById(id) { for (const e of this._seen()) if (e.id === String(id)) return e; return null }
  *_seen() { for (const e of this.root._all()) { if (this.readyState === 'loading' && e.closest('body')) continue; yield e } }
  querySelector(s) { for (const e of this._seen()) if (e.matches(s)) return e; return null }
  querySelectorAll(s) { return [...this._seen()].filter(e => e.matches(s)) }
  getElementsByClassName(c) { return [...this._seen()].filter(e => e.classList.contains(c)) }
  getElementsByTagName(t) { return [...this._seen()].filter(e => t === '*' || e.localName === t.toLowerCase()) }
  getElementsByName(n) { return [...this._seen()].filter(e => e.name === n) }
  createElement(t) { return new Element(this, String(t).toLowerCase()) }
  createTextNode(t) { return new Text(t) }
  createDocumentFragment() { const f = new Element(this, '#fragment'); f._fragment = true; return f }
}
const visible = e => { for (let n = e; n instanceof Element; n = n.parentNode) if (n.classList.contains('invisible') || n.hidden || n.style.display === 'none' || n.style.visibility === 'hidden') return false; return true }
module.exports = { parse, Document, Element, Target, SimEvent, visible }
