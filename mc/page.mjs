// Runs the script of the web page against a stand-in for the browser, in
// which every event happens when the explorer says so.
//
// A request is a sequence of events, separated by \x01: `L` the module has
// loaded, `R` the document is ready, `I` and a text: the user makes the source
// this text.  The answer is `ok`, or what went wrong.

const entities = { lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", '#39': "'" };
const decode = (s) => s.replace(/&(lt|gt|amp|quot|apos|#39);/g, (_, n) => entities[n]);

// What the displayed text says: objects and maps as lists of keys and values.
class Unreadable extends Error {}
const read = (text) => {
  const tokens = [];
  const re = /\s*(?:([{}[\],:])|("(?:[^"\\]|\\.)*")|([^\s{}[\],:"]+))/gsy;
  let at = 0;
  while (at < text.length) {
    re.lastIndex = at;
    const m = re.exec(text);
    if (!m) {
      if (/^\s*$/.test(text.slice(at))) break;
      throw new Unreadable(`at ${JSON.stringify(text.slice(at, at + 40))}`);
    }
    at = re.lastIndex;
    if (m[1]) tokens.push(m[1]);
    else if (m[2]) {
      try { tokens.push({ s: JSON.parse(m[2]) }); } catch {
        throw new Unreadable(`the string ${m[2]}`);
      }
    } else tokens.push({ w: m[3] });
  }
  let i = 0;
  const expect = (t) => {
    if (tokens[i] !== t) throw new Unreadable(`${t} expected, token ${i}: ${JSON.stringify(tokens[i])}`);
    i++;
  };
  const list = (close, item) => {
    const out = [];
    i++;
    while (tokens[i] !== close) {
      out.push(item());
      if (tokens[i] === ',') i++;
      else if (tokens[i] !== close) throw new Unreadable(`token ${i}: ${JSON.stringify(tokens[i])}`);
    }
    i++;
    return out;
  };
  const value = () => {
    const t = tokens[i];
    if (t === '[') return '[' + list(']', value).join(',') + ']';
    if (t === '{') {
      return '{' + list('}', () => {
        const k = tokens[i++];
        if (k?.s === undefined && k?.w === undefined) throw new Unreadable('a key');
        expect(':');
        return JSON.stringify(k.s ?? k.w) + ':' + value();
      }).join(',') + '}';
    }
    i++;
    if (t?.s !== undefined) return JSON.stringify(t.s);
    if (t?.w === undefined) throw new Unreadable('a value');
    if (['null', 'undefined', 'true', 'false'].includes(t.w)) return t.w;
    const n = Number(t.w);
    if (Number.isNaN(n)) throw new Unreadable(`the word ${t.w}`);
    return '#' + (Object.is(n, -0) ? '-0' : n);
  };
  const v = value();
  if (i < tokens.length) throw new Unreadable('more than one value');
  return v;
};
const said = (x) => {
  if (x === null || x === undefined || typeof x === 'boolean') return String(x);
  if (typeof x === 'number') return '#' + (Object.is(x, -0) ? '-0' : x);
  if (typeof x === 'string') return JSON.stringify(x);
  if (Array.isArray(x)) return '[' + x.map(said).join(',') + ']';
  const e = x instanceof Map ? [...x] : Object.entries(x);
  return '{' + e.map(([k, v]) => JSON.stringify(String(k)) + ':' + said(v)).join(',') + '}';
};

export const page = (html, parseString) => {
  const scripts = [...html.matchAll(/<script\b([^>]*)>(.*?)<\/script>/gis)].map((m) => {
    let src = m[2].replace(
      /^\s*import\s+([^'"();]*?)\s+from\s+["'][^"'\n]*["']\s*;?/gm,
      (_, what) => {
        const all = what.match(/^\*\s+as\s+(\S+)$/);
        if (all) return `const ${all[1]} = __module;`;
        const names = [];
        const braces = what.match(/\{(.*)\}/s);
        const first = what.replace(/\{.*\}/s, '').replace(/,/g, '').trim();
        if (first) names.push(`default: ${first}`);
        if (braces) names.push(braces[1].replace(/\bas\b/g, ':'));
        return `const {${names.join(', ')}} = __module;`;
      });
    src = src.replace(/\bimport\s*\(/g, '__import(');
    const names = ['__module', '__import', 'document', 'window', 'globalThis', 'self',
      'console', 'setTimeout', 'clearTimeout', 'requestAnimationFrame', 'queueMicrotask'];
    return new Function(...names,
      `"use strict"; return (async () => {${src}\n})();`);
  });
  const body = html.replace(/<script\b.*?<\/script>/gis, '');

  const fresh = () => {
    const target = () => {
      const on = new Map();
      return {
        addEventListener(t, f) { on.set(t, [...(on.get(t) ?? []), f]); },
        removeEventListener(t, f) { on.set(t, (on.get(t) ?? []).filter((g) => g !== f)); },
        fire(t) {
          const e = { type: t, target: this, currentTarget: this, preventDefault() {}, stopPropagation() {} };
          for (const f of [...(on.get(t) ?? []), this['on' + t]]) {
            if (typeof f === 'function') f.call(this, e);
            else f?.handleEvent?.(e);
          }
        },
      };
    };
    const text = (x) => typeof x === 'string' ? x : x?.textContent ?? '';
    const elements = [];
    for (const m of body.matchAll(/<([a-z0-9]+)\b([^>]*)>/gi)) {
      const id = m[2].match(/\bid\s*=\s*["']?([^"'\s>]+)/i)?.[1];
      const el = Object.assign(target(), { tagName: m[1].toUpperCase(), id, style: {}, dataset: {},
        classList: { add() {}, remove() {}, toggle() {} }, value: '', textContent: '' });
      if (el.tagName === 'TEXTAREA') {
        const rest = body.slice(m.index + m[0].length);
        el.value = decode(rest.slice(0, rest.search(/<\/textarea/i))).replace(/^\n/, '');
        el.textContent = el.value;
      }
      Object.defineProperties(el, {
        innerText: { get() { return this.textContent; }, set(s) { this.textContent = String(s); } },
        innerHTML: { get() { return this.textContent; }, set(s) { this.textContent = decode(String(s).replace(/<br\s*\/?>/g, '\n').replace(/<[^>]*>/g, '')); } },
      });
      el.append = el.appendChild = (...x) => { el.textContent += x.map(text).join(''); };
      el.replaceChildren = (...x) => { el.textContent = x.map(text).join(''); };
      el.setAttribute = (k, v) => { el[k] = v; };
      el.getAttribute = (k) => el[k];
      elements.push(el);
    }
    const find = (q) => {
      const id = q.match(/#([\w-]+)\s*$/);
      if (id) return elements.find((e) => e.id === id[1]) ?? null;
      return elements.find((e) => e.tagName === q.trim().toUpperCase()) ?? null;
    };
    const document = Object.assign(target(), {
      readyState: 'interactive',
      getElementById: (id) => elements.find((e) => e.id === id) ?? null,
      querySelector: find,
      querySelectorAll: (q) => [find(q)].filter(Boolean),
      createTextNode: (s) => ({ textContent: String(s) }),
      createElement: () => ({ textContent: '' }),
    });
    document.body = Object.assign(target(), {});
    const window = Object.assign(target(), { document });
    return { document, window };
  };

  const turn = () => new Promise((r) => setImmediate(r));

  return async (bytes) => {
    const events = Buffer.from(bytes).toString('utf8').split('\x01');
    const { document, window } = fresh();
    let loaded = false, ready = false, wrong = null;
    let resolve;
    const promise = new Promise((r) => { resolve = r; });
    const guarded = (s) => {
      if (!loaded) throw new TypeError('the module has not been loaded');
      return parseString(s);
    };
    const mod = { default: () => promise, init: () => promise, parseString: guarded };
    let timers = [];
    const later = (f) => { timers.push(f); return timers.length; };
    const silent = new Proxy({}, { get: () => () => {} });
    const oops = (e) => { wrong ??= `the page's script throws ${e}`; };
    const settle = async () => {
      for (let k = 0; k < 3; k++) {
        await turn();
        const t = timers; timers = [];
        for (const f of t) try { f?.(); } catch (e) { oops(e); }
        if (!t.length) break;
      }
    };
    process.removeAllListeners('unhandledRejection');
    process.on('unhandledRejection', oops);
    for (const f of scripts) {
      f(mod, async () => mod, document, window, window, window, silent, later,
        (i) => { timers[i - 1] = undefined; }, later, queueMicrotask).catch(oops);
    }
    await settle();
    const source = document.getElementById('source'), result = document.getElementById('result');
    if (!source || !result) return 'there is no source or no result element';
    for (const [n, e] of events.entries()) {
      try {
        if (e === 'L') { loaded = true; resolve({}); }
        else if (e === 'R') { ready = true; document.fire('DOMContentLoaded'); document.readyState = 'complete'; window.fire('load'); }
        else { source.value = e.slice(1); source.fire('input'); }
      } catch (x) { oops(x); }
      await settle();
      if (wrong) return `after event ${n + 1}: ${wrong}`;
      if (!loaded || !ready) continue;
      let value, error;
      try { value = parseString(source.value); } catch (x) { error = x; }
      const shown = result.textContent;
      if (error !== undefined) {
        const m = String(error?.message ?? error);
        if (shown.trim() !== m.trim()) {
          return `after event ${n + 1} the page shows ${JSON.stringify(shown)}, expected the error ${JSON.stringify(m)}`;
        }
        continue;
      }
      let got;
      try { got = read(shown); } catch (x) {
        if (!(x instanceof Unreadable)) throw x;
        got = `nothing that can be read (${x.message})`;
      }
      const want = said(value);
      if (got !== want) {
        return `after event ${n + 1} the page shows ${JSON.stringify(shown)}, which says ${got}; expected ${want}`;
      }
    }
    return 'ok';
  };
};
