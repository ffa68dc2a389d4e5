// Loads a page made by hob3l-js-copy-aux with stand-ins for DOM and WebGL, runs a list of user actions and reports what is
// drawn.  Reads a JSON request from stdin, prints a JSON reply.
// request: {html: path, ops: [...]}; reply: {error: text|null, frames: [null | [draw...]], alerts: [...]}
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm"), zlib = require("zlib");
const req = JSON.parse(fs.readFileSync(0, "utf8"));
const jar = new Map(), local = new Map();
let now = 1e12;
const out = { error: null, frames: [], alerts: [], loaded: [], saved: [] };

function attrs(t) {
    const r = {};
    const re = /([-a-zA-Z]+)\s*=\s*"([^"]*)"/g;
    for (let m; (m = re.exec(t));) { r[m[1].toLowerCase()] = m[2]; }
    return r;
}
function text(t) {
    return t.replace(/<[^>]*>/g, "").replace(/&#x([0-9a-fA-F]+);/g, (_, h) => String.fromCodePoint(parseInt(h, 16)))
        .replace(/&nbsp;/g, " ").replace(/&deg;/g, "°").trim();
}

class Page {
    constructor(file) {
        this.dir = path.dirname(file);
        this.events = [];
        this.timers = [];
        this.el = new Map();
        this.canvasOn = {};
        this.docOn = {};
        let html = fs.readFileSync(file, "utf8");
        const scripts = [];
        html = html.replace(/<!--[\s\S]*?-->/g, "");
        html = html.replace(/<script([^>]*)>([\s\S]*?)<\/script>/gi, (_, a, body) => { scripts.push([attrs(a), body]); return ""; });
        this.html = html;
        for (const [a, body] of scripts) {
            if (a.id) { this.el.set(a.id, { type: a.type, firstChild: { nodeType: 3, TEXT_NODE: 3, textContent: body, nextSibling: null } }); }
        }
        this.buttons = [];
        this.parse(html, this.el);
        let row = "";
        const re = /<tr[^>]*>|<td[^>]*>([^<]*)|<button([^>]*)>([\s\S]*?)<\/button>/gi;
        for (let m; (m = re.exec(html));) {
            if (m[0].startsWith("<tr")) { row = ""; }
            else if (m[2] === undefined) { if (!row) { row = (m[1] || "").trim(); } }
            else { this.buttons.push({ row: row, label: text(m[3]), code: attrs(m[2]).onclick }); }
        }
        this.body = attrs((/<body([^>]*)>/i.exec(html) || ["", ""])[1]);
        const page = this;
        const g = this.gl();
        const canvas = this.el.get("glcanvas");
        canvas.width = 800; canvas.height = 600;
        canvas.getContext = (k) => k === "webgl" ? g : null;
        canvas.addEventListener = (k, f) => { page.canvasOn[k] = f; };
        this.canvas = canvas;
        const doc = {
            getElementById: (id) => page.find(id),
            addEventListener: (k, f) => { page.docOn[k] = f; },
            get cookie() {
                for (const [k, v] of jar) { if (v.expires <= now) { jar.delete(k); } }
                return [...jar].map(([k, v]) => k + "=" + v.value).join("; ");
            },
            set cookie(t) {
                const p = t.split(";"), e = p[0].indexOf("=");
                const k = p[0].slice(0, e).trim(), v = p[0].slice(e + 1).trim();
                let x = Infinity;
                for (const q of p.slice(1)) { const m = /^\s*expires=(.*)$/i.exec(q); if (m) { x = Date.parse(m[1]); } }
                if (x <= now) { jar.delete(k); } else { jar.set(k, { value: v, expires: x }); }
            },
        };
        const ls = {
            getItem: (k) => local.has(k) ? local.get(k) : null,
            setItem: (k, v) => { local.set(k, String(v)); },
            removeItem: (k) => { local.delete(k); },
        };
        class D extends Date {
            constructor(...a) { if (a.length) { super(...a); } else { super(now); } }
            static now() { return now; }
        }
        const w = {
            document: doc, alert: (t) => out.alerts.push(String(t)), Date: D,
            setInterval: (f, t) => { page.timers.push(f); return page.timers.length; },
            requestAnimationFrame: (f) => { page.timers.push(f); return 1; },
            innerWidth: 1124, innerHeight: 600, console: console, localStorage: ls,
            addEventListener: (k, f) => { page.docOn[k] = f; },
        };
        w.window = w;
        this.ctx = vm.createContext(w);
        for (const [a, body] of scripts) {
            if (a.type && !/javascript/.test(a.type)) { continue; }
            if (a.src) {
                let f = path.join(this.dir, decodeURI(a.src)), d = fs.readFileSync(f);
                out.loaded.push(a.src);
                if (f.endsWith(".gz")) { d = zlib.gunzipSync(d); }
                vm.runInContext(d.toString("utf8"), this.ctx, { filename: f, timeout: 20000 });
            }
            else { this.run(body); }
        }
        if (this.body.onload) { this.run(this.body.onload); }
        this.settle();
    }
    run(code) { return vm.runInContext(code, this.ctx, { timeout: 20000 }); }
    // elements of a piece of HTML
    parse(html, map) {
        const re = /<([a-z]+)([^>]*)>/gi;
        for (let m; (m = re.exec(html));) {
            const a = attrs(m[2]);
            if (a.id) { map.set(a.id, this.element(a, m[1])); }
        }
    }
    element(a, tag) {
        const page = this, e = { tag: tag, attr: a, style: {}, sub: new Map(), inner: "", left: 0, checked: a.checked !== undefined, clientWidth: 270, scrollWidth: 3200 };
        e.clientWidth = a.id === "ctrltable" ? 308 : 270;
        let value = a.value === undefined ? "" : a.value;
        Object.defineProperty(e, "value", { get: () => value, set: (v) => { value = String(v); } });
        Object.defineProperty(e, "innerHTML", { get: () => e.inner, set: (t) => { e.inner = String(t); e.sub = new Map(); page.parse(e.inner, e.sub); } });
        Object.defineProperty(e, "scrollLeft", {
            get: () => e.left,
            set: (v) => {
                v = Math.round(Math.min(Math.max(Number(v) || 0, 0), e.scrollWidth - e.clientWidth));
                if (v !== e.left) { e.left = v; if (a.onscroll) { page.events.push(a.onscroll); } }
            }
        });
        return e;
    }
    find(id) {
        if (this.el.has(id)) { return this.el.get(id); }
        for (const e of this.el.values()) { if (e.sub && e.sub.has(id)) { return e.sub.get(id); } }
        return null;
    }
    settle() {
        for (let n = 0; this.events.length; n++) {
            if (n > 1000) { throw new Error("scroll events never end"); }
            this.run(this.events.shift());
        }
    }
    button(row, label) {
        for (const b of this.buttons) { if (b.row === row && b.label === label) { return b.code; } }
        for (const e of this.el.values()) {
            if (!e.inner) { continue; }
            const re = /<button([^>]*)>([\s\S]*?)<\/button>/gi;
            for (let m; (m = re.exec(e.inner));) { if (e.attr.id === row && text(m[2]) === label) { return attrs(m[1]).onclick; } }
        }
        throw new Error("no button '" + label + "' in '" + row + "'");
    }
    gl() {
        const page = this;
        const names = [], g = { bound: {}, on: new Set(), ptr: {}, uni: {}, konst: {}, prog: null };
        const T = { ARRAY_BUFFER: 1, ELEMENT_ARRAY_BUFFER: 2, STATIC_DRAW: 3, FLOAT: 4, UNSIGNED_SHORT: 5, TRIANGLES: 6, DEPTH_TEST: 7, BLEND: 8,
            COLOR_BUFFER_BIT: 16, DEPTH_BUFFER_BIT: 32, SRC_ALPHA: 9, ONE: 10, ONE_MINUS_SRC_ALPHA: 11, LEQUAL: 12, COMPILE_STATUS: 13, LINK_STATUS: 14,
            VERTEX_SHADER: 15, FRAGMENT_SHADER: 17 };
        const loc = (n) => { if (!names.includes(n)) { names.push(n); } return names.indexOf(n); };
        const f = {
            createBuffer: () => ({ data: null }),
            bindBuffer: (t, b) => { g.bound[t] = b; },
            bufferData: (t, d) => { g.bound[t].data = d.slice(); },
            createShader: (t) => ({ t: t, src: "" }), shaderSource: (s, t) => { s.src = t; }, compileShader: () => 0,
            getShaderParameter: () => true, getShaderInfoLog: () => "", createProgram: () => ({}), attachShader: () => 0, linkProgram: () => 0,
            getProgramParameter: () => true, useProgram: (p) => { g.prog = p; },
            getAttribLocation: (p, n) => loc(n), enableVertexAttribArray: (l) => { g.on.add(names[l]); },
            vertexAttribPointer: (l, n, t, norm, stride, off) => { g.ptr[names[l]] = { b: g.bound[T.ARRAY_BUFFER], n: n, t: t, stride: stride, off: off }; },
            vertexAttrib1f: (l, v) => { g.konst[names[l]] = v; },
            getUniformLocation: (p, n) => n, uniformMatrix4fv: (n, tr, m) => { g.uni[n] = Array.from(m); if (tr) { g.uni[n] = null; } },
            viewport: (x, y, w, h) => { g.view = [x, y, w, h]; }, enable: () => 0, disable: () => 0, blendFunc: () => 0, clearColor: () => 0, depthFunc: () => 0,
            clear: (b) => { if (b & 16) { page.draws = []; } },
            drawElements: (mode, cnt, type, off) => {
                if (!g.prog) { throw new Error("no program in use"); }
                if (mode !== T.TRIANGLES || type !== T.UNSIGNED_SHORT) { throw new Error("unexpected drawElements mode or type"); }
                const ix = g.bound[T.ELEMENT_ARRAY_BUFFER].data;
                if (ix.constructor.name !== "Uint16Array") { throw new Error("index buffer has the wrong type"); }
                const idx = Array.from(ix).slice(off / 2, off / 2 + cnt);
                if (idx.length !== cnt) { throw new Error("drawElements beyond the index buffer"); }
                const get = (n, k) => {
                    if (!g.on.has(n)) { throw new Error("attribute " + n + " is not enabled"); }
                    const p = g.ptr[n], d = p.b.data;
                    if (p.t !== T.FLOAT || p.n !== k || p.stride || p.off || d.constructor.name !== "Float32Array") { throw new Error("unexpected layout of " + n); }
                    return idx.map((i) => { if ((i + 1) * k > d.length) { throw new Error("index beyond the buffer of " + n); } return Array.from(d.slice(i * k, i * k + k)); });
                };
                page.draws.push({ v: get("aVertexPosition", 3), n: get("aVertexNormal", 3), c: get("aVertexColor", 4),
                    mv: g.uni.uMVMatrix, pm: g.uni.uPMatrix, nm: g.uni.uNormalMatrix, alpha: g.konst.aScaleAlpha, view: g.view });
            },
        };
        return Object.assign(f, T);
    }
    frame() {
        now += 50;
        this.draws = null;
        for (const t of this.timers) { t(); }
        this.settle();
        return this.draws;
    }
    mouse(kind, a) {
        const ev = Object.assign({ clientX: 0, clientY: 0, buttons: 0, shiftKey: false, target: this.canvas, preventDefault: () => 0 }, a);
        for (const on of [this.canvasOn, this.docOn]) { if (on[kind]) { on[kind](ev); } }
    }
}

try {
    let page = new Page(req.html);
    for (const op of req.ops) {
        switch (op[0]) {
        case "frame": {
            let d = page.frame();
            if (d && !op[1]) { d = d.map((x) => ({ mv: x.mv, pm: x.pm, nm: x.nm, view: x.view, cnt: x.v.length, first: x.v[0] })); }
            out.frames.push(d);
            const row = page.el.get("loadPos");
            out.saved.push(row ? (row.inner.match(/<button[^>]*>[\s\S]*?<\/button>/gi) || []).map(text) : null);
            break; }
        case "button": page.run(page.button(op[1], op[2])); break;
        case "edit": { // type a value into an input field
            const e = page.find(op[1]);
            if (!e) { throw new Error("no input " + op[1]); }
            e.value = op[2];
            if (e.attr.onchange) { page.run(e.attr.onchange); }
            break; }
        case "check": {
            const e = page.find(op[1]);
            if (!e) { throw new Error("no checkbox " + op[1]); }
            e.checked = op[2];
            if (e.attr.onchange) { page.run(e.attr.onchange); }
            break; }
        case "value": { const e = page.find(op[1]); out.frames.push(e ? [e.value, e.checked, e.left] : null); break; }
        case "scroll": page.find(op[1]).scrollLeft = op[2] * 2930; break;
        case "mouse": page.mouse(op[1], op[2]); break;
        case "key": page.docOn[op[1]](Object.assign({ target: page.canvas }, op[2])); break;
        case "reload": page = new Page(req.html); break;
        default: throw new Error("unknown op " + op[0]);
        }
        page.settle();
    }
}
catch (e) {
    out.error = String(e && e.stack || e).slice(0, 1500);
}
process.stdout.write(JSON.stringify(out, (k, v) => typeof v === "number" && !Number.isFinite(v) ? String(v) : v));
