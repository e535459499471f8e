// Minimal offline re-implementation of the EJS template language (the subset that ejs 3.x documents):
// <% code %>, <%= escaped %>, <%- raw %>, <%# comment %>, <%% literal, %%> literal, -%> newline trim,
// <%_ / _%> whitespace slurp, include(file, data), renderFile/render/compile.
"use strict";
const fs = require("fs");
const path = require("path");

const ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;", "\"": "&#34;", "'": "&#39;"};
function escapeXML(s) {
    return s === undefined || s === null ? "" : String(s).replace(/[&<>"']/g, c => ESC[c]);
}

function compileSource(tpl) {
    let out = "";
    let pos = 0;
    let trimNext = "";            // how to trim the beginning of the next literal
    const add = (s) => { if (s) out += "__append(" + JSON.stringify(s).replace(/\u2028/g, "\\u2028").replace(/\u2029/g, "\\u2029") + ");\n"; };
    function literal(s) {
        if (trimNext === "nl") s = s.replace(/^(?:\r\n|\r|\n)/, "");
        else if (trimNext === "slurp") s = s.replace(/^[ \t]*(?:\r\n|\r|\n)/, "");
        trimNext = "";
        add(s.replace(/%%>/g, "%>"));
    }
    for (;;) {
        const open = tpl.indexOf("<%", pos);
        if (open < 0) { literal(tpl.slice(pos)); break; }
        if (tpl.startsWith("<%%", open)) {
            literal(tpl.slice(pos, open) + "<%");
            pos = open + 3;
            continue;
        }
        let lit = tpl.slice(pos, open);
        let p = open + 2;
        let mode = "eval";
        const ch = tpl[p];
        if (ch === "=") { mode = "esc"; p++; }
        else if (ch === "-") { mode = "raw"; p++; }
        else if (ch === "#") { mode = "comment"; p++; }
        else if (ch === "_") { mode = "eval"; p++; lit = lit.replace(/(^|\n)[ \t]+$/, "$1"); }
        literal(lit);
        const close = tpl.indexOf("%>", p);
        if (close < 0) throw new Error("Could not find matching close tag for \"<%\".");
        let end = close;
        if (tpl[close - 1] === "-" && close - 1 >= p) { end = close - 1; trimNext = "nl"; }
        else if (tpl[close - 1] === "_" && close - 1 >= p) { end = close - 1; trimNext = "slurp"; }
        const code = tpl.slice(p, end);
        if (mode === "eval") out += code + "\n";
        else if (mode === "esc") out += "__append(escapeFn(" + code.replace(/;\s*$/, "") + "\n));\n";
        else if (mode === "raw") out += "__append(__str(" + code.replace(/;\s*$/, "") + "\n));\n";
        pos = close + 2;
    }
    return out;
}

function compile(tpl, opts) {
    opts = opts || {};
    const body = "const __out = []; const __append = s => { if (s !== undefined && s !== null) __out.push(s); };\n" +
        "const __str = s => (s === undefined || s === null) ? '' : String(s);\n" +
        "with (locals) {\n" + compileSource(tpl.replace(/^\uFEFF/, "")) + "}\nreturn __out.join('');";
    const fn = new Function("locals", "escapeFn", "include", body);
    return function (data) {
        const include = (file, d) => {
            let f = path.resolve(path.dirname(opts.filename || "."), file);
            if (!path.extname(f)) f += ".ejs";
            const src = fs.readFileSync(f, "utf8");
            return compile(src, {filename: f})(Object.assign(Object.create(null), shallow(data), d || {}));
        };
        return fn(data || {}, escapeXML, include);
    };
}
// like ejs: include() sees the parent's own data (own + the passed object)
function shallow(o) { const r = {}; for (const k in o) r[k] = o[k]; if (o) for (const k of protoKeys(o)) if (!(k in r)) r[k] = typeof o[k] === "function" ? o[k].bind(o) : o[k]; return r; }
function protoKeys(o) {
    const ks = [];
    for (let p = Object.getPrototypeOf(o); p && p !== Object.prototype; p = Object.getPrototypeOf(p))
        for (const k of Object.getOwnPropertyNames(p)) if (k !== "constructor") ks.push(k);
    return ks;
}

exports.compile = compile;
exports.escapeXML = escapeXML;
exports.render = (tpl, data, opts) => compile(tpl, opts)(data);
exports.renderFile = function (file, data, opts, cb) {
    if (typeof opts === "function") { cb = opts; opts = {}; }
    if (typeof data === "function") { cb = data; data = {}; }
    let res;
    try {
        res = compile(fs.readFileSync(file, "utf8"), {filename: file})(data);
    } catch (e) {
        if (cb) return cb(e);
        return Promise.reject(e);
    }
    if (cb) return cb(null, res);
    return Promise.resolve(res);
};
