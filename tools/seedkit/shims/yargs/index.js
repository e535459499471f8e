// Offline stand-in for the part of yargs 15 that a simple command line needs.
"use strict";
function make(args) {
    const state = {aliases: [], demand: [], strings: new Set(), numbers: new Set(), booleans: new Set(), defaults: {}};
    const y = {};
    const chain = f => function (...a) { f(...a); return y; };
    for (const m of ["usage", "help", "version", "describe", "describes", "example", "epilog", "epilogue", "wrap", "strict", "showHelpOnFail", "group", "command", "scriptName", "recommendCommands", "locale", "nargs", "choices", "parserConfiguration", "showHelp", "hide", "coerce", "config", "env", "exitProcess"]) y[m] = chain(() => {});
    y.alias = chain((a, b) => { if (typeof a === "object") for (const k in a) state.aliases.push([k].concat(a[k])); else state.aliases.push([].concat(a, b)); });
    y.demandOption = y.demand = y.require = y.required = chain(a => { state.demand.push(...(typeof a === "object" && !Array.isArray(a) ? Object.keys(a) : [].concat(a))); });
    y.string = chain(a => [].concat(a).forEach(k => state.strings.add(k)));
    y.number = chain(a => [].concat(a).forEach(k => state.numbers.add(k)));
    y.boolean = chain(a => [].concat(a).forEach(k => state.booleans.add(k)));
    y.default = y.defaults = chain((k, v) => { if (typeof k === "object") Object.assign(state.defaults, k); else state.defaults[k] = v; });
    y.option = y.options = chain((k, o) => {
        const one = (k, o) => {
            o = o || {};
            if (o.alias) state.aliases.push([k].concat(o.alias));
            if (o.demandOption || o.demand || o.require || o.required) state.demand.push(k);
            if (o.type === "string" || o.string) state.strings.add(k);
            if (o.type === "number" || o.number) state.numbers.add(k);
            if (o.type === "boolean" || o.boolean) state.booleans.add(k);
            if ("default" in o) state.defaults[k] = o.default;
        };
        if (typeof k === "object") for (const n in k) one(n, k[n]); else one(k, o);
    });
    function names(k) { const r = new Set([k]); let grew = true; while (grew) { grew = false; for (const g of state.aliases) if (g.some(x => r.has(x))) for (const x of g) if (!r.has(x)) { r.add(x); grew = true; } } return r; }
    const inSet = (set, k) => { for (const n of names(k)) if (set.has(n)) return true; return false; };
    function looksNumber(x) {
        if (/^0x[0-9a-f]+$/i.test(x)) return true;
        if (/^0[^.]/.test(x)) return false;
        return /^[-]?(?:\d+(?:\.\d*)?|\.\d+)(e[-+]?\d+)?(\s*)$/.test(x);
    }
    function conv(k, v) {
        if (typeof v !== "string" || inSet(state.strings, k)) return v;
        const n = Number(v);
        if (inSet(state.numbers, k)) return n;
        if (looksNumber(v) && Number.isSafeInteger(Math.floor(parseFloat(v)))) return n;
        return v;
    }
    function parseArgs(av) {
        const argv = {_: [], $0: process.argv[1]};
        const set = (k, v) => { v = conv(k, v); for (const n of names(k)) argv[n] = (n in argv) ? [].concat(argv[n], v) : v; };
        for (let i = 0; i < av.length; i++) {
            const a = av[i];
            let m;
            const takeNext = k => (!inSet(state.booleans, k) && i + 1 < av.length && !/^-[^0-9]/.test(av[i + 1])) ? av[++i] : (inSet(state.strings, k) ? "" : true);
            if (a === "--") { argv._.push(...av.slice(i + 1)); break; }
            else if ((m = /^--([^=]+)=([\s\S]*)$/.exec(a))) set(m[1], m[2]);
            else if ((m = /^--no-(.+)$/.exec(a))) set(m[1], false);
            else if ((m = /^--(.+)$/.exec(a))) set(m[1], takeNext(m[1]));
            else if ((m = /^-([^-0-9])=([\s\S]*)$/.exec(a))) set(m[1], m[2]);
            else if ((m = /^-([^-0-9])$/.exec(a))) set(m[1], takeNext(m[1]));
            else if ((m = /^-([^-0-9].+)$/.exec(a))) {           // a group of short options: -abc
                const ls = m[1].split("");
                for (let j = 0; j < ls.length - 1; j++) {
                    const rest = ls.slice(j + 1).join("");
                    if (rest[0] === "=") { set(ls[j], rest.slice(1)); ls.length = 0; break; }
                    if (/[A-Za-z]/.test(ls[j]) && /^-?\d+(\.\d*)?(e-?\d+)?$/.test(rest)) { set(ls[j], rest); ls.length = 0; break; }
                    set(ls[j], inSet(state.strings, ls[j]) ? "" : true);
                }
                if (ls.length) { const k = ls[ls.length - 1]; set(k, takeNext(k)); }
            } else argv._.push(conv("_", a));
        }
        for (const k in state.defaults) for (const n of names(k)) if (!(n in argv)) argv[n] = state.defaults[k];
        const missing = state.demand.filter(k => ![...names(k)].some(n => n in argv));
        if (missing.length) { console.error("Missing required arguments: " + missing.join(", ")); process.exit(1); }
        return argv;
    }
    y.parse = av => parseArgs(av || args);
    Object.defineProperty(y, "argv", {get: () => parseArgs(args)});
    return y;
}
const root = av => make(av || process.argv.slice(2));
const singleton = make(process.argv.slice(2));
module.exports = Object.assign(root, {});
for (const k of Object.getOwnPropertyNames(singleton)) Object.defineProperty(module.exports, k, Object.getOwnPropertyDescriptor(singleton, k));
