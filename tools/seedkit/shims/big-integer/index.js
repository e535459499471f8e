// Offline stand-in for the npm package big-integer (1.6), on top of the native BigInt.
"use strict";
function Integer(v) { this.value = v; }
function parse(v, radix) {
    if (v === undefined) return 0n;
    if (v instanceof Integer) return v.value;
    if (typeof v === "bigint") return v;
    if (typeof v === "number") {
        if (!Number.isInteger(v)) throw new Error("Invalid integer: " + v);
        return BigInt(v);
    }
    if (typeof v === "object" && v !== null && typeof v.valueOf() !== "object") return parse(v.valueOf(), radix);
    let s = String(v).trim();
    let neg = false;
    if (s[0] === "+") s = s.slice(1);
    else if (s[0] === "-") { neg = true; s = s.slice(1); }
    let r;
    if (radix === undefined || Number(radix) === 10) {
        const m = /^(\d+)(?:\.(\d+))?(?:[eE]\+?(\d+))?$/.exec(s);
        if (!m) throw new Error("Invalid integer: " + v);
        let digits = m[1], frac = (m[2] || ""), e = Number(m[3] || 0);
        if (frac.length > e && /[1-9]/.test(frac.slice(e))) throw new Error("Invalid integer: " + v);
        r = BigInt(digits + frac.slice(0, e).padEnd(e, "0"));
    } else {
        const b = BigInt(Number(radix));
        r = 0n;
        for (const c of s.toLowerCase()) {
            const d = BigInt("0123456789abcdefghijklmnopqrstuvwxyz".indexOf(c));
            if (d < 0n || d >= b) throw new Error(c + " is not a valid digit in base " + radix + ".");
            r = r * b + d;
        }
    }
    return neg ? -r : r;
}
function bigInt(v, radix) { return new Integer(parse(v, radix)); }
const P = Integer.prototype;
const mk = v => new Integer(v);
const babs = v => v < 0n ? -v : v;
function def(names, f) { for (const n of names) P[n] = f; }
def(["add", "plus"], function (v) { return mk(this.value + parse(v)); });
def(["subtract", "minus"], function (v) { return mk(this.value - parse(v)); });
def(["multiply", "times"], function (v) { return mk(this.value * parse(v)); });
def(["divide", "over"], function (v) { const d = parse(v); if (d === 0n) throw new Error("Cannot divide by zero"); return mk(this.value / d); });
def(["mod", "remainder"], function (v) { const d = parse(v); if (d === 0n) throw new Error("Cannot divide by zero"); return mk(this.value % d); });
def(["divmod"], function (v) { const d = parse(v); if (d === 0n) throw new Error("Cannot divide by zero"); return {quotient: mk(this.value / d), remainder: mk(this.value % d)}; });
def(["negate"], function () { return mk(-this.value); });
def(["abs"], function () { return mk(babs(this.value)); });
def(["square"], function () { return mk(this.value * this.value); });
def(["next"], function () { return mk(this.value + 1n); });
def(["prev"], function () { return mk(this.value - 1n); });
def(["pow"], function (v) {
    const e = parse(v);
    if (e < 0n) return mk(this.value === 1n ? 1n : this.value === -1n ? (e & 1n ? -1n : 1n) : 0n);
    return mk(this.value ** e);
});
def(["modPow"], function (e, m) {
    e = parse(e); m = parse(m);
    if (m === 0n) throw new Error("Cannot take modPow with modulus 0");
    let b = this.value % m, r = 1n;
    if (e < 0n) { e = -e; b = this.modInv(m).value; }
    while (e > 0n) { if (b === 0n) return mk(0n); if (e & 1n) r = (r * b) % m; e >>= 1n; b = (b * b) % m; }
    return mk(r);
});
def(["modInv"], function (n) {
    n = parse(n);
    let t = 0n, newT = 1n, r = n, newR = babs(this.value);
    while (newR !== 0n) { const q = r / newR; [t, newT] = [newT, t - q * newT]; [r, newR] = [newR, r - q * newR]; }
    if (r !== 1n && r !== -1n) throw new Error(this.toString() + " and " + n.toString() + " are not co-prime");
    if (t < 0n) t += babs(n);
    if (this.value < 0n) t = -t;
    return mk(t);
});
def(["shiftLeft"], function (v) { const n = parse(v); return n < 0n ? this.shiftRight(-n) : mk(this.value << n); });
def(["shiftRight"], function (v) { const n = parse(v); return n < 0n ? this.shiftLeft(-n) : mk(this.value >> n); });
def(["and"], function (v) { return mk(this.value & parse(v)); });
def(["or"], function (v) { return mk(this.value | parse(v)); });
def(["xor"], function (v) { return mk(this.value ^ parse(v)); });
def(["not"], function () { return mk(-this.value - 1n); });
def(["bitLength"], function () {
    let n = this.value;
    if (n < 0n) n = -n - 1n;
    if (n === 0n) return mk(0n);
    return mk(BigInt(n.toString(2).length));
});
def(["compare", "compareTo"], function (v) {
    if (v === Infinity) return -1;
    if (v === -Infinity) return 1;
    const b = parse(v); return this.value === b ? 0 : this.value > b ? 1 : -1;
});
def(["compareAbs"], function (v) { const a = babs(this.value), b = babs(parse(v)); return a === b ? 0 : a > b ? 1 : -1; });
def(["equals", "eq"], function (v) { return this.compare(v) === 0; });
def(["notEquals", "neq"], function (v) { return this.compare(v) !== 0; });
def(["greater", "gt"], function (v) { return this.compare(v) > 0; });
def(["lesser", "lt"], function (v) { return this.compare(v) < 0; });
def(["greaterOrEquals", "geq"], function (v) { return this.compare(v) >= 0; });
def(["lesserOrEquals", "leq"], function (v) { return this.compare(v) <= 0; });
def(["isEven"], function () { return (this.value & 1n) === 0n; });
def(["isOdd"], function () { return (this.value & 1n) === 1n; });
def(["isPositive"], function () { return this.value > 0n; });
def(["isNegative"], function () { return this.value < 0n; });
def(["isUnit"], function () { return babs(this.value) === 1n; });
def(["isZero"], function () { return this.value === 0n; });
def(["isDivisibleBy"], function (v) { const d = parse(v); return d !== 0n && this.value % d === 0n; });
def(["isPrime", "isProbablePrime"], function () {
    const n = babs(this.value);
    if (n < 2n) return false;
    for (const p of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n, 41n]) { if (n === p) return true; if (n % p === 0n) return false; }
    let d = n - 1n, s = 0; while (!(d & 1n)) { d >>= 1n; s++; }
    outer: for (const a of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n, 41n]) {
        let x = mk(a).modPow(d, n).value;
        if (x === 1n || x === n - 1n) continue;
        for (let i = 1; i < s; i++) { x = x * x % n; if (x === n - 1n) continue outer; }
        return false;
    }
    return true;
});
def(["toString"], function (radix) { return this.value.toString(radix === undefined ? 10 : radix); });
def(["toJSON"], function () { return this.toString(); });
def(["toJSNumber", "valueOf"], function () { return Number(this.value); });
def(["toArray"], function (radix) { const s = babs(this.value).toString(radix); return {value: Array.from(s, c => parseInt(c, 36)), isNegative: this.value < 0n}; });
bigInt.one = mk(1n); bigInt.zero = mk(0n); bigInt.minusOne = mk(-1n);
for (let i = 0; i < 1000; i++) { bigInt[i] = mk(BigInt(i)); if (i) bigInt[-i] = mk(BigInt(-i)); }
bigInt.max = (a, b) => mk(parse(a) > parse(b) ? parse(a) : parse(b));
bigInt.min = (a, b) => mk(parse(a) < parse(b) ? parse(a) : parse(b));
bigInt.gcd = (a, b) => { a = babs(parse(a)); b = babs(parse(b)); while (b) [a, b] = [b, a % b]; return mk(a); };
bigInt.lcm = (a, b) => mk(babs(parse(a)) / bigInt.gcd(a, b).value * babs(parse(b)));
bigInt.isInstance = x => x instanceof Integer;
bigInt.fromArray = (d, base, neg) => { let r = 0n; const b = parse(base === undefined ? 10 : base); for (const x of d) r = r * b + parse(x); return mk(neg ? -r : r); };
module.exports = bigInt;
