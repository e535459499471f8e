#include "arm_emu.hpp"
#include "pbt.hpp"
#include "fr_element.hpp"
#include <map>
#include <deque>

namespace arm {
uint64_t instructions = 0;

enum OpK { REG, IMM, SHIFT, MEM, LABEL, COND, SYM };
struct Opnd {
    OpK k; int reg = -1; bool w = false; int64_t imm = 0; std::string s;
    // MEM: base reg, imm offset or index reg with shift; mode 0 plain, 1 pre-index, 2 post-index
    int idx = -1; int sh = 0; int mode = 0; std::string shop;
};
struct Ins { std::string m; std::vector<Opnd> o; int line; std::string text; int op; int cond = -1; int target = -1; };

static const char *CONDS[] = {"eq","ne","cs","cc","mi","pl","vs","vc","hi","ls","ge","lt","gt","le","al","nv"};
static int condOf(const std::string &s) {
    if (s == "hs") return 2; if (s == "lo") return 3;
    for (int i = 0; i < 16; i++) if (s == CONDS[i]) return i;
    return -1;
}
enum { O_MOV, O_MVN, O_ADD, O_ADDS, O_SUB, O_SUBS, O_ADC, O_ADCS, O_SBC, O_SBCS, O_NEG, O_NEGS, O_NGC, O_NGCS, O_MUL, O_UMULH, O_MADD, O_MSUB,
       O_AND, O_ANDS, O_ORR, O_EOR, O_BIC, O_ORN, O_EON, O_LSL, O_LSR, O_ASR, O_ROR, O_EXTR, O_CMP, O_CMN, O_TST, O_CSET, O_CSETM, O_CINC, O_CNEG, O_CINV,
       O_CSEL, O_CSINC, O_CSINV, O_CSNEG, O_LDR, O_STR, O_LDP, O_STP, O_ADR, O_B, O_BC, O_BR, O_RET, O_CBZ, O_CBNZ, O_TBZ, O_TBNZ, O_NOP, O_MOVK, O_BL, O_BLR,
       O_MOVN, O_UDIV, O_SMULH, O_UMULL, O_MNEG, O_CLZ, O_CCMP, O_CCMN, O_UBFX, O_UBFIZ, O_BFI, O_BFXIL, O_SBFX, O_UXTW, O_SXTW, O_LDRB, O_STRB };
static std::map<std::string, int> &ops() { static std::map<std::string, int> t = {
    {"mov",O_MOV},{"movz",O_MOV},{"mvn",O_MVN},{"add",O_ADD},{"adds",O_ADDS},{"sub",O_SUB},{"subs",O_SUBS},{"adc",O_ADC},{"adcs",O_ADCS},{"sbc",O_SBC},{"sbcs",O_SBCS},
    {"neg",O_NEG},{"negs",O_NEGS},{"ngc",O_NGC},{"ngcs",O_NGCS},{"mul",O_MUL},{"umulh",O_UMULH},{"madd",O_MADD},{"msub",O_MSUB},{"and",O_AND},{"ands",O_ANDS},{"orr",O_ORR},
    {"eor",O_EOR},{"bic",O_BIC},{"orn",O_ORN},{"eon",O_EON},{"lsl",O_LSL},{"lsr",O_LSR},{"asr",O_ASR},{"ror",O_ROR},{"extr",O_EXTR},{"cmp",O_CMP},{"cmn",O_CMN},{"tst",O_TST},
    {"cset",O_CSET},{"csetm",O_CSETM},{"cinc",O_CINC},{"cneg",O_CNEG},{"cinv",O_CINV},{"csel",O_CSEL},{"csinc",O_CSINC},{"csinv",O_CSINV},{"csneg",O_CSNEG},
    {"ldr",O_LDR},{"ldur",O_LDR},{"str",O_STR},{"stur",O_STR},{"ldp",O_LDP},{"stp",O_STP},{"adr",O_ADR},{"adrp",O_ADR},{"b",O_B},{"br",O_BR},{"ret",O_RET},{"cbz",O_CBZ},{"cbnz",O_CBNZ},
    {"tbz",O_TBZ},{"tbnz",O_TBNZ},{"nop",O_NOP},{"movk",O_MOVK},
    {"bl",O_BL},{"blr",O_BLR},{"bti",O_NOP},{"hint",O_NOP},{"paciasp",O_NOP},{"autiasp",O_NOP},{"movn",O_MOVN},{"udiv",O_UDIV},{"smulh",O_SMULH},{"umull",O_UMULL},{"mneg",O_MNEG},{"clz",O_CLZ},{"ccmp",O_CCMP},{"ccmn",O_CCMN},
    {"ubfx",O_UBFX},{"ubfiz",O_UBFIZ},{"bfi",O_BFI},{"bfxil",O_BFXIL},{"sbfx",O_SBFX},{"uxtw",O_UXTW},{"sxtw",O_SXTW},{"ldrb",O_LDRB},{"ldurb",O_LDRB},{"strb",O_STRB},{"sturb",O_STRB},{"lslv",O_LSL},{"lsrv",O_LSR},{"asrv",O_ASR},{"rorv",O_ROR}}; return t; }

struct Program {
    std::vector<Ins> code;
    std::map<std::string, int> labels;              // code labels
    std::map<std::string, size_t> dataLabels;       // offset in data
    std::vector<uint64_t> data;
    std::vector<std::pair<size_t, std::string>> fixups;
    std::string file;
    static const uint64_t CODETAG = 0xC0DE000000000000ull;

    static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
    [[noreturn]] void bad(int line, const std::string &why) { fprintf(stderr, "%s:%d: cannot interpret: %s\n", file.c_str(), line, why.c_str()); pbt::fail("ARM64 source line %d cannot be interpreted: %s", line, why.c_str()); }
    static bool regOf(const std::string &s, int &r, bool &w) {
        w = false;
        if (s == "sp") { r = 32; return true; }
        if (s == "xzr") { r = 31; return true; }
        if (s == "wzr") { r = 31; w = true; return true; }
        if (s == "lr") { r = 30; return true; }
        if (s == "fp") { r = 29; return true; }
        if (s.size() < 2 || (s[0] != 'x' && s[0] != 'w')) return false;
        for (size_t i = 1; i < s.size(); i++) if (!isdigit(s[i])) return false;
        r = atoi(s.c_str() + 1); if (r > 30) return false;
        w = s[0] == 'w'; return true;
    }
    static bool immOf(std::string s, int64_t &v) {
        if (!s.empty() && s[0] == '#') s = s.substr(1);
        if (s.empty()) return false;
        char *e; bool neg = s[0] == '-';
        if (!isdigit(s[neg ? 1 : 0])) return false;
        v = neg ? strtoll(s.c_str(), &e, 0) : (int64_t)strtoull(s.c_str(), &e, 0);
        return *e == 0;
    }
    static std::vector<std::string> split(const std::string &s) {
        std::vector<std::string> r; int depth = 0; std::string cur;
        for (char c : s) { if (c == '[') depth++; if (c == ']') depth--; if (c == ',' && depth == 0) { r.push_back(trim(cur)); cur.clear(); } else cur += c; }
        if (!trim(cur).empty() || !r.empty()) r.push_back(trim(cur));
        return r;
    }
    Opnd operand(const std::string &s, int line) {
        Opnd o; int64_t v;
        if (s.empty()) bad(line, "empty operand");
        if (s[0] == '[') {
            size_t e = s.find(']'); if (e == std::string::npos) bad(line, s);
            o.k = MEM; if (e + 1 < s.size() && s[e + 1] == '!') o.mode = 1;
            auto in = split(s.substr(1, e - 1));
            bool w; if (in.empty() || !regOf(in[0], o.reg, w)) bad(line, s);
            if (in.size() >= 2) { if (immOf(in[1], v)) o.imm = v; else if (!regOf(in[1], o.idx, w)) bad(line, s); }
            if (in.size() >= 3) { std::string t = trim(in[2]); if (t.compare(0, 3, "lsl") || !immOf(trim(t.substr(3)), v)) bad(line, s); o.sh = (int)v; }
            return o;
        }
        if (regOf(s, o.reg, o.w)) { o.k = REG; return o; }
        if (immOf(s, v)) { o.k = IMM; o.imm = v; return o; }
        for (const char *sh : {"lsl", "lsr", "asr", "ror"}) if (s.compare(0, 3, sh) == 0 && s.size() > 3 && (s[3] == ' ' || s[3] == '#')) { if (!immOf(trim(s.substr(3)), v)) bad(line, s); o.k = SHIFT; o.shop = sh; o.imm = v; return o; }
        if (condOf(s) >= 0) { o.k = COND; o.imm = condOf(s); o.s = s; return o; }
        o.k = SYM; o.s = s;
        if (s.compare(0, 6, ":lo12:") == 0 || s.compare(0, 7, "#:lo12:") == 0) { o.k = IMM; o.imm = 0; return o; }      // adrp already gave the whole address
        if (s.size() >= 2 && isdigit((unsigned char)s[0]) && (s.back() == 'f' || s.back() == 'b')) {       // 1f, 1b
            std::string n = s.substr(0, s.size() - 1); int c = localCount[n];
            o.s = "L\1" + n + "\1" + std::to_string(s.back() == 'f' ? c + 1 : c);
        }
        return o;
    }
    std::map<std::string, int> localCount;
    uint64_t address(const Ins &i, const std::string &l) const;
    void load(const std::string &f) {
        file = f; std::ifstream in(f); if (!in) { fprintf(stderr, "cannot open %s\n", f.c_str()); exit(3); }
        std::string l; int n = 0;
        std::vector<std::string> pending;       // labels waiting for code or data
        auto place = [&](bool isData) { for (auto &p : pending) { if (isData) dataLabels[p] = data.size(); else labels[p] = (int)code.size(); } pending.clear(); };
        while (std::getline(in, l)) {
            n++;
            size_t c = l.find("//"); if (c != std::string::npos) l = l.substr(0, c);
            l = trim(l);
            for (;;) {      // labels
                size_t i = 0; while (i < l.size() && (isalnum((unsigned char)l[i]) || l[i] == '_' || l[i] == '.' || l[i] == '$')) i++;
                if (i > 0 && i < l.size() && l[i] == ':') {
                    std::string lab = l.substr(0, i); l = trim(l.substr(i + 1));
                    if (isdigit((unsigned char)lab[0])) lab = "L\1" + lab + "\1" + std::to_string(++localCount[lab]);
                    pending.push_back(lab);
                } else break;
            }
            if (l.empty()) continue;
            size_t sp = l.find_first_of(" \t"); std::string m = l.substr(0, sp), rest = sp == std::string::npos ? "" : trim(l.substr(sp));
            if (m[0] == '.') {
                if (m == ".quad" || m == ".xword" || m == ".8byte") {
                    place(true);
                    for (auto &x : split(rest)) { int64_t v; if (immOf(x, v)) data.push_back((uint64_t)v); else { fixups.push_back({data.size(), x}); data.push_back(0); } }
                }
                continue;
            }
            place(false);
            Ins ins; ins.m = m; ins.line = n; ins.text = l;
            if (m.compare(0, 2, "b.") == 0) { ins.op = O_BC; ins.cond = condOf(m.substr(2)); if (ins.cond < 0) bad(n, l); }
            else { auto it = ops().find(m); if (it == ops().end()) bad(n, l); ins.op = it->second; }
            for (auto &x : split(rest)) ins.o.push_back(operand(x, n));
            if (ins.o.size() >= 2 && ins.o[ins.o.size() - 2].k == MEM && ins.o.back().k == IMM) { ins.o[ins.o.size() - 2].mode = 2; ins.o[ins.o.size() - 2].imm = ins.o.back().imm; ins.o.pop_back(); }
            code.push_back(ins);
        }
        data.push_back(0);
        for (auto &f : fixups) { auto it = labels.find(f.second); if (it == labels.end()) { fprintf(stderr, "%s: unknown label %s\n", file.c_str(), f.second.c_str()); pbt::fail("unknown label %s in the ARM64 source", f.second.c_str()); } data[f.first] = CODETAG | (uint64_t)it->second; }
        for (auto &i : code) for (auto &o : i.o) if (o.k == SYM && i.op != O_ADR && i.op != O_LDR) { auto it = labels.find(o.s); if (it == labels.end()) bad(i.line, "unknown label " + o.s); i.target = it->second; }
    }
};
uint64_t Program::address(const Ins &i, const std::string &l) const {
    auto d = dataLabels.find(l); if (d != dataLabels.end()) return (uint64_t)(data.data() + d->second);
    auto c = labels.find(l); if (c == labels.end()) pbt::fail("line %d: unknown label %s", i.line, l.c_str());
    return CODETAG | (uint64_t)c->second;
}
static Program &prog() { static Program *p = [] { Program *q = new Program; q->load(ARM_SOURCE); return q; }(); return *p; }
bool exists(const char *fn) { return prog().labels.count(fn) != 0; }

struct Cpu {
    uint64_t x[33]; bool N, Z, C, V;
    bool cond(int c) {
        bool r;
        switch (c >> 1) { case 0: r = Z; break; case 1: r = C; break; case 2: r = N; break; case 3: r = V; break; case 4: r = C && !Z; break; case 5: r = N == V; break; case 6: r = N == V && !Z; break; default: return true; }
        return (c & 1) ? !r : r;
    }
};

uint64_t call(const char *fn, const uint64_t *args, int nargs, const Region *regs, int nregs) {
    Program &P = prog();
    auto it = P.labels.find(fn);
    if (it == P.labels.end()) pbt::fail("the ARM64 source does not define %s", fn);
    static const int STK = 4096;
    alignas(16) static thread_local unsigned char stack[STK];
    Cpu c; uint64_t g = 0xABCDEF12345ull;
    for (int i = 0; i < 32; i++) c.x[i] = pbt::splitmix(g);
    c.N = g & 1; c.Z = g & 2; c.C = g & 4; c.V = g & 8;
    for (int i = 0; i < nargs; i++) c.x[i] = args[i];
    uint64_t top = (uint64_t)(stack + STK - 64); c.x[32] = top;
    uint64_t saved[32]; memcpy(saved, c.x, sizeof saved);
    int pc = it->second; long steps = 0;
    auto chk = [&](uint64_t a, bool wr, const Ins &i) {
        uint64_t lo = (uint64_t)stack, hi = (uint64_t)stack + STK - 64;
        if (a >= lo && a + 8 <= hi) { if (a < c.x[32]) pbt::fail("%s line %d (%s): access below the stack pointer", fn, i.line, i.text.c_str()); return; }
        for (int k = 0; k < nregs; k++) if (a >= (uint64_t)regs[k].p && a + 8 <= (uint64_t)regs[k].p + regs[k].n && (!wr || regs[k].write)) return;
        uint64_t d = (uint64_t)P.data.data();
        if (!wr && a >= d && a + 8 <= d + 8 * (P.data.size() - 1)) return;
        pbt::fail("%s line %d (%s): %s outside the operands", fn, i.line, i.text.c_str(), wr ? "store" : "load");
    };
    for (;;) {
        if (pc < 0 || pc >= (int)P.code.size()) pbt::fail("%s: control leaves the code", fn);
        if (++steps > 200000) pbt::fail("%s: more than 200000 instructions", fn);
        const Ins &i = P.code[pc++]; instructions++;
        const std::vector<Opnd> &o = i.o;
        bool W = !o.empty() && o[0].k == REG && o[0].w;
        uint64_t mask = W ? 0xffffffffull : ~0ull; int bits = W ? 32 : 64;
        auto get = [&](const Opnd &p) -> uint64_t { if (p.k == IMM) return (uint64_t)p.imm & mask; if (p.k != REG) pbt::fail("%s line %d (%s): operand kind", fn, i.line, i.text.c_str()); return p.reg == 31 ? 0 : (p.w ? c.x[p.reg] & 0xffffffff : c.x[p.reg]); };
        auto set = [&](const Opnd &p, uint64_t v) {
            if (p.k != REG) pbt::fail("%s line %d (%s): destination kind", fn, i.line, i.text.c_str());
            if (p.reg == 31) return;
            if (p.reg == 18) pbt::fail("%s line %d (%s): writes the platform register x18", fn, i.line, i.text.c_str());
            c.x[p.reg] = p.w ? v & 0xffffffff : v;
        };
        auto shifted = [&](size_t k) -> uint64_t {       // operand k with an optional shift in k+1
            uint64_t v = get(o[k]);
            if (o.size() > k + 1 && o[k + 1].k == SHIFT) { int s = (int)o[k + 1].imm; const std::string &h = o[k + 1].shop;
                if (s < 0 || s >= bits) pbt::fail("%s line %d (%s): shift out of range", fn, i.line, i.text.c_str());
                if (h == "lsl") v = v << s; else if (h == "lsr") v = v >> s; else if (h == "asr") v = W ? (uint64_t)((int32_t)v >> s) : (uint64_t)((int64_t)v >> s); else v = s ? ((v >> s) | (v << (bits - s))) : v; }
            return v & mask;
        };
        auto need = [&](size_t n) { if (o.size() < n) pbt::fail("%s line %d (%s): operand count", fn, i.line, i.text.c_str()); };
        auto addc = [&](uint64_t a, uint64_t b, uint64_t ci, bool fl) -> uint64_t {
            unsigned __int128 s = (unsigned __int128)(a & mask) + (b & mask) + ci; uint64_t r = (uint64_t)s & mask;
            if (fl) { c.N = (r >> (bits - 1)) & 1; c.Z = r == 0; c.C = (s >> bits) & 1; c.V = ((~(a ^ b) & (a ^ r)) >> (bits - 1)) & 1; }
            return r;
        };
        auto logic = [&](uint64_t r, bool fl) -> uint64_t { r &= mask; if (fl) { c.N = (r >> (bits - 1)) & 1; c.Z = r == 0; c.C = c.V = false; } return r; };
        int postReg = -1; uint64_t postVal = 0;
        auto ea = [&](const Opnd &m, int bytes) -> uint64_t {
            uint64_t b = c.x[m.reg];
            if (m.reg == 32 && (b & 15)) pbt::fail("%s line %d: misaligned stack pointer", fn, i.line);
            if (m.mode == 2) { postReg = m.reg; postVal = b + m.imm; return b; }
            uint64_t a = b + (m.idx >= 0 ? (m.idx == 31 ? 0 : c.x[m.idx]) << m.sh : (uint64_t)m.imm);
            if (m.mode == 1) { c.x[m.reg] = a; }
            (void)bytes; return a;
        };
        auto ld = [&](uint64_t a) { chk(a, false, i); uint64_t v; memcpy(&v, (void *)a, 8); return v; };
        auto st = [&](uint64_t a, uint64_t v) { chk(a, true, i); memcpy((void *)a, &v, 8); };
        auto chkn = [&](uint64_t a, int n, bool wr) { if (n == 8) { chk(a, wr, i); return; } uint64_t e = a & 7; chk(a - e, wr, i); if (e + n > 8) chk(a - e + 8, wr, i); };   // whole limbs: every object is made of them
        auto ldn = [&](uint64_t a, int n) -> uint64_t { chkn(a, n, false); uint64_t v = 0; memcpy(&v, (void *)a, n); return v; };
        auto stn = [&](uint64_t a, uint64_t v, int n) { chkn(a, n, true); memcpy((void *)a, &v, n); };
        auto cnd = [&](const Opnd &p) { if (p.k != COND) pbt::fail("%s line %d (%s): condition", fn, i.line, i.text.c_str()); return c.cond((int)p.imm); };
        switch (i.op) {
        case O_MOV: need(2); set(o[0], shifted(1)); break;
        case O_MOVK: { need(2); int s = o.size() > 2 ? (int)o[2].imm : 0; set(o[0], (get(o[0]) & ~(0xffffull << s)) | ((uint64_t)o[1].imm << s)); break; }
        case O_MVN: need(2); set(o[0], ~shifted(1) & mask); break;
        case O_ADD: need(3); set(o[0], addc(get(o[1]), shifted(2), 0, false)); break;
        case O_ADDS: need(3); set(o[0], addc(get(o[1]), shifted(2), 0, true)); break;
        case O_SUB: need(3); set(o[0], addc(get(o[1]), ~shifted(2), 1, false)); break;
        case O_SUBS: need(3); set(o[0], addc(get(o[1]), ~shifted(2), 1, true)); break;
        case O_ADC: need(3); set(o[0], addc(get(o[1]), get(o[2]), c.C, false)); break;
        case O_ADCS: need(3); set(o[0], addc(get(o[1]), get(o[2]), c.C, true)); break;
        case O_SBC: need(3); set(o[0], addc(get(o[1]), ~get(o[2]), c.C, false)); break;
        case O_SBCS: need(3); set(o[0], addc(get(o[1]), ~get(o[2]), c.C, true)); break;
        case O_NEG: need(2); set(o[0], addc(0, ~shifted(1), 1, false)); break;
        case O_NEGS: need(2); set(o[0], addc(0, ~shifted(1), 1, true)); break;
        case O_NGC: need(2); set(o[0], addc(0, ~get(o[1]), c.C, false)); break;
        case O_NGCS: need(2); set(o[0], addc(0, ~get(o[1]), c.C, true)); break;
        case O_MUL: need(3); set(o[0], get(o[1]) * get(o[2])); break;
        case O_UMULH: need(3); set(o[0], (uint64_t)(((unsigned __int128)get(o[1]) * get(o[2])) >> 64)); break;
        case O_MADD: need(4); set(o[0], get(o[3]) + get(o[1]) * get(o[2])); break;
        case O_MSUB: need(4); set(o[0], get(o[3]) - get(o[1]) * get(o[2])); break;
        case O_AND: need(3); set(o[0], logic(get(o[1]) & shifted(2), false)); break;
        case O_ANDS: need(3); set(o[0], logic(get(o[1]) & shifted(2), true)); break;
        case O_ORR: need(3); set(o[0], logic(get(o[1]) | shifted(2), false)); break;
        case O_EOR: need(3); set(o[0], logic(get(o[1]) ^ shifted(2), false)); break;
        case O_BIC: need(3); set(o[0], logic(get(o[1]) & ~shifted(2), false)); break;
        case O_ORN: need(3); set(o[0], logic(get(o[1]) | ~shifted(2), false)); break;
        case O_EON: need(3); set(o[0], logic(get(o[1]) ^ ~shifted(2), false)); break;
        case O_LSL: need(3); set(o[0], (get(o[1]) << (get(o[2]) & (bits - 1))) & mask); break;
        case O_LSR: need(3); set(o[0], (get(o[1]) & mask) >> (get(o[2]) & (bits - 1))); break;
        case O_ASR: need(3); set(o[0], W ? (uint64_t)((int32_t)get(o[1]) >> (get(o[2]) & 31)) : (uint64_t)((int64_t)get(o[1]) >> (get(o[2]) & 63))); break;
        case O_ROR: { need(3); int s = get(o[2]) & (bits - 1); uint64_t v = get(o[1]) & mask; set(o[0], s ? ((v >> s) | (v << (bits - s))) & mask : v); break; }
        case O_EXTR: { need(4); int s = (int)o[3].imm; uint64_t hi = get(o[1]), lo = get(o[2]); set(o[0], s ? ((lo >> s) | (hi << (bits - s))) & mask : lo); break; }
        case O_CMP: need(2); addc(get(o[0]), ~shifted(1), 1, true); break;
        case O_CMN: need(2); addc(get(o[0]), shifted(1), 0, true); break;
        case O_TST: need(2); logic(get(o[0]) & shifted(1), true); break;
        case O_CSET: need(2); set(o[0], cnd(o[1]) ? 1 : 0); break;
        case O_CSETM: need(2); set(o[0], cnd(o[1]) ? mask : 0); break;
        case O_CINC: need(3); set(o[0], get(o[1]) + (cnd(o[2]) ? 1 : 0)); break;
        case O_CNEG: need(3); set(o[0], cnd(o[2]) ? 0 - get(o[1]) : get(o[1])); break;
        case O_CINV: need(3); set(o[0], cnd(o[2]) ? ~get(o[1]) : get(o[1])); break;
        case O_CSEL: need(4); set(o[0], cnd(o[3]) ? get(o[1]) : get(o[2])); break;
        case O_CSINC: need(4); set(o[0], cnd(o[3]) ? get(o[1]) : get(o[2]) + 1); break;
        case O_CSINV: need(4); set(o[0], cnd(o[3]) ? get(o[1]) : ~get(o[2])); break;
        case O_CSNEG: need(4); set(o[0], cnd(o[3]) ? get(o[1]) : 0 - get(o[2])); break;
        case O_LDR: { need(2);
            if (o[1].k == SYM) {         // a literal: ldr x0, label or ldr x0, =value
                int64_t v; if (o[1].s[0] == '=' && Program::immOf(Program::trim(o[1].s.substr(1)), v)) { set(o[0], (uint64_t)v & mask); break; }
                if (o[1].s[0] == '=') { set(o[0], P.address(i, Program::trim(o[1].s.substr(1)))); break; }
                set(o[0], ldn(P.address(i, o[1].s), bits / 8)); break;
            }
            uint64_t a = ea(o[1], bits / 8); set(o[0], ldn(a, bits / 8)); break; }
        case O_STR: { need(2); uint64_t v = get(o[0]), a = ea(o[1], bits / 8); stn(a, v, bits / 8); break; }
        case O_LDRB: { need(2); uint64_t a = ea(o[1], 1); set(o[0], ldn(a, 1)); break; }
        case O_STRB: { need(2); uint64_t v = get(o[0]), a = ea(o[1], 1); stn(a, v, 1); break; }
        case O_MOVN: { need(2); int s = o.size() > 2 ? (int)o[2].imm : 0; set(o[0], ~((uint64_t)o[1].imm << s) & mask); break; }
        case O_UDIV: { need(3); uint64_t d = get(o[2]); set(o[0], d ? get(o[1]) / d : 0); break; }
        case O_SMULH: need(3); set(o[0], (uint64_t)(((__int128)(int64_t)get(o[1]) * (int64_t)get(o[2])) >> 64)); break;
        case O_UMULL: need(3); set(o[0], (get(o[1]) & 0xffffffff) * (get(o[2]) & 0xffffffff)); break;
        case O_MNEG: need(3); set(o[0], (0 - get(o[1]) * get(o[2])) & mask); break;
        case O_CLZ: { need(2); uint64_t v = get(o[1]) & mask; set(o[0], v ? __builtin_clzll(v) - (64 - bits) : bits); break; }
        case O_CCMP: case O_CCMN: { need(4);
            if (o[3].k != COND) pbt::fail("line %d: condition", i.line);
            if (c.cond((int)o[3].imm)) addc(get(o[0]), i.op == O_CCMP ? ~get(o[1]) : get(o[1]), i.op == O_CCMP, true);
            else { c.N = o[2].imm & 8; c.Z = o[2].imm & 4; c.C = o[2].imm & 2; c.V = o[2].imm & 1; }
            break; }
        case O_UBFX: case O_SBFX: case O_UBFIZ: case O_BFI: case O_BFXIL: { need(4);
            int l = (int)o[2].imm, w = (int)o[3].imm; if (w < 1 || l < 0 || l + w > bits) pbt::fail("line %d: bit field", i.line);
            uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1, v = get(o[1]);
            if (i.op == O_UBFX) v = (v >> l) & m;
            else if (i.op == O_SBFX) { v = (v >> l) & m; if (v >> (w - 1) & 1) v |= ~m; v &= mask; }
            else if (i.op == O_UBFIZ) v = (v & m) << l;
            else if (i.op == O_BFI) v = (get(o[0]) & ~(m << l)) | ((v & m) << l);
            else v = (get(o[0]) & ~m) | ((v >> l) & m);
            set(o[0], v); break; }
        case O_UXTW: need(2); set(o[0], get(o[1]) & 0xffffffff); break;
        case O_SXTW: need(2); set(o[0], (uint64_t)(int64_t)(int32_t)get(o[1])); break;
        case O_BL: c.x[30] = Program::CODETAG | (uint64_t)pc; pc = i.target; break;
        case O_BLR: { uint64_t v = get(o[0]); if ((v >> 48) != 0xC0DE) pbt::fail("%s line %d: call of a non-code address", fn, i.line); c.x[30] = Program::CODETAG | (uint64_t)pc; pc = (int)(v & 0xffffffff); break; }
        case O_LDP: { need(3); if (o[0].reg == o[1].reg) pbt::fail("line %d: ldp with twice the same register", i.line); uint64_t a = ea(o[2], 16); uint64_t v0 = ld(a), v1 = ld(a + 8); set(o[0], v0); set(o[1], v1); break; }
        case O_STP: { need(3); uint64_t v0 = get(o[0]), v1 = get(o[1]), a = ea(o[2], 16); st(a, v0); st(a + 8, v1); break; }
        case O_ADR: need(2); set(o[0], P.address(i, o[1].s)); break;
        case O_B: pc = i.target; break;
        case O_BC: if (c.cond(i.cond)) pc = i.target; break;
        case O_BR: { uint64_t v = get(o[0]); if ((v >> 48) != 0xC0DE) pbt::fail("%s line %d: branch to a non-code address", fn, i.line); pc = (int)(v & 0xffffffff); break; }
        case O_CBZ: if (get(o[0]) == 0) pc = i.target; break;
        case O_CBNZ: if (get(o[0]) != 0) pc = i.target; break;
        case O_TBZ: if (!((get(o[0]) >> o[1].imm) & 1)) pc = i.target; break;
        case O_TBNZ: if ((get(o[0]) >> o[1].imm) & 1) pc = i.target; break;
        case O_NOP: break;
        case O_RET: {
            uint64_t to = o.empty() ? c.x[30] : get(o[0]);
            if ((to >> 48) == 0xC0DE && to != saved[30]) { pc = (int)(to & 0xffffffff); break; }      // from a helper of the assembly
            if (to != saved[30]) pbt::fail("%s: returns to a wrong address (line %d)", fn, i.line);
            if (c.x[32] != top) pbt::fail("%s: the stack pointer is not restored on return (line %d)", fn, i.line);
            for (int r = 19; r <= 30; r++) if (c.x[r] != saved[r]) pbt::fail("%s: callee-saved register x%d is not restored on return (line %d)", fn, r, i.line);
            return c.x[0]; }
        default: pbt::fail("line %d: unsupported instruction %s", i.line, i.m.c_str());
        }
        if (postReg >= 0) c.x[postReg] = postVal;
    }
}
} // namespace arm

using namespace arm;
#define SZ (Fr_N64 * 8)
#define RD(p) {(const void *)(p), SZ, false}
#define WR(p) {(const void *)(p), SZ, true}
typedef uint64_t *P1; typedef const uint64_t *C1;
static uint64_t c2(const char *f, uint64_t a, uint64_t b, std::initializer_list<Region> r) { uint64_t x[] = {a, b}; return call(f, x, 2, r.begin(), (int)r.size()); }
static uint64_t c3(const char *f, uint64_t a, uint64_t b, uint64_t d, std::initializer_list<Region> r) { uint64_t x[] = {a, b, d}; return call(f, x, 3, r.begin(), (int)r.size()); }
#define U(x) ((uint64_t)(x))
extern "C" {
void Fr_rawCopy(P1 r, C1 a) { c2("Fr_rawCopy", U(r), U(a), {WR(r), RD(a)}); }
void Fr_rawSwap(P1 r, P1 a) { c2("Fr_rawSwap", U(r), U(a), {WR(r), WR(a)}); }
void Fr_rawAdd(P1 r, C1 a, C1 b) { c3("Fr_rawAdd", U(r), U(a), U(b), {WR(r), RD(a), RD(b)}); }
void Fr_rawSub(P1 r, C1 a, C1 b) { c3("Fr_rawSub", U(r), U(a), U(b), {WR(r), RD(a), RD(b)}); }
void Fr_rawNeg(P1 r, C1 a) { c2("Fr_rawNeg", U(r), U(a), {WR(r), RD(a)}); }
void Fr_rawMMul(P1 r, C1 a, C1 b) { c3("Fr_rawMMul", U(r), U(a), U(b), {WR(r), RD(a), RD(b)}); }
void Fr_rawMMul1(P1 r, C1 a, uint64_t b) { c3("Fr_rawMMul1", U(r), U(a), b, {WR(r), RD(a)}); }
void Fr_rawFromMontgomery(P1 r, C1 a) { c2("Fr_rawFromMontgomery", U(r), U(a), {WR(r), RD(a)}); }
int Fr_rawIsEq(C1 a, C1 b) { return (int)c2("Fr_rawIsEq", U(a), U(b), {RD(a), RD(b)}); }
int Fr_rawIsZero(C1 a) { uint64_t x[] = {U(a)}; Region r[] = {RD(a)}; return (int)call("Fr_rawIsZero", x, 1, r, 1); }
void Fr_rawCopyS2L(P1 r, int64_t v) { c2("Fr_rawCopyS2L", U(r), U(v), {WR(r)}); }
void Fr_rawAddLS(P1 r, P1 a, uint64_t b) { c3("Fr_rawAddLS", U(r), U(a), b, {WR(r), RD(a)}); }
void Fr_rawSubSL(P1 r, uint64_t a, P1 b) { c3("Fr_rawSubSL", U(r), a, U(b), {WR(r), RD(b)}); }
void Fr_rawSubLS(P1 r, P1 a, uint64_t b) { c3("Fr_rawSubLS", U(r), U(a), b, {WR(r), RD(a)}); }
void Fr_rawNegLS(P1 r, P1 a, uint64_t b) { c3("Fr_rawNegLS", U(r), U(a), b, {WR(r), RD(a)}); }
int Fr_rawCmp(P1 a, P1 b) { return (int)c2("Fr_rawCmp", U(a), U(b), {RD(a), RD(b)}); }
void Fr_rawAnd(P1 r, P1 a, P1 b) { c3("Fr_rawAnd", U(r), U(a), U(b), {WR(r), RD(a), RD(b)}); }
void Fr_rawOr(P1 r, P1 a, P1 b) { c3("Fr_rawOr", U(r), U(a), U(b), {WR(r), RD(a), RD(b)}); }
void Fr_rawXor(P1 r, P1 a, P1 b) { c3("Fr_rawXor", U(r), U(a), U(b), {WR(r), RD(a), RD(b)}); }
void Fr_rawShl(P1 r, P1 a, uint64_t b) { c3("Fr_rawShl", U(r), U(a), b, {WR(r), RD(a)}); }
void Fr_rawShr(P1 r, P1 a, uint64_t b) { c3("Fr_rawShr", U(r), U(a), b, {WR(r), RD(a)}); }
void Fr_rawNot(P1 r, P1 a) { c2("Fr_rawNot", U(r), U(a), {WR(r), RD(a)}); }
void Fr_rawSubRegular(P1 r, P1 a, P1 b) { c3("Fr_rawSubRegular", U(r), U(a), U(b), {WR(r), RD(a), RD(b)}); }
}
