// Checks of the tagged field API.  Groups: C01 ring, C02 division family, C03 comparisons/logic, C04 bits and shifts.
#include "field.hpp"

static void runOp(pbt::Tape &t, const Op &op, bool shiftOp) {
    TV a = genElem(t), b;
    bool same = false;
    if (op.arity == 2) {
        if (shiftOp) { const char *c; b.v = genShift(t, &c); b.cls = c; b.rep = genRep(t, b.v); b.e = encode(b.v, b.rep, t.below(1000)); }
        else b = genElem(t, &a.v);
        same = t.coin(1, 12);
        if (same) b = a;
    } else { b.v = 0; b.rep = R_SHORT; b.cls = ""; b.e = encode(b.v, R_SHORT, 0); }
    if (!op.domain(a.v, b.v)) throw pbt::Discard();
    FrElement r = junkElem(t), ea = a.e, eb = b.e;
    t.note("%s(%s%s%s)%s", op.name, show(a).c_str(), op.arity == 2 ? ", " : "", op.arity == 2 ? show(b).c_str() : "", same ? " same object" : "");
    if (op.arity == 1) op.f1(&r, &ea); else op.f2(&r, &ea, same ? &ea : &eb);
    Z want = op.model(a.v, b.v), got;
    if (op.arity == 2) t.label("%s %s,%s", op.name, repName[a.rep], repName[b.rep]); else t.label("%s %s", op.name, repName[a.rep]);
    if (a.v > 1 && (op.arity == 1 || b.v > 1)) t.nontrivial();
    std::string bad = decode(r, got);
    PBT_CHECK(bad.empty(), "%s(%s, %s): %s", op.name, show(a).c_str(), show(b).c_str(), bad.c_str());
    PBT_CHECK(got == want, "%s(%s, %s) = %s, expected %s (q=%s)", op.name, show(a).c_str(), show(b).c_str(), fm::hex(got).c_str(), fm::hex(want).c_str(), fm::hex(M.q).c_str());
}

int main(int argc, char **argv) {
    for (auto &op : ringOps()) pbt::addProp(std::string("C01/") + op.name, op.arity == 2 ? 3 : 1, [&op](pbt::Tape &t) { runOp(t, op, false); }, 20);
    for (auto &op : divOps()) pbt::addProp(std::string("C02/") + op.name, 1, [&op](pbt::Tape &t) { runOp(t, op, false); }, 20);
    for (auto &op : cmpOps()) pbt::addProp(std::string("C03/") + op.name, op.arity == 2 ? 2 : 1, [&op](pbt::Tape &t) { runOp(t, op, false); }, 20);
    for (auto &op : bitOps()) {
        bool sh = !strncmp(op.name, "sh", 2);
        pbt::addProp(std::string("C04/") + op.name, sh ? 4 : 2, [&op, sh](pbt::Tape &t) { runOp(t, op, sh); }, 20);
    }
    return pbt::mainDriver(argc, argv);
}
