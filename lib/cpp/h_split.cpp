// C23: splitParStr against the tree the text was written from.
#include "pbt.hpp"
#include "splitparstr.hpp"

struct Node { bool leaf = true; std::string text; std::vector<Node> kids; };
static std::string genText(pbt::Tape &t) {
    static const char cs[] = "0123456789abcdefxyzXYZ+-*/.:;_#[]{}'\"\\!?=<>|&%$@~^`";
    size_t n = t.coin(1, 8) ? 0 : t.coin(1, 10) ? t.below(200) : 1 + t.below(5); std::string s;
    if (t.coin(1, 400)) { n = 250 + t.below(t.coin() ? 20 : 70000); uint64_t r = t.u64(); while (n--) s += cs[pbt::splitmix(r) % (sizeof cs - 1)]; return s; }
    while (n--) s += cs[t.coin(1, 3) ? t.below(sizeof cs - 1) : t.below(10)];
    return s;
}
static Node gen(pbt::Tape &t, int depth, bool list) {
    Node n;
    if (!list && (depth <= 0 || t.coin(3, 5))) { n.text = genText(t); return n; }
    n.leaf = false;
    size_t k = 2 + t.below(t.coin(1, 60) && depth < 3 ? 300 : t.coin(1, 6) ? 12 : 3);
    while (k--) n.kids.push_back(gen(t, depth - 1, false));
    return n;
}
// Every component as the library gives it: without white space and without parentheses around the whole of it
// that enclose nothing but one component.
struct Writer {
    pbt::Tape &t; bool spaces, pars;
    std::string ws() { std::string s; if (spaces) while (t.coin(1, 4)) s += " \t\n\r\v\f"[t.below(6)]; return s; }
    std::string decorate(const std::string &plain) { if (!spaces) return plain; std::string s; for (char c : plain) { s += ws(); s += c; } return s + ws(); }
    // pairs of parentheses that enclose nothing but the component itself
    std::string wrap(std::string s, size_t least) { size_t n = least; if (pars) { while (n < 6 && t.coin(1, 3)) n++; if (t.coin(1, 300)) n += 100 + t.below(200); } std::string r(n, '('); return r + s + std::string(n, ')'); }
    // the text of the node inside a list
    std::string body(const Node &n) {
        if (n.leaf) return n.text;
        std::string s;
        for (size_t i = 0; i < n.kids.size(); i++) s += (i ? "," : "") + wrap(body(n.kids[i]), n.kids[i].leaf ? 0 : 1);
        return s;
    }
};
// removing the pairs that enclose the whole of s: by matching, not by counting from the ends
static std::string strip(std::string s) {
    for (;;) {
        if (s.size() < 2 || s[0] != '(') return s;
        int d = 0; size_t i = 0;
        for (; i < s.size(); i++) { if (s[i] == '(') d++; if (s[i] == ')' && --d == 0) break; }
        if (i != s.size() - 1) return s;
        s = s.substr(1, s.size() - 2);
    }
}
static std::vector<std::string> commas(const std::string &s) {
    std::vector<std::string> r(1); int d = 0;
    for (char c : s) { if (c == ',' && d == 0) { r.emplace_back(); continue; } if (c == '(') d++; if (c == ')') d--; r.back() += c; }
    return r;
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += "{" + x + "}"; return s; }

static void tree(pbt::Tape &t) {
    Node n = gen(t, (int)t.below(4), t.coin(9, 10));
    Writer w{t, t.coin(), t.coin(2, 3)};
    std::string plain = w.wrap(w.body(n), 0), in = w.decorate(plain);
    std::vector<std::string> want = commas(strip(plain));
    for (auto &x : want) x = strip(x);
    // the number of components comes from the tree; one leaf is one component
    size_t count = n.leaf ? 1 : n.kids.size();
    if (want.size() != count) pbt::fail("the model disagrees with the tree");
    t.label("%zu components%s%s", std::min<size_t>(count, 6), w.spaces ? ", white space" : "", w.pars ? ", extra parentheses" : "");
    t.note("%s", pbt::jsonEsc(in).c_str());
    if (plain.find_first_of("(,") != std::string::npos) t.nontrivial();
    std::vector<std::string> got = splitParStr(in);
    PBT_CHECK(got == want, "the components are %s, expected %s", join(got).c_str(), join(want).c_str());
    for (auto &x : got) {                       // a component can be split in turn, and white space changes nothing
        std::vector<std::string> a = splitParStr(x), b = commas(x); for (auto &y : b) y = strip(y);
        PBT_CHECK(a == b, "the components of %s are %s, expected %s", x.c_str(), join(a).c_str(), join(b).c_str());
    }
    PBT_CHECK(splitParStr(plain) == got, "white space changes the components");
}
// any balanced text, down to "(())" and "()()": brackets drawn one by one
static void balanced(pbt::Tape &t) {
    std::string s; int d = 0; size_t n = t.below(t.coin(1, 40) ? 900 : 30); unsigned open = t.coin(1, 4) ? 9 : 3;
    for (size_t i = 0; i < n; i++) switch (t.weighted({open, 3, 2, 3})) {
        case 0: s += '('; d++; break;
        case 1: if (d) { s += ')'; d--; } break;
        case 2: s += ','; break;
        default: s += (char)('0' + t.below(10)); break;
    }
    while (d--) s += ')';
    std::vector<std::string> want = commas(strip(s)); for (auto &x : want) x = strip(x);
    t.label("balanced, %zu components", std::min<size_t>(want.size(), 6)); t.note("%s", s.c_str());
    if (s.find_first_of("(,") != std::string::npos) t.nontrivial();
    std::vector<std::string> got = splitParStr(s);
    PBT_CHECK(got == want, "the components are %s, expected %s", join(got).c_str(), join(want).c_str());
}
int main(int argc, char **argv) {
    pbt::addProp("C23/tree", 5, tree, 30);
    pbt::addProp("C23/balanced", 4, balanced, 30);
    return pbt::mainDriver(argc, argv);
}
