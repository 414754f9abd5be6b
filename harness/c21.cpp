// C21: printed predicates show the predicate that was built.
#define NO_PRODUCT
#include "query_suite.hpp"
using namespace q;

// ---- a reader for s-expressions ---------------------------------------------
struct Sx { bool list; std::string atom; std::vector<Sx> e; };
struct Reader {
    const std::string & s; size_t p; std::string err;
    Reader(const std::string & x) : s(x), p(0) {}
    void ws() { while (p < s.size() && isspace((unsigned char) s[p])) p++; }
    Sx read() {
        Sx r; r.list = false; ws();
        if (p >= s.size()) { err = "unexpected end"; return r; }
        if (s[p] == ')') { err = "unexpected )"; return r; }
        if (s[p] == '(') {
            r.list = true; p++;
            for (;;) { ws(); if (p >= s.size()) { err = "missing )"; return r; } if (s[p] == ')') { p++; return r; } r.e.push_back(read()); if (!err.empty()) return r; }
        }
        while (p < s.size() && !isspace((unsigned char) s[p]) && s[p] != '(' && s[p] != ')') r.atom += s[p++];
        return r;
    }
};
static const char *opname(int k) {
    switch (k) {
    case VAR_SIZE: return "v/size"; case VAR_VALUE: return "v/value"; case DISTINCT_VARS: return "distinct"; case AND: return "and"; case OR: return "or"; case NOT: return "not";
    case GREATER_THAN: return ">"; case GREATER_THAN_OR_EQUAL: return ">="; case LESS_THAN: return "<"; case LESS_THAN_OR_EQUAL: return "<="; case EQUAL: return "=";
    case ADD: return "+"; case SUBTRACT: return "-"; case MULTIPLY: return "*"; case DIVIDE: return "/";
    }
    return "?";
}
static std::string lower(std::string s) { for (auto & x : s) x = tolower(x); return s; }
static std::string match(const Pred & p, const Sx & x) {
    switch (p.kind) {
    case VAR_REFERENCE: return !x.list && x.atom == strf("<v%llu>", (unsigned long long) p.var) ? "" : "expected variable " + show(p) + ", got '" + x.atom + "'";
    case SIGNED_VALUE: return !x.list && x.atom == strf("%lld", (long long) p.s) ? "" : "expected " + show(p) + ", got '" + x.atom + "'";
    case UNSIGNED_VALUE: return !x.list && x.atom == strf("%llu", (unsigned long long) p.u) ? "" : "expected " + show(p) + ", got '" + x.atom + "'";
    case FLOAT_VALUE: {
        char *e; double d = strtod(x.atom.c_str(), &e);
        bool ok = !x.list && !x.atom.empty() && !*e && (p.d == d || std::fabs(p.d - d) <= 1e-4 * std::fabs(p.d));
        return ok ? "" : "expected " + show(p) + ", got '" + x.atom + "'"; }
    }
    if (!x.list || x.e.empty() || x.e[0].list || lower(x.e[0].atom) != opname(p.kind)) return std::string("expected operator ") + opname(p.kind) + ", got " + (x.list ? (x.e.empty() ? "()" : x.e[0].atom) : x.atom);
    if (x.e.size() - 1 != p.ch.size()) return strf("%s: expected %zu operands, got %zu", opname(p.kind), p.ch.size(), x.e.size() - 1);
    for (size_t i = 0; i < p.ch.size(); i++) { std::string r = match(p.ch[i], x.e[i + 1]); if (!r.empty()) return r; }
    return "";
}
static void go(mc::Ctx & c, const Pred & p) {
    c.describe(show(p)); c.state(mc::hash_str(c.desc));
    Predicate q = cxx(p);
    std::ostringstream os; os << q; std::string s = os.str();
    std::ostringstream o2; o2 << q; c.check(o2.str() == s, "printing twice gives another text");
    Reader r(s); Sx x = r.read();
    if (!r.err.empty()) c.fail(r.err + " in: " + s);
    r.ws(); c.check(r.p == s.size(), "something follows the expression: " + s);
    std::string m = match(p, x); if (!m.empty()) c.fail(m + " in: " + s);
    c.check(os.good(), "the stream failed");
    c.step();
}
static Pred leaf(mc::Ctx & c, int n) {
    switch (c.choose(n)) {
    case 0: return ref(0); case 1: return num(7); case 2: return sig(-3); case 3: return val(1); case 4: return siz(2); case 5: return flo(2.5); default: return ref(11);
    }
}
static const int K[] = {AND, OR, NOT, GREATER_THAN, GREATER_THAN_OR_EQUAL, LESS_THAN, LESS_THAN_OR_EQUAL, EQUAL, ADD, SUBTRACT, MULTIPLY, DIVIDE, DISTINCT_VARS, VAR_VALUE, VAR_SIZE};
static Pred tree(mc::Ctx & c, int depth, int nl) {
    int k = c.choose(depth ? 14 : 1);
    if (k == 0) return leaf(c, nl);
    int kind = K[k - 1], lo = 2, hi = 2;
    if (kind == AND || kind == OR) { lo = 0; hi = depth > 1 ? 2 : 3; } else if (kind == NOT) lo = hi = 1;
    std::vector<Pred> ch; for (int n = lo + c.choose(hi - lo + 1); n > 0; n--) ch.push_back(tree(c, depth - 1, nl));
    return Pred(kind, ch);
}
SCENARIO(depth1) { Pred p = tree(c, 1, 7); if (c.mine()) go(c, p); }
SCENARIO(depth2) { Pred p = tree(c, 2, c.thorough ? 3 : 2); if (c.mine()) go(c, p); }
// a chain of operators: which child is the deep one varies at every level
SCENARIO(chains) {
    int n = 1 + c.choose(c.thorough ? 5 : 4); Pred p = c.flip() ? ref(1) : num(5);
    for (int i = 0; i < n; i++) {
        int k = K[c.choose(15)];
        if (k == NOT || k == VAR_VALUE || k == VAR_SIZE) { p = Pred(k, {p}); continue; }
        if (n > 3 && k != AND && k != LESS_THAN_OR_EQUAL && k != SUBTRACT) return;
        p = c.flip() ? Pred(k, {p, ref(i)}) : Pred(k, {sig(-i), p});
    }
    if (c.mine()) go(c, p);
}
SCENARIO(integers) {
    std::vector<Bytes> pats = gen::patterns(8); int k = c.choose(3), nest = c.choose(3); Bytes v = c.pick(pats);
    if (!c.mine()) return;
    uint64_t x; memcpy(&x, v.data(), 8);
    Pred p = k == 0 ? num(x) : k == 1 ? sig((int64_t) x) : ref(x);
    if (nest == 1) p = op(EQUAL, val(0), p);
    if (nest == 2) p = lnot(op(LESS_THAN, p, op(ADD, p, num(1))));
    go(c, p);
}
SCENARIO(wide) {
    int n = c.choose(70), k = c.choose(2), in = c.choose(3);
    if (!c.mine()) return;
    std::vector<Pred> ch; for (int i = 0; i < n; i++) ch.push_back(i % 2 ? op(LESS_THAN_OR_EQUAL, val(i), sig(-i)) : lnot(distinct(i, i + 1)));
    Pred p = many(k ? AND : OR, ch);
    for (int i = 0; i < in; i++) p = i ? lnot(p) : many(OR, {p, op(EQUAL, num(1), num(2)), p});
    go(c, p);
}
SCENARIO(deep) {
    int n = c.choose(120), k = c.choose(3);
    if (!c.mine()) return;
    Pred p = ref(0);
    for (int i = 0; i < n; i++) p = k == 0 ? lnot(p) : k == 1 ? op(SUBTRACT, p, num(i)) : op(MULTIPLY, num(i), p);
    go(c, p);
}
