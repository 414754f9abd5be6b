// C12: statement filtering and seeded picking select exactly the right points.
#include "query_suite.hpp"
using namespace q;
static model::Trace with(const std::vector<uint64_t> & st) {
    model::Trace t = tbase();
    for (size_t i = 0; i < st.size(); i++) t.points.push_back({stmt(st[i]), var(i % 3, 0, le(i, 4)), aux(i)});
    return t;
}
// every mask and value over a small domain, against every statement of it, and
// the same shifted over the 64 bits
SCENARIO(masks) {
    int sh = c.choose(c.thorough ? 62 : 16); int m = c.choose(8), s = c.choose(8), top = c.choose(3);
    if (!c.thorough) { static const int S[] = {0, 1, 7, 8, 15, 16, 29, 30, 31, 32, 33, 48, 59, 60, 61, 62}; sh = S[sh]; }
    if (!c.mine()) return;
    std::vector<uint64_t> st; for (uint64_t i = 0; i < 8; i++) st.push_back((i << sh) | (top == 1 ? 1ull << 63 : top == 2 ? 1 : 0));
    st.push_back(0); st.push_back(~0ull);
    DB d; d.add(c, with(st));
    for (int f = 0; f < 2; f++) for (int k = 0; k < 2; k++) for (int hi = 0; hi < 3; hi++) {
        Query x; if (f) x.fv = {{0}}; x.keep = k; x.mask = (uint64_t) m << sh; x.st = (uint64_t) s << sh;
        if (hi == 1) { x.mask |= 1ull << 63; x.st |= 1ull << 63; } if (hi == 2) x.mask |= 1;
        c.describe(strf("shift %d, ", sh) + show(x)); c.state(mc::hash_str(c.desc) + top);
        std::string r = check(c, d, 0, x, k); if (!r.empty()) c.fail(r);
    }
}
// every single bit of mask and value
SCENARIO(bits) {
    int i = c.choose(65), j = c.choose(65);
    if (!c.mine()) return;
    std::vector<uint64_t> st = {0, ~0ull}; for (int b = 0; b < 64; b++) { st.push_back(1ull << b); st.push_back(~(1ull << b)); }
    static DB *d = NULL; if (!d) { d = new DB; d->add(c, with(st)); }
    uint64_t a = i == 64 ? 0 : 1ull << i, b = j == 64 ? 0 : 1ull << j;
    for (int k = 0; k < 5; k++) {
        Query x; x.mask = k == 0 ? a : k == 1 ? ~a : k == 2 ? ~0ull : k == 3 ? 0 : a | b; x.st = k == 4 ? a : k == 3 ? 0 : b; if (k == 1) x.st = ~b;
        c.describe(show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, *d, 0, x); if (!r.empty()) c.fail(r);
    }
}
// sequences of masks and values on one trace: no selection leaks into another
SCENARIO(sequences) {
    static const std::vector<std::pair<uint64_t, uint64_t> > M = {{0, 0}, {1, 1}, {1, 0}, {0, 1}, {2, 2}, {3, 1}, {1, 3}, {~0ull, 1}, {1ull << 32, 0}, {0, 1ull << 32}};
    int n = 2 + c.choose(2); std::vector<int> ix; for (int i = 0; i < n; i++) ix.push_back(c.choose(10));
    int fresh = c.choose(2);
    if (!c.mine()) return;
    auto body = [&]() {
        DB d; d.add(c, with({0, 1, 2, 3, 1, 1ull << 32, (1ull << 32) + 1})); d.add(c, with({1, 0, 1}));
        std::string s = "sequence:";
        for (int i : ix) for (int t = 0; t < 2; t++) {
            Query x; x.mask = M[i].first; x.st = M[i].second; x.fv = {{0}};
            s += strf(" (%llx,%llx)@%d", (unsigned long long) x.mask, (unsigned long long) x.st, t); c.describe(s);
            std::string r = check(c, d, t, x); if (!r.empty()) c.fail(r);
            x.seed = 3; r = check(c, d, t, x); if (!r.empty()) c.fail(r);
        }
    };
    c.state(mc::hash_bytes(ix.data(), ix.size() * 4));
    if (fresh) isolated(c, body); else body();
}
// seeds: one matching point, the same one every time, and every one reachable
SCENARIO(seeds) {
    int n = c.choose(c.thorough ? 20 : 10), k = c.choose(4), f = c.choose(2);
    if (!c.mine()) return;
    std::vector<uint64_t> st; for (int i = 0; i < n; i++) st.push_back(k == 0 ? i + 1 : k == 1 ? 2 * i : k == 2 ? i % 3 : 5);
    model::Trace t = with(st);
    DB d, e; d.add(c, t); e.add(c, t);
    Query x; if (f) x.fv = {{0}}; if (k == 1) { x.mask = 2; x.st = 2; } if (k == 2) { x.mask = ~0ull; x.st = 1; }
    if (k == 0 && !f) x.keep = false;
    Answer a = answer(d.t[0], x);
    std::set<std::string> hit, all; for (auto & p : a.pts) all.insert(show(p));
    uint32_t K = 400;
    std::vector<uint32_t> seeds; for (uint32_t s = 1; s <= K; s++) seeds.push_back(s);
    for (int b = 0; b < 32; b++) { seeds.push_back(1u << b); seeds.push_back(~(1u << b)); } seeds.push_back(~0u);
    for (uint32_t s : seeds) {
        x.seed = s; c.describe(strf("%d points of kind %d, ", n, k) + show(x)); c.step();
        std::vector<Res> r = ask(d.db, 0, x);
        std::string m = agree(a, x, r); if (!m.empty()) c.fail(m);
        c.check(ask(d.db, 0, x) == r, "the same seed picks another point");
        c.check(ask(e.db, 0, x) == r, "the same seed picks another point of an equal trace");
        if (!a.pts.empty()) hit.insert(show(r));
    }
    c.state(mc::hash_str(c.desc));
    c.check(hit == all, strf("only %zu of %zu points are ever picked", hit.size(), all.size()));
}
// a seed together with predicates: points without results are picked too
SCENARIO(seeded_queries) {
    int ti = c.choose(8); int s = 1 + c.choose(c.thorough ? 60 : 12);
    if (!c.mine()) return;
    DB & d = shared(c);
    for (auto & f : frees()) for (auto & p : preds(f.size())) for (int k = 0; k < 2; k++) {
        Query x; x.fv = f; x.hard = p; x.seed = s; x.keep = k; x.soft = softs(f.size()).back();
        c.describe(strf("trace %d, ", ti) + show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, ti, x, k); if (!r.empty()) c.fail(r);
    }
}
