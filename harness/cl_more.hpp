// cl_more.hpp -- hash tables, strings, regular expressions and utilities of
// serapeum and alexandria (included by cl.hpp).
inline bool hash_same(Hash *h, V a, V b) { return h->test == 3 ? equalp(a, b) : h->test == 2 ? equal(a, b) : eql(a, b); }
inline void shared_access(V h) { if (state().shared) state().shared(h); }
inline Hash *table(V v) { if (v->t != HASH) throw LispError{"not a hash table: " + show(v), nil()}; return (Hash *) v; }
inline V make_hash(Args & a) {
    only_keys(a, 0, {"test", "size", "synchronized", "rehash-size", "weakness"}); Hash *h = new Hash; V t = kwarg(a, 0, "test");
    if (t) { Sym *s = t->t == SYM ? S(t) : t->t == FUN ? ((Fun *) t)->name : NULL; if (!s) unsupported("hash test"); h->test = s->name == "equal" ? 2 : s->name == "equalp" ? 3 : s->name == "eq" || s->name == "eql" ? 1 : (unsupported("hash test"), 0); }
    return h;
}
inline std::string trimmed(const std::string & s, const std::string & bag, bool l = true, bool r = true) { size_t i = 0, j = s.size(); while (l && i < j && bag.find(s[i]) != std::string::npos) i++; while (r && j > i && bag.find(s[j - 1]) != std::string::npos) j--; return s.substr(i, j - i); }
inline std::string bag_of(V v) { std::string b; for (auto x : seq(v)) b += (char) ((Chr *) x)->c; return b; }
inline bool seq_prefix(const Args & p, const Args & s, size_t at, const std::function<bool(V, V)> & t) { if (p.size() + at > s.size()) return false; for (size_t i = 0; i < p.size(); i++) if (!t(p[i], s[at + i])) return false; return true; }
inline std::regex regex_of(V v) { std::string s = text(v->t == INST ? ((Inst *) v)->s[S(sym("text"))] : v); try { return std::regex(s, std::regex::ECMAScript); } catch (std::regex_error &) { unsupported("regular expression " + s); } }
inline V string_fn(Args & a, int mode) { std::string s = sdes(a[0]); for (auto & c : s) c = mode ? toupper(c) : tolower(c); return str(s); }
inline void walk_into(V f, Env *e) {    // variables of nested (collect x into v)
    if (!consp(f)) return;
    if (car(f)->t == SYM) {
        const std::string & h = S(car(f))->name; if (h == "quote" || h == "iter" || h == "iterate" || h == "loop" || h == "function") return;
        if (h == "collect" || h == "collecting" || h == "appending" || h == "append" || h == "adjoining" || h == "nconcing") for (V y = cddr(f); consp(y) && consp(cdr(y)); y = cddr(y)) if (is(car(y), "into") && cadr(y)->t == SYM && !var_cell(S(cadr(y)), e)) e->vars.push_back(std::make_pair(S(cadr(y)), nil()));
    }
    for (V x = f; consp(x); x = cdr(x)) if (consp(car(x))) walk_into(car(x), e);
}
inline void setup_more() {
    // hash tables
    def("make-hash-table", make_hash); def("make-thread-safe-hash-table", make_hash);
    def("gethash", [](Args & a) -> V { arity(a, 2, 3); Hash *h = table(a[1]); shared_access(h); for (auto & x : h->kv) if (hash_same(h, x.first, a[0])) return two(x.second, tee()); return two(a.size() > 2 ? a[2] : nil(), nil()); });
    def("hash-table-count", [](Args & a) { arity(a, 1, 1); Hash *h = table(a[0]); shared_access(h); return num(h->kv.size()); }); def("hash-table-size", [](Args & a) { arity(a, 1, 1); return num(table(a[0])->kv.size()); });
    def("hash-table-alist", [](Args & a) { arity(a, 1, 1); Hash *h = table(a[0]); shared_access(h); Args r; for (auto & x : h->kv) r.push_back(cons(x.first, x.second)); std::reverse(r.begin(), r.end()); return list(r); });
    def("hash-table-plist", [](Args & a) { arity(a, 1, 1); Hash *h = table(a[0]); shared_access(h); Args r; for (auto & x : h->kv) { r.push_back(x.first); r.push_back(x.second); } return list(r); });
    def("hash-table-keys", [](Args & a) { arity(a, 1, 1); Hash *h = table(a[0]); shared_access(h); Args r; for (auto & x : h->kv) r.push_back(x.first); return list(r); });
    def("hash-table-values", [](Args & a) { arity(a, 1, 1); Hash *h = table(a[0]); shared_access(h); Args r; for (auto & x : h->kv) r.push_back(x.second); return list(r); });
    def("hash-table-p", [](Args & a) { arity(a, 1, 1); return boolean(a[0]->t == HASH); });
    def("maphash", [](Args & a) { arity(a, 2, 2); Hash *h = table(a[1]); shared_access(h); auto kv = h->kv; for (auto & x : kv) call(a[0], x.first, x.second); return nil(); });
    def("remhash", [](Args & a) { arity(a, 2, 2); Hash *h = table(a[1]); shared_access(h); touch(h); for (size_t i = 0; i < h->kv.size(); i++) if (hash_same(h, h->kv[i].first, a[0])) { h->kv.erase(h->kv.begin() + i); return tee(); } return nil(); });
    def("clrhash", [](Args & a) { arity(a, 1, 1); Hash *h = table(a[0]); touch(h); h->kv.clear(); return a[0]; });
    def("alist-hash-table", [](Args & a) { arity(a, 1, 100); Args o(a.begin() + 1, a.end()); Hash *h = (Hash *) make_hash(o); for (auto x : items(a[0])) { bool has = false; for (auto & y : h->kv) has |= hash_same(h, y.first, car(x)); if (!has) h->kv.push_back(std::make_pair(car(x), cdr(x))); } return (V) h; });
    form("ensure-gethash", [](V r, Env *e) -> V { V k = eval(car(r), e); Hash *h = table(eval(cadr(r), e)); shared_access(h); for (auto & x : h->kv) if (hash_same(h, x.first, k)) return x.second; V v = eval(car(cddr(r)), e); shared_access(h); touch(h); for (auto & x : h->kv) if (hash_same(h, x.first, k)) return x.second = v; h->kv.push_back(std::make_pair(k, v)); return v; });
    // locks
    form("synchronized", [](V r, Env *e) -> V { V o = consp(car(r)) ? eval(car(car(r)), e) : (V) car(r); V b = consp(car(r)) || car(r) == nil() ? cdr(r) : r; if (o->t != HASH && o->t != INST && o->t != CONS && o->t != SYM) unsupported("synchronized"); if (!state().lock) return progn(b, e); state().lock(o, true); struct U { V o; ~U() { state().lock(o, false); } } u = { o }; return progn(b, e); });
    form("with-lock-held", [](V r, Env *e) -> V { V o = eval(car(car(r)), e); if (!state().lock) return progn(cdr(r), e); state().lock(o, true); struct U { V o; ~U() { state().lock(o, false); } } u = { o }; return progn(cdr(r), e); });
    defalias("with-recursive-lock-held", "with-lock-held"); defalias("with-lock-grabbed", "with-lock-held");
    form("with-locked-hash-table", [](V r, Env *e) -> V { V o = eval(car(car(r)), e); if (!state().lock) return progn(cdr(r), e); state().lock(o, true); struct U { V o; ~U() { state().lock(o, false); } } u = { o }; return progn(cdr(r), e); }); defalias("with-hash-table-locked", "with-locked-hash-table");
    for (const char *n : {"make-lock", "make-recursive-lock"}) def(n, [](Args &) { Inst *i = new Inst; static Class *c = NULL; if (!c) { c = new Class; c->name = S(sym("lock")); arena().dirty = true; } i->c = c; return i; });
    // control
    form("and-let*", [](V r, Env *e) -> V { Env *n = new Env(e); Dynamic d; V v = tee(); for (V x = car(r); consp(x); x = cdr(x)) { V c = car(x); if (!consp(c)) { v = eval(c, n); if (!yes(v)) return nil(); continue; } if (cdr(c) == nil()) { v = eval(car(c), n); if (!yes(v)) return nil(); continue; } v = eval(cadr(c), n); if (!yes(v)) return nil(); Env *m = new Env(n); bind(m, d, car(c), v); n = m; } V b = strip_decl(cdr(r)); return b == nil() ? v : progn(b, n); });
    form("if-let*", [](V r, Env *e) -> V { V b = car(r); if (consp(b) && car(b)->t == SYM) b = cons(b, nil()); Env *n = new Env(e); Dynamic d; for (V x = b; consp(x); x = cdr(x)) { V v = eval(cadr(car(x)), n); if (!yes(v)) return consp(cddr(r)) ? eval(car(cddr(r)), e) : nil(); Env *m = new Env(n); bind(m, d, car(car(x)), v); n = m; } return eval(cadr(r), n); });
    form("econd", [](V r, Env *e) -> V { for (; consp(r); r = cdr(r)) { V v = eval(car(car(r)), e); if (yes(v)) return cdr(car(r)) == nil() ? v : progn(cdr(car(r)), e); } throw LispError{"fell through econd", nil()}; });
    form("%junction", [](V r, Env *e) -> V {
        std::string w = S(car(r))->name; Args fs = arglist(cdr(r), e);
        if (w == "or") return native([fs](Args & a) -> V { for (auto f : fs) { V v = apply(f, a); if (yes(v)) return v; } return nil(); });
        if (w == "and") return native([fs](Args & a) -> V { V v = tee(); for (auto f : fs) { v = apply(f, a); if (!yes(v)) return v; } return v; });
        unsupported("junction " + w); });
    form("op", [](V r, Env *e) -> V { V body = car(r); return native([body, e](Args & a) -> V { Env *n = new Env(e); size_t k = 0; std::function<V(V)> go = [&](V f) -> V { if (is(f, "_")) { if (k >= a.size()) throw LispError{"too few arguments", nil()}; Sym *g = new Sym("%op", false); n->vars.push_back(std::make_pair(g, a[k++])); return (V) g; } if (f->t == SYM && (S(f)->name == "_*" || (S(f)->name.size() == 2 && S(f)->name[0] == '_'))) unsupported("op"); if (!consp(f)) return f; Args o; for (auto x : items(f)) o.push_back(go(x)); return list(o); }; V b = go(body); return eval(b, n); }); });
    form("collecting", [](V r, Env *e) -> V { return (*S(sym("collect"))->form)(r, e); });
    form("multiple-value-call", [](V r, Env *e) -> V { V f = eval(car(r), e); Args a; for (V x = cdr(r); consp(x); x = cdr(x)) { state().values.clear(); V v = eval(car(x), e); std::vector<V> vs = state().values; if (vs.empty()) vs.push_back(v); for (auto y : vs) a.push_back(y); } state().values.clear(); return apply(f, a); });
    def("values-list", [](Args & a) { arity(a, 1, 1); Args v = items(a[0]); state().values = v; return v.empty() ? nil() : v[0]; });
    def("disjoin", [](Args & a) { Args c = a; return native([c](Args & b) -> V { for (auto f : c) { V v = apply(f, b); if (yes(v)) return v; } return nil(); }); });
    def("of-type", [](Args & a) { arity(a, 1, 1); V t = a[0]; return native([t](Args & b) { arity(b, 1, 1); return boolean(typep(b[0], t)); }); });
    def("xor", [](Args & a) -> V { V r = nil(); for (auto x : a) if (yes(x)) { if (yes(r)) return nil(); r = x; } return r; });
    // sequences
    def("take-until", [](Args & a) { arity(a, 2, 2); Args r; for (auto x : seq(a[1])) { if (yes(call(a[0], x))) break; r.push_back(x); } return like(a[1], r); });
    def("take-while", [](Args & a) { arity(a, 2, 2); Args r; for (auto x : seq(a[1])) { if (!yes(call(a[0], x))) break; r.push_back(x); } return like(a[1], r); });
    def("drop-while", [](Args & a) { arity(a, 2, 2); Args r; bool on = false; for (auto x : seq(a[1])) { on = on || !yes(call(a[0], x)); if (on) r.push_back(x); } return like(a[1], r); });
    def("drop-until", [](Args & a) { arity(a, 2, 2); Args r; bool on = false; for (auto x : seq(a[1])) { on = on || yes(call(a[0], x)); if (on) r.push_back(x); } return like(a[1], r); });
    def("repeatedly", [](Args & a) { arity(a, 2, 100); Args r; for (I i = 0; i < in(a[0]); i++) r.push_back(a[1]->t == FUN ? apply(a[1], Args(a.begin() + 2, a.end())) : a[1]); return list(r); });
    def("length=", [](Args & a) -> V { arity(a, 1, 100); I n = -1; for (auto x : a) { I k = x->t == INT ? in(x) : (I) seq(x).size(); if (n >= 0 && k != n) return nil(); n = k; } return tee(); });
    def("count-if-not", [](Args & a) { arity(a, 2, 100); SeqArgs k(a, 2); I n = 0; for (auto x : seq(a[1])) n += !yes(call(a[0], k.key_(x))); return num(n); });
    for (const char *n : {"sort", "stable-sort"}) def(n, [](Args & a) { arity(a, 2, 4); SeqArgs k(a, 2); Args s = seq(a[0]), keys; for (auto x : s) keys.push_back(k.key_(x)); V f = fdesig(a[1]); std::vector<size_t> ix(s.size()), tmp(s.size()); for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
        for (size_t w = 1; w < ix.size(); w *= 2) { for (size_t lo = 0; lo < ix.size(); lo += 2 * w) { size_t m = std::min(lo + w, ix.size()), hi = std::min(lo + 2 * w, ix.size()), i = lo, j = m; for (size_t p = lo; p < hi; p++) { bool right = i >= m || (j < hi && yes(call(f, keys[ix[j]], keys[ix[i]]))); tmp[p] = right ? ix[j++] : ix[i++]; } } ix = tmp; }
        Args r; for (auto i : ix) r.push_back(s[i]); return like(a[0], r); });
    def("starts-with-subseq", [](Args & a) { arity(a, 2, 100); SeqArgs k(a, 2); return boolean(seq_prefix(seq(a[0]), seq(a[1]), 0, k.test)); });
    def("ends-with-subseq", [](Args & a) { arity(a, 2, 100); SeqArgs k(a, 2); Args p = seq(a[0]), s = seq(a[1]); return boolean(p.size() <= s.size() && seq_prefix(p, s, s.size() - p.size(), k.test)); });
    def("starts-with", [](Args & a) { arity(a, 2, 100); SeqArgs k(a, 2); Args s = seq(a[1]); return boolean(!s.empty() && k.test(a[0], k.key_(s[0]))); });
    for (const char *n : {"string-prefix-p", "string^="}) def(n, [](Args & a) { arity(a, 2, 2); std::string p = sdes(a[0]), s = sdes(a[1]); return boolean(s.compare(0, p.size(), p) == 0); });
    for (const char *n : {"string-suffix-p", "string$="}) def(n, [](Args & a) { arity(a, 2, 2); std::string p = sdes(a[0]), s = sdes(a[1]); return boolean(s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0); });
    for (const char *n : {"string*=", "string-contains-p"}) def(n, [](Args & a) { arity(a, 2, 2); return boolean(sdes(a[1]).find(sdes(a[0])) != std::string::npos); });
    def("search", [](Args & a) -> V { arity(a, 2, 100); only_keys(a, 2, {"test", "from-end"}); SeqArgs k(a, 2); if (a[0]->t == STR && a[1]->t == STR && a.size() == 2) { size_t p = text(a[1]).find(text(a[0])); return p == std::string::npos ? nil() : num(p); } Args p = seq(a[0]), s = seq(a[1]); if (k.from_end) { for (size_t i = s.size() + 1; i-- > 0;) if (seq_prefix(p, s, i, k.test)) return num(i); } else for (size_t i = 0; i + p.size() <= s.size(); i++) if (seq_prefix(p, s, i, k.test)) return num(i); return nil(); });
    def("mismatch", [](Args & a) -> V { arity(a, 2, 2); Args x = seq(a[0]), y = seq(a[1]); size_t i = 0; while (i < x.size() && i < y.size() && eql(x[i], y[i])) i++; return i == x.size() && i == y.size() ? nil() : num(i); });
    def("split-sequence", [](Args & a) -> V { arity(a, 2, 100); only_keys(a, 2, {"remove-empty-subseqs", "test", "key"}); V rm = kwarg(a, 2, "remove-empty-subseqs"); Args s = seq(a[1]), cur, out; for (auto x : s) if (eql(a[0], x)) { if (!(rm && yes(rm) && cur.empty())) out.push_back(like(a[1], cur)); cur.clear(); } else cur.push_back(x); if (!(rm && yes(rm) && cur.empty())) out.push_back(like(a[1], cur)); return two(list(out), num(s.size())); });
    def("plist-get", [](Args & a) { arity(a, 2, 4); V c = getf(a[1], a[0]); return c ? cadr(c) : nil(); });
    def("remove-from-plist", [](Args & a) { arity(a, 1, 100); Args r; for (V p = a[0]; consp(p); p = cddr(p)) { bool drop = false; for (size_t i = 1; i < a.size(); i++) drop |= a[i] == car(p); if (!drop) { r.push_back(car(p)); r.push_back(cadr(p)); } } return list(r); });
    // strings
    def("string-upcase", [](Args & a) { arity(a, 1, 1); return string_fn(a, 1); });
    def("trim-whitespace", [](Args & a) { arity(a, 1, 1); return str(trimmed(text(a[0]), " \t\n\r\f\v")); });
    def("string-trim", [](Args & a) { arity(a, 2, 2); return str(trimmed(sdes(a[1]), bag_of(a[0]))); }); def("string-left-trim", [](Args & a) { arity(a, 2, 2); return str(trimmed(sdes(a[1]), bag_of(a[0]), true, false)); }); def("string-right-trim", [](Args & a) { arity(a, 2, 2); return str(trimmed(sdes(a[1]), bag_of(a[0]), false, true)); });
    def("drop-suffix", [](Args & a) { arity(a, 2, 4); std::string p = text(a[0]), s = text(a[1]); if (s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0) s.resize(s.size() - p.size()); return str(s); });
    def("drop-prefix", [](Args & a) { arity(a, 2, 4); std::string p = text(a[0]), s = text(a[1]); if (s.compare(0, p.size(), p) == 0) s = s.substr(p.size()); return str(s); });
    def("ensure-suffix", [](Args & a) { arity(a, 2, 2); std::string s = text(a[0]), p = text(a[1]); if (!(s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0)) s += p; return str(s); });
    def("lines", [](Args & a) { arity(a, 1, 3); Args r; std::string s = text(a[0]); size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); r.push_back(str(s.substr(i, j - i))); i = j + 1; } return list(r); });
    for (const char *n : {"string+", "concat"}) def(n, [](Args & a) { std::string s; for (auto x : a) s += princ(x); return str(s); });
    def("string-join", [](Args & a) { arity(a, 1, 2); std::string s, sep = a.size() > 1 ? text(a[1]) : ""; bool f = true; for (auto x : items(a[0])) { if (!f) s += sep; f = false; s += princ(x); } return str(s); });
    def("mapconcat", [](Args & a) { arity(a, 3, 3); std::string s; bool f = true; for (auto x : seq(a[1])) { if (!f) s += text(a[2]); f = false; s += princ(call(a[0], x)); } return str(s); });
    def("princ-to-string", [](Args & a) { arity(a, 1, 1); return str(princ(a[0])); }); def("prin1-to-string", [](Args & a) { arity(a, 1, 1); return str(prin1(a[0])); }); def("write-to-string", [](Args & a) { arity(a, 1, 1); return str(prin1(a[0])); });
    def("parse-integer", [](Args & a) -> V { arity(a, 1, 100); only_keys(a, 1, {"junk-allowed", "radix"}); if (kwarg(a, 1, "radix")) unsupported("radix"); std::string s = trimmed(text(a[0]), " \t\n"); V j = kwarg(a, 1, "junk-allowed"); I n = 0; size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; size_t d = i; while (i < s.size() && isdigit((unsigned char) s[i])) n = n * 10 + (s[i++] - '0'); if (i < s.size() || i == d) { if (j && yes(j)) return i == d ? nil() : num(neg ? -n : n); throw LispError{"not an integer string", nil()}; } return num(neg ? -n : n); });
    auto cpred = [](const char *n, int (*f)(int)) { def(n, [f](Args & a) { arity(a, 1, 1); return boolean(f(((Chr *) a[0])->c)); }); };
    cpred("alpha-char-p", isalpha); cpred("alphanumericp", isalnum); cpred("digit-char-p", isdigit); cpred("upper-case-p", isupper); cpred("lower-case-p", islower); cpred("whitespacep", isspace);
    // regular expressions
    def("create-scanner", [](Args & a) { arity(a, 1, 100); static Class *c = NULL; if (!c) { c = new Class; c->name = S(sym("%scanner")); arena().dirty = true; } Inst *i = new Inst; i->c = c; i->s[S(sym("text"))] = a[0]; return i; });
    def("scan", [](Args & a) -> V { arity(a, 2, 2); std::string s = text(a[1]); std::smatch m; if (!std::regex_search(s, m, regex_of(a[0]))) return nil(); return two(num(m.position(0)), num(m.position(0) + m.length(0))); });
    def("regex-replace-all", [](Args & a) -> V { arity(a, 3, 3); return str(std::regex_replace(text(a[1]), regex_of(a[0]), text(a[2]))); });
    def("regex-replace", [](Args & a) -> V { arity(a, 3, 3); return str(std::regex_replace(text(a[1]), regex_of(a[0]), text(a[2]), std::regex_constants::format_first_only)); });
    def("all-matches-as-strings", [](Args & a) -> V { arity(a, 2, 2); std::string s = text(a[1]); std::regex r = regex_of(a[0]); Args o; for (auto i = std::sregex_iterator(s.begin(), s.end(), r); i != std::sregex_iterator(); ++i) o.push_back(str(i->str())); return list(o); });
    def("scan-to-strings", [](Args & a) -> V { arity(a, 2, 2); std::string s = text(a[1]); std::smatch m; if (!std::regex_search(s, m, regex_of(a[0]))) return nil(); Args g; for (size_t i = 1; i < m.size(); i++) g.push_back(m[i].matched ? str(m[i].str()) : nil()); return two(str(m.str()), vec(g)); });
    keep_all();
}
