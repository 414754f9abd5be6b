// cl_funs.hpp -- functions (included by cl.hpp).
inline void def(const char *n, const std::function<V(Args &)> & f) { V v = native(f); ((Fun *) v)->name = S(sym(n)); S(sym(n))->fn = v; }
inline V nth_arg(Args & a, size_t i) { if (i >= a.size()) throw LispError{"too few arguments", nil()}; return a[i]; }
inline void arity(const Args & a, size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) throw LispError{"wrong number of arguments", nil()}; }
inline bool numberp(V v) { return v->t == INT || v->t == DBL; }
inline I limit(I i) { if (i > ((I) 1 << 120) || i < -((I) 1 << 120)) unsupported("bignum"); return i; }
inline V fnum(double d, bool single) { return new Dbl(single ? (double) (float) d : d, single); }
inline V arith(char op, V a, V b) {
    if (!numberp(a) || !numberp(b)) throw LispError{"not a number: " + show(numberp(a) ? b : a), nil()};
    if (a->t == INT && b->t == INT) {
        I x = in(a), y = in(b);
        switch (op) {
        case '+': return num(limit(x + y)); case '-': return num(limit(x - y));
        case '*': if (y && (x > ((I) 1 << 120) / (y < 0 ? -y : y) || x < -((I) 1 << 120) / (y < 0 ? -y : y))) unsupported("bignum"); return num(x * y);
        case '/': if (!y) throw LispError{"division by zero", nil()}; if (x % y) { unsupported("ratio"); } return num(x / y);
        }
    }
    bool sg = (a->t == INT || ((Dbl *) a)->single) && (b->t == INT || ((Dbl *) b)->single); double x = fl(a), y = fl(b);
    return fnum(op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y, sg);
}
inline int compare(V a, V b) { // exact for integers
    if (a->t == INT && b->t == INT) return in(a) < in(b) ? -1 : in(a) > in(b);
    double x = fl(a), y = fl(b); if (x != x || y != y) return 2; return x < y ? -1 : x > y;
}
inline void relation(const char *n, const std::function<bool(int)> & ok) { def(n, [ok](Args & a) -> V { arity(a, 1, 1000); for (auto x : a) fl(x); for (size_t i = 0; i + 1 < a.size(); i++) if (!ok(compare(a[i], a[i + 1]))) return nil(); return tee(); }); }
inline I floor_div(I x, I y) { if (!y) throw LispError{"division by zero", nil()}; I q = x / y; if (x % y && (x < 0) != (y < 0)) q--; return q; }
inline V two(V a, V b) { state().values = {a, b}; return a; }
inline bool matches(SeqArgs & k, V item, V el) { return k.test(item, k.key_(el)); }
inline V remove_if(Args & a, bool keep, bool item) {
    arity(a, 2, 100); SeqArgs k(a, 2); Args s = seq(a[1]), r; size_t hi = k.hi(s.size()); std::vector<bool> drop(s.size());
    V f = item ? NULL : fdesig(a[0]);
    auto test = [&](size_t i) { return (item ? matches(k, a[0], s[i]) : yes(call(f, k.key_(s[i])))) != keep; };
    if (k.count >= 0 && k.from_end) { for (size_t i = hi; i-- > k.lo() && k.count;) if (test(i)) { drop[i] = true; k.count--; } }
    else for (size_t i = k.lo(); i < hi && k.count; i++) if (test(i)) { drop[i] = true; if (k.count > 0) k.count--; }
    for (size_t i = 0; i < s.size(); i++) if (!drop[i]) r.push_back(s[i]);
    return like(a[1], r);
}
inline V remove_duplicates(Args & a) {
    arity(a, 1, 100); SeqArgs k(a, 1); Args s = seq(a[0]), r, keys; size_t lo = k.lo(), hi = k.hi(s.size()); std::vector<bool> drop(s.size());
    for (auto x : s) keys.push_back(k.key_(x));
    for (size_t i = lo; i < hi; i++) for (size_t j = i + 1; j < hi && !drop[i]; j++) if (!drop[j] && k.test(keys[i], keys[j])) { if (k.from_end) drop[j] = true; else drop[i] = true; }
    if (k.from_end) for (size_t i = lo; i < hi; i++) if (!drop[i]) for (size_t j = i + 1; j < hi; j++) if (!drop[j] && k.test(keys[i], keys[j])) drop[j] = true;
    for (size_t i = 0; i < s.size(); i++) if (!drop[i]) r.push_back(s[i]);
    return like(a[0], r);
}
// the index of the first match, or -1; item or predicate
inline long find_index(Args & a, int mode) { // 0 item, 1 if, 2 if-not
    arity(a, 2, 100); SeqArgs k(a, 2); Args s = seq(a[1]); size_t hi = k.hi(s.size()); V f = mode ? fdesig(a[0]) : NULL;
    auto test = [&](size_t i) { return mode == 0 ? matches(k, a[0], s[i]) : yes(call(f, k.key_(s[i]))) == (mode == 1); };
    if (k.from_end) { for (size_t i = hi; i-- > k.lo();) if (test(i)) return (long) i; } else for (size_t i = k.lo(); i < hi; i++) if (test(i)) return (long) i;
    return -1;
}
inline V map_lists(Args & a, const std::function<bool(V)> & got) {
    arity(a, 2, 100); V f = fdesig(a[0]); std::vector<Args> s; for (size_t i = 1; i < a.size(); i++) s.push_back(seq(a[i]));
    for (size_t i = 0;; i++) { Args x; for (auto & l : s) { if (i >= l.size()) return nil(); x.push_back(l[i]); } if (!got(apply(f, x))) return nil(); }
}
inline V append_lists(const Args & a) { V r = a.empty() ? nil() : a.back(); for (size_t i = a.size() ? a.size() - 1 : 0; i-- > 0;) { Args l = items(a[i]); for (size_t k = l.size(); k-- > 0;) r = cons(l[k], r); } return r; }
inline bool string_desig(V v) { return v->t == STR || v->t == SYM || v->t == CHR; }
inline std::string sdes(V v) { if (!string_desig(v)) throw LispError{"not a string designator: " + show(v), nil()}; return text(v); }
inline std::string princ(V v) { if (v->t == SYM) { std::string n = S(v)->name; for (auto & c : n) c = toupper(c); return n; } return show(v, false); }
inline std::string prin1(V v) { if (v->t == STR) { std::string o = "\""; for (char c : ((Str *) v)->s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; } return show(v); }
struct UpAndOut {};
inline std::string directive_(const std::string & f, const Args & a, size_t & n) {
    std::string o;
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '~') { o += f[i]; continue; }
        i++; size_t m = i; while (i < f.size() && (isdigit((unsigned char) f[i]) || strchr(",'@:", f[i]))) i++;
        char d = i < f.size() ? tolower(f[i]) : 0; bool plain = i == m;
        if (d == 'a' || d == 'd') { if (n >= a.size()) throw LispError{"too few format arguments", nil()}; o += princ(a[n++]); }
        else if (d == 's') { if (n >= a.size()) throw LispError{"too few format arguments", nil()}; o += prin1(a[n++]); }
        else if (d == '%') o += '\n'; else if (d == '~') o += '~';
        else if (d == '\n') { while (i + 1 < f.size() && isspace((unsigned char) f[i + 1])) i++; }
        else if (d == '{' && plain) {
            size_t e = f.find("~}", i); if (e == std::string::npos || f.find("~{", i + 1) < e) unsupported("format directive ~{");
            std::string body = f.substr(i + 1, e - i - 1); i = e + 1; if (n >= a.size()) throw LispError{"too few format arguments", nil()};
            Args l = items(a[n++]); size_t k = 0;
            while (k < l.size()) { size_t up = body.find("~^"); std::string h = body.substr(0, up); o += directive_(h, l, k); if (up == std::string::npos) continue; if (k >= l.size()) break; if (body.find("~^", up + 2) != std::string::npos) unsupported("format directive ~^"); o += directive_(body.substr(up + 2), l, k); }
        }
        else unsupported(std::string("format directive ~") + d);
    }
    return o;
}
inline std::string directive(const std::string & f, const Args & a, size_t from) { size_t n = from; return directive_(f, a, n); }
inline V member_tail(Args & a, int mode) { arity(a, 2, 100); SeqArgs k(a, 2); V f = mode ? fdesig(a[0]) : NULL; V l = a[1]; items(l); for (; consp(l); l = cdr(l)) if (mode == 0 ? matches(k, a[0], car(l)) : yes(call(f, k.key_(car(l)))) == (mode == 1)) return l; return nil(); }
inline V list_tail(V l, I n) { for (; n > 0; n--) l = cdr(l); return l; }
inline void products(const std::vector<Args> & s, size_t i, bool distinct, Args & cur, Args & out) {
    if (i == s.size()) { out.push_back(list(cur)); return; }
    for (auto x : s[i]) { bool dup = false; for (auto y : cur) dup |= distinct && eql(x, y); if (dup) continue; cur.push_back(x); products(s, i + 1, distinct, cur, out); cur.pop_back(); }
}
inline V world(const char *n, Args & a) { auto i = state().world.find(n); if (i == state().world.end()) unsupported(n); return i->second(a); }
inline V coerce_to(V x, V ty) {
    std::string n = consp(ty) ? S(car(ty))->name : S(ty)->name;
    if (n == "double-float") return x->t == DBL && !((Dbl *) x)->single ? x : fnum(fl(x), false);
    if (n == "single-float") return fnum(fl(x), true);
    if (n == "float") return x->t == DBL ? x : fnum(fl(x), true);
    if (n == "function") return fdesig(x);
    if (n == "list" && (x == nil() || consp(x))) return x;
    if ((n == "vector" || n == "simple-vector") && x->t == VEC) return x;
    if (n == "string" && x->t == STR) return x;
    return to_type(ty, seq(x));
}
inline V condition_text(Args & a) { if (a.empty()) return str("error"); if (a[0]->t == STR) { try { return str(directive(text(a[0]), a, 1)); } catch (Unsupported &) { return a[0]; } } return a[0]; }
inline V make_condition_(Args & a) {
    Class *c = a[0]->t == SYM && S(a[0])->cls ? (Class *) S(a[0])->cls : condition_class(); if (c != condition_class() && !isa_class(c, condition_class())) unsupported("condition " + show(a[0]));
    Inst *i = new Inst; i->c = c; for (size_t k = 1; k + 1 < a.size(); k += 2) if (a[k]->t == SYM) i->s[S(sym(S(a[k])->name))] = a[k + 1];
    return i;
}
inline V slot_pointer(Args & a) { CType *t = parse_type(a[1]); if (!t->st) unsupported("slot of " + show(a[1])); return ptr(addr(a[0]) + slot_of(t->st, a[2])->off); }
inline void lisp_read_all(Stream *);
inline void setup_more();
inline void setup_funs() {
    condition_class();
    // numbers
    def("+", [](Args & a) { V r = num(0); for (auto x : a) r = arith('+', r, x); return r; });
    def("*", [](Args & a) { V r = num(1); for (auto x : a) r = arith('*', r, x); return r; });
    def("-", [](Args & a) { arity(a, 1, 1000); if (a.size() == 1) return arith('-', num(0), a[0]); V r = a[0]; for (size_t i = 1; i < a.size(); i++) r = arith('-', r, a[i]); return r; });
    def("/", [](Args & a) { arity(a, 1, 1000); if (a.size() == 1) return arith('/', num(1), a[0]); V r = a[0]; for (size_t i = 1; i < a.size(); i++) r = arith('/', r, a[i]); return r; });
    def("1+", [](Args & a) { arity(a, 1, 1); return arith('+', a[0], num(1)); });
    def("1-", [](Args & a) { arity(a, 1, 1); return arith('-', a[0], num(1)); });
    relation("=", [](int c) { return c == 0; }); relation("<", [](int c) { return c == -1; }); relation(">", [](int c) { return c == 1; });
    relation("<=", [](int c) { return c == -1 || c == 0; }); relation(">=", [](int c) { return c == 1 || c == 0; });
    def("/=", [](Args & a) -> V { for (size_t i = 0; i < a.size(); i++) for (size_t j = i + 1; j < a.size(); j++) if (compare(a[i], a[j]) == 0) return nil(); return tee(); });
    def("min", [](Args & a) { arity(a, 1, 1000); V r = a[0]; for (auto x : a) if (compare(x, r) == -1) r = x; return r; });
    def("max", [](Args & a) { arity(a, 1, 1000); V r = a[0]; for (auto x : a) if (compare(x, r) == 1) r = x; return r; });
    def("abs", [](Args & a) { arity(a, 1, 1); return compare(a[0], num(0)) == -1 ? arith('-', num(0), a[0]) : a[0]; });
    def("mod", [](Args & a) -> V { arity(a, 2, 2); I x = in(a[0]), y = in(a[1]); return num(x - floor_div(x, y) * y); });
    def("rem", [](Args & a) -> V { arity(a, 2, 2); I y = in(a[1]); if (!y) throw LispError{"division by zero", nil()}; return num(in(a[0]) % y); });
    def("floor", [](Args & a) -> V { arity(a, 1, 2); I x = in(a[0]), y = a.size() > 1 ? in(a[1]) : 1; I q = floor_div(x, y); return two(num(q), num(x - q * y)); });
    def("truncate", [](Args & a) -> V { arity(a, 1, 2); I x = in(a[0]), y = a.size() > 1 ? in(a[1]) : 1; if (!y) throw LispError{"division by zero", nil()}; return two(num(x / y), num(x % y)); });
    def("ceiling", [](Args & a) -> V { arity(a, 1, 2); I x = in(a[0]), y = a.size() > 1 ? in(a[1]) : 1; I q = -floor_div(-x, y); return two(num(q), num(x - q * y)); });
    def("ash", [](Args & a) -> V { arity(a, 2, 2); I x = in(a[0]), n = in(a[1]); if (n >= 0) { if (n > 119) unsupported("bignum"); for (I i = 0; i < n; i++) x = limit(x * 2); return num(x); } return num(n < -126 ? (x < 0 ? -1 : 0) : x >> (int) -n); });
    def("logand", [](Args & a) { I r = -1; for (auto x : a) r &= in(x); return num(r); });
    def("logior", [](Args & a) { I r = 0; for (auto x : a) r |= in(x); return num(r); });
    def("logxor", [](Args & a) { I r = 0; for (auto x : a) r ^= in(x); return num(r); });
    def("lognot", [](Args & a) { arity(a, 1, 1); return num(~in(a[0])); });
    def("logandc2", [](Args & a) { arity(a, 2, 2); return num(in(a[0]) & ~in(a[1])); });
    def("logtest", [](Args & a) { arity(a, 2, 2); return boolean(in(a[0]) & in(a[1])); });
    def("logbitp", [](Args & a) { arity(a, 2, 2); I n = in(a[0]); return boolean(n > 126 ? in(a[1]) < 0 : (in(a[1]) >> (int) n) & 1); });
    def("integer-length", [](Args & a) { arity(a, 1, 1); I x = in(a[0]); if (x < 0) x = ~x; int n = 0; while (x) { n++; x >>= 1; } return num(n); });
    def("byte", [](Args & a) { arity(a, 2, 2); return list(a[0], a[1]); });
    def("ldb", [](Args & a) { arity(a, 2, 2); I n = in(car(a[0])), p = in(cadr(a[0])); if (n > 119 || p > 119) unsupported("bignum"); return num((in(a[1]) >> (int) p) & (((I) 1 << (int) n) - 1)); });
    def("dpb", [](Args & a) { arity(a, 3, 3); I n = in(car(a[1])), p = in(cadr(a[1])); if (n + p > 119) unsupported("bignum"); I m = (((I) 1 << (int) n) - 1) << (int) p; return num((in(a[2]) & ~m) | ((in(a[0]) << (int) p) & m)); });
    def("expt", [](Args & a) -> V { arity(a, 2, 2); I n = in(a[1]); if (n < 0) unsupported("ratio"); V r = num(1); for (I i = 0; i < n; i++) r = arith('*', r, a[0]); return r; });
    def("zerop", [](Args & a) { arity(a, 1, 1); return boolean(compare(a[0], num(0)) == 0); });
    def("plusp", [](Args & a) { arity(a, 1, 1); return boolean(compare(a[0], num(0)) == 1); });
    def("minusp", [](Args & a) { arity(a, 1, 1); return boolean(compare(a[0], num(0)) == -1); });
    def("evenp", [](Args & a) { arity(a, 1, 1); return boolean(!(in(a[0]) & 1)); });
    def("oddp", [](Args & a) { arity(a, 1, 1); return boolean(in(a[0]) & 1); });
    def("random", [](Args & a) -> V { arity(a, 1, 2); if (!state().random) unsupported("random"); return state().random(in(a[0])); });
    // predicates
    auto pred = [](const char *n, bool (*f)(V)) { def(n, [f](Args & a) { arity(a, 1, 1); return boolean(f(a[0])); }); };
    pred("integerp", [](V v) { return v->t == INT; }); pred("numberp", numberp); pred("realp", numberp); pred("rationalp", [](V v) { return v->t == INT; }); pred("floatp", [](V v) { return v->t == DBL; });
    pred("stringp", [](V v) { return v->t == STR; }); pred("symbolp", [](V v) { return v->t == SYM; }); pred("keywordp", [](V v) { return v->t == SYM && S(v)->kw; }); pred("characterp", [](V v) { return v->t == CHR; });
    pred("consp", [](V v) { return v->t == CONS; }); pred("listp", [](V v) { return v->t == CONS || v == nil(); }); pred("atom", [](V v) { return v->t != CONS; }); pred("null", [](V v) { return v == nil(); }); pred("not", [](V v) { return v == nil(); }); pred("endp", [](V v) { return v == nil(); });
    pred("vectorp", [](V v) { return v->t == VEC || v->t == STR; }); pred("arrayp", [](V v) { return v->t == VEC || v->t == STR; }); pred("functionp", [](V v) { return v->t == FUN; }); pred("pointerp", [](V v) { return v->t == PTR; });
    pred("positive-integer-p", [](V v) { return v->t == INT && in(v) > 0; }); pred("negative-integer-p", [](V v) { return v->t == INT && in(v) < 0; }); pred("non-negative-integer-p", [](V v) { return v->t == INT && in(v) >= 0; }); pred("positive-real-p", [](V v) { return numberp(v) && fl(v) > 0; });
    pred("emptyp", [](V v) { if (v == nil()) return true; if (v->t == STR) return ((Str *) v)->s.empty(); if (v->t == VEC) return ((Vec *) v)->v.empty(); return v->t != CONS && (unsupported("emptyp"), false); });
    pred("null-pointer-p", [](V v) { return addr(v) == 0; });
    def("eq", [](Args & a) { arity(a, 2, 2); return boolean(eql(a[0], a[1])); }); def("eql", [](Args & a) { arity(a, 2, 2); return boolean(eql(a[0], a[1])); });
    def("equal", [](Args & a) { arity(a, 2, 2); return boolean(equal(a[0], a[1])); }); def("equalp", [](Args & a) { arity(a, 2, 2); return boolean(equalp(a[0], a[1])); });
    def("string=", [](Args & a) { arity(a, 2, 2); return boolean(sdes(a[0]) == sdes(a[1])); });
    def("string/=", [](Args & a) { arity(a, 2, 2); return boolean(sdes(a[0]) != sdes(a[1])); });
    def("string<", [](Args & a) { arity(a, 2, 2); return boolean(sdes(a[0]) < sdes(a[1])); });
    def("string-equal", [](Args & a) { arity(a, 2, 2); return boolean(lower(sdes(a[0])) == lower(sdes(a[1]))); });
    def("char=", [](Args & a) { arity(a, 2, 2); return boolean(eql(a[0], a[1])); });
    def("typep", [](Args & a) { arity(a, 2, 3); return boolean(typep(a[0], a[1])); });
    // lists and sequences
    def("cons", [](Args & a) { arity(a, 2, 2); return cons(a[0], a[1]); }); def("list", [](Args & a) { return list(a); });
    def("list*", [](Args & a) { arity(a, 1, 1000); V r = a.back(); for (size_t i = a.size() - 1; i-- > 0;) r = cons(a[i], r); return r; });
    def("acons", [](Args & a) { arity(a, 3, 3); return cons(cons(a[0], a[1]), a[2]); });
    for (const char *n : {"car", "first"}) def(n, [](Args & a) { arity(a, 1, 1); return car(a[0]); });
    for (const char *n : {"cdr", "rest"}) def(n, [](Args & a) { arity(a, 1, 1); return cdr(a[0]); });
    for (const char *n : {"cadr", "second"}) def(n, [](Args & a) { arity(a, 1, 1); return cadr(a[0]); });
    for (const char *n : {"caddr", "third"}) def(n, [](Args & a) { arity(a, 1, 1); return car(cddr(a[0])); });
    for (const char *n : {"cadddr", "fourth"}) def(n, [](Args & a) { arity(a, 1, 1); return cadr(cddr(a[0])); });
    def("fifth", [](Args & a) { arity(a, 1, 1); return car(cddr(cddr(a[0]))); });
    def("cddr", [](Args & a) { arity(a, 1, 1); return cddr(a[0]); }); def("caar", [](Args & a) { arity(a, 1, 1); return car(car(a[0])); }); def("cdar", [](Args & a) { arity(a, 1, 1); return cdr(car(a[0])); }); def("cdddr", [](Args & a) { arity(a, 1, 1); return cdr(cddr(a[0])); });
    def("nth", [](Args & a) -> V { arity(a, 2, 2); if (in(a[0]) < 0) throw LispError{"negative index", nil()}; return car(list_tail(a[1], in(a[0]))); });
    def("nthcdr", [](Args & a) { arity(a, 2, 2); return list_tail(a[1], in(a[0])); });
    auto elt = [](Args & a) -> V { arity(a, 2, 2); Args s = seq(a[0]); I i = in(a[1]); if (i < 0 || i >= (I) s.size()) throw LispError{"index " + itoa(i) + " out of range", nil()}; return s[(size_t) i]; };
    def("elt", elt); def("aref", elt); def("svref", elt); def("char", elt); def("schar", elt);
    def("length", [](Args & a) -> V { arity(a, 1, 1); return num(seq(a[0]).size()); });
    def("append", [](Args & a) { return append_lists(a); }); def("nconc", [](Args & a) { return append_lists(a); }); def("append1", [](Args & a) { arity(a, 2, 2); return append_lists(Args{a[0], list(Args{a[1]})}); });
    def("revappend", [](Args & a) { arity(a, 2, 2); V r = a[1]; for (auto x : items(a[0])) r = cons(x, r); return r; });
    for (const char *n : {"reverse", "nreverse"}) def(n, [](Args & a) { arity(a, 1, 1); Args s = seq(a[0]); std::reverse(s.begin(), s.end()); return like(a[0], s); });
    def("mapcar", [](Args & a) { for (size_t i = 1; i < a.size(); i++) items(a[i]); Args r; map_lists(a, [&](V v) { r.push_back(v); return true; }); return list(r); });
    def("mapc", [](Args & a) { map_lists(a, [&](V) { return true; }); return a[1]; });
    for (const char *n : {"mapcan", "mappend"}) def(n, [](Args & a) { Args r; map_lists(a, [&](V v) { r.push_back(v); return true; }); return append_lists(r); });
    def("maplist", [](Args & a) { arity(a, 2, 2); Args r; for (V l = a[1]; consp(l); l = cdr(l)) r.push_back(call(a[0], l)); return list(r); });
    def("map", [](Args & a) -> V { arity(a, 3, 100); Args b(a.begin() + 1, a.end()), r; map_lists(b, [&](V v) { r.push_back(v); return true; }); return a[0] == nil() ? nil() : to_type(a[0], r); });
    def("coerce", [](Args & a) { arity(a, 2, 2); return coerce_to(a[0], a[1]); });
    def("concatenate", [](Args & a) { arity(a, 1, 1000); Args r; for (size_t i = 1; i < a.size(); i++) for (auto x : seq(a[i])) r.push_back(x); return to_type(a[0], r); });
    def("make-array", [](Args & a) -> V {
        arity(a, 1, 100); only_keys(a, 1, {"initial-contents", "initial-element", "element-type", "adjustable"}); V d = a[0]; if (consp(d)) { if (cdr(d) != nil()) unsupported("array of several dimensions"); d = car(d); } I n = d == nil() ? 0 : in(d);
        V c = kwarg(a, 1, "initial-contents"), e = kwarg(a, 1, "initial-element"); V et = kwarg(a, 1, "element-type"); if (et && is(et, "character")) unsupported("array of characters");
        Args r; if (c) { r = seq(c); if ((I) r.size() != n) throw LispError{"initial contents of another length", nil()}; } else r.assign((size_t) n, e ? e : num(0)); return vec(r); });
    for (const char *n : {"vector"}) def(n, [](Args & a) { return vec(a); });
    def("make-list", [](Args & a) { arity(a, 1, 3); V e = kwarg(a, 1, "initial-element", nil()); return list(Args((size_t) in(a[0]), e)); });
    def("vector-push-extend", [](Args & a) -> V { arity(a, 2, 3); unsupported("vector-push-extend"); });
    for (const char *n : {"remove", "delete"}) def(n, [](Args & a) { return remove_if(a, false, true); });
    for (const char *n : {"remove-if", "delete-if"}) def(n, [](Args & a) { return remove_if(a, false, false); });
    for (const char *n : {"remove-if-not", "delete-if-not", "filter", "keep-if"}) def(n, [](Args & a) { return remove_if(a, true, false); });
    for (const char *n : {"remove-duplicates", "delete-duplicates"}) def(n, remove_duplicates);
    def("find", [](Args & a) { long i = find_index(a, 0); return i < 0 ? nil() : seq(a[1])[i]; }); def("find-if", [](Args & a) { long i = find_index(a, 1); return i < 0 ? nil() : seq(a[1])[i]; }); def("find-if-not", [](Args & a) { long i = find_index(a, 2); return i < 0 ? nil() : seq(a[1])[i]; });
    def("position", [](Args & a) { long i = find_index(a, 0); return i < 0 ? nil() : num(i); }); def("position-if", [](Args & a) { long i = find_index(a, 1); return i < 0 ? nil() : num(i); }); def("position-if-not", [](Args & a) { long i = find_index(a, 2); return i < 0 ? nil() : num(i); });
    def("count", [](Args & a) { arity(a, 2, 100); SeqArgs k(a, 2); I n = 0; for (auto x : seq(a[1])) n += matches(k, a[0], x); return num(n); });
    def("count-if", [](Args & a) { arity(a, 2, 100); SeqArgs k(a, 2); I n = 0; for (auto x : seq(a[1])) n += yes(call(a[0], k.key_(x))); return num(n); });
    def("every", [](Args & a) { bool ok = true; map_lists(a, [&](V v) { ok = yes(v); return ok; }); return boolean(ok); }); def("some", [](Args & a) { V r = nil(); map_lists(a, [&](V v) { r = v; return !yes(v); }); return r; });
    def("notany", [](Args & a) { bool ok = true; map_lists(a, [&](V v) { ok = !yes(v); return ok; }); return boolean(ok); }); def("notevery", [](Args & a) { bool ok = true; map_lists(a, [&](V v) { ok = yes(v); return ok; }); return boolean(!ok); });
    def("reduce", [](Args & a) -> V { arity(a, 2, 100); SeqArgs k(a, 2); V iv = kwarg(a, 2, "initial-value"); Args s; size_t i = 0; for (auto x : seq(a[1])) { s.push_back(k.key_(x)); i++; } if (k.from_end) std::reverse(s.begin(), s.end()); if (iv) s.insert(s.begin(), iv); if (s.empty()) return apply(a[0], Args{}); V r = s[0]; for (size_t j = 1; j < s.size(); j++) r = k.from_end ? call(a[0], s[j], r) : call(a[0], r, s[j]); return r; });
    def("subseq", [](Args & a) -> V { arity(a, 2, 3); Args s = seq(a[0]); I b = in(a[1]), e = a.size() > 2 && yes(a[2]) ? in(a[2]) : (I) s.size(); if (b < 0 || e < b || e > (I) s.size()) throw LispError{"bounding indices out of range", nil()}; return like(a[0], Args(s.begin() + (long) b, s.begin() + (long) e)); });
    def("take", [](Args & a) { arity(a, 2, 2); Args s = seq(a[1]); s.resize(std::min<size_t>(s.size(), (size_t) in(a[0]))); return like(a[1], s); });
    def("drop", [](Args & a) { arity(a, 2, 2); Args s = seq(a[1]); size_t n = std::min<size_t>(s.size(), (size_t) in(a[0])); return like(a[1], Args(s.begin() + n, s.end())); });
    def("assoc", [](Args & a) -> V { arity(a, 2, 100); SeqArgs k(a, 2); for (auto x : items(a[1])) if (x != nil() && matches(k, a[0], car(x))) return x; return nil(); });
    def("rassoc", [](Args & a) -> V { arity(a, 2, 100); SeqArgs k(a, 2); for (auto x : items(a[1])) if (x != nil() && matches(k, a[0], cdr(x))) return x; return nil(); });
    for (const char *n : {"assoc-value", "aget"}) { bool ag = n[1] == 'g'; def(n, [ag](Args & a) -> V { arity(a, 2, 100); SeqArgs k(a, 2); for (auto x : items(a[ag ? 1 : 0])) if (x != nil() && matches(k, a[ag ? 0 : 1], car(x))) return cdr(x); return nil(); }); }
    def("member", [](Args & a) { return member_tail(a, 0); }); def("member-if", [](Args & a) { return member_tail(a, 1); });
    def("adjoin", [](Args & a) { Args b = a; return yes(member_tail(b, 0)) ? a[1] : cons(a[0], a[1]); });
    auto setop = [](int m) { return [m](Args & a) -> V { arity(a, 2, 100); SeqArgs k(a, 2); Args x = items(a[0]), y = items(a[1]), r; auto has = [&](const Args & l, V e) { for (auto z : l) if (k.test(k.key_(e), k.key_(z))) return true; return false; }; if (m == 0) { r = y; for (auto e : x) if (!has(y, e)) r.push_back(e); } else for (auto e : x) if (has(y, e) == (m == 1)) r.push_back(e); return list(r); }; };
    def("union", setop(0)); def("intersection", setop(1)); def("set-difference", setop(2));
    for (const char *n : {"sort", "stable-sort"}) def(n, [](Args & a) { arity(a, 2, 4); SeqArgs k(a, 2); Args s = seq(a[0]); V f = fdesig(a[1]); for (size_t i = 1; i < s.size(); i++) for (size_t j = i; j > 0 && yes(call(f, k.key_(s[j]), k.key_(s[j - 1]))); j--) std::swap(s[j], s[j - 1]); return like(a[0], s); });
    def("last", [](Args & a) -> V { arity(a, 1, 2); Args s = items(a[0]); size_t n = a.size() > 1 ? (size_t) in(a[1]) : 1; return list_tail(a[0], s.size() > n ? s.size() - n : 0); });
    for (const char *n : {"lastcar", "last-elt"}) def(n, [](Args & a) { arity(a, 1, 1); Args s = seq(a[0]); return s.empty() ? nil() : s.back(); });
    def("first-elt", [](Args & a) -> V { arity(a, 1, 1); Args s = seq(a[0]); if (s.empty()) throw LispError{"empty sequence", nil()}; return s[0]; });
    def("butlast", [](Args & a) { arity(a, 1, 1); Args s = items(a[0]); if (!s.empty()) s.pop_back(); return list(s); });
    for (const char *n : {"copy-list", "copy-seq", "copy-array"}) def(n, [](Args & a) { arity(a, 1, 1); return like(a[0], seq(a[0])); });
    def("copy-alist", [](Args & a) { arity(a, 1, 1); Args r; for (auto x : items(a[0])) r.push_back(consp(x) ? cons(car(x), cdr(x)) : x); return list(r); });
    def("iota", [](Args & a) { arity(a, 1, 5); only_keys(a, 1, {"start", "step"}); V s = kwarg(a, 1, "start", num(0)), st = kwarg(a, 1, "step", num(1)); Args r; for (I i = 0; i < in(a[0]); i++) { r.push_back(s); s = arith('+', s, st); } return list(r); });
    def("range", [](Args & a) -> V { arity(a, 1, 3); unsupported("range"); });
    def("flatten", [](Args & a) { arity(a, 1, 1); Args r; std::function<void(V)> go = [&](V v) { if (consp(v)) { for (auto x : items(v)) go(x); } else if (v != nil()) r.push_back(v); }; go(a[0]); return list(r); });
    def("ensure-list", [](Args & a) { arity(a, 1, 1); return consp(a[0]) || a[0] == nil() ? a[0] : list(Args{a[0]}); });
    def("getf", [](Args & a) { arity(a, 2, 3); V c = getf(a[0], a[1]); return c ? cadr(c) : a.size() > 2 ? a[2] : nil(); });
    def("make-hash-table", [](Args & a) -> V { only_keys(a, 0, {"test", "size"}); Hash *h = new Hash; V t = kwarg(a, 0, "test"); if (t) { Sym *s = t->t == SYM ? S(t) : ((Fun *) t)->name; if (!s) unsupported("hash test"); h->test = s->name == "equal" ? 2 : s->name == "equalp" ? 3 : s->name == "eq" || s->name == "eql" ? 1 : (unsupported("hash test"), 0); } return h; });
    def("gethash", [](Args & a) -> V { arity(a, 2, 3); Hash *h = (Hash *) a[1]; if (a[1]->t != HASH) throw LispError{"not a hash table", nil()}; for (auto & x : h->kv) if (h->test == 3 ? equalp(x.first, a[0]) : h->test == 2 ? equal(x.first, a[0]) : eql(x.first, a[0])) return two(x.second, tee()); return two(a.size() > 2 ? a[2] : nil(), nil()); });
    def("cartesian-without-duplicates", [](Args & a) { arity(a, 1, 1); std::vector<Args> s; for (auto x : items(a[0])) s.push_back(seq(x)); Args cur, out; products(s, 0, true, cur, out); return list(out); });
    def("cartesian", [](Args & a) { arity(a, 1, 1); std::vector<Args> s; for (auto x : items(a[0])) s.push_back(seq(x)); Args cur, out; products(s, 0, false, cur, out); return list(out); });
    def("map-product", [](Args & a) { arity(a, 2, 100); std::vector<Args> s; for (size_t i = 1; i < a.size(); i++) s.push_back(items(a[i])); Args cur, out, r; products(s, 0, false, cur, out); for (auto x : out) r.push_back(apply(a[0], items(x))); return list(r); });
    def("random-elt", [](Args & a) -> V { arity(a, 1, 3); Args s = seq(a[0]); if (s.empty()) throw LispError{"empty sequence", nil()}; if (!state().random) unsupported("random"); return s[(size_t) in(state().random(s.size()))]; });
    // functions
    def("funcall", [](Args & a) { arity(a, 1, 1000); return apply(a[0], Args(a.begin() + 1, a.end())); });
    def("apply", [](Args & a) { arity(a, 2, 1000); Args b(a.begin() + 1, a.end() - 1); for (auto x : items(a.back())) b.push_back(x); return apply(a[0], b); });
    def("identity", [](Args & a) { arity(a, 1, 1); return a[0]; });
    def("constantly", [](Args & a) { arity(a, 1, 1); V v = a[0]; return native([v](Args &) { return v; }); });
    def("complement", [](Args & a) { arity(a, 1, 1); V f = a[0]; return native([f](Args & b) { return boolean(!yes(apply(f, b))); }); });
    def("curry", [](Args & a) { arity(a, 1, 100); Args c = a; return native([c](Args & b) { Args d(c.begin() + 1, c.end()); d.insert(d.end(), b.begin(), b.end()); return apply(c[0], d); }); });
    def("rcurry", [](Args & a) { arity(a, 1, 100); Args c = a; return native([c](Args & b) { Args d = b; d.insert(d.end(), c.begin() + 1, c.end()); return apply(c[0], d); }); });
    def("compose", [](Args & a) { arity(a, 1, 100); Args c = a; return native([c](Args & b) { V v = apply(c.back(), b); for (size_t i = c.size() - 1; i-- > 0;) v = call(c[i], v); return v; }); });
    def("conjoin", [](Args & a) { Args c = a; return native([c](Args & b) { V v = tee(); for (auto f : c) { v = apply(f, b); if (!yes(v)) return v; } return v; }); });
    def("values", [](Args & a) { Args v = a; state().values = v; return v.empty() ? nil() : v[0]; });
    def("make-keyword", [](Args & a) { arity(a, 1, 1); return key(lower(sdes(a[0]))); });
    def("symbol-name", [](Args & a) { arity(a, 1, 1); std::string s = S(a[0])->name; for (auto & c : s) c = toupper(c); return str(s); });
    def("intern", [](Args & a) { arity(a, 1, 2); return sym(lower(sdes(a[0]))); });
    def("string", [](Args & a) { arity(a, 1, 1); return a[0]->t == STR ? a[0] : str(sdes(a[0])); });
    def("string-downcase", [](Args & a) { arity(a, 1, 1); return str(lower(sdes(a[0]))); });
    def("error", [](Args & a) -> V {
        LispError x{"error", nil()};
        if (a.size() == 1 && is_condition(a[0])) { V m = ((Inst *) a[0])->s[S(sym("text"))]; x = LispError{m && m->t == STR ? text(m) : "error", a[0]}; }
        else if (!a.empty() && a[0]->t == SYM) { V c = make_condition_(a); x = LispError{S(a[0])->name, c}; }
        else { V t = condition_text(a); x = LispError{t->t == STR ? text(t) : "error", t->t == INST ? t : nil()}; }
        if (state().signalled && !state().guarded) state().signalled(x.msg, x.cond);
        throw x; });
    def("make-condition", [](Args & a) -> V { arity(a, 1, 100); return make_condition_(a); });
    def("invoke-restart", [](Args & a) -> V { arity(a, 1, 1); auto & r = state().restarts; for (size_t i = r.size(); i-- > 0;) if (r[i].first == text(a[0])) throw Restart{r[i].first, r[i].second}; throw LispError{"no such restart", nil()}; });
    def("warn", [](Args &) { return nil(); }); def("note", [](Args &) { return nil(); }); def("finish-output", [](Args &) { return nil(); });
    def("fmt", [](Args & a) { arity(a, 1, 100); return str(directive(text(a[0]), a, 1)); });
    def("format", [](Args & a) -> V { arity(a, 2, 100); std::string s = directive(text(a[1]), a, 2); if (a[0] == nil()) return str(s); if (a[0]->t == STREAM) { touch(a[0]); ((Stream *) a[0])->data += s; } return nil(); });
    // objects
    def("make-instance", [](Args & a) { return make_instance(a); }); def("make", [](Args & a) { return make_instance(a); });
    def("slot-value", [](Args & a) { arity(a, 2, 2); return slot_value(a[0], a[1]); });
    def("slot-boundp", [](Args & a) { arity(a, 2, 2); return boolean(a[0]->t == INST && ((Inst *) a[0])->s.count(S(a[1]))); });
    def("find-class", [](Args & a) -> V { arity(a, 1, 2); if (!S(a[0])->cls) throw LispError{"no class", nil()}; return S(a[0])->cls; });
    def("finalize", [](Args & a) { arity(a, 2, 4); return a[0]; });
    // foreign memory
    def("null-pointer", [](Args & a) { arity(a, 0, 0); return ptr(0); });
    def("make-pointer", [](Args & a) { arity(a, 1, 1); return ptr((uint64_t) in(a[0])); }); def("pointer-address", [](Args & a) { arity(a, 1, 1); return num(addr(a[0])); });
    def("pointer-eq", [](Args & a) { arity(a, 2, 2); return boolean(addr(a[0]) == addr(a[1])); }); def("inc-pointer", [](Args & a) { arity(a, 2, 2); return ptr(addr(a[0]) + (int64_t) in(a[1])); });
    def("foreign-alloc", [](Args & a) -> V {
        arity(a, 1, 100); only_keys(a, 1, {"count", "initial-element", "initial-contents", "null-terminated-p"}); CType *t = parse_type(a[0]); V c = kwarg(a, 1, "count"), ic = kwarg(a, 1, "initial-contents"), ie = kwarg(a, 1, "initial-element"), nt = kwarg(a, 1, "null-terminated-p"); if (nt && yes(nt)) unsupported("null-terminated array");
        Args x; if (ic) x = seq(ic); I n = c ? in(c) : ic ? (I) x.size() : 1; if (n < 0) throw LispError{"negative count", nil()}; if (ic && (I) x.size() > n) throw LispError{"more contents than elements", nil()};
        uint64_t p = alloc(t->size * (size_t) n); for (size_t i = 0; i < x.size(); i++) to_foreign(t, p + i * t->size, x[i]); if (ie) for (I i = 0; i < n; i++) to_foreign(t, p + (size_t) i * t->size, ie); return ptr(p); });
    def("foreign-free", [](Args & a) -> V { arity(a, 1, 1); uint64_t p = addr(a[0]); state().blocks.erase(p); free((void *) p); return nil(); });
    def("foreign-string-free", [](Args & a) -> V { arity(a, 1, 1); uint64_t p = addr(a[0]); state().blocks.erase(p); free((void *) p); return nil(); });
    def("mem-ref", [](Args & a) { arity(a, 2, 3); return from_foreign(parse_type(a[1]), addr(a[0]) + (a.size() > 2 ? (int64_t) in(a[2]) : 0)); });
    def("mem-aref", [](Args & a) { arity(a, 2, 3); CType *t = parse_type(a[1]); return from_foreign(t, elem_addr(a[0], t, a.size() > 2 ? in(a[2]) : 0)); });
    def("mem-aptr", [](Args & a) { arity(a, 2, 3); CType *t = parse_type(a[1]); return ptr(elem_addr(a[0], t, a.size() > 2 ? in(a[2]) : 0)); });
    def("foreign-slot-value", [](Args & a) { arity(a, 3, 3); CType *t = parse_type(a[1]); if (!t->st) unsupported("slot of " + show(a[1])); return slot_read(slot_of(t->st, a[2]), addr(a[0])); });
    def("foreign-slot-pointer", slot_pointer); def("foreign-slot-offset", [](Args & a) { arity(a, 2, 2); CType *t = parse_type(a[0]); return num(slot_of(t->st, a[1])->off); });
    def("foreign-type-size", [](Args & a) { arity(a, 1, 1); return num(parse_type(a[0])->size); }); def("foreign-type-alignment", [](Args & a) { arity(a, 1, 1); return num(parse_type(a[0])->align); });
    def("foreign-string-to-lisp", [](Args & a) -> V {
        arity(a, 1, 100); only_keys(a, 1, {"count", "offset", "max-chars", "encoding"}); V c = kwarg(a, 1, "count"), o = kwarg(a, 1, "offset"), m = kwarg(a, 1, "max-chars"); if (m) unsupported("max-chars"); uint64_t p = addr(a[0]) + (o ? (uint64_t) in(o) : 0); if (!addr(a[0])) return nil();
        if (!c || c == nil()) return str(c_string(p)); std::string s; for (I i = 0; i < in(c); i++) s += ((const char *) p)[(size_t) i];
        for (unsigned char ch : s) if (ch >= 0x80) throw LispError{"decoding error", nil()};
        return str(s); });
    def("foreign-string-alloc", [](Args & a) { arity(a, 1, 1); std::string s = text(a[0]); uint64_t p = alloc(s.size() + 1); memcpy((void *) p, s.c_str(), s.size() + 1); return ptr(p); });
    def("lisp-array-to-foreign", [](Args & a) -> V { arity(a, 3, 3); CType *t = parse_type(a[2]); if (t->k != 'a') unsupported("array type"); to_foreign(t, addr(a[1]), a[0]); return a[1]; });
    def("foreign-array-to-lisp", [](Args & a) -> V { arity(a, 2, 100); CType *t = parse_type(a[1]); if (t->k != 'a') unsupported("array type"); return from_foreign(t, addr(a[0])); });
    def("foreign-array-alloc", [](Args & a) -> V { arity(a, 2, 2); CType *t = parse_type(a[1]); uint64_t p = alloc(t->size); to_foreign(t, p, a[0]); return ptr(p); });
    // stores
    def("register-code", [](Args & a) { arity(a, 2, 3); return a[1]; }); def("output-type-code", [](Args & a) { arity(a, 2, 2); touch(a[1]); ((Stream *) a[1])->objs.push_back(cons(sym("%code"), a[0])); return nil(); });
    def("store-object", [](Args & a) -> V {
        arity(a, 2, 2); if (a[1]->t != STREAM) throw LispError{"not a stream", nil()}; touch(a[1]);
        if (a[0]->t == INST) return apply(S(sym("%store"))->fn ? S(sym("%store"))->fn : (unsupported("store"), nil()), a);
        ((Stream *) a[1])->objs.push_back(a[0]); return a[0]; });
    def("restore-object", [](Args & a) -> V {
        arity(a, 1, 1); Stream *s = (Stream *) a[0]; if (a[0]->t != STREAM) throw LispError{"not a stream", nil()}; if (s->pos >= s->objs.size()) throw LispError{"end of the store", nil()}; touch(s); V v = s->objs[s->pos++];
        if (consp(v) && is(car(v), "%code")) { V f = S(sym("%restore-" + S(cdr(v))->name))->fn; if (!f) unsupported("restore"); return call(f, s); }
        return v; });
    // the rest of the world
    def("make-pathname", [](Args &) { return str("/"); }); def("merge-pathnames-as-file", [](Args & a) { return a.empty() ? nil() : a.back(); }); def("namestring", [](Args & a) { arity(a, 1, 1); return a[0]; });
    def("make-thread", [](Args & a) -> V { arity(a, 1, 3); Inst *i = new Inst; i->s[S(sym("result"))] = apply(a[0], Args{}); return i; });
    def("thread-alive-p", [](Args &) { return nil(); }); def("destroy-thread", [](Args &) { return nil(); }); def("join-thread", [](Args & a) -> V { arity(a, 1, 3); return ((Inst *) a[0])->s[S(sym("result"))]; });
    for (const char *n : {"open", "close", "read", "probe-file", "sleep", "get-internal-real-time", "process-alive-p", "start-test", "finish-test", "phenome", "program-name", "program-args", "delete-file", "test-cases", "temp-file-name", "directory-pathname-p", "delete-directory-tree", "read-line", "run-program"}) def(n, [n](Args & a) { return world(n, a); });
    for (const char *n : {"internal-time-units-per-second"}) { S(sym(n))->value = num(1000000); S(sym(n))->special = true; }
    S(sym("infinity"))->value = new Dbl(INFINITY, false); S(sym("infinity"))->special = true;
    S(sym("*foreign-library-directories*"))->value = nil(); S(sym("*foreign-library-directories*"))->special = true;
    S(sym("+trace-db-dir+"))->value = nil(); S(sym("+trace-db-dir+"))->special = true;
    setup_more();
    keep_all();
}
