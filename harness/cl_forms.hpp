// cl_forms.hpp -- special forms and macros (included by cl.hpp).
inline void form(const char *n, const Special & f) { S(sym(n))->form = new Special(f); }
inline void defalias(const char *n, const char *o) { S(sym(n))->form = S(sym(o))->form; }

// --- places
inline V set_place(V place, const std::function<V()> & value, Env *e);
inline V setq(V s, V v, Env *e) {
    if (V *c = S(s)->special ? NULL : var_cell(S(s), e)) { touch(env_of(S(s), e)); return *c = v; }
    arena().dirty = arena().dirty || S(s)->value != v; return S(s)->value = v;
}
inline V nth_cell(V l, I n) { for (; n > 0 && consp(l); n--) l = cdr(l); return l; }
inline V set_elt(V s, I i, V v) {
    touch(s);
    if (s->t == VEC) { if (i < 0 || i >= (I) ((Vec *) s)->v.size()) throw LispError{"index out of range", nil()}; return ((Vec *) s)->v[(size_t) i] = v; }
    if (s->t == STR) { ((Str *) s)->s.at((size_t) i) = (char) ((Chr *) v)->c; return v; }
    V c = nth_cell(s, i); if (!consp(c)) throw LispError{"index out of range", nil()}; touch(c); return ((Cons *) c)->a = v;
}
inline V place_read(V place, Env *e) { return eval(place, e); }
inline V getf(V pl, V k) { for (; consp(pl); pl = cddr(pl)) if (car(pl) == k) return pl; return NULL; }
inline V set_place(V place, const std::function<V()> & value, Env *e) {
    if (place->t == SYM) return setq(place, value(), e);
    if (!consp(place)) unsupported("place");
    const std::string & h = S(car(place))->name; Args f = items(cdr(place));
    auto arg = [&](size_t i) { if (i >= f.size()) throw LispError{"place with too few arguments", nil()}; return eval(f[i], e); };
    if (h == "values") { unsupported("setf of values"); }
    if (h == "the") return set_place(f[1], value, e);
    if (h == "car" || h == "first") { V c = arg(0), v = value(); if (!consp(c)) throw LispError{"setf car of no cons", nil()}; touch(c); return ((Cons *) c)->a = v; }
    if (h == "cdr" || h == "rest") { V c = arg(0), v = value(); if (!consp(c)) throw LispError{"setf cdr of no cons", nil()}; touch(c); return ((Cons *) c)->d = v; }
    if (h == "cadr" || h == "second") { V c = cdr(arg(0)), v = value(); touch(c); return ((Cons *) c)->a = v; }
    if (h == "nth") { I i = in(arg(0)); V l = arg(1); return set_elt(l, i, value()); }
    if (h == "elt" || h == "aref" || h == "svref" || h == "char") { V s = arg(0); I i = in(arg(1)); return set_elt(s, i, value()); }
    if (h == "lastcar") { V l = arg(0), v = value(); while (consp(cdr(l))) l = cdr(l); touch(l); return ((Cons *) l)->a = v; }
    if (h == "slot-value") { V o = arg(0), n = arg(1); return set_slot(o, n, value()); }
    if (h == "gethash") { V k = arg(0); V tv = arg(1); if (tv->t != HASH) throw LispError{"not a hash table", nil()}; Hash *t = (Hash *) tv; V v = value(); if (state().shared) state().shared(t); touch(t); for (auto & x : t->kv) if (t->test == 3 ? equalp(x.first, k) : t->test == 2 ? equal(x.first, k) : eql(x.first, k)) return x.second = v; t->kv.push_back(std::make_pair(k, v)); return v; }
    if (h == "getf") { V pl = arg(0), k = arg(1), v = value(); V c = getf(pl, k); if (c) { touch(cdr(c)); return ((Cons *) cdr(c))->a = v; } V np = cons(k, cons(v, pl)); set_place(f[0], [&]() { return np; }, e); return v; }
    if (h == "symbol-value") { V s = arg(0); return setq(s, value(), NULL); }
    if (h == "mem-ref") { uint64_t p = addr(arg(0)); CType *t = parse_type(arg(1)); I off = f.size() > 2 ? in(arg(2)) : 0; V v = value(); to_foreign(t, p + (int64_t) off, v); return v; }
    if (h == "mem-aref" || h == "mem-aptr") { V p = arg(0); CType *t = parse_type(arg(1)); I i = f.size() > 2 ? in(arg(2)) : 0; V v = value(); to_foreign(t, elem_addr(p, t, i), v); return v; }
    if (h == "foreign-slot-value") { uint64_t p = addr(arg(0)); CType *t = parse_type(arg(1)); if (!t->st) unsupported("slot of " + show(f[1])); auto s = slot_of(t->st, arg(2)); V v = value(); to_foreign(s->t, p + s->off, v); return v; }
    if (h == "assoc-value" || h == "aget") { unsupported("setf of " + h); }
    V setter = S(sym("(setf " + h + ")"))->fn;
    if (setter) { Args a; for (size_t i = 0; i < f.size(); i++) a.push_back(arg(i)); a.insert(a.begin(), value()); return apply(setter, a); }
    if (S(car(place))->macro) { Args a = f; return set_place(apply(S(car(place))->macro, a), value, e); }
    unsupported("setf of " + h);
}
// evaluates the arguments of a place once: a new form that names their values
inline V stable(V place, Env *e, Env *& inner) {
    if (!consp(place)) { inner = e; return place; }
    inner = new Env(e); Args a; a.push_back(car(place)); int k = 0;
    for (V x = cdr(place); consp(x); x = cdr(x), k++) {
        V y = car(x);
        if (consp(y) && k == 0 && (is(car(place), "getf"))) { a.push_back(y); continue; }
        if (y->t == SYM && !S(y)->kw && k == 0 && is(car(place), "getf")) { a.push_back(y); continue; }
        Sym *g = new Sym("%place", false); inner->vars.push_back(std::make_pair(g, eval(y, e))); a.push_back(g);
    }
    return list(a);
}
inline V quasi(V f, Env *e, int depth) {
    if (f->t == VEC) { V l = quasi(list(((Vec *) f)->v), e, depth); return vec(items(l)); }
    if (!consp(f)) return f;
    if (is(car(f), "%unquote")) { if (depth == 1) return eval(cadr(f), e); return list(car(f), quasi(cadr(f), e, depth - 1)); }
    if (is(car(f), "%quasi")) return list(car(f), quasi(cadr(f), e, depth + 1));
    if (consp(car(f)) && is(car(car(f)), "%splice") && depth == 1) {
        V x = eval(cadr(car(f)), e), rest = quasi(cdr(f), e, depth); if (rest == nil()) return x;
        Args a = items(x); V r = rest; for (size_t i = a.size(); i-- > 0;) r = cons(a[i], r); return r;
    }
    return cons(quasi(car(f), e, depth), quasi(cdr(f), e, depth));
}
// --- iterate
struct Iter {
    std::map<Sym *, Args> into; Args plain; bool collected; V result; bool has_result; V rtype; std::map<Sym *, V> rtypes; bool counted; I sum; bool summed; V best; int depth;
    Iter() : collected(false), result(NULL), has_result(false), rtype(NULL), counted(false), sum(0), summed(false), best(NULL), depth(0) {}
};
inline std::vector<Iter *> & iters() { static std::vector<Iter *> v; return v; }
struct IterGuard { IterGuard(Iter *i) { iters().push_back(i); i->depth = iters().size(); } ~IterGuard() { iters().pop_back(); } };
inline Iter *iter() { if (iters().empty()) unsupported("iterate clause outside iter"); return iters().back(); }
inline V collect_clause(V r, Env *e, int kind, V head = NULL) { // 0 collect 1 append 2 sum 3 count 4 max 5 min 6 adjoining
    Iter *it = iter(); V x = eval(car(r), e); V into = NULL, rt = NULL;
    for (V y = cdr(r); consp(y); y = cddr(y)) { std::string k = S(car(y))->name; if (k == "into") into = cadr(y); else if (k == "result-type") rt = eval(cadr(y), e); else if (k == "at") { unsupported("collect at"); } else unsupported("iterate clause word " + k); }
    if (kind <= 1) {
        Args add = kind == 1 ? seq(x) : Args{x};
        if (into) { Args & a = it->into[S(into)]; for (auto y : add) a.push_back(y); setq(into, rt ? to_type(rt, a) : list(a), e); }
        else { for (auto y : add) it->plain.push_back(y); it->collected = true; if (rt) it->rtype = rt; }
        return nil();
    }
    if (into) unsupported("reduction into");
    if (kind == 2) { it->summed = true; it->sum += in(x); }
    else if (kind == 3) { it->summed = true; it->sum += yes(x); }
    else { if (!it->best || (kind == 4 ? fl(x) > fl(it->best) : fl(x) < fl(it->best))) it->best = x; }
    return nil();
}
struct Driver { int kind; V var; V cur; Args els; size_t i; I a, b, step; bool first, bounded, down, incl; V init, next; bool hasfirst; Driver() : kind(0), var(NULL), cur(NULL), i(0), a(0), b(0), step(1), first(true), bounded(false), down(false), incl(false), init(NULL), next(NULL), hasfirst(false) {} };
inline void iter_bind(V var, V val, Env *e) { // assignment to loop variables, with destructuring
    if (var == nil()) return;
    if (var->t == SYM) { if (S(var)->name == "_" ) { } V *c = var_cell(S(var), e); if (c) *c = val; else e->vars.push_back(std::make_pair(S(var), val)); return; }
    if (consp(var) && is(car(var), "values")) unsupported("for (values ...)");
    for (; consp(var); var = cdr(var)) { iter_bind(car(var), car(val), e); val = cdr(val); }
    if (var != nil()) iter_bind(var, val, e);
}
inline void iter_vars(V var, Env *e) { if (var == nil()) return; if (var->t == SYM) { e->vars.push_back(std::make_pair(S(var), nil())); return; } for (; consp(var); var = cdr(var)) iter_vars(car(var), e); if (var != nil()) iter_vars(var, e); }
inline bool drive(Driver & d, V f, Env *e) { // false when exhausted
    std::string w = S(car(cddr(f)))->name; V rest = cdr(cddr(f));
    auto opt = [&](const char *n) -> V { for (V x = cddr(f); consp(x); x = cdr(x)) if (car(x)->t == SYM && S(car(x))->name == n) return cadr(x); return NULL; };
    if (d.first && d.kind == 0) {
        d.var = cadr(f);
        if (w == "in" || w == "on") { d.kind = w == "in" ? 1 : 2; d.cur = eval(car(rest), e); if (consp(cdr(rest))) unsupported("for in with options"); }
        else if (w == "in-vector" || w == "in-sequence" || w == "in-string" || w == "across" || w == "in-array") { d.kind = 3; d.els = seq(eval(car(rest), e)); if (consp(cdr(rest))) unsupported("for in-vector with options"); }
        else if (w == "index-of-vector" || w == "index-of-sequence" || w == "index-of-string") { d.kind = 4; d.bounded = true; d.a = 0; d.b = seq(eval(car(rest), e)).size(); }
        else if (w == "=" ) { d.kind = 5; d.next = car(rest); for (V x = cdr(rest); consp(x); x = cdr(x)) if (is(car(x), "then")) { d.hasfirst = true; d.init = d.next; d.next = cadr(x); } }
        else if (w == "first" || w == "initially") { d.kind = 5; d.hasfirst = true; d.init = car(rest); d.next = opt("then"); if (!d.next) unsupported("for first"); }
        else if (w == "next" || w == "do-next") unsupported("for next");
        else if (w == "in-hashtable") unsupported("for in-hashtable");
        else {
            d.kind = 4; V x; static const std::set<std::string> words = {"from", "upfrom", "downfrom", "to", "upto", "downto", "below", "above", "by"};
            for (V y = cddr(f); consp(y); y = cddr(y)) if (car(y)->t != SYM || !words.count(S(car(y))->name)) unsupported("for " + show(car(y)));
            if ((x = opt("from")) || (x = opt("upfrom"))) d.a = in(eval(x, e)); if ((x = opt("downfrom"))) { d.a = in(eval(x, e)); d.down = true; }
            if ((x = opt("to")) || (x = opt("upto"))) { d.b = in(eval(x, e)); d.bounded = d.incl = true; } if ((x = opt("downto"))) { d.b = in(eval(x, e)); d.bounded = d.incl = d.down = true; }
            if ((x = opt("below"))) { V n = eval(x, e); if (n->t == DBL) { if (!std::isinf(fl(n)) || fl(n) < 0) unsupported("for below a float"); } else { d.b = in(n); d.bounded = true; } } if ((x = opt("above"))) { d.b = in(eval(x, e)); d.bounded = d.down = true; } if ((x = opt("by"))) d.step = in(eval(x, e));
        }
    }
    bool first = d.first; d.first = false;
    switch (d.kind) {
    case 1: case 2: if (!first) d.cur = cdr(d.cur); if (!consp(d.cur)) return false; iter_bind(d.var, d.kind == 1 ? car(d.cur) : d.cur, e); return true;
    case 3: if (d.i >= d.els.size()) return false; iter_bind(d.var, d.els[d.i++], e); return true;
    case 4: if (!first) d.a += d.down ? -d.step : d.step; iter_bind(d.var, num(d.a), e); if (d.bounded && (d.down ? (d.incl ? d.a < d.b : d.a <= d.b) : (d.incl ? d.a > d.b : d.a >= d.b))) return false; return true;
    case 5: iter_bind(d.var, eval(first && d.hasfirst ? d.init : d.next, e), e); return true;
    }
    return false;
}
inline void walk_into(V f, Env *e);
inline V iterate(V body, Env *env) {
    Iter it; IterGuard g(&it); Sym *name = S(nil());
    if (consp(body) && car(body)->t == SYM) { name = S(car(body)); body = cdr(body); }
    return in_block(name, env, [&](Env *be) -> V {
        Env *e = new Env(be); Args fs; std::map<size_t, Driver> dr; V finally = nil(), fprot = NULL; int depth = it.depth;
        for (V x = body; consp(x); x = cdr(x)) {
            V f = car(x); if (!consp(f) || car(f)->t != SYM) { fs.push_back(f); continue; }
            const std::string & h = S(car(f))->name;
            if (h == "for" || h == "as" || h == "generate") { if (h == "generate") unsupported("generate"); iter_vars(cadr(f), e); }
            else if (h == "with") { V v = cadr(f); V init = nil(); if (consp(cddr(f))) init = eval(car(cdr(cddr(f))), e); e->vars.push_back(std::make_pair(S(v), init)); continue; }
            else if (h == "finally") { finally = cdr(f); continue; }
            else if (h == "finally-protected") unsupported("finally-protected");
            else if (h == "initially") { progn(cdr(f), e); continue; }
            else if (h == "declare") continue;
            walk_into(f, e);
            fs.push_back(f);
        }
        try {
            I repeat = -1;
            for (uint64_t n = 0;; n++) {
                if (n > 5000000) unsupported("endless iteration");
                bool any = false;
                for (size_t k = 0; k < fs.size(); k++) {
                    V f = fs[k];
                    if (consp(f) && car(f)->t == SYM) {
                        const std::string & h = S(car(f))->name;
                        if (h == "for" || h == "as") { if (!drive(dr[k], f, e)) throw Finish{depth}; any = true; continue; }
                        if (h == "repeat") { if (repeat < 0) repeat = in(eval(cadr(f), e)); if (repeat-- <= 0) throw Finish{depth}; continue; }
                    }
                    eval(f, e);
                }
                (void) any;
            }
        } catch (Finish & x) { if (x.depth != depth) throw; }
        auto value = [&]() -> V { if (it.has_result) return it.result; if (it.collected || it.rtype) return it.rtype ? to_type(it.rtype, it.plain) : list(it.plain); if (it.summed) return num(it.sum); if (it.best) return it.best; return nil(); };
        progn(finally, e);
        return value();
    });
}
// --- loop
inline V loop_form(V body, Env *env) {
    if (!consp(body) || consp(car(body))) return in_block(S(nil()), env, [&](Env *e) -> V { for (uint64_t n = 0;; n++) { if (n > 5000000) unsupported("endless loop"); progn(body, e); } });
    Iter it; IterGuard g(&it); int depth = it.depth;
    return in_block(S(nil()), env, [&](Env *be) -> V {
        Env *e = new Env(be); Args t = items(body); size_t p = 0;
        struct Clause { int kind; V a, b; std::vector<Clause> sub, els; Driver d; V f; };
        std::vector<Clause> cs; V finally = nil(); std::vector<V> fin; bool named = false; (void) named;
        auto word = [&](size_t i) -> std::string { return i < t.size() && t[i]->t == SYM ? S(t[i])->name : ""; };
        static const std::set<std::string> verbs = {"for", "as", "with", "while", "until", "do", "doing", "collect", "collecting", "append", "appending", "nconc", "nconcing", "sum", "summing", "count", "counting", "maximize", "minimize", "when", "if", "unless", "finally", "initially", "return", "always", "never", "thereis", "repeat", "and", "else", "end", "into", "named"};
        std::function<Clause()> clause = [&]() -> Clause {
            Clause c; c.kind = 0; c.a = c.b = NULL; c.f = NULL; std::string w = word(p++);
            if (w == "do" || w == "doing") { c.kind = 1; Args b; while (p < t.size() && consp(t[p])) b.push_back(t[p++]); c.a = list(b); }
            else if (w == "collect" || w == "collecting" || w == "append" || w == "appending" || w == "nconc" || w == "nconcing" || w == "sum" || w == "summing" || w == "count" || w == "counting" || w == "maximize" || w == "minimize") {
                c.kind = 2; c.b = num(w[0] == 'c' && w[2] == 'l' ? 0 : w[0] == 'a' || w[0] == 'n' ? 1 : w[0] == 's' ? 2 : w[0] == 'c' ? 3 : w[1] == 'a' ? 4 : 5); Args a = {t.at(p++)}; if (word(p) == "into") { a.push_back(sym("into")); a.push_back(t.at(p + 1)); if (!var_cell(S(t[p + 1]), e)) e->vars.push_back(std::make_pair(S(t[p + 1]), nil())); p += 2; } c.a = list(a); }
            else if (w == "when" || w == "if" || w == "unless") {
                c.kind = 3; c.a = t.at(p++); if (w == "unless") c.a = list(sym("not"), c.a);
                c.sub.push_back(clause()); while (word(p) == "and") { p++; c.sub.push_back(clause()); }
                if (word(p) == "else") { p++; c.els.push_back(clause()); while (word(p) == "and") { p++; c.els.push_back(clause()); } } if (word(p) == "end") p++; }
            else if (w == "while" || w == "until") { c.kind = 4; c.a = t.at(p++); if (w == "until") c.a = list(sym("not"), c.a); }
            else if (w == "return") { c.kind = 5; c.a = t.at(p++); }
            else if (w == "always" || w == "never" || w == "thereis") { c.kind = w == "always" ? 6 : w == "never" ? 7 : 8; c.a = t.at(p++); }
            else if (w == "repeat") { c.kind = 10; c.a = t.at(p++); }
            else if (w == "for" || w == "as") {
                c.kind = 9; Args b = {sym("for"), t.at(p++)}; iter_vars(b[1], e);
                while (p < t.size() && !(t[p]->t == SYM && !S(t[p])->kw && verbs.count(S(t[p])->name) && b.size() > 2 && b.size() % 2 == 0)) { if (b.size() % 2 == 0) { static const std::set<std::string> W = {"in", "on", "across", "=", "then", "from", "upfrom", "downfrom", "to", "upto", "downto", "below", "above", "by", "first"}; if (!W.count(word(p))) unsupported("loop for " + word(p)); } b.push_back(t[p++]); }
                c.f = list(b); }
            else unsupported("loop " + w);
            return c;
        };
        while (p < t.size()) {
            std::string w = word(p);
            if (w == "named") unsupported("loop named");
            if (w == "with") { p++; V v = t.at(p++); V x = nil(); if (word(p) == "=") { x = eval(t.at(p + 1), e); p += 2; } iter_vars(v, e); iter_bind(v, x, e); continue; }
            if (w == "finally") { p++; if (word(p) == "return") { fin.push_back(cons(sym("return"), cons(t.at(p + 1), nil()))); p += 2; } else { if (word(p) == "do") p++; while (p < t.size() && consp(t[p])) fin.push_back(t[p++]); } continue; }
            if (w == "initially") { p++; if (word(p) == "do") p++; while (p < t.size() && consp(t[p])) eval(t[p++], e); continue; }
            cs.push_back(clause());
        }
        std::map<Clause *, I> reps; bool always = false;
        std::function<void(Clause &)> run1 = [&](Clause & c) {
            switch (c.kind) {
            case 1: progn(c.a, e); break;
            case 2: { collect_clause(c.a, e, (int) in(c.b)); break; }
            case 3: { bool y = yes(eval(c.a, e)); for (auto & s : y ? c.sub : c.els) run1(s); break; }
            case 4: if (!yes(eval(c.a, e))) throw Finish{depth}; break;
            case 5: throw Return{be->id, eval(c.a, e)};
            case 6: always = true; if (!yes(eval(c.a, e))) throw Return{be->id, nil()}; break;
            case 7: always = true; if (yes(eval(c.a, e))) throw Return{be->id, nil()}; break;
            case 8: { V v = eval(c.a, e); if (yes(v)) throw Return{be->id, v}; break; }
            case 9: if (!drive(c.d, c.f, e)) throw Finish{depth}; break;
            case 10: { auto r = reps.find(&c); if (r == reps.end()) r = reps.insert(std::make_pair(&c, in(eval(c.a, e)))).first; if (r->second-- <= 0) throw Finish{depth}; break; }
            }
        };
        try { for (uint64_t n = 0;; n++) { if (n > 5000000) unsupported("endless loop"); for (auto & c : cs) run1(c); } }
        catch (Finish & x) { if (x.depth != depth) throw; }
        for (auto f : fin) eval(f, e);
        if (it.collected) return list(it.plain); if (it.summed) return num(it.sum); if (it.best) return it.best; if (always) return tee();
        for (auto & c : cs) if (c.kind == 2 && in(c.b) >= 2 && in(c.b) <= 3) return num(0);
        return nil();
    });
}
inline void add_method(Sym *gf, V rest, Env *e) { // rest: qualifiers, lambda list, body
    Fun *g = generic(gf); Method m; m.env = e; touch(g);
    while (consp(rest) && car(rest)->t == SYM && car(rest) != nil()) { m.quals.push_back(S(car(rest))->name); rest = cdr(rest); }
    V ll = car(rest); Args ps; bool req = true;
    for (; consp(ll); ll = cdr(ll)) { V p = car(ll); if (p->t == SYM && S(p)->name[0] == '&') req = false; if (req) { m.spec.push_back(consp(p) ? cadr(p) : tee()); ps.push_back(consp(p) ? car(p) : p); } else ps.push_back(p); }
    m.params = list(ps); m.body = strip_decl(cdr(rest));
    auto same = [](V a, V b) { return equal(a, b); };
    for (auto & o : g->methods) { bool eq = o.quals == m.quals && o.spec.size() == m.spec.size(); for (size_t i = 0; eq && i < m.spec.size(); i++) eq = same(o.spec[i], m.spec[i]); if (eq) { o = m; return; } }
    g->methods.push_back(m);
}
inline void define(Sym *s, V f) { s->fn = f; arena().dirty = true; }
inline V defclass_(V name, V supers, V slots) {
    Class *c = new Class; c->name = S(name);
    for (V x = supers; consp(x); x = cdr(x)) if (S(car(x))->cls) c->supers.push_back((Class *) S(car(x))->cls);
    arena().dirty = true; S(name)->cls = c;
    for (V x = slots; consp(x); x = cdr(x)) {
        V d = car(x); SlotDef s; s.name = S(consp(d) ? car(d) : d); s.initform = nil(); s.has = false;
        if (consp(d)) for (V o = cdr(d); consp(o); o = cddr(o)) {
            std::string k = S(car(o))->name; V v = cadr(o);
            if (k == "initarg") s.initargs.push_back(S(v)); else if (k == "initform") { s.initform = v; s.has = true; }
            else if (k == "accessor" || k == "reader" || k == "writer") {
                Sym *sl = s.name; Env *e = NULL;
                if (k != "writer") { V obj = sym("%object"); add_method(S(v), list(Args{list(Args{list(obj, name)}), list(sym("slot-value"), obj, list(sym("quote"), sl))}), e); }
                if (k == "accessor") { V obj = sym("%object"), val = sym("%value"); Sym *w = S(sym("(setf " + S(v)->name + ")")); add_method(w, list(Args{list(Args{val, list(obj, name)}), list(Args{sym("setf"), list(sym("slot-value"), obj, list(sym("quote"), sl)), val})}), e); }
            }
        }
        c->slots.push_back(s);
    }
    return name;
}
inline void struct_def(V spec, V rest, bool uni) {
    StructDef *d = new StructDef(); d->name = S(consp(spec) ? car(spec) : spec); d->cls = NULL; d->uni = uni;
    if (consp(spec)) for (V o = cdr(spec); consp(o); o = cddr(o)) if (iskey(car(o), "class")) d->cls = S(cadr(o)); else if (iskey(car(o), "size")) unsupported("structure of given size");
    structs()[d->name] = d;
    for (V x = rest; consp(x); x = cdr(x)) { V s = car(x); if (!consp(s)) continue; StructDef::Slot l; l.name = S(car(s)); l.t = parse_type(cadr(s)); l.count = 1; l.off = 0; for (V o = cddr(s); consp(o); o = cddr(o)) if (iskey(car(o), "count")) l.count = (size_t) in(cadr(o)); else unsupported("slot option"); d->slots.push_back(l); }
    layout(d);
}
struct Protect { std::function<void()> f; };
inline V let_form(V r, Env *e, bool star) {
    Env *n = new Env(e); Dynamic d; std::vector<std::pair<V, V> > vals;
    for (V x = car(r); consp(x); x = cdr(x)) {
        V b = car(x), name = consp(b) ? car(b) : b; V v = consp(b) && consp(cdr(b)) ? eval(cadr(b), star ? n : e) : nil();
        if (star) bind(n, d, name, v); else vals.push_back(std::make_pair(name, v));
    }
    for (auto & p : vals) bind(n, d, p.first, p.second);
    return progn(strip_decl(cons(nil(), cdr(r))) == nil() ? nil() : strip_decl(cdr(r)), n);
}
inline Args arglist(V r, Env *e) { Args a; for (V x = r; consp(x); x = cdr(x)) a.push_back(eval(car(x), e)); return a; }
inline V stepped(V r, Env *e, const char *op) { Env *in_; V pl = stable(car(r), e, in_); V by = consp(cdr(r)) ? eval(cadr(r), e) : num(1); return set_place(pl, [&]() { return apply(S(sym(op))->fn, Args{eval(pl, in_), by}); }, in_); }
inline void setup_forms() {
    form("quote", [](V r, Env *) { return car(r); });
    form("%quasi", [](V r, Env *e) { return quasi(car(r), e, 1); });
    form("function", [](V r, Env *e) -> V {
        V f = car(r); if (consp(f)) { if (is(car(f), "lambda")) return lambda(cadr(f), cddr(f), e); if (is(car(f), "setf")) { V s = S(sym("(setf " + S(cadr(f))->name + ")"))->fn; if (s) return s; } unsupported("function " + show(f)); }
        V fn = fun_of(S(f), e); if (fn) return fn; unsupported("function " + S(f)->name); });
    form("lambda", [](V r, Env *e) { return lambda(car(r), cdr(r), e); });
    form("if", [](V r, Env *e) { return yes(eval(car(r), e)) ? eval(cadr(r), e) : consp(cddr(r)) ? eval(car(cddr(r)), e) : nil(); });
    form("when", [](V r, Env *e) { return yes(eval(car(r), e)) ? progn(cdr(r), e) : nil(); });
    form("unless", [](V r, Env *e) { return yes(eval(car(r), e)) ? nil() : progn(cdr(r), e); });
    form("cond", [](V r, Env *e) { for (; consp(r); r = cdr(r)) { V v = eval(car(car(r)), e); if (yes(v)) return cdr(car(r)) == nil() ? v : progn(cdr(car(r)), e); } return nil(); });
    form("and", [](V r, Env *e) { V v = tee(); for (; consp(r); r = cdr(r)) { v = eval(car(r), e); if (!yes(v)) return v; } return v; });
    form("or", [](V r, Env *e) { for (; consp(r); r = cdr(r)) { V v = eval(car(r), e); if (yes(v)) return v; } return nil(); });
    form("progn", [](V r, Env *e) { return progn(r, e); }); defalias("locally", "progn");
    form("eval-when", [](V r, Env *e) { return progn(cdr(r), e); });
    form("declare", [](V, Env *) { return nil(); }); for (const char *n : {"declaim", "->", "define-foreign-library", "use-foreign-library", "load-foreign-library", "in-readtable", "in-package", "defpackage", "deftype", "define-condition", "define-compiler-macro"}) defalias(n, "declare");
    form("the", [](V r, Env *e) { return eval(cadr(r), e); });
    form("prog1", [](V r, Env *e) { V v = eval(car(r), e); progn(cdr(r), e); return v; });
    form("prog2", [](V r, Env *e) { eval(car(r), e); V v = eval(cadr(r), e); progn(cddr(r), e); return v; });
    form("let", [](V r, Env *e) { return let_form(r, e, false); });
    form("let*", [](V r, Env *e) { return let_form(r, e, true); });
    form("lret", [](V r, Env *e) { V b = car(r); V last = nil(); for (V x = b; consp(x); x = cdr(x)) last = consp(car(x)) ? car(car(x)) : car(x); Args f = {b}; for (V x = cdr(r); consp(x); x = cdr(x)) f.push_back(car(x)); f.push_back(last); return let_form(list(f), e, false); });
    form("lret*", [](V r, Env *e) { V b = car(r); V last = nil(); for (V x = b; consp(x); x = cdr(x)) last = consp(car(x)) ? car(car(x)) : car(x); Args f = {b}; for (V x = cdr(r); consp(x); x = cdr(x)) f.push_back(car(x)); f.push_back(last); return let_form(list(f), e, true); });
    form("flet", [](V r, Env *e) { Env *n = new Env(e); for (V x = car(r); consp(x); x = cdr(x)) { V f = car(x); n->funs.push_back(std::make_pair(S(car(f)), lambda(cadr(f), cddr(f), e, S(car(f))))); } return progn(strip_decl(cdr(r)), n); });
    form("labels", [](V r, Env *e) { Env *n = new Env(e); for (V x = car(r); consp(x); x = cdr(x)) { V f = car(x); n->funs.push_back(std::make_pair(S(car(f)), lambda(cadr(f), cddr(f), n, S(car(f))))); } return progn(strip_decl(cdr(r)), n); });
    form("block", [](V r, Env *e) { return in_block(S(car(r)), e, [&](Env *n) { return progn(cdr(r), n); }); });
    form("return-from", [](V r, Env *e) -> V { Sym *n = S(car(r)); for (Env *x = e; x; x = x->up) if (x->id && x->block == n) { V v = consp(cdr(r)) ? eval(cadr(r), e) : nil(); throw Return{x->id, v}; } unsupported("return-from " + n->name); });
    form("return", [](V r, Env *e) -> V { for (Env *x = e; x; x = x->up) if (x->id && x->block == S(nil())) { V v = consp(r) ? eval(car(r), e) : nil(); throw Return{x->id, v}; } unsupported("return"); });
    form("catch", [](V r, Env *e) -> V { V t = eval(car(r), e); try { return progn(cdr(r), e); } catch (Throw & x) { if (x.tag != t) throw; return x.v; } });
    form("throw", [](V r, Env *e) -> V { V t = eval(car(r), e); throw Throw{t, eval(cadr(r), e)}; });
    form("setq", [](V r, Env *e) { V v = nil(); for (; consp(r); r = cddr(r)) v = setq(car(r), eval(cadr(r), e), e); return v; });
    form("setf", [](V r, Env *e) { V v = nil(); for (; consp(r); r = cddr(r)) { V x = cadr(r); v = set_place(car(r), [&]() { return eval(x, e); }, e); } return v; });
    form("psetf", [](V r, Env *e) { std::vector<std::pair<V, V> > p; for (; consp(r); r = cddr(r)) { V x = eval(cadr(r), e); p.push_back(std::make_pair(car(r), x)); } for (auto & q : p) set_place(q.first, [&]() { return q.second; }, e); return nil(); }); defalias("psetq", "psetf");
    form("incf", [](V r, Env *e) { return stepped(r, e, "+"); });
    form("decf", [](V r, Env *e) { return stepped(r, e, "-"); });
    form("push", [](V r, Env *e) { V x = eval(car(r), e); Env *n; V pl = stable(cadr(r), e, n); return set_place(pl, [&]() { return cons(x, eval(pl, n)); }, n); });
    form("pushnew", [](V r, Env *e) { V x = eval(car(r), e); Env *n; V pl = stable(cadr(r), e, n); Args a = {x, eval(pl, n)}; for (V k = cddr(r); consp(k); k = cdr(k)) a.push_back(eval(car(k), e)); V nv = apply(S(sym("adjoin"))->fn, a); return set_place(pl, [&]() { return nv; }, n); });
    form("pop", [](V r, Env *e) { Env *n; V pl = stable(car(r), e, n); V l = eval(pl, n); set_place(pl, [&]() { return cdr(l); }, n); return car(l); });
    form("appendf", [](V r, Env *e) { Env *n; V pl = stable(car(r), e, n); Args a = {eval(pl, n)}; for (V x = cdr(r); consp(x); x = cdr(x)) a.push_back(eval(car(x), e)); V nv = apply(S(sym("append"))->fn, a); return set_place(pl, [&]() { return nv; }, n); });
    form("multiple-value-bind", [](V r, Env *e) { state().values.clear(); V v = eval(cadr(r), e); std::vector<V> vs = state().values; if (vs.empty()) vs.push_back(v); Env *n = new Env(e); Dynamic d; size_t i = 0; for (V x = car(r); consp(x); x = cdr(x), i++) bind(n, d, car(x), i < vs.size() ? vs[i] : nil()); return progn(strip_decl(cddr(r)), n); });
    form("multiple-value-list", [](V r, Env *e) { state().values.clear(); V v = eval(car(r), e); std::vector<V> vs = state().values; if (vs.empty()) vs.push_back(v); return list(vs); });
    form("nth-value", [](V r, Env *e) { I i = in(eval(car(r), e)); state().values.clear(); V v = eval(cadr(r), e); std::vector<V> vs = state().values; if (vs.empty()) vs.push_back(v); return (size_t) i < vs.size() ? vs[(size_t) i] : nil(); });
    form("destructuring-bind", [](V r, Env *e) { V v = eval(cadr(r), e); Env *n = new Env(e); Dynamic d; if (car(r)->t == SYM && car(r) != nil()) bind(n, d, car(r), v); else destructure(car(r), v, n, d, false, true); return progn(strip_decl(cddr(r)), n); });
    form("unwind-protect", [](V r, Env *e) -> V { V v; std::vector<V> vs; try { v = eval(car(r), e); vs = state().values; } catch (Unsupported &) { throw; } catch (...) { int d = state().depth; progn(cdr(r), e); state().depth = d; throw; } progn(cdr(r), e); state().values = vs; return v; });
    auto match = [](V k, V x) { if (consp(k) || k == nil()) { for (; consp(k); k = cdr(k)) if (eql(car(k), x)) return true; return false; } return eql(k, x); };
    form("case", [match](V r, Env *e) { V x = eval(car(r), e); for (V c = cdr(r); consp(c); c = cdr(c)) { V k = car(car(c)); if (is(k, "t") || is(k, "otherwise") || match(k, x)) return progn(cdr(car(c)), e); } return nil(); });
    form("ecase", [match](V r, Env *e) -> V { V x = eval(car(r), e); for (V c = cdr(r); consp(c); c = cdr(c)) if (match(car(car(c)), x)) return progn(cdr(car(c)), e); throw LispError{show(x) + " fell through ecase", nil()}; }); defalias("ccase", "ecase");
    form("typecase", [](V r, Env *e) { V x = eval(car(r), e); for (V c = cdr(r); consp(c); c = cdr(c)) { V k = car(car(c)); if (is(k, "t") || is(k, "otherwise") || typep(x, k)) return progn(cdr(car(c)), e); } return nil(); });
    form("etypecase", [](V r, Env *e) -> V { V x = eval(car(r), e); for (V c = cdr(r); consp(c); c = cdr(c)) if (is(car(car(c)), "t") || typep(x, car(car(c)))) return progn(cdr(car(c)), e); throw LispError{show(x) + " fell through etypecase", nil()}; });
    form("string-case", [](V r, Env *e) { std::string x = text(eval(car(r), e)); for (V c = cdr(r); consp(c); c = cdr(c)) { V k = car(car(c)); if (is(k, "t") || is(k, "otherwise")) return progn(cdr(car(c)), e); if (consp(k)) { for (V y = k; consp(y); y = cdr(y)) if (text(car(y)) == x) return progn(cdr(car(c)), e); } else if (text(k) == x) return progn(cdr(car(c)), e); } return nil(); });
    form("dolist", [](V r, Env *e) { V sp = car(r); return in_block(S(nil()), e, [&](Env *b) { for (V l = eval(cadr(sp), b); consp(l); l = cdr(l)) { Env *n = new Env(b); n->vars.push_back(std::make_pair(S(car(sp)), car(l))); progn(strip_decl(cdr(r)), n); } return consp(cddr(sp)) ? eval(car(cddr(sp)), b) : nil(); }); });
    form("dotimes", [](V r, Env *e) { V sp = car(r); return in_block(S(nil()), e, [&](Env *b) { I k = in(eval(cadr(sp), b)); for (I i = 0; i < k; i++) { Env *n = new Env(b); n->vars.push_back(std::make_pair(S(car(sp)), num(i))); progn(strip_decl(cdr(r)), n); } return consp(cddr(sp)) ? eval(car(cddr(sp)), b) : nil(); }); });
    form("do", [](V r, Env *e) { return in_block(S(nil()), e, [&](Env *b) -> V { Env *n = new Env(b); std::vector<std::pair<V, V> > init; for (V x = car(r); consp(x); x = cdr(x)) { V v = car(x); V iv = consp(v) && consp(cdr(v)) ? eval(cadr(v), b) : nil(); init.push_back(std::make_pair(consp(v) ? car(v) : v, iv)); } for (auto & p : init) n->vars.push_back(std::make_pair(S(p.first), p.second));
        for (uint64_t k = 0;; k++) { if (k > 5000000) unsupported("endless do"); if (yes(eval(car(cadr(r)), n))) return progn(cdr(cadr(r)), n); progn(strip_decl(cddr(r)), n); std::vector<std::pair<V, V> > nx; for (V x = car(r); consp(x); x = cdr(x)) if (consp(car(x)) && consp(cddr(car(x)))) { V nv = eval(car(cddr(car(x))), n); nx.push_back(std::make_pair(car(car(x)), nv)); } for (auto & p : nx) setq(p.first, p.second, n); } }); });
    form("loop", loop_form);
    form("iter", iterate); defalias("iterate", "iter");
    form("collect", [](V r, Env *e) { return collect_clause(r, e, 0); }); defalias("collecting", "collect");
    form("appending", [](V r, Env *e) { return collect_clause(r, e, 1); }); defalias("nconcing", "appending");
    form("sum", [](V r, Env *e) { return collect_clause(r, e, 2); }); defalias("summing", "sum");
    form("counting", [](V r, Env *e) { return collect_clause(r, e, 3); });
    form("maximize", [](V r, Env *e) { return collect_clause(r, e, 4); }); defalias("maximizing", "maximize");
    form("minimize", [](V r, Env *e) { return collect_clause(r, e, 5); }); defalias("minimizing", "minimize");
    form("while", [](V r, Env *e) -> V { Iter *i = iter(); if (!yes(eval(car(r), e))) throw Finish{i->depth}; return nil(); });
    form("until", [](V r, Env *e) -> V { Iter *i = iter(); if (yes(eval(car(r), e))) throw Finish{i->depth}; return nil(); });
    form("finish", [](V, Env *) -> V { throw Finish{iter()->depth}; });
    form("terminate", [](V, Env *) -> V { throw Finish{iter()->depth}; });
    form("when-let", [](V r, Env *e) { V b = car(r); if (consp(b) && car(b)->t == SYM) b = cons(b, nil()); std::vector<std::pair<V, V> > vs; for (V x = b; consp(x); x = cdr(x)) { V v = eval(cadr(car(x)), e); vs.push_back(std::make_pair(car(car(x)), v)); } for (auto & p : vs) if (!yes(p.second)) return nil(); Env *n = new Env(e); Dynamic d; for (auto & p : vs) bind(n, d, p.first, p.second); return progn(strip_decl(cdr(r)), n); });
    form("when-let*", [](V r, Env *e) { V b = car(r); if (consp(b) && car(b)->t == SYM) b = cons(b, nil()); Env *n = new Env(e); Dynamic d; for (V x = b; consp(x); x = cdr(x)) { V v = eval(cadr(car(x)), n); if (!yes(v)) return nil(); Env *m = new Env(n); bind(m, d, car(car(x)), v); n = m; } return progn(strip_decl(cdr(r)), n); });
    form("if-let", [](V r, Env *e) { V b = car(r); if (consp(b) && car(b)->t == SYM) b = cons(b, nil()); std::vector<std::pair<V, V> > vs; bool ok = true; for (V x = b; consp(x); x = cdr(x)) { V v = eval(cadr(car(x)), e); vs.push_back(std::make_pair(car(car(x)), v)); ok = ok && yes(v); } if (!ok) return consp(cddr(r)) ? eval(car(cddr(r)), e) : nil(); Env *n = new Env(e); Dynamic d; for (auto & p : vs) bind(n, d, p.first, p.second); return eval(cadr(r), n); });
    form("nest", [](V r, Env *e) { Args a = items(r); V f = a.back(); for (size_t i = a.size() - 1; i-- > 0;) { Args h = items(a[i]); h.push_back(f); f = list(h); } return eval(f, e); });
    form("~>", [](V r, Env *e) { Args a = items(r); V f = a[0]; for (size_t i = 1; i < a.size(); i++) { if (consp(a[i])) { if (is(car(a[i]), "function")) f = list(cadr(a[i]), f); else f = cons(car(a[i]), cons(f, cdr(a[i]))); } else f = list(a[i], f); } return eval(f, e); });
    form("~>>", [](V r, Env *e) { Args a = items(r); V f = a[0]; for (size_t i = 1; i < a.size(); i++) { if (consp(a[i])) { Args h = items(a[i]); h.push_back(f); f = list(h); } else f = list(a[i], f); } return eval(f, e); });
    form("%curry", [](V r, Env *e) -> V {
        V h = car(r); V f = consp(h) || (h->t == SYM && !fun_of(S(h), e) && var_cell(S(h), e)) ? eval(h, e) : h->t == SYM ? fun_of(S(h), e) : NULL; if (!f) unsupported("function " + show(h));
        std::vector<V> as; std::vector<bool> blank; int nb = 0;
        for (V x = cdr(r); consp(x); x = cdr(x)) { bool b = is(car(x), "_"); blank.push_back(b); nb += b; as.push_back(b ? nil() : eval(car(x), e)); }
        return native([f, as, blank, nb](Args & a) -> V { Args c; size_t k = 0; for (size_t i = 0; i < as.size(); i++) { if (blank[i]) { if (k >= a.size()) throw LispError{"too few arguments", nil()}; c.push_back(a[k++]); } else c.push_back(as[i]); } if (nb) { if (k < a.size()) throw LispError{"too many arguments", nil()}; } else for (; k < a.size(); k++) c.push_back(a[k]); return apply(f, c); }); });
    form("%compose", [](V r, Env *e) -> V { Args fs = arglist(r, e); return native([fs](Args & a) -> V { V v = apply(fs.back(), a); for (size_t i = fs.size() - 1; i-- > 0;) v = call(fs[i], v); return v; }); });
    form("handler-case", [](V r, Env *e) -> V {
        struct G { G() { state().guarded++; } ~G() { state().guarded--; } };
        try { V v; { G g; v = eval(car(r), e); } for (V c = cdr(r); consp(c); c = cdr(c)) if (iskey(car(car(c)), "no-error")) unsupported("handler-case :no-error"); return v; }
        catch (LispError & x) {
            for (V c = cdr(r); consp(c); c = cdr(c)) { V cl = car(c); if (is(car(cl), "error") || is(car(cl), "condition") || is(car(cl), "t") || is(car(cl), "serious-condition") || (car(cl)->t == SYM && S(car(cl))->cls && type_rank(x.cond, car(cl)) >= 0)) { Env *n = new Env(e); if (consp(cadr(cl))) n->vars.push_back(std::make_pair(S(car(cadr(cl))), x.cond == nil() ? condition(x.msg) : x.cond)); return progn(strip_decl(cddr(cl)), n); } }
            throw;
        } });
    form("ignore-errors", [](V r, Env *e) -> V { struct G { G() { state().guarded++; } ~G() { state().guarded--; } } g; try { return progn(r, e); } catch (LispError &) { return nil(); } });
    form("handler-bind", [](V r, Env *e) { return progn(cdr(r), e); });
    form("restart-case", [](V r, Env *e) -> V {
        uint64_t id = ++state().ids; struct G { size_t n; G() : n(state().restarts.size()) {} ~G() { state().restarts.resize(n); } } g;
        for (V c = cdr(r); consp(c); c = cdr(c)) state().restarts.push_back(std::make_pair(S(car(car(c)))->name, id));
        try { return eval(car(r), e); }
        catch (Restart & x) {
            if (x.id != id) throw;
            for (V c = cdr(r); consp(c); c = cdr(c)) if (S(car(car(c)))->name == x.name) { if (cadr(car(c)) != nil()) unsupported("restart with arguments"); V b = cddr(car(c)); while (consp(b) && car(b)->t == SYM && S(car(b))->kw) b = cddr(b); state().restarts.resize(g.n); return progn(b, e); }
            throw;
        } });
    form("with-simple-restart", [](V r, Env *e) { return progn(cdr(r), e); });
    form("assert", [](V r, Env *e) -> V { if (!yes(eval(car(r), e))) throw LispError{"assertion failed: " + show(car(r)), nil()}; return nil(); });
    form("check-type", [](V r, Env *e) -> V { if (!typep(eval(car(r), e), cadr(r))) throw LispError{"type of " + show(car(r)), nil()}; return nil(); });
    form("defun", [](V r, Env *e) { Sym *s = S(consp(car(r)) ? sym("(setf " + S(cadr(car(r)))->name + ")") : car(r)); define(s, lambda(cadr(r), cddr(r), e, consp(car(r)) ? S(cadr(car(r))) : s)); return car(r); }); defalias("defsubst", "defun"); defalias("defun-inline", "defun");
    form("defmacro", [](V r, Env *e) { Sym *s = S(car(r)); V f = lambda(cadr(r), cddr(r), e, s); s->macro = f; s->fn = NULL; arena().dirty = true; return car(r); });
    form("defvar", [](V r, Env *e) { Sym *s = S(car(r)); s->special = true; if (!s->value && consp(cdr(r))) { s->value = eval(cadr(r), e); arena().dirty = true; } return car(r); });
    form("defparameter", [](V r, Env *e) { Sym *s = S(car(r)); s->special = true; s->value = eval(cadr(r), e); arena().dirty = true; return car(r); });
    defalias("defconst", "defparameter"); defalias("defconstant", "defparameter"); defalias("define-constant", "defparameter"); defalias("def", "defparameter");
    form("defgeneric", [](V r, Env *e) { Sym *s = S(consp(car(r)) ? sym("(setf " + S(cadr(car(r)))->name + ")") : car(r)); generic(s); for (V o = cddr(r); consp(o); o = cdr(o)) if (consp(car(o)) && iskey(car(car(o)), "method")) add_method(s, cdr(car(o)), e); return car(r); });
    form("defmethod", [](V r, Env *e) { Sym *s = S(consp(car(r)) ? sym("(setf " + S(cadr(car(r)))->name + ")") : car(r)); add_method(s, cdr(r), e); return car(r); });
    form("defclass", [](V r, Env *) { return defclass_(car(r), cadr(r), car(cddr(r))); }); defalias("define-software", "defclass");
    form("with-slots", [](V r, Env *) -> V { unsupported("with-slots"); });
    form("define-condition", [](V r, Env *) { Class *c = new Class; c->name = S(car(r)); S(car(r))->cls = c; arena().dirty = true; c->supers.push_back(condition_class()); return car(r); });
    form("with-gensyms", [](V r, Env *e) { Env *n = new Env(e); for (V x = car(r); consp(x); x = cdr(x)) n->vars.push_back(std::make_pair(S(consp(car(x)) ? car(car(x)) : car(x)), new Sym("%g" + itoa(++state().ids), false))); return progn(cdr(r), n); });
    form("time", [](V r, Env *e) { return eval(car(r), e); });
    // foreign declarations
    form("defcenum", [](V r, Env *e) { V n = consp(car(r)) ? car(car(r)) : car(r); CType *t = mk('e', 4); t->en = new EnumDef; I k = 0; V x = cdr(r); if (consp(x) && car(x)->t == STR) x = cdr(x); for (; consp(x); x = cdr(x)) { V y = car(x); if (consp(y)) { k = in(eval(cadr(y), e)); y = car(y); } t->en->v.push_back(std::make_pair(S(y), k++)); } ctypes()[S(n)] = t; return n; });
    form("defcstruct", [](V r, Env *) { V x = cdr(r); if (consp(x) && car(x)->t == STR) x = cdr(x); struct_def(car(r), x, false); return car(r); });
    form("defcunion", [](V r, Env *) { V x = cdr(r); if (consp(x) && car(x)->t == STR) x = cdr(x); struct_def(car(r), x, true); return car(r); });
    form("defctype", [](V r, Env *) { ctypes()[S(car(r))] = parse_type(cadr(r)); return car(r); });
    form("defcfun", [](V r, Env *) {
        std::string c; Sym *l = NULL; V h = car(r);
        if (consp(h)) { for (V x = h; consp(x); x = cdr(x)) { if (car(x)->t == STR && c.empty()) c = text(car(x)); else if (car(x)->t == SYM && !S(car(x))->kw && !l) l = S(car(x)); } } else if (h->t == STR) c = text(h);
        if (c.empty() || (!l && h->t != STR)) unsupported("defcfun");
        if (!l) { std::string n; for (char ch : c) n += ch == '_' ? '-' : tolower(ch); l = S(sym(n)); }
        CType *ret = parse_type(cadr(r)); std::vector<CType *> ts; V x = cddr(r); if (consp(x) && car(x)->t == STR) x = cdr(x);
        for (; consp(x); x = cdr(x)) { if (!consp(car(x))) unsupported("variadic foreign function"); ts.push_back(parse_type(cadr(car(x)))); }
        define(l, native([c, ret, ts](Args & a) { return call_foreign(c, ret, ts, a); })); return (V) l; });
    form("with-foreign-object", [](V r, Env *e) -> V { V s = car(r); CType *t = parse_type(eval(cadr(s), e)); I n = consp(cddr(s)) ? in(eval(car(cddr(s)), e)) : 1; struct M { void *p; ~M() { free(p); } } m = { malloc(std::max<size_t>(1, t->size * (size_t) n)) }; Env *k = new Env(e); k->vars.push_back(std::make_pair(S(car(s)), ptr((uint64_t) m.p))); return progn(strip_decl(cdr(r)), k); });
    form("with-foreign-objects", [](V r, Env *e) { Args b = items(car(r)); V f = cons(sym("progn"), cdr(r)); for (size_t i = b.size(); i-- > 0;) f = list(sym("with-foreign-object"), b[i], f); return eval(f, e); });
    form("with-foreign-string", [](V r, Env *e) -> V { V s = car(r); std::string t = text(eval(cadr(s), e)); struct M { char *p; ~M() { free(p); } } m = { strdup(t.c_str()) }; Env *k = new Env(e); k->vars.push_back(std::make_pair(S(car(s)), ptr((uint64_t) m.p))); return progn(strip_decl(cdr(r)), k); });
    form("with-foreign-slots", [](V r, Env *e) { Args h = items(car(r)); uint64_t p = addr(eval(h[1], e)); V ty = h[2]; if (consp(ty) && is(car(ty), "quote")) ty = cadr(ty); CType *t = parse_type(ty); if (!t->st) unsupported("with-foreign-slots"); Env *n = new Env(e); for (V x = h[0]; consp(x); x = cdr(x)) { if (consp(car(x))) unsupported("with-foreign-slots pointer"); n->vars.push_back(std::make_pair(S(car(x)), slot_read(slot_of(t->st, car(x)), p))); } return progn(strip_decl(cdr(r)), n); });
    form("foreign-free", [](V r, Env *e) -> V { uint64_t p = addr(eval(car(r), e)); state().blocks.erase(p); free((void *) p); return nil(); });
    // store and restore
    form("defstore-cl-store", [](V r, Env *e) { Args h = items(car(r)); add_method(S(sym("%store")), cons(list(Args{list(h[0], h[1]), h[2]}), cdr(r)), e); return nil(); });
    form("defrestore-cl-store", [](V r, Env *e) { Sym *s = S(sym("%restore-" + S(car(car(r)))->name)); define(s, lambda(cons(cadr(car(r)), nil()), cdr(r), e, s)); return nil(); });
}
