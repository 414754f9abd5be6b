// cl_cffi.hpp -- foreign types, memory and functions (included by cl.hpp).
struct CType; struct StructDef { struct Slot { Sym *name; CType *t; size_t off, count; }; Sym *name, *cls; std::vector<Slot> slots; size_t size, align; bool uni; };
struct EnumDef { std::vector<std::pair<Sym *, I> > v; };
struct CType { char k; size_t size, align; StructDef *st; EnumDef *en; CType *elem; size_t n; };   // i u f p(ointer) s(tring) v e(num) S(truct) a(rray) b(oolean)
inline std::map<Sym *, CType *> & ctypes() { static std::map<Sym *, CType *> m; return m; }
inline std::map<Sym *, StructDef *> & structs() { static std::map<Sym *, StructDef *> m; return m; }
inline CType *mk(char k, size_t s) { CType *t = new CType(); t->k = k; t->size = s; t->align = s ? s : 1; return t; }
inline CType *base_type(const std::string & n) {
    static std::map<std::string, CType *> m;
    if (m.empty()) {
        const char *T[] = {"char i1", "unsigned-char u1", "uchar u1", "short i2", "unsigned-short u2", "ushort u2", "int i4", "unsigned-int u4", "uint u4", "long i8", "unsigned-long u8", "ulong u8", "long-long i8", "unsigned-long-long u8", "llong i8", "ullong u8",
            "int8 i1", "uint8 u1", "int16 i2", "uint16 u2", "int32 i4", "uint32 u4", "int64 i8", "uint64 u8", "size u8", "ssize i8", "intptr i8", "uintptr u8", "ptrdiff i8", "offset i8", "float f4", "double f8", "pointer p8", "string s8", "void v0", "boolean b4", "bool b1"};
        for (auto s : T) { std::string x = s; size_t p = x.find(' '); m[x.substr(0, p)] = mk(x[p + 1], x[p + 2] - '0'); }
    }
    auto i = m.find(n); return i == m.end() ? NULL : i->second;
}
inline CType *struct_type(StructDef *d) { CType *t = mk('S', d->size); t->align = d->align; t->st = d; return t; }
inline CType *parse_type(V v) {
    if (v->t == SYM) {
        if (S(v)->kw) { CType *t = base_type(S(v)->name); if (t) return t; unsupported("foreign type :" + S(v)->name); }
        auto i = ctypes().find(S(v)); if (i != ctypes().end()) return i->second;
        auto j = structs().find(S(v)); if (j != structs().end()) return struct_type(j->second);
        CType *t = base_type(S(v)->name); if (t) return t;
        unsupported("foreign type " + S(v)->name);
    }
    if (consp(v) && car(v)->t == SYM) {
        const std::string & h = S(car(v))->name;
        if (h == "struct" || h == "union") { auto j = structs().find(S(cadr(v))); if (j == structs().end()) unsupported("structure " + show(cadr(v))); return struct_type(j->second); }
        if (h == "pointer") return base_type("pointer");
        if (h == "array") { CType *t = new CType(*mk('a', 0)); t->elem = parse_type(cadr(v)); t->n = (size_t) in(car(cddr(v))); t->size = t->elem->size * t->n; t->align = t->elem->align; return t; }
        if (h == "boolean" || h == "bool") { CType *t = mk('b', consp(cdr(v)) ? parse_type(cadr(v))->size : 4); return t; }
        if (h == "string") return base_type("string");
    }
    unsupported("foreign type " + show(v));
}
inline void layout(StructDef *d) { size_t o = 0; d->align = 1; d->size = 0; for (auto & s : d->slots) { if (d->uni) o = 0; o = (o + s.t->align - 1) / s.t->align * s.t->align; s.off = o; o += s.t->size * s.count; d->align = std::max(d->align, s.t->align); d->size = std::max(d->size, o); } d->size = (d->size + d->align - 1) / d->align * d->align; }
inline void seen(const char *what) { if (state().hook) state().hook(what); }
inline uint64_t addr(V v) { if (v->t != PTR) throw LispError{"not a foreign pointer: " + show(v), nil()}; return ((Ptr *) v)->p; }
struct Foreign { Foreign() { if (state().foreign) state().foreign(true); } ~Foreign() { if (state().foreign) state().foreign(false); } };
inline uint64_t alloc(size_t n) { uint64_t p; { Foreign f; p = (uint64_t) malloc(n ? n : 1); } state().blocks.insert(p); return p; }
inline std::string c_string(uint64_t p) { if (p > 4096 && __asan_address_is_poisoned((void *) p)) throw LispError{"foreign memory which is not allocated is accessed", nil()}; return std::string((const char *) p); }
inline V from_foreign(CType *t, uint64_t p);
inline StructDef::Slot *slot_of(StructDef *d, V n) { for (auto & s : d->slots) if (s.name == S(n) || s.name->name == S(n)->name) return &s; throw LispError{"no slot " + show(n) + " in structure " + (d->name ? d->name->name : "?"), nil()}; }
inline V slot_read(StructDef::Slot *s, uint64_t p) { if (s->count != 1) return ptr(p + s->off); return from_foreign(s->t, p + s->off); }
// methods of expand-from-foreign / translate-from-foreign for the class of a structure
inline V translated(StructDef *d, uint64_t p, bool & done) {
    done = false; if (!d->cls) return nil();
    for (const char *g : {"expand-from-foreign", "translate-from-foreign"}) {
        V f = S(sym(g))->fn; if (!f || !((Fun *) f)->generic) continue;
        for (auto & m : ((Fun *) f)->methods) if (m.spec.size() > 1 && m.spec[1] == d->cls) {
            Fun *gf = (Fun *) f; V pv = ptr(p); Args a;
            if (g[0] == 'e') { a = Args{sym("%foreign-value"), nil()}; V form = run_method(gf, &m, a, [](Args &) -> V { unsupported("call-next-method"); }, false); Env *e = new Env(NULL); e->vars.push_back(std::make_pair(S(sym("%foreign-value")), pv)); done = true; return eval(form, e); }
            a = Args{pv, nil()}; done = true; return run_method(gf, &m, a, [](Args &) -> V { unsupported("call-next-method"); }, false);
        }
    }
    return nil();
}
// this file is compiled without AddressSanitizer, so what it touches is looked up
inline void reach(uint64_t p, size_t n) { if (n && p > 4096 && __asan_region_is_poisoned((void *) p, n)) throw LispError{"foreign memory which is not allocated is accessed", nil()}; }
inline V from_foreign(CType *t, uint64_t p) {
    if (t->k != 'S' && t->k != 'a') reach(p, t->size);
    switch (t->k) {
    case 'i': { int64_t v = 0; memcpy(&v, (void *) p, t->size); int sh = 64 - 8 * (int) t->size; return num((int64_t) ((uint64_t) v << sh) >> sh); }
    case 'u': { uint64_t v = 0; memcpy(&v, (void *) p, t->size); return num(v); }
    case 'b': { uint64_t v = 0; memcpy(&v, (void *) p, t->size); return boolean(v != 0); }
    case 'f': if (t->size == 4) { float f; memcpy(&f, (void *) p, 4); return new Dbl(f, true); } else { double f; memcpy(&f, (void *) p, 8); return new Dbl(f, false); }
    case 'p': { uint64_t v; memcpy(&v, (void *) p, 8); return ptr(v); }
    case 's': { uint64_t v; memcpy(&v, (void *) p, 8); return v ? str(c_string(v)) : nil(); }
    case 'e': { int32_t v; memcpy(&v, (void *) p, 4); for (auto & x : t->en->v) if (x.second == v) return x.first; throw LispError{"no enumerator " + itoa(v), nil()}; }
    case 'S': { bool done; V r = translated(t->st, p, done); if (done) return r; Args a; for (auto & s : t->st->slots) { a.push_back(s.name); a.push_back(slot_read(&s, p)); } return list(a); }
    case 'a': { Args a; for (size_t i = 0; i < t->n; i++) a.push_back(from_foreign(t->elem, p + i * t->elem->size)); return vec(a); }
    }
    unsupported("reading a foreign value");
}
inline uint64_t int_arg(CType *t, V v) {
    I x = in(v); int b = 8 * (int) t->size;
    if (t->k == 'u' ? x < 0 || x >= ((I) 1 << b) : x < -((I) 1 << (b - 1)) || x >= ((I) 1 << (b - 1))) throw LispError{itoa(x) + " does not fit a foreign integer of " + itoa(b) + " bits", nil()};
    return (uint64_t) x;
}
inline void to_foreign(CType *t, uint64_t p, V v) {
    if (t->k != 'S' && t->k != 'a') reach(p, t->size);
    switch (t->k) {
    case 'i': case 'u': { uint64_t x = int_arg(t, v); memcpy((void *) p, &x, t->size); return; }
    case 'b': { uint64_t x = yes(v); memcpy((void *) p, &x, t->size); return; }
    case 'f': { if (v->t != DBL) throw LispError{"not a float: " + show(v), nil()}; if ((t->size == 4) != ((Dbl *) v)->single) throw LispError{"a float of another format: " + show(v), nil()}; if (t->size == 4) { float f = ((Dbl *) v)->d; memcpy((void *) p, &f, 4); } else memcpy((void *) p, &((Dbl *) v)->d, 8); return; }
    case 'p': { uint64_t x = addr(v); memcpy((void *) p, &x, 8); return; }
    case 's': { uint64_t x = 0; if (v->t == STR) { const std::string & s = ((Str *) v)->s; x = alloc(s.size() + 1); memcpy((void *) x, s.c_str(), s.size() + 1); } else if (v->t == PTR) x = addr(v); else if (v != nil()) throw LispError{"not a string: " + show(v), nil()}; memcpy((void *) p, &x, 8); return; }
    case 'e': { I x; if (v->t == INT) x = in(v); else { bool ok = false; for (auto & y : t->en->v) if (y.first == v || (v->t == SYM && y.first->name == S(v)->name)) { x = y.second; ok = true; break; } if (!ok) throw LispError{"no enumerator " + show(v), nil()}; } int32_t w = (int32_t) x; memcpy((void *) p, &w, 4); return; }
    case 'S': { Args a = items(v); if (a.size() % 2) throw LispError{"odd property list", nil()}; for (size_t i = 0; i < a.size(); i += 2) { auto s = slot_of(t->st, a[i]); to_foreign(s->t, p + s->off, a[i + 1]); } return; }
    case 'a': { Args a = seq(v); if (a.size() < t->n) throw LispError{"array too short", nil()}; for (size_t i = 0; i < t->n; i++) to_foreign(t->elem, p + i * t->elem->size, a[i]); return; }
    }
    unsupported("writing a foreign value");
}
inline V call_foreign(const std::string & name, CType *ret, const std::vector<CType *> & ts, Args & a) {
    if (a.size() != ts.size()) throw LispError{"wrong number of arguments for " + name, nil()};
    if (a.size() > 14) unsupported("foreign function of many arguments");
    void *f = dlsym(RTLD_DEFAULT, name.c_str()); if (!f) unsupported("foreign function " + name);
    if (state().calling) state().calling(name, a);
    uint64_t x[14] = {0}; std::vector<char *> tmp;
    for (size_t i = 0; i < ts.size(); i++) {
        CType *t = ts[i]; V v = a[i];
        if (t->k == 'i' || t->k == 'u') x[i] = int_arg(t, v);
        else if (t->k == 'p') x[i] = addr(v);
        else if (t->k == 'b') x[i] = yes(v);
        else if (t->k == 's') { if (v->t == STR) { char *s = strdup(((Str *) v)->s.c_str()); tmp.push_back(s); x[i] = (uint64_t) s; } else if (v->t == PTR) x[i] = addr(v); else if (v == nil()) x[i] = 0; else throw LispError{"not a string: " + show(v), nil()}; }
        else if (t->k == 'e') { uint64_t w = 0; to_foreign(t, (uint64_t) &w, v); x[i] = w; }
        else unsupported("foreign argument");
    }
    seen(name.c_str());
    typedef uint64_t (*F)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
    uint64_t r; { Foreign inside; r = ((F) f)(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13]); }
    for (auto s : tmp) free(s);
    switch (ret->k) {
    case 'v': return nil();
    case 'p': return ptr(r);
    case 's': return r ? str(c_string(r)) : nil();
    case 'i': case 'u': case 'b': case 'e': return from_foreign(ret, (uint64_t) &r);
    }
    unsupported("foreign result");
}
inline uint64_t elem_addr(V p, CType *t, I i) { return addr(p) + (uint64_t) ((int64_t) i * (int64_t) t->size); }
