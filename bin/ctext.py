"""The C code that instrumentation injects, taken out of the Lisp sources.

The strings are evaluated as the Lisp code builds them (concatenate, fmt), and
the code which the instrumenter generates for a variable of a type is produced
by interpreting the functions that do it (instrument-c-exprs).  Where the
interpreter meets something it does not know it falls back to the calling
convention the runtime documents, so that reorganizing the Lisp code is
harmless."""
import os, re
import lisp
from lisp import Sym


class Unknown(Exception):
    pass


NIL = None


def princ(x):
    if x is NIL:
        return 'NIL'
    if x is True:
        return 'T'
    if isinstance(x, Sym):
        return x.lstrip(':').upper()
    return str(x)


def prin1(x):
    if isinstance(x, str) and not isinstance(x, Sym):
        return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
    return princ(x)


def fmt(ctl, args):
    """A subset of FORMAT."""
    out, i, a = [], 0, list(args)
    while i < len(ctl):
        c = ctl[i]
        if c != '~':
            out.append(c)
            i += 1
            continue
        d = ctl[i + 1].lower()
        i += 2
        if d in 'ad':
            out.append(princ(a.pop(0)))
        elif d == 's':
            out.append(prin1(a.pop(0)))
        elif d == '%':
            out.append('\n')
        elif d == '~':
            out.append('~')
        elif d == '\n':
            while i < len(ctl) and ctl[i].isspace():
                i += 1
        elif d == '{':
            j = ctl.index('~}', i)
            body, i = ctl[i:j], j + 2
            body, _, sep = body.partition('~^')
            items = list(a.pop(0) or [])
            parts = []
            while items:
                n = len(re.findall(r'~[adsADS]', body))
                parts.append(fmt(body, items[:n]))
                items = items[n:]
            out.append(fmt(sep, []).join(parts) if '~^' in ctl else ''.join(parts))
        else:
            raise Unknown('~' + d)
    return ''.join(out)


def quoted(x):
    if isinstance(x, list):
        return [quoted(y) for y in x] if x else NIL
    if isinstance(x, Sym) and x == 'nil':
        return NIL
    return True if isinstance(x, Sym) and x == 't' else x


class Interp:
    def __init__(self, env=None, funs=None, builtins=None):
        self.funs, self.builtins = funs or {}, builtins or {}
        self.env = dict(env or {})

    def body(self, fs, env):
        v = NIL
        for f in fs:
            v = self.ev(f, env)
        return v

    def call(self, name, args):
        if name in self.builtins:
            return self.builtins[name](*args)
        if name in self.funs:
            params, body = self.funs[name]
            env = dict(self.env)
            ps = [p for p in params if isinstance(p, Sym) and not p.startswith('&')]
            if len(ps) != len(args):
                raise Unknown(name)
            env.update(zip(ps, args))
            if len(body) > 1 and isinstance(body[0], str) and not isinstance(body[0], Sym):
                body = body[1:]
            return self.body(body, env)
        raise Unknown(name)

    def ev(self, f, env):
        if isinstance(f, Sym):
            if f.startswith(':'):
                return f
            if f == 't':
                return True
            if f == 'nil':
                return NIL
            if f in env:
                return env[f]
            if f in self.env:
                return self.env[f]
            raise Unknown(f)
        if not isinstance(f, list):
            return f
        if not f:
            return NIL
        if not isinstance(f[0], Sym):
            raise Unknown(f[0])
        h, a = f[0].split(':')[-1], f[1:]
        if h == 'quote':
            return quoted(a[0])
        if h == 'cond':
            for cl in a:
                v = self.ev(cl[0], env)
                if v is not NIL and v is not False:
                    return self.body(cl[1:], env) if len(cl) > 1 else v
            return NIL
        if h == 'and':
            v = True
            for x in a:
                v = self.ev(x, env)
                if v is NIL or v is False:
                    return NIL
            return v
        if h == 'or':
            for x in a:
                v = self.ev(x, env)
                if v is not NIL and v is not False:
                    return v
            return NIL
        if h in ('if', 'when', 'unless'):
            t = self.ev(a[0], env)
            t = t is not NIL and t is not False
            if h == 'if':
                return self.ev(a[1], env) if t else (self.ev(a[2], env) if len(a) > 2 else NIL)
            return self.body(a[1:], env) if t == (h == 'when') else NIL
        if h in ('let', 'let*'):
            e = dict(env)
            for b in a[0]:
                e[b[0]] = self.ev(b[1], e if h == 'let*' else env)
            return self.body(a[1:], e)
        if h == 'progn':
            return self.body(a, env)
        if h == 'nest':
            g = a[-1]
            for x in reversed(a[:-1]):
                g = x + [g]
            return self.ev(g, env)
        if h == 'collect':
            if 'into' in a:
                return ('collect', a[a.index('into') + 1], self.ev(a[0], env))
            raise Unknown('collect')
        if h == 'member':
            x = self.ev(a[0], env)
            l = self.ev(a[1], env)
            return True if x in (l or []) else NIL
        if h in self.builtins or h in self.funs:
            return self.call(h, [self.ev(x, env) for x in a])
        v = [self.ev(x, env) for x in a]
        if h == 'fmt':
            return fmt(v[0], v[1:])
        if h == 'format' and v[0] is NIL:
            return fmt(v[1], v[2:])
        if h == 'concatenate':
            return ''.join(v[1:])
        if h in ('string=', 'equal', 'eq', 'eql', 'equalp'):
            return True if v[0] == v[1] else NIL
        if h == 'not' or h == 'null':
            return True if v[0] is NIL or v[0] is False else NIL
        if h == 'xor':
            p, q = (x is not NIL and x is not False for x in v)
            return True if p != q else NIL
        if h == 'list':
            return v
        if h == 'length':
            return len(v[0] or [])
        raise Unknown(h)


def constants(repo):
    """name -> string, for all constants that can be evaluated."""
    env = {}
    todo = []
    for f in ('traceable.lisp', 'instrumentation/instrument.lisp', 'instrumentation/c-cpp.lisp'):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            todo += lisp.forms(open(p, errors='replace').read(), ('defconst', 'defvar', 'defparameter', 'define-constant', 'defconstant'))
    for _ in range(3):
        for f in todo:
            if len(f) < 3 or f[1] in env:
                continue
            try:
                env[f[1]] = Interp(env).ev(f[2], env)
            except (Unknown, IndexError, TypeError, ValueError, KeyError):
                pass
    return env


# C types: (declaration of x, canonical name, pointers, arrays, language)
CANDIDATES = []
for t in ['char', 'signed char', 'unsigned char', 'short', 'short int', 'unsigned short int', 'int', 'unsigned int', 'unsigned', 'long', 'long int',
          'unsigned long int', 'long long int', 'unsigned long long int', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t',
          'uint32_t', 'uint64_t', 'size_t', 'wchar_t', 'float', 'double', 'long double', 'intptr_t', 'uintptr_t', 'ptrdiff_t', 'ssize_t']:
    CANDIDATES.append(('%s x' % t, t, 0, 0, 'b'))
for t in ['char', 'int', 'double', 'void', 'uint64_t']:
    CANDIDATES.append(('%s *x' % t, t, 1, 0, 'b'))
    CANDIDATES.append(('%s **x' % t, t, 2, 0, 'b'))
    if t != 'void':
        CANDIDATES.append(('%s x[4]' % t, t, 0, 1, 'b'))
        CANDIDATES.append(('%s *x[4]' % t, t, 1, 1, 'b'))
CANDIDATES.append(('std::string x', 'std::string', 0, 0, '+'))
CANDIDATES.append(('string x', 'string', 0, 0, '+'))
# what instrumentation is documented to trace
REQUIRED = ['char', 'unsigned char', 'short int', 'unsigned short int', 'int', 'unsigned int', 'long int', 'unsigned long int', 'int8_t', 'int16_t',
            'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'size_t', 'wchar_t', 'float', 'double']

DEFAULT = {'id': '\n__write_trace_id(%(log)s, %(lock)s, %(id)su);', 'end': '__write_end_entry(%(log)s, %(lock)s);\n'}


class Generator:
    def __init__(self, repo):
        self.c = constants(repo)
        p = os.path.join(repo, 'instrumentation', 'c-cpp.lisp')
        self.text = open(p, errors='replace').read()
        self.log = self.c.get('+trace-instrument-log-variable-name+', '__sel_trace_file')
        self.lock = self.c.get('+instrument-log-lock-variable-name+', '__sel_trace_file_lock')
        self.notes = []
        self.names = {}
        self.interp()

    def interp(self):
        """The functions local to instrument-c-exprs, and its choice of arguments."""
        self.funs, self.choice, self.fmtid, self.fmtend = {}, None, None, None
        for f in lisp.forms(self.text, ('defgeneric', 'defmethod', 'defun')):
            if len(f) > 1 and f[1] == 'instrument-c-exprs':
                for l in self.find(f, ('labels', 'flet')):
                    for d in l[1]:
                        if isinstance(d, list) and len(d) > 2 and isinstance(d[0], Sym):
                            self.funs[d[0]] = (d[1], d[2:])
                for l in self.find(f, ('cond', 'if')):
                    if self.find(l, ('collect',)):
                        self.choice = l
                        break
            if len(f) > 1 and f[1] == 'write-trace-id':
                self.fmtid = (self.find(f, ('fmt',)) or [None])[0]
            if len(f) > 1 and f[1] == 'write-end-entry':
                self.fmtend = (self.find(f, ('fmt',)) or [None])[0]

    def find(self, f, heads):
        out = []

        def walk(x):
            if isinstance(x, list):
                if x and isinstance(x[0], Sym) and x[0].split(':')[-1] in heads:
                    out.append(x)
                for y in x:
                    walk(y)
        walk(f)
        return out

    def id(self, n):
        try:
            i = Interp(self.c, {}, {'get-ast-id': lambda *a: n})
            return i.ev(self.fmtid, {'instrumenter': 0, 'ast': 0})
        except (Unknown, TypeError, IndexError, ValueError, KeyError) as e:
            self.note('write-trace-id', e)
            return DEFAULT['id'] % dict(log=self.log, lock=self.lock, id=n)

    def end(self):
        try:
            return Interp(self.c).ev(self.fmtend, {'instrumenter': 0, 'ast': 0})
        except (Unknown, TypeError, IndexError, ValueError, KeyError) as e:
            self.note('write-end-entry', e)
            return DEFAULT['end'] % dict(log=self.log, lock=self.lock)

    def initialization(self, init):
        """The setup code, with the parts that depend on the program filled in."""
        names, types = (self.c.get('+%s-variable-name+' % n, n) for n in ('names', 'types'))
        parts = ['C16_HANDSHAKE', 'c16_open_(buffer)', 'const char **%s = c16_names' % names,
                 'const __trace_type_description *%s = (const __trace_type_description *) c16_types' % types, 'c16_n_names', 'c16_n_types']
        b = {'file-open-str': lambda *a: parts[1], 'names-initialization-str': lambda *a: parts[2], 'types-initialization-str': lambda *a: parts[3],
             'names': lambda *a: 'names', 'types': lambda *a: 'types', 'hash-table-count': lambda x: 'c16_n_' + x}
        env = dict(self.c)
        env['*trace-instrument-handshake-env-name*'] = parts[0]
        env['instrumenter'] = 0
        for f in lisp.forms(self.text, ('defun', 'defmethod', 'defgeneric')):
            for x in self.find(f, ('fmt', 'format')):
                try:
                    r = Interp(env, {}, b).ev(x, env)
                except (Unknown, TypeError, IndexError, ValueError, KeyError, AttributeError):
                    continue
                if isinstance(r, str) and all(p in r for p in parts) and '__write_trace_header' in r:
                    return r
        self.note('initialize-tracing', 'not understood')
        return fmt(init, parts)

    def note(self, what, e):
        n = '%s: %s' % (what, e)
        if n not in self.notes:
            self.notes.append(n)

    def variable(self, cand, strings, name_index, type_index, c_name_index):
        """(call, initializer of the type description) for a variable x, or None."""
        decl, base, ptr, arr, _ = cand
        t = dict(base=base, ptr=ptr, arr=arr)
        b = {'base-typename': lambda ty: ty['base'], 'array-type-p': lambda ty: True if ty['arr'] else NIL,
             'pointer-type-p': lambda ty: True if ty['ptr'] else NIL, 'get-name-index': lambda n: c_name_index,
             'create-instrumentation-ast': lambda *a: a[-1], 'language-ast-class': lambda *a: 0}
        try:
            i = Interp(self.c, self.funs, b)
            r = i.call('type-format-and-size', [t, True if strings else NIL])
            f, s = r
            if f is NIL:
                return None
            env = dict(self.c)
            env.update({'print-strings': True if strings else NIL, 'type': t, 'name': 'x', 'name-index': name_index, 'type-index': type_index,
                        'size': s, 'format': f, 'software': 0, 'instrumenter': 0})
            i.env = env
            desc = i.call('type-description-struct', ['x', f, s])
            kind = i.ev(self.choice, env)
            if not (isinstance(kind, tuple) and kind[0] == 'collect'):
                raise Unknown('no collect')
            fn = '__write_trace_blobs' if 'blob' in kind[1] else '__write_trace_variables'
            call = i.call('make-instrumentation-function-call', [fn, [kind[2]]])
            if not isinstance(call, str) or fn not in call:
                raise Unknown('call')
            return call, desc
        except (Unknown, TypeError, IndexError, ValueError, KeyError, AttributeError) as e:
            self.note('instrument-c-exprs', e)
            return self.fallback(cand, strings, name_index, type_index, c_name_index)

    def fallback(self, cand, strings, ni, ti, ci):
        decl, base, ptr, arr, _ = cand
        signed = 'char int8_t wchar_t,short int,int16_t,int,int32_t,long int,int64_t'.replace('char int8_t', 'char,int8_t').split(',')
        unsigned = 'unsigned char,uint8_t,unsigned short int,uint16_t,unsigned int,uint32_t,unsigned long int,uint64_t,size_t'.split(',')
        if strings and base == 'char' and bool(ptr) != bool(arr):
            return '__write_trace_blobs(%s, 1, %d, %d, strlen(x), x);' % (self.log, ni, ti), '{%d, __GT_TRACEDB_BLOB, 0}' % ci
        if strings and base in ('string', 'std::string'):
            return '__write_trace_blobs(%s, 1, %d, %d, (x).length(), (x).c_str());' % (self.log, ni, ti), '{%d, __GT_TRACEDB_BLOB, 0}' % ci
        if ptr or arr:
            f, s = 'POINTER', 'sizeof(void*)'
        elif base in signed:
            f, s = 'SIGNED', 'sizeof(%s)' % base
        elif base in unsigned:
            f, s = 'UNSIGNED', 'sizeof(%s)' % base
        elif base in ('float', 'double'):
            f, s = 'FLOAT', 'sizeof(%s)' % base
        else:
            return None
        f = '__GT_TRACEDB_' + f
        return '__write_trace_variables(%s, 1, %d, %d, %s, %s, x);' % (self.log, ni, ti, s, f), '{%d, %s, %s}' % (ci, f, s)


IDS = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1] + [1 << k for k in range(3, 64)]
# runtime kinds used by the harness: (suffix, C type, format, size)
KINDS = [('u1', 'uint8_t', 'UNSIGNED'), ('u2', 'uint16_t', 'UNSIGNED'), ('u4', 'uint32_t', 'UNSIGNED'), ('u8', 'uint64_t', 'UNSIGNED'),
         ('s1', 'int8_t', 'SIGNED'), ('s2', 'int16_t', 'SIGNED'), ('s4', 'int32_t', 'SIGNED'), ('s8', 'int64_t', 'SIGNED'),
         ('f4', 'float', 'FLOAT'), ('f8', 'double', 'FLOAT'), ('p8', 'void *', 'POINTER')]
LONG = (17, 127, 128, 255, 256, 257, 300)


def runtime(repo, out):
    g = Generator(repo)
    c = g.c
    def text(name, *marks):
        if isinstance(c.get(name), str):
            return c[name]
        for v in c.values():
            if isinstance(v, str) and not isinstance(v, Sym) and all(m in v for m in marks):
                return v
        raise Unknown(name)
    fwd = text('+write-trace-forward-declarations+', 'GT_TRACEDB_FORWARD_DECLARATIONS', 'static void __write_trace_id')
    impl = text('+write-trace-implementation+', 'GT_TRACEDB_IMPLEMENTATION', 'pthread_mutex_lock')
    init = text('+write-trace-initialization+', 'constructor', '__write_trace_header')
    entry = c.get('+write-trace-entry-macro+', '')
    log, lock = g.log, g.lock
    o = []
    A = o.append
    A('#include <stdint.h>\n#include <stddef.h>\n#include <stdio.h>\n#include <string.h>\n#include <wchar.h>\n#include <sys/types.h>')
    A('#ifdef __cplusplus\n#include <string>\nusing std::string;\n#define D(n) c16_cxx_##n\n#define API extern "C"\n#else\n#define D(n) c16_c_##n\n#define API\n#endif')
    A('API FILE *c16_open_(const char *);')
    A('extern const char **c16_names; extern const void *c16_types; extern unsigned long c16_n_names, c16_n_types;')
    A(entry)
    # names of the globals are the same in both languages
    A('#ifdef __cplusplus\n#define %s c16_cxx_log\n#define %s c16_cxx_lock\n#define __bi_setup c16_cxx_bi_setup\n#else\n#define %s c16_c_log\n#define %s c16_c_lock\n#define __bi_setup c16_c_bi_setup\n#endif' % (log, lock, log, lock))
    A(fwd)
    # the points of the harness
    A('API void D(begin)(unsigned long long id) { __write_trace_id(%s, %s, id); }' % (log, lock))
    A('API void D(end)(void) { __write_end_entry(%s, %s); }' % (log, lock))
    A('API void D(buf)(unsigned long long a, unsigned long long s) { __write_buffer_size(%s, (void *) a, s); }' % log)
    A('API void D(blob)(uint32_t n, uint32_t t, uint32_t size, const void *v) { __write_trace_blobs(%s, 1, n, t, size, v); }' % log)
    A('API void D(blob2)(uint32_t n, uint32_t t, uint32_t size, const void *v, uint32_t n2, uint32_t t2, uint32_t size2, const void *v2) { __write_trace_blobs(%s, 2, n, t, size, v, n2, t2, size2, v2); }' % log)
    for k, t, f in KINDS:
        A('API void D(%s)(uint32_t n, uint32_t t, const void *b) { %s x; memcpy(&x, b, sizeof x); __write_trace_variables(%s, 1, n, t, sizeof(x), __GT_TRACEDB_%s, x); }' % (k, t, log, f))
        for k2, t2, f2 in KINDS:
            A('API void D(%s_%s)(uint32_t n, uint32_t t, const void *b, uint32_t n2, uint32_t t2, const void *b2) { %s x; %s y; memcpy(&x, b, sizeof x); memcpy(&y, b2, sizeof y); '
              '__write_trace_variables(%s, 2, n, t, sizeof(x), __GT_TRACEDB_%s, x, n2, t2, sizeof(y), __GT_TRACEDB_%s, y); }' % (k, k2, t, t2, log, f, f2))
    for nm, ks in (('all', KINDS), ('rev', KINDS[::-1])):
        A('API void D(%s)(const void *const *b) { %s %s __write_trace_variables(%s, %d, %s); }' % (
            nm, ' '.join('%s x%d;' % (t, i) for i, (k, t, f) in enumerate(ks)), ' '.join('memcpy(&x%d, b[%d], sizeof x%d);' % (i, i, i) for i in range(len(ks))),
            log, len(ks), ', '.join('%d, %d, sizeof(x%d), __GT_TRACEDB_%s, x%d' % (i % 3, [q[0] for q in KINDS].index(k), i, f, i) for i, (k, t, f) in enumerate(ks))))
    # more variables than a byte can count
    nb = [q[0] for q in KINDS].index('s4')
    for k, n in enumerate(LONG):
        A('static void D(many%d)(const uint32_t *v) { __write_trace_variables(%s, %d, %s); }' % (k, log, n, ', '.join('%d, %d, sizeof(int32_t), __GT_TRACEDB_%s, (int32_t) v[%d]' % (i % 3, nb, KINDS[nb][2], i) for i in range(n))))
        A('static void D(many_blobs%d)(const uint32_t *v) { __write_trace_blobs(%s, %d, %s); }' % (k, log, n, ', '.join('%d, %d, %d, &v[%d]' % (i % 3, len(KINDS), i % 5, i) for i in range(n))))
    A('API void D(many)(int i, const uint32_t *v) { switch (i) { %s } }' % ' '.join('case %d: D(many%d)(v); break;' % (i, i) for i in range(len(LONG))))
    A('API void D(many_blobs)(int i, const uint32_t *v) { switch (i) { %s } }' % ' '.join('case %d: D(many_blobs%d)(v); break;' % (i, i) for i in range(len(LONG))))
    A('typedef void (*c16_one)(uint32_t, uint32_t, const void *); typedef void (*c16_two)(uint32_t, uint32_t, const void *, uint32_t, uint32_t, const void *);')
    A('#ifdef __cplusplus\nextern "C" {\n#endif\nextern const c16_one D(one)[%d]; extern const c16_two D(two)[%d];' % (len(KINDS), len(KINDS) ** 2))
    A('const c16_one D(one)[%d] = {%s};' % (len(KINDS), ', '.join('D(%s)' % k[0] for k in KINDS)))
    A('const c16_two D(two)[%d] = {%s};' % (len(KINDS) ** 2, ', '.join('D(%s_%s)' % (a[0], b[0]) for a in KINDS for b in KINDS)))
    A('#ifdef __cplusplus\n}\n#endif')
    # statement ids as the instrumenter writes them
    for i, n in enumerate(IDS):
        A('static void D(id%d)(void) { %s %s }' % (i, g.id(n), g.end()))
    A('API void D(id)(int i) { switch (i) { %s } }' % ' '.join('case %d: D(id%d)(); break;' % (i, i) for i in range(len(IDS))))
    # variables of every C type as the instrumenter writes them
    descs, meta, missing = [], [], []
    for cand in CANDIDATES:
        for strings in (0, 1):
            if strings and cand[1] == 'char' and cand[2] > 1:
                continue                # not a string (see DESIGN.md)
            r = g.variable(cand, strings, 1, len(descs), 2)
            if r is None:
                if cand[1] in REQUIRED or cand[2] or cand[3]:
                    missing.append(cand[0])
                continue
            meta.append((cand, strings, r))
            descs.append(r[1])
    for i, (cand, strings, (call, desc)) in enumerate(meta):
        decl, base, ptr, arr, lang = cand
        if lang == '+':
            A('#ifdef __cplusplus')
        is_str = '__write_trace_blobs' in call
        if is_str and base == 'char' and arr:
            body = 'static char x[1 << 17]; memcpy(x, b, n); x[n] = 0;'
        elif is_str and base == 'char':
            body = 'char *x = (char *) b;'
        elif is_str:
            body = '%s; x.assign((const char *) b, n);' % decl
        elif arr:
            body = 'static %s; void *q = x; memcpy(out, &q, 8);' % decl
        else:
            body = '%s; memcpy(&x, b, sizeof x);' % decl
        A('static void D(var%d)(const void *b, uint32_t n, void *out) { %s (void) n; (void) out;' % (i, body))
        A(g.id(1000 + i))
        A(call)
        A(g.end())
        A('}')
        if lang == '+':
            A('#endif')
    A('API void D(var)(int i, const void *b, uint32_t n, void *out) { switch (i) {')
    for i, m in enumerate(meta):
        A(('#ifdef __cplusplus\ncase %d: D(var%d)(b, n, out); break;\n#endif' if m[0][4] == '+' else 'case %d: D(var%d)(b, n, out); break;') % (i, i))
    A('} }')
    A(impl)
    A('API void D(header)(const char **names, unsigned long n, const void *types, unsigned long m) { __write_trace_header(%s, %s, names, n, (const __trace_type_description *) types, m); }' % (log, lock))
    A('API void D(globals)(void *l, void *k) { %s = l; %s = k; }' % (log, lock))
    A('API unsigned long D(type_size)(void) { return sizeof(__trace_type_description); }')
    A('static const __trace_type_description D(descs)[] = {%s};' % ', '.join(descs))
    A('API const void *D(get_descs)(void) { return D(descs); }')
    A('#ifndef %s\n#define %s\n#endif' % ((c.get('+trace-entry-macro-name+', '__GT_TRACEDB_ENTRY_POINT'),) * 2))
    filled = g.initialization(init)
    A(filled)
    ctor = None
    if 'constructor' in filled:
        rest = filled[filled.find('constructor'):]
        mm = re.search(r'\)\)\)?\s*(?:void\s+)?(\w+)\s*\(', rest)
        ctor = mm.group(1) if mm else None
    A('API int D(setup)(void) { %s }' % ('%s(); return 1;' % ctor if ctor else 'return 0;'))
    src = '\n'.join(o) + '\n'
    open(os.path.join(out, 'c16_rt.c'), 'w').write(src)
    open(os.path.join(out, 'c16_rt_cxx.cpp'), 'w').write(src)
    # what the harness knows about it
    h = ['// generated']
    h.append('static const int C16_LONG[] = {%s}; static const int C16_NLONG = %d;' % (', '.join(map(str, LONG)), len(LONG)))
    h.append('static const uint64_t C16_IDS[] = {%s};' % ', '.join('%dull' % x for x in IDS))
    h.append('struct C16Kind { const char *name; uint32_t format, size; };')
    fm = dict(UNSIGNED=0, SIGNED=1, FLOAT=2, POINTER=3)
    h.append('static const C16Kind C16_KINDS[] = {%s};' % ', '.join('{"%s", %d, %s}' % (k, fm[f], k[1]) for k, t, f in KINDS))
    h.append('struct C16Var { const char *decl; bool strings, blob, array, cxx; uint32_t format, size; };')
    h.append('#include <type_traits>\n#include <wchar.h>\n#include <sys/types.h>')
    h.append('template <class T> static uint32_t c16_format() { return std::is_pointer<T>::value || std::is_array<T>::value ? 3 : std::is_floating_point<T>::value ? 2 : std::is_signed<T>::value ? 1 : 0; }')
    h.append('static const std::vector<C16Var> & c16_vars() { static const std::vector<C16Var> v = {')
    for cand, strings, (call, desc) in meta:
        decl, base, ptr, arr, lang = cand
        blob = '__write_trace_blobs' in call
        ty = 'void *' if (ptr or arr) else base
        cls = '4, 0' if blob else 'c16_format<%s>(), (uint32_t) sizeof(%s)' % (ty, ty)
        h.append('  {"%s", %s, %s, %s, %s, %s},' % (decl, 'true' if strings else 'false', 'true' if blob else 'false', 'true' if arr else 'false', 'true' if lang == '+' else 'false', cls))
    h.append('}; return v; }')
    h.append('static const bool C16_SETUP = %s;' % ('true' if ctor else 'false'))
    h.append('static const char *const C16_MISSING = %s;' % lisp.cstr(', '.join(missing)))
    h.append('static const char *const C16_NOTES = %s;' % lisp.cstr('; '.join(g.notes)))
    open(os.path.join(out, 'c16_meta.inc'), 'w').write('\n'.join(h) + '\n')
    return g


if __name__ == '__main__':
    import sys
    g = runtime(sys.argv[1], sys.argv[2])
    print('notes:', g.notes)
