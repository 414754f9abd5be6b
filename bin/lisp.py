"""A small reader for the Lisp sources: enough to take the foreign declarations
(C20) and the C strings (C16) out of them, whatever their layout."""
import os, re


class Sym(str):
    """A symbol or keyword (lower case)."""


class End(Exception):
    pass


CLOSE = {'(': ')', '[': ']', '{': '}'}


def skip(s, i):
    n = len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif c == ';':
            while i < n and s[i] != '\n':
                i += 1
        elif s.startswith('#|', i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith('|#', i):
                    d, i = d - 1, i + 2
                elif s.startswith('#|', i):
                    d, i = d + 1, i + 2
                else:
                    i += 1
        else:
            break
    return i


def read(s, i):
    """One form at or after I: (form, next index)."""
    i = skip(s, i)
    if i >= len(s):
        raise End()
    c = s[i]
    if c in CLOSE:
        r, i = [], i + 1
        while True:
            i = skip(s, i)
            if i >= len(s):
                raise End()
            if s[i] in ')]}':
                return r, i + 1
            x, i = read(s, i)
            r.append(x)
    if c in ')]}':
        raise End()
    if c == '"':
        r, i = [], i + 1
        while s[i] != '"':
            if s[i] == '\\':
                i += 1
            r.append(s[i])
            i += 1
        return ''.join(r), i + 1
    if c in "'`":
        x, i = read(s, i + 1)
        return [Sym('quote'), x], i
    if c == ',':
        i += 1
        if s[i] in '@.':
            i += 1
        x, i = read(s, i)
        return [Sym('unquote'), x], i
    if c == '#':
        if s.startswith('#\\', i):
            m = re.compile(r'#\\([A-Za-z][A-Za-z0-9_-]*|.)', re.S).match(s, i)
            return [Sym('char'), m.group(1)], m.end()
        if s[i + 1] in "'.:":
            return read(s, i + 2)
        if s[i + 1] in '+-':            # feature expression: keep the form of #-, drop nothing
            _, j = read(s, i + 2)
            return read(s, j)
        if s[i + 1] == '(':
            return read(s, i + 1)
        m = re.compile(r'#[0-9]*[xXbBoO]?([0-9a-fA-F+-]+)').match(s, i)
        if m:
            base = {'x': 16, 'b': 2, 'o': 8}.get(m.group(0)[1].lower(), 10)
            return int(m.group(1), base), m.end()
        return read(s, i + 2)
    m = re.compile(r'(\|[^|]*\||\\.|[^\s()\[\]{}"\';`,])+', re.S).match(s, i)
    if not m:
        return read(s, i + 1)
    t = m.group(0)
    if re.fullmatch(r'[+-]?[0-9]+\.?', t):
        return int(t.rstrip('.')), m.end()
    return Sym(t.lower()), m.end()


def forms(text, heads):
    """All forms (at any depth) whose head is in HEADS; comments and strings are
    respected, and a form that can not be read is skipped."""
    out = []

    def walk(f):
        if isinstance(f, list):
            if f and isinstance(f[0], Sym) and f[0].split(':')[-1] in heads:
                out.append(f)
            for x in f:
                walk(x)
    i = 0
    while True:
        i = skip(text, i)
        if i >= len(text):
            return out
        try:
            f, i = read(text, i)
            walk(f)
        except (End, IndexError):
            j = text.find('\n(', i + 1)
            if j < 0:
                return out
            i = j + 1


# ---- foreign declarations ----------------------------------------------------
BASE = {}
for n, k, w in [('char', 'i', 1), ('unsigned-char', 'u', 1), ('uchar', 'u', 1), ('short', 'i', 2), ('unsigned-short', 'u', 2), ('ushort', 'u', 2),
                ('int', 'i', 4), ('unsigned-int', 'u', 4), ('uint', 'u', 4), ('long', 'i', 8), ('unsigned-long', 'u', 8), ('ulong', 'u', 8),
                ('long-long', 'i', 8), ('unsigned-long-long', 'u', 8), ('llong', 'i', 8), ('ullong', 'u', 8), ('size', 'u', 8), ('ssize', 'i', 8),
                ('intptr', 'i', 8), ('uintptr', 'u', 8), ('ptrdiff', 'i', 8), ('offset', 'i', 8), ('bool', 'u', 1), ('boolean', 'i', 4),
                ('int8', 'i', 1), ('uint8', 'u', 1), ('int16', 'i', 2), ('uint16', 'u', 2), ('int32', 'i', 4), ('uint32', 'u', 4),
                ('int64', 'i', 8), ('uint64', 'u', 8), ('float', 'f', 4), ('double', 'f', 8), ('pointer', 'p', 8), ('string', 'p', 8), ('void', 'v', 0)]:
    BASE[n] = (k, w)


def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


class Decls:
    def __init__(self, text):
        self.enums, self.structs, self.types, self.funs = {}, {}, {}, []
        for f in forms(text, ('defcenum', 'defcstruct', 'defcfun', 'defctype')):
            try:
                getattr(self, f[0].split(':')[-1])(f)
            except (KeyError, IndexError, AttributeError, ValueError, TypeError):
                pass

    def t(self, x):
        """(kind, width, align)"""
        if isinstance(x, list):
            h = x[0].lstrip(':')
            if h == 'quote':
                return self.t(x[1])
            if h == 'pointer' or h == 'string':
                return 'p', 8, 8
            if h == 'boolean':
                return self.t(x[1]) if len(x) > 1 else ('i', 4, 4)
            if h == 'struct':
                s = self.structs[x[1]]
                return 's', s['size'], s['align']
            if h == 'enum':
                e = self.enums[x[1]]
                return 'e', e['width'], e['width']
            if h in self.types:
                return self.types[h]
            raise KeyError(h)
        if x in self.enums:
            return 'e', self.enums[x]['width'], self.enums[x]['width']
        if x in self.types:
            return self.types[x]
        if x in self.structs:
            return 's', self.structs[x]['size'], self.structs[x]['align']
        k, w = BASE[x.lstrip(':')]
        return k, w, w

    def defctype(self, f):
        self.types[f[1]] = self.t(f[2])

    def defcenum(self, f):
        name, width = f[1], 4
        if isinstance(name, list):
            if len(name) > 1 and isinstance(name[1], Sym) and name[1].lstrip(':') in BASE:
                width = BASE[name[1].lstrip(':')][1]
            name = name[0]
        v, ms = 0, []
        for m in f[2:]:
            if isinstance(m, list):
                if not isinstance(m[0], Sym):
                    continue
                if len(m) > 1:
                    v = m[1]
                m = m[0]
            elif not isinstance(m, Sym):
                continue                # documentation
            ms.append((m.lstrip(':'), v))
            v += 1
        self.enums[name] = dict(width=width, members=ms)

    def defcstruct(self, f):
        name, size, cls = f[1], None, ''
        if isinstance(name, list):
            o = name[1:]
            for a, b in zip(o[::2], o[1::2]):
                if a == ':size':
                    size = b
                if a == ':class':
                    cls = b
            name = name[0]
        off, al, fs = 0, 1, []
        for m in f[2:]:
            if not isinstance(m, list):
                continue
            k, w, a = self.t(m[1])
            o = dict(zip(m[2::2], m[3::2]))
            n = o.get(':count', 1)
            off = o.get(':offset', (off + a - 1) // a * a)
            fs.append((m[0], k, w, off, n, m[1] if isinstance(m[1], str) else ''))
            off += w * n
            al = max(al, a)
        if size is None:
            size = (off + al - 1) // al * al
        self.structs[name] = dict(cls=cls, size=size, align=al, fields=fs)

    def defcfun(self, f):
        n = f[1]
        c = None
        for x in (n if isinstance(n, list) else [n]):
            if isinstance(x, str) and not isinstance(x, Sym):
                c = x
        if c is None:
            c = (n[0] if isinstance(n, list) else n).replace('-', '_')
        args = [(a[0],) + self.t(a[1])[:2] for a in f[3:] if isinstance(a, list)]
        self.funs.append((c, self.t(f[2])[:2], args))

    def emit(self):
        o = ['// generated from the Lisp sources']
        o.append('static const std::vector<LEnum> L_ENUMS = {')
        for n, e in self.enums.items():
            o.append('  {%s, %d, {%s}},' % (cstr(n), e['width'], ', '.join('{%s, %d}' % (cstr(a), b) for a, b in e['members'])))
        o.append('};\nstatic const std::vector<LStruct> L_STRUCTS = {')
        for n, s in self.structs.items():
            o.append('  {%s, %s, %d, {' % (cstr(n), cstr(s['cls']), s['size']))
            for f in s['fields']:
                o.append("    {%s, '%s', %d, %d, %d, %s}," % (cstr(f[0]), f[1], f[2], f[3], f[4], cstr(f[5])))
            o.append('  }},')
        o.append('};\nstatic const std::vector<LFun> L_FUNS = {')
        for n, r, a in self.funs:
            o.append("  {%s, {\"\", '%s', %d}, {%s}}," % (cstr(n), r[0], r[1], ', '.join("{%s, '%s', %d}" % (cstr(x), k, w) for x, k, w in a)))
        o.append('};\n')
        return '\n'.join(o)


def declarations(repo, out):
    text = ''
    for f in sorted(os.listdir(repo)):
        if f.endswith('.lisp'):
            text += open(os.path.join(repo, f), errors='replace').read() + '\n'
    d = Decls(text)
    with open(os.path.join(out, 'lisp_ffi.inc'), 'w') as fp:
        fp.write(d.emit())


if __name__ == '__main__':
    import sys
    declarations(sys.argv[1], sys.argv[2])


def sources(repo, out, names=('trace-db.lisp', 'binary-trace-db.lisp', 'sexp-trace-db.lisp')):
    """The Lisp sources of the working tree as data: lisp_src.inc."""
    o = ['static const struct { const char *name; const char *text; unsigned long size; } LISP_SOURCES[] = {']
    for n in names:
        try:
            b = open(os.path.join(repo, n), 'rb').read()
        except OSError:
            b = b''
        o.append('{"%s", "%s", %d},' % (n, '""'.join(''.join('\\%03o' % c for c in b[i:i + 4000]) for i in range(0, len(b), 4000)), len(b)))
    o.append('};\n')
    with open(os.path.join(out, 'lisp_src.inc'), 'w') as f:
        f.write('\n'.join(o))


def collector(repo, out):
    sources(repo, out, ('trace-db.lisp', 'binary-trace-db.lisp', 'sexp-trace-db.lisp', 'traceable.lisp'))


def instrumenter(repo, out):
    sources(repo, out, ('trace-db.lisp', 'binary-trace-db.lisp', 'traceable.lisp', 'instrumentation/instrument.lisp', 'instrumentation/c-cpp.lisp'))
