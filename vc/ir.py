"""Parser for the textual LLVM IR (clang 18, -O0) and its debug info."""
import re, subprocess

LLVM = '/usr/lib/llvm-18/bin/'


class Unsupported(Exception):
    """The extraction / the symbolic semantics cannot follow this code: the
    result is 'undecided', never 'violated'."""


class Instr:
    __slots__ = ('op', 'res', 'text', 'args', 'line', 'aux')

    def __init__(self, op, res, text, line):
        self.op, self.res, self.text, self.line = op, res, text, line
        self.args = None
        self.aux = None


class Function:
    def __init__(self, name):
        self.name = name
        self.demangled = name
        self.params = []      # (type, name, attrs)
        self.rettype = None
        self.retattrs = ''
        self.blocks = {}      # label -> [Instr]
        self.order = []
        self.dbgvar = {}      # alloca name -> source variable name
        self.defined = False
        self.sp = None        # DISubprogram id
        self.line = 0

    def __repr__(self):
        return '<fn %s>' % self.demangled


def split_top(s, sep=','):
    out, depth, cur, q = [], 0, [], False
    for ch in s:
        if q:
            cur.append(ch)
            if ch == '"':
                q = False
            continue
        if ch == '"':
            q = True
            cur.append(ch)
        elif ch in '([{<':
            depth += 1
            cur.append(ch)
        elif ch in ')]}>':
            depth -= 1
            cur.append(ch)
        elif ch == sep and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(ch)
    t = ''.join(cur).strip()
    if t:
        out.append(t)
    return out


# ---------------------------------------------------------------- types
def parse_type(s, p=0):
    """-> (type, next position). Types: ('i',n) ('float',) ('double',) ('ptr',)
    ('void',) ('named',n) ('arr',n,t) ('struct',[t..],packed) ('func',)"""
    while s[p] == ' ':
        p += 1
    m = re.compile(r'i(\d+)').match(s, p)
    if m:
        t, p = ('i', int(m.group(1))), m.end()
    elif s.startswith('float', p):
        t, p = ('float',), p + 5
    elif s.startswith('double', p):
        t, p = ('double',), p + 6
    elif s.startswith('x86_fp80', p):
        t, p = ('x86_fp80',), p + 8
    elif s.startswith('ptr', p):
        t, p = ('ptr',), p + 3
    elif s.startswith('void', p):
        t, p = ('void',), p + 4
    elif s.startswith('metadata', p):
        t, p = ('metadata',), p + 8
    elif s.startswith('label', p):
        t, p = ('label',), p + 5
    elif s[p] == '%':
        if s[p + 1] == '"':
            e = s.index('"', p + 2)
            t, p = ('named', s[p + 2:e]), e + 1
        else:
            m = re.compile(r'[-\w.$]+').match(s, p + 1)
            t, p = ('named', m.group(0)), m.end()
    elif s[p] == '[' or (s[p] == '<' and s[p + 1].isdigit()):
        close = ']' if s[p] == '[' else '>'
        m = re.compile(r'(\d+) x ').match(s, p + 1)
        et, q = parse_type(s, m.end())
        if s[q] != close:
            raise Unsupported('type ' + s[p:q + 5])
        n = int(m.group(1))
        # short vectors (returned pairs of scalars) are tuples
        t, p = (('struct', [et] * n, False) if close == '>' and n <= 8 else ('arr', n, et)), q + 1
    elif s[p] == '{' or s.startswith('<{', p):
        packed = s[p] == '<'
        q = p + (2 if packed else 1)
        fs = []
        while True:
            while s[q] == ' ':
                q += 1
            if s[q] == '}':
                q += 1
                break
            ft, q = parse_type(s, q)
            fs.append(ft)
            while s[q] == ' ':
                q += 1
            if s[q] == ',':
                q += 1
        if packed:
            q += 1
        t, p = ('struct', fs, packed), q
    else:
        raise Unsupported('type at ' + s[p:p + 40])
    # function types "i32 (ptr, ...)"
    m = re.compile(r' \(').match(s, p)
    if m:
        d = 0
        q = m.end() - 1
        while True:
            if s[q] == '(':
                d += 1
            elif s[q] == ')':
                d -= 1
                if d == 0:
                    break
            q += 1
        inner = s[m.end():q]
        if re.match(r'^\s*(\.\.\.|ptr|i\d|float|double|%|\[|\{)', inner) or inner.strip() == '':
            return ('func', t), q + 1
    return t, p


ATTR = re.compile(
    r'(noundef|dead_on_unwind|writable|dead_on_return|nonnull|signext|zeroext|noalias|returned|nocapture|readonly|writeonly|readnone|'
    r'inreg|nest|immarg|allocptr|allocalign|swiftself|noreturn|nofree|nuw|nsw|exact|inbounds|'
    r'align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|range\([^)]*\)|'
    r'sret\((?:[^()"]|"[^"]*")*\)|byval\((?:[^()"]|"[^"]*")*\)|elementtype\([^)]*\))\s*')


def skip_attrs(s, p=0):
    a = ''
    while True:
        while p < len(s) and s[p] == ' ':
            p += 1
        m = ATTR.match(s, p)
        if not m:
            return a, p
        a += m.group(0)
        p = m.end()


class Module:
    def __init__(self):
        self.types = {}      # named struct -> ('struct', ...)
        self.funcs = {}
        self.globals = {}    # name -> initializer text (rest of line)
        self.md = {}         # id -> text
        self._layout = {}
        self.bydem = {}
        self._di = {}

    # ------------------------------------------------------------ layout
    def sizeof(self, t):
        return self.lay(t)[0]

    def lay(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return (a if n else 1), a
        if k == 'float':
            return 4, 4
        if k in ('double', 'ptr'):
            return 8, 8
        if k == 'x86_fp80':
            return 16, 16
        if k == 'named':
            if t[1] not in self.types:
                raise Unsupported('opaque type ' + t[1])
            return self.lay(self.types[t[1]])
        if k == 'arr':
            s, a = self.lay(t[2])
            return s * t[1], a
        if k == 'struct':
            o, al = 0, 1
            for f in t[1]:
                s, a = self.lay(f)
                if not t[2]:
                    o = (o + a - 1) // a * a
                    al = max(al, a)
                o += s
            if not t[2]:
                o = (o + al - 1) // al * al
            return o, al
        raise Unsupported('sizeof %r' % (t,))

    def field(self, t, i):
        """offset and type of field i of struct type t"""
        if t[0] == 'named':
            t = self.types[t[1]]
        o = 0
        for n, f in enumerate(t[1]):
            s, a = self.lay(f)
            if not t[2]:
                o = (o + a - 1) // a * a
            if n == i:
                return o, f
            o += s
        raise Unsupported('field %d of %r' % (i, t))

    def leaves(self, t, off=0):
        """flat scalar leaves [(offset, type)] (arrays are expanded if small)"""
        k = t[0]
        if k == 'named':
            t = self.types[t[1]]
            k = 'struct'
        if k == 'struct':
            out = []
            for i in range(len(t[1])):
                o, f = self.field(t, i)
                out += self.leaves(f, off + o)
            return out
        if k == 'arr':
            if t[2] == ('i', 8):
                return []
            raise Unsupported('array leaf')
        return [(off, t)]

    # ------------------------------------------------------------ debug info
    def mdget(self, n, field):
        """raw text of one field of a metadata node"""
        s = self.md.get(n)
        if s is None:
            return None
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|!\d+|[^,)]+)' % field, s)
        return m.group(1) if m else None

    def di_name(self, n):
        v = self.mdget(n, 'name')
        return v.strip('"') if v else None

    def di_strip(self, n):
        """skip typedef / cv qualifiers"""
        while n is not None:
            s = self.md.get(n, '')
            if 'DIDerivedType' in s and re.search(
                    r'tag: DW_TAG_(typedef|const_type|volatile_type)', s):
                b = self.mdget(n, 'baseType')
                n = b if b and b.startswith('!') else None
            else:
                return n
        return None

    def di_full(self, n):
        """qualified name of a type node"""
        nm = self.di_name(n)
        sc = self.mdget(n, 'scope')
        pre = ''
        if sc and sc.startswith('!'):
            s = self.md.get(sc, '')
            if 'DICompositeType' in s or 'DINamespace' in s:
                pre = (self.di_full(sc) or '') + '::'
        return pre + (nm or '')

    def find_di_type(self, name):
        if not self._di:
            for k, s in self.md.items():
                if 'DICompositeType(' in s:
                    nm = self.di_name(k)
                    if nm is None:
                        continue
                    full = self.di_full(k)
                    decl = 'DIFlagFwdDecl' in s
                    for key in {nm, full}:
                        if key not in self._di or (self._di[key][1] and not decl):
                            self._di[key] = (k, decl)
        if name not in self._di:
            raise Unsupported('no debug type ' + name)
        return self._di[name][0]

    def di_members(self, n, off=0, out=None):
        """name -> (byte offset, type node), base classes flattened"""
        if out is None:
            out = {}
        els = self.mdget(n, 'elements')
        if not els:
            return out
        lst = re.findall(r'!\d+', self.md.get(els, ''))
        for e in lst:
            s = self.md.get(e, '')
            if 'DIDerivedType' not in s:
                continue
            o = int(self.mdget(e, 'offset') or 0) // 8
            if 'DW_TAG_member' in s and 'DIFlagStaticMember' not in s:
                nm = self.di_name(e) or ('anon%d' % o)
                out.setdefault(nm, (off + o, self.mdget(e, 'baseType')))
            elif 'DW_TAG_inheritance' in s:
                b = self.di_strip(self.mdget(e, 'baseType'))
                self.di_members(b, off + o, out)
        return out

    def di_targs(self, n):
        t = self.mdget(n, 'templateParams')
        if not t:
            return []
        r = []
        for e in re.findall(r'!\d+', self.md.get(t, '')):
            r.append(self.mdget(e, 'type'))
        return r

    def find(self, dem):
        return self.bydem.get(dem)


LINE_RES = re.compile(r'^\s+(?:(%(?:"[^"]*"|[-\w.$]+)) = )?(.*)$')


def parse_module(path):
    M = Module()
    cur, lab = None, None
    pend = None
    with open(path) as f:
        for line in f:
            line = line.rstrip('\n')
            if cur is not None:
                if line == '}':
                    cur = None
                    continue
                if pend is not None:
                    pend += ' ' + line.strip()
                    if pend.count('[') <= pend.count(']') and not pend.rstrip().endswith(','):
                        t, pend = pend, None
                    elif ' ]' in line and line.strip().startswith(']'):
                        t, pend = pend, None
                    else:
                        continue
                    _instr(M, cur, lab, t)
                    continue
                if not line.strip():
                    continue
                if not line.startswith(' '):
                    m = re.match(r'^("[^"]*"|[-\w.$]+):', line)
                    if m:
                        lab = m.group(1).strip('"')
                        cur.blocks[lab] = []
                        cur.order.append(lab)
                        continue
                    continue
                st = line.strip()
                if st.startswith('switch') and st.endswith('['):
                    pend = st
                    continue
                if re.match(r'^(%\S+ = )?(landingpad|invoke|cleanup|catch|filter)', st) or st.startswith('to label'):
                    if st.startswith(('cleanup', 'catch', 'filter')):
                        continue
                    if st.startswith('to label'):
                        ins = cur.blocks[lab][-1]
                        ins.text += ' ' + st.split(', !dbg')[0]
                        continue
                _instr(M, cur, lab, st)
                continue
            if line.startswith('define '):
                cur = _header(line)
                cur.defined = True
                M.funcs[cur.name] = cur
                lab = None
                continue
            if line.startswith('declare '):
                fn = _header(line)
                M.funcs.setdefault(fn.name, fn)
                continue
            if line.startswith('%'):
                m = re.match(r'^%("[^"]*"|[-\w.$]+) = type (.*)$', line)
                if m and m.group(2) != 'opaque':
                    t, _ = parse_type(m.group(2))
                    M.types[m.group(1).strip('"')] = t
                continue
            if line.startswith('@'):
                m = re.match(r'^@("[^"]*"|[-\w.$]+) = (.*)$', line)
                if m:
                    M.globals[m.group(1).strip('"')] = m.group(2)
                continue
            if line.startswith('!'):
                m = re.match(r'^(!\d+) = (.*)$', line)
                if m:
                    M.md[m.group(1)] = m.group(2)
    names = list(M.funcs)
    p = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names),
                       capture_output=True, text=True)
    dem = p.stdout.split('\n')
    for n, d in zip(names, dem):
        M.funcs[n].demangled = d
        M.bydem.setdefault(d, M.funcs[n])
    for fn in M.funcs.values():
        for al, v in list(fn.dbgvar.items()):
            fn.dbgvar[al] = M.di_name(v) or al
        if fn.sp:
            try:
                fn.line = int(M.mdget(fn.sp, 'line') or 0)
            except ValueError:
                pass
    return M


def _header(line):
    m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
    fn = Function(m.group(1).strip('"'))
    head = line[:m.start()]
    # return type: strip linkage keywords
    h = re.sub(r'^(define|declare)\s+', '', head).strip()
    while True:
        m2 = re.match(r'(dso_local|linkonce_odr|internal|external|private|weak_odr|weak|hidden|'
                      r'available_externally|local_unnamed_addr|unnamed_addr|fastcc|'
                      r'comdat|protected|default)\s+', h)
        if not m2:
            break
        h = h[m2.end():]
    a, q = skip_attrs(h)
    fn.retattrs = a
    fn.rettype, _ = parse_type(h + ' ', q)
    d, q = 0, m.end() - 1
    while True:
        if line[q] == '(':
            d += 1
        elif line[q] == ')':
            d -= 1
            if d == 0:
                break
        q += 1
    for i, a in enumerate(split_top(line[m.end():q])):
        if a == '...':
            continue
        t, p = parse_type(a + ' ')
        at, p = skip_attrs(a, p)
        nm = a[p:].strip()
        fn.params.append((t, nm if nm else '%%%d' % i, at))
    m = re.search(r'!dbg (!\d+)', line[q:])
    if m:
        fn.sp = m.group(1)
    return fn


DBG = re.compile(r', !dbg (!\d+).*$')


def _instr(M, fn, lab, st):
    if lab is None:
        lab = 'entry'
        fn.blocks[lab] = []
        fn.order.append(lab)
    if 'llvm.dbg.declare' in st:
        m = re.search(r'metadata ptr (%(?:"[^"]*"|[-\w.$]+)), metadata (!\d+)', st)
        if m:
            fn.dbgvar[m.group(1)] = m.group(2)
        return
    if 'llvm.dbg.' in st or st.startswith('#dbg_'):
        return
    dl = None
    m = DBG.search(st)
    if m:
        dl = m.group(1)
        st = st[:m.start()]
    st = re.sub(r', !llvm\.loop !\d+', '', st)
    st = re.sub(r', !(srcloc|tbaa|range|heapallocsite|prof|nosanitize) !\d+', '', st)
    m = re.match(r'^(?:(%(?:"[^"]*"|[-\w.$]+)) = )?(.*)$', st)
    res, rest = m.group(1), m.group(2)
    op = rest.split(None, 1)[0]
    if op in ('tail', 'notail', 'musttail'):
        rest = rest.split(None, 1)[1]
        op = 'call'
    fn.blocks[lab].append(Instr(op, res, rest, dl))
