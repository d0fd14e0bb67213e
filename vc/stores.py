"""Random store descriptions, with an independent table of what they mean."""
import random, re, struct

FIXED = {'bool': 1, 'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8,
    'float': 4, 'double': 8, 'ptr32': 4, 'ptr64': 8}
# stored::Type values, as documented in types.h
FLAGS = {'bool': 0x20, 'int8': 0x38, 'uint8': 0x30, 'int16': 0x39, 'uint16': 0x31, 'int32': 0x3b, 'uint32': 0x33,
    'int64': 0x3f, 'uint64': 0x37, 'float': 0x2b, 'double': 0x2f, 'ptr32': 0x23, 'ptr64': 0x27, 'blob': 1, 'string': 2}
CTYPE = {'bool': 'bool', 'int8': 'int8_t', 'uint8': 'uint8_t', 'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t',
    'uint32': 'uint32_t', 'int64': 'int64_t', 'uint64': 'uint64_t', 'float': 'float', 'double': 'double'}
PACK = {'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'int64': 'q', 'uint64': 'Q',
    'float': 'f', 'double': 'd', 'ptr32': 'I', 'ptr64': 'Q', 'bool': '?'}

class Obj:
    def __init__(self, name, type, size, func=False, init=b'', cname=None):
        self.name, self.type, self.size, self.func, self.init, self.cname = name, type, size, func, init, cname

class Desc:
    """Collects declarations; text() is the .st source, objs the expanded objects."""
    def __init__(self, name):
        self.name = name
        self.lines = []
        self.objs = []
        self.scope = ['']   # name prefix alternatives are expanded at the end of a scope
        self.stack = []
        self.used = [set()]
        self.taken = set()

    def _indent(self):
        return '\t' * len(self.stack)

    def _add(self, objs):
        self.objs.extend(objs)

    def var(self, type, name, init=None, init_text=None, arr=0, size=None, func=False):
        """init: value bytes (little endian) of the initial value."""
        sz = FIXED.get(type, size)
        t = type if type in FIXED else '%s:%d' % (type, size)
        a = '[%d]' % arr if arr > 0 else ''
        if func:
            decl = '(%s)%s' % (t, a)
        else:
            decl = t + a + ('=' + init_text if init_text is not None else '')
        self.lines.append('%s%s %s' % (self._indent(), decl, name))
        names = [name] if arr <= 1 else ['%s[%d]' % (name, i) for i in range(arr)]
        self._add([Obj(n, type, sz, func, b'' if func else (init or b'\0' * sz)) for n in names])

    def begin(self):
        self.lines.append(self._indent() + '{')
        self.stack.append(len(self.objs))

    def end(self, name, arr=0):
        start = self.stack.pop()
        inner = self.objs[start:]
        del self.objs[start:]
        for p in ([name] if arr <= 1 else ['%s[%d]' % (name, i) for i in range(arr)]):
            for o in inner:
                self.objs.append(Obj(p + '/' + o.name, o.type, o.size, o.func, o.init))
        self.lines.append('%s}%s %s' % (self._indent(), '[%d]' % arr if arr > 0 else '', name))

    def text(self):
        return '\n'.join(self.lines) + '\n'

def cstr(s):
    r = ''
    for b in (s.encode() if isinstance(s, str) else s):
        c = chr(b)
        if c in '"\\?' or b < 0x20 or b >= 0x7f:
            r += '\\%03o' % b
        else:
            r += c
    return '"' + r + '"'

def func_cname(name):
    # Functions get names made of [a-z0-9] words only, for which the accessor's name is obvious.
    return name.replace('/', '__').replace(' ', '_').replace('[', '_').replace(']', '')

def gen_cname(name):
    """How names look in C++ in general; used to stay away from names that would collide."""
    c = re.sub(r'[^A-Za-z0-9/]+', '_', name)
    c = re.sub(r'_*/+', '__', c)
    c = re.sub(r'^__', '', c)
    c = re.sub(r'^[^A-Za-z]_*', '_', c)
    return re.sub(r'_+$', '', c)

SIMPLE = re.compile(r'^[a-z][a-z0-9]*(\[(0|[1-9]\d*)\])*(/[a-z][a-z0-9]*(\[(0|[1-9]\d*)\])*)*$')

def members(descs):
    """{desc name: {object index: (member, array accessor call or None)}} for objects with an obvious C++ name."""
    names = {}
    def add(n):
        names.setdefault(gen_cname(n), set()).add(n)
    arr = {}
    def add_parts(n):
        # partial names get a C++ name as well
        parts = n.split('/')
        for i in range(len(parts)):
            for j in range(i + 1, len(parts) + 1):
                q = '/'.join(parts[i:j])
                add(q)
                add(re.sub(r'\[\d+\]$', '', q))
                add(re.sub(r'\[\d+\]', '', q))
    for d in descs:
        for x in d.objs:
            add(x.name)
            add_parts(x.name)
            if '[' in x.name:
                it = iter('abcdefghijklmnopqrstuvwxyz')
                a = re.sub(r'\[\d+\]', lambda m: '[' + next(it) + ']', x.name)
                arr[x.name] = a
                add(a)
    # the ones that are taken get a number
    for c in list(names):
        for k in range(2, len(names[c]) + 1):
            names.setdefault('%s_%d' % (c, k), set()).update(('', c))
    res = {}
    for d in descs:
        r = res[d.name] = {}
        for i, x in enumerate(d.objs):
            if x.type in ('ptr32', 'ptr64') or not SIMPLE.match(x.name) or gen_cname(x.name) in RESERVED or len(names[gen_cname(x.name)]) > 1:
                continue
            call = None
            if x.name in arr and len(names[gen_cname(arr[x.name])]) == 1:
                call = (gen_cname(arr[x.name]), re.findall(r'\[(\d+)\]', x.name))
            r[i] = (gen_cname(x.name), call)
    return res

def header(desc, mem=None, meta_only=False):
    """<name>_meta.h: table of objects and an implementation class with all functions, and hooks that are observed."""
    mem = mem or {}
    n = desc.name
    o = ['// made by vc/stores.py', '#pragma once', '#include "%s.h"' % n, '#include "meta.h"', '']
    o.append('struct %s_meta {' % n)
    o.append('\tstatic vf::ObjMeta const* objs() { static vf::ObjMeta const o[] = {')
    fi = 0
    for i, x in enumerate(desc.objs):
        m = mem.get(i)
        o.append('\t\t{"/" %s, 0x%02x, %d, %d, %d, %s, %d, %d},' % (cstr(x.name), FLAGS[x.type] | (0x40 if x.func else 0), x.size,
            int(x.func), fi if x.func else -1, cstr(x.init) if not x.func else '""', int(m is not None), int(bool(m and m[1]))))
        if x.func:
            fi += 1
    o.append('\t\t{nullptr,0,0,0,-1,nullptr,0,0}}; return o; }')
    o.append('\tenum { count = %d, functions = %d };' % (len(desc.objs), fi))
    o.append('};')
    if meta_only:
        return '\n'.join(o) + '\n'
    o.append('class %s_impl : public STORE_T(%s_impl, stored::%sBase), public vf::Observed {' % (n, n, n))
    o.append('\tSTORE_CLASS(%s_impl, stored::%sBase)' % (n, n))
    o.append('public:')
    o.append('\ttypedef %s_meta meta;' % n)
    o.append('\t%s_impl() : vf::Observed(%d) {}' % (n, fi))
    o.append('\tusing base::buffer;')
    o.append('\tvoid __hookEntryX(stored::Type::type t, void* b, size_t l) noexcept { base::__hookEntryX(t, b, l); vfHook(0, t, b, l, false); }')
    o.append('\tvoid __hookExitX(stored::Type::type t, void* b, size_t l, bool c) noexcept { vfHook(1, t, b, l, c); base::__hookExitX(t, b, l, c); }')
    o.append('\tvoid __hookEntryRO(stored::Type::type t, void* b, size_t l) noexcept { base::__hookEntryRO(t, b, l); vfHook(2, t, b, l, false); }')
    o.append('\tvoid __hookExitRO(stored::Type::type t, void* b, size_t l) noexcept { vfHook(3, t, b, l, false); base::__hookExitRO(t, b, l); }')
    o.append('\tvoid __hookChanged(stored::Type::type t, void* b, size_t l) noexcept { vfHook(4, t, b, l, true); base::__hookChanged(t, b, l); }')
    fi = 0
    for i, x in enumerate(desc.objs):
        if not x.func:
            if i in mem:
                o.append('\tvoid __%s__changed() noexcept { vfChanged(%d); }' % (mem[i][0], i))
            continue
        if x.type in FIXED:
            o.append('\tvoid __%s(bool set, %s& v) { vfFn(%d, set, &v, sizeof(v)); }' % (func_cname(x.name), CTYPE[x.type], fi))
        else:
            ct = 'char' if x.type == 'string' else 'void'
            o.append('\tsize_t __%s(bool set, %s* v, size_t len) { return vfFnBlob(%d, set, v, len); }' % (func_cname(x.name), ct, fi))
        fi += 1
    o.append('};')
    # access through the members
    o.append('struct %s_members { typedef %s_impl S; typedef stored::Variant<S> V;' % (n, n))
    def sw(sig, body, dflt):
        o.append('\tstatic %s { switch(i) {' % sig)
        for i, m in sorted(mem.items()):
            b = body(desc.objs[i], m)
            if b:
                o.append('\t\tcase %d: { %s }' % (i, b))
        o.append('\t\tdefault: %s } }' % dflt)
    ctype = lambda x: CTYPE.get(x.type, 'void*' )
    fixed = lambda x: x.type in FIXED and x.type not in ('ptr32', 'ptr64')
    sw('V variant(S& s, int i)', lambda x, m: 'return s.%s.variant();' % m[0], '(void)s; return V();')
    sw('V array(S& s, int i)', lambda x, m: m[1] and 'return s.%s(%s);' % (m[1][0], ','.join(m[1][1])), '(void)s; return V();')
    # one index out of range
    sw('bool arrayBad(S& s, int i)', lambda x, m: m[1] and 'return ' + ' || '.join('s.%s(%s).valid()' % (m[1][0], ','.join(m[1][1][:k] + [bad] + m[1][1][k+1:]))
        for k in range(len(m[1][1])) for bad in ('1000', '-1')) + ';', '(void)s; return false;')
    sw('intptr_t key(S& s, int i)', lambda x, m: None if x.func else 'return (intptr_t)s.%s.key();' % m[0], '(void)s; return -1;')
    sw('bool set(S& s, int i, void const* p, size_t len)', lambda x, m: (
        '(void)len; %s v; memcpy(&v, p, sizeof(v)); s.%s = v; return true;' % (ctype(x), m[0]) if fixed(x) else
        's.%s.set(p, len); return true;' % m[0] if x.type in ('blob', 'string') else None), '(void)s; (void)p; (void)len; return false;')
    sw('bool get(S& s, int i, void* p, size_t& len)', lambda x, m: (
        '%s v = (%s)s.%s.get(); memcpy(p, &v, sizeof(v)); len = sizeof(v); return true;' % (ctype(x), ctype(x), m[0]) if fixed(x) else
        'len = s.%s.get(p, len); return true;' % m[0] if x.type in ('blob', 'string') else None), '(void)s; (void)p; (void)len; return false;')
    sw('bool asInt(S& s, int i, int64_t& r)', lambda x, m: 'r = s.%s.template as<int64_t>(); return true;' % m[0] if fixed(x) and not x.func else None, '(void)s; (void)r; return false;')
    sw('bool asI8(S& s, int i, int8_t& r)', lambda x, m: 'r = s.%s.template as<int8_t>(); return true;' % m[0] if fixed(x) and not x.func else None, '(void)s; (void)r; return false;')
    o.append('};')
    return '\n'.join(o) + '\n'

RESERVED = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl const continue default delete do double
 else enum explicit export extern false final float for friend goto if inline int long mutable namespace new not nullptr operator or
 override private protected public register return short signed sizeof static struct switch template this throw true try typedef
 typeid typename union unsigned using virtual void volatile while xor name hash list find map data buffer variable function key type
 implementation self base root callback objects'''.split())

def rand_value(r, t):
    """A random value of the fixed type: (text or None, bytes)."""
    if t == 'bool':
        c = r.choice([('true', 1), ('false', 0), ('True', 1), ('0', 0), ('1', 1), ('10', 1)])
        return c[0], bytes([c[1]])
    if t in ('float', 'double'):
        p = '<' + PACK[t]
        s = r.choice(['0', '1', '-1', '3.5', '1e10', '-2.5e-3', 'nan', 'inf', '-inf', 'Infinity', '0.1', '123456', '0x10'])
        v = float(int(s, 16)) if s.startswith('0x') else float(s)
        return s, struct.pack(p, v)
    n = FIXED[t] * 8
    signed = t.startswith('int')
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    if n == 64:
        # numbers that have an exact representation in any parser
        v = r.choice([0, 1, 42, (1 << 31), (1 << 52) + 1, 123456789012345] + ([-1, -(1 << 40)] if signed else []))
    else:
        v = r.choice([lo, hi, 0, 1, 42, hi - 1, r.randint(lo, hi)])
    b = struct.pack('<' + PACK[t], v)
    if v >= 0 and r.random() < .4:
        return r.choice([hex(v), bin(v)]), b
    return str(v), b

def rand_string_init(r, size):
    n = r.randint(0, size)
    s = ''.join(r.choice('abcXYZ 0123_-./') for _ in range(n))
    if n and r.random() < .3:
        s = s[:-1] + 'z'
    return '"' + s + '"', s.encode() + b'\0' * (size - len(s))

def rand_name(r, mode):
    if mode == 0:
        return ''.join(r.choice('ab') for _ in range(r.randint(1, 5)))
    if mode == 1:
        return r.choice(['alpha', 'alphabet', 'beta', 'gamma', 'delta', 'default', 'def', 'speed', 'speeds', 'x', 'xy', 'xyz',
            'position of motor', 'position of mower', 'pos', 'status', 'state', 'start', 'stop']) + r.choice(['', '', ' 1', ' 2', '1', ' (m/s)', ' (m/h)', '.a', '-b'])
    if mode == 2:
        n = r.randint(1, 12)
        # printable, no slash; no whitespace at either end
        s = ''.join(chr(r.choice([r.randint(0x21, 0x2e), r.randint(0x30, 0x7e), r.randint(0x61, 0x7a)])) for _ in range(n))
        return s.replace('//', '')
    n = r.randint(20, 60)
    p = r.choice(['', 'a rather long common prefix of some names, which differ ', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'])
    return (p + ''.join(r.choice('abcdefgh ') for _ in range(n))).strip().replace('  ', ' ').replace('  ', ' ').replace('  ', ' ')

def rand_desc(r, name, nobj=20, types=None, maxblob=40, funcs=True, ptrs=True):
    """A random store."""
    d = Desc(name)
    types = types or (list(CTYPE) + (['ptr32', 'ptr64'] if ptrs else []) + ['blob', 'string', 'blob', 'string'])
    mode = r.choice([0, 1, 2, 3, 1, 4])
    fn = [0]
    cn = set()

    def fresh(used):
        for _ in range(100):
            n = rand_name(r, r.randint(0, 3) if mode == 4 else mode)
            # the accessor of an object must not collide with a member of the store class
            if n and n not in used and re.search('[A-Za-z]', n) and n.lower() not in RESERVED and '//' not in n and '*/' not in n + '/' and n[-1] != '\\' and n[0] != ' ' and n[-1] not in '/ ':
                used.add(n)
                return n
        n = 'n%d' % len(used) + 'q' * r.randint(0, 3)
        used.add(n)
        return n

    def level(depth, left, used):
        while left > 0:
            x = r.random()
            if x < .18 and depth < 3 and left > 1:
                n = fresh(used)
                arr = r.choice([0, 0, 0, 2, 3, 12 if depth == 0 else 2])
                k = r.randint(1, max(1, min(6, left - 1)))
                d.begin()
                level(depth + 1, k, set())
                d.end(n, arr)
                left -= k
                for i in range(arr):
                    used.add('%s[%d]' % (n, i))
            elif x < .28 and funcs and depth == 0:
                t = r.choice([y for y in types if y not in ('ptr32', 'ptr64')])
                fn[0] += 1
                n = 'fn%d%s' % (fn[0], r.choice(['', 'a', 'bc']))
                used.add(n)
                d.var(t, n, func=True, arr=r.choice([0, 0, 0, 2]), size=r.randint(1, maxblob))
                left -= 1
            else:
                t = r.choice(types)
                n = fresh(used)
                arr = r.choice([0, 0, 0, 0, 2, 3, 11])
                for i in range(arr):
                    used.add('%s[%d]' % (n, i))
                if t in FIXED:
                    txt, b = (None, None)
                    if r.random() < .5:
                        txt, b = rand_value(r, t)
                    d.var(t, n, init=b, init_text=txt, arr=arr)
                else:
                    size = r.choice([1, 2, 3, 4, 5, 7, 8, 9, r.randint(1, maxblob)])
                    if t == 'string' and r.random() < .5:
                        txt, b = rand_string_init(r, size)
                        d.var(t, n, init=b, init_text=txt, arr=arr, size=size)
                    else:
                        d.var(t, n, arr=arr, size=size)
                left -= 1
    level(0, nobj, set())
    # a duplicate can arise from e.g. a scope "a" in an array; drop such a description
    names = [o.name for o in d.objs]
    if len(set(names)) != len(names) or not any(not o.func for o in d.objs):
        return rand_desc(r, name, nobj, types, maxblob, funcs, ptrs)
    return d
