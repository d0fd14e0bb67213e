"""Generates random compositions of pipe segments, with their models (C24)."""
import random

NUM = ['int32_t', 'double', 'uint8_t', 'float', 'size_t']
TYPES = ['int32_t', 'double', 'uint8_t', 'float', 'size_t', 'bool', 'std::string']

def lit(rng, t):
    if t == 'std::string':
        return rng.choice(['std::string()', 'std::string("k%d")' % rng.randrange(4), 'std::string("a somewhat longer string, which is on the heap %d")' % rng.randrange(3)])
    if t == 'bool':
        return rng.choice(['false', 'true'])
    if t == 'size_t':
        return '(size_t)%d' % rng.randrange(6)
    if t == 'uint8_t':
        return '(uint8_t)%d' % rng.choice([0, 1, 5, 17, 255])
    if t == 'int32_t':
        return 'int32_t(%d)' % rng.choice([0, 1, -1, 5, 19, -300, 2147483647])
    return '(%s)%s' % (t, rng.choice(['0.', '1.', '-1.5', '5.', '100.25', '-300.']))

class Pipe:
    def __init__(self, rng, no):
        self.rng = rng
        self.decls = []
        self.segs = []
        self.n = 0
        self.trig = False
        self.name = []
        self.vars = False

    def new(self, p):
        self.n += 1
        return p + str(self.n)

    def sink(self, t):
        s = self.new('sink')
        self.decls.append('Sink<%s> %s(e, "%s");' % (t, s, s))
        return s

    def use_vars(self):
        if not self.vars:
            self.decls.insert(0, 'Vars vars(e);')
            self.vars = True

    def add(self, name, expr, model, out):
        self.segs.append((expr, model))
        self.name.append(name)
        return out

    def segment(self, t):
        rng = self.rng
        flt = t in ('double', 'float')
        num = t in NUM
        opts = ['identity', 'buffer', 'buffer', 'tee', 'log', 'transistor', 'call', 'call', 'changes', 'signal', 'map']
        if not self.trig:
            opts += ['triggered', 'triggered', 'ratelimit', 'ratelimit']
            if t == 'bool':
                opts += ['get'] * 4
            if t == 'size_t':
                opts += ['mux'] * 4
        if num:
            opts += ['cast', 'cast', 'bounded', 'even']
        if num and t != 'size_t':
            opts += ['similar']
        if flt:
            opts += ['scale', 'scale']
        if t in ('int32_t', 'double', 'bool', 'uint8_t'):
            opts += ['set', 'set']
        o = rng.choice(opts)
        if o == 'identity':
            return self.add(o, 'sp::Identity<%s>{}' % t, 'MIdentity<%s>()' % t, t)
        if o == 'buffer':
            if rng.random() < .5:
                v = lit(rng, t)
                return self.add(o, 'sp::Buffer<%s>{%s}' % (t, v), 'MBuffer<%s>(%s)' % (t, v), t)
            return self.add(o, 'sp::Buffer<%s>{}' % t, 'MBuffer<%s>()' % t, t)
        if o in ('tee', 'triggered'):
            ss = [self.sink(t) for i in range(rng.choice([1, 1, 2, 3]))]
            real = ', '.join(s + '.real' for s in ss)
            model = '{' + ', '.join('&%s.model' % s for s in ss) + '}'
            if o == 'tee':
                return self.add(o + str(len(ss)), rng.choice(['sp::Tee<%s, %d>{%s}' % (t, len(ss), real), 'sp::Tee{%s}' % real]), 'MTee<%s>(%s)' % (t, model), t)
            self.trig = True
            eq = 'std::equal_to<%s>' % t
            if rng.random() < .5:
                return self.add(o + str(len(ss)), rng.choice(['sp::Triggered<%s, %s, %d>{%s}' % (t, eq, len(ss), real), 'sp::Triggered{%s}' % real]), 'MTriggered<%s>(%s)' % (t, model), t)
            v = lit(rng, t)
            return self.add(o + str(len(ss)), 'sp::Triggered<%s, %s, %d>{%s, %s}' % (t, eq, len(ss), v, real), 'MTriggered<%s>(%s, %s)' % (t, model, v), t)
        if o == 'log':
            n = self.new('log')
            return self.add(o, 'sp::Log<%s>{"%s", [&e](std::string const& n, %s const& x) { e.real.push_back(n + "=" + show_(x)); }}' % (t, n, t), 'MEvent<%s>(e, "%s")' % (t, n), t)
        if o == 'transistor':
            g = self.new('gate')
            inv = rng.random() < .5
            self.decls.append('Gate %s(e, %s);' % (g, rng.choice(['true', 'false'])))
            return self.add(o, 'sp::Transistor<%s, %s>{%s.real}' % (t, 'true' if inv else 'false', g), 'MTransistor<%s>(%s.model, %s)' % (t, g, 'true' if inv else 'false'), t)
        if o == 'call':
            k = rng.randrange(6)
            n = self.new('call')
            ev = 'e.real.push_back("%s=" + show_<%s>(x));' % (n, t)
            if k == 0:
                return self.add('call(T)', 'sp::Call<%s>{[&e](%s x) { %s }}' % (t, t, ev), 'MEvent<%s>(e, "%s")' % (t, n), t)
            if k == 1:
                return self.add('call(T const&)', 'sp::Call<%s, void(%s const&)>{[&e](%s const& x) { %s }}' % (t, t, t, ev), 'MEvent<%s>(e, "%s")' % (t, n), t)
            if k == 2:
                return self.add('call(T&)', 'sp::Call<%s, void(%s&)>{[](%s& x) { x = modify<%s>(x); }}' % (t, t, t, t), 'MModify<%s>()' % t, t)
            if k == 3:
                return self.add('T call(T)', 'sp::Call<%s, %s(%s)>{[](%s x) { return modify<%s>(x); }}' % (t, t, t, t, t), 'MModify<%s>()' % t, t)
            if k == 4:
                return self.add('call{(T)}', 'sp::Call{[&e](%s x) { %s }}' % (t, ev), 'MEvent<%s>(e, "%s")' % (t, n), t)
            return self.add('T call{(T)}', 'sp::Call{[](%s x) -> %s { return modify<%s>(x); }}' % (t, t, t), 'MModify<%s>()' % t, t)
        if o == 'changes':
            s = self.sink(t)
            if rng.random() < .5:
                v = lit(rng, t)
                return self.add(o, 'sp::Changes<%s>{%s.real, %s}' % (t, s, v), 'MChanges<%s, MEqual<%s>>(%s.model, %s)' % (t, t, s, v), t)
            return self.add(o, 'sp::Changes<%s>{%s.real}' % (t, s), 'MChanges<%s, MEqual<%s>>(%s.model)' % (t, t, s), t)
        if o == 'similar':
            s = self.sink(t)
            k = rng.randrange(1, 5)
            v = lit(rng, t)
            return self.add(o + str(k), rng.choice(['sp::Changes{%s.real, %s, sp::similar_to<%s, %d>{}}' % (s, v, t, k), 'sp::Changes<%s, sp::similar_to<%s, %d>>{%s.real, %s}' % (t, t, k, s, v)]),
                'MChanges<%s, MSimilar<%s, %d>>(%s.model, %s)' % (t, t, k, s, v), t)
        if o == 'signal':
            n = self.new('signal')
            ev = '[&e](%s x) { e.real.push_back("%s=" + show_<%s>(x)); }' % (t, n, t)
            self.decls.append('stored::Signal<void*, void*, %s> %s;' % (t, n))
            if rng.random() < .5:
                self.decls.append('%s.connect(%s);' % (n, ev))
                e = rng.choice(['sp::Signal<%s>{%s}' % (t, n), 'sp::Signal{%s}' % n])
            else:
                self.decls.append('%s.connect((void*)&e, %s);' % (n, ev))
                self.decls.append('%s.connect((void*)&r, [&e](%s) { e.real.push_back("other key"); });' % (n, t))
                e = 'sp::Signal<%s>{%s, (void*)&e}' % (t, n)
            return self.add(o, e, 'MSignal<%s>(e, "%s")' % (t, n), t)
        if o == 'ratelimit':
            self.trig = True
            s = self.sink(t)
            iv = rng.choice([1, 21, 51, 121])
            v = lit(rng, t)
            ty = 'sp::RateLimit<%s, std::equal_to<%s>, std::chrono::milliseconds, FakeClock>' % (t, t)
            if rng.random() < .5:
                return self.add(o, '%s{%s.real, std::chrono::milliseconds(%d), %s}' % (ty, s, iv, v), 'MRateLimit<%s>(%s.model, %d, %s)' % (t, s, iv, v), t)
            return self.add(o, '%s{%s.real, std::chrono::milliseconds(%d)}' % (ty, s, iv), 'MRateLimit<%s>(%s.model, %d)' % (t, s, iv), t)
        if o == 'get':
            self.trig = True
            self.use_vars()
            v, u = rng.choice([('i', 'int32_t'), ('d', 'double'), ('b', 'bool'), ('u', 'uint8_t'), ('fi', 'int32_t'), ('fd', 'double')])
            forms = ['sp::Get{vars.store.%s}' % v, 'sp::Get<%s, decltype(vars.store.%s)&>{vars.store.%s}' % (u, v, v)]
            if v[0] != 'f':
                forms.append('sp::Get<%s, stored::Variant<PipeStore>>{vars.store.%s.variant()}' % (u, v))
            return self.add('get ' + v, rng.choice(forms), 'MGet<%s>(vars.%s)' % (u, v), u)
        if o == 'set':
            self.use_vars()
            v = rng.choice({'int32_t': ['i', 'fi'], 'double': ['d', 'fd'], 'bool': ['b'], 'uint8_t': ['u']}[t])
            forms = ['sp::Set{vars.store.%s}' % v, 'sp::Set<%s, decltype(vars.store.%s)&>{vars.store.%s}' % (t, v, v)]
            if v[0] != 'f':
                forms.append('sp::Set<%s, stored::Variant<PipeStore>>{vars.store.%s.variant()}' % (t, v))
            return self.add('set ' + v, rng.choice(forms), 'MSet<%s>(vars.%s)' % (t, v), t)
        if o == 'mux':
            self.trig = True
            u = rng.choice(TYPES)
            ss = []
            for i in range(rng.choice([1, 2, 3, 4])):
                s = self.new('source')
                self.decls.append('Source<%s> %s(e, "%s", %s);' % (u, s, s, lit(rng, u)))
                ss.append(s)
            real = ', '.join(s + '.real' for s in ss)
            return self.add(o + str(len(ss)), rng.choice(['sp::Mux<%s, %d>{%s}' % (u, len(ss), real), 'sp::Mux{%s}' % real]), 'MMux<%s>({%s})' % (u, ', '.join('&%s.model' % s for s in ss)), u)
        if o == 'cast':
            u = rng.choice(NUM)
            if 'float' in (t, u) and 'double' not in (t, u):
                pass
            return self.add('cast %s' % u, 'sp::Cast<%s, %s>{}' % (t, u), ('MIdentity<%s>()' % t) if t == u else 'MCast<%s, %s>()' % (t, u), u)
        if o == 'bounded':
            a, b = {'int32_t': ('-7', '12'), 'double': ('-7.5', '12.25'), 'float': ('-7.5F', '12.25F'), 'uint8_t': ('(uint8_t)3', '(uint8_t)200'), 'size_t': ('(size_t)1', '(size_t)4')}[t]
            k = rng.randrange(3)
            x = rng.choice(['sp::Constrained{sp::Bounded<%s>{%%s}}' % t, 'sp::Constrained<sp::Bounded<%s>>{sp::Bounded<%s>{%%s}}' % (t, t)])
            if k == 0:
                return self.add(o, x % (a + ', ' + b), 'MBounded<%s>(%s, %s)' % (t, a, b), t)
            if k == 1:
                return self.add(o, x % a, 'MBounded<%s>(%s)' % (t, a), t)
            return self.add(o, rng.choice([x % '', 'sp::Constrained<sp::Bounded<%s>>{}' % t]), 'MBounded<%s>()' % t, t)
        if o == 'even':
            return self.add(o, rng.choice(['sp::Constrained{Even<%s>{}}' % t, 'sp::Constrained<Even<%s>>{}' % t]), 'MEven<%s>()' % t, t)
        if o == 'scale':
            n, d = rng.choice([(1, 2), (4, 1), (1, 8), (-2, 1), (1, 1)])
            c = 'sp::Scale<%s, std::ratio<%d, %d>>' % (t, n, d)
            return self.add(o, rng.choice(['sp::Convert{%s{}}' % c, 'sp::Convert<%s>{}' % c]), 'MScale<%s, %d, %d>()' % (t, n, d), t)
        assert o == 'map'
        u = rng.choice(TYPES)
        n = rng.randrange(1, 6)
        vals = [lit(rng, u) for i in range(n)]
        if t == 'size_t' and n > 1:
            m = 'MMapped<size_t, %s>({%s})' % (u, ', '.join('{(size_t)%d, %s}' % (i, v) for i, v in enumerate(vals)))
            im = 'sp::IndexMap<%s, %d>' % (u, n)
            forms = ['sp::Map({%s})' % ', '.join(vals), 'sp::Map(%s)' % ', '.join(vals), 'sp::Mapped{%s{%s}}' % (im, ', '.join(vals)), 'sp::Mapped<size_t, %s, %s>{%s}' % (u, im, ', '.join(vals))]
            return self.add('indexmap', rng.choice(forms), m, u)
        keys = {'int32_t': ['-5', '0', '1', '5', '7', '19'], 'double': ['-1.5', '0.', '1.', '5.', '12.25'], 'float': ['-1.5F', '0.F', '1.F', '5.F', '12.25F'], 'uint8_t': ['(uint8_t)%d' % i for i in (0, 1, 5, 17, 200, 255)],
            'size_t': ['(size_t)%d' % i for i in range(6)], 'bool': ['false', 'true'], 'std::string': ['std::string("%s")' % s for s in ('', 'k0', 'k1', 'k2', 'k3')]}[t]
        keys = [keys[i] for i in sorted(rng.sample(range(len(keys)), min(n, len(keys))))]
        ordered = rng.random() < .5
        if not ordered:
            rng.shuffle(keys)
        kv = ['std::pair<%s, %s>{%s, %s}' % (t, u, k, v) for k, v in zip(keys, vals)]
        n = len(kv)
        m = 'MMapped<%s, %s>({%s})' % (t, u, ', '.join('{%s, %s}' % (k, v) for k, v in zip(keys, vals)))
        if ordered:
            om = 'sp::OrderedMap<%s, %s, %d>' % (t, u, n)
            forms = ['sp::Map<%s, %s>({%s})' % (t, u, ', '.join(kv)), 'sp::Mapped{%s{%s}}' % (om, ', '.join(kv)), 'sp::Mapped<%s, %s, %s>{%s}' % (t, u, om, ', '.join(kv))]
            return self.add('orderedmap', rng.choice(forms), m, u)
        rm = 'sp::RandomMap<%s, %s, %d>' % (t, u, n)
        forms = ['sp::Mapped{sp::make_random_map<%s, %s>({%s})}' % (t, u, ', '.join(kv)), 'sp::Mapped<%s, %s, %s>{%s}' % (t, u, rm, ', '.join(kv))]
        return self.add('randommap', rng.choice(forms), m, u)

def generate(seed, files, per):
    """Returns source texts."""
    rng = random.Random(seed * 7919 + 5)
    res = []
    names = []
    for f in range(files):
        s = '#include "pipemodel.h"\n'
        for k in range(per):
            no = f * per + k
            p = Pipe(rng, no)
            t0 = t = rng.choice(TYPES + ['int32_t', 'double', 'bool', 'size_t'])
            for i in range(rng.choice([1, 1, 2, 3, 4, 5, 6, 7])):
                t = p.segment(t)
            end = rng.choice(['Exit', 'Exit', 'Exit', 'Cap', 'Ref'])
            s += 'void pipe%d(Env& e)\n{\n\tRng& r = e.r;\n\t(void)r;\n' % no
            for d in p.decls:
                s += '\t' + d + '\n'
            s += '\tMPipe m;\n\tm.open = %s;\n' % ('true' if end == 'Exit' else 'false')
            for e, m in p.segs:
                s += '\tm.add(new %s);\n' % m
            expr = ' >> '.join(['sp::Entry<%s>{}' % t0] + [e for e, m in p.segs])
            s += '\tDests<%s> dests(e);\n' % t
            if end == 'Ref':
                s += '\tsp::Group g;\n\tauto& pipe = %s >> sp::Ref{g};\n\tdriveRef(e, g, pipe, m, dests, (int)r.range(3, 60));\n' % expr
            else:
                s += '\tauto pipe = %s >> sp::%s{};\n\tdrive(e, pipe, m, dests, (int)r.range(3, 60));\n' % (expr, end)
            s += '}\n\n'
            names.append('%s > %s > %s' % (t0, ' > '.join(p.name), end))
        res.append(s)
    s = '#include "pipemodel.h"\n'
    n = files * per
    for i in range(n):
        s += 'void pipe%d(Env& e);\n' % i
    s += 'extern void (*const pipeFunctions[])(Env&);\nextern char const* const pipeNames[];\nextern unsigned const pipeCount;\n'
    s += 'void (*const pipeFunctions[])(Env&) = {%s};\n' % ', '.join('pipe%d' % i for i in range(n))
    s += 'char const* const pipeNames[] = {%s};\nunsigned const pipeCount = %d;\n' % (', '.join('"%s"' % x for x in names), n)
    res.append(s)
    return res
