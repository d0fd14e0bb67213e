"""Generates a store with random subsets of the objects of the components, and instantiates these components (C25)."""
import random

# kind: (id, name, unit, default), first the mandatory ones
COMP = {
    'Amplifier': (0, [('I', 'input', '', '0'), ('g', 'gain', '', '1'), ('o', 'offset', '', '0'), ('l', 'low', '', '-inf'), ('h', 'high', '', 'inf'), ('F', 'override', '', 'nan'), ('O', 'output', '', '0'), ('e', 'enable', '', None)]),
    'PinIn': (0, [('p', 'pin', '', 'f'), ('F', 'override', '', 'i8'), ('i', 'input', '', 'b')]),
    'PinOut': (1, [('o', 'output', '', 'b'), ('p', 'pin', '', 'f')]),
    'PID': (3, [('f', 'frequency', ' (Hz)', 'f'), ('s', 'setpoint', '', '0'), ('p', 'Kp', '', '1'), ('y', 'y', '', '0'), ('i', 'Ti', ' (s)', 'inf'), ('d', 'Td', ' (s)', '0'), ('k', 'Kff', '', '0'),
            ('I', 'int', '', '0'), ('L', 'int low', '', '-inf'), ('H', 'int high', '', 'inf'), ('l', 'low', '', '-inf'), ('h', 'high', '', 'inf'), ('E', 'error max', '', 'inf'), ('3', 'epsilon', '', 'inf'),
            ('F', 'override', '', 'nan'), ('u', 'u', '', '0'), ('e', 'enable', '', None), ('r', 'reset', '', 'b')]),
    'Sine': (1, [('s', 'sample frequency', ' (Hz)', 'f'), ('A', 'amplitude', '', '1'), ('f', 'frequency', ' (Hz)', '1'), ('p', 'phase', ' (rad)', '0'), ('o', 'offset', '', '0'), ('F', 'override', '', 'nan'), ('O', 'output', '', '0'), ('e', 'enable', '', None)]),
    'PulseWave': (1, [('s', 'sample frequency', ' (Hz)', 'f'), ('A', 'amplitude', '', '1'), ('f', 'frequency', ' (Hz)', '1'), ('p', 'phase', ' (rad)', '0'), ('d', 'duty cycle', '', '0.5'), ('F', 'override', '', 'nan'), ('O', 'output', '', '0'), ('e', 'enable', '', None)]),
    'LowPass': (2, [('s', 'sample frequency', ' (Hz)', 'f'), ('c', 'cutoff frequency', ' (Hz)', '1'), ('I', 'input', '', '0'), ('F', 'override', '', 'nan'), ('O', 'output', '', '0'), ('e', 'enable', '', None), ('r', 'reset', '', 'b')]),
    'Ramp': (1, [('s', 'sample frequency', ' (Hz)', 'f'), ('I', 'input', '', '0'), ('v', 'speed limit', '', 'inf'), ('a', 'acceleration limit', '', 'inf'), ('F', 'override', '', 'nan'), ('O', 'output', '', '0'), ('r', 'reset', '', 'b'), ('e', 'enable', '', None)]),
}
COMP['HighPass'] = COMP['LowPass']

def generate(seed, perkind, nfiles):
    """Returns (store, functions.inc, [source])."""
    rng = random.Random(seed * 7919 + 25)
    st, fn, parts, kinds = [], [], [], []
    n = 0
    for kind in sorted(COMP):
        mand, objs = COMP[kind]
        for k in range(perkind):
            t = 'float' if k % 2 == 0 else 'double'
            if kind == 'Amplifier' and k % 5 == 4:
                t = 'int32'
            if k < 2:
                sel = list(objs)
            elif k == 2:
                sel = list(objs[:mand])
            else:
                p = rng.choice([0.3, 0.5, 0.8])
                sel = objs[:mand] + [o for o in objs[mand:] if rng.random() < p]
            if t == 'int32':
                sel = [o for o in sel if o[0] != 'F']
            units = k != 1 and rng.random() < 0.7
            ids = ''
            if k < 2:
                ids = rng.choice(['', '<%s>' % ', '.join("'%s'" % o[0] for o in sel)])
            else:
                # ids in any order
                o_ = [o[0] for o in sel]
                rng.shuffle(o_)
                ids = '<%s>' % ', '.join("'%s'" % o for o in o_)
                if not o_:
                    continue
            lines = []
            rng.shuffle(sel) if rng.random() < 0.5 else None
            for id, name, unit, d in sel:
                nm = name + (unit if units else '')
                cn = nm.replace('(', '').replace(')', '').replace(' ', '_')
                if d == 'f' and kind in ('PinIn', 'PinOut'):
                    lines.append('(bool) ' + nm)
                    fn.append('\tvoid __s%d__%s(bool set, bool& value) { if(set) g_pinSet[%d].push_back(value); else value = g_pin[%d]; }' % (n, cn, n, n))
                elif d == 'f':
                    lines.append('(float) ' + nm)
                    fn.append('\tvoid __s%d__%s(bool set, float& value) { if(!set) value = g_freq[%d]; }' % (n, cn, n))
                elif d == 'b':
                    lines.append('bool ' + nm)
                elif d == 'i8':
                    lines.append('int8=-1 ' + nm)
                elif d is None:
                    lines.append('bool=true ' + nm)
                elif t == 'int32':
                    lines.append('%s=%s %s' % (t, {'-inf': '-2147483648', 'inf': '2147483647'}.get(d, d), nm))
                else:
                    lines.append('%s=%s %s' % (t, d, nm))
            st.append('{\n\t' + '\n\t'.join(lines) + '\n} s%d\n' % n)
            names = '{' + ', '.join("{'%s', \"%s\"}" % (o[0], o[1]) for o in sel) + '}'
            ct = {'int32': 'int32_t'}.get(t, t)
            C = 'stored::%s<CompStore' % kind
            has = {o[0] for o in sel}
            body = '\tlabel("%s");\n\tFields f{store, %d, %s, "%s <%s>;"};\n' % (kind, n, names, kind, t)
            if kind in ('PinIn', 'PinOut'):
                virt = rng.random() < 0.5
                body += '\tconstexpr auto o = %s>::objects%s("/s%d/");\n' % (C, ids, n)
                body += '\tusing P = %s, o.flags()>;\n' % C
                if kind == 'PinIn':
                    if virt:
                        body += '\tVirtualPinIn<P> c{o, store};\n\tcheckPinIn(r, f, c, c.hw, true);\n'
                    else:
                        body += '\tP c{o, store};\n\tcheckPinIn(r, f, c, g_pin[%d], false);\n' % n
                else:
                    if virt:
                        body += '\tVirtualPinOut<P> c{o, store};\n\tcheckPinOut(r, f, c, c.sets, true);\n'
                    else:
                        body += '\tP c{o, store};\n\tcheckPinOut(r, f, c, g_pinSet[%d], %s);\n' % (n, 'true' if 'p' in has else 'false')
            else:
                if t == 'float':
                    body += '\tconstexpr auto o = %s>::objects%s("/s%d/");\n' % (C, ids, n)
                    body += '\t%s, o.flags()> c' % C
                else:
                    body += '\tconstexpr auto o = %s, 0, %s>::objects%s("/s%d/");\n' % (C, ct, ids, n)
                    body += '\t%s, o.flags(), %s> c' % (C, ct)
                # Construction directly, or assigned later on.
                body += '{o, store};\n' if rng.random() < 0.7 else ';\n\tc = decltype(c){o, store};\n'
                chk = {'Amplifier': 'checkAmplifier<%s>(r, f, c)', 'PID': 'checkPID<%s>(r, f, c)', 'Sine': 'checkSine<%s>(r, f, c, false)', 'PulseWave': 'checkSine<%s>(r, f, c, true)', 'LowPass': 'checkFilter<%s>(r, f, c, true)', 'HighPass': 'checkFilter<%s>(r, f, c, false)', 'Ramp': 'checkRamp<%s>(r, f, c)'}[kind]
                body += '\t' + chk % ct + ';\n'
            parts.append('void comp%d(Rng& r, CompStore& store)\n{\n%s\tsig(f.trace);\n}\n' % (n, body))
            kinds.append(kind)
            n += 1
    srcs = []
    for i in range(nfiles):
        srcs.append('#include "compmodel.h"\n' + '\n'.join(parts[i::nfiles]))
    srcs[0] += '\n' + '\n'.join('void comp%d(Rng&, CompStore&);' % i for i in range(n)) + '\nextern void (*const comps[])(Rng&, CompStore&);\nvoid (*const comps[])(Rng&, CompStore&) = {' + ', '.join('comp%d' % i for i in range(n)) + '};\nextern unsigned const compCount;\nunsigned const compCount = %d;\n' % n
    srcs[0] += 'extern char const* const compKinds[];\nchar const* const compKinds[] = {' + ', '.join('"%s"' % k for k in kinds) + '};\n'
    srcs[0] += 'float g_freq[%d];\nbool g_pin[%d];\nstd::vector<bool> g_pinSet[%d];\n' % (n, n, n)
    return '\n'.join(st), '\n'.join(fn), srcs
