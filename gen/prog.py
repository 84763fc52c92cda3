"""seeded random C programs of several units, each carrying what it knows about its own types (tables for walk.c)"""
import random

BASES = [  # C name, accepted names, encoding, may be a bit-field of up to
    ('char', 'char', 'signed_char', 8), ('signed char', 'signed char', 'signed_char', 8), ('unsigned char', 'unsigned char', 'unsigned_char', 8),
    ('short', 'short int', 'signed', 16), ('unsigned short', 'unsigned short int', 'unsigned', 16), ('int', 'int', 'signed', 32), ('unsigned', 'unsigned int', 'unsigned', 32),
    ('long', 'long int', 'signed', 64), ('unsigned long', 'unsigned long int', 'unsigned', 64), ('long long', 'long long int', 'signed', 64), ('unsigned long long', 'unsigned long long int', 'unsigned', 64),
    ('_Bool', '_Bool', 'boolean', 1), ('float', 'float', 'float', 0), ('double', 'double', 'float', 0), ('long double', 'long double', 'float', 0),
    ('float _Complex', 'complex float', 'complex_float', 0), ('double _Complex', 'complex double', 'complex_float', 0), ('long double _Complex', 'long complex double', 'complex_float', 0),
    ('__int128', '__int128', 'signed', 0), ('unsigned __int128', '__int128 unsigned|unsigned __int128', 'unsigned', 0)]
C, V, RS = 1, 2, 4
def qtxt(m): return ' '.join(n for b, n in ((C, 'const'), (V, 'volatile'), (RS, 'restrict')) if m & b)

class Ent:  # a named type: struct, union, enum or typedef
    def __init__(s, i, kind, name): s.i = i; s.kind = kind; s.name = name; s.members = []; s.attr = ''; s.flex = False; s.enums = []; s.t = None

class Prog:
    def __init__(s, seed, drop=(), small=False):
        s.seed = seed; s.drop = set(drop); s.names = []; s.uid = 0; s.anons = []; s.made = []
        r = s.R('top')
        s.cc = r.choice(['gcc', 'gcc', 'clang']); s.dwarf = r.choice([3, 4, 4, 5, 5, 5]); s.module = r.choice(['', '', 'm1', 'c_app'])
        s.db = r.random() < .4; s.opt = '-O0'
        n = r.choice([1, 2, 3, 5, 8, 12] if not small else [1, 2, 3]); s.ents = []
        for i in range(n):
            k = r.choice(['struct', 'struct', 'struct', 'union', 'enum', 'typedef', 'typedef'])
            e = Ent(i, k, {'struct': 'S', 'union': 'U', 'enum': 'E', 'typedef': 'T'}[k] + str(i)); s.ents.append(e)
        for e in s.ents: s.fill(e)
        s.units = []
        for u in range(r.choice([1, 2, 2, 3, 3, 4])): s.units.append(s.unit(u))
        s.lines = {}
    def R(s, k): return random.Random(f'{s.seed}/{k}')
    def keep(s, k): s.names.append(k); return k not in s.drop

    # ---- types: tuples
    def res(s, t):  # without typedefs and qualifiers
        while True:
            if t[0] in ('qual', 'ltd'): t = t[2]
            elif t[0] == 'ent' and s.ents[t[1]].kind == 'typedef': t = s.ents[t[1]].t
            else: return t
    def qualified(s, t):
        while True:
            if t[0] == 'qual': return True
            if t[0] == 'ltd': t = t[2]
            elif t[0] == 'ent' and s.ents[t[1]].kind == 'typedef': t = s.ents[t[1]].t
            else: return False
    def isflex(s, t):
        t = s.res(t)
        if t[0] == 'ent': return s.ents[t[1]].flex
        if t[0] == 'anon': return any(s.res(m['t'])[0] == 'arr' and s.res(m['t'])[2] < 0 for m in t[2]) or any(s.isflex(m['t']) for m in t[2] if m['t'][0] != 'arr')
        return False
    def obj(s, t): return s.res(t)[0] not in ('func', 'void')
    def gen(s, r, upto, depth=0, val=True, anon=True):  # an object type; by value only entities below upto
        x = r.random()
        if depth > 4 or x < .28: return ('base', r.randrange(len(BASES)))
        if x < .52 and upto:
            i = r.randrange(upto); t = ('ent', i)
            z = s.res(t)
            if s.obj(t) and not (val and s.isflex(t)) and not (z[0] == 'ent' and z[1] >= upto): return s.q(r, t)
            return ('base', r.randrange(len(BASES)))
        if x < .76: return s.q(r, s.ptr(r, upto, depth + 1))
        if x < .92:
            t = s.gen(r, upto, depth + 1, True, anon)
            return ('arr', t, r.choice([0, 1, 2, 3, 4, 7, 16] if depth else [1, 2, 3, 4, 7, 16, 1000]))
        if anon and depth < 3: return s.anon(r, upto, depth + 1)
        return ('base', 5)
    def ptr(s, r, upto, depth):
        x = r.random()
        if x < .015: return ('ptr', ('arr', ('base', r.randrange(len(BASES))), r.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32 + 3, 2**40])))  # nothing of that size is ever there
        if x < .12: return ('ptr', s.q(r, ('void',)))
        if x < .5:
            c = [e.i for e in s.ents if e.kind in ('struct', 'union') or (e.i < upto and s.obj(('ent', e.i)))]
            if c: return ('ptr', s.q(r, ('ent', r.choice(c))))
        if x < .68: return ('ptr', s.func(r, upto, depth + 1))
        return ('ptr', s.gen(r, upto, depth + 1, False, False))
    def q(s, r, t):
        if r.random() > .25 or t[0] == 'qual': return t
        if t[0] != 'void' and (s.qualified(t) or s.res(t)[0] in ('arr', 'func')): return t
        m = r.choice([C, C, V, C | V])
        if t[0] == 'ptr' and r.random() < .3 and s.obj(t[1]): m |= RS
        return ('qual', m, t)
    def nq(s, t):
        while t[0] == 'qual': t = t[2]
        return t
    def param(s, r, upto, depth):  # something a function takes or returns
        for _ in range(6):
            t = s.nq(s.gen(r, upto, depth, True, False))
            if s.res(t)[0] not in ('arr', 'func', 'void') and not s.qualified(t): return t
        return ('base', 5)
    def func(s, r, upto, depth):
        ret = ('void',) if r.random() < .3 else s.param(r, upto, depth + 1)
        ps = [s.param(r, upto, depth + 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        return ('func', ret, ps, bool(ps) and r.random() < .2)
    def anon(s, r, upto, depth): # struct or union defined where it is used, mostly anonymous
        s.uid += 1; n = s.uid; k = r.choice(['struct', 'union']); a = s.attr(r)
        t = ('anon', k, s.members(r, upto, depth, f'q{n}_', k, False), a, n, r.random() < .25)
        c = [m for m in t[2] if m['name'] and not m['bits']]
        if t[5] and c and r.random() < .4: r.choice(c)['t'] = r.choice([('ptr', ('self', k, n)), ('arr', ('ptr', ('self', k, n)), 2), ('ptr', ('qual', C, ('self', k, n))), ('ptr', ('func', ('void',), [('ptr', ('self', k, n))], False))])
        s.anons.append(t); return t
    def reself(s, t, n, to):  # what leads back to type n leads to another one
        if t[0] == 'self': return to if t[2] == n else t
        return tuple(s.reself(y, n, to) if isinstance(y, tuple) else [s.reself(z, n, to) for z in y] if isinstance(y, list) and t[0] == 'func' else y for y in t)
    def untag(s, t): return t[:2] + ([dict(m, t=s.reself(m['t'], t[4], ('void',))) for m in t[2]],) + t[3:5] + (False,)
    def again(s, t):  # the same text once more
        if t[0] == 'anon': s.uid += 1; n = s.uid; return ('anon', t[1], [dict(m, t=s.reself(s.again(m['t']), t[4], ('self', t[1], n))) for m in t[2]], t[3], n, t[5])
        if t[0] in ('arr', 'qual', 'ptr'): return tuple(s.again(y) if isinstance(y, tuple) else y for y in t)
        return t
    def twin(s, r, t):  # almost the same anonymous type
        _, k, ms, a, n, tag = s.again(t); what = r.choice(['same', 'skip', 'move', 'move', 'bits', 'type', 'count', 'swap', 'attr', 'name', 'kind', 'al'])
        m = r.choice(ms); b = [x for x in ms if x['bits']]
        if what == 'skip' and b: r.choice(b)['skip'] = r.choice(['', 'int :1;', 'unsigned :32;', 'char :4;'])
        elif what == 'move' and b:
            x = r.choice(b); p = x['skip'] or x.get('post', '') or r.choice(['unsigned :32;', 'unsigned :16;', 'char :8;', 'long :64;']); x['skip'], x['post'] = r.choice([(p, ''), ('', p)])
        elif what == 'bits' and b: x = r.choice(b); x['bits'] = r.randint(1, BASES[x['t'][1]][3]) if x['t'][0] == 'base' else x['bits']
        elif what == 'type' and m['name'] and not m['bits'] and m['t'][0] == 'base': m['t'] = ('base', r.randrange(len(BASES)))
        elif what == 'type' and m['bits'] and m['t'][0] == 'base':
            c = [i for i in range(len(BASES)) if BASES[i][3] >= m['bits']]; m['t'] = ('base', r.choice(c))
        elif what == 'count':
            c = [x for x in ms if x['t'][0] == 'arr' and x['t'][2] > 0]
            if c: x = r.choice(c); x['t'] = ('arr', x['t'][1], x['t'][2] + r.choice([1, 2]))
        elif what == 'swap' and len(ms) > 1 and not s.isflex(t): i = r.randrange(len(ms) - 1); ms[i], ms[i + 1] = ms[i + 1], ms[i]
        elif what == 'attr': a = s.attr(r)
        elif what == 'name' and m['name']: m['name'] += 'n'
        elif what == 'kind' and not s.isflex(t): k = 'union' if k == 'struct' else 'struct'; ms = [dict(x, t=s.reself(x['t'], n, ('self', k, n))) for x in ms]
        elif what == 'al' and m['name'] and not m['bits']: m['aln'] = r.choice([2, 4, 8, 16, 32]); m['al'] = f' __attribute__((aligned({m["aln"]})))'
        t = ('anon', k, ms, a, n, tag); s.anons.append(t); return t
    def alter(s, r, t):  # almost the same type: one change somewhere
        k = t[0]; down = r.random() < .6
        if k == 'ptr':
            if down and t[1][0] != 'void': return ('ptr', s.alter(r, t[1]))
            z = r.choice(['more', 'qual', 'void'])
            return ('ptr', t) if z == 'more' else ('ptr', ('void',)) if z == 'void' else ('qual', r.choice([C, V, C | V, RS if s.obj(t[1]) else C]), t)
        if k == 'arr': return ('arr', s.alter(r, t[1]), t[2]) if down else ('arr', t[1], t[2] + r.choice([1, 2])) if r.random() < .7 else ('arr', t, 2) if t[2] >= 0 else t
        if k == 'qual': return t[2] if r.random() < .5 else ('qual', t[1] ^ r.choice([C, V]) or C, t[2])
        if k == 'func':
            ret, ps, v = t[1], list(t[2]), t[3]; z = r.choice(['var', 'var', 'more', 'less', 'ret', 'type', 'swap'])
            if z == 'var': v = not v and bool(ps)
            elif z == 'more': ps.append(('base', r.randrange(len(BASES))))
            elif z == 'less': ps = ps[:-1]; v = v and bool(ps)
            elif z == 'ret': ret = ('void',) if ret != ('void',) else ('base', 5)
            elif z == 'type' and ps:
                i = r.randrange(len(ps)); x = s.nq(s.alter(r, ps[i]))
                if s.obj(x) and s.res(x)[0] != 'arr': ps[i] = x
            elif z == 'swap': ps.reverse()
            return ('func', ret, ps, v)
        if k == 'base' and r.random() < .5: return ('base', r.randrange(len(BASES)))
        return s.q(r, t) if s.obj(t) else t
    def odd(s, r): return '' if r.random() > .02 else r.choice(['_' + 'x' * r.choice([60, 130, 260, 520]), '$', '$x', '\u00e9', '\u4e2d_'])  # rarely a name is long or has other characters
    def attr(s, r):
        x = r.random()
        return '' if x < .7 else '__attribute__((packed))' if x < .85 else f'__attribute__((aligned({r.choice([2, 4, 8, 16, 32])})))' if x < .95 else f'__attribute__((packed,aligned({r.choice([2, 4, 8])})))'
    def members(s, r, upto, depth, prefix, kind, top=True, flexok=False):
        ms = []; n = r.choice([0, 1, 1, 2, 3, 4, 6, 9]) if top else r.choice([1, 2, 3])
        for i in range(n):
            m = {'name': f'{prefix}{i}' + s.odd(r), 'bits': 0, 'al': '', 'skip': ''}; x = r.random()
            if x < .22 and (i or top):
                c = [b for b in range(len(BASES)) if BASES[b][3]] ; b = r.choice(c); m['t'] = ('base', b); m['bits'] = r.randint(1, BASES[b][3])
                en = [e.i for e in s.ents if e.kind == 'enum' and e.i < upto and not e.attr and s.small(e)]
                if en and r.random() < .2: m['t'] = ('ent', r.choice(en)); m['bits'] = r.randint(9, 32)
                if r.random() < .2: m['skip'] = r.choice(['int :0;', 'int :3;', 'unsigned long :17;', 'char :1;'])
            elif x < .32 and depth < 3:
                m['t'] = s.anon(r, upto, depth + 1)
                if any(not a['bits'] and a['name'] for a in m['t'][2]): m['name'] = None; m['t'] = s.untag(m['t'])
            else:
                m['t'] = s.gen(r, upto, depth + 1, True, True)
                if r.random() < .1: m['aln'] = r.choice([2, 4, 8, 16, 32]); m['al'] = f' __attribute__((aligned({m["aln"]})))'
            ms.append(m)
        if flexok and kind == 'struct' and any(not m['bits'] for m in ms) and r.random() < .15:
            t = s.gen(r, upto, depth + 1, True, False); ms.append({'name': prefix + 'fx', 'bits': 0, 'al': '', 'skip': '', 't': ('arr', t, -1)})
        return ms
    def small(s, e): return all(-128 <= v < 200 for _, v, _ in e.enums)
    def fill(s, e):
        r = s.R(e.name)
        if e.kind in ('struct', 'union'):
            e.members = s.members(r, e.i, 0, 'm', e.kind, True, True); e.attr = s.attr(r)
            e.members = [m for m in e.members if s.keep(f'{e.name}.{m["name"] or m["t"][4]}')]
            e.flex = bool(e.members) and e.members[-1]['t'][0] == 'arr' and e.members[-1]['t'][2] < 0
            if e.flex and not any(not m['bits'] for m in e.members[:-1]): e.members.pop(); e.flex = False
        elif e.kind == 'enum': s.enum(r, e)
        else:
            x = r.random()
            if x < .1 : e.t = ('aenum',); s.enum(r, e)
            elif x < .2: e.t = s.func(r, e.i, 1)
            elif x < .25: e.t = ('void',)
            elif x < .4: e.t = s.anon(r, e.i, 1)
            elif x < .6:
                c = [k.i for k in s.ents if k.kind in ('struct', 'union')]
                e.t = ('ent', r.choice(c)) if c else ('base', 5)
            else: e.t = s.gen(r, e.i, 1)
    def enum(s, r, e):
        k = r.choice(['small', 'small', 'neg', 'unsigned', 'long', 'ulong']); n = r.choice([1, 2, 3, 8])
        lim = {'small': (0, 300), 'neg': (-2**31, 2**31 - 1), 'unsigned': (0, 2**32 - 1), 'long': (-2**63 + 1, 2**63 - 1), 'ulong': (0, 2**64 - 1)}[k]
        for i in range(n):
            v = r.choice([r.randint(*lim), lim[0], lim[1], max(lim[0], min(lim[1], r.randint(-3, 200)))])
            e.enums.append((f'{e.name}_e{i}', v, f'({v}ull)' if v > 2**63 - 1 else f'({v}ll)' if abs(v) > 2**31 - 1 else f'({v})'))
        e.enums = [x for x in e.enums if s.keep(x[0])] or [(e.name + '_e', 0, '0')]
        e.attr = '__attribute__((packed))' if r.random() < .15 and k in ('small', 'neg') else ''

    # ---- units
    def unit(s, u):
        r = s.R(f'unit{u}'); U = {'i': u, 'vars': [], 'fns': [], 'locs': [], 'exts': []}; N = len(s.ents)
        def objtype(static_ok=True):
            for _ in range(5):
                if s.anons and r.random() < .25:
                    t = s.twin(r, r.choice(s.anons)); return t if r.random() < .7 else ('arr', t, 2) if not s.isflex(t) else t
                if s.made and r.random() < .3:
                    t = s.alter(r, r.choice(s.made))
                    if s.obj(t): s.made.append(t); return t
                t = s.gen(r, N, 0, False)
                if s.obj(t):
                    if t[0] in ('ptr', 'arr', 'qual') and not s.has_anon(t): s.made.append(t)
                    return t
            return ('base', 5)
        for i in range(r.choice([0, 1, 2, 4, 6])):
            t = objtype(); st = r.random() < .25; nm = f'v{u}_{i}' + s.odd(r)
            if s.keep(nm): U['vars'].append((nm, t, st))
        for i in range(r.choice([0, 0, 1, 2])):
            t = s.func(r, N, 0); s.made.append(('ptr', t)); nm = f'f{u}_{i}' + s.odd(r); st = r.random() < .3
            if s.keep(nm): U['fns'].append((nm, t, st))
        for i in range(r.choice([0, 0, 1, 2])):
            L = []
            for k in range(r.choice([1, 2, 3])):
                vs = [(f'a{x}', objtype(), r.random() < .2 and s.cc == 'gcc') for x in range(r.choice([1, 1, 2, 3]))]
                vs = [v for v in vs if s.keep(f'l{u}_{i}.{k}.{v[0]}')]
                tds = []
                for x, (v, t, st) in enumerate(vs):  # types named in the block
                    if r.random() < .2:
                        s.uid += 1; n = ('ltd', f'LT{s.uid}', t); tds.append(n)
                        vs[x] = (v, r.choice([n, n, ('ptr', n), s.q(r, n), ('arr', n, 3) if not s.isflex(n) and not s.nosize(n) else n]), st)
                L.append((r.choice([0, 0, 1, 2]), vs, tds))
            ps = [s.param(r, N, 1) for _ in range(r.choice([0, 0, 1, 2]))]
            nm = f'l{u}_{i}'
            if s.keep(nm): U['locs'].append((nm, L, ps))
        for i in range(r.choice([0, 0, 1, 2])):  # file scope declaration locations
            vs = [(f'g{u}_{i}_{x}', objtype(), r.random() < .2) for x in range(r.choice([1, 2]))]
            vs = [v for v in vs if s.keep(v[0])]
            if vs: U.setdefault('glocs', []).append((f'gl{u}_{i}', vs))
        if u and r.random() < .4:  # defined in unit 0, asked for here
            t = objtype() if s.cc == 'gcc' else r.choice([('base', r.randrange(len(BASES))), ('ptr', ('base', r.randrange(len(BASES)))), ('arr', ('base', 6), 3)])
            nm = f'x{u}'
            if s.keep(nm): U['exts'].append((nm, t))
        if r.random() < .6:  # enums without a name, units differ in the values
            k = r.randrange(2); b = s.R(f'aen{k}'); big = b.random() < .4
            es = [(f'w{k}_{i}', b.choice([i, i, -i, 300 * i] + ([(i + 1) << 32 | 1, -(3 << 40)] if big else []))) for i in range(b.choice([2, 2, 3]))]
            if big: es.append((f'w{k}_big', 1 << 34))
            E = b.choice(['', '', '__attribute__((packed))']); x = r.randrange(len(es)); how = r.choice(['', 'one', 'high', 'high', 'neg', 'more', 'swap', 'name', 'pack'])
            if how in ('one', 'high', 'neg'): n, v = es[x]; es[x] = (n, {'one': v + 1, 'high': v + (1 << 32) if big else v + 256, 'neg': -v}[how])
            if how == 'more': es.append((f'w{k}_more', es[x][1]))
            if how == 'swap': es[0], es[1] = es[1], es[0]
            if how == 'name': (a, v), (c, w) = es[:2]; es[:2] = [(c, v), (a, w)]
            if how == 'pack' and not big: E = '__attribute__((packed))'
            U['aen'] = (f'en{u}', es, E, r.random() < .5)
            if not s.keep(f'en{u}'): del U['aen']
        U['tests'] = [n for n in [f't{u}_{i}{x}' for i, x in enumerate(r.sample(['', '_', '__a', '_test_', 'X_y'], r.choice([0, 0, 0, 1, 2, 4])))] if s.keep(n)]
        U['extra'] = [e.i for e in s.ents if r.random() < .25 and s.keep(f'see{u}.{e.name}')]
        return U

    def tests(s): return [t for U in s.units for t in U['tests']]

    # ---- what has to be visible
    def need(s, t, vis, byval=True):
        k = t[0]
        if k in ('qual', 'ltd'): s.need(t[2], vis, byval)
        elif k == 'ptr': s.need(t[1], vis, False)
        elif k == 'arr': s.need(t[1], vis, True)
        elif k == 'func':
            for p in [t[1]] + t[2]: s.need(p, vis, True)
        elif k == 'anon':
            for m in t[2]: s.need(m['t'], vis, True)
        elif k == 'ent':
            e = s.ents[t[1]]
            if e.kind == 'enum': vis.add(e.i)
            elif e.kind == 'typedef':
                vis.add(e.i)
                if e.t[0] != 'aenum': s.need(e.t, vis, byval)
            elif byval and e.i not in vis:
                vis.add(e.i)
                for m in e.members: s.need(m['t'], vis, True)

    # ---- C text
    def tag(s, t): return f'L{t[4]}' if t[5] else ''
    def dcl(s, t, d, tags=True):
        k = t[0]
        if k == 'base': return f'{BASES[t[1]][0]} {d}'
        if k == 'void': return f'void {d}'
        if k == 'self': return f'{t[1]} L{t[2]} {d}' if tags else f'void {d}'
        if k == 'ltd': return f'{t[1]} {d}' if tags else s.dcl(t[2], d, False)
        if k == 'ent': e = s.ents[t[1]]; return (f'{e.name} {d}' if e.kind == 'typedef' else f'{e.kind} {e.name} {d}')
        if k == 'qual':
            if t[2][0] == 'ptr': return s.dcl(t[2][1], s.par(t[2][1], f'*{qtxt(t[1])} {d}'), tags)
            return f'{qtxt(t[1])} {s.dcl(t[2], d, tags)}'
        if k == 'ptr': return s.dcl(t[1], s.par(t[1], f'*{d}'), tags)
        if k == 'arr': return s.dcl(t[1], f'{d}[{t[2] if t[2] >= 0 else ""}]', tags)
        if k == 'func': return s.dcl(t[1], f'{d}({s.params(t)})')
        if k == 'anon': return f'{t[1]} {t[3]} {s.tag(t) if tags else ""} {{ {s.body(t[2], tags)} }} {d}'
    def par(s, t, d): return f'({d})' if t[0] in ('arr', 'func') else d
    def params(s, t, names=None):
        if not t[2]: return 'void'
        return ', '.join(s.dcl(p, names[i] if names else '') for i, p in enumerate(t[2])) + (', ...' if t[3] else '')
    def body(s, ms, tags=True):
        return ' '.join(m['skip'] + s.dcl(m['t'], m['name'] or '', tags) + (f':{m["bits"]}' if m['bits'] else '') + m['al'] + ';' + m.get('post', '') for m in ms)
    def define(s, e):
        if e.kind == 'typedef':
            if e.t[0] == 'aenum': return f'typedef enum {e.attr} {{ {", ".join(f"{n} = {x}" for n, v, x in e.enums)} }} {e.name};'
            return f'typedef {s.dcl(e.t, e.name)};'
        if e.kind == 'enum': return f'enum {e.attr} {e.name} {{ {", ".join(f"{n} = {x}" for n, v, x in e.enums)} }};'
        return f'{e.kind} {e.attr} {e.name} {{ {s.body(e.members)} }};'
    def header(s):
        o = ['#ifndef T_H', '#define T_H']
        o += [f'{e.kind} {e.name};' for e in s.ents if e.kind in ('struct', 'union')]
        for e in s.ents: o += [f'#ifdef SEE_{e.name}', s.define(e), '#endif']
        return '\n'.join(o + ['#endif', ''])

    # ---- tables of expectations
    def unit_text(s, U, d):
        vis = set(); u = U['i']; path = f'{d}/u{u}.c'
        used = [t for _, t, _ in U['vars']] + [t for _, t in U['exts']] + [v[1] for l in U['locs'] for b in l[1] for v in b[1]] + [v[1] for l in U.get('glocs', []) for v in l[1]]
        used += [t for _, t, _ in U['fns']] + [p for l in U['locs'] for p in l[2]]
        if u == 0: used += [t for W in s.units for _, t in W['exts']]
        for t in used: s.need(t, vis)
        for i in U['extra']: s.need(('ent', i), vis, True)
        x = []; memo = {}; pre = []; cnt = [0]
        def new(): cnt[0] += 1; return f'xt{cnt[0]}'
        def xt(t):
            if t[0] == 'self': return memo[('A', t[2])]
            if key(t) in memo: return memo[key(t)]
            k = t[0]; n = new(); memo[key(t)] = '&' + n; pre.append(f'static const struct xt {n};')
            if k == 'void': x.append(f'static const struct xt {n} = {{X_VOID, .size = -1}};')
            elif k == 'base':
                b = BASES[t[1]]; x.append(f'static const struct xt {n} = {{X_BASE, "{b[1]}", sizeof({b[0]}), METAC_ENC_{b[2]}}};')
            elif k == 'ptr': x.append(f'static const struct xt {n} = {{X_PTR, .size = sizeof(void*), .type = {xt(t[1])}}};')
            elif k == 'arr':
                x.append(f'static const struct xt {n} = {{X_ARR, .size = {"-1" if s.nosize(t) else f"sizeof({s.dcl(t, chr(32), False)})"}, .count = {t[2]}, .type = {xt(t[1])}}};' if not s.has_anon(t) else f'static const struct xt {n} = {{X_ARR, .size = -1, .count = {t[2]}, .type = {xt(t[1])}}};')
            elif k == 'ltd': x.append(f'static const struct xt {n} = {{X_TYPEDEF, "{t[1]}", -1, .type = {xt(t[2])}}};')
            elif k == 'qual': x.append(f'static const struct xt {n} = {{X_QUAL, .size = -1, .quals = {t[1]}, .type = {xt(t[2])}}};')
            elif k == 'func': x.append(f'static const struct xt {n} = {{X_FUNC, .size = -1, .type = {xt(t[1])}, .n = {len(t[2])}, .variadic = {int(t[3])}, .m = {plist(t[2])}}};')
            elif k == 'anon':
                cn = f'XA{t[4]}'
                x.append(f'typedef {t[1]} {t[3]} {{ {s.body(t[2], False)} }} {cn};'); agg(n, t[1], s.tag(t) or None, cn, t[2], 'packed' in t[3])
            elif k == 'ent':
                e = s.ents[t[1]]
                if e.kind == 'enum': en(n, e, f'"{e.name}"', f'enum {e.name}')
                elif e.kind == 'typedef':
                    if e.t[0] == 'aenum':
                        m = new(); en(m, e, '0', e.name); it = '&' + m
                    else: it = xt(e.t)
                    x.append(f'static const struct xt {n} = {{X_TYPEDEF, "{e.name}", -1, .type = {it}}};')
                elif e.i in vis: agg(n, e.kind, e.name, f'{e.kind} {e.name}', e.members, 'packed' in e.attr)
                else: x.append(f'static const struct xt {n} = {{X_DECL_{e.kind[0].upper()}, "{e.name}", -1}};')
            return '&' + n
        def key(t): return ('A', t[4]) if t[0] == 'anon' else tuple(key(y) if isinstance(y, tuple) else tuple(key(z) for z in y) if isinstance(y, list) else y for y in t)
        def plist(ps, names=None):
            if not ps: return '0'
            return '(const struct xm[]){' + ', '.join('{%s, %s}' % (f'"{names[i]}"' if names else '0', xt(p)) for i, p in enumerate(ps)) + '}'
        def en(n, e, nm, cn):
            x.append(f'static const struct xt {n} = {{X_ENUM, {nm}, sizeof({cn}), .n = {len(e.enums)}, .e = (const struct xe[]){{' + ', '.join(f'{{"{a}", (long long){a}}}' for a, _, _ in e.enums) + '}};')
        def agg(n, kind, nm, cn, ms, packed):
            rows = []
            for m in ms:
                t = m['t']; tx = xt(t)
                if m['bits']:
                    b = new(); rt = s.res(t); one = '1' if rt == ('base', 11) else '-1'
                    x.append(f'static long b{b}(void) {{ {cn} s; unsigned char b[sizeof s]; memset((void*)&s, 0, sizeof s); s.{m["name"]} = {one}; memcpy(b, &s, sizeof s); return first_bit(b, sizeof b); }}')
                    rows.append(f'{{"{m["name"]}", {tx}, 0, {m["bits"]}, b{b}}}')
                elif m['name'] is None:
                    f = next(a['name'] for a in t[2] if not a['bits'] and a['name'])
                    rows.append(f'{{0, {tx}, offsetof({cn}, {f}) - offsetof(XA{t[4]}, {f})}}')
                else: rows.append(f'{{"{m["name"]}", {tx}, offsetof({cn}, {m["name"]}), .align = {m["aln"] if m.get("aln") == 32 else 0}}}')
            va = '0'
            if ms and not any(s.isflex(('ent', e.i)) for e in s.ents if e.name == nm):
                va = 'v' + n; abi = int(s.odd_abi(packed, ms))
                x.append(f'static int w{n}(metac_entry_t *e, {cn} *p, ...) {{ struct va_list_container c; unsigned char o[sizeof({cn}) + 1]; memset(o, 0xA5, sizeof o); va_start(c.parameters, p); va_arg(c.parameters, int); int k = metac_entry_struct_va_arg(e, &c, o), z = va_arg(c.parameters, int); va_end(c.parameters); return k && z == 77 && same{n}(p, ({cn}*)o) && o[sizeof({cn})] == 0xA5 ? 0 : {2 if abi else 1} + (__alignof__({cn}) > 8 ? {0 if abi else 1} : 0); }}')
                cmp = [f'!memcmp((const void*)&a->{m["name"]}, (const void*)&b->{m["name"]}, sizeof a->{m["name"]})' for m in ms if m['name'] and not m['bits'] and not s.padded(m['t'])] + [f'a->{m["name"]} == b->{m["name"]}' for m in ms if m['bits']]
                x[-1:] = [f'static int same{n}({cn} *a, {cn} *b) {{ return {" && ".join(cmp) or "1"}; }}', x[-1]]
                x.append(f'static int {va}(metac_entry_t *e) {{ {cn} s; unsigned char *p = (void*)&s; for (int i = 0; i < sizeof s; ++i) p[i] = 1 + i * 7; return w{n}(e, &s, 5, s, 77); }}')
            x.append(f'static const struct xt {n} = {{X_{kind.upper()}, {chr(34) + nm + chr(34) if nm else 0}, sizeof({cn}), .n = {len(ms)}, .m = (const struct xm[]){{{", ".join(rows) or "{0}"}}}, .va = {va}}};')
        body = []; calls = []
        W = lambda line, ext: f'(struct xwhere){{"{path}", "{path}", {line}, {int(ext)}}}'
        head = [f'#define SEE_{e.name}' for e in s.ents if e.i in vis] + [f'#include "{d}/t.h"', '#include "metac/reflect.h"', '#ifndef _METAC_OFF_', '#include "walk.h"', f'#include "{d}/x{u}.h"', '#endif']
        if U['tests']: head.append('#include "metac/test.h"')
        head.append('#define USED(x) __asm__ volatile("" : : "r"(&x) : "memory")')
        if u == 0 and s.module: head.append('METAC_MODULE(METAC_MODULE_NAME);')
        if u == 0 and s.db: head.append('METAC_DB_LINK();')
        ln = lambda: len(head) + len(body) + 1
        sz = lambda t, nm: f'sizeof({nm})' if not s.isflex(t) and not s.nosize(t) else '-1'
        for nm, t, st in U['vars']:
            calls.append(f'chk_var("{nm}", {xt(t)}, {sz(t, nm)}, METAC_GSYM_LINK_ENTRY({nm}), {W(ln(), not st)});')
            body.append(f'{"static " if st else ""}{s.dcl(t, nm)}; METAC_GSYM_LINK({nm});')
        if 'aen' in U:
            nm, es, at, st = U['aen']; n = new(); pre.append(f'static const struct xt {n};'); lo = min(v for _, v in es); hi = max(v for _, v in es)
            size = next(z for z in ([1, 2, 4, 8] if at else [4, 8]) if (lo >= -1 << 8 * z - 1 and hi < 1 << 8 * z - 1 if lo < 0 else hi < 1 << 8 * z))
            x.append(f'static const struct xt {n} = {{X_ENUM, 0, {size}, .n = {len(es)}, .e = (const struct xe[]){{' + ', '.join(f'{{"{a}", {v}}}' for a, v in es) + '}};')
            calls.append(f'chk_var("{nm}", &{n}, sizeof({nm}), METAC_GSYM_LINK_ENTRY({nm}), {W(ln(), not st)});')
            body.append(f'{"static " if st else ""}enum {at} {{ {", ".join(f"{a} = {v}" + "ll" * (abs(v) > 2**31 - 1) for a, v in es)} }} {nm}; METAC_GSYM_LINK({nm});')
        if u == 0: body += [s.dcl(t, nm) + ';' for Wn in s.units for nm, t in Wn['exts']]
        for nm, t in U['exts']:
            calls.append(f'chk_var("{nm}", {xt(t)}, {sz(t, nm)}, METAC_GSYM_LINK_ENTRY({nm}), (struct xwhere){{"{d}/u{0 if s.cc == "clang" else u}.c"}});')
            body.append(f'extern {s.dcl(t, nm)}; METAC_GSYM_LINK({nm});')
        for nm, t, st in U['fns']:
            names = [f'p{i}' for i in range(len(t[2]))]
            calls.append(f'chk_fn("{nm}", {xt(t[1])}, {len(t[2])}, {plist(t[2], names)}, {int(t[3])}, METAC_GSYM_LINK_ENTRY({nm}), {W(ln(), not st)});')
            ret = '' if s.res(t[1])[0] == 'void' else f'static {s.dcl(t[1], "r")}; return r;'
            body.append(f'{"static " if st else ""}{s.dcl(t[1], f"{nm}({s.params(t, names)})")} {{ {ret} }} METAC_GSYM_LINK({nm});')
        for g, vs in U.get('glocs', []):
            for nm, t, st in vs: calls.append(f'chk_var("{nm}", {xt(t)}, {sz(t, nm)}, METAC_ENTRY_FROM_DECLLOC({g}, {nm}), {W(ln(), not st)});')
            body.append(f'WITH_METAC_DECLLOC({g}, ' + ' '.join(f'{"static " if st else ""}{s.dcl(t, nm)};' for nm, t, st in vs) + ')')
            for nm, t, st in vs:
                if st: body.append(f'void use_{nm}(void) {{ USED({nm}); }}')
        for nm, L, ps in U['locs']:
            names = [f'p{i}' for i in range(len(ps))]
            body.append(f'void {nm}({s.params((0, 0, ps, False), names)}) {{')
            for k, (deep, vs, tds) in enumerate(L):
                body.append('{' * (deep + 1)); body += [f'typedef {s.dcl(t[2], t[1])};' for t in tds]
                if not vs: body.append('int y; y = 1;')
                else:
                    w = W(ln(), False)
                    body.append(f'WITH_METAC_DECLLOC(d{k}, ' + ' '.join(f'{"static " if st else ""}{s.dcl(t, v)};' for v, t, st in vs) + ')')
                    body += [f'USED({v});' for v, t, st in vs]
                    body += ['#ifndef _METAC_OFF_'] + [f'chk_var("{v}", {xt(t)}, {sz(t, v)}, METAC_ENTRY_FROM_DECLLOC(d{k}, {v}), {w});' for v, t, st in vs] + ['#endif']
                body.append('}' * (deep + 1))
            body.append('}')
            args = ', '.join(f'*({s.dcl(("ptr", p), "")})zero' for p in ps)
            calls.append(f'{{ static char zero[65536] __attribute__((aligned(64))); {nm}({args}); }}')
        used = [nm for nm, t, st in U['vars'] + U['fns'] if st] + ([U['aen'][0]] if 'aen' in U and U['aen'][3] else [])
        if used: body.append(f'void use{u}(void) {{ ' + ' '.join(f'USED({n});' for n in used) + ' }')
        body += [f'METAC_START_TEST({t}) {{ }} END_TEST' for t in U['tests']]
        if u == 0:
            body += [f'void check{V["i"]}(void);' for V in s.units]
        body += ['#ifndef _METAC_OFF_', f'void check{u}(void) {{'] + ([] if not (u == 0 and s.db) else ['chk_db(METAC_DB_LINK_PTR());']) + calls + ['}']
        if u == 0: body += ['int main() { ' + ' '.join(f'check{V["i"]}();' for V in s.units) + ' return chk_done(); }', '#elif !defined NO_MAIN', 'int main() { return 0; }']
        body += ['#endif']
        return '\n'.join(head + body) + '\n', '\n'.join(pre + x) + '\n'
    def nosize(s, t):  # arrays without elements: the library doesn't give their size
        t = s.res(t)
        return t[0] == 'arr' and (t[2] <= 0 or s.nosize(t[1]))
    def has_anon(s, t):
        if t[0] == 'anon': return True
        return any(s.has_anon(y) for y in t[1:] if isinstance(y, tuple)) or any(s.has_anon(z) for y in t[1:] if isinstance(y, list) for z in y if isinstance(z, tuple))
    def padded(s, t):
        t = s.res(t)
        if t[0] == 'arr': return s.padded(t[1])
        return t[0] in ('ent', 'anon') and not (t[0] == 'ent' and s.ents[t[1]].kind == 'enum') or t == ('base', 14) or t == ('base', 17)
    def odd_abi(s, packed, ms):  # has something that isn't passed like bytes
        def odd(t):
            t = s.res(t)
            if t[0] == 'anon' and 'packed' in t[3] or t[0] == 'ent' and s.ents[t[1]].kind in ('struct', 'union') and 'packed' in s.ents[t[1]].attr: return True
            if t[0] == 'base': return BASES[t[1]][2] in ('float', 'complex_float') or '__int128' in BASES[t[1]][0]
            if t[0] == 'arr': return not t[2] or odd(t[1])
            if t[0] == 'anon': return any(m['skip'] or m.get('post') or odd(m['t']) for m in t[2])
            if t[0] == 'ent' and s.ents[t[1]].kind in ('struct', 'union'): return not s.ents[t[1]].members or any(m['skip'] or m.get('post') or odd(m['t']) for m in s.ents[t[1]].members)
            return False
        return packed or any(m['skip'] or m.get('post') or odd(m['t']) for m in ms)
    def files(s, d):
        f = {'t.h': s.header()}
        for U in s.units: f[f'u{U["i"]}.c'], f[f'x{U["i"]}.h'] = s.unit_text(U, d)
        return f
