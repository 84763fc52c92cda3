#!/usr/bin/env python3
"""seeded simulation of the metac generator (the real program on a simulated Go runtime), properties P17 to P19.
 gensim.py PROP BUILD_DIR --tier quick|thorough --seed N --evidence F --replay-dir D --known F [--replay F] [-v] [--first S --count N]"""
import argparse, hashlib, json, multiprocessing, os, random, re, resource, shutil, subprocess, sys, tempfile, time, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog
HERE = os.path.dirname(os.path.abspath(__file__))
A = None  # arguments
REPO = os.environ.get('METAC_REPO', '/repo')

def run(c, env=None, timeout=60, **k):
    e = {x: os.environ[x] for x in ('PATH', 'HOME', 'TMPDIR', 'LANG') if x in os.environ}; e.update(env or {})
    try: return subprocess.run(c, stdout=k.pop('stdout', subprocess.PIPE), stderr=subprocess.PIPE, env=e, timeout=timeout, **k)
    except subprocess.TimeoutExpired as x: return subprocess.CompletedProcess(c, 124, x.stdout or b'', b'timeout')
def h(b): return hashlib.sha1(b if isinstance(b, bytes) else b.encode()).hexdigest()[:16]
def metac(args, order, plan='', cwd=None, timeout=60):
    """one run of the generator: exit code, output, messages, log of its calls"""
    r, w = os.pipe(); os.set_inheritable(w, True)
    env = {'METAC_SIM_SEED': str(order), 'METAC_SIM_LOG': str(w), 'METAC_SIM_IO': plan, 'GOMAXPROCS': '2', 'GOGC': '400'}
    import threading; log = []
    t = threading.Thread(target=lambda: log.append(os.fdopen(r, 'rb').read())); t.start()
    p = run([A.build + '/metac', 'run'] + args, env, timeout, pass_fds=[w], cwd=cwd or '/'); os.close(w); t.join()
    return p.returncode, p.stdout, p.stderr.decode(errors='replace'), log[0].decode()
class Stop(Exception): pass
def bad(kind, text): raise Stop(kind, text)

def write(d, p, cwd='/'):
    os.makedirs(d, exist_ok=True)
    for n, t in p.files(d).items(): open(f'{d}/{n}', 'w').write(t)
    us = [f'{d}/u{U["i"]}.c' for U in p.units]
    p.mod = [f'-DMETAC_MODULE_NAME={p.module}'] if p.module else []
    r = run([p.cc, '-w', p.opt, '-g3', f'-gdwarf-{p.dwarf}', '-D_METAC_OFF_', f'-I{REPO}/include', f'-I{HERE}/fake', *p.mod, *us, '-o', f'{d}/meta'], cwd=cwd)
    if r.returncode: bad('harness', 'the program does not compile: ' + r.stderr.decode()[:500])
    return us
def elf(d, mod='metac-reflect-gen'): return [mod, '-M', f'{REPO}/modules', '-s', 'path_type: elf', '-s', f'path: {d}/meta']
def dump(kind, d, to=''):
    s = f'{d}/dump.{kind}{"f" if to else ""}.spec'
    open(s, 'w').write('apiVersion: github.com/aodinokov/metac/v1\nkind: goTemplate\nmetadata:\n  name: dump\nspec:\n  settings:\n    path: must_override\n  template: |\n    {{- dwarfTo%s (dwarfFromElf .path) %s -}}\n' % (kind.capitalize() + ('File' if to else ''), json.dumps(to) if to else ''))
    return ['-f', s, '-s', f'path: {d}/meta']

# ---- P17: what is generated describes the program, in whatever order maps are visited
def p17(case, d, st):
    p = prog.Prog(case['seed'], case['drop']); cwd = random.Random(case['seed']).choice(['/', d, os.path.dirname(d)]); us = write(d, p, cwd); st['programs'] += 1; ref = None
    for o in case['orders']:
        rc, out, err, _ = metac(elf(d), o, cwd=cwd); st['runs'] += 1
        if rc: bad('exit', f'the generator fails with {rc} (map order {o}): {err[-400:]}')
        if ref is None: ref = out; st['out'].append(h(out.replace(d.encode(), b'')))
        elif out != ref: bad('order', f'other tables with map order {o}: ' + first_diff(ref, out))
    for k in case['routes']:
        if k == 'unstructured':
            open(f'{d}/u.spec', 'w').write('apiVersion: github.com/aodinokov/metac/v1\nkind: goTemplate\nmetadata:\n  name: dump\nspec:\n  settings:\n    path: must_override\n  template: |\n    {{- $d := dwarfFromElf .path -}}{{- if eq (dwarfToJson $d) (dwarfToJson (dwarfFromUnstructured (dwarfToUnstructured $d))) -}}same{{- else -}}different{{- end -}}\n')
            rc, out, err, _ = metac(['-f', f'{d}/u.spec', '-s', f'path: {d}/meta'], case['orders'][-1], cwd=cwd); st['runs'] += 1; st['route_' + k] = st.get('route_' + k, 0) + 1
            if rc or out.strip() != b'same': bad('route', f'the data differs after the conversion to plain tables and back: exit {rc} {out[:60]!r} {err[-300:]}')
            continue
        rc, out, err, _ = metac(dump(k, d), case['orders'][-1], cwd=cwd); st['runs'] += 1; st['route_' + k] = st.get('route_' + k, 0) + 1
        if rc: bad('exit', f'the export as {k} fails with {rc}: {err[-400:]}')
        open(f'{d}/dump.{k}', 'wb').write(out)
        rc, out, err, _ = metac(['metac-reflect-gen', '-M', f'{REPO}/modules', '-s', f'path_type: {k}', '-s', f'path: {d}/dump.{k}'], case['orders'][-1] + 7, cwd=cwd); st['runs'] += 1
        if rc: bad('exit', f'the generator fails with {rc} on the export as {k}: {err[-400:]}')
        if out != ref: bad('route', f'other tables through {k}: ' + first_diff(ref, out))
    open(f'{d}/tab.c', 'wb').write(ref)
    r = run([p.cc, '-w', f'-I{REPO}/include', '-I' + HERE, f'-I{HERE}/fake', *p.mod, *us, f'{d}/tab.c', f'{A.build}/lib.a', '-lm', '-o', f'{d}/prog'])
    if r.returncode: bad('compile', 'the tables do not compile: ' + r.stderr.decode(errors='replace')[:600])
    r = run([f'{d}/prog'], cwd=d, timeout=30); o = r.stdout.decode(errors='replace').split('\n')
    m = re.match(r'(OK|FAILED) (\d+) checks', o[-2] if len(o) > 1 else '')
    if not m: bad('crash', f'the program ends with {r.returncode}: ' + ' '.join(o)[-300:])
    st['checked'] += int(m.group(2))
    b = [l[4:] for l in o if l.startswith('BAD ')]
    for l in b:
        if not known('P17', l): bad(l.split(':')[0].rsplit(' ', 1)[0], l)
        st['known'].append(known('P17', l))
    if p.tests():
        rc, out, err, _ = metac(elf(d, 'metac-test-gen'), case['orders'][0], cwd=cwd); st['runs'] += 1
        if rc: bad('exit', f'the test generator fails with {rc}: {err[-400:]}')
        open(f'{d}/tests.c', 'wb').write(out)
        r = run([p.cc, '-w', '-D_METAC_OFF_', '-DNO_MAIN', f'-I{REPO}/include', f'-I{HERE}/fake', *p.mod, *us, f'{d}/tests.c', '-o', f'{d}/tests'])
        if r.returncode: bad('compile', 'the generated test program does not compile: ' + r.stderr.decode(errors='replace')[:600])
        r = run([f'{d}/tests'], timeout=30); st['test_programs'] = st.get('test_programs', 0) + 1
        got = sorted(r.stdout.decode().split()); want = sorted(p.tests())
        if got != want or r.returncode: bad('tests', f'tests {want} of the program, {got} are run')
def first_diff(a, b):
    for x, y in zip(a.split(b'\n'), b.split(b'\n')):
        if x != y: return f'{x.decode(errors="replace").strip()[:120]!r} / {y.decode(errors="replace").strip()[:120]!r}'
    return f'{len(a)} / {len(b)} bytes'
def case17(seed):
    r = random.Random(f'p17/{seed}')
    return {'prop': 'P17', 'seed': seed, 'drop': [], 'orders': [r.randrange(1, 1 << 40) for _ in range(3 if A.tier == 'quick' else 4)], 'routes': [k for k in ('yaml', 'json', 'unstructured') if r.random() < .2]}

# ---- P18: everything or a failure
ERR = {'O': [2, 13, 24, 5, 4095 * 0 + 40], 'R': [5, 12, 21, 9], 'W': [28, 5, 32, 27], 'S': [13, 5, 12, 40], 'D': [5, 12, 13], 'C': [2, 13, 20, 5]}
def rand_fault(r, ops, kill=False, absent=True):
    n = {k: ops.count(k) for k in ERR}; k = r.choice([x for x in 'OORRRRWSSDC' if n[x]]); o = r.randrange(n[k])
    if kill and r.random() < .5: return f'{k}:{o}:k'
    if k in 'RW' and r.random() < .35: return f'{k}:{o}:s{r.choice([1, 2, 7, 64, 300, 1000, 4096])}'
    return f'{k}:{o}:{r.choice([e for e in ERR[k] if absent or e != 2])}'
def case18(seed):
    r = random.Random(f'p18/{seed}'); how = r.choice(['elf', 'elf', 'elf', 'yaml', 'json', 'dumpyaml', 'dumpjson', 'fileyaml', 'filejson', 'tests', 'make', 'make', 'torn', 'tornjson', 'tornsec', 'workdir', 'full'])
    return {'prop': 'P18', 'seed': seed, 'drop': [], 'how': how, 'order': r.randrange(1, 1 << 40), 'pick': r.randrange(1 << 30), 'faults': None}
SECTIONS = ['.debug_info', '.debug_info', '.debug_abbrev', '.debug_str', '.debug_line', '.debug_line_str']
def cut_section(src, dst, cuts):
    """the file with sections that end earlier"""
    cuts = {c.split('@')[0]: float(c.split('@')[1]) for c in cuts}
    b = bytearray(open(src, 'rb').read()); off, = struct.unpack_from('<Q', b, 40); num, strx = struct.unpack_from('<HH', b, 60)
    sec = lambda i: struct.unpack_from('<IIQQQQ', b, off + 64 * i); so = sec(strx)[4]
    for i in range(num):
        n = sec(i); e = b.index(0, so + n[0])
        if b[so + n[0]:e].decode() in cuts: struct.pack_into('<Q', b, off + 64 * i + 32, int(n[5] * cuts[b[so + n[0]:e].decode()]))
    open(dst, 'wb').write(b)
def p18(case, d, st):
    p = prog.Prog(case['seed'], case['drop'], small=True); write(d, p); st['programs'] += 1; how = case['how']; o = case['order']; cwd = d; file = None
    def exported(): return open(file, 'rb').read() if file and os.path.exists(file) else b''
    def fresh():
        if file and os.path.exists(file): os.remove(file)
    a = elf(d)
    if how in ('yaml', 'json', 'tornjson'):
        fmt = how[-4:]; rc, out, err, _ = metac(dump(fmt, d), o)
        if rc: bad('exit', f'the export as {fmt} fails with {rc}: {err[-300:]}')
        open(f'{d}/dump.{fmt}', 'wb').write(out); a = ['metac-reflect-gen', '-M', f'{REPO}/modules', '-s', f'path_type: {fmt}', '-s', f'path: {d}/dump.{fmt}']
    elif how.startswith('dump'): a = dump(how[4:], d)
    elif how.startswith('file'): file = f'{d}/exported'; a = dump(how[4:], d, file)
    elif how == 'tests': a = elf(d, 'metac-test-gen')
    elif how == 'workdir': os.makedirs(f'{d}/in/er', exist_ok=True); a = elf(d)[:-1] + ['path: ../../meta', '-C', f'{d}/in/er']
    rc, ref, err, log = metac(a, o, cwd=cwd); st['runs'] += 1; ops = log[0::2]
    if rc: bad('exit', f'the generator fails with {rc} without any fault: {err[-300:]}')
    rc2, ref2, _, log2 = metac(a, o, cwd=cwd); st['runs'] += 1
    if (rc2, ref2, log2) != (rc, ref, log): bad('harness', 'two runs of one seed differ')
    full = exported()
    if file and (not full): bad('exit', 'exit 0 but nothing is exported')
    st['out'].append(h(ref.replace(d.encode(), b'')))
    r = random.Random(f'faults/{case["pick"]}')
    fs = case['faults']
    if fs is None:
        fs = []
        for _ in range(12 if A.tier == 'quick' else 24):
            if how in ('torn', 'tornjson'): fs.append(r.randrange(os.path.getsize(a[-1][6:])))
            elif how == 'tornsec': fs.append([f'{r.choice(SECTIONS)}@{r.random() if r.random() < .7 else 1 - r.random() / 20:.6f}'])
            elif how == 'make': fs.append([[rand_fault(r, ops, True) for _ in range(r.choice([0, 1, 1, 2]))] for _ in range(r.choice([1, 2, 3]))])
            elif how == 'full': fs = [['full']]; break
            elif how == 'workdir' and r.random() < .3: fs.append(['nodir'])
            else: fs.append([rand_fault(r, ops) for _ in range(r.choice([1, 1, 2, 4]))])
    for f in fs:
        case['at'] = f
        if how == 'make': make18(f, d, a, o, ref, st); continue
        st['runs'] += 1; only_short = False; aa = a; plan = ''
        if how == 'tornsec':
            cut_section(f'{d}/meta', f'{d}/torn', f); aa = a[:-1] + [f'path: {d}/torn']; st['fault_torn'] = st.get('fault_torn', 0) + 1
        elif how in ('torn', 'tornjson'):
            data = open(a[-1][6:], 'rb').read().rstrip()
            open(f'{d}/torn', 'wb').write(data[:f]); aa = a[:-1] + [f'path: {d}/torn']; st['fault_torn'] = st.get('fault_torn', 0) + 1
        elif f == ['nodir']: aa = a[:-1] + [f'{d}/in/no'];  st['fault_nodir'] = st.get('fault_nodir', 0) + 1
        elif how != 'full': plan = ','.join(f)
        if how == 'full':
            st['fault_' + f[0]] = st.get('fault_' + f[0], 0) + 1
            with open('/dev/full', 'w') as w: rc = run([A.build + '/metac', 'run'] + a, {'METAC_SIM_SEED': str(o)}, stdout=w).returncode
            if not rc: bad('lost', 'exit 0 when the output goes to a full disk')
            continue
        fresh(); rc, out, err, log = metac(aa, o, plan, cwd=cwd)
        hits = log[1::2]; count(st, log, plan)
        if rc == 124: bad('hang', f'no end within a minute with {f}')
        if rc == 0 and out != ref: bad('silent', f'exit 0 with {f} but the output differs: ' + first_diff(ref, out))
        if rc == 0 and exported() != full: bad('silent', f'exit 0 with {f} but the exported file differs: ' + first_diff(full, exported()))
        if rc and 'E' not in hits and not how.startswith('torn') and f != ['nodir']: bad('exit', f'exit {rc} with nothing but short transfers {f}: {err[-300:]}')
def count(st, log, plan):
    for i in range(0, len(log), 2):
        if log[i + 1] != '.': k = 'fault_' + {'OE': 'failed_open', 'SE': 'failed_stat', 'DE': 'failed_readdir', 'CE': 'failed_chdir', 'SK': 'killed', 'DK': 'killed', 'CK': 'killed', 'RE': 'failed_read', 'WE': 'failed_write', 'Rs': 'short_read', 'Ws': 'short_write', 'OK': 'killed', 'RK': 'killed', 'WK': 'killed'}[log[i:i + 2]]; st[k] = st.get(k, 0) + 1
    st['traces'].append(h(log + plan)); st['ops'] += len(log) // 2
def make18(history, d, a, o, ref, st):
    """builds with the project's own rule; some die; the last one meets no faults"""
    t = f'{d}/out.c'
    for x in ('out.c', 'out.c.tmp', 'log'):
        if os.path.exists(f'{d}/{x}'): os.remove(f'{d}/{x}')
    open(f'{d}/metac.sh', 'w').write(f'#!/bin/sh\nexec {A.build}/metac "$@" 3>>{d}/log\n'); os.chmod(f'{d}/metac.sh', 0o755)
    os.utime(f'{d}/meta', (1e9, 1e9)); os.utime(f'{d}/metac.sh', (1e9, 1e9)); os.utime(f'{d}/u0.c', (1e9, 1e9))
    open(f'{d}/Makefile', 'w').write(f'METAC={d}/metac.sh\nall: {d}/out.c\ninclude {REPO}/mk/metac.mk\nIN-out.c=meta\nMETACFLAGS-out.c=run metac-reflect-gen -M {REPO}/modules $(METAC_OVERRIDE_IN_TYPE)\n$(call metac_target,{d},out.c)\n')
    for k, f in enumerate(history + [[]]):
        r = run(['make', '-s', '-f', f'{d}/Makefile', 'all'], {'METAC_SIM_SEED': str(o), 'METAC_SIM_IO': ','.join(f), 'METAC_SIM_LOG': '3'}, cwd=d); st['runs'] += 1
        if os.path.exists(f'{d}/log'):
            count(st, open(f'{d}/log').read(), ','.join(f)); os.remove(f'{d}/log')
        last = k == len(history)
        if last and r.returncode: bad('build', f'the build still fails without faults after {history}: {r.stderr.decode()[-300:]}')
        if r.returncode == 0:
            got = open(t, 'rb').read() if os.path.exists(t) else b''
            if got != ref: bad('stale', f'build {k + 1} of {history + [[]]} succeeds with an incomplete file: ' + first_diff(ref, got))

# ---- P19: settings and modules of a run
KEYS = ['path', 'a', 'b', 'c', 'deep_er', 'x-1', 'Y']
def rand_val(r, depth=0):
    k = r.choice(['s', 's', 'n', 'b', 'l', 'z'] + (['t'] * 5 if depth < 3 else []))
    if k == 's': return r.choice(['', 'x', 'yes', '1', 'true', 'null', 'a b', 'ü"\\\'', '# no', '{', 'line\nline', '--file:x']) + str(r.randrange(9))
    if k == 'n': return r.choice([0, -1, 7, 65536, 2 ** 31, -2 ** 31 - 1, 2 ** 53, 1.5, -0.25])
    if k == 'b': return r.random() < .5
    if k == 'z': return None
    if k == 'l': return [rand_val(r, 3) for _ in range(r.randrange(3))]
    return {r.choice(KEYS): rand_val(r, depth + 1) for _ in range(r.randrange(4))}
def near(r, base):
    """an override made from what is there: one or two places at any depth"""
    o = {}
    for k in r.sample(sorted(base), min(len(base), r.choice([1, 1, 2]))):
        v = base[k]
        o[k] = near(r, v) if isinstance(v, dict) and v and r.random() < .85 else r.choice([rand_val(r, 1), rand_val(r, 5), None])
    if r.random() < .3: o[r.choice(KEYS)] = rand_val(r, 2)
    return o
def deep(r, n): return {k: deep(r, n - 1) if n and r.random() < .6 else rand_val(r, 4) for k in r.sample(KEYS, r.choice([1, 2, 3]))}
def merged(base, over):
    o = dict(base)
    for k, v in over.items(): o[k] = merged(o[k], v) if isinstance(v, dict) and isinstance(o.get(k), dict) else v
    return o
def to_yaml(r, v, ind=0):
    """block style text of a table"""
    if not v: return ' ' * ind + '{}\n'
    t = ''
    for k in r.sample(list(v), len(v)):
        x = v[k]
        if isinstance(x, dict) and x and r.random() < .7: t += ' ' * ind + f'{k}:\n' + to_yaml(r, x, ind + 2)
        else: t += ' ' * ind + f'{k}: {json.dumps(x, ensure_ascii=False)}\n'
    return t
def case19(seed):
    r = random.Random(f'p19/{seed}')
    return {'prop': 'P19', 'seed': seed, 'drop': [], 'order': r.randrange(1, 1 << 40), 'pick': r.randrange(1 << 30), 'faults': None}
def setup19(case, d):
    """a tree of modules, the arguments of a run and what it has to say (None: it has to fail)"""
    r = random.Random(f'tree/{case["seed"]}'); drop = case['drop']
    def on(n): return n not in drop
    paths = [f'p{i}' for i in range(r.choice([1, 1, 2, 2, 3, 4]))]; r.shuffle(paths)
    name = r.choice(['m', 'mod-ule', 'x.y']); incs = r.sample(['ia', 'ib', 'ic'], r.choice([0, 0, 1, 2])); ok = True; chosen = None; tree = {}
    use_f = r.choice(['', '', '', 'other.yaml', 'byfile']); fname = 'other.yaml' if use_f else 'module.yaml'
    def spec(kind, settings, tag, inc, tpl):
        t = f'apiVersion: github.com/aodinokov/metac/v1\nkind: {kind}\nmetadata:\n  name: {tag}\nspec:\n'
        if inc: t += '  include:\n' + ''.join(f'  - {i}\n' for i in inc)
        t += '  settings:\n' + to_yaml(r, settings, 4) + '  template: |\n    ' + tpl + '\n'
        return t
    base = r.random() < .3  # the module has a definition that its own templates replace
    body = lambda tag: (f'{{{{- define "own.{name}" -}}}}default{{{{- end -}}}}' if base else '') + f'{{{{ dict "who" "{tag}" "set" . "own" (include "own.{name}" .)' + ''.join(f' "{i}" (include "inc.{i}" .)' for i in incs) + ' | toJson }}'
    state = {}
    def mod(p, n, kinds):
        k = r.choice(kinds)
        if k == 'none': return None
        return k
    cand = {}
    for p in paths:
        k = mod(p, name, ['none', 'ok', 'ok', 'ok', 'kind', 'dir'])
        if not on(f'{p}/{name}'): k = 'none'
        st = deep(r, r.randrange(2, 7)) if r.random() < .4 else {x: rand_val(r, 1) for x in r.sample(KEYS, r.randrange(5))}
        if k == 'dir': tree[f'{p}/{name}/readme'] = 'x'
        elif k in ('ok', 'kind'):
            kind = 'goTemplate' if k == 'ok' else r.choice(['starlark', ''])
            tree[f'{p}/{name}/module.yaml'] = spec(kind, st, p, incs, body(p))
            other = r.random() < .8
            st2 = {x: rand_val(r, 1) for x in r.sample(KEYS, r.randrange(5))}
            if other: tree[f'{p}/{name}/other.yaml'] = spec('goTemplate', st2, p, incs, body(p + '.other'))
            tpl = r.random() < .85; own = f'own {p}' if tpl else 'default' if base else None
            if tpl: tree[f'{p}/{name}/templates/own.tpl'] = f'{{{{- define "own.{name}" -}}}}own {p}{{{{- end -}}}}'
            elif r.random() < .3: tree[f'{p}/{name}/templates'] = 'not a folder'
            cand[p] = (k, st, st2 if other else None, own)
    if use_f == 'byfile':
        q = [p for p in paths if p in cand and cand[p][2] is not None]
        if q: chosen = r.choice(q); settings = cand[chosen][2]; who = chosen + '.other'
        else: use_f = ''; fname = 'module.yaml'
    if use_f != 'byfile':
        for p in paths:
            if p in cand and cand[p][0] == 'ok': chosen = p; break
        if chosen: settings = cand[chosen][2] if use_f else cand[chosen][1]; who = chosen + ('.other' if use_f else '')
    want = {'who': who, 'own': cand[chosen][3]} if chosen and settings is not None and cand[chosen][3] else None
    for i in incs:
        got = None
        for p in paths:
            k = r.choice(['none', 'ok', 'ok', 'notpl', 'kind'])
            if not on(f'{p}/{i}') or k == 'none': continue
            tree[f'{p}/{i}/module.yaml'] = spec('goTemplate' if k != 'kind' else 'starlark', {}, i, [], 'x')
            if k != 'notpl': tree[f'{p}/{i}/templates/sub/i.tpl'] = f'{{{{- define "inc.{i}" -}}}}{i} of {p}{{{{- end -}}}}'
            if k == 'ok' and got is None: got = f'{i} of {p}'
        if got is None: want = None
        elif want is not None: want[i] = got
    args = [x for p in paths for x in ('-M', f'{d}/{p}')]
    ov = []
    for k in range(r.choice([0, 1, 1, 2, 3])):
        v = near(r, settings) if chosen and settings and r.random() < .6 else {x: rand_val(r, 1) for x in r.sample(KEYS, r.randrange(1, 4))}; how = r.choice(['yaml', 'json', 'fyaml', 'fjson', 'nofile'] if r.random() < .15 else ['yaml', 'json', 'fyaml', 'fjson'])
        if not on(f'o{k}'): continue
        text = to_yaml(r, v) if how.endswith('yaml') else r.choice(['', ' \n', '\t'])[:1 if how == 'json' else 2] + json.dumps(v, indent=r.choice([None, 1]), ensure_ascii=r.random() < .5) + r.choice(['', '\n'])
        if how[0] == 'f': tree[f'ov{k}'] = text; text = f'--file:{d}/ov{k}'
        if how == 'nofile': text = f'--file:{d}/absent'; want = None
        else: ov.append(v)
        args += ['-s', text]
    if want is not None:
        s = settings
        for v in ov: s = merged(s, v)
        want['set'] = s
    if use_f == 'byfile': args += ['-f', f'{d}/{chosen}/{name}/other.yaml']
    else:
        args = [name] + args
        if use_f: args += ['-f', fname]
    for n, t in tree.items():
        os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True); open(f'{d}/{n}', 'w').write(t)
    for p in paths:
        if r.random() < .8: os.makedirs(f'{d}/{p}', exist_ok=True)
    return args, want
def p19(case, d, st):
    args, want = setup19(case, d); st['programs'] += 1; r = random.Random(f'faults/{case["pick"]}')
    def judge(rc, out, f, err):
        if rc == 124: bad('hang', f'no end within a minute with {f}')
        if rc and want is not None and f is None: bad('exit', f'the run fails with {rc}: {err[-300:]}')
        if not rc and want is None: bad('settings', f'the run succeeds although something it needs is missing or of another kind, faults {f}: {out[:200]!r}')
        if not rc:
            try: got = json.loads(out)
            except ValueError: got = out.decode(errors='replace')
            st['checked'] += 1
            if got != want:
                k = next((k for k in want if not isinstance(got, dict) or got.get(k) != want[k]), '?')
                bad('settings' if k == 'set' else 'module', f'{k}: {json.dumps(got.get(k) if isinstance(got, dict) else got)[:150]} instead of {json.dumps(want.get(k))[:150]}, faults {f}')
    logs = None
    for o in (case['order'], case['order'] + 1):
        rc, out, err, log = metac(args, o); st['runs'] += 1
        if 'panic:' in err or 'goroutine ' in err: bad('crash', err[-300:])
        judge(rc, out, None, err); logs = logs or log
    st['out'].append(h(out.replace(d.encode(), b'')))
    fs = case['faults']; ops = logs[0::2]
    if fs is None: fs = [[rand_fault(r, ops, absent=False) for _ in range(r.choice([1, 1, 2, 4]))] for _ in range(8 if A.tier == 'quick' else 16)] if ops else []
    for f in fs:
        case['at'] = f
        rc, out, err, log = metac(args, case['order'], ','.join(f)); st['runs'] += 1; count(st, log, ','.join(f))
        judge(rc, out, f, err)
        if rc and 'E' not in log[1::2] and want is not None: bad('exit', f'exit {rc} with nothing but short transfers {f}: {err[-300:]}')

# ---- engine
def execute(case, d=None):
    st = {'programs': 0, 'runs': 0, 'checked': 0, 'ops': 0, 'out': [], 'traces': [], 'known': []}
    t = d or tempfile.mkdtemp(prefix='g', dir=A.build)
    try: {'P17': p17, 'P18': p18, 'P19': p19}[case['prop']](case, t, st); v = None
    except Stop as s: v = list(s.args)
    finally:
        if not d: shutil.rmtree(t, ignore_errors=True)
    return case, st, v
def minimise(case, kind):
    best = dict(case); end = time.time() + 150
    def still(c):
        c2, _, v = execute(dict(c)); return v is not None and v[0] == kind
    if case['prop'] != 'P17' and case.get('at') is not None:
        c = dict(best, faults=[case['at']])
        if still(c):
            best = c; f = case['at']
            if isinstance(f, list) and f and isinstance(f[0], (list, str)):
                i = 0
                while i < len(f) and time.time() < end:
                    g = f[:i] + f[i + 1:]
                    if g and still(dict(best, faults=[g])): f = g; best['faults'] = [f]
                    else: i += 1
    names = [f'{p}/{n}' for p in ('p0', 'p1', 'p2', 'p3') for n in ('m', 'mod-ule', 'x.y', 'ia', 'ib', 'ic')] + ['o0', 'o1', 'o2'] if case['prop'] == 'P19' else list(dict.fromkeys(prog.Prog(case['seed'], (), small=case['prop'] == 'P18').names)); step = max(1, len(names) // 2)
    while step and time.time() < end:
        i = 0
        while i < len(names) and time.time() < end:
            c = dict(best, drop=best['drop'] + [n for n in names[i:i + step] if n not in best['drop']])
            if c['drop'] != best['drop'] and still(c): best = c
            i += step
        step //= 2
    if case['prop'] == 'P17':
        for k in ('orders', 'routes'):
            for x in list(best[k]):
                c = dict(best, **{k: [y for y in best[k] if y != x]})
                if (c[k] or k == 'routes') and still(c): best = c
    best.pop('at', None)
    return best
def known(prop, text):
    for l in open(A.known) if A.known and os.path.exists(A.known) else []:
        m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)', l)
        if m and m.group(1) == prop and m.group(2) in text: return m.group(3)
def main():
    global A
    a = argparse.ArgumentParser(); a.add_argument('prop'); a.add_argument('build'); a.add_argument('--tier', default='quick'); a.add_argument('--seed', type=int, default=1)
    a.add_argument('--evidence'); a.add_argument('--replay-dir', default='.'); a.add_argument('--known'); a.add_argument('--replay'); a.add_argument('-v', action='store_true')
    a.add_argument('--first', type=int); a.add_argument('--count', type=int); a.add_argument('--secs', type=float); a.add_argument('--keep'); A = a.parse_args(); A.build = os.path.abspath(A.build)
    t0 = time.time(); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if A.replay:
        c = json.load(open(A.replay)); A.tier = c.get('tier', A.tier); want = c.pop('violation', None)
        c, st, v = execute(c, A.keep)
        if A.v: print(json.dumps(st)[:2000])
        print(f'{v[0]}: {v[1]}' if v else 'no violation'); print('same violation as recorded' if v and want and v[0] == want[0] else 'recorded: ' + str(want))
        if v: print(f'VIOLATION property={A.prop} replay={A.replay}')
        return 1 if v else 0
    n = A.count or {('P17', 'quick'): 800, ('P18', 'quick'): 600, ('P19', 'quick'): 4000, ('P19', 'thorough'): 30000, ('P17', 'thorough'): 20000, ('P18', 'thorough'): 12000}[(A.prop, A.tier)]
    secs = A.secs or (300 if A.tier == 'quick' else 780); first = A.first if A.first is not None else A.seed * 1000000
    tot = {}; outs = set(); traces = set(); kn = set(); fail = None; done = 0; samples = []
    with multiprocessing.Pool(os.cpu_count() or 8) as pool:
        for case, st, v in pool.imap({'P17': _one17, 'P18': _one18, 'P19': _one19}[A.prop], range(first, first + n)):
            done += 1; outs.update(st.pop('out')); traces.update(st.pop('traces'))
            for k in st.pop('known'): kn.add(k)
            for k, x in st.items(): tot[k] = tot.get(k, 0) + x
            if len(samples) < 4: samples.append({k: case[k] for k in case if k not in ('drop',)} | {'runs': st['runs']})
            if v and not fail:
                if v[0] == 'harness': print('harness error, seed', case['seed'], v[1]); pool.terminate(); return 3
                fail = (case, v); pool.terminate(); break
            if time.time() - t0 > secs: pool.terminate(); break
    rc = 0; viol = []
    for k in sorted(kn): print(f'KNOWN-FINDING: property={A.prop} {k}')
    if fail:
        case, v = fail; print(f'seed {case["seed"]}: {v[0]}: {v[1]}')
        c = minimise(dict(case), v[0]); _, _, v2 = execute(dict(c)); v2 = v2 or v; c['violation'] = v2; c['tier'] = A.tier
        os.makedirs(A.replay_dir, exist_ok=True); f = os.path.join(os.path.abspath(A.replay_dir), f'{A.prop}-{case["seed"]}.replay'); json.dump(c, open(f, 'w'), indent=1)
        print(f'minimised: {v2[0]}: {v2[1]}'); print(f'VIOLATION property={A.prop} replay={f}'); rc = 1; viol = [{'seed': case['seed'], 'kind': v2[0], 'message': v2[1][:500], 'replay': f}]
    wall = time.time() - t0
    if A.evidence:
        fk = {k[6:]: x for k, x in tot.items() if k.startswith('fault_')}
        cov = {'evaluations': tot.get('runs', 0), 'distinct_nontrivial': len(outs) if A.prop == 'P17' else len(traces | outs),
            'rule': RULE[A.prop], 'samples': samples, 'seeds': done, 'runs': tot.get('runs', 0), 'runs_per_hour': int(tot.get('runs', 0) / wall * 3600), 'seeds_per_hour': int(done / wall * 3600),
            'simulated_time': {'unit': 'generator runs (the program has no clock); opens, reads and writes it made under faults', 'runs': tot.get('runs', 0), 'calls': tot.get('ops', 0)},
            'faults_injected': fk if A.prop != 'P17' else {'map_iteration_orders': tot.get('runs', 0)}, 'programs_generated_and_compiled': tot.get('programs', 0), 'type_entries_compared': tot.get('checked', 0),
            'distinct': {'generated_outputs': len(outs), 'io_traces_under_faults': len(traces), 'measure': 'hash of the generated file without the scratch path; hash of the sequence of opens/reads/writes with the injected faults'},
            'other': {k: x for k, x in tot.items() if k.startswith(('route_', 'test_'))},
            'components': {'real': 'the metac generator (main.go, cmd, pkg, modules/*) built from the working tree, gcc and clang with their DWARF, include/metac, src/entry.c and src/entry_db.c' + (', mk/metac.mk with make' if A.prop == 'P18' else ''),
                'simulated': 'Go runtime: map seeds and iteration orders, opens, reads and writes (go build -overlay)', 'stub': 'third-party Go modules (sprig, xstrings, copystructure, cobra) are stand-ins; check.h of the test programs is a recorder'}}
        json.dump({'property': A.prop, 'tier': A.tier, 'seed': A.seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2),
            'assumptions': ['x86-64 Linux ELF, C programs compiled with -O0 by the installed gcc and clang, DWARF 3 to 5', 'a name of a structure, union, enumeration or typedef means one type in the whole program', 'stand-in Go modules behave as the real ones for the functions the templates use'], 'violations': viol}, open(A.evidence, 'w'), indent=1)
    print(f'{A.prop}: {done} programs, {tot.get("runs", 0)} generator runs, {tot.get("checked", 0)} entries compared, {sum(x for k, x in tot.items() if k.startswith("fault_"))} faults, {wall:.0f} s: {"VIOLATION" if rc else "held"}')
    return rc
RULE = {'P17': 'one run = one seeded program of 1 to 4 units (structures, unions, enumerations, typedefs, bit-fields, anonymous and flexible members, functions, qualifiers, local declaration points), compiled by gcc or clang with DWARF 3, 4 or 5, generated under several map orders; the program itself compares its tables with what the compiler tells about its types; non-trivial = distinct generated file',
    'P18': 'one run = one generation (from ELF, YAML or JSON, or an export, or a history of builds with the project\'s own make rule) with seeded failing opens, reads, writes, short transfers, kills, torn input or a full output; exit 0 must come with the complete file; non-trivial = distinct sequence of calls with faults, or distinct fault-free file',
    'P19': 'one run = one seeded tree of modules (search paths, kinds, includes, alternative specs) and list of settings overrides (YAML or JSON, inline or from files), run under two map orders and with seeded failing or short opens, reads and writes; the module prints which module, includes and settings it got, compared with a reference model; non-trivial = distinct fault-free output, or distinct sequence of calls with faults'}
def _one17(s): return execute(case17(s))
def _one18(s): return execute(case18(s))
def _one19(s): return execute(case19(s))
if __name__ == '__main__': sys.exit(main())
