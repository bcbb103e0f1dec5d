#!/usr/bin/env python3
"""vp - checks properties of /repo by contract-based deductive verification.   vp.py PROPERTY [--tier quick|thorough]

For each unit (= contract file) of a property:
  1. the current source file is taken from /repo/src, loop contracts are injected mechanically (nothing else changes),
  2. goto-cc + gvc.py: every obligation must be discharged,
  3. the same contract text is compiled natively against the real code and the real libraries: replay of verifier
     counterexamples, seeded search for a failing input, and the bounded stand-in where a proof is not available.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/veriftools/pyvenv/bin/python' if os.path.exists('/opt/veriftools/pyvenv/bin/python') else 'python3-vt'

T_END = None      # quick tier: a run always answers within the time it is given; what is left undone is reported as unchecked

def left(want):
    return want if T_END is None else max(1.0, min(want, T_END - time.time()))

def late(need=15):
    return T_END is not None and T_END - time.time() < need

def sh(cmd, timeout=None, **kw):
    if timeout:
        timeout = left(timeout)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'

# --------------------------------------------------------------------------------------------------------------------
#  C source scanning
# --------------------------------------------------------------------------------------------------------------------

def blank(src):
    """src with comments, strings, char literals and preprocessor lines blanked out, same length"""
    out = list(src)
    i, n = 0, len(src)
    def wipe(a, b):
        for j in range(a, min(b, n)):
            if out[j] != '\n':
                out[j] = ' '
    bol = True
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2)
            j = n if j < 0 else j + 2
            wipe(i, j)
            i = j
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
            continue
        if c in '"\'':
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == '\\' else 1
            wipe(i, j + 1)
            i = j + 1
            bol = False
            continue
        if c == '#' and bol:
            j = i
            while True:
                k = src.find('\n', j)
                if k < 0:
                    k = n
                    break
                if src[k - 1] == '\\':
                    j = k + 1
                    continue
                break
            wipe(i, k)
            i = k
            continue
        if c == '\n':
            bol = True
        elif not c.isspace():
            bol = False
        i += 1
    return ''.join(out)

def match(b, i, o, c):
    d = 0
    for j in range(i, len(b)):
        if b[j] == o:
            d += 1
        elif b[j] == c:
            d -= 1
            if d == 0:
                return j
    return -1

def find_function(b, name):
    """(body start '{', body end '}') of the definition of `name`"""
    for m in re.finditer(r'\b%s\s*\(' % re.escape(name), b):
        depth = b.count('{', 0, m.start()) - b.count('}', 0, m.start())
        if depth != 0:
            continue
        e = match(b, m.end() - 1, '(', ')')
        if e < 0:
            continue
        j = e + 1
        while j < len(b) and b[j].isspace():
            j += 1
        if j < len(b) and b[j] == '{':
            return m.start(), j, match(b, j, '{', '}')
    return None

def find_loops(b, lo, hi):
    """loops in textual order: dict(kind, kw, cond=(a,b) | None, body=pos of '{' or None)"""
    toks = [(m.group(0), m.start()) for m in re.finditer(r'\b(for|while|do)\b', b[lo:hi])]
    toks = [(t, p + lo) for t, p in toks]
    closing = set()
    loops = []
    for t, p in toks:
        if p in closing:
            continue
        if t == 'do':
            j = p + 2
            while b[j].isspace():
                j += 1
            if b[j] != '{':
                loops.append({'kind': 'do', 'kw': p, 'body': None, 'cond': None})
                continue
            e = match(b, j, '{', '}')
            m = re.compile(r'\s*while\b').match(b, e + 1)
            if m:
                closing.add(m.end() - 5)
            loops.append({'kind': 'do', 'kw': p, 'body': j, 'cond': None})
        else:
            o = b.index('(', p)
            c = match(b, o, '(', ')')
            j = c + 1
            while j < len(b) and b[j].isspace():
                j += 1
            loops.append({'kind': t, 'kw': p, 'open': o, 'close': c, 'body': j if b[j] == '{' else None})
    return loops

class SetupError(Exception):
    pass

def loop_headers(b, loc):
    out = []
    for l in find_loops(b, loc[1], loc[2]):
        out.append(l['kind'] if l['kind'] == 'do' else l['kind'] + ' ' + ' '.join(b[l['open'] + 1:l['close']].split()))
    return out

LOOPS = VERIF + '/contracts/loops.json'     # loop headers of the functions with invariants, as they were when these were written

def loop_map(b, fn, loc, moved):
    """invariant number -> loop; if loops were added or removed, they are recognised by their headers, and `moved` says so"""
    now = loop_headers(b, loc)
    base = json.load(open(LOOPS)).get(fn) if os.path.exists(LOOPS) else None
    if base is None or len(base) == len(now):
        return {k: k for k in range(len(now))}
    moved.append(fn)
    import difflib
    m = {}
    for blk in difflib.SequenceMatcher(None, base, now, False).get_matching_blocks():
        for i in range(blk.size):
            m[blk.a + i] = blk.b + i
    return m

def inject(src, loops, moved=None):
    """insert LOOP_<fn>_<k> at the head of each listed loop; returns text"""
    b = blank(src)
    moved = [] if moved is None else moved
    ins = []
    per = {}
    for spec in loops:
        fn, k = spec.rsplit(':', 1)
        per.setdefault(fn, []).append(int(k))
    for fn, ks in per.items():
        loc = find_function(b, fn)
        if not loc:
            raise SetupError('function %s not found in the source' % fn)
        ls = find_loops(b, loc[1], loc[2])
        lm = loop_map(b, fn, loc, moved)
        for k in ks:
            if k not in lm:
                raise SetupError('%s: loop %d, which the contract is for, is not there' % (fn, k))
            l = ls[lm[k]]
            mac = 'LOOP_%s_%d' % (fn, k)
            if l['kind'] == 'do':
                if l['body'] is None:
                    raise SetupError('do without block in %s' % fn)
                ins.append((l['body'] + 1, ' %s; ' % mac))
            elif l['kind'] == 'while':
                ins.append((l['open'] + 1, '%s, (' % mac))
                ins.append((l['close'], ')'))
            else:
                seg = b[l['open'] + 1:l['close']]
                d, semis = 0, []
                for j, ch in enumerate(seg):
                    if ch in '([{':
                        d += 1
                    elif ch in ')]}':
                        d -= 1
                    elif ch == ';' and d == 0:
                        semis.append(l['open'] + 1 + j)
                if len(semis) != 2:
                    raise SetupError('unusual for header in %s' % fn)
                cond = b[semis[0] + 1:semis[1]].strip()
                ins.append((semis[0] + 1, ' %s, (' % mac if cond else ' %s, 1' % mac))
                if cond:
                    ins.append((semis[1], ')'))
            bm = 'BODY_%s_%d' % (fn, k)
            if l['body'] is not None:
                bt = '\n#ifdef %s\n%s;\n#endif\n' % (bm, bm)
                if l['kind'] == 'do':
                    ins[-1] = (ins[-1][0], ins[-1][1] + bt)
                else:
                    ins.append((l['body'] + 1, bt))
    for pos, t in sorted(ins, key=lambda x: (x[0],), reverse=True):
        src = src[:pos] + t + src[pos:]
    return src

def nloops(src, fn):
    b = blank(src)
    loc = find_function(b, fn)
    return None if not loc else len(find_loops(b, loc[1], loc[2]))

# --------------------------------------------------------------------------------------------------------------------
#  Units
# --------------------------------------------------------------------------------------------------------------------

class Unit:
    def __init__(self, path, variant=None):
        self.path = path
        self.name = os.path.basename(path)[:-2]
        self.variant = variant
        self.text = open(path).read()
        d = {}
        over = set()
        for m in re.finditer(r'^//@(\w+)(?:\.(\w+))?[ \t]*(.*)$', self.text, re.M):
            k, v, t = m.group(1), m.group(2), m.group(3).strip()
            if v and v != variant:
                continue
            if v and k not in over:
                d[k] = []
                over.add(k)
            elif not v and k in over:
                continue
            d.setdefault(k, []).append(t)
        self.variants = ' '.join(d.get('variants', [])).split()
        if variant:
            self.name += '.' + variant
        g = lambda k, df='': ' '.join(d.get(k, [df])).strip()
        self.src = g('src')
        self.props = g('prop').split()
        self.funcs = g('funcs').split()
        self.loops = g('loops').split()
        self.link = g('link').split()
        self.replace = dict(x.split('=') for x in g('replace').split())
        self.noeffect = g('noeffect').split()
        self.mode = g('mode', 'proof')
        self.unwind = int(g('unwind', '40'))
        self.iters = int(g('native', '20000'))
        self.secs = float(g('secs', '6'))
        self.memsafe = g('memsafe', 'on') != 'off'
        self.overflow = g('overflow', 'on') != 'off'
        self.assume_notes = d.get('assume', [])
        self.bound_note = g('bound', '')
        self.title = g('title', self.name) + (' [%s]' % variant if variant else '')
        self.nonative = g('nonative', '') != ''
        self.budget = float(g('budget', '240'))
        self.natlink = g('natlink', '').split()
        self.exclude = g('exclude', '').split()

def units_for(prop):
    us = []
    for p in sorted(glob.glob(VERIF + '/contracts/*.c')):
        u = Unit(p)
        us += [Unit(p, v) for v in u.variants] if u.variants else [u]
    return [u for u in us if prop in u.props]

# --------------------------------------------------------------------------------------------------------------------
#  Building
# --------------------------------------------------------------------------------------------------------------------

class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp-')
        self.src = self.dir + '/src'
        self.gen = self.dir + '/gen'
        self.obj = self.dir + '/obj'
        os.makedirs(self.gen)
        os.makedirs(self.obj)
        shutil.copytree(REPO + '/src', self.src)
        mk = open(REPO + '/Makefile').read()
        conf = (re.search(r'^GLOBALCONF\s*=\s*(\S+)', mk, re.M) or [None, '/usr/share/boxes'])[1]
        t = open(self.src + '/boxes.in.h').read().replace('--BVERSION--', 'verif').replace('--GLOBALCONF--', conf)
        open(self.gen + '/boxes.h', 'w').write(t)
        self.globalconf = conf
        e1 = sh(['bison', '--defines=parser.h', '-o', 'parser.c', self.src + '/parser.y'], cwd=self.gen)
        e2 = sh(['flex', '--header-file=lex.yy.h', self.src + '/lexer.l'], cwd=self.gen)
        self.ok = e1[0] == 0 and e2[0] == 0
        self.objs = {}
        self.fobjs = {}
        self.err = e1[2] + e2[2]

    NCF = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-w']

    def srcs(self):
        return sorted(glob.glob(self.src + '/*.c') + glob.glob(self.gen + '/*.c'))

    FAST = ['-g', '-O2', '-w']

    def build_native(self, pool, fast=False):
        def one(s, f=None):
            o = self.obj + ('/fast_' if f else '/') + os.path.basename(s)[:-2] + '.o'
            rc, out, err = sh(['gcc'] + (f or self.NCF) + (['-Dmain=boxes_main'] if os.path.basename(s) == 'boxes.c' else []) + ['-I' + self.gen, '-I' + self.src, '-c', s, '-o', o], timeout=200)
            return os.path.basename(s), o, rc, err
        jobs = [pool.submit(one, s) for s in self.srcs()]
        fjobs = [pool.submit(one, s, self.FAST) for s in self.srcs()] if fast else []
        def rt(f=None):
            o = self.obj + ('/fast_' if f else '/') + 'vc_native_rt.o'
            return sh(['gcc'] + (f or self.NCF) + ['-I' + VERIF + '/include', '-c', VERIF + '/include/vc_native.c', '-o', o])
        r = pool.submit(rt)
        fr = pool.submit(rt, self.FAST) if fast else None
        for j in jobs:
            n, o, rc, err = j.result()
            if rc != 0:
                raise SetupError('compiling %s: %s' % (n, err[:500]))
            self.objs[n] = o
        for j in fjobs:
            n, o, rc, err = j.result()
            self.fobjs[n] = o
        if fr:
            fr.result()
        if r.result()[0] != 0:
            raise SetupError('runtime: ' + r.result()[2][:500])

    def path_of(self, name):
        if name == '-':
            return '/dev/null'
        for d in (self.src, self.gen):
            if os.path.exists(d + '/' + name):
                return d + '/' + name
        raise SetupError('source file %s is gone' % name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def dictionary(w, u):
    """integer and character constants of the functions under contract (and of their file) -> dictionary for the search"""
    if u.src == '-':
        return []
    try:
        s = open(w.path_of(u.src)).read()
    except SetupError:
        return []
    vals = set()
    b = blank(s)
    segs = []
    for f in u.funcs:
        loc = find_function(b, f)
        if loc:
            segs.append(s[loc[1]:loc[2]])
    for seg in segs or [s]:
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b", seg):
            try:
                v = int(m.group(1), 0)
                if v < 1 << 62:
                    vals.add(v)
            except ValueError:
                pass
        for m in re.finditer(r"'(\\.|[^\\'])'", seg):
            c = m.group(1)
            vals.add(ord(eval("'" + c + "'")) if len(c) == 1 or c[1] in 'ntr0\\\'"abfv' else ord(c[-1]))
        for m in re.finditer(r'"((?:\\.|[^"\\])*)"', seg):
            for ch in m.group(1)[:60]:
                vals.add(ord(ch))
    return sorted(vals)[:1000]

# --------------------------------------------------------------------------------------------------------------------
#  Checking one unit
# --------------------------------------------------------------------------------------------------------------------

def defines(u, srcpath):
    return (['-DV_' + u.variant] if u.variant else []) + ['-DVC_SRC="%s"' % srcpath, '-I' + VERIF + '/include', '-I' + VERIF + '/contracts']

def native_build(w, u, d, fast=False):
    exe = d + ('/fast' if fast else '/native')
    objs = [o for n, o in sorted((w.fobjs if fast else w.objs).items()) if n != u.src and n not in u.exclude]
    cmd = ['gcc'] + (Work.FAST if fast else Work.NCF) + defines(u, w.path_of(u.src)) + ['-I' + w.gen, '-I' + w.src, u.path, w.obj + ('/fast_' if fast else '/') + 'vc_native_rt.o'] + objs + \
          ['-Wl,--allow-multiple-definition', '-o', exe, '-lunistring', '-lpcre2-32', '-lncurses'] + u.natlink
    rc, out, err = sh(cmd, timeout=200)
    if rc != 0:
        return None, err[:3000]
    return exe, ''

def native_env(d):
    e = dict(os.environ)
    e.update({'ASAN_OPTIONS': 'detect_odr_violation=0:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=16', 'LC_ALL': 'C.UTF-8',
              'HOME': d, 'TMPDIR': d})
    return e

def parse_native(rc, out, err):
    m = re.search(r'^RESULT (\w+) iter=(\d+) accepted=(\d+) checks=(\d+) covers=(\d+) distinct=(\d+)', out, re.M)
    if not m:
        return {'status': 'error', 'msg': (out + err)[-800:]}
    r = {'status': m.group(1), 'iterations': int(m.group(2)) + 1, 'accepted': int(m.group(3)), 'checks': int(m.group(4)), 'distinct': int(m.group(6)),
         'sample': ' | '.join(out.split('SAMPLE\n', 1)[1].split('\n'))[:600] if 'SAMPLE\n' in out else ''}
    if r['status'] == 'FAIL':
        r['msg'] = (re.search(r'^MSG (.*)$', out, re.M) or ['', '?'])[1]
        r['inputs'] = out.split('INPUTS\n', 1)[1] if 'INPUTS\n' in out else ''
        r['stderr'] = err[-3000:]
    return r

def run_native(exe, d, seed, iters, secs, dict_file):
    secs = left(secs)
    rc, out, err = sh([exe, str(seed), str(iters), str(int(secs))] + ([dict_file] if dict_file else []), timeout=secs * 3 + 90, env=native_env(d), cwd=d)
    return parse_native(rc, out, err)

def run_replay(exe, d, text):
    fn = tempfile.mktemp(dir=d)
    open(fn, 'w').write(text)
    rc, out, err = sh([exe, 'replay', fn], timeout=60, env=native_env(d), cwd=d)
    return parse_native(rc, out, err)

def to_replay(inputs):
    t = ''
    for x in inputs or []:
        t += 's %d\n' % x if not isinstance(x, list) else 'a %d %s\n' % (len(x), ' '.join(map(str, x)))
    return t

SOFT = {'frame', 'align', 'unwinding', 'ptrcmp', 'ptrdiff'}

def prove(w, u, d, bounded=False):
    """-> dict(status: proved | failed | undecided, ...)"""
    if late():
        return {'status': 'undecided', 'why': 'no time left'}
    src = open(w.path_of(u.src)).read()
    moved = []
    try:
        if not bounded:
            txt = inject(src, u.loops, moved)
            for fn in u.funcs:
                if not find_function(blank(src), fn) and not any(find_function(blank(open(w.path_of(x)).read()), fn) for x in u.link):
                    raise SetupError('function %s not found' % fn)
        else:
            txt = src
    except SetupError as ex:
        return {'status': 'undecided', 'why': str(ex)}
    tag = 'b' if bounded else 'p'
    ip = '%s/%s_%s' % (d, tag, u.src)
    open(ip, 'w').write(txt)
    gb = d + '/%s.gb' % tag
    linked = []
    try:
        linked = [w.path_of(x) for x in u.link]
    except SetupError as ex:
        return {'status': 'undecided', 'why': str(ex)}
    cmd = ['goto-cc', '-DGVC'] + (['-DGVC_BOUNDED'] if bounded else []) + defines(u, ip) + ['-I' + w.gen, '-I' + w.src, '--function', 'harness', u.path] + linked + ['-o', gb]
    rc, out, err = sh(cmd, timeout=120)
    if rc != 0 or not os.path.exists(gb):
        return {'status': 'undecided', 'why': 'goto-cc: ' + (out + err)[-1500:]}
    arg = {'gb': gb, 'replace': u.replace, 'noeffect': u.noeffect, 'memsafe': u.memsafe, 'overflow': u.overflow, 'max_unwind': u.unwind if not bounded else 8,
           'budget': left(u.budget if not bounded else 60), 'bounded': bounded}
    rc, out, err = sh([PY, '-O', VERIF + '/tools/gvc_run.py', json.dumps(arg)], timeout=(u.budget if not bounded else 60) * 1.5 + 60)
    try:
        r = json.loads(out)
    except ValueError:
        return {'status': 'undecided', 'why': 'verifier: ' + (err or out)[-1500:]}
    r['n_obl'] = len(r['obligations'])
    bad = {k: o for k, o in r['obligations'].items() if o['status'] != 'proved'}
    r['bad'] = bad
    if r['error'] and not any(o['status'] == 'failed' for o in bad.values()):
        r['status'], r['why'] = 'undecided', r['error']
    elif not bad:
        miss = [c for c in re.findall(r'\bCOVER\("([^"]+)"\)', u.text) if (not u.variant or c.split()[0] == u.variant) and (r['covers'].get(c) == 'no' or c not in r['covers'])]
        if r['n_obl'] == 0 or miss:
            r['status'], r['why'] = 'undecided', 'vacuous: no obligation or unreachable %s' % miss
        else:
            r['status'] = 'proved'
    elif moved and not bounded:
        # other loops than those the invariants were written for: a failure says nothing about the code (a failing input would)
        r['status'] = 'undecided'
        r['why'] = 'loops of %s changed; not discharged: %s' % (', '.join(moved), ', '.join(bad)[:600])
    elif any(o['status'] == 'failed' and o['kind'] not in SOFT for o in bad.values()):
        r['status'] = 'failed'
        r['why'] = ', '.join(k for k, o in bad.items() if o['status'] == 'failed')[:600]
    else:
        r['status'] = 'undecided'
        r['why'] = 'not discharged: ' + ', '.join(bad)[:600]
    return r

def check_unit(w, u, tier, seed):
    t0 = time.time()
    res = {'unit': u.name, 'title': u.title, 'functions': u.funcs, 'mode': u.mode, 'violation': None, 'notes': u.assume_notes}
    d = w.dir + '/u_' + u.name
    os.makedirs(d, exist_ok=True)
    try:
        exe = None
        if not u.nonative:
            exe, nerr = native_build(w, u, d)
            if exe is None:
                res['native_error'] = nerr
        df = d + '/dict'
        open(df, 'w').write('\n'.join(map(str, dictionary(w, u))))
        mult = 8 if tier == 'thorough' else 1
        nat = None
        fast = exe and u.src == '-' and native_build(w, u, d, True)[0]
        if fast:     # whole-program unit: one shard under ASAN, the others at full speed
            with cf.ThreadPoolExecutor(4) as shards:
                js = [shards.submit(run_native, exe if k == 0 else fast, d, seed + 31 * k, u.iters * mult, u.secs * mult, df) for k in range(4)]
                rs = [j.result() for j in js]
            nat = next((r for r in rs if r['status'] != 'OK'), rs[0])
            if nat['status'] == 'OK':
                for k in ('iterations', 'accepted', 'checks', 'distinct'):
                    nat[k] = sum(r[k] for r in rs)
        elif exe:
            nat = run_native(exe, d, seed, u.iters * mult, u.secs * mult, df)
        if nat:
            res['native'] = {k: v for k, v in nat.items() if k not in ('inputs', 'stderr')}
        pr = None
        if u.mode == 'proof':
            pr = prove(w, u, d)
            res['proof'] = pr
        if nat and nat['status'] == 'FAIL':
            rr = run_replay(exe, d, nat['inputs'])
            res['violation'] = {'kind': 'concrete', 'message': nat['msg'], 'inputs': nat['inputs'], 'confirmed_by_replay': rr['status'] == 'FAIL',
                                'stderr': nat['stderr'], 'obligations': sorted(pr['bad']) if pr and pr.get('bad') else [], 'source': 'seeded search over the contract'}
        elif pr and pr['status'] == 'failed':
            # replay the verifier's counterexamples against the real code
            cands = []
            for k, o in pr['bad'].items():
                for inp in [o.get('inputs')] + o.get('more', []):
                    if inp is not None:
                        cands.append((k, inp))
            for k, inp in cands[:40]:
                if not exe or late():
                    break
                rr = run_replay(exe, d, to_replay(inp))
                if rr['status'] == 'FAIL':
                    res['violation'] = {'kind': 'concrete', 'message': rr['msg'], 'inputs': rr['inputs'], 'confirmed_by_replay': True, 'stderr': rr['stderr'],
                                        'obligations': [k], 'source': "verifier counterexample replayed on the real code"}
                    break
            if not res['violation'] and exe and not late():
                nat2 = run_native(exe, d, seed + 7777, u.iters * 10, u.secs * 5, df)
                if nat2['status'] == 'FAIL':
                    res['violation'] = {'kind': 'concrete', 'message': nat2['msg'], 'inputs': nat2['inputs'], 'confirmed_by_replay': True, 'stderr': nat2['stderr'],
                                        'obligations': sorted(pr['bad']), 'source': 'seeded search over the contract'}
            if not res['violation']:
                bd = prove(w, u, d, bounded=True)
                for k, o in (bd.get('bad') or {}).items():
                    if o.get('inputs') is not None and exe:
                        rr = run_replay(exe, d, to_replay(o['inputs']))
                        if rr['status'] == 'FAIL':
                            res['violation'] = {'kind': 'concrete', 'message': rr['msg'], 'inputs': rr['inputs'], 'confirmed_by_replay': True, 'stderr': rr['stderr'],
                                                'obligations': [k], 'source': 'bounded unrolling, counterexample replayed'}
                            break
            if not res['violation']:
                res['violation'] = {'kind': 'obligation', 'message': 'obligation not discharged: ' + pr['why'], 'obligations': sorted(pr['bad']),
                                    'verifier_output': {k: {x: o.get(x) for x in ('kind', 'desc', 'where', 'status', 'formula', 'inputs', 'model')} for k, o in pr['bad'].items()}}
        elif u.mode == 'proof' and pr['status'] == 'undecided':
            # no proof available on this source: bounded stand-in
            bd = prove(w, u, d, bounded=True)
            res['bounded'] = bd
            for k, o in (bd.get('bad') or {}).items():
                if o.get('inputs') is not None and exe:
                    rr = run_replay(exe, d, to_replay(o['inputs']))
                    if rr['status'] == 'FAIL':
                        res['violation'] = {'kind': 'concrete', 'message': rr['msg'], 'inputs': rr['inputs'], 'confirmed_by_replay': True, 'stderr': rr['stderr'],
                                            'obligations': [k], 'source': 'bounded unrolling, counterexample replayed'}
                        break
            if not res['violation'] and exe and not late():
                nat2 = run_native(exe, d, seed + 4242, u.iters * 6, u.secs * 3, df)
                res['native_extra'] = {k: v for k, v in nat2.items() if k not in ('inputs', 'stderr')}
                if nat2['status'] == 'FAIL':
                    res['violation'] = {'kind': 'concrete', 'message': nat2['msg'], 'inputs': nat2['inputs'], 'confirmed_by_replay': True, 'stderr': nat2['stderr'],
                                        'obligations': [], 'source': 'seeded search over the contract'}
        if res['violation']:
            res['status'] = 'violated'
        elif u.mode == 'proof' and pr['status'] == 'proved':
            res['status'] = 'proved'
        elif nat and nat['status'] == 'OK' and nat['accepted'] > 0:
            res['status'] = 'bounded'
        else:
            res['status'] = 'unchecked'
    except Exception:
        res['status'] = 'unchecked'
        res['error'] = traceback.format_exc()[-2000:]
    res['wall_s'] = round(time.time() - t0, 2)
    return res

# --------------------------------------------------------------------------------------------------------------------
#  Known findings, evidence, main
# --------------------------------------------------------------------------------------------------------------------

def known_findings(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) unit=(\S+) match=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append({'unit': m.group(2), 'match': m.group(3), 'what': m.group(4)})
    return out

def loop_census(w, u):
    n = {}
    for f in u.funcs:
        for s in [u.src] + u.link:
            try:
                k = nloops(open(w.path_of(s)).read(), f)
            except SetupError:
                k = None
            if k is not None:
                n[f] = k
    return n

def trusted_scan(us):
    """mechanical scan of the contract files for everything that is assumed rather than proved"""
    out = []
    for u in us:
        body = blank(u.text)
        for f, c in u.replace.items():
            out.append('%s: calls of %s are replaced by contract %s' % (u.name, f, c))
        if u.noeffect:
            out.append('%s: assumed without effect: %s' % (u.name, ' '.join(u.noeffect)))
        n = len(re.findall(r'\bASSUME\s*\(', body))
        if n:
            out.append('%s: %d ASSUME clauses (preconditions and contract stubs)' % (u.name, n))
        out += ['%s: %s' % (u.name, a) for a in u.assume_notes]
    return out

def replay(path):
    j = json.load(open(path))
    v = j['violation']
    if v['kind'] != 'concrete':
        print('obligation(s) not discharged, no failing input: %s' % ', '.join(v['obligations']))
        print(json.dumps(v.get('verifier_output'), indent=1)[:20000])
        return 1
    nm = j['unit'].split('.')
    u = Unit('%s/contracts/%s.c' % (VERIF, nm[0]), nm[1] if len(nm) > 1 else None)
    w = Work()
    try:
        with cf.ThreadPoolExecutor(8) as pool:
            w.build_native(pool)
        exe, err = native_build(w, u, w.dir)
        r = run_replay(exe, w.dir, v['inputs']) if exe else {'status': 'error', 'msg': err}
    finally:
        w.close()
    print(r['status'], r.get('msg', ''))
    print('inputs:\n' + v['inputs'])
    print(r.get('stderr', ''))
    return 1 if r['status'] == 'FAIL' else 0

def main():
    prop = sys.argv[1]
    if prop == '--replay':
        return replay(sys.argv[2])
    tier = 'thorough' if 'thorough' in sys.argv[2:] else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = [a[7:] for a in sys.argv if a.startswith('--unit=')]
    t0 = time.time()
    global T_END
    if tier != 'thorough':
        T_END = t0 + 780
    us = units_for(prop)
    if only:
        us = [u for u in us if u.name in only or u.name.split('.')[0] in only]
    w = Work()
    results = []
    fatal = None
    try:
        with cf.ThreadPoolExecutor(8) as pool:
            try:
                if not w.ok:
                    raise SetupError('generating parser/lexer: ' + w.err[:500])
                w.build_native(pool, any(u.src == '-' for u in us))
            except SetupError as ex:
                fatal = str(ex)
            if not fatal:
                jobs = [pool.submit(check_unit, w, u, tier, seed) for u in sorted(us, key=lambda u: -u.budget)]
                results = [j.result() for j in jobs]
                results.sort(key=lambda r: r['unit'])
        census = {u.name: loop_census(w, u) for u in us} if not fatal else {}
    finally:
        w.close()
    if fatal:
        print('ERROR the source does not build: %s' % fatal)
        return 2
    rdir = VERIF + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(prop)
    viol, kf = [], []
    for r in results:
        v = r['violation']
        if not v:
            continue
        hit = [k for k in known if k['unit'] == r['unit'] and k['match'] in v['message']]
        if hit:
            kf.append((r, hit[0]))
            continue
        path = '%s/%s-%s.json' % (rdir, prop, r['unit'])
        json.dump({'property': prop, 'unit': r['unit'], 'contract': 'contracts/%s.c' % r['unit'].split('.')[0], 'violation': v,
                   'how_to_replay': 'bin/replay %s' % path}, open(path, 'w'), indent=1, default=str)
        viol.append((r, path))
    # evidence
    obl = sum((r.get('proof') or {}).get('n_obl', 0) for r in results)
    dis = sum(len([1 for o in (r.get('proof') or {}).get('obligations', {}).values() if o['status'] == 'proved']) for r in results)
    backs = {}
    for r in results:
        for o in (r.get('proof') or {}).get('obligations', {}).values():
            for b in o['backend']:
                backs[b] = backs.get(b, 0) + 1
    proved = [r for r in results if r['status'] == 'proved']
    man = json.load(open(VERIF + '/MANIFEST.json')) if os.path.exists(VERIF + '/MANIFEST.json') else {'checks': []}
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'proof')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3 tools/vp.py %s' % prop,
            'trusted_base': ['goto-cc 6.11 (C front end)', 'tools/gvc.py (verification condition generator)', 'z3', 'cvc5',
                             'contracts on libunistring, pcre2 and libc functions named under assumptions'],
            'functions_under_contract': sorted({f for r in results for f in r['functions']}),
            'functions_proved': sorted({f for r in proved for f in r['functions']}),
            'functions_bounded_only': sorted({f for r in results if r['status'] == 'bounded' for f in r['functions']}),
            'obligations_by_backend': backs,
            'solver_seconds': round(sum((r.get('proof') or {}).get('solver_s', 0) for r in results), 2),
            'evaluations': sum((r.get('native') or {}).get('accepted', 0) + (r.get('native_extra') or {}).get('accepted', 0) for r in results),
            'distinct_nontrivial': sum((r.get('native') or {}).get('distinct', 0) for r in results),
            'rule': 'inputs drawn by the seeded generator in include/vc_native.c, the whole contract evaluated at run time on the real code under ASAN; '
                    'non-trivial: preconditions held and at least one postcondition was evaluated; distinct: by hash of all inputs drawn',
            'samples': [{'unit': r['unit'], 'inputs': (r.get('native') or {}).get('sample', '')} for r in results][:12],
            'violating_units': [{'unit': r['unit'], 'message': r['violation']['message'], 'replay': p} for r, p in viol],
            'units': [{'unit': r['unit'], 'title': r['title'], 'status': r['status'], 'functions': r['functions'],
                       'loops_in_source': census.get(r['unit']),
                       'obligations': (r.get('proof') or {}).get('n_obl', 0), 'paths': (r.get('proof') or {}).get('paths', 0),
                       'solver_checks': (r.get('proof') or {}).get('checks', 0), 'covers': (r.get('proof') or {}).get('covers', {}),
                       'proof_status': (r.get('proof') or {}).get('status', 'bounded unit'), 'why': (r.get('proof') or {}).get('why', ''),
                       'native': r.get('native'), 'native_extra': r.get('native_extra'), 'error': r.get('error') or r.get('native_error'), 'wall_s': r['wall_s']} for r in results],
        },
        'assumptions': trusted_scan(us) + ['allocation never fails', 'no two live objects overlap; memory is accessed with its declared scalar type'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1, default=str)
    for r in results:
        p = r.get('proof') or {}
        print('%-10s %-28s obligations %d, paths %d, solver %.1fs, native %s, %.1fs %s' % (
            r['status'], r['unit'], p.get('n_obl', 0), p.get('paths', 0), p.get('solver_s', 0),
            (r.get('native') or {}).get('accepted'), r['wall_s'], (p.get('why') or '')[-300:] + (r.get('error') or r.get('native_error') or '')[-600:]))
    for r, k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r, path in viol:
        v = r['violation']
        print('  %s: %s' % (r['unit'], v['message'][:400]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v['kind'] == 'concrete' else ' no-failing-input-found'))
    return 1 if viol else 0

if __name__ == '__main__':
    sys.exit(main())
