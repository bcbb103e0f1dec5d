#!/usr/bin/env python3
"""gvc - a deductive verifier for GOTO programs (as emitted by goto-cc from the real C source).

Front end : goto-cc / goto-instrument (CBMC's C front end; types, promotions, side effects resolved there).
This tool : forward verification-condition generation, path by path.  A loop whose head carries a `vc_inv` call is cut
            there by its inductive invariant (base / step obligations, everything the loop may modify havocked,
            `vc_w` frame enforced on every write); any other loop is unwound and must provably finish (obligation
            "unwinding").  Calls: a callee with an entry in `replace` is replaced by its contract function, otherwise
            its body is executed.
Back end  : z3 over unbounded integers (machine arithmetic is modelled exactly: unsigned ops wrap, signed overflow is an
            obligation, conversions are exact) and arrays (one two-level array per scalar kind: object -> index -> value);
            cvc5 as the second opinion when z3 answers unknown.
"""
import json, subprocess, sys, time, os, re, tempfile
import z3

sys.setrecursionlimit(100000)

class Unsupported(Exception):
    pass

class Budget(Exception):
    pass

def ns(e, k, d=None):
    return e.get('namedSub', {}).get(k, d)

def typ(e):
    return ns(e, 'type')

INT = z3.IntSort()
ARR = z3.ArraySort(INT, INT)
HEAP = z3.ArraySort(INT, ARR)

# ---- terms: python int / bool for constants, z3 expressions otherwise ---------------------------------------------

def simp(x):
    if isinstance(x, (int, bool)):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x

def Z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x

def And(*xs):
    o = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            o.append(x)
    return True if not o else o[0] if len(o) == 1 else z3.And(*o)

def Or(*xs):
    o = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            o.append(x)
    return False if not o else o[0] if len(o) == 1 else z3.Or(*o)

def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)

def Implies(a, b):
    return Or(Not(a), b)

def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if a == b and isinstance(a, bool) == isinstance(b, bool):
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else z3.Not(c)
        return z3.If(c, Z(a), Z(b))
    if not isinstance(a, (int, bool)) and not isinstance(b, (int, bool)) and a.eq(b):
        return a
    return z3.If(c, Z(a), Z(b))

def Eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isinstance(a, bool):
        return b if a else z3.Not(b)
    if isinstance(b, bool):
        return a if b else z3.Not(a)
    return a == b

def isbool(x):
    return isinstance(x, bool) or (not isinstance(x, int) and z3.is_bool(x))

def con(x):
    return isinstance(x, int) and not isinstance(x, bool)

def Sel(a, i):
    return z3.Select(a, Z(i))

def Sto(a, i, v):
    return z3.Store(a, Z(i), Z(v))

class Program:
    def __init__(self, gb):
        out = subprocess.run(['goto-instrument', '--show-goto-functions', '--json-ui', gb], capture_output=True, text=True)
        self.funcs = {}
        for x in json.loads(out.stdout, strict=False):
            for f in x.get('functions', []) if isinstance(x, dict) else []:
                if f.get('isBodyAvailable'):
                    f['idx'] = {ins['locationNumber']: i for i, ins in enumerate(f['instructions'])}
                    self.funcs[f['name']] = f
        out = subprocess.run(['goto-instrument', '--show-symbol-table', '--json-ui', gb], capture_output=True, text=True)
        self.syms = {}
        for x in json.loads(out.stdout, strict=False):
            if isinstance(x, dict) and 'symbolTable' in x:
                self.syms = x['symbolTable']
        self._lay, self._res, self._kind, self._ci, self._fld = {}, {}, {}, {}, {}
        self._taken = {}

    # ---- types -----------------------------------------------------------------------------------------------------
    def resolve(self, t):
        k = id(t)
        r = self._res.get(k)
        if r is None:
            r = self._res[k] = self.resolve_(t)
        return r

    def resolve_(self, t):
        while t['id'] in ('struct_tag', 'union_tag', 'c_enum_tag'):
            t = self.syms[ns(t, 'identifier')['id']]['type']
        return t

    def is_agg(self, t):
        return self.resolve(t)['id'] in ('struct', 'array', 'union')

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        k = id(t)
        r = self._lay.get(k)
        if r is None:
            r = self._lay[k] = self.layout_(t)
        return r

    def layout_(self, t):
        """(size, align)"""
        t = self.resolve(t)
        i = t['id']
        if i in ('unsignedbv', 'signedbv', 'c_bool', 'floatbv', 'pointer', 'bool'):
            if i == 'bool':
                return (1, 1)
            w = int(ns(t, 'width')['id']) // 8
            return (w, w)
        if i == 'c_enum':
            return self.layout(t['sub'][0])
        if i == 'empty':
            return (1, 1)
        if i == 'code':
            return (1, 1)
        if i == 'array':
            s, a = self.layout(t['sub'][0])
            n = self.const_int(ns(t, 'size'))
            return (s * n, a)
        if i in ('struct', 'union'):
            off, al = 0, 1
            for c in ns(t, 'components').get('sub', []):
                s, a = self.layout(ns(c, 'type'))
                if self.pad(c):
                    a = 1
                al = max(al, a)
                if i == 'struct':
                    off = (off + a - 1) // a * a + s
                else:
                    off = max(off, s)
            return ((off + al - 1) // al * al, al)
        raise Unsupported('type ' + i)

    @staticmethod
    def pad(c):
        return ns(c, 'name')['id'].startswith('$pad')

    def field(self, t, name):
        k = (id(t), name)
        r = self._fld.get(k)
        if r is None:
            r = self._fld[k] = self.field_(t, name)
        return r

    def field_(self, t, name):
        t = self.resolve(t)
        off = 0
        for c in ns(t, 'components')['sub']:
            s, a = self.layout(ns(c, 'type'))
            if self.pad(c):
                a = 1
            if t['id'] == 'struct':
                off = (off + a - 1) // a * a
            if ns(c, 'name')['id'] == name:
                return off, ns(c, 'type')
            if t['id'] == 'struct':
                off += s
        raise Unsupported('field ' + name)

    def scalars(self, t, base=0):
        """flattened list of (byte offset, scalar type)"""
        r = self.resolve(t)
        if r['id'] == 'array':
            n, s = self.const_int(ns(r, 'size')), self.sizeof(r['sub'][0])
            el = self.scalars(r['sub'][0])
            return [(base + i * s + o, u) for i in range(n) for o, u in el]
        if r['id'] == 'struct':
            out, off = [], 0
            for c in ns(r, 'components')['sub']:
                s, a = self.layout(ns(c, 'type'))
                if self.pad(c):
                    off += s
                    continue
                off = (off + a - 1) // a * a
                out += self.scalars(ns(c, 'type'), base + off)
                off += s
            return out
        if r['id'] == 'union':
            raise Unsupported('union')
        return [(base, t)]

    def kind(self, t):
        k = id(t)
        r = self._kind.get(k)
        if r is None:
            r = self._kind[k] = self.kind_(t)
        return r

    def kind_(self, t):
        r = self.resolve(t)
        i = r['id']
        if i == 'pointer':
            return 'P'
        if i == 'c_bool':
            return 'u8'
        if i == 'c_enum':
            r = self.resolve(r['sub'][0])
            i = r['id']
        if i == 'unsignedbv':
            return 'u' + ns(r, 'width')['id']
        if i == 'signedbv':
            return 's' + ns(r, 'width')['id']
        if i == 'bool':
            return 'B'
        raise Unsupported('scalar type ' + i)

    def const_int(self, e):
        k = id(e)
        r = self._ci.get(k)
        if r is None:
            r = self._ci[k] = self.const_int_(e)
        return r

    def const_int_(self, e):
        if e['id'] == 'typecast':
            return self.const_int(e['sub'][0])
        if e['id'] != 'constant':
            raise Unsupported('non-constant size')
        k = self.kind(typ(e))
        v = int(ns(e, 'value')['id'], 16)
        if k[0] == 's':
            w = int(k[1:])
            if v >= 1 << (w - 1):
                v -= 1 << w
        return v

    def address_taken(self, fn):
        if fn in self._taken:
            return self._taken[fn]
        s = set()

        def root(e):
            while e['id'] in ('member', 'index'):
                e = e['sub'][0]
            if e['id'] == 'symbol':
                s.add(ns(e, 'identifier')['id'])

        def walk(e):
            if isinstance(e, dict):
                if e.get('id') == 'address_of':
                    root(e['sub'][0])
                for x in e.get('sub', []):
                    walk(x)
        for ins in self.funcs[fn]['instructions']:
            for k in ('code', 'guard'):
                if k in ins:
                    walk(ins[k])
        self._taken[fn] = s
        return s

RANGE = {}
for _w in (8, 16, 32, 64, 128):
    RANGE['u%d' % _w] = (0, (1 << _w) - 1)
    RANGE['s%d' % _w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1)

VOIDP = {'id': 'pointer', 'namedSub': {'width': {'id': '64'}}, 'sub': [{'id': 'empty', 'namedSub': {}}]}
INT32 = [{'id': 'signedbv', 'namedSub': {'width': {'id': '32'}}}, {'id': 'unsignedbv', 'namedSub': {'width': {'id': '32'}}}]

class Frame:
    __slots__ = ('fn', 'pc', 'ret', 'loc', 'loops', 'entry_next', 'ws', 'va')

    def __init__(self, fn, ret):
        self.fn, self.pc, self.ret, self.loc, self.loops, self.entry_next, self.ws, self.va = fn, 0, ret, {}, [], None, {}, None

    def copy(self):
        f = Frame(self.fn, self.ret)
        f.pc, f.loc, f.loops, f.entry_next, f.ws, f.va = self.pc, dict(self.loc), [l.copy() for l in self.loops], self.entry_next, dict(self.ws), self.va
        return f

class Loop:
    __slots__ = ('k', 'rng', 'dec', 'W', 'next', 'own', 'kept', 'al', 'WF', 'ownlo')

    def __init__(self):
        self.dec, self.W, self.next, self.own, self.kept, self.al, self.WF, self.ownlo = None, None, None, (), [], [], [], 0

    def copy(self):
        l = Loop()
        for n in self.__slots__:
            setattr(l, n, getattr(self, n))
        return l

class State:
    def __init__(self):
        self.frames, self.heap, self.inputs, self.unw, self.glob = [], {}, [], {}, {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.SZ, s.AL, s.next = self.SZ, self.AL, self.next
        s.inputs = list(self.inputs)
        s.glob = dict(self.glob)
        s.unw = dict(self.unw)
        return s

class AR:
    """immutable array value: term plus overriding constant-index entries"""
    __slots__ = ('a', 'd', 'f')

    def __init__(self, a, d=None):
        self.a, self.d, self.f = a, d or {}, None

    def flat(self):
        if self.f is None:
            a = self.a
            k = simp(a.arg(0)) if z3.is_K(a) else None
            for i, v in self.d.items():
                if not (con(k) and con(v) and k == v):
                    a = Sto(a, i, v)
            self.f = a
        return self.f

    def get(self, i):
        if con(i):
            if i in self.d:
                return self.d[i]
            if z3.is_K(self.a):
                return simp(self.a.arg(0))
            return simp(Sel(self.a, i))
        if not self.d and z3.is_K(self.a):
            return simp(self.a.arg(0))
        return simp(Sel(self.flat(), i))

    def put(self, i, v):
        if con(i):
            d = dict(self.d)
            d[i] = v
            return AR(self.a, d)
        return AR(Sto(self.flat(), i, v))

FEAS = 400      # ms for one feasibility test of a branch (an undecided branch is explored)
NOEFFECT = {'perror', 'fflush', 'fputs', 'puts', 'fputc', 'putchar', 'fprintf', 'printf', '__CPROVER_input', '__CPROVER_output', 'fclose'}
ZEROS = z3.K(INT, z3.IntVal(0))

def vmax(a, b):
    return b if {'proved': 0, 'unknown': 1, 'failed': 2}[b] > {'proved': 0, 'unknown': 1, 'failed': 2}[a] else a

class Verifier:
    WIDTH = {'u8': 1, 's8': 1, 'u16': 2, 's16': 2, 'u32': 4, 's32': 4, 'u64': 8, 's64': 8, 'P': 8}
    ALLK = ('u8', 's8', 'u16', 's16', 'u32', 's32', 'u64', 's64', 'Po', 'Pf')

    def __init__(self, prog, replace=None, noeffect=(), memsafe=True, overflow=True, max_unwind=40, timeout=20000,
                 deadline=None, max_paths=200000, abort=(), bounded=False, merge=True):
        self.bounded = bounded
        self.merge = merge
        self.p = prog
        self.replace = replace or {}
        self.noeffect = set(noeffect) | NOEFFECT
        self.abort = set(abort) | {'abort', 'exit', '__assert_fail'}
        self.memsafe, self.overflow, self.max_unwind, self.timeout = memsafe, overflow, max_unwind, timeout
        self.deadline = deadline
        self.max_paths = max_paths
        self.S = z3.Solver()
        self.S.set('timeout', timeout)
        self.n = 0
        self.obl = {}          # site -> dict
        self.covers = {}
        self.cover_sites = set()
        self.called = set()
        self.contracts_used = set()
        self.z3_time = 0.0
        self.checks = 0
        self.paths = 0
        self.guards = []
        self.inq = 0
        self.spec = 0
        self.bnd = {}
        self.bound = {}
        self.objids = {}
        self.ufs = {}
        self.regions = {}

    # ---- solver ----------------------------------------------------------------------------------------------------
    def fresh(self, name='v'):
        self.n += 1
        return z3.Int('%s!%d' % (name, self.n))

    def freshc(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def _check(self, extra, ms=None, want=False):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        t = time.time()
        self.S.push()
        for g in self.guards:
            self.S.add(g)
        self.S.add(Z(extra))
        if ms:
            self.S.set('timeout', ms)
        r = self.S.check()
        if ms:
            self.S.set('timeout', self.timeout)
        m = self.S.model() if r == z3.sat and want else None
        self.S.pop()
        self.z3_time += time.time() - t
        self.checks += 1
        if os.environ.get('GVC_DUMP') and time.time() - t > .5:
            self.nd = getattr(self, 'nd', 0) + 1
            s2 = z3.Solver()
            s2.add(self.S.assertions())
            for g in self.guards:
                s2.add(g)
            s2.add(Z(extra))
            open('%s/q%d.smt2' % (os.environ['GVC_DUMP'], self.nd), 'w').write('; %.1f %s %s\n' % (time.time() - t, r, self.where) + s2.to_smt2())
        if os.environ.get('GVC_PROF') and time.time() - t > .5:
            import traceback as tb
            c = [x.name + ':' + str(x.lineno) for x in tb.extract_stack()[-4:-1]]
            print('PROF %.1f %s %s %s' % (time.time() - t, r, c, getattr(self, 'where', '')), flush=True)
        return r, m

    def proves(self, f, ms=2000):
        if self.inq:
            return False
        f = simp(f)
        if isinstance(f, bool):
            return f
        r, _ = self._check(z3.Not(f), ms)
        return r == z3.unsat

    def assume(self, f):
        f = simp(f)
        if f is True:
            return
        if self.guards:
            f = z3.Implies(z3.And(*self.guards), Z(f))
        self.S.add(Z(f))

    def oblige(self, st, kind, desc, f):
        if self.inq:
            return
        fr = st.frames[-1]
        loc = self.p.funcs[fr.fn]['instructions'][fr.pc].get('sourceLocation', {})
        line, fn = loc.get('line', '?'), loc.get('function', fr.fn)
        file = os.path.basename(loc.get('file', ''))
        site = '%s.%s@%s:%s' % (fn, kind, file, line) if kind in ('deref', 'overflow', 'divzero', 'frame', 'align', 'ptrcmp', 'ptrdiff') else '%s.%s[%s]' % (fn, kind, desc)
        o = self.obl.get(site)
        if o is None:
            o = self.obl[site] = {'kind': kind, 'desc': desc, 'where': '%s:%s in %s' % (file, line, fn), 'status': 'proved',
                                  'n': 0, 'backend': set(), 'inputs': None, 'model': None}
        o['n'] += 1
        f = simp(f)
        if f is True:
            o['backend'].add('simplifier')
            return
        self.where = site
        r, m = self._check(Not(f), 3000, True)
        if r == z3.unsat:
            o['backend'].add('z3')
        elif r == z3.sat:
            if o['status'] != 'failed':
                o['status'] = 'failed'
                m = self.smaller(st, f, m)
                o['inputs'] = self.concretize(st, m)
                o['model'] = str(m)[:6000]
                o['formula'] = str(f)[:1500]
            else:
                o.setdefault('more', [])
                if len(o['more']) < 8:
                    o['more'].append(self.concretize(st, m))
        else:
            r2 = self.second(Not(f))
            if r2 == 'unsat':
                o['backend'].add('cvc5')
            elif r2 == 'unsat-z3':
                o['backend'].add('z3')
            else:
                o['status'] = vmax(o['status'], 'unknown')
                o['formula'] = str(f)[:1500]
        # continue under the obligation
        self.assume(f)

    def smaller(self, st, f, m):
        """prefer a counterexample with small inputs"""
        for lim in (3, 8, 40):
            c = [Z(it[2] <= lim) for it in st.inputs if it[0] == 'a'] + [z3.And(it[1] <= 4 * lim, it[1] >= -lim) for it in st.inputs if it[0] == 's']
            r, m2 = self._check(z3.And(Z(Not(f)), *c), 3000, True)
            if r == z3.sat:
                return m2
            c = [Z(it[2] <= lim) for it in st.inputs if it[0] == 'a']
            r, m2 = self._check(z3.And(Z(Not(f)), *c), 3000, True)
            if r == z3.sat:
                return m2
        return m

    PORTFOLIO = (
        ('z3', []),
        ('z3', ['smt.mbqi=false', 'smt.auto_config=false', 'smt.array.extensional=false']),
        ('z3-new', ['smt.mbqi=false', 'smt.auto_config=false', 'smt.array.extensional=false']),
        ('cvc5', []),
        ('z3', ['smt.random_seed=5', 'smt.mbqi=false', 'smt.auto_config=false']),
        ('z3-new', []),
    )

    def second(self, neg):
        """z3 gave up: the other back ends and configurations, each in its own process, the first proof counts"""
        t = time.time()
        s = z3.Solver()
        s.add(self.S.assertions())
        for g in self.guards:
            s.add(g)
        s.add(Z(neg))
        res = None
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        procs = []
        try:
            txt = s.to_smt2()
            with os.fdopen(fd, 'w') as f:
                f.write('(set-logic ALL)\n' + txt)
            todo = [x for x in self.PORTFOLIO if not (x[0] == 'cvc5' and 'lambda' in txt)]
            end = time.time() + self.timeout / 1000 * 1.5
            while res is None and (todo or procs) and time.time() < end:
                # the first two at once, one more every 2 s
                if todo and (len(procs) < 2 or time.time() - t > 2 * len(procs)):
                    exe, opts = todo.pop(0)
                    sec = self.timeout // 1000
                    cmd = [exe] + (['--tlimit=%d' % self.timeout] if exe == 'cvc5' else ['-T:%d' % sec] + opts) + [fn]
                    try:
                        procs.append((exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                    except OSError:
                        pass
                    continue
                for exe, p in procs:
                    if p.poll() is not None and p.stdout:
                        out = p.stdout.read()
                        p.stdout.close()
                        p.stdout = None
                        if out.split('\n')[0].strip() == 'unsat':
                            res = 'unsat' if exe == 'cvc5' else 'unsat-z3'
                if not todo and all(p.stdout is None for _, p in procs):
                    break
                time.sleep(.02)
            if os.environ.get('GVC_DUMP') and res is None:
                self.nd = getattr(self, 'nd', 0) + 1
                open('%s/unk%d.smt2' % (os.environ['GVC_DUMP'], self.nd), 'w').write(txt)
        finally:
            for _, p in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
            os.unlink(fn)
        self.z3_time += time.time() - t
        return res

    def concretize(self, st, m):
        out = []
        def ev(t):
            if isinstance(t, int):
                return int(t)
            try:
                return m.eval(t, model_completion=True).as_long()
            except Exception:
                return 0
        for it in st.inputs:
            if it[0] == 's':
                out.append(ev(it[1]))
            else:
                _, arr, n, kind = it
                k = max(0, min(ev(n), 4096))
                out.append([ev(Sel(arr, i)) for i in range(k)])
        return out

    # ---- integers --------------------------------------------------------------------------------------------------
    def note(self, v, lo, hi):
        if not isinstance(v, int):
            self.bnd[v.get_id()] = (lo, hi, v)

    def bounds(self, v, depth=0):
        if isinstance(v, int):
            return (v, v)
        b = self.bnd.get(v.get_id())
        if b:
            return b[:2]
        if z3.is_int_value(v):
            x = v.as_long()
            return (x, x)
        if depth > 6:
            return None
        if z3.is_add(v):
            bs = [self.bounds(c, depth + 1) for c in v.children()]
            return None if any(x is None for x in bs) else (sum(x[0] for x in bs), sum(x[1] for x in bs))
        if z3.is_mul(v):
            bs = [self.bounds(c, depth + 1) for c in v.children()]
            if any(x is None for x in bs):
                return None
            r = bs[0]
            for x in bs[1:]:
                q = [a * b for a in r for b in x]
                r = (min(q), max(q))
            return r
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = self.bounds(v.arg(1), depth + 1), self.bounds(v.arg(2), depth + 1)
            return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
        return None

    def wrap(self, st, v, k, what=None):
        """v as mathematical integer -> value of machine kind k"""
        lo, hi = RANGE[k]
        v = simp(v)
        if con(v):
            if lo <= v <= hi or self.inq or self.spec:
                return v
            if what and k[0] == 's' and self.overflow:
                self.oblige(st, 'overflow', what, False)
            return (v - lo) % (hi - lo + 1) + lo
        if self.inq or self.spec:
            return v          # specifications: mathematical integers (stated in DESIGN.md)
        b = self.bounds(v)
        if b and lo <= b[0] and b[1] <= hi:
            return v
        cond = z3.And(v >= lo, v <= hi)
        if what and k[0] == 's' and self.overflow:
            self.oblige(st, 'overflow', what, cond)
            return v
        if self.proves(cond, 1500):
            return v
        w = hi - lo + 1
        if what == '+':
            return z3.If(v > hi, v - w, v)
        if what == '-':
            return z3.If(v < lo, v + w, v)
        return (v - lo) % w + lo

    # ---- memory ----------------------------------------------------------------------------------------------------
    # st.heap[k] = (base HEAP term, {object id: AR})
    def hp(self, st, k):
        if k not in st.heap:
            st.heap[k] = (z3.Const('H0_' + k, HEAP), {})
        return st.heap[k]

    def ar(self, st, k, c):
        base, objs = self.hp(st, k)
        if c in objs:
            return objs[c]
        t = z3.simplify(Sel(base, c))
        a = AR(t)
        objs = dict(objs)
        objs[c] = a
        st.heap[k] = (base, objs)
        return a

    @staticmethod
    def ite(o):
        return not isinstance(o, int) and z3.is_app_of(o, z3.Z3_OP_ITE)

    @staticmethod
    def ch(o, i):
        return simp(o.arg(i))

    def full(self, st, k):
        base, objs = self.hp(st, k)
        for c, a in objs.items():
            base = z3.Store(base, z3.IntVal(c), a.flat())
        return base

    def arr(self, st, k, obj):
        """array term holding the k-typed contents of obj"""
        obj = simp(obj)
        if con(obj):
            return self.ar(st, k, obj).flat()
        if self.ite(obj):
            return z3.If(obj.arg(0), self.arr(st, k, self.ch(obj, 1)), self.arr(st, k, self.ch(obj, 2)))
        return z3.simplify(z3.Select(self.full(st, k), obj))

    def get(self, st, k, obj, idx):
        if con(obj):
            return self.ar(st, k, obj).get(idx)
        if self.ite(obj):
            return If(obj.arg(0), self.get(st, k, self.ch(obj, 1), idx), self.get(st, k, self.ch(obj, 2), idx))
        return simp(Sel(z3.Select(self.full(st, k), obj), idx))

    def setar(self, st, k, obj, a):
        obj = simp(obj)
        if con(obj):
            base, objs = self.hp(st, k)
            objs = dict(objs)
            objs[obj] = a
            st.heap[k] = (base, objs)
        elif self.ite(obj):
            g, o1, o2 = obj.arg(0), self.ch(obj, 1), self.ch(obj, 2)
            self.setar(st, k, o1, AR(z3.If(g, a.flat(), self.arr(st, k, o1))))
            self.setar(st, k, o2, AR(z3.If(g, self.arr(st, k, o2), a.flat())))
        else:
            st.heap[k] = (z3.Store(self.full(st, k), obj, a.flat()), {})

    def put(self, st, k, obj, idx, v):
        if con(obj):
            a = self.ar(st, k, obj).put(idx, v)
            base, objs = st.heap[k]
            objs = dict(objs)
            objs[obj] = a
            st.heap[k] = (base, objs)
        elif self.ite(obj):
            g, o1, o2 = obj.arg(0), self.ch(obj, 1), self.ch(obj, 2)
            self.put(st, k, o1, idx, If(g, v, self.get(st, k, o1, idx)))
            self.put(st, k, o2, idx, If(g, self.get(st, k, o2, idx), v))
        else:
            self.setar(st, k, obj, AR(Sto(self.arr(st, k, obj), idx, v)))

    # object table: size and liveness as AR
    def tab(self, t, obj):
        obj = simp(obj)
        if self.ite(obj):
            return If(obj.arg(0), self.tab(t, self.ch(obj, 1)), self.tab(t, self.ch(obj, 2)))
        return t.get(obj)

    def sz(self, st, obj):
        return self.tab(st.SZ, obj)

    def al(self, st, obj):
        return self.tab(st.AL, obj)

    def index(self, st, off, k):
        w = self.WIDTH[k]
        off = simp(off)
        if w == 1:
            return off
        q = self._div(off, w)
        if q is None:
            if con(off):
                self.oblige(st, 'align', 'aligned access', False)
                return off // w
            if not self.spec:
                self.oblige(st, 'align', 'aligned access', off % w == 0)
            return off / w
        return simp(q)

    def _div(self, e, w):
        if con(e):
            return e // w if e % w == 0 else None
        if z3.is_int_value(e):
            x = e.as_long()
            return x // w if x % w == 0 else None
        if z3.is_add(e):
            q = [self._div(c, w) for c in e.children()]
            return None if any(x is None for x in q) else z3.Sum([Z(x) for x in q])
        if z3.is_mul(e):
            ch = e.children()
            for i, c in enumerate(ch):
                if z3.is_int_value(c) and c.as_long() % w == 0:
                    r = c.as_long() // w
                    for j, d in enumerate(ch):
                        if j != i:
                            r = r * d
                    return r
            return None
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, b = self._div(e.arg(1), w), self._div(e.arg(2), w)
            return None if a is None or b is None else If(e.arg(0), a, b)
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            a = self._div(e.arg(0), w)
            return None if a is None else -a
        return None

    def inside(self, st, obj, off, size):
        obj, off = simp(obj), simp(off)
        return And(Not(Eq(obj, 0)), Eq(self.al(st, obj), 1), off >= 0, off + size <= self.sz(st, obj))

    def safe(self, st, obj, off, size, what):
        if not self.memsafe or self.inq or self.spec:
            return
        self.oblige(st, 'deref', what, self.inside(st, obj, off, size))

    def rd(self, st, obj, off, t):
        k = self.p.kind(t)
        idx = self.index(st, off, k)
        obj = simp(obj)
        if k == 'P':
            o = self.get(st, 'Po', obj, idx)
            f = self.get(st, 'Pf', obj, idx)
            if not self.inq and not con(o):
                self.S.add(z3.And(o < st.next, z3.Implies(o == 0, Z(f) == 0)))
            return ('P', o, f)
        v = self.get(st, k, obj, idx)
        if not self.inq and not con(v):
            lo, hi = RANGE[k]
            self.S.add(z3.And(v >= lo, v <= hi))     # typed memory only ever holds values of its type
            if v.get_id() not in self.bnd:
                self.note(v, lo, hi)
        return v

    def wr(self, st, obj, off, t, v):
        obj = simp(obj)
        if not self.inq:
            self.framecheck(st, obj)
        k = self.p.kind(t)
        idx = self.index(st, off, k)
        g = And(*self.guards) if self.guards else True
        for kk, x in ((('Po', v[1]), ('Pf', v[2])) if k == 'P' else ((k, v),)):
            if g is not True:
                x = If(g, x, self.get(st, kk, obj, idx))
            self.put(st, kk, obj, idx, x)

    def infr(self, l, o):
        return con(o) and (o >= l.next or o in l.W)

    def framecheck(self, st, obj, what='write'):
        for fr in st.frames:
            for l in fr.loops:
                if self.infr(l, obj) or (what == 'free' and con(obj) and (obj == 0 or obj in l.WF)):
                    continue
                if self.ite(obj) and self.infr(l, self.ch(obj, 1)) and self.infr(l, self.ch(obj, 2)):
                    continue
                c = [Eq(obj, w) for w in l.W] + [obj >= l.next] + ([Eq(obj, 0)] + [Eq(obj, w) for w in l.WF] if what == 'free' else [])
                self.oblige(st, 'frame', '%s inside declared loop frame %s' % (what, l.k), Or(*c))

    def newobj(self, st, size):
        o = st.next
        st.next = o + 1
        st.SZ = st.SZ.put(o, simp(size))
        st.AL = st.AL.put(o, 1)
        return o

    # ---- symbols ---------------------------------------------------------------------------------------------------
    def symloc(self, st, name):
        """('L', frame, name) for register-like locals, ('G', name) for globals, ('M', obj) for memory-resident"""
        fr = st.frames[-1]
        if name in fr.loc:
            v = fr.loc[name]
            if isinstance(v, tuple) and v[0] == 'M':
                return v
            return ('L', fr, name)
        if name in st.glob:
            return st.glob[name]
        s = self.p.syms.get(name)
        if s is None:
            raise Unsupported('symbol ' + name)
        if s['isStaticLifetime']:
            o = self.newobj(st, self.sizeof0(s['type']))
            st.glob[name] = ('M', o)
            return st.glob[name]
        if s['type']['id'] != 'code':
            self.declare(st, name, s['type'])    # local without DECL yet
            return self.symloc(st, name)
        raise Unsupported('symbol ' + name)

    def sizeof0(self, t):
        try:
            return self.p.sizeof(t)
        except Unsupported:
            return 8

    def vsize(self, st, t):
        """size of a declared object; variable-length arrays have the value of their size expression"""
        r = self.p.resolve(t)
        if r['id'] == 'array' and ns(r, 'size')['id'] != 'constant':
            n = simp(self.ev(st, ns(r, 'size')))
            self.oblige(st, 'vla', 'array size is positive', n > 0) if not con(n) else None
            return simp(n * self.vsize(st, r['sub'][0]))
        return self.p.sizeof(t)

    def declare(self, st, name, t):
        fr = st.frames[-1]
        if self.p.is_agg(t) or name in self.p.address_taken(fr.fn):
            fr.loc[name] = ('M', self.newobj(st, self.vsize(st, t)))
        else:
            fr.loc[name] = self.nondet(st, t, name.split('::')[-1])

    def nondet(self, st, t, nm='nd'):
        k = self.p.kind(t)
        if k == 'P':
            o, f = self.fresh(nm + '_o'), self.fresh(nm + '_f')
            self.S.add(o < st.next)
            return ('P', o, f)
        if k == 'B':
            self.n += 1
            return z3.Bool('%s!%d' % (nm, self.n))
        v = self.fresh(nm)
        lo, hi = RANGE[k]
        self.S.add(z3.And(v >= lo, v <= hi))
        self.note(v, lo, hi)
        return v

    # ---- expressions -----------------------------------------------------------------------------------------------
    def lval(self, st, e):
        """location of an lvalue: ('L',frame,name) | ('A', obj, off)"""
        i = e['id']
        if i == 'symbol':
            l = self.symloc(st, ns(e, 'identifier')['id'])
            if l[0] == 'M':
                return ('A', l[1], 0)
            return l
        if i == 'dereference':
            p = self.ev(st, e['sub'][0])
            if not isinstance(p, tuple) or p[0] != 'P':
                raise Unsupported('deref')
            t = typ(e)
            if t['id'] != 'code':
                self.safe(st, p[1], p[2], self.sizeof0(t), 'pointer dereference')
            return ('A', p[1], p[2])
        if i == 'member':
            l = self.lval(st, e['sub'][0])
            off, _ = self.p.field(typ(e['sub'][0]), ns(e, 'component_name')['id'])
            if l[0] != 'A':
                raise Unsupported('member of register')
            return ('A', l[1], l[2] + off)
        if i == 'index':
            l = self.lval(st, e['sub'][0])
            idx = self.ev(st, e['sub'][1])
            at = self.p.resolve(typ(e['sub'][0]))
            sz = self.p.sizeof(at['sub'][0])
            if self.memsafe and not self.inq and not self.spec:
                try:
                    n = self.p.const_int(ns(at, 'size'))
                    if not (con(idx) and 0 <= idx < n):
                        self.oblige(st, 'deref', 'array index', And(idx >= 0, idx < n))
                except Unsupported:
                    pass
            return ('A', l[1], l[2] + idx * sz)
        if i == 'string_constant':
            return ('A', self.strobj(st, ns(e, 'value')['id']), 0)
        if i == 'if':
            c = simp(self.evb(st, e['sub'][0]))
            if isinstance(c, bool):
                return self.lval(st, e['sub'][1 if c else 2])
            a, b = self.lval(st, e['sub'][1]), self.lval(st, e['sub'][2])
            if a[0] == 'A' and b[0] == 'A':
                return ('A', If(c, a[1], b[1]), If(c, a[2], b[2]))
        if i == 'typecast':
            return self.lval(st, e['sub'][0])
        raise Unsupported('lvalue ' + i)

    def strobj(self, st, s):
        key = ('str', s)
        if key not in st.glob:
            bs = s.encode('utf-8', 'surrogateescape')
            o = self.newobj(st, len(bs) + 1)
            self.setar(st, 's8', o, AR(ZEROS, {i: (b if b < 128 else b - 256) for i, b in enumerate(bs)}))
            st.glob[key] = o
        return st.glob[key]

    def load(self, st, l, t):
        if l[0] == 'L':
            return l[1].loc[l[2]]
        if self.p.is_agg(t):
            return ('AGG', l[1], l[2])
        return self.rd(st, l[1], l[2], t)

    def evb(self, st, e):
        return self.tobool(self.ev(st, e))

    def evspec(self, st, e, b=True):
        """specification expression: mathematical arithmetic, total reads"""
        self.spec += 1
        try:
            return self.evb(st, e) if b else self.ev(st, e)
        finally:
            self.spec -= 1

    def tobool(self, v):
        if isinstance(v, tuple):
            return Not(Eq(v[1], 0))
        if isbool(v):
            return v
        if self.ite(v):
            a, b = self.ch(v, 1), self.ch(v, 2)
            if con(a) and con(b):
                return If(v.arg(0), a != 0, b != 0)
        return Not(Eq(v, 0))

    def toint(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def guarded(self, g, fn):
        g = simp(g)
        if g is True:
            return fn()
        self.guards.append(Z(g))
        try:
            return fn()
        finally:
            self.guards.pop()

    def ev(self, st, e):
        i = e['id']
        sub = e.get('sub', [])
        if i == 'symbol':
            nm = ns(e, 'identifier')['id']
            if self.inq and nm in self.bound:
                return self.bound[nm]
            return self.load(st, self.lval(st, e), typ(e))
        if i == 'constant':
            t = self.p.resolve(typ(e))
            v = ns(e, 'value')['id']
            if t['id'] == 'bool':
                return v == 'true'
            if t['id'] == 'pointer':
                if v == 'NULL' or set(v) <= {'0'}:
                    return ('P', 0, 0)
                raise Unsupported('pointer constant ' + v)
            if t['id'] == 'floatbv':
                raise Unsupported('float')
            return self.p.const_int(e)
        if i in ('dereference', 'member', 'index'):
            if i != 'member':
                v = self.ufmatch(st, e)
                if v is not None:
                    return v
            return self.load(st, self.lval(st, e), typ(e))
        if i == 'address_of':
            x = sub[0]
            if x['id'] == 'symbol' and typ(x) and typ(x)['id'] == 'code':
                return ('P', self.fobj(ns(x, 'identifier')['id']), 0)
            if x['id'] == 'index' and x['sub'][0]['id'] == 'string_constant':
                idx = self.ev(st, x['sub'][1])
                return ('P', self.strobj(st, ns(x['sub'][0], 'value')['id']), idx)
            sv = self.memsafe
            if x['id'] in ('index', 'dereference', 'member'):
                self.memsafe = False      # taking an address does not access
            try:
                l = self.lval(st, x)
            finally:
                self.memsafe = sv
            if l[0] != 'A':
                raise Unsupported('address of register')
            return ('P', l[1], l[2])
        if i == 'string_constant':
            return ('P', self.strobj(st, ns(e, 'value')['id']), 0)
        if i == 'typecast':
            return self.cast(st, self.ev(st, sub[0]), typ(sub[0]), typ(e))
        if i in ('and', 'or', '=>'):
            acc = []
            n0 = len(self.guards)
            try:
                for x in sub:
                    v = simp(self.evb(st, x))
                    if isinstance(v, bool):
                        if i == 'and' and not v:
                            return False if not acc else And(*acc, False)
                        if i == 'or' and v:
                            return True
                        if i == '=>' and not acc and not v:
                            return True
                        acc.append(v)
                        continue
                    acc.append(v)
                    if not self.inq:
                        self.guards.append(z3.Not(v) if i == 'or' else v)
            finally:
                del self.guards[n0:]
            return And(*acc) if i == 'and' else Or(*acc) if i == 'or' else Implies(acc[0], acc[1])
        if i == 'not':
            return Not(self.evb(st, sub[0]))
        if i == 'if':
            c = simp(self.evb(st, sub[0]))
            if isinstance(c, bool):
                return self.ev(st, sub[1 if c else 2])
            a = self.guarded(c, lambda: self.ev(st, sub[1])) if not self.inq else self.ev(st, sub[1])
            b = self.guarded(z3.Not(c), lambda: self.ev(st, sub[2])) if not self.inq else self.ev(st, sub[2])
            if isinstance(a, tuple):
                if a[0] == 'AGG':
                    return ('AGG', If(c, a[1], b[1]), If(c, a[2], b[2]))
                return ('P', If(c, a[1], b[1]), If(c, a[2], b[2]))
            if isbool(a) != isbool(b):
                a, b = self.toint(a), self.toint(b)
            return If(c, a, b)
        if i in ('=', 'notequal', '!='):
            a, b = self.ev(st, sub[0]), self.ev(st, sub[1])
            if isinstance(a, tuple):
                r = And(Eq(a[1], b[1]), Or(Eq(a[2], b[2]), Eq(a[1], 0)))
            else:
                if isbool(a) != isbool(b):
                    a, b = self.toint(a), self.toint(b)
                r = Eq(a, b)
            return r if i == '=' else Not(r)
        if i in ('<', '<=', '>', '>='):
            a, b = self.ev(st, sub[0]), self.ev(st, sub[1])
            if isinstance(a, tuple):
                if not self.spec:
                    self.oblige(st, 'ptrcmp', 'pointers compared are in the same object', Eq(a[1], b[1]))
                a, b = a[2], b[2]
            a, b = self.toint(a), self.toint(b)
            return a < b if i == '<' else a <= b if i == '<=' else a > b if i == '>' else a >= b
        if i in ('+', '-', '*'):
            vs = [self.ev(st, x) for x in sub]
            t = typ(e)
            if self.p.resolve(t)['id'] == 'pointer':
                sz = self.sizeof0(t['sub'][0])
                a, b = vs[0], vs[1]
                if not isinstance(a, tuple):
                    a, b = b, a
                d = self.toint(b) * sz
                return ('P', a[1], simp(a[2] + d if i == '+' else a[2] - d))
            if isinstance(vs[0], tuple):   # pointer difference
                sz = self.sizeof0(typ(sub[0])['sub'][0])
                if not self.spec:
                    self.oblige(st, 'ptrdiff', 'pointers subtracted are in the same object', Eq(vs[0][1], vs[1][1]))
                d = simp(vs[0][2] - vs[1][2])
                if sz == 1:
                    return d
                q = self._div(d, sz)
                return simp(q) if q is not None else (d // sz if con(d) else d / sz)
            k = self.p.kind(t)
            vs = [self.toint(v) for v in vs]
            r = vs[0]
            for v in vs[1:]:
                r = r + v if i == '+' else r - v if i == '-' else r * v
                r = self.wrap(st, r, k, i)
            return r
        if i == 'unary-':
            return self.wrap(st, -self.toint(self.ev(st, sub[0])), self.p.kind(typ(e)), '-')
        if i in ('/', 'mod'):
            a, b = [simp(self.toint(self.ev(st, x))) for x in sub]
            if not self.inq and not self.spec:
                self.oblige(st, 'divzero', 'divisor not zero', Not(Eq(b, 0)))
            k = self.p.kind(typ(e))
            if con(a) and con(b) and b != 0:
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                return q if i == '/' else a - q * b
            if k[0] == 'u' or self.spec or (self.proves(a >= 0) and self.proves(b > 0)):
                return Z(a) / Z(b) if i == '/' else Z(a) % Z(b)
            a, b = Z(a), Z(b)
            absa, absb = z3.If(a >= 0, a, -a), z3.If(b >= 0, b, -b)
            q = absa / absb
            q = z3.If((a >= 0) == (b >= 0), q, -q)
            return q if i == '/' else a - q * b
        if i in ('bitand', 'bitor', 'bitxor', 'shl', 'lshr', 'ashr', 'bitnot'):
            vs = [simp(self.toint(self.ev(st, x))) for x in sub]
            k = self.p.kind(typ(e))
            w = int(k[1:])
            if all(con(v) for v in vs):
                r = {'bitand': lambda: vs[0] & vs[1], 'bitor': lambda: vs[0] | vs[1], 'bitxor': lambda: vs[0] ^ vs[1], 'shl': lambda: vs[0] << vs[1],
                     'lshr': lambda: vs[0] >> vs[1], 'ashr': lambda: vs[0] >> vs[1], 'bitnot': lambda: ~vs[0]}[i]()
                return (r - RANGE[k][0]) % (1 << w) + RANGE[k][0]
            if i == 'shl' and con(vs[1]):
                return self.wrap(st, vs[0] * (1 << vs[1]), k, '*')
            if i in ('lshr', 'ashr') and con(vs[1]):
                return vs[0] / (1 << vs[1])
            bv = [z3.Int2BV(Z(v), w) for v in vs]
            r = {'bitand': lambda: bv[0] & bv[1], 'bitor': lambda: bv[0] | bv[1], 'bitxor': lambda: bv[0] ^ bv[1],
                 'bitnot': lambda: ~bv[0]}
            if i not in r:
                raise Unsupported(i)
            return z3.BV2Int(r[i](), k[0] == 's')
        if i in ('object_size', 'pointer_offset', 'pointer_object'):
            p = self.ev(st, sub[0])
            return self.sz(st, p[1]) if i == 'object_size' else p[2] if i == 'pointer_offset' else p[1]
        if i in ('r_ok', 'w_ok', 'rw_ok'):
            p = self.ev(st, sub[0])
            return self.inside(st, p[1], p[2], self.toint(self.ev(st, sub[1])))
        if i in ('forall', 'exists'):
            vars_ = sub[0]['sub'] if sub[0]['id'] == 'tuple' else [sub[0]]
            old = self.bound
            self.bound = dict(old)
            zs, rng = [], []
            for v in vars_:
                z = self.fresh('q')
                self.bound[ns(v, 'identifier')['id']] = z
                zs.append(z)
                lo, hi = RANGE[self.p.kind(typ(v))]
                rng += [z >= lo, z <= hi]
            self.inq += 1
            sg = self.guards
            self.guards = []
            try:
                b = Z(self.evb(st, sub[1]))
            finally:
                self.inq -= 1
                self.guards = sg
                self.bound = old
            return z3.ForAll(zs, z3.Implies(z3.And(*rng), b)) if i == 'forall' else z3.Exists(zs, z3.And(*(rng + [b])))
        if i == 'function_application':
            f = ns(sub[0], 'identifier')['id']
            if not f.startswith('__CPROVER_uninterpreted_'):
                raise Unsupported('function_application ' + f)
            return self.uf(st, f, [self.ev(st, a) for a in sub[1].get('sub', [])], typ(e))
        if i == 'empty_union' or i == 'nil':
            return None
        if i == 'side_effect' and ns(e, 'statement')['id'] == 'nondet' and not self.p.is_agg(typ(e)):
            return self.nondet(st, typ(e))
        raise Unsupported('expression ' + i + ' ' + str(ns(e, 'statement') or '')[:60] + ' in ' + (st.frames[-1].fn + ':' + str(st.frames[-1].pc) if st.frames else ''))

    def fobj(self, nm):
        if nm not in self.objids:
            self.objids[nm] = -(len(self.objids) + 1)
        return self.objids[nm]

    def cast(self, st, v, ft, tt):
        rf, rt = self.p.resolve(ft), self.p.resolve(tt)
        if rt['id'] == 'empty':
            return v
        if rt['id'] == 'bool':
            return self.tobool(v)
        if rt['id'] == 'pointer':
            if isinstance(v, tuple):
                a, b = self.p.resolve(rf['sub'][0])['id'] if rf['id'] == 'pointer' else 'empty', self.p.resolve(rt['sub'][0])['id']
                if a in ('unsignedbv', 'signedbv', 'pointer') and b in ('unsignedbv', 'signedbv', 'pointer'):
                    if self.p.kind(rf['sub'][0]) != self.p.kind(rt['sub'][0]):
                        raise Unsupported('pointer cast between scalar kinds')
                return v
            if simp(v) == 0 and con(simp(v)):
                return ('P', 0, 0)
            raise Unsupported('int to pointer')
        if isinstance(v, tuple):
            if rt['id'] == 'c_bool':
                return self.toint(self.tobool(v))
            raise Unsupported('pointer to int')
        k = self.p.kind(tt)
        if rt['id'] == 'c_bool':
            return self.toint(self.tobool(v))
        v = self.toint(v)
        fk = self.p.kind(ft) if rf['id'] != 'bool' else 'u8'
        if fk == 'B':
            return v
        if RANGE[k][0] <= RANGE[fk][0] and RANGE[fk][1] <= RANGE[k][1]:
            return v
        return self.wrap(st, v, k)

    def store(self, st, l, t, v):
        if l[0] == 'L':
            v = self.fit(v, t)
            if self.guards and not isinstance(v, tuple):
                old = l[1].loc[l[2]]
                v = If(And(*self.guards), v, old)
            elif self.guards:
                old = l[1].loc[l[2]]
                g = And(*self.guards)
                v = ('P', If(g, v[1], old[1]), If(g, v[2], old[2]))
            l[1].loc[l[2]] = v
        elif isinstance(v, tuple) and v[0] == 'AGG':
            vals = [(o, u, self.rd(st, v[1], v[2] + o, u)) for o, u in self.p.scalars(t)]
            for o, u, x in vals:
                self.wr(st, l[1], l[2] + o, u, x)
        else:
            self.wr(st, l[1], l[2], t, self.fit(v, t))

    def fit(self, v, t):
        if isinstance(v, tuple):
            return v
        if self.p.resolve(t)['id'] == 'bool':
            return simp(self.tobool(v))
        return simp(self.toint(v))

    def assign(self, st, lhs, rhs):
        t = typ(lhs)
        i = rhs['id']
        if i == 'side_effect':
            s = ns(rhs, 'statement')['id']
            if s == 'nondet':
                if self.p.is_agg(t):
                    l = self.lval(st, lhs)
                    for o, u in self.p.scalars(t):
                        self.wr(st, l[1], l[2] + o, u, self.nondet(st, u))
                    return
                self.store(st, self.lval(st, lhs), t, self.nondet(st, t))
                return
            if s == 'va_start' and st.frames[-1].va is not None:
                self.store(st, self.lval(st, lhs), t, ('P', st.frames[-1].va, 0))
                return
            raise Unsupported('side effect ' + s)
        if i in ('struct', 'array', 'vector'):
            self.agg(st, self.lval(st, lhs), t, rhs)
            return
        if i == 'array_of':
            self.zero_array(st, self.lval(st, lhs), t)
            return
        v = self.ev(st, rhs)
        self.store(st, self.lval(st, lhs), t, v)

    def zero_array(self, st, l, t):
        r = self.p.resolve(t)
        o, f = simp(l[1]), simp(l[2])
        if r['id'] == 'array' and con(o) and con(f) and f == 0 and not self.p.is_agg(r['sub'][0]) and self.p.sizeof(t) > 1024 \
                and simp(self.sz(st, o)) == self.p.sizeof(t):
            k = self.p.kind(r['sub'][0])
            if k != 'B':
                self.framecheck(st, o)
                for kk in ('Po', 'Pf') if k == 'P' else (k,):
                    self.setar(st, kk, o, AR(ZEROS))
                return
        for o, u in self.p.scalars(t):
            self.wr(st, l[1], l[2] + o, u, self.zeroof(u))

    def zeroof(self, u):
        k = self.p.kind(u)
        return ('P', 0, 0) if k == 'P' else False if k == 'B' else 0

    def agg(self, st, l, t, e):
        r = self.p.resolve(t)
        if e['id'] == 'typecast' and self.p.is_agg(t):
            return self.agg(st, l, t, e['sub'][0])
        if e['id'] == 'struct':
            for c, x in zip(ns(r, 'components')['sub'], e.get('sub', [])):
                if self.p.pad(c):
                    continue
                o, ct = self.p.field(t, ns(c, 'name')['id'])
                self.agg(st, ('A', l[1], l[2] + o), ct, x)
        elif e['id'] == 'array':
            sz = self.p.sizeof(r['sub'][0])
            for i, x in enumerate(e.get('sub', [])):
                self.agg(st, ('A', l[1], l[2] + i * sz), r['sub'][0], x)
        elif e['id'] == 'array_of':
            self.zero_array(st, l, t)
        elif e['id'] == 'string_constant' and r['id'] == 'array':
            bs = ns(e, 'value')['id'].encode('utf-8', 'surrogateescape')
            n = self.p.const_int(ns(r, 'size'))
            for i in range(n):
                b = bs[i] if i < len(bs) else 0
                self.wr(st, l[1], l[2] + i, r['sub'][0], b if b < 128 else b - 256)
        else:
            self.store(st, l, t, self.ev(st, e))

    # ---- loops -----------------------------------------------------------------------------------------------------
    def looprange(self, fn, pc):
        f = self.p.funcs[fn]
        best = None
        for i, ins in enumerate(f['instructions']):
            if ins['instructionId'] == 'GOTO':
                for tg in ins.get('targets', []):
                    t = f['idx'][tg]
                    if t <= i and t <= pc <= i:
                        if best is None or t > best[0]:
                            best = (t, i)
                        elif t == best[0] and i > best[1]:
                            best = (t, i)
        if best is None:
            raise Unsupported('vc_inv outside a loop')
        return best

    def modset(self, fn, lo, hi, seen=None):
        """(assigned symbols of fn, memory kinds written, allocates, writes-through-memory-resident symbol names)"""
        seen = seen if seen is not None else set()
        f = self.p.funcs[fn]
        syms, kinds, alloc, roots, globs = set(), set(), False, set(), set()
        taken = self.p.address_taken(fn)

        def lhs(e):
            t = typ(e)
            x = e
            deref = False
            while x['id'] in ('member', 'index', 'dereference', 'typecast'):
                if x['id'] == 'dereference':
                    deref = True
                    break
                x = x['sub'][0]
            us = [u for _, u in self.p.scalars(t)] if self.p.is_agg(t) else [t]
            if deref:
                for u in us:
                    kinds.add(self.p.kind(u))
            elif x['id'] == 'symbol':
                nm = ns(x, 'identifier')['id']
                s = self.p.syms.get(nm)
                static = s and s['isStaticLifetime']
                if static:
                    globs.add(nm)
                elif nm in taken or self.p.is_agg(typ(x)):
                    roots.add(nm)
                else:
                    syms.add(nm)
                    return
                for u in us:
                    kinds.add(self.p.kind(u))

        for ins in f['instructions'][lo:hi + 1]:
            iid = ins['instructionId']
            if iid == 'ASSIGN':
                lhs(ins['code']['sub'][0])
            elif iid == 'DECL':
                s = ins['code']['sub'][0]
                nm = ns(s, 'identifier')['id']
                if nm in taken or self.p.is_agg(typ(s)):
                    alloc = True
                    roots.add(nm)
                else:
                    syms.add(nm)
            elif iid == 'FUNCTION_CALL':
                c = ins['code']['sub']
                if c[0]['id'] != 'nil':
                    lhs(c[0])
                if c[1]['id'] != 'symbol':
                    continue
                g = ns(c[1], 'identifier')['id']
                g = self.replace.get(g, g)
                if g in ('malloc', 'calloc', 'realloc') or g.startswith('in_'):
                    alloc = True
                    if g in ('calloc', 'realloc') or g.startswith('in_'):
                        kinds |= {'*'}
                elif g in ('memset', 'memcpy', 'memmove', 'vc_havoc_obj') or g.startswith('u32_') or g in ('strcpy', 'strcat', 'strncpy'):
                    kinds |= {'*'}
                    if g in ('u32_strdup',):
                        alloc = True
                elif g in ('strdup',):
                    alloc = True
                    kinds |= {'s8'}
                elif g == 'free':
                    kinds |= {'AL'}
                if g in self.p.funcs and g not in seen:
                    seen.add(g)
                    _, k2, a2, r2, g2 = self.modset(g, 0, len(self.p.funcs[g]['instructions']) - 1, seen)
                    kinds |= k2
                    alloc = alloc or a2
                    globs |= g2
        return syms, kinds, alloc, roots, globs


    def conjuncts(self, e):
        if e['id'] == 'typecast' and self.p.resolve(typ(e))['id'] in ('c_bool', 'bool', 'signedbv'):
            return self.conjuncts(e['sub'][0])
        if e['id'] == 'and':
            return [y for x in e['sub'] for y in self.conjuncts(x)]
        return [e]

    def obl_inv(self, st, kind, name, e):
        for i, c in enumerate(self.conjuncts(e)):
            self.oblige(st, kind, 'loop %s clause %d' % (name, i), self.evspec(st, c))

    def loop_head(self, st, key, inv_e, args):
        """returns False when the path ends here"""
        fr = st.frames[-1]
        pc = fr.pc
        name = '%s#%s' % (fr.fn, key)
        dec_e = args[2] if len(args) > 2 else None
        if '$tmp::' in json.dumps(inv_e) or (dec_e and '$tmp::' in json.dumps(dec_e)):
            raise Unsupported('invariant of loop %s is not a pure expression' % name)
        for l in fr.loops:
            if l.k == name:
                objs = []
                for (ty, ob, off) in l.own:
                    q = self.rd(st, ob, off, ty)
                    q = ('P', simp(q[1]), q[2])
                    ok = self.proves(And(q[1] >= l.ownlo, q[1] < st.next)) if not con(q[1]) else q[1] >= l.ownlo
                    self.oblige(st, 'invariant-step', 'loop %s owned object' % name, And(Eq(q[2], 0), Eq(self.al(st, q[1]), 1), ok))
                    for o2 in objs:
                        self.oblige(st, 'invariant-step', 'loop %s owned objects are distinct' % name, Not(Eq(q[1], o2)))
                    objs.append(q[1])
                for w, a in l.al:
                    self.oblige(st, 'invariant-step', 'loop %s written objects stay allocated' % name, Eq(self.al(st, w), a))
                for (ty, ob, off, v0) in l.kept:
                    v1 = self.rd(st, ob, off, ty)
                    same = And(Eq(v1[1], v0[1]), Eq(v1[2], v0[2])) if isinstance(v0, tuple) else Eq(self.toint(v1), self.toint(v0))
                    self.oblige(st, 'invariant-step', 'loop %s keeps value' % name, same)
                self.obl_inv(st, 'invariant-step', name, inv_e)
                if dec_e is not None:
                    d = self.toint(self.evspec(st, dec_e, False))
                    self.oblige(st, 'decreases', 'loop %s terminates' % name, And(d < l.dec, l.dec > 0))
                return False
        owns = fr.ws.pop('own' + name, ())
        keeps = fr.ws.pop('keep' + name, ())
        kept = [(ty, ob, off, self.rd(st, ob, off, ty)) for (ty, ob, off) in keeps]
        own0 = []
        for (ty, ob, off) in owns:
            q = self.rd(st, ob, off, ty)
            q = ('P', simp(q[1]), q[2])
            self.oblige(st, 'invariant-base', 'loop %s owned object' % name, And(Eq(q[2], 0), Eq(self.al(st, q[1]), 1)))
            for o2 in own0:
                self.oblige(st, 'invariant-base', 'loop %s owned objects are distinct' % name, Not(Eq(q[1], o2)))
            own0.append(q[1])
        self.obl_inv(st, 'invariant-base', name, inv_e)
        lo, hi = self.looprange(fr.fn, pc)
        syms, kinds, alloc, roots, globs = self.modset(fr.fn, lo, hi)
        W = list(fr.ws.pop(name, []))
        l = Loop()
        l.k, l.rng = name, (lo, hi)
        for nm in sorted(roots):
            if nm in fr.loc and isinstance(fr.loc[nm], tuple) and fr.loc[nm][0] == 'M':
                W.append(fr.loc[nm][1])
        for g in sorted(globs):
            W.append(self.symloc(st, g)[1])
        W = [simp(w) for w in W]
        l.W = W
        l.own = owns
        l.next = onext = st.next
        if alloc:
            # objects allocated by earlier iterations get identities from a reserved block (2^80 of them)
            st.next = onext + (1 << 80)
        hk = set(self.ALLK) if '*' in kinds else {x for k in kinds for x in (('Po', 'Pf') if k == 'P' else (k,))}
        hk.discard('AL')
        hk.discard('B')
        for k in sorted(hk):
            self.hp(st, k)
            F = self.freshc('Hv_' + k, HEAP)
            for w in W:
                self.setar(st, k, w, AR(z3.Select(F, Z(w))))
            if alloc:
                base, objs = st.heap[k]
                o = z3.Int('lo!')
                st.heap[k] = (z3.Lambda([o], z3.If(z3.And(o >= onext, o < st.next), z3.Select(F, o), z3.Select(base, o))), objs)
        # liveness of the written objects is part of every invariant
        l.WF = [simp(w) for w in fr.ws.pop('free' + name, ())]
        l.al = [(w, self.al(st, w)) for w in W + l.WF] if 'AL' in kinds else []
        if alloc:
            FA, FS = self.freshc('ALv', ARR), self.freshc('SZv', ARR)
            o = z3.Int('lo!')
            if alloc:
                cond = z3.And(o >= onext, o < st.next)
                st.AL = AR(z3.Lambda([o], z3.If(cond, z3.Select(FA, o), z3.Select(st.AL.a, o))), st.AL.d)
                st.SZ = AR(z3.Lambda([o], z3.If(cond, z3.Select(FS, o), z3.Select(st.SZ.a, o))), st.SZ.d)
        # owned pointers: afterwards they point to objects of their own; the former objects are inaccessible
        l.ownlo = st.next
        for w in own0:
            self.framecheck(st, w, 'free')
            st.AL = st.AL.put(w, 0)
        for (ty, ob, off) in owns:
            z = self.fresh('ownsz')
            self.S.add(z >= 0)
            o = self.newobj(st, z)
            self.wr(st, ob, off, ty, ('P', o, 0))
        for (ty, ob, off, v0) in kept:
            self.wr(st, ob, off, ty, v0)
        l.kept = kept
        havoc = set()
        for nm in sorted(syms):
            if nm in fr.loc:
                t = self.p.syms[nm]['type']
                fr.loc[nm] = self.nondet(st, t, nm.split('::')[-1])
                havoc.add(nm)
        fr.loops.append(l)
        rest = []
        for c in self.conjuncts(inv_e):
            # "local == expression" defines the local
            if c['id'] == '=' and c['sub'][0]['id'] == 'symbol':
                nm = ns(c['sub'][0], 'identifier')['id']
                if nm in havoc and nm not in json.dumps(c['sub'][1]):
                    havoc.discard(nm)
                    t = self.p.syms[nm]['type']
                    v = self.evspec(st, c['sub'][1], False)
                    if isinstance(v, tuple):
                        fr.loc[nm] = ('P', simp(v[1]), simp(v[2]))
                        continue
                    k = self.p.kind(t)
                    if k in RANGE:
                        v = simp(self.toint(v))
                        lo_, hi_ = RANGE[k]
                        self.assume(And(v >= lo_, v <= hi_))
                        fr.loc[nm] = v
                        continue
            rest.append(c)
        for c in rest:
            self.assume(self.evspec(st, c))
        if dec_e is not None:
            d = self.fresh('dec')
            self.assume(d == self.toint(self.evspec(st, dec_e, False)))
            l.dec = d
        return True

    # ---- calls -----------------------------------------------------------------------------------------------------
    def call(self, st, code):
        fr = st.frames[-1]
        c = code['sub']
        lhs, fe, args = c[0], c[1], c[2].get('sub', [])
        if fe['id'] == 'symbol':
            g = ns(fe, 'identifier')['id']
        elif fe['id'] == 'dereference':
            g = None
            pv = self.ev(st, fe['sub'][0])
            o = simp(pv[1])
            for nm, i in self.objids.items():
                if con(o) and o == i:
                    g = nm
            if g is None:
                x = fe['sub'][0]
                if x['id'] == 'symbol' and ns(x, 'identifier')['id'] in self.noeffect:
                    g = ns(x, 'identifier')['id']
                else:
                    raise Unsupported('call through unknown function pointer')
        else:
            raise Unsupported('callee ' + fe['id'])
        rt = ns(typ(fe), 'return_type') if typ(fe) else None
        orig = g
        # a recursive function: its own calls go to its contract (named .._rec), the harness calls the body
        if g in self.replace and not (fr.fn == 'harness' and self.replace[g].endswith('_rec')):
            g = self.replace[g]
            self.contracts_used.add(orig)

        def ret(v):
            if lhs['id'] != 'nil':
                self.store(st, self.lval(st, lhs), typ(lhs), v)
            fr.pc += 1
            return True
        A = lambda i: self.ev(st, args[i])
        if g in self.p.funcs and g not in self.noeffect and not g.startswith('vc_') and g not in ('malloc','free','calloc','realloc'):
            vals = []
            params = [q for q in self.p.funcs[g].get('parameterIdentifiers', [])]
            for a in args:
                vals.append(self.ev(st, a))
            nf = Frame(g, lhs)
            nf.entry_next = st.next
            self.called.add(g)
            st.frames.append(nf)
            if sum(1 for x in st.frames if x.fn == g) > 8:
                raise Unsupported('recursion of ' + g)
            for i, q in enumerate(params):
                if i >= len(vals):
                    break
                t = self.p.syms[q]['type']
                self.declare(st, q, t) if (self.p.is_agg(t) or q in self.p.address_taken(g)) else None
                if q in nf.loc:
                    self.store(st, ('A', nf.loc[q][1], 0), t, vals[i])
                else:
                    nf.loc[q] = self.fit(vals[i], t)
            if len(vals) > len(params) and params:       # variable arguments: an array of pointers to the values passed
                nf.va = self.newobj(st, 8 * (len(vals) - len(params)))
                for i in range(len(params), len(vals)):
                    t = typ(args[i])
                    o = self.newobj(st, 8)
                    self.store(st, ('A', nf.va, 8 * (i - len(params))), VOIDP, ('P', o, 0))
                    self.store(st, ('A', o, 0), t, vals[i])
                    k = self.p.kind(t)
                    if k in ('s32', 'u32') and not isinstance(vals[i], tuple):   # it may be read with the other signedness
                        v = vals[i]
                        self.wr(st, o, 0, INT32[k == 's32'], If(v < 0, v + 2 ** 32, v) if k == 's32' else If(v >= 2 ** 31, v - 2 ** 32, v))
            return True
        if g == 'vc_inv' or g == 'vc_inv_dec':
            key = str(self.p.const_int(args[0]))
            if self.loop_head(st, key, args[1], args) is False:
                return False
            fr.pc += 1
            return True
        if g == 'vc_w':
            key = '%s#%s' % (fr.fn, self.p.const_int(args[0]))
            if any(l.k == key for l in fr.loops):
                fr.pc += 1
                return True
            p = A(1)
            fr.ws[key] = fr.ws.get(key, ()) + (p[1],)
            fr.pc += 1
            return True
        if g == 'vc_f':         # vc_f(k, p): the loop may free the object of p before leaving (but does not write it)
            key = '%s#%s' % (fr.fn, self.p.const_int(args[0]))
            if not any(l.k == key for l in fr.loops):
                fr.ws['free' + key] = fr.ws.get('free' + key, ()) + (A(1)[1],)
            fr.pc += 1
            return True
        if g == 'vc_keep':      # vc_keep(k, &scalar): the loop does not change it
            key = '%s#%s' % (fr.fn, self.p.const_int(args[0]))
            if not any(l.k == key for l in fr.loops):
                p = A(1)
                x = args[1]
                while x['id'] == 'typecast':
                    x = x['sub'][0]
                fr.ws['keep' + key] = fr.ws.get('keep' + key, ()) + ((typ(x)['sub'][0], p[1], p[2]),)
            fr.pc += 1
            return True
        if g == 'vc_own':       # vc_own(k, &pointer): the pointer exclusively owns its object in every iteration
            key = '%s#%s' % (fr.fn, self.p.const_int(args[0]))
            if not any(l.k == key for l in fr.loops):
                p = A(1)
                x = args[1]
                while x['id'] == 'typecast':
                    x = x['sub'][0]
                fr.ws['own' + key] = fr.ws.get('own' + key, ()) + ((typ(x)['sub'][0], p[1], p[2]),)
            fr.pc += 1
            return True
        if g == 'vc_cover':
            nm = self.strarg(args[0])
            self.cover_sites.add(nm)
            if self.covers.get(nm) != 'reached':
                r, _ = self._check(True, 5000)
                self.covers[nm] = 'reached' if r == z3.sat else ('maybe' if r == z3.unknown else self.covers.get(nm, 'no'))
            return ret(None)
        if g == 'vc_objsize':
            return ret(self.sz(st, A(0)[1]))
        if g == 'vc_off':
            return ret(A(0)[2])
        if g == 'vc_obj':
            return ret(A(0)[1])
        if g == 'vc_valid':     # p points to at least n readable bytes
            p, n = A(0), self.toint(A(1))
            return ret(self.toint(self.inside(st, p[1], p[2], n)))
        if g == 'vc_new':       # object allocated since the current function was entered
            p = A(0)
            return ret(self.toint(p[1] >= fr.entry_next))
        if g == 'vc_alive':
            return ret(self.toint(Eq(self.al(st, A(0)[1]), 1)))
        if g == 'vc_havoc_obj':
            p = A(0)
            self.framecheck(st, p[1])
            for k in self.ALLK:
                self.setar(st, k, p[1], AR(self.freshc('Ho_' + k, ARR)))
            return ret(None)
        if g.startswith('in_'):
            return self.input(st, g, args, ret)
        if g.startswith('nondet'):
            return ret(self.nondet(st, rt, g))
        if g.startswith('__CPROVER_uninterpreted_'):
            return ret(self.uf(st, g, [A(i) for i in range(len(args))], rt))
        if g == 'malloc':
            return ret(('P', self.newobj(st, self.toint(A(0))), 0))
        if g == 'calloc':
            o = self.newobj(st, self.toint(A(0)) * self.toint(A(1)))
            for k in self.ALLK:
                self.setar(st, k, o, AR(ZEROS))
            return ret(('P', o, 0))
        if g == 'realloc':
            p, n = A(0), self.toint(A(1))
            old = simp(p[1])
            if self.memsafe:
                self.oblige(st, 'deref', 'realloc of a live object', Or(Eq(old, 0), And(Eq(self.al(st, old), 1), Eq(p[2], 0))))
            o = self.newobj(st, n)
            if not (con(old) and old == 0):
                osz = self.sz(st, old)
                for k in self.ALLK:
                    w = self.WIDTH['P' if k in ('Po', 'Pf') else k]
                    F = self.freshc('re_' + k, ARR)
                    j = z3.Int('rj!')
                    self.setar(st, k, o, AR(z3.Lambda([j], z3.If(z3.And(old != 0, j >= 0, (j + 1) * w <= osz), z3.Select(self.arr(st, k, old), j), z3.Select(F, j)))))
            self.kill(st, p)
            return ret(('P', o, 0))
        if g == 'free':
            p = A(0)
            if self.memsafe:
                self.oblige(st, 'deref', 'free of a live object', Or(Eq(p[1], 0), And(Eq(self.al(st, p[1]), 1), Eq(p[2], 0))))
            self.kill(st, p)
            return ret(None)
        if g in ('memset', 'memcpy', 'memmove', 'u32_cpy', 'u32_set', 'u32_move'):
            return self.bulk(st, g, args, ret)
        if g in ('strlen', 'u32_strlen'):
            p = A(0)
            k = 's8' if g == 'strlen' else 'u32'
            base = self.index(st, p[2], k)
            if con(simp(p[1])) and con(base):       # constant contents
                a = self.ar(st, k, simp(p[1]))
                for q in range(400):
                    v = a.get(base + q)
                    if not con(v):
                        break
                    if v == 0:
                        if self.memsafe:
                            self.safe(st, p[1], p[2], (q + 1) * self.WIDTH[k], g + ' argument terminated inside its object')
                        return ret(q)
            n = self.fresh('len')
            a = self.arr(st, k, p[1])
            q = self.fresh('q')
            self.assume(z3.And(n >= 0, z3.Select(a, base + n) == 0,
                               z3.ForAll([q], z3.Implies(z3.And(base <= q, q < base + n), z3.Select(a, q) != 0))))
            if self.memsafe:
                self.safe(st, p[1], p[2], (n + 1) * self.WIDTH[k], g + ' argument terminated inside its object')
            return ret(n)
        if g in self.noeffect or orig in self.noeffect:
            if lhs['id'] != 'nil':
                return ret(self.nondet(st, typ(lhs)))
            fr.pc += 1
            return True
        if g in self.abort:
            return False
        raise Unsupported('call to %s (no body, no contract)' % g)

    def uf(self, st, g, vals, rt):
        flat = []
        for v in vals:
            flat += [v[1], v[2]] if isinstance(v, tuple) else [self.toint(v)]
        f = self.ufs.setdefault(g, z3.Function(g, *([INT] * len(flat) + [INT])))
        v = f(*[Z(x) for x in flat]) if flat else z3.Int(g)
        if not self.inq:
            lo, hi = RANGE[self.p.kind(rt)]
            self.S.add(z3.And(v >= lo, v <= hi))
        return v

    def ufmatch(self, st, e):
        """vc_uf_NAME[a][b]..: application of an uninterpreted function; None if e is something else"""
        idx = []
        x = e
        while True:
            if x['id'] == 'dereference':
                y = x['sub'][0]
                if y['id'] != '+':
                    return None
                idx.append(y['sub'][1])
                x = y['sub'][0]
            elif x['id'] == 'index':
                idx.append(x['sub'][1])
                x = x['sub'][0]
            elif x['id'] == 'symbol' and ns(x, 'identifier')['id'].startswith('vc_uf_') and idx:
                break
            else:
                return None
        return self.uf(st, ns(x, 'identifier')['id'], [self.ev(st, i) for i in reversed(idx)], typ(e))

    def kill(self, st, p):
        obj = simp(p[1])
        if con(obj) and obj == 0:
            return
        self.framecheck(st, obj, 'free')
        st.AL = st.AL.put(obj, If(Eq(obj, 0), self.al(st, 0), 0))

    def strarg(self, e):
        while e['id'] != 'string_constant':
            e = e['sub'][0]
        return ns(e, 'value')['id']

    def elemtype(self, e):
        while e['id'] == 'typecast' and self.p.resolve(typ(e))['id'] == 'pointer' and self.p.resolve(typ(e)['sub'][0])['id'] == 'empty':
            e = e['sub'][0]
        return typ(e)['sub'][0]

    def bulk(self, st, g, args, ret):
        A = lambda i: self.ev(st, args[i])
        d = A(0)
        blur = []
        if g.startswith('u32_'):
            et, w = None, 4
            kinds = ['u32']
            if g == 'u32_set':
                val, n = self.toint(A(1)), self.toint(A(2))
            else:
                s, n = A(1), self.toint(A(2))
            nb = n * 4
        else:
            et = self.elemtype(args[0])
            nb = self.toint(A(2))
            if g == 'memset':
                val = self.toint(A(1))
                val = simp(val)
                if not con(val) and not self.proves(z3.And(val >= 0, val <= 127)):
                    raise Unsupported('memset symbolic value')
            else:
                s = A(1)
            if self.p.resolve(et)['id'] == 'empty':
                kinds = list(self.ALLK)
            elif self.p.is_agg(et):
                kinds = sorted({x for _, u in self.p.scalars(et) for x in (('Po', 'Pf') if self.p.kind(u) == 'P' else (self.p.kind(u),))})
            else:
                kinds = ['Po', 'Pf'] if self.p.kind(et) == 'P' else [self.p.kind(et)]
            if g == 'memset' and not (con(val) and val == 0) and kinds not in (['s8'], ['u8']):
                if self.p.resolve(et)['id'] != 'empty':
                    raise Unsupported('memset non-zero')
                # bytes of unknown type: exact as characters, arbitrary when read as anything else
                blur, kinds = [k for k in kinds if k not in ('s8', 'u8')], ['s8', 'u8']
        nb = simp(nb)
        nonempty = nb > 0
        if self.memsafe:
            self.oblige(st, 'deref', g + ' destination', Implies(nonempty, self.inside(st, d[1], d[2], nb)))
            if g not in ('memset', 'u32_set'):
                self.oblige(st, 'deref', g + ' source', Implies(nonempty, self.inside(st, s[1], s[2], nb)))
        dobj = simp(d[1])
        self.framecheck(st, dobj)
        for k in blur:
            self.setar(st, k, dobj, AR(self.freshc('blur', ARR)))
        for k in kinds:
            kk = 'P' if k in ('Po', 'Pf') else k
            w = self.WIDTH[kk]
            di = self.index(st, d[2], kk)
            q_ = self._div(nb, w)
            cnt = simp(q_ if q_ is not None else (nb // w if con(nb) else nb / w))
            if g in ('memset', 'u32_set'):
                v = val if g == 'u32_set' or k in ('s8', 'u8') else 0
                src = lambda j: v
            else:
                si = self.index(st, s[2], kk)
                if con(simp(s[1])):
                    sa = self.ar(st, k, simp(s[1]))
                    src = lambda j, sa=sa, si=si: sa.get(simp(si + j)) if con(j) else z3.Select(sa.flat(), si + j)
                else:
                    b = self.arr(st, k, s[1])
                    src = lambda j, b=b, si=si: Sel(b, si + j)
            if con(cnt) and cnt <= 64:
                vals = [src(j) for j in range(cnt)]
                for j, x in enumerate(vals):
                    self.put(st, k, dobj, simp(di + j), simp(x))
            else:
                a = self.arr(st, k, dobj)
                j = z3.Int('bj!')
                self.setar(st, k, dobj, AR(z3.Lambda([j], z3.If(z3.And(j >= di, j < di + cnt), Z(src(j - di)), z3.Select(a, j)))))
        return ret(d)

    def input(self, st, g, args, ret):
        A = lambda i: simp(self.toint(self.ev(st, args[i])))
        if g in ('in_int', 'in_long', 'in_size', 'in_u32', 'in_char'):
            lo_, hi_ = A(0), A(1)
            if con(lo_) and con(hi_) and lo_ == hi_:
                st.inputs.append(('s', lo_))
                return ret(lo_)
            v = self.fresh(g)
            self.S.add(z3.And(v >= lo_, v <= hi_))
            if con(lo_) and con(hi_):
                self.note(v, lo_, hi_)
            if self.bounded and g == 'in_size':
                self.S.add(v <= lo_ + 3)
            st.inputs.append(('s', v))
            return ret(v)
        if g in ('in_u32arr', 'in_sizearr', 'in_intarr', 'in_str'):
            n = A(0)
            k = {'in_u32arr': 'u32', 'in_sizearr': 'u64', 'in_intarr': 's32', 'in_str': 's8'}[g]
            extra = 1 if g == 'in_str' else 0
            o = self.newobj(st, (n + extra) * self.WIDTH[k])
            arr = self.freshc('in', ARR)
            q = self.fresh('q')
            lo, hi = RANGE[k]
            if g == 'in_str':
                self.S.add(Z(Sel(arr, n) == 0))
                self.S.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(z3.Select(arr, q) != 0, z3.Select(arr, q) >= lo, z3.Select(arr, q) <= hi))))
            self.setar(st, k, o, AR(arr))
            st.inputs.append(('a', arr, n, k))
            return ret(('P', o, 0))
        raise Unsupported(g)

    # ---- execution -------------------------------------------------------------------------------------------------
    def run(self, entry='harness'):
        st = State()
        st.next = 1
        st.SZ, st.AL = AR(z3.Const('SZ0', ARR)), AR(z3.Const('AL0', ARR), {0: 0})
        st.glob = {}
        self.S.push()
        self.init_globals(st, entry)
        f = Frame(entry, {'id': 'nil'})
        f.entry_next = st.next
        st.frames.append(f)
        self.called.add(entry)
        self.exec(st)
        self.S.pop()

    def reach(self, entry):
        seen, todo, syms = set(), [entry], set()

        def walk(e):
            if isinstance(e, dict):
                if e.get('id') == 'symbol':
                    syms.add(ns(e, 'identifier')['id'])
                for x in e.get('sub', []):
                    walk(x)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            if f not in self.p.funcs or f in self.noeffect:
                continue
            n0 = set(syms)
            for ins in self.p.funcs[f]['instructions']:
                for k in ('code', 'guard'):
                    if k in ins:
                        walk(ins[k])
            for s in list(syms):
                s2 = self.replace.get(s, s)
                if s2 in self.p.funcs and s2 not in seen:
                    todo.append(s2)
                # initialisers of globals may reference others
        return syms

    def init_globals(self, st, entry):
        need = self.reach(entry)
        ini = self.p.funcs.get('__CPROVER_initialize')
        fr = Frame('__CPROVER_initialize', {'id': 'nil'})
        fr.entry_next = st.next
        st.frames.append(fr)
        grow = True
        ass = []
        for i, ins in enumerate(ini['instructions']):
            if ins['instructionId'] == 'ASSIGN':
                x = ins['code']['sub'][0]
                while x['id'] in ('member', 'index'):
                    x = x['sub'][0]
                ass.append((ns(x, 'identifier')['id'], i, ins))
        def syms_of(e, out):
            if e.get('id') == 'symbol':
                out.add(ns(e, 'identifier')['id'])
            for x in e.get('sub', []):
                syms_of(x, out)
        while grow:
            grow = False
            for nm, i, ins in ass:
                if nm in need:
                    o = set()
                    syms_of(ins['code']['sub'][1], o)
                    if not o <= need:
                        need |= o
                        grow = True
        sv = self.memsafe
        self.memsafe = False
        for nm, i, ins in ass:
            if nm in need:
                fr.pc = i
                try:
                    self.assign(st, ins['code']['sub'][0], ins['code']['sub'][1])
                except Unsupported as ex:
                    if 'float' not in str(ex) and 'union' not in str(ex):
                        raise
        self.memsafe = sv
        st.frames.pop()

    # ---- merging of small branch-free regions (if-conversion) ----------------------------------------------------------
    def region(self, fn, pc):
        """for the conditional forward jump at pc: ((IF, pc, fallthrough nodes, jump nodes), join) or None"""
        key = (fn, pc)
        if key not in self.regions:
            self.left = 14
            self.regions[key] = self.parse_if(fn, pc, None)
        return self.regions[key]

    def parse_if(self, fn, pc, lim):
        F = self.p.funcs[fn]
        I = F['instructions']
        t = F['idx'][I[pc]['targets'][0]]
        if t <= pc or (lim is not None and t > lim):
            return None
        last = I[t - 1]
        if t - 1 > pc and last['instructionId'] == 'GOTO' and self.uncond(last):
            j = F['idx'][last['targets'][0]]
            if j < t or (lim is not None and j > lim) or j - pc > 40:
                return None
            a, b = self.parse(fn, pc + 1, t - 1), self.parse(fn, t, j)
        else:
            if t - pc > 40:
                return None
            j = t
            a, b = self.parse(fn, pc + 1, t), []
        if a is None or b is None:
            return None
        return (('IF', pc, a, b), j)

    @staticmethod
    def uncond(ins):
        g = ins.get('guard')
        return g is None or (g['id'] == 'constant' and ns(g, 'value')['id'] == 'true')

    def parse(self, fn, a, b):
        F = self.p.funcs[fn]
        I = F['instructions']
        out = []
        while a < b:
            ins = I[a]
            iid = ins['instructionId']
            if iid in ('SKIP', 'LOCATION', 'DEAD'):
                a += 1
            elif iid == 'DECL' and ns(ins['code']['sub'][0], 'identifier')['id'] not in self.p.address_taken(fn) and not self.p.is_agg(typ(ins['code']['sub'][0])):
                out.append(('D', a))
                a += 1
            elif iid == 'ASSIGN':
                self.left -= 1
                l, r = ins['code']['sub'][0], ins['code']['sub'][1]
                t = typ(l)
                if self.left < 0 or self.p.is_agg(t) or self.p.resolve(t)['id'] not in ('unsignedbv', 'signedbv', 'bool', 'c_bool', 'c_enum') or r['id'] == 'side_effect':
                    return None
                out.append(('I', a))
                a += 1
            elif iid == 'GOTO' and not self.uncond(ins):
                r = self.parse_if(fn, a, b)
                if r is None:
                    return None
                out.append(r[0])
                a = r[1]
            else:
                return None
        return out

    def runregion(self, st, fall, jump, c):
        for g, nodes in ((Not(c), fall), (c, jump)):
            g = simp(g)
            if g is False or not nodes:
                continue
            if g is not True:
                self.guards.append(g)
            try:
                for nd in nodes:
                    fr = st.frames[-1]
                    fr.pc = nd[1]
                    ins = self.p.funcs[fr.fn]['instructions'][nd[1]]
                    if nd[0] == 'D':
                        s = ins['code']['sub'][0]
                        self.declare(st, ns(s, 'identifier')['id'], typ(s))
                    elif nd[0] == 'I':
                        self.assign(st, ins['code']['sub'][0], ins['code']['sub'][1])
                    else:
                        self.runregion(st, nd[2], nd[3], simp(self.evb(st, ins['guard'])))
            finally:
                if g is not True:
                    self.guards.pop()

    def exec(self, st):
        while True:
            if not st.frames:
                self.paths += 1
                return
            fr = st.frames[-1]
            F = self.p.funcs[fr.fn]
            if fr.loops:
                while fr.loops and not (fr.loops[-1].rng[0] <= fr.pc <= fr.loops[-1].rng[1]):
                    fr.loops.pop()
            ins = F['instructions'][fr.pc]
            self.where = '%s:%d' % (fr.fn, fr.pc)
            iid = ins['instructionId']
            if iid in ('SKIP', 'LOCATION', 'NOP', 'DEAD', 'OTHER'):
                if iid == 'OTHER':
                    s = ns(ins['code'], 'statement')['id'] if 'code' in ins else ''
                    if s not in ('expression', 'skip', 'printf', 'output', 'input'):
                        raise Unsupported('statement ' + s)
                    if s == 'expression' and ins['code'].get('sub'):
                        self.ev(st, ins['code']['sub'][0])
                fr.pc += 1
            elif iid == 'DECL':
                s = ins['code']['sub'][0]
                self.declare(st, ns(s, 'identifier')['id'], typ(s))
                fr.pc += 1
            elif iid == 'ASSIGN':
                self.assign(st, ins['code']['sub'][0], ins['code']['sub'][1])
                fr.pc += 1
            elif iid == 'ASSUME':
                self.assume(self.evspec(st, ins['guard']))
                fr.pc += 1
                r, _ = self._check(True, FEAS)
                if r == z3.unsat:
                    return
            elif iid == 'ASSERT':
                c = ins.get('sourceLocation', {}).get('comment') or ''
                m = re.search(r'// (.*)$', ins['instruction'].strip().split('\n')[-1])
                desc = c or (m.group(1) if m else ins['instruction'].strip().split('\n')[-1])
                self.oblige(st, 'assert', desc, self.evspec(st, ins['guard']))
                fr.pc += 1
            elif iid == 'FUNCTION_CALL':
                if self.call(st, ins['code']) is False:
                    self.paths += 1
                    return
            elif iid == 'SET_RETURN_VALUE':
                v = self.ev(st, (ins['code'].get('sub') or [None])[0])
                fr.loc['#ret'] = v
                fr.pc += 1
            elif iid == 'END_FUNCTION':
                d = len(st.frames)
                if st.unw:
                    st.unw = {q: v for q, v in st.unw.items() if q[0] < d}
                st.frames.pop()
                if st.frames:
                    up = st.frames[-1]
                    if fr.ret['id'] != 'nil':
                        v = fr.loc.get('#ret')
                        if v is None:
                            v = self.nondet(st, typ(fr.ret))
                        self.store(st, self.lval(st, fr.ret), typ(fr.ret), v)
                    up.pc += 1
            elif iid == 'GOTO':
                t = F['idx'][ins['targets'][0]]
                g = ins.get('guard')
                c = simp(self.evb(st, g)) if g else True
                back = t <= fr.pc
                if back:
                    key = (len(st.frames), fr.fn, fr.pc)
                    if not any(l.rng[0] == t for l in fr.loops):
                        if c is not False:
                            st.unw[key] = st.unw.get(key, 0) + 1
                        if st.unw.get(key, 0) > self.max_unwind:
                            if self.bounded:
                                return
                            self.oblige(st, 'unwinding', 'loop at instruction %d finishes within %d iterations' % (fr.pc, self.max_unwind), Not(c))
                            if c is True:
                                return
                            self.assume(Not(c))
                            fr.pc += 1
                            continue
                if c is True:
                    fr.pc = t
                elif c is False:
                    if back:
                        st.unw.pop((len(st.frames), fr.fn, fr.pc), None)
                    fr.pc += 1
                else:
                    rt_, _ = self._check(c, FEAS)
                    if rt_ == z3.unsat:
                        self.S.add(z3.Not(c))
                        fr.pc += 1
                        continue
                    rf_, _ = self._check(z3.Not(c), FEAS)
                    if rf_ == z3.unsat:
                        self.S.add(c)
                        fr.pc = t
                        continue
                    if self.paths > self.max_paths:
                        raise Budget('too many paths')
                    if self.merge and not back:
                        nodes = self.region(fr.fn, fr.pc)
                        if nodes:
                            self.runregion(st, nodes[0][2], nodes[0][3], c)
                            fr.pc = nodes[1]
                            continue
                    s2 = st.copy()
                    self.S.push()
                    self.assume(c)
                    s2.frames[-1].pc = t
                    self.exec(s2)
                    self.S.pop()
                    self.assume(Not(c))
                    fr.pc += 1
            else:
                raise Unsupported('instruction ' + iid)

def verify(gb, **kw):
    t = time.time()
    p = Program(gb)
    v = Verifier(p, **kw)
    err = None
    try:
        v.run()
    except Budget as ex:
        err = 'budget: %s' % ex
    except Unsupported as ex:
        err = 'unsupported: %s' % ex
    except z3.Z3Exception as ex:
        err = 'z3: %s' % ex
    except Exception:
        import traceback
        err = 'unsupported: internal ' + traceback.format_exc()[-1500:]
    return {'error': err, 'obligations': v.obl, 'covers': v.covers, 'cover_sites': sorted(v.cover_sites), 'functions': sorted(v.called),
            'contracts_used': sorted(v.contracts_used), 'solver_s': round(v.z3_time, 2), 'checks': v.checks, 'paths': v.paths,
            'wall_s': round(time.time() - t, 2)}

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('gb')
    ap.add_argument('--replace', default='')
    ap.add_argument('--noeffect', default='')
    ap.add_argument('--no-memsafe', action='store_true')
    ap.add_argument('--max-unwind', type=int, default=40)
    a = ap.parse_args()
    r = verify(a.gb, replace=dict(x.split('=') for x in a.replace.split(',') if x), noeffect=[x for x in a.noeffect.split(',') if x],
               memsafe=not a.no_memsafe, max_unwind=a.max_unwind)
    for k, o in r['obligations'].items():
        print('%-8s %4d  %s  %s' % (o['status'], o['n'], k, o['where']))
        if o['status'] != 'proved':
            print('    formula', o.get('formula'), '\n    inputs', o['inputs'])
    print({k: v for k, v in r.items() if k != 'obligations'})
