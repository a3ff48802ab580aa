#!/usr/bin/env python3-vt
"""irv: contract verifier for the LLVM form of the real code.

Input: the JSON of one contract harness (see front.cpp).  Output: JSON report with one entry per obligation.

Method: weakest-precondition style symbolic execution of the whole harness body, path by path; every memory access,
assertion, trap and loop invariant is an obligation `path condition => P`, discharged by z3 (and, when z3 gives no
answer, cvc5).  A loop is either unrolled completely (the loop's own exit condition must become unsatisfiable, otherwise
the obligation "unwinding" fails) or cut at its header: an inductive invariant is inferred by Houdini over templates
(generic arithmetic templates plus the harness' vf_hint templates), then checked (entry, preservation), everything the
loop may write is havocked, and the exits are continued under the invariant only.
"""
import re, sys, json, time, os, subprocess, itertools, tempfile
import z3
sys.setrecursionlimit(20000)
simp = z3.simplify
BV = z3.BitVecVal
TIMEOUT_QUICK = 1500
TIMEOUT_HARD = int(os.environ.get('IRV_HARD_MS', '60000'))
VERB = int(os.environ.get('IRV_V', '0'))
T0 = time.time()

def log(*a):
    if VERB:
        print('[%.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

class Unsupported(Exception):
    pass
class Fork(Exception):
    def __init__(self, c):
        self.c = c
class Dead(Exception):
    pass

def bv(v, w=64):
    return BV(v, w)
def isc(e):
    return z3.is_bv_value(e)
def cv(e):
    return e.as_long()
def scv(e):
    v = e.as_long()
    w = e.size()
    return v - (1 << w) if v >> (w - 1) else v
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
def tob(e):           # i1 value -> Bool
    return e
def b2bv(b, w):
    return z3.If(b, BV(1, w), BV(0, w))

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj
        self.off = off
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)
NULLOBJ = 0
RAW = -1
NULL = Ptr(NULLOBJ, bv(0))
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n):
        self.name = n
class Undef:
    pass

# ---------------------------------------------------------------- memory versions
class Base:
    __slots__ = ('arr', 'g', 'cells', 'name')
    def __init__(self, arr, g, name):
        self.arr = arr; self.g = g; self.cells = {}; self.name = name
class Bytes:
    __slots__ = ('data', 'cache')
    def __init__(self, data):
        self.data = data; self.cache = {}
class Store:
    __slots__ = ('sub_gran', 'prev', 'off', 'n', 'val', 'depth')
    def __init__(self, prev, off, n, val):
        self.prev = prev; self.off = off; self.n = n; self.val = val
class Copy:
    __slots__ = ('sub_gran', 'prev', 'dst', 'n', 'src', 'soff', 'sobj')
    def __init__(self, prev, dst, n, src, soff, sobj):
        self.prev = prev; self.dst = dst; self.n = n; self.src = src; self.soff = soff; self.sobj = sobj
class Fill:
    __slots__ = ('sub_gran', 'prev', 'dst', 'n', 'val')
    def __init__(self, prev, dst, n, val):
        self.prev = prev; self.dst = dst; self.n = n; self.val = val
class Havoc:      # contents inside any of the ranges are those of `new`, elsewhere prev
    __slots__ = ('sub_gran', 'prev', 'ranges', 'new')
    def __init__(self, prev, ranges, new):
        self.prev = prev; self.ranges = ranges; self.new = new

class Info:
    __slots__ = ('size', 'kind', 'gran', 'alive', 'name', 'const', 'align', 'trig')
    def __init__(self, size, kind, gran, name, const=False, align=16):
        self.size = size; self.kind = kind; self.gran = gran; self.alive = True; self.name = name; self.const = const; self.align = align; self.trig = None
    def clone(self):
        i = Info(self.size, self.kind, self.gran, self.name, self.const, self.align)
        i.alive = self.alive; i.trig = self.trig
        return i

class Frame:
    __slots__ = ('fn', 'bb', 'prev', 'idx', 'env', 'allocas', 'ret_to', 'lcount', 'kind')
    def clone(self):
        f = Frame()
        f.fn = self.fn; f.bb = self.bb; f.prev = self.prev; f.idx = self.idx; f.env = dict(self.env)
        f.allocas = list(self.allocas); f.ret_to = self.ret_to; f.lcount = dict(self.lcount); f.kind = self.kind
        return f

class St:
    def __init__(self):
        self.frames = []; self.mem = {}; self.info = {}; self.pc = []; self.inputs = []
        self.cut = False; self.unroll = 200; self.terms = []; self.hints = []; self.exc = None; self.caught = []
        self.based = []; self.writes = None; self.allocfail = False; self.hgran = 8; self.hook = None; self.aphase = None
        self.reqterm = True; self.outer = False; self.framehints = []; self.generic = True; self.noaddr = False; self.pick = None
    def clone(self):
        s = St.__new__(St)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.info = dict(self.info)
        s.pc = list(self.pc)
        s.inputs = list(self.inputs)
        s.cut = self.cut; s.unroll = self.unroll; s.terms = list(self.terms); s.hints = list(self.hints); s.exc = self.exc
        s.caught = list(self.caught); s.based = list(self.based); s.writes = self.writes
        s.allocfail = self.allocfail; s.hgran = self.hgran; s.hook = self.hook; s.aphase = self.aphase
        s.noaddr = self.noaddr; s.pick = self.pick
        s.generic = self.generic; s.reqterm = self.reqterm; s.outer = self.outer; s.framehints = list(self.framehints)
        return s

# ---------------------------------------------------------------- solver front
class Solvers:
    def __init__(self):
        self.s = z3.Solver()
        self.s.set('timeout', TIMEOUT_QUICK)
        self.prefer_int = False
        self.stack = []
        self.nq = 0; self.time = 0.0; self.hard = 0; self.cvc5 = 0
        self.varcache = {}
        self.by = {}
    def sync(self, pc):
        i = 0
        n = min(len(pc), len(self.stack))
        while i < n and self.stack[i].eq(pc[i]):
            i += 1
        if len(self.stack) > i:
            self.s.pop(len(self.stack) - i)
            del self.stack[i:]
        for c in pc[i:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)
    def vars(self, e):
        k = e.get_id()
        r = self.varcache.get(k)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                st.extend(x.children())
        self.varcache[k] = (e, out)
        return out
    def slice(self, pc, goal):
        want = set(self.vars(goal))
        if not want:
            return list(pc)
        rest = list(pc)
        keep = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                v = self.vars(c)
                if not v or v & want:
                    keep.append(c)
                    if not v <= want:
                        want |= v
                        ch = True
                else:
                    nr.append(c)
            rest = nr
        return keep
    def feasible(self, pc, extra=None):
        """quick satisfiability: False only when certainly unsat"""
        t = time.time()
        self.nq += 1
        self.sync(pc)
        if extra is None:
            r = self.s.check()
        else:
            self.s.push()
            self.s.add(extra)
            r = self.s.check()
            self.s.pop()
        self.time += time.time() - t
        return r
    def implied(self, pc, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.feasible(pc, z3.Not(c)) == z3.unsat
    def prove(self, pc, c, hard=True, model=True):
        """-> ('proved',who) | ('failed',model) | ('unknown',why)"""
        c = simp(c)
        if z3.is_true(c):
            return ('proved', 'simplifier')
        t = time.time()
        self.nq += 1
        try:
            self.sync(pc)
            self.s.push()
            self.s.add(z3.Not(c))
            r = self.s.check()
            m = self.s.model() if r == z3.sat and model else None
            self.s.pop()
            if r == z3.unsat:
                return ('proved', 'z3')
            if r == z3.sat:
                return ('failed', m)
            if not hard:
                return ('unknown', 'quick timeout')
            self.hard += 1
            sl = self.slice(pc, c)
            hasq = any(has_quant(x) for x in sl + [c])
            if os.environ.get('IRV_DUMP'):
                sd = z3.Solver()
                for x in sl:
                    sd.add(x)
                sd.add(z3.Not(c))
                with open('%s.%d.smt2' % (os.environ['IRV_DUMP'], self.hard), 'w') as fd:
                    fd.write('(set-logic ALL)\n' + smt_text(sd))
            if any(has_fp(x) for x in sl + [c]):
                # floating point: the specialised bit-vector tactics do not apply
                r = self.run_cvc5(sl, c)
                log('   hard cvc5-fp', r, '%.1fs' % (time.time() - t))
                if r == 'unsat':
                    return ('proved', 'cvc5')
                s3 = z3.Solver()
                s3.set('timeout', TIMEOUT_HARD)
                for x in pc:
                    s3.add(x)
                s3.add(z3.Not(c))
                r = s3.check()
                log('   hard z3-fp', r, '%.1fs' % (time.time() - t))
                return ('failed', s3.model()) if r == z3.sat else ('proved', 'z3') if r == z3.unsat else ('unknown', 'z3 and cvc5 gave no answer')
            if not hasq:
                for how in ('int', 'short') if self.prefer_int else ('short', 'int'):
                    if how == 'short':
                        r = self.z3short(sl, c, 2500)
                        log('   hard z3-short', r, '%.1fs' % (time.time() - t))
                        if r == z3.unsat:
                            self.prefer_int = False
                            return ('proved', 'z3-fresh')
                    else:
                        q, _ = self.cvc5int(sl, [c], 5000)
                        log('   hard cvc5-int', q, '%.1fs' % (time.time() - t))
                        if q == 'unsat':
                            if not self.prefer_int:
                                # the bit-vector solver does not cope with these queries: do not wait for it
                                self.prefer_int = True
                                self.s.set('timeout', TIMEOUT_QUICK // 3)
                            return ('proved', 'cvc5-int')
            who = None
            # slice may drop constraints: only unsat is conclusive for the slice; sat needs the whole pc
            def strategies():
                yield 'z3-fresh', (z3.Solver() if hasq else z3.SolverFor('QF_AUFBV')), sl, TIMEOUT_HARD // 3
                if not hasq:
                    yield 'z3-bitblast', z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'ackermannize_bv', 'bit-blast', 'sat').solver(), sl, TIMEOUT_HARD
            for name, s2, cs, to in strategies():
                s2.set('timeout', to)
                for x in cs:
                    s2.add(x)
                s2.add(z3.Not(c))
                try:
                    r = s2.check()
                except z3.Z3Exception:
                    r = z3.unknown
                log('   hard', name, r, '%.1fs' % (time.time() - t), str(c)[:600] if VERB > 1 else '')
                if r == z3.unsat:
                    return ('proved', name)
                if r == z3.sat:
                    s3 = z3.Solver() if hasq else z3.SolverFor('QF_AUFBV')
                    s3.set('timeout', TIMEOUT_HARD)
                    for x in pc:
                        s3.add(x)
                    s3.add(z3.Not(c))
                    r = s3.check()
                    if r == z3.sat:
                        return ('failed', s3.model())
                    if r == z3.unsat:
                        return ('proved', name)
                    break
            r = self.run_cvc5(sl, c)
            if r == 'unsat':
                return ('proved', 'cvc5')
            return ('unknown', 'z3 and cvc5 gave no answer')
        finally:
            self.time += time.time() - t
    def z3short(self, sl, c, ms):
        s2 = z3.SolverFor('QF_AUFBV')
        s2.set('timeout', ms)
        for x in sl:
            s2.add(x)
        s2.add(z3.Not(c))
        return s2.check()
    def cvc5int(self, pc, goals, ms):
        """bit-vectors as integers (cvc5 --solve-bv-as-int=sum): ('unsat',None) when pc implies every goal, ('sat', truth values), ('unknown', None)"""
        sl = []
        done = set()
        for c in self.slice(pc, z3.And(goals) if len(goals) > 1 else goals[0]):
            sl.append(c)
        if any(has_quant(x) for x in sl) or any(has_quant(x) for x in goals):
            return 'unknown', None
        self.nq += 1
        self.ncint = getattr(self, 'ncint', 0) + 1
        t = time.time()
        s = z3.Solver()
        for x in sl:
            s.add(x)
        bs = [z3.Bool('goal!%d' % i) for i in range(len(goals))]
        for b, g in zip(bs, goals):
            s.add(b == g)
        s.add(z3.Or([z3.Not(b) for b in bs]))
        txt = '(set-logic ALL)\n(set-option :produce-models true)\n' + smt_text(s) + '(get-value (' + ' '.join('goal!%d' % i for i in range(len(goals))) + '))\n'
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            o = subprocess.run(['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms / 1000 + 5).stdout
        except Exception:
            return 'unknown', None
        finally:
            os.unlink(f.name)
            self.time += time.time() - t
        if o.startswith('unsat'):
            return 'unsat', None
        if o.startswith('sat'):
            v = {int(a): b == 'true' for a, b in re.findall(r'goal!(\d+) (true|false)', o)}
            return 'sat', [v.get(i) for i in range(len(goals))]
        return 'unknown', None
    def run_cvc5(self, cs, c):
        self.cvc5 += 1
        s = z3.Solver()
        for x in cs:
            s.add(x)
        s.add(z3.Not(c))
        txt = '(set-logic ALL)\n' + smt_text(s)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % TIMEOUT_HARD, f.name], capture_output=True, text=True, timeout=TIMEOUT_HARD / 1000 + 10).stdout.split()
            return o[0] if o else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

def smt_text(s):
    # z3 writes x/y under a known non-zero y with its internal total operators
    return re.sub(r'\b(bv[us](?:div|rem|mod))_i\b', r'\1', s.to_smt2())

def has_fp(e):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_fp(x):
            return True
        st.extend(x.children())
    return False

def has_quant(e, seen=None):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False

EXT = {}
def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d

class Engine:
    def __init__(self, J):
        self.J = J
        self.funcs = {f['name']: f for f in J['funcs']}
        for f in J['funcs']:
            f['lmap'] = {l['header']: dict(l, bset=set(l['blocks'])) for l in f['loops']}
        self.globals = {g['n']: g for g in J['globals']}
        self.sol = Solvers()
        self.nobj = 0
        self.nfresh = 0
        self.obls = {}       # key -> dict
        self.quiet = 0
        self.inpure = 0
        self.fail_limit = 40
        self.paths = 0
        self.covers = {}
        self.nsteps = 0
        self.loops_cut = []
        self.notes = set()
        self.gobj = {}
        self.returns = 0
        self.deadline = T0 + float(os.environ.get('IRV_BUDGET', '600'))
        self.fncache = {}
        self.cmplog = None
    def s0name(self, st, o):
        return '%d(%s)' % (o, st.info[o].name)

    # ---- naming
    def fresh(self, w, name='v'):
        self.nfresh += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.nfresh))
        return z3.BitVec('%s!%d' % (name, self.nfresh), w)
    def fresharr(self, g, name='m'):
        self.nfresh += 1
        return z3.Array('%s!%d' % (name, self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8 * g))
    def newobj(self, st, size, kind, gran=None, name='', const=False, init=None, align=16):
        self.nobj += 1
        o = self.nobj
        st.info[o] = Info(size, kind, gran, name, const, align)
        if init is None:
            g = gran or 1
            init = Base(self.fresharr(g, name or 'obj'), g, name)
        st.mem[o] = init
        return o
    def addr(self, st, o):
        if o == NULLOBJ:
            return bv(0)
        b = z3.BitVec('base!%d' % o, 64)
        if o not in st.based:
            st.based.append(o)
            i = st.info[o]
            al = i.align
            st.pc.append(z3.And(z3.ULE(bv(4096), b), z3.ULE(b, bv(1 << 46)), (b & bv(al - 1)) == 0))
        return b
    def ptr2int(self, st, p):
        if isinstance(p, FnPtr):
            return z3.BitVec('fn!' + p.name, 64)
        if p.obj in (NULLOBJ, RAW):
            return p.off
        return simp(self.addr(st, p.obj) + p.off)
    def int2ptr(self, st, e):
        e = simp(e)
        if isc(e):
            return Ptr(NULLOBJ, e) if cv(e) < 4096 else Ptr(RAW, e)
        if e.decl().kind() == z3.Z3_OP_ITE:
            return self.int2ptr(st, e.arg(1) if self.decide(st, e.arg(0)) else e.arg(2))
        vs = [v for v in self.sol.vars(e) if v.startswith('base!')]
        fns = [v for v in self.sol.vars(e) if v.startswith('fn!')]
        if len(fns) == 1 and z3.is_const(e):
            return FnPtr(fns[0][3:])
        if len(vs) == 1:
            o = int(vs[0][5:])
            off = simp(e - z3.BitVec(vs[0], 64))
            if 'base!' in str(off) and vs[0] in self.sol.vars(off):
                # bit tricks on the address: ask for a simple offset
                c = self.offset_guess(st, o, off)
                if c is not None:
                    off = c
            return Ptr(o, off)
        if len(vs) > 1:
            for v in vs:   # (p - q) + r forms where q cancels
                o = int(v[5:])
                off = simp(e - z3.BitVec(v, 64))
                if not any(x.startswith('base!') for x in self.sol.vars(off)):
                    return Ptr(o, off)
        return Ptr(RAW, e)
    def offset_guess(self, st, o, off):
        self.sol.sync(st.pc)
        if self.sol.s.check() != z3.sat:
            return None
        g = self.sol.s.model().eval(off, True)
        if isc(g) and self.sol.implied(st.pc, off == g):
            return g
        # offset as a function of the non-address variables: evaluate with the base replaced by an aligned constant
        b = z3.BitVec('base!%d' % o, 64)
        for val in (1 << 20, 1 << 30):
            c = simp(z3.substitute(off, (b, bv(val))))
            if self.sol.implied(st.pc, off == c):
                return c
        return None

    # ---- decisions
    def decide(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r1 = self.sol.feasible(st.pc, c)
        if r1 == z3.unsat:
            return False
        r2 = self.sol.feasible(st.pc, z3.Not(c))
        if r2 == z3.unsat:
            return True
        raise Fork(c)

    # ---- obligations
    def oblige(self, st, c, label, kind, ins=None):
        if self.quiet:
            st.pc.append(simp(c)) if not z3.is_true(simp(c)) else None
            return
        loc = ''
        if ins is not None and 'ln' in ins:
            loc = '%s:%s(%d)' % (os.path.basename(ins.get('fl', '?')), ins.get('fn', '?'), ins['ln'])
        key = (kind, label if kind in ('assert', 'invariant', 'termination') else '', loc if kind != 'assert' else '')
        ob = self.obls.get(key)
        if ob is None:
            ob = self.obls[key] = {'kind': kind, 'label': label, 'loc': loc, 'checks': 0, 'status': 'discharged', 'by': {}, 'time': 0.0}
        t = time.time()
        ob['checks'] += 1
        if ob['status'] == 'failed':
            self.assume(st, c)
            return
        r = self.sol.prove(st.pc, c)
        dt = time.time() - t
        ob['time'] += dt
        if r[0] == 'proved':
            ob['by'][r[1]] = ob['by'].get(r[1], 0) + 1
            if r[1] not in ('simplifier', 'z3') or dt > 1:
                st.pc.append(simp(c))
        else:
            ob['status'] = 'failed' if r[0] == 'failed' else 'unknown'
            log('   OBLIGATION', ob['status'], kind, label, loc)
            if r[0] == 'failed':
                ob['model'] = self.extract(st, c, r[1])
                if VERB > 1:
                    log('     goal', simp(c))
                    log('     model', r[1])
            else:
                ob['why'] = r[1]
            if z3.is_false(simp(c)):
                raise Dead()
            self.assume(st, c)
    def assume(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Dead()
        st.pc.append(c)
        if self.sol.feasible(st.pc) == z3.unsat:
            raise Dead()

    def extract(self, st, c, m):
        """input values of a counterexample, in the order the native harness will ask for them; small sizes preferred"""
        sizes = [x[2] for x in st.inputs if x[0] == 'size']
        if sizes:
            for lim in (4, 10, 40, 200):
                s = z3.Solver()
                s.set('timeout', 4000)
                for x in st.pc:
                    s.add(x)
                s.add(z3.Not(c))
                for x in sizes:
                    s.add(z3.ULE(x, lim))
                if s.check() == z3.sat:
                    m = s.model()
                    break
        out = []
        for x in st.inputs:
            if x[0] in ('any', 'size'):
                v = m.eval(x[2], True)
                out.append(['v', x[1], str(cv(v) if isc(v) else 0)])
            elif x[0] == 'arr':
                n = m.eval(x[2], True)
                n = cv(n) if isc(n) else 0
                if n > (1 << 16):
                    out.append(['a', x[1], None, n])
                    continue
                base = x[3]
                g = base.g
                by = []
                for i in range(0, n, g):
                    e = m.eval(z3.Select(base.arr, bv(i)), True)
                    e = cv(e) if isc(e) else 0
                    by += [(e >> (8 * j)) & 255 for j in range(g)]
                out.append(['a', x[1], by[:n], n])
        return out

    # ---- values
    def width(self, t):
        if t[0] == 'i' and t[1:].isdigit():
            return int(t[1:])
        return {'float': 32, 'double': 64, 'ptr': 64, 'x86_fp80': 80, 'half': 16}.get(t)
    def tsize(self, t):
        w = self.width(t)
        if w is not None:
            return 16 if w == 80 else (w + 7) // 8
        raise Unsupported('size of ' + t)
    def vec(self, t):
        # '<16 x i8>' -> (16,'i8')
        if t.startswith('<') and ' x ' in t:
            n, e = t[1:-1].split(' x ', 1)
            return int(n), e
        return None
    def undef(self, t):
        v = self.vec(t)
        if v:
            return [self.undef(v[1]) for _ in range(v[0])]
        if t == 'ptr':
            return NULL
        w = self.width(t)
        if w is None:
            if t.startswith('{'):
                parts = split_types(t.strip()[1:-1])
                return tuple(self.undef(p) for p in parts)
            raise Unsupported('undef ' + t)
        return self.fresh(w, 'undef')
    def val(self, st, fr, v):
        k = v['k']
        if k == 'r':
            if v['v'] not in fr.env:
                raise Unsupported('undefined value %s' % v)
            return fr.env[v['v']]
        if k == 'i':
            return z3.BoolVal(v['v'] != '0') if v['w'] == 1 else BV(int(v['v']), v['w'])
        if k == 'f':
            return BV(int(v['v']), v['w'])
        if k == 'null':
            return Ptr(NULLOBJ, bv(v.get('o', 0)))
        if k == 'g':
            return Ptr(self.glob(st, v['n']), bv(v['o'] & ((1 << 64) - 1)))
        if k == 'fn':
            return FnPtr(v['n'])
        if k == 'undef':
            return self.undef(v['t'])
        if k == 'agg':
            l = [self.val(st, fr, x) for x in v['e']]
            return l
        if k == 'md':
            return None
        raise Unsupported('operand %s' % str(v)[:100])
    def glob(self, st, n):
        if n in self.gobj and self.gobj[n] in st.info:
            return self.gobj[n]
        g = self.globals[n]
        if n in self.gobj:
            o = self.gobj[n]
        else:
            self.nobj += 1
            o = self.gobj[n] = self.nobj
        st.info[o] = Info(bv(g['sz']), 'global', None, n, g['const'], 16)
        if 'init' in g and any(isinstance(x, dict) or x is None for x in g['init']):
            ver = Bytes([x if not isinstance(x, dict) else x for x in g['init']])
        elif 'init' in g:
            ver = Bytes(list(g['init']))
        else:
            ver = Base(self.fresharr(1, 'glob'), 1, n)
        st.mem[o] = ver
        return o

    # ---- memory reads
    def conv(self, st, val, n):
        """any stored value -> BV of 8n bits"""
        if isinstance(val, (Ptr, FnPtr)):
            return self.ptr2int(st, val)
        return val
    def test(self, st, c):
        """-> True/False/None using simplifier and solver"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.sol.feasible(st.pc, z3.Not(c)) == z3.unsat:
            return True
        if self.sol.feasible(st.pc, c) == z3.unsat:
            return False
        return None
    def lowbits(self, st, off, gran):
        low = simp(z3.Extract(gran.bit_length() - 2, 0, off))
        if isc(low):
            return cv(low)
        if self.qmode:
            return None
        for k in range(gran):
            if self.test(st, low == k) is True:
                return k
        return None
    def has_sub(self, node, gran):
        todo = []
        r = False
        while node is not None:
            k = getattr(node, 'sub_gran', None)
            if k is not None:
                r = k
                break
            todo.append(node)
            if isinstance(node, Store) and node.n < gran:
                r = True
                break
            if not isinstance(node, (Store, Copy, Fill, Havoc)):
                break
            node = node.prev
        for t in todo:
            try:
                t.sub_gran = r
            except AttributeError:
                pass
        return r
    def rd(self, st, oid, ver, off, n, ptr=False):
        gran = st.info[oid].gran if oid in st.info else None
        off = simp(off)
        if gran and gran != n and not isc(off):
            if n > gran and n % gran == 0:
                parts = [self.conv(st, self.rd(st, oid, ver, off + bv(i), gran), gran) for i in range(0, n, gran)]
                return simp(z3.Concat(*reversed(parts)))
            if n < gran:
                c = self.lowbits(st, off, gran)
                if c is not None and not self.has_sub(ver, gran):     # widening would come back here through rdbytes
                    if c + n <= gran:
                        w = self.conv(st, self.rd(st, oid, ver, simp(off - bv(c)), gran), gran)
                        return simp(z3.Extract(8 * (c + n) - 1, 8 * c, w))
        chain = []   # (cond, value) pending ites
        node = ver
        while True:
            if isinstance(node, Store):
                d = simp(off - node.off)
                if isc(d):
                    k = scv(d)
                    if k == 0 and n == node.n:
                        return self.build(st, chain, node.val, n, ptr)
                    if k >= node.n or k <= -n:
                        node = node.prev
                        continue
                    if 0 <= k and k + n <= node.n:
                        v = self.conv(st, node.val, node.n)
                        return self.build(st, chain, simp(z3.Extract(8 * (k + n) - 1, 8 * k, v)), n, ptr)
                    # partial overlap: bytewise
                    return self.build(st, chain, self.rdbytes(st, oid, node, off, n), n, ptr)
                if n == node.n and (gran == n or n == 1):
                    c = simp(d == 0)
                    if isinstance(node.val, (Ptr, FnPtr)) or ptr:
                        if self.decide(st, c):
                            return self.build(st, chain, node.val, n, ptr)
                        node = node.prev
                        continue
                    t = self.test(st, c) if not self.qmode else None
                    if t is True:
                        return self.build(st, chain, node.val, n, ptr)
                    if t is None:
                        chain.append((c, node.val))
                    node = node.prev
                    continue
                # unknown overlap of differently shaped accesses
                dis = z3.And(z3.UGE(d, bv(node.n)), z3.UGE(bv(0) - d, bv(n)))
                t = self.test(st, dis)
                if t is True:
                    node = node.prev
                    continue
                if n == 1:
                    v = self.conv(st, node.val, node.n)
                    sh = simp(z3.Extract(7, 0, z3.LShR(v, (z3.ZeroExt(8 * node.n - 64, d) if 8 * node.n > 64 else z3.Extract(8 * node.n - 1, 0, d)) * BV(8, 8 * node.n))))
                    chain.append((simp(z3.ULT(d, bv(node.n))), sh))
                    node = node.prev
                    continue
                if n == node.n:
                    t = self.test(st, d == 0)
                    if t is True:
                        return self.build(st, chain, node.val, n, ptr)
                return self.build(st, chain, self.rdbytes(st, oid, node, off, n), n, ptr)
            if isinstance(node, (Copy, Fill)):
                d = simp(off - node.dst)
                inr = simp(z3.ULT(d, node.n))
                unit = (gran == n) or n == 1
                if not unit:
                    # whole access inside / outside?
                    ins = simp(z3.And(z3.ULE(bv(n), node.n), z3.ULE(d, node.n - bv(n))))
                    out = simp(z3.And(z3.UGE(d, node.n), z3.Or(node.n == 0, z3.UGE(bv(0) - d, bv(n)))))
                    t = self.test(st, ins)
                    if t is not True:
                        t2 = self.test(st, out)
                        if t2 is True:
                            node = node.prev
                            continue
                        if t2 is False and t is False:
                            return self.build(st, chain, self.rdbytes(st, oid, node, off, n), n, ptr)
                        if ptr or n == 8:
                            if self.decide(st, out):
                                node = node.prev
                                continue
                            if not self.decide(st, ins):
                                return self.build(st, chain, self.rdbytes(st, oid, node, off, n), n, ptr)
                            t = True
                        else:
                            return self.build(st, chain, self.rdbytes(st, oid, node, off, n), n, ptr)
                else:
                    t = self.test(st, inr) if not self.qmode else None
                    if t is None and ptr:
                        t = self.decide(st, inr)
                if t is False:
                    node = node.prev
                    continue
                if isinstance(node, Fill):
                    v = node.val if n == 1 else simp(z3.Concat(*([node.val] * n)))
                else:
                    v = self.rd(st, node.sobj, node.src, simp(d + node.soff), n, ptr)
                if t is True:
                    return self.build(st, chain, v, n, ptr)
                chain.append((inr, self.conv(st, v, n)))
                node = node.prev
                continue
            if isinstance(node, Havoc):
                inr = simp(z3.Or([z3.ULT(off - lo, hi - lo) for lo, hi in node.ranges])) if node.ranges is not None else TRUE
                t = True if z3.is_true(inr) else (self.test(st, inr) if not self.qmode else None)
                if t is None and ptr:
                    t = self.decide(st, inr)
                if t is False:
                    node = node.prev
                    continue
                v = self.rdbase(st, node.new, off, n)
                if t is True:
                    return self.build(st, chain, v, n, ptr)
                chain.append((inr, v))
                node = node.prev
                continue
            if isinstance(node, Bytes):
                return self.build(st, chain, self.rdtable(st, node, off, n, ptr), n, ptr)
            return self.build(st, chain, self.rdbase(st, node, off, n), n, ptr)
    def rdbase(self, st, node, off, n):
        g = node.g
        if g == n:
            return z3.Select(node.arr, off)
        if n > g:
            return simp(z3.Concat(*reversed([z3.Select(node.arr, simp(off + bv(i))) for i in range(0, n, g)])))
        low = simp(z3.Extract(g.bit_length() - 2, 0, off))
        if isc(low) and cv(low) + n <= g:
            c = cv(low)
            return simp(z3.Extract(8 * (c + n) - 1, 8 * c, z3.Select(node.arr, simp(off - bv(c)))))
        al = simp(off & bv(~(g - 1) & ((1 << 64) - 1)))
        w = z3.Select(node.arr, al)
        sh = z3.LShR(w, fit((off & bv(g - 1)) * 8, 8 * g))
        return simp(z3.Extract(8 * n - 1, 0, sh))     # access must not straddle a unit (n | g and aligned): see trusted base
    def rdbytes(self, st, oid, node, off, n):
        parts = [self.conv(st, self.rd(st, oid, node, simp(off + bv(i)), 1), 1) for i in range(n)]
        return simp(z3.Concat(*reversed(parts))) if n > 1 else parts[0]
    def rdtable(self, st, node, off, n, ptr):
        data = node.data
        if isc(off):
            o = cv(off)
            if o < len(data) and isinstance(data[o], dict) and n == 8:
                p = data[o]['p']
                return self.val(st, None, p)
            if o + n > len(data):
                return self.fresh(8 * n, 'oob')
            v = 0
            for i in range(n):
                x = data[o + i]
                if not isinstance(x, int):
                    raise Unsupported('partial pointer read')
                v |= x << (8 * i)
            return BV(v, 8 * n)
        key = (off.get_id(), n)
        if key in node.cache:
            return node.cache[key][1]
        if any(not isinstance(x, int) for x in data):
            # table of pointers, symbolic index: split
            for o in range(0, len(data), 8):
                if self.decide(st, off == o):
                    return self.rdtable(st, node, bv(o), n, ptr)
            raise Dead()
        if len(data) > 65536:
            raise Unsupported('large table')
        low = simp(z3.Extract(max(n.bit_length() - 2, 0), 0, off)) if n > 1 else None
        step = 1
        if n > 1 and low is not None and isc(low) and cv(low) == 0:
            step = n
        def leaf(o):
            v = 0
            for i in range(n):
                if o + i < len(data):
                    v |= data[o + i] << (8 * i)
            return v
        nb = max(1, (len(data) - 1).bit_length())
        sb = step.bit_length() - 1
        def tree(prefix, bit):
            if bit < sb:
                return leaf(prefix)
            a = tree(prefix, bit - 1)
            if prefix + (1 << bit) >= len(data):
                return a
            b = tree(prefix + (1 << bit), bit - 1)
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            f = lambda x: BV(x, 8 * n) if isinstance(x, int) else x
            return z3.If(z3.Extract(bit, bit, off) == 1, f(b), f(a))
        r = tree(0, nb - 1)
        if isinstance(r, int):
            r = BV(r, 8 * n)
        node.cache[key] = (off, r)
        return r
    qmode = False
    def build(self, st, chain, v, n, ptr):
        if not chain:
            return v
        if ptr and isinstance(v, (Ptr, FnPtr)):
            # pointers are never merged: split on the pending conditions
            for c, x in chain:
                if self.decide(st, c):
                    return x
            return v
        v = self.conv(st, v, n)
        for c, x in reversed(chain):
            v = z3.If(c, self.conv(st, x, n), v)
        return simp(v)

    # ---- typed load / store
    def check_access(self, st, p, n, what, ins, write=False):
        if isinstance(p, FnPtr):
            raise Unsupported('access through function pointer')
        if p.obj == RAW:
            q = self.int2ptr(st, p.off)
            p = q
        if p.obj in (NULLOBJ, RAW):
            self.oblige(st, FALSE, 'no access through a null or wild pointer', 'memory', ins)
            raise Dead()
        i = st.info[p.obj]
        if not i.alive:
            self.oblige(st, FALSE, 'no access to freed memory', 'memory', ins)
            raise Dead()
        nn = n if z3.is_expr(n) else bv(n)
        self.oblige(st, z3.And(z3.ULE(nn, i.size), z3.ULE(p.off, i.size - nn)), '%s in bounds of %s' % (what, i.name or i.kind), 'memory', ins)
        if write and i.const:
            self.oblige(st, FALSE, 'no write to constant', 'memory', ins)
        return p
    def load(self, st, p, t, ins=None, chk=True):
        v = self.vec(t)
        if v:
            sz = self.tsize(v[1])
            if v[1] == 'i1':
                raise Unsupported('vector of i1 load')
            if chk:
                p = self.check_access(st, p, sz * v[0], 'load', ins)
            return [self.load1(st, Ptr(p.obj, simp(p.off + bv(i * sz))), v[1]) for i in range(v[0])]
        if t.startswith('{') or t.startswith('['):
            raise Unsupported('aggregate load ' + t)
        if chk:
            p = self.check_access(st, p, self.tsize(t), 'load', ins)
        return self.load1(st, p, t)
    def load1(self, st, p, t):
        n = self.tsize(t)
        r = self.rd(st, p.obj, st.mem[p.obj], p.off, n, t == 'ptr')
        trig = st.info[p.obj].trig if p.obj in st.info else None
        if trig and not self.inpure:
            # instance of the facts stated for every element of this (constant) object
            g = st.info[p.obj].gran or 1
            q = simp(z3.UDiv(p.off, bv(g))) if g > 1 else p.off
            for k in range(max(1, n // g)):
                f = self.pure_q(st, trig, [simp(q + bv(k)) if k else q])
                if not z3.is_true(f) and not any(f.eq(c) for c in st.pc[-16:]):
                    st.pc.append(f)
        w = self.width(t)
        if t == 'ptr':
            if isinstance(r, (Ptr, FnPtr)):
                return r
            return self.int2ptr(st, r)
        if isinstance(r, (Ptr, FnPtr)):
            r = self.ptr2int(st, r)
        if w == 1:
            return simp(z3.Extract(0, 0, r) == 1)
        if w != 8 * n:
            r = simp(z3.Extract(w - 1, 0, r))
        return r
    def store(self, st, p, val, t, ins=None, chk=True):
        v = self.vec(t)
        if v:
            sz = self.tsize(v[1])
            if chk:
                p = self.check_access(st, p, sz * v[0], 'store', ins, True)
            for i in range(v[0]):
                self.store1(st, Ptr(p.obj, simp(p.off + bv(i * sz))), val[i], v[1])
            return
        if t.startswith('{') or t.startswith('['):
            raise Unsupported('aggregate store ' + t)
        if chk:
            p = self.check_access(st, p, self.tsize(t), 'store', ins, True)
        self.store1(st, p, val, t)
    def store1(self, st, p, val, t):
        n = self.tsize(t)
        w = self.width(t)
        if w == 1:
            val = b2bv(val, 8)
        elif t != 'ptr' and w != 8 * n:
            val = z3.ZeroExt(8 * n - w, val)
        self.wr(st, p, n, val)
    def wr(self, st, p, n, val):
        gran = st.info[p.obj].gran
        off = simp(p.off)
        if not isinstance(val, (Ptr, FnPtr)):
            val = simp(val)
        if st.writes is not None:
            st.writes.append((p.obj, off, n))
        if gran and n != gran:
            if n > gran and n % gran == 0:
                val = self.conv(st, val, n)
                for i in range(0, n, gran):
                    st.mem[p.obj] = Store(st.mem[p.obj], simp(off + bv(i)), gran, simp(z3.Extract(8 * (i + gran) - 1, 8 * i, val)))
                return
            if n < gran:
                c = self.lowbits(st, off, gran)
                if c is not None and c + n <= gran:
                    old = self.conv(st, self.rd(st, p.obj, st.mem[p.obj], simp(off - bv(c)), gran), gran)
                    parts = []
                    if c + n < gran:
                        parts.append(z3.Extract(8 * gran - 1, 8 * (c + n), old))
                    parts.append(self.conv(st, val, n))
                    if c:
                        parts.append(z3.Extract(8 * c - 1, 0, old))
                    st.mem[p.obj] = Store(st.mem[p.obj], simp(off - bv(c)), gran, simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0])
                    return
        ver = st.mem[p.obj]
        if isinstance(ver, Store) and ver.n == n and z3.is_expr(off) and ver.off.eq(off):
            ver = ver.prev
        st.mem[p.obj] = Store(ver, off, n, val)

    # ---- copies
    def memcpy(self, st, d, s, n, ins, move):
        n = simp(n)
        if isc(n) and cv(n) == 0:
            return
        z = None
        if not isc(n):
            z = self.test(st, n == 0)
            if z is None and (d.obj in (NULLOBJ, RAW) or s.obj in (NULLOBJ, RAW)):
                if self.decide(st, n == 0):
                    return
            if z is True:
                return
        # zero-length copies may use any pointer
        if z is None and not isc(n):
            pre = len(st.pc)
            for p, w in ((d, True), (s, False)):
                i = st.info[p.obj]
                if not i.alive:
                    self.oblige(st, n == 0, 'no access to freed memory', 'memory', ins)
                self.oblige(st, z3.Or(n == 0, z3.And(z3.ULE(n, i.size), z3.ULE(p.off, i.size - n))), '%s of a block copy in bounds' % ('destination' if w else 'source'), 'memory', ins)
        else:
            d = self.check_access(st, d, n, 'destination of a block copy', ins, True)
            s = self.check_access(st, s, n, 'source of a block copy', ins)
        if not move and d.obj == s.obj:
            df = simp(d.off - s.off)
            self.oblige(st, z3.Or(n == 0, df == 0, z3.And(z3.UGE(df, n), z3.UGE(bv(0) - df, n))), 'memcpy operands do not overlap', 'memory', ins)
        if st.writes is not None:
            st.writes.append((d.obj, d.off, n))
        if isc(n) and cv(n) <= 128:
            k = cv(n)
            ver = st.mem[s.obj]
            gs = st.info[s.obj].gran
            gd = st.info[d.obj].gran
            u = 8
            if gs:
                u = min(u, gs)
            if gd:
                u = min(u, gd)
            vals = []
            i = 0
            while i < k:
                m = min(u, k - i)
                while m & (m - 1):
                    m &= m - 1
                m = self.pick_unit(ver, s.off, i, m, k)
                vals.append((i, m, self.rd(st, s.obj, ver, simp(s.off + bv(i)), m)))
                i += m
            w = st.writes
            st.writes = None
            for i, m, v in vals:
                self.wr(st, Ptr(d.obj, simp(d.off + bv(i))), m, v)
            st.writes = w
            return
        st.mem[d.obj] = Copy(st.mem[d.obj], d.off, n, st.mem[s.obj], s.off, s.obj)
    def pick_unit(self, ver, off, i, m, k):
        # follow the shape of recent stores so that fields are copied whole
        node = ver
        for _ in range(40):
            if not isinstance(node, Store):
                break
            d = simp(off + bv(i) - node.off)
            if isc(d) and scv(d) == 0 and node.n <= k - i and node.n <= 8:
                return node.n
            node = node.prev
        return m
    def memset(self, st, d, val, n, ins):
        n = simp(n)
        if isc(n) and cv(n) == 0:
            return
        if d.obj in (NULLOBJ, RAW):
            if self.decide(st, n == 0):
                return
        i = st.info.get(d.obj)
        if isc(n):
            d = self.check_access(st, d, n, 'block fill', ins, True)
        else:
            self.oblige(st, z3.Or(n == 0, z3.And(z3.ULE(n, i.size), z3.ULE(d.off, i.size - n))), 'block fill in bounds', 'memory', ins)
        if st.writes is not None:
            st.writes.append((d.obj, d.off, n))
        if isc(n) and cv(n) <= 64:
            k = cv(n)
            g = st.info[d.obj].gran or 8
            j = 0
            w = st.writes
            st.writes = None
            while j < k:
                m = min(g, k - j)
                while m & (m - 1):
                    m &= m - 1
                self.wr(st, Ptr(d.obj, simp(d.off + bv(j))), m, z3.Concat(*([val] * m)) if m > 1 else val)
                j += m
            st.writes = w
            return
        st.mem[d.obj] = Fill(st.mem[d.obj], d.off, n, val)

    # ---- execution
    def push(self, st, fname, args, ret_to=None, kind='call'):
        f = self.funcs[fname]
        fr = Frame()
        fr.fn = f; fr.bb = 0; fr.prev = -1; fr.idx = 0; fr.env = {}; fr.allocas = []; fr.ret_to = ret_to; fr.lcount = {}; fr.kind = kind
        for a, v in zip(f['args'], args):
            if 'byval' in a:
                o = self.newobj(st, bv(a['byval']), 'stack', None, 'byval')
                st.mem[o] = Copy(st.mem[o], bv(0), bv(a['byval']), st.mem[v.obj], v.off, v.obj)
                fr.allocas.append(o)
                v = Ptr(o, bv(0))
            fr.env[a['id']] = v
        st.frames.append(fr)

    def explore(self, states, region=None):
        """run states until they end; returns list of (event, state). region=(depth, loop) stops at back edges / exits"""
        out = []
        work = list(reversed(states))
        while work:
            st = work.pop()
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            try:
                r = self.run(st, region)
            except Fork as f:
                a, b = st, st.clone()
                for s, c in ((b, z3.Not(f.c)), (a, f.c)):
                    s.pc.append(simp(c))
                    work.append(s)
                continue
            except Dead:
                continue
            if r is None:
                continue
            for ev, s in r:
                if ev == 'cont':
                    work.append(s)
                else:
                    out.append((ev, s))
        return out

    def run(self, st, region):
        while True:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.bb][fr.idx]
            self.nsteps += 1
            if self.nsteps % 1000 == 0 and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            r = self.step(st, fr, ins, region)
            if r is not None:
                return r

    def goto(self, st, fr, target, region):
        """take the edge fr.bb -> target"""
        f = fr.fn
        src = fr.bb
        vals = {}
        for ins in f['blocks'][target]:
            if ins['op'] != 'phi':
                break
            for b, v in ins['inc']:
                if b == src:
                    if v['k'] == 'undef' and ins['t'] != 'ptr' and self.width(ins['t']):
                        vals[ins['id']] = self.fresh(self.width(ins['t']), 'undef')
                    else:
                        vals[ins['id']] = self.val(st, fr, v)
                    break
        fr.env.update(vals)
        fr.prev = src
        fr.bb = target
        fr.idx = 0
        depth = len(st.frames)
        if region is not None and depth == region[0]:
            L = region[1]
            if target == L['header']:
                return [('back', st)]
            if target not in L['bset']:
                return [('exit', st)]
        L = f['lmap'].get(target)
        if L is not None:
            if src in L['bset']:
                fr.lcount[target] = fr.lcount.get(target, 0) + 1
                if fr.lcount[target] > st.unroll:
                    if self.sol.feasible(st.pc) != z3.unsat:
                        self.oblige(st, FALSE, 'loop unrolled completely', 'unwinding', f['blocks'][target][-1])
                    raise Dead()
            else:
                fr.lcount[target] = 0
                if st.cut and fr.kind == 'call' and not (0 < L.get('trip', 0) <= min(64, st.unroll)):
                    return self.cut_loop(st, fr, L, region)
        return None

    def cmp(self, st, pred, a, b):
        if self.cmplog is not None and not isinstance(a, list):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                self.cmplog.append((a.off, b.off))
            elif z3.is_expr(a) and z3.is_bv(a):
                self.cmplog.append((a, b))
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.cmpptr(st, pred, a, b)
        if isinstance(a, list):
            return [self.cmp(st, pred, x, y) for x, y in zip(a, b)]
        if z3.is_bool(a):
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(a != b)
            a = b2bv(a, 1); b = b2bv(b, 1)
        f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
             'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred]
        return simp(f(a, b))
    def cmpptr(self, st, pred, a, b):
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            e = a.name == b.name
            return z3.BoolVal(e if pred == 'eq' else not e)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            return z3.BoolVal(pred == 'ne')
        if a.obj == b.obj:
            if pred in ('eq', 'ne'):
                return self.cmp(st, pred, a.off, b.off)
            if a.obj in (NULLOBJ, RAW):
                return self.cmp(st, pred, a.off, b.off)
            # same object, offsets are signed distances from its base; addresses never wrap for live objects
            return self.cmp(st, pred.replace('u', 's', 1) if pred[0] == 'u' else pred, a.off, b.off)
        if pred in ('eq', 'ne'):
            if a.obj in (NULLOBJ,) and isc(a.off) and cv(a.off) == 0 or b.obj in (NULLOBJ,) and isc(b.off) and cv(b.off) == 0:
                x = b if a.obj == NULLOBJ else a
                if x.obj > 0:
                    return z3.BoolVal(pred == 'ne')
            if a.obj > 0 and b.obj > 0:
                return z3.BoolVal(pred == 'ne')
        for x, y in ((a, b), (b, a)):
            if x.obj > 0 and y.obj > 0:
                ax, ay = self.addr(st, x.obj), self.addr(st, y.obj)
                sx, sy = st.info[x.obj].size, st.info[y.obj].size
                c = simp(z3.Or(z3.ULE(ax + sx, ay), z3.ULE(ay + sy, ax)))
                if not any(c.eq(p) for p in st.pc[-40:]):
                    st.pc.append(c)
                break
        return self.cmp(st, pred, self.ptr2int(st, a), self.ptr2int(st, b))

    def step(self, st, fr, ins, region):
        op = ins['op']
        env = fr.env
        V = lambda v: self.val(st, fr, v)
        if op == 'phi':
            fr.idx += 1
            return None
        if op == 'br':
            ops = ins['ops']
            if len(ops) == 1:
                return self.goto(st, fr, ops[0]['v'], region)
            c = simp(V(ops[0]))
            f, t = ops[1]['v'], ops[2]['v']     # LLVM operand order: cond, false, true
            if z3.is_true(c):
                return self.goto(st, fr, t, region)
            if z3.is_false(c):
                return self.goto(st, fr, f, region)
            if t == f:
                return self.goto(st, fr, t, region)
            r1 = self.sol.feasible(st.pc, c) != z3.unsat
            r2 = self.sol.feasible(st.pc, z3.Not(c)) != z3.unsat
            if r1 and r2:
                s2 = st.clone()
                s2.pc.append(simp(z3.Not(c)))
                res = []
                st.pc.append(c)
                for s, tg in ((st, t), (s2, f)):
                    try:
                        r = self.goto(s, s.frames[-1], tg, region)
                    except Dead:
                        continue
                    res += [('cont', s)] if r is None else r
                return res
            if r1:
                return self.goto(st, fr, t, region)
            if r2:
                return self.goto(st, fr, f, region)
            raise Dead()
        if op == 'switch':
            c = simp(V(ins['c']))
            res = []
            neg = []
            for cval, tg in ins['cases']:
                e = simp(c == V(cval))
                if z3.is_true(e):
                    return self.goto(st, fr, tg, region)
                if z3.is_false(e):
                    continue
                neg.append(z3.Not(e))
                if self.sol.feasible(st.pc, e) != z3.unsat:
                    s = st.clone()
                    s.pc.append(e)
                    r = self.goto(s, s.frames[-1], tg, region)
                    res += [('cont', s)] if r is None else r
            dc = z3.And(neg) if neg else TRUE
            if self.sol.feasible(st.pc, dc) != z3.unsat:
                st.pc.append(simp(dc))
                r = self.goto(st, fr, ins['def'], region)
                res += [('cont', st)] if r is None else r
            return res
        if op == 'ret':
            v = V(ins['ops'][0]) if ins['ops'] else None
            return self.do_ret(st, fr, v, region)
        if op == 'unreachable':
            self.oblige(st, FALSE, 'unreachable code is not reached', 'unreachable', ins)
            raise Dead()
        if op in ('call', 'invoke'):
            return self.do_call(st, fr, ins, region)
        if op == 'resume':
            return self.unwind(st, region)
        if op in ('atomicrmw', 'cmpxchg') or ('ord' in ins and op in ('load', 'store')):
            return self.atomic(st, fr, ins, region)
        r = self.simple(st, fr, ins, op, V)
        if r is not None:
            env[ins['id']] = r
        fr.idx += 1
        return None

    def do_ret(self, st, fr, v, region):
        for o in fr.allocas:
            i = st.info[o].clone()
            i.alive = False
            st.info[o] = i
        st.frames.pop()
        if fr.kind == 'pure':
            st.ret = v
            return [('ret', st)]
        if not st.frames:
            return [('ret', st)]
        if fr.kind == 'hook':
            return None
        c = st.frames[-1]
        cins = c.fn['blocks'][c.bb][c.idx]
        if v is not None:
            c.env[cins['id']] = v
        if cins['op'] == 'invoke':
            return self.goto(st, c, cins['nd'], region)
        c.idx += 1
        return None

    def binop(self, op, a, b):
        if isinstance(a, list):
            return [self.binop(op, x, y) for x, y in zip(a, b)]
        if z3.is_bool(a):
            if op == 'and':
                return simp(z3.And(a, b))
            if op == 'or':
                return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            if op == 'mul':
                return simp(z3.And(a, b))
            if op in ('shl', 'lshr', 'ashr'):
                return a
            raise Unsupported('i1 ' + op)
        if op == 'add': return simp(a + b)
        if op == 'sub': return simp(a - b)
        if op == 'mul': return simp(a * b)
        if op == 'and': return simp(a & b)
        if op == 'or': return simp(a | b)
        if op == 'xor': return simp(a ^ b)
        if op == 'shl': return simp(a << b)
        if op == 'lshr': return simp(z3.LShR(a, b))
        if op == 'ashr': return simp(a >> b)
        if op == 'udiv': return simp(z3.UDiv(a, b))
        if op == 'urem': return simp(z3.URem(a, b))
        if op == 'sdiv': return simp(a / b)
        if op == 'srem': return simp(z3.SRem(a, b))
        raise Unsupported(op)
    def cast(self, st, op, v, f, t):
        if isinstance(v, list):
            ft, tt = self.vec(f), self.vec(t)
            if op == 'bitcast':
                return self.vbitcast(v, f, t)
            return [self.cast(st, op, x, ft[1], tt[1]) for x in v]
        if op == 'bitcast':
            if self.vec(t):
                return self.vbitcast([v], '<1 x %s>' % f, t)
            return v
        if op == 'ptrtoint':
            return fit(self.ptr2int(st, v), self.width(t))
        if op == 'inttoptr':
            return self.int2ptr(st, fit(v, 64))
        wt = self.width(t)
        if op == 'zext':
            return simp(b2bv(v, wt)) if z3.is_bool(v) else simp(z3.ZeroExt(wt - v.size(), v))
        if op == 'sext':
            return simp(z3.If(v, BV(-1, wt), BV(0, wt))) if z3.is_bool(v) else simp(z3.SignExt(wt - v.size(), v))
        if op == 'trunc':
            return simp(z3.Extract(0, 0, v) == 1) if wt == 1 else simp(z3.Extract(wt - 1, 0, v))
        if op in ('uitofp', 'sitofp'):
            s = fpsort(t)
            if z3.is_bool(v):
                v = b2bv(v, 8)
            fp = z3.fpToFP(z3.RNE(), v, s) if op == 'sitofp' else z3.fpToFPUnsigned(z3.RNE(), v, s)
            return z3.fpToIEEEBV(fp)
        if op in ('fptoui', 'fptosi'):
            x = bv2fp(v, fpsort(f))
            return z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(wt)) if op == 'fptoui' else z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(wt))
        if op in ('fpext', 'fptrunc'):
            return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), bv2fp(v, fpsort(f)), fpsort(t)))
        raise Unsupported('cast ' + op)
    def vbitcast(self, v, f, t):
        ft = self.vec(f)
        allb = []
        es = self.width(ft[1])
        if es == 1:
            allb = [b2bv(x, 1) for x in v]
            whole = simp(z3.Concat(*reversed(allb))) if len(allb) > 1 else allb[0]
        else:
            whole = simp(z3.Concat(*reversed(v))) if len(v) > 1 else v[0]
        tt = self.vec(t)
        if tt:
            w = self.width(tt[1])
            return [simp(z3.Extract((i + 1) * w - 1, i * w, whole)) for i in range(tt[0])]
        return whole
    def addr_users(self, fr):
        # address-independence: a ptrtoint may only feed differences of two pointers
        k = id(fr.fn)
        if not hasattr(self, '_au'):
            self._au = {}
        if k not in self._au:
            p2i, ok = set(), {}
            blocks = fr.fn['blocks']
            for b in blocks:
                for i in b:
                    if i['op'] == 'ptrtoint':
                        p2i.add(i['id']); ok[i['id']] = True
            def regs(x):
                if isinstance(x, dict):
                    if x.get('k') == 'r':
                        yield x['v']
                    else:
                        for y in x.values():
                            yield from regs(y)
                elif isinstance(x, list):
                    for y in x:
                        yield from regs(y)
            for b in blocks:
                for i in b:
                    us = set(regs([v for q, v in i.items() if q != 'id'])) & p2i
                    if us and not (i['op'] == 'sub' and all(o.get('k') == 'r' and o['v'] in p2i for o in i['ops'])):
                        for u in us:
                            ok[u] = False
            self._au[k] = ok
        return self._au[k]
    def no_address(self, st, fr, ins, op, V):
        if op == 'ptrtoint':
            self.oblige(st, TRUE if self.addr_users(fr).get(ins['id']) else FALSE, 'the result does not depend on addresses (pointer converted to integer)', 'address', ins)
        elif op == 'icmp' or op == 'sub':
            a, b = (V(o) for o in ins['ops'])
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                self.oblige(st, TRUE if a.obj == b.obj or NULLOBJ in (a.obj, b.obj) else FALSE, 'the result does not depend on addresses (pointers of different objects compared)', 'address', ins)
            elif op == 'sub' and not isinstance(a, list) and any(v.startswith('base!') for v in self.sol.vars(simp(a - b))):
                self.oblige(st, FALSE, 'the result does not depend on addresses (difference of unrelated pointers)', 'address', ins)
        elif op == 'load':
            p = V(ins['ops'][0])
            if isinstance(p, Ptr) and p.obj in st.info and st.info[p.obj].kind == 'global' and not st.info[p.obj].const and not (ins.get('fl') or '').startswith('specs/') and '/specs/' not in (ins.get('fl') or ''):
                self.oblige(st, FALSE, 'the result does not depend on mutable global state', 'address', ins)
    def simple(self, st, fr, ins, op, V):
        if st.noaddr:
            self.no_address(st, fr, ins, op, V)
        if op == 'alloca':
            cnt = V(ins['cnt'])
            size = simp(fit(cnt, 64) * bv(ins['sz']))
            o = self.newobj(st, size, 'stack', None, 'local')
            fr.allocas.append(o)
            return Ptr(o, bv(0))
        if op == 'load':
            return self.load(st, V(ins['ops'][0]), ins['t'], ins)
        if op == 'store':
            self.store(st, V(ins['ops'][1]), V(ins['ops'][0]), ins['vt'], ins)
            return None
        if op == 'getelementptr':
            if 'bad' in ins:
                raise Unsupported('gep')
            p = V(ins['base'])
            off = bv(ins['off'] & ((1 << 64) - 1))
            for v, sc, t in ins['vars']:
                x = V(v)
                if x.size() < 64:
                    x = z3.SignExt(64 - x.size(), x)
                off = off + (x if sc == 1 else x * bv(sc & ((1 << 64) - 1)))
            if isinstance(p, FnPtr):
                raise Unsupported('gep on function')
            return Ptr(p.obj, simp(p.off + off))
        if op == 'icmp':
            return self.cmp(st, ins['pred'], V(ins['ops'][0]), V(ins['ops'][1]))
        if op == 'select':
            c, a, b = (V(x) for x in ins['ops'])
            if isinstance(c, list):
                return [simp(z3.If(x, y, z)) for x, y, z in zip(c, a, b)]
            c = simp(c)
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    return Ptr(a.obj, simp(z3.If(c, a.off, b.off)))
                return a if self.decide(st, c) else b
            if isinstance(a, (list, tuple)):
                return a if self.decide(st, c) else b
            return simp(z3.If(c, a, b))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(ins['ops'][0]), V(ins['ops'][1])
            if op in ('udiv', 'urem', 'sdiv', 'srem') and not isinstance(a, list):
                self.oblige(st, b != 0, 'no division by zero', 'arith', ins)
            return self.binop(op, a, b)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            return self.cast(st, op, V(ins['ops'][0]), ins['st'], ins['t'])
        if op == 'freeze':
            return V(ins['ops'][0])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(ins['ops'][0]), V(ins['ops'][1])
            s = fpsort(ins['t'])
            x, y = bv2fp(a, s), bv2fp(b, s)
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return z3.fpToIEEEBV(f(z3.RNE(), x, y))
        if op == 'fneg':
            a = V(ins['ops'][0])
            return simp(a ^ BV(1 << (a.size() - 1), a.size()))
        if op == 'fcmp':
            s = fpsort(ins['st'])
            x, y = (bv2fp(V(o), s) for o in ins['ops'])
            p = ins['pred']
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': z3.fpEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))}
            if p == 'ord':
                return simp(z3.Not(un))
            if p == 'uno':
                return simp(un)
            if p == 'true':
                return TRUE
            if p == 'false':
                return FALSE
            r = base[p[1:]]
            return simp(r if p[0] == 'o' else z3.Or(un, r))
        if op == 'extractvalue':
            v = V(ins['ops'][0])
            for i in ins['idx']:
                v = v[i]
            return v
        if op == 'insertvalue':
            v, x = V(ins['ops'][0]), V(ins['ops'][1])
            def put(a, ix):
                a = list(a)
                a[ix[0]] = x if len(ix) == 1 else put(a[ix[0]], ix[1:])
                return tuple(a)
            return put(v, ins['idx'])
        if op == 'extractelement':
            v, i = V(ins['ops'][0]), simp(V(ins['ops'][1]))
            if isc(i):
                return v[cv(i)]
            r = v[-1]
            for k in range(len(v) - 2, -1, -1):
                r = z3.If(i == k, v[k], r)
            return simp(r)
        if op == 'insertelement':
            v, x, i = (V(o) for o in ins['ops'])
            i = simp(i)
            if not isc(i):
                raise Unsupported('insertelement index')
            v = list(v)
            v[cv(i)] = x
            return v
        if op == 'shufflevector':
            a, b = V(ins['ops'][0]), V(ins['ops'][1])
            l = list(a) + list(b)
            return [l[i] if i >= 0 else l[0] for i in ins['mask']]
        if op == 'landingpad':
            e = st.exc
            return (e[0], BV(e[1], 32))
        if op == 'fence':
            return None
        raise Unsupported('instruction ' + op)

    # ---- exceptions
    def throw(self, st, obj, region, typ=1):
        st.exc = (obj, typ)
        return self.unwind_from_call(st, region)
    def unwind_from_call(self, st, region):
        """the current instruction of the top frame threw"""
        fr = st.frames[-1]
        ins = fr.fn['blocks'][fr.bb][fr.idx]
        if ins['op'] == 'invoke':
            return self.goto(st, fr, ins['ud'], region)
        return self.unwind(st, region)
    def unwind(self, st, region):
        fr = st.frames.pop()
        for o in fr.allocas:
            i = st.info[o].clone()
            i.alive = False
            st.info[o] = i
        if not st.frames or fr.kind in ('pure', 'hook'):
            return [('throw', st)]
        return self.unwind_from_call(st, region)

    # ---- calls
    def do_call(self, st, fr, ins, region):
        cal = ins['callee']
        if cal['k'] == 'asm':
            return self.do_asm(st, fr, ins, cal, region)
        if cal['k'] == 'r':
            p = self.val(st, fr, cal)
            if not isinstance(p, FnPtr):
                raise Unsupported('indirect call')
            name = p.name
        elif cal['k'] == 'fn':
            name = cal['n']
        else:
            raise Unsupported('callee %s' % cal)
        if name in self.funcs:
            args = [self.val(st, fr, a) for a in ins['args']]
            if len(st.frames) > 200:
                raise Unsupported('recursion depth')
            self.push(st, name, args)
            return None
        args = [self.val(st, fr, a) for a in ins['args']]
        h = EXT.get(name)
        if h is None and name.startswith('llvm.'):
            r = self.intrinsic(st, name, args, ins)
            return self.fin(st, fr, ins, r, region)
        if h is None:
            for k, v in EXT.items():
                if k.endswith('*') and name.startswith(k[:-1]):
                    h = v
                    break
        if h is None:
            raise Unsupported('external function ' + name)
        r = h(self, st, fr, ins, args, region)
        if isinstance(r, Ev):
            return r.ev
        return self.fin(st, fr, ins, r, region)
    def fin(self, st, fr, ins, r, region):
        if r is not None:
            fr.env[ins['id']] = r
        if ins['op'] == 'invoke':
            return self.goto(st, fr, ins['nd'], region)
        fr.idx += 1
        return None
    def do_asm(self, st, fr, ins, cal, region):
        s = cal['s'].strip()
        args = [self.val(st, fr, a) for a in ins['args']]
        if s.startswith('popcnt') and len(args) == 1:
            return self.fin(st, fr, ins, popcount(args[0]), region)
        if s == '' or s in ('pause', 'nop') or s.startswith('pause'):
            return self.fin(st, fr, ins, None, region)
        raise Unsupported('asm ' + s)
    def intrinsic(self, st, name, a, ins):
        b = name.split('.')
        k = b[1]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.prefetch', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant')):
            return None
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], fit(a[2], 64), ins, k == 'memmove')
            return None
        if k == 'memset':
            self.memset(st, a[0], a[1], fit(a[2], 64), ins)
            return None
        if k == 'expect':
            return a[0]
        if k == 'ctpop':
            return vmap(popcount, a[0])
        if k == 'bswap':
            return vmap(lambda x: simp(z3.Concat(*[z3.Extract(i + 7, i, x) for i in range(0, x.size(), 8)])), a[0])
        if k == 'bitreverse':
            return vmap(lambda x: simp(z3.Concat(*[z3.Extract(i, i, x) for i in range(x.size())])), a[0])
        if k == 'ctlz':
            return vmap(clz, a[0])
        if k == 'cttz':
            return vmap(ctz, a[0])
        if k in ('fshl', 'fshr'):
            x, y, s = a
            w = x.size()
            s = z3.URem(s, BV(w, w))
            c = z3.Concat(x, y)
            s2 = z3.ZeroExt(w, s)
            r = z3.Extract(2 * w - 1, w, c << s2) if k == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(c, s2))
            return simp(r)
        mm = {'umin': z3.ULT, 'umax': z3.UGT, 'smin': lambda x, y: x < y, 'smax': lambda x, y: x > y}
        if k in mm:
            return vmap2(lambda x, y: simp(z3.If(mm[k](x, y), x, y)), a[0], a[1])
        if k == 'abs':
            return vmap(lambda x: simp(z3.If(x < 0, -x, x)), a[0])
        if k == 'usub' and b[2] == 'sat':
            return vmap2(lambda x, y: simp(z3.If(z3.ULT(x, y), BV(0, x.size()), x - y)), a[0], a[1])
        if k == 'uadd' and b[2] == 'sat':
            return vmap2(lambda x, y: simp(z3.If(z3.ULT(x + y, x), BV(-1, x.size()), x + y)), a[0], a[1])
        if len(b) > 3 and b[3] == 'overflow' or (len(b) > 3 and b[2] == 'with'):
            x, y = a
            w = x.size()
            ext_ = z3.SignExt if k[0] == 's' else z3.ZeroExt
            X, Y = ext_(w, x), ext_(w, y)
            R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[k[1:]]
            r = z3.Extract(w - 1, 0, R)
            return (simp(r), simp(ext_(w, r) != R))
        if k == 'is':
            return FALSE
        if k == 'objectsize':
            return BV(-1, self.width(ins['t']))
        if k == 'eh' and b[2] == 'typeid':
            return BV(10 + a[0].obj if isinstance(a[0], Ptr) and a[0].obj > 0 else 7, 32)
        if k in ('trap', 'ubsantrap', 'debugtrap'):
            self.oblige(st, FALSE, 'no undefined arithmetic (trap)', 'trap', ins)
            raise Dead()
        if k == 'vector' and b[2] == 'reduce':
            f = {'add': lambda x, y: x + y, 'or': lambda x, y: z3.Or(x, y) if z3.is_bool(x) else x | y, 'and': lambda x, y: z3.And(x, y) if z3.is_bool(x) else x & y, 'xor': lambda x, y: x ^ y}[b[3]]
            r = a[0][0]
            for x in a[0][1:]:
                r = f(r, x)
            return simp(r)
        if k == 'x86':
            return self.x86(st, name, a, ins)
        if k == 'stacksave':
            return NULL
        if k == 'stackrestore':
            return None
        if k == 'fabs':
            return simp(a[0] & BV((1 << (a[0].size() - 1)) - 1, a[0].size()))
        raise Unsupported('intrinsic ' + name)
    def x86(self, st, name, a, ins):
        if 'pmovmskb' in name or 'movmsk' in name:
            bits = [z3.Extract(x.size() - 1, x.size() - 1, x) for x in a[0]]
            r = z3.Concat(*reversed(bits))
            return simp(z3.ZeroExt(32 - r.size(), r)) if r.size() < 32 else simp(r)
        raise Unsupported('intrinsic ' + name)

    # ---- atomics with rely/guarantee hooks
    def atomic(self, st, fr, ins, region):
        if st.hook is not None and st.aphase is None:
            st.aphase = 'go'
            self.push(st, st.hook[0].name, [], kind='hook')
            return None
        op = ins['op']
        V = lambda v: self.val(st, fr, v)
        kind = None
        if op == 'load':
            p = V(ins['ops'][0])
            old = self.load(st, p, ins['t'], ins)
            new = old
            res = old
            kind = 0
            t = ins['t']
        elif op == 'store':
            p = V(ins['ops'][1])
            t = ins['vt']
            old = self.load(st, p, t, ins)
            new = V(ins['ops'][0])
            self.store(st, p, new, t, ins)
            res = None
            kind = 1
        elif op == 'atomicrmw':
            p, x = V(ins['ops'][0]), V(ins['ops'][1])
            t = ins['t']
            old = self.load(st, p, t, ins)
            k = ins['rmw']
            new = {'xchg': lambda: x, 'add': lambda: old + x, 'sub': lambda: old - x, 'and': lambda: old & x, 'or': lambda: old | x, 'xor': lambda: old ^ x,
                   'umax': lambda: z3.If(z3.UGT(old, x), old, x), 'umin': lambda: z3.If(z3.ULT(old, x), old, x)}[k]()
            new = simp(new)
            self.store(st, p, new, t, ins)
            res = old
            kind = 2
        else:
            p, c, x = (V(o) for o in ins['ops'])
            t = ins['vt']
            old = self.load(st, p, t, ins)
            ok = self.decide(st, old == c)
            new = x if ok else old
            if ok:
                self.store(st, p, new, t, ins)
            res = (old, z3.BoolVal(ok))
            kind = 3 if ok else 4
        o = {'monotonic': 0, 'unordered': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}[ins['ord'] if kind != 4 else ins['ford']]
        st.aphase = None     # only now: a fork above runs this instruction again
        if res is not None:
            fr.env[ins['id']] = res
        fr.idx += 1
        if st.hook is not None:
            def wide(v):
                return v and self.ptr2int(st, v) if isinstance(v, Ptr) else simp(b2bv(v, 64)) if z3.is_bool(v) else simp(z3.ZeroExt(64 - v.size(), v)) if v.size() < 64 else v
            self.push(st, st.hook[1].name, [p, BV(kind, 32), wide(old), wide(new), BV(o, 32)], kind='hook')
        return None

    # ---- pure evaluation of hint / predicate functions
    def pure(self, st, fname, args, nobound=True):
        s = st.clone()
        s.frames = []
        s.writes = None
        s.cut = False
        s.hook = None
        self.push(s, fname, args, kind='pure')
        n0 = len(st.pc)
        self.quiet += 1
        oq = self.qmode
        try:
            evs = self.explore([s])
        finally:
            self.quiet -= 1
            self.qmode = oq
        res = None
        for ev, t in evs:
            if ev != 'ret':
                continue
            extra = [c for c in t.pc if not any(c is d for d in st.pc)]
            extra = t.pc[n0:]
            c = z3.And(extra) if extra else TRUE
            r = t.ret
            if not z3.is_bool(r):
                r = r != 0
            res = (c, r) if res is None else (None, z3.And(z3.Implies(c, r), res[1] if res[0] is None else z3.Implies(res[0], res[1])))
        if res is None:
            return TRUE
        if res[0] is not None:
            return simp(z3.Implies(res[0], res[1]))
        return simp(res[1])
    def pure_noaccess(self, st, fname, args):
        return self.pure(st, fname, args)

    def quantify(self, st, fname, nparams):
        f = self.funcs[fname]
        vs = [self.fresh(self.width(a['t']), 'q') for a in f['args'][:nparams]]
        self.qmode = True
        self.quant_depth = True
        try:
            body = self.pure_q(st, fname, vs)
        finally:
            self.qmode = False
        return vs, body
    def pure_q(self, st, fname, args):
        # predicate evaluated on universally quantified parameters: out-of-range reads are unconstrained
        s = st.clone()
        s.frames = []; s.writes = None; s.cut = False; s.hook = None
        self.push(s, fname, args, kind='pure')
        n0 = len(s.pc)
        self.quiet += 1
        self.inpure += 1
        save = self.check_access
        self.check_access = lambda st_, p, n, what, ins, write=False: p
        try:
            evs = self.explore([s])
        finally:
            self.quiet -= 1
            self.inpure -= 1
            self.check_access = save
        parts = []
        for ev, t in evs:
            if ev != 'ret':
                continue
            extra = t.pc[n0:]
            r = t.ret
            if not z3.is_bool(r):
                r = r != 0
            parts.append(z3.Implies(z3.And(extra), r) if extra else r)
        return simp(z3.And(parts)) if parts else TRUE

    # ---- loop cutting
    def cut_loop(self, st, fr, L, region):
        from loops import cut_loop
        return cut_loop(self, st, fr, L, region)

    # ---- top level
    def main(self):
        st = St()
        self.push(st, self.J['harness'], [])
        rep = {'harness': self.J['harness'], 'error': None}
        try:
            evs = self.explore([st])
            for ev, s in evs:
                self.paths += 1
                if ev == 'ret':
                    self.returns += 1
                    self.covers['end of harness'] = self.covers.get('end of harness', 0) + 1
                elif ev == 'throw':
                    key = ('exception', 'no exception escapes', '')
                    self.obls.setdefault(key, {'kind': 'exception', 'label': 'no exception escapes', 'loc': '', 'checks': 1, 'status': 'failed', 'by': {}, 'time': 0, 'model': self.extract_feasible(s)})
            # vacuity: at least one path must reach the end
            if self.returns == 0:
                rep['error'] = 'vacuous: no path reaches the end of the harness'
        except Unsupported as e:
            rep['error'] = 'unsupported: ' + str(e)
        except z3.Z3Exception as e:
            import traceback
            rep['error'] = 'z3: %s %s' % (e, traceback.format_exc()[-600:])
        obl = list(self.obls.values())
        rep['obligations'] = obl
        rep['total'] = len(obl)
        rep['discharged'] = sum(1 for o in obl if o['status'] == 'discharged')
        rep['checks'] = sum(o['checks'] for o in obl)
        rep['paths'] = self.paths
        rep['covers'] = self.covers
        rep['queries'] = self.sol.nq
        rep['solver_time'] = round(self.sol.time, 3)
        rep['hard_queries'] = self.sol.hard
        rep['cvc5_queries'] = self.sol.cvc5
        rep['time'] = round(time.time() - T0, 2)
        rep['loops'] = self.loops_cut
        rep['notes'] = sorted(self.notes)
        rep['replaced'] = self.J['replaced']
        rep['repo_functions'] = self.J['repo_functions']
        return rep
    def extract_feasible(self, st):
        s = z3.Solver()
        s.set('timeout', 5000)
        for c in st.pc:
            s.add(c)
        if s.check() == z3.sat:
            return self.extract(st, FALSE, s.model())
        return None

class Ev:
    def __init__(self, ev):
        self.ev = ev

def split_types(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '{[<(':
            d += 1
        if ch in '}])>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
def fit(e, w):
    if z3.is_bool(e):
        return b2bv(e, w)
    if e.size() == w:
        return e
    if e.size() > w:
        return simp(z3.Extract(w - 1, 0, e))
    return simp(z3.ZeroExt(w - e.size(), e))
def bv2fp(v, s):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV and v.arg(0).sort() == s:
        return v.arg(0)
    return z3.fpBVToFP(v, s)
def fpsort(t):
    return {'float': z3.Float32(), 'double': z3.Float64(), 'half': z3.Float16()}[t]
def vmap(f, x):
    return [f(y) for y in x] if isinstance(x, list) else f(x)
def vmap2(f, x, y):
    return [f(p, q) for p, q in zip(x, y)] if isinstance(x, list) else f(x, y)
def popcount(x):
    w = x.size()
    nb = w.bit_length()
    r = BV(0, nb)
    l = [z3.ZeroExt(nb - 1, z3.Extract(i, i, x)) for i in range(w)]
    while len(l) > 1:
        l = [l[i] + l[i + 1] if i + 1 < len(l) else l[i] for i in range(0, len(l), 2)]
    return simp(z3.ZeroExt(w - nb, l[0])) if w > nb else simp(fit(l[0], w))
def ctz(x):
    w = x.size()
    r = BV(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, x) == 1, BV(i, w), r)
    return simp(r)
def clz(x):
    w = x.size()
    r = BV(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, BV(w - 1 - i, w), r)
    return simp(r)


def cli():
    J = json.load(open(sys.argv[1]))
    E = Engine(J)
    rep = E.main()
    out = sys.argv[2] if len(sys.argv) > 2 else None
    if out:
        json.dump(rep, open(out, 'w'))
    if not out or VERB:
        for o in rep['obligations']:
            if o['status'] != 'discharged' or VERB > 1:
                print(o['status'], o['kind'], o['label'], o['loc'], o.get('model', o.get('why', '')))
        print(rep['harness'], 'obligations', rep['total'], 'discharged', rep['discharged'], 'checks', rep['checks'], 'paths', rep['paths'], 'queries', rep['queries'], 'time', rep['time'], 'error', rep['error'])
        for l in rep['loops']:
            print('  loop', l)

import externs   # registers the models of external functions
