"""Models (contracts) of the functions outside /repo that verified code calls, and of the vf_* contract intrinsics."""
from irv import *
import irv, z3

def cstr(E, st, p):
    g = [n for n, o in E.gobj.items() if o == p.obj] if isinstance(p, Ptr) else []
    if not g:
        return '?'
    init = E.globals[g[0]].get('init')
    o = cv(p.off)
    s = ''
    while o < len(init) and init[o]:
        s += chr(init[o]); o += 1
    return s

# ---------------------------------------------------------------- contract intrinsics
def any_(w):
    def f(E, st, fr, ins, a, region):
        n = cstr(E, st, a[0])
        v = E.fresh(w, n)
        st.inputs.append(('any', n, v))
        return v
    return f
EXT['vf_any_u64'] = any_(64)
EXT['vf_any_u32'] = any_(32)
EXT['vf_any_u16'] = any_(16)
EXT['vf_any_u8'] = any_(8)
@ext('vf_any_i128')
def _(E, st, fr, ins, a, region):
    raise Unsupported('i128')
@ext('vf_size')
def _(E, st, fr, ins, a, region):
    n = cstr(E, st, a[0])
    v = E.fresh(64, n)
    st.inputs.append(('size', n, v))
    E.assume(st, z3.And(z3.ULE(a[1], v), z3.ULE(v, a[2])))
    return v
@ext('vf_pick')
def _(E, st, fr, ins, a, region):
    # arbitrary in [lo,hi], one path per value
    # (the instruction is executed again after each fork)
    if st.pick is None:
        st.pick = E.fresh(64, cstr(E, st, a[0]))
        st.inputs.append(('size', cstr(E, st, a[0]), st.pick))
        E.assume(st, z3.And(z3.ULE(a[1], st.pick), z3.ULE(st.pick, a[2])))
    v = st.pick
    lo, hi = cv(a[1]), cv(a[2])
    for k in range(lo, hi):
        if E.decide(st, v == k):
            st.pick = None
            return bv(k)
    st.pick = None
    return bv(hi)
@ext('vf_assume')
def _(E, st, fr, ins, a, region):
    E.assume(st, a[0])
@ext('vf_assert')
def _(E, st, fr, ins, a, region):
    E.oblige(st, a[0], cstr(E, st, a[1]), 'assert', ins)
@ext('vf_cover')
def _(E, st, fr, ins, a, region):
    if not E.quiet:
        l = cstr(E, st, a[0])
        if E.sol.feasible(st.pc) != z3.unsat:
            E.covers[l] = E.covers.get(l, 0) + 1
def arr(kind):
    def f(E, st, fr, ins, a, region):
        g = cv(a[1])
        n = cstr(E, st, a[2])
        if g > 8:
            g = 8
        size = simp(a[0])
        o = E.newobj(st, size, kind, g if g in (1, 2, 4, 8) else 1, n)
        st.inputs.append(('arr', n, size, st.mem[o]))
        return Ptr(o, bv(0))
    return f
EXT['vf_array'] = arr('array')
EXT['vf_heap'] = arr('heap')
@ext('vf_snapshot')
def _(E, st, fr, ins, a, region):
    p = a[0]
    if p.obj in (NULLOBJ, RAW):
        return p
    i = st.info[p.obj]
    o = E.newobj(st, i.size, 'ghost', i.gran, 'snapshot', True, st.mem[p.obj])
    return Ptr(o, p.off)
@ext('vf_unchanged')
def _(E, st, fr, ins, a, region):
    p, s, lo, hi = a
    if p.obj in (NULLOBJ, RAW):
        return TRUE
    g = st.info[p.obj].gran or 1
    k = E.fresh(64, 'k')
    off = simp(p.off + lo + (k * bv(g) if g > 1 else k))
    soff = simp(s.off + lo + (k * bv(g) if g > 1 else k))
    cond = z3.And(z3.ULT(k, bv(1 << 50)), z3.ULT(lo, hi), z3.ULT(k * bv(g) if g > 1 else k, hi - lo))
    st2 = st.clone()
    st2.pc.append(cond)
    x = E.conv(st2, E.rd(st2, p.obj, st2.mem[p.obj], off, g), g)
    y = E.conv(st2, E.rd(st2, s.obj, st2.mem[s.obj], soff, g), g)
    st.pc += st2.pc[len(st.pc) + 1:]
    return simp(z3.Implies(cond, x == y))
@ext('vf_hint')
def _(E, st, fr, ins, a, region):
    st.hints.append((a[0].name, False))
@ext('vf_hint_forall')
def _(E, st, fr, ins, a, region):
    st.hints.append((a[0].name, True))
@ext('vf_hint_clear')
def _(E, st, fr, ins, a, region):
    st.hints = []
@ext('vf_forall')
def _(E, st, fr, ins, a, region):
    n = cv(a[1])
    vs, body = E.quantify(st, a[0].name, n)
    if z3.is_true(body):
        return
    if any(x.get_id() == v.get_id() for v in vs for x in [body]):
        pass
    st.pc.append(z3.ForAll(vs, body))
@ext('vf_on_read')
def _(E, st, fr, ins, a, region):
    # every element i of the object satisfies fn(i): instantiated where the code reads an element; the object becomes constant
    i = st.info[a[0].obj].clone()
    i.const = True
    i.trig = a[1].name
    st.info[a[0].obj] = i
@ext('vf_check_forall')
def _(E, st, fr, ins, a, region):
    n = cv(a[1])
    f = E.funcs[a[0].name]
    vs = [E.fresh(E.width(x['t']), 'q') for x in f['args'][:n]]
    body = E.pure(st, a[0].name, vs)
    E.oblige(st, body, cstr(E, st, a[2]), 'assert', ins)
@ext('vf_cut_loops')
def _(E, st, fr, ins, a, region):
    st.cut = z3.is_true(simp(a[0]))
@ext('vf_term')
def _(E, st, fr, ins, a, region):
    st.terms.append(simp(a[0]))
@ext('vf_term_clear')
def _(E, st, fr, ins, a, region):
    st.terms = []
@ext('vf_frame')
def _(E, st, fr, ins, a, region):
    if a[0].obj not in (NULLOBJ, RAW):
        st.framehints.append((a[0].obj, a[0].off, simp(a[0].off + a[1])))
@ext('vf_require_term')
def _(E, st, fr, ins, a, region):
    st.reqterm = z3.is_true(simp(a[0]))
@ext('vf_generic')
def _(E, st, fr, ins, a, region):
    st.generic = z3.is_true(simp(a[0]))
@ext('vf_no_address')
def _(E, st, fr, ins, a, region):
    st.noaddr = z3.is_true(simp(a[0]))
@ext('vf_hint_outer')
def _(E, st, fr, ins, a, region):
    st.outer = z3.is_true(simp(a[0]))
@ext('vf_unroll')
def _(E, st, fr, ins, a, region):
    st.unroll = cv(simp(a[0]))
@ext('vf_live_heap')
def _(E, st, fr, ins, a, region):
    return bv(sum(1 for i in st.info.values() if i.kind == 'heap' and i.alive))
@ext('vf_native')
def _(E, st, fr, ins, a, region):
    return FALSE
@ext('vf_alloc_may_fail')
def _(E, st, fr, ins, a, region):
    st.allocfail = z3.is_true(simp(a[0]))
@ext('vf_heap_gran')
def _(E, st, fr, ins, a, region):
    st.hgran = cv(simp(a[0]))
@ext('vf_atomic_hook')
def _(E, st, fr, ins, a, region):
    st.hook = (a[0], a[1]) if isinstance(a[0], FnPtr) else None
@ext('vf_havoc')
def _(E, st, fr, ins, a, region):
    p, n = a
    p = E.check_access(st, p, n, 'havoc', ins, True)
    if st.writes is not None:
        st.writes.append((p.obj, p.off, n))
    g = st.info[p.obj].gran or 1
    st.mem[p.obj] = Havoc(st.mem[p.obj], [(p.off, simp(p.off + n))], Base(E.fresharr(g, 'havoc'), g, 'havoc'))
@ext('vf_obj_size')
def _(E, st, fr, ins, a, region):
    return bv(0) if a[0].obj in (NULLOBJ, RAW) else st.info[a[0].obj].size
@ext('vf_same_object')
def _(E, st, fr, ins, a, region):
    return z3.BoolVal(a[0].obj == a[1].obj)
@ext('vf_alive')
def _(E, st, fr, ins, a, region):
    return z3.BoolVal(a[0].obj not in (NULLOBJ, RAW) and st.info[a[0].obj].alive)
@ext('vf_offset')
def _(E, st, fr, ins, a, region):
    return a[0].off
@ext('vf_lazy_sort')
def _(E, st, fr, ins, a, region):
    return None
@ext('vf_ctor_hint', 'vf_note')
def _(E, st, fr, ins, a, region):
    return None

# ---------------------------------------------------------------- allocation
def alloc(E, st, n, name='heap', zero=False):
    n = simp(n)
    E.assume(st, z3.ULE(n, bv(1 << 46)))
    small = isc(n) and cv(n) <= 512
    g = None if small else st.hgran
    o = E.newobj(st, n, 'heap', g, name)
    if zero:
        st.mem[o] = Fill(st.mem[o], bv(0), n, BV(0, 8))
    return Ptr(o, bv(0))
def new(E, st, fr, ins, a, region):
    n = fit(a[0], 64)
    if st.allocfail and ins['op'] in ('invoke', 'call'):
        s2 = st.clone()
        x = Ptr(E.newobj(s2, bv(8), 'exc', None, 'bad_alloc'), bv(0))
        res = []
        try:
            r = E.throw(s2, x, region)
            res += [('cont', s2)] if r is None else r
        except Dead:
            pass
        try:
            p = alloc(E, st, n)
            r = E.fin(st, st.frames[-1], ins, p, region)
            res += [('cont', st)] if r is None else r
        except Dead:
            pass
        return Ev(res)
    return alloc(E, st, n)
for k in ('_Znwm', '_Znam'):
    EXT[k] = new
@ext('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(E, st, fr, ins, a, region):
    r = new(E, st, fr, ins, a, region)
    if isinstance(r, Ptr) and isc(a[1]):
        st.info[r.obj].align = max(16, cv(a[1]))
    return r
@ext('_ZnwmRKSt9nothrow_t', 'malloc')
def _(E, st, fr, ins, a, region):
    if st.allocfail:
        f = E.fresh(1, 'allocfail')
        if E.decide(st, f):
            return NULL
    return alloc(E, st, a[0])
@ext('aligned_alloc')
def _(E, st, fr, ins, a, region):
    r = alloc(E, st, a[1])
    if isc(a[0]):
        st.info[r.obj].align = max(16, cv(a[0]))
    return r
@ext('calloc')
def _(E, st, fr, ins, a, region):
    return alloc(E, st, simp(a[0] * a[1]), zero=True)
@ext('posix_memalign')
def _(E, st, fr, ins, a, region):
    r = alloc(E, st, a[2])
    st.info[r.obj].align = max(16, cv(a[1]))
    E.store(st, a[0], r, 'ptr', ins)
    return BV(0, 32)
def free(E, st, p, ins, n=None):
    if isinstance(p, FnPtr):
        raise Unsupported('free of a function')
    if p.obj == NULLOBJ:
        E.oblige(st, p.off == 0, 'deallocation of a pointer obtained from an allocation', 'memory', ins)
        return
    if p.obj == RAW:
        E.oblige(st, FALSE, 'deallocation of a pointer obtained from an allocation', 'memory', ins)
        raise Dead()
    i = st.info[p.obj]
    if i.kind != 'heap':
        E.oblige(st, FALSE, 'deallocation of a pointer obtained from an allocation', 'memory', ins)
        raise Dead()
    if not i.alive:
        E.oblige(st, FALSE, 'no double deallocation', 'memory', ins)
        raise Dead()
    E.oblige(st, p.off == 0, 'deallocation of a pointer obtained from an allocation', 'memory', ins)
    if n is not None:
        E.oblige(st, i.size == n, 'sized deallocation uses the allocated size', 'memory', ins)
    i = i.clone()
    i.alive = False
    st.info[p.obj] = i
@ext('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t')
def _(E, st, fr, ins, a, region):
    free(E, st, a[0], ins)
@ext('_ZdlPvm', '_ZdaPvm', '_ZdlPvmSt11align_val_t')
def _(E, st, fr, ins, a, region):
    free(E, st, a[0], ins, a[1])

# ---------------------------------------------------------------- libc
def bytesat(E, st, p, i):
    return E.conv(st, E.rd(st, p.obj, st.mem[p.obj], simp(p.off + i), 1), 1)
def memcmp_(E, st, p, q, n, ins, three):
    n = simp(fit(n, 64))
    if isc(n) and cv(n) == 0:
        return BV(0, 32)
    if not isc(n) and (p.obj in (NULLOBJ, RAW) or q.obj in (NULLOBJ, RAW)):
        if E.decide(st, n == 0):
            return BV(0, 32)
    if not isc(n):
        for x in (p, q):
            i = st.info[x.obj]
            E.oblige(st, z3.Or(n == 0, z3.And(z3.ULE(n, i.size), z3.ULE(x.off, i.size - n))), 'comparison in bounds', 'memory', ins)
    else:
        p = E.check_access(st, p, n, 'comparison', ins)
        q = E.check_access(st, q, n, 'comparison', ins)
    r = E.fresh(32, 'memcmp')
    if isc(n) and cv(n) <= 64:
        k = cv(n)
        ps = [bytesat(E, st, p, bv(i)) for i in range(k)]
        qs = [bytesat(E, st, q, bv(i)) for i in range(k)]
        e = BV(0, 32)
        for x, y in reversed(list(zip(ps, qs))):
            e = z3.If(x == y, e, z3.If(z3.ULT(x, y), BV(-1, 32), BV(1, 32)))
        return simp(e)
    # symbolic length: r==0 <-> equal everywhere; otherwise k is the first difference
    k = E.fresh(64, 'mm')
    j = E.fresh(64, 'j')
    E.qmode = True
    try:
        pk, qk = bytesat(E, st, p, k), bytesat(E, st, q, k)
        pj, qj = bytesat(E, st, p, j), bytesat(E, st, q, j)
    finally:
        E.qmode = False
    st.pc.append(z3.ULE(k, n))
    st.pc.append((r == 0) == (k == n))
    st.pc.append(z3.Implies(z3.ULT(k, n), z3.And(pk != qk, (r < 0) == z3.ULT(pk, qk))))
    body = z3.Implies(z3.ULT(j, k), pj == qj)
    st.pc.append(z3.ForAll([j], body))
    return r
@ext('memcmp', 'bcmp')
def _(E, st, fr, ins, a, region):
    return memcmp_(E, st, a[0], a[1], a[2], ins, True)
@ext('strlen')
def _(E, st, fr, ins, a, region):
    p = a[0]
    g = [n for n, o in E.gobj.items() if o == p.obj]
    if g and isc(p.off) and E.globals[g[0]]['const']:
        return bv(len(cstr(E, st, p)))
    n = E.fresh(64, 'strlen')
    i = st.info[p.obj]
    j = E.fresh(64, 'j')
    E.qmode = True
    try:
        at = bytesat(E, st, p, n)
        bj = bytesat(E, st, p, j)
    finally:
        E.qmode = False
    st.pc += [z3.ULT(n, i.size - p.off), at == 0, z3.ForAll([j], z3.Implies(z3.ULT(j, n), bj != 0))]
    return n
@ext('memchr')
def _(E, st, fr, ins, a, region):
    p, c, n = a
    c = fit(c, 8)
    k = E.fresh(64, 'memchr')
    j = E.fresh(64, 'j')
    p = E.check_access(st, p, n, 'memchr', ins) if isc(simp(n)) else p
    E.qmode = True
    try:
        at = bytesat(E, st, p, k); bj = bytesat(E, st, p, j)
    finally:
        E.qmode = False
    st.pc += [z3.ULE(k, n), z3.Implies(z3.ULT(k, n), at == c), z3.ForAll([j], z3.Implies(z3.ULT(j, k), bj != c))]
    return NULL if E.decide(st, k == n) else Ptr(p.obj, simp(p.off + k))

# ---------------------------------------------------------------- failure and exceptions
@ext('__assert_fail', 'abort', '_ZSt9terminatev', '__assert*')
def _(E, st, fr, ins, a, region):
    E.oblige(st, FALSE, 'internal assertion / no abort', 'assertion', ins)
    raise Dead()
@ext('_ZSt16__throw_bad_castv', '_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc',
     '_ZSt28__throw_bad_array_new_lengthv', '_ZSt24__throw_invalid_argumentPKc')
def _(E, st, fr, ins, a, region):
    x = Ptr(E.newobj(st, bv(16), 'exc', None, 'exception'), bv(0))
    return evs(st, E.throw(st, x, region))
def evs(st, r):
    return Ev([('cont', st)] if r is None else r)
@ext('__cxa_allocate_exception')
def _(E, st, fr, ins, a, region):
    return Ptr(E.newobj(st, a[0], 'exc', None, 'exception'), bv(0))
@ext('__cxa_free_exception', '__cxa_end_catch')
def _(E, st, fr, ins, a, region):
    return None
@ext('__cxa_begin_catch')
def _(E, st, fr, ins, a, region):
    st.caught.append(a[0])
    return a[0]
def tid(E, p):
    if isinstance(p, Ptr) and p.obj > 0:
        return 10 + p.obj
    return 1
@ext('__cxa_throw')
def _(E, st, fr, ins, a, region):
    return evs(st, E.throw(st, a[0], region, tid(E, a[1])))
@ext('__cxa_rethrow')
def _(E, st, fr, ins, a, region):
    x = st.caught[-1] if st.caught else NULL
    return evs(st, E.throw(st, x, region))
@ext('_ZNSt*')
def _(E, st, fr, ins, a, region):
    # constructors / destructors of standard exception classes: no effect the contracts talk about
    name = ins['callee'].get('n', '')
    if 'errorC' in name or 'exceptionD' in name or 'errorD' in name or 'out_of_range' in name or 'bad_' in name or 'invalid_argument' in name:
        return None
    raise Unsupported('external function ' + name)
@ext('sched_yield', '_ZNSt6thread20hardware_concurrencyEv', 'nanosleep')
def _(E, st, fr, ins, a, region):
    if 'hardware' in ins['callee'].get('n', ''):
        return E.fresh(32, 'hwc')
    return BV(0, 32)
