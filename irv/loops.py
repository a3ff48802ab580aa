"""Loop cutting: an inductive invariant is found by Houdini over templates and checked; the loop's effect is then
replaced by the invariant.  Nothing here is trusted for soundness except what is checked at the end of cut_loop:
 (1) every kept candidate holds on entry, (2) every kept candidate is preserved by an arbitrary iteration started in a
 state where only the kept candidates are known, (3) every write of an iteration lies inside the declared frame,
 (4) no object of the outside is freed by an iteration."""
from irv import *
import irv, z3, itertools, time

class Phi:
    __slots__ = ('key', 'w', 'ptr', 'obj', 'init', 'cur', 'bool')

def names(E, e):
    return E.sol.vars(e) if z3.is_expr(e) else set()

def small(t, lim=120):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > lim:
            return False
        st.extend(x.children())
    return True

class Cut:
    def __init__(self, E, st, fr, L, region):
        self.E = E; self.s0 = st; self.L = L; self.region = region
        self.depth = len(st.frames)
        self.fn = fr.fn
        self.hdr = L['header']
        self.phis = []
        self.vecphis = {}
        ins0 = fr.fn['blocks'][self.hdr]
        for ins in ins0:
            if ins['op'] != 'phi':
                break
            v = fr.env[ins['id']]
            if isinstance(v, FnPtr):
                raise Unsupported('function pointer loop variable')
            if isinstance(v, (list, tuple)):
                self.vecphis[ins['id']] = [E.fresh(x.size(), 'lv') if not z3.is_bool(x) else E.fresh(1, 'lv') for x in v]
                continue
            self.phis.append(self.mkphi(('phi', ins['id']), v))
        self.consts = []         # variables of the enclosing loops: constant here, but hints may name them
        if st.outer:
            for h2, L2 in fr.fn['lmap'].items():
                if h2 != self.hdr and self.hdr in L2['bset']:
                    for ins in fr.fn['blocks'][h2]:
                        if ins['op'] != 'phi':
                            break
                        v = fr.env.get(ins['id'])
                        if isinstance(v, Ptr) or (z3.is_expr(v) and z3.is_bv(v)):
                            p = self.mkphi(('const', ins['id']), v)
                            p.cur = p.init
                            self.consts.append(p)
        self.small = set()       # small local objects written at variable offsets: one cell
        self.cells = []          # pseudo phis: memory cells at constant offsets
        self.whole = {}          # obj -> Base for havocked part
        self.modes = {}          # obj -> 'site' | 'hint' | 'whole'
        self.sites = {}          # obj -> list of (off, n)
        bl = fr.fn['blocks']
        ln = [i for b in [self.hdr] + list(L['blocks']) for i in bl[b] if 'ln' in i and 'seq' in i.get('fl', '')]
        i = ln[0] if ln else {}
        self.loc = '%s:%s(%s)' % (os.path.basename(i.get('fl', '?')), i.get('fn', '?'), i.get('ln', '?'))

    def mkphi(self, key, v):
        p = Phi()
        p.key = key
        p.ptr = isinstance(v, Ptr)
        p.bool = False
        if p.ptr:
            p.obj = v.obj; p.init = v.off; p.w = 64
            p.cur = self.E.fresh(64, 'lp')
        else:
            p.obj = None; p.init = v
            p.bool = z3.is_bool(v)
            p.w = 1 if p.bool else v.size()
            p.cur = self.E.fresh(p.w, 'lv')
        return p

    def getcell(self, st, o, off, n):
        """value of a memory cell, pointer typed when the last store put a pointer there"""
        E = self.E
        node = st.mem[o]
        while isinstance(node, Store):
            d = simp(bv(off) - node.off)
            if not isc(d):
                break
            k = scv(d)
            if k == 0 and node.n == n:
                return node.val
            if k >= node.n or k <= -n:
                node = node.prev
                continue
            break
        return E.rd(st, o, st.mem[o], bv(off), n, n == 8)

    def state(self, cands):
        """arbitrary state at the loop header satisfying the candidates"""
        E = self.E
        s = self.s0.clone()
        fr = s.frames[-1]
        for p in self.phis:
            fr.env[p.key[1]] = Ptr(p.obj, p.cur) if p.ptr else p.cur
        for k, v in self.vecphis.items():
            fr.env[k] = v
        for o, base in self.whole.items():
            rs = self.ranges(o, self.curview())
            if rs is None:
                s.mem[o] = base
            elif rs:
                s.mem[o] = Havoc(s.mem[o], rs, base)
        for p in self.cells:
            _, o, off, n = p.key
            v = Ptr(p.obj, p.cur) if p.ptr else p.cur
            s.mem[o] = Store(s.mem[o], bv(off), n, v)
        v = self.curview()
        s.pc += [c for c in (simp(x[1]) for x in cands) if not z3.is_true(c)]
        return s

    def curview(self):
        return {p.key: p.cur for p in self.phis + self.cells + self.consts}
    def initview(self):
        return {p.key: p.init for p in self.phis + self.cells + self.consts}
    def backview(self, s):
        fr = s.frames[self.depth - 1]
        v = {p.key: p.cur for p in self.consts}
        for p in self.phis:
            x = fr.env[p.key[1]]
            if p.ptr:
                if not isinstance(x, Ptr) or x.obj != p.obj:
                    x2 = self.E.int2ptr(s, self.E.ptr2int(s, x)) if isinstance(x, Ptr) and x.obj == RAW else x
                    if not isinstance(x2, Ptr) or x2.obj != p.obj:
                        raise Unsupported('loop pointer changes object at ' + self.loc)
                    x = x2
                x = x.off
            v[p.key] = x
        for p in self.cells:
            _, o, off, n = p.key
            x = self.getcell(s, o, off, n)
            if p.ptr:
                if not isinstance(x, Ptr):
                    x = self.E.int2ptr(s, x)
                if x.obj != p.obj:
                    raise Unsupported('loop pointer cell changes object at ' + self.loc)
                x = x.off
            elif isinstance(x, (Ptr, FnPtr)):
                x = self.E.ptr2int(s, x)
            v[p.key] = x
        return v

    # ---- frames
    def subst(self, e, view):
        return simp(z3.substitute(e, [(p.cur, view[p.key]) for p in self.phis + self.cells if not z3.is_bool(p.cur)]))
    def ranges(self, o, view):
        """list of (lo,hi) the loop may have written in o when its variables have the values of view; None = all of it"""
        m = self.modes.get(o, 'whole')
        if m == 'whole':
            return None
        if m == 'hint':
            return [(lo, hi) for oo, lo, hi in self.s0.framehints if oo == o]
        out = []
        iv = self.initview()
        for off, n, d in self.sites[o]:
            nn = n if z3.is_expr(n) else bv(n)
            if d == 'fix':
                out.append((self.subst(off, iv), simp(self.subst(off, iv) + nn)))
            elif d == 'up':
                out.append((self.subst(off, iv), self.subst(off, view)))
            else:
                out.append((simp(self.subst(off, view) + nn), simp(self.subst(off, iv) + nn)))
        return out

    def run(self, s):
        return self.E.explore([s], (self.depth, self.L))

    def discover(self):
        E = self.E
        for rnd in range(12):
            s = self.state([])
            s.writes = []
            E.cmplog = []
            evs = self.run(s)
            self.cmps = E.cmplog
            E.cmplog = None
            new = False
            allw = {}
            for w in [s.writes] + [t.writes for _, t in evs]:
                if w is not None:
                    for x in w:
                        allw[(x[0], x[1].get_id() if z3.is_expr(x[1]) else x[1], x[2] if not z3.is_expr(x[2]) else ('e', x[2].get_id()))] = x
            cellkeys = {p.key for p in self.cells}
            for (o, off, n) in allw.values():
                if o not in self.s0.info:
                    continue
                if o in self.small:
                    continue
                if not isc(off) and o not in self.whole and isc(self.s0.info[o].size) and cv(self.s0.info[o].size) in (1, 2, 4, 8) and not self.s0.info[o].gran:
                    sz = cv(self.s0.info[o].size)
                    self.small.add(o)
                    self.cells = [p for p in self.cells if p.key[1] != o]
                    v = E.rd(self.s0, o, self.s0.mem[o], bv(0), sz, False)
                    self.cells.append(self.mkphi(('cell', o, 0, sz), v))
                    new = True
                    continue
                if isc(off) and not z3.is_expr(n) and n <= 8 and (isc(self.s0.info[o].size)) and cv(self.s0.info[o].size) <= 4096 and not self.s0.info[o].gran:
                    key = ('cell', o, cv(off), n)
                    if key in cellkeys:
                        continue
                    ov = [p for p in self.cells if p.key[1] == o and not (p.key[2] + p.key[3] <= cv(off) or cv(off) + n <= p.key[2])]
                    if not ov:
                        v = self.getcell(self.s0, o, cv(off), n)
                        if isinstance(v, FnPtr):
                            raise Unsupported('function pointer cell')
                        self.cells.append(self.mkphi(key, v))
                        cellkeys.add(key)
                        new = True
                        continue
                    # overlapping shapes: byte range
                    lo = min([cv(off)] + [p.key[2] for p in ov]); hi = max([cv(off) + n] + [p.key[2] + p.key[3] for p in ov])
                    self.cells = [p for p in self.cells if p not in ov]
                    for b in range(lo, hi):
                        v = self.getcell(self.s0, o, b, 1)
                        self.cells.append(self.mkphi(('cell', o, b, 1), self.E.conv(self.s0, v, 1)))
                    self.split_bytes = True
                    cellkeys = {p.key for p in self.cells}
                    new = True
                    continue
                if isc(off) and ('cell', o, cv(off), n) in cellkeys:
                    continue
                if o not in self.whole:
                    g = self.s0.info[o].gran or 1
                    self.whole[o] = Base(E.fresharr(g, 'lm'), g, 'loop')
                    self.modes[o] = 'whole'
                    new = True
            if not new:
                self.trial = evs
                self.allw = [x for x in allw.values() if x[0] in self.whole]
                return
        raise Unsupported('loop effect does not stabilise at ' + self.loc)

    def mksites(self):
        E = self.E
        backs = [t for ev, t in self.trial if ev == 'back']
        cur = {p.cur.decl().name() for p in self.phis + self.cells}
        known = self.nfresh0
        for o in self.whole:
            ss = []
            ok = True
            for (oo, off, n) in self.allw:
                if oo != o:
                    continue
                vs = names(E, off) | names(E, n)
                # variables created inside the iteration make the site useless as a template
                if any(v not in cur and self.isnew(v) for v in vs) or (z3.is_expr(n) and names(E, n) & cur):
                    ok = False
                    continue
                d = None
                for t in backs:
                    bvw = self.backview(t)
                    e1 = self.subst(off, bvw)
                    df = simp(e1 - off)
                    if isc(df):
                        x = 'fix' if cv(df) == 0 else 'up' if scv(df) > 0 else 'down'
                    elif E.sol.implied(t.pc, df == 0):
                        x = 'fix'
                    else:
                        m = None
                        if E.sol.feasible(t.pc, z3.And(df != 0, z3.ULT(df, bv(1 << 62)))) == z3.sat:
                            x = 'up'
                        else:
                            x = 'down'
                    if d is None or d == 'fix':
                        d = x
                    elif x != 'fix' and x != d:
                        d = 'mix'
                if d == 'mix' or d is None:
                    ok = False
                    continue
                ss.append((off, n, d))
            self.sites[o] = ss
            if ok and ss:
                self.modes[o] = 'site'
            elif any(x[0] == o for x in self.s0.framehints):
                self.modes[o] = 'hint'
            else:
                self.modes[o] = 'whole'
    def isnew(self, v):
        i = v.rfind('!')
        return v[i + 1:].isdigit() and not v.startswith('base!') and int(v[i + 1:]) > self.nfresh0

    def frame_checks(self, s, view):
        """list of (obj, condition) that must hold at a back edge"""
        out = []
        cur = self.curview()
        for o in self.whole:
            if self.modes[o] == 'whole':
                continue
            new = self.ranges(o, view)
            old = self.ranges(o, cur)
            for (lo, hi), (lo2, hi2) in zip(old, new):
                if lo.eq(lo2) and hi.eq(hi2):
                    continue
                out.append((o, z3.Or(lo == hi, z3.And(z3.ULE(lo - lo2, hi2 - lo2), z3.ULE(hi - lo, hi2 - lo)))))
            for (oo, off, n) in s.writes or []:
                if oo != o:
                    continue
                nn = n if z3.is_expr(n) else bv(n)
                out.append((o, z3.Or([nn == 0] + [z3.And(z3.ULE(nn, hi - lo), z3.ULE(off - lo, hi - lo - nn)) for lo, hi in new])))
        for (oo, off, n) in s.writes or []:
            if oo not in self.s0.info or oo in self.whole or oo in self.small:
                continue
            if isc(off) and not z3.is_expr(n):
                if any(p.key[1] == oo and p.key[2] <= cv(off) and cv(off) + n <= p.key[2] + p.key[3] for p in self.cells):
                    continue
                bs = [p.key for p in self.cells if p.key[1] == oo]
                if all(any(k[2] <= b < k[2] + k[3] for k in bs) for b in range(cv(off), cv(off) + n)):
                    continue
            out.append((oo, FALSE))
        return out

    # ---- candidates: (name, value at the header, value at entry, function of back state)
    def candidates(self):
        E = self.E
        P = self.phis + self.cells
        C = []
        def add(name, f):
            try:
                C.append((name, simp(f(self.curview())), simp(f(self.initview())), f))
            except z3.Z3Exception:
                pass
        curn = {p.cur.decl().name() for p in P}
        T = {}
        def term(t):
            t = simp(t)
            if z3.is_bool(t) or not z3.is_expr(t):
                return
            if names(E, t) & curn or any(self.isnew(v) for v in names(E, t)):
                return
            if not small(t):
                return
            T.setdefault(t.size(), {})[t.get_id()] = t
        for p in P:
            if not p.bool:
                term(p.init)
        for a, b in self.cmps:
            for x in (a, b):
                term(x)
                # the sum/difference terms of comparisons such as `i + 4 <= n`
        for t in self.s0.terms:
            term(t)
        for w in (64, 32):
            if len(T.get(w, {})) > 24:
                T[w] = dict(list(T[w].items())[:24])
        for p in P:
            k = p.key
            i = p.init
            nm = 'v%s%s' % (k[0][0], k[-1] if k[0] == 'phi' else '_'.join(map(str, k[1:])))
            if p.bool:
                add(nm + '==init', lambda v, k=k, i=i: v[k] == i)
                add(nm, lambda v, k=k: v[k])
                add('!' + nm, lambda v, k=k: z3.Not(v[k]))
                continue
            add(nm + '==init', lambda v, k=k, i=i: v[k] == i)
            if not self.s0.generic:
                continue
            ts = list(T.get(p.w, {}).values())
            seen = set()
            for t in ts + [BV(c, p.w) for c in ((0, 1) if p.w > 1 else ())]:
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                tn = str(t)[:30].replace('\n', ' ')
                add('%s u>= %s' % (nm, tn), lambda v, k=k, t=t: z3.UGE(v[k], t))
                add('%s u<= %s' % (nm, tn), lambda v, k=k, t=t: z3.ULE(v[k], t))
                add('%s s>= %s' % (nm, tn), lambda v, k=k, t=t: v[k] >= t)
                add('%s s<= %s' % (nm, tn), lambda v, k=k, t=t: v[k] <= t)
                add('%s != %s' % (nm, tn), lambda v, k=k, t=t: v[k] != t)
                if not isc(i) or cv(i):
                    add('%s-init u<= %s' % (nm, tn), lambda v, k=k, t=t, i=i: z3.ULE(v[k] - i, t))
                    add('init-%s u<= %s' % (nm, tn), lambda v, k=k, t=t, i=i: z3.ULE(i - v[k], t))
            for m in (2, 4, 8, 16, 32, 64):
                if m < (1 << p.w):
                    add('%s-init mod %d' % (nm, m), lambda v, k=k, i=i, m=m, w=p.w: ((v[k] - i) & BV(m - 1, w)) == 0) if p.w >= 8 else None
        if not self.s0.generic:
            P = []
        def ext(p):
            return p.w
        Q = [p for p in P if not p.bool]
        for a, b in itertools.combinations(Q, 2):
            w = max(a.w, b.w)
            if a.w != b.w and not (min(a.w, b.w) >= 32):
                continue
            z = lambda x, w=w: z3.ZeroExt(w - x.size(), x) if x.size() < w else x
            ka, kb, ia, ib = a.key, b.key, a.init, b.init
            n = '%s,%s' % (ka[1:], kb[1:])
            da = lambda v, ka=ka, ia=ia, z=z: z(v[ka]) - z(ia)
            db = lambda v, kb=kb, ib=ib, z=z: z(v[kb]) - z(ib)
            for s in (1, 2, 3, 4, 8, 16, 24, 32):
                add('d%s scaled %d' % (n, s), lambda v, s=s, da=da, db=db, w=w: da(v) == db(v) * BV(s, w))
                add('d%s scaled -%d' % (n, s), lambda v, s=s, da=da, db=db, w=w: da(v) == -(db(v) * BV(s, w)))
                if s > 1:
                    add('d%s inv scaled %d' % (n, s), lambda v, s=s, da=da, db=db, w=w: db(v) == da(v) * BV(s, w))
                    add('d%s inv scaled -%d' % (n, s), lambda v, s=s, da=da, db=db, w=w: db(v) == -(da(v) * BV(s, w)))
            add('%s ule' % n, lambda v, ka=ka, kb=kb, z=z: z3.ULE(z(v[ka]), z(v[kb])))
            add('%s uge' % n, lambda v, ka=ka, kb=kb, z=z: z3.UGE(z(v[ka]), z(v[kb])))
            if not (a.ptr or b.ptr) or (a.ptr and b.ptr):
                add('%s sle' % n, lambda v, ka=ka, kb=kb, z=z: z(v[ka]) <= z(v[kb]))
                add('%s sge' % n, lambda v, ka=ka, kb=kb, z=z: z(v[ka]) >= z(v[kb]))
                add('%s ne' % n, lambda v, ka=ka, kb=kb, z=z: z(v[ka]) != z(v[kb]))
            for t in list(T.get(64, {}).values())[:12]:
                if w == 64 and (not isc(t) or cv(t) > 1):
                    add('%s sum ule t' % n, lambda v, ka=ka, kb=kb, z=z, t=t: z3.And(z3.ULE(z(v[ka]), t), z3.ULE(z(v[kb]), t - z(v[ka]))))
        Q3 = [p for p in Q if p.w == 64]
        if len(Q3) <= 8:
            for a, b, c in itertools.permutations(Q3, 3):
                if str(b.key) > str(c.key):
                    continue
                add('merge %s=%s+%s' % (a.key[1:], b.key[1:], c.key[1:]), lambda v, a=a, b=b, c=c: v[a.key] - a.init == (v[b.key] - b.init) + (v[c.key] - c.init))
                add('merge -%s=%s+%s' % (a.key[1:], b.key[1:], c.key[1:]), lambda v, a=a, b=b, c=c: a.init - v[a.key] == (v[b.key] - b.init) + (v[c.key] - c.init))
                for sh in (4, 8):
                    add('merge%d %s=%s+%s' % (sh, a.key[1:], b.key[1:], c.key[1:]), lambda v, a=a, b=b, c=c, sh=sh: v[a.key] - a.init == ((v[b.key] - b.init) + (v[c.key] - c.init)) * BV(sh, 64))
        return [c for c in C if not z3.is_true(c[1]) and not z3.is_false(c[2])]

    def hints(self):
        """hint templates as (name, args selector)"""
        E = self.E
        out = []
        P = self.phis + self.cells + self.consts
        for fname, forall in self.s0.hints:
            f = E.funcs.get(fname)
            if f is None:
                raise Unsupported('hint %s was removed' % fname)
            ps = f['args'][1:] if forall else f['args']
            opts = []
            for a in ps:
                if a['t'] == 'ptr':
                    opts.append([p for p in P if p.ptr])
                else:
                    w = E.width(a['t'])
                    opts.append([p for p in P if not p.ptr and (p.w == w or (p.w >= 16 and w >= 16) or (w == 1 and p.w == 8)) and not p.bool or (p.bool and w == 1)])
            for combo in itertools.product(*opts):
                if len({id(c) for c in combo}) != len(combo) or (combo and all(c in self.consts for c in combo)):
                    continue
                out.append((fname, forall, combo))
                if len(out) > 400:
                    raise Unsupported('too many hint instances')
        return out
    def hintval(self, h, s, view):
        fname, forall, combo = h
        E = self.E
        ps = E.funcs[fname]['args'][1 if forall else 0:]
        args = [Ptr(p.obj, view[p.key]) if p.ptr else view[p.key] if p.bool else (view[p.key] & BV(1, p.w)) == 1 if E.width(a['t']) == 1 else fit(view[p.key], E.width(a['t'])) for p, a in zip(combo, ps)]
        lossless = []
        for p, a in zip(combo, ps):
            if not p.ptr and not p.bool:
                w = E.width(a['t'])
                v = view[p.key]
                if w == 1:
                    lossless.append(z3.ULE(v, 1))
                elif v.size() > w:
                    t = z3.Extract(w - 1, 0, v)
                    lossless.append(z3.Or(z3.ZeroExt(v.size() - w, t) == v, z3.SignExt(v.size() - w, t) == v))
        if not forall:
            return z3.And(lossless + [E.pure_q(s, fname, args)]) if lossless else E.pure_q(s, fname, args)
        q = E.fresh(E.width(E.funcs[fname]['args'][0]['t']), 'q')
        r = E.pure_q(s, fname, [q] + args)
        return (q, z3.And(lossless + [r]) if lossless else r)
    def hintassume(self, h, s, view):
        r = self.hintval(h, s, view)
        if isinstance(r, tuple):
            if z3.is_true(r[1]):
                return TRUE
            return z3.ForAll([r[0]], r[1])
        return r
    def hintgoal(self, h, s, view):
        r = self.hintval(h, s, view)
        return r[1] if isinstance(r, tuple) else r

    def prune(self, pc, items, cset=frozenset()):
        """items: list of (index, formula). returns the set of indices implied by pc"""
        E = self.E
        live = {i: simp(f) for i, f in items}
        live_true = {i for i, f in live.items() if z3.is_true(f)}
        dropped = {i for i, f in live.items() if z3.is_false(f)}
        live = {i: f for i, f in live.items() if i not in live_true and i not in dropped}
        E.sol.sync(pc)
        S = E.sol.s
        t0 = time.time()
        q0 = 0
        while live:
            E.sol.nq += 1
            S.push()
            S.add(z3.Or([z3.Not(f) for f in live.values()]))
            r = S.check()
            if r == z3.sat:
                m = S.model()
                S.pop()
                bad = [i for i, f in live.items() if z3.is_false(m.eval(f, True))]
                if not bad:
                    bad = [i for i, f in live.items() if not z3.is_true(m.eval(f, True))][:1]
                    if not bad:
                        r = z3.unknown
                for i in bad:
                    del live[i]
                    dropped.add(i)
                if r == z3.sat:
                    continue
            else:
                S.pop()
            if r == z3.unsat:
                break
            # z3 gave up on the conjunction: integer translation, then one by one
            ks = list(live)
            gs = z3.And([live[k] for k in ks])
            sl = E.sol.slice(pc, gs)
            if not any(irv.has_quant(x) for x in sl + [gs]) and E.sol.z3short(sl, gs, 3000) == z3.unsat:
                break
            q, vals = E.sol.cvc5int(pc, [live[k] for k in ks], 4000)
            if q == 'unsat':
                break
            if q == 'sat':
                bad = [k for k, v in zip(ks, vals) if v is False]
                if bad:
                    for k in bad:
                        del live[k]
                        dropped.add(k)
                    continue
            S.set('timeout', 400)
            for i, f in list(live.items()):
                q = E.sol.feasible(pc, z3.Not(f))
                if q != z3.unsat:
                    hard = False
                    if q == z3.unknown and i[0] == 'h':
                        if cset:
                            core = [c for c in pc if c.get_id() not in cset]
                            rr = E.sol.prove(core, f, True, False)
                            log('    hard hint core', rr[0])
                            hard = rr[0] == 'proved'
                        if not hard:
                            rr = E.sol.prove(pc, f, True, False)
                            log('    hard hint full', rr[0])
                            hard = rr[0] == 'proved'
                    elif q == z3.unknown and q0 < 12:
                        q0 += 1
                        hard = E.sol.cvc5int(pc, [f], 1500)[0] == 'unsat'
                    if not hard:
                        del live[i]
                        dropped.add(i)
            S.set("timeout", irv.TIMEOUT_QUICK)
            break
        E.sol.time += time.time() - t0
        return set(live) | live_true

    def houdini(self):
        E = self.E
        C = self.candidates()
        H = self.hints()
        items = [(('c', i), c[2]) for i, c in enumerate(C)]
        keep = self.prune(self.s0.pc, items)
        iv = self.initview()
        hk = []
        for i, h in enumerate(H):
            g = self.hintgoal(h, self.s0, iv)
            if E.sol.prove(self.s0.pc, g, True, False)[0] == 'proved':
                hk.append(i)
            else:
                log('    hint', h[0], 'not initial', [c.key for c in h[2]], g if VERB > 2 else '')
        C = [c for i, c in enumerate(C) if ('c', i) in keep]
        H = [H[i] for i in hk]
        log('  houdini start', self.loc, len(C), 'cands', len(H), 'hints')
        nested = any(l != self.hdr and l in self.L['bset'] for l in self.fn['lmap'])
        first = True
        while True:
            if first and not nested and not H:
                backs = self.trialbacks
                pre = [c[1] for c in C]
            else:
                s = self.state(C)
                cv_ = self.curview()
                for h in H:
                    s.pc.append(self.hintassume(h, s, cv_))
                s.writes = []
                E.sol.feasible(s.pc)
                evs = self.run(s)
                backs = [t for ev, t in evs if ev == 'back']
                pre = []
            drop = set()
            ch = True
            alive = {('c', i) for i in range(len(C))}
            halive = {('h', i) for i in range(len(H))}
            info = []
            for t in backs:
                view = self.backview(t)
                vals = {('c', i): simp(c[3](view)) for i, c in enumerate(C)}
                for i, h in enumerate(H):
                    vals[('h', i)] = self.hintgoal(h, t, view)
                info.append((t, vals))
            n0 = len(C) + len(H)
            phase = 'c'
            while ch:
                ch = False
                for t, vals in info:
                    its = [(k, f) for k, f in vals.items() if (k in alive if phase == 'c' else k in halive)]
                    ok = self.prune(([C[i[1]][1] for i in sorted(alive)] if first and pre else []) + t.pc, its, {simp(c[1]).get_id() for c in C})
                    lost = {k for k, _ in its} - ok
                    if lost:
                        alive -= lost
                        halive -= lost
                        if first and pre:
                            ch = True
                if phase == 'c' and not ch and H and len(alive) == len(C):
                    phase = 'h' # the candidates are inductive: now the templates
                    ch = True
            changed = len(alive) != len(C) or len(halive) != len(H)
            for i in range(len(H)):
                if ('h', i) not in halive:
                    log('    hint', H[i][0], 'not preserved')
            C = [c for i, c in enumerate(C) if ('c', i) in alive]
            H = [h for i, h in enumerate(H) if ('h', i) in halive]
            if first and pre:
                first = False
                continue
            first = False
            if not changed:
                break
        self.C, self.H = C, H
        return evs

    def termination(self, backs):
        E = self.E
        P = [p for p in self.phis + self.cells if not p.bool]
        ms = []
        for p in P:
            ms.append(lambda v, p=p: v[p.key])
            ms.append(lambda v, p=p: ~v[p.key])
            w = p.w
        T = {}
        for a, b in self.cmps:
            for x in (a, b):
                if z3.is_bv(x) and not (names(E, x) & {q.cur.decl().name() for q in P}) and not any(self.isnew(v) for v in names(E, x)):
                    T[x.get_id()] = x
        for x in list(T.values())[:16]:
            for p in P:
                if p.w == x.size():
                    ms.append(lambda v, p=p, x=x: x - v[p.key])
                    ms.append(lambda v, p=p, x=x: v[p.key] - x)
        for a, b in itertools.permutations(P, 2):
            if a.w == b.w:
                ms.append(lambda v, a=a, b=b: v[a.key] - v[b.key])
        cur = self.curview()
        views = [(t, self.backview(t)) for t in backs]
        noninc = []
        for m in ms:
            ok = True
            strict = True
            for t, v in views:
                if not E.sol.implied(t.pc, z3.ULT(m(v), m(cur))):
                    strict = False
                    if not E.sol.implied(t.pc, z3.ULE(m(v), m(cur))):
                        ok = False
                        break
            if strict:
                return True
            if ok:
                noninc.append(m)
        for m1, m2 in itertools.permutations(noninc, 2):
            if all(E.sol.implied(t.pc, z3.ULT(m1(v) , m1(cur))) or E.sol.implied(t.pc, z3.Or(z3.ULT(m1(v), m1(cur)), z3.ULT(m2(v), m2(cur)))) for t, v in views):
                return True
        # lexicographic: m1 decreases or (m1 unchanged and m2 decreases)
        for m1 in noninc:
            for m2 in ms:
                if all(E.sol.implied(t.pc, z3.Or(z3.ULT(m1(v), m1(cur)), z3.ULT(m2(v), m2(cur)))) for t, v in views):
                    return True
        # sum of two non-increasing measures
        for m1, m2 in itertools.combinations(noninc, 2):
            if all(E.sol.implied(t.pc, z3.ULT(z3.ZeroExt(8, m1(v)) + z3.ZeroExt(8, m2(v)), z3.ZeroExt(8, m1(cur)) + z3.ZeroExt(8, m2(cur)))) for t, v in views if m1(cur).size() == m2(cur).size()) and m1(cur).size() == m2(cur).size():
                return True
        return False

    def go(self):
        E = self.E
        self.nfresh0 = E.nfresh
        E.quiet += 1
        oldcmp = E.cmplog
        try:
            # the phi constants were created before nfresh0 was taken; cells later: keep them known through curn
            self.discover()
            self.trialbacks = [t for ev, t in self.trial if ev == 'back']
            for ev, t in self.trial:
                for o, i in t.info.items():
                    if o in self.s0.info and self.s0.info[o].alive and not i.alive and ev == 'back':
                        raise Unsupported('loop frees an outer object at ' + self.loc)
            self.mksites()
            for attempt in range(6):
                if any(m == 'site' or m == 'hint' for m in self.modes.values()):
                    s = self.state([])
                    s.writes = []
                    self.trial = self.run(s)
                    self.trialbacks = [t for ev, t in self.trial if ev == 'back']
                evs = self.houdini()
                backs = [t for ev, t in evs if ev == 'back']
                bad = set()
                for t in backs:
                    view = self.backview(t)
                    for o, c in self.frame_checks(t, view):
                        if o in bad:
                            continue
                        if E.sol.prove(t.pc, c, True, False)[0] != 'proved':
                            log('   frame of', E.s0name(self.s0, o), 'fails at', self.loc, simp(c))
                            bad.add(o)
                if not bad:
                    break
                for o in bad:
                    if o not in self.whole:
                        raise Unsupported('unexpected write in loop at ' + self.loc)
                    if self.modes[o] == 'site' and any(x[0] == o for x in self.s0.framehints):
                        self.modes[o] = 'hint'
                    else:
                        self.modes[o] = 'whole'
            else:
                raise Unsupported('loop frame not found at ' + self.loc)
            term = self.termination(backs) if self.s0.reqterm else None
        finally:
            E.quiet -= 1
            E.cmplog = oldcmp
        if oldcmp is not None:
            oldcmp += self.cmps
        log(' loop', self.loc, 'kept', len(self.C), 'hints', len(self.H), 'term', term, 'modes', self.modes)
        if VERB > 1:
            for c in self.C:
                log('    inv', c[0], str(c[1]).replace('\n', ' ')[:150])
        if not E.quiet:
            key = ('invariant', self.loc, len(self.C))
            ob = E.obls.setdefault(('invariant', 'loop invariant holds on entry and is preserved', self.loc), {'kind': 'invariant', 'label': 'loop invariant holds on entry and is preserved', 'loc': self.loc, 'checks': 0, 'status': 'discharged', 'by': {}, 'time': 0})
            ob['checks'] += 2 * (len(self.C) + len(self.H))
            ob['by']['z3'] = ob['by'].get('z3', 0) + 2 * (len(self.C) + len(self.H))
            if self.s0.reqterm:
                ob = E.obls.setdefault(('termination', 'loop terminates', self.loc), {'kind': 'termination', 'label': 'loop terminates', 'loc': self.loc, 'checks': 0, 'status': 'discharged', 'by': {}, 'time': 0})
                ob['checks'] += 1
                if term:
                    ob['by']['z3'] = ob['by'].get('z3', 0) + 1
                else:
                    ob['status'] = 'unknown'
                    ob['why'] = 'no ranking function found'
            E.loops_cut.append({'loc': self.loc, 'invariants': len(self.C), 'hints': sorted({h[0] for h in self.H}), 'frame': sorted(set(self.modes.values()))})
        # final pass, obligations on
        s = self.state(self.C)
        cur = self.curview()
        for h in self.H:
            s.pc.append(self.hintassume(h, s, cur))
        outer = self.s0.writes
        if outer is not None:
            for o in self.whole:
                rs = self.ranges(o, cur)
                if rs is None:
                    outer.append((o, bv(0), self.s0.info[o].size))
                else:
                    for lo, hi in rs:
                        outer.append((o, lo, simp(hi - lo)))
            for p in self.cells:
                outer.append((p.key[1], bv(p.key[2]), p.key[3]))
        s.writes = outer
        if E.sol.feasible(s.pc) == z3.unsat:
            raise Dead()
        evs = self.run(s)
        res = []
        for ev, t in evs:
            if ev == 'back':
                continue
            if ev == 'exit':
                fr = t.frames[-1]
                if self.region is not None and len(t.frames) == self.region[0]:
                    if fr.bb == self.region[1]['header']:
                        res.append(('back', t)); continue
                    if fr.bb not in self.region[1]['bset']:
                        res.append(('exit', t)); continue
                res.append(('cont', t))
            else:
                res.append((ev, t))
        return res

def cut_loop(E, st, fr, L, region):
    log(' cut', fr.fn['name'][:40], 'header', L['header'])
    return Cut(E, st, fr, L, region).go()
