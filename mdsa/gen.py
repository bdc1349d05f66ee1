"""Loop generalisation (widening with verified inductive invariants).

At a loop head the machine compares the state with the one of the previous
arrival on the same path.  When an unbounded segment r was consumed from one
side (r = c r' or r' c) every live value is generalised to a function of a fresh
unbounded segment P standing for "what the loop has consumed so far".  The
generalised state is then *verified*: the loop body is interpreted from it and
every way back to the head must land in an instance of it (P := P c).  States
leaving the loop from the verified state continue; otherwise the invariant is
widened (charset / per-character output) and retried, or the loop is unrolled.

`taint` marks generalisations that may include unreachable states; violations on
such paths are never reported."""
from . import chars
from .chars import Hom
from .dom import (AInt, AStr, CharInt, Term, TOP, Fork, Unsupported, add, sub, scale, mk, parts_of, from_parts, concat_parts)
from .vm import (Ref, Slice, ARange, CharsOf, LObj, DObj, SObj, Inst, Cls, Func, Mod, Cell, Gen, It, Box, Region, UNSET,
                 NM, BM)


class Fail(Exception):
    def __init__(self, why, widen=None):
        self.why = why
        self.widen = widen


class Hist:
    """per frame and loop: number of refining arrivals, store version and snapshot of the last one"""
    __slots__ = ('n', 'ver', 'snap', 'tries')


DEBUG = False


def same(a, b):
    if a is b:
        return True
    if a.__class__ is not b.__class__:
        return False
    c = a.__class__
    if c is AStr or c is CharsOf:
        return a.p == b.p
    if c is AInt:
        return a.c == b.c and a.t == b.t
    if c is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if c is Ref:
        return a.a == b.a
    if c in (int, str, bool, float, bytes):
        return a == b
    if c is ARange or c is Slice:
        return same(a.a, b.a) and same(a.b, b.b) and same(a.c, b.c)
    if c is NM:
        return a.name == b.name and same(a.self, b.self)
    if c is BM:
        return same(a.fn, b.fn) and same(a.self, b.self)
    if c is Term:
        return a.f == b.f and same(a.args, b.args)
    if c is CharInt:
        return a.part == b.part and a.tab == b.tab
    return False


class Walker:
    """pairs up the live values of two states A (earlier) and B (later)"""

    def __init__(self, A, B, live):
        self.A, self.B, self.live = A, B, live
        self.seen = {}
        self.out = []      # (setter, value) to apply on the generalised copy

    def run(self):
        A, B = self.A, self.B
        if len(A.frames) != len(B.frames):
            raise Fail('frame depth')
        n = len(A.frames)
        for j in range(n):
            fa, fb = A.frames[j], B.frames[j]
            if fa.code is not fb.code or fa.pc != fb.pc or len(fa.stack) != len(fb.stack) or fa.act != fb.act:
                raise Fail('frames differ')
            top = j == n - 1
            for i, (x, y) in enumerate(zip(fa.loc, fb.loc)):
                if top and i not in self.live:
                    continue
                if not same(x, y) or y.__class__ is Ref:
                    v = self.pair(x, y)
                    if v is not y:
                        self.out.append((('loc', j, i), v))
            for i, (x, y) in enumerate(zip(fa.stack, fb.stack)):
                if not same(x, y) or y.__class__ is Ref:
                    v = self.pair(x, y)
                    if v is not y:
                        self.out.append((('stack', j, i), v))
        # heap objects that changed in place and are reachable
        for a in self.changed_reachable():
            self.pair(Ref(a), Ref(a))
        if A.events != B.events:
            raise Fail('effects in the loop')
        if A.exc != B.exc:
            raise Fail('exception state')
        if A.fs is not B.fs:
            if set(A.fs) != set(B.fs):
                raise Fail('files created in the loop')
            for k in B.fs:
                x, y = A.fs[k], B.fs[k]
                if not same(x, y):
                    self.out.append((('fs', k), self.pair(x, y)))
        if len(A.inputs) != len(B.inputs):
            raise Fail('inputs recorded in the loop')
        if A.mods_ is not B.mods_ and set(A.mods_) != set(B.mods_):
            raise Fail('import in the loop')
        if A.checks != B.checks:
            raise Fail('check in the loop')

    def changed_reachable(self):
        A, B = self.A, self.B
        ch = set()
        for a, o in B.heap.items():
            oa = A.heap.get(a)
            if oa is None:
                oa = A.base.get(a)
            if oa is not None and oa is not o:
                ch.add(a)
        if not ch:
            return ()
        reach = reachable(B, self.live)
        return sorted(ch & reach)

    def pair(self, x, y):
        c = y.__class__
        if c is Ref and x.__class__ is Ref:
            k = (x.a, y.a)
            if k in self.seen:
                return y
            self.seen[k] = True
            ox, oy = self.A.get(x), self.B.get(y)
            if ox is oy:
                return y
            self.objs(y, ox, oy)
            return y
        if same(x, y):
            return y
        return self.value(x, y)

    def upd(self, ref, path, x, y):
        if y.__class__ is Ref or not same(x, y):
            v = self.pair(x, y)
            if v is not y:
                self.out.append((('obj', ref.a) + path, v))

    def objs(self, ref, ox, oy):
        c = oy.__class__
        if ox.__class__ is not c:
            raise Fail('object kinds differ')
        if c is LObj:
            self.lists(ref, ox.items, oy.items)
        elif c is DObj:
            if list(ox.d) != list(oy.d):
                raise Fail('dictionary keys change')
            for k in oy.d:
                self.upd(ref, ('d', k), ox.d[k][1], oy.d[k][1])
        elif c is SObj:
            if list(ox.d) != list(oy.d):
                raise Fail('set changes')
        elif c is Inst:
            if ox.cls != oy.cls or list(ox.f) != list(oy.f):
                raise Fail('attributes change')
            for k in oy.f:
                self.upd(ref, ('f', k), ox.f[k], oy.f[k])
        elif c in (Mod, Cls, Func, Box):
            if list(ox.f) != list(oy.f):
                raise Fail('names change')
            for k in oy.f:
                if c is Box and k in ('marks',):
                    continue
                self.upd(ref, ('f', k), ox.f[k], oy.f[k])
        elif c is Cell:
            self.upd(ref, ('v',), ox.v, oy.v)
        elif c is It:
            if ox.kind != oy.kind:
                raise Fail('iterators differ')
            for k in ('src', 'pos', 'x'):
                self.upd(ref, (k,), getattr(ox, k), getattr(oy, k))
        else:
            raise Fail('cannot compare ' + c.__name__)

    def lists(self, ref, ia, ib):
        raise NotImplementedError

    def value(self, x, y):
        raise NotImplementedError


def reachable(st, live):
    seen = set()
    work = []

    def push(v):
        c = v.__class__
        if c is Ref:
            if v.a not in seen:
                seen.add(v.a)
                work.append(v.a)
        elif c is tuple:
            for x in v:
                push(x)
        elif c is NM:
            push(v.self)
        elif c is BM:
            push(v.fn)
            push(v.self)
    n = len(st.frames)
    for j, f in enumerate(st.frames):
        for i, v in enumerate(f.loc):
            if j < n - 1 or i in live:
                push(v)
        for v in f.stack:
            push(v)
        push(f.g)
        if f.names is not None:
            push(f.names)
    for v in st.mods_.values():
        push(v)
    heap = st.heap
    base = st.base
    while work:
        a = work.pop()
        o = heap.get(a)
        if o is None:
            # unchanged base objects only reach base objects, but modified ones are in heap: they keep their address
            o = base.get(a)
            if o is None:
                continue
        c = o.__class__
        if c is LObj:
            for v in o.items:
                if v.__class__ is not CharsOf:
                    push(v)
        elif c is DObj:
            for k, v in o.d.values():
                push(v)
        elif c in (Inst, Mod, Cls, Box):
            if c is Inst:
                push(o.cls)
            for v in o.f.values():
                push(v)
        elif c is Func:
            push(o.g)
            for v in o.defaults:
                push(v)
            for v in o.closure:
                push(v)
        elif c is Cell:
            push(o.v)
        elif c is It:
            push(o.src)
            push(o.x)
        elif c is Gen and o.frame is not None:
            for v in o.frame.loc:
                push(v)
            for v in o.frame.stack:
                push(v)
    return seen


class Plan:
    """how segments of A were consumed in B: r -> (side, consumed sids, rest sid)"""

    def __init__(self):
        self.cons = {}


def consumed(A, B):
    """segments of A split in B; returns {r: (side, [consumed sids], rest)} for unbounded r, or raises Fail"""
    out = {}
    for r, (cs, lo, hi) in A.segs.items():
        if r in A.subst or r not in B.subst:
            continue
        ps = B.pieces(r)
        if hi is not None:
            continue
        if len(ps) < 2:
            continue
        def like(s):
            return B.segs[s][2] is None and B.segs[s][0] == cs
        if like(ps[-1]):
            out[r] = ('L', ps[:-1], ps[-1])
        elif like(ps[0]):
            out[r] = ('R', ps[1:], ps[0])
    return out


class Build(Walker):
    """anti-unification of A and B along the consumed segment"""

    def __init__(self, A, B, live, r, side, cons, rest, N):
        Walker.__init__(self, A, B, live)
        self.r, self.side, self.cons_, self.rest = r, side, tuple(cons), rest
        self.N = N          # iteration counter / length of P as AInt
        self.P = None
        self.taint = None
        n = 0
        for s in self.cons_:
            n = add(n, B.plen((s, None, False)))
        self.clen = B.norm(n)
        self.homs = {}

    def fold(self, parts, P):
        """replace the consumed sequence by P in resolved parts; returns (new parts, parts with it removed and rest->r)"""
        out, back = [], []
        k = 0
        cs = self.cons_
        m = len(cs)
        while k < len(parts):
            x = parts[k]
            if x.__class__ is tuple:
                sid, h, rev = x
                seq = cs[::-1] if rev else cs
                # single chars drop the rev flag
                if m and sid == seq[0] or m and sid == cs[::-1][0] and m > 1:
                    use = None
                    for s in (cs, cs[::-1]):
                        win = parts[k:k + m]
                        if len(win) == m and all(w.__class__ is tuple and w[0] == t for w, t in zip(win, s)):
                            use = s
                            break
                    if use is None:
                        return None
                    hs = {w[1] for w in win}
                    hh = h
                    if len(hs) > 1:
                        nz = [q for q in hs if q is not None]
                        if len(nz) != 1:
                            return None
                        hh = nz[0]
                        for w in win:
                            if w[1] is None and self.B.segs[w[0]][0] & hh.dom:
                                return None
                    rv = (use is not cs) if m > 1 else None
                    out.append(('P', hh, rv))
                    k += m
                    continue
                if sid == self.rest:
                    out.append(x)
                    back.append((self.r, h, rev))
                    k += 1
                    continue
                if sid in cs:
                    return None
            out.append(x)
            back.append(x)
            k += 1
        return out, tuple(back)

    def orient(self, out):
        """decide the direction of P parts from the neighbouring rest parts"""
        res = []
        for i, x in enumerate(out):
            if x.__class__ is tuple and x[0] == 'P':
                rv = x[2]
                if rv is None:
                    rv = False
                    for j in (i - 1, i + 1):
                        if 0 <= j < len(out) and out[j].__class__ is tuple and out[j][0] == self.rest:
                            # L: original order P rest ; so rest to the left means reversed
                            left = j < i
                            rv = left if self.side == 'L' else not left
                    else:
                        pass
                res.append((self.P, x[1], rv))
            else:
                res.append(x)
        return tuple(res)

    def value(self, x, y):
        A, B = self.A, self.B
        cx, cy = x.__class__, y.__class__
        if cx in (str, AStr) and cy in (str, AStr):
            py = B.res(y)
            f = self.fold(py, None)
            if f is not None:
                out, back = f
                if norm_parts(A.resp(back)) == norm_parts(A.res(x)):
                    return from_parts(self.orient(out))
            # one more char after the same: a fresh char (last char consumed)
            raise Fail('text changes in a way that is not a function of the consumed text')
        if cx in (int, AInt) and cy in (int, AInt):
            return self.int_(x, y)
        if cx is tuple and cy is tuple and len(x) == len(y):
            return tuple(self.pair(a, b) for a, b in zip(x, y))
        if cx is ARange and cy is ARange:
            return ARange(self.pair(x.a, y.a), self.pair(x.b, y.b), self.pair(x.c, y.c))
        raise Fail('value changes: %r -> %r' % (x, y))

    def int_(self, x, y):
        B = self.B
        d = B.norm(sub(y, x))
        if d.__class__ is int and d == 0:
            return y
        if self.r is None:
            if d.__class__ is int:
                return add(x, scale(self.N, d))
            raise Fail('integer step varies')
        L = self.clen
        if L.__class__ is int and d.__class__ is int:
            if d % L == 0:
                return add(x, scale(self.N, d // L))
        for k in (1, -1, 2):
            if B.norm(sub(d, scale(L, k))) == 0:
                return add(x, scale(self.N, k))
        # steps of another size than the consumed text: forget the exact value
        lo = B.bounds(d)[0]
        if lo is not None and lo >= 0:
            v = ('fresh', x)
            self.taint = 'an integer not determined by the consumed text'
            return v
        raise Fail('integer step varies')

    def lists(self, ref, ia, ib):
        if len(ia) == len(ib):
            for i, (x, y) in enumerate(zip(ia, ib)):
                if y.__class__ is Ref or not same(x, y):
                    if y.__class__ is CharsOf and x.__class__ is CharsOf:
                        v = self.value(AStr(x.p), AStr(y.p))
                        self.out.append((('obj', ref.a, 'items', i), CharsOf(v.p)))
                        continue
                    v = self.pair(x, y)
                    if v is not y:
                        self.out.append((('obj', ref.a, 'items', i), v))
            return
        if len(ib) > len(ia):
            for i in range(len(ia)):
                if ib[i].__class__ is Ref or not same(ia[i], ib[i]):
                    v = self.pair(ia[i], ib[i])
                    if v is not ib[i]:
                        self.out.append((('obj', ref.a, 'items', i), v))
            tail = ib[len(ia):]
            # the new items must be the consumed chars
            ps = []
            for t in tail:
                if t.__class__ is not AStr and t.__class__ is not str:
                    raise Fail('list grows with other values')
                n = self.B.length(t)
                if n != 1:
                    raise Fail('list grows with text that is not a single char')
                ps.extend(self.B.res(t))
            f = self.fold(concat_parts(ps), None)
            if f is None or f[1] != ():
                raise Fail('list grows with other text')
            parts = self.orient(f[0])
            self.out.append((('obj', ref.a, 'trunc', len(ia)), [CharsOf(parts)]))
            return
        raise Fail('list shrinks')


def norm_parts(p):
    return concat_parts(p)


def apply_out(G, out, fresh):
    for path, v in out:
        if v.__class__ is tuple and len(v) == 2 and v[0] == 'fresh':
            v = fresh(v[1])
        k = path[0]
        if k == 'loc':
            G.frames[path[1]].loc[path[2]] = v
        elif k == 'stack':
            G.frames[path[1]].stack[path[2]] = v
        elif k == 'fs':
            G.fs = dict(G.fs)
            G.fs[path[1]] = v
        else:
            o = G.w(Ref(path[1]))
            if path[2] == 'items':
                o.items[path[3]] = v
            elif path[2] == 'trunc':
                o.items[path[3]:] = v
            elif path[2] == 'd':
                kk = o.d[path[3]][0]
                o.d[path[3]] = (kk, v)
            elif path[2] == 'f':
                o.f[path[3]] = v
            else:
                setattr(o, path[2], v)


class Matcher(Walker):
    """is the arrival state B an instance of the invariant G (P := P c, r := r')?"""

    def __init__(self, G, B, live, info):
        Walker.__init__(self, G, B, live)
        self.info = info
        P, r, side = info['P'], info['r'], info['side']
        self.P, self.r, self.side = P, r, side
        self.newhom = []
        if r is not None:
            if P in B.subst:
                raise Fail('consumed text examined again')
            ps = B.pieces(r)
            cs = G.segs[r][0]
            if len(ps) < 2:
                # nothing consumed in this iteration
                if ps != (r,):
                    raise Fail('rest vanished')
                self.cons_, self.rest = (), r
            elif side == 'L' and B.segs[ps[-1]][2] is None:
                self.cons_, self.rest = ps[:-1], ps[-1]
            elif side == 'R' and B.segs[ps[0]][2] is None:
                self.cons_, self.rest = ps[1:], ps[0]
            else:
                raise Fail('consumption pattern')
            m = 0
            for s in self.cons_:
                m |= B.segs[s][0]
            self.ccs = m
            self.need = m & ~G.segs[P][0]
        else:
            self.cons_, self.rest, self.need, self.ccs = (), None, 0, 0
        n = 0
        for s in self.cons_:
            n = add(n, B.plen((s, None, False)))
        self.clen = B.norm(n) if n.__class__ is AInt else n
        if r is not None and not self.cons_:
            raise Fail('no progress')

    def subst_parts(self, parts):
        out = []
        cs = self.cons_
        for x in parts:
            if x.__class__ is tuple:
                sid, h, rev = x
                if sid == self.P:
                    c = [(s, h, rev) for s in (cs[::-1] if rev else cs)]
                    if (self.side == 'L') != rev:
                        out.append(x)
                        out.extend(c)
                    else:
                        out.extend(c)
                        out.append(x)
                    continue
                if sid == self.r:
                    out.append((self.rest, h, rev))
                    continue
            out.append(x)
        return tuple(out)

    def subst_int(self, v):
        if v.__class__ is not AInt:
            return v
        v = self.A.norm(v)
        if v.__class__ is not AInt:
            return v
        t = {}
        c = v.c
        res = AInt(c, {})
        acc = c
        for var, k in v.t.items():
            if var == self.P and self.P is not None:
                acc = add(acc, AInt(0, {var: k}))
                acc = add(acc, scale(self.clen, k))
            elif var == self.r and self.r is not None:
                acc = add(acc, AInt(0, {self.rest: k}))
            elif var.__class__ is tuple and var[0] == 'i' and var[1] == self.info.get('N'):
                acc = add(acc, AInt(k, {var: k}))
            elif var.__class__ is tuple and var[0] == 'h' and var[1] in (self.P, self.r):
                if var[1] == self.r:
                    acc = add(acc, AInt(0, {('h', self.rest, var[2]): k}))
                else:
                    acc = add(acc, AInt(0, {var: k}))
                    for s in self.cons_:
                        acc = add(acc, AInt(0, {('h', s, var[2]): k}))
            elif var.__class__ is tuple and var[0] == 'o' and var[1][0] in (self.P, self.r):
                raise Fail('code point of consumed text')
            else:
                acc = add(acc, AInt(0, {var: k}))
        return acc

    def value(self, x, y):
        A, B = self.A, self.B
        cx, cy = x.__class__, y.__class__
        if cx in (str, AStr) and cy in (str, AStr):
            want = norm_parts(B.resp(self.subst_parts(A.res(x))))
            got = norm_parts(B.res(y))
            if want != got:
                self.text_mismatch(want, got, x)
            return y
        if cx in (int, AInt) and cy in (int, AInt):
            d = B.norm(sub(self.subst_int(x), y))
            if d.__class__ is int and d == 0:
                return y
            # a forgotten integer?
            xn = A.norm(x)
            if xn.__class__ is AInt and xn.c == 0 and len(xn.t) == 1:
                (var, k), = xn.t.items()
                if var in self.info['fresh'] and k == 1:
                    lo, hi = A.ivars[var[1]]
                    if B.ge0(sub(y, lo)) is True:
                        return y
            raise Fail('integer not preserved: %r -> %r' % (x, y))
        if cx is tuple and cy is tuple and len(x) == len(y):
            for a, b in zip(x, y):
                self.pair(a, b)
            return y
        if cx is ARange and cy is ARange:
            self.pair(x.a, y.a)
            self.pair(x.b, y.b)
            return y
        if cx is CharsOf and cy is CharsOf:
            self.value(AStr(x.p), AStr(y.p))
            return y
        raise Fail('value not preserved: %r -> %r' % (x, y))

    def text_mismatch(self, want, got, x):
        raise Fail('text not preserved')

    def pair(self, x, y):
        c = y.__class__
        if c is Ref and x.__class__ is Ref:
            return Walker.pair(self, x, y)
        if c in (AStr, AInt, tuple, ARange, CharsOf):
            return self.value(x, y)
        if same(x, y):
            return y
        return self.value(x, y)

    def lists(self, ref, ia, ib):
        if len(ia) == len(ib):
            for x, y in zip(ia, ib):
                self.pair(x, y)
            return
        # compare as text when made of chars
        try:
            pa = items_text(self.A, ia)
            pb = items_text(self.B, ib)
        except Fail:
            raise Fail('list changes')
        want = norm_parts(self.B.resp(self.subst_parts(self.A.resp(pa))))
        got = norm_parts(self.B.resp(pb))
        if want != got:
            raise Fail('list text not preserved')

    def run(self):
        # values untouched by the iteration still have to be compared when they mention P or r
        A, B = self.A, self.B
        if len(A.frames) != len(B.frames):
            raise Fail('frame depth')
        n = len(A.frames)
        for j in range(n):
            fa, fb = A.frames[j], B.frames[j]
            if fa.code is not fb.code or fa.pc != fb.pc or len(fa.stack) != len(fb.stack) or fa.act != fb.act:
                raise Fail('frames differ')
            top = j == n - 1
            for i, (x, y) in enumerate(zip(fa.loc, fb.loc)):
                if top and i not in self.live:
                    continue
                self.top(x, y)
            for x, y in zip(fa.stack, fb.stack):
                self.top(x, y)
        for a in self.changed_reachable():
            self.pair(Ref(a), Ref(a))
        if A.events != B.events:
            raise Fail('effects in the loop')
        if A.exc != B.exc:
            raise Fail('exception state')
        if A.fs is not B.fs:
            if set(A.fs) != set(B.fs):
                raise Fail('files created in the loop')
            for k in B.fs:
                if not same(A.fs[k], B.fs[k]):
                    self.pair(A.fs[k], B.fs[k])
        if len(A.inputs) != len(B.inputs) or A.checks != B.checks:
            raise Fail('inputs recorded in the loop')

    def top(self, x, y):
        # an untouched value is the same function of the whole input in both states: nothing to compare
        if same(x, y) and y.__class__ is not Ref:
            if self.moves(x):
                self.pair(x, y)
            return
        self.pair(x, y)

    def moves(self, x):
        """value mentions P or r other than through the segment they were split from"""
        return False


def items_text(st, items):
    ps = []
    for t in items:
        if t.__class__ is CharsOf:
            ps.extend(t.p)
        elif t.__class__ is str and len(t) == 1:
            ps.append(t)
        elif t.__class__ is AStr:
            r = st.res(t)
            if len(r) != 1 or r[0].__class__ is str and len(r[0]) != 1 or r[0].__class__ is tuple and not st.segs[r[0][0]][1] == st.segs[r[0][0]][2] == 1:
                raise Fail('not chars')
            ps.extend(r)
        else:
            raise Fail('not chars')
    return tuple(ps)


class Generaliser:
    def __init__(self, unroll=12, debug=False):
        self.unroll = unroll
        self.debug = debug
        self.stats = {'attempts': 0, 'proved': 0, 'failed': 0}
        self.proved = {}      # location -> times
        self.failed = {}

    def at_head(self, vm, st, fr, head, region):
        # an arrival at the head being verified?
        if region is not None and fr.act == region.act and head == region.head and len(st.frames) == region.depth:
            st.outcome = ('back',)
            return [st]
        loops = fr.loops
        h = loops.get(head) if loops else None
        if h is None:
            h = Hist()
            h.n, h.ver, h.snap, h.tries = 0, st.ver, None, 0
            fr.loops = dict(loops) if loops else {}
            fr.loops[head] = h
            h.snap = st.copy()
            return None
        if h.ver == st.ver:
            # nothing was refined in this iteration: the loop is running on known values
            return None
        A = h.snap
        nh = Hist()
        nh.n, nh.ver, nh.tries = h.n + 1, st.ver, h.tries
        nh.snap = None
        res = None
        if nh.n >= 1:
            res = self.attempt(vm, st, fr, head, region, A, nh)
        if res is not None:
            return res
        fr.loops = dict(fr.loops)
        fr.loops[head] = nh
        nh.snap = st.copy()
        if nh.n > self.unroll and self.unbounded(A, st):
            raise Unsupported('loop over unbounded text could not be generalised')
        if nh.n > 4000:
            raise Unsupported('loop unrolled too often')
        return None

    def unbounded(self, A, B):
        for r, (cs, lo, hi) in A.segs.items():
            if hi is None and r not in A.subst and r in B.subst:
                return True
        for n, (lo, hi) in A.ivars.items():
            if hi is None and n not in A.isub and B.ivars[n] != (lo, hi):
                return True
        for r, (cs, lo, hi) in A.segs.items():
            if hi is None and r not in A.subst and B.segs[r] != (cs, lo, hi):
                return True
        return False

    def attempt(self, vm, st, fr, head, region, A, nh):
        live = fr.code.live[head]
        cons = consumed(A, st)
        cands = list(cons.items())
        if not cands:
            if not self.unbounded(A, st):
                return None
            cands = [(None, None)]
        elif len(cands) > 2:
            return None
        loc = vm.where(st)
        for r, c in cands:
            self.stats['attempts'] += 1
            try:
                res = self.try_one(vm, st, fr, head, region, A, r, c, live)
            except Fail as e:
                self.failed[loc] = e.why
                if self.debug:
                    print('GEN fail', loc, e.why)
                continue
            if res is not None:
                self.stats['proved'] += 1
                self.proved[loc] = self.proved.get(loc, 0) + 1
                return res
        self.stats['failed'] += 1
        return None

    def try_one(self, vm, st, fr, head, region, A, r, c, live):
        extra = 0
        for _ in range(5):
            G, info = self.build(st, A, r, c, live, extra)
            ok, val = self.verify(vm, G, fr, head, region, info, live)
            if ok:
                return val
            if val:
                extra |= val
                continue
            return None
        return None

    def build(self, st, A, r, c, live, extra):
        B = st
        G = st.copy()
        info = {'fresh': set(), 'N': None, 'P': None, 'r': None, 'side': None}
        taint = None
        if r is not None:
            side, cs_sids, rest = c
            m = extra
            for s in cs_sids:
                m |= B.segs[s][0]
            P = G.new(m, 0, None)
            Nlin = AInt(0, {P: 1})
            bd = Build(A, B, live, r, side, cs_sids, rest, Nlin)
            bd.P = P
            info.update(P=P, r=rest, side=side)
            L = bd.clen
            if L.__class__ is int and L != 1:
                # several chars per iteration: any such text is a superset
                taint = 'several chars consumed per iteration'
            if L.__class__ is AInt:
                pass
        else:
            N = G.newint(0, None)
            info['N'] = list(N.t)[0][1]
            bd = Build(A, B, live, None, None, (), None, N)
            Nlin = N
        bd.run()
        if r is not None:
            # re-route the segment: r = P rest
            if r in G.alias:
                raise Fail('aliased segment')
            G.subst[r] = (P, rest) if side == 'L' else (rest, P)
            # direct uses of the consumed chars elsewhere?
            G.segs[rest] = (A.segs[r][0], 0, None)
        G.ver += 1

        def fresh(x):
            lo = A.bounds(A.norm(x))[0]
            v = G.newint(lo, None)
            info['fresh'].add(list(v.t)[0])
            return v
        apply_out(G, bd.out, fresh)
        # bounds tightened by the iteration on things that persist
        step = self.step_of(bd)
        newc = []
        for s, (cs, lo, hi) in A.segs.items():
            if s in A.subst or s == r:
                continue
            if s in B.subst:
                continue
            cs2, lo2, hi2 = B.segs[s]
            if (lo2, hi2) != (lo, hi):
                if hi2 != hi:
                    raise Fail('upper bound tightened by the loop')
                G.segs[s] = (cs2, lo, hi)
                if step is not None:
                    newc.append(sub(AInt(-lo, {s: 1}), scale(Nlin, lo2 - lo) if step == 1 else None) if step == 1 else None)
                else:
                    taint = taint or 'length bound dropped'
            if cs2 != cs:
                # a class restriction decided inside the loop stays (it holds from now on)
                pass
        for n, (lo, hi) in A.ivars.items():
            if n in A.isub or n in B.isub:
                continue
            lo2, hi2 = B.ivars[n]
            if (lo2, hi2) != (lo, hi):
                if hi2 != hi:
                    raise Fail('upper bound tightened by the loop')
                G.ivars[n] = (lo, hi)
                if step is not None and lo is not None:
                    newc.append(sub(AInt(-lo, {('i', n): 1}), scale(Nlin, lo2 - lo)))
                else:
                    taint = taint or 'integer bound dropped'
        # linear constraints
        ac = [A.norm(x) for x in A.cons]
        keep = []
        for x in B.cons:
            if any(x is y or (x.__class__ is AInt and y.__class__ is AInt and x.c == y.c and x.t == y.t) for y in A.cons):
                keep.append(x)
                continue
            xb = B.norm(x)
            if xb.__class__ is not AInt:
                continue
            hit = None
            for y in A.cons:
                d = B.norm(sub(x, y))
                if d.__class__ is int and step is not None:
                    hit = add(y, scale(Nlin, d))
                    break
            if hit is not None:
                newc.append(hit)
            else:
                taint = taint or 'constraint dropped'
        G.cons = tuple(keep)
        for x in newc:
            if x is not None:
                G.cons = G.cons + (x,)
        # facts gained in the iteration
        if len(B.facts) != len(A.facts):
            if r is not None or True:
                G.facts = A.facts
                taint = taint or 'facts dropped'
        if not G.consistent():
            raise Fail('inconsistent')
        if bd.taint:
            taint = taint or bd.taint
        info['taint'] = taint
        info['cs0'] = 0
        if r is not None:
            for s in c[1]:
                info['cs0'] |= B.segs[s][0]
            self.check_no_stray(G, c[1], live)
        return G, info

    def step_of(self, bd):
        if bd.r is None:
            return 1
        return 1 if bd.clen == 1 else None

    def check_no_stray(self, G, sids, live):
        """no live value may still mention the folded chars"""
        bad = set(sids)

        def chk(v):
            c = v.__class__
            if c is AStr or c is CharsOf:
                for x in G.resp(v.p):
                    if x.__class__ is tuple and x[0] in bad:
                        raise Fail('consumed char still used')
            elif c is AInt:
                n = G.norm(v)
                if n.__class__ is AInt:
                    for var in n.t:
                        if var in bad or var.__class__ is tuple and (var[1] in bad or var[1].__class__ is tuple and var[1][0] in bad):
                            raise Fail('consumed char still used')
            elif c is tuple:
                for x in v:
                    chk(x)
            elif c is CharInt:
                if v.part[0] in bad:
                    raise Fail('consumed char still used')
            elif c is Term:
                chk(v.args)
            elif c is ARange:
                chk(v.a)
                chk(v.b)
        n = len(G.frames)
        for j, f in enumerate(G.frames):
            for i, v in enumerate(f.loc):
                if j < n - 1 or i in live:
                    chk(v)
            for v in f.stack:
                chk(v)
        for a in reachable(G, live):
            o = G.heap.get(a)
            if o is None:
                continue
            c = o.__class__
            if c is LObj:
                for v in o.items:
                    chk(v)
            elif c is DObj:
                for k, v in o.d.values():
                    chk(v)
                    chk(k)
            elif c in (Inst, Mod, Box):
                for v in o.f.values():
                    chk(v)
            elif c is Cell:
                chk(o.v)
            elif c is It:
                chk(o.src)
                chk(o.pos)
        for k, v in G.inputs:
            chk(v)
        for v in G.fs.values():
            chk(v)
        for a, b, v in G.facts:
            chk(AStr(a))
            chk(AStr(b))

    def verify(self, vm, G, fr, head, region, info, live):
        reg = Region()
        reg.depth = len(G.frames)
        reg.act = fr.act
        reg.body = fr.code.heads[head]
        reg.head = head
        reg.G = G
        reg.parent = region
        reg.ok = True
        reg.level = 1 + (region.level if region is not None else 0)
        if reg.level > 4:
            raise Fail('nesting')
        start = G.copy()
        start.frames[-1].loops = {h: x for h, x in (start.frames[-1].loops or {}).items() if h != head and h not in reg.body}
        if info['taint']:
            start.taint('loop generalisation: ' + info['taint'])
        paths0 = vm.npaths
        res = vm.explore([start], reg)
        if res is None:
            raise Fail('region abandoned')
        exits = []
        covered = 0
        exact = info['taint'] is None
        why = info['taint']
        need = 0
        for s in res:
            if s.outcome == ('back',):
                s.outcome = None
                m = Matcher(G, s, live, info)
                if m.need:
                    need |= m.need
                    continue
                m.run()
                self.implied(G, s, m, info)
                covered |= m.ccs
                r = self.restricted(G, s, m, info)
                if r and exact:
                    exact, why = False, r
            else:
                exits.append(s)
        if need:
            return False, need
        if info['P'] is not None:
            cs = G.segs[info['P']][0]
            if cs & ~covered and exact:
                exact, why = False, 'not every consumed text is reachable'
        out = []
        for s in exits:
            if s.outcome == ('region-exit',):
                s.outcome = None
            # a widened state proves, it never refutes
            s.taint('widened loop' if exact else 'widened loop: ' + str(why))
            f = s.frames[reg.depth - 1] if len(s.frames) >= reg.depth else None
            if f is not None and f.act == reg.act and f.loops:
                f.loops = {h: x for h, x in f.loops.items() if h != head}
            out.append(s)
        return True, out

    def implied(self, G, B, m, info):
        """constraints of the invariant hold in the arrival"""
        for x in G.cons:
            y = m.subst_int(x)
            if B.ge0(y) is not True:
                raise Fail('length constraint not preserved')
        if m.r is not None:
            if B.segs[m.rest][0] & ~G.segs[m.r][0]:
                raise Fail('rest charset')
        for a, b, v in G.facts:
            for p in (a, b):
                for q in G.resp(p):
                    if q.__class__ is tuple and q[0] in (m.P, m.r):
                        raise Fail('fact about consumed text')

    def restricted(self, G, B, m, info):
        """did the iteration restrict anything but the consumed text?"""
        for s, v in G.segs.items():
            if s in G.subst or s == m.r:
                continue
            if s in B.subst or B.segs[s] != v:
                if s == m.P and s not in B.subst:
                    return 'consumed text restricted'
                return 'another text is restricted by the loop'
        if m.r is not None and m.rest != m.r and B.segs[m.rest] != G.segs[m.r]:
            if B.segs[m.rest][0] != G.segs[m.r][0] or B.segs[m.rest][2] is not None:
                return 'rest restricted'
        for n, v in G.ivars.items():
            if n in G.isub:
                continue
            if n in B.isub or B.ivars[n] != v:
                lo, hi = B.ivars[n]
                if info['N'] == n or True:
                    # the loop guard on counters is expected to tighten lower bounds
                    if n in B.isub or hi != v[1]:
                        return 'an integer is restricted by the loop'
        if len(B.facts) != len(G.facts):
            return 'facts gained in the loop'
        return None
