"""A concrete member of the abstract state of a violating path, if the state has one.

The domain may fail to notice that a path is infeasible (it does not solve
arbitrary linear systems), so a violation is only reported when lengths, values
and characters satisfying everything recorded in the state can be exhibited."""
import itertools
import random
import time

from . import chars
from .chars import hom_apply_str
from .dom import AInt, AStr, Term, CharInt


class NoWitness(Exception):
    pass


class Infeasible(NoWitness):
    """the recorded length constraints have no integer solution: the path does not exist"""


def exhaust(cons, rng, val):
    """every integer point of the (small) box of the constrained lengths"""
    vs = sorted({v for c in cons for v in c.t}, key=repr)
    n = 1
    for v in vs:
        lo, hi = rng[v]
        if lo is None or hi is None:
            return None
        n *= hi - lo + 1
        if n > 200000:
            return None
    for pt in itertools.product(*[range(rng[v][0], rng[v][1] + 1) for v in vs]):
        d = dict(zip(vs, pt))
        if all(c.c + sum(k * d[v] for v, k in c.t.items()) >= 0 for c in cons):
            val.update(d)
            return True
    return False


def derived(st, val, rng):
    for s, e in st.alias.items():
        if s not in st.subst:
            n = st.norm(e)
            try:
                x = n if n.__class__ is int else n.c + sum(k * val[v] for v, k in n.t.items())
            except KeyError:
                raise NoWitness('derived length')
            lo, hi = rng[s]
            if x < 0 or x < lo or (hi is not None and x > hi):
                raise NoWitness('derived length')
            val[s] = x
    return val


def lengths(st):
    val = {}
    rng = {}
    for s, (cs, lo, hi) in st.segs.items():
        if s in st.subst:
            continue
        if not cs:
            if lo:
                raise Infeasible('empty class')
            hi = 0
        rng[s] = (lo, hi)
        val[s] = lo
    for n, (lo, hi) in st.ivars.items():
        if n in st.isub:
            continue
        rng[('i', n)] = (lo, hi)
        val[('i', n)] = lo if lo is not None and lo > 0 else (min(hi, 0) if hi is not None else 0) if lo is None or lo <= 0 <= (hi if hi is not None else 0) else lo
    cons = []
    for c in st.cons:
        c = st.norm(c)
        if c.__class__ is AInt:
            if any(v not in val for v in c.t):
                continue
            cons.append(c)
        elif c < 0:
            raise Infeasible('length constraint')
    for _ in range(3000):
        bad = None
        for c in cons:
            x = c.c + sum(k * val[v] for v, k in c.t.items())
            if x < 0:
                bad = (c, x)
                break
        if bad is None:
            return derived(st, val, rng)
        c, x = bad
        for v, k in sorted(c.t.items(), key=lambda q: (q[1] < 0, repr(q[0]))):
            lo, hi = rng[v]
            if k > 0:
                need = -(x // k)
                room = None if hi is None else hi - val[v]
                d = need if room is None else min(need, room)
                if d > 0:
                    val[v] += d
                    break
            else:
                need = -(x // -k)
                room = None if lo is None else val[v] - lo
                d = need if room is None else min(need, room)
                if d > 0:
                    val[v] -= d
                    break
        else:
            break
    r = exhaust(cons, rng, val)
    if r is False:
        raise Infeasible('length constraint')
    if r:
        return derived(st, val, rng)
    raise NoWitness('length constraint')


PREF = 'abcdexyzABC123 -_.,'


def pick(cs, k=0):
    A = chars.AT
    opts = [c for c in PREF if (1 << A.atom(c)) & cs]
    m = cs
    while m and len(opts) < 24:
        b = m & -m
        c = A.rep[b.bit_length() - 1]
        if c not in opts:
            opts.append(c)
        m ^= b
    return opts[k % len(opts)]


class Witness:
    def __init__(self, st):
        self.st = st
        self.val = lengths(st)
        self.text = {}
        self.cons = [c for c in (st.norm(c) for c in st.cons) if c.__class__ is AInt]
        self.facts = [(st.resp(a), st.resp(b), v) for a, b, v in st.facts]
        for tryno in range(12):
            self.text = {}
            n = 0
            for s, (cs, lo, hi) in st.segs.items():
                if s in st.subst:
                    continue
                L = self.val[s]
                self.text[s] = ''.join(pick(cs, (tryno * (7 * n + 3 * j + 1)) if tryno else 0) for j in range(L))
                n += 1
            if self.facts_ok():
                return
        if not self.search():
            raise NoWitness('equality facts')

    def candidates(self, s):
        """characters for segment s: one per behaviour under the maps that occur in the constraints, and some more"""
        A = chars.AT
        cs = self.st.segs[s][0]
        homs = {}
        for a, b, v in self.facts:
            for x in a + b:
                if x.__class__ is tuple and x[0] == s and x[1] is not None:
                    homs[x[1].key] = x[1]
        for c in self.cons:
            for v in c.t:
                if v.__class__ is tuple and v[0] == 'h' and v[1] == s:
                    homs[v[2].key] = v[2]
        homs = [homs[k] for k in sorted(homs)]
        out = {}
        for a in A.atoms_in(cs):
            sig = tuple(h.table.get(a) for h in homs)
            g = out.setdefault(sig, [])
            if len(g) < 3:
                g.append(A.rep[a])
        r = [c for g in out.values() for c in g]
        r += [c for c in PREF if (1 << A.atom(c)) & cs and c not in r]
        return r[:60]

    def search(self):
        """local search for characters that satisfy every recorded constraint"""
        rnd = random.Random(1)
        segs = [s for s in self.text if self.text[s]]
        if not segs:
            return False
        cand = {}
        best = self.score()
        t0 = time.time()
        for step in range(300):
            if time.time() - t0 > 4:
                return False
            if not best:
                return self.facts_ok()
            bad = self.broken()
            pool = [s for s in bad if self.text.get(s)] or segs
            s = rnd.choice(pool)
            if s not in cand:
                cand[s] = self.candidates(s)
            t = self.text[s]
            j = rnd.randrange(len(t))
            cs = self.st.segs[s][0]
            opts = list(cand[s])
            for q in pool:
                for c in self.text[q][:8]:
                    if (1 << chars.AT.atom(c)) & cs and c not in opts:
                        opts.append(c)
            rnd.shuffle(opts)
            top = None
            for c in opts:
                self.text[s] = t[:j] + c + t[j + 1:]
                n = self.score()
                if top is None or n < top[0]:
                    top = (n, self.text[s])
            self.text[s] = top[1]
            best = top[0]
        return not best and self.facts_ok()

    def broken(self):
        out = []
        for c in self.cons:
            if any(v not in self.val for v in c.t):
                for v in c.t:
                    if v.__class__ is tuple and v[0] == 'h':
                        out.append(v[1])
                    elif v.__class__ is tuple and v[0] == 'o':
                        out.extend(x[0] for x in self.st.resp((v[1],)) if x.__class__ is tuple)
        for a, b, v in self.facts:
            x, y = self.parts(a), self.parts(b)
            if x is not None and y is not None and (x == y) != v:
                out.extend(q[0] for q in a + b if q.__class__ is tuple)
        return out

    def score(self):
        n = 0 if self.cons_ok() else 1
        for a, b, v in self.facts:
            x, y = self.parts(a), self.parts(b)
            if x is not None and y is not None and (x == y) != v:
                n += 1
                if v:
                    n += abs(len(x) - len(y)) + sum(p != q for p, q in zip(x, y))
        return n

    def cons_ok(self):
        """the constraints on image lengths and code points, which only the chosen text can settle"""
        for c in self.cons:
            x = c.c
            for v, k in c.t.items():
                if v in self.val:
                    x += k * self.val[v]
                elif v.__class__ is tuple and v[0] == 'h' and v[1] in self.text:
                    for ch in self.text[v[1]]:
                        o = v[2].table.get(chars.AT.atom(ch))
                        x += k * (len(o) if o.__class__ is str else 1)
                elif v.__class__ is tuple and v[0] == 'o':
                    t = self.parts(self.st.resp((v[1],)))
                    if t is None or len(t) != 1:
                        raise NoWitness('code point')
                    x += k * ord(t)
                else:
                    raise NoWitness('constraint on a derived value')
            if x < 0:
                return False
        return True

    def facts_ok(self):
        if not self.cons_ok():
            return False
        for a, b, v in self.facts:
            x, y = self.parts(a), self.parts(b)
            if x is None or y is None:
                continue
            if (x == y) != v:
                return False
        return True

    def parts(self, ps):
        out = []
        for x in ps:
            if x.__class__ is str:
                out.append(x)
                continue
            sid, h, rev = x
            t = self.text.get(sid)
            if t is None:
                return None
            if rev:
                t = t[::-1]
            o = hom_apply_str(h, t)
            if o is None:
                return None
            out.append(o)
        return ''.join(out)

    def value(self, v):
        c = v.__class__
        st = self.st
        if c is AStr:
            t = self.parts(st.res(v))
            return t if t is not None else '?'
        if c is AInt:
            n = st.norm(v)
            if n.__class__ is int:
                return n
            try:
                return n.c + sum(k * self.val[q] for q, k in n.t.items())
            except KeyError:
                return '?int'
        if c is tuple:
            return tuple(self.value(x) for x in v)
        if c in (str, int, bool, float, bytes) or v is None:
            return v
        return None
