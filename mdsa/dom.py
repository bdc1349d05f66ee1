"""Abstract values and abstract states.

Strings are *segmented*: sequences of constant chunks and segment references;
a segment stands for any string over a charset with an interval length.
Integers are linear forms over segment lengths.  All refinements (splitting a
segment, restricting its charset, bounding a length) are recorded in the state,
so every value mentioning the segment is refined at once.

Operations are written in direct style: when an abstract test is undetermined
they raise Fork(alternatives); the machine re-runs the instruction in each
refined copy of the state.
"""
from . import chars
from .chars import Hom, hom_compose, hom_apply_str

INF = None


class Fork(Exception):
    def __init__(self, alts, why=''):
        self.alts = alts
        self.why = why


class Unsupported(Exception):
    """The construct is outside what the abstract domains can represent."""


class PyExc(Exception):
    """an abstract Python exception raised by a native operation"""

    def __init__(self, name, *args):
        self.name = name
        self.xargs = args


class _Top:
    __slots__ = ()

    def __repr__(self):
        return 'TOP'


TOP = _Top()


# ------------------------------------------------------------------ ints
class AInt:
    """c + sum coef*var ; var is sid (segment length) | ('i',n) | ('o',part) | ('h',sid,hom)"""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c = c
        self.t = t

    def __repr__(self):
        return 'AInt(%s%s)' % (self.c, ''.join(' %+d*%s' % (k, v) for v, k in self.t.items()))


def mk(c, t):
    t = {v: k for v, k in t.items() if k}
    return AInt(c, t) if t else c


def add(a, b):
    if a.__class__ is not AInt and b.__class__ is not AInt:
        return a + b
    if a.__class__ is not AInt:
        return AInt(a + b.c, b.t)
    if b.__class__ is not AInt:
        return AInt(a.c + b, a.t)
    t = dict(a.t)
    for v, k in b.t.items():
        t[v] = t.get(v, 0) + k
    return mk(a.c + b.c, t)


def scale(a, k):
    if a.__class__ is not AInt:
        return a * k
    return mk(a.c * k, {v: q * k for v, q in a.t.items()})


def sub(a, b):
    return add(a, scale(b, -1))


class CharInt:
    """an int that is a function of one abstract char; tab: atom -> int | (lo,hi)"""
    __slots__ = ('part', 'tab', 'isord')

    def __init__(self, part, tab, isord=False):
        self.part = part
        self.tab = tab
        self.isord = isord

    def __repr__(self):
        return 'CharInt(%r)' % (self.part,)


class AStr:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'AStr%r' % (self.p,)


class Term:
    """opaque injective function application, e.g. a digest"""
    __slots__ = ('f', 'args')

    def __init__(self, f, args):
        self.f = f
        self.args = args

    def __repr__(self):
        return 'Term(%s,%r)' % (self.f, self.args)


def is_str(v):
    c = v.__class__
    return c is str or c is AStr


def parts_of(v):
    if v.__class__ is str:
        return (v,) if v else ()
    return v.p


def from_parts(p):
    """normalise parts (already resolved) into a value"""
    if not p:
        return ''
    if len(p) == 1 and p[0].__class__ is str:
        return p[0]
    return AStr(tuple(p))


def concat_parts(*seqs):
    out = []
    for s in seqs:
        for x in s:
            if x.__class__ is str:
                if not x:
                    continue
                if out and out[-1].__class__ is str:
                    out[-1] = out[-1] + x
                    continue
            out.append(x)
    return tuple(out)


class Dom:
    """The refinement store of a state (segments, linear constraints, facts)."""
    __slots__ = ('segs', 'subst', 'ivars', 'isub', 'alias', 'cons', 'mods', 'facts', 'nid', 'splits', 'names', 'ver')

    def __init__(self):
        self.segs = {}
        self.subst = {}
        self.ivars = {}
        self.isub = {}
        self.alias = {}
        self.cons = ()
        self.mods = ()
        self.facts = ()
        self.nid = 1
        self.splits = 0
        self.names = {}
        self.ver = 0

    def copy(self):
        d = Dom.__new__(Dom)
        d.segs = self.segs.copy()
        d.subst = self.subst.copy()
        d.ivars = self.ivars.copy()
        d.isub = self.isub.copy()
        d.alias = self.alias.copy()
        d.cons = self.cons
        d.mods = self.mods
        d.facts = self.facts
        d.nid = self.nid
        d.splits = self.splits
        d.names = self.names
        d.ver = self.ver
        return d

    # ---------------------------------------------------------- creation
    def new(self, cs, lo, hi, name=None):
        s = self.nid
        self.nid += 1
        self.segs[s] = (cs, lo, hi)
        if name:
            self.names = dict(self.names)
            self.names[s] = name
        return s

    def star(self, cs, lo=0, hi=None, name=None):
        return AStr(((self.new(cs, lo, hi, name), None, False),))

    def char(self, cs, name=None):
        return AStr(((self.new(cs, 1, 1, name), None, False),))

    def newint(self, lo, hi):
        n = self.nid
        self.nid += 1
        self.ivars[n] = (lo, hi)
        return AInt(0, {('i', n): 1})

    # ---------------------------------------------------------- resolve
    def pieces(self, sid):
        s = self.subst.get(sid)
        if s is None:
            return (sid,)
        out = []
        for x in s:
            if x in self.subst:
                out.extend(self.pieces(x))
            else:
                out.append(x)
        return tuple(out)

    def res(self, v):
        """resolved parts of a string value"""
        if v.__class__ is str:
            return (v,) if v else ()
        return self.resp(v.p)

    def resp(self, parts):
        out = []
        subst = self.subst
        segs = self.segs
        for x in parts:
            if x.__class__ is str:
                if out and out[-1].__class__ is str:
                    out[-1] = out[-1] + x
                elif x:
                    out.append(x)
                continue
            sid, h, rev = x
            if sid in subst:
                ps = self.pieces(sid)
                if rev:
                    ps = ps[::-1]
            else:
                ps = (sid,)
            for s in ps:
                cs, lo, hi = segs[s]
                hh = h
                if hh is not None:
                    d = hh.dom
                    if d & ~cs:
                        hh = hh.on(cs)
                        d = hh.dom
                    if not (cs & d):
                        hh = None
                    elif not (cs & ~hh.deleted):
                        continue
                    elif lo == 1 == hi:
                        # char with constant image?
                        c = chars.AT.single(cs)
                        if c is not None or not (cs & ~d):
                            o = hom_apply_str(hh, c) if c is not None else hh.const(cs)
                            if o is not None:
                                if o == '':
                                    continue
                                if out and out[-1].__class__ is str:
                                    out[-1] += o
                                else:
                                    out.append(o)
                                continue
                if hi == 0:
                    continue
                out.append((s, hh, rev if not (lo == 1 == hi and (hh is None or not (cs & hh.multi))) else False))
        return tuple(out)

    def rv(self, v):
        return from_parts(self.resp(v.p)) if v.__class__ is AStr else v

    def info(self, sid):
        cs, lo, hi = self.segs[sid]
        if sid in self.alias:
            l, h = self.bounds(self.alias[sid])
            lo = max(lo, l if l is not None else 0)
            if h is not None:
                hi = h if hi is None else min(h, hi)
        return cs, lo, hi

    def cval(self, v):
        """concrete str if every segment is a known char, else None"""
        if v.__class__ is str:
            return v
        out = []
        for x in self.resp(v.p):
            if x.__class__ is str:
                out.append(x)
                continue
            s, h, rev = x
            cs, lo, hi = self.segs[s]
            if lo != hi or lo > 64:
                return None
            c = chars.AT.single(cs)
            if c is None:
                return None
            o = hom_apply_str(h, c)
            if o is None:
                return None
            out.append(o * lo)
        return ''.join(out)

    # ---------------------------------------------------------- lengths
    def plen(self, part):
        if part.__class__ is str:
            return len(part)
        sid, h, rev = part
        cs, lo, hi = self.segs[sid]
        if h is not None and cs & (h.deleted | h.multi | h.unk):
            if cs & h.unk:
                raise Unsupported('length of case-mapped text')
            return AInt(0, {('h', sid, h.lens(cs)): 1})
        if lo == hi:
            return lo
        return self.norm(AInt(0, {sid: 1}))

    def length(self, v):
        if v.__class__ is str:
            return len(v)
        n = 0
        for x in self.resp(v.p):
            n = add(n, self.plen(x))
        return self.norm(n)

    def norm(self, a):
        if a.__class__ is not AInt:
            return a
        subst, segs, alias, isub = self.subst, self.segs, self.alias, self.isub
        for v in a.t:
            if v.__class__ is int:
                if v in subst or v in alias or segs[v][1] == segs[v][2]:
                    break
            elif v[0] == 'i':
                if v[1] in isub or self.ivars[v[1]][0] == self.ivars[v[1]][1]:
                    break
            else:
                break
        else:
            return a
        c = a.c
        t = {}

        def addv(v, k):
            nonlocal c
            if v.__class__ is int:
                if v in subst:
                    for s in self.pieces(v):
                        addv(s, k)
                    return
                if v in alias:
                    addl(alias[v], k)
                    return
                cs, lo, hi = segs[v]
                if lo == hi:
                    c += lo * k
                    return
            elif v[0] == 'i':
                n = v[1]
                if n in isub:
                    addl(isub[n], k)
                    return
                lo, hi = self.ivars[n]
                if lo == hi:
                    c += lo * k
                    return
            elif v[0] == 'h':
                _, sid, h = v
                ps = self.pieces(sid) if sid in subst else (sid,)
                for s in ps:
                    cs, lo, hi = segs[s]
                    if not (cs & ~h.deleted):
                        continue
                    if not (cs & (h.deleted | h.multi | h.unk)):
                        addv(s, k)
                        continue
                    if lo == hi:
                        # every atom same output length?
                        ls = {(len(h.table[a]) if h.table.get(a).__class__ is str else 1) for a in chars.AT.atoms_in(cs)}
                        if len(ls) == 1:
                            c += ls.pop() * lo * k
                            continue
                    vv = ('h', s, h.lens(cs))
                    t[vv] = t.get(vv, 0) + k
                return
            elif v[0] == 'o':
                part = v[1]
                rp = self.resp((part,))
                if len(rp) == 1:
                    p = rp[0]
                    if p.__class__ is str:
                        c += ord(p) * k
                        return
                    ch = chars.AT.single(segs[p[0]][0])
                    if ch is not None:
                        o = hom_apply_str(p[1], ch)
                        if o is not None and len(o) == 1:
                            c += ord(o) * k
                            return
                    v = ('o', p)
            t[v] = t.get(v, 0) + k

        def addl(l, k):
            nonlocal c
            if l.__class__ is not AInt:
                c += l * k
                return
            c += l.c * k
            for v, q in l.t.items():
                addv(v, q * k)
        for v, k in a.t.items():
            addv(v, k)
        return mk(c, t)

    def vbounds(self, v):
        if v.__class__ is int:
            cs, lo, hi = self.segs[v]
            return lo, hi
        if v[0] == 'i':
            return self.ivars[v[1]]
        if v[0] == 'h':
            _, sid, h = v
            cs, lo, hi = self.segs[sid]
            lens = set()
            for a in chars.AT.atoms_in(cs & h.dom):
                o = h.table[a]
                lens.add(len(o) if o.__class__ is str else 1)
            if cs & ~h.dom:
                lens.add(1)
            return lo * min(lens), (None if hi is None else hi * max(lens))
        if v[0] == 'o':
            tab = self.ordtab(v[1])
            l = min(x if x.__class__ is int else x[0] for x in tab.values())
            h = max(x if x.__class__ is int else x[1] for x in tab.values())
            return l, h
        return None, None

    def bounds(self, a):
        """interval of a normalised linear form"""
        if a.__class__ is not AInt:
            return a, a
        lo = hi = a.c
        for v, k in a.t.items():
            l, h = self.vbounds(v)
            if k < 0:
                l, h = h, l
            if lo is not None:
                lo = None if l is None else lo + k * l
            if hi is not None:
                hi = None if h is None else hi + k * h
        return lo, hi

    def ge0(self, a):
        """is a >= 0 : True/False/None"""
        a = self.norm(a)
        lo, hi = self.bounds(a)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if a.__class__ is not AInt:
            return a >= 0
        na = sub(-1, a)
        cons = self._ncons()
        for c in cons:
            l, _ = self.bounds(self.norm(sub(a, c)))
            if l is not None and l >= 0:
                return True
            l, _ = self.bounds(self.norm(sub(na, c)))
            if l is not None and l >= 0:
                return False
        n = len(cons)
        if 1 < n <= 12:
            for i in range(n):
                for j in range(i + 1, n):
                    s = add(cons[i], cons[j])
                    l, _ = self.bounds(self.norm(sub(a, s)))
                    if l is not None and l >= 0:
                        return True
                    l, _ = self.bounds(self.norm(sub(na, s)))
                    if l is not None and l >= 0:
                        return False
        return None

    def _ncons(self):
        if not self.cons:
            return ()
        out = []
        for c in self.cons:
            c = self.norm(c)
            if c.__class__ is not AInt:
                if c < 0:
                    out.append(c)     # contradiction: kept so that the path is recognised as infeasible
                continue
            l, h = self.bounds(c)
            if l is not None and l >= 0:
                continue
            out.append(c)
        self.cons = tuple(out)
        return out

    def split_lens(self, a):
        """the length of the image of one char depends on the char: decide the char first"""
        if a.__class__ is not AInt:
            return
        for v in a.t:
            if v.__class__ is tuple and v[0] == 'h':
                _, sid, h = v
                cs, lo, hi = self.segs[sid]
                if lo == hi == 1:
                    by = {}
                    for at in chars.AT.atoms_in(cs):
                        o = h.table.get(at)
                        n = len(o) if o.__class__ is str else 1
                        by[n] = by.get(n, 0) | 1 << at
                    if len(by) > 1:
                        raise Fork([(lambda m: lambda st: st.restrict(sid, m))(m) for m in by.values()], 'length of a mapped char')

    def decide_ge0(self, a, why=''):
        a = self.norm(a)
        r = self.ge0(a)
        if r is not None:
            return r
        self.split_lens(a)
        raise Fork([lambda st: st.assume_ge0(a), lambda st: st.assume_ge0(sub(-1, a))], why or 'length test')

    def assume_ge0(self, a):
        """restrict to a >= 0; False if infeasible"""
        a = self.norm(a)
        if a.__class__ is not AInt:
            return a >= 0
        r = self.ge0(a)
        if r is False:
            return False
        if r is True:
            return True
        if len(a.t) == 1:
            (v, k), = a.t.items()
            if v.__class__ is int or v[0] == 'i':
                # k*v + c >= 0
                if k > 0:
                    b = -(a.c // k)  # v >= ceil(-c/k)
                    return self._tighten(v, lo=b)
                b = a.c // (-k)     # v <= floor(c/-k)
                return self._tighten(v, hi=b)
            if v[0] == 'h':
                # output length of a filtered segment: handle ==0 / >0
                _, sid, h = v
                cs, lo, hi = self.segs[sid]
                if k < 0 and a.c // (-k) == 0 and not (cs & h.unk):
                    return self.restrict(sid, cs & h.deleted) if (cs & h.deleted) else self.set_len(sid, 0, 0)
        if any(self.norm(sub(a, c)).__class__ is int and self.norm(sub(a, c)) >= 0 for c in self.cons):
            return True
        self.cons = self.cons + (a,)
        self.ver += 1
        # propagate to single variables
        return self._propagate()

    def _propagate(self):
        for _ in range(4):
            changed = False
            for c in self._ncons():
                lo, hi = self.bounds(c)
                if hi is not None and hi < 0:
                    return False
                for v, k in c.t.items():
                    if v.__class__ is not int and v[0] != 'i':
                        continue
                    rest = AInt(c.c, {x: q for x, q in c.t.items() if x != v})
                    _, rh = self.bounds(rest)
                    if rh is None:
                        continue
                    l, h = self.vbounds(v)
                    if k > 0:
                        b = -(rh // k)
                        if b > (l if l is not None else -10**18):
                            if self._tighten(v, lo=b) is False:
                                return False
                            changed = True
                            break
                    else:
                        b = rh // (-k)
                        if h is None or b < h:
                            if self._tighten(v, hi=b) is False:
                                return False
                            changed = True
                            break
                if changed:
                    break
            if not changed:
                break
        return True

    def _tighten(self, v, lo=None, hi=None):
        self.ver += 1
        if v.__class__ is int:
            cs, l, h = self.segs[v]
            if lo is not None and lo > l:
                l = lo
            if hi is not None and (h is None or hi < h):
                h = hi
            return self.set_len(v, l, h)
        n = v[1]
        l, h = self.ivars[n]
        if lo is not None and (l is None or lo > l):
            l = lo
        if hi is not None and (h is None or hi < h):
            h = hi
        if l is not None and h is not None and l > h:
            return False
        self.ivars[n] = (l, h)
        return True

    def set_len(self, sid, lo, hi):
        cs = self.segs[sid][0]
        if hi is not None and lo > hi:
            return False
        if not cs:
            hi = 0
            if lo > 0:
                return False
        self.ver += 1
        self.segs[sid] = (cs, lo, hi)
        if hi == 0:
            self.subst[sid] = ()
            return True
        if lo == hi and 1 < lo <= 40:
            self.subst[sid] = tuple(self.new(cs, 1, 1) for _ in range(lo))
        return True

    def restrict(self, sid, cs):
        """restrict the charset of a segment"""
        if sid in self.subst:
            for s in self.pieces(sid):
                if self.restrict(s, cs) is False:
                    return False
            return True
        c0, lo, hi = self.segs[sid]
        n = c0 & cs
        self.ver += 1
        if not n:
            if lo > 0:
                return False
            self.segs[sid] = (n, 0, 0)
            self.subst[sid] = ()
            if sid in self.alias:
                return self.assume_ge0(scale(self.alias[sid], -1))
            return True
        self.segs[sid] = (n, lo, hi)
        return True

    # ---------------------------------------------------------- equality of ints
    def eq0(self, a):
        a = self.norm(a)
        if a.__class__ is not AInt:
            return a == 0
        lo, hi = self.bounds(a)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        from math import gcd
        g = 0
        for k in a.t.values():
            g = gcd(g, abs(k))
        if g and a.c % g:
            return False
        for (l, m, r) in self.mods:
            d = self.norm(sub(a, l))
            if d.__class__ is int and (d + r) % m != 0 or (d.__class__ is AInt and False):
                return False
        if self.ge0(sub(a, 1)) is True or self.ge0(sub(-1, a)) is True:
            return False
        if self.ge0(a) is True and self.ge0(scale(a, -1)) is True:
            return True
        return None

    def decide_eq0(self, a, why=''):
        a = self.norm(a)
        r = self.eq0(a)
        if r is not None:
            return r
        self.split_lens(a)
        alts = [lambda st: st.assume_eq0(a)]
        if self.ge0(sub(a, 1)) is not False:
            alts.append(lambda st: st.assume_ge0(sub(a, 1)))
        if self.ge0(sub(-1, a)) is not False:
            alts.append(lambda st: st.assume_ge0(sub(-1, a)))
        raise Fork(alts, why or 'integer equality')

    def assume_eq0(self, a):
        a = self.norm(a)
        if a.__class__ is not AInt:
            return a == 0
        if len(a.t) > 1:
            for v, k in a.t.items():
                if v.__class__ is tuple and v[0] == 'i' and abs(k) == 1:
                    rest = AInt(a.c, {x: q for x, q in a.t.items() if x != v})
                    lo, hi = self.ivars[v[1]]
                    val = self.norm(scale(rest, -k))
                    self.isub[v[1]] = val
                    self.ver += 1
                    if lo is not None and self.assume_ge0(sub(val, lo)) is False:
                        return False
                    if hi is not None and self.assume_ge0(sub(hi, val)) is False:
                        return False
                    return True
        if self.assume_ge0(a) is False:
            return False
        return self.assume_ge0(scale(a, -1)) is not False

    # ---------------------------------------------------------- ord
    def ordtab(self, part):
        rp = self.resp((part,))
        p = rp[0]
        if p.__class__ is str:
            return {chars.AT.atom(p): ord(p)}
        sid, h, _ = p
        cs = self.segs[sid][0]
        A = chars.AT
        tab = {}
        for a in A.atoms_in(cs):
            o = h.table.get(a) if h is not None else None
            if o is None:
                lo, hi = A.lohi[a]
                tab[a] = lo if lo == hi else (lo, hi)
            elif o.__class__ is str and len(o) == 1:
                tab[a] = ord(o)
            elif o.__class__ is not str:
                im = [A.lohi[x] for x in A.atoms_in(h.image(1 << a))]
                tab[a] = (min(x[0] for x in im), max(x[1] for x in im)) if im else (0, 0x10ffff)
            else:
                tab[a] = (0, 0x10ffff)
        return tab

    # ---------------------------------------------------------- splitting
    def _split(self, sid, pieces):
        self.subst[sid] = tuple(pieces)
        self.splits += 1
        self.ver += 1

    def split_head(self, sid):
        """segment known non-empty -> (char sid, rest sid); in place, no case split"""
        cs, lo, hi = self.segs[sid]
        if lo == hi == 1:
            return sid
        c = self.new(cs, 1, 1)
        r = self.new(cs, max(lo - 1, 0), None if hi is None else hi - 1)
        if sid in self.alias:
            self.alias[r] = sub(self.alias.pop(sid), 1)
        self._split(sid, (c, r))
        if hi is not None and hi - 1 == max(lo - 1, 0):
            self.set_len(r, hi - 1, hi - 1)
        return c

    def split_tail(self, sid):
        cs, lo, hi = self.segs[sid]
        if lo == hi == 1:
            return sid
        r = self.new(cs, max(lo - 1, 0), None if hi is None else hi - 1)
        c = self.new(cs, 1, 1)
        if sid in self.alias:
            self.alias[r] = sub(self.alias.pop(sid), 1)
        self._split(sid, (r, c))
        if hi is not None and hi - 1 == max(lo - 1, 0):
            self.set_len(r, hi - 1, hi - 1)
        return c

    def need_nonempty(self, sid):
        """decide emptiness of a segment: returns True if non-empty, False if empty (or forks)"""
        cs, lo, hi = self.info(sid)
        if lo >= 1:
            return True
        if hi == 0:
            return False
        r = self.decide_ge0(sub(self.norm(AInt(0, {sid: 1})), 1), 'segment empty?')
        if not r and sid not in self.alias:
            self.set_len(sid, 0, 0)
        return r

    def split_run(self, sid, S, from_end=False):
        """Maximal run of chars in S at the start (end) of the segment.
        Returns 'all' (whole segment in S) or 'stop' (segment now starts with run, char not in S, rest);
        after 'stop' the segment's pieces are (run, char, rest) (mirrored when from_end)."""
        cs, lo, hi = self.info(sid)
        if not (cs & ~S):
            return 'all'
        if lo == hi == 1:
            if not (cs & S):
                return 'stop'
            raise Fork([lambda st: st.restrict(sid, S), lambda st: st.restrict(sid, ~S)], 'char class')
        if not (cs & S):
            if not self.need_nonempty(sid):
                return 'all'
            if from_end:
                self.split_tail(sid)
            else:
                self.split_head(sid)
            return 'stop'

        def some(st):
            if sid in st.subst:
                return False
            st.split3(sid, cs & S, cs & ~S, cs) if not from_end else st.split3(sid, cs, cs & ~S, cs & S)
            return True
        raise Fork([lambda st: st.restrict(sid, S), some], 'char class run')

    def split3(self, sid, cs1, csc, cs2):
        cs, lo, hi = self.segs[sid]
        h1 = None if hi is None else hi - 1
        a = self.new(cs1, 0, h1)
        c = self.new(csc, 1, 1)
        b = self.new(cs2, 0, h1)
        al = self.alias.pop(sid, None)
        self._split(sid, (a, c, b))
        if al is not None:
            d = sub(al, AInt(1, {a: 1, b: 1}))
            self.assume_eq0(d)
        else:
            if lo > 1:
                self.assume_ge0(AInt(1 - lo, {a: 1, b: 1}))
            if hi is not None:
                self.assume_ge0(AInt(hi - 1, {a: -1, b: -1}))
        return a, c, b

    def split_at(self, sid, n):
        """split segment at offset n (0<=n<=len known) -> pieces left,right lists of sids"""
        cs, lo, hi = self.info(sid)
        n = self.norm(n)
        if n.__class__ is int:
            if n == 0:
                return (), (sid,)
            if lo == hi == n:
                return (sid,), ()
            if n <= 40:
                left = []
                cur = sid
                for _ in range(n):
                    c = self.split_head(cur)
                    left.append(c)
                    ps = self.pieces(cur)
                    rest = ps[1:]
                    if c == cur:
                        rest = ()
                        break
                    if len(left) == n:
                        return tuple(left), rest
                    if not rest:
                        break
                    cur = rest[0]
                    if len(rest) > 1:
                        # already char-split
                        need = n - len(left)
                        return tuple(left) + rest[:need], rest[need:]
                return tuple(left), rest
        d = self.norm(sub(self.norm(AInt(0, {sid: 1})), n))
        if d.__class__ is int:
            if d == 0:
                return (sid,), ()
            if 0 < d <= 40:
                right = []
                cur = sid
                while len(right) < d:
                    c = self.split_tail(cur)
                    right.append(c)
                    if c == cur:
                        return (), tuple(reversed(right))
                    ps = self.pieces(cur)
                    rest = ps[:-1]
                    if len(right) == d:
                        return rest, tuple(reversed(right))
                    if len(rest) != 1:
                        need = d - len(right)
                        return rest[:len(rest) - need], rest[len(rest) - need:] + tuple(reversed(right))
                    cur = rest[0]
        # general position
        if sid in self.alias:
            L = self.new(cs, 0, None)
            R = self.new(cs, 0, None)
            al = self.alias.pop(sid)
            self._split(sid, (L, R))
            self.alias[L] = n
            self.alias[R] = self.norm(sub(al, n))
            return (L,), (R,)
        L = self.new(cs, 0, hi)
        R = self.new(cs, 0, hi)
        olo, ohi = lo, hi
        self._split(sid, (L, R))
        n = self.norm(n)
        if self.assume_eq0(sub(AInt(0, {L: 1}), n)) is False:
            raise Unsupported('inconsistent split')
        if olo > 0:
            self.assume_ge0(AInt(-olo, {L: 1, R: 1}))
        if ohi is not None:
            self.assume_ge0(AInt(ohi, {L: -1, R: -1}))
        return self.pieces(L), self.pieces(R)

    # ---------------------------------------------------------- hom-aware helpers
    def hom_flat(self, part):
        """part whose hom output length may vary -> decide/split so that plen==len; returns True if plain"""
        sid, h, rev = part
        if h is None:
            return True
        cs = self.segs[sid][0]
        return not (cs & (h.deleted | h.multi | h.unk))

    def materialize_first(self, part, last=False):
        """ensure first (last) unit of a resolved segment part is a single known-present char or vanishes.
        Forks/splits as needed. After it returns, caller must re-resolve."""
        sid, h, rev = part
        cs, lo, hi = self.info(sid)
        end = last != rev
        if h is not None and cs & h.unk:
            if lo == hi == 1:
                raise Unsupported('case mapping of special char')
            raise Unsupported('case mapping of star with special char')
        if h is not None and cs & h.deleted:
            r = self.split_run(sid, h.deleted, from_end=end)
            return
        if lo == hi == 1:
            # multi output char: fork per output
            if h is not None and cs & h.multi:
                A = chars.AT
                alts = []
                outs = {}
                for a in A.atoms_in(cs & h.multi):
                    outs.setdefault(h.table[a], 0)
                    outs[h.table[a]] |= 1 << a
                if cs & ~h.multi:
                    alts.append(lambda st: st.restrict(sid, ~h.multi))
                if len(outs) == 1 and not alts:
                    (o, m), = outs.items()
                    if not (cs & (cs - 1)):
                        raise Unsupported('multi-char image')
                    # several atoms, same output: pick per-atom
                    alts = [(lambda b: (lambda st: st.restrict(sid, b)))(1 << a) for a in A.atoms_in(cs)]
                    raise Fork(alts, 'replacement')
                for o, m in outs.items():
                    alts.append((lambda m: (lambda st: st.restrict(sid, m)))(m))
                raise Fork(alts, 'replacement')
            return
        if not self.need_nonempty(sid):
            return
        if end:
            self.split_tail(sid)
        else:
            self.split_head(sid)

    # ---------------------------------------------------------- facts
    def fact(self, pa, pb):
        """known (in)equality of two resolved part sequences"""
        if not self.facts:
            return None
        parent = {}

        def find(x):
            while parent.get(x, x) != x:
                x = parent[x]
            return x
        neqs = []
        for a, b, v in self.simp_facts():
            a, b = self.resp(a), self.resp(b)
            if v:
                ra, rb = find(a), find(b)
                parent.setdefault(a, a)
                parent.setdefault(b, b)
                if ra != rb:
                    parent[ra] = rb
            else:
                neqs.append((a, b))
        ra, rb = find(pa), find(pb)
        if ra == rb and ra in parent or pa == pb:
            return True
        for a, b in neqs:
            x, y = find(a), find(b)
            if (x, y) == (ra, rb) or (y, x) == (ra, rb):
                return False
        return None

    def add_fact(self, pa, pb, v):
        self.facts = self.facts + ((pa, pb, v),)
        self.ver += 1
        return self.consistent()

    def _one(self, x):
        """x is exactly one char (constant chunks: their end char)"""
        if x.__class__ is str:
            return True
        sid, h, rev = x
        cs, lo, hi = self.segs[sid]
        return lo == hi == 1 and (h is None or not (cs & (h.multi | h.deleted | h.unk)))

    def simp_facts(self):
        """peel determined characters off recorded (in)equalities"""
        if not any(len(a) > 1 or len(b) > 1 for a, b, v in self.facts):
            return self.facts
        out = []
        parent = {}

        def find(x):
            while parent.get(x, x) != x:
                x = parent[x]
            return x

        def join(x, y):
            x, y = find(x), find(y)
            if x != y:
                parent[x] = y
        for a, b, v in self.facts:
            if v and len(a) == 1 and len(b) == 1:
                ra, rb = self.resp(a), self.resp(b)
                if len(ra) == 1 and len(rb) == 1:
                    join(ra[0], rb[0])
        for a, b, v in sorted(self.facts, key=lambda f: not f[2]):
            if len(a) == 1 and len(b) == 1:
                out.append((a, b, v))
                continue
            la, lb = list(self.resp(a)), list(self.resp(b))
            for end in (0, -1):
                while la and lb:
                    x, y = la[end], lb[end]
                    if x == y and x.__class__ is tuple:
                        la.pop(end); lb.pop(end)
                        continue
                    if not (self._one(x) and self._one(y)):
                        break
                    cx = x if x.__class__ is tuple else x[end]
                    cy = y if y.__class__ is tuple else y[end]
                    if cx != cy:
                        if v:
                            out.append(((cx,), (cy,), True))
                            join(cx, cy)
                        elif find(cx) != find(cy):
                            sx, sy = self._first_set(cx), self._first_set(cy)
                            ux, uy = chars.AT.single(sx), chars.AT.single(sy)
                            if ux is None or ux != uy:
                                break
                    for l, z in ((la, x), (lb, y)):
                        if z.__class__ is str and len(z) > 1:
                            l[end] = z[1:] if end == 0 else z[:-1]
                        else:
                            l.pop(end)
            if la or lb or not v:
                out.append((tuple(la), tuple(lb), v))
        self.facts = tuple(out)
        return self.facts

    def consistent(self):
        if self.alias and self.facts:
            for sid in list(self.alias):
                n = self.norm(self.alias[sid])
                if n.__class__ is int:
                    cs, lo, hi = self.segs[sid]
                    if n < lo or (hi is not None and n > hi):
                        return False
                    if lo != n or hi != n:
                        self.segs[sid] = (cs, n, n)
        for a, b, v in self.simp_facts():
            a, b = self.resp(a), self.resp(b)
            r = self.eq3(a, b)
            if r is not None and r != v:
                return False
        if self.cons:
            for c in self._ncons():
                lo, hi = self.bounds(c)
                if hi is not None and hi < 0:
                    return False
        return True

    def eq3(self, a, b):
        """cheap three-valued equality of resolved parts (no fork, ignores facts)"""
        if a == b:
            return True
        ia = ib = 0
        A = chars.AT
        la, lb = list(a), list(b)
        while la and lb:
            x, y = la[0], lb[0]
            if x == y:
                la.pop(0); lb.pop(0)
                continue
            xs, ys = x.__class__ is str, y.__class__ is str
            if xs and ys:
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                la[0] = x[n:]; lb[0] = y[n:]
                if not la[0]:
                    la.pop(0)
                if not lb[0]:
                    lb.pop(0)
                continue
            ax = self._first_set(x)
            ay = self._first_set(y)
            if ax is None or ay is None:
                break
            if not (ax & ay):
                return False
            ux, uy = A.single(ax), A.single(ay)
            if ux is not None and ux == uy:
                if xs:
                    la[0] = x[1:]
                    if not la[0]:
                        la.pop(0)
                else:
                    la.pop(0)
                if ys:
                    lb[0] = y[1:]
                    if not lb[0]:
                        lb.pop(0)
                else:
                    lb.pop(0)
                continue
            break
        if not la and not lb:
            return True
        n = 0
        try:
            for x in la:
                n = add(n, self.plen(x))
            for x in lb:
                n = sub(n, self.plen(x))
            if self.eq0(self.norm(n)) is False:
                return False
        except Unsupported:
            pass
        return None

    def _first_set(self, x):
        """charset of the char if x is a str or a single-char part, else None"""
        if x.__class__ is str:
            return 1 << chars.AT.atom(x[0])
        sid, h, rev = x
        cs, lo, hi = self.segs[sid]
        if lo == hi == 1:
            if h is None:
                return cs
            if cs & (h.multi | h.deleted | h.unk):
                return None
            return h.image(cs)
        return None

    # ---------------------------------------------------------- string equality
    def eq(self, va, vb, why='string comparison'):
        if va.__class__ is str and vb.__class__ is str:
            return va == vb
        a = list(self.res(va))
        b = list(self.res(vb))
        A = chars.AT
        for l, o in ((a, b), (b, a)):
            # the image of one char against a constant
            if len(l) == 1 and l[0].__class__ is tuple and l[0][1] is not None and (not o or len(o) == 1 and o[0].__class__ is str):
                sid, h, _ = l[0]
                cs, lo, hi = self.segs[sid]
                if lo == hi == 1 and not (cs & h.unk) and cs & (h.multi | h.deleted):
                    want = o[0] if o else ''
                    ins = 0
                    for x in A.atoms_in(cs):
                        t = h.table.get(x)
                        if t is None:
                            if len(want) == 1 and A.atom(want) == x:
                                if A.n_of[x] != 1:
                                    raise Unsupported('image comparison')
                                ins |= 1 << x
                        elif t.__class__ is str:
                            if t == want:
                                ins |= 1 << x
                        elif len(want) == 1 and h.preimage(1 << x, 1 << A.atom(want))[1] != 1 << x:
                            raise Unsupported('image comparison')
                    if not ins:
                        return False
                    if not (cs & ~ins):
                        return True
                    raise Fork([lambda st: st.restrict(sid, ins), lambda st: st.restrict(sid, cs & ~ins)], why)

        def drop1(l, end):
            i = -1 if end else 0
            x = l[i]
            if x.__class__ is str and len(x) > 1:
                l[i] = x[:-1] if end else x[1:]
            else:
                l.pop(i)
        for end in (False, True):
            i = -1 if end else 0
            while a and b:
                x, y = a[i], b[i]
                if x == y:
                    a.pop(i); b.pop(i)
                    continue
                sx, sy = self._end_set(x, end), self._end_set(y, end)
                if sx is None or sy is None:
                    break
                if not (sx & sy):
                    return False
                ux, uy = A.single(sx), A.single(sy)
                if ux is not None and ux == uy:
                    drop1(a, end); drop1(b, end)
                    continue
                # one-char vs one-char, undetermined
                if ux is not None or uy is not None:
                    seg, ch = (y, sx) if ux is not None else (x, sy)
                    sid, h, _ = seg
                    cs = self.segs[sid][0]
                    if h is None:
                        ins, out, unk = cs & ch, cs & ~ch, 0
                    else:
                        ins, out, unk = h.preimage(cs, ch)
                    if unk:
                        raise Unsupported('case image comparison')
                    raise Fork([lambda st: st.restrict(sid, ins), lambda st: st.restrict(sid, out)], why)
                pa, pb = (x,), (y,)
                f = self.fact(pa, pb)
                if f is False:
                    return False
                if f is True:
                    a.pop(i); b.pop(i)
                    continue
                raise Fork([lambda st: st.unify(x, y), lambda st: st.add_fact(pa, pb, False)], why)
        if not a and not b:
            return True
        a, b = tuple(a), tuple(b)
        r = self.eq3(a, b)
        if r is not None:
            return r
        f = self.fact(a, b)
        if f is not None:
            return f
        # now heads (or one empty) are stars
        if not a or not b:
            l = a or b
            for x in l:
                if x.__class__ is str:
                    return False
            sid, h, rev = l[0]
            if h is not None and self.segs[sid][0] & h.deleted:
                self.split_run(sid, h.deleted)
            else:
                self.need_nonempty(sid)
            return self.eq(from_parts(a), from_parts(b), why)
        x, y = a[0], b[0]
        # const / char versus star: materialise the star's head
        fx, fy = self._end_set(x, False), self._end_set(y, False)
        if fx is not None or fy is not None:
            seg = y if fx is not None else x
            ch = fx if fx is not None else fy
            sid, h, rev = seg
            cs, lo, hi = self.info(sid)
            # quick: if star cannot start with ch it must be empty
            self.materialize_first(seg)
            return self.eq(from_parts(a), from_parts(b), why)
        # anything versus a run of one character of the same length
        for l, o in ((a, b), (b, a)):
            if len(o) == 1 and o[0].__class__ is tuple and o[0][1] is None and len(l) > 1:
                cs = self.segs[o[0][0]][0]
                if A.single(cs) is None:
                    continue
                n = self.plen(o[0])
                for q in l:
                    n = sub(n, len(q) if q.__class__ is str else self.plen(q))
                if self.norm(n) != 0:
                    continue
                for q in l:
                    if q.__class__ is str:
                        if any((1 << A.atom(c)) != cs for c in q):
                            return False
                for q in l:
                    if q.__class__ is str:
                        continue
                    qs, qh, qrev = q
                    qcs = self.segs[qs][0]
                    if qh is None:
                        ins, unk = cs, 0
                    else:
                        ins, out, unk = qh.preimage(qcs, cs)
                    if unk:
                        raise Unsupported('case image comparison')
                    if self.split_run(qs, ins) != 'all':
                        return False
                return True
        # star vs star
        if len(a) == 1 and len(b) == 1:
            for p, q in ((x, y), (y, x)):
                sid, h, rev = p
                qs, qh, qrev = q
                cs = self.segs[sid][0]
                if A.single(cs) is not None and h is None:
                    d = self.norm(sub(self.plen(p), self.plen(q)))
                    if d == 0:
                        qcs = self.segs[qs][0]
                        if qh is None:
                            ins, unk = cs, 0
                        else:
                            ins, out, unk = qh.preimage(qcs, cs)
                        if unk:
                            raise Unsupported('case image comparison')
                        return self.split_run(qs, ins) == 'all'
        # disjoint images -> both empty or different
        ix, iy = self._image(x), self._image(y)
        if ix is not None and iy is not None and not (ix & iy):
            self.materialize_first(x)
            self.materialize_first(y)
            return self.eq(from_parts(a), from_parts(b), why)
        for p, l, o in ((x, a, b), (y, b, a)):
            if len(l) == 1 and p[1] is None and not p[2] and p[0] not in self.alias:
                if not any(q.__class__ is tuple and (q[0] == p[0] or q[2] or q[1] is not None) for q in o):
                    sid = p[0]
                    oo = o
                    raise Fork([lambda st: st.bind(sid, oo), lambda st: st.add_fact(a, b, False)], why)
        raise Fork([lambda st: st.add_fact(a, b, True), lambda st: st.add_fact(a, b, False)], why)

    def _image(self, x):
        sid, h, rev = x
        cs = self.segs[sid][0]
        if h is None:
            return cs
        if cs & h.unk:
            return None
        return h.image(cs)

    def _end_set(self, x, end):
        if x.__class__ is str:
            return 1 << chars.AT.atom(x[-1] if end else x[0])
        return self._first_set(x)

    def unify(self, x, y):
        """two single-char parts are equal"""
        if x[1] is None and y[1] is None:
            a, b = x[0], y[0]
            if self.restrict(a, self.segs[b][0]) is False:
                return False
            self.subst[b] = (a,)
            self.ver += 1
            return self.consistent()
        return self.add_fact((x,), (y,), True)

    def bind(self, sid, parts):
        """segment sid equals the given parts (constants and plain segments)"""
        cs, lo, hi = self.segs[sid]
        ps = []
        n = 0
        for q in parts:
            if q.__class__ is str:
                for c in q:
                    m = 1 << chars.AT.atom(c)
                    if not (m & cs):
                        return False
                    ps.append(self.new(m, 1, 1))
                n = add(n, len(q))
            else:
                if self.restrict(q[0], cs) is False:
                    return False
                ps.extend(self.pieces(q[0]))
        self.subst[sid] = tuple(ps)
        self.ver += 1
        n = self.norm(AInt(0, {sid: 1}))
        if lo and self.assume_ge0(sub(n, lo)) is False:
            return False
        if hi is not None and self.assume_ge0(sub(hi, n)) is False:
            return False
        return self.consistent()

    # ---------------------------------------------------------- membership of first char
    def in_set(self, part, S, why='char class'):
        """does the single-char part lie in S? (forks)"""
        if part.__class__ is str:
            return bool((1 << chars.AT.atom(part[0])) & S)
        sid, h, rev = part
        cs, lo, hi = self.segs[sid]
        if h is None:
            ins, out = cs & S, cs & ~S
        else:
            ins, out, unk = h.preimage(cs, S)
            if unk:
                raise Unsupported('case image')
        if not out:
            return True
        if not ins:
            return False
        raise Fork([lambda st: st.restrict(sid, ins), lambda st: st.restrict(sid, out)], why)

    # ---------------------------------------------------------- indexing
    def ensure_flat(self, parts):
        """make every part's length well defined as sum (split variable homs at need)"""
        return parts

    def locate(self, parts, idx):
        """(k, rem): part containing position idx (0<=idx<len known)"""
        rem = idx
        for k, x in enumerate(parts):
            L = self.plen(x)
            d = self.norm(sub(rem, L))
            if self.decide_ge0(d, 'position'):
                rem = d
                continue
            return k, self.norm(rem)
        raise PyExc('IndexError', 'string index out of range')

    def split_parts(self, parts, idx):
        """split resolved parts at offset idx (0<=idx<=len known) -> (left, right)"""
        idx = self.norm(idx)
        rem = idx
        for k in range(len(parts)):
            x = parts[k]
            if rem.__class__ is int and rem == 0:
                return parts[:k], parts[k:]
            L = self.plen(x)
            d = self.norm(sub(rem, L))
            if self.decide_ge0(d, 'position'):
                rem = d
                continue
            # strictly inside x
            rem = self.norm(rem)
            if rem.__class__ is int and rem == 0:
                return parts[:k], parts[k:]
            if x.__class__ is str:
                if rem.__class__ is not int:
                    rem = self.enum(rem, 'position')
                if rem == 0:
                    return parts[:k], parts[k:]
                return parts[:k] + (x[:rem],), (x[rem:],) + parts[k + 1:]
            sid, h, rev = x
            if not self.hom_flat(x):
                self.materialize_first(x)
                np = self.resp(parts)
                return self.split_parts(np, idx)
            if rem.__class__ is AInt and self.decide_eq0(rem, 'position') is True:
                return self.split_parts(self.resp(parts), 0) if k == 0 else (parts[:k], parts[k:])
            off = rem if not rev else self.norm(sub(L, rem))
            l, r = self.split_at(sid, off)
            if rev:
                l, r = r[::-1], l[::-1]
            left = tuple((s, h, rev) for s in l)
            right = tuple((s, h, rev) for s in r)
            return self.resp(parts[:k] + left), self.resp(right + parts[k + 1:])
        return parts, ()

    def enum(self, a, why='value', limit=64):
        """concretise a bounded abstract int by forking on its value"""
        a = self.norm(a)
        if a.__class__ is int:
            return a
        lo, hi = self.bounds(a)
        if lo is None or hi is None or hi - lo > limit:
            # try constraints
            if lo is not None:
                # peel lowest value
                raise Unsupported('unbounded integer used as a concrete value (%s)' % why)
            raise Unsupported('unbounded integer used as a concrete value (%s)' % why)
        if len(a.t) == 1:
            (v, k), = a.t.items()
            if v.__class__ is int or v[0] == 'i':
                vl, vh = self.vbounds(v)
                alts = []
                for x in range(vl, vh + 1):
                    alts.append((lambda x: (lambda st: st.assume_eq0(AInt(-x, {v: 1}))))(x))
                raise Fork(alts, why)
        alts = []
        for x in range(lo, hi + 1):
            alts.append((lambda x: (lambda st: st.assume_eq0(sub(a, x))))(x))
        raise Fork(alts, why)

    # ---------------------------------------------------------- display
    def show_parts(self, parts):
        out = []
        for x in self.resp(parts):
            if x.__class__ is str:
                out.append(ascii(x))
                continue
            sid, h, rev = x
            cs, lo, hi = self.info(sid)
            c = chars.AT.single(cs)
            if lo == hi == 1:
                s = ascii(c) if c is not None else '<%s>' % chars.AT.show(cs)
            else:
                s = '<%s>{%s,%s}' % (chars.AT.show(cs), lo, '' if hi is None else hi)
            if h is not None:
                s = 'map%d(%s)' % (h.key, s)
            if rev:
                s = 'rev(%s)' % s
            out.append(s)
        return ' '.join(out) if out else "''"

    def witness(self, v):
        """one concrete member of an abstract string (shortest, best effort)"""
        if v.__class__ is str:
            return v
        out = []
        for x in self.resp(v.p):
            if x.__class__ is str:
                out.append(x)
                continue
            sid, h, rev = x
            cs, lo, hi = self.info(sid)
            A = chars.AT
            pick = None
            for pref in 'aA1 xbc-_.':
                if (1 << A.atom(pref)) & cs:
                    pick = pref
                    break
            if pick is None and cs:
                pick = A.rep[(cs & -cs).bit_length() - 1]
            s = (pick or '') * lo
            o = hom_apply_str(h, s)
            out.append(o if o is not None else s)
        return ''.join(out)
