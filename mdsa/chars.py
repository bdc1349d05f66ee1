"""Character atoms, charsets (bitmasks over atoms) and homomorphisms.

An *atom* is an equivalence class of Unicode code points.  Every code point
below 0x300 and every non-ASCII literal of the analysed sources is an atom of
its own; the remaining code points are grouped by everything Python's string
predicates can tell apart (general category, is* predicates, case behaviour,
numeric bucket).  A charset is an int bitmask over atoms.
"""
import unicodedata

INDIV = 0x300
BUCKETS = [0x300, 0x370, 0x400, 0x800, 0x1000, 0x2000, 0x2070, 0x2100, 0x2E00,
           0x3000, 0x3040, 0x8000, 0xD800, 0xE000, 0xF900, 0xFE00, 0x10000,
           0x20000, 0x110000]


class Atoms:
    def __init__(self, extra=''):
        cuts = sorted(set(BUCKETS) | {k for c in extra if ord(c) >= INDIV for k in (ord(c), ord(c) + 1)} | {0xE000, 0xE0000, 0xF0000})
        extra = {c for c in extra if ord(c) >= INDIV} | {'\u03a3', '\u03c3', '\u03c2', '\u2028', '\u2029', '\ufeff'}
        self.rep = []       # representative char
        self.lohi = []      # (min ord, max ord)
        self.n_of = []      # number of code points
        self.samples = []
        self.of = {}        # char -> atom for individual ones
        for i in range(INDIV):
            self.of[chr(i)] = i
            self.rep.append(chr(i)); self.lohi.append((i, i)); self.n_of.append(1); self.samples.append(chr(i))
        for c in sorted(extra):
            self.of[c] = len(self.rep)
            self.rep.append(c); self.lohi.append((ord(c), ord(c))); self.n_of.append(1); self.samples.append(c)
        self.n_indiv = len(self.rep)
        cat = unicodedata.category
        bi = 0
        classes = {}

        def sig0(c):
            return (cat(c), c.isspace(), c.isalnum(), c.isalpha(), c.isdigit(), c.isdecimal(), c.isnumeric(), c.isprintable())
        cache = {}

        def add(sig, lo, hi, sample):
            a = classes.get(sig)
            if a is None:
                a = classes[sig] = len(self.rep)
                self.rep.append(sample); self.lohi.append((lo, hi)); self.n_of.append(0); self.samples.append(sample)
            l, h = self.lohi[a]
            self.lohi[a] = (min(l, lo), max(h, hi))
            self.n_of[a] += hi - lo + 1
            if len(self.samples[a]) < 4:
                self.samples[a] += sample
        nb = cuts
        i = INDIV
        while i < 0x110000:
            if i == 0xD800:
                i = 0xE000
                continue
            while bi + 1 < len(nb) and i >= nb[bi + 1]:
                bi += 1
            if i >= 0xE0200 or 0x323B0 <= i < 0xE0000:
                end = (0xDFFFF if i < 0xE0000 else 0xEFFFF if i < 0xF0000 else 0x10FFFF)
                if bi + 1 < len(nb):
                    end = min(end, nb[bi + 1] - 1)
                if chr(i) not in extra:
                    add(('Co' if i >= 0xF0000 else 'Cn', 'big', bi), i, end, chr(i))
                i = end + 1
                continue
            c = chr(i)
            if c in extra:
                i += 1
                continue
            # big uniform runs
            end = {0x3400: 0x4DBF, 0x4E00: 0x9FFF, 0xAC00: 0xD7A3, 0xE000: 0xF8FF, 0x20000: 0x2A6DF,
                   0x2A700: 0x2B739, 0x2CEB0: 0x2EBE0, 0x30000: 0x3134A, 0x31350: 0x323AF, 0x17000: 0x187F7}.get(i)
            if end and c not in ('\u4e00',):
                if bi + 1 < len(nb):
                    end = min(end, nb[bi + 1] - 1)
                add((sig0(c), 'run', bi), i, end, c)
                i = end + 1
                continue
            lo = c.lower(); up = c.upper()
            s = (sig0(c), bi, lo == c, len(lo), '' if lo == c else tuple(map(sig0, lo)), (lo in self.of) and lo,
                 up == c, len(up), '' if up == c else tuple(map(sig0, up)), (up in self.of) and up,
                 c.casefold() == lo)
            add(s, i, i, c)
            i += 1
        self.n = len(self.rep)
        self.FULL = (1 << self.n) - 1
        # lower / upper class target: atom or None when not uniform
        self._classes = classes
        self._atom_cache = {}
        self.indiv_mask = (1 << self.n_indiv) - 1
        self._pred = {}

    def atom(self, c):
        a = self.of.get(c)
        if a is None:
            a = self._atom_cache.get(c)
            if a is None:
                a = self._atom_cache[c] = self._find(c)
        return a

    def _find(self, c):
        # class atom of a non individual char: by scanning signature
        for a in range(self.n_indiv, self.n):
            if c in self.samples[a]:
                return a
        cat = unicodedata.category(c)
        cands = [a for a in range(self.n_indiv, self.n)
                 if self.lohi[a][0] <= ord(c) <= self.lohi[a][1] and unicodedata.category(self.rep[a]) == cat
                 and self._key(self.rep[a]) == self._key(c)]
        if not cands:
            raise KeyError(c)
        return min(cands, key=lambda a: self.lohi[a][1] - self.lohi[a][0])

    @staticmethod
    def _key(c):
        return (c.isspace(), c.isalnum(), c.isdigit(), c.isdecimal(), c.isnumeric(), c.lower() == c, c.upper() == c)

    def cs(self, chars):
        m = 0
        for c in chars:
            m |= 1 << self.atom(c)
        return m

    def pred(self, name, fn):
        m = self._pred.get(name)
        if m is None:
            m = 0
            for a in range(self.n):
                if fn(self.rep[a]):
                    m |= 1 << a
            self._pred[name] = m
        return m

    def single(self, m):
        """the char if charset m denotes exactly one code point, else None"""
        if m and not (m & (m - 1)):
            a = m.bit_length() - 1
            if self.n_of[a] == 1:
                return self.rep[a]
        return None

    def atoms_in(self, m):
        while m:
            b = m & -m
            yield b.bit_length() - 1
            m ^= b

    def show(self, m):
        if m == self.FULL:
            return 'ANY'
        neg = bin(m).count('1') > self.n // 2
        mm = (self.FULL & ~m) if neg else m
        out = []
        for k, a in enumerate(self.atoms_in(mm)):
            if k > 40:
                out.append('...')
                break
            out.append(self.rep[a] if self.n_of[a] == 1 else 'class(%s..)' % ascii(self.rep[a])[1:-1])
        return ('ANY-' if neg else '') + '{' + ''.join(ascii(x)[1:-1] if len(x) == 1 else x for x in out) + '}'


AT = None


def init(extra=''):
    global AT
    AT = Atoms(extra)
    return AT


# ---------------------------------------------------------------- homs
# A homomorphism maps each char to a string.  Stored as dict atom -> output for
# atoms where it is not the identity; output is a str (constant), or the
# marker LOW/UP (case image of a class atom) or UNK (not representable).
LOW = ('low',)
UP = ('up',)
UNK = ('unk',)


class Hom:
    __slots__ = ('table', 'key', '_del', '_multi', '_unk', '_dom')
    pool = {}
    sub = {}

    def __init__(self, table):
        self.table = table
        self._dom = self._del = self._multi = self._unk = None

    @staticmethod
    def make(table):
        table = {a: o for a, o in table.items() if not (o.__class__ is str and o == AT.rep[a] and AT.n_of[a] == 1)}
        k = frozenset(table.items())
        h = Hom.pool.get(k)
        if h is None:
            h = Hom.pool[k] = Hom(table)
            h.key = len(Hom.pool)
        return h

    def _masks(self):
        d = m = u = dom = 0
        for a, o in self.table.items():
            b = 1 << a
            dom |= b
            if o.__class__ is str:
                if o == '':
                    d |= b
                elif len(o) > 1:
                    m |= b
            elif o is UNK:
                u |= b
        self._del, self._multi, self._unk, self._dom = d, m, u, dom

    @property
    def deleted(self):
        if self._del is None:
            self._masks()
        return self._del

    @property
    def multi(self):
        if self._del is None:
            self._masks()
        return self._multi

    @property
    def unk(self):
        if self._del is None:
            self._masks()
        return self._unk

    @property
    def dom(self):
        if self._del is None:
            self._masks()
        return self._dom

    def on(self, cs):
        """the same map on the charset cs, in canonical form"""
        if not (self.dom & ~cs):
            return self
        k = (self.key, cs)
        r = Hom.sub.get(k)
        if r is None:
            r = Hom.sub[k] = Hom.make({a: o for a, o in self.table.items() if cs >> a & 1})
        return r

    def lens(self, cs):
        """a canonical map with the same output lengths on cs"""
        k = (self.key, cs, 'len')
        r = Hom.sub.get(k)
        if r is None:
            t = {}
            for a, o in self.table.items():
                if cs >> a & 1:
                    if o is UNK:
                        t[a] = UNK
                    elif o.__class__ is str and len(o) != 1:
                        t[a] = 'x' * len(o)
            r = Hom.sub[k] = Hom.make(t)
        return r

    def const(self, cs):
        """the common output of all atoms of cs, if constant"""
        k = (self.key, cs, 'const')
        r = Hom.sub.get(k, 0)
        if r == 0:
            vs = {self.table.get(a) if self.table.get(a).__class__ is str else None for a in AT.atoms_in(cs)}
            r = Hom.sub[k] = vs.pop() if len(vs) == 1 else None
        return r

    def out(self, a):
        """output of atom a: str | ('self',a) | LOW..."""
        return self.table.get(a)

    def image(self, cs):
        """charset of output chars for input charset cs (over-approximation exact per atom)"""
        r = cs & ~self.dom
        for a in AT.atoms_in(cs & self.dom):
            o = self.table[a]
            if o.__class__ is str:
                for c in o:
                    r |= 1 << AT.atom(c)
            elif o is LOW:
                for c in AT.samples[a]:
                    r |= 1 << AT.atom(c.lower())
            elif o is UP:
                for c in AT.samples[a]:
                    r |= 1 << AT.atom(c.upper())
            else:
                return AT.FULL
        return r

    def preimage(self, cs, target):
        """atoms of cs whose (single-char) output lies in target.
        Returns (inside, outside, unknown) masks; atoms with empty output are in `outside`."""
        ins = out = unk = 0
        nd = cs & ~self.dom
        ins |= nd & target
        out |= nd & ~target
        for a in AT.atoms_in(cs & self.dom):
            o = self.table[a]
            b = 1 << a
            if o.__class__ is str:
                if len(o) == 1:
                    if (1 << AT.atom(o)) & target:
                        ins |= b
                    else:
                        out |= b
                elif o == '':
                    out |= b
                else:
                    unk |= b
            elif o is LOW or o is UP:
                f = str.lower if o is LOW else str.upper
                ks = {bool((1 << AT.atom(f(c))) & target) for c in AT.samples[a]}
                if ks == {True}:
                    ins |= b
                elif ks == {False}:
                    out |= b
                else:
                    unk |= b
            else:
                unk |= b
        return ins, out, unk


def hom_apply_str(h, s):
    if h is None:
        return s
    out = []
    t = h.table
    for c in s:
        a = AT.atom(c)
        o = t.get(a)
        if o is None:
            out.append(c)
        elif o.__class__ is str:
            out.append(o)
        elif o is LOW:
            out.append(c.lower())
        elif o is UP:
            out.append(c.upper())
        else:
            return None
    return ''.join(out)


def hom_compose(g, f):
    """apply f first, then g"""
    if f is None:
        return g
    if g is None:
        return f
    t = {}
    for a in set(f.table) | set(g.table):
        o = f.table.get(a)
        if o is None:
            t[a] = g.table[a]
        elif o.__class__ is str:
            r = hom_apply_str(g, o)
            t[a] = UNK if r is None else r
        elif o is LOW or o is UP:
            fn = str.lower if o is LOW else str.upper
            res = set()
            for c in AT.samples[a]:
                b = AT.atom(fn(c))
                og = g.table.get(b)
                if og is None:
                    res.add(o)
                elif og.__class__ is str:
                    res.add(og)
                elif og is o:
                    res.add(o)
                else:
                    res.add(UNK)
            t[a] = res.pop() if len(res) == 1 else UNK
        else:
            t[a] = UNK
    return Hom.make(t)


_case = {}


def hom_lower():
    h = _case.get('lower')
    if h is None:
        t = {}
        for a in range(AT.n):
            c = AT.rep[a]
            if AT.n_of[a] == 1:
                if c.lower() != c:
                    t[a] = c.lower() if c != '\u03a3' else UNK
            else:
                if any(x.lower() != x for x in AT.samples[a]):
                    t[a] = LOW if all(len(x.lower()) == 1 for x in AT.samples[a]) else UNK
        h = _case['lower'] = Hom.make(t)
    return h


def hom_upper():
    h = _case.get('upper')
    if h is None:
        t = {}
        for a in range(AT.n):
            c = AT.rep[a]
            if AT.n_of[a] == 1:
                if c.upper() != c:
                    t[a] = c.upper()
            else:
                if any(x.upper() != x for x in AT.samples[a]):
                    t[a] = UP if all(len(x.upper()) == 1 for x in AT.samples[a]) else UNK
        h = _case['upper'] = Hom.make(t)
    return h


def hom_casefold():
    h = _case.get('casefold')
    if h is None:
        t = {}
        for a in range(AT.n):
            c = AT.rep[a]
            if AT.n_of[a] == 1:
                if c.casefold() != c:
                    t[a] = c.casefold()
            else:
                if any(x.casefold() != x for x in AT.samples[a]):
                    t[a] = LOW if all(len(x.casefold()) == 1 and x.casefold() == x.lower() for x in AT.samples[a]) else UNK
        h = _case['casefold'] = Hom.make(t)
    return h


def hom_sub(cs, repl):
    """replace every char of charset cs by the constant repl"""
    return Hom.make({a: repl for a in AT.atoms_in(cs)})
