"""Abstract matching of regular expressions over segmented strings.

A backtracking matcher over the parsed pattern, written in direct style: tests
on abstract characters raise Fork.  Repetitions of a character class (possibly
guarded by negative lookaheads) swallow a whole unbounded run at once; the
first-set of the continuation tells where backtracking could matter."""
import re as _re
from re import _parser, _compiler, _constants as C

from . import chars, strs
from .dom import AStr, Unsupported, PyExc, add, from_parts, concat_parts, parts_of

_pc = {}
LOST = object()
MAXIT = 40


def parse(pat, flags):
    k = (pat, int(flags))
    r = _pc.get(k)
    if r is None:
        r = _pc[k] = _parser.parse(pat, int(flags))
    return r


def ngroups(pat, flags):
    return parse(pat, flags).state.groups - 1


def groupindex(pat, flags):
    return dict(parse(pat, flags).state.groupdict)


class M:
    def __init__(self, subject, groups):
        self.subject = subject
        self.g = groups       # i -> (consumed_before, consumed_after) | LOST

    def group(self, st, i):
        g = self.g.get(i)
        if g is None:
            return None
        if g is LOST:
            raise Unsupported('group captured inside an unbounded repetition')
        a, b = st.resp(g[0]), st.resp(g[1])
        return from_parts(minus(b, a))

    def span(self, st, i):
        g = self.g.get(i)
        if g is None:
            return -1, -1
        if g is LOST:
            raise Unsupported('group captured inside an unbounded repetition')
        return st.length(from_parts(st.resp(g[0]))), st.length(from_parts(st.resp(g[1])))


def minus(b, a):
    """parts b with the prefix a removed"""
    a, b = list(a), list(b)
    while a:
        x = a[0]
        y = b[0]
        if x == y:
            a.pop(0)
            b.pop(0)
            continue
        if x.__class__ is str and y.__class__ is str and y.startswith(x):
            a.pop(0)
            b[0] = y[len(x):]
            continue
        raise Unsupported('regex span')
    return tuple(b)


_mc = {}


def mask_of(node, flags):
    k = (repr(node), flags)
    m = _mc.get(k)
    if m is None:
        st = _parser.State()
        st.flags = flags
        sp = _parser.SubPattern(st, [node])
        rx = _compiler.compile(sp, flags)
        A = chars.AT
        m = 0
        for a in range(A.n):
            ks = {rx.fullmatch(c) is not None for c in A.samples[a]}
            if True in ks:
                if False in ks:
                    raise Unsupported('character class splits an atom')
                m |= 1 << a
        _mc[k] = m
    return m


CLASS_OPS = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)


class Matcher:
    def __init__(self, st, pat, flags):
        p = parse(pat, flags)
        self.st = st
        self.flags = p.state.flags
        self.nodes = list(p)
        self.FULL = chars.AT.FULL

    # ---------------------------------------------------------- first sets
    def first(self, nodes, kf):
        """mask of first chars of nodes followed by kf (FULL if it may match empty at the end)"""
        m = 0
        for nd in nodes:
            f, nullable = self.first1(nd)
            m |= f
            if not nullable:
                return m
        return m | kf

    def first1(self, nd):
        op, av = nd
        if op in CLASS_OPS:
            return mask_of(nd, self.flags), False
        if op is C.SUBPATTERN:
            return self.seq1(av[3])
        if op is C.BRANCH:
            m, n = 0, False
            for b in av[1]:
                a, x = self.seq1(b)
                m |= a
                n = n or x
            return m, n
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            m, n = self.seq1(av[2])
            return m, n or av[0] == 0
        if op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            return 0, True
        return self.FULL, True

    def seq1(self, nodes):
        m = 0
        for nd in nodes:
            f, nl = self.first1(nd)
            m |= f
            if not nl:
                return m, False
        return m, True

    # ---------------------------------------------------------- matching
    # pos = (consumed, rest); g = dict of groups; k(pos, g) -> result or None
    def seq(self, nodes, i, pos, g, k, kf):
        if i == len(nodes):
            return k(pos, g)
        nd = nodes[i]
        op, av = nd
        st = self.st

        def nxt(p, gg):
            return self.seq(nodes, i + 1, p, gg, k, kf)
        if op in CLASS_OPS:
            p = self.one(nd, pos)
            return None if p is None else nxt(p, g)
        if op is C.SUBPATTERN:
            gi, af, df, body = av
            if af or df:
                raise Unsupported('inline regex flags')
            kf2 = self.first(nodes[i + 1:], kf)
            if gi is None:
                return self.seq(list(body), 0, pos, g, nxt, kf2)
            start = pos[0]

            def close(p, gg):
                gg = dict(gg)
                gg[gi] = (start, p[0])
                return nxt(p, gg)
            return self.seq(list(body), 0, pos, g, close, kf2)
        if op is C.BRANCH:
            kf2 = self.first(nodes[i + 1:], kf)
            for b in av[1]:
                r = self.seq(list(b), 0, pos, g, nxt, kf2)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            kf2 = self.first(nodes[i + 1:], kf)
            return self.rep(list(body), lo, None if hi is C.MAXREPEAT else hi, op is C.MAX_REPEAT, pos, g, nxt, kf2, 0)
        if op is C.AT:
            return nxt(pos, g) if self.at(av, pos) else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            if av[0] < 0:
                raise Unsupported('regex lookbehind')
            r = self.seq(list(av[1]), 0, pos, g, lambda p, gg: (gg,), self.FULL)
            if op is C.ASSERT:
                return None if r is None else nxt(pos, r[0])
            return None if r is not None else nxt(pos, g)
        if op is C.GROUPREF:
            gg = g.get(av)
            if gg is None:
                return None
            t = M(None, g).group(st, av)
            ok, rem = strs.startswith(st, from_parts(st.resp(pos[1])), t)
            if not ok:
                return None
            return nxt((concat_parts(pos[0], parts_of(t)), rem), g)
        raise Unsupported('regex construct %s' % op)

    def one(self, nd, pos):
        st = self.st
        S = mask_of(nd, self.flags)
        rest = st.resp(pos[1])
        if rest and rest[0].__class__ is str:
            c = rest[0][0]
            if not (1 << chars.AT.atom(c)) & S:
                return None
            r2 = ((rest[0][1:],) if len(rest[0]) > 1 else ()) + rest[1:]
            return concat_parts(pos[0], (c,)), r2
        c, r2 = strs.first_char(st, rest)
        if c == '':
            return None
        if c.__class__ is str:
            ok = bool((1 << chars.AT.atom(c)) & S)
        else:
            ok = st.in_set(c.p[0], S, 'regex class')
        if not ok:
            return None
        return concat_parts(pos[0], parts_of(c)), st.resp(r2)

    def skip_set(self, body):
        """chars over which one iteration of the body is certain to match exactly that char"""
        G = 0
        S = None
        caps = set()

        def walk(ns):
            nonlocal G, S
            for nd in ns:
                op, av = nd
                if op is C.SUBPATTERN and not av[1] and not av[2]:
                    if av[0] is not None:
                        caps.add(av[0])
                    if not walk(av[3]):
                        return False
                elif op is C.ASSERT_NOT and av[0] >= 0 and S is None:
                    f, nl = self.seq1(av[1])
                    if nl:
                        return False
                    G |= f
                elif op in CLASS_OPS and S is None:
                    S = mask_of(nd, self.flags)
                else:
                    return False
            return True
        if len(body) == 1 and body[0][0] is C.SUBPATTERN and not body[0][1][1] and not body[0][1][2] \
                and len(body[0][1][3]) == 1 and body[0][1][3][0][0] is C.BRANCH:
            # (a|b|c): alternatives that are single classes
            if body[0][1][0] is not None:
                caps.add(body[0][1][0])
            m = 0
            for b in body[0][1][3][0][1][1]:
                G0, S0 = G, S
                G, S = 0, None
                if len(b) >= 1 and walk(b) and S is not None:
                    m |= S & ~G
                G, S = G0, S0
            return m, caps
        if not walk(body) or S is None:
            return 0, caps
        return S & ~G, caps

    def rep(self, body, lo, hi, greedy, pos, g, k, kf, depth):
        st = self.st
        if lo > 0:
            def again(p, gg):
                return self.rep(body, lo - 1, None if hi is None else hi - 1, greedy, p, gg, k, kf, depth)
            return self.seq(body, 0, pos, g, again, self.first(body, kf) | kf)
        if hi == 0:
            return k(pos, g)
        bf = self.first(body, kf) | kf
        if hi is None:
            K, caps = self.skip_set(body)
            if K:
                return self.rep_fast(body, K, caps, greedy, pos, g, k, kf, depth)
        if depth > MAXIT:
            raise Unsupported('regex repetition over unbounded text')

        def more(p, gg):
            if st.resp(p[0]) == st.resp(pos[0]):
                return None          # empty iteration: stop
            return self.rep(body, 0, None if hi is None else hi - 1, greedy, p, gg, k, kf, depth + 1)
        if greedy:
            r = self.seq(body, 0, pos, g, more, bf)
            if r is not None:
                return r
            return k(pos, g)
        r = k(pos, g)
        if r is not None:
            return r
        return self.seq(body, 0, pos, g, more, bf)

    def rep_fast(self, body, K, caps, greedy, pos, g, k, kf, depth):
        st = self.st
        if depth > MAXIT:
            raise Unsupported('regex repetition over unbounded text')
        bf = self.first(body, kf) | kf
        if greedy:
            r = strs.scan(st, pos[1], self.FULL & ~K, 'regex run')
            if r is None:
                run, after = st.resp(pos[1]), ()
            else:
                run, after = r[0], concat_parts(parts_of(r[1]), r[2])
            if run and caps:
                g = dict(g)
                for c in caps:
                    g[c] = LOST
            cons = st.resp(pos[0])
            end = (concat_parts(cons, run), st.resp(after))
            # one more generic iteration from the end of the run
            if after:
                def more(p, gg):
                    if st.resp(p[0]) == st.resp(end[0]):
                        return None
                    return self.rep_fast(body, K, caps, True, p, gg, k, kf, depth + 1)
                x = self.seq(body, 0, end, g, more, bf)
                if x is not None:
                    return x
            x = k(end, g)
            if x is not None:
                return x
            # backtrack into the run: only where the continuation can start
            F = kf & K
            cur = run
            tail = end[1]
            n = 0
            while F:
                q = strs.rscan(st, cur, F)
                if q is None:
                    return None
                l, c, rr = q
                tail = concat_parts(parts_of(c), rr, tail)
                x = k((concat_parts(cons, l), st.resp(tail)), g)
                if x is not None:
                    return x
                cur = st.resp(l)
                n += 1
                if n > MAXIT:
                    raise Unsupported('regex backtracking over unbounded text')
            return None
        # lazy
        cons, rest = st.resp(pos[0]), st.resp(pos[1])
        n = 0
        while True:
            r = strs.scan(st, rest, (self.FULL & ~K) | kf, 'regex run')
            if r is None:
                cons = concat_parts(cons, st.resp(rest))
                return k((cons, ()), g)
            l, c, rr = r
            cons = concat_parts(cons, l)
            here = (cons, concat_parts(parts_of(c), rr))
            x = k(here, g)
            if x is not None:
                return x
            h2 = here

            def more(p, gg):
                return ('cont', p, gg)
            x = self.seq(body, 0, h2, g, more, bf)
            if x is None:
                return None
            _, p, g = x
            cons, rest = st.resp(p[0]), st.resp(p[1])
            n += 1
            if n > MAXIT:
                raise Unsupported('regex repetition over unbounded text')

    def isword(self, c):
        W = chars.AT.pred('word', lambda x: x.isalnum() or x == '_')
        if c.__class__ is str:
            return bool((1 << chars.AT.atom(c)) & W)
        return self.st.in_set(c.p[0], W, 'word boundary')

    def at(self, av, pos):
        st = self.st
        if av in (C.AT_BEGINNING_STRING,) or (av is C.AT_BEGINNING and not self.flags & _re.M):
            return not strs.truthy_str(st, from_parts(st.resp(pos[0])))
        if av is C.AT_END_STRING:
            return not strs.truthy_str(st, from_parts(st.resp(pos[1])))
        if av in (C.AT_END, C.AT_BEGINNING, C.AT_END_LINE, C.AT_BEGINNING_LINE):
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_LINE):
                c, _ = strs.first_char(st, pos[0], True)
                return c == '' or st.eq(c, '\n')
            c, r = strs.first_char(st, pos[1])
            if c == '':
                return True
            if not st.eq(c, '\n'):
                return False
            if self.flags & _re.M:
                return True
            return not strs.truthy_str(st, from_parts(st.resp(r)))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY, C.AT_UNI_BOUNDARY):
            c, _ = strs.first_char(st, pos[0], True)
            a = False if c == '' else self.isword(c)
            c, _ = strs.first_char(st, pos[1])
            b = False if c == '' else self.isword(c)
            return (a != b) == (av is not C.AT_NON_BOUNDARY)
        raise Unsupported('regex position %s' % av)

    def match_at(self, pos, mode):
        st = self.st
        start = pos[0]

        def fin(p, g):
            if mode == 'fullmatch' and strs.truthy_str(st, from_parts(st.resp(p[1]))):
                return None
            g = dict(g)
            g[0] = (start, p[0])
            return (p, g)
        return self.seq(self.nodes, 0, pos, {}, fin, 0 if mode == 'fullmatch' else self.FULL)

    def search_from(self, pos):
        """-> (pos_after, groups) or None"""
        st = self.st
        f, nullable = self.seq1(self.nodes)
        cons, rest = st.resp(pos[0]), st.resp(pos[1])
        n = 0
        while True:
            n += 1
            if n > 4 * MAXIT:
                raise Unsupported('regex search over unbounded text')
            if not nullable:
                r = strs.scan(st, rest, f, 'regex search')
                if r is None:
                    return None
                l, c, rr = r
                cons = concat_parts(cons, l)
                rest = concat_parts(parts_of(c), rr)
            m = self.match_at((cons, rest), 'match')
            if m is not None:
                return m
            c, rr = strs.first_char(st, rest)
            if c == '':
                return None
            cons = concat_parts(cons, parts_of(c))
            rest = st.resp(rr)

    def single_class(self):
        ns = self.nodes
        while len(ns) == 1 and ns[0][0] is C.SUBPATTERN and not ns[0][1][1]:
            ns = list(ns[0][1][3])
        if len(ns) == 1 and ns[0][0] in CLASS_OPS:
            return mask_of(ns[0], self.flags)
        return None


class RM:
    """wraps a concrete match"""
    def __init__(self, m):
        self.m = m

    def group(self, st, i):
        return self.m.group(i)

    def span(self, st, i):
        return self.m.span(i)


def run(st, pat, flags, s, mode):
    c = st.cval(s)
    if c is not None:
        m = getattr(_re.compile(pat, flags), mode)(c)
        return None if m is None else RM(m)
    mt = Matcher(st, pat, flags)
    pos = ((), st.res(s))
    if mode == 'search':
        r = mt.search_from(pos)
    else:
        r = mt.match_at(pos, mode)
    return None if r is None else M(s, r[1])


def finditer(st, pat, flags, s):
    c = st.cval(s)
    if c is not None:
        return [RM(m) for m in _re.finditer(pat, c, flags)]
    mt = Matcher(st, pat, flags)
    f, nullable = mt.seq1(mt.nodes)
    if nullable:
        raise Unsupported('repeated search of a nullable pattern')
    out = []
    pos = ((), st.res(s))
    while True:
        r = mt.search_from(pos)
        if r is None:
            return out
        out.append(M(s, r[1]))
        pos = r[0]
        if len(out) > MAXIT:
            raise Unsupported('unbounded number of regex matches')


def sub(st, pat, flags, repl, s, count):
    c = st.cval(s)
    if c is not None and repl.__class__ is str:
        return _re.subn(pat, repl, c, count=count, flags=flags)
    if repl.__class__ is not str:
        raise Unsupported('abstract regex replacement')
    mt = Matcher(st, pat, flags)
    rx = _re.compile(pat, flags)
    tmpl = _parser.parse_template(repl, rx)
    const = len(tmpl) <= 1 and all(x.__class__ is str for x in tmpl)
    if const and not count:
        S = mt.single_class()
        if S is not None:
            rc = tmpl[0] if tmpl else ''
            v = strs.apply_hom(st, s, chars.hom_sub(S, rc))
            return v, None
    f, nullable = mt.seq1(mt.nodes)
    if nullable:
        raise Unsupported('substitution of a nullable pattern')
    out = ()
    n = 0
    pos = ((), st.res(s))
    while not count or n < count:
        r = mt.search_from(pos)
        if r is None:
            break
        p, g = r
        m = M(s, g)
        before = minus(st.resp(g[0][0]), st.resp(pos[0]))
        out = concat_parts(out, before)
        for x in tmpl:
            if x.__class__ is str:
                out = concat_parts(out, (x,))
            elif x is not None:
                t = m.group(st, x)
                if t is not None:
                    out = concat_parts(out, parts_of(t))
        pos = p
        n += 1
        if n > MAXIT:
            raise Unsupported('unbounded number of regex matches')
    return from_parts(st.resp(concat_parts(out, pos[1]))), n


def split(st, pat, flags, s, maxsplit):
    c = st.cval(s)
    if c is not None:
        return _re.split(pat, c, maxsplit, flags)
    ms = finditer(st, pat, flags, s)
    out = []
    prev = ()
    ng = ngroups(pat, flags)
    for i, m in enumerate(ms):
        if maxsplit and i >= maxsplit:
            break
        a, b = m.g[0]
        out.append(from_parts(minus(st.resp(a), st.resp(prev))))
        for j in range(1, ng + 1):
            out.append(m.group(st, j))
        prev = b
    out.append(from_parts(minus(st.res(s), st.resp(prev))))
    return out
