"""Abstract string operations over segmented strings (transfer functions)."""
from . import chars
from .chars import hom_compose, hom_sub, hom_lower, hom_upper, hom_casefold, hom_apply_str
from .dom import (AInt, AStr, CharInt, Term, TOP, Fork, Unsupported, PyExc, add, sub, scale, is_str, parts_of,
                  from_parts, concat_parts)

WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def ws_mask():
    return chars.AT.pred('isspace', str.isspace)


def cat(*vs):
    return from_parts(concat_parts(*[parts_of(v) for v in vs]))


def rev_parts(st, parts):
    out = []
    for x in reversed(parts):
        if x.__class__ is str:
            out.append(x[::-1])
        else:
            sid, h, rev = x
            cs, lo, hi = st.segs[sid]
            if h is not None and cs & (h.multi | h.unk):
                raise Unsupported('reversal of replaced text')
            out.append((sid, h, (not rev) if not lo == hi == 1 else False))
    return concat_parts(out)


def masks(st, part, S):
    """(ins, out) masks over the segment's charset; None when an atom straddles or has several outputs"""
    sid, h, rev = part
    cs = st.segs[sid][0]
    if h is None:
        return cs & S, cs & ~S
    ins, out, unk = h.preimage(cs, S)
    if unk:
        # multi output atoms entirely outside / inside?
        for a in chars.AT.atoms_in(unk):
            o = h.table[a]
            if o.__class__ is str and len(o) > 1:
                m = [bool((1 << chars.AT.atom(c)) & S) for c in o]
                if not any(m):
                    out |= 1 << a
                    continue
            return None
    return ins, out


def first_char(st, parts, last=False):
    """(char value or '' , ) first char of resolved parts, materialising it; parts are re-resolved"""
    while True:
        parts = st.resp(parts)
        if not parts:
            return '', ()
        x = parts[-1] if last else parts[0]
        if x.__class__ is str:
            if last:
                return x[-1], parts[:-1] + ((x[:-1],) if len(x) > 1 else ())
            return x[0], ((x[1:],) if len(x) > 1 else ()) + parts[1:]
        sid, h, rev = x
        cs, lo, hi = st.segs[sid]
        if lo == hi == 1 and st.hom_flat(x):
            return AStr((x,)), (parts[:-1] if last else parts[1:])
        st.materialize_first(x, last)
        # re-resolve; if nothing changed the segment vanished or was a plain char
        n = st.resp(parts)
        if n == parts:
            raise Unsupported('cannot materialise char')


def scan(st, parts, S, why='char class'):
    """first char of the resolved parts lying in S: (left, charpart, right) or None.  Forks as needed."""
    parts = st.resp(parts)
    k = 0
    while k < len(parts):
        x = parts[k]
        if x.__class__ is str:
            for i, c in enumerate(x):
                if (1 << chars.AT.atom(c)) & S:
                    left = parts[:k] + ((x[:i],) if i else ())
                    right = ((x[i + 1:],) if i + 1 < len(x) else ()) + parts[k + 1:]
                    return left, c, right
            k += 1
            continue
        m = masks(st, x, S)
        if m is None:
            st.materialize_first(x)
            n = st.resp(parts)
            if n == parts:
                raise Unsupported('char class of replaced text')
            parts = n
            continue
        ins, out = m
        sid, h, rev = x
        if not ins:
            k += 1
            continue
        r = st.split_run(sid, out, from_end=rev)
        if r == 'all':
            k += 1
            continue
        n = st.resp(parts)
        # segment is now run? char rest?
        if st.segs[sid][1] == st.segs[sid][2] == 1 and sid not in st.subst:
            return parts[:k], AStr((x,)), parts[k + 1:]
        # locate the char piece
        ps = st.pieces(sid)
        if rev:
            ps = ps[::-1]
        j = 0
        left = []
        for j, s in enumerate(ps):
            cs2 = st.segs[s][0]
            if st.segs[s][1] == st.segs[s][2] == 1 and not (cs2 & ~ins):
                break
            left.append((s, h, rev))
        else:
            raise Unsupported('scan')
        right = tuple((s, h, rev) for s in ps[j + 1:])
        c = st.resp(((ps[j], h, rev),))
        cv = from_parts(c)
        return st.resp(parts[:k] + tuple(left)), cv, st.resp(right + parts[k + 1:])
    return None


def rscan(st, parts, S):
    r = scan(st, rev_parts(st, st.resp(parts)), S)
    if r is None:
        return None
    l, c, rr = r
    return rev_parts(st, rr), c, rev_parts(st, l)


def lstrip(st, v, S):
    parts = st.res(v)
    r = scan(st, parts, ~S & chars.AT.FULL)
    if r is None:
        return ''
    l, c, rest = r
    return from_parts(concat_parts(parts_of(c), rest))


def rstrip(st, v, S):
    parts = st.res(v)
    r = rscan(st, parts, ~S & chars.AT.FULL)
    if r is None:
        return ''
    l, c, rest = r
    return from_parts(concat_parts(l, parts_of(c)))


def apply_hom(st, v, g):
    if v.__class__ is str:
        r = hom_apply_str(g, v)
        if r is None:
            raise Unsupported('case mapping')
        return r
    out = []
    for x in st.resp(v.p):
        if x.__class__ is str:
            r = hom_apply_str(g, x)
            if r is None:
                raise Unsupported('case mapping')
            out.append(r)
        else:
            sid, h, rev = x
            if rev:
                cs = st.segs[sid][0]
                hh = hom_compose(g, h)
                if cs & hh.multi:
                    raise Unsupported('replacement in reversed text')
            out.append((sid, hom_compose(g, h), rev))
    return st.rv(AStr(concat_parts(out)))


def startswith(st, v, p):
    """does v start with p (constant or abstract)"""
    a = st.res(v)
    b = st.res(p)
    while True:
        if not b:
            return True, a
        if a and a[0] == b[0]:
            a, b = a[1:], b[1:]
            continue
        if a and a[0].__class__ is str and b[0].__class__ is str:
            x, y = a[0], b[0]
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False, None
            a = ((x[n:],) if len(x) > n else ()) + a[1:]
            b = ((y[n:],) if len(y) > n else ()) + b[1:]
            continue
        cb, b2 = first_char(st, b)
        a = st.resp(a)
        if cb == '':
            return True, a
        ca, a2 = first_char(st, a)
        if ca == '':
            return False, None
        if not st.eq(ca, cb, 'prefix test'):
            return False, None
        a, b = st.resp(a2), st.resp(b2)


def endswith(st, v, p):
    a = st.res(v)
    b = st.res(p)
    while True:
        if not b:
            return True, a
        if a and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
            continue
        cb, b2 = first_char(st, b, True)
        a = st.resp(a)
        if cb == '':
            return True, a
        ca, a2 = first_char(st, a, True)
        if ca == '':
            return False, None
        if not st.eq(ca, cb, 'suffix test'):
            return False, None
        a, b = st.resp(a2), st.resp(b2)


def find_parts(st, v, needle):
    """leftmost occurrence of needle: (left, right-after) or None"""
    nd = st.cval(needle)
    if nd is None:
        cn = st.res(needle)
        # abstract single char / text needle
        c0, rest = first_char(st, cn)
        if c0 == '':
            return (), st.res(v)
        if c0.__class__ is str:
            S = 1 << chars.AT.atom(c0)
        else:
            S = st._image(c0.p[0])
            if S is None:
                raise Unsupported('search')
    else:
        if nd == '':
            return (), st.res(v)
        S = 1 << chars.AT.atom(nd[0])
    left = ()
    cur = st.res(v)
    while True:
        r = scan(st, cur, S)
        if r is None:
            return None
        l, c, rt = r
        left = concat_parts(left, l)
        whole = from_parts(concat_parts(parts_of(c), rt))
        if nd is not None and len(nd) == 1:
            return st.resp(left), rt
        ok, rem = startswith(st, whole, needle)
        if ok:
            return st.resp(left), rem
        left = concat_parts(left, parts_of(c))
        cur = st.resp(rt)


def rfind_parts(st, v, needle):
    nd = st.cval(needle)
    if nd is None:
        raise Unsupported('rfind of abstract needle')
    if nd == '':
        return st.res(v), ()
    r = find_parts(st, from_parts(rev_parts(st, st.res(v))), nd[::-1])
    if r is None:
        return None
    l, rt = r
    return rev_parts(st, st.resp(rt)), rev_parts(st, st.resp(l))


def replace(st, v, old, new, count=-1):
    o = st.cval(old)
    if o is None:
        raise Unsupported('replace of abstract text')
    n = st.cval(new) if new.__class__ is not str else new
    if len(o) == 1 and n is not None and count < 0:
        return apply_hom(st, v, hom_sub(1 << chars.AT.atom(o), n)) if o != n else v
    if o == '':
        raise Unsupported('replace of empty text')
    out = ()
    cur = from_parts(st.res(v))
    while count != 0:
        r = find_parts(st, cur, o)
        if r is None:
            break
        l, rt = r
        out = concat_parts(out, l, parts_of(new))
        cur = from_parts(rt)
        count -= 1
    return from_parts(st.resp(concat_parts(out, parts_of(cur))))


def split(st, v, sep, maxsplit=-1):
    out = []
    cur = from_parts(st.res(v))
    if sep is None:
        W = ws_mask()
        while True:
            cur = lstrip(st, cur, W)
            if cur == '':
                return out
            if maxsplit == 0:
                out.append(rstrip(st, cur, W))
                return out
            r = scan(st, st.res(cur), W)
            if r is None:
                out.append(cur)
                return out
            out.append(from_parts(st.resp(r[0])))
            cur = from_parts(r[2])
            maxsplit -= 1
    while maxsplit != 0:
        r = find_parts(st, cur, sep)
        if r is None:
            break
        out.append(from_parts(r[0]))
        cur = from_parts(r[1])
        maxsplit -= 1
    out.append(from_parts(st.res(cur)))
    return out


LINEENDS = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


def splitlines(st, v, keepends):
    S = chars.AT.cs(LINEENDS)
    out = []
    cur = st.res(v)
    while True:
        cur = st.resp(cur)
        if not cur:
            return out
        r = scan(st, cur, S)
        if r is None:
            s = from_parts(cur)
            if truthy_str(st, s):
                out.append(s)
            return out
        l, c, rt = r
        cc = c if c.__class__ is str else None
        if cc is None:
            isr = st.in_set(c.p[0], 1 << chars.AT.atom('\r'))
        else:
            isr = cc == '\r'
        if isr:
            ok, rem = startswith(st, from_parts(st.resp(rt)), '\n')
            if ok:
                c = cat(c, '\n')
                rt = rem
        out.append(from_parts(st.resp(concat_parts(l, parts_of(c) if keepends else ()))))
        cur = rt


def truthy_str(st, v):
    """non-empty?"""
    while True:
        parts = st.res(v)
        if not parts:
            return False
        for x in parts:
            if x.__class__ is str:
                return True
            sid, h, rev = x
            cs, lo, hi = st.info(sid)
            if lo >= 1 and (h is None or not (cs & (h.deleted | h.unk))):
                return True
        x = parts[0]
        sid, h, rev = x
        if h is not None and st.segs[sid][0] & h.deleted:
            r = st.split_run(sid, h.deleted)
            if r == 'stop':
                return True
            # all deleted
            continue
        if h is not None and st.segs[sid][0] & h.unk and st.info(sid)[1] >= 1:
            return True
        if st.need_nonempty(sid):
            return True
        n = st.res(v)
        if n == parts:
            v = from_parts(parts[1:])


def index(st, v, i):
    parts = st.res(v)
    if i.__class__ is int:
        if i >= 0:
            cur = parts
            k = i
            # skip quickly over constants
            while True:
                if not cur:
                    raise PyExc('IndexError', 'string index out of range')
                x = cur[0]
                if x.__class__ is str:
                    if k < len(x):
                        return x[k]
                    k -= len(x)
                    cur = cur[1:]
                    continue
                sid, h, rev = x
                if st.hom_flat(x):
                    cs, lo, hi = st.info(sid)
                    if lo == hi == 1:
                        if k == 0:
                            return AStr((x,))
                        k -= 1
                        cur = cur[1:]
                        continue
                c, cur2 = first_char(st, cur)
                if c == '':
                    raise PyExc('IndexError', 'string index out of range')
                if k == 0:
                    return c
                k -= 1
                cur = st.resp(cur2)
        else:
            cur = parts
            for _ in range(-i - 1):
                c, cur = first_char(st, cur, True)
                if c == '':
                    raise PyExc('IndexError', 'string index out of range')
                cur = st.resp(cur)
            c, cur = first_char(st, cur, True)
            if c == '':
                raise PyExc('IndexError', 'string index out of range')
            return c
    # abstract index
    n = st.length(v)
    if not st.decide_ge0(i, 'index sign'):
        i = st.norm(add(i, n))
        if not st.decide_ge0(i, 'index sign'):
            raise PyExc('IndexError', 'string index out of range')
    if not st.decide_ge0(sub(sub(n, i), 1), 'index in range'):
        raise PyExc('IndexError', 'string index out of range')
    l, r = st.split_parts(st.res(v), i)
    c, _ = first_char(st, r)
    if c == '':
        raise Unsupported('index')
    return c


def take(st, parts, k):
    """split after min(k,len) chars, k concrete >= 0"""
    left = []
    cur = st.resp(parts)
    while k > 0 and cur:
        x = cur[0]
        if x.__class__ is str:
            if len(x) <= k:
                left.append(x)
                k -= len(x)
                cur = cur[1:]
                continue
            left.append(x[:k])
            cur = (x[k:],) + cur[1:]
            break
        sid, h, rev = x
        if st.hom_flat(x):
            cs, lo, hi = st.info(sid)
            if hi is not None and hi <= k and lo == hi:
                left.append(x)
                k -= hi
                cur = cur[1:]
                continue
            if k > 8:
                # large constant: split by length arithmetic
                n = st.norm(AInt(0, {sid: 1}))
                if st.decide_ge0(sub(k, n), 'slice length'):
                    n = st.norm(n)
                    left.append(x)
                    rest = cur[1:]
                    if n.__class__ is int:
                        k -= n
                        cur = st.resp(rest)
                        continue
                    if not rest:
                        return st.resp(tuple(left)), ()
                    # remaining length depends on the segment
                    l2, r2 = slice_split(st, rest, sub(k, n))
                    return st.resp(tuple(left) + l2), r2
                l, r = st.split_parts(cur, k)
                return st.resp(tuple(left) + l), r
        c, cur = first_char(st, cur)
        if c == '':
            break
        left.extend(parts_of(c))
        k -= 1
        cur = st.resp(cur)
    return st.resp(concat_parts(left)), cur


def slice_split(st, parts, n):
    """split at min(n, len), n >= 0 abstract"""
    n = st.norm(n)
    if n.__class__ is int:
        return take(st, parts, n)
    L = 0
    for x in parts:
        L = add(L, st.plen(x))
    if st.decide_ge0(sub(n, L), 'slice end'):
        return parts, ()
    return st.split_parts(st.resp(parts), n)


def slice_(st, v, a, b, c):
    if c is not None and c != 1:
        cv = st.cval(v)
        if cv is not None and a.__class__ in (int, type(None)) and b.__class__ in (int, type(None)):
            return cv[a:b:c]
        if c == -1 and a is None and b is None:
            return st.rv(AStr(rev_parts(st, st.res(v))))
        parts = st.res(v)
        if all(p.__class__ is str or (st.segs[p[0]][1] == st.segs[p[0]][2] == 1 and st.hom_flat(p)) for p in parts):
            units = []
            for p in parts:
                units.extend(list(p) if p.__class__ is str else [p])
            if a.__class__ in (int, type(None)) and b.__class__ in (int, type(None)):
                return from_parts(concat_parts(units[a:b:c]))
        if c == -1:
            # v[a:b:-1]
            n = st.length(v)
            if a is None:
                hi = n
            else:
                a = fix(st, a, n)
                hi = add(a, 1)
            lo = 0 if b is None else add(fix(st, b, n), 1)
            x = slice_(st, v, lo, hi, None)
            return st.rv(AStr(rev_parts(st, st.res(x)))) if x.__class__ is AStr else x[::-1]
        raise Unsupported('slice step')
    parts = st.res(v)
    a = 0 if a is None else a
    # negative concrete handling from the end
    def neg(x):
        return x.__class__ is int and x < 0
    if neg(a):
        r, l = take(st, rev_parts(st, parts), -a)
        # r: last -a chars reversed
        pre_len_parts = rev_parts(st, st.resp(l))
        tail = rev_parts(st, st.resp(r))
        if b is None:
            return from_parts(st.resp(tail))
        if neg(b):
            if b <= a:
                return ''
            r2, l2 = take(st, rev_parts(st, tail), -b)
            return from_parts(st.resp(rev_parts(st, st.resp(l2))))
        n = 0
        for x in pre_len_parts:
            n = add(n, st.plen(x))
        bb = st.norm(sub(b, n))
        if not st.decide_ge0(bb, 'slice end'):
            return ''
        return from_parts(slice_split(st, st.resp(tail), bb)[0])
    if neg(b):
        r, l = take(st, rev_parts(st, parts), -b)
        parts = rev_parts(st, st.resp(l))
        b = None
    if a.__class__ is AInt and not st.decide_ge0(a, 'slice start'):
        n = st.length(from_parts(parts))
        a = st.norm(add(a, n))
        if not st.decide_ge0(a, 'slice start'):
            a = 0
    a = st.norm(a)
    if b is not None and b.__class__ is AInt and not st.decide_ge0(b, 'slice end'):
        n = st.length(from_parts(parts))
        b = st.norm(add(b, n))
        if not st.decide_ge0(b, 'slice end'):
            b = 0
    if b is None:
        if a.__class__ is int and a == 0:
            return from_parts(parts)
        return from_parts(slice_split(st, parts, a)[1])
    b = st.norm(b)
    if b.__class__ is int and a.__class__ is int and b <= a:
        return ''
    if not (b.__class__ is int and a.__class__ is int):
        if not st.decide_ge0(sub(b, a), 'slice bounds'):
            return ''
    if a.__class__ is int and a == 0:
        return from_parts(slice_split(st, parts, b)[0])
    l, r = slice_split(st, parts, a)
    return from_parts(slice_split(st, st.resp(r), st.norm(sub(b, a)))[0])


def fix(st, a, n):
    if a.__class__ is int and a >= 0:
        return a
    if a.__class__ is int or not st.decide_ge0(a, 'slice bound'):
        a = st.norm(add(a, n))
    return a


def all_in(st, v, S):
    """(nonempty and) every char in S; returns None if empty"""
    r = scan(st, st.res(v), ~S & chars.AT.FULL)
    if r is not None:
        return False
    return True if truthy_str(st, v) else None


def order(st, a, b):
    """three-way lexicographic comparison -1/0/1 (forks)"""
    A = chars.AT
    pa, pb = st.res(a), st.res(b)
    while True:
        while pa and pb and pa[0] == pb[0]:
            pa, pb = pa[1:], pb[1:]
        if not pa and not pb:
            return 0
        if not pa:
            return -1 if truthy_str(st, from_parts(pb)) else 0
        if not pb:
            return 1 if truthy_str(st, from_parts(pa)) else 0
        ca, ra = first_char(st, pa)
        pb = st.resp(pb)
        cb, rb = first_char(st, pb)
        if ca == '' or cb == '':
            if ca == '' and cb == '':
                return 0
            return -1 if ca == '' else 1
        if ca.__class__ is str and cb.__class__ is str:
            if ca != cb:
                return -1 if ca < cb else 1
        elif ca.__class__ is AStr and cb.__class__ is AStr:
            if not st.eq(ca, cb):
                raise Unsupported('ordering of abstract chars')
        else:
            k, p, sg = (ord(cb), ca.p[0], 1) if cb.__class__ is str else (ord(ca), cb.p[0], -1)
            less = A.pred(('lt', k), lambda c: ord(c) < k)
            eqm = 1 << A.atom(chr(k))
            if st.in_set(p, eqm):
                pass
            elif st.in_set(p, less):
                return -sg
            else:
                return sg
        pa, pb = st.resp(ra), st.resp(rb)
