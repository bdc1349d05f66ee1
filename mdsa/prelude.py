# Helpers interpreted by the abstract machine (library functions that call back into analysed code).


def _not_call(fn, *a):
    return not fn(*a)


def _cmpkey(fn, a, b, op):
    r = fn(a, b)
    if op == '<':
        return r < 0
    if op == '<=':
        return r <= 0
    if op == '>':
        return r > 0
    if op == '>=':
        return r >= 0
    if op == '==':
        return r == 0
    return r != 0


def _contains(c, x):
    for y in c:
        if y is x or y == x:
            return True
    return False


def _list_extend(l, it):
    for x in it:
        l.append(x)


def _list_iadd(l, it):
    for x in it:
        l.append(x)
    return l


def _to_list(it):
    r = []
    for x in it:
        r.append(x)
    return r


def _call_star(_fn, _it, /, **_k):
    return _fn(*_to_list(_it), **_k)


def _via_list(fn, it, *a, **k):
    r = []
    for x in it:
        r.append(x)
    return fn(r, *a, **k)


def _dd_missing(d, k, factory):
    v = factory()
    d[k] = v
    return v


def _enumerate(it, n):
    for x in it:
        yield (n, x)
        n += 1


def _zip(*its):
    its = [iter(i) for i in its]
    if not its:
        return
    while True:
        out = []
        for i in its:
            try:
                out.append(next(i))
            except StopIteration:
                return
        yield tuple(out)


def _zip_strict(*its):
    ls = [list(i) for i in its]
    for l in ls:
        if len(l) != len(ls[0]):
            raise ValueError('zip() argument 2 has a different length than argument 1')
    n = len(ls[0]) if ls else 0
    for i in range(n):
        yield tuple([l[i] for l in ls])


def _map(fn, it):
    for x in it:
        yield fn(x)


def _mapn(fn, *its):
    for a in zip(*its):
        yield fn(*a)


def _filter(fn, it):
    if fn is None:
        for x in it:
            if x:
                yield x
    else:
        for x in it:
            if fn(x):
                yield x


def _iter_sentinel(fn, s):
    while True:
        x = fn()
        if x == s:
            return
        yield x


def _next_default(fn, it, d):
    try:
        return fn(it)
    except StopIteration:
        return d


def _any(it):
    for x in it:
        if x:
            return True
    return False


def _all(it):
    for x in it:
        if not x:
            return False
    return True


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _min_key(items, key, default):
    if not items:
        raise ValueError('min() arg is an empty sequence')
    best = items[0]
    bk = key(best)
    for x in items[1:]:
        k = key(x)
        if k < bk:
            best = x
            bk = k
    return best


def _max_key(items, key, default):
    if not items:
        raise ValueError('max() arg is an empty sequence')
    best = items[0]
    bk = key(best)
    for x in items[1:]:
        k = key(x)
        if k > bk:
            best = x
            bk = k
    return best


def _sorted_key(items, key, rev):
    out = []
    for x in items:
        k = key(x)
        i = len(out)
        while i > 0 and ((out[i - 1][0] < k) if rev else (k < out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    return [x for k, x in out]


def _sort_key(l, key, rev):
    r = _sorted_key(list(l), key, rev)
    l[:] = r


def _print_str(*args, **kw):
    return print(*[str(a) for a in args], **kw)


def _join(sep, it):
    return sep.join(_to_list(it))


def _chain_from_iterable(its):
    for it in its:
        for x in it:
            yield x


def _chain(*its):
    for it in its:
        for x in it:
            yield x


def _counter_update(c, it):
    for x in it:
        c[x] = c.get(x, 0) + 1


def _dict_update(d, it):
    for k, v in it:
        d[k] = v


def _reduce(fn, it, *init):
    l = list(it)
    if init:
        acc = init[0]
    else:
        if not l:
            raise TypeError('reduce() of empty iterable with no initial value')
        acc = l[0]
        l = l[1:]
    for x in l:
        acc = fn(acc, x)
    return acc


def _takewhile(fn, it):
    for x in it:
        if not fn(x):
            return
        yield x


def _dropwhile(fn, it):
    drop = True
    for x in it:
        if drop and fn(x):
            continue
        drop = False
        yield x


def _islice(it, a, b, c):
    i = 0
    nxt = a
    if b is not None and b <= a and b == 0:
        return
    for x in it:
        if b is not None and i >= b:
            return
        if i == nxt:
            yield x
            nxt += c
        i += 1
        if b is not None and i >= b:
            return


def _count(a, s):
    while True:
        yield a
        a += s


def _repeat(x, n):
    if n is None:
        while True:
            yield x
    for _ in range(n):
        yield x


def _accumulate(it, fn, init):
    first = True
    acc = init
    if init is not None:
        yield init
        first = False
    for x in it:
        if first:
            acc = x
            first = False
        elif fn is None:
            acc = acc + x
        else:
            acc = fn(acc, x)
        yield acc


def _starmap(fn, it):
    for a in it:
        yield fn(*a)


def _filterfalse(fn, it):
    for x in it:
        if fn is None:
            if not x:
                yield x
        elif not fn(x):
            yield x


def _zip_longest(its, fill):
    ls = [list(i) for i in its]
    n = 0
    for l in ls:
        if len(l) > n:
            n = len(l)
    for i in range(n):
        yield tuple([(l[i] if i < len(l) else fill) for l in ls])


def _pairwise(it):
    first = True
    prev = None
    for x in it:
        if not first:
            yield (prev, x)
        prev = x
        first = False


def _groupby(it, key):
    l = list(it)
    i = 0
    while i < len(l):
        k = l[i] if key is None else key(l[i])
        g = [l[i]]
        i += 1
        while i < len(l) and (l[i] if key is None else key(l[i])) == k:
            g.append(l[i])
            i += 1
        yield (k, iter(g))


def _product(its):
    if not its:
        yield ()
        return
    head = list(its[0])
    for x in head:
        for r in _product(its[1:]):
            yield (x,) + r


def _lru(fn, cache, a, key):
    if key in cache:
        return cache[key]
    r = fn(*a)
    cache[key] = r
    return r


def _sub_callback(p, fn, s, count, subn):
    # p.finditer-based substitution with a function replacement
    out = []
    pos = 0
    n = 0
    for m in p.finditer(s):
        if count and n >= count:
            break
        out.append(s[pos:m.start()])
        out.append(fn(m))
        pos = m.end()
        n += 1
    out.append(s[pos:])
    r = ''.join(out)
    return (r, n) if subn else r


class _Suppress:
    def __init__(self, *excs):
        self._excs = excs

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self._excs)


class _NullContext:
    def __init__(self, enter_result=None):
        self._r = enter_result

    def __enter__(self):
        return self._r

    def __exit__(self, *a):
        return None


class _Closing:
    def __init__(self, thing):
        self._t = thing

    def __enter__(self):
        return self._t

    def __exit__(self, *a):
        self._t.close()


class _GCM:
    def __init__(self, gen):
        self._g = gen

    def __enter__(self):
        return next(self._g)

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self._g)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self._g.throw(v)
        except StopIteration:
            return True
        return False


def _contextmanager(fn):
    def helper(*a, **k):
        return _GCM(fn(*a, **k))
    return helper


class _ExitStack:
    def __init__(self):
        self._s = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        r = cm.__enter__()
        self._s.append(cm.__exit__)
        return r

    def callback(self, fn, *a, **k):
        def f(t, v, tb):
            fn(*a, **k)
            return False
        self._s.append(f)
        return fn

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, v, tb):
        sup = False
        while self._s:
            f = self._s.pop()
            if f(t, v, tb):
                sup = True
                t = v = tb = None
        return sup


class _Environ:
    """the environment of the process: what a variable holds is up to the caller (see probe.wild)"""
    def __init__(self):
        self._d = {'PATH': '/usr/bin'}

    def get(self, key, default=None):
        if key in self._d:
            return self._d[key]
        v = _env(key)
        return default if v is None else v

    def __getitem__(self, key):
        v = self.get(key)
        if v is None:
            raise KeyError(key)
        return v

    def __contains__(self, key):
        return self.get(key) is not None

    def __setitem__(self, key, value):
        self._d[key] = value

    def setdefault(self, key, value):
        v = self.get(key)
        if v is None:
            self._d[key] = v = value
        return v

    def copy(self):
        return dict(self._d)

    def keys(self):
        return self._d.keys()

    def items(self):
        return self._d.items()

    def __iter__(self):
        return iter(self._d)


_environ = _Environ()
_getenv = _environ.get


class _StringIO:
    def __init__(self, initial_value='', newline='\n'):
        self._v = initial_value
        self._p = 0
        self.closed = False

    def write(self, s):
        if self._p < len(self._v):
            self._v = self._v[:self._p] + s + self._v[self._p + len(s):]
            self._p = self._p + len(s)
        else:
            self._v = self._v[:self._p] + s
            self._p = len(self._v)
        return len(s)

    def getvalue(self):
        return self._v

    def read(self, n=-1):
        r = self._v[self._p:]
        if n is not None and n >= 0:
            r = r[:n]
        self._p = self._p + len(r)
        return r

    def readline(self, n=-1):
        r = self._v[self._p:]
        i = r.find('\n')
        if i >= 0:
            r = r[:i + 1]
        if n is not None and n >= 0:
            r = r[:n]
        self._p = self._p + len(r)
        return r

    def readlines(self):
        return list(self)

    def seek(self, p, w=0):
        self._p = p
        return p

    def tell(self):
        return self._p

    def close(self):
        self.closed = True

    def flush(self):
        return None

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
