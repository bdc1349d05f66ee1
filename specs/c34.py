"""C34 removing marked positions of a line removes these and no others."""
from specs.docs import *
ANCHORS = ['md_toc.api.filter_indices_from_line']


def c_ranges(k):
    s = note('line', star('[^\n\r]', k, k))
    rs = []
    gone = []
    for j in range(choice(0, 1, 2)):
        a = choice(0, 1, 2, 3)
        b = a + choice(0, 1, 2)
        rs.append(range(a, b))
        gone.extend(range(a, b))
    note('ranges', tuple((r.start, r.stop) for r in rs))
    w = ''
    for i in range(k):
        if i not in gone:
            w += s[i]
    r = run(api.filter_indices_from_line, s, rs)
    check(r == ('ok', w), 'rest of the line', r, w)


def c_long():
    n = anyint(0, 40)
    s = star('[a]', 10, 10) + star('[b]', 0, 10) + 'c'
    r = run(api.filter_indices_from_line, s, [range(0, 10)])
    check(r == ('ok', s[10:]), 'rest of the line', r)
    r = run(api.filter_indices_from_line, s, choice([], [range(3, 3)], [range(50, 60)]))
    check(r == ('ok', s), 'nothing to remove', r)


def c_many():
    """very many ranges, in any order"""
    n = choice(40, 150)
    up = choice(True, False)
    s = 'ab' * n + star('[^\n\r]', 0, 2)
    rs = [range(2 * i, 2 * i + 1) for i in range(n)]
    if not up:
        rs = rs[::-1]
    r = run(api.filter_indices_from_line, s, rs)
    check(r == ('ok', 'b' * n + s[2 * n:]), 'rest of the line', r)


def c_wide():
    """ranges far into a long line"""
    a = choice(99, 255, 256, 300, 1000)
    s = 'x' * a + star('[^\n\r]', 3, 3)
    r = run(api.filter_indices_from_line, s, [range(a, a + 1)])
    check(r == ('ok', 'x' * a + s[a + 1:]), 'rest of the line', r)
    r = run(api.filter_indices_from_line, s, [range(0, a)])
    check(r == ('ok', s[a:]), 'rest of the line', r)


def c_over():
    """ranges that overlap, repeat, touch, are empty or reach beyond the end"""
    n = choice(6, 10)
    s = note('line', 'abcdefghijkl'[:n - 2] + star('[^\n\r]', 2, 2))
    rs = choice([range(0, 3), range(2, 5)], [range(1, 2)] * 3, [range(0, 2), range(2, 4)], [range(3, 3), range(1, 2)], [range(4, n + 5)], [range(2, 4), range(0, n)],
                [range(n - 1, n), range(0, 1)], [range(0, 1), range(2, 3), range(4, 5), range(1, 2)], [range(1, 5), range(2, 3), range(4, 6)], [range(n, n + 1)], [range(0, n)])
    w = ''
    for i in range(n):
        hit = False
        for q in rs:
            if q.start <= i < q.stop:
                hit = True
        if not hit:
            w += s[i]
    r = run(api.filter_indices_from_line, s, rs)
    check(r == ('ok', w), 'rest of the line', r, w)


CASES = [('overlaps', c_over), ('many', c_many), ('wide', c_wide)]
CASES += [('ranges %d' % k, c_ranges, k) for k in range(0, 5)] + [('long', c_long)] + [('+ranges 6', c_ranges, 6)]
