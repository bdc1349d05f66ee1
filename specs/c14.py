"""C14 duplicate anchors are numbered apart (CommonMark family)."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_anchor_link', 'md_toc.api.build_toc']


def c_pair(parser, k):
    """two arbitrary texts: the second is numbered exactly when the anchors coincide"""
    a = note('a', star('[a-bA .!-]', k, k))
    b = note('b', star('[a-bA .!-]', k, k))
    d = {}
    r1 = run(api.build_anchor_link, a, d, parser)
    r2 = run(api.build_anchor_link, b, d, parser)
    sa, sb = ref.ref_slug(a, parser), ref.ref_slug(b, parser)
    check(r1 == ('ok', sa), 'first', r1, sa)
    w = sb + '-1' if sa == sb else sb
    check(r2 == ('ok', w), 'second', r2, w)


def c_count(parser, n):
    """the n-th repetition gets the suffix n, whatever is in between"""
    d = {}
    for i in range(n):
        r = run(api.build_anchor_link, choice('A b', 'a b', 'a b.') if i == 1 else 'a b', d, parser)
        check(r == ('ok', 'a-b' if i == 0 else 'a-b-' + str(i)), 'repetition', r, i)
        if i % 3 == 0:
            o = run(api.build_anchor_link, 'other%d' % i, d, parser)
            check(o == ('ok', 'other%d' % i), 'other', o)


def c_step(parser):
    """inductive step: from any count"""
    d = {}
    run(api.build_anchor_link, 'a', d, parser)
    ks = list(d.keys())
    assume(len(ks) == 1 and d[ks[0]] == 1)
    run(api.build_anchor_link, 'a', d, parser)
    assume(d[ks[0]] == 2)
    n = anyint(1, 10**9)
    d[ks[0]] = n
    r = run(api.build_anchor_link, 'a', d, parser)
    check(r == ('ok', 'a-' + str(n)), 'suffix', r, n)
    check(d[ks[0]] == n + 1, 'count', d[ks[0]])


def c_doc(parser):
    """repetitions at any level, visible or not"""
    lines = [star('[#]', 1, 6) + ' Dup', '# other', star('[#]', 1, 6) + ' dup', star('[#]', 1, 6) + choice(' dup.', ' dup', ' dup 1', ' Dup!')]
    note('lines', tuple(lines))
    agree(lines, parser, keep=3, no_list_coherence=True)


def c_fresh(parser):
    """counting starts afresh with every document"""
    mkfile('a.md', '# a\n# a\n')
    mkfile('b.md', '# a\n# b\n')
    r = run(api.build_multiple_tocs, ['a.md', 'b.md', 'a.md'], parser=parser)
    w = ['- [a](#a)\n- [a](#a-1)\n', '- [a](#a)\n- [b](#b)\n', '- [a](#a)\n- [a](#a-1)\n']
    check(r == ('ok', w), 'documents', r)


def c_unicode(parser):
    a = note('a', char(r'[^\n\r`\\&<*_\[\]!\u0130\u03a3]'))
    d = {}
    r1 = run(api.build_anchor_link, 'x' + a, d, parser)
    r2 = run(api.build_anchor_link, 'X' + a, d, parser)
    check(r1[0] == 'ok' and r2 == ('ok', r1[1] + '-1'), 'second', r1, r2)


def c_history(parser, n, k):
    """n anchors of one document, each among k texts and spellings: numbered by how often the same anchor came before"""
    d = {}
    seen = {}
    for i in range(n):
        t = choice(*['a', 'B', 'A.', 'a-1', 'b!', 'c'][:k])
        note('t%d' % i, t)
        s = ref.ref_slug(t, parser)
        c = seen.get(s, 0)
        seen[s] = c + 1
        w = s + '-' + str(c) if c else s
        r = run(api.build_anchor_link, t, d, parser)
        check(r == ('ok', w), 'anchor', r, w, i)


def c_many(parser):
    """many different headings, then each again"""
    n = choice(20, 70, 140, 300)
    d = {}
    for i in range(n):
        r = run(api.build_anchor_link, 'h%d' % i, d, parser)
        check(r == ('ok', 'h%d' % i), 'first', r)
    for i in (0, 1, n // 2, n - 1):
        for c in (1, 2, 3):
            r = run(api.build_anchor_link, choice('h%d', 'H%d') % i, d, parser)
            check(r == ('ok', 'h%d-%d' % (i, c)), 'again', r)


def c_longtext(parser):
    """long texts that differ in one place only, and long equal ones"""
    n = choice(5, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 700)
    p = choice('start', 'end', 'both', 'longer')
    x, y = choice('x', 'y', 'X'), choice('x', 'y', 'y.')
    if p == 'start':
        a, b = x + 'a' * n, y + 'a' * n
    elif p == 'end':
        a, b = 'a' * n + x, 'a' * n + y
    elif p == 'both':
        a, b = 'a' * n + x + 'b' * n, 'a' * n + y + 'b' * n
    else:
        a, b = 'a' * n, 'a' * n + choice('a', '', 'aa', ' ', '!')
    d = {}
    r1 = run(api.build_anchor_link, a, d, parser)
    r2 = run(api.build_anchor_link, b, d, parser)
    sa, sb = ref.ref_slug(a, parser), ref.ref_slug(b, parser)
    check(r1 == ('ok', sa), 'first', r1, sa)
    w = sb + '-1' if sa == sb else sb
    check(r2 == ('ok', w), 'second', r2, w)


def c_two_unicode(parser):
    """two arbitrary characters in the same place"""
    a = note('a', char(r'[^\n\r`\\&<*_\[\]!\u0130\u03a3]'))
    b = note('b', char(r'[^\n\r`\\&<*_\[\]!\u0130\u03a3]'))
    d = {}
    r1 = run(api.build_anchor_link, 'x' + a, d, parser)
    r2 = run(api.build_anchor_link, 'x' + b, d, parser)
    sa, sb = ref.ref_slug('x' + a, parser), ref.ref_slug('x' + b, parser)
    check(r1 == ('ok', sa), 'first', r1, sa)
    w = sb + '-1' if sa == sb else sb
    check(r2 == ('ok', w), 'second', r2, w)


def c_scripts(parser):
    """letters outside ASCII tell anchors apart"""
    L = ('\xe9', '\xe8', '\u65e5', '\u672c', '\u0414', '\U0001f600', '?', 'e')
    a, b = choice(*L), choice(*L)
    d = {}
    t, u = choice('', 'x') + a, choice('', 'x') + b
    note('texts', (t, u))
    r1 = run(api.build_anchor_link, t, d, parser)
    r2 = run(api.build_anchor_link, u, d, parser)
    sa, sb = ref.ref_slug(t, parser), ref.ref_slug(u, parser)
    check(r1 == ('ok', sa), 'first', r1, sa)
    w = sb + '-1' if sa == sb else sb
    check(r2 == ('ok', w), 'second', r2, w)


CASES = []
for p in CMARK:
    for k in (0, 1, 2, 3):
        CASES.append(('pair %s %d' % (p, k), c_pair, p, k))
    CASES.append(('count %s' % p, c_count, p, 13))
    CASES.append(('count more %s' % p, c_count, p, 120))
    CASES.append(('step %s' % p, c_step, p))
    CASES.append(('document %s' % p, c_doc, p))
    CASES.append(('fresh %s' % p, c_fresh, p))
    CASES.append(('unicode %s' % p, c_unicode, p))
    CASES.append(('history %s' % p, c_history, p, 4, 5))
    CASES.append(('+history %s' % p, c_history, p, 6, 5))
    CASES.append(('many %s' % p, c_many, p))
    CASES.append(('long texts %s' % p, c_longtext, p))
    CASES.append(('two characters %s' % p, c_two_unicode, p))
    CASES.append(('scripts %s' % p, c_scripts, p))
    CASES.append(('count far %s' % p, c_count, p, 1100))
