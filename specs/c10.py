"""C10 indentation nests every entry under its parent."""
from specs.docs import *
ANCHORS = ['md_toc.api.compute_toc_line_indentation_spaces', 'md_toc.api.build_toc', 'md_toc.api.build_toc_line']


def opts(parser, kind):
    if kind == 'u':
        return dict(marker=choice('-', '+', '*'))
    if kind == 'o':
        return dict(ordered=True, marker=choice('.', ')') if parser != 'redcarpet' else '.')
    return dict(constant=True, marker=choice('.', '-'))


def c_seq(parser, kind, n):
    lines = []
    for i in range(n):
        lines.append(star('[#]', 1, 6) + ' ' + 'abcdefgh'[i])
    note('lines', tuple(lines))
    agree(lines, parser, keep=6, no_links=True, no_list_coherence=choice(False, True), slug=lambda t, p: t, **opts(parser, kind))


def c_sib(parser, kind):
    """many siblings before a nested entry: the width of the number counts"""
    k = choice(1, 8, 9, 10, 11, 12)
    a = choice('#', '##')
    lines = [a + ' a'] * k + [a + '# b', a + '# c', a + '## d', a + ' e', a + '# f']
    agree(lines, parser, keep=6, no_links=True, slug=lambda t, p: t, **opts(parser, kind))


def c_sub(parser, kind):
    k = choice(9, 10)
    lines = ['# a'] + ['## b'] * k + ['### c', '### d', '#### e', '## f', '### g', '# h', '## i', '### j']
    agree(lines, parser, keep=6, no_links=True, slug=lambda t, p: t, **opts(parser, kind))


def c_hundred(parser):
    lines = ['# a'] * choice(99, 100) + ['## b', '### c']
    agree(lines, parser, keep=6, no_links=True, slug=lambda t, p: t, ordered=True, marker='.')


def c_flat(parser, kind):
    lines = []
    for i in range(3):
        lines.append(star('[#]', 1, 6) + ' ' + 'abcdefgh'[i])
    note('lines', tuple(lines))
    agree(lines, parser, keep=6, no_links=True, no_indentation=True, slug=lambda t, p: t, **opts(parser, kind))


def c_step(parser):
    """one step from an arbitrary table of open list items"""
    cur = anyint(1, 6)
    prev = anyint(1, 6)
    marker = choice('.', ')') if parser != 'redcarpet' else '.'
    try:
        log = api.init_indentation_log(parser, marker)
        api.compute_toc_line_indentation_spaces(1, 1, parser, True, marker, log, 7)
        fit = (parser == 'redcarpet' or log[1]['index'] == 7) and log[1]['indentation_spaces'] == 0
        api.compute_toc_line_indentation_spaces(2, 1, parser, True, marker, log, 1)
        fit = fit and log[2]['indentation_spaces'] == (4 if parser == 'redcarpet' else 3)
        log = api.init_indentation_log(parser, marker)
    except (KeyError, TypeError, AttributeError, IndexError):
        fit = False
    assume(fit)         # the table is laid out as documented
    ind = anyint(0, 60)
    idx = choice(0, 1, 9, 10, 99, 123456789)
    at = anyint(0, 60)
    log[prev]['indentation_spaces'] = ind
    log[prev]['index'] = idx
    if cur != prev:
        log[cur]['indentation_spaces'] = at
    else:
        at = ind
    r = run(api.compute_toc_line_indentation_spaces, cur, prev, parser, True, marker, log, choice(1, 10))
    check(r[0] == 'ok', 'raised', r)
    got = log[cur]['indentation_spaces']
    if parser == 'redcarpet':
        w = 4 * (cur - 1)
    elif cur > prev:
        w = ind + len(str(idx)) + 2
    else:
        w = at
    check(got == w, 'indentation', got, w)


def c_line(parser):
    n = anyint(0, 200)
    t = star('[^\n\r ]', 1, 8)
    r = run(api.build_toc_line, t, n)
    check(r[0] == 'ok', 'raised', r)
    check(len(r[1]) == n + len(t) and r[1].lstrip(' ') == t, 'line', r, n, t)
    m = anyint(-9, -1)
    r = run(api.build_toc_line, t, m)
    check(r == ('exc', 'ValueError'), 'negative', r)


def c_far(parser, kind):
    """nesting after many siblings: numbers of one to four digits"""
    n = choice(9, 10, 98, 99, 100, 101, 256) if kind != 'o' or choice(False, True) else choice(998, 999, 1000, 1001)
    d = choice(1, 2) if n < 900 else 1
    lines = ['# a'] if d == 2 else []
    lines = lines + ['#' * d + ' a'] * n + ['#' * (d + 1) + ' b', '#' * (d + 2) + ' c', '#' * (d + 1) + ' b', '#' * d + ' e', '#' * (d + 1) + ' f']
    agree(lines, parser, keep=6, no_links=True, slug=lambda t, p: t, **opts(parser, kind))


def c_tree(parser, kind):
    """lists of different widths at every level, left and entered again"""
    a, b, c = choice(1, 9, 10), choice(1, 9, 10, 11), choice(1, 10)
    lines = ['# a'] * a + ['## b'] * b + ['### c'] * c + ['#### d', '##### e', '###### f', '#### d', '### c', '#### g', '## b', '### h', '# a', '## i', '### j', '#### k']
    agree(lines, parser, keep=6, no_links=True, slug=lambda t, p: t, **opts(parser, kind))


def c_options(parser):
    lines = ['# a', star('[#]', 1, 6) + ' b', star('[#]', 1, 6) + ' a']
    note('lines', tuple(lines))
    agree(lines, parser, keep=choice(2, 6), no_links=choice(False, True), no_indentation=choice(False, True), no_list_coherence=choice(False, True),
          slug=lambda t, p: t, **opts(parser, choice('u', 'o', 'c')))


CASES = []
for p in ALL:
    for kind in 'uoc':
        for n in (1, 2, 3):
            CASES.append(('sequence %s %s %d' % (p, kind, n), c_seq, p, kind, n))
        CASES.append(('+sequence %s %s 4' % (p, kind), c_seq, p, kind, 4))
        CASES.append(('siblings %s %s' % (p, kind), c_sib, p, kind))
        CASES.append(('sub list %s %s' % (p, kind), c_sub, p, kind))
        CASES.append(('flat %s %s' % (p, kind), c_flat, p, kind))
    CASES.append(('hundred %s' % p, c_hundred, p))
    CASES.append(('options %s' % p, c_options, p))
    for kind in 'uoc':
        CASES.append(('far %s %s' % (p, kind), c_far, p, kind))
        CASES.append(('tree %s %s' % (p, kind), c_tree, p, kind))
    CASES.append(('step %s' % p, c_step, p))
CASES.append(('line', c_line, 'github'))
