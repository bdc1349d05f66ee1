"""C11 numbering of ordered lists."""
from specs.docs import *
ANCHORS = ['md_toc.api.increase_index_ordered_list', 'md_toc.api.build_toc']
MAX = 999999999


def c_step(parser, cur):
    """one step of the counters from arbitrary counts"""
    prev = anyint(0, 6)
    count = {}
    run(api.increase_index_ordered_list, count, 0, cur, parser)
    assume(count == {'h%d' % cur: 1})         # the counters are laid out as documented
    count = {}
    n = anyint(1, MAX)
    other = anyint(0, MAX)
    has = choice(True, False)
    if has:
        count['h%d' % cur] = n
    for l in range(1, 7):
        if l != cur:
            count['h%d' % l] = other
    note('case', (cur, prev, has, n))
    r = run(api.increase_index_ordered_list, count, prev, cur, parser)
    if has and (prev == 0 or prev >= cur):
        w = n + 1
    else:
        w = 1
    if w > MAX and parser != 'redcarpet':
        check(r == ('exc', 'GithubOverflowOrderedListMarker'), 'numbers over nine digits are refused', r)
        return
    check(r[0] == 'ok', 'raised', r)
    check(count['h%d' % cur] == w, 'number', count['h%d' % cur], w)
    for l in range(1, 7):
        if l < cur:
            check(count['h%d' % l] == other, 'the counters of outer lists are untouched', l)


def c_bad(parser):
    r = run(api.increase_index_ordered_list, {}, anyint(-5, -1), 1, parser)
    check(r == ('exc', 'ValueError'), 'negative previous level', r)
    r = run(api.increase_index_ordered_list, {}, 1, anyint(-5, 0), parser)
    check(r == ('exc', 'ValueError'), 'current level below one', r)


def c_seq(parser, n, flat):
    lines = []
    for i in range(n):
        lines.append(star('[#]', 1, 6) + ' ' + 'abcdefgh'[i])
    note('lines', tuple(lines))
    agree(lines, parser, keep=6, no_links=True, no_list_coherence=True, no_indentation=flat, ordered=True, marker='.', slug=lambda t, p: t)


def c_restart(parser):
    """numbering restarts in every sub list and goes on after it"""
    lines = ['# a'] + ['## b'] * choice(1, 2, 9, 10) + ['### c'] * choice(0, 1, 2) + ['## d'] * choice(0, 1) + ['# e'] + ['## f'] * choice(1, 3) + ['# g']
    agree(lines, parser, keep=6, no_links=True, ordered=True, marker='.', no_indentation=choice(False, True), slug=lambda t, p: t)


def c_const(parser):
    lines = [star('[#]', 1, 3) + ' a', star('[#]', 1, 3) + ' b', star('[#]', 1, 3) + ' c'] + ['# d'] * choice(0, 12)
    note('lines', tuple(lines[:3]))
    agree(lines, parser, keep=6, no_links=True, constant=True, ordered=choice(False, True), marker=choice('.', '-'),
          no_list_coherence=True, slug=lambda t, p: t)


def c_far(parser):
    """long lists"""
    n = choice(9, 10, 99, 100, 128, 256, 999, 1000, 1100)
    f = choice(True, False) if n < 900 else False
    d = choice(1, 2) if n < 900 else 1
    lines = ['# a'] if d == 2 else []
    lines = lines + ['#' * d + ' a'] * n + ['#' * (d + 1) + ' b', '#' * d + ' c', '#' * (d + 1) + ' b']
    agree(lines, parser, keep=6, no_links=True, ordered=True, marker=choice('.', ')') if parser != 'redcarpet' else '.', no_indentation=f, slug=lambda t, p: t)


def c_often(parser):
    """many sub lists"""
    n = choice(10, 33, 64, 130)
    lines = []
    for i in range(n):
        lines += ['# a', '## b', '### c', '## d']
    agree(lines, parser, keep=6, no_links=True, ordered=True, marker='.', no_indentation=choice(True, False), slug=lambda t, p: t)


def c_options(parser):
    lines = [star('[#]', 1, 6) + ' b', star('[#]', 1, 6) + ' a', star('[#]', 1, 6) + ' a']
    note('lines', tuple(lines))
    agree(lines, parser, keep=choice(2, 6), no_links=choice(False, True), no_indentation=choice(False, True), no_list_coherence=choice(False, True),
          ordered=True, constant=choice(False, True), marker=choice('.', ')') if parser != 'redcarpet' else '.', slug=lambda t, p: t)


CASES = []
for p in ALL:
    for c in range(1, 7):
        CASES.append(('step %s %d' % (p, c), c_step, p, c))
    CASES.append(('bad %s' % p, c_bad, p))
    for n in (1, 2, 3):
        CASES.append(('sequence %s %d' % (p, n), c_seq, p, n, False))
    CASES.append(('sequence flat %s' % p, c_seq, p, 3, True))
    CASES.append(('+sequence %s 4' % p, c_seq, p, 4, False))
    CASES.append(('restart %s' % p, c_restart, p))
    CASES.append(('constant %s' % p, c_const, p))
    CASES.append(('far %s' % p, c_far, p))
    CASES.append(('often %s' % p, c_often, p))
    CASES.append(('options %s' % p, c_options, p))
