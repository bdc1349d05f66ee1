"""C31 strings of several lines are treated line by line."""
from specs.docs import *
ANCHORS = ['md_toc.api.get_md_header', 'md_toc.api.get_atx_heading', 'md_toc.api.replace_and_split_newlines']

LINES = ('# a', '## b ##', '#### d', '####### e', '#', 'x', '#c', '    # f', '', '# [g]', ' # h\\')


def c_heads(parser, n, links):
    nl = choice('\n', '\r\n', '\r')
    lines = []
    for i in range(n):
        lines.append(choice(*LINES))
    assume(lines[0] != '' and lines[-1] != '')
    s = nl.join(lines) + choice('', nl)
    note('string', s)
    want = ('ok', [])
    for l in lines:
        r = run(api.get_atx_heading, l, 3, parser, links)
        if r[0] != 'ok':
            want = r
            break
        want[1].extend(r[1])
    r = run(api.get_atx_heading, s, 3, parser, links)
    check(r == want, 'headings', r, want)


def c_md(parser, n):
    lines = []
    for i in range(n):
        lines.append(choice('# a', '## b', '#### a', 'x', '# A', '#c'))
    s = choice('\n', '\r\n', '\r').join(lines)
    note('string', s)
    d, e = {}, {}
    want = []
    for l in lines:
        want.extend(api.get_md_header(l, e, 3, parser))
    r = run(api.get_md_header, s, d, 3, parser)
    check(r == ('ok', want), 'headings', r, want)


def c_split():
    k = choice(1, 2, 3)
    w = []
    s = choice('', '\n', '\r\n\n')
    for i in range(k):
        l = 'x' + star('[^\n\r]', 0, 2) + choice('', ' ', '\t')
        w.append(l)
        s += ('' if i == 0 else choice('\n', '\r\n', '\r')) + l
    s += choice('', '\n', '\r', '\r\n', '\n\n')
    note('string', s)
    r = run(api.replace_and_split_newlines, s)
    check(r == ('ok', w), 'lines', r, w)


def c_count(parser):
    """as many results as lines"""
    k = choice(1, 5, 20, 65, 120)
    r = run(api.get_md_header, '# a\n' * k, {}, 3, parser)
    check(r[0] == 'ok' and len(r[1]) == k, 'one result per line', r)
    for h in r[1]:
        check(h is not None and h['visible'] is True and h['header_type'] == 1, 'heading', h)


def c_mid(parser):
    """one heading among many other lines"""
    k = choice(1, 7, 33, 64, 101)
    a = choice(0, 1, k // 2, k)
    s = 'x\n' * a + choice('# h', '# h #', '#  h') + '\nx' * (k - a)
    r = run(api.get_atx_heading, s, 3, parser, True)
    check(r[0] == 'ok' and len(r[1]) == k + 1, 'one result per line', r)
    for i in range(k + 1):
        if i == a:
            check(r[1][i] == {'header_type': 1, 'header_text_trimmed': 'h', 'visible': True}, 'heading', r[1][i])
        else:
            check(r[1][i] == {'header_type': None, 'header_text_trimmed': None, 'visible': False}, 'other line', r[1][i])


def c_blank(parser):
    """blank lines between the others are lines too, however many; those at both ends are not"""
    n = choice(1, 2, 3, 9, 20, 70)
    nl = choice('\n', '\r\n', '\r')
    rows = choice([''], ['', ''], ['x', ''], ['', '# b'], [' ', '']) * n
    lines = ['# a'] + rows + ['# c']
    s = choice('', nl, nl * 3) + nl.join(lines) + choice('', nl, nl * n)
    note('string', s)
    r = run(api.replace_and_split_newlines, s)
    check(r == ('ok', lines), 'lines', r, lines)
    want = []
    for l in lines:
        want.extend(api.get_atx_heading(l, 3, parser, True))
    r = run(api.get_atx_heading, s, 3, parser, True)
    check(r == ('ok', want), 'one result per line', r, want)


def c_mixed(parser):
    """the conventions may be mixed"""
    a, b, c = choice('\n', '\r\n', '\r'), choice('\n', '\r\n', '\r'), choice('\n', '\r\n', '\r')
    lines = ['# a', choice('x', '#### b', '# [b]'), choice('c', '## c'), '# d']
    s = lines[0] + a + lines[1] + b + lines[2] + c + lines[3]
    note('string', s)
    want = []
    for l in lines:
        want.extend(api.get_atx_heading(l, 3, parser, False))
    r = run(api.get_atx_heading, s, 3, parser, False)
    check(r == ('ok', want), 'one result per line', r, want)


def c_levels(parser):
    """the limit of the levels applies to every line"""
    k = choice(1, 2, 3, 4, 5, 6)
    r = run(api.get_atx_heading, '\n'.join(['#' * i + ' x' for i in range(1, 7)]), k, parser, True)
    check(r[0] == 'ok' and [h['header_type'] for h in r[1]] == [1, 2, 3, 4, 5, 6], 'levels', r)
    check([h['visible'] for h in r[1]] == [i <= k for i in range(1, 7)], 'shown up to the limit', r, k)


def c_anchor(parser):
    """an anchor is made of one line"""
    t = star('[^\n\r]', 0, 2)
    r = run(api.build_anchor_link, 'a' + t + choice('\n', '\r', '\r\n', '\n\n') + 'b', {}, parser)
    check(r == ('exc', 'StringCannotContainNewlines'), 'refused', r)


CASES = [('split', c_split)]
for p in ALL:
    for n in (1, 2):
        for links in (True, False):
            CASES.append(('headings %s %d %s' % (p, n, 'text' if links else 'links'), c_heads, p, n, links))
    CASES.append(('%sheadings %s 3' % ('' if p in ('github', 'gitlab', 'redcarpet') else '+', p), c_heads, p, 3, True))
    for n in (1, 2, 3):
        CASES.append(('md %s %d' % (p, n), c_md, p, n))
    CASES.append(('count ' + p, c_count, p))
    CASES.append(('anchor ' + p, c_anchor, p))
    CASES.append(('mid ' + p, c_mid, p))
    CASES.append(('levels ' + p, c_levels, p))
    CASES.append(('blank ' + p, c_blank, p))
    CASES.append(('mixed ' + p, c_mixed, p))
