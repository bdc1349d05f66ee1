"""C33 the newline convention of the source does not matter."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc']


def c_conv(parser, n):
    lines = []
    for i in range(n):
        lines.append(choice('# a', '## b #', '```', '', 'x', '~~~') if i < 3 else '# z')
    o = choice(dict(no_list_coherence=True), dict(no_list_coherence=True, skip_lines=1))
    w = toc('\n'.join(lines) + '\n', parser, **o)
    d = ''
    for l in lines:
        d += l + choice('\r\n', '\r')
    if choice(True, False):
        d = d.rstrip('\r\n') if lines[-1] else d
    note('document', d)
    g = toc(d, parser, **o)
    check(g == w, 'newlines', g, w)


def c_text(parser):
    t = star('[^\n\r\U0010ffff]', 0, 2)
    e = choice('\r\n', '\r')
    w = toc('# a\n' + t + '\n## b\n', parser, no_links=True)
    g = toc('# a' + e + t + e + '## b' + choice(e, ''), parser, no_links=True)
    check(g == w, 'newlines', g, w)


def c_mixed(parser):
    a, b, c = choice('\n', '\r\n', '\r'), choice('\n', '\r\n', '\r'), choice('\n', '\r\n', '\r', '')
    g = toc('# a' + a + '## b' + b + '### c' + c, parser)
    w = toc('# a\n## b\n### c\n', parser)
    check(g == w, 'mixed', g, w)


def c_out(parser):
    """the newline of the table is the one asked for"""
    nl = choice('\n', '\r\n', '\r')
    e = choice('\n', '\r\n', '\r')
    k = choice(1, 2, 7)
    g = toc(('# a' + e) * k, parser, newline_string=nl, no_links=True, **choice(dict(), dict(constant_ordered_list=True)))
    check(g[0] == 'ok', 'raised', g)
    check(g[1] in (('- a' + nl) * k, ('1. a' + nl) * k), 'every entry ends in the newline', g, nl)


def c_size(parser):
    n = choice(9, 33, 64, 120)
    ls = choice(['# a'] * n, ['x'] * n + ['# a'], ['# a', '```'] + ['# b'] * n + ['```', '# c'], ['# ' + 'a' * n], ['# a'] + [''] * n + ['# b'], ['# a', 'y' * (8 * n), '## b'])
    e = choice('\r\n', '\r')
    w = toc('\n'.join(ls) + '\n', parser, no_links=True)
    g = toc(e.join(ls) + choice('', e), parser, no_links=True)
    check(g == w, 'newlines', g, w)


def c_opts(parser):
    o = choice(dict(ordered=True), dict(no_indentation=True), dict(keep_header_levels=1), dict(list_marker='*'), dict(skip_lines=1, no_list_coherence=True), dict(skip_lines=3, no_list_coherence=True),
               dict(constant_ordered_list=True), dict(newline_string='\r\n'), dict(newline_string='\r'), dict(no_list_coherence=True, keep_header_levels=6))
    ls = ['# a', '## b #', '# a', '~~~', '# c', '~~~~', '#### d', choice('', '# \\')]
    e = choice('\r\n', '\r')
    w = toc('\n'.join(ls) + '\n', parser, **o)
    g = toc(e.join(ls) + choice('', e), parser, **o)
    check(g == w, 'newlines', g, w)


def c_fence(parser):
    """fences opened and closed by lines of different conventions"""
    def e():
        return choice('\n', '\r\n', '\r')
    f = choice('```', '~~~', '````')
    i = choice('', ' x', '\t')
    w = toc('# a\n' + f + i + '\n# b\n' + f + '\n# c\n', parser)
    g = toc('# a' + e() + f + i + e() + '# b' + e() + f + e() + '# c' + choice('', e()), parser)
    check(g == w, 'fences', g, w)


CASES = []
for p in ALL:
    for n in (1, 2, 3):
        CASES.append(('conventions %s %d' % (p, n), c_conv, p, n))
    for f in (c_text, c_mixed, c_out, c_size, c_opts, c_fence):
        CASES.append(('%s %s' % (f.__name__[2:], p), f, p))
