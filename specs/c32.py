"""C32 standard input gives the same table as a file."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc', 'md_toc.api.build_multiple_tocs']


def both(doc, parser, **o):
    note('document', doc)
    w = toc(doc, parser, **o)
    g = toc_stdin(doc, parser, **o)
    check(g == w, 'standard input', g, w)


def c_lines(parser, n):
    lines = []
    for i in range(n):
        lines.append(choice('# a', '## b', '```', '~~~', ' ```', '', 'x', '#') if i < 3 else '# z')
    both(choice('\n', '\r\n').join(lines) + choice('', '\n'), parser, no_list_coherence=True, no_links=True)


def c_any(parser):
    both('# a\n' + star('[^\n\r\U0010ffff]', 0, 2) + choice('', '\n'), parser, no_links=True)


def c_fence(parser):
    """an unclosed fence at the end of the input"""
    both('# a\n' + star('[ ]', 0, 3) + choice('```', '~~~', '``') + choice('', '\n', '\n# b', '\n# b\n', '\n\n```\n# c', '\n```'), parser)


def c_opts(parser):
    both('# a\n## b\n# a\n#### c\n', parser, **choice(dict(ordered=True), dict(no_indentation=True), dict(keep_header_levels=1), dict(list_marker='*'), dict(skip_lines=1, no_list_coherence=True),
                                                       dict(constant_ordered_list=True), dict(newline_string='\r\n'), dict(no_list_coherence=True, keep_header_levels=6)))


def c_nl(parser):
    e = choice('\n', '\r\n', '\r')
    both('# a' + e + choice('```', 'x') + e + '# b' + choice('', e), parser)


def c_size(parser):
    n = choice(10, 33, 64, 120)
    both(choice('# a\n' * n, 'x\n' * n + '# a\n', '# a\n```\n' + '# b\n' * n, '# ' + 'a' * n + '\n', '```\n' * n + '# a\n', '# a\n' + '\n' * n + '# b', '# a\n~~~\n' + 'x\n' * n + '~~~\n# b\n'), parser, no_links=True)


def c_large(parser):
    """more than any buffer holds"""
    n = choice(5000, 70000, 300000)
    both(choice('# a\n' + 'x' * n + '\n# b\n', '# a\n' + 'x' * n + choice('', '\n'), 'x' * n + ' # a\n# b', '# a\n```\n' + 'x' * n + '\n# b'), parser, no_links=True)


def c_combo(parser):
    o = dict(no_list_coherence=True)
    if choice(True, False):
        o['ordered'] = True
        o['list_marker'] = choice('.', ')')
    if choice(True, False):
        o['no_links'] = True
    if choice(True, False):
        o['no_indentation'] = True
    o['keep_header_levels'] = choice(1, 2, 6)
    o['skip_lines'] = choice(0, 2)
    both('# a\n## b c\n```\n# x\n```\n# a\n#### d\n', parser, **o)


def c_twice(parser):
    """a call that failed or an unclosed fence leaves nothing behind"""
    toc_stdin(choice('# a\n```\n# b', '# a\n### b\n', '\U0010ffff', '', '# a\n# a\n'), parser)
    both('# a\n## b\n# a\n', parser)


def c_multi(parser):
    """standard input among the files of one call"""
    mkfile('d.md', '# a\n')
    mkfile('e.md', choice('# a\n', '## b\n# c\n', '```\n', ''))
    set_stdin(fsread('e.md'))
    a = run(api.build_multiple_tocs, ['d.md', '-'], parser=parser)
    b = run(api.build_multiple_tocs, ['d.md', 'e.md'], parser=parser)
    check(a == b, 'among files', a, b)


CASES = []
for p in ALL:
    for n in (0, 1, 2, 3):
        CASES.append(('lines %s %d' % (p, n), c_lines, p, n))
    for f in (c_any, c_fence, c_opts, c_nl, c_size, c_large, c_combo, c_twice, c_multi):
        CASES.append(('%s %s' % (f.__name__[2:], p), f, p))
