"""C25 undecodable input gives the placeholder and nothing else."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc']
BAD = '\U0010ffff'


def c_where(parser):
    """wherever the undecodable bytes are"""
    n = choice(1, 2, 3, 4)
    at = choice(0, 1, 2, 3)
    assume(at < n)
    lines = []
    for i in range(n):
        lines.append(choice('# a', '```', 'x', '') if i < 2 else '# b')
    lines[at] = choice('', '# a', 'x ') + BAD + choice('', ' z')
    note('lines', tuple(lines))
    note('skip', choice(0, 1))
    s = choice(0, 1, 2, 5)
    f = choice('d.md', 'some name.bin', 'x/y/d.md', '../d.tar.gz')
    mkfile(f, '\n'.join(lines) + choice('\n', ''))
    r = run(api.build_toc, f, parser=parser, skip_lines=s, no_list_coherence=True)
    check(r == ('ok', '<!--stop reading ' + f + ': probably a binary file-->'), 'placeholder', r)


def c_long(parser):
    """after many good lines as well"""
    k = choice(1, 7, 30, 100, 300, 1000)
    mkfile('d.md', '# a\n' * k + BAD + '\n' + '# b\n' * choice(0, 3))
    r = run(api.build_toc, 'd.md', parser=parser)
    check(r == ('ok', '<!--stop reading d.md: probably a binary file-->'), 'placeholder', r)


def c_skip(parser):
    """also when many lines are skipped, the offending one or others"""
    k = choice(1, 9, 33, 101, 257, 1001)
    s = choice(k - 1, k, k + 1, 2 * k, 100000)
    mkfile('d.md', choice('\n', '# a\n') * k + BAD + '\n# b\n')
    r = run(api.build_toc, 'd.md', parser=parser, skip_lines=s)
    check(r == ('ok', '<!--stop reading d.md: probably a binary file-->'), 'placeholder', r)


def c_options(parser):
    o = dict(ordered=choice(False, True), no_links=choice(False, True), constant_ordered_list=choice(False, True), newline_string=choice('\n', '\r\n'), keep_header_levels=choice(1, 6), no_indentation=choice(False, True), no_list_coherence=choice(False, True), skip_lines=choice(0, 1, 2))
    mkfile('d.md', '# a\n## b\n' + BAD)
    r = run(api.build_toc, 'd.md', parser=parser, **o)
    check(r == ('ok', '<!--stop reading d.md: probably a binary file-->'), 'placeholder', r)


def c_several(parser):
    """the other files are not concerned"""
    mkfile('a.md', '# a\n')
    b = choice('b.bin', 'c/b', '/c/d/b.md', 'a b')
    mkfile(b, choice(BAD, '# x\n' + BAD))
    p = '<!--stop reading ' + b + ': probably a binary file-->'
    r = run(api.build_multiple_tocs, ['a.md', b, 'a.md'], parser=parser)
    check(r == ('ok', ['- [a](#a)\n', p, '- [a](#a)\n']), 'files', r)


def c_good(parser):
    """text of any kind is not binary"""
    c = char('[^\n\r\U0010ffff]')
    d = 'x' + c + '\n\n# a\n' + choice('', '> ' + c)
    mkfile('d.md', d)
    r = run(api.build_toc, 'd.md', parser=parser)
    check(r == ('ok', '- [a](#a)\n'), 'text', r)


CASES = []
for p in ALL:
    for f in (c_where, c_long, c_skip, c_options, c_several, c_good):
        CASES.append(('%s %s' % (f.__name__[2:], p), f, p))
