"""C23 nothing is carried over from one call to the next."""
from specs.docs import *
from specs.inpl import M
ANCHORS = ['md_toc.api.build_toc', 'md_toc.api.build_multiple_tocs', 'md_toc.api.write_string_on_file_between_markers']

A = '# a\n## b\n# a\n### c\n## b\n```\n# n\n```\n1. x\n'


def opts(n):
    return (dict(), dict(ordered=True), dict(no_links=True), dict(no_indentation=True), dict(keep_header_levels=1), dict(constant_ordered_list=True),
            dict(skip_lines=3), dict(list_marker='*'), dict(newline_string='\r\n'), dict(no_list_coherence=True))[n]


def doc(k):
    return ('# a\n' * 12 + '## b\n### a\n', '# z\n```\n# q\n', '## a\n# b\n', '# \U0010ffff\n', '# a\n\U0010ffff\n', '#\n', '# a [b](c) *d*\n', '')[k]


def c_calls(parser, other, n):
    """another call in between, whatever its document, options, parser and outcome"""
    o = opts(n)
    mkfile('a.md', A)
    k = choice(0, 1, 2, 3, 4, 5, 6, 7)
    mkfile('b.md', doc(k))
    note('other document', doc(k))
    d = dict(no_list_coherence=True)
    d.update(o)
    r1 = run(api.build_toc, 'a.md', parser=parser, **d)
    p = opts(choice(0, 1, 5, 6))
    run(api.build_toc, 'b.md', parser=other, **p)
    r2 = run(api.build_toc, 'a.md', parser=parser, **d)
    check(r1 == r2, 'the same call gives the same table', r1, r2)


def c_between(parser, n):
    """combined options of the call in between"""
    d = dict(no_list_coherence=True)
    d.update(opts(n))
    mkfile('a.md', A)
    mkfile('b.md', choice('# a\n# a\n## b\n', '## a\n# b\n', '# [x]\n\n```\n'))
    r1 = run(api.build_toc, 'a.md', parser=parser, **d)
    p = choice(dict(ordered=True, list_marker=')'), dict(constant_ordered_list=True, list_marker=')'), dict(list_marker='+', no_links=True),
               dict(ordered=True, list_marker='.', no_indentation=True), dict(ordered=True, list_marker='*'), dict(list_marker='x'),
               dict(ordered=True, constant_ordered_list=True, list_marker=')', newline_string='\r'), dict(keep_header_levels=1, no_links=True),
               dict(keep_header_levels=6, skip_lines=1), dict(keep_header_levels=0), dict(skip_lines=-1), dict(list_marker=None, ordered=True),
               dict(newline_string='', no_list_coherence=True), dict(no_links=True, no_indentation=True, skip_lines=2), dict(parser='none'))
    q = dict(parser=choice(parser, 'redcarpet', 'github', 'gitlab', 'cmark'))
    q.update(p)
    run(api.build_toc, choice('b.md', 'a.md'), **q)
    r2 = run(api.build_toc, 'a.md', parser=parser, **d)
    check(r1 == r2, 'the same call gives the same table', r1, r2)


def c_parts(parser):
    """the functions the table is made of, in any order of two"""
    def one(k):
        if k == 0:
            return run(api.get_atx_heading, '#### [a] #', 3, parser, False)
        if k == 1:
            return run(api.get_atx_heading, '# a\n##### b\n## \\', 2, parser, True)
        if k == 2:
            return run(api.is_opening_code_fence, '  ~~~~ a', parser)
        if k == 3:
            return run(api.is_closing_code_fence, '`````', '````', False, parser)
        if k == 4:
            return run(api.remove_html_tags, '<b>x<title>y</b><!--z-->', parser)
        if k == 5:
            return run(api.remove_emphasis, '*a* `b*` __c__ _d', parser)
        if k == 6:
            return run(api.build_anchor_link, 'A -- b & c', {}, parser)
        if k == 7:
            return run(api.init_indentation_log, parser, '+')
        if k == 8:
            return run(api.filter_indices_from_line, 'abcd', [range(1, 3)])
        return run(api.get_md_header, '## *a* b', {}, 3, parser)
    i, j = choice(*range(10)), choice(*range(10))
    a = one(i)
    one(j)
    b = one(i)
    check(a == b, 'the same call', i, j, a, b)


def c_first(parser):
    """the order of two calls does not matter"""
    mkfile('a.md', '# ' + star('[a-b]', 1, 2) + '\n## a\n')
    mkfile('b.md', '# a\n# ' + star('[a-b]', 1, 2) + '\n')
    o = choice(dict(), dict(ordered=True))
    x = run(api.build_toc, 'a.md', parser=parser, **o)
    y = run(api.build_toc, 'b.md', parser=parser, **o)
    y2 = run(api.build_toc, 'b.md', parser=parser, **o)
    x2 = run(api.build_toc, 'a.md', parser=parser, **o)
    check(x == x2 and y == y2, 'order', x, x2, y, y2)


def c_anchor(parser):
    """the caller's counter is the only memory of anchors"""
    t = choice('a', star('[a-b ]', 1, 2), '*a*', '<b>a</b>')
    d = {}
    r1 = run(api.build_anchor_link, t, d, parser)
    r2 = run(api.build_anchor_link, t, {}, parser)
    check(r1 == r2, 'fresh counter, fresh anchor', r1, r2)


def c_header(parser):
    line = choice('# a', '## *a* [b](c)', '# ' + star('[a-b]', 1, 2), '#x', '```')
    r1 = run(api.get_md_header, line, {}, 3, parser, False)
    run(api.get_md_header, choice('#### a', '#', 'x\n# y'), {}, 6, choice(parser, 'redcarpet', 'gitlab'), choice(True, False))
    r2 = run(api.get_md_header, line, {}, 3, parser, False)
    check(r1 == r2, 'heading', r1, r2)


def c_indent(parser):
    """tables of open items are not shared"""
    o = choice(True, False)
    m = '.' if o else '-'

    def toc(f, t):
        mkfile('i.md', t)
        return run(api.build_toc, 'i.md', ordered=o, parser=parser, list_marker=m, no_list_coherence=True)
    one = '# a\n## b\n### c\n'
    w = toc(0, one)
    toc(1, choice('###### a\n', '# a\n' * 10 + '## b\n', '## a\n#### b\n###### c\n'))
    r = toc(2, one)
    check(r == w, 'the same indentation', r, w)


def c_write(parser):
    mkfile('a.md', 'x\n' + M + '\n')
    mkfile('b.md', 'x\n' + M + '\n')
    mkfile('c.md', M + '\n\n- [q](#q)\n\n' + M + choice('', '\nz\n'))
    t = '- [' + star('[a-b]', 1, 2) + '](#a)\n'
    r1 = run(api.write_string_on_file_between_markers, 'a.md', t, M)
    run(api.write_string_on_file_between_markers, 'c.md', '- q\n', M, choice('\n', '\r\n'))
    r2 = run(api.write_string_on_file_between_markers, 'b.md', t, M)
    check(r1 == r2 and fsread('a.md') == fsread('b.md'), 'the same file', fsread('a.md'), fsread('b.md'))


def c_long(parser):
    """many calls in between"""
    n = choice(3, 20, 70, 140)
    mkfile('a.md', A)
    mkfile('b.md', doc(choice(0, 1, 2)))
    r1 = run(api.build_toc, 'a.md', parser=parser, no_list_coherence=True)
    for i in range(n):
        run(api.build_toc, 'b.md', parser=parser)
    r2 = run(api.build_toc, 'a.md', parser=parser, no_list_coherence=True)
    check(r1 == r2, 'the same call gives the same table', r1, r2)


def c_same_name(parser):
    """the file is read anew every time"""
    a, b = '# x\n## y\n', choice('# z\n', '', '# x\n## y\n# w\n', '```\n# x\n')
    mkfile('d.md', a)
    r1 = run(api.build_toc, 'd.md', parser=parser)
    mkfile('d.md', b)
    r2 = run(api.build_toc, 'd.md', parser=parser)
    mkfile('e.md', b)
    r3 = run(api.build_toc, 'e.md', parser=parser)
    check(r2 == r3, 'changed file', r2, r3)
    mkfile('d.md', a)
    r4 = run(api.build_toc, 'd.md', parser=parser)
    check(r4 == r1, 'changed back', r4, r1)


def c_stdin(parser):
    set_stdin('# a\n# a\n')
    r1 = run(api.build_toc, '-', parser=parser)
    set_stdin(choice('# b\n', '', '```\n# a\n', '# a\n'))
    r2 = run(api.build_toc, '-', parser=parser)
    set_stdin('# a\n# a\n')
    r3 = run(api.build_toc, '-', parser=parser)
    check(r1 == r3, 'standard input', r1, r3)


def c_multiple(parser):
    """lists of files of earlier calls are forgotten"""
    mkfile('a.md', '# a\n')
    mkfile('b.md', '# b\n## c\n')
    set_stdin('# x\n')
    w = run(api.build_multiple_tocs, [], parser=parser)
    l = choice(['-', 'a.md'], ['a.md', '-'], ['a.md', 'b.md'], [], ['none.md'], ['-', 'none.md'], ['-'])
    set_stdin('# y\n')
    r1 = run(api.build_multiple_tocs, list(l), parser=parser)
    set_stdin('# x\n')
    g = run(api.build_multiple_tocs, [], parser=parser)
    check(g == w, 'without names', g, w)
    set_stdin('# y\n')
    r2 = run(api.build_multiple_tocs, list(l), parser=parser)
    check(r1 == r2, 'the same list', r1, r2)


def c_ambient(parser):
    """files nobody named and the environment of the process play no part"""
    mkfile('a.md', A)
    mkfile('b.md', M + '\n\n- [a](#a)\n\n' + M + '\n# a\n')
    o = opts(choice(0, 1, 2, 3, 4, 6, 8))
    r1 = run(api.build_toc, 'a.md', parser=parser, **o)
    e1 = run(api.tocs_equal, '- [a](#a)\n', 'b.md', M)
    w1 = run(api.write_string_on_file_between_markers, 'b.md', '- [b](#b)\n', M)
    b1 = fsread('b.md')
    mkfile('b.md', M + '\n\n- [a](#a)\n\n' + M + '\n# a\n')
    wild(True)
    r2 = run(api.build_toc, 'a.md', parser=parser, **o)
    e2 = run(api.tocs_equal, '- [a](#a)\n', 'b.md', M)
    w2 = run(api.write_string_on_file_between_markers, 'b.md', '- [b](#b)\n', M)
    check(r1 == r2, 'building', r1, r2)
    check(e1 == e2 and w1 == w2 and fsread('b.md') == b1, 'comparing and writing', e1, e2, w1, w2)


def c_compare(parser):
    d = M + '\n\n- [a](#a)\n\n' + M + '\n# a\n'
    mkfile('a.md', d)
    mkfile('b.md', choice('', M + '\n', M + '\n\n- [b](#b)\n\n' + M, 'x\n' + M + '\ntext\n' + M + '\n'))
    r1 = run(api.tocs_equal, '- [a](#a)\n', 'a.md', M)
    r0 = run(api.tocs_equal, choice('- [a](#a)\n', '- [b](#b)\n'), 'b.md', choice(M, 'x'))
    r2 = run(api.tocs_equal, '- [a](#a)\n', 'a.md', M)
    check(r1 == ('ok', True) and r2 == r1, 'comparison', r1, r2)
    mkfile('a.md', '# a\n')
    r3 = run(api.tocs_equal, '- [a](#a)\n', 'a.md', M)
    check(r3 == ('ok', False), 'changed file', r3)


CASES = []
for p in ALL:
    for n in range(10):
        for q in ('redcarpet', 'github', 'gitlab'):
            CASES.append(('calls %s %s %d' % (p, q, n), c_calls, p, q, n))
    for n in (0, 1, 2, 5, 7):
        CASES.append(('between %s %d' % (p, n), c_between, p, n))
    CASES.append(('parts ' + p, c_parts, p))
    CASES.append(('first ' + p, c_first, p))
    CASES.append(('anchor ' + p, c_anchor, p))
    CASES.append(('header ' + p, c_header, p))
    CASES.append(('indent ' + p, c_indent, p))
    CASES.append(('many calls ' + p, c_long, p))
    CASES.append(('same name ' + p, c_same_name, p))
    CASES.append(('stdin ' + p, c_stdin, p))
    CASES.append(('multiple ' + p, c_multiple, p))
    CASES.append(('ambient ' + p, c_ambient, p))
CASES.append(('write', c_write, 'github'))
CASES.append(('compare', c_compare, 'github'))
