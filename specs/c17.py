"""C17 writing in place replaces the table of contents and nothing else."""
from specs.docs import *
from specs import inpl
from specs.inpl import M
ANCHORS = ['md_toc.api.write_string_on_file_between_markers']

OLD = ('\n\n- [a](#a)\n\n', '\n\n', '\n', '\n\n\n\n', '\n\n1. [a](#a)\n   1. [b](#b)\n\n', '\n\n2) x\n\n')
NOT = ('\ntext\n', '\n\ntext\n\n', '\n# x\n', '\n\n-x\n\n', '\n\n    - a\n\n')
NL = (('\n', 'LF'), ('\r\n', 'CRLF'), ('\r', 'CR'))


def one(doc, toc, marker, nl):
    note('document', doc)
    note('toc', toc)
    mkfile('d.md', doc)
    clear_events()
    r = run(api.write_string_on_file_between_markers, 'd.md', toc, marker, nl)
    w, eq = inpl.write(doc, toc, marker, nl)
    check(r[0] == 'ok', 'raised', r)
    got = fsread('d.md')
    check(got == w, 'file', got, w)
    check(fsnames() == ['d.md'], 'no other file is left', fsnames())


def text():
    return star('[a-z #-]', 0, 2)


def c_none(nl):
    one(choice('', 'x', 'x\n', '# a\n\n' + text(), 'TOC\n', '<!-- TOC -->\n', 'x<!--TOC-->\n', '<!--TOC--><!--TOC-->\n', 'a\r\nb\r\n'), '- [a](#a)\n', M, nl)


def c_single(nl):
    one(choice('', text() + '\n', '# a\n\n', '\n\n') + choice('', ' ', '\t') + M + choice('', '\n', '  \n', '\n' + text(), '\n' + text() + '\n', '\n\nx\n'),
        choice('- [a](#a)\n', '- [a](#a)\n  - [b](#b)\n', ''), M, nl)


def c_pair(nl, mid):
    one(choice('', 'x\n', text() + '\n\n') + M + mid + M + choice('', '\n', '\n' + text(), '\n\n' + text() + '\n'),
        choice('- [a](#a)\n', '- [' + star('[a-z]', 1, 3) + '](#x)\n- b\n'), M, nl)


def c_three(nl):
    mid = choice('\n', '\n\n- [a](#a)\n\n', '\ntext\n')
    mid2 = choice('\n', '\n\n- [a](#a)\n\n', '\ntext\n', '\n\n1. x\n2. y\n\n')
    one('p\n' + M + mid + M + mid2 + M + choice('', '\nq\n'), '- [n](#n)\n', M, nl)


def c_four(nl):
    mids = []
    for i in range(3):
        mids.append(choice('\n', '\n\n- [a](#a)\n\n', '\ntext\n'))
    one(M + mids[0] + M + mids[1] + M + mids[2] + M + '\nz\n', '- [n](#n)\n', M, nl)


def c_marker(nl):
    m = choice('[](TOC)', '<!-- toc -->', 'TOC', '.*', '[TOC]', ' x ')
    one(choice('', 'a\n' + M + '\n') + m + choice('', '\n\n- [a](#a)\n\n' + m, '\nb\n' + m) + choice('', '\n', '\nc\n' + M), '- [n](#n)\n', m, nl)


def c_source(nl):
    """whatever the newlines of the file are"""
    e = choice('\r\n', '\r', '\n')
    f = choice('\r\n', '\r', '\n')
    one('a' + e + 'b' + f + M + e + choice('', e + '- [a](#a)' + f + e + M + e, M + f) + 'c' + e + choice('', 'd'), '- [n](#n)' + choice('\n', '\r\n', '\r') + '- m\n', M, nl)


def c_around(nl):
    """any line around"""
    a = star('[^\n\r\U0010ffff]', 0, 3)
    b = star('[^\n\r\U0010ffff]', 0, 3)
    one(a + '\n' + M + choice('\n', '\n\n- a\n\n' + M + '\n') + b, '- [n](#n)\n', M, nl)


def c_long(nl):
    n = choice(5, 40)
    one('l\n' * n + M + '\n\n' + '- [a](#a)\n' * n + '\n' + M + '\n' + 'r\n' * n, '- [n](#n)\n' * choice(1, n, 2 * n), M, nl)


def c_big(nl):
    """large tables, large documents and many markers"""
    n = choice(64, 129, 257, 1025)
    k = choice('old', 'new', 'before', 'after', 'markers', 'marker texts')
    if k == 'old':
        one('a\n' + M + '\n\n' + choice('- [a](#a)\n', '1. x\n', '   - y\n') * n + '\n' + M + '\nz\n', '- [n](#n)\n', M, nl)
    elif k == 'new':
        one('a\n' + M + choice('\n', '\n\n- x\n\n' + M + '\n') + 'z', '- [n](#n)\n' * n, M, nl)
    elif k == 'before':
        one('a\n' * n + M + choice('', '\n\n- x\n\n' + M) + '\nz\n', '- [n](#n)\n', M, nl)
    elif k == 'after':
        one('a\n' + M + choice('', '\n\n- x\n\n' + M) + '\nz' * n, '- [n](#n)\n', M, nl)
    elif k == 'markers':
        m = min(n, 129)
        one('a\n' + (M + choice('\ntext\n', '\n# x\n')) * m + choice('', M + '\n\n- a\n\n' + M + '\n'), '- [n](#n)\n', M, nl)
    else:
        one('x ' + M + ' ' + 'a' * n + '\n' + 'b' * n + M + '\n' + M + '\n', '- [' + 'n' * n + '](#n)\n', M, nl)


CASES = []
for nl, nm in NL:
    CASES.append(('no marker ' + nm, c_none, nl))
    CASES.append(('one marker ' + nm, c_single, nl))
    for i, m in enumerate(OLD + NOT):
        CASES.append(('two markers %s %d' % (nm, i), c_pair, nl, m))
    CASES.append(('three markers ' + nm, c_three, nl))
    CASES.append(('four markers ' + nm, c_four, nl))
    CASES.append(('custom marker ' + nm, c_marker, nl))
    CASES.append(('source newlines ' + nm, c_source, nl))
    CASES.append(('around ' + nm, c_around, nl))
    CASES.append(('long ' + nm, c_long, nl))
    CASES.append(('big ' + nm, c_big, nl))
