"""C19 writing in place again changes nothing."""
from specs.docs import *
from specs import inpl
from specs.inpl import M
ANCHORS = ['md_toc.api.write_string_on_file_between_markers', 'md_toc.api.build_toc']


def twice(doc, toc, marker, nl):
    note('document', doc)
    note('toc', toc)
    mkfile('d.md', doc)
    api.write_string_on_file_between_markers('d.md', toc, marker, nl)
    one = fsread('d.md')
    r = run(api.tocs_equal, toc, 'd.md', marker)
    check(r == ('ok', True), 'compared after writing', r)
    r = run(api.write_string_on_file_between_markers, 'd.md', toc, marker, nl)
    two = fsread('d.md')
    check(r == ('ok', True), 'second time equal', r)
    check(one == two, 'file', one, two)


def c_doc(nl, doc):
    twice(doc + choice('', '\n', '\n' + star('[^\n\r\U0010ffff]', 0, 2), '\r\nz\r\n'), choice('- [a](#a)\n', '- a\n  - b\n', '1. a\n2. b\n', '- [' + star('[^\n\r\U0010ffff]', 1, 2) + '](#x)' + nl), M, nl)


def c_build(parser, nl, o):
    """build, write, build again: the same table of contents"""
    t = star('[a-c]', 1, 2)
    doc = choice('', '# ' + t + '\n') + choice(M + '\n', M + '\n\n- [x](#x)\n\n' + M + '\n') + '# ' + star('[a-c]', 1, 2) + '\n```\n# n\n```\n## z\n'
    note('document', doc)
    mkfile('d.md', doc)
    a = api.build_toc('d.md', parser=parser, newline_string=nl, **o)
    api.write_string_on_file_between_markers('d.md', a, M, nl)
    b = api.build_toc('d.md', parser=parser, newline_string=nl, **o)
    check(a == b, 'the same table after writing it', a, b)
    one = fsread('d.md')
    check(api.tocs_equal(b, 'd.md', M) is True, 'compared after writing')
    check(api.write_string_on_file_between_markers('d.md', b, M, nl) is True, 'second time equal')
    check(fsread('d.md') == one, 'file', fsread('d.md'), one)


def c_label(parser):
    """an entry never turns into a heading or a fence of the document"""
    t = choice('', 'a') + star('[ -~\xa0\xe9\u2028\u3000]', 1, 2)
    doc = M + '\n# ' + t + 'z\n'
    note('document', doc)
    mkfile('d.md', doc)
    r = run(api.build_toc, 'd.md', parser=parser, no_links=True)
    assume(r[0] == 'ok')
    api.write_string_on_file_between_markers('d.md', r[1], M)
    b = api.build_toc('d.md', parser=parser, no_links=True)
    check(r[1] == b, 'the same table after writing it', r[1], b)


def c_blank(parser):
    """a table whose only entry has no text"""
    doc = M + '\n#\n'
    note('document', doc)
    mkfile('d.md', doc)
    a = api.build_toc('d.md', parser=parser, no_links=True)
    api.write_string_on_file_between_markers('d.md', a, M)
    one = fsread('d.md')
    api.write_string_on_file_between_markers('d.md', a, M)
    check(fsread('d.md') == one, 'blank entry written twice', fsread('d.md'), one)


def c_big(nl):
    n = choice(20, 130, 300)
    e = choice('- [a](#a)\n', '1. x\n', '- a\n  - b\n')
    twice(choice('', 'a\n' * n) + M + choice('', '\n', '\n\n- x\n\n' + M, '\n\n' + e * n + '\n' + M) + choice('', '\nz\n'), e * choice(1, n), M, nl)


def c_big_build(parser):
    n = choice(12, 101)
    doc = choice('', '# a\n') + M + '\n' + '# b\n## c\n' * n
    o = choice({}, dict(ordered=True), dict(no_links=True), dict(no_indentation=True), dict(constant_ordered_list=True))
    mkfile('d.md', doc)
    for i in range(3):
        a = api.build_toc('d.md', parser=parser, **o)
        v = api.write_string_on_file_between_markers('d.md', a, M)
        if i == 0:
            first, one = a, fsread('d.md')
        else:
            check(a == first, 'the same table', a, first)
            check(v is True, 'equal')
            check(fsread('d.md') == one, 'the same file')


DOCS = (M, 'x\n' + M, M + '\n' + M, M + '\n\n- [a](#a)\n\n' + M, M + '\r\n\r\n- [b](#b)\r\n\r\n' + M, M + '\ntext\n' + M,
        M + '\ntext\n' + M + '\n\n- a\n\n' + M, M + '\n' + M + '\n' + M, '\t' + M + ' \n\n1. x\n\n' + M)
CASES = []
for nl, nm in (('\n', 'LF'), ('\r\n', 'CRLF'), ('\r', 'CR')):
    for i, d in enumerate(DOCS):
        CASES.append(('document %s %d' % (nm, i), c_doc, nl, d))
for p in ALL:
    for nl, nm in (('\n', 'LF'), ('\r\n', 'CRLF')):
        CASES.append(('build %s %s' % (p, nm), c_build, p, nl, {}))
    CASES.append(('build %s ordered' % p, c_build, p, '\n', dict(ordered=True)))
    CASES.append(('build %s no links' % p, c_build, p, '\n', dict(no_links=True)))
for p in ('github', 'cmark', 'redcarpet'):
    CASES.append(('label ' + p, c_label, p))
CASES.append(('blank entry', c_blank, 'github'))
for p in ALL:
    CASES.append(('big build ' + p, c_big_build, p))
for nl, nm in (('\n', 'LF'), ('\r\n', 'CRLF'), ('\r', 'CR')):
    CASES.append(('big ' + nm, c_big, nl))
