"""C24 several files are several independent single file calls."""
from specs.docs import *
from specs import inpl
from specs.inpl import M
ANCHORS = ['md_toc.api.build_multiple_tocs', 'md_toc.api.write_strings_on_files_between_markers']

DOCS = ('# a\n## b\n', '# a\n# a\n', '```\n# x\n', '', '# c\n### d\n')


def files(n):
    names = []
    for i in range(n):
        f = choice('p.md', 'q.md', 'r.md') if i else 'p.md'
        names.append(f)
    return names


def c_build(parser, o):
    mkfile('p.md', '# ' + star('[a-b]', 1, 1) + '\n## b\n')
    mkfile('q.md', choice('# a\n# a\n', '```\n# x\n', '', '#  a\n### d\n'))
    mkfile('r.md', '# z\n## y\n### x\n')
    names = files(choice(1, 2, 3))
    note('names', tuple(names))
    want = []
    for f in names:
        want.append(api.build_toc(f, parser=parser, **o))
    got = run(api.build_multiple_tocs, list(names), parser=parser, **o)
    check(got == ('ok', want), 'one table per file, in order', got, want)


def c_error(parser):
    mkfile('p.md', '# a\n')
    mkfile('q.md', choice('## a\n# b\n', '# a\n### b\n'))
    r = run(api.build_multiple_tocs, choice(['p.md', 'q.md'], ['q.md', 'p.md'], ['q.md']), parser=parser)
    check(r == ('exc', 'TocDoesNotRenderAsCoherentList'), 'an error is reported', r)
    r = run(api.build_multiple_tocs, choice(['p.md', 'none.md'], ['none.md']), parser=parser)
    check(r == ('exc', 'FileNotFoundError'), 'a missing file is reported', r)


def c_stdin(parser):
    d = '# ' + star('[a-b]', 1, 2) + '\n## z\n'
    mkfile('d.md', d)
    w = api.build_toc('d.md', parser=parser)
    set_stdin(d)
    r = run(api.build_multiple_tocs, choice([], ['-']), parser=parser)
    check(r == ('ok', [w]), 'no name: standard input', r)


def c_write(nl, n):
    names, tocs, docs, want, equal = [], [], [], [], True
    for i in range(n):
        f = 'f%d.md' % i
        t = choice('- [a](#a)', '- b')
        d = choice('x\n' + M + '\n', M + '\n\n- [a](#a)\n\n' + M + '\n', 'none\n', M + '\n\n- b\n\n' + M + '\nz')
        mkfile(f, d)
        names.append(f)
        tocs.append(t + '\n')
        x, e = inpl.write(d, t + '\n', M, nl)
        want.append(x)
        equal = equal and e
    r = run(api.write_strings_on_files_between_markers, names, tocs, M, nl)
    check(r == ('ok', equal), 'equal only when all are', r, equal)
    for i in range(n):
        check(fsread(names[i]) == want[i], 'each file gets its own table', names[i], fsread(names[i]), want[i])


def c_lengths(nl):
    mkfile('a.md', M + '\n')
    mkfile('b.md', M + '\n')
    clear_events()
    f = choice([], ['a.md'], ['a.md', 'b.md'])
    t = choice([], ['- x\n'], ['- x\n', '- y\n'], ['- x\n', '- y\n', '- z\n'])
    assume(len(f) != len(t))
    r = run(api.write_strings_on_files_between_markers, f, t, M, nl)
    check(r == ('exc', 'ValueError'), 'as many tables as files', r)
    check(fsread('a.md') == M + '\n' and fsread('b.md') == M + '\n', 'nothing is written')


def c_marker(nl):
    m = choice('[](TOC)', 'x')
    mkfile('a.md', m + '\n')
    mkfile('b.md', M + '\n' + m)
    r = run(api.write_strings_on_files_between_markers, ['a.md', 'b.md'], ['- p\n', '- q\n'], m, nl)
    check(r == ('ok', False), 'verdict', r)
    check(fsread('a.md') == inpl.write(m + '\n', '- p\n', m, nl)[0], 'marker', fsread('a.md'))
    check(fsread('b.md') == inpl.write(M + '\n' + m, '- q\n', m, nl)[0], 'marker', fsread('b.md'))


OPTS = (('default', dict()), ('ordered', dict(ordered=True)), ('no links', dict(no_links=True)), ('flat', dict(no_indentation=True)),
        ('loose', dict(no_list_coherence=True)), ('levels', dict(keep_header_levels=1)), ('levels 6', dict(keep_header_levels=6)), ('marker', dict(list_marker='*')),
        ('skip', dict(skip_lines=1)), ('constant', dict(constant_ordered_list=True)), ('newline', dict(newline_string='\r\n')),
        ('ordered marker', dict(ordered=True, list_marker=')')), ('all', dict(ordered=True, no_links=True, no_indentation=True, no_list_coherence=True,
         keep_header_levels=2, list_marker='.', skip_lines=1, constant_ordered_list=False, newline_string='\r')))
def c_more(parser):
    """more files"""
    n = choice(4, 7, 12, 40)
    names, want = [], []
    for i in range(n):
        f = 'f%d.md' % (i % 5)
        if i < 5:
            mkfile(f, '# a\n# a\n## b%d\n' % i if i != 2 else '```\n# a\n')
        names.append(f)
        want.append(api.build_toc(f, parser=parser))
    got = run(api.build_multiple_tocs, names, parser=parser)
    check(got == ('ok', want), 'one table per file, in order', got, want)


def c_paths(parser):
    """files are taken by the names given, in whatever folder"""
    names = ['d/a.md', 'e/a.md', 'd/../a.md', 'a.md', '/a.md', 'A.md', 'a', 'a.md.md', ' a.md', '~/a.md', '$HOME/a.md', 'd/l/../../a.md', '*.md']
    for i in range(len(names)):
        mkfile(names[i], '# t%d\n<!--TOC-->\n' % i)
    i, j = choice(*range(len(names))), choice(*range(len(names)))
    note('names', (names[i], names[j]))
    got = run(api.build_multiple_tocs, [names[i], names[j]], parser=parser)
    check(got == ('ok', ['- [t%d](#t%d)\n' % (i, i), '- [t%d](#t%d)\n' % (j, j)]), 'one table per file, in order', got)
    if i != j:
        r = run(api.write_strings_on_files_between_markers, [names[i], names[j]], ['- x\n', '- y\n'], M, '\n')
        check(r == ('ok', False), 'written', r)
        for k in range(len(names)):
            w = '# t%d\n' % k + (M + '\n\n- ' + ('x' if k == i else 'y') + '\n\n' + M + '\n' if k in (i, j) else M + '\n')
            check(fsread(names[k]) == w, 'each file its own', names[k], fsread(names[k]), w)


def c_write_more(nl):
    n = choice(4, 9, 20)
    at = choice(0, 1, 3, -1)
    names, tocs = [], []
    for i in range(n):
        names.append('f%d.md' % i)
        tocs.append('- [t%d](#t)\n' % i)
        mkfile(names[i], M + '\n\n- [t%d](#t)\n\n' % i + M + '\n')
    if at >= 0:
        mkfile(names[at], M + '\n\n- [x](#t)\n\n' + M + '\n')
    r = run(api.write_strings_on_files_between_markers, names, tocs, M, nl)
    check(r == ('ok', at < 0), 'equal only when all are', r, at)
    for i in range(n):
        w = inpl.write(M + '\n\n- [t%d](#t)\n\n' % i + M + '\n', tocs[i], M, nl)[0]
        check(fsread(names[i]) == w, 'each file gets its own table', fsread(names[i]), w)


CASES = []
for p in ALL:
    for n, o in OPTS:
        CASES.append(('build %s %s' % (p, n), c_build, p, dict(o, no_list_coherence=True) if n != 'default' else dict(no_list_coherence=True)))
    CASES.append(('error ' + p, c_error, p))
    CASES.append(('more ' + p, c_more, p))
    CASES.append(('paths ' + p, c_paths, p))
    CASES.append(('stdin ' + p, c_stdin, p))
for nl, nm in (('\n', 'LF'), ('\r\n', 'CRLF'), ('\r', 'CR')):
    for n in (1, 2):
        CASES.append(('write %s %d' % (nm, n), c_write, nl, n))
    CASES.append(('write %s 3' % nm, c_write, nl, 3))
    CASES.append(('write more ' + nm, c_write_more, nl))
    CASES.append(('lengths ' + nm, c_lengths, nl))
    CASES.append(('marker ' + nm, c_marker, nl))
