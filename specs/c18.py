"""C18 nothing is written when there is nothing to replace, and reading never writes."""
from specs.docs import *
from specs import inpl
from specs.inpl import M
ANCHORS = ['md_toc.api.write_string_on_file_between_markers', 'md_toc.api.write_strings_on_files_between_markers',
           'md_toc.api.tocs_equal', 'md_toc.api.build_toc', 'md_toc.generic._get_existing_toc']


def untouched(doc, names, label):
    got = fsread('d.md')
    check(got == doc, label + ': the file is unchanged', got, doc)
    check(fsnames() == names, label + ': no file is made or removed', fsnames())
    ev = [e for e in events() if e[0] in ('write', 'unlink', 'rename', 'chmod', 'utime', 'extern') or (e[0] == 'open' and e[2][0] != 'r')]
    check(ev == [], label + ': nothing is opened for writing', ev)


def text():
    return choice('', star('[a-z #<>!-]', 1, 4), '# a\n' + star('[^\n\r\U0010ffff]', 0, 3), 'a\r\nb\rc\n',
                  'x' + M + '\n', M + M + '\n', '<!-- TOC -->\n', '<!--toc-->', '# ' + star('[a-z]', 1, 2) + '\n```\n')


def c_nomark(nl):
    doc = text() + choice('', '\n')
    note('document', doc)
    assume(inpl.existing(inpl.split(inpl.univ(doc)), M)[0] == [])
    mkfile('d.md', doc)
    clear_events()
    r = run(api.write_string_on_file_between_markers, 'd.md', choice('- [a](#a)\n', '', '- ' + star('[^\n\r]', 0, 2) + '\n'), M, nl)
    check(r[0] == 'ok', 'raised', r)
    untouched(doc, ['d.md'], 'write without marker')


def c_stdin(multi):
    mkfile('d.md', 'x\n')
    mkfile('-', M + '\n')
    clear_events()
    if multi:
        r = run(api.write_strings_on_files_between_markers, ['-'], [choice('- a\n', '', '\n', ' ')], choice(M, ''))
    else:
        r = run(api.write_string_on_file_between_markers, '-', star('[^\n\r]', 0, 2) + choice('', '\n'), choice(M, 'x', ''), choice('\n', '\r\n'))
    check(r == ('exc', 'StdinIsNotAFileToBeWritten'), 'standard input is refused', r)
    check(events() == [], 'before anything is opened', events())
    check(fsread('-') == M + '\n', 'a file of that name is left alone')


def c_build(parser):
    doc = choice('# a\n', M + '\n\n- [a](#a)\n\n' + M + '\n# a\n```\n', '') + choice('', '\U0010ffff', star('[# a]', 1, 2), '```\n# a', '#\n')
    note('document', doc)
    mkfile('d.md', doc)
    clear_events()
    run(api.build_toc, 'd.md', parser=parser, no_list_coherence=True, no_links=choice(True, False), skip_lines=choice(0, 1))
    untouched(doc, ['d.md'], 'building a table of contents')


def c_diff():
    doc = choice('# a\n', M + '\n\n- [a](#a)\n\n' + M + '\n# a\n', text(), M, M + '\r\n' + M + '\r' + M)
    note('document', doc)
    mkfile('d.md', doc)
    clear_events()
    api.tocs_equal(choice('- [a](#a)\n', '', '- [a](#a)\r\n'), 'd.md', choice(M, 'x'))
    untouched(doc, ['d.md'], 'comparing')


def c_size(nl):
    """large files, and markers that are almost markers"""
    n = choice(10, 64, 100, 257)
    doc = choice('# a\n' * n, 'x' * 1100 + '\n', M + ' x\n', '<!--TOC -->\n' * n, 'a' + '\n' * n, '- [a](#a)\n' * n) + choice('', 'x', M[:-1])
    note('document', doc)
    mkfile('d.md', doc)
    clear_events()
    r = run(api.write_string_on_file_between_markers, 'd.md', '- [a](#a)\n' * choice(1, 40), M, nl)
    check(r[0] == 'ok', 'raised', r)
    untouched(doc, ['d.md'], 'write without marker')


def c_several():
    """several files: those without a marker are left alone, the others are written"""
    mkfile('a.md', choice('# a\n', 'x', ''))
    a = fsread('a.md')
    mkfile('b.md', M + '\n')
    mkfile('c.md', '\r\n# c')
    order = choice(['a.md', 'b.md', 'c.md'], ['b.md', 'c.md', 'a.md'], ['c.md', 'a.md', 'b.md'])
    r = run(api.write_strings_on_files_between_markers, order, ['- [x](#x)\n', '- [y](#y)\n', ''], M)
    check(r[0] == 'ok', 'raised', r)
    check(fsread('a.md') == a and fsread('c.md') == '\r\n# c', 'files without a marker', fsread('a.md'), fsread('c.md'))
    check(fsread('b.md') != M + '\n' and fsread('b.md').startswith(M + '\n'), 'the file with the marker', fsread('b.md'))


CASES = [('several', c_several)]
for nl, nm in (('\n', 'LF'), ('\r\n', 'CRLF'), ('\r', 'CR')):
    CASES.append(('no marker ' + nm, c_nomark, nl))
    CASES.append(('size ' + nm, c_size, nl))
CASES.append(('stdin one', c_stdin, False))
CASES.append(('stdin several', c_stdin, True))
for p in ALL:
    CASES.append(('build ' + p, c_build, p))
CASES.append(('compare', c_diff))
