"""C30 no effect beyond the named files."""
from specs.cli import *
from specs.inpl import M
ANCHORS = ['md_toc.api.build_toc', 'md_toc.api.write_string_on_file_between_markers', 'md_toc.__main__.main']


def only(names, label, rest):
    own = list(names)
    for e in events():
        if e[0] == 'open':
            check(e[1] not in rest, label + ': opens no other file', e)
            if e[2] == 'r':
                check(e[1] in own or e[1] == '<stdin>', label + ': reads no other file', e)
        if e[0] == 'write':
            own.append(e[1])
    for n in rest:
        check(fsread(n) == rest[n], label + ': other files are left alone', n)
    for n in fsnames():
        check(n in names or n in rest or fsread(n) == wildtext(), label + ': no file is left behind', n)


REST = {'other.md': M + '\n\n- [x](#x)\n\n' + M + '\n', '-': M + '\n', 'README.md': '# a\n'}


def setup():
    for n in REST:
        mkfile(n, REST[n])
    wild(True)


def c_read(parser):
    setup()
    mkfile('d.md', '# ' + star('[a-c]', 1, 2) + '\n' + choice('', M + '\n', '[x](other.md)\n', '\U0010ffff'))
    clear_events()
    run(api.build_toc, 'd.md', parser=parser)
    run(api.tocs_equal, '- a\n', 'd.md', M)
    only(['d.md'], 'reading', REST)


def opt():
    """settings of every kind, ordinary and extreme"""
    return choice(dict(), dict(skip_lines=1), dict(skip_lines=60), dict(skip_lines=100000), dict(keep_header_levels=6), dict(keep_header_levels=0), dict(ordered=True),
                  dict(no_links=True), dict(no_indentation=True), dict(no_list_coherence=True), dict(constant_ordered_list=True), dict(newline_string='\r\n'),
                  dict(list_marker='*'), dict(skip_lines=-1), dict(ordered=True, no_indentation=True, keep_header_levels=6))


def c_options(parser):
    setup()
    mkfile('d.md', choice('# a\n## b\n', 'x\n' * 70 + '# a\n', '', '## a\n# b\n', '#\n', '# [a](README.md) `x`\n', '```\n# a\n'))
    o = opt()
    clear_events()
    if choice(True, False):
        run(api.build_toc, 'd.md', parser=parser, **o)
    else:
        run(api.build_multiple_tocs, ['d.md'], parser=parser, **o)
    only(['d.md'], 'reading', REST)


def c_missing(parser):
    """a file that does not exist, or has an unusual name"""
    setup()
    n = choice('none.md', 'README', 'd', '', '/d.md', 'a b.md', '~/d.md', '$HOME.md', '*.md', '.md')
    clear_events()
    run(api.build_toc, n, parser=parser)
    run(api.tocs_equal, '- a\n', n, M)
    run(api.write_string_on_file_between_markers, n, '- a\n', M)
    only([n], 'missing', REST)


def c_stdin(parser):
    setup()
    set_stdin('# a\n' + choice('', '# [x](other.md)\n'))
    clear_events()
    run(api.build_toc, '-', parser=parser, **opt())
    only([], 'standard input', REST)


def c_write(nl):
    setup()
    mkfile('d.md', choice(M + '\n', 'x\n', M + '\n\n- [a](#a)\n\n' + M + '\n'))
    clear_events()
    run(api.write_string_on_file_between_markers, 'd.md', '- [' + star('[a-c]', 1, 2) + '](other.md)\n', M, nl)
    only(['d.md'], 'writing', REST)


def c_cli(parser, argv):
    setup()
    mkfile('d.md', choice(M + '\n# a\n', 'x\n', M + '\n\n- [a](#a)\n\n' + M + '\n# b\n', '# a\n### b\n'))
    clear_events()
    cli(*(argv + [parser, 'd.md']))
    only(['d.md'], 'command line', REST)


def c_several(parser, argv):
    """several files, some of which do not exist, cannot be decoded or are empty"""
    setup()
    mkfile('d.md', choice(M + '\n# a\n', 'x\n'))
    mkfile('e.md', choice(M + '\n', '', '\U0010ffff', '# a\n### b\n'))
    clear_events()
    cli(*(argv + [parser, 'd.md', choice('e.md', 'none.md')]))
    only(['d.md', 'e.md', 'none.md'], 'command line', REST)


def c_size(nl):
    setup()
    n = choice(40, 130, 600, 1100)
    mkfile('d.md', choice('x\n' * n + M + '\n', M + '\n\n' + '- [a](#a)\n' * n + '\n' + M + '\n' + 'y' * 900))
    clear_events()
    run(api.write_string_on_file_between_markers, 'd.md', '- [a](#a)\n' * n, M, nl)
    only(['d.md'], 'writing', REST)


CASES = []
for p in ALL:
    CASES.append(('read ' + p, c_read, p))
    CASES.append(('stdin ' + p, c_stdin, p))
    CASES.append(('options ' + p, c_options, p))
    CASES.append(('missing ' + p, c_missing, p))
    for a in ([], ['-p']):
        CASES.append(('several %s %s' % (p, ' '.join(a)), c_several, p, a))
    for a in ([], ['-d'], ['-p'], ['-p', '-d'], ['-p', '-n', r'\r\n']):
        CASES.append(('command line %s %s' % (p, ' '.join(a)), c_cli, p, a))
for nl, nm in (('\n', 'LF'), ('\r\n', 'CRLF'), ('\r', 'CR')):
    CASES.append(('write ' + nm, c_write, nl))
    CASES.append(('size ' + nm, c_size, nl))
