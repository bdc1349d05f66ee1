"""C21 every command line option reaches the table of contents."""
from specs.cli import *
from specs import inpl
from specs.inpl import M
ANCHORS = ['md_toc.cli.CliToApi.write_toc', 'md_toc.cli.CliInterface.create_parser', 'md_toc.__main__.main']

DOC = '# A b\n\n## C\n\n### D\n\n#### E\n\n##### F\n\n###### G\n\n## C\n'
LOOSE = '## A b\n\n# C\n\n#### D\n# C\n'
SHORT = {'github': 'github', 'commonmarker': 'github'}
MARKS = {'redcarpet': ('.',)}
BULLETS = ('-', '+', '*')


def same_as(pre, parser, post, doc=DOC, **o):
    mkfile('d.md', doc)
    argv = pre + [parser] + post
    note('argv', tuple(argv))
    g = cli(*argv)
    o.setdefault('keep_header_levels', 6)
    w = run(api.build_toc, 'd.md', parser=parser, **o)
    w = (0, w[1]) if w[0] == 'ok' else (1, '')
    check(g == w, 'printed', g, w)
    check(fsread('d.md') == doc, 'the file is not touched')


def c_default(parser):
    same_as([], parser, ['d.md'])


def c_levels(parser):
    n = choice('1', '2', '3', '4', '5', '6')
    f = choice('-l', '--header-levels')
    same_as([], parser, choice([f, n, 'd.md'], ['d.md', f, n]), keep_header_levels=int(n))


def c_levels_default(parser):
    """the option without a value"""
    same_as([], parser, ['d.md', choice('-l', '--header-levels')])


def c_unordered(parser):
    b = choice('-', '+', '*')
    f = choice('-u', '--unordered-list-marker')
    same_as([], parser, choice([f, b, 'd.md'], ['d.md', f, b]) if b != '-' else [f + ('-' if f == '-u' else '=-'), 'd.md'], list_marker=b)


def c_unordered_default(parser):
    same_as([], parser, ['d.md', '-u'], list_marker='-')


def c_ordered(parser):
    m = choice(*MARKS.get(parser, ('.', ')')))
    f = choice('-o', '--ordered-list-marker')
    same_as([], parser, choice([f, m, 'd.md'], ['d.md', f, m]), ordered=True, list_marker=m)


def c_ordered_default(parser):
    same_as([], parser, ['d.md', choice('-o', '--ordered-list-marker')], ordered=True, list_marker='.')


def c_constant(parser):
    f = choice('-c', '--constant-ordered-list')
    x = choice((), ('-o', '.')) if parser == 'redcarpet' else choice((), ('-o', '.'), ('-o', ')'))
    same_as([], parser, [f] + list(x) + ['d.md'], constant_ordered_list=True, ordered=True, list_marker=x[1] if x else '.')


def c_links(parser):
    same_as([choice('-l', '--no-links')], parser, ['d.md'], no_links=True)


def c_indent(parser):
    same_as([choice('-i', '--no-indentation')], parser, ['d.md'], doc=choice(DOC, LOOSE), no_indentation=True)


def c_coherence(parser):
    pre, v = choice(([], False), (['-c'], True), (['--no-list-coherence'], True))
    same_as(pre, parser, ['d.md'], doc=choice(DOC, LOOSE), no_list_coherence=v)


def c_skip(parser):
    n = choice('0', '1', '2', '3', '20')
    same_as([choice('-s', '--skip-lines'), n], parser, ['d.md'], skip_lines=int(n), no_list_coherence=False)


def c_newline(parser):
    s, nl = choice((r'\n', '\n'), (r'\r', '\r'), (r'\r\n', '\r\n'))
    same_as([choice('-n', '--newline-string'), s], parser, ['d.md'], newline_string=nl)


def c_many(parser):
    """several options together"""
    x = choice(0, 1)
    if x:
        same_as(['-l', '-i', '-s', '2', '-n', r'\r\n'], parser, ['-c', '-l', '4', 'd.md'], no_links=True, no_indentation=True, skip_lines=2,
                newline_string='\r\n', constant_ordered_list=True, ordered=True, list_marker='.', keep_header_levels=4)
    else:
        same_as(['-c', '-s', '1'], parser, ['-u', '*', '-l', '2', 'd.md'], doc=LOOSE, no_list_coherence=True, skip_lines=1, list_marker='*', keep_header_levels=2)


def c_place(parser):
    """in place: the same file as the functions write"""
    m = choice(M, '[](TOC)')
    s, nl = choice((None, '\n'), (r'\r\n', '\r\n'), (r'\r', '\r'), (r'\n', '\n'))
    d = 'x\n' + M + '\n[](TOC)\n' + DOC
    mkfile('d.md', d)
    argv = [choice('-p', '--in-place')] + ([] if m == M else [choice('-m', '--toc-marker'), m]) + ([] if s is None else ['-n', s]) + [parser, 'd.md']
    note('argv', tuple(argv))
    t = api.build_toc('d.md', parser=parser, keep_header_levels=6, newline_string=nl)
    g = cli(*argv)
    check(g == (0, ''), 'status and output', g)
    w = inpl.write(d, t, m, nl)[0]
    check(fsread('d.md') == w, 'file', fsread('d.md'), w)


def c_mix(parser):
    """any combination of the options"""
    pre, post, o = [], [], {}
    for flag, k in (('-l', 'no_links'), ('-i', 'no_indentation')):
        if choice(True, False):
            pre.append(flag)
            o[k] = True
    if 'no_indentation' not in o and choice(True, False):
        pre.append('-c')
        o['no_list_coherence'] = True
    n = choice(None, '1', '3')
    if n is not None:
        pre += ['-s', n]
        o['skip_lines'] = int(n)
    l = choice(None, ['-u', '*'], ['-o', '.'], ['-c'])
    if l is not None:
        post += l
        if l[0] == '-c':
            o.update(constant_ordered_list=True, ordered=True, list_marker='.')
        elif l[0] == '-o':
            o.update(ordered=True, list_marker='.')
        else:
            o.update(list_marker='*')
    n = choice(None, '2')
    if n is not None:
        post += ['-l', n]
        o['keep_header_levels'] = int(n)
    same_as(pre, parser, post + ['d.md'], doc=choice(DOC, LOOSE), **o)


def mixed():
    pre, post, o = choice(([], [], {}), (['-l'], [], dict(no_links=True)), (['-i'], [], dict(no_indentation=True)), (['-c'], [], dict(no_list_coherence=True)),
                          (['-s', '2'], [], dict(skip_lines=2)), (['-s', '5'], [], dict(skip_lines=5)), (['-n', r'\r'], [], dict(newline_string='\r')),
                          (['-n', r'\r\n'], [], dict(newline_string='\r\n')), ([], ['-u', '+'], dict(list_marker='+')), ([], ['-o', '.'], dict(list_marker='.', ordered=True)),
                          ([], ['-c'], dict(constant_ordered_list=True, ordered=True, list_marker='.')), ([], ['-l', '1'], dict(keep_header_levels=1)),
                          ([], ['-l', '3', '-o', '.'], dict(keep_header_levels=3, list_marker='.', ordered=True)))
    o = dict(o)
    o.setdefault('keep_header_levels', 6)
    return list(pre), list(post), o


def c_compared(parser):
    """--diff changes the status only, not the table"""
    pre, post, o = mixed()
    d = choice('', M + '\n\n- [A b](#a-b)\n\n' + M + '\n', M + '\n', '[](TOC)\n') + DOC
    mkfile('d.md', d)
    m = choice([], ['-m', '[](TOC)'])
    w = run(api.build_toc, 'd.md', parser=parser, **o)
    w = ('ok', w[1]) if w[0] == 'ok' else ('exc', '')
    g = cli(*([choice('-d', '--diff')] + m + pre + [parser] + post + ['d.md']))
    check((g[0] in (0, 128)) == (w[0] == 'ok') and g[1] == w[1], 'printed', g, w)
    check(fsread('d.md') == d, 'the file is not touched')


def c_place_mix(parser):
    """in place, with any other option: what the library builds and writes"""
    pre, post, o = mixed()
    d = 'x\n' + M + choice('\n', '\n\n- [A b](#a-b)\n\n' + M + '\n') + DOC
    mkfile('e.md', d)
    w = run(api.build_toc, 'e.md', parser=parser, **o)
    nl = o.get('newline_string', '\n')
    mkfile('d.md', d)
    g = cli(*(['-p'] + choice([], ['-d']) + pre + [parser] + post + ['d.md']))
    if w[0] == 'ok':
        check(g[1] == '' and g[0] in (0, 128), 'status and output', g)
        f, eq = inpl.write(d, w[1], M, nl)
        check(fsread('d.md') == f, 'file', fsread('d.md'), f)
    else:
        check(g == (1, ''), 'refused', g)
        check(fsread('d.md') == d, 'file untouched')


def c_forms(parser):
    """values given with an equals sign or without a blank"""
    k = choice(0, 1, 2, 3, 4, 5, 6, 7)
    if k == 0:
        same_as(['--skip-lines=2'], parser, ['d.md'], skip_lines=2)
    elif k == 1:
        same_as(['-s2'], parser, ['d.md'], skip_lines=2)
    elif k == 2:
        same_as([], parser, ['--header-levels=2', 'd.md'], keep_header_levels=2)
    elif k == 3:
        same_as([], parser, ['-l2', 'd.md'], keep_header_levels=2)
    elif k == 4:
        same_as([], parser, ['--ordered-list-marker=.', 'd.md'], ordered=True, list_marker='.')
    elif k == 5:
        same_as([], parser, ['--unordered-list-marker=*', 'd.md'], list_marker='*')
    elif k == 6:
        same_as([r'--newline-string=\r\n'], parser, ['d.md'], newline_string='\r\n')
    else:
        same_as(['-lc'], parser, ['d.md'], doc=LOOSE, no_links=True, no_list_coherence=True)


def c_files(parser):
    """several files: one table each, one after the other"""
    n = choice(2, 3, 5)
    names, w = [], ''
    for i in range(n):
        mkfile('f%d.md' % i, choice('# a\n# a\n', '# b\n## c\n') if i < 2 else '# z%d\n' % i)
        names.append('f%d.md' % i)
    for f in names:
        w += api.build_toc(f, parser=parser, keep_header_levels=6)
    g = cli(parser, *names)
    check(g == (0, w), 'printed', g, w)


def c_stdin(parser):
    set_stdin(DOC)
    mkfile('d.md', DOC)
    g = cli(*([parser] + choice([], ['-'])))
    w = api.build_toc('d.md', parser=parser, keep_header_levels=6)
    check(g == (0, w), 'standard input', g, w)


CASES = []
for p in ALL:
    for f in (c_compared, c_place_mix, c_forms, c_levels_default, c_default, c_levels, c_unordered, c_unordered_default, c_ordered, c_ordered_default, c_constant, c_links, c_indent, c_coherence, c_skip, c_newline, c_many, c_place, c_files, c_stdin, c_mix):
        CASES.append(('%s %s' % (f.__name__[2:], p), f, p))
