"""C22 exit statuses."""
from specs.cli import *
from specs.inpl import M
from specs import inpl
ANCHORS = ['md_toc.cli.CliToApi.write_toc', 'md_toc.__main__.main']


def status(label, want, *argv):
    note('argv', tuple(argv))
    g = cli(*argv)
    check(g[0] == want, label, g, want)
    return g


def c_ok(parser):
    mkfile('d.md', '# ' + star('[a-c]', 1, 2) + '\n')
    status('a table was built', 0, parser, 'd.md')


def c_diff(parser, place):
    t = star('[a-c]', 1, 2)
    doc = choice(M + '\n\n- [a](#a)\n\n' + M + '\n# ' + t + '\n', '# ' + t + '\n', M + '\n# ' + t + '\n', '')
    note('document', doc)
    mkfile('d.md', doc)
    toc = '- [' + t + '](#' + t + ')' if doc else ''
    want = 0 if inpl.write(doc, toc, M, '\n')[1] else 128
    g = cli(*([choice('-d', '--diff')] + (['-p'] if place else []) + [parser, 'd.md']))
    check(g[0] == want, 'with --diff', g, want)
    check(g[1] == ('' if place or not doc else toc + '\n'), 'output', g)


def c_nodiff(parser, place):
    """without --diff a difference is no failure"""
    mkfile('d.md', choice(M + '\n\n- [a](#a)\n\n' + M + '\n', '') + '# ' + star('[a-c]', 1, 2) + '\n')
    status('without --diff', 0, *((['-p'] if place else []) + [parser, 'd.md']))


def c_several(parser, place):
    """with several files the status tells if any differs"""
    same = M + '\n\n- [a](#a)\n\n' + M + '\n# a\n'
    diff = M + '\n\n- [b](#b)\n\n' + M + '\n# a\n'
    n = choice(2, 3, 6)
    want = 0
    names = []
    for i in range(n):
        d = choice(same, diff) if i < 2 or i == n - 1 else same
        if d == diff:
            want = 128
        mkfile('d%d.md' % i, d)
        names.append('d%d.md' % i)
    status('several files', want, *(['-d'] + (['-p'] if place else []) + [parser] + names))


def c_error(parser):
    """anything that prevents a table is status 1 and prints no table"""
    doc, pre = choice(('## a\n# b\n', []), ('# a\n### b\n', []), ('# a\n', ['-s', '-1']), (None, []), (None, ['-p']), (None, ['-d']))
    if doc is not None:
        mkfile('d.md', doc)
    g = status('error', 1, *(pre + [parser, 'd.md']))
    check(g[1] == '', 'no output', g)


def c_empty(parser):
    mkfile('d.md', '#\n')
    g = status('empty label', 0 if parser == 'redcarpet' else 1, parser, 'd.md')


def c_stdin_place(parser):
    set_stdin('# a\n')
    g = status('standard input cannot be written', 1, *(['-p', parser] + choice([], ['-'])))


def c_usage(parser):
    a = choice([], ['nothing', 'd.md'], ['-c', '-i', parser, 'd.md'], ['-s', 'x', parser, 'd.md'], ['-n', 'z', parser, 'd.md'],
               [parser, '-l', '0', 'd.md'], [parser, '-l', '7', 'd.md'], [parser, '-u', 'x', 'd.md'], [parser, '-o', '-', 'd.md'],
               [parser, '-u', '+', '-o', '.', 'd.md'], ['-x', parser, 'd.md'], ['-m'])
    mkfile('d.md', M + '\n# a\n')
    g = status('invalid command', 2, *a)
    check(g[1] == '', 'no output', g)
    check(fsread('d.md') == M + '\n# a\n', 'file')


def c_names(parser):
    """only the documented names of parsers are known"""
    a = choice('commonmark', 'markdown', 'GitHub', 'Gitlab', 'gfm', 'git', 'githubs', 'red', 'redcarpets', 'common-marker', 'gitea', 'mark', 'c', 'cmarks',
               'goldmarks', 'gold', 'kramdown', 'pandoc', 'd.md', '')
    mkfile('d.md', M + '\n# a\n')
    g = status('unknown parser', 2, a, 'd.md')
    check(g[1] == '', 'no output', g)
    check(fsread('d.md') == M + '\n# a\n', 'file')


def c_fail_several(parser, place):
    """one bad file among several is an error, whatever the others are"""
    same = M + '\n\n- [a](#a)\n\n' + M + '\n# a\n'
    n = choice(2, 3)
    at = choice(0, 1, 2)
    assume(at < n)
    bad = choice('## a\n# b\n', None)
    names = []
    for i in range(n):
        if i == at:
            if bad is not None:
                mkfile('d%d.md' % i, bad)
        else:
            mkfile('d%d.md' % i, choice(same, '# b\n'))
        names.append('d%d.md' % i)
    status('one bad file', 1, *(choice(['-d'], []) + (['-p'] if place else []) + [parser] + names))


def c_options(parser):
    """the status does not depend on the form of the table"""
    pre = choice([], ['-l'], ['-i'], ['-s', '1'], ['-n', '\\r\\n'])
    post = choice([], ['-o', '.'], ['-c'], ['-u', '*'], ['-l', '1'])
    mkfile('d.md', M + '\n# a\n## b\n# c\n')
    status('written', 0, *(['-p'] + pre + [parser] + post + ['d.md']))
    status('equal now', 0, *(['-d'] + pre + [parser] + post + ['d.md']))
    status('equal now', 0, *(['-d', '-p'] + pre + [parser] + post + ['d.md']))
    t = fsread('d.md')
    mkfile('d.md', t + '# z\n')
    status('different', 128, *(['-d'] + pre + [parser] + post + ['d.md']))
    status('different', 128, *(['-d', '-p'] + pre + [parser] + post + ['d.md']))
    status('equal again', 0, *(['-d'] + pre + [parser] + post + ['d.md']))


def c_help(parser):
    status('help and version', 0, *choice(['-h'], ['-v'], ['--version'], [parser, '-h']))


CASES = []
for p in ALL:
    for pl in (False, True):
        CASES.append(('diff %s%s' % (p, ' in place' if pl else ''), c_diff, p, pl))
        CASES.append(('no diff %s%s' % (p, ' in place' if pl else ''), c_nodiff, p, pl))
        CASES.append(('one bad file %s%s' % (p, ' in place' if pl else ''), c_fail_several, p, pl))
        CASES.append(('several %s%s' % (p, ' in place' if pl else ''), c_several, p, pl))
    for f in (c_ok, c_error, c_empty, c_stdin_place, c_usage, c_names, c_help, c_options):
        CASES.append(('%s %s' % (f.__name__[2:].replace('_', ' '), p), f, p))
