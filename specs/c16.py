"""C16 skipping leading lines."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc']


def c_doc(parser, stdin):
    """skipping n lines is the same as a document without them"""
    n = choice(0, 1, 2, 3, 4, 5, 50)
    lines = [choice('# a', '```'), star('[#]', 1, 2) + ' b', choice('~~~', '# c'), '# d']
    note('lines', tuple(lines))
    note('skip', n)
    o = choice(dict(no_list_coherence=True), dict(ordered=True))
    g = (toc_stdin if stdin else toc)('\n'.join(lines) + choice('\n', ''), parser, skip_lines=n, **o)
    w = toc('\n'.join(lines[n:]) + '\n' if lines[n:] else '', parser, **o)
    check(g == w, 'suffix of the document', g, w)


def c_ref(parser):
    n = choice(0, 1, 2, 3, 7)
    lines = ['# ' + star('[a-c]', 1, 1), '', choice('# B', '```'), '# c', '# ' + star('[a-c]', 1, 1)]
    note('lines', tuple(lines))
    agree(lines, parser, skip=n, slug=(lambda t, p: t.lower()) if parser == 'redcarpet' else None)


def c_any(parser):
    """any number of lines to skip beyond the document: nothing is left"""
    g = toc('# a\n# b\n# c' + choice('\n', ''), parser, skip_lines=choice(3, 4, 100))
    check(g == ('ok', ''), 'beyond the end', g)


def c_neg(parser):
    n = anyint(-10**6, -1)
    mkfile('d.md', '# a\n')
    r = run(api.build_toc, 'd.md', parser=parser, skip_lines=n)
    check(r == ('exc', 'ValueError'), 'a negative number is refused', r)


def c_many(parser):
    lines = ['# h%d' % i for i in range(30)]
    n = choice(9, 10, 11, 29, 30, 31)
    agree(lines, parser, skip=n, final=choice('\n', ''), slug=lambda t, p: t)


def c_free(parser, k):
    """whatever the skipped lines say, they are skipped"""
    lines = [star('[^\n\r\U0010ffff]', 0, k) for i in range(choice(1, 2))]
    note('lines', tuple(lines))
    g = toc('\n'.join(lines) + '\n# b\n', parser, skip_lines=len(lines))
    w = toc('# b\n', parser)
    check(g == w, 'skipped lines do not matter', g, w)


def c_far(parser):
    """many skipped lines"""
    n = choice(64, 100, 128, 257, 999, 1000, 1025)
    k = choice(-1, 0, 1)
    x = choice('# x', '', '```', 'text')
    lines = [x] * n + ['# a', '# b', '# c']
    agree(lines, parser, skip=n + k, no_links=choice(True, False), final=choice('\n', ''), slug=lambda t, p: t)


def c_wide(parser):
    """long lines are lines"""
    n = choice(79, 255, 1023, 4096, 8192, 70000)
    x = choice('x', ' ', '#') * n + choice('# z', ' # z', '\t')
    lines = ['# a', x, '# c', 'y' * n, '# d']
    note('skip', n)
    agree(lines, parser, skip=choice(0, 1, 2, 3, 4, 5), final=choice('\n', ''), slug=lambda t, p: t)


def c_options(parser):
    lines = [star('[#]', 1, 2) + ' a', '```', star('[#]', 1, 2) + ' a', '```', '# a', '# b']
    note('lines', tuple(lines))
    agree(lines, parser, skip=choice(0, 1, 2, 3, 4, 5), keep=choice(1, 3), ordered=choice(False, True), constant=choice(False, True), no_links=choice(False, True),
          no_indentation=choice(False, True), no_list_coherence=choice(False, True), slug=lambda t, p: t)


def c_newlines(parser):
    """every kind of line end counts as one line"""
    e, f = choice('\n', '\r\n', '\r'), choice('\n', '\r\n', '\r')
    n = choice(0, 1, 2, 3, 4)
    lines = ['# a', choice('x', '# b'), '# c', '# d']
    g = toc(lines[0] + e + lines[1] + f + lines[2] + e + lines[3] + f, parser, skip_lines=n)
    w = want(lines, parser, skip=n, slug=lambda t, p: t)
    check(g == w, 'lines', g, w)


CASES = []
for p in ALL:
    CASES.append(('document %s file' % p, c_doc, p, False))
    CASES.append(('reference %s' % p, c_ref, p))
    CASES.append(('beyond %s' % p, c_any, p))
    CASES.append(('negative %s' % p, c_neg, p))
    CASES.append(('many %s' % p, c_many, p))
    CASES.append(('far %s' % p, c_far, p))
    CASES.append(('wide %s' % p, c_wide, p))
    CASES.append(('options %s' % p, c_options, p))
    CASES.append(('line ends %s' % p, c_newlines, p))
    CASES.append(('free %s' % p, c_free, p, 3))
    CASES.append(('+free 5 %s' % p, c_free, p, 5))
CASES.append(('document github stdin', c_doc, 'github', True))
CASES.append(('document redcarpet stdin', c_doc, 'redcarpet', True))
