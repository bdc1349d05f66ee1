"""C12 one entry per heading, in document order, in the documented form."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc', 'md_toc.api.build_toc_line_without_indentation']
PLAIN = '[a-zA-Z0-9]'


def c_entry(parser):
    t = note('text', star(r'[^\n\r]', 0, 12))
    a = note('anchor', star(r'[a-z-]', 0, 12))
    i = anyint(1, 999999999)
    ordered = choice(True, False)
    nol = choice(True, False)
    if ordered:
        m = choice('.', ')') if parser != 'redcarpet' else '.'
    else:
        m = choice('-', '+', '*')
    h = {'header_type': choice(1, 6), 'text_original': t, 'text_anchor_link': a, 'visible': True}
    r = run(api.build_toc_line_without_indentation, h, ordered, nol, i, parser, m)
    w = (str(i) + m if ordered else m) + ' ' + (t if nol else '[' + t + '](#' + a + ')')
    check(r == ('ok', w), 'entry', r, w)


def c_refuse(parser):
    h = {'header_type': 1, 'text_original': 'a', 'text_anchor_link': 'a', 'visible': True}
    m = star(r'[^\n\r]', 1, 2)
    ordered = choice(True, False)
    ok = (m == '.' or (m == ')' and parser != 'redcarpet')) if ordered else (m == '-' or m == '+' or m == '*')
    r = run(api.build_toc_line_without_indentation, h, ordered, False, 1, parser, m)
    check((r[0] == 'ok') == ok, 'only markers of the Markdown dialect are accepted', r, m)
    if not ok:
        check(r == ('exc', 'ValueError'), 'refusal', r)
    r = run(api.build_toc_line_without_indentation, h, False, False, anyint(-5, 0), parser, '-')
    check(r == ('exc', 'ValueError'), 'the number of an entry is positive', r)


def c_doc(parser, nl):
    a = 'x' + star(PLAIN, 0, 2)
    b = 'y' + star(PLAIN, 1, 1)
    lines = ['# ' + a, '', '## ' + b, '# z']
    note('lines', tuple(lines))
    ordered = choice(False, True)
    if ordered:
        m = choice('.', ')', '-', None) if parser != 'redcarpet' else choice('.', '-', ')', None)
    else:
        m = choice('-', '+', '*')
    agree(lines, parser, no_links=choice(False, True), ordered=ordered, marker=m, nl=nl, slug=slug_of(parser))


def c_other(parser):
    other = choice('text', '', '#x', '    # x', '####### x', '-', '***', '\\# x', '| # x')
    lines = [other, choice('# ', '#  ') + 'a' + choice('', ' ', ' ##'), other, '## b', other, '# z']
    note('lines', tuple(lines))
    agree(lines, parser, no_links=choice(False, True), ordered=choice(False, True), slug=slug_of(parser))


def slug_of(parser):
    return (lambda t, p: t.lower()) if parser == 'redcarpet' else None


def c_many(parser):
    """a long document: nothing is lost, repeated or reordered"""
    lines = []
    for i in range(choice(40, 120)):
        lines.append('# h%d' % i)
        lines.append('')
    agree(lines, parser, no_links=choice(False, True), ordered=choice(False, True), final=choice('\n', ''), slug=slug_of(parser))


def c_longtext(parser):
    n = choice(50, 300, 950)
    lines = ['# ' + star('[a-z]', n, n), '# b']
    agree(lines, parser, slug=slug_of(parser))


def c_empty(parser):
    d = choice('', '\n', 'text', 'text\n', '\n\n\n', '    # x\n', '#x\n')
    note('doc', d)
    g = toc(d, parser)
    check(g == ('ok', ''), 'no heading, no entry', g)


def c_dup(parser):
    """headings with the same text are listed each, under every combination of the options"""
    t = choice('b', 'a')
    lines = ['# a', choice('# ', '## ') + t, choice('# ', '## ') + t, '# a']
    note('lines', tuple(lines))
    agree(lines, parser, ordered=choice(False, True), constant=choice(False, True), no_links=choice(False, True),
          no_indentation=choice(False, True), no_list_coherence=choice(False, True), keep=choice(1, 3, 6), slug=slug_of(parser))


def c_huge(parser):
    n = choice(101, 257, 1025)
    lines = []
    for i in range(n):
        lines.append('# h%d' % (i % 9))
    agree(lines, parser, ordered=choice(False, True), no_links=choice(True, False), final=choice('\n', ''), slug=slug_of(parser))


def c_wide(parser):
    """long runs of other lines"""
    n = choice(64, 257, 1025)
    other = choice('', 'text', '    # x', '#x')
    lines = ['# a'] + [other] * n + ['# b', other, '# c']
    agree(lines, parser, ordered=choice(False, True), no_links=choice(False, True), slug=slug_of(parser))


CASES = []
for p in ALL:
    CASES.append(('entry ' + p, c_entry, p))
    CASES.append(('refuse ' + p, c_refuse, p))
    for nl, nm in (('\n', 'LF'), ('\r\n', 'CRLF'), ('\r', 'CR')):
        CASES.append(('document %s %s' % (p, nm), c_doc, p, nl))
    CASES.append(('other lines ' + p, c_other, p))
    CASES.append(('many ' + p, c_many, p))
    CASES.append(('repeated ' + p, c_dup, p))
    CASES.append(('huge ' + p, c_huge, p))
    CASES.append(('wide ' + p, c_wide, p))
    CASES.append(('long ' + p, c_longtext, p))
    CASES.append(('empty ' + p, c_empty, p))
