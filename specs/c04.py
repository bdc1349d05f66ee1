"""C04 the level filter."""
from specs.docs import *
ANCHORS = ['md_toc.api.get_atx_heading', 'md_toc.api.build_toc']


def c_visible(parser, keep):
    line = note('line', choice('', ' ') + star('[#]', 1, 7) + choice(' ', '', '\t', ' x', ' x #', 'x', ' \\'))
    r = run(api.get_atx_heading, line, keep, parser, True)
    check(r[0] == 'ok', 'raised', r)
    r = r[1][0]
    w = ref.ref_heading(line, parser)
    if w is None:
        check(not r['visible'], 'not a heading', r)
    else:
        check(r['visible'] == (w[0] <= keep), 'visible iff level within the limit', r, w, keep)
        check(r['header_text_trimmed'] == w[1], 'hidden headings keep their text', r, w)
        check(r['header_type'] == w[0], 'hidden headings keep their level', r, w)


def c_invalid(parser):
    keep = anyint(-9, 0)
    r = run(api.get_atx_heading, '# a', keep, parser, True)
    check(r == ('exc', 'ValueError'), 'limits below one are refused', r)
    r = run(api.get_md_header, '# a', {}, keep, parser, True)
    check(r == ('exc', 'ValueError'), 'limits below one are refused', r)
    r = toc('# a\n', parser, keep_header_levels=keep)
    check(r == ('exc', 'ValueError'), 'limits below one are refused', r)


def c_invalid_any(parser):
    """whatever the line is, and whatever the other arguments are"""
    keep = choice(0, -1, -7)
    line = note('line', star('[^\n\r\U0010ffff]', 0, 3) + choice('', 'x', '# y'))
    r = run(api.get_atx_heading, line, keep, parser, choice(True, False))
    check(r == ('exc', 'ValueError'), 'limits below one are refused', r)
    r = run(api.get_md_header, line, {}, keep, parser, choice(True, False))
    check(r == ('exc', 'ValueError'), 'limits below one are refused', r)


def c_invalid_doc(parser):
    keep = choice(0, -1, -7)
    doc = note('document', choice('', 'x\n') + choice(' # a\n', 'x\n', '\n', '## b', '```\n# a\n```\n# c\n', '#\n', 'a\n===\n'))
    r = (toc if choice(True, False) else toc_stdin)(doc, parser, keep_header_levels=keep, ordered=choice(False, True),
                                                    no_links=choice(False, True), no_indentation=choice(False, True))
    check(r == ('exc', 'ValueError'), 'limits below one are refused', r)


def c_doc(parser, keep):
    """hidden headings are left out, and still count for duplicates"""
    a = star('[#]', 1, 6)
    b = star('[#]', 1, 6)
    lines = ['# x', a + ' y', b + ' y', '# y']
    note('lines', tuple(lines))
    agree(lines, parser, keep=keep, no_indentation=choice(False, True), slug=slug_of(parser))


def c_ordered(parser, keep):
    lines = [star('[#]', 1, 6) + ' a', star('[#]', 1, 6) + ' b', star('[#]', 1, 6) + ' c']
    note('lines', tuple(lines))
    agree(lines, parser, keep=keep, ordered=True, no_list_coherence=True, no_links=True, slug=slug_of(parser))


def c_default(parser):
    lines = [star('[#]', 1, 6) + ' a']
    note('lines', tuple(lines))
    mkfile('d.md', lines[0] + '\n')
    g = run(api.build_toc, 'd.md', parser=parser)
    w = want(lines, parser, keep=3)
    check(g == w, 'three levels by default', g, w)


def c_many(parser):
    """a long document: hidden headings before, between and after"""
    n = choice(12, 40, 300)
    keep = choice(1, 2, 3, 6)
    lines = []
    for i in range(n):
        lines += ['# a%d' % i, '#' * (2 + i % 5) + ' b']
    lines += [star('[#]', 1, 6) + ' b', '# a0']
    agree(lines, parser, keep=keep, no_list_coherence=True, slug=slug_of(parser), constant=choice(False, True))


def c_options(parser):
    """the limit holds under every combination of the other options"""
    lines = ['# x', star('[#]', 1, 6) + ' y', star('[#]', 1, 6) + ' y']
    note('lines', tuple(lines))
    agree(lines, parser, keep=choice(1, 2, 4), ordered=choice(False, True), constant=choice(False, True), no_links=choice(False, True),
          no_indentation=choice(False, True), no_list_coherence=choice(False, True), slug=slug_of(parser))


def c_big(parser):
    keep = anyint(6, 1000000)
    lines = [star('[#]', 1, 6) + ' x']
    note('lines', tuple(lines))
    r = run(api.get_atx_heading, lines[0], keep, parser, choice(True, False))
    check(r[0] == 'ok' and r[1][0]['visible'], 'any larger limit shows every level', r)


def slug_of(parser):
    return (lambda t, p: t) if parser == 'redcarpet' else None


CASES = []
for p in ALL:
    for k in (1, 2, 3, 4, 5, 6, 7, 100):
        CASES.append(('visible %s %d' % (p, k), c_visible, p, k))
    CASES.append(('invalid %s' % p, c_invalid, p))
    CASES.append(('invalid any line %s' % p, c_invalid_any, p))
    CASES.append(('invalid document %s' % p, c_invalid_doc, p))
    CASES.append(('default %s' % p, c_default, p))
    CASES.append(('many %s' % p, c_many, p))
    CASES.append(('options %s' % p, c_options, p))
    CASES.append(('larger %s' % p, c_big, p))
    for k in range(1, 7):
        CASES.append(('document %s %d' % (p, k), c_doc, p, k))
        CASES.append(('ordered %s %d' % (p, k), c_ordered, p, k))
