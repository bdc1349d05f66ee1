"""C01 heading recognition and level (CommonMark family)."""
from specs.util import *
from specs import ref
from md_toc import api
ANCHORS = ['md_toc.api.get_atx_heading', 'md_toc.api.get_md_header']


def level(line, parser, keep=6):
    note('line', line)
    r = run(api.get_atx_heading, line, keep, parser, True)
    check(r[0] == 'ok', 'raised', r)
    r = r[1]
    check(len(r) == 1, 'one result per line', r)
    w = ref.ref_level(line, parser)
    check(r[0]['header_type'] == (None if w is None else w[0]), 'level', r[0]['header_type'], w)


def c_any(parser, k):
    level(star('[^\n\r]', k, k), parser)


def c_shape(parser, ind):
    line = star('[ ]', ind, ind) + star('[#]', 0, 9) + choice('', char('[^#\n\r]')) + choice('', star('[a-z]', 0, 40))
    level(line, parser)


def c_long(parser, n):
    level(choice('', ' ', '   ', '    ', '\t') + star('[#]', 1, 8) + choice(' ', '\t', 'a', '.') + star('[a-z]', n, n) + choice('', ' #', '#', ' ## '), parser)


def c_longest(parser, n):
    level(choice('### ', '   ###### ', '    # ') + star('[a-z]', n, n), parser)


def c_md(parser, k):
    """the same verdict through the function that builds table of contents entries"""
    line = note('line', choice('', ' ', '    ') + star('[#]', 0, 8) + star('[ \ta]', k, k))
    r = run(api.get_md_header, line + choice('', '\n'), {}, 6, parser, True)
    check(r[0] == 'ok', 'raised', r)
    w = ref.ref_level(line, parser)
    r = r[1]
    check(len(r) == 1, 'one result per line', r)
    if w is None:
        check(r[0] is None, 'not a heading', r)
    else:
        check(r[0] is not None and r[0]['header_type'] == w[0], 'level', r, w)


def c_size(parser):
    """runs far longer than usual, one at a time"""
    k = choice('indent', 'hashes', 'sep', 'text', 'tail')
    n = choice(7, 8, 16, 17, 33, 64, 65, 100, 128, 129, 256, 257, 300, 999, 1000, 1001, 1025, 3000)
    if k == 'indent':
        level(' ' * n + '# a', parser)
    elif k == 'hashes':
        level(choice('', '  ') + '#' * n + choice('', ' a', 'a'), parser)
    elif k == 'sep':
        level(star('[#]', 1, 7) + choice(' ', '\t') * n + choice('', 'a', '#'), parser)
    elif k == 'text':
        level(choice('', '    ') + star('[#]', 1, 7) + choice(' ', '') + choice('a', '\xe9', '.', '\xa0') * n + char('[^#\n\r \t]'), parser)
    else:
        level('## a' + choice(' ', '') + choice('#', ' ', '\t') * n, parser)


def c_combo(parser):
    """blank characters of every kind around the hashes"""
    B = '[ \t\x0b\x0c\x1c-\x1f\x85\xa0\u1680\u2000-\u200b\u2028\u2029\u202f\u205f\u3000\ufeff]'
    level(choice('', char(B), ' ' + char(B), char(B) + ' ') + star('[#]', 1, 7) + choice('', char(B), char(B) + 'x', 'x', ' ' + char(B), char(B) + char(B) + 'x', '\\ x'), parser)


CASES = []
for p in CMARK:
    for k in range(1, 13):
        CASES.append(('any %s %d' % (p, k), c_any, p, k))
    for k in (13, 14):
        CASES.append(('+any %s %d' % (p, k), c_any, p, k))
    for k in (0, 1, 2, 3, 4, 5, 12):
        CASES.append(('shape %s %d' % (p, k), c_shape, p, k))
    for n in (20, 80):
        CASES.append(('long %s %d' % (p, n), c_long, p, n))
    CASES.append(('+long %s 300' % p, c_long, p, 300))
    CASES.append(('longest %s' % p, c_longest, p, 600))
    CASES.append(('size %s' % p, c_size, p))
    CASES.append(('blanks %s' % p, c_combo, p))
    for k in range(3):
        CASES.append(('entry %s %d' % (p, k), c_md, p, k))
