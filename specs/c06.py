"""C06 opening code fences."""
from specs.util import *
from specs import ref
from md_toc import api
ANCHORS = ['md_toc.api.is_opening_code_fence', 'md_toc.api.is_valid_code_fence_indent']


def one(line, parser, nl):
    note('line', line)
    r = run(api.is_opening_code_fence, line + nl, parser)
    w = ref.ref_open(line, parser)
    check(r == ('ok', w), 'fence', r, w)


def c_any(parser, k):
    one(star('[^\n\r]', k, k), parser, choice('', '\n'))


def c_shape(parser, ind):
    one(star('[ ]', ind, ind) + star('[`~]', 0, 5) + star('[^`~\n\r]', 0, 2) + star('[`~]', 0, 2), parser, choice('', '\n'))


def c_long(parser, n):
    f = choice('`', '~')
    one(choice('', '   ', '    ', '\t') + f * n + choice('', ' ', '\t', 'x', ' x', '`', '~', ' `', ' ~', ' x`y', ' x~y', '\\`'), parser, '\n')


def c_info(parser, n):
    one(choice('', '  ', '    ') + choice('```', '~~~', '`````', '~~~~', '``', '~~') + star('[^`\n\r~]', n, n) + choice('', '`', '~', ' ` ', '```'), parser, '\n')


def c_indent(parser):
    n = anyint(0, 9)
    line = star('[ ]', 0, 9) + choice('', 'x', '```', '~~~', '\t```')
    note('line', line)
    k = len(line) - len(line.lstrip(' '))
    r = run(api.is_valid_code_fence_indent, line, parser)
    check(r == ('ok', parser != 'redcarpet' and k <= 3), 'indentation', r, k)


def c_size(parser):
    """runs far longer than usual, one at a time"""
    k = choice('indent', 'fence', 'info', 'second', 'tail')
    n = choice(4, 7, 8, 9, 16, 17, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001, 1025, 3000)
    f = choice('`', '~')
    if k == 'indent':
        one(' ' * n + f * 3, parser, '\n')
    elif k == 'fence':
        one(choice('', '  ') + f * n + choice('', 'x', '`', '~', ' x ~', ' x `'), parser, '\n')
    elif k == 'info':
        one(f * 3 + choice('a', ' ', 'a b ', '\xe9') * n + choice('', '`', '~', 'x'), parser, '\n')
    elif k == 'second':
        one(f * 3 + 'x' + choice('`', '~') * n, parser, '\n')
    else:
        one(f * 3 + choice(' ', '\t', '\\') * n + choice('', '`', '~'), parser, '\n')


def c_combo(parser):
    """blank characters of every kind before and after the run"""
    B = '[ \t\x0b\x0c\x1c-\x1f\x85\xa0\u1680\u2000-\u200b\u2028\u2029\u202f\u205f\u3000\ufeff]'
    one(choice('', char(B), ' ' + char(B), char(B) + ' ') + choice('```', '~~~', '``', '~~~~', '``~', '~~`') + choice('', char(B), char(B) + 'x', char(B) + '`', 'x' + char(B) + '~'), parser, choice('', '\n', '\r\n'))


CASES = []
for p in ALL:
    for k in range(0, 8):
        CASES.append(('any %s %d' % (p, k), c_any, p, k))
    for k in (8, 9):
        CASES.append(('+any %s %d' % (p, k), c_any, p, k))
    for k in range(6):
        CASES.append(('shape %s %d' % (p, k), c_shape, p, k))
    for n in (1, 2, 3, 4, 5, 8, 20, 80):
        CASES.append(('long %s %d' % (p, n), c_long, p, n))
    for n in (1, 10, 60):
        CASES.append(('info %s %d' % (p, n), c_info, p, n))
    CASES.append(('indent %s' % p, c_indent, p))
    CASES.append(('size %s' % p, c_size, p))
    CASES.append(('blanks %s' % p, c_combo, p))
