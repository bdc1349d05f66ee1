"""C07 closing code fences."""
from specs.util import *
from specs import ref
from md_toc import api
ANCHORS = ['md_toc.api.is_closing_code_fence']


def one(line, fence, parser, nl):
    note('line', line)
    note('fence', fence)
    r = run(api.is_closing_code_fence, line + nl, fence, False, parser)
    if parser == 'redcarpet':
        w = False
    else:
        w = ref.ref_close(line, fence, parser)
    check(r == ('ok', w), 'closing', r, w)


def c_any(parser, k, f):
    one(star('[^\n\r]', k, k), f, parser, choice('', '\n'))


def c_shape(parser, f):
    one(star('[ ]', 0, 5) + star('[`~]', 0, 6) + star('[ \ta]', 0, 2), f, parser, choice('', '\n'))


def c_long(parser, n):
    """the fence length n against closing lines around it"""
    f = choice('`', '~')
    g = choice('`', '~')
    one(choice('', ' ', '   ', '    ', '\t') + g * choice(n - 1, n, n + 1, n + 7) + choice('', ' ', '\t', ' \t', 'x', ' x', '~', '`', '     '),
        f * n, parser, '\n')


def c_end(parser):
    """the end of the document closes any fence"""
    f = choice('```', '~~~', '````', '~~~~~')
    l = note('line', choice('', ' ', '   ') + star('[^ \n\r]', 2, 2))
    assume(ref.ref_close('', f, parser) is False)
    r = run(api.is_closing_code_fence, l, f, True, parser)
    check(r == ('ok', parser != 'redcarpet'), 'document end', r)


def c_size(parser):
    """runs far longer than usual, one at a time"""
    k = choice('indent', 'close', 'both', 'trail', 'text')
    n = choice(7, 8, 9, 16, 17, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001, 1025, 3000)
    f = choice('`', '~')
    o = '~' if f == '`' else '`'
    if k == 'indent':
        one(' ' * n + f * 3, f * 3, parser, '\n')
    elif k == 'close':
        one(choice('', '  ') + f * n + choice('', ' ', 'x', o), f * choice(3, 4, 5), parser, '\n')
    elif k == 'both':
        one(f * choice(n - 1, n, n + 1, 3) + choice('', ' '), f * n, parser, '\n')
    elif k == 'trail':
        one(f * 3 + choice(' ', '\t', ' \t') * n + choice('', 'x', f), f * 3, parser, '\n')
    else:
        one(f * 3 + choice('a', o, '\xe9', f + o, o + f) * n, f * 3, parser, '\n')


def c_mixed(parser):
    """one character out of place, anywhere in the run"""
    f = choice('`', '~')
    a = choice(0, 1, 2, 3, 4, 10, 80, 200)
    b = choice(0, 1, 2, 3, 4, 10, 80, 200)
    one(choice('', ' ') + f * a + char('[^\n\r]') + f * b + choice('', ' ', '\t'), f * choice(3, 4), parser, choice('', '\n'))


def c_combo(parser):
    """blank characters of every kind before and after the run"""
    B = '[ \t\x0b\x0c\x1c-\x1f\x85\xa0\u1680\u2000-\u200b\u2028\u2029\u202f\u205f\u3000\ufeff]'
    f = choice('`', '~')
    one(choice('', char(B), ' ' + char(B), char(B) + ' ') + f * choice(2, 3, 4) + choice('', char(B), char(B) + 'x', char(B) + ' ', ' ' + char(B), char(B) + f), f * 3, parser, choice('', '\n'))


CASES = []
for p in ALL:
    for f in ('```', '~~~', '````', '~~~~~'):
        for k in range(0, 7):
            CASES.append(('any %s %s %d' % (p, f, k), c_any, p, k, f))
        CASES.append(('+any %s %s %d' % (p, f, 8), c_any, p, 8, f))
        CASES.append(('shape %s %s' % (p, f), c_shape, p, f))
    for n in (3, 4, 5, 8, 20, 80):
        CASES.append(('long %s %d' % (p, n), c_long, p, n))
    CASES.append(('document end %s' % p, c_end, p))
    CASES.append(('size %s' % p, c_size, p))
    CASES.append(('mixed %s' % p, c_mixed, p))
    CASES.append(('blanks %s' % p, c_combo, p))
