"""C03 redcarpet headings."""
from specs.util import *
from specs import ref
from md_toc import api
ANCHORS = ['md_toc.api.get_atx_heading']
P = 'redcarpet'


def one(line, nl=''):
    note('line', line)
    r = run(api.get_atx_heading, line + nl, 6, P, True)
    w = ref.ref_heading(line, P)
    check(r[0] == 'ok', 'raised', r)
    r = r[1]
    check(len(r) == 1, 'one result', r)
    if w is None:
        check(r[0]['header_type'] is None and r[0]['header_text_trimmed'] is None and not r[0]['visible'], 'not a heading', r)
    else:
        check(r[0]['header_type'] == w[0], 'level', r[0]['header_type'], w[0])
        check(r[0]['header_text_trimmed'] == w[1], 'text', r[0]['header_text_trimmed'], w[1])
        check(r[0]['visible'], 'visible')


def c_any(k):
    one(star('[^\n\r]', k, k), choice('', '\n'))


def c_shape(i):
    one(star('[ ]', i, i) + star('[#]', 0, 9) + star('[ ]', 0, 3) + star('[a-z]', 0, 3) + star('[ ]', 0, 2) + star('[#]', 0, 4) + star('[ ]', 0, 2))


def c_long(n):
    one(star('[#]', 1, 7) + choice(' ', '\t', '') + star('[^\n\r# ]', n, n) + choice('', ' ', ' ##', '##', ' ## ', '# #'), choice('', '\n', '\r\n'))


def c_longest(n):
    one('# ' + star('[^\n\r# ]', n, n) + choice('', ' #'))


def c_size():
    """runs far longer than usual, one at a time"""
    k = choice('indent', 'hashes', 'sep', 'text', 'close', 'trail')
    n = choice(5, 7, 8, 9, 16, 17, 33, 64, 65, 79, 80, 81, 100, 128, 129, 256, 257, 300, 999, 1000, 1001, 1025, 3000)
    if k == 'indent':
        one(' ' * n + '# a')
    elif k == 'hashes':
        one('#' * n + choice('', ' a', 'a', ' '))
    elif k == 'sep':
        one('##' + choice(' ', '\t') * n + choice('a', '', 'a #', '#'))
    elif k == 'text':
        one('# ' + choice('a', '\xe9', '.', '\t') * n + char('[^#\n\r ]') + choice('', '#', ' #', ' ## '))
    elif k == 'close':
        one('# ' + choice('a', 'a ', '', 'a\\', '# ') + '#' * n + choice('', ' ', 'x', ' x', '  '))
    else:
        one('# a' + choice('', ' #', '#', ' ##') + choice(' ', '\t') * n)


def c_combo():
    B = '[ \t\x0b\x0c\x1c-\x1f\x85\xa0\u1680\u2000-\u200b\u2028\u2029\u202f\u205f\u3000\ufeff]'
    one(choice('', char(B)) + star('[#]', 1, 7) + choice('', char(B)) + choice('x', 'x#', '', 'x\\') + choice('', char(B), ' ' + char(B)) + choice('', '#', '##')
        + choice('', char(B)), choice('', '\n'))


CASES = [('size', c_size), ('blanks', c_combo)]
CASES += [('any %d' % k, c_any, k) for k in range(1, 10)]
CASES += [('shape %d' % k, c_shape, k) for k in (0, 1, 3)]
CASES += [('long %d' % n, c_long, n) for n in (1, 30, 100)]
CASES += [('longest', c_longest, 600), ('+long 400', c_long, 400)]
CASES += [('+any %d' % k, c_any, k) for k in (10, 11)]
