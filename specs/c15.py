"""C15 redcarpet anchors."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_anchor_link']
P = 'redcarpet'
STRIPPED = ' -&+$,/:;=?@"#{}|^~[]`\\*()%.!\''


def slug(t):
    """words of kept characters in lower case, joined by single dashes"""
    out = ''
    pend = False
    for c in t:
        if ord(c) > 127 or STRIPPED.find(c) >= 0:
            pend = True
        else:
            if pend and out != '':
                out += '-'
            pend = False
            out += c.lower()
    return out


def c_any(k):
    t = note('text', star(r'[^\n\r<&]', k, k))
    w = slug(t)
    assume(w != '')
    r = run(api.build_anchor_link, t, {}, P)
    check(r == ('ok', w), 'anchor', r, w)


def c_amp():
    t = note('text', choice('a', 'ab ', '') + choice('&', ' & ', '<', ' < ', '&&') + star('[a-zA-Z .]', 0, 2) + 'z' + choice('&', '', ' &', '.'))
    w = ''
    s = t.replace('&', '').replace('<', '')
    r = run(api.build_anchor_link, t, {}, P)
    check(r == ('ok', slug(s)), 'anchor', r, slug(s))


def c_none():
    """nothing left: a name derived from the text"""
    a = choice('!', '.', '!!', 'é', '日本', '---', '?')
    b = choice('!', '.', '!!', 'é', '日本', '---', '?')
    r = run(api.build_anchor_link, a, {}, P)
    check(r[0] == 'ok' and r[1][:5] == 'part-' and len(r[1]) > 5 and r[1][5:].isalnum(), 'derived name', r)
    h = 5381
    for c in a:
        h = h * 33 + ord(c)
    check(r[1] == 'part-' + '%x' % h, 'hash of the text', r)
    q = run(api.build_anchor_link, b, {}, P)
    check((q == r) == (a == b), 'distinct texts are told apart', r, q)


def c_nodup():
    """no numbering of duplicates"""
    d = {}
    r1 = run(api.build_anchor_link, 'a b', d, P)
    r2 = run(api.build_anchor_link, 'a b', d, P)
    check(r1 == ('ok', 'a-b') and r2 == r1, 'same anchor', r1, r2)


def c_long(n):
    t = star('[a-zA-Z]', n, n) + choice(' ', ' - ', '. ', '_', '>', '', 'é') + star('[0-9a-z_]', n, n) + choice('', '!', ' ', '...')
    r = run(api.build_anchor_link, t, {}, P)
    check(r == ('ok', slug(t)), 'anchor', r, slug(t))


def c_doc():
    t = 'x' + star(r'[A-Za-z0-9 .,!-]', 3, 3)
    note('text', t)
    agree(['# ' + t], P, slug=lambda t, p: slug(t))


def derived(t):
    h = 5381
    for c in t:
        h = h * 33 + ord(c)
    return 'part-' + '%x' % h


def c_none_long():
    """nothing left of a longer text"""
    n = choice(1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 16, 20, 32, 33, 60, 100)
    u = choice('!', '.', '\xe9', '\u65e5', '?!', '- ', '\U0001f600')
    t = note('text', u * n)
    r = run(api.build_anchor_link, t, {}, P)
    check(r == ('ok', derived(t)), 'hash of the text', r, derived(t))


def c_size(us):
    n = choice(2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257, 300, 1025)
    u = choice(*us)
    t = note('text', choice('x', '', '-', ' ') + u * n + choice('', 'y', '-', ' '))
    w = slug(t)
    r = run(api.build_anchor_link, t, {}, P)
    if w == '':
        w = derived(t)
    check(r == ('ok', w), 'anchor', r, w)


def c_at():
    n = choice(1, 2, 3, 7, 15, 31, 63, 100, 127, 254, 255, 256, 500)
    t = note('text', 'a' * n + char(r'[^\n\r<&]') + choice('b' * n, ''))
    r = run(api.build_anchor_link, t, {}, P)
    check(r == ('ok', slug(t)), 'anchor', r, slug(t))


CASES = [('nothing left of more', c_none_long), ('size words', c_size, ('a', 'B', '_', '1')), ('size signs', c_size, ('-', ' ', '.', '\xe9')), ('size mixed', c_size, ('a ', ' a', 'a-')), ('size more', c_size, ('a--', '.a', 'a\xe9')), ('position', c_at)]
CASES += [('any %d' % k, c_any, k) for k in range(1, 6)]
CASES += [('+any %d' % k, c_any, k) for k in (6, 7, 8)]
CASES += [('bare signs', c_amp), ('nothing left', c_none), ('no numbering', c_nodup), ('document', c_doc)]
CASES += [('long %d' % n, c_long, n) for n in (3, 40, 100)]
CASES += [('+long 400', c_long, 400)]
