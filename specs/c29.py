"""C29 inline HTML is removed from anchors, and nothing else (CommonMark family)."""
from specs.docs import *
ANCHORS = ['md_toc.api.remove_html_tags', 'md_toc.api.build_anchor_link']
RAW = ('title', 'textarea', 'style', 'xmp', 'iframe', 'noembed', 'noframes', 'script', 'plaintext')


def name():
    return choice('b', 'h1', star('[a-z]', 1, 1) + star('[a-z0-9-]', 0, 2), 'SPAN')


def attr():
    n = choice('a', '_x', ':b', 'data-' + star('[a-z]', 1, 1), 'x.y')
    v = choice('', '=v', '="' + star('[^\0"\n\r\U0010ffff]', 0, 2) + '"', "='" + star("[^\0'\n\r\U0010ffff]", 0, 2) + "'", ' = "x"', '=#1')
    return ' ' + choice('', ' ') + n + v


def opening(k):
    return '<' + choice('b', 'h1', 'SPAN', 'a-b') + (attr() if k else '') + choice('', ' ') + choice('', '/') + '>'


def gone(t, parser, a='x', b='y'):
    note('text', a + t + b)
    r = run(api.remove_html_tags, a + t + b, parser)
    check(r == ('ok', a + b), 'removed', r, a + b)


def kept(t, parser):
    note('text', t)
    r = run(api.remove_html_tags, t, parser)
    check(r == ('ok', t), 'left alone', r, t)


def c_open(parser, k):
    gone(opening(k), parser)


def c_name(parser):
    gone(choice('<', '</') + star('[a-wyzA-WYZ]', 1, 1) + star('[a-zA-Z0-9-]', 0, 2) + '>', parser, choice('', 'x', ' '), choice('', 'y'))


def c_two(parser):
    gone('<a b c="d" ' + choice("e='>'", 'f=g h') + '>', parser)
    gone('', parser, choice('<b>x</b>', '<i>x</i ><br/>').replace('<b>', '').replace('</b>', '').replace('<i>', '').replace('</i >', '').replace('<br/>', ''))
    r = run(api.remove_html_tags, '<b>x</b> <i>y</i>' + choice('', '<br/>', '<!-- z -->') + 'w', parser)
    check(r == ('ok', 'x yw'), 'all of them', r)


def c_comment(parser):
    t = choice('', 'c', ' c ', 'a-b', 'a>b', 'a->b', '<b>', star('[^>\n\r\U0010ffff-]', 1, 2))
    gone('<!--' + t + '-->', parser)


def c_pi(parser):
    gone('<?' + choice('', 'a', '>', '??', star('[^?\n\r\U0010ffff]', 1, 2)) + '?>', parser)


def c_decl(parser):
    gone('<!' + star('[A-Z]', 1, 2) + ' ' + star('[^>\n\r\U0010ffff]', 1, 2) + '>', parser)


def c_cdata(parser):
    gone('<![CDATA[' + choice('', 'a', '>', ']', '<b>', ']]', star('[^\\]\n\r\U0010ffff]', 1, 2)) + ']]>', parser)


def c_plain(parser, k):
    kept(star('[^<]', 0, k), parser)


def c_not(parser):
    kept(choice('< a>', '<1>', '<a', 'a > b', '<', '<>', 'a<b', '</ a>', '<a b=>', '<a ="x">', '<a "b">', '<a b="c>', '<?a', '<!--a', '<!a', '<&>', '<_>', '<$a>', '<a*b>', '</a b>', '<!--a-- >', '<!--a--', '<!--a- ->', '<! --a-->', '< !--a-->', '<!-a->', '<?a? >', '<? a ?', '< ?a?>', '<![CDATA[a]] >', '<![CDATA[a] ]>', '<![cdata [a]]', '< b>', '<\tb>', '<b/ >', '<b / >', '< /b>', '<//b>', '<b<', '<b =c>', '<b c="d"e>', '<b c=d"e>', "<b c='d'e>", '<b 1=c>', '<b -c>', '<b c d=>', '</b/>', '<!>', '<!1 a>', '<!-->', '<é>', '<a:b>', '<a@b>') + choice('', ' z'), parser)


def c_raw(parser):
    """tags that GitHub shows as text"""
    t = choice(*RAW)
    if choice(True, False):
        t = t.upper()
    t = choice('<', '</') + t + '>'
    if parser in V029:
        kept('x' + t, parser)
    else:
        gone(t, parser)


def c_longer(parser):
    """names that only start or end like one of them, and blanks before the end"""
    t = choice(*RAW)
    t = choice(t + star('[a-z0-9-]', 1, 1) + star('[a-z0-9-]', 0, 1), star('[a-z]', 1, 1) + t, t + '-' + t)
    if choice(True, False):
        t = t.upper()
    gone(choice('<', '</') + t + choice('', ' ', '  ', '\t') + '>', parser)


def c_raw_form(parser):
    """attributes, blanks and slashes do not turn them into tags"""
    t = choice(*RAW)
    t = choice('<' + t + choice(' a', ' a="b"', ' ', '/', ' /') + '>', '</' + t + choice(' ', '  ') + '>')
    if parser in V029:
        kept('x' + t, parser)
    else:
        gone(t, parser)


def c_closing(parser):
    gone('</' + choice('b', 'SPAN', 'h1') + star('[ \t]', 0, 3) + '>', parser)


def c_anchor(parser):
    t = choice('<b>', '</b>', '<br/>', '<a href="#' + star('[a-z]', 0, 2) + '">', '<!-- c -->', '<?p?>', '<IMG a=b>', '<!DOCTYPE ' + star('[a-z]', 1, 2) + '>', '<![CDATA[a]]>', '<BR/>')
    x, y = choice('', 'x', 'x '), choice('y', 'z w')
    note('text', x + t + y)
    r = run(api.build_anchor_link, x + t + y, {}, parser)
    w = run(api.build_anchor_link, x + y, {}, parser)
    check(r == w, 'anchor', r, w)


def c_size(parser):
    """long names, attributes and texts; many tags"""
    n = choice(9, 17, 33, 65, 100)
    k = choice('name', 'attrs', 'value', 'many', 'far', 'comment', 'blanks', 'cdata', 'open')
    if k == 'name':
        gone(choice('<', '</') + 'a' * n + '>', parser)
    elif k == 'attrs':
        gone('<a' + choice(' b', ' b="c"', ' b = d') * n + '>', parser)
    elif k == 'value':
        gone('<a b=' + choice('"' + 'x' * n + '"', "'" + ' x' * n + "'", 'x' * n) + '>', parser)
    elif k == 'many':
        gone(choice('<b>', '</b>', '<br/>', '<?a?>', '<b></b>') * n, parser)
    elif k == 'far':
        gone(choice('<b>', '<!--a-->', '<?a?>'), parser, 'x ' * n, choice('', 'y' * n))
    elif k == 'comment':
        gone('<!--' + 'x y' * n + '-->', parser)
    elif k == 'blanks':
        gone('<a' + ' ' * n + choice('', 'b' + ' ' * n + '=' + ' ' * n + '"c"' + ' ' * n) + '>', parser)
    elif k == 'cdata':
        gone('<![CDATA[' + 'x ' * n + ']]>', parser)
    else:
        kept(choice('<a' + ' b' * n, '< ' * n + '>', 'a<b ' * min(n, 33), 'a>b ' * n), parser)


def c_kinds(parser):
    """one of every kind, in every order of two"""
    def kind():
        return choice('<b>', '</i>', '<br />', '<!--c-->', '<?p?>', '<!DOCTYPE h>', '<![CDATA[d]]>', "<a b='c'>")
    a, b = kind(), kind()
    m = choice('', 'm', ' ')
    note('text', 'x' + a + m + b + 'y')
    r = run(api.remove_html_tags, 'x' + a + m + b + 'y', parser)
    check(r == ('ok', 'x' + m + 'y'), 'both removed', r)


CASES = []
for p in CMARK:
    CASES.append(('open %s' % p, c_open, p, 0))
    CASES.append(('attribute %s' % p, c_open, p, 1))
    for f in (c_name, c_two, c_comment, c_pi, c_decl, c_cdata, c_not, c_raw, c_longer, c_raw_form, c_closing, c_anchor, c_size, c_kinds):
        CASES.append(('%s %s' % (f.__name__[2:], p), f, p))
    CASES.append(('plain %s' % p, c_plain, p, 3))
    CASES.append(('plain %s long' % p, c_plain, p, 6))
