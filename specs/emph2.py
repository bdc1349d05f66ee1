"""Reference for emphasis in text with links, images, autolinks and raw HTML: the inline parsing strategy
of the CommonMark specification (appendix), with an empty set of link reference definitions."""
import re
from specs.emph import blank, punct, PUNCT
AUTO = re.compile('<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\\x00-\\x20]*>|'
                  "<[a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?([.][a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*>")


def tag(s, i):
    """the end of a tag of the forms <name>, <name attr="value"> and </name>, comment or instruction, or -1"""
    if s.startswith('<!--', i):
        j = s.find('--', i + 4)
        if j < 0 or s.startswith('>', i + 4) or s.startswith('->', i + 4) or not s.startswith('>', j + 2):
            return -1
        return j + 3
    if s.startswith('<?', i):
        j = s.find('?>', i + 2)
        return j + 2 if j >= 0 else -1
    if s.startswith('<![CDATA[', i):
        j = s.find(']]>', i + 9)
        return j + 3 if j >= 0 else -1
    m = re.compile('<![A-Z]+[ \t]+[^>]*>|'
                   '</[A-Za-z][A-Za-z0-9-]*[ \t]*>|'
                   '<[A-Za-z][A-Za-z0-9-]*([ \t]+[a-zA-Z_:][a-zA-Z0-9:._-]*([ \t]*=[ \t]*([^ \t\r\n"\'=<>`]+|\'[^\']*\'|"[^"]*"))?)*[ \t]*/?>').match(s[i:])
    return i + m.end() if m else -1


def code(s, i):
    """(the end of the backticks at i, the end of the code span they open or -1)"""
    n = len(s)
    j = i
    while j < n and s[j] == '`':
        j += 1
    k = j
    while k < n:
        if s[k] == '`':
            m = k
            while m < n and s[m] == '`':
                m += 1
            if m - k == j - i:
                return j, m
            k = m
        else:
            k += 1
    return j, -1


def skip(s, i):
    while i < len(s) and s[i] in ' \t':
        i += 1
    return i


def destination(s, i):
    """the end of the link destination at i, or -1"""
    n = len(s)
    if i < n and s[i] == '<':
        i += 1
        while i < n:
            if s[i] == '>':
                return i + 1
            if s[i] == '<':
                return -1
            i += 2 if s[i] == '\\' and i + 1 < n and s[i + 1] in PUNCT else 1
        return -1
    depth = 0
    while i < n:
        c = s[i]
        if c == '\\' and i + 1 < n and s[i + 1] in PUNCT:
            i += 2
            continue
        if c in ' \t':
            break
        if c == '(':
            depth += 1
        elif c == ')':
            if depth == 0:
                break
            depth -= 1
        i += 1
    return i if depth == 0 else -1


def title(s, i):
    """the end of the link title at i, or -1"""
    n = len(s)
    if i >= n or s[i] not in '"\'(':
        return -1
    e = ')' if s[i] == '(' else s[i]
    k = i + 1
    while k < n:
        if s[k] == '\\' and k + 1 < n and s[k + 1] in PUNCT:
            k += 2
            continue
        if s[k] == e:
            return k + 1
        if s[k] == '(' and e == ')':
            return -1
        k += 1
    return -1


def inline(s, i):
    """the end of the rest of an inline link, which starts with a parenthesis at i, or -1"""
    if i >= len(s) or s[i] != '(':
        return -1
    k = skip(s, i + 1)
    d = destination(s, k)
    if d < 0:
        return -1
    k = skip(s, d)
    if k < len(s) and s[k] == ')':
        return k + 1
    if k == d:
        return -1
    t = title(s, k)
    if t < 0:
        return -1
    k = skip(s, t)
    return k + 1 if k < len(s) and s[k] == ')' else -1


def process(d, bottom, gone):
    """the procedure 'process emphasis' over the delimiters d[bottom:], which it removes"""
    i = bottom
    while i < len(d):
        c = d[i]
        if not c[5]:
            i += 1
            continue
        j = i - 1
        found = False
        while j >= bottom:
            o = d[j]
            if o[3] == c[3] and o[4]:
                if not ((c[4] or o[5]) and (o[2] + c[2]) % 3 == 0 and not (o[2] % 3 == 0 and c[2] % 3 == 0)):
                    found = True
                    break
            j -= 1
        if not found:
            if c[4]:
                i += 1
            else:
                d.pop(i)
            continue
        o = d[j]
        use = 2 if o[1] - o[0] >= 2 and c[1] - c[0] >= 2 else 1
        for k in range(use):
            gone.append(o[1] - 1 - k)
            gone.append(c[0] + k)
        o[1] -= use
        c[0] += use
        while i > j + 1:
            d.pop(j + 1)
            i -= 1
        if o[0] == o[1]:
            d.pop(j)
            i -= 1
        if c[0] == c[1]:
            d.pop(i)
    while len(d) > bottom:
        d.pop()


def removed(s):
    d = []          # delimiters: [start, end, original length, char, can open, can close]
    b = []          # brackets: [image, active, number of delimiters below]
    gone = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\' and i + 1 < n and s[i + 1] in PUNCT:
            i += 2
        elif c == '`':
            j, e = code(s, i)
            i = j if e < 0 else e
        elif c == '<':
            m = AUTO.match(s[i:])
            e = i + m.end() if m else tag(s, i)
            i = e if e > 0 else i + 1
        elif c == '*' or c == '_':
            j = i
            while j < n and s[j] == c:
                j += 1
            before = s[i - 1] if i else '\n'
            after = s[j] if j < n else '\n'
            wb, wa, pb, pa = blank(before), blank(after), punct(before), punct(after)
            left = not wa and (not pa or wb or pb)
            right = not wb and (not pb or wa or pa)
            if c == '_':
                left, right = left and (not right or pb), right and (not left or pa)
            d.append([i, j, j - i, c, left, right])
            i = j
        elif c == '!' and i + 1 < n and s[i + 1] == '[':
            b.append([True, True, len(d)])
            i += 2
        elif c == '[':
            b.append([False, True, len(d)])
            i += 1
        elif c == ']' and b:
            o = b.pop()
            i += 1
            e = inline(s, i) if o[1] else -1
            if e > 0:
                process(d, o[2], gone)
                if not o[0]:
                    for x in b:
                        if not x[0]:
                            x[1] = False
                i = e
        else:
            i += 1
    process(d, 0, gone)
    return gone


def strip(s):
    g = removed(s)
    out = ''
    for i in range(len(s)):
        if i not in g:
            out += s[i]
    return out
