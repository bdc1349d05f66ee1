"""Reference for emphasis: the delimiter run algorithm of the CommonMark specification (appendix), on text
without brackets, angle brackets, ampersands and exclamation marks."""
import unicodedata
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


def blank(c):
    return c in '\t\n\x0c\r' or unicodedata.category(c) == 'Zs'


def punct(c):
    return c in PUNCT or unicodedata.category(c).startswith('P')


def scan(s):
    """the delimiter runs: [position, original length, char, can open, can close]"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\' and i + 1 < n and s[i + 1] in PUNCT:
            i += 2
        elif c == '`':
            j = i
            while j < n and s[j] == '`':
                j += 1
            k = j
            end = -1
            while k < n:
                if s[k] == '`':
                    m = k
                    while m < n and s[m] == '`':
                        m += 1
                    if m - k == j - i:
                        end = m
                        break
                    k = m
                else:
                    k += 1
            i = j if end < 0 else end
        elif c == '*' or c == '_':
            j = i
            while j < n and s[j] == c:
                j += 1
            before = s[i - 1] if i else '\n'
            after = s[j] if j < n else '\n'
            wb, wa, pb, pa = blank(before), blank(after), punct(before), punct(after)
            left = not wa and (not pa or wb or pb)
            right = not wb and (not pb or wa or pa)
            if c == '*':
                out.append([i, j - i, c, left, right])
            else:
                out.append([i, j - i, c, left and (not right or pb), right and (not left or pa)])
            i = j
        else:
            i += 1
    return out


def removed(s):
    d = scan(s)
    lo = [x[0] for x in d]
    hi = [x[0] + x[1] for x in d]
    alive = [True] * len(d)
    gone = []
    i = 0
    while i < len(d):
        c = d[i]
        if not (alive[i] and c[4]):
            i += 1
            continue
        j = i - 1
        found = False
        while j >= 0:
            o = d[j]
            if alive[j] and o[2] == c[2] and o[3]:
                odd = (c[3] or o[4]) and (o[1] + c[1]) % 3 == 0 and not (o[1] % 3 == 0 and c[1] % 3 == 0)
                if not odd:
                    found = True
                    break
            j -= 1
        if not found:
            if not c[3]:
                alive[i] = False
            i += 1
            continue
        use = 2 if hi[j] - lo[j] >= 2 and hi[i] - lo[i] >= 2 else 1
        for k in range(use):
            gone.append(hi[j] - 1 - k)
            gone.append(lo[i] + k)
        hi[j] -= use
        lo[i] += use
        for k in range(j + 1, i):
            alive[k] = False
        if hi[j] == lo[j]:
            alive[j] = False
        if hi[i] == lo[i]:
            alive[i] = False
            i += 1
    return gone


def strip(s):
    g = removed(s)
    out = ''
    for i in range(len(s)):
        if i not in g:
            out += s[i]
    return out
