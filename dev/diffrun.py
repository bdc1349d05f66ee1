"""Development aid (not a check): compares the abstract machine on single concrete inputs with CPython."""
import sys, random, os, io, json, tempfile, contextlib
sys.path.insert(0, '/verif')
sys.path.insert(0, '/repo')
sys.path.insert(0, '/opt/venv/lib/python3.12/site-packages')
from mdsa.engine import Engine
from mdsa.vm import Ref, LObj, DObj, SObj, Inst
import md_toc.api as api
import md_toc.cli
E = Engine(); E.load(['md_toc', 'md_toc.api', 'md_toc.cli'])


def conv(s, v):
    from mdsa.dom import AStr, AInt
    if v.__class__ is AStr:
        r = s.cval(v)
        return r
    if v.__class__ is AInt:
        return s.norm(v)
    if v.__class__ is tuple:
        return tuple(conv(s, x) for x in v)
    if v.__class__ is Ref:
        o = s.get(v)
        if o.__class__ is LObj:
            return [conv(s, x) for x in o.items]
        if o.__class__ is DObj:
            return {conv(s, k): conv(s, x) for k, x in o.d.values()}
        if o.__class__ is Inst and 'args' in o.f:
            return ('EXC', s.get(o.cls).name)
        return ('obj', o.__class__.__name__)
    return v


def machine(expr, **vals):
    src = 'from md_toc import api\nimport md_toc.api, md_toc.cli\n'
    st = E.base.copy()
    m = E.run_source(st, src + '\n'.join('%s = %r' % kv for kv in vals.items()) + '\nRES = ' + expr + '\n', '<d>')
    r = E.vm.explore([st])
    assert len(r) == 1, len(r)
    s = r[0]
    if s.outcome[0] == 'return':
        return conv(s, s.get(m).f['RES']), s
    if s.outcome[0] == 'raise':
        return ('EXC', s.get(s.get(s.outcome[1]).cls).name), s
    return s.outcome, s


def real(expr, **vals):
    g = dict(vals); g['api'] = api
    try:
        return eval(expr, g)
    except BaseException as e:
        return ('EXC', type(e).__name__)


ALPH = ['#', '# ', '## ', ' ', '  ', 'a', 'B', 'é', '*', '**', '_', '__', '`', '``', '[', ']', '(', ')', '<', '>', '!', '\\', '&amp;', '&',
        '<b>', '</b>', '<!-- x -->', '-', '--', '.', '1', '\t', '"', "'", 'foo', ':', '/', 'http://x', '~~~', '```', '@']


def rnd(n=8):
    return ''.join(random.choice(ALPH) for _ in range(random.randrange(n)))


def main(n, seed):
    random.seed(seed)
    bad = 0
    PA = ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark', 'redcarpet']
    for i in range(n):
        p = random.choice(PA)
        k = random.randrange(9)
        x = rnd()
        if k == 0:
            e = 'api.get_atx_heading(x, k, p, nl)'
            v = dict(x=random.choice(['', '#', ' # ', '## ']) + x, k=random.randrange(1, 7), p=p, nl=random.random() < .5)
        elif k == 1:
            e = 'api.remove_html_tags(x, p)'
            v = dict(x=x, p=p)
        elif k == 2:
            e = 'api.remove_emphasis(x, p)'
            v = dict(x=x, p=p)
        elif k == 3:
            e = 'api.build_anchor_link(x, {}, p)'
            v = dict(x=x, p=p)
        elif k == 4:
            e = 'api.is_opening_code_fence(x, p)'
            v = dict(x=random.choice(['', '```', ' ~~~', '    ````']) + x, p=p)
        elif k == 5:
            e = 'api.is_closing_code_fence(x, f, d, p)'
            v = dict(x=random.choice(['', '```', ' ~~~', '````']) + random.choice([x, '', ' \n', '\n']), f='```', d=random.random() < .3, p=p)
        elif k == 6:
            e = 'api.get_md_header(x, {}, k, p, nl)'
            v = dict(x=random.choice(['#', ' # ', '## ']) + x, k=random.randrange(1, 7), p=p, nl=random.random() < .5)
        elif k == 7:
            # whole document
            doc = '\n'.join(random.choice(['', '# ', '## ', '### ', '```', '~~~', ' # ']) + rnd(4) for _ in range(random.randrange(6)))
            opt = dict(ordered=random.random() < .3, no_links=random.random() < .3, no_indentation=random.random() < .3, no_list_coherence=random.random() < .5,
                       keep_header_levels=random.randrange(1, 7), parser=p, skip_lines=random.choice([0, 0, 1, 2]), newline_string=random.choice(['\n', '\r\n']))
            with tempfile.TemporaryDirectory() as td:
                fn = os.path.join(td, 'f.md')
                open(fn, 'w', newline='').write(doc)
                e2 = 'api.build_toc(fn, **o)'
                rr = real(e2, fn=fn, o=opt)
            E.base.fs = {fn: doc}
            mm, s = machine(e2, fn=fn, o=opt)
            if mm != rr:
                bad += 1
                print('DIFF doc', repr(doc), opt, '\n  machine', mm, '\n  real   ', rr)
            continue
        else:
            # in place
            mk = '<!--TOC-->'
            doc = ''.join(random.choice([mk + '\n', '\n', '- a\n', 'text\n', '# h\n', ' ' + mk + '\n', 'x', mk, '\n\n', mk + '\n\n- [a](#a)\n\n' + mk + '\n']) for _ in range(random.randrange(7)))
            opt = ['- [a](#a)\n', mk, random.choice(['\n', '\r\n'])]
            with tempfile.TemporaryDirectory() as td:
                fn = os.path.join(td, 'f.md')
                open(fn, 'w', newline='').write(doc)
                e2 = 'api.write_string_on_file_between_markers(fn, *o)'
                rr = real(e2, fn=fn, o=opt)
                after = open(fn, newline='').read()
            E.base.fs = {fn: doc}
            mm, s = machine(e2, fn=fn, o=opt)
            f2 = s.fs.get(fn)
            if f2.__class__ is not str:
                f2 = s.cval(f2)
            if mm != rr or f2 != after:
                bad += 1
                print('DIFF inplace', repr(doc), opt, '\n  machine', mm, repr(f2), '\n  real   ', rr, repr(after))
            continue
        rr = real(e, **v)
        mm, s = machine(e, **v)
        if mm != rr:
            bad += 1
            print('DIFF', e, v, '\n  machine', mm, '\n  real   ', rr)
        if bad > 12:
            break
    print('done', n, 'bad', bad)


main(int(sys.argv[1]), int(sys.argv[2]))
