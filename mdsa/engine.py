"""Booting the abstract machine and running obligations."""
import glob
import os
import re
import sys
import time

from . import chars, dom
from .dom import AInt, AStr, TOP, Unsupported, PyExc
from . import vm as V
from .vm import VM, State, Code, Mod, Ref, UNSET, Inst, LObj, DObj


def find_fpyutils():
    for pat in ('/opt/venv/lib/python3*/site-packages/fpyutils', '/usr/lib/python3*/site-packages/fpyutils',
                '/usr/local/lib/python3*/*-packages/fpyutils'):
        g = glob.glob(pat)
        if g:
            return g[0]
    for p in sys.path:
        d = os.path.join(p, 'fpyutils')
        if os.path.isdir(d):
            return d
    raise SystemExit('fpyutils source not found')


def source_chars(paths):
    s = set()

    def note(k):
        s.update(k)
        for m in re.finditer(r'\\(?:x([0-9a-fA-F]{2})|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8}))', k):
            v = int(m.group(1) or m.group(2) or m.group(3), 16)
            if v < 0x110000 and not 0xd800 <= v < 0xe000:
                s.add(chr(v))

    for p in paths:
        try:
            src = open(p, encoding='utf-8').read()
            co = compile(src, p, 'exec', dont_inherit=True)
        except (SyntaxError, OSError):
            continue
        work = [co]
        while work:
            c = work.pop()
            for k in c.co_consts:
                if k.__class__ is str:
                    note(k)
                elif k.__class__ is int and 0 < k < 0x110000 and not 0xd800 <= k < 0xe000:
                    s.add(chr(k))
                elif hasattr(k, 'co_consts'):
                    work.append(k)
                elif k.__class__ in (tuple, frozenset):
                    for x in k:
                        if x.__class__ is str:
                            note(x)
                        elif x.__class__ is int and 0 < x < 0x110000 and not 0xd800 <= x < 0xe000:
                            s.add(chr(x))
    return s


class Engine:
    def __init__(self, repo='/repo', fpy=None):
        self.repo = repo
        self.fpy = fpy or find_fpyutils()
        paths = [p for p in glob.glob(os.path.join(repo, 'md_toc', '**', '*.py'), recursive=True)]
        paths += glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', '*.py'))
        paths += glob.glob(os.path.join(self.fpy, '*.py'))
        extra = source_chars(paths) | set('\U0010ffff')
        chars.init(''.join(sorted(extra)))
        from .lib import Lib
        self.lib = Lib(repo, self.fpy)
        self.vm = VM(self.lib)
        st = State()
        self.lib.boot(self.vm, st)
        r = self.vm.explore([st])
        self._one(r, 'prelude')
        st = r[0]
        st.outcome = None
        st.frames = []
        self.base = st

    def _one(self, r, what):
        if len(r) != 1 or r[0].outcome[0] != 'return' or r[0].lossy:
            msgs = [self.describe(s) for s in r]
            raise SystemExit('cannot analyse %s: %s' % (what, msgs[:3]))

    def run_source(self, st, src, path, modname='harness', final=True):
        m = st.alloc(Mod(modname, {'__name__': modname, '__package__': '', '__doc__': None}, path))
        co = compile(src, path, 'exec', dont_inherit=True)
        self.keep = getattr(self, 'keep', [])
        self.keep.append(co)
        self.vm.push_frame(st, Code.get(co), m, [], names=m, ret='final')
        return m

    def load(self, names):
        """import modules in the base state; returns None or an error text"""
        st = self.base
        src = '\n'.join('import ' + n for n in names) + '\n'
        self.run_source(st, src, '<import>')
        r = self.vm.explore([st])
        self._one(r, 'module initialisation of ' + ', '.join(names))
        st = r[0]
        st.outcome = None
        st.frames = []
        st.events = ()
        st.freeze()
        self.base = st

    def describe(self, s):
        o = s.outcome
        if o is None:
            return 'running'
        if o[0] == 'raise':
            return 'raise %s at %s' % (self.show_exc(s, o[1]), o[2])
        return repr(o) + (' lossy:' + s.lossy if s.lossy else '')

    def show_exc(self, s, ref):
        o = s.get(ref)
        return '%s(%s)' % (s.get(o.cls).name, ', '.join(self.show(s, a) for a in o.f.get('args', ())))

    def show(self, s, v, depth=0):
        c = v.__class__
        if c is AStr:
            return s.show_parts(v.p)
        if c is str:
            return ascii(v)
        if c is AInt:
            n = s.norm(v)
            return str(n) if n.__class__ is int else 'int%s' % (s.bounds(n),)
        if c is tuple:
            return '(' + ', '.join(self.show(s, x, depth + 1) for x in v) + ')'
        if c is Ref:
            if depth > 4:
                return '...'
            o = s.get(v)
            if o.__class__ is LObj:
                return '[' + ', '.join(self.show(s, x, depth + 1) for x in o.items) + ']'
            if o.__class__ is DObj:
                return '{' + ', '.join(self.show(s, k, depth + 1) + ': ' + self.show(s, x, depth + 1) for k, x in o.d.values()) + '}'
            if o.__class__ is Inst:
                if 'args' in o.f and len(o.f) == 1:
                    return self.show_exc(s, v)
                return s.get(o.cls).name + '{' + ', '.join(k + '=' + self.show(s, x, depth + 1) for k, x in o.f.items()) + '}'
            return '<%s>' % o.__class__.__name__
        return repr(v)

    def start(self, src, path='<harness>'):
        st = self.base.copy()
        self.run_source(st, src, path)
        return st
