"""Abstract machine: interprets CPython bytecode (compiled, never executed)
over the abstract domains of dom.py.  Deterministic steps mutate the state in
place; an undetermined test raises Fork and the machine continues in every
refined copy.  Loop heads are handed to gen.py for generalisation."""
from types import NoneType
import dis
import os
import sys
import types as pytypes
import time

from . import chars, dom
from .dom import (AInt, AStr, CharInt, Term, TOP, Fork, Unsupported, PyExc, Dom, add, sub, scale,
                  is_str, parts_of, from_parts, concat_parts, mk)

NULL = type('NULLT', (), {'__repr__': lambda s: 'NULL'})()
UNSET = type('UNSETT', (), {'__repr__': lambda s: 'UNSET'})()


class Ref:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return o.__class__ is Ref and o.a == self.a

    def __hash__(self):
        return hash(('Ref', self.a))

    def __repr__(self):
        return '@%d' % self.a


class NF:
    """native function"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'NF(%s)' % self.name


class NT:
    """native type"""
    __slots__ = ('name', 'fn', 'py')

    def __init__(self, name, fn=None, py=None):
        self.name = name
        self.fn = fn
        self.py = py

    def __repr__(self):
        return 'NT(%s)' % self.name


class NM:
    """native bound method"""
    __slots__ = ('self', 'name')

    def __init__(self, s, n):
        self.self = s
        self.name = n

    def __repr__(self):
        return 'NM(%r.%s)' % (self.self, self.name)


class BM:
    __slots__ = ('fn', 'self')

    def __init__(self, f, s):
        self.fn = f
        self.self = s


class Slice:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class ARange:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __repr__(self):
        return 'ARange(%r,%r,%r)' % (self.a, self.b, self.c)


class Prop:
    __slots__ = ('get', 'set')

    def __init__(self, g, s=None):
        self.get, self.set = g, s


class StaticM:
    __slots__ = ('fn',)

    def __init__(self, f):
        self.fn = f


class ClassM:
    __slots__ = ('fn',)

    def __init__(self, f):
        self.fn = f


class CharsOf:
    """pseudo list item: the single-char strings of these parts"""
    __slots__ = ('p',)
    made = False

    def __init__(self, p):
        CharsOf.made = True
        self.p = p

    def __repr__(self):
        return 'CharsOf%r' % (self.p,)


def has_chars(items):
    return CharsOf.made and CharsOf in map(type, items)


class OpaqueMod:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return 'Opaque(%s)' % self.name


class CallPy:
    """returned by natives to delegate to a call"""
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw=None):
        self.fn, self.args, self.kw = fn, args, kw or {}


# ---------------------------------------------------------------- heap objects
class Obj:
    __slots__ = ('own',)


class LObj(Obj):
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='list'):
        self.items = items
        self.kind = kind

    def clone(self):
        return LObj(list(self.items), self.kind)


class DObj(Obj):
    __slots__ = ('d', 'nabs', 'kind', 'extra')

    def __init__(self, d=None, nabs=0, kind='dict', extra=None):
        self.d = d if d is not None else {}
        self.nabs = nabs
        self.kind = kind
        self.extra = extra

    def clone(self):
        return DObj(dict(self.d), self.nabs, self.kind, self.extra)


class SObj(Obj):
    __slots__ = ('d', 'nabs', 'kind')

    def __init__(self, d=None, nabs=0, kind='set'):
        self.d = d if d is not None else {}
        self.nabs = nabs
        self.kind = kind

    def clone(self):
        return SObj(dict(self.d), self.nabs, self.kind)


class Inst(Obj):
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f=None):
        self.cls = cls
        self.f = f if f is not None else {}

    def clone(self):
        return Inst(self.cls, dict(self.f))


class Cls(Obj):
    __slots__ = ('name', 'bases', 'mro', 'f', 'kind')

    def __init__(self, name, bases, mro, f, kind=''):
        self.name, self.bases, self.mro, self.f, self.kind = name, bases, mro, f, kind

    def clone(self):
        return Cls(self.name, self.bases, self.mro, dict(self.f), self.kind)


class Func(Obj):
    __slots__ = ('code', 'g', 'defaults', 'kwd', 'closure', 'name', 'f')

    def __init__(self, code, g, defaults=(), kwd=None, closure=(), name='', f=None):
        self.code, self.g, self.defaults, self.kwd, self.closure, self.name = code, g, defaults, kwd or {}, closure, name
        self.f = f or {}

    def clone(self):
        return Func(self.code, self.g, self.defaults, self.kwd, self.closure, self.name, dict(self.f))


class Mod(Obj):
    __slots__ = ('name', 'f', 'path')

    def __init__(self, name, f, path=None):
        self.name, self.f, self.path = name, f, path

    def clone(self):
        return Mod(self.name, dict(self.f), self.path)


class Cell(Obj):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def clone(self):
        return Cell(self.v)


class Gen(Obj):
    __slots__ = ('frame', 'done', 'started')

    def __init__(self, frame):
        self.frame = frame
        self.done = False
        self.started = False

    def clone(self):
        g = Gen(self.frame.copy() if self.frame is not None else None)
        g.done = self.done
        g.started = self.started
        return g


class It(Obj):
    """native iterator: kind list|tuple|str|range|dict|enumerate..., src value, pos"""
    __slots__ = ('kind', 'src', 'pos', 'x')

    def __init__(self, kind, src, pos=0, x=None):
        self.kind, self.src, self.pos, self.x = kind, src, pos, x

    def clone(self):
        return It(self.kind, self.src, self.pos, self.x)


class Box(Obj):
    """generic native mutable object: kind + dict of fields"""
    __slots__ = ('kind', 'f')

    def __init__(self, kind, f=None):
        self.kind = kind
        self.f = f or {}

    def clone(self):
        return Box(self.kind, dict(self.f))


# ---------------------------------------------------------------- code
class Code:
    __slots__ = ('co', 'ins', 'exc', 'heads', 'live', 'nplus', 'nloc', 'names', 'argc', 'kwonly', 'varargs', 'varkw',
                 'cellidx', 'file', 'name', 'n', 'isgen', 'stopname')
    cache = {}

    @staticmethod
    def get(co):
        c = Code.cache.get(id(co))
        if c is None:
            c = Code.cache[id(co)] = Code(co)
        return c

    def __init__(self, co):
        self.co = co
        self.name = co.co_name
        self.file = co.co_filename
        raw = list(dis.get_instructions(co))
        off = {}
        for i, ins in enumerate(raw):
            off[ins.offset] = i
        line = co.co_firstlineno
        self.ins = []
        lines = {}
        for st, en, ln in co.co_lines():
            for o in range(st, en, 2):
                lines[o] = ln
        for i, ins in enumerate(raw):
            ln = lines.get(ins.offset) or line
            line = ln
            arg = ins.arg
            av = ins.argval
            if ins.opcode in dis.hasjrel or ins.opcode in dis.hasjabs:
                av = off[ins.argval]
            h = HANDLERS.get(ins.opname)
            if h is None:
                h = unsupported_op(ins.opname)
            self.ins.append((h, arg, av, ins.opname, ln))
        self.n = len(self.ins)
        self.exc = []
        for e in dis._parse_exception_table(co):
            # end may fall between instructions
            s = off.get(e.start)
            end = off.get(e.end, len(raw))
            self.exc.append((s, end, off[e.target], e.depth, e.lasti))
        vn = co.co_varnames
        # localsplus: varnames, cellvars not in varnames, freevars
        plus = list(vn) + [c for c in co.co_cellvars if c not in vn] + list(co.co_freevars)
        self.names = plus
        self.nplus = len(plus)
        self.nloc = len(vn)
        self.argc = co.co_argcount
        self.kwonly = co.co_kwonlyargcount
        self.varargs = bool(co.co_flags & 0x04)
        self.varkw = bool(co.co_flags & 0x08)
        self.isgen = bool(co.co_flags & 0x20)
        self._loops()

    def succs(self, i):
        h, arg, av, op, ln = self.ins[i]
        out = []
        if op in ('RETURN_VALUE', 'RETURN_CONST', 'RERAISE', 'RAISE_VARARGS'):
            pass
        elif op in ('JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT'):
            out.append(av)
        else:
            if i + 1 < self.n:
                out.append(i + 1)
            if op.startswith('POP_JUMP') or op in ('FOR_ITER', 'SEND'):
                out.append(av)
                if op == 'FOR_ITER' and av + 1 < self.n:
                    out.append(av + 1)
        for s, e, t, d, l in self.exc:
            if s <= i < e:
                out.append(t)
        return out

    def _loops(self):
        succ = [self.succs(i) for i in range(self.n)]
        pred = [[] for _ in range(self.n)]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        heads = {}
        for i in range(self.n):
            op = self.ins[i][3]
            if op in ('JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT') or (op.startswith('POP_JUMP') and self.ins[i][2] <= i):
                h = self.ins[i][2]
                body = heads.setdefault(h, {h})
                work = [i]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(pred[x])
        self.heads = {h: frozenset(b) for h, b in heads.items()}
        # liveness of fast locals
        gen = [set() for _ in range(self.n)]
        kill = [set() for _ in range(self.n)]
        for i in range(self.n):
            op, arg = self.ins[i][3], self.ins[i][1]
            if op in ('LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR', 'DELETE_FAST', 'LOAD_CLOSURE', 'LOAD_DEREF',
                      'STORE_DEREF', 'MAKE_CELL', 'LOAD_FROM_DICT_OR_DEREF', 'DELETE_DEREF'):
                gen[i].add(arg)
            elif op == 'STORE_FAST':
                kill[i].add(arg)
        live = [set() for _ in range(self.n)]
        changed = True
        while changed:
            changed = False
            for i in range(self.n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                n = gen[i] | (o - kill[i])
                if n != live[i]:
                    live[i] = n
                    changed = True
        self.live = {h: live[h] for h in self.heads}


class Frame:
    __slots__ = ('code', 'pc', 'loc', 'stack', 'g', 'names', 'act', 'ret', 'kwn', 'loops', 'func', 'gen', 'exc0', 'memo')

    def copy(self):
        f = Frame.__new__(Frame)
        f.code = self.code
        f.pc = self.pc
        f.loc = self.loc[:]
        f.stack = self.stack[:]
        f.g = self.g
        f.names = self.names
        f.act = self.act
        f.ret = self.ret
        f.kwn = self.kwn
        f.loops = self.loops
        f.func = self.func
        f.gen = self.gen
        f.exc0 = self.exc0
        f.memo = self.memo
        return f


class Region:
    __slots__ = ('depth', 'act', 'body', 'head', 'G', 'parent', 'exits', 'ok', 'level', 'why')


class State(Dom):
    __slots__ = ('frames', 'heap', 'base', 'tok', 'na', 'exc', 'events', 'trace', 'lossy', 'nact', 'mods_', '_fs', 'dirty', 'inputs',
                 'outcome', 'steps', 'strc', 'checks', 'tag', 'stdin', 'opts')

    def __init__(self):
        Dom.__init__(self)
        self.frames = []
        self.heap = {}
        self.base = {}
        self.tok = object()
        self.na = 1
        self.exc = None
        self.events = ()
        self.trace = None
        self.lossy = None
        self.nact = 1
        self.mods_ = {}
        self._fs = {}
        self.dirty = False
        self.inputs = ()
        self.outcome = None
        self.steps = 0
        self.strc = {}
        self.checks = 0
        self.tag = ''
        self.stdin = None
        self.opts = {}

    def copy(self):
        s = State.__new__(State)
        s.segs = self.segs.copy()
        s.subst = self.subst.copy()
        s.ivars = self.ivars.copy()
        s.isub = self.isub.copy()
        s.alias = self.alias.copy()
        s.cons = self.cons
        s.mods = self.mods
        s.facts = self.facts
        s.nid = self.nid
        s.splits = self.splits
        s.names = self.names
        s.ver = self.ver
        s.frames = [f.copy() for f in self.frames]
        s.heap = self.heap.copy()
        s.base = self.base
        s.tok = object()
        self.tok = object()
        s.na = self.na
        s.exc = self.exc
        s.events = self.events
        s.trace = self.trace
        s.lossy = self.lossy
        s.nact = self.nact
        s.mods_ = self.mods_
        s._fs = self._fs
        s.dirty = self.dirty
        s.inputs = self.inputs
        s.outcome = self.outcome
        s.steps = self.steps
        s.strc = self.strc
        s.checks = self.checks
        s.tag = self.tag
        s.stdin = self.stdin
        s.opts = self.opts
        return s

    @property
    def fs(self):
        State.io += 1
        return self._fs

    @fs.setter
    def fs(self, v):
        State.io += 1
        self._fs = v

    # heap
    def alloc(self, o):
        a = self.na
        self.na += 1
        o.own = self.tok
        self.heap[a] = o
        return Ref(a)

    def get(self, r):
        o = self.heap.get(r.a)
        return o if o is not None else self.base[r.a]

    def w(self, r):
        """writable object"""
        o = self.heap.get(r.a)
        if o is None:
            o = self.base[r.a]
            self.dirty = True
        elif o.own is self.tok:
            return o
        o = o.clone()
        o.own = self.tok
        self.heap[r.a] = o
        return o

    def freeze(self):
        b = dict(self.base)
        b.update(self.heap)
        self.base = b
        self.heap = {}
        self.dirty = False

    def event(self, *e):
        self.events = self.events + (e,)

    def taint(self, why):
        if self.lossy is None:
            self.lossy = why


State.io = 0


class Budget(Exception):
    pass


class EndPath(Exception):
    def __init__(self, outcome):
        self.outcome = outcome


HANDLERS = {}


def op(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def unsupported_op(name):
    def h(vm, st, fr, arg, av):
        raise Unsupported('opcode ' + name)
    return h


PUSHED = object()


def flat(v):
    c = v.__class__
    return c in (str, int, bool) or v is None or c is tuple and all(flat(x) for x in v)


class VM:
    def __init__(self, lib):
        self.lib = lib
        self.total = 0
        self.max_total = 10 ** 12
        self.max_path = 30_000_000
        self.deadline = None
        self.nforks = 0
        self.npaths = 0
        self.sink = None
        self.memo = {}
        self.memo_hits = 0
        self.ngen = 0
        self.gen = None       # generaliser
        self.nprune = 0
        self.funcs = set()    # functions analysed
        self.lines = set()
        self.max_loop_unroll = 24
        self.regions = 0

    # ------------------------------------------------------------ frames
    def push_frame(self, st, code, g, loc, names=None, ret='push', func=None):
        fr = Frame.__new__(Frame)
        fr.code = code
        fr.pc = 0
        fr.loc = loc
        fr.stack = []
        fr.g = g
        fr.names = names
        fr.act = st.nact
        st.nact += 1
        fr.ret = ret
        fr.kwn = ()
        fr.loops = None
        fr.func = func
        fr.gen = None
        fr.exc0 = st.exc
        fr.memo = None
        if len(st.frames) > 120:
            raise Unsupported('call depth')
        st.frames.append(fr)
        self.funcs.add((code.file, code.co.co_qualname))
        return fr

    def bind(self, st, f, args, kw):
        c = f.code
        loc = [UNSET] * c.nplus
        n = len(args)
        argc = c.argc
        names = c.names
        if n > argc and not c.varargs:
            raise PyExc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, argc, n))
        for i in range(min(n, argc)):
            loc[i] = args[i]
        extra_i = argc + c.kwonly
        if c.varargs:
            loc[extra_i] = tuple(args[argc:])
            extra_i += 1
        extra = None
        if c.varkw:
            extra = {}
        if kw:
            posonly = c.co.co_posonlyargcount
            for k, v in kw.items():
                for i in range(posonly, argc + c.kwonly):
                    if names[i] == k:
                        if loc[i] is not UNSET:
                            raise PyExc('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
                        loc[i] = v
                        break
                else:
                    if extra is None:
                        raise PyExc('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
                    extra[k] = v
        if c.varkw:
            loc[extra_i] = st.alloc(DObj({k: (k, v) for k, v in extra.items()}))
        nd = len(f.defaults)
        for i in range(argc):
            if loc[i] is UNSET:
                j = i - (argc - nd)
                if j >= 0:
                    loc[i] = f.defaults[j]
                else:
                    raise PyExc('TypeError', "%s() missing required positional argument: '%s'" % (f.name, names[i]))
        for i in range(argc, argc + c.kwonly):
            if loc[i] is UNSET:
                if names[i] in f.kwd:
                    loc[i] = f.kwd[names[i]]
                else:
                    raise PyExc('TypeError', "%s() missing required keyword-only argument: '%s'" % (f.name, names[i]))
        return loc

    def memo_key(self, st, fn, o, loc):
        """a call on constants only, in a state where no module level object was changed, is a
        function of its arguments: its result is computed once per run"""
        if o.code.isgen:
            return None
        k = [fn.a]
        strs = False
        for v in loc:
            c = v.__class__
            if c is str:
                strs = True
                k.append(v)
            elif v is UNSET or v is None:
                k.append(None)
            elif c is int or c is bool:
                k.append((c, v))
            else:
                return None
        return tuple(k) if strs else None

    def memo_store(self, st, fr, v):
        key, trace, fs, events, io, ver, lossy, checks, inputs = fr.memo
        if (st.trace is trace and st._fs is fs and st.events is events and State.io == io and not st.dirty
                and st.lossy is lossy and st.ver == ver and st.checks == checks and st.inputs is inputs and flat(v)):
            self.memo[key] = (v, frozenset())

    def call(self, st, fn, args, kw, ret='push'):
        """Perform a call.  Returns (True, value) if completed natively, or (False, None) if a frame was pushed."""
        while True:
            c = fn.__class__
            if c is Ref:
                o = st.get(fn)
                oc = o.__class__
                if oc is Func:
                    loc = self.bind(st, o, args, kw)
                    if not st.dirty and ret == 'push' and o.code.n > 24 and not o.closure and fn.a in st.base:
                        key = self.memo_key(st, fn, o, loc)
                        if key is not None:
                            r = self.memo.get(key)
                            if r is not None:
                                self.funcs.update(r[1])
                                self.memo_hits += 1
                                return True, r[0]
                            fr = self.push_frame(st, o.code, o.g, loc, ret=ret, func=fn)
                            fr.memo = (key, st.trace, st._fs, st.events, State.io, st.ver, st.lossy, st.checks, st.inputs)
                            return False, None
                    self.push_frame(st, o.code, o.g, loc, ret=ret, func=fn)
                    return False, None
                if oc is Cls:
                    return self.instantiate(st, fn, o, args, kw, ret)
                if oc is Inst:
                    m = self.lookup_mro(st, o.cls, '__call__')
                    if m is UNSET:
                        raise PyExc('TypeError', 'object is not callable')
                    fn, args = m, [fn] + list(args)
                    continue
                if oc is Box:
                    r = self.lib.call_box(self, st, fn, o, args, kw)
                    if r.__class__ is CallPy:
                        fn, args, kw = r.fn, r.args, r.kw
                        continue
                    return True, r
                raise PyExc('TypeError', 'object is not callable')
            if c is BM:
                fn, args = fn.fn, [fn.self] + list(args)
                continue
            if c is NF:
                r = fn.fn(self, st, args, kw)
            elif c is NT:
                if fn.fn is None:
                    raise Unsupported('calling type ' + fn.name)
                r = fn.fn(self, st, args, kw)
            elif c is NM:
                r = self.lib.method(self, st, fn.self, fn.name, args, kw)
            elif c is StaticM:
                fn = fn.fn
                continue
            elif c is OpaqueMod:
                st.taint('call of ' + fn.name)
                st.event('extern', fn.name)
                return True, TOP
            elif fn is TOP:
                st.taint('call of unknown value')
                return True, TOP
            else:
                raise PyExc('TypeError', "'%s' object is not callable" % self.lib.tname(st, fn))
            if r.__class__ is CallPy:
                fn, args, kw = r.fn, r.args, r.kw
                continue
            if r is PUSHED:
                return False, None
            return True, r

    def instantiate(self, st, ref, cls, args, kw, ret):
        if cls.kind == 'enum':
            return True, self.lib.enum_lookup(self, st, ref, cls, args)
        if cls.kind == 'typeddict':
            d = DObj()
            for k, v in kw.items():
                d.d[k] = (k, v)
            return True, st.alloc(d)
        if cls.kind == 'namedtuple':
            return True, self.lib.namedtuple_new(self, st, ref, cls, args, kw)
        new = self.lookup_mro(st, ref, '__new__')
        if new is not UNSET and new.__class__ is not NF:
            raise Unsupported('__new__')
        init = self.lookup_mro(st, ref, '__init__')
        inst = st.alloc(Inst(ref))
        if self.is_exc_cls(st, ref):
            o = st.w(inst)
            o.f['args'] = tuple(args)
        if init is UNSET:
            if self.lookup_mro(st, ref, '__dataclass_fields__') is not UNSET:
                self.lib.dataclass_init(self, st, ref, inst, args, kw)
                pi = self.lookup_mro(st, ref, '__post_init__')
                if pi is not UNSET:
                    done, v = self.call(st, pi, [inst], {}, ret=('init', inst, ret))
                    return (True, inst) if done else (False, None)
            elif (args or kw) and not self.is_exc_cls(st, ref):
                raise PyExc('TypeError', '%s() takes no arguments' % cls.name)
            return True, inst
        done, v = self.call(st, init, [inst] + list(args), kw, ret=('init', inst, ret))
        if done:
            return True, inst
        return False, None

    def is_exc_cls(self, st, ref):
        for r in st.get(ref).mro:
            if r == self.lib.excs['BaseException']:
                return True
        return False

    def lookup_mro(self, st, clsref, name):
        for r in st.get(clsref).mro:
            f = st.get(r).f
            if name in f:
                return f[name]
        return UNSET

    # ------------------------------------------------------------ exceptions
    def make_exc(self, st, name, args):
        cls = self.lib.excs.get(name)
        if cls is None:
            raise Unsupported('exception ' + name)
        return st.alloc(Inst(cls, {'args': tuple(args)}))

    def _unwind(self, st, exc):
        while st.frames:
            fr = st.frames[-1]
            pc = fr.pc
            for s, e, t, d, l in fr.code.exc:
                if s is not None and s <= pc < e:
                    del fr.stack[d:]
                    if l:
                        fr.stack.append(pc)
                    fr.stack.append(exc)
                    fr.pc = t
                    fr.kwn = ()
                    return True
            st.frames.pop()
            if fr.gen is not None:
                g = st.w(fr.gen)
                g.done = True
                g.frame = None
            if fr.ret.__class__ is tuple and fr.ret[0] == 'fornext':
                # exception inside python __next__: StopIteration ends loop
                o = st.get(exc)
                if o.__class__ is Inst and self.exc_isinstance(st, exc, self.lib.excs['StopIteration']):
                    caller = st.frames[-1]
                    caller.stack.pop()
                    caller.pc = fr.ret[1] + 1
                    return True
            if fr.ret.__class__ is tuple and fr.ret[0] == 'getattr':
                if self.exc_isinstance(st, exc, self.lib.excs['AttributeError']):
                    pass
        return False

    def exc_isinstance(self, st, exc, cls):
        if exc.__class__ is not Ref:
            return False
        o = st.get(exc)
        return o.__class__ is Inst and cls in st.get(o.cls).mro

    # ------------------------------------------------------------ main loop
    def explore(self, states, region=None):
        """Depth-first exploration; returns list of finished states."""
        work = list(states)
        out = []
        while work:
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget('time budget exhausted')
            st = work.pop()
            if st.outcome is not None:
                out.append(st)
                continue
            succ = self.run(st, region)
            if region is not None and not region.ok:
                return None
            for s in succ:
                if s.outcome is not None:
                    if region is None:
                        self.npaths += 1
                        if self.sink is not None and self.sink(s):
                            continue
                    out.append(s)
                else:
                    work.append(s)
        return out

    def run(self, st, region):
        """run a state until it forks/finishes; returns successor states (finished ones have outcome set)"""
        frames = st.frames
        n = 0
        try:
            while True:
                if not frames:
                    return [st]
                fr = frames[-1]
                if region is not None:
                    d = len(frames)
                    if d < region.depth or (d == region.depth and (fr.act != region.act or fr.pc not in region.body)):
                        st.outcome = ('region-exit',)
                        return [st]
                ins = fr.code.ins
                try:
                    while True:
                        h, arg, av, name, ln = ins[fr.pc]
                        n += 1
                        r = h(self, st, fr, arg, av)
                        if r is None:
                            fr.pc += 1
                            if region is not None and fr.act == region.act and fr.pc not in region.body:
                                break
                        elif r is PUSHED:
                            break
                        else:
                            # jump
                            back = r <= fr.pc
                            fr.pc = r
                            if back and r in fr.code.heads:
                                res = self.loop_head(st, fr, r, region)
                                if res is not None:
                                    return res
                                if frames[-1] is not fr:
                                    break
                            if region is not None and fr.act == region.act and fr.pc not in region.body:
                                break
                        if n > self.max_path:
                            raise Unsupported('instruction budget of a path exceeded')
                except PyExc as e:
                    exc = e.name if e.name.__class__ is Ref else self.make_exc(st, e.name, e.xargs)
                    if not self.raise_exc(st, exc):
                        return [st]
        except Fork as f:
            self.nforks += 1
            return self.do_fork(st, f)
        except Unsupported as u:
            st.outcome = ('undecided', self.where(st) + ': ' + str(u))
            return [st]
        except EndPath as e:
            st.outcome = e.outcome
            return [st]
        finally:
            st.steps += n
            self.total += n

    def raise_exc(self, st, exc):
        loc = self.where(st)
        st.opts = dict(st.opts)
        st.opts['lastexc'] = loc
        depth0 = None
        if not self._unwind(st, exc):
            st.outcome = ('raise', exc, loc)
            return False
        return True

    def where(self, st):
        # innermost frame that belongs to the analysed repository, else innermost
        for fr in reversed(st.frames):
            f = fr.code.file
            if '/md_toc/' in f:
                ln = fr.code.ins[min(fr.pc, fr.code.n - 1)][4]
                return '%s:%d (%s)' % (f.split('/md_toc/', 1)[1] and 'md_toc/' + f.split('/md_toc/', 1)[1], ln, fr.code.name)
        if st.frames:
            fr = st.frames[-1]
            ln = fr.code.ins[min(fr.pc, fr.code.n - 1)][4]
            return '%s:%d (%s)' % (os.path.basename(fr.code.file), ln, fr.code.name)
        return '?'

    def do_fork(self, st, f):
        w = self.where(st)
        out = []
        alts = f.alts
        for i, a in enumerate(alts):
            s = st.copy() if i < len(alts) - 1 else st
            try:
                ok = a(s)
            except Unsupported as u:
                s.outcome = ('undecided', w + ': ' + str(u))
                out.append(s)
                continue
            except PyExc as e:
                s.trace = (s.trace, w, f.why, i)
                exc = self.make_exc(s, e.name, e.xargs)
                self.raise_exc(s, exc)
                out.append(s)
                continue
            if ok is False:
                continue
            if s.facts and not s.consistent():
                continue
            s.trace = (s.trace, w, f.why, i)
            out.append(s)
        out.reverse()
        return out

    def loop_head(self, st, fr, head, region):
        if self.gen is None:
            return None
        return self.gen.at_head(self, st, fr, head, region)

    # ------------------------------------------------------------ returns
    def do_return(self, st, v):
        fr = st.frames.pop()
        ret = fr.ret
        if fr.memo is not None:
            self.memo_store(st, fr, v)
        while True:
            if ret == 'push':
                if not st.frames:
                    raise EndPath(('return', v))
                c = st.frames[-1]
                c.stack.append(v)
                c.pc += 1
                return PUSHED
            if ret == 'retry':
                return PUSHED
            if ret == 'final':
                raise EndPath(('return', v))
            if ret == 'discard':
                c = st.frames[-1]
                c.pc += 1
                return PUSHED
            k = ret[0]
            if k == 'init':
                if v is not None:
                    raise PyExc('TypeError', '__init__() should return None')
                v = ret[1]
                ret = ret[2]
                continue
            if k == 'class':
                v = self.lib.finish_class(self, st, fr, ret)
                ret = ret[-1]
                if v.__class__ is CallPy:
                    raise Unsupported('class decorator')
                continue
            if k == 'gen':
                # generator finished
                g = st.w(fr.gen)
                g.done = True
                g.frame = None
                mode = ret[1]
                c = st.frames[-1]
                if mode == 'for':
                    c.stack.pop()
                    c.pc = ret[2] + 1
                    return PUSHED
                if mode == 'next':
                    if ret[2] is not UNSET:
                        c.stack.append(ret[2])
                        c.pc += 1
                        return PUSHED
                    raise PyExc('StopIteration', v)
                if mode == 'send':
                    # yield from: replace receiver handled in SEND
                    c.stack.pop()
                    c.stack.append(v)
                    c.pc = ret[2]
                    return PUSHED
            if k == 'fornext':
                c = st.frames[-1]
                c.stack.append(v)
                c.pc += 1
                return PUSHED
            if k == 'bool':
                # __bool__/__eq__ result drives jump or not
                v = ret[1](self, st, v)
                ret = 'push'
                continue
            if k == 'fn':
                v = ret[1](self, st, v)
                if v is PUSHED:
                    return PUSHED
                ret = ret[2]
                continue
            if k == 'replace':
                # result replaces n stack items of the caller
                c = st.frames[-1]
                del c.stack[len(c.stack) - ret[1]:]
                c.stack.append(v)
                c.pc += 1
                return PUSHED
            raise Unsupported('return mode %r' % (k,))


# ==================================================================== opcodes
@op('RESUME', 'NOP', 'CACHE', 'PRECALL', 'EXTENDED_ARG', 'MAKE_CELL_NOP')
def o_nop(vm, st, fr, arg, av):
    return None


@op('POP_TOP')
def o_pop(vm, st, fr, arg, av):
    fr.stack.pop()


@op('END_FOR')
def o_endfor(vm, st, fr, arg, av):
    del fr.stack[-2:]


@op('PUSH_NULL')
def o_pushnull(vm, st, fr, arg, av):
    fr.stack.append(NULL)


@op('COPY')
def o_copy(vm, st, fr, arg, av):
    fr.stack.append(fr.stack[-arg])


@op('SWAP')
def o_swap(vm, st, fr, arg, av):
    s = fr.stack
    s[-1], s[-arg] = s[-arg], s[-1]


@op('LOAD_CONST')
def o_const(vm, st, fr, arg, av):
    if av.__class__ is frozenset:
        av = st.alloc(SObj({x: x for x in av}, 0, 'frozenset'))
    elif av is Ellipsis:
        av = TOP
    fr.stack.append(av)


@op('RETURN_CONST')
def o_retconst(vm, st, fr, arg, av):
    return vm.do_return(st, av)


@op('RETURN_VALUE')
def o_ret(vm, st, fr, arg, av):
    return vm.do_return(st, fr.stack[-1])


@op('LOAD_FAST')
def o_lf(vm, st, fr, arg, av):
    fr.stack.append(fr.loc[arg])


@op('LOAD_FAST_CHECK')
def o_lfc(vm, st, fr, arg, av):
    v = fr.loc[arg]
    if v is UNSET:
        raise PyExc('UnboundLocalError', "cannot access local variable '%s' where it is not associated with a value" % av)
    fr.stack.append(v)


@op('LOAD_FAST_AND_CLEAR')
def o_lfac(vm, st, fr, arg, av):
    fr.stack.append(fr.loc[arg])
    fr.loc[arg] = UNSET


@op('STORE_FAST')
def o_sf(vm, st, fr, arg, av):
    fr.loc[arg] = fr.stack.pop()


@op('DELETE_FAST')
def o_df(vm, st, fr, arg, av):
    if fr.loc[arg] is UNSET:
        raise PyExc('UnboundLocalError', av)
    fr.loc[arg] = UNSET


@op('MAKE_CELL')
def o_mkcell(vm, st, fr, arg, av):
    fr.loc[arg] = st.alloc(Cell(fr.loc[arg]))


@op('COPY_FREE_VARS')
def o_cfv(vm, st, fr, arg, av):
    cl = st.get(fr.func).closure
    n = fr.code.nplus
    for i in range(arg):
        fr.loc[n - arg + i] = cl[i]


@op('LOAD_CLOSURE')
def o_lcl(vm, st, fr, arg, av):
    fr.stack.append(fr.loc[arg])


@op('LOAD_DEREF')
def o_ld(vm, st, fr, arg, av):
    v = st.get(fr.loc[arg]).v
    if v is UNSET:
        raise PyExc('NameError', av)
    fr.stack.append(v)


@op('LOAD_FROM_DICT_OR_DEREF')
def o_lfdod(vm, st, fr, arg, av):
    d = fr.stack[-1]
    name = fr.code.names[arg]
    dd = d if d.__class__ is dict else None
    if dd is None and d.__class__ is Ref:
        o = st.get(d)
        if o.__class__ is DObj and name in o.d:
            fr.stack[-1] = o.d[name][1]
            return
    v = st.get(fr.loc[arg]).v
    if v is UNSET:
        raise PyExc('NameError', name)
    fr.stack[-1] = v


@op('STORE_DEREF')
def o_sd(vm, st, fr, arg, av):
    st.w(fr.loc[arg]).v = fr.stack.pop()


@op('DELETE_DEREF')
def o_dd(vm, st, fr, arg, av):
    st.w(fr.loc[arg]).v = UNSET


@op('LOAD_LOCALS')
def o_ll(vm, st, fr, arg, av):
    fr.stack.append(fr.names)


def load_name(vm, st, fr, name):
    if fr.names is not None:
        o = st.get(fr.names)
        f = o.f if o.__class__ is Mod else None
        if f is None:
            if name in o.d:
                return o.d[name][1]
        elif name in f:
            return f[name]
    return load_global(vm, st, fr, name)


def load_global(vm, st, fr, name):
    f = st.get(fr.g).f
    if name in f:
        return f[name]
    v = vm.lib.builtins.get(name, UNSET)
    if v is UNSET:
        if name == '__name__':
            return st.get(fr.g).name
        raise PyExc('NameError', "name '%s' is not defined" % name)
    return v


@op('LOAD_NAME')
def o_ln(vm, st, fr, arg, av):
    fr.stack.append(load_name(vm, st, fr, av))


@op('STORE_NAME')
def o_sn(vm, st, fr, arg, av):
    o = st.w(fr.names)
    if o.__class__ is Mod:
        o.f[av] = fr.stack.pop()
    else:
        o.d[av] = (av, fr.stack.pop())


@op('DELETE_NAME')
def o_dn(vm, st, fr, arg, av):
    o = st.w(fr.names)
    if o.__class__ is Mod:
        del o.f[av]
    else:
        del o.d[av]


@op('LOAD_GLOBAL')
def o_lg(vm, st, fr, arg, av):
    v = load_global(vm, st, fr, av)
    if arg & 1:
        fr.stack.append(NULL)
    fr.stack.append(v)


@op('STORE_GLOBAL')
def o_sg(vm, st, fr, arg, av):
    st.w(fr.g).f[av] = fr.stack.pop()


@op('DELETE_GLOBAL')
def o_dg(vm, st, fr, arg, av):
    st.w(fr.g).f.pop(av, None)


@op('LOAD_ATTR')
def o_la(vm, st, fr, arg, av):
    o = fr.stack[-1]
    if arg & 1:
        r = vm.lib.getattr(vm, st, o, av, method=True)
        if r.__class__ is CallPy:
            # property getter
            fr.stack.pop()
            fr.stack.append(NULL)
            done, v = vm.call(st, r.fn, r.args, r.kw)
            if not done:
                return PUSHED
            fr.stack.append(v)
            return
        if r.__class__ is BM:
            fr.stack[-1] = r.fn
            fr.stack.append(r.self)
        else:
            fr.stack[-1] = NULL
            fr.stack.append(r)
        return
    r = vm.lib.getattr(vm, st, o, av)
    if r.__class__ is CallPy:
        fr.stack.pop()
        done, v = vm.call(st, r.fn, r.args, r.kw)
        if not done:
            return PUSHED
        fr.stack.append(v)
        return
    fr.stack[-1] = r


@op('LOAD_SUPER_ATTR')
def o_lsa(vm, st, fr, arg, av):
    # stack: super, class, self
    cls, self = fr.stack[-2], fr.stack[-1]
    name = fr.code.co.co_names[arg >> 2]
    r = vm.lib.super_attr(vm, st, cls, self, name)
    del fr.stack[-3:]
    if arg & 1:
        if r.__class__ is BM:
            fr.stack.append(r.fn)
            fr.stack.append(r.self)
        else:
            fr.stack.append(NULL)
            fr.stack.append(r)
    else:
        fr.stack.append(r)


@op('STORE_ATTR')
def o_sa(vm, st, fr, arg, av):
    o = fr.stack[-1]
    v = fr.stack[-2]
    r = vm.lib.setattr(vm, st, o, av, v)
    del fr.stack[-2:]
    if r.__class__ is CallPy:
        done, v = vm.call(st, r.fn, r.args, r.kw, ret='discard')
        if not done:
            return PUSHED


@op('DELETE_ATTR')
def o_da(vm, st, fr, arg, av):
    vm.lib.delattr(vm, st, fr.stack[-1], av)
    fr.stack.pop()


def finish(vm, st, fr, r, n):
    """replace top n stack items by result r (or perform delegated call)"""
    if r.__class__ is CallPy:
        del fr.stack[len(fr.stack) - n:]
        done, v = vm.call(st, r.fn, r.args, r.kw)
        if not done:
            return PUSHED
        fr.stack.append(v)
        return
    del fr.stack[len(fr.stack) - n:]
    fr.stack.append(r)


@op('BINARY_OP')
def o_bin(vm, st, fr, arg, av):
    a, b = fr.stack[-2], fr.stack[-1]
    return finish(vm, st, fr, vm.lib.binop(vm, st, arg, a, b), 2)


@op('UNARY_NEGATIVE')
def o_neg(vm, st, fr, arg, av):
    v = fr.stack[-1]
    if v.__class__ is AInt:
        fr.stack[-1] = scale(v, -1)
    elif v.__class__ in (int, float, bool):
        fr.stack[-1] = -v
    elif v.__class__ is CharInt:
        fr.stack[-1] = scale(vm.lib.to_lin(st, v), -1)
    elif v is TOP:
        pass
    else:
        raise PyExc('TypeError', 'bad operand type for unary -')


@op('UNARY_INVERT')
def o_inv(vm, st, fr, arg, av):
    v = fr.stack[-1]
    if v.__class__ in (int, bool):
        fr.stack[-1] = ~v
    else:
        raise Unsupported('~')


@op('UNARY_NOT')
def o_not(vm, st, fr, arg, av):
    r = truth(vm, st, fr.stack[-1])
    if r is PUSHED:
        raise Unsupported('not on object with __bool__')
    fr.stack[-1] = not r


def truth(vm, st, v):
    if v is True or v is False:
        return v
    return vm.lib.truth(vm, st, v)


@op('BINARY_SUBSCR')
def o_sub(vm, st, fr, arg, av):
    return finish(vm, st, fr, vm.lib.subscr(vm, st, fr.stack[-2], fr.stack[-1]), 2)


@op('BINARY_SLICE')
def o_bslice(vm, st, fr, arg, av):
    return finish(vm, st, fr, vm.lib.subscr(vm, st, fr.stack[-3], Slice(fr.stack[-2], fr.stack[-1], None)), 3)


@op('STORE_SLICE')
def o_sslice(vm, st, fr, arg, av):
    vm.lib.store_subscr(vm, st, fr.stack[-3], Slice(fr.stack[-2], fr.stack[-1], None), fr.stack[-4])
    del fr.stack[-4:]


@op('STORE_SUBSCR')
def o_ssub(vm, st, fr, arg, av):
    r = vm.lib.store_subscr(vm, st, fr.stack[-2], fr.stack[-1], fr.stack[-3])
    del fr.stack[-3:]
    if r.__class__ is CallPy:
        done, v = vm.call(st, r.fn, r.args, r.kw, ret='discard')
        if not done:
            return PUSHED


@op('DELETE_SUBSCR')
def o_dsub(vm, st, fr, arg, av):
    vm.lib.del_subscr(vm, st, fr.stack[-2], fr.stack[-1])
    del fr.stack[-2:]


@op('BUILD_SLICE')
def o_bs(vm, st, fr, arg, av):
    if arg == 3:
        c = fr.stack.pop()
    else:
        c = None
    b = fr.stack.pop()
    a = fr.stack.pop()
    fr.stack.append(Slice(a, b, c))


@op('COMPARE_OP')
def o_cmp(vm, st, fr, arg, av):
    a, b = fr.stack[-2], fr.stack[-1]
    return finish(vm, st, fr, vm.lib.compare(vm, st, av, a, b), 2)


@op('IS_OP')
def o_is(vm, st, fr, arg, av):
    a, b = fr.stack[-2], fr.stack[-1]
    r = vm.lib.is_(vm, st, a, b)
    del fr.stack[-2:]
    fr.stack.append(r != bool(arg))


@op('CONTAINS_OP')
def o_in(vm, st, fr, arg, av):
    a, b = fr.stack[-2], fr.stack[-1]
    r = vm.lib.contains(vm, st, b, a)
    if r.__class__ is CallPy:
        del fr.stack[-2:]
        neg = bool(arg)
        done, v = vm.call(st, r.fn, r.args, r.kw, ret=('fn', (lambda vm, st, v: truth(vm, st, v) != neg), 'push'))
        if not done:
            return PUSHED
        fr.stack.append(truth(vm, st, v) != neg)
        return
    del fr.stack[-2:]
    fr.stack.append(r != bool(arg))


@op('BUILD_TUPLE')
def o_bt(vm, st, fr, arg, av):
    if arg:
        t = tuple(fr.stack[-arg:])
        del fr.stack[-arg:]
    else:
        t = ()
    fr.stack.append(t)


@op('BUILD_LIST')
def o_bl(vm, st, fr, arg, av):
    if arg:
        t = fr.stack[-arg:]
        del fr.stack[-arg:]
    else:
        t = []
    fr.stack.append(st.alloc(LObj(t)))


@op('BUILD_SET')
def o_bset(vm, st, fr, arg, av):
    items = fr.stack[-arg:] if arg else []
    s = vm.lib.make_set(st, items)
    if arg:
        del fr.stack[-arg:]
    fr.stack.append(s)


@op('BUILD_MAP')
def o_bm(vm, st, fr, arg, av):
    d = DObj()
    n = 2 * arg
    items = fr.stack[-n:] if n else []
    r = st.alloc(d)
    for i in range(0, n, 2):
        vm.lib.dict_set(st, r, items[i], items[i + 1])
    if n:
        del fr.stack[-n:]
    fr.stack.append(r)


@op('BUILD_CONST_KEY_MAP')
def o_bckm(vm, st, fr, arg, av):
    keys = fr.stack[-1]
    vals = fr.stack[-1 - arg:-1]
    d = DObj({k: (k, v) for k, v in zip(keys, vals)})
    del fr.stack[-1 - arg:]
    fr.stack.append(st.alloc(d))


@op('BUILD_STRING')
def o_bstr(vm, st, fr, arg, av):
    ps = []
    for v in fr.stack[-arg:]:
        if v is TOP:
            del fr.stack[-arg:]
            fr.stack.append(TOP)
            return
        ps.append(parts_of(v))
    r = from_parts(concat_parts(*ps))
    del fr.stack[-arg:]
    fr.stack.append(r)


@op('FORMAT_VALUE')
def o_fmt(vm, st, fr, arg, av):
    spec = ''
    n = 1
    if arg & 4:
        spec = fr.stack[-1]
        n = 2
    v = fr.stack[-n]
    conv = arg & 3
    if conv == 1:
        v = vm.lib.to_str(vm, st, v)
    elif conv in (2, 3):
        v = vm.lib.to_repr(vm, st, v)
    r = vm.lib.format_value(vm, st, v, spec)
    del fr.stack[-n:]
    fr.stack.append(r)


@op('LIST_EXTEND')
def o_le(vm, st, fr, arg, av):
    it = fr.stack[-1]
    tgt = fr.stack[-1 - arg]
    items = vm.lib.iter_items(st, it)
    if items is None:
        r = CallPy(vm.lib.prelude(st, '_list_extend'), [tgt, it])
        fr.stack.pop()
        done, v = vm.call(st, r.fn, r.args, {}, ret='discard')
        return PUSHED if not done else None
    st.w(tgt).items.extend(items)
    fr.stack.pop()


@op('LIST_APPEND')
def o_lap(vm, st, fr, arg, av):
    v = fr.stack.pop()
    st.w(fr.stack[-arg]).items.append(v)


@op('SET_ADD')
def o_sadd(vm, st, fr, arg, av):
    v = fr.stack[-1]
    vm.lib.set_add(st, fr.stack[-1 - arg], v)
    fr.stack.pop()


@op('SET_UPDATE')
def o_supd(vm, st, fr, arg, av):
    items = vm.lib.iter_items(st, fr.stack[-1])
    if items is None:
        raise Unsupported('set update')
    for v in items:
        vm.lib.set_add(st, fr.stack[-1 - arg], v)
    fr.stack.pop()


@op('MAP_ADD')
def o_madd(vm, st, fr, arg, av):
    v, k = fr.stack[-1], fr.stack[-2]
    vm.lib.dict_set(st, fr.stack[-2 - arg], k, v)
    del fr.stack[-2:]


@op('DICT_UPDATE', 'DICT_MERGE')
def o_dupd(vm, st, fr, arg, av):
    src = fr.stack[-1]
    tgt = fr.stack[-1 - arg]
    o = st.get(src)
    if o.__class__ is not DObj:
        raise Unsupported('dict merge')
    for k, v in list(o.d.values()):
        vm.lib.dict_set(st, tgt, k, v)
    fr.stack.pop()


@op('CALL_INTRINSIC_1')
def o_ci1(vm, st, fr, arg, av):
    if arg == 6:  # LIST_TO_TUPLE
        fr.stack[-1] = tuple(vm.lib.iter_items(st, fr.stack[-1]))
        return
    if arg == 5:  # UNARY_POSITIVE
        return
    if arg == 3:  # STOPITERATION_ERROR
        return
    if arg == 2:  # import star
        m = fr.stack[-1]
        src = st.get(m).f
        names = src.get('__all__')
        dst = st.w(fr.g).f
        ks = [x for x in vm.lib.iter_items(st, names)] if names is not None else [k for k in src if not k.startswith('_')]
        for k in ks:
            dst[k] = src[k]
        return
    if arg in (7, 8, 9, 10, 11):
        return
    raise Unsupported('intrinsic %d' % arg)


@op('CALL_INTRINSIC_2')
def o_ci2(vm, st, fr, arg, av):
    raise Unsupported('intrinsic2 %d' % arg)


@op('JUMP_FORWARD')
def o_jf(vm, st, fr, arg, av):
    return av


@op('JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT')
def o_jb(vm, st, fr, arg, av):
    return av


@op('POP_JUMP_IF_FALSE')
def o_pjf(vm, st, fr, arg, av):
    v = fr.stack[-1]
    if v is not True and v is not False:
        v = vm.lib.truth(vm, st, v)
        if v.__class__ is CallPy:
            return call_truth(vm, st, fr, v)
    fr.stack.pop()
    if not v:
        return av


@op('POP_JUMP_IF_TRUE')
def o_pjt(vm, st, fr, arg, av):
    v = fr.stack[-1]
    if v is not True and v is not False:
        v = vm.lib.truth(vm, st, v)
        if v.__class__ is CallPy:
            return call_truth(vm, st, fr, v)
    fr.stack.pop()
    if v:
        return av


def call_truth(vm, st, fr, c):
    # evaluate __bool__/__len__, then retry this jump with the result on the stack
    def post(vm, st, v):
        f = st.frames[-1]
        f.stack[-1] = v
        return PUSHED
    done, v = vm.call(st, c.fn, c.args, c.kw, ret=('fn', post, 'push'))
    if done:
        fr.stack[-1] = v
    return PUSHED


@op('POP_JUMP_IF_NONE')
def o_pjn(vm, st, fr, arg, av):
    v = fr.stack[-1]
    r = vm.lib.is_(vm, st, v, None)
    fr.stack.pop()
    if r:
        return av


@op('POP_JUMP_IF_NOT_NONE')
def o_pjnn(vm, st, fr, arg, av):
    v = fr.stack[-1]
    r = vm.lib.is_(vm, st, v, None)
    fr.stack.pop()
    if not r:
        return av


@op('GET_ITER')
def o_gi(vm, st, fr, arg, av):
    return finish(vm, st, fr, vm.lib.get_iter(vm, st, fr.stack[-1]), 1)


@op('FOR_ITER')
def o_fi(vm, st, fr, arg, av):
    it = fr.stack[-1]
    if it.__class__ is Ref:
        o = st.get(it)
        if o.__class__ is Gen:
            if o.done:
                fr.stack.pop()
                return av + 1
            return resume_gen(vm, st, it, ('gen', 'for', av))
        if o.__class__ is Inst:
            m = vm.lookup_mro(st, o.cls, '__next__')
            done, v = vm.call(st, m, [it], {}, ret=('fornext', av))
            return PUSHED
        if o.__class__ is It and o.kind == 'range' and o.pos.__class__ is int and o.src.b.__class__ is int and o.src.b - o.pos > 16:
            fill(vm, st, fr, it, o)
    ok, v = vm.lib.iter_next(vm, st, it)
    if v.__class__ is CallPy:
        raise Unsupported('iterator callback')
    if not ok:
        fr.stack.pop()
        return av + 1
    fr.stack.append(v)


def fill(vm, st, fr, it, o):
    """for i in range(..): x[i] = constant  --  all rounds but the last at once"""
    ins = fr.code.ins
    pc = fr.pc + 1
    names = [x[3] for x in ins[pc:pc + 7]]
    if names not in (['STORE_FAST', 'LOAD_CONST', 'LOAD_FAST', 'LOAD_ATTR', 'LOAD_FAST', 'STORE_SUBSCR', 'JUMP_BACKWARD'],
                     ['STORE_FAST', 'LOAD_CONST', 'LOAD_FAST', 'LOAD_FAST', 'STORE_SUBSCR', 'JUMP_BACKWARD', 'END_FOR']):
        return
    attr = names[3] == 'LOAD_ATTR'
    if ins[pc][2] != ins[pc + 3 + attr][2] or ins[pc][2] == ins[pc + 2][2] or ins[pc + 5 + attr][2] != fr.pc or o.src.c != 1 or o.pos < 0:
        return
    if ins[pc + 1][2].__class__ not in (int, str, bool, NoneType):
        return
    x = fr.loc[ins[pc + 2][1]]
    if attr:
        if x.__class__ is not Ref or st.get(x).__class__ is not Inst:
            return
        if vm.lookup_mro(st, st.get(x).cls, ins[pc + 3][2]).__class__ is Prop:
            return
        x = st.get(x).f.get(ins[pc + 3][2])
    if x.__class__ is not Ref or st.get(x).__class__ is not LObj:
        return
    l = st.get(x)
    if has_chars(l.items) or o.src.b > len(l.items):
        return
    e = o.src.b - 1
    st.w(x).items[o.pos:e] = [ins[pc + 1][2]] * (e - o.pos)
    st.w(it).pos = e


def resume_gen(vm, st, ref, ret, sent=None):
    g = st.w(ref)
    f = g.frame.copy()
    g.frame = None
    first = not g.started
    g.started = True
    f.ret = ret
    f.gen = ref
    f.loops = None
    if not first:
        f.stack.append(sent)
    else:
        f.stack.append(None)
    st.frames.append(f)
    return PUSHED


@op('RETURN_GENERATOR')
def o_rg(vm, st, fr, arg, av):
    f = fr.copy()
    f.pc += 1  # following POP_TOP consumes the sent None
    ref = st.alloc(Gen(f))
    fr.gen = None
    return vm.do_return(st, ref)


@op('YIELD_VALUE')
def o_yv(vm, st, fr, arg, av):
    v = fr.stack.pop()
    st.frames.pop()
    ret = fr.ret
    fr.pc += 1
    g = st.w(fr.gen)
    g.frame = fr.copy()
    c = st.frames[-1]
    mode = ret[1]
    if mode == 'for' or mode == 'next':
        c.stack.append(v)
        c.pc += 1
        return PUSHED
    if mode == 'send':
        # SEND: push yielded value, continue after SEND
        c.stack[-1] = v
        c.pc += 1
        return PUSHED
    raise Unsupported('yield mode')


@op('GET_YIELD_FROM_ITER')
def o_gyfi(vm, st, fr, arg, av):
    v = fr.stack[-1]
    if v.__class__ is Ref and st.get(v).__class__ is Gen:
        return
    return finish(vm, st, fr, vm.lib.get_iter(vm, st, v), 1)


@op('SEND')
def o_send(vm, st, fr, arg, av):
    recv = fr.stack[-2]
    o = st.get(recv)
    if o.__class__ is Gen:
        if o.done:
            fr.stack[-1] = None
            return av
        return resume_gen(vm, st, recv, ('gen', 'send', av), fr.stack[-1])
    ok, v = vm.lib.iter_next(vm, st, recv)
    if not ok:
        fr.stack[-1] = None
        return av
    fr.stack[-1] = v


@op('END_SEND')
def o_es(vm, st, fr, arg, av):
    v = fr.stack.pop()
    fr.stack[-1] = v


@op('KW_NAMES')
def o_kwn(vm, st, fr, arg, av):
    fr.kwn = fr.code.co.co_consts[arg]


@op('CALL')
def o_call(vm, st, fr, arg, av):
    s = fr.stack
    n = len(s)
    if s[n - arg - 2] is NULL:
        fn = s[n - arg - 1]
        args = s[n - arg:]
    else:
        fn = s[n - arg - 2]
        args = s[n - arg - 1:]
    kw = {}
    k = fr.kwn
    if k:
        m = len(k)
        kw = dict(zip(k, args[-m:]))
        args = args[:-m]
    # keep stack until the native part has completed (may fork)
    c = fn.__class__
    if c is NF or c is NM or c is NT or c is BM or (c is Ref):
        saved = len(st.frames)
        done, v = vm.call(st, fn, args, kw)
        del s[n - arg - 2:]
        fr.kwn = ()
        if not done:
            return PUSHED
        s.append(v)
        return
    done, v = vm.call(st, fn, args, kw)
    del s[n - arg - 2:]
    fr.kwn = ()
    if not done:
        return PUSHED
    s.append(v)


@op('CALL_FUNCTION_EX')
def o_cfx(vm, st, fr, arg, av):
    s = fr.stack
    kw = {}
    n = 3
    if arg & 1:
        n = 4
        kwd = st.get(s[-1])
        if kwd.__class__ is not DObj:
            raise Unsupported('**kwargs')
        kw = {k: v for k, v in kwd.d.values()}
        args = s[-2]
        fn = s[-3]
    else:
        args = s[-1]
        fn = s[-2]
    items = vm.lib.iter_items(st, args)
    if items is None:
        done, v = vm.call(st, vm.lib.prelude(st, '_call_star'), [fn, args], kw)
    else:
        done, v = vm.call(st, fn, list(items), kw)
    del s[len(s) - n:]
    if not done:
        return PUSHED
    s.append(v)


@op('MAKE_FUNCTION')
def o_mf(vm, st, fr, arg, av):
    s = fr.stack
    code = s.pop()
    closure = ()
    defaults = ()
    kwd = {}
    if arg & 8:
        closure = s.pop()
    if arg & 4:
        s.pop()
    if arg & 2:
        kwd = {k: v for k, v in st.get(s.pop()).d.values()}
    if arg & 1:
        defaults = s.pop()
    s.append(st.alloc(Func(Code.get(code), fr.g, defaults, kwd, closure, code.co_name)))


@op('LOAD_BUILD_CLASS')
def o_lbc(vm, st, fr, arg, av):
    fr.stack.append(vm.lib.build_class)


@op('LOAD_ASSERTION_ERROR')
def o_lae(vm, st, fr, arg, av):
    fr.stack.append(vm.lib.excs['AssertionError'])


@op('IMPORT_NAME')
def o_import(vm, st, fr, arg, av):
    fromlist, level = fr.stack[-1], fr.stack[-2]
    r = vm.lib.import_name(vm, st, fr, av, fromlist, level)
    if r is PUSHED:
        return PUSHED
    del fr.stack[-2:]
    fr.stack.append(r)


@op('IMPORT_FROM')
def o_importfrom(vm, st, fr, arg, av):
    m = fr.stack[-1]
    r = vm.lib.import_from(vm, st, m, av)
    if r is PUSHED:
        return PUSHED
    fr.stack.append(r)


@op('RAISE_VARARGS')
def o_raise(vm, st, fr, arg, av):
    if arg == 0:
        if st.exc is None:
            raise PyExc('RuntimeError', 'No active exception to reraise')
        raise PyExc(st.exc)
    v = fr.stack[-1] if arg == 1 else fr.stack[-2]
    if v.__class__ is Ref and st.get(v).__class__ is Cls:
        def post(vm, st, inst):
            raise PyExc(inst)
        done, inst = vm.call(st, v, [], {}, ret=('fn', post, 'push'))
        if not done:
            return PUSHED
        raise PyExc(inst)
    if v.__class__ is not Ref:
        if v is TOP:
            st.taint('raise of unknown')
        raise PyExc('TypeError', 'exceptions must derive from BaseException')
    raise PyExc(v)


@op('RERAISE')
def o_reraise(vm, st, fr, arg, av):
    v = fr.stack.pop()
    raise PyExc(v)


@op('PUSH_EXC_INFO')
def o_pei(vm, st, fr, arg, av):
    v = fr.stack.pop()
    fr.stack.append(st.exc)
    fr.stack.append(v)
    st.exc = v


@op('POP_EXCEPT')
def o_pe(vm, st, fr, arg, av):
    st.exc = fr.stack.pop()


@op('CHECK_EXC_MATCH')
def o_cem(vm, st, fr, arg, av):
    t = fr.stack[-1]
    e = fr.stack[-2]
    ts = t if t.__class__ is tuple else (t,)
    r = False
    for x in ts:
        if x is TOP or x.__class__ is OpaqueMod:
            st.taint('except of unknown class')
            continue
        if x.__class__ is Ref and vm.exc_isinstance(st, e, x):
            r = True
    fr.stack[-1] = r


@op('BEFORE_WITH')
def o_bw(vm, st, fr, arg, av):
    m = fr.stack[-1]
    ex = vm.lib.getattr(vm, st, m, '__exit__')
    en = vm.lib.getattr(vm, st, m, '__enter__')
    done, v = vm.call(st, en, [], {})
    st.frames[-1 if done else -2].stack[-1] = ex
    if not done:
        return PUSHED
    fr.stack.append(v)


@op('WITH_EXCEPT_START')
def o_wes(vm, st, fr, arg, av):
    # stack: [exit_func, lasti, prev_exc, exc]
    exc = fr.stack[-1]
    ex = fr.stack[-4]
    cls = st.get(exc).cls
    done, v = vm.call(st, ex, [cls, exc, None], {})
    if not done:
        return PUSHED
    fr.stack.append(v)


@op('UNPACK_SEQUENCE')
def o_us(vm, st, fr, arg, av):
    v = fr.stack[-1]
    items = vm.lib.iter_items(st, v)
    if items is None:
        r = vm.lib.prelude(st, '_to_list')
        done, x = vm.call(st, r, [v], {}, ret=('replace', 1))
        # retried: the list replaces the value and pc advances -> step back
        if not done:
            st.frames[-2].pc -= 1 if False else 0
        raise Unsupported('unpack of lazy iterable')
    if len(items) != arg:
        raise PyExc('ValueError', 'wrong number of values to unpack')
    fr.stack.pop()
    fr.stack.extend(reversed(items))


@op('UNPACK_EX')
def o_ue(vm, st, fr, arg, av):
    v = fr.stack[-1]
    items = vm.lib.iter_items(st, v)
    if items is None:
        raise Unsupported('unpack of lazy iterable')
    before, after = arg & 0xff, arg >> 8
    if len(items) < before + after:
        raise PyExc('ValueError', 'not enough values to unpack')
    items = list(items)
    mid = items[before:len(items) - after]
    fr.stack.pop()
    out = items[:before] + [st.alloc(LObj(mid))] + (items[len(items) - after:] if after else [])
    fr.stack.extend(reversed(out))


@op('SETUP_ANNOTATIONS')
def o_san(vm, st, fr, arg, av):
    o = st.w(fr.names)
    if o.__class__ is Mod:
        o.f.setdefault('__annotations__', st.alloc(DObj()))
    elif '__annotations__' not in o.d:
        o.d['__annotations__'] = ('__annotations__', st.alloc(DObj()))


@op('GET_LEN')
def o_getlen(vm, st, fr, arg, av):
    fr.stack.append(vm.lib.length(vm, st, fr.stack[-1]))


@op('MATCH_SEQUENCE')
def o_ms(vm, st, fr, arg, av):
    v = fr.stack[-1]
    fr.stack.append(v.__class__ is tuple or (v.__class__ is Ref and st.get(v).__class__ is LObj))


@op('MATCH_MAPPING')
def o_mm(vm, st, fr, arg, av):
    v = fr.stack[-1]
    fr.stack.append(v.__class__ is Ref and st.get(v).__class__ is DObj)


@op('MATCH_KEYS')
def o_mk(vm, st, fr, arg, av):
    subj, keys = fr.stack[-2], fr.stack[-1]
    vals = []
    for k in keys:
        v = vm.lib.dict_get(st, subj, k)
        if v is UNSET:
            fr.stack.append(None)
            return
        vals.append(v)
    fr.stack.append(tuple(vals))
