"""Object model and builtins of the abstract machine."""
import dis
import math
import operator
import os
import sys
import unicodedata

from . import chars, strs
from .chars import hom_lower, hom_upper, hom_casefold, hom_sub, hom_compose
from .dom import (AInt, AStr, CharInt, Term, TOP, Fork, Unsupported, PyExc, add, sub, scale, mk,
                  is_str, parts_of, from_parts, concat_parts)
from .vm import (Ref, NF, NT, NM, BM, Slice, ARange, Prop, StaticM, ClassM, CharsOf, has_chars, OpaqueMod, CallPy, LObj, DObj, SObj,
                 Inst, Cls, Func, Mod, Cell, Gen, It, Box, Code, UNSET, NULL, PUSHED, resume_gen)

NONE = type(None)
CONC = (int, bool, float, str, bytes, NONE, complex)
PYERR = (TypeError, ValueError, ZeroDivisionError, OverflowError, IndexError, KeyError, AttributeError,
         UnicodeDecodeError, UnicodeEncodeError, LookupError, StopIteration)

EXC_TREE = [
    ('BaseException', None), ('Exception', 'BaseException'), ('SystemExit', 'BaseException'),
    ('KeyboardInterrupt', 'BaseException'), ('GeneratorExit', 'BaseException'),
    ('ArithmeticError', 'Exception'), ('ZeroDivisionError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'),
    ('AssertionError', 'Exception'), ('AttributeError', 'Exception'), ('EOFError', 'Exception'),
    ('ImportError', 'Exception'), ('ModuleNotFoundError', 'ImportError'), ('LookupError', 'Exception'),
    ('IndexError', 'LookupError'), ('KeyError', 'LookupError'), ('MemoryError', 'Exception'), ('NameError', 'Exception'),
    ('UnboundLocalError', 'NameError'), ('OSError', 'Exception'), ('FileNotFoundError', 'OSError'),
    ('FileExistsError', 'OSError'), ('PermissionError', 'OSError'), ('IsADirectoryError', 'OSError'),
    ('NotADirectoryError', 'OSError'), ('BrokenPipeError', 'OSError'), ('InterruptedError', 'OSError'),
    ('RuntimeError', 'Exception'), ('RecursionError', 'RuntimeError'), ('NotImplementedError', 'RuntimeError'),
    ('StopIteration', 'Exception'), ('StopAsyncIteration', 'Exception'), ('SyntaxError', 'Exception'),
    ('TypeError', 'Exception'), ('ValueError', 'Exception'), ('UnicodeError', 'ValueError'),
    ('UnicodeDecodeError', 'UnicodeError'), ('UnicodeEncodeError', 'UnicodeError'), ('Warning', 'Exception'),
    ('UserWarning', 'Warning'), ('DeprecationWarning', 'Warning'), ('RuntimeWarning', 'Warning'),
    ('ResourceWarning', 'Warning'), ('FutureWarning', 'Warning'), ('PackageNotFoundError', 'ModuleNotFoundError'),
    ('UnsupportedOperation', 'OSError'), ('re.error', 'Exception'),
]

STR_METHODS = {n for n in dir(str) if not n.startswith('__')} | {'__len__', '__contains__', '__getitem__', '__eq__', '__add__',
                                                                  '__iter__', '__str__', '__format__', '__hash__', '__mul__', '__ne__', '__lt__'}
LIST_METHODS = {n for n in dir(list) if not n.startswith('__')} | {'__len__', '__contains__', '__getitem__', '__iter__', '__setitem__', '__delitem__'}
DICT_METHODS = {n for n in dir(dict) if not n.startswith('__')} | {'__len__', '__contains__', '__getitem__', '__iter__', '__setitem__', '__delitem__', 'move_to_end',
                                                                    'most_common', 'elements', 'subtract'}
SET_METHODS = {n for n in dir(set) if not n.startswith('__')} | {'__len__', '__contains__', '__iter__'}
TUPLE_METHODS = {'count', 'index', '__len__', '__contains__', '__getitem__', '__iter__'}
INT_METHODS = {n for n in dir(int) if not n.startswith('__')} | {'__add__', '__sub__', '__lt__', '__le__', '__eq__', '__index__', '__int__', '__str__', '__hash__', '__bool__'}

BIN = {0: operator.add, 1: operator.and_, 2: operator.floordiv, 3: operator.lshift, 4: operator.matmul, 5: operator.mul,
       6: operator.mod, 7: operator.or_, 8: operator.pow, 9: operator.rshift, 10: operator.sub, 11: operator.truediv,
       12: operator.xor}
DUNDER = {0: 'add', 1: 'and', 2: 'floordiv', 3: 'lshift', 4: 'matmul', 5: 'mul', 6: 'mod', 7: 'or', 8: 'pow', 9: 'rshift',
          10: 'sub', 11: 'truediv', 12: 'xor'}
CMPD = {'<': 'lt', '<=': 'le', '==': 'eq', '!=': 'ne', '>': 'gt', '>=': 'ge'}
SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
CMPF = {'<': operator.lt, '<=': operator.le, '==': operator.eq, '!=': operator.ne, '>': operator.gt, '>=': operator.ge}


def pyexc(e):
    return PyExc(type(e).__name__, *[str(a) for a in e.args])


class Lib:
    U8 = None
    def __init__(self, repo='/repo', fpy='/opt/venv/lib/python3.12/site-packages/fpyutils'):
        self.repo = repo
        self.fpy = fpy
        self.excs = {}
        self.builtins = {}
        self.types = {}
        self.preludes = {}
        self.native_mods = {}
        self.codes = {}
        self.extern = set()
        from . import mods
        self.mods = mods
        self.setup_types()

    # =============================================================== boot
    def boot(self, vm, st):
        """create exception classes, builtins and prelude in the state"""
        for n, b in EXC_TREE:
            bases = (self.excs[b],) if b else ()
            r = st.alloc(Cls(n.split('.')[-1], bases, (), {}, ''))
            c = st.w(r)
            c.mro = (r,) + (st.get(bases[0]).mro if bases else ())
            self.excs[n] = r
        self.excs['error'] = self.excs['re.error']

        def exc_init(vm, st, args, kw):
            st.w(args[0]).f['args'] = tuple(args[1:])
            return None
        st.w(self.excs['BaseException']).f['__init__'] = NF('exc_init', exc_init)
        self.excs['IOError'] = self.excs['EnvironmentError'] = self.excs['OSError']
        B = self.builtins
        for n, r in self.excs.items():
            if '.' not in n:
                B[n] = r
        self.build_class = NF('__build_class__', self.b_build_class)
        B['__build_class__'] = self.build_class
        for n in dir(self):
            if n.startswith('bi_'):
                B[n[3:]] = NF(n[3:], getattr(self, n))
        B.update(self.types)
        B['True'], B['False'], B['None'] = True, False, None
        B['NotImplemented'] = TOP
        B['Ellipsis'] = TOP
        B['__debug__'] = True
        B['__name__'] = 'builtins'
        # prelude
        path = os.path.join(os.path.dirname(__file__), 'prelude.py')
        src = open(path).read()
        m = st.alloc(Mod('mdsa.prelude', {'__name__': 'mdsa.prelude'}, path))
        self.prelude_mod = m
        vm.push_frame(st, Code.get(compile(src, path, 'exec', dont_inherit=True)), m, [], names=m, ret='final')

    def prelude(self, st, name):
        return st.get(self.prelude_mod).f[name]

    def t_bytearray(self, vm, st, args, kw):
        if args and args[0].__class__ is Ref and st.get(args[0]).__class__ is LObj:
            items = [self.con(st, x) for x in st.get(args[0]).items]
            if all(x.__class__ is int for x in items):
                try:
                    return bytes(items)
                except ValueError as e:
                    raise pyexc(e)
        raise Unsupported('bytearray')

    def setup_types(self):
        T = self.types

        def mkT(name, fn, py=None):
            T[name] = NT(name, fn, py)
        mkT('str', self.t_str, str)
        mkT('int', self.t_int, int)
        mkT('float', self.t_float, float)
        mkT('bool', self.t_bool, bool)
        mkT('bytes', self.t_bytes, bytes)
        mkT('list', self.t_list, list)
        mkT('tuple', self.t_tuple, tuple)
        mkT('dict', self.t_dict, dict)
        mkT('set', self.t_set, set)
        mkT('frozenset', self.t_frozenset, frozenset)
        mkT('object', self.t_object, object)
        mkT('type', self.t_type, type)
        mkT('range', self.t_range, range)
        mkT('enumerate', self.t_enumerate)
        mkT('zip', self.t_zip)
        mkT('map', self.t_map)
        mkT('filter', self.t_filter)
        mkT('reversed', self.t_reversed)
        mkT('slice', lambda vm, st, a, k: Slice(*(a + [None] * 3)[:3]) if len(a) > 1 else Slice(None, a[0], None))
        mkT('property', lambda vm, st, a, k: Prop(*a[:2]))
        mkT('staticmethod', lambda vm, st, a, k: StaticM(a[0]))
        mkT('classmethod', lambda vm, st, a, k: ClassM(a[0]))
        mkT('super', self.t_super)
        mkT('bytearray', self.t_bytearray)
        mkT('memoryview', None)
        mkT('complex', None)
        mkT('NoneType', None)
        mkT('function', None)
        mkT('module', None)

    # =============================================================== helpers
    def con(self, st, v):
        """best concrete form"""
        c = v.__class__
        if c is AStr:
            r = st.cval(v)
            return r if r is not None else v
        if c is AInt:
            return st.norm(v)
        if c is CharInt:
            t = self.citab(st, v)
            vals = set(t.values())
            if len(vals) == 1:
                x = vals.pop()
                if x.__class__ is int or x.__class__ is bool:
                    return x
            return v
        return v

    def citab(self, st, v):
        sid = v.part[0]
        ps = st.pieces(sid)
        if len(ps) != 1:
            raise Unsupported('char value')
        cs = st.segs[ps[0]][0]
        return {a: v.tab[a] for a in chars.AT.atoms_in(cs)}

    def cisid(self, st, v):
        return st.pieces(v.part[0])[0]

    def cimap(self, st, v, f):
        tab = {}
        for a, x in self.citab(st, v).items():
            tab[a] = f(x)
        return CharInt(v.part, tab)

    def ci_decide(self, st, v, pred, why='char value', point=None):
        """pred: int -> bool, monotone in its argument unless it singles out the value point"""
        t = m = 0
        for a, x in self.citab(st, v).items():
            if x.__class__ is tuple:
                r1, r2 = pred(x[0]), pred(x[1])
                if r1 != r2 or (point is not None and x[0] <= point <= x[1]):
                    raise Unsupported('char class straddles a numeric test')
                r = r1
            else:
                r = pred(x)
            if r:
                t |= 1 << a
            else:
                m |= 1 << a
        if not m:
            return True
        if not t:
            return False
        sid = self.cisid(st, v)
        raise Fork([lambda s: s.restrict(sid, t), lambda s: s.restrict(sid, m)], why)

    def to_lin(self, st, v):
        c = v.__class__
        if c is int or c is bool:
            return int(v)
        if c is AInt:
            return st.norm(v)
        if c is CharInt:
            x = self.con(st, v)
            if x.__class__ is int:
                return x
            if v.isord:
                return st.norm(AInt(0, {('o', v.part): 1}))
            # fork on the value
            groups = {}
            for a, y in self.citab(st, v).items():
                groups.setdefault(y, 0)
                groups[y] |= 1 << a
            sid = self.cisid(st, v)
            if len(groups) <= 64 and all(k.__class__ is int for k in groups):
                raise Fork([(lambda m: (lambda s: s.restrict(sid, m)))(m) for m in groups.values()], 'char value')
            raise Unsupported('char arithmetic')
        raise Unsupported('integer expected')

    def isint(self, v):
        c = v.__class__
        return c is int or c is bool or c is AInt or c is CharInt

    def tname(self, st, v):
        c = v.__class__
        if c in CONC:
            return type(v).__name__
        if c is AStr:
            return 'str'
        if c is AInt or c is CharInt:
            return 'int'
        if c is Term:
            return 'bytes' if v.f == 'utf8' else 'str'
        if c is tuple:
            return 'tuple'
        if c is ARange:
            return 'range'
        if c is Slice:
            return 'slice'
        if c is NT:
            return 'type'
        if c is NF or c is NM:
            return 'builtin_function_or_method'
        if c is BM:
            return 'method'
        if c is Ref:
            o = st.get(v)
            oc = o.__class__
            if oc is LObj:
                return o.kind
            if oc is DObj:
                return o.kind
            if oc is SObj:
                return o.kind
            if oc is Inst:
                return st.get(o.cls).name
            if oc is Func:
                return 'function'
            if oc is Cls:
                return 'type'
            if oc is Mod:
                return 'module'
            if oc is Gen:
                return 'generator'
            if oc is Box:
                return o.kind
            return oc.__name__
        return c.__name__

    # =============================================================== truth / identity
    def truth(self, vm, st, v):
        c = v.__class__
        if c in CONC:
            return bool(v)
        if c is AStr:
            return strs.truthy_str(st, v)
        if c is AInt:
            return not st.decide_eq0(v, 'integer is zero?')
        if c is CharInt:
            return self.ci_decide(st, v, lambda x: x != 0)
        if c is tuple:
            return len(v) > 0
        if c is Ref:
            o = st.get(v)
            oc = o.__class__
            if oc is LObj:
                for x in o.items:
                    if x.__class__ is not CharsOf:
                        return True
                for x in o.items:
                    if strs.truthy_str(st, AStr(x.p)):
                        return True
                return False
            if oc is DObj or oc is SObj:
                return len(o.d) > 0
            if oc is Inst:
                m = vm.lookup_mro(st, o.cls, '__bool__')
                if m is not UNSET:
                    return CallPy(m, [v])
                m = vm.lookup_mro(st, o.cls, '__len__')
                if m is not UNSET:
                    return CallPy(m, [v])
                return True
            if oc is Box:
                if o.kind in ('keys', 'values', 'items'):
                    return len(st.get(o.f['d']).d) > 0
            return True
        if c is ARange:
            n = self.range_len(st, v)
            return self.truth(vm, st, n)
        if v is TOP:
            raise Unsupported('branch on an unknown value')
        return True

    def is_(self, vm, st, a, b):
        ca, cb = a.__class__, b.__class__
        if a is b:
            return True
        if ca is Ref and cb is Ref:
            return a.a == b.a
        if b is None or a is None or b is True or b is False or a is True or a is False:
            if a is TOP or b is TOP:
                raise Unsupported('identity test on an unknown value')
            return False
        if ca is Ref or cb is Ref:
            return False
        if a is TOP or b is TOP:
            raise Unsupported('identity test on an unknown value')
        if ca is tuple and cb is tuple:
            return False
        r = self.eq(vm, st, a, b)
        return r

    # =============================================================== equality / ordering
    def eq(self, vm, st, a, b):
        ca, cb = a.__class__, b.__class__
        if ca in CONC and cb in CONC:
            return a == b
        if a is TOP or b is TOP:
            raise Unsupported('comparison with an unknown value')
        if ca is Ref and cb is Ref and a.a == b.a:
            o = st.get(a)
            if o.__class__ is not Inst:
                return True
        sa, sb = (ca is str or ca is AStr), (cb is str or cb is AStr)
        if sa and sb:
            return st.eq(a, b)
        ia, ib = self.isint(a), self.isint(b)
        if ia and ib:
            return self.int_eq(st, a, b)
        if ca is Term or cb is Term:
            if ca is not cb:
                if sa or sb:
                    x = a if sa else b
                    if st.cval(x) is not None:
                        return False
                    raise Unsupported('comparison of a digest with text')
                return False
            return self.term_eq(vm, st, a, b)
        if ca is tuple and cb is tuple:
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                r = self.eq(vm, st, x, y)
                if r.__class__ is CallPy:
                    raise Unsupported('nested __eq__')
                if not r:
                    return False
            return True
        if ca is ARange and cb is ARange:
            return all(self.eq(vm, st, x, y) for x, y in ((a.a, b.a), (a.b, b.b), (a.c, b.c)))
        oa = st.get(a) if ca is Ref else None
        ob = st.get(b) if cb is Ref else None
        for o, x, y in ((oa, a, b), (ob, b, a)):
            if o.__class__ is Inst:
                m = vm.lookup_mro(st, o.cls, '__eq__')
                if m is not UNSET:
                    return CallPy(m, [x, y])
        if oa is not None and ob is not None:
            ka, kb = oa.__class__, ob.__class__
            if ka is LObj and kb is LObj:
                ia, ib = oa.items, ob.items
                if has_chars(ia) or has_chars(ib):
                    return st.eq(self.chars_str(ia), self.chars_str(ib))
                if len(ia) != len(ib):
                    return False
                for x, y in zip(ia, ib):
                    r = self.eq(vm, st, x, y)
                    if r.__class__ is CallPy:
                        raise Unsupported('nested __eq__')
                    if not r:
                        return False
                return True
            if ka is DObj and kb is DObj:
                if len(oa.d) != len(ob.d):
                    return False
                for k, v in list(oa.d.values()):
                    w = self.dict_get(st, b, k)
                    if w is UNSET:
                        return False
                    if not self.eq(vm, st, v, w):
                        return False
                return True
            if ka is SObj and kb is SObj:
                if len(oa.d) != len(ob.d):
                    return False
                return all(self.contains(vm, st, b, k) for k in list(oa.d.values()))
            if ka is Inst and kb is Inst:
                df = vm.lookup_mro(st, oa.cls, '__dataclass_fields__')
                if df is not UNSET and oa.cls == ob.cls and vm.lookup_mro(st, oa.cls, '__dc_eq__') is not False:
                    for k in df:
                        if not self.eq(vm, st, oa.f[k], ob.f[k]):
                            return False
                    return True
            if ka is Box and kb is Box and oa.kind == ob.kind == 'path':
                return self.eq(vm, st, oa.f['p'], ob.f['p'])
            return a.a == b.a
        if ca is BM and cb is BM:
            return a.fn == b.fn and self.is_(vm, st, a.self, b.self)
        return a is b

    def chars_str(self, items):
        out = []
        for x in items:
            if x.__class__ is CharsOf:
                out.append(x.p)
            elif is_str(x):
                out.append(parts_of(x))
            else:
                raise Unsupported('list with abstract characters')
        return from_parts(concat_parts(*out))

    def term_eq(self, vm, st, a, b):
        if a.f != b.f or len(a.args) != len(b.args):
            return False
        r = True
        for x, y in zip(a.args, b.args):
            if not self.eq(vm, st, x, y):
                r = False
                break
        if not r and a.f.startswith('weak:'):
            key = ('collide', repr([(st.res(x) if is_str(x) else x) for x in a.args]), repr([(st.res(x) if is_str(x) else x) for x in b.args]))
            d = st.opts.get(key)
            if d is not None:
                return d

            def setv(val):
                def f(s):
                    s.opts = dict(s.opts)
                    s.opts[key] = val
                    return True
                return f
            raise Fork([setv(True), setv(False)], 'short digest may collide')
        return r

    def int_eq(self, st, a, b):
        a, b = self.con(st, a), self.con(st, b)
        if a.__class__ is CharInt and b.__class__ is CharInt:
            if a.isord and b.isord:
                return st.eq(AStr((a.part,)), AStr((b.part,)))
            if a.part == b.part:
                ta, tb = self.citab(st, a), self.citab(st, b)
                t = m = 0
                for k in ta:
                    if ta[k] == tb[k]:
                        t |= 1 << k
                    else:
                        m |= 1 << k
                if not m:
                    return True
                if not t:
                    return False
                sid = self.cisid(st, a)
                raise Fork([lambda s: s.restrict(sid, t), lambda s: s.restrict(sid, m)], 'char value')
        if a.__class__ is CharInt and b.__class__ in (int, bool):
            return self.ci_decide(st, a, lambda x: x == b, point=b)
        if b.__class__ is CharInt and a.__class__ in (int, bool):
            return self.ci_decide(st, b, lambda x: x == a, point=a)
        return st.decide_eq0(sub(self.to_lin(st, a), self.to_lin(st, b)))

    def compare(self, vm, st, op, a, b):
        ca, cb = a.__class__, b.__class__
        if ca in CONC and cb in CONC:
            try:
                return CMPF[op](a, b)
            except TypeError as e:
                raise pyexc(e)
        if op == '==' or op == '!=':
            r = self.eq(vm, st, a, b)
            if r.__class__ is CallPy:
                if op == '!=':
                    return CallPy(self.prelude(st, '_not_call'), [r.fn] + r.args)
                return r
            return r if op == '==' else not r
        if a is TOP or b is TOP:
            raise Unsupported('ordering of an unknown value')
        if self.isint(a) and self.isint(b):
            a, b = self.con(st, a), self.con(st, b)
            if a.__class__ is CharInt and b.__class__ in (int, bool):
                return self.ci_decide(st, a, lambda x: CMPF[op](x, b))
            if b.__class__ is CharInt and a.__class__ in (int, bool):
                return self.ci_decide(st, b, lambda x: CMPF[op](a, x))
            d = sub(self.to_lin(st, a), self.to_lin(st, b))
            if op == '>=':
                return st.decide_ge0(d)
            if op == '>':
                return st.decide_ge0(sub(d, 1))
            if op == '<=':
                return st.decide_ge0(scale(d, -1))
            return st.decide_ge0(sub(-1, d))
        if is_str(a) and is_str(b):
            o = strs.order(st, a, b)
            return CMPF[op](o, 0)
        if self.isint(a) and cb is float or self.isint(b) and ca is float:
            f, n = (b, a) if cb is float else (a, b)
            o = op if cb is float else SWAP[op]
            if math.isinf(f):
                return CMPF[o](0, f)
            if o in ('<', '>='):
                r = self.compare(vm, st, '>=', n, math.ceil(f))
                return r if o == '>=' else not r
            r = self.compare(vm, st, '<=', n, math.floor(f))
            return r if o == '<=' else not r
        la = self.seq_items(st, a)
        lb = self.seq_items(st, b)
        if la is not None and lb is not None and self.tname(st, a) == self.tname(st, b):
            for x, y in zip(la, lb):
                if not self.eq(vm, st, x, y):
                    return self.compare(vm, st, op, x, y)
            return CMPF[op](len(la), len(lb))
        if ca is Ref:
            o = st.get(a)
            if o.__class__ is Inst:
                m = vm.lookup_mro(st, o.cls, '__%s__' % CMPD[op])
                if m is not UNSET:
                    return CallPy(m, [a, b])
            if o.__class__ is SObj and cb is Ref and st.get(b).__class__ is SObj:
                ob = st.get(b)
                sub_ = all(self.contains(vm, st, b, k) for k in list(o.d.values()))
                sup_ = all(self.contains(vm, st, a, k) for k in list(ob.d.values()))
                return {'<=': sub_, '>=': sup_, '<': sub_ and not sup_, '>': sup_ and not sub_}[op]
            if o.__class__ is Box and o.kind == 'cmpkey' and cb is Ref:
                # functools.cmp_to_key
                return CallPy(self.prelude(st, '_cmpkey'), [o.f['fn'], o.f['v'], st.get(b).f['v'], op])
        raise PyExc('TypeError', "'%s' not supported between instances of '%s' and '%s'" % (op, self.tname(st, a), self.tname(st, b)))

    def seq_items(self, st, v):
        if v.__class__ is tuple:
            return v
        if v.__class__ is Ref:
            o = st.get(v)
            if o.__class__ is LObj and not has_chars(o.items):
                return o.items
        return None

    # =============================================================== containment
    def contains(self, vm, st, c, x):
        k = c.__class__
        if k is str or k is AStr:
            if c.__class__ is str and x.__class__ is str:
                return x in c
            if not is_str(x):
                if x is TOP:
                    raise Unsupported('unknown')
                raise PyExc('TypeError', "'in <string>' requires string as left operand")
            if k is str:
                xv = st.cval(x)
                if xv is not None:
                    return xv in c
                # abstract needle in a constant: single char
                n = st.length(x)
                if n == 1:
                    p = st.res(x)[0]
                    return st.in_set(p, chars.AT.cs(c)) if c else False
                if n.__class__ is AInt:
                    if st.decide_eq0(n):
                        return True
                    n = st.norm(n)
                for i in range(len(c)):
                    ok, _ = strs.startswith(st, c[i:], x)
                    if ok:
                        return True
                return False
            return strs.find_parts(st, c, x) is not None
        if k is tuple:
            return self.any_eq(vm, st, c, x)
        if k is Ref:
            o = st.get(c)
            oc = o.__class__
            if oc is LObj:
                if has_chars(o.items):
                    s = self.chars_str(o.items)
                    if is_str(x) and st.length(x) == 1:
                        return strs.find_parts(st, s, x) is not None
                    raise Unsupported('membership')
                return self.any_eq(vm, st, o.items, x)
            if oc is DObj:
                if x.__class__ is AStr and not o.nabs and o.kind == 'dict' and o.d and \
                        all(i.__class__ is str for i in o.d):
                    return self.any_eq(vm, st, list(o.d), x)
                return self.dict_get(st, c, x) is not UNSET
            if oc is SObj:
                if x.__class__ is AStr and not o.nabs and o.d and all(i.__class__ is str for i in o.d):
                    return self.any_eq(vm, st, list(o.d), x)
                return self.set_find(st, c, x) is not UNSET
            if oc is Inst:
                m = vm.lookup_mro(st, o.cls, '__contains__')
                if m is not UNSET:
                    return CallPy(m, [c, x])
            if oc is Cls and o.kind == 'enum':
                return x.__class__ is Ref and st.get(x).__class__ is Inst and st.get(x).cls == c
            if oc is Box:
                if o.kind == 'keys':
                    return self.dict_get(st, o.f['d'], x) is not UNSET
                if o.kind == 'values':
                    return self.any_eq(vm, st, [v for k2, v in st.get(o.f['d']).d.values()], x)
                if o.kind == 'items':
                    return self.any_eq(vm, st, [(k2, v) for k2, v in st.get(o.f['d']).d.values()], x)
            items = self.iter_items(st, c)
            if items is not None:
                return self.any_eq(vm, st, items, x)
            return CallPy(self.prelude(st, '_contains'), [c, x])
        if k is ARange:
            if not self.isint(x):
                return False
            x = self.to_lin(st, x)
            if c.c == 1:
                return st.decide_ge0(sub(x, c.a)) and st.decide_ge0(sub(sub(c.b, x), 1))
            if all(q.__class__ is int for q in (c.a, c.b, c.c)):
                x = st.enum(x) if x.__class__ is AInt else x
                return x in range(c.a, c.b, c.c)
            if c.c == -1:
                return st.decide_ge0(sub(c.a, x)) and st.decide_ge0(sub(sub(x, c.b), 1))
            raise Unsupported('range membership')
        if k is bytes and x.__class__ in (bytes, int):
            return x in c
        if c is TOP:
            raise Unsupported('membership in unknown')
        raise PyExc('TypeError', "argument of type '%s' is not iterable" % self.tname(st, c))

    def any_eq(self, vm, st, items, x):
        # a single abstract char against constants: one class split
        if x.__class__ is AStr:
            p = st.res(x)
            if len(p) == 1 and p[0].__class__ is tuple and all(i.__class__ is str for i in items):
                sid, h, rev = p[0]
                cs, lo, hi = st.segs[sid]
                if lo == hi == 1 and (h is None or not (cs & (h.multi | h.deleted | h.unk))):
                    S = 0
                    for i in items:
                        if len(i) == 1:
                            S |= 1 << chars.AT.atom(i)
                    return st.in_set(p[0], S)
        if x.__class__ is CharInt and all(i.__class__ is int for i in items):
            s = set(items)
            return self.ci_decide(st, x, lambda y: y in s)
        for i in items:
            r = self.eq(vm, st, i, x)
            if r.__class__ is CallPy:
                raise Unsupported('nested __eq__')
            if r:
                return True
        return False

    # =============================================================== dict / set
    def hk(self, st, k):
        """hashable python key if concrete, else None"""
        c = k.__class__
        if c in CONC:
            return k
        if c is AStr:
            return st.cval(k)
        if c is AInt:
            n = st.norm(k)
            return n if n.__class__ is int else None
        if c is CharInt:
            x = self.con(st, k)
            return x if x.__class__ is int else None
        if c is tuple:
            out = []
            for x in k:
                h = self.hk(st, x)
                if h is None and x is not None:
                    return None
                out.append(h)
            return tuple(out)
        if c is Ref:
            o = st.get(k)
            if o.__class__ in (LObj, DObj) or (o.__class__ is SObj and o.kind == 'set'):
                raise PyExc('TypeError', "unhashable type: '%s'" % self.tname(st, k))
            if o.__class__ is SObj:
                return ('frozenset', frozenset(o.d))
            if o.__class__ is Box and o.kind == 'path':
                h = self.hk(st, o.f['p'])
                return None if h is None else ('path', h)
            return k
        if c is NT or c is NF:
            return (c.__name__, k.name)
        if c is Term:
            if k.f.startswith('weak:'):
                return None
            h = self.hk(st, k.args)
            return None if h is None else ('\0term', k.f, h)
        if c is ARange:
            return ('range', k.a, k.b, k.c)
        if k is TOP:
            raise Unsupported('unknown key')
        return None

    def find_key(self, st, o, k):
        """the internal key of an entry equal to k, or UNSET"""
        h = self.hk(st, k)
        d = o.d
        if h is not None or k is None:
            if h in d:
                return h
            if not o.nabs:
                return UNSET
            for ik in list(d):
                if ik.__class__ is tuple and len(ik) == 2 and ik[0] == '\0abs':
                    kk = d[ik][0] if o.__class__ is DObj else d[ik]
                    if self.eq(None, st, kk, k):
                        return ik
            return UNSET
        for ik in list(d):
            kk = d[ik][0] if o.__class__ is DObj else d[ik]
            if kk is k:
                return ik
        # single abstract char against constant keys only: one split when absent
        if k.__class__ is AStr and not o.nabs:
            p = st.res(k)
            if len(p) == 1 and p[0].__class__ is tuple:
                sid, hm, rev = p[0]
                cs, lo, hi = st.segs[sid]
                if lo == hi == 1 and hm is None:
                    S = 0
                    for ik in d:
                        if ik.__class__ is str and len(ik) == 1:
                            S |= 1 << chars.AT.atom(ik)
                    if not st.in_set(p[0], S):
                        return UNSET
        for ik in list(d):
            kk = d[ik][0] if o.__class__ is DObj else d[ik]
            if self.eq(None, st, kk, k):
                return ik
        return UNSET

    def dict_get(self, st, ref, k):
        o = st.get(ref)
        if o.d.__class__ is dict and k.__class__ is str and k in o.d:
            return o.d[k][1]
        ik = self.find_key(st, o, k)
        return UNSET if ik is UNSET else st.get(ref).d[ik][1]

    def dict_set(self, st, ref, k, v):
        o = st.get(ref)
        ik = self.find_key(st, o, k)
        o = st.w(ref)
        if ik is not UNSET:
            o.d[ik] = (o.d[ik][0], v)
            return
        h = self.hk(st, k)
        if h is None and k is not None:
            st.nact += 1
            h = ('\0abs', st.nact)
            o.nabs += 1
        o.d[h] = (k, v)

    def dict_del(self, st, ref, k):
        o = st.get(ref)
        ik = self.find_key(st, o, k)
        if ik is UNSET:
            return False
        o = st.w(ref)
        del o.d[ik]
        if ik.__class__ is tuple and len(ik) == 2 and ik[0] == '\0abs':
            o.nabs -= 1
        return True

    def set_find(self, st, ref, k):
        return self.find_key(st, st.get(ref), k)

    def set_add(self, st, ref, k):
        ik = self.find_key(st, st.get(ref), k)
        if ik is UNSET:
            o = st.w(ref)
            h = self.hk(st, k)
            if h is None and k is not None:
                st.nact += 1
                h = ('\0abs', st.nact)
                o.nabs += 1
            o.d[h] = k

    def make_set(self, st, items, kind='set'):
        r = st.alloc(SObj(kind=kind))
        for x in items:
            self.set_add(st, r, x)
        return r

    # =============================================================== arithmetic
    def binop(self, vm, st, arg, a, b):
        inplace = arg >= 13
        op = arg - 13 if inplace else arg
        ca, cb = a.__class__, b.__class__
        if ca in CONC and cb in CONC:
            if op == 6 and ca is str:
                return self.pct_format(vm, st, a, b)
            if op == 8 and (abs(a) > 10 ** 6 or abs(b) > 10 ** 4 if ca is int and cb is int else False):
                raise Unsupported('large power')
            try:
                return BIN[op](a, b)
            except PYERR as e:
                raise pyexc(e)
        if a is TOP or b is TOP:
            st.taint('arithmetic on an unknown value')
            return TOP
        if op == 6 and (ca is str or ca is AStr):
            return self.pct_format(vm, st, a, b)
        if is_str(a) and is_str(b):
            if op == 0:
                return from_parts(concat_parts(st.res(a), st.res(b)))
        if ca is Term and is_str(b) or cb is Term and is_str(a):
            raise Unsupported('concatenation of a digest')
        if op == 5:
            for s, n in ((a, b), (b, a)):
                if is_str(s) and self.isint(n):
                    return self.str_mul(st, s, n)
        if self.isint(a) and self.isint(b):
            return self.int_op(st, op, a, b)
        if (self.isint(a) or ca is float) and (self.isint(b) or cb is float):
            a2 = st.enum(self.to_lin(st, a)) if ca is not float else a
            b2 = st.enum(self.to_lin(st, b)) if cb is not float else b
            return BIN[op](a2, b2)
        if ca is tuple:
            if op == 0 and cb is tuple:
                return a + b
            if op == 5 and self.isint(b):
                return a * st.enum(self.to_lin(st, b))
        if cb is tuple and op == 5 and self.isint(a):
            return b * st.enum(self.to_lin(st, a))
        if ca is Ref:
            o = st.get(a)
            oc = o.__class__
            if oc is LObj:
                if op == 0:
                    items = self.iter_items(st, b) if (inplace or (cb is Ref and st.get(b).__class__ is LObj)) else None
                    if items is None:
                        if cb is Ref and st.get(b).__class__ is LObj:
                            items = st.get(b).items
                        elif inplace:
                            if is_str(b):
                                items = [CharsOf(st.res(b))]
                            else:
                                return CallPy(self.prelude(st, '_list_iadd'), [a, b])
                        else:
                            raise PyExc('TypeError', 'can only concatenate list')
                    if inplace:
                        st.w(a).items.extend(list(items))
                        return a
                    return st.alloc(LObj(list(o.items) + list(items)))
                if op == 5 and self.isint(b):
                    n = st.enum(self.to_lin(st, b))
                    if inplace:
                        w = st.w(a)
                        w.items[:] = w.items * n
                        return a
                    return st.alloc(LObj(list(o.items) * n))
            if oc is SObj and cb is Ref and st.get(b).__class__ is SObj:
                return self.set_op(vm, st, op, a, b, inplace)
            if oc is SObj and cb is Ref and st.get(b).__class__ is Box:
                bb = self.make_set(st, self.iter_items(st, b))
                return self.set_op(vm, st, op, a, bb, inplace)
            if oc is DObj and op == 7 and cb is Ref and st.get(b).__class__ is DObj:
                if o.kind == 'Counter':
                    raise Unsupported('Counter |')
                t = a if inplace else st.alloc(o.clone())
                for k, v in list(st.get(b).d.values()):
                    self.dict_set(st, t, k, v)
                return t
            if oc is Box and o.kind in ('keys',) and op in (1, 7, 10, 12):
                aa = self.make_set(st, self.iter_items(st, a))
                bb = self.make_set(st, self.iter_items(st, b))
                return self.set_op(vm, st, op, aa, bb, False)
            if oc is Box and o.kind == 'path' and op == 11:
                return self.mods.path_join(self, vm, st, a, [b])
            if oc is Inst:
                if inplace:
                    m = vm.lookup_mro(st, o.cls, '__i%s__' % DUNDER[op])
                    if m is not UNSET:
                        return CallPy(m, [a, b])
                m = vm.lookup_mro(st, o.cls, '__%s__' % DUNDER[op])
                if m is not UNSET:
                    return CallPy(m, [a, b])
            if oc is Cls or oc is Mod:
                if op == 7:
                    return TOP    # X | Y in annotations
        if cb is Ref:
            o = st.get(b)
            if o.__class__ is Inst:
                m = vm.lookup_mro(st, o.cls, '__r%s__' % DUNDER[op])
                if m is not UNSET:
                    return CallPy(m, [b, a])
            if op == 5 and o.__class__ is LObj and self.isint(a):
                return st.alloc(LObj(list(o.items) * st.enum(self.to_lin(st, a))))
        if op == 7 and (ca in (NT, OpaqueMod) or cb in (NT, OpaqueMod)):
            return ('union', a, b)
        if op == 7 and ca is tuple and a and a[0] == 'union':
            return a + (b,)
        raise PyExc('TypeError', "unsupported operand type(s): '%s' and '%s'" % (self.tname(st, a), self.tname(st, b)))

    def set_op(self, vm, st, op, a, b, inplace):
        xa = list(st.get(a).d.values())
        xb = list(st.get(b).d.values())
        if op == 7:
            items = xa + xb
        elif op == 1:
            items = [x for x in xa if self.contains(vm, st, b, x)]
        elif op == 10:
            items = [x for x in xa if not self.contains(vm, st, b, x)]
        elif op == 12:
            items = [x for x in xa if not self.contains(vm, st, b, x)] + [x for x in xb if not self.contains(vm, st, a, x)]
        else:
            raise PyExc('TypeError', 'set operation')
        r = self.make_set(st, items, st.get(a).kind)
        if inplace:
            o = st.get(r)
            w = st.w(a)
            w.d = dict(o.d)
            w.nabs = o.nabs
            return a
        return r

    def str_mul(self, st, s, n):
        n = self.con(st, n)
        c = st.cval(s)
        if n.__class__ in (int, bool):
            n = int(n)
            if n <= 0:
                return ''
            if c is not None:
                if len(c) * n > 200000:
                    raise Unsupported('huge string')
                return c * n
            if n > 200:
                raise Unsupported('long repetition')
            p = st.res(s)
            return from_parts(concat_parts(*([p] * n)))
        n = self.to_lin(st, n)
        if not st.decide_ge0(n, 'repetition count'):
            return ''
        n = st.norm(n)
        if n.__class__ is int:
            return self.str_mul(st, s, n)
        if c is None:
            # abstract char repeated
            p = st.res(s)
            if len(p) == 1:
                n2 = st.enum(n)
                return self.str_mul(st, s, n2)
            raise Unsupported('repetition of abstract text')
        if c == '':
            return ''
        if len(c) == 1:
            # reuse a segment with the same length expression
            key = ('rep', c, n.c, tuple(sorted(n.t.items(), key=repr)))
            hit = st.strc.get(key)
            if hit is not None and hit in st.segs:
                return st.rv(AStr(((hit, None, False),)))
            lo, hi = st.bounds(n)
            sid = st.new(1 << chars.AT.atom(c), max(lo or 0, 0), hi)
            if len(n.t) == 1 and n.c == 0:
                pass
            st.alias[sid] = n
            st.strc = dict(st.strc)
            st.strc[key] = sid
            return AStr(((sid, None, False),))
        return c * st.enum(n)

    def int_op(self, st, op, a, b):
        a, b = self.con(st, a), self.con(st, b)
        if a.__class__ in (int, bool) and b.__class__ in (int, bool):
            try:
                return BIN[op](a, b)
            except PYERR as e:
                raise pyexc(e)
        if a.__class__ is CharInt and b.__class__ in (int, bool) or b.__class__ is CharInt and a.__class__ in (int, bool):
            ci, k, sw = (a, b, False) if a.__class__ is CharInt else (b, a, True)

            def f(x):
                if x.__class__ is tuple:
                    if op in (0, 10, 9, 2) and not sw or op == 0:
                        y = (BIN[op](x[0], k), BIN[op](x[1], k))
                        return y[0] if y[0] == y[1] else y
                    if op == 1:
                        return (0, k)
                    if op == 7 or op == 12:
                        return (min(x), max(x) | k)
                    if op == 6 and not sw and k > 0:
                        return (0, k - 1)
                    raise Unsupported('char arithmetic')
                return BIN[op](k, x) if sw else BIN[op](x, k)
            if not (op in (0, 10) and ci.isord and False):
                try:
                    return self.cimap(st, ci, f)
                except PYERR as e:
                    raise pyexc(e)
        if a.__class__ is CharInt and b.__class__ is CharInt and a.part == b.part:
            ta, tb = self.citab(st, a), self.citab(st, b)
            if all(x.__class__ is int for x in ta.values()) and all(x.__class__ is int for x in tb.values()):
                return CharInt(a.part, {k: BIN[op](ta[k], tb[k]) for k in ta})
        if op in (0, 10):
            a, b = self.to_lin(st, a), self.to_lin(st, b)
            return st.norm(add(a, b) if op == 0 else sub(a, b))
        if op == 5:
            if b.__class__ is int:
                return st.norm(scale(self.to_lin(st, a), b))
            if a.__class__ is int:
                return st.norm(scale(self.to_lin(st, b), a))
        la = self.to_lin(st, a)
        lb = self.to_lin(st, b)
        if op == 3 and lb.__class__ is int:
            return st.norm(scale(la, 1 << lb))
        if op in (2, 6) and lb.__class__ is int and lb > 0 and la.__class__ is AInt:
            if all(k % lb == 0 for k in la.t.values()):
                if op == 6:
                    return la.c % lb
                return mk(la.c // lb, {v: k // lb for v, k in la.t.items()})
            if lb == 1:
                return 0 if op == 6 else la
        lo, hi = st.bounds(la) if la.__class__ is AInt else (la, la)
        if op == 6 and lb.__class__ is int and lb > 0 and lo is not None and hi is not None and 0 <= lo and hi < lb:
            return la
        if la.__class__ is AInt:
            la = self.mod_enum(st, la, lb, op)
            if la.__class__ is not int:
                return la
        if lb.__class__ is AInt:
            lb = st.enum(lb)
        try:
            return BIN[op](la, lb)
        except PYERR as e:
            raise pyexc(e)

    def mod_enum(self, st, la, lb, op):
        lo, hi = st.bounds(la)
        if lo is not None and hi is not None and hi - lo <= 64:
            return st.enum(la)
        if op in (2, 6) and lb.__class__ is int and 1 < lb <= 16:
            # x = lb*q + r: introduce quotient and fork on the remainder
            key = ('div', lb, la.c, tuple(sorted(la.t.items(), key=repr)))
            hit = st.strc.get(key)
            if hit is None:
                q = st.newint(None if lo is None else lo // lb, None if hi is None else hi // lb)
                st.strc = dict(st.strc)
                st.strc[key] = hit = q

                def alt(r):
                    def f(s):
                        s.strc = dict(s.strc)
                        s.strc[key] = (q, r)
                        return s.assume_eq0(sub(la, add(scale(q, lb), r)))
                    return f
                raise Fork([alt(r) for r in range(lb)], 'remainder')
            if hit.__class__ is tuple:
                q, r = hit
                return_val = r if op == 6 else st.norm(q)
                if return_val.__class__ is int:
                    # encode as concrete pair result through a 1-based trick
                    return AIntConst(return_val) if False else _Direct(return_val)
                return return_val
            raise Unsupported('division')
        return st.enum(la)

    # =============================================================== subscripts
    def subscr(self, vm, st, o, i):
        c = o.__class__
        ic = i.__class__
        if c is str:
            if ic is int or ic is bool:
                try:
                    return o[i]
                except IndexError as e:
                    raise pyexc(e)
            if ic is Slice:
                if all(x.__class__ in (int, bool, NONE) for x in (i.a, i.b, i.c)):
                    return o[i.a:i.b:i.c]
        if c is str or c is AStr:
            if ic is Slice:
                a, b, s = [self.con(st, x) if x is not None else None for x in (i.a, i.b, i.c)]
                for x in (a, b, s):
                    if x is not None and not self.isint(x):
                        raise PyExc('TypeError', 'slice indices must be integers or None')
                a = self.to_lin(st, a) if a is not None else None
                b = self.to_lin(st, b) if b is not None else None
                return strs.slice_(st, o, a, b, s)
            if not self.isint(i):
                raise PyExc('TypeError', 'string indices must be integers')
            return strs.index(st, o, self.to_lin(st, i))
        if c is tuple:
            if o and o[0] == 'union':
                return TOP
            return self.seq_get(st, o, i, tuple)
        if c is Ref:
            x = st.get(o)
            xc = x.__class__
            if xc is DObj:
                v = self.dict_get(st, o, i)
                if v is UNSET:
                    if x.kind == 'defaultdict' and x.extra is not None:
                        return CallPy(self.prelude(st, '_dd_missing'), [o, i, x.extra])
                    if x.kind == 'Counter':
                        return 0
                    raise PyExc('KeyError', i)
                return v
            if xc is LObj:
                items = x.items
                if has_chars(items):
                    if ic is Slice:
                        r = self.subscr(vm, st, self.chars_str(items), i)
                        return st.alloc(LObj([CharsOf(st.res(r))] if r.__class__ is AStr else list(r)))
                    return self.subscr(vm, st, self.chars_str(items), i)
                r = self.seq_get(st, items, i, list)
                if ic is Slice:
                    return st.alloc(LObj(r))
                return r
            if xc is Inst:
                m = vm.lookup_mro(st, x.cls, '__getitem__')
                if m is not UNSET:
                    return CallPy(m, [o, i])
                if 'nt' in x.f and x.f.get('nt') is True:
                    return self.seq_get(st, x.f['vals'], i, tuple)
                m = vm.lookup_mro(st, x.cls, '__class_getitem__')
            if xc is Cls:
                if x.kind == 'enum':
                    k = self.con(st, i)
                    m = x.f.get('__members__', {})
                    if k in m:
                        return m[k]
                    raise PyExc('KeyError', i)
                return o
            if xc is Box:
                return self.mods.box_subscr(self, vm, st, o, x, i)
        if c is ARange:
            if ic is Slice:
                raise Unsupported('range slice')
            i = self.to_lin(st, i)
            n = self.range_len(st, o)
            if not st.decide_ge0(i):
                i = add(i, n)
            if not (st.decide_ge0(i) and st.decide_ge0(sub(sub(n, i), 1))):
                raise PyExc('IndexError', 'range object index out of range')
            return st.norm(add(o.a, scale(i, o.c)))
        if c is NT or c is OpaqueMod:
            return o
        if c is Term:
            if ic is Slice:
                a, b = i.a, i.b
                w = (b if b is not None else 40) - (a or 0) if (b is None or b >= 0) and (a is None or a >= 0) else 40
                return Term(('weak:' if w < 16 else '') + 'cut%r:%r:%s' % (a, b, o.f), o.args)
            raise Unsupported('digest index')
        if c is bytes:
            try:
                if ic is Slice:
                    return o[i.a:i.b:i.c]
                return o[i]
            except PYERR as e:
                raise pyexc(e)
        if o is TOP:
            st.taint('subscript of an unknown value')
            return TOP
        raise PyExc('TypeError', "'%s' object is not subscriptable" % self.tname(st, o))

    def seq_get(self, st, items, i, mkf):
        if i.__class__ is Slice:
            ab = []
            for x in (i.a, i.b, i.c):
                if x is not None:
                    x = self.to_lin(st, x)
                    if x.__class__ is AInt:
                        x = self.clamp(st, x, len(items))
                ab.append(x)
            r = items[ab[0]:ab[1]:ab[2]]
            return r if mkf is tuple else list(r)
        if not self.isint(i):
            if i is TOP:
                raise Unsupported('unknown index')
            raise PyExc('TypeError', '%s indices must be integers or slices, not %s' % (mkf.__name__, self.tname(st, i)))
        if i.__class__ is CharInt:
            n = len(items)
            if not self.ci_decide(st, i, lambda x: -n <= x < n, 'list index'):
                raise PyExc('IndexError', '%s index out of range' % mkf.__name__)
            tab = self.citab(st, i)
            if all(x.__class__ is int for x in tab.values()):
                groups = {}
                for at, x in tab.items():
                    v = items[x]
                    k = (v.__class__, v) if v.__class__ in (int, bool, str) or v is None else ('idx', x)
                    groups.setdefault(k, [v, 0])[1] |= 1 << at
                if len(groups) == 1:
                    return groups.popitem()[1][0]
                if all(v.__class__ in (int, bool) for v, m in groups.values()):
                    return CharInt(i.part, {at: int(items[x]) for at, x in tab.items()})
                sid = self.cisid(st, i)
                raise Fork([(lambda m: (lambda s: s.restrict(sid, m)))(m) for v, m in groups.values()], 'list index')
        i = self.to_lin(st, i)
        if i.__class__ is AInt:
            n = len(items)
            if not st.decide_ge0(add(i, n)) or not st.decide_ge0(sub(n - 1, i)):
                raise PyExc('IndexError', '%s index out of range' % mkf.__name__)
            i = st.enum(i, 'list index', limit=2000)
        try:
            return items[i]
        except IndexError:
            raise PyExc('IndexError', '%s index out of range' % mkf.__name__)

    def clamp(self, st, x, n):
        if st.decide_ge0(sub(x, n)):
            return n
        if not st.decide_ge0(add(x, n)):
            return -n - 1
        return st.enum(x, 'slice bound', limit=2000)

    def store_subscr(self, vm, st, o, i, v):
        if o.__class__ is Ref:
            x = st.get(o)
            xc = x.__class__
            if xc is DObj:
                self.dict_set(st, o, i, v)
                return
            if xc is LObj:
                if has_chars(x.items):
                    raise Unsupported('store into abstract list')
                n = len(x.items)
                if i.__class__ is Slice:
                    items = self.iter_items(st, v)
                    if items is None:
                        raise Unsupported('slice store')
                    ab = [None if y is None else st.enum(self.to_lin(st, y)) for y in (i.a, i.b, i.c)]
                    w = st.w(o)
                    w.items[ab[0]:ab[1]:ab[2]] = list(items)
                    return
                i = self.to_lin(st, i)
                if i.__class__ is AInt:
                    if not st.decide_ge0(add(i, n)) or not st.decide_ge0(sub(n - 1, i)):
                        raise PyExc('IndexError', 'list assignment index out of range')
                    i = st.enum(i, 'list index', limit=2000)
                if not -n <= i < n:
                    raise PyExc('IndexError', 'list assignment index out of range')
                st.w(o).items[i] = v
                return
            if xc is Inst:
                m = vm.lookup_mro(st, x.cls, '__setitem__')
                if m is not UNSET:
                    return CallPy(m, [o, i, v])
            if xc is Box and x.kind == 'environ':
                return
        if o is TOP:
            st.taint('store into unknown')
            return
        raise PyExc('TypeError', "'%s' object does not support item assignment" % self.tname(st, o))

    def del_subscr(self, vm, st, o, i):
        if o.__class__ is Ref:
            x = st.get(o)
            if x.__class__ is DObj:
                if not self.dict_del(st, o, i):
                    raise PyExc('KeyError', i)
                return
            if x.__class__ is LObj:
                if has_chars(x.items):
                    raise Unsupported('delete from abstract list')
                if i.__class__ is Slice:
                    ab = [None if y is None else st.enum(self.to_lin(st, y)) for y in (i.a, i.b, i.c)]
                    w = st.w(o)
                    del w.items[ab[0]:ab[1]:ab[2]]
                    return
                i = st.enum(self.to_lin(st, i))
                if not -len(x.items) <= i < len(x.items):
                    raise PyExc('IndexError', 'list assignment index out of range')
                w = st.w(o)
                del w.items[i]
                return
        raise Unsupported('del item')

    # =============================================================== iteration
    def range_len(self, st, r):
        if r.c == 1:
            d = st.norm(sub(r.b, r.a))
        elif r.c == -1:
            d = st.norm(sub(r.a, r.b))
        else:
            return len(range(st.enum(r.a) if r.a.__class__ is AInt else r.a, st.enum(r.b) if r.b.__class__ is AInt else r.b, r.c))
        if d.__class__ is int:
            return max(d, 0)
        return d if st.decide_ge0(d, 'range length') else 0

    def iter_items(self, st, v):
        """list of items if the iterable is finite and fully known, else None"""
        c = v.__class__
        if c is tuple:
            return list(v)
        if c is str:
            return list(v)
        if c is AStr:
            out = []
            for x in st.res(v):
                if x.__class__ is str:
                    out.extend(x)
                    continue
                sid, h, rev = x
                cs, lo, hi = st.segs[sid]
                if not (lo == hi == 1) or not st.hom_flat(x):
                    return None
                out.append(AStr((x,)))
            return out
        if c is bytes:
            return list(v)
        if c is ARange:
            n = self.range_len(st, v)
            if n.__class__ is int:
                if n > 200000:
                    raise Unsupported('huge range')
                if v.a.__class__ is int:
                    return list(range(v.a, v.a + v.c * n, v.c)) if n else []
                return [st.norm(add(v.a, v.c * k)) for k in range(n)]
            return None
        if c is Ref:
            o = st.get(v)
            oc = o.__class__
            if oc is LObj:
                if has_chars(o.items):
                    return None
                return list(o.items)
            if oc is DObj:
                return [k for k, w in o.d.values()]
            if oc is SObj:
                return list(o.d.values())
            if oc is It:
                if o.kind in ('list', 'tuple'):
                    items = self.iter_items(st, o.src) if o.kind == 'list' else list(o.src)
                    if items is None:
                        return None
                    r = items[o.pos:]
                    st.w(v).pos = len(items)
                    return r
                return None
            if oc is Box:
                d = o.f.get('d')
                if o.kind == 'keys':
                    return [k for k, w in st.get(d).d.values()]
                if o.kind == 'values':
                    return [w for k, w in st.get(d).d.values()]
                if o.kind == 'items':
                    return [(k, w) for k, w in st.get(d).d.values()]
                return None
            if oc is Cls and o.kind == 'enum':
                return list(o.f['__members__'].values())
            if oc is Inst and o.f.get('nt') is True:
                return list(o.f['vals'])
            if oc in (Func, Mod):
                raise PyExc('TypeError', "'%s' object is not iterable" % self.tname(st, v))
            return None
        if v is TOP:
            raise Unsupported('iteration over an unknown value')
        if c in (int, float, bool, NONE, AInt, CharInt):
            raise PyExc('TypeError', "'%s' object is not iterable" % self.tname(st, v))
        return None

    def get_iter(self, vm, st, v):
        c = v.__class__
        if c is Ref:
            o = st.get(v)
            oc = o.__class__
            if oc is Gen or oc is It:
                return v
            if oc is LObj:
                if has_chars(o.items):
                    return st.alloc(It('str', self.chars_str(o.items)))
                return st.alloc(It('list', v))
            if oc is Inst:
                m = vm.lookup_mro(st, o.cls, '__iter__')
                if m is not UNSET:
                    return CallPy(m, [v])
                if vm.lookup_mro(st, o.cls, '__next__') is not UNSET:
                    return v
                if o.f.get('nt') is True:
                    return st.alloc(It('tuple', tuple(o.f['vals'])))
            if oc is Box and o.kind == 'file':
                w = st.w(v)
                w.f['iterating'] = True
                return st.alloc(It('file', v))
            items = self.iter_items(st, v)
            if items is not None:
                return st.alloc(It('tuple', tuple(items)))
            raise PyExc('TypeError', "'%s' object is not iterable" % self.tname(st, v))
        if c is tuple:
            return st.alloc(It('tuple', v))
        if c is str:
            return st.alloc(It('tuple', tuple(v)))
        if c is AStr:
            return st.alloc(It('str', v))
        if c is ARange:
            return st.alloc(It('range', v, v.a))
        items = self.iter_items(st, v)
        return st.alloc(It('tuple', tuple(items)))

    def iter_next(self, vm, st, it):
        if it is TOP:
            raise Unsupported('iteration over an unknown value')
        o = st.get(it)
        k = o.kind
        if k == 'tuple':
            if o.pos >= len(o.src):
                return False, None
            w = st.w(it)
            w.pos += 1
            return True, o.src[o.pos - 1] if w is o else o.src[w.pos - 1]
        if k == 'list':
            l = st.get(o.src)
            if has_chars(l.items):
                raise Unsupported('list changed during iteration')
            p = o.pos
            if p >= len(l.items):
                return False, None
            st.w(it).pos = p + 1
            return True, l.items[p]
        if k == 'str':
            c, rest = strs.first_char(st, st.res(o.src))
            if c == '':
                return False, None
            st.w(it).src = from_parts(rest)
            return True, c
        if k == 'range':
            r = o.src
            cur = st.norm(o.pos)
            if r.c > 0:
                ok = st.decide_ge0(sub(sub(r.b, cur), 1), 'range end')
            else:
                ok = st.decide_ge0(sub(sub(cur, r.b), 1), 'range end')
            if not ok:
                return False, None
            st.w(it).pos = add(cur, r.c)
            return True, cur
        if k == 'enumerate':
            ok, v = self.iter_next(vm, st, o.src)
            if not ok:
                return False, None
            w = st.w(it)
            n = w.pos
            w.pos = add(n, 1)
            return True, (n, v)
        if k == 'zip':
            out = []
            # inner iterators must not fork after a previous one advanced: peek in a scratch copy order
            for x in o.src:
                self.peek(vm, st, x)
            for x in o.src:
                ok, v = self.iter_next(vm, st, x)
                if not ok:
                    return False, None
                out.append(v)
            return True, tuple(out)
        if k == 'file':
            line = self.mods.file_readline(self, vm, st, o.src)
            if not self.truth(vm, st, line):
                return False, None
            self.mods.file_advance(self, st, o.src, line)
            return True, line
        raise Unsupported('iterator ' + k)

    def peek(self, vm, st, it):
        """force any fork of the next step without consuming"""
        o = st.get(it)
        if o.kind == 'str':
            strs.first_char(st, st.res(o.src))
        elif o.kind == 'range':
            r = o.src
            cur = st.norm(o.pos)
            st.decide_ge0(sub(sub(r.b, cur), 1) if r.c > 0 else sub(sub(cur, r.b), 1), 'range end')
        elif o.kind == 'enumerate':
            self.peek(vm, st, o.src)
        elif o.kind == 'zip':
            for x in o.src:
                self.peek(vm, st, x)
        elif o.kind == 'file':
            self.truth(vm, st, self.mods.file_readline(self, vm, st, o.src))

    def native_iter(self, vm, st, v):
        """an It over v without python callbacks, or None"""
        if v.__class__ is Ref and st.get(v).__class__ in (Gen, Inst):
            return None
        r = self.get_iter(vm, st, v)
        return None if r.__class__ is CallPy else r

    def length(self, vm, st, v):
        c = v.__class__
        if c is str or c is bytes or c is tuple:
            return len(v)
        if c is AStr:
            return st.length(v)
        if c is Ref:
            o = st.get(v)
            oc = o.__class__
            if oc is LObj:
                n = 0
                for x in o.items:
                    n = add(n, st.length(AStr(x.p)) if x.__class__ is CharsOf else 1)
                return n
            if oc is DObj or oc is SObj:
                return len(o.d)
            if oc is Inst:
                m = vm.lookup_mro(st, o.cls, '__len__')
                if m is not UNSET:
                    return CallPy(m, [v])
                if o.f.get('nt') is True:
                    return len(o.f['vals'])
            if oc is Box and o.kind in ('keys', 'values', 'items'):
                return len(st.get(o.f['d']).d)
            if oc is Cls and o.kind == 'enum':
                return len(o.f['__members__'])
        if c is ARange:
            return self.range_len(st, v)
        if c is Term and v.f == 'utf8':
            return self.utf8_len(st, v.args[0])
        if c is Term:
            return 40
        if v is TOP:
            st.taint('len of unknown')
            return TOP
        raise PyExc('TypeError', "object of type '%s' has no len()" % self.tname(st, v))

    def str_encode(self, st, o, encoding='utf-8', errors='strict'):
        if encoding.__class__ is not str or errors.__class__ is not str:
            raise Unsupported('encode')
        e = encoding.lower().replace('_', '-')
        if e in ('utf-8', 'utf8', 'u8'):
            if errors == 'strict':
                sur = chars.AT.pred('surrogate', lambda c: '\ud800' <= c <= '\udfff')
                if any(x.__class__ is tuple and st.segs[x[0]][0] & sur for x in st.res(o)) and strs.scan(st, st.res(o), sur) is not None:
                    raise PyExc('UnicodeEncodeError', 'surrogates not allowed')
            return Term('utf8', (o,))
        lim = {'ascii': 128, 'us-ascii': 128, 'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256}.get(e)
        if lim is None:
            raise Unsupported('encode to ' + encoding)
        bad = chars.AT.FULL & ~((1 << lim) - 1)
        if errors == 'strict':
            if strs.scan(st, st.res(o), bad) is not None:
                raise PyExc('UnicodeEncodeError', 'ordinal not in range')
        elif errors in ('ignore', 'replace'):
            o = strs.apply_hom(st, o, chars.hom_sub(bad, '' if errors == 'ignore' else '?'))
        else:
            raise Unsupported('encode with ' + errors)
        if lim != 128 and strs.scan(st, st.res(o), chars.AT.FULL & ~((1 << 128) - 1)) is not None:
            raise Unsupported('encode to ' + encoding)
        return Term('utf8', (o,))

    def utf8_len(self, st, v):
        n = 0
        for x in st.res(v):
            if x.__class__ is str:
                n += len(x.encode('utf-8', 'surrogatepass'))
                continue
            sid, h, rev = x
            cs = st.segs[sid][0]
            if h is None and not (cs >> 128):
                n = add(n, st.plen(x))
                continue
            g = Lib.U8
            if g is None:
                at = chars.AT
                g = Lib.U8 = chars.Hom.make({a: 'x' * len(at.rep[a].encode('utf-8', 'surrogatepass')) for a in range(len(at.rep))})
            n = add(n, st.length(strs.apply_hom(st, AStr((x,)), g)))
        return st.norm(n)

    # =============================================================== strings
    def to_str(self, vm, st, v):
        c = v.__class__
        if c is str or c is AStr:
            return v
        if c in CONC:
            return str(v)
        if c is AInt or c is CharInt:
            return self.int_str(st, self.to_lin(st, v))
        if c is Ref:
            o = st.get(v)
            if o.__class__ is Inst:
                m = vm.lookup_mro(st, o.cls, '__str__')
                if m is not UNSET:
                    return CallPy(m, [v])
                if vm.is_exc_cls(st, o.cls):
                    a = o.f.get('args', ())
                    if len(a) == 0:
                        return ''
                    if len(a) == 1:
                        return self.to_str(vm, st, a[0])
                    return self.to_repr(vm, st, tuple(a))
                m = vm.lookup_mro(st, o.cls, '__repr__')
                if m is not UNSET:
                    return CallPy(m, [v])
                if 'value' in o.f and st.get(o.cls).kind == 'enum':
                    return '%s.%s' % (st.get(o.cls).name, o.f['name'])
            if o.__class__ is Box and o.kind == 'path':
                return o.f['p']
        if c is Term:
            return v
        return self.to_repr(vm, st, v)

    def int_str(self, st, n):
        n = st.norm(n)
        if n.__class__ is int:
            return str(n)
        lo, hi = st.bounds(n)
        if lo is not None and hi is not None and hi - lo <= 12:
            return str(st.enum(n))
        if not st.decide_ge0(n, 'sign'):
            return strs.cat('-', self.int_str(st, scale(n, -1)))
        key = ('str', n.c, tuple(sorted(n.t.items(), key=repr)))
        hit = st.strc.get(key)
        if hit is None:
            lo, hi = st.bounds(n)
            sid = st.new(chars.AT.cs('0123456789'), len(str(max(lo or 0, 0))), None if hi is None else len(str(hi)))
            st.strc = dict(st.strc)
            st.strc[key] = hit = sid
        return st.rv(AStr(((hit, None, False),)))

    def to_repr(self, vm, st, v):
        c = v.__class__
        if c in CONC:
            return repr(v)
        if c is AInt:
            return self.int_str(st, v)
        if c is tuple:
            out = ['(']
            for i, x in enumerate(v):
                if i:
                    out.append(', ')
                out.append(self.to_repr(vm, st, x))
            out.append(',)' if len(v) == 1 else ')')
            return strs.cat(*out)
        if c is Ref:
            o = st.get(v)
            if o.__class__ is LObj:
                items = self.iter_items(st, v)
                if items is None:
                    raise Unsupported('repr')
                out = ['[']
                for i, x in enumerate(items):
                    if i:
                        out.append(', ')
                    out.append(self.to_repr(vm, st, x))
                return strs.cat(*(out + [']']))
            if o.__class__ is DObj:
                out = ['{']
                for i, (k, x) in enumerate(o.d.values()):
                    if i:
                        out.append(', ')
                    out += [self.to_repr(vm, st, k), ': ', self.to_repr(vm, st, x)]
                return strs.cat(*(out + ['}']))
            if o.__class__ is Inst:
                m = vm.lookup_mro(st, o.cls, '__repr__')
                if m is not UNSET:
                    raise Unsupported('__repr__')
                return '<%s object>' % st.get(o.cls).name
            if o.__class__ is Cls:
                return "<class '%s'>" % o.name
            return '<%s>' % self.tname(st, v)
        if c is NT:
            return "<class '%s'>" % v.name
        if c is AStr:
            bad = chars.AT.cs("'\\") | (~chars.AT.pred('printable', str.isprintable) & chars.AT.FULL)
            for x in st.res(v):
                if x.__class__ is str:
                    if repr(x) != "'%s'" % x:
                        raise Unsupported('repr of text')
                elif masks_hit(st, x, bad):
                    raise Unsupported('repr of text')
            return strs.cat("'", v, "'")
        if c is ARange and v.a.__class__ is int and v.b.__class__ is int:
            return repr(range(v.a, v.b, v.c))
        if v is TOP:
            st.taint('repr of unknown')
            return TOP
        return '<%s>' % self.tname(st, v)

    def format_value(self, vm, st, v, spec):
        spec = self.con(st, spec)
        if spec == '' or spec is None:
            if v is TOP:
                return TOP
            r = self.to_str(vm, st, v)
            if r.__class__ is CallPy:
                raise Unsupported('formatting an object with __str__')
            return r
        if spec.__class__ is not str:
            raise Unsupported('format spec')
        v = self.con(st, v)
        if v.__class__ in CONC:
            try:
                return format(v, spec)
            except PYERR as e:
                raise pyexc(e)
        import re as _re
        m = _re.fullmatch(r'(?:(.)?([<>^=]))?([+\- ]?)(#?)(0?)(\d+)?(\.\d+)?([a-zA-Z%])?', spec)
        if m is None:
            raise PyExc('ValueError', 'Invalid format specifier')
        fill, align, sign, alt, zero, width, prec, typ = m.groups()
        if self.isint(v) and typ in (None, 'd'):
            r = self.int_str(st, self.to_lin(st, v))
            al = align or '>'
        elif self.isint(v):
            n = self.to_lin(st, v)
            if not width and not prec:
                key = ('fmt', spec, n.c, tuple(sorted(n.t.items(), key=repr)))
                return Term('fmt:' + spec, (n,))
            return format(st.enum(n), spec)
        elif is_str(v) and typ in (None, 's'):
            r = v
            al = align or '<'
        else:
            raise Unsupported('format')
        if prec and is_str(v):
            r = self.subscr(vm, st, r, Slice(None, int(prec[1:]), None))
        if width:
            return self.pad(st, r, int(width), fill or ('0' if zero else ' '), al)
        return r

    def pad(self, st, r, width, fill, al):
        n = st.length(r)
        d = st.norm(sub(width, n))
        if not st.decide_ge0(d):
            return r
        if al == '^':
            d = st.enum(d) if d.__class__ is AInt else d
            l = d // 2
            return strs.cat(fill * l, r, fill * (d - l))
        f = self.str_mul(st, fill, d)
        return strs.cat(r, f) if al == '<' else strs.cat(f, r)

    def pct_format(self, vm, st, fmt, args):
        f = st.cval(fmt) if fmt.__class__ is AStr else fmt
        if f is None:
            raise Unsupported('abstract % format')
        import re as _re
        d = None
        if args.__class__ is Ref and st.get(args).__class__ is DObj:
            d = args
        al = list(args) if args.__class__ is tuple else [args]
        out = []
        pos = 0
        k = 0
        for m in _re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])', f):
            out.append(f[pos:m.start()])
            pos = m.end()
            t = m.group(5)
            if t == '%':
                out.append('%')
                continue
            if m.group(1):
                v = self.dict_get(st, d, m.group(1))
                if v is UNSET:
                    raise PyExc('KeyError', m.group(1))
            else:
                if k >= len(al):
                    raise PyExc('TypeError', 'not enough arguments for format string')
                v = al[k]
                k += 1
            if v is TOP:
                st.taint('format of unknown')
                return TOP
            w = m.group(3)
            if w == '*':
                w = str(v)
                v = al[k]
                k += 1
            if t == 's':
                v = self.to_str(vm, st, v)
                if v.__class__ is CallPy:
                    raise Unsupported('formatting an object')
            elif t == 'r':
                v = self.to_repr(vm, st, v)
            elif t in 'di':
                v = self.int_str(st, self.to_lin(st, v))
            elif t == 'x':
                v = self.format_value(vm, st, v, 'x')
            else:
                v = self.con(st, v)
                if v.__class__ in CONC:
                    try:
                        v = ('%' + m.group(2) + (w or '') + ('.' + m.group(4) if m.group(4) else '') + t) % v
                    except PYERR as e:
                        raise pyexc(e)
                    out.append(v)
                    continue
                raise Unsupported('% format')
            if w:
                fl = m.group(2) or ''
                v = self.pad(st, v, int(w), '0' if '0' in fl and t in 'di' else ' ', '<' if '-' in fl else '>')
            out.append(v)
        out.append(f[pos:])
        if d is None and k < len(al) and not (len(al) == 1 and k == 0 and args.__class__ is Ref):
            raise PyExc('TypeError', 'not all arguments converted during string formatting')
        return strs.cat(*out)

    # =============================================================== attributes
    def getattr(self, vm, st, o, name, method=False):
        r = self.getattr_(vm, st, o, name)
        if r is UNSET:
            c = o.__class__
            if c is Ref and st.get(o).__class__ is Inst:
                g = vm.lookup_mro(st, st.get(o).cls, '__getattr__')
                if g is not UNSET:
                    return CallPy(g, [o, name])
            if c is Ref and st.get(o).__class__ is Mod:
                raise PyExc('AttributeError', "module '%s' has no attribute '%s'" % (st.get(o).name, name))
            raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (self.tname(st, o), name))
        return r

    def getattr_(self, vm, st, o, name):
        c = o.__class__
        if c is Ref:
            x = st.get(o)
            oc = x.__class__
            if oc is Inst:
                if name in x.f:
                    v = x.f[name]
                    cv = UNSET
                    return v
                v = vm.lookup_mro(st, x.cls, name)
                if v is UNSET:
                    if name == '__class__':
                        return x.cls
                    if name == '__dict__':
                        return st.alloc(DObj({k: (k, w) for k, w in x.f.items()}))
                    if name == '_replace' and x.f.get('nt') is True:
                        return NM(o, name)
                    if name == '_asdict' and x.f.get('nt') is True:
                        return NM(o, name)
                    if name in ('__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__init__', '__setattr__', '__getattribute__', '__init_subclass__'):
                        return NM(o, name)
                    if name in ('with_traceback', 'add_note') and vm.is_exc_cls(st, x.cls):
                        return NM(o, name)
                    if name in ('__traceback__', '__cause__', '__context__', 'start', 'end', 'reason', 'errno', 'strerror', 'filename', 'code'):
                        if vm.is_exc_cls(st, x.cls):
                            if name == 'code':
                                a = x.f.get('args', ())
                                return a[0] if a else None
                            if name.startswith('__'):
                                return None
                            mro = st.get(x.cls).mro
                            a = x.f.get('args', ())
                            if name in ('errno', 'strerror', 'filename'):
                                if self.excs['OSError'] not in mro:
                                    return UNSET
                                if name == 'filename':
                                    return TOP if len(a) > 1 else None
                                return a[0 if name == 'errno' else 1] if len(a) > 1 else None
                            if self.excs['UnicodeError'] not in mro:
                                return UNSET
                            return TOP
                    return UNSET
                vc = v.__class__
                if vc is Ref:
                    fo = st.get(v)
                    if fo.__class__ is Func:
                        return BM(v, o)
                    return v
                if vc is NF:
                    return BM(v, o)
                if vc is Prop:
                    return CallPy(v.get, [o])
                if vc is StaticM:
                    return v.fn
                if vc is ClassM:
                    return BM(v.fn, x.cls)
                return v
            if oc is Mod:
                f = x.f
                if name in f:
                    return f[name]
                if name == '__name__':
                    return x.name
                if name == '__dict__':
                    return st.alloc(DObj({k: (k, w) for k, w in f.items()}))
                # submodule already imported
                sub_ = st.mods_.get(x.name + '.' + name)
                if sub_ is not None:
                    return sub_
                return UNSET
            if oc is Cls:
                v = vm.lookup_mro(st, o, name)
                if v is UNSET:
                    if name == '__name__' or name == '__qualname__':
                        return x.name
                    if name == '__mro__':
                        return tuple(x.mro)
                    if name == '__bases__':
                        return tuple(x.bases)
                    if name == '__dict__':
                        return st.alloc(DObj({k: (k, w) for k, w in x.f.items()}))
                    if name == '__doc__':
                        return None
                    if name == '__module__':
                        return '?'
                    if name == '__init__':
                        return NF('object.__init__', lambda vm, st, a, k: None)
                    if name == '__new__':
                        return NF('object.__new__', lambda vm, st, a, k: st.alloc(Inst(a[0])))
                    if name in ('_make',) and x.kind == 'namedtuple':
                        return NF('_make', lambda vm, st, a, k: self.namedtuple_new(vm, st, o, st.get(o), self.iter_items(st, a[0]), {}))
                    if name == '_fields' and x.kind == 'namedtuple':
                        return tuple(x.f['__ntf__'])
                    return UNSET
                if name == '__members__' and v.__class__ is dict:
                    return st.alloc(DObj({k: (k, w) for k, w in v.items()}))
                vc = v.__class__
                if vc is StaticM:
                    return v.fn
                if vc is ClassM:
                    return BM(v.fn, o)
                return v
            if oc is Func:
                if name in x.f:
                    return x.f[name]
                if name in ('__name__', '__qualname__'):
                    return x.name
                if name == '__doc__':
                    return None
                if name == '__module__':
                    return st.get(x.g).name
                if name == '__code__':
                    return TOP
                if name == '__defaults__':
                    return tuple(x.defaults)
                if name == '__dict__':
                    return st.alloc(DObj())
                if name == '__call__':
                    return o
                if name == '__get__':
                    return NF('__get__', lambda vm, st, a, k: BM(o, a[0]))
                if name in ('__annotations__', '__kwdefaults__', '__type_params__'):
                    return st.alloc(DObj())
                return UNSET
            if oc is LObj:
                if x.kind == 'deque':
                    if name in LIST_METHODS or name in ('appendleft', 'popleft', 'extendleft', 'rotate', 'maxlen'):
                        return NM(o, name)
                    return UNSET
                return NM(o, name) if name in LIST_METHODS else UNSET
            if oc is DObj:
                return NM(o, name) if name in DICT_METHODS else UNSET
            if oc is SObj:
                return NM(o, name) if name in SET_METHODS else UNSET
            if oc is Gen:
                return NM(o, name) if name in ('send', 'close', 'throw', '__next__', '__iter__') else UNSET
            if oc is It:
                return NM(o, name) if name in ('__next__', '__iter__') else UNSET
            if oc is Box:
                return self.mods.box_attr(self, vm, st, o, x, name)
            return UNSET
        if c is str or c is AStr or (c is Term and o.f != 'utf8'):
            if name in STR_METHODS:
                return NM(o, name)
            return UNSET
        if c is Term or c is bytes:
            return NM(o, name)
        if c is tuple:
            return NM(o, name) if name in TUPLE_METHODS else UNSET
        if c is NT:
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__class__':
                return self.types['type']
            if name == '__doc__':
                return None
            if name == 'fromkeys' and o.name == 'dict':
                return NF('fromkeys', self.m_fromkeys)
            if name == 'maketrans' and o.name == 'str':
                return NF('maketrans', self.m_maketrans)
            if name == '__init__':
                return NF('init', lambda vm, st, a, k: None)
            if name == '__setattr__':
                return NF('setattr', lambda vm, st, a, k: self.setattr_raw(vm, st, a[0], self.con(st, a[1]), a[2]))
            if name == '__new__':
                return NF('new', lambda vm, st, a, k: st.alloc(Inst(a[0])) if a[0].__class__ is Ref else vm_unsup('__new__'))
            if name == 'from_bytes' and o.name == 'int':
                return NF('from_bytes', self.m_from_bytes)
            if name == 'from_iterable':
                return NF('chain', self.m_chain_iter)

            def unbound(vm, st, a, k, name=name):
                f = self.getattr(vm, st, a[0], name)
                return CallPy(f, a[1:], k)
            return NF(o.name + '.' + name, unbound)
        if c is int or c is bool or c is AInt or c is CharInt:
            if name in INT_METHODS:
                if name in ('real', 'numerator', 'imag', 'denominator'):
                    return o if name in ('real', 'numerator') else (0 if name == 'imag' else 1)
                return NM(o, name)
            if name == '__class__':
                return self.types['int']
            return UNSET
        if c is float:
            return NM(o, name)
        if c is ARange:
            if name == 'start':
                return o.a
            if name == 'stop':
                return o.b
            if name == 'step':
                return o.c
            return NM(o, name) if name in ('count', 'index', '__len__', '__contains__', '__iter__') else UNSET
        if c is OpaqueMod:
            return OpaqueMod(o.name + '.' + name)
        if c is BM:
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.fn
            return self.getattr_(vm, st, o.fn, name)
        if c is NF:
            if name in ('__name__', '__qualname__'):
                return o.name
            if name in ('cache_clear', 'cache_info'):
                return NF(name, lambda vm, st, a, k: None)
            return UNSET
        if c is Prop:
            if name == 'setter':
                return NF('setter', lambda vm, st, a, k: Prop(o.get, a[0]))
            if name == 'getter':
                return NF('getter', lambda vm, st, a, k: Prop(a[0], o.set))
        if c is Slice:
            return {'start': o.a, 'stop': o.b, 'step': o.c}.get(name, UNSET)
        if o is None and name == '__class__':
            return self.types['NoneType']
        if o is TOP:
            st.taint('attribute of an unknown value')
            return TOP
        return UNSET

    def setattr(self, vm, st, o, name, v):
        if o.__class__ is Ref:
            x = st.get(o)
            if x.__class__ is Inst:
                p = vm.lookup_mro(st, x.cls, name)
                if p.__class__ is Prop:
                    if p.set is None:
                        raise PyExc('AttributeError', "property '%s' has no setter" % name)
                    return CallPy(p.set, [o, v])
                sa = vm.lookup_mro(st, x.cls, '__setattr__')
                if sa is not UNSET:
                    return CallPy(sa, [o, name, v])
                return self.setattr_raw(vm, st, o, name, v)
            return self.setattr_raw(vm, st, o, name, v)
        if o is TOP:
            st.taint('store to an unknown object')
            return
        if o.__class__ is OpaqueMod:
            st.taint('store to a module outside the analysis')
            return
        raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (self.tname(st, o), name))

    def setattr_raw(self, vm, st, o, name, v):
        x = st.get(o)
        c = x.__class__
        if c is Inst:
            sl = UNSET
            # __slots__ enforcement
            allowed = None
            for r in st.get(x.cls).mro:
                f = st.get(r).f
                if '__slots__' in f:
                    s = f['__slots__']
                    names = [s] if s.__class__ is str else self.iter_items(st, s)
                    allowed = (allowed or set()) | set(names)
                else:
                    allowed = None
                    break
            if allowed is not None and name not in allowed and '__dict__' not in allowed:
                raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (st.get(x.cls).name, name))
            fz = vm.lookup_mro(st, x.cls, '__dc_frozen__')
            if fz is True and x.f.get('\0init') is True:
                raise PyExc('AttributeError', 'cannot assign to field')
            st.w(o).f[name] = v
        elif c in (Mod, Cls, Func):
            st.w(o).f[name] = v
        elif c is Box:
            st.w(o).f[name] = v
        else:
            raise PyExc('AttributeError', "object has no attribute '%s'" % name)

    def delattr(self, vm, st, o, name):
        x = st.get(o)
        if name not in x.f:
            raise PyExc('AttributeError', name)
        del st.w(o).f[name]

    def super_attr(self, vm, st, cls, self_, name):
        x = st.get(self_)
        start = x.cls if x.__class__ is Inst else self_
        mro = st.get(start).mro
        i = mro.index(cls)
        for r in mro[i + 1:]:
            f = st.get(r).f
            if name in f:
                v = f[name]
                if v.__class__ is Ref and st.get(v).__class__ is Func or v.__class__ is NF:
                    return BM(v, self_)
                if v.__class__ is ClassM:
                    return BM(v.fn, start)
                if v.__class__ is StaticM:
                    return v.fn
                if v.__class__ is Prop:
                    raise Unsupported('super property')
                return v
        if name in ('__init__', '__init_subclass__', '__enter__', '__exit__'):
            return NF(name, lambda vm, st, a, k: None)
        if name == '__setattr__':
            return NF(name, lambda vm, st, a, k: self.setattr_raw(vm, st, self_, self.con(st, a[0]), a[1]))
        if name == '__new__':
            return NF(name, lambda vm, st, a, k: st.alloc(Inst(a[0])))
        if name in ('__getattribute__',):
            return NF(name, lambda vm, st, a, k: self.getattr(vm, st, self_, a[0]))
        # native base behaviour (dict/list subclasses are not modelled)
        raise PyExc('AttributeError', "'super' object has no attribute '%s'" % name)

    # =============================================================== classes
    def b_build_class(self, vm, st, args, kw):
        fn, name = args[0], args[1]
        bases = []
        for b in args[2:]:
            bases.append(b)
        f = st.get(fn)
        ns = st.alloc(DObj())
        st.w(ns).d['__qualname__'] = ('__qualname__', name)
        loc = [UNSET] * f.code.nplus
        vm.push_frame(st, f.code, f.g, loc, names=ns, ret=('class', name, tuple(bases), dict(kw), ns, 'push'), func=fn)
        return PUSHED

    def finish_class(self, vm, st, fr, ret):
        _, name, bases, kw, ns, _r = ret
        f = {k: v for k, (k2, v) in st.get(ns).d.items()}
        kind = ''
        rb = []
        for b in bases:
            if b.__class__ is Ref and st.get(b).__class__ is Cls:
                rb.append(b)
                k = st.get(b).kind
                if k in ('enum', 'enumbase'):
                    kind = 'enum'
                elif k in ('typeddict', 'namedtuple', 'ntbase'):
                    kind = 'namedtuple' if k != 'typeddict' else k
            elif b.__class__ is NT:
                if b.name in ('dict', 'list', 'str', 'int', 'tuple', 'set', 'frozenset', 'bytes', 'float'):
                    if kind != 'enum' and not any(x.__class__ is Ref and st.get(x).kind in ('enum', 'enumbase') for x in bases):
                        kind = 'unsup:' + b.name
            elif b.__class__ is OpaqueMod:
                if b.name.split('.')[-1] in ('Protocol', 'Generic', 'ABC'):
                    pass
                else:
                    kind = 'unsup:' + b.name
        r = st.alloc(Cls(name, tuple(rb), (), f, kind))
        c = st.w(r)
        c.mro = self.c3(st, r, rb)
        cell = f.pop('__classcell__', None)
        if cell is not None:
            st.w(cell).v = r
        if kind == 'enum':
            members = {}
            by_value = []
            auto = 0
            for k, v in list(f.items()):
                if k.startswith('_') or v.__class__ in (StaticM, ClassM, Prop, NF) or (v.__class__ is Ref and st.get(v).__class__ is Func):
                    continue
                if v.__class__ is Ref and st.get(v).__class__ is Box and st.get(v).kind == 'auto':
                    auto += 1
                    v = auto
                elif v.__class__ is int:
                    auto = v
                dup = None
                for m in members.values():
                    if self.eq(vm, st, st.get(m).f['value'], v):
                        dup = m
                if dup is None:
                    dup = st.alloc(Inst(r, {'name': k, 'value': v, '_name_': k, '_value_': v}))
                members[k] = dup
                f[k] = dup
            f['__members__'] = members
        if kind == 'namedtuple':
            ann = f.get('__annotations__')
            flds = [k for k, v in st.get(ann).d.values()] if ann is not None else []
            f['__ntf__'] = flds
            f['__ntd__'] = {k: f.pop(k) for k in flds if k in f}
        # __set_name__ not modelled; __init_subclass__
        return r

    def c3(self, st, r, bases):
        seqs = [list(st.get(b).mro) for b in bases] + [list(bases)]
        out = [r]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return tuple(out)
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise PyExc('TypeError', 'MRO')
            out.append(h)
            for s in seqs:
                if s[0] == h:
                    s.pop(0)

    def enum_lookup(self, vm, st, ref, cls, args):
        for m in cls.f['__members__'].values():
            if self.eq(vm, st, st.get(m).f['value'], args[0]):
                return m
        raise PyExc('ValueError', 'not a valid enum value')

    def namedtuple_new(self, vm, st, ref, cls, args, kw):
        flds = cls.f['__ntf__']
        d = dict(cls.f.get('__ntd__', {}))
        vals = {}
        if len(args) > len(flds):
            raise PyExc('TypeError', 'too many arguments')
        for k, v in zip(flds, args):
            vals[k] = v
        for k, v in kw.items():
            if k not in flds:
                raise PyExc('TypeError', 'unexpected field ' + k)
            vals[k] = v
        for k in flds:
            if k not in vals:
                if k in d:
                    vals[k] = d[k]
                else:
                    raise PyExc('TypeError', 'missing field ' + k)
        f = dict(vals)
        f['nt'] = True
        f['vals'] = [vals[k] for k in flds]
        return st.alloc(Inst(ref, f))

    def dataclass_init(self, vm, st, ref, inst, args, kw):
        flds = vm.lookup_mro(st, ref, '__dataclass_fields__')
        vals = {}
        names = [k for k in flds if flds[k][1] is not False]
        if len(args) > len(names):
            raise PyExc('TypeError', '__init__() takes %d positional arguments but %d were given' % (len(names) + 1, len(args) + 1))
        for k, v in zip(names, args):
            vals[k] = v
        for k, v in kw.items():
            if k not in names:
                raise PyExc('TypeError', "__init__() got an unexpected keyword argument '%s'" % k)
            vals[k] = v
        o = st.w(inst)
        for k in flds:
            if k in vals:
                o.f[k] = vals[k]
                continue
            dflt = flds[k][0]
            if dflt is UNSET:
                raise PyExc('TypeError', "__init__() missing required argument: '%s'" % k)
            if dflt.__class__ is tuple and len(dflt) == 2 and dflt[0] == '\0factory':
                fac = dflt[1]
                done, v = None, None
                if fac.__class__ is NT:
                    v = fac.fn(vm, st, [], {})
                else:
                    raise Unsupported('default_factory')
                o = st.w(inst)
                o.f[k] = v
            else:
                o.f[k] = dflt
        if vm.lookup_mro(st, ref, '__dc_frozen__') is True:
            o.f['\0init'] = True

    # =============================================================== types as callables
    def t_str(self, vm, st, args, kw):
        if not args:
            return ''
        if len(args) > 1:
            return CallPy(self.getattr(vm, st, args[0], 'decode'), args[1:])
        return self.to_str(vm, st, args[0])

    def t_int(self, vm, st, args, kw):
        if not args:
            return 0
        v = self.con(st, args[0])
        if v.__class__ in CONC:
            try:
                if len(args) > 1 or kw:
                    return int(v, self.con(st, args[1] if len(args) > 1 else kw['base']))
                return int(v)
            except PYERR as e:
                raise pyexc(e)
        if self.isint(v):
            return v
        if v.__class__ is AStr:
            base = args[1] if len(args) > 1 else 10
            if base == 10:
                s = strs.lstrip(st, strs.rstrip(st, v, strs.ws_mask()), strs.ws_mask())
                # single decimal digit char
                p = st.res(s)
                D = chars.AT.pred('isdecimal', str.isdecimal)
                r = strs.all_in(st, s, D)
                if r is None or r is False:
                    # sign / underscore forms are not modelled
                    c, rest = strs.first_char(st, st.res(s)) if r is False else ('', ())
                    if r is False and (c.__class__ is AStr or c in '+-'):
                        raise Unsupported('int() of signed text')
                    if r is False and strs.scan(st, st.res(s), chars.AT.cs('_')) is not None:
                        raise Unsupported('int() of text')
                    raise PyExc('ValueError', 'invalid literal for int() with base 10')
                p = st.res(s)
                if len(p) == 1 and p[0].__class__ is tuple and st.segs[p[0][0]][1:] == (1, 1) and p[0][1] is None:
                    tab = {}
                    for a in chars.AT.atoms_in(st.segs[p[0][0]][0]):
                        tab[a] = int(chars.AT.rep[a]) if chars.AT.n_of[a] == 1 else (0, 9)
                    return CharInt(p[0], tab)
                # text produced by str(n)?
                if len(p) == 1 and p[0].__class__ is tuple:
                    for key, sid in st.strc.items():
                        if key[0] == 'str' and sid == p[0][0]:
                            return st.norm(AInt(key[1], dict(key[2])))
            raise Unsupported('int() of abstract text')
        if v.__class__ is Term:
            return Term('int', (v,))
        if v is TOP:
            return TOP
        raise PyExc('TypeError', 'int() argument must be a string or a number')

    def t_float(self, vm, st, args, kw):
        v = self.con(st, args[0]) if args else 0.0
        if v.__class__ in CONC:
            try:
                return float(v)
            except PYERR as e:
                raise pyexc(e)
        raise Unsupported('float')

    def t_bool(self, vm, st, args, kw):
        if not args:
            return False
        r = self.truth(vm, st, args[0])
        if r.__class__ is CallPy:
            raise Unsupported('bool()')
        return bool(r)

    def t_bytes(self, vm, st, args, kw):
        if not args:
            return b''
        v = args[0]
        if is_str(v):
            return self.method(vm, st, v, 'encode', args[1:], kw)
        items = self.iter_items(st, v) if not self.isint(v) else None
        if items is not None and all(x.__class__ is int for x in items):
            return bytes(items)
        if v.__class__ in (bytes, int):
            return bytes(v)
        raise Unsupported('bytes()')

    def via_list(self, st, fn, args, kw):
        return CallPy(self.prelude(st, '_via_list'), [fn] + list(args), kw)

    def t_list(self, vm, st, args, kw):
        if not args:
            return st.alloc(LObj([]))
        v = args[0]
        items = self.iter_items(st, v)
        if items is None:
            if v.__class__ is AStr:
                return st.alloc(LObj([CharsOf(st.res(v))]))
            if v.__class__ is Ref and st.get(v).__class__ is LObj:
                return st.alloc(st.get(v).clone())
            return CallPy(self.prelude(st, '_to_list'), [v])
        return st.alloc(LObj(list(items)))

    def t_tuple(self, vm, st, args, kw):
        if not args:
            return ()
        items = self.iter_items(st, args[0])
        if items is None:
            return self.via_list(st, self.types['tuple'], args, kw)
        return tuple(items)

    def t_set(self, vm, st, args, kw, kind='set'):
        if not args:
            return st.alloc(SObj(kind=kind))
        v = args[0]
        if v.__class__ is AStr:
            items = self.iter_items(st, v)
            if items is None:
                return CallPy(self.prelude(st, '_via_list'), [self.types[kind], self.squeeze(st, v)])
        items = self.iter_items(st, v)
        if items is None:
            return self.via_list(st, self.types[kind], args, kw)
        return self.make_set(st, items, kind)

    def squeeze(self, st, v):
        """a text with the same set of characters, runs of one character shortened"""
        out = []
        for x in st.res(v):
            if x.__class__ is str:
                x = ''.join(dict.fromkeys(x))
            else:
                sid, h, rev = x
                cs = st.segs[sid][0]
                c = h.const(cs) if h is not None and not (cs & ~h.dom) else (chars.AT.single(cs) if h is None else None)
                if c is not None:
                    x = ''.join(dict.fromkeys(c)) if c and strs.truthy_str(st, AStr((x,))) else ''
            if x:
                out.append((x,))
        return from_parts(concat_parts(*out))

    def t_frozenset(self, vm, st, args, kw):
        return self.t_set(vm, st, args, kw, 'frozenset')

    def t_dict(self, vm, st, args, kw):
        r = st.alloc(DObj())
        if args:
            v = args[0]
            if v.__class__ is Ref and st.get(v).__class__ is DObj:
                o = st.get(v)
                w = st.w(r)
                w.d = dict(o.d)
                w.nabs = o.nabs
            else:
                items = self.iter_items(st, v)
                if items is None:
                    return self.via_list(st, self.types['dict'], args, kw)
                for x in items:
                    kv = self.iter_items(st, x)
                    if len(kv) != 2:
                        raise PyExc('ValueError', 'dictionary update sequence element has wrong length')
                    self.dict_set(st, r, kv[0], kv[1])
        for k, v in kw.items():
            self.dict_set(st, r, k, v)
        return r

    def m_fromkeys(self, vm, st, args, kw):
        items = self.iter_items(st, args[0])
        if items is None:
            return self.via_list(st, NF('fromkeys', self.m_fromkeys), args, kw)
        r = st.alloc(DObj())
        for k in items:
            self.dict_set(st, r, k, args[1] if len(args) > 1 else None)
        return r

    def t_object(self, vm, st, args, kw):
        return st.alloc(Box('object'))

    def type_of(self, vm, st, v):
        c = v.__class__
        if c is Ref:
            o = st.get(v)
            if o.__class__ is Inst:
                return o.cls
            if o.__class__ is Cls:
                return self.types['type']
        n = self.tname(st, v)
        return self.types.get(n) or NT(n)

    def t_type(self, vm, st, args, kw):
        if len(args) == 1:
            if args[0] is TOP:
                return TOP
            return self.type_of(vm, st, args[0])
        name, bases, d = args
        r = st.alloc(Cls(self.con(st, name), tuple(b for b in bases if b.__class__ is Ref), (), {k: v for k, v in st.get(d).d.values()}))
        st.w(r).mro = self.c3(st, r, list(st.get(r).bases))
        return r

    def t_range(self, vm, st, args, kw):
        vals = []
        for x in args:
            if not self.isint(x):
                if x is TOP:
                    raise Unsupported('range')
                raise PyExc('TypeError', "'%s' object cannot be interpreted as an integer" % self.tname(st, x))
            vals.append(self.to_lin(st, x))
        if len(vals) == 1:
            return ARange(0, vals[0], 1)
        if len(vals) == 2:
            return ARange(vals[0], vals[1], 1)
        s = vals[2]
        if s.__class__ is not int:
            s = st.enum(s)
        if s == 0:
            raise PyExc('ValueError', 'range() arg 3 must not be zero')
        return ARange(vals[0], vals[1], s)

    def t_enumerate(self, vm, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        it = self.native_iter(vm, st, args[0])
        if it is None:
            return CallPy(self.prelude(st, '_enumerate'), [args[0], start])
        return st.alloc(It('enumerate', it, self.to_lin(st, start)))

    def t_zip(self, vm, st, args, kw):
        if kw.get('strict'):
            return CallPy(self.prelude(st, '_zip_strict'), args)
        its = [self.native_iter(vm, st, a) for a in args]
        if any(i is None for i in its):
            return CallPy(self.prelude(st, '_zip'), args)
        return st.alloc(It('zip', tuple(its)))

    def t_map(self, vm, st, args, kw):
        return CallPy(self.prelude(st, '_map' if len(args) == 2 else '_mapn'), args)

    def t_filter(self, vm, st, args, kw):
        return CallPy(self.prelude(st, '_filter'), args)

    def t_reversed(self, vm, st, args, kw):
        v = args[0]
        if is_str(v):
            return st.alloc(It('str', from_parts(strs.rev_parts(st, st.res(v)))))
        if v.__class__ is Ref and st.get(v).__class__ is Inst:
            m = vm.lookup_mro(st, st.get(v).cls, '__reversed__')
            if m is not UNSET:
                return CallPy(m, [v])
        if v.__class__ is ARange:
            n = self.range_len(st, v)
            last = add(v.a, scale(sub(n, 1), v.c))
            return st.alloc(It('range', ARange(last, sub(v.a, v.c), -v.c), last))
        if v.__class__ is Ref and st.get(v).__class__ is LObj and has_chars(st.get(v).items):
            return st.alloc(It('str', from_parts(strs.rev_parts(st, st.res(self.chars_str(st.get(v).items))))))
        items = self.iter_items(st, v)
        if items is None:
            raise PyExc('TypeError', 'object is not reversible')
        return st.alloc(It('tuple', tuple(reversed(items))))

    def t_super(self, vm, st, args, kw):
        if len(args) == 2:
            return st.alloc(Box('super', {'cls': args[0], 'self': args[1]}))
        fr = st.frames[-1]
        # zero-arg super through LOAD_SUPER_ATTR normally
        for i, n in enumerate(fr.code.names):
            if n == '__class__':
                return st.alloc(Box('super', {'cls': st.get(fr.loc[i]).v, 'self': fr.loc[0]}))
        raise Unsupported('super()')

    # =============================================================== builtin functions
    def bi_len(self, vm, st, args, kw):
        return self.length(vm, st, args[0])

    def bi_ord(self, vm, st, args, kw):
        v = args[0]
        if v.__class__ is str:
            if len(v) != 1:
                raise PyExc('TypeError', 'ord() expected a character, but string of length %d found' % len(v))
            return ord(v)
        if v.__class__ is AStr:
            p = st.res(v)
            n = st.length(v)
            if n.__class__ is AInt:
                if not st.decide_eq0(sub(n, 1)):
                    raise PyExc('TypeError', 'ord() expected a character')
                c, _ = strs.first_char(st, st.res(v))
                return self.bi_ord(vm, st, [c], kw)
            if n != 1:
                raise PyExc('TypeError', 'ord() expected a character')
            if len(p) == 1 and p[0].__class__ is str:
                return ord(p[0])
            c, _ = strs.first_char(st, p)
            if c.__class__ is str:
                return ord(c)
            part = c.p[0]
            tab = st.ordtab(part)
            vals = set(tab.values())
            if len(vals) == 1:
                x = vals.pop()
                if x.__class__ is int:
                    return x
            return CharInt(part, tab, True)
        if v is TOP:
            return TOP
        if v.__class__ is bytes and len(v) == 1:
            return v[0]
        raise PyExc('TypeError', 'ord() expected string of length 1, but %s found' % self.tname(st, v))

    def bi_chr(self, vm, st, args, kw):
        v = self.con(st, args[0])
        if v.__class__ in (int, bool):
            try:
                return chr(v)
            except PYERR as e:
                raise pyexc(e)
        if v.__class__ is CharInt:
            if v.isord:
                return st.rv(AStr((v.part,)))
            tab = {}
            for a, x in self.citab(st, v).items():
                if x.__class__ is not int:
                    raise Unsupported('chr')
                tab[a] = chr(x)
            return st.rv(AStr(((v.part[0], chars.Hom.make(tab), False),)))
        if v.__class__ is AInt:
            if v.c == 0 and len(v.t) == 1:
                (k, q), = v.t.items()
                if q == 1 and k.__class__ is tuple and k[0] == 'o':
                    return st.rv(AStr((k[1],)))
            return chr(st.enum(v, 'chr', limit=300))
        if v is TOP:
            return TOP
        raise PyExc('TypeError', 'an integer is required')

    def bi_isinstance(self, vm, st, args, kw):
        return self.isinstance_(vm, st, args[0], args[1])

    def isinstance_(self, vm, st, v, t):
        if t.__class__ is tuple:
            ts = t[1:] if t and t[0] == 'union' else t
            return any(self.isinstance_(vm, st, v, x) for x in ts)
        if v is TOP or t is TOP:
            raise Unsupported('isinstance on an unknown value')
        if t is None:
            return v is None
        if t.__class__ is NT:
            n = t.name
            if n == 'object':
                return True
            tn = self.tname(st, v)
            if n == 'int':
                return tn in ('int', 'bool')
            if n == 'dict':
                return v.__class__ is Ref and st.get(v).__class__ is DObj
            if n == 'tuple':
                return v.__class__ is tuple or (v.__class__ is Ref and st.get(v).__class__ is Inst and st.get(v).f.get('nt') is True)
            if n == 'list':
                return v.__class__ is Ref and st.get(v).__class__ is LObj and st.get(v).kind == 'list'
            if n == 'type':
                return v.__class__ is NT or (v.__class__ is Ref and st.get(v).__class__ is Cls)
            return tn == n
        if t.__class__ is Ref:
            c = st.get(t)
            if c.__class__ is not Cls:
                if c.__class__ is Box:
                    raise Unsupported('isinstance')
                raise PyExc('TypeError', 'isinstance() arg 2 must be a type')
            if v.__class__ is Ref:
                o = st.get(v)
                if o.__class__ is Inst:
                    return t in st.get(o.cls).mro
                if o.__class__ is DObj and c.name == o.kind:
                    return True
            return False
        if t.__class__ is OpaqueMod:
            n = t.name.split('.')[-1]
            tn = self.tname(st, v)
            tab = {'Iterable': ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'range', 'generator'),
                   'Sequence': ('list', 'tuple', 'str', 'range'), 'Mapping': ('dict', 'defaultdict', 'OrderedDict', 'Counter'),
                   'Callable': ('function', 'method', 'builtin_function_or_method'), 'Hashable': ('str', 'int', 'tuple'),
                   'PathLike': ('path',), 'Path': ('path',), 'Integral': ('int', 'bool'), 'Set': ('set', 'frozenset')}
            if n in tab:
                return tn in tab[n]
            raise Unsupported('isinstance with ' + t.name)
        raise Unsupported('isinstance')

    def bi_issubclass(self, vm, st, args, kw):
        a, b = args
        if b.__class__ is tuple:
            return any(self.bi_issubclass(vm, st, [a, x], kw) for x in b)
        if a.__class__ is Ref and b.__class__ is Ref:
            return b in st.get(a).mro
        if a.__class__ is NT and b.__class__ is NT:
            return issubclass(a.py, b.py) if a.py and b.py else a.name == b.name
        return b.__class__ is NT and b.name == 'object'

    def bi_callable(self, vm, st, args, kw):
        v = args[0]
        c = v.__class__
        if c in (NF, NT, NM, BM):
            return True
        if c is Ref:
            o = st.get(v)
            if o.__class__ in (Func, Cls):
                return True
            if o.__class__ is Inst:
                return vm.lookup_mro(st, o.cls, '__call__') is not UNSET
        if v is TOP:
            raise Unsupported('callable')
        return False

    def bi_hasattr(self, vm, st, args, kw):
        o, n = args[0], self.con(st, args[1])
        if o is TOP:
            raise Unsupported('hasattr')
        r = self.getattr_(vm, st, o, n)
        return r is not UNSET

    def bi_getattr(self, vm, st, args, kw):
        o, n = args[0], self.con(st, args[1])
        if n.__class__ is not str:
            raise Unsupported('getattr with abstract name')
        r = self.getattr_(vm, st, o, n)
        if r is UNSET:
            if len(args) > 2:
                return args[2]
            return self.getattr(vm, st, o, n)
        return r

    def bi_setattr(self, vm, st, args, kw):
        r = self.setattr(vm, st, args[0], self.con(st, args[1]), args[2])
        return r

    def bi_delattr(self, vm, st, args, kw):
        self.delattr(vm, st, args[0], self.con(st, args[1]))

    def bi_repr(self, vm, st, args, kw):
        v = args[0]
        if v.__class__ is Ref and st.get(v).__class__ is Inst:
            m = vm.lookup_mro(st, st.get(v).cls, '__repr__')
            if m is not UNSET:
                return CallPy(m, [v])
        return self.to_repr(vm, st, v)

    bi_ascii = bi_repr

    def bi_id(self, vm, st, args, kw):
        v = args[0]
        if v.__class__ is Ref:
            return 10 ** 6 + v.a * 16
        raise Unsupported('id')

    def bi_hash(self, vm, st, args, kw):
        return Term('hash', (args[0],))

    def bi_abs(self, vm, st, args, kw):
        v = self.con(st, args[0])
        if v.__class__ in CONC:
            return abs(v)
        v = self.to_lin(st, v)
        return v if st.decide_ge0(v) else scale(v, -1)

    def bi_divmod(self, vm, st, args, kw):
        a, b = args
        return (self.binop(vm, st, 2, a, b), self.binop(vm, st, 6, a, b))

    def bi_pow(self, vm, st, args, kw):
        return pow(*[self.con(st, a) for a in args])

    def bi_round(self, vm, st, args, kw):
        v = [self.con(st, a) for a in args]
        if all(x.__class__ in CONC for x in v):
            return round(*v)
        if self.isint(v[0]):
            return v[0]
        raise Unsupported('round')

    def bi_bin(self, vm, st, args, kw):
        return bin(st.enum(self.to_lin(st, args[0])))

    def bi_hex(self, vm, st, args, kw):
        v = self.to_lin(st, args[0])
        return hex(v) if v.__class__ is int else Term('hex', (v,))

    def bi_iter(self, vm, st, args, kw):
        if len(args) == 2:
            return CallPy(self.prelude(st, '_iter_sentinel'), args)
        return self.get_iter(vm, st, args[0])

    def bi_next(self, vm, st, args, kw):
        it = args[0]
        dflt = args[1] if len(args) > 1 else UNSET
        if it.__class__ is Ref:
            o = st.get(it)
            if o.__class__ is Gen:
                if o.done:
                    if dflt is UNSET:
                        raise PyExc('StopIteration')
                    return dflt
                return resume_gen(vm, st, it, ('gen', 'next', dflt))
            if o.__class__ is Inst:
                m = vm.lookup_mro(st, o.cls, '__next__')
                if dflt is UNSET:
                    return CallPy(m, [it])
                return CallPy(self.prelude(st, '_next_default'), [m, it, dflt])
            if o.__class__ is Box and o.kind == 'file':
                line = self.mods.file_readline(self, vm, st, it)
                if not self.truth(vm, st, line):
                    if dflt is UNSET:
                        raise PyExc('StopIteration')
                    return dflt
                self.mods.file_advance(self, st, it, line)
                st.w(it).f['iterating'] = True
                return line
            if o.__class__ is It:
                ok, v = self.iter_next(vm, st, it)
                if ok:
                    return v
                if dflt is UNSET:
                    raise PyExc('StopIteration')
                return dflt
        raise PyExc('TypeError', "'%s' object is not an iterator" % self.tname(st, it))

    def bi_any(self, vm, st, args, kw):
        items = self.iter_items(st, args[0])
        if items is None:
            return CallPy(self.prelude(st, '_any'), args)
        for x in items:
            r = self.truth(vm, st, x)
            if r.__class__ is CallPy:
                return CallPy(self.prelude(st, '_any'), args)
            if r:
                return True
        return False

    def bi_all(self, vm, st, args, kw):
        items = self.iter_items(st, args[0])
        if items is None:
            return CallPy(self.prelude(st, '_all'), args)
        for x in items:
            r = self.truth(vm, st, x)
            if r.__class__ is CallPy:
                return CallPy(self.prelude(st, '_all'), args)
            if not r:
                return False
        return True

    def bi_sum(self, vm, st, args, kw):
        items = self.iter_items(st, args[0])
        if items is None:
            return CallPy(self.prelude(st, '_sum'), args, kw)
        r = args[1] if len(args) > 1 else kw.get('start', 0)
        for x in items:
            r = self.binop(vm, st, 0, r, x)
        return r

    def minmax(self, vm, st, args, kw, name, op):
        if len(args) == 1:
            items = self.iter_items(st, args[0])
            if items is None:
                return self.via_list(st, NF(name, lambda vm, st, a, k: self.minmax(vm, st, a, k, name, op)), args, kw)
        else:
            items = list(args)
        key = kw.get('key')
        if key is not None and key is not None:
            return CallPy(self.prelude(st, '_%s_key' % name), [st.alloc(LObj(items)), key, kw.get('default', UNSET) if 'default' in kw else TOP])
        if not items:
            if 'default' in kw:
                return kw['default']
            raise PyExc('ValueError', '%s() arg is an empty sequence' % name)
        best = items[0]
        for x in items[1:]:
            r = self.compare(vm, st, op, x, best)
            if r.__class__ is CallPy:
                raise Unsupported(name)
            if r:
                best = x
        return best

    def bi_min(self, vm, st, args, kw):
        return self.minmax(vm, st, args, kw, 'min', '<')

    def bi_max(self, vm, st, args, kw):
        return self.minmax(vm, st, args, kw, 'max', '>')

    def bi_sorted(self, vm, st, args, kw):
        items = self.iter_items(st, args[0])
        if items is None:
            return self.via_list(st, self.builtins['sorted'], args, kw)
        key = kw.get('key')
        rev = bool(self.con(st, kw.get('reverse', False)))
        if key is not None:
            return CallPy(self.prelude(st, '_sorted_key'), [st.alloc(LObj(items)), key, rev])
        return st.alloc(LObj(self.sort_items(vm, st, items, rev)))

    def sort_items(self, vm, st, items, rev=False):
        if all(x.__class__ in CONC for x in items) or all(self.deep_conc(x) for x in items):
            try:
                return sorted(items, reverse=rev)
            except TypeError as e:
                raise pyexc(e)
        out = []
        seq = items if not rev else list(reversed(items))
        for x in seq:
            i = len(out)
            while i > 0:
                r = self.compare(vm, st, '<', x, out[i - 1])
                if r.__class__ is CallPy:
                    raise Unsupported('sort with __lt__')
                if not r:
                    break
                i -= 1
            out.insert(i, x)
        if rev:
            out.reverse()
        return out

    def deep_conc(self, x):
        if x.__class__ is tuple:
            return all(self.deep_conc(y) for y in x)
        return x.__class__ in CONC

    def bi_print(self, vm, st, args, kw):
        sep = kw.get('sep', ' ')
        end = kw.get('end', '\n')
        sep = ' ' if sep is None else sep
        end = '\n' if end is None else end
        out = []
        for i, a in enumerate(args):
            if i:
                out.append(sep)
            s = self.to_str(vm, st, a)
            if s.__class__ is CallPy:
                return CallPy(self.prelude(st, '_print_str'), list(args), dict(kw))
            if s is TOP:
                st.taint('print of unknown')
                s = '?'
            out.append(s)
        out.append(end)
        s = strs.cat(*out)
        f = kw.get('file')
        if f is not None:
            return self.mods.box_method(self, vm, st, f, st.get(f), 'write', [s], {}) and None
        self.mods.emit(self, st, '<stdout>', s)
        return None

    def bi_open(self, vm, st, args, kw):
        return self.mods.do_open(self, vm, st, args, kw)

    def bi__env(self, vm, st, args, kw):
        from . import mods
        k = self.con(st, args[0])
        if k.__class__ is not str:
            raise Unsupported('environment variable')
        return mods.env(st, k)

    def bi_input(self, vm, st, args, kw):
        raise Unsupported('input()')

    def bi_globals(self, vm, st, args, kw):
        raise Unsupported('globals()')

    def bi_locals(self, vm, st, args, kw):
        raise Unsupported('locals()')

    def bi_vars(self, vm, st, args, kw):
        if args:
            return self.getattr(vm, st, args[0], '__dict__')
        raise Unsupported('vars()')

    def bi_dir(self, vm, st, args, kw):
        raise Unsupported('dir()')

    def bi_exec(self, vm, st, args, kw):
        st.event('extern', 'exec')
        raise Unsupported('exec')

    def bi_eval(self, vm, st, args, kw):
        st.event('extern', 'eval')
        raise Unsupported('eval')

    def bi_compile(self, vm, st, args, kw):
        raise Unsupported('compile')

    def bi___import__(self, vm, st, args, kw):
        st.event('extern', '__import__')
        raise Unsupported('__import__')

    def bi_format(self, vm, st, args, kw):
        return self.format_value(vm, st, args[0], args[1] if len(args) > 1 else '')

    def bi_exit(self, vm, st, args, kw):
        raise PyExc('SystemExit', *args)

    def bi_breakpoint(self, vm, st, args, kw):
        return None

    # =============================================================== methods of native values
    def method(self, vm, st, o, name, args, kw):
        c = o.__class__
        if c is str or c is AStr or c is Term and o.f != 'utf8':
            return self.str_method(vm, st, o, name, args, kw)
        if c is Ref:
            x = st.get(o)
            oc = x.__class__
            if oc is LObj:
                return self.list_method(vm, st, o, x, name, args, kw)
            if oc is DObj:
                return self.dict_method(vm, st, o, x, name, args, kw)
            if oc is SObj:
                return self.set_method(vm, st, o, x, name, args, kw)
            if oc is Box:
                return self.mods.box_method(self, vm, st, o, x, name, args, kw)
            if oc is Gen:
                if name == '__next__':
                    return self.bi_next(vm, st, [o], {})
                if name == '__iter__':
                    return o
                if name == 'close':
                    w = st.w(o)
                    w.done = True
                    w.frame = None
                    return None
                if name == 'send':
                    return resume_gen(vm, st, o, ('gen', 'next', UNSET), args[0])
                if name == 'throw':
                    e = args[0]
                    g = st.w(o)
                    if g.done or not g.started:
                        g.done = True
                        raise PyExc(e)
                    f = g.frame.copy()
                    g.frame = None
                    f.ret = ('gen', 'next', UNSET)
                    f.gen = o
                    f.pc -= 1
                    st.frames.append(f)
                    if e.__class__ is Ref and st.get(e).__class__ is Cls:
                        e = st.alloc(Inst(e, {'args': ()}))
                    raise PyExc(e)
            if oc is It:
                if name == '__next__':
                    return self.bi_next(vm, st, [o], {})
                return o
            if oc is Inst:
                if name == '_replace':
                    f = {k: x.f[k] for k in st.get(x.cls).f['__ntf__']}
                    f.update(kw)
                    return self.namedtuple_new(vm, st, x.cls, st.get(x.cls), [], f)
                if name == '_asdict':
                    return st.alloc(DObj({k: (k, x.f[k]) for k in st.get(x.cls).f['__ntf__']}))
                if name == '__eq__':
                    return args[0] == o
                if name == '__ne__':
                    return args[0] != o
                if name in ('__str__', '__repr__'):
                    return self.to_str(vm, st, o)
                if name == '__hash__':
                    return o.a
                if name == '__setattr__':
                    return self.setattr_raw(vm, st, o, self.con(st, args[0]), args[1])
                if name == '__init__':
                    return None
                if name == 'with_traceback':
                    return o
                if name == 'add_note':
                    return None
        if c is tuple:
            if name == 'count':
                return sum(1 for x in o if self.eq(vm, st, x, args[0]))
            if name == 'index':
                for i, x in enumerate(o):
                    if self.eq(vm, st, x, args[0]):
                        return i
                raise PyExc('ValueError', 'tuple.index(x): x not in tuple')
            if name == '__len__':
                return len(o)
            if name == '__contains__':
                return self.contains(vm, st, o, args[0])
            if name == '__getitem__':
                return self.subscr(vm, st, o, args[0])
            if name == '__iter__':
                return self.get_iter(vm, st, o)
        if c is Term:   # utf8 bytes
            if name == 'decode':
                return o.args[0]
            if name == 'hex':
                return Term('hex', o.args)
            raise Unsupported('bytes.' + name)
        if c is bytes:
            a = [self.con(st, x) for x in args]
            if all(x.__class__ in CONC for x in a):
                try:
                    return self.wrap(st, getattr(o, name)(*a, **kw))
                except PYERR as e:
                    raise pyexc(e)
            raise Unsupported('bytes.' + name)
        if c in (int, bool, float) or c is AInt or c is CharInt:
            v = self.con(st, o)
            a = [self.con(st, x) for x in args]
            if v.__class__ in CONC and all(x.__class__ in CONC for x in a):
                try:
                    return self.wrap(st, getattr(v, name)(*a, **kw))
                except PYERR as e:
                    raise pyexc(e)
            if name in ('__index__', '__int__', 'conjugate'):
                return v
            if name == 'bit_length':
                return st.enum(self.to_lin(st, v)).bit_length()
            if name in ('__add__', '__sub__'):
                return self.binop(vm, st, 0 if name == '__add__' else 10, v, a[0])
            if name in ('__lt__', '__le__', '__eq__'):
                return self.compare(vm, st, {'__lt__': '<', '__le__': '<=', '__eq__': '=='}[name], v, a[0])
            raise Unsupported('int.' + name)
        if c is ARange:
            if name == '__len__':
                return self.range_len(st, o)
            if name == '__contains__':
                return self.contains(vm, st, o, args[0])
            if name == '__iter__':
                return self.get_iter(vm, st, o)
            items = self.iter_items(st, o)
            if items is not None:
                return self.method(vm, st, tuple(items), name, args, kw)
        raise Unsupported('method %s of %s' % (name, self.tname(st, o)))

    def wrap(self, st, v):
        c = type(v)
        if c in CONC:
            return v
        if c is tuple:
            return tuple(self.wrap(st, x) for x in v)
        if c is list:
            return st.alloc(LObj([self.wrap(st, x) for x in v]))
        if c is dict:
            return st.alloc(DObj({k: (k, self.wrap(st, x)) for k, x in v.items()}))
        if c in (set, frozenset):
            return self.make_set(st, list(v), c.__name__)
        raise Unsupported('value of type %s' % c.__name__)

    # ------------------------------------------------------------- str methods
    def charset_arg(self, st, v):
        s = self.con(st, v)
        if s.__class__ is str:
            return chars.AT.cs(s)
        if s.__class__ is AStr:
            m = 0
            for x in st.res(s):
                if x.__class__ is str:
                    m |= chars.AT.cs(x)
                else:
                    cs = st.segs[x[0]][0]
                    if x[1] is None and chars.AT.single(cs) is not None and st.info(x[0])[1] >= 1:
                        m |= cs
                    else:
                        raise Unsupported('abstract character set')
            return m
        raise PyExc('TypeError', 'strip arg must be None or str')

    def str_method(self, vm, st, o, name, args, kw):
        if o.__class__ is AStr:
            v = st.cval(o)
            if v is not None:
                o = v
        if o.__class__ is str and name != 'join':
            a = [self.con(st, x) if x.__class__ in (AStr, AInt, CharInt) else x for x in args]
            if name == 'format':
                return self.str_format(vm, st, o, args, kw)
            if name == 'translate':
                return self.translate(vm, st, o, args[0])
            if all(self.deep_conc(x) for x in a) and all(self.deep_conc(x) for x in kw.values()):
                if name == 'encode':
                    try:
                        return o.encode(*a, **kw)
                    except UnicodeEncodeError:
                        raise PyExc('UnicodeEncodeError', 'not encodable')
                    except PYERR as e:
                        raise pyexc(e)
                try:
                    return self.wrap(st, getattr(o, name)(*a, **kw))
                except PYERR as e:
                    raise pyexc(e)
            args = a
        if o.__class__ is Term:
            if name in ('encode',):
                return Term('utf8', (o,))
            if name in ('upper', 'lower', 'strip'):
                return o
            raise Unsupported('digest.' + name)
        W = strs.ws_mask
        if any(x is TOP for x in args):
            st.taint('str.%s with unknown argument' % name)
            return TOP
        if name in ('strip', 'lstrip', 'rstrip'):
            S = W() if not args or args[0] is None else self.charset_arg(st, args[0])
            if name != 'rstrip':
                o = strs.lstrip(st, o, S)
            if name != 'lstrip':
                o = strs.rstrip(st, o, S)
            return o
        if name == 'lower':
            return self.case(st, o, hom_lower())
        if name == 'upper':
            return self.case(st, o, hom_upper())
        if name == 'casefold':
            return self.case(st, o, hom_casefold())
        if name == 'replace':
            cnt = self.con(st, args[2]) if len(args) > 2 else kw.get('count', -1)
            if not is_str(args[0]) or not is_str(args[1]):
                raise PyExc('TypeError', 'replace() argument must be str')
            return strs.replace(st, o, args[0], args[1], cnt)
        if name in ('startswith', 'endswith'):
            p = args[0]
            if len(args) > 1:
                o = self.subscr(vm, st, o, Slice(args[1], args[2] if len(args) > 2 else None, None))
            f = strs.startswith if name == 'startswith' else strs.endswith
            ps = p if p.__class__ is tuple else (p,)
            q = st.res(o) if o.__class__ is AStr else ()
            if len(q) == 1 and q[0].__class__ is tuple and q[0][1] is not None and st.segs[q[0][0]][1:] == (1, 1) and all(x.__class__ is str for x in ps):
                # a function of one char with constant outputs
                sid, h, _ = q[0]
                cs = st.segs[sid][0]
                if all(h.table.get(a).__class__ is str for a in chars.AT.atoms_in(cs)):
                    yes = no = 0
                    for a in chars.AT.atoms_in(cs):
                        if getattr(h.table[a], name)(tuple(ps)):
                            yes |= 1 << a
                        else:
                            no |= 1 << a
                    if not no:
                        return True
                    if not yes:
                        return False
                    raise Fork([lambda s: s.restrict(sid, yes), lambda s: s.restrict(sid, no)], name)
            for x in ps:
                if not is_str(x):
                    raise PyExc('TypeError', '%s first arg must be str or a tuple of str' % name)
                if f(st, o, x)[0]:
                    return True
            return False
        if name in ('find', 'index', 'rfind', 'rindex'):
            base = 0
            src = o
            if len(args) == 1 and name in ('find', 'rfind') and args[0].__class__ is AStr:
                recv = self.con(st, o)
                p = st.res(args[0])
                if recv.__class__ is str and len(p) == 1 and p[0].__class__ is tuple and p[0][1] is None and st.segs[p[0][0]][1:] == (1, 1):
                    A = chars.AT
                    here = {A.atom(c) for c in recv}
                    tab = {}
                    for a in A.atoms_in(st.segs[p[0][0]][0]):
                        if a not in here:
                            tab[a] = -1
                        elif A.n_of[a] == 1:
                            tab[a] = getattr(recv, name)(A.rep[a])
                        else:
                            tab = None
                            break
                    if tab is not None:
                        vals = set(tab.values())
                        return vals.pop() if len(vals) == 1 else CharInt(p[0], tab)
            if len(args) > 1:
                a = self.to_lin(st, args[1]) if args[1] is not None else 0
                b = self.to_lin(st, args[2]) if len(args) > 2 and args[2] is not None else None
                n = self.length(vm, st, o)
                if not st.decide_ge0(a):
                    a = add(a, n)
                    if not st.decide_ge0(a):
                        a = 0
                if not st.decide_ge0(sub(n, a)):
                    if name in ('index', 'rindex'):
                        raise PyExc('ValueError', 'substring not found')
                    return -1
                src = self.subscr(vm, st, o, Slice(a, b, None))
                base = a
            r = (strs.find_parts if name in ('find', 'index') else strs.rfind_parts)(st, src, args[0])
            if r is None:
                if name in ('index', 'rindex'):
                    raise PyExc('ValueError', 'substring not found')
                return -1
            return st.norm(add(base, st.length(from_parts(r[0]))))
        if name in ('split', 'rsplit'):
            sep = args[0] if args else kw.get('sep')
            mx = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
            mx = self.con(st, mx)
            if sep is not None and not self.truth(vm, st, sep):
                raise PyExc('ValueError', 'empty separator')
            if name == 'rsplit' and mx >= 0:
                out = []
                cur = o
                while mx > 0:
                    if sep is None:
                        raise Unsupported('rsplit')
                    r = strs.rfind_parts(st, cur, sep)
                    if r is None:
                        break
                    out.insert(0, from_parts(r[1]))
                    cur = from_parts(r[0])
                    mx -= 1
                out.insert(0, cur)
                return st.alloc(LObj(out))
            return st.alloc(LObj(strs.split(st, o, sep, mx)))
        if name == 'splitlines':
            k = args[0] if args else kw.get('keepends', False)
            return st.alloc(LObj(strs.splitlines(st, o, bool(self.con(st, k)))))
        if name == 'partition' or name == 'rpartition':
            r = (strs.find_parts if name == 'partition' else strs.rfind_parts)(st, o, args[0])
            if r is None:
                return (o, '', '') if name == 'partition' else ('', '', o)
            return (from_parts(r[0]), args[0], from_parts(st.resp(r[1])))
        if name == 'count':
            n = 0
            nd = self.con(st, args[0])
            if nd.__class__ is str and len(nd) == 1 and len(args) == 1:
                # length difference under deletion
                keep = strs.apply_hom(st, o, hom_sub(1 << chars.AT.atom(nd), ''))
                return st.norm(sub(self.length(vm, st, o), self.length(vm, st, keep)))
            cur = o
            while True:
                r = strs.find_parts(st, cur, args[0])
                if r is None:
                    return n
                n += 1
                cur = from_parts(r[1])
        if name == 'join':
            items = self.iter_items(st, args[0])
            if items is None:
                v = args[0]
                if v.__class__ is AStr or (v.__class__ is Ref and st.get(v).__class__ is LObj):
                    s = v if v.__class__ is AStr else self.chars_str(st.get(v).items)
                    if self.con(st, o) == '':
                        return st.rv(s) if s.__class__ is AStr else s
                    raise Unsupported('join of abstract characters')
                return CallPy(self.prelude(st, '_join'), [o] + list(args), kw)
            out = []
            for i, x in enumerate(items):
                if x.__class__ is Term:
                    raise Unsupported('join of digest')
                if x is TOP:
                    st.taint('join of unknown')
                    return TOP
                if not is_str(x):
                    raise PyExc('TypeError', 'sequence item %d: expected str instance, %s found' % (i, self.tname(st, x)))
                if i and o != '':
                    out.append(parts_of(o))
                out.append(parts_of(x))
            return from_parts(concat_parts(*out))
        if name == 'encode':
            return self.str_encode(st, o, *args, **kw)
        if name in ('isspace', 'isalpha', 'isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isprintable', 'isascii'):
            S = chars.AT.pred(name, getattr(str, name))
            r = strs.all_in(st, o, S)
            if r is None:
                return name in ('isprintable', 'isascii')
            return r
        if name in ('isupper', 'islower'):
            up = chars.AT.pred('isupper', str.isupper)
            lo = chars.AT.pred('islower', str.islower)
            ti = chars.AT.pred('istitle1', lambda c: c.istitle() and not c.isupper())
            good, bad = (up, lo | ti) if name == 'isupper' else (lo, up | ti)
            if strs.scan(st, st.res(o), bad) is not None:
                return False
            return strs.scan(st, st.res(o), good) is not None
        if name == 'removeprefix':
            ok, rem = strs.startswith(st, o, args[0])
            return from_parts(st.resp(rem)) if ok else o
        if name == 'removesuffix':
            ok, rem = strs.endswith(st, o, args[0])
            return from_parts(st.resp(rem)) if ok else o
        if name in ('ljust', 'rjust', 'zfill', 'center'):
            w = self.to_lin(st, args[0])
            fill = args[1] if len(args) > 1 else ('0' if name == 'zfill' else ' ')
            n = st.length(o)
            d = st.norm(sub(w, n))
            if not st.decide_ge0(d):
                return o
            f = self.str_mul(st, fill, d)
            if name == 'ljust':
                return strs.cat(o, f)
            if name == 'center':
                raise Unsupported('center')
            return strs.cat(f, o)
        if name == 'format':
            raise Unsupported('abstract format string')
        if name == 'translate':
            return self.translate(vm, st, o, args[0])
        if name == 'expandtabs':
            if strs.scan(st, st.res(o), chars.AT.cs('\t')) is None:
                return o
            raise Unsupported('expandtabs')
        if name in ('capitalize', 'title', 'swapcase', 'istitle'):
            if name == 'capitalize':
                c, rest = strs.first_char(st, st.res(o))
                if c == '':
                    return ''
                return strs.cat(self.case(st, c, hom_upper()), self.case(st, from_parts(rest), hom_lower()))
            raise Unsupported('str.' + name)
        if name == 'isidentifier':
            raise Unsupported('isidentifier')
        if name == '__len__':
            return self.length(vm, st, o)
        if name == '__contains__':
            return self.contains(vm, st, o, args[0])
        if name == '__getitem__':
            return self.subscr(vm, st, o, args[0])
        if name in ('__eq__', '__ne__', '__lt__'):
            return self.compare(vm, st, {'__eq__': '==', '__ne__': '!=', '__lt__': '<'}[name], o, args[0])
        if name == '__add__':
            return self.binop(vm, st, 0, o, args[0])
        if name == '__mul__':
            return self.binop(vm, st, 5, o, args[0])
        if name == '__iter__':
            return self.get_iter(vm, st, o)
        if name == '__str__':
            return o
        raise Unsupported('str.' + name)

    def case(self, st, o, hom):
        if o.__class__ is str:
            return chars.hom_apply_str(hom, o)
        return strs.apply_hom(st, o, hom)

    def translate(self, vm, st, o, table):
        t = st.get(table)
        if t.__class__ is not DObj:
            raise Unsupported('translate')
        tab = {}
        for k, v in t.d.values():
            if k.__class__ is not int:
                continue
            v = self.con(st, v)
            if v is None:
                v = ''
            elif v.__class__ is int:
                v = chr(v)
            if v.__class__ is not str:
                raise Unsupported('translate')
            a = chars.AT.atom(chr(k))
            if chars.AT.n_of[a] != 1:
                raise Unsupported('translate')
            tab[a] = v
        return strs.apply_hom(st, o, chars.Hom.make(tab))

    def m_maketrans(self, vm, st, args, kw):
        a = [self.con(st, x) for x in args]
        if len(a) == 1:
            d = st.alloc(DObj())
            for k, v in st.get(a[0]).d.values():
                k = ord(k) if k.__class__ is str else k
                self.dict_set(st, d, k, v)
            return d
        return self.wrap(st, str.maketrans(*a))

    def m_from_bytes(self, vm, st, args, kw):
        if args[0].__class__ is Term:
            return Term('int', (args[0],))
        return int.from_bytes(*[self.con(st, a) for a in args], **kw)

    def m_chain_iter(self, vm, st, args, kw):
        return CallPy(self.prelude(st, '_chain_from_iterable'), args)

    def str_format(self, vm, st, f, args, kw):
        import string as _s
        out = []
        auto = 0
        for lit, field, spec, conv in _s.Formatter().parse(f):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                if field not in kw:
                    raise PyExc('KeyError', field)
                v = kw[field]
            else:
                import _string
                first, rest = _string.formatter_field_name_split(field)
                v = args[first] if first.__class__ is int else (kw[first] if first else args[auto])
                if first == '':
                    auto += 1
                for isattr, key in rest:
                    v = self.getattr(vm, st, v, key) if isattr else self.subscr(vm, st, v, key)
                    if v.__class__ is CallPy:
                        raise Unsupported('format field')
            if conv == 'r':
                v = self.to_repr(vm, st, v)
            elif conv == 's':
                v = self.to_str(vm, st, v)
            if spec and '{' in spec:
                raise Unsupported('nested format spec')
            v = self.format_value(vm, st, v, spec or '')
            if v is TOP:
                st.taint('format of unknown')
                return TOP
            if v.__class__ is Term:
                if len(out) and all(x.__class__ is str for x in out):
                    return Term('cat:' + ''.join(out), (v,))
                if not out:
                    return v
                raise Unsupported('format')
            out.append(v)
        return strs.cat(*out)

    # ------------------------------------------------------------- list methods
    def list_method(self, vm, st, o, x, name, args, kw):
        if name == 'append':
            if x.kind == 'deque' and False:
                pass
            st.w(o).items.append(args[0])
            return None
        if name == 'extend':
            items = self.iter_items(st, args[0])
            if items is None:
                if args[0].__class__ is AStr:
                    items = [CharsOf(st.res(args[0]))]
                else:
                    return CallPy(self.prelude(st, '_list_extend'), [o, args[0]])
            st.w(o).items.extend(items)
            return None
        if name in ('copy',):
            return st.alloc(x.clone())
        if name == 'clear':
            st.w(o).items.clear()
            return None
        if name == '__len__':
            return self.length(vm, st, o)
        if name == '__contains__':
            return self.contains(vm, st, o, args[0])
        if name == '__getitem__':
            return self.subscr(vm, st, o, args[0])
        if name == '__setitem__':
            return self.store_subscr(vm, st, o, args[0], args[1])
        if name == '__iter__':
            return self.get_iter(vm, st, o)
        if has_chars(x.items):
            if name == 'pop' and not args or name == 'pop' and self.con(st, args[0]) == -1:
                s = self.chars_str(x.items)
                c, rest = strs.first_char(st, st.res(s), True)
                if c == '':
                    raise PyExc('IndexError', 'pop from empty list')
                st.w(o).items[:] = [CharsOf(rest)] if rest else []
                return c
            if name == 'reverse':
                s = self.chars_str(x.items)
                st.w(o).items[:] = [CharsOf(strs.rev_parts(st, st.res(s)))]
                return None
            raise Unsupported('list.%s with abstract characters' % name)
        if name == 'pop':
            n = len(x.items)
            i = self.to_lin(st, args[0]) if args else -1
            if i.__class__ is AInt:
                i = st.enum(i)
            if n == 0:
                raise PyExc('IndexError', 'pop from empty list')
            if not -n <= i < n:
                raise PyExc('IndexError', 'pop index out of range')
            return st.w(o).items.pop(i)
        if name == 'popleft':
            if not x.items:
                raise PyExc('IndexError', 'pop from an empty deque')
            return st.w(o).items.pop(0)
        if name == 'appendleft':
            st.w(o).items.insert(0, args[0])
            return None
        if name == 'extendleft':
            for v in self.iter_items(st, args[0]):
                st.w(o).items.insert(0, v)
            return None
        if name == 'insert':
            i = self.to_lin(st, args[0])
            if i.__class__ is AInt:
                i = self.clamp(st, i, len(x.items))
            st.w(o).items.insert(i, args[1])
            return None
        if name == 'reverse':
            st.w(o).items.reverse()
            return None
        if name == 'index':
            lo = st.enum(self.to_lin(st, args[1])) if len(args) > 1 else 0
            for i in range(lo, len(x.items)):
                if self.eq(vm, st, x.items[i], args[0]):
                    return i
            raise PyExc('ValueError', 'is not in list')
        if name == 'count':
            return sum(1 for i in x.items if self.eq(vm, st, i, args[0]))
        if name == 'remove':
            for i, v in enumerate(x.items):
                if self.eq(vm, st, v, args[0]):
                    del st.w(o).items[i]
                    return None
            raise PyExc('ValueError', 'list.remove(x): x not in list')
        if name == 'sort':
            key = kw.get('key')
            rev = bool(self.con(st, kw.get('reverse', False)))
            if key is not None:
                return CallPy(self.prelude(st, '_sort_key'), [o, key, rev])
            r = self.sort_items(vm, st, list(x.items), rev)
            st.w(o).items[:] = r
            return None
        if name == 'rotate':
            n = st.enum(self.to_lin(st, args[0])) if args else 1
            w = st.w(o)
            if w.items:
                n %= len(w.items)
                w.items[:] = w.items[-n:] + w.items[:-n] if n else w.items
            return None
        raise Unsupported('list.' + name)

    # ------------------------------------------------------------- dict methods
    def dict_method(self, vm, st, o, x, name, args, kw):
        if name == 'get':
            v = self.dict_get(st, o, args[0])
            if v is UNSET:
                return args[1] if len(args) > 1 else kw.get('default')
            return v
        if name in ('keys', 'values', 'items'):
            return st.alloc(Box(name, {'d': o}))
        if name == 'setdefault':
            v = self.dict_get(st, o, args[0])
            if v is UNSET:
                v = args[1] if len(args) > 1 else None
                self.dict_set(st, o, args[0], v)
            return v
        if name == 'update':
            if args and x.kind == 'Counter':
                return CallPy(self.prelude(st, '_counter_update'), [o, args[0]])
            if args:
                a = args[0]
                if a.__class__ is Ref and st.get(a).__class__ is DObj:
                    for k, v in list(st.get(a).d.values()):
                        self.dict_set(st, o, k, v)
                else:
                    items = self.iter_items(st, a)
                    if items is None:
                        return CallPy(self.prelude(st, '_dict_update'), [o, a])
                    for p in items:
                        k, v = self.iter_items(st, p)
                        self.dict_set(st, o, k, v)
            for k, v in kw.items():
                self.dict_set(st, o, k, v)
            return None
        if name == 'pop':
            v = self.dict_get(st, o, args[0])
            if v is UNSET:
                if len(args) > 1:
                    return args[1]
                raise PyExc('KeyError', args[0])
            self.dict_del(st, o, args[0])
            return v
        if name == 'popitem':
            if not x.d:
                raise PyExc('KeyError', 'popitem(): dictionary is empty')
            w = st.w(o)
            ik = list(w.d)[-1]
            kv = w.d.pop(ik)
            return kv
        if name == 'copy':
            return st.alloc(x.clone())
        if name == 'clear':
            w = st.w(o)
            w.d.clear()
            w.nabs = 0
            return None
        if name == '__contains__':
            return self.dict_get(st, o, args[0]) is not UNSET
        if name == '__getitem__':
            return self.subscr(vm, st, o, args[0])
        if name == '__setitem__':
            return self.store_subscr(vm, st, o, args[0], args[1])
        if name == '__delitem__':
            return self.del_subscr(vm, st, o, args[0])
        if name == '__len__':
            return len(x.d)
        if name == '__iter__':
            return self.get_iter(vm, st, o)
        if name == 'fromkeys':
            return self.m_fromkeys(vm, st, args, kw)
        if name == 'move_to_end':
            w = st.w(o)
            ik = self.find_key(st, w, args[0])
            kv = w.d.pop(ik)
            w.d[ik] = kv
            return None
        if name == 'most_common':
            raise Unsupported('most_common')
        raise Unsupported('dict.' + name)

    def set_method(self, vm, st, o, x, name, args, kw):
        if name == 'add':
            self.set_add(st, o, args[0])
            return None
        if name in ('discard', 'remove'):
            ik = self.set_find(st, o, args[0])
            if ik is UNSET:
                if name == 'remove':
                    raise PyExc('KeyError', args[0])
                return None
            w = st.w(o)
            del w.d[ik]
            if ik.__class__ is tuple and len(ik) == 2 and ik[0] == '\0abs':
                w.nabs -= 1
            return None
        if name == 'copy':
            return st.alloc(x.clone())
        if name == 'clear':
            w = st.w(o)
            w.d.clear()
            w.nabs = 0
            return None
        if name == 'pop':
            if not x.d:
                raise PyExc('KeyError', 'pop from an empty set')
            if len(x.d) == 1:
                w = st.w(o)
                ik = list(w.d)[0]
                return w.d.pop(ik)
            raise Unsupported('set.pop order')
        if name in ('update', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset',
                    'isdisjoint', 'difference_update', 'intersection_update'):
            cur = o if name.endswith('update') else st.alloc(x.clone())
            for a in args:
                items = self.iter_items(st, a)
                if items is None:
                    raise Unsupported('set.' + name)
                b = self.make_set(st, items)
                if name in ('update', 'union'):
                    cur = self.set_op(vm, st, 7, cur, b, name == 'update')
                elif name.startswith('intersection'):
                    cur = self.set_op(vm, st, 1, cur, b, name.endswith('update'))
                elif name.startswith('difference'):
                    cur = self.set_op(vm, st, 10, cur, b, name.endswith('update'))
                elif name == 'symmetric_difference':
                    cur = self.set_op(vm, st, 12, cur, b, False)
                elif name == 'issubset':
                    return all(self.contains(vm, st, b, k) for k in list(x.d.values()))
                elif name == 'issuperset':
                    return all(self.contains(vm, st, o, k) for k in items)
                elif name == 'isdisjoint':
                    return not any(self.contains(vm, st, o, k) for k in items)
            return None if name.endswith('update') else cur
        if name == '__contains__':
            return self.contains(vm, st, o, args[0])
        if name == '__len__':
            return len(x.d)
        raise Unsupported('set.' + name)

    # =============================================================== misc interface
    def call_box(self, vm, st, ref, o, args, kw):
        return self.mods.call_box(self, vm, st, ref, o, args, kw)

    # =============================================================== imports
    def import_name(self, vm, st, fr, name, fromlist, level):
        if level:
            g = st.get(fr.g)
            pkg = g.f.get('__package__')
            if pkg is None:
                pkg = g.name.rpartition('.')[0]
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            base = '.'.join(parts)
            full = base + ('.' + name if name else '')
        else:
            full = name
        chain = full.split('.')
        mod = None
        for i in range(len(chain)):
            n = '.'.join(chain[:i + 1])
            m = self.load_module(vm, st, n)
            if m is PUSHED:
                return PUSHED
            if m is None:
                raise PyExc('ModuleNotFoundError', "No module named '%s'" % n)
            if mod is not None and mod.__class__ is Ref:
                pm = st.get(mod)
                if chain[i] not in pm.f:
                    st.w(mod).f[chain[i]] = m
            mod = m
        if fromlist:
            if mod.__class__ is Ref:
                for n in fromlist:
                    if n == '*' or n in st.get(mod).f:
                        continue
                    sub_ = self.load_module(vm, st, full + '.' + n, optional=True)
                    if sub_ is PUSHED:
                        return PUSHED
                    if sub_ is not None:
                        st.w(mod).f[n] = sub_
            return mod
        return self.load_module(vm, st, chain[0])

    def import_from(self, vm, st, m, name):
        if m.__class__ is OpaqueMod:
            return OpaqueMod(m.name + '.' + name)
        o = st.get(m)
        if name in o.f:
            return o.f[name]
        s = st.mods_.get(o.name + '.' + name)
        if s is not None:
            return s
        raise PyExc('ImportError', "cannot import name '%s' from '%s'" % (name, o.name))

    def source_of(self, name):
        """path of python source analysed for a module, or None"""
        rel = name.replace('.', '/')
        roots = []
        if name == 'md_toc' or name.startswith('md_toc.'):
            roots = [self.repo]
        elif name == 'fpyutils' or name.startswith('fpyutils.'):
            if name in ('fpyutils.filelines', 'fpyutils.exceptions'):
                return os.path.join(os.path.dirname(self.fpy), rel + '.py'), False
            if name == 'fpyutils':
                return os.path.join(os.path.dirname(__file__), 'fpyutils_pkg.py'), True
            return None
        elif name.split('.')[0] in self.mods.PY_STDLIB:
            roots = [os.path.dirname(os.__file__)]
        elif name.startswith('specs.') or name == 'specs':
            roots = [os.path.dirname(os.path.dirname(__file__))]
        for r in roots:
            p = os.path.join(r, rel + '.py')
            if os.path.isfile(p):
                return p, False
            p = os.path.join(r, rel, '__init__.py')
            if os.path.isfile(p):
                return p, True
        return None

    def load_module(self, vm, st, name, optional=False):
        m = st.mods_.get(name)
        if m is not None:
            return m
        s = self.source_of(name)
        if s is not None:
            path, ispkg = s
            ref = st.alloc(Mod(name, {'__name__': name, '__file__': path, '__package__': name if ispkg else name.rpartition('.')[0],
                                      '__doc__': None, '__spec__': None}, path))
            st.mods_ = dict(st.mods_)
            st.mods_[name] = ref
            co = self.codes.get(path)
            if co is None:
                try:
                    co = compile(open(path, encoding='utf-8').read(), path, 'exec', dont_inherit=True)
                except SyntaxError as e:
                    raise PyExc('SyntaxError', str(e))
                self.codes[path] = co
            vm.push_frame(st, Code.get(co), ref, [UNSET] * len(co.co_varnames), names=ref, ret='retry')
            return PUSHED
        if name.split('.')[0] == 'md_toc':
            return None
        r = self.mods.native_module(self, vm, st, name)
        if r is not None:
            st.mods_ = dict(st.mods_)
            st.mods_[name] = r
            return r
        if optional:
            return None
        self.extern.add(name)
        r = OpaqueMod(name)
        st.mods_ = dict(st.mods_)
        st.mods_[name] = r
        return r


class _Direct(int):
    pass


def masks_hit(st, x, S):
    m = strs.masks(st, x, S)
    return m is None or bool(m[0])


def vm_unsup(w):
    raise Unsupported(w)
