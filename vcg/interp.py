"""Interpreter of clang AST statements and expressions over symbolic states (mixed into Run)."""
import re
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, Int, ForAll, K
from .cast import *
from . import logic as lg
from .logic import I, D, Tree, Str, Snap
from .core import *

class LVv:    # scalar local variable
    def __init__(s, fr, vid, T): s.fr, s.vid, s.T = fr, vid, T
class LVb:    # element viewed inside of an untyped element (blob)
    pass

class Frame:
    def __init__(s, func): s.func = func; s.env = {}; s.cells = {}; s.names = {}; s.ret = None
    def copy(s):
        f = Frame(s.func); f.env = dict(s.env); f.cells = dict(s.cells); f.names = dict(s.names); return f

def kids(n): return [x for x in n.get('inner', []) if isinstance(x, dict)]
def strip(n):
    while n.get('kind') in ('ParenExpr',) or (n.get('kind') == 'UnaryOperator' and n.get('opcode') == '__extension__'): n = kids(n)[0]
    return n

def addr_taken(func):
    """ids of local variables whose address is taken (or that are aggregates)"""
    r = getattr(func, '_addr', None)
    if r is not None: return r
    r = set()
    def w(n):
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            x = strip(kids(n)[0])
            while x.get('kind') in ('MemberExpr', 'ArraySubscriptExpr', 'ImplicitCastExpr', 'ParenExpr') and not x.get('isArrow'): x = kids(x)[0]
            if x.get('kind') == 'DeclRefExpr': r.add(x['referencedDecl']['id'])
        for c in kids(n): w(c)
    w(func.body)
    func._addr = r
    return r

def is_fn(v): return z3.is_const(v) and v.decl().name().startswith('fn:')

def pure_simple(n):
    k = n.get('kind')
    if k in ('DeclRefExpr', 'IntegerLiteral', 'CharacterLiteral', 'FloatingLiteral', 'UnaryExprOrTypeTraitExpr', 'ConstantExpr'): return True
    if k == 'UnaryOperator' and n['opcode'] in ('!', '-', '~', '__extension__'): return pure_simple(kids(n)[0])
    if k == 'BinaryOperator' and n['opcode'] in ('<', '>', '<=', '>=', '==', '!=', '&&', '||', '+', '-'): return all(pure_simple(x) for x in kids(n))
    if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'): return all(pure_simple(x) for x in kids(n))
    return False

class Interp:
    # ------------------------------------------------------------ helpers
    def typ(self, n): return self.prog.type_of(n['type'])
    def setline(self, n):
        b = n.get('range', {}).get('begin', {})
        l = b.get('line') or b.get('expansionLoc', {}).get('line')
        if l: self.curline = l
    def coerce(self, v, T, S=None):
        """value v (of type S) converted to type T"""
        if T[0] == 'bool':
            return to_bool(v)
        if T[0] == 'int':
            if z3.is_fp(v):
                r = lg.d2i(v); rc = self.range_of(r, T)
                self.e.notes.add('conversion of a floating-point value to an integer: result taken to be in range of the type')
                self.assume(rc); return r
            v = to_int(v)
            if S is not None and S[0] == 'bool': return v
            if S is not None and S[0] == 'int':
                lo, hi = (-2**(S[1]-1), 2**(S[1]-1)) if S[2] else (0, 2**S[1])
                lo2, hi2 = (-2**(T[1]-1), 2**(T[1]-1)) if T[2] else (0, 2**T[1])
                if lo2 <= lo and hi <= hi2: return v
            return self.wrap(v, T)
        if T[0] == 'double':
            if z3.is_fp(v): return v
            return self.i2d(to_int(v))
        if T[0] in ('ptr',): return to_int(v) if isinstance(v, z3.ExprRef) else v
        return v
    def i2d(self, v):
        s = z3.simplify(v)
        if z3.is_int_value(s): return z3.FPVal(float(s.as_long()), D)
        if z3.is_app_of(s, z3.Z3_OP_ITE): return If(s.arg(0), self.i2d(s.arg(1)), self.i2d(s.arg(2)))
        return lg.i2d(v)
    def wrap(self, v, T):
        """integer v reduced to the range of integer type T (exact)"""
        s = z3.simplify(v)
        lo, hi = (-2**(T[1]-1), 2**(T[1]-1)) if T[2] else (0, 2**T[1])
        if z3.is_int_value(s):
            x = (s.as_long() - lo) % (hi - lo) + lo
            return IntVal(x)
        if self.valid(And(v >= lo, v < hi), 800): return v
        if not T[2] and self.valid(And(v >= -hi, v < 2 * hi), 300):
            if self.valid(v < hi, 300): return If(v < 0, v + hi, v)
            if self.valid(v >= 0, 300): return If(v >= hi, v - hi, v)
            return If(v < 0, v + hi, If(v >= hi, v - hi, v))
        self.e.notes.add('integer arithmetic whose range could not be bounded is treated as mathematical (line %s)' % self.curline)
        return v
    def fn_const(self, name):
        c = z3.Const('fn:' + name, I)
        if ('fnc', name) not in self.ghost:
            self.ghost[('fnc', name)] = True
            self.assume(And(c > 0, c < lg.PTRMAX))
            for k in list(self.ghost):
                if isinstance(k, tuple) and k[0] == 'fnc' and k[1] != name: self.assume(c != z3.Const('fn:' + k[1], I))
        return c
    def fn_ref(self, name):
        fn = self.prog.find(self.frame().func.file, name)
        return self.fn_const(name + '@' + fn.file) if fn is not None and fn.static else self.fn_const(name)
    def fn_val(self, name, file):
        fn = self.prog.find(file, name)
        return self.fn_const(name + '@' + fn.file) if fn is not None and fn.static else self.fn_const(name)
    def str_lit(self, s):
        k = ('lit', s)
        if k in self.ghost: return self.ghost[k]
        a = z3.Const('&lit:%s' % s.hex(), I); sv = z3.Const('lit:%s' % s.hex(), Str)
        self.assume(And(a > 0, a < lg.PTRMAX)); self.assume(lg.slen(sv) == len(s))
        for i, ch in enumerate(s[:80]):
            self.assume(lg.sch(sv, IntVal(i)) == (ch if ch < 128 else ch - 256))
        self.assume(lg.sch(sv, IntVal(len(s))) == 0)
        self.add(StrC(a, sv, True))
        self.ghost[k] = a
        return a

    # ------------------------------------------------------------ variables
    def frame(self): return self.frames[-1]
    def declare(self, n, init=None, has_init=False):
        T = self.typ(n); fr = self.frame(); vid = n['id']; fr.names[vid] = n.get('name')
        if n.get('storageClass') == 'static': raise Unsupported('static local variable')
        if T[0] in ('rec', 'arr') or vid in addr_taken(fr.func):
            if T[0] == 'arr' and T[2] is None:
                # variable length array: size from the type's size expression is not in the JSON
                raise Unsupported('variable length array')
            b = self.fresh('&' + n.get('name', ''), I)
            self.assume(And(b > 0, b + self.prog.size(T) < lg.PTRMAX))
            v = init if has_init else self.fresh_val(T, n.get('name', 'v'))
            fr.cells[vid] = self.add(Obj(b, T, v, 'local'))
            fr.env.pop(vid, None)
        else:
            if has_init: fr.env[vid] = init
            else: fr.env[vid] = self.fresh_val(T, n.get('name', 'v'))
            fr.cells.pop(vid, None)
        return vid
    def undeclare(self, vid):
        fr = self.frame()
        cid = fr.cells.pop(vid, None)
        if cid is not None: self.heap.pop(cid, None)
        fr.env.pop(vid, None)

    def global_lv(self, name, T):
        k = ('glob', name)
        if k in self.ghost: 
            return LVc(self.ghost[k], [], T)
        g = self.prog.globals.get(name)
        a = z3.Const('&g:' + name, I)
        for cid, c in self.heap.items():
            if isinstance(c, Obj) and c.base.eq(a): return LVc(cid, [], T)
        if g is None and name not in ('stdout', 'stderr', 'stdin'): raise Unsupported('global ' + name)
        g = g or {'type': {'qualType': ''}}
        if 'const' in g['type']['qualType'] and 'init' in g:
            if T[0] == 'arr' and T[2] is None: T = self.typ(g)
            self.assume(And(a > 0, a < lg.PTRMAX))
            ini = [x for x in kids(g) if 'kind' in x][-1]
            v = self.init_value(ini, T)
            cid = self.add(Obj(a, T, v, 'global', True)); self.ghost[k] = cid
            return LVc(cid, [], T)
        if name in ('stdout', 'stderr', 'stdin'):
            self.assume(And(a > 0, a < lg.PTRMAX))
            cid = self.add(Obj(a, T, self.fresh_val(T, name), 'global', True)); self.ghost[k] = cid
            return LVc(cid, [], T)
        raise Unsupported('global variable %s is not covered by the contract' % name)
    def global_addr(self, name):
        a = z3.Const('&g:' + name, I)
        if ('gaddr', name) not in self.ghost:
            self.ghost[('gaddr', name)] = 1
            self.assume(And(a > 0, a < lg.PTRMAX))
        return a

    # ------------------------------------------------------------ lvalues
    def lv(self, n):
        n = strip(n); k = n['kind']
        if k == 'DeclRefExpr':
            d = n['referencedDecl']; vid = d['id']
            if d['kind'] == 'FunctionDecl': return LVfn(d['name'])
            fr = self.frame()
            if vid in fr.env: return LVv(fr, vid, self.typ(n))
            if vid in fr.cells:
                return LVc(fr.cells[vid], [], self.typ(n))
            return self.global_lv(d['name'], self.typ(n))
        if k == 'MemberExpr':
            T = self.typ(n)
            if n.get('isArrow'):
                b = kids(n)[0]
                p = self.ev(b)
                bt = self.typ(b)
                rec = bt[1] if bt[0] == 'ptr' else bt
                return self.member(p, rec, n['name'], T)
            base = self.lv_or_val(kids(n)[0])
            return self.sub_lv(base, n['name'], T)
        if k == 'ArraySubscriptExpr':
            a, i = kids(n)
            T = self.typ(n)
            iv = to_int(self.ev(i)); 
            an = strip(a)
            if an['kind'] == 'ImplicitCastExpr' and an.get('castKind') == 'ArrayToPointerDecay':
                base = self.lv_or_val(kids(an)[0])
                if isinstance(base, LVc):
                    if base.path and base.path[-1][0] == 'f' and base.T[0] == 'arr' and base.T[2] is None:
                        return self.resolve(lin_norm(self.addr(base) + self.prog.size(T) * iv), T)
                    return LVc(base.cid, base.path + [('i', iv)], T)
                if isinstance(base, LVt):
                    return LVt(base.p, base.field, iv if base.idx is None else base.idx + iv, T, base.off)
                if isinstance(base, tuple): return ('val', self.getv(base[1], [('i', iv)]), T)
            p = self.ev(a)
            return self.resolve(p + self.prog.size(T) * iv, T)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev(kids(n)[0])
            if is_fn(p): return LVfn(p.decl().name()[3:])
            return self.resolve(p, self.typ(n))
        if k == 'CompoundLiteralExpr':
            T = self.typ(n)
            v = self.init_value(kids(n)[0], T)
            b = self.fresh('&lit', I); self.assume(And(b > 0, b + self.prog.size(T) < lg.PTRMAX))
            cid = self.add(Obj(b, T, v, 'local'))
            self.frame().cells[('lit', cid)] = cid
            if self.scopes: self.scopes[-1].append(('lit', cid))      # lifetime: the enclosing block
            return LVc(cid, [], T)
        if k == 'StringLiteral':
            s = self.lit_bytes(n); a = self.str_lit(s)
            return self.resolve(a, CHAR)
        if k in ('CStyleCastExpr', 'ImplicitCastExpr') : return self.lv(kids(n)[0])
        if k == 'PredefinedExpr':
            return self.resolve(self.str_lit(b'function'), CHAR)
        raise Unsupported('lvalue ' + k)
    def lv_or_val(self, n):
        n = strip(n)
        if n.get('valueCategory') == 'lvalue' or n['kind'] in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'UnaryOperator', 'CompoundLiteralExpr'):
            if n['kind'] not in ('CallExpr', 'ImplicitCastExpr', 'ConditionalOperator'): return self.lv(n)
        return ('val', self.ev(n), self.typ(n))
    def sub_lv(self, base, f, T):
        if isinstance(base, tuple): return ('val', base[1][f], T)
        if isinstance(base, LVc): return LVc(base.cid, base.path + [('f', f)], T)
        if isinstance(base, LVt): return self.tree_field(base.p, base.T, f, T)
        if isinstance(base, LVop): return LVop(base.p, f, T)
        raise Unsupported('member of ' + type(base).__name__)
    def tree_field(self, p, rec, f, T):
        if f == 'base': return LVt(p, None, None, T, 0)
        off = self.node_off(rec[1], f)
        return LVt(p, f, None, T, off)
    def member(self, p, rec, f, T):
        p = lin_norm(p)
        l = self.resolve(p, rec)
        return self.sub_lv(l, f, T)

    def load(self, lv):
        if isinstance(lv, tuple): return lv[1]
        if isinstance(lv, LVv): return lv.fr.env[lv.vid]
        return Interp.base_load(self, lv)
    def store(self, lv, v):
        if isinstance(lv, LVv):
            lv.fr.env[lv.vid] = v; return
        return Interp.base_store(self, lv, v)

    # ------------------------------------------------------------ expressions
    def lit_bytes(self, n):
        v = n['value']
        s = eval('b' + v) if v.startswith('"') else v.encode()
        return s
    def init_value(self, n, T):
        n0 = strip(n)
        if n0['kind'] == 'InitListExpr':
            T = self.typ(n0) if T is None else T
            if T[0] == 'rec':
                fs = self.prog.fields(T[1]); r = {}
                ch = kids(n0)
                for i, (f, ft) in enumerate(fs):
                    if ft[0] == 'arr' and ft[2] is None: continue
                    r[f] = self.init_value(ch[i], ft) if i < len(ch) else self.zero_val(ft)
                return r
            if T[0] == 'arr':
                ch = [c for c in kids(n0)]
                fill = n0.get('array_filler')
                if fill is not None: ch = [c for c in fill if isinstance(c, dict)][1:] if isinstance(fill, list) else ch
                av = AV(T[1], T[2], self.const_lift(self.zero_val(T[1])))
                for i, c in enumerate(ch):
                    if c['kind'] == 'ImplicitValueInitExpr': continue
                    v = self.init_value(c, T[1])
                    av = AV(T[1], T[2], vzip(av.tree, v, lambda a, x: Store(a, IntVal(i), to_int(x) if z3.is_bool(x) else x)))
                return av
            return self.coerce(self.ev(kids(n0)[0]), T, self.typ(kids(n0)[0]))
        if n0['kind'] == 'ImplicitValueInitExpr': return self.zero_val(T)
        if n0['kind'] == 'StringLiteral' and T[0] == 'arr':
            s = self.lit_bytes(n0) + b'\0'; a = K(I, IntVal(0))
            for i, ch in enumerate(s[:T[2]]): a = Store(a, IntVal(i), IntVal(ch if ch < 128 else ch - 256))
            return AV(T[1], T[2], a)
        return self.coerce(self.ev(n0), T, self.typ(n0)) if T[0] in ('int', 'bool', 'double', 'ptr') else self.ev(n0)

    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        self.setline(n)
        return m(n)
    def ev_ParenExpr(self, n): return self.ev(kids(n)[0])
    def ev_ConstantExpr(self, n):
        if 'value' in n: return IntVal(int(n['value']))
        return self.ev(kids(n)[0])
    def ev_IntegerLiteral(self, n): return IntVal(int(n['value']))
    def ev_CharacterLiteral(self, n):
        v = int(n['value'])
        return IntVal(v)
    def ev_FloatingLiteral(self, n): return z3.FPVal(float(n['value']), D)
    def ev_StringLiteral(self, n): return self.str_lit(self.lit_bytes(n))
    def ev_PredefinedExpr(self, n): return self.str_lit(b'function')
    def ev_ImplicitValueInitExpr(self, n): return self.zero_val(self.typ(n))
    def ev_InitListExpr(self, n): return self.init_value(n, self.typ(n))
    def ev_CompoundLiteralExpr(self, n): return self.init_value(kids(n)[0], self.typ(n))
    def ev_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl': return IntVal(self.prog.enumconst[d['name']])
        if d['kind'] == 'FunctionDecl': return self.fn_ref(d['name'])
        return self.load(self.lv(n))
    def ev_MemberExpr(self, n): return self.load(self.lv(n))
    def ev_ArraySubscriptExpr(self, n): return self.load(self.lv(n))
    def ev_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof': raise Unsupported('type trait')
        if 'argType' in n: return IntVal(self.prog.size(self.prog.type_of(n['argType'])))
        return IntVal(self.prog.size(self.typ(kids(n)[0])))
    def ev_ImplicitCastExpr(self, n):
        ck = n['castKind']; x = kids(n)[0]
        T = self.typ(n)
        if ck == 'LValueToRValue':
            l = self.lv(x)
            return self.load(l)
        if ck == 'ArrayToPointerDecay' and self.typ(x) == VALIST: return self.load(self.lv(x))
        if ck == 'ArrayToPointerDecay':
            xs = strip(x)
            if xs['kind'] == 'StringLiteral': return self.str_lit(self.lit_bytes(xs))
            if xs['kind'] == 'PredefinedExpr': return self.str_lit(b'function')
            if xs['kind'] == 'MemberExpr' and xs.get('isArrow'):
                p = self.ev(kids(xs)[0]); rec = self.typ(kids(xs)[0])[1]
                if rec[0] == 'rec': return lin_norm(p + self.prog.layout(rec[1])[0][xs['name']][0])
            return self.addr(self.lv(xs))
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            xs = strip(x)
            if xs['kind'] == 'DeclRefExpr' and xs['referencedDecl']['kind'] == 'FunctionDecl': return self.fn_ref(xs['referencedDecl']['name'])
            return self.ev(xs)
        if ck == 'NullToPointer': return IntVal(0)
        if ck in ('NoOp', 'BitCast', 'PointerToIntegral', 'IntegralToPointer'): return self.ev(x)
        if ck == 'ToVoid':
            self.ev(x); return None
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'): return to_bool(self.ev(x))
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'BooleanToSignedIntegral'):
            return self.coerce(self.ev(x), T, self.typ(x))
        if ck == 'FloatingCast': return self.ev(x)
        raise Unsupported('cast ' + ck)
    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def ev_UnaryOperator(self, n):
        op = n['opcode']; x = kids(n)[0]; T = self.typ(n)
        if op == '&':
            xs = strip(x)
            if xs['kind'] == 'ArraySubscriptExpr':
                # &a[i] may point one past the end: compute the address without access
                a, i = kids(xs)
                an = strip(a)
                if not (an['kind'] == 'ImplicitCastExpr' and an.get('castKind') == 'ArrayToPointerDecay'):
                    return lin_norm(self.ev(a) + self.prog.size(self.typ(xs)) * to_int(self.ev(i)))
            if xs['kind'] == 'MemberExpr' and xs.get('isArrow'):
                p = self.ev(kids(xs)[0]); rec = self.typ(kids(xs)[0])[1]
                if rec[0] == 'rec':
                    return lin_norm(p + self.prog.layout(rec[1])[0][xs['name']][0])
            if xs['kind'] == 'UnaryOperator' and xs['opcode'] == '*': return self.ev(kids(xs)[0])
            l = self.lv(xs)
            if isinstance(l, LVfn): return self.fn_ref(l.fn)
            return self.addr(l)
        if op == '*':
            return self.load(self.lv(n))
        if op == '!':
            return z3.simplify(Not(to_bool(self.ev(x))))
        if op == '-':
            v = self.ev(x)
            if z3.is_fp(v): return z3.simplify(z3.fpNeg(v)) if z3.is_fp_value(v) else z3.fpNeg(v)
            return self.arith(IntVal(0), v, '-', T)
        if op == '+': return self.ev(x)
        if op == '~': raise Unsupported('bitwise not')
        if op == '__extension__': return self.ev(x)
        if op in ('++', '--'):
            l = self.lv(x); XT = self.typ(x)
            old = self.load(l)
            if XT[0] == 'ptr': new = lin_norm(old + (1 if op == '++' else -1) * self.prog.size(XT[1]))
            elif z3.is_fp(old): new = lg.DAdd(old, z3.FPVal(1.0 if op == '++' else -1.0, D))
            else: new = self.arith(to_int(old), IntVal(1), '+' if op == '++' else '-', XT)
            self.store(l, new)
            return old if n.get('isPostfix') else new
        raise Unsupported('unary ' + op)

    def arith(self, a, b, op, T):
        if z3.is_fp(a) or z3.is_fp(b):
            if not z3.is_fp(a): a = self.i2d(to_int(a))
            if not z3.is_fp(b): b = self.i2d(to_int(b))
            if z3.is_fp_value(z3.simplify(a)) and z3.is_fp_value(z3.simplify(b)):
                f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
                return z3.simplify(f(RM, a, b))
            return {'+': lg.DAdd, '-': lg.dsub, '*': lg.DMul, '/': lg.ddiv}[op](a, b)
        a, b = to_int(a), to_int(b)
        if op == '+': r = lin_norm(a + b)
        elif op == '-': r = lin_norm(a - b)
        elif op == '*': r = lin_norm(a * b)
        elif op in ('/', '%'):
            self.prove(b != 0, 'divisor is not zero')
            if not (self.valid(a >= 0) and self.valid(b > 0)):
                # C truncates towards zero
                q = If((a >= 0) == (b > 0), If(a >= 0, a / b, (-a) / (-b)), -(If(a >= 0, a / (-b), (-a) / b)))
                return q if op == '/' else a - b * q
            if not z3.is_int_value(z3.simplify(b)):
                q = self.fresh('mod' if op == '%' else 'div', I)
                self.assume(q == (a % b if op == '%' else a / b)); self.assume(And(0 <= q, q < b) if op == '%' else And(0 <= q, q <= a))
                return q
            return a / b if op == '/' else a % b
        else: raise Unsupported('operator ' + op)
        if T[0] == 'int':
            if T[2]:
                rs = z3.simplify(r)
                if not z3.is_int_value(rs):
                    lo, hi = -2**(T[1]-1), 2**(T[1]-1)
                    if not self.valid(And(r >= lo, r < hi), 800):
                        self.e.notes.add('signed arithmetic taken not to overflow (line %s)' % self.curline)
                        self.assume(And(r >= lo, r < hi))
                return r
            if op == '*' and not z3.is_int_value(z3.simplify(a)) and not z3.is_int_value(z3.simplify(b)):
                self.e.notes.add('product of two sizes treated as mathematical (no wrap-around)')
                return r
            return self.wrap(r, T)
        return r
    def bitop(self, a, b, op, T):
        a, b = z3.simplify(to_int(a)), z3.simplify(to_int(b))
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            r = {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op]
            return IntVal(r)
        if op == '<<' and z3.is_int_value(b): return self.wrap(a * 2**b.as_long(), T)
        if op == '>>' and z3.is_int_value(b): return a / 2**b.as_long()
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y):
                    m = y.as_long()
                    if m > 0 and m & (m - 1) == 0: return (x / m % 2) * m
                    if m >= 0 and m & (m + 1) == 0: return x % (m + 1)
        f = z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], I, I, I)
        r = f(a, b); rc = self.range_of(r, T)
        if rc is not None: self.assume(rc)
        return r
    def ev_BinaryOperator(self, n):
        op = n['opcode']; a, b = kids(n); T = self.typ(n)
        if op == ',':
            self.ev(a); return self.ev(b)
        if op == '=':
            l = None
            bs = strip(b)
            # C leaves the order open; evaluate the right side first unless the left has the calls
            l_first = self.has_call(a)
            if l_first and not self.has_call(b):
                v = self.ev(b); l = self.lv(a)
            elif l_first:
                v = self.ev(b); l = self.lv(a)
            else:
                v = self.ev(b); l = self.lv(a)
            if T[0] == 'bool': v = to_bool(v)
            self.store(l, v)
            return v
        if op in ('&&', '||'):
            if pure_simple(b):
                x = to_bool(self.ev(a)); y = to_bool(self.ev(b))
                return z3.simplify(And(x, y) if op == '&&' else Or(x, y))
            x = self.branch(to_bool(self.ev(a)))
            if op == '&&': return to_bool(self.ev(b)) if x else FALSE
            return TRUE if x else to_bool(self.ev(b))
        x = self.ev(a); y = self.ev(b)
        AT, BT = self.typ(a), self.typ(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(x, y, op)
        if op in ('+', '-') and (AT[0] in ('ptr', 'arr') or BT[0] in ('ptr', 'arr')):
            if AT[0] in ('ptr', 'arr') and BT[0] in ('ptr', 'arr'):
                sz = self.prog.size(AT[1]); d = Lin.of(lin_norm(to_int(x) - to_int(y)))
                if all(co % sz == 0 for _, co in d[0].values()) and d[1] % sz == 0:
                    return Lin.term(({k: (t, co // sz) for k, (t, co) in d[0].items()}, d[1] // sz))
                return (x - y) / sz
            if BT[0] in ('ptr', 'arr'): x, y, AT, BT = y, x, BT, AT
            sz = self.prog.size(AT[1])
            return lin_norm(x + sz * to_int(y) if op == '+' else x - sz * to_int(y))
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(x, y, op, T)
        return self.arith(x, y, op, T)
    def has_call(self, n):
        if n.get('kind') == 'CallExpr': return True
        return any(self.has_call(x) for x in kids(n))
    def compare(self, x, y, op):
        if z3.is_fp(x) or z3.is_fp(y):
            if not z3.is_fp(x): x = self.i2d(to_int(x))
            if not z3.is_fp(y): y = self.i2d(to_int(y))
            f = {'==': z3.fpEQ, '!=': z3.fpNEQ, '<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ}[op]
            return f(x, y)
        if z3.is_bool(x) and z3.is_bool(y) and op in ('==', '!='):
            return x == y if op == '==' else x != y
        x, y = to_int(x), to_int(y)
        if op == '==' : 
            if z3.is_int_value(y) and y.as_long() == 0 and is_fn(x): return FALSE
            return x == y
        if op == '!=': return x != y
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
    def ev_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]; a, b = kids(n)
        y = self.ev(b); l = self.lv(a); x = self.load(l); T = self.typ(a)
        if T[0] == 'ptr':
            r = lin_norm(x + (self.prog.size(T[1]) if op == '+' else -self.prog.size(T[1])) * to_int(y))
        elif op in ('&', '|', '^', '<<', '>>'): r = self.bitop(x, y, op, T)
        else:
            CT = self.prog.type_of(n['computeResultType']) if 'computeResultType' in n else T
            r = self.arith(x, y, op, CT)
            r = self.coerce(r, T, CT)
        self.store(l, r); return r
    def ev_ConditionalOperator(self, n):
        c, a, b = kids(n)
        cv = to_bool(self.ev(c))
        if pure_simple(a) and pure_simple(b):
            x, y = self.ev(a), self.ev(b)
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                cs = z3.simplify(cv)
                if z3.is_true(cs): return x
                if z3.is_false(cs): return y
                if x.eq(y): return x
                if z3.is_bool(x) != z3.is_bool(y): x, y = to_int(x), to_int(y)
                if x.sort() == y.sort(): return If(cv, x, y)
        return self.ev(a) if self.branch(cv) else self.ev(b)
    def ev_StmtExpr(self, n):
        c = kids(n)[0]
        r = None
        for s in kids(c):
            if s['kind'].endswith('Expr') or s['kind'].endswith('Operator') or s['kind'].endswith('Literal'): r = self.ev(s)
            else: self.ex(s)
        return r
    def ev_VAArgExpr(self, n):
        va = self.ghost.get(('va', len(self.frames)))
        T = self.typ(n)
        if va is None or T[0] not in ('ptr', 'int'): raise Unsupported('va_arg')
        x = kids(n)[0]
        while x['kind'] == 'ImplicitCastExpr': x = kids(x)[0]
        l = self.lv(x); k = self.load(l)
        self.prove(k >= 0, 'variable arguments are started')
        self.store(l, lin_norm(k + 1))
        return lin_norm(Select(va, k))
    def ev_CallExpr(self, n):
        ks = kids(n)
        f = self.ev(ks[0])
        args = []
        if is_fn(f) and f.decl().name() in ('fn:__builtin_va_start', 'fn:va_start'):
            x = ks[1]
            while x['kind'] == 'ImplicitCastExpr': x = kids(x)[0]
            self.store(self.lv(x), IntVal(0)); return None
        if is_fn(f) and f.decl().name() in ('fn:__builtin_va_start', 'fn:__builtin_va_end', 'fn:__builtin_va_copy', 'fn:va_start', 'fn:va_end', 'fn:va_copy'):
            return None
        if is_fn(f) and f.decl().name() == 'fn:__assert_fail':
            self.prove(FALSE, 'assertion holds'); raise PathDone()
        ats = []
        for x in ks[1:]:
            args.append(self.ev(x)); ats.append(self.typ(x))
        self.setline(n)
        line = self.curline
        r = self.call(f, args, ats, self.typ(n), n)
        self.curline = line
        return r

    # ------------------------------------------------------------ statements
    def ex(self, n):
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        self.setline(n)
        if m is not None: return m(n)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal'):
            v = self.ev(n); return
        raise Unsupported('statement ' + k)
    def ex_NullStmt(self, n): pass
    def ex_DeclStmt(self, n):
        for d in kids(n):
            if d['kind'] != 'VarDecl': 
                if d['kind'] in ('RecordDecl', 'TypedefDecl', 'EnumDecl'): continue
                raise Unsupported('declaration ' + d['kind'])
            T = self.typ(d)
            ch = [x for x in kids(d) if 'kind' in x and x['kind'] != 'FullComment']
            if 'init' in d and ch:
                if T[0] == 'arr' and T[2] is None: raise Unsupported('array of unknown length')
                v = self.init_value(ch[-1], T)
                self.declare(d, v, True)
            else: self.declare(d)
            if self.scopes: self.scopes[-1].append(d['id'])
    def ex_CompoundStmt(self, n):
        ss = kids(n); i = 0
        self.scopes.append([])
        depth = len(self.scopes)
        try:
            while i < len(ss):
                try:
                    self.ex(ss[i]); i += 1
                except GotoX as g:
                    j = [x for x in range(len(ss)) if ss[x]['kind'] == 'LabelStmt' and (ss[x].get('declId') == g.l)]
                    if not j: raise
                    if j[0] <= i: raise Unsupported('backward goto')
                    i = j[0]
        finally:
            del self.scopes[depth:]
            if self.frames:
                for v in self.scopes.pop(): self.undeclare(v)
            else: self.scopes.pop()
    def ex_LabelStmt(self, n): 
        return self.ex(kids(n)[0])
    def ex_GotoStmt(self, n): raise GotoX(n.get('targetLabelDeclId'))
    def ex_IfStmt(self, n):
        ks = kids(n)
        c = self.branch(to_bool(self.ev(ks[0])))
        if c: self.ex(ks[1])
        elif len(ks) > 2: self.ex(ks[2])
    def ex_ReturnStmt(self, n):
        ks = kids(n)
        if not ks: raise RetX(None)
        fr = self.frame(); T = fr.func.ret
        v = self.ev(ks[0])
        if T[0] == 'bool': v = to_bool(v)
        raise RetX(v)
    def ex_BreakStmt(self, n): raise BreakX()
    def ex_ContinueStmt(self, n): raise ContX()
    def ex_SwitchStmt(self, n):
        ks = kids(n)
        v = to_int(self.ev(ks[0])); body = ks[1]
        flat = []   # (label value | 'default' | None, stmt)
        def add(s, labs):
            if s['kind'] == 'CaseStmt':
                c = kids(s); add(c[1], labs + [self.const_of(c[0])])
            elif s['kind'] == 'DefaultStmt': add(kids(s)[0], labs + ['default'])
            else: flat.append((labs, s))
        for s in kids(body): add(s, [])
        start = None; dflt = None
        for i, (labs, s) in enumerate(flat):
            if 'default' in labs: dflt = i
            cs = [l for l in labs if l != 'default']
            if cs:
                if self.branch(Or([v == l for l in cs]) if len(cs) > 1 else v == cs[0]): start = i; break
        if start is None: start = dflt
        if start is None: return
        self.scopes.append([])
        try:
            for labs, s in flat[start:]: self.ex(s)
        except BreakX: pass
        finally:
            for x in self.scopes.pop(): self.undeclare(x)
    def const_of(self, n):
        v = z3.simplify(to_int(self.ev(n)))
        return v.as_long()
    def ex_CaseStmt(self, n): return self.ex(kids(n)[1])
    def ex_DefaultStmt(self, n): return self.ex(kids(n)[0])
    def ex_WhileStmt(self, n):
        c, b = kids(n)[-2:]
        self.loop(n, c, b, None, False)
    def ex_DoStmt(self, n):
        b, c = kids(n)
        self.loop(n, c, b, None, True)
    def ex_ForStmt(self, n):
        ch = n['inner']   # init, condvar, cond, inc, body ({} where absent)
        init, cond, inc, body = ch[0], ch[2], ch[3], ch[4]
        self.scopes.append([])
        depth = len(self.scopes)
        try:
            if init and 'kind' in init: self.ex(init)
            self.loop(n, cond if cond and 'kind' in cond else None, body, inc if inc and 'kind' in inc else None, False)
        finally:
            del self.scopes[depth:]
            for x in self.scopes.pop(): self.undeclare(x)

for _n in ('load', 'store'):
    setattr(Interp, 'base_' + _n, getattr(Run, _n))
for _n, _f in list(Interp.__dict__.items()):
    if not _n.startswith('__') and not _n.startswith('base_'): setattr(Run, _n, _f)
Run.base_load = Interp.base_load; Run.base_store = Interp.base_store
Run.Frame = Frame
