from .base import *
import re
FILE = 'src/util/string_builder.c'
i = Int('i!b')
# ---- users of the builder see its text as a value: the text is a chain of appended pieces (this view restates the contracts below)
appc = Function('appc', Str, I, Str)        # text + one character
apps = Function('apps', Str, Str, Str)      # text + text of a %s argument
appd = Function('appd', Str, I, D, Str)     # text + number in the given format
esc = Function('esc', Str, I, Str)          # text + escape sequence (colour)
plain = Function('plain', Str, Str)         # text without its escape sequences
sb0 = Const('sb.empty', Str)
def SB(S, p, t=None):
    """text builder at p holding text t"""
    o = S.obj(p, 'Vector')
    return S.pred('SB', o['buffer'], None if t is None else [t], sorts=(Str,))[0]
CONV = re.compile(rb'%%|%[-+ #0]*\d*(?:\.\d+)?(?:l|ll|h|z|L)?[sdigcuxfFeEgG]')
ESC = re.compile(rb'\x1b\[[0-9;]*[A-Za-z]')
codes = {}
def code(x): return IntVal(codes.setdefault(x, len(codes)))
def literal(S, p):
    """bytes of a literal format (conditional formats are split)"""
    if not z3.is_app_of(p, z3.Z3_OP_ITE): p = lin_norm(p)
    if z3.is_app_of(p, z3.Z3_OP_ITE): return literal(S, p.arg(1) if S.branch(p.arg(0)) else p.arg(2))
    n = str(p.decl().name()) if z3.is_const(p) else ''
    return bytes.fromhex(n[5:]) if n.startswith('&lit:') else None
def lits(t, b):
    while b:
        m = ESC.match(b)
        if m: t = esc(t, code(m.group(0))); b = b[m.end():]
        else: t = appc(t, IntVal(b[0] if b[0] < 128 else b[0] - 256)); b = b[1:]
    return t
def formatted(S, t, p, args):
    """text t followed by the formatted arguments"""
    f = literal(S, p)
    if f is None: raise Unsupported('format is no literal')
    pos = 0; args = list(args)
    for m in CONV.finditer(f):
        t = lits(t, f[pos:m.start()]); pos = m.end(); c = m.group(0)
        if c == b'%%': t = appc(t, IntVal(37)); continue
        if not args: S.run.prove(FALSE, 'an argument for every conversion'); raise PathStuck()
        x = args.pop(0)
        if c == b'%s': t = apps(t, S.str(x))
        elif c == b'%c': t = appc(t, to_int(x))
        elif c[-1:] in b'fFeEgG' and x.sort() == D: t = appd(t, code(c.replace(b'-', b'') if not re.search(rb'%[-+ #]*[1-9]', c) else c), x)     # left alignment is nothing without a width
        else: raise Unsupported('conversion %r' % c)
    return lits(t, f[pos:])


def sb(S, p, count=None):
    """string builder: elem_count characters, the last one is the terminator"""
    v = vec(S, p, es=IntVal(1), count=count)
    S.req(And(v.count >= 1, Select(v.A, v.count - 1) == 0), 'string builder is terminated')
    return v

@contract('strbuilder_create', FILE, props=['C11', 'C04'], text='empty text, terminated')
def strbuilder_create(S):
    if S.where != 'self':
        S.req(S.a[0] < 2**44, 'size is sensible'); yield
        b = S.fresh('buf', I); S.assume(And(b > 0, b < lg.PTRMAX))
        S.ret = {'elem_size': IntVal(1), 'elem_count': IntVal(1), 'buffer_size': S.fresh('bs', I), 'buffer': b}
        S.pred('SB', b, [sb0]); return
    S.req(S.a[0] < 2**44); yield
    if S.inh:
        b = S.fresh('buf', I); S.assume(And(b > 0, b < lg.PTRMAX)); n = S.fresh('bs', I)
        S.ret = {'elem_size': IntVal(1), 'elem_count': IntVal(1), 'buffer_size': n, 'buffer': b}
    r = S.ret
    if not S.inh: lemma(S.run, Implies(r['buffer_size'] >= 0, 1 * r['buffer_size'] >= r['buffer_size']))
    S.req(And(r['elem_size'] == 1, r['elem_count'] == 1, r['buffer_size'] >= 1, r['buffer'] != 0, r['buffer_size'] < 2**60), 'one element, the terminator')
    A = S.blk(r['buffer'], CHAR, r['buffer_size']); S.tok(r['buffer'], r['buffer_size'])
    S.req(Select(A, 0) == 0, 'terminated')

@contract('strbuilder_from_heapstring', FILE, props=['C11', 'C04'], text='takes over an allocated string')
def strbuilder_from_heapstring(S):
    sv = S.str(S.a[0], own=True); yield
    r = S.ret
    if S.inh: S.ret = r = {'elem_size': IntVal(1), 'elem_count': lin_norm(lg.slen(sv) + 1), 'buffer_size': lin_norm(lg.slen(sv) + 1), 'buffer': S.a[0]}
    S.req(And(r['elem_size'] == 1, r['elem_count'] == lg.slen(sv) + 1, r['buffer_size'] == lg.slen(sv) + 1, r['buffer'] == S.a[0]), 'vector over the string')
    A = S.blk(r['buffer'], CHAR, r['buffer_size']); S.tok(r['buffer'], None)
    S.req(fa(i, 0, lg.slen(sv) + 1, Select(A, i) == lg.sch(sv, i), [Select(A, i)]), 'same characters')

@contract('strbuilder_clear', FILE, props=['C11', 'C04'], text='empty text, terminated')
def strbuilder_clear(S):
    v = vec(S, S.a[0], es=IntVal(1)); yield
    w = sb(S, S.a[0], count=IntVal(1))

def appended(S, v, sv, p):
    L = lg.slen(sv)
    w = sb(S, p, count=lin_norm(v.count + L))
    S.req(fa(i, 0, v.count - 1, Select(w.A, i) == Select(v.A, i), [Select(w.A, i)]), 'earlier text is kept')
    S.req(fa(i, v.count - 1, v.count - 1 + L, Select(w.A, i) == lg.sch(sv, i - v.count + 1), [Select(w.A, i)]), 'the formatted text follows')

@contract('vstrbuilder_append', FILE, props=['C11', 'C04'], text='text + formatted text, terminated')
def vstrbuilder_append(S):
    v = sb(S, S.a[0]); S.req(v.count < ASZ); S.str(S.a[1]); yield
    sv = S.fresh('text', Str) if S.inh else S.run.ghost.get('fmt')
    if sv is None: S.run.prove(FALSE, 'text is formatted')
    if S.inh: S.assume(lg.slen(sv) < 2**31 - 1); S.run.ghost['fmt'] = sv
    appended(S, v, sv, S.a[0])

@contract('strbuilder_append', FILE, props=['C11', 'C04'], text='text + formatted text, terminated')
def strbuilder_append(S):
    if S.where == 'self':
        yield from vstrbuilder_append(S); return
    t = formatted(S, SB(S, S.a[0]), S.a[1], S.a[2:]); yield
    SB(S, S.a[0], t)

@contract('strbuilder_append_char', FILE, props=['C11', 'C04'], text='text + character, terminated')
def strbuilder_append_char(S):
    if S.where != 'self':
        t = appc(SB(S, S.a[0]), S.a[1]); yield
        SB(S, S.a[0], t); return
    v = sb(S, S.a[0]); S.req(v.count < ASZ); yield
    w = sb(S, S.a[0], count=lin_norm(v.count + 1))
    S.req(fa(i, 0, v.count - 1, Select(w.A, i) == Select(v.A, i), [Select(w.A, i)]), 'earlier text is kept')
    S.req(Select(w.A, v.count - 1) == S.a[1], 'the character follows')

@contract('strbuilder_to_str', FILE, props=['C11', 'C04'], text='the text')
def strbuilder_to_str(S):
    if S.where != 'self':
        o = S.obj(S.a[0], 'Vector'); t = S.pred('SB', o['buffer'], None, sorts=(Str,))[0]; yield
        S.obj(S.a[0], 'Vector', {'buffer': o['buffer']}); S.str(o['buffer'], t, own=True)      # from now on an allocated string
        S.ret = o['buffer']; return
    v = vec_ro(S, S.a[0]); yield
    S.result(v.buf, 'the terminated text')
