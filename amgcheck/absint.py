"""A path-sensitive abstract interpreter over the structured syntax trees.

Vectors are values of a free module (linear combinations of operator words applied to base symbols), scalars are
polynomials over symbols, booleans are literals / atoms that are forked consistently, objects are access paths.
Own functions, methods and lambdas are entered; everything else is uninterpreted (equal calls on equal arguments
give equal results) and forgets what it may write.  Loops are iterated to a fixpoint with widening to phi symbols.
A client sees every call (hook `call`) and keeps its own hashable state in State.cl."""
from .ir import walk, kids, cname
from .facts import AnalysisError

# ----------------------------------------------------------------- polynomials / linear combinations


def pconst(c):
    return frozenset([((), float(c))]) if c else frozenset()


def psym(s):
    return frozenset([((s,), 1.0)])


def padd(a, b, f=1.0):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0.0) + f * c
    return frozenset((m, c) for m, c in d.items() if c)


def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = tuple(sorted(m + n, key=repr))
            d[k] = d.get(k, 0.0) + c * e
    return frozenset((m, c) for m, c in d.items() if c)


def pval(p):
    """float when p is a constant polynomial, else None"""
    if not p:
        return 0.0
    if len(p) == 1:
        (m, c), = p
        if m == ():
            return c
    return None


LZERO = frozenset()


def lbase(b):
    return frozenset([(((), b), pconst(1))])


def ladd(a, b, f=None):
    d = dict(a)
    for t, p in b:
        q = pmul(p, f) if f is not None else p
        d[t] = padd(d.get(t, frozenset()), q)
    return frozenset((t, p) for t, p in d.items() if p)


def lscale(a, f):
    return ladd(LZERO, a, f)


def lapply(opsum, v):
    """opsum: Lin whose bases are None (operator words); v: Lin"""
    r = LZERO
    for (w, _), p in opsum:
        r = ladd(r, frozenset(((w + u, b), q) for (u, b), q in v), p)
    return r


def rename_words(lin, fn):
    """fn(word tuple) -> Lin-of-operators ( (word,None)->poly ) ; distributes"""
    r = LZERO
    for (w, b), p in lin:
        r = ladd(r, frozenset(((w2, b), q) for (w2, _), q in fn(w)), p)
    return r


def showp(p):
    c = pval(p)
    if c is not None:
        return '%g' % c
    return '+'.join(('%g*' % c if c != 1 else '') + '*'.join(pname(x) for x in m) for m, c in sorted(p, key=repr))


def pname(x):
    if isinstance(x, tuple):
        if len(x) and x[0] in ('init', 'phi', 'h', 'iv', 'S'):
            return {'init': '', 'phi': "~", 'h': "'", 'iv': '', 'S': ''}[x[0]] + pname(x[-1])
        return '.'.join(pname(y) for y in x if y not in ('this',) or len(x) == 1)
    if isinstance(x, frozenset):
        # a polynomial {(monomial, coefficient)} or a linear form {((word, base), polynomial)}
        islin = any(isinstance(e, tuple) and len(e) == 2 and isinstance(e[1], frozenset) for e in x)
        return '(' + showl(x) + ')' if islin else showp(x)
    return str(x)


def showl(l):
    if not l:
        return '0'
    r = []
    for (w, b), p in sorted(l, key=repr):
        c = showp(p)
        r.append(('' if c == '1' else c + '*') + '*'.join([pname(x) for x in w] + ([pname(b)] if b is not None else [])))
    return ' + '.join(r)


# ----------------------------------------------------------------- values
TRUE, FALSE = ('B', True), ('B', False)


def num(c):
    return ('#', pconst(c))


def bnot(v):
    if v[0] == 'B':
        return ('B', not v[1])
    if v[0] == 'A':
        return ('N', v[1])
    if v[0] == 'N':
        return ('A', v[1])
    return v


class State:
    __slots__ = ('env', 'store', 'asm', 'cl')

    def __init__(self, env, store, asm, cl):
        self.env, self.store, self.asm, self.cl = env, store, asm, cl

    def copy(self):
        return State(dict(self.env), dict(self.store), dict(self.asm), self.cl)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.store.items()), frozenset(self.asm.items()), self.cl)


class Frame:
    __slots__ = ('fid', 'fn', 'this', 'stack', 'lex', 'cls')

    def __init__(self, fid, fn, this, stack, lex=None, cls=None):
        # lex: frame id whose variables are visible (lambda bodies share their definer's declaration ids)
        self.fid, self.fn, self.this, self.stack, self.lex, self.cls = fid, fn, this, stack, lex, cls


IDENT = {'get', 'GetLocalVector', 'FVDouble', 'FVComplex', 'FVScal', 'FV', 'Get', 'operator*', 'operator->', 'get_ptr', 'Range'}
PASS = {'std::move', 'std::forward', 'std::ref', 'std::addressof', 'std::__addressof', 'std::static_pointer_cast',
        'std::dynamic_pointer_cast', 'std::const_pointer_cast', 'ngcore::make_shared_from'}
VOIDTIMERS = ('Timer', 'RegionTimer', 'RegionTracer', 'ThreadRegionTimer')


class Client:
    cls = None
    def elem(self, I, st, p, i):
        """the value of element i of a container, if known"""
        return None

    def elements(self, I, fr, n, rv):
        """(run through mode) give the range of a container as ('rng', lo, hi, path)"""
        return rv

    deep = 0            # how often a function may be entered again while it runs
    unroll = 0          # > 0: loops whose condition is decided are run through (at most that often) instead of widened

    def call(self, I, st, fr, e, q, nm, obj, args):
        return None

    def inline(self, I, fn, e, fr):
        return True

    def atom(self, I, st, key):
        return None

    def compact(self, I, s):
        """forget what the client does not need (in place); called when a function returns and at loop heads"""

    def head(self, I, s, node):
        """called (in place) when a loop head is reached again"""

    def stored(self, I, st, fr, path, v, e):
        pass

    def mem(self, I, st, fr, path, e):
        """value of a data member that nothing is known about"""
        return None

    def once(self, I, fr, n):
        """loops that are assumed to run at least once"""
        return False

    def recursion(self, I, st, fr, e):
        return None

    def branch(self, I, st, fr, e, key, val):
        """called with the outcome of an undecided condition; may veto (return False)"""
        return True


class Interp:
    MAXST = 60000

    def __init__(self, P, client):
        self.P, self.c = P, client
        self.n = 0
        self.hs = 0
        self.nodes_seen = set()
        self.inlined = set()
        self.refs = set()

    # ------------------------------------------------------------- helpers
    def lookup(self, st, fr, i):
        f = fr.fid
        lex = fr.lex
        while True:
            v = st.env.get((f, i))
            if v is not None:
                while v[0] == 'R':
                    w = st.env.get(v[1])
                    if w is None:
                        return ('U', ('unset', v[1]))
                    v = w
                return v
            if lex is None:
                return None
            f, lex = lex.fid, lex.lex

    def home(self, st, fr, i):
        """env key that holds variable i as seen from fr"""
        f, lex = fr.fid, fr.lex
        while True:
            v = st.env.get((f, i))
            if v is not None:
                k = (f, i)
                while v[0] == 'R':
                    k = v[1]
                    v = st.env.get(k, ('x',))
                return k
            if lex is None:
                return (fr.fid, i)
            f, lex = lex.fid, lex.lex

    def ptr(self, st, p):
        n = 0
        while ('ptr', p) in st.store and n < 10:
            q = st.store[('ptr', p)]
            if q[0] != 'L':
                return q
            p = q[1]
            n += 1
        return ('L', p)

    def vec(self, st, v):
        """vector content of a value"""
        if v[0] == 'V':
            return v[1]
        if v[0] == 'L':
            r = st.store.get(v[1])
            if r is not None and r[0] == 'V':
                return r[1]
            return lbase(('init', v[1]))
        if v[0] == '#':
            c = pval(v[1])
            if c == 0.0:
                return LZERO
            return frozenset([(((), ('const', v[1])), pconst(1))])
        return lbase(('u', v))

    def scal(self, st, v):
        if v[0] == '#':
            return v[1]
        if v[0] == 'L':
            r = st.store.get(v[1])
            if r is not None and r[0] == '#':
                return r[1]
            return psym(('S', v[1]))
        if v[0] == 'B':
            return pconst(1 if v[1] else 0)
        return psym(('S', v))

    def opw(self, v):
        """operator words of a matrix valued expression"""
        if v[0] == 'M':
            return v[1]
        if v[0] == 'L':
            return frozenset([(((v[1],), None), pconst(1))])
        return frozenset([(((v,), None), pconst(1))])

    def fresh(self, fr, e, what):
        return ('h', id(e) if e is not None else 0, fr.fid, what)

    def havoc(self, st, fr, e, path):
        st.store[path] = ('V', lbase(self.fresh(fr, e, path)))

    def cond(self, st, fr, e):
        """[(state, bool)] for a condition expression"""
        out = []
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            for s, v in self.cond(st, fr, e['a']):
                if v == (e['op'] == '||'):
                    out.append((s, v))
                else:
                    out += self.cond(s, fr, e['b'])
            return out
        if k == 'un' and e['op'] == '!':
            return [(s, not v) for s, v in self.cond(st, fr, e['e'])]
        for s, v in self.ev(st, fr, e):
            out += self.truth(s, fr, e, v)
        return out

    def truth(self, s, fr, e, v):
        neg = False
        if v[0] == 'N':
            neg, v = True, ('A', v[1])
        if v[0] == 'B':
            return [(s, v[1] != neg)]
        if v[0] == '#':
            c = pval(v[1])
            if c is not None:
                return [(s, (c != 0) != neg)]
            key = ('nz', v[1])
        elif v[0] == 'A':
            key = v[1]
        elif v[0] == 'L':
            r = s.store.get(v[1])
            if r is not None and r[0] in ('B', 'A', 'N', '#'):
                return [(t, x != neg) for t, x in self.truth(s, fr, e, r)]
            n = self.isnull(s, v)
            if n is not None:
                return [(s, (not n) != neg)]
            key = ('set', v[1])
        elif v[0] == 'null':
            return [(s, neg)]
        else:
            key = ('b', v)
        if key in s.asm:
            return [(s, s.asm[key] != neg)]
        r = self.c.atom(self, s, key)
        if r is not None:
            return [(s, r != neg)]
        res = []
        for val in (True, False):
            t = s.copy()
            t.asm[key] = val
            if self.c.branch(self, t, fr, e, key, val):
                res.append((t, val != neg))
        return res

    def isnull(self, st, v):
        if v[0] == 'null':
            return True
        if v[0] == 'L' and v[1] and v[1][0] in ('obj', 'loc'):
            return False
        return None

    # ------------------------------------------------------------- expressions
    def evs(self, st, fr, es):
        res = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in res:
                for t, v in self.ev(s, fr, e):
                    nxt.append((t, vs + (v,)))
            res = nxt
        return res

    def ev(self, st, fr, e):
        if e is None:
            return [(st, ('void',))]
        self.n += 1
        if self.n > 3000000:
            raise AnalysisError("abstract interpretation does not terminate in %s" % fr.fn.name)
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return self.e_default(st, fr, e)
        return m(st, fr, e)

    def e_default(self, st, fr, e):
        ks = [x for x in kids(e)]
        return [(s, ('U', (e['k'], e.get('n'), e.get('v') if not isinstance(e.get('v'), dict) else None, vs))) for s, vs in self.evs(st, fr, ks)]

    def e_darg(self, st, fr, e):
        return self.ev(st, fr, e['e'])

    def e_this(self, st, fr, e):
        return [(st, ('L', fr.this))]

    def e_nullptr(self, st, fr, e):
        return [(st, ('null',))]

    def e_int(self, st, fr, e):
        return [(st, num(e['v']))]

    def e_flt(self, st, fr, e):
        return [(st, num(float(e['v'])))]

    def e_chr(self, st, fr, e):
        return [(st, num(e['v']))]

    def e_bool(self, st, fr, e):
        return [(st, ('B', bool(e['v'])))]

    def e_enum(self, st, fr, e):
        return [(st, num(e['val']))]

    def e_str(self, st, fr, e):
        return [(st, ('U', ('str', e.get('v'))))]

    def e_lam(self, st, fr, e):
        return [(st, ('F', id(e), fr.fid))] if self.reg(e, fr) else []

    def reg(self, e, fr):
        if not hasattr(self, 'lams'):
            self.lams = {}
        self.lams[(id(e), fr.fid)] = (e, fr)
        return True

    def e_fref(self, st, fr, e):
        return [(st, ('fn', e.get('m') or e.get('q') or e.get('n')))]

    def e_ref(self, st, fr, e):
        v = self.lookup(st, fr, e.get('id'))
        if v is None:
            return [(st, self.ptr(st, ('g', e.get('q') or e.get('n'))))]
        if v[0] == 'L':
            v = self.ptr(st, v[1])
            if v[0] == 'L':
                w = st.store.get(v[1])
                if w is not None and w[0] in ('B', 'A', 'N', '#', 'F'):
                    return [(st, w)]
        return [(st, v)]

    def e_mem(self, st, fr, e):
        if e.get('o') is None:
            return [(st, self.ptr(st, ('g', e['n'])))]
        out = []
        for s, o in self.ev(st, fr, e['o']):
            p = (o[1] if o[0] == 'L' else (o,)) + (e['n'],)
            v = self.ptr(s, p)
            if v[0] == 'L':
                w = s.store.get(v[1])
                if w is not None and w[0] in ('B', 'A', 'N', '#', 'F', 'null'):
                    v = w
                elif self.c.mem(self, s, fr, v[1], e) is not None:
                    v = self.c.mem(self, s, fr, v[1], e)
                elif fr.fn.ty(e.get('t')) in ('bool', 'const bool'):
                    v = ('A', ('f', v[1]))
                elif fr.fn.ty(e.get('t')) in ('int', 'const int', 'size_t', 'unsigned long', 'const unsigned long'):
                    v = ('#', psym(('S', v[1])))
            out.append((s, v))
        return out

    def e_cond(self, st, fr, e):
        out = []
        for s, c in self.cond(st, fr, e['c']):
            out += self.ev(s, fr, e['a'] if c else e['b'])
        return out

    def e_cast(self, st, fr, e):
        t = fr.fn.ty(e.get('t'))
        out = []
        for s, v in self.ev(st, fr, e['e']):
            if e.get('ck') == 'U' and t == 'bool':
                out += [(x, ('B', b)) for x, b in self.truth(s, fr, e, v)]
            else:
                out.append((s, v))
        return out

    def index(self, v, i, st=None):
        if v[0] != 'L':
            return ('U', ('idx', v, i))
        if i[0] == 'L' and st is not None:
            i = ('#', self.scal(st, i))
        return ('L', v[1] + (('[]', i[1] if i[0] == '#' else i),))

    def e_sub(self, st, fr, e):
        out = []
        for s, (o, i) in self.evs(st, fr, [e['o'], e['i']]):
            v = self.index(o, i, s)
            if v[0] == 'L':
                v = self.ptr(s, v[1])
                w = s.store.get(v[1]) if v[0] == 'L' else None
                if w is not None and w[0] in ('B', 'A', 'N', '#'):
                    v = w
            out.append((s, v))
        return out

    def e_sizeof(self, st, fr, e):
        return [(st, ('U', ('sizeof', id(e))))]

    def e_throw(self, st, fr, e):
        raise_ = []
        for s, v in self.evs(st, fr, list(kids(e))):
            raise_.append(s)
        return []       # path ends

    def e_new(self, st, fr, e):
        return [(s, ('L', ('obj', id(e), fr.fid))) for s, v in self.evs(st, fr, list(kids(e)))]

    def e_ilist(self, st, fr, e):
        return [(s, ('U', ('ilist', id(e), vs))) for s, vs in self.evs(st, fr, list(kids(e)))]

    def e_un(self, st, fr, e):
        op = e['op']
        if op == '!':
            return [(s, ('B', v)) for s, v in self.cond(st, fr, e)]
        if op in ('&', '*'):
            return [(s, self.ptr(s, v[1]) if v[0] == 'L' and op == '*' else v) for s, v in self.ev(st, fr, e['e'])]
        if op == '-':
            return [(s, ('#', padd(frozenset(), v[1], -1.0)) if v[0] == '#' else
                     (('V', lscale(v[1], pconst(-1))) if v[0] == 'V' else ('U', ('neg', v)))) for s, v in self.ev(st, fr, e['e'])]
        if '++' in op or '--' in op:
            d = 1 if '++' in op else -1
            out = []
            for s, v in self.ev(st, fr, e['e']):
                nv = ('#', padd(self.scal(s, v), pconst(d)))
                out.append((self.assign(s, fr, e['e'], nv, e), nv if not op.startswith('p') else v))
            return out
        return [(s, ('U', (op, v))) for s, v in self.ev(st, fr, e['e'])]

    def compare(self, s, op, a, b):
        if a[0] == 'null' or b[0] == 'null':
            o = b if a[0] == 'null' else a
            if op not in ('==', '!='):
                return ('U', (op, a, b))
            n = self.isnull(s, o)
            if n is not None:
                return ('B', n == (op == '=='))
            r = ('A', ('set', o[1] if o[0] == 'L' else o))
            return bnot(r) if op == '==' else r
        if a[0] == 'L' and b[0] == 'L' and a[1] == b[1] and op in ('==', '!=', '<=', '>='):
            if not (s.store.get(a[1]) or ('x',))[0] == 'V':
                return ('B', op != '!=')
        if a[0] in ('#', 'L') and b[0] in ('#', 'L'):
            d = padd(self.scal(s, a), self.scal(s, b), -1.0)
            c = pval(d)
            if c is not None:
                return ('B', {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op])
            # canonical sign
            nd = padd(frozenset(), d, -1.0)
            flip = repr(sorted(nd, key=repr)) < repr(sorted(d, key=repr))
            if flip:
                d = nd
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            base = {'==': ('eq0', d), '!=': ('eq0', d), '<': ('lt0', d), '>=': ('lt0', d), '>': ('gt0', d), '<=': ('gt0', d)}[op]
            return ('A', base) if op in ('==', '<', '>') else ('N', base)
        if a[0] in 'BAN' and b[0] in 'BAN':
            if b[0] == 'B':
                r = a if b[1] else bnot(a)
                return r if op == '==' else bnot(r)
            if a[0] == 'B':
                r = b if a[1] else bnot(b)
                return r if op == '==' else bnot(r)
        if op in ('==', '!='):
            k = tuple(sorted([a, b], key=repr))
            return ('A', ('eq', k)) if op == '==' else ('N', ('eq', k))
        return ('A', (op, a, b))

    def arith(self, s, op, a, b):
        """value of a op b for + - * /"""
        if op in ('+', '-'):
            if a[0] == '#' and b[0] == '#':
                return ('#', padd(a[1], b[1], 1.0 if op == '+' else -1.0))
            if a[0] in ('V', 'L') or b[0] in ('V', 'L'):
                if a[0] == '#' or b[0] == '#':
                    return ('#', padd(self.scal(s, a), self.scal(s, b), 1.0 if op == '+' else -1.0))
                return ('V', ladd(self.vec(s, a), self.vec(s, b), pconst(1 if op == '+' else -1)))
        if op == '*':
            if a[0] == '#' and b[0] == '#':
                return ('#', pmul(a[1], b[1]))
        return ('U', (op, a, b))

    def e_bin(self, st, fr, e):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, ('B', v)) for s, v in self.cond(st, fr, e)]
        if op == '=':
            out = []
            for s, v in self.ev(st, fr, e['b']):
                out.append((self.assign(s, fr, e['a'], v, e), v))
            return out
        if op == ',':
            return [(s, vs[1]) for s, vs in self.evs(st, fr, [e['a'], e['b']])]
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            out = []
            for s, (a, b) in self.evs(st, fr, [e['a'], e['b']]):
                v = self.mulop(s, fr, e, a, b) if op == '*=' else self.arith(s, op[0], a, b)
                if op in ('|=', '&=') and a[0] in 'BAN' and b[0] in 'BAN':
                    out += self.boolop(s, fr, e, op[0], a, b)
                    continue
                out.append((self.assign(s, fr, e['a'], v, e), v))
            return out
        out = []
        for s, (a, b) in self.evs(st, fr, [e['a'], e['b']]):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out.append((s, self.compare(s, op, a, b)))
            elif op in ('+', '-', '*', '/'):
                if op == '*':
                    out.append((s, self.mulop(s, fr, e, a, b)))
                else:
                    out.append((s, self.arith(s, op, a, b)))
            else:
                out.append((s, ('U', (op, a, b))))
        return out

    def boolop(self, s, fr, e, op, a, b):
        out = []
        for t, x in self.truth(s, fr, e, a):
            for u, y in self.truth(t, fr, e, b):
                v = ('B', (x or y) if op == '|' else (x and y))
                out.append((self.assign(u, fr, e['a'], v, e), v))
        return out

    def ismat(self, fr, e):
        t = fr.fn.ty(e.get('t')) if e else ''
        return 'Matrix' in t or 'BaseSmoother' in t

    def mulop(self, s, fr, e, a, b):
        ea, eb = (e['a'], e['b']) if e['k'] == 'bin' else (e['a'][0], e['a'][1])
        if a[0] == 'M' or (a[0] == 'L' and self.ismat(fr, ea)):
            w = self.opw(a)
            if b[0] == 'M' or (b[0] == 'L' and self.ismat(fr, eb)):
                w2 = self.opw(b)
                r = LZERO
                for (x, _), p in w:
                    r = ladd(r, frozenset(((x + y, None), q) for (y, _), q in w2), p)
                return ('M', r)
            return ('V', lapply(w, self.vec(s, b)))
        if a[0] == '#' or (a[0] == 'L' and fr.fn.ty(ea.get('t')) in ('double', 'const double', 'int', 'float', 'const double &')):
            p = self.scal(s, a)
            if b[0] == 'M' or (b[0] == 'L' and self.ismat(fr, eb)):
                return ('M', lscale(self.opw(b), p))
            if b[0] == 'V' or (b[0] == 'L' and 'Vector' in fr.fn.ty(eb.get('t'))):
                return ('V', lscale(self.vec(s, b), p))
            if b[0] in ('#', 'L'):
                return ('#', pmul(p, self.scal(s, b)))
        if b[0] == '#' and a[0] == 'V':
            return ('V', lscale(a[1], b[1]))
        return ('U', ('*', a, b))

    SCALT = ('bool', 'int', 'double', 'size_t', 'unsigned long', 'float', 'char', 'unsigned int', 'long', 'std::complex<double>', 'ngcore::Complex')

    def put(self, s, fr, path, v, e):
        s.store[path] = v
        self.c.stored(self, s, fr, path, v, e)

    # assignment to an lvalue expression
    def assign(self, st, fr, lhs, v, e):
        s = st.copy()
        x = lhs
        deref = False
        while x['k'] in ('cast', 'darg') or (x['k'] == 'un' and x['op'] in ('*', '&')):
            deref = deref or x['k'] == 'un' and x['op'] == '*'
            x = x['e']
        t = fr.fn.ty(lhs.get('t')).replace('const ', '')
        isptr = 'ptr<' in t or t.endswith('*')
        if x['k'] == 'ref' and x.get('id') is not None and x['dk'] in ('v', 'p', 'b', 'sl'):
            k = self.home(s, fr, x['id'])
            cur = s.env.get(k)
            if cur is not None and cur[0] == 'L' and not isptr and (k in self.refs or deref or v[0] == 'V' or t not in self.SCALT):
                self.put(s, fr, cur[1], v if v[0] != 'L' or t in self.SCALT else ('V', self.vec(s, v)), e)
            elif cur is not None and cur[0] == 'L' and isptr and k in self.refs:
                s.store[('ptr', cur[1])] = v
            else:
                s.env[k] = v
            return s
        p = self.place(s, fr, lhs)
        if p is not None:
            if v[0] in ('L', 'null') and isptr:
                s.store[('ptr', p)] = v
            elif t in self.SCALT or v[0] != 'L':
                self.put(s, fr, p, v, e)
            else:
                self.put(s, fr, p, ('V', self.vec(s, v)), e)
        return s

    def place(self, st, fr, e):
        """raw access path of an lvalue (no pointer / scalar resolution at the last step)"""
        while e['k'] in ('cast', 'darg'):
            e = e['e']
        if e['k'] == 'mem' and e.get('o') is not None:
            o = self.ev(st, fr, e['o'])[0][1]
            return (o[1] if o[0] == 'L' else (o,)) + (e['n'],)
        if e['k'] == 'sub' or (e['k'] == 'op' and e['op'] == '[]'):
            oe, ie = (e['o'], e['i']) if e['k'] == 'sub' else (e['a'][0], e['a'][1])
            o = self.ev(st, fr, oe)[0][1]
            i = self.ev(st, fr, ie)[0][1]
            r = self.index(o, i, st)
            return r[1] if r[0] == 'L' else None
        v = self.ev(st, fr, e)[0][1]
        return v[1] if v[0] == 'L' else None

    def e_op(self, st, fr, e):
        op, a = e['op'], e['a']
        if e.get('lamcall') or (op == '()' and a):
            return self.callop(st, fr, e)
        if op in ('*', '->') and len(a) == 1:
            return [(s, self.ptr(s, v[1]) if v[0] == 'L' else v) for s, v in self.ev(st, fr, a[0])]
        if op == '[]' and len(a) == 2:
            out = []
            for s, (o, i) in self.evs(st, fr, a):
                r = self.hook(s, fr, e, o, (i,))
                if r is not None:
                    out += r
                    continue
                v = self.index(o, i, s)
                if v[0] == 'L':
                    v = self.ptr(s, v[1])
                    w = s.store.get(v[1]) if v[0] == 'L' else None
                    if w is not None and w[0] in ('B', 'A', 'N', '#'):
                        v = w
                out.append((s, v))
            return out
        if op == '=' and len(a) == 2:
            t = fr.fn.ty(a[0].get('t'))
            out = []
            for s, v in self.ev(st, fr, a[1]):
                if 'Vector' in t and 'ptr' not in t:
                    for s2, o in self.ev(s, fr, a[0]):
                        r = self.hook(s2, fr, e, o, (v,))
                        if r is not None:
                            out += r
                            continue
                        s3 = s2.copy()
                        if o[0] == 'L':
                            self.setvec(s3, fr, e, o[1], self.vec(s3, v))
                        out.append((s3, o))
                else:
                    out.append((self.assign(s, fr, a[0], v, e), v))
            return out
        if op in ('+=', '-=', '*=') and len(a) == 2:
            out = []
            for s, (o, v) in self.evs(st, fr, a):
                r = self.hook(s, fr, e, o, (v,))
                if r is not None:
                    out += r
                    continue
                s2 = s.copy()
                t = fr.fn.ty(a[0].get('t'))
                if o[0] == 'L' and 'ector' in t:
                    cur = self.vec(s2, o)
                    if op == '*=':
                        nv = lscale(cur, self.scal(s2, v))
                    else:
                        if v[0] == 'M':
                            nv = lbase(self.fresh(fr, e, o[1]))
                        else:
                            nv = ladd(cur, self.vec(s2, v), pconst(1 if op == '+=' else -1))
                    self.setvec(s2, fr, e, o[1], nv)
                elif o[0] == 'L':
                    s2.store[o[1]] = ('U', self.fresh(fr, e, o[1]))
                out.append((s2, o))
            return out
        if op in ('+', '-', '*') and len(a) == 2:
            out = []
            for s, (x, y) in self.evs(st, fr, a):
                out.append((s, self.mulop(s, fr, e, x, y) if op == '*' else self.arith(s, op, x, y)))
            return out
        if op == '-' and len(a) == 1:
            return [(s, ('V', lscale(self.vec(s, v), pconst(-1)))) for s, v in self.ev(st, fr, a[0])]
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2:
            return [(s, self.compare(s, op, x, y)) for s, (x, y) in self.evs(st, fr, a)]
        out = []
        for s, vs in self.evs(st, fr, a):
            r = self.hook(s, fr, e, vs[0] if vs else None, vs[1:])
            if r is not None:
                out += r
            else:
                s2 = s.copy()
                if op in ('++', '--', '+=', '-=', '<<', '>>') and vs and vs[0][0] == 'L' and not e.get('cm'):
                    pass
                out.append((s2, ('U', (op, vs))))
        return out

    def setvec(self, st, fr, e, path, lin):
        self.put(st, fr, path, ('V', lin), e)

    def hook(self, st, fr, e, obj, args):
        return self.c.call(self, st, fr, e, e.get('f', ''), cname(e), obj, args)

    # ------------------------------------------------------------- calls
    def callop(self, st, fr, e):
        """operator() : a closure when the object evaluates to one"""
        out = []
        for s, vs in self.evs(st, fr, e['a']):
            f = vs[0]
            if f[0] == 'L':
                w = s.store.get(f[1])
                if w is not None and w[0] == 'F':
                    f = w
            if f[0] == 'F':
                out += self.call_lam(s, fr, e, f, vs[1:], e['a'][1:], e.get('m'))
                continue
            r = self.hook(s, fr, e, vs[0], vs[1:])
            if r is not None:
                out += r
            elif e.get('m') in self.P.fns and vs[0][0] == 'L' and not e.get('lamcall'):
                out += self.enter(s, fr, e, self.P.fns[e['m']], vs[0][1], vs[1:], e['a'][1:])
            else:
                out.append(self.unknown(s, fr, e, vs[0], vs[1:], e['a'][1:]))
        return out

    def call_lam(self, st, fr, e, f, vals, exprs, m=None):
        ent = self.lams.get((f[1], f[2]))
        if ent is None:
            return [(st, ('U', ('lam', f)))]
        lam, dfr = ent
        body, ps = lam.get('b'), lam.get('ps', [])
        if body is None:
            ins = [i for i in lam.get('insts', []) if m is None or i.get('m') == m] or lam.get('insts', [])
            if not ins:
                return [(st, ('U', ('lam', f)))]
            body, ps = ins[0]['b'], ins[0]['ps']
        if fr.stack.count(id(body)) > self.c.deep:
            self.rec_info = (lam, dfr, body, ps)
            r = self.c.recursion(self, st, fr, e)
            if r is not None:
                return r
            s = st.copy()
            for k in list(s.store):
                if k and k[0] != 'ptr':
                    s.store[k] = ('V', lbase(self.fresh(fr, e, k))) if s.store[k][0] == 'V' else ('U', self.fresh(fr, e, k))
            return [(s, ('void',))]
        nf = Frame(fr.fid + (id(e), id(body)), dfr.fn, dfr.this, fr.stack + (id(body),), dfr, dfr.cls)
        st = st.copy()
        # captures by value / init captures
        for c in lam.get('caps', []):
            if c.get('i') is not None:
                st.env[(nf.fid, c['id'])] = self.ev(st, dfr, c['i'])[0][1]
        return self.run_body(st, nf, body, ps, vals, exprs, fr, lam)

    def run_body(self, st, nf, body, ps, vals, exprs, caller, owner):
        st = st.copy()
        for i, p in enumerate(ps):
            if p.get('id') is None:
                continue
            v = vals[i] if i < len(vals) else ('U', ('noarg', p.get('n')))
            t = nf.fn.ty(p.get('t'))
            x = exprs[i] if i < len(exprs) else None
            if x is not None and t.endswith('&') and not t.startswith('const ') and v[0] != 'L' and caller is not None:
                y = x
                while y['k'] in ('cast', 'darg'):
                    y = y['e']
                if y['k'] == 'ref' and y.get('id') is not None:
                    v = ('R', self.home(st, caller, y['id']))
            if t.endswith('&'):
                self.refs.add((nf.fid, p['id']))
            elif v[0] == 'L' and t.replace('const ', '') in self.SCALT:
                v = ('A', ('f', v[1])) if t.endswith('bool') else ('#', self.scal(st, v))
            st.env[(nf.fid, p['id'])] = v
        res = []
        for s, kind, v in self.ex(st, nf, body):
            if kind == 'throw':
                continue
            res.append((self.drop(s, nf.fid), v if kind == 'ret' else ('void',)))
        return self.dedupe2(res)

    def drop(self, s, fid):
        s = s.copy()
        for k in [k for k in s.env if k[0] == fid]:
            del s.env[k]
        for k in [k for k in s.store if k[0] == 'loc' and k[1] == fid]:
            del s.store[k]
        self.c.compact(self, s)
        return s

    def dedupe2(self, res):
        seen, out = set(), []
        for s, v in res:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        if len(out) > self.MAXST:
            raise AnalysisError("too many abstract states")
        return out

    def enter(self, st, fr, e, fn, this, vals, exprs, cls=None):
        body = fn.j.get('b')
        if body is None:
            return [self.unknown(st, fr, e, ('L', this) if this else None, vals, exprs)]
        if fr.stack.count(fn.key) > self.c.deep or len(fr.stack) > 40:
            r = self.c.recursion(self, st, fr, e)
            return r if r is not None else [self.unknown(st, fr, e, ('L', this) if this else None, vals, exprs)]
        self.inlined.add(fn.key)
        nf = Frame(fr.fid + (id(e),), fn, this, fr.stack + (fn.key,), None, cls)
        return self.run_body(st, nf, body, fn.j['ps'], vals, exprs, fr, fn)

    def e_call(self, st, fr, e):
        q, nm = e.get('f', ''), cname(e)
        o = e.get('o')
        out = []
        oe = [o] if o is not None else []
        for s, vs in self.evs(st, fr, oe + e['a']):
            obj = vs[0] if oe else None
            args = vs[len(oe):]
            out += self.do_call(s, fr, e, q, nm, obj, args, e['a'])
        return out

    def do_call(self, s, fr, e, q, nm, obj, args, exprs):
        r = self.c.call(self, s, fr, e, q, nm, obj, args)
        if r is not None:
            return r
        if not q and e.get('fe'):
            return [self.unknown(s, fr, e, obj, args, exprs)]
        if q in PASS and args:
            return [(s, args[0])]
        if obj is not None and nm in IDENT and (not args or nm == 'Range') and not q.startswith('amg::'):
            return [(s, self.ptr(s, obj[1]) if obj[0] == 'L' else obj)]
        if nm in ('min', 'max', 'min2', 'max2') and len(args) == 2:
            return [(s, ('U', (nm, tuple(sorted(args, key=repr)))))]
        if nm == 'swap' and len(args) == 2 and all(a[0] == 'L' for a in args):
            t = s.copy()
            a, b = self.vec(s, args[0]), self.vec(s, args[1])
            t.store[args[0][1]], t.store[args[1][1]] = ('V', b), ('V', a)
            return [(t, ('void',))]
        m = e.get('m')
        fn = self.P.fns.get(m)
        this = obj[1] if obj is not None and obj[0] == 'L' else (fr.this if (e.get('o') or {}).get('k') == 'this' else None)
        if e.get('v') and not e.get('qual'):
            # virtual: the most derived override is known only for our own object
            if this is not None and this == fr.this and fr.cls:
                fn = self.override(fr.cls, m, nm) or fn
            elif this is not None and this == fr.this and not fr.cls:
                pass
            else:
                fn = None
        if fn is not None and fn.j.get('b') is not None and self.c.inline(self, fn, e, fr):
            if this is None and obj is not None:
                this = ('obj', id(e), fr.fid)
            return self.enter(s, fr, e, fn, this, args, exprs, fr.cls if this == fr.this else None)
        return [self.unknown(s, fr, e, obj, args, exprs)]

    def override(self, cls, m, nm):
        """most derived implementation of virtual method m seen from class cls"""
        seen, todo = set(), [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            r = self.P.rec(c)
            if r is None:
                continue
            for x in r['methods']:
                if x['m'] == m or m in x.get('overm', []):
                    f = self.P.fns.get(x['m'])
                    return f
            todo += [b[0] for b in r['bases']]
        return None

    def unknown(self, s, fr, e, obj, args, exprs):
        """uninterpreted call: forget what it may write"""
        s = s.copy()
        rm = e.get('rm', 0)
        for i, a in enumerate(args):
            if rm >> i & 1:
                if a[0] == 'L':
                    s.store[a[1]] = ('V', lbase(self.fresh(fr, e, a[1])))
                    for k in [k for k in s.store if k[0] == 'ptr' and k[1] == a[1]]:
                        pass
                elif i < len(exprs):
                    x = exprs[i]
                    while x['k'] in ('cast', 'darg') or (x['k'] == 'un' and x['op'] == '&'):
                        x = x['e']
                    if x['k'] == 'ref' and x.get('id') is not None and a[0] not in ('F', 'fn'):
                        s.env[self.home(s, fr, x['id'])] = ('U', self.fresh(fr, e, x['n']))
        t = fr.fn.ty(e.get('t'))
        if t in ('void', ''):
            return s, ('void',)
        key = (e.get('f') or '', obj, tuple(args))
        pure = e.get('cm') or obj is None
        if not pure:
            key = key + (self.fresh(fr, e, 'r'),)
        if t in ('bool', 'const bool'):
            return s, ('A', key)
        if t in ('int', 'size_t', 'unsigned long', 'double', 'const int', 'unsigned int'):
            return s, ('#', psym(('S', key)))
        return s, ('L', ('r',) + key)

    def e_ctor(self, st, fr, e):
        t = fr.fn.ty(e.get('t'))
        out = []
        for s, vs in self.evs(st, fr, e['a']):
            r = self.c.call(self, s, fr, e, e.get('f', ''), 'ctor', None, vs)
            if r is not None:
                out += r
            elif len(vs) == 1 and (e.get('cp') or e.get('mv') or vs[0][0] == 'F' or 'ptr<' in t or vs[0][0] in ('null', 'V')):
                out.append((s, vs[0]))
            elif not vs and 'ptr<' in t:
                out.append((s, ('null',)))
            else:
                out.append((s, ('L', ('obj', id(e), fr.fid))))
        return out

    # ------------------------------------------------------------- statements
    def ex(self, st, fr, n):
        """[(state, kind, value)]"""
        if n is None:
            return [(st, 'norm', None)]
        m = getattr(self, 's_' + {'{': 'block'}.get(n['k'], n['k']), None)
        if m is not None:
            return m(st, fr, n)
        if n['k'] in ('if', 'for', 'while', 'do', 'ret', 'brk', 'cont'):
            raise AnalysisError(n['k'])
        return [(s, 'norm', None) for s, v in self.ev(st, fr, n)]

    def seq(self, states, fr, stmts):
        cur = states
        done = []
        for x in stmts:
            if x is None:
                continue
            nxt = []
            for s in cur:
                for t, k, v in self.ex(s, fr, x):
                    if k == 'norm':
                        nxt.append(t)
                    else:
                        done.append((t, k, v))
            cur = self.dedupe(nxt)
            if not cur:
                break
        return [(s, 'norm', None) for s in cur] + done

    def dedupe(self, ss):
        if len(ss) < 2:
            return ss
        seen, out = set(), []
        for s in ss:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.MAXST:
            raise AnalysisError("too many abstract states")
        return out

    def s_block(self, st, fr, n):
        return self.seq([st], fr, n['b'])

    def s_null(self, st, fr, n):
        return [(st, 'norm', None)]

    def s_if(self, st, fr, n):
        pre = []
        for k in ('init', 'cv'):
            if n.get(k):
                pre.append(n[k])
        out = []
        sts = [st]
        for x in pre:
            nxt = []
            for s in sts:
                nxt += [t for t, k, v in (self.ex(s, fr, x) if x['k'] != 'var' else self.decl(s, fr, x)) if k == 'norm']
            sts = nxt
        for s in sts:
            if n.get('cx') and 'cv1' in n:
                out += self.ex(s, fr, n['th'] if n['cv1'] else n.get('el'))
                continue
            for t, v in (self.cond(s, fr, n['c']) if n.get('c') else [(s, True), (s.copy(), False)]):
                out += self.ex(t, fr, n['th'] if v else n.get('el'))
        return out

    def s_decl(self, st, fr, n):
        cur = [st]
        for d in n['d']:
            nxt = []
            for s in cur:
                nxt += [t for t, k, v in self.decl(s, fr, d)]
            cur = nxt
        return [(s, 'norm', None) for s in cur]

    def decl(self, st, fr, d):
        if d['k'] != 'var':
            return [(st, 'norm', None)]
        t = fr.fn.ty(d.get('t'))
        if any(x in t for x in VOIDTIMERS):
            return [(st, 'norm', None)]
        path = ('loc', fr.fid, d['id'], d['n'])
        out = []
        r = self.c.decl(self, st, fr, d) if hasattr(self.c, 'decl') else None
        if r is not None:
            return [(s, 'norm', None) for s in r]
        if d.get('i') is None:
            s = st.copy()
            s.env[(fr.fid, d['id'])] = ('L', path)
            s.store.pop(path, None)
            return [(s, 'norm', None)]
        for s, v in self.ev(st, fr, d['i']):
            s = s.copy()
            scalar = t.replace('const ', '') in ('bool', 'int', 'double', 'size_t', 'unsigned long', 'float', 'char', 'unsigned int', 'long')
            if d.get('ref') or t.endswith('*') or t.endswith('&') or scalar or v[0] in ('F', 'B', 'A', 'N', '#', 'null', 'fn') or 'ptr<' in t or 'ElementRange' in t or 'T_Range' in t:
                if scalar and v[0] == 'L' and not d.get('ref'):
                    v = ('A', ('f', v[1])) if t.endswith('bool') else ('#', self.scal(s, v))
                s.env[(fr.fid, d['id'])] = v
                if d.get('ref'):
                    self.refs.add((fr.fid, d['id']))
            elif v[0] == 'L' and 'Vector' not in t and v[1][:1] in (('r',), ('obj',)):
                s.env[(fr.fid, d['id'])] = v
            elif v[0] == 'L' and any(x in t for x in ('FlatVector', 'VectorView', 'SliceVector', 'FlatArray', 'FlatTable', 'FlatSysVector')):
                s.env[(fr.fid, d['id'])] = v          # a view
            elif v[0] == 'L' and v[1][:1] in (('r',), ('obj',), ('arr',)):
                s.env[(fr.fid, d['id'])] = v
            else:
                s.env[(fr.fid, d['id'])] = ('L', path)
                if v[0] in ('V', 'L'):
                    s.store[path] = ('V', self.vec(s, v))
            out.append((s, 'norm', None))
        return out

    def s_ret(self, st, fr, n):
        if n.get('e') is None:
            return [(st, 'ret', ('void',))]
        t = fr.fn.ty(n['e'].get('t'))
        out = []
        for s, v in self.ev(st, fr, n['e']):
            out.append((s, 'ret', v))
        return out

    def s_brk(self, st, fr, n):
        return [(st, 'brk', None)]

    def s_cont(self, st, fr, n):
        return [(st, 'cont', None)]

    def s_try(self, st, fr, n):
        out = self.ex(st, fr, n['b'])
        hs = n.get('h') or []
        for h in (hs if isinstance(hs, list) else [hs]):
            out += self.ex(st, fr, h.get('b') if h.get('k') not in ('{',) and h.get('b') is not None and h['k'] == 'catch' else h)
        return out

    def s_case(self, st, fr, n):
        return self.ex(st, fr, n['b'])

    s_default = s_case

    def s_sw(self, st, fr, n):
        out = []
        body = n['b']['b'] if n['b']['k'] == '{' else [n['b']]
        labels = []
        for i, x in enumerate(body):
            while x is not None and x['k'] in ('case', 'default'):
                labels.append((i, x))
                x = x.get('b')
        for s, v in self.ev(st, fr, n['c']):
            c = pval(v[1]) if v[0] == '#' else None
            starts = []
            dflt = None
            for i, x in labels:
                if x['k'] == 'default':
                    dflt = i
                    continue
                cv = self.ev(s, fr, x['v'])[0][1]
                k = pval(cv[1]) if cv[0] == '#' else None
                if c is None or k is None:
                    key = ('case', v, k if k is not None else id(x))
                    t = s.copy()
                    if s.asm.get(key) is False:
                        continue
                    t.asm[key] = True
                    starts.append((i, t))
                elif c == k:
                    starts.append((i, s))
            if c is None or not starts:
                if dflt is not None:
                    starts.append((dflt, s))
                else:
                    out.append((s, 'norm', None))
            for i, t in starts:
                for u, k, w in self.seq([t], fr, body[i:]):
                    out.append((u, 'norm' if k == 'brk' else k, w))
        return out

    # loops -----------------------------------------------------------
    def widen(self, pre, s, node, fr):
        """state at the loop head: everything that differs from the state before the loop becomes a phi symbol"""
        r = s.copy()
        presyms = set()
        for v in pre.store.values():
            if v[0] == 'V':
                presyms |= {b for (w, b), p in v[1]}
        for k in set(s.store) | set(pre.store):
            a, b = pre.store.get(k), s.store.get(k)
            if a != b:
                if b is not None and b[0] in ('B', 'A', 'N', 'null', 'F', 'L'):
                    continue
                kind = (b or a)[0]
                if b is not None and kind == 'V':
                    nl = self.rename(b[1], node, fr, presyms)
                    if nl is not None:
                        r.store[k] = ('V', nl)
                        continue
                r.store[k] = ('V', lbase(('phi', id(node), fr.fid, k))) if kind in ('V',) else \
                    (('#', psym(('phi', id(node), fr.fid, k))) if kind == '#' else ('U', ('phi', id(node), fr.fid, k)))
        for k in list(s.env):
            a, b = pre.env.get(k), s.env.get(k)
            if a is None:
                del r.env[k]
            elif a != b:
                if b[0] in ('B', 'A', 'N', 'L', 'F', 'null', 'R'):
                    continue
                r.env[k] = ('#', psym(('phi', id(node), fr.fid, k))) if b[0] == '#' else ('U', ('phi', id(node), fr.fid, k))
        for k in list(s.asm):
            if k not in pre.asm and not self.stable(k):
                del r.asm[k]
        self.c.head(self, r, node)
        self.c.compact(self, r)
        return r

    def rename(self, lin, node, fr, presyms):
        """values built from symbols of one pass through the loop body only keep their relations: the symbols are renamed
        (consistently in the whole state) to 'the one of the previous pass'"""
        tag = ('phi', id(node), fr.fid)
        old = new = False
        r = LZERO
        for (w, b), p in lin:
            if "'phi', %d," % id(node) in repr(w) or "'phi', %d," % id(node) in repr(p) or "('h'," in repr(w) or "('h'," in repr(p):
                return None
            if isinstance(b, tuple) and b[:1] == ('h',) and b not in presyms:
                nb = tag + (b,)
                new = True
            else:
                old = old or isinstance(b, tuple) and b[:3] == tag
                nb = b
            r = ladd(r, frozenset([((w, nb), p)]))
        return None if old and new else r

    def stable(self, k):
        """an assumption about fields only survives iterations"""
        x = repr(k)
        return "'phi'" not in x and "('h'," not in x and "'iv'" not in x

    def loop(self, st, fr, n, test, body, step):
        """test(st)->[(st,bool)], body(st)->results, step(st)->[st]"""
        heads, todo, exits, done = set(), [st], [], []
        first = True
        it = 0
        while todo:
            h = todo.pop()
            k = h.key()
            if k in heads:
                continue
            heads.add(k)
            it += 1
            if it > 400:
                raise AnalysisError("loop at %s does not stabilise" % fr.fn.where(n))
            tv = test(h)
            decided = len(tv) == 1 and it <= self.c.unroll
            once = not decided and it == 1 and any(v for _, v in tv) and self.c.once(self, fr, n)
            if once:
                tv = [(s, v) for s, v in tv if v]
            for s, v in tv:
                if not v:
                    exits.append(s)
                    continue
                for t, kd, w in body(s):
                    if kd == 'brk':
                        exits.append(t)
                    elif kd in ('norm', 'cont'):
                        for u in step(t):
                            if decided:
                                todo.append(u)
                                continue
                            w2 = self.widen(st, u, n, fr)
                            if once and w2.key() in heads:
                                exits += [x for x, b in test(w2) if not b]
                            todo.append(w2)
                    else:
                        done.append((t, kd, w))
        return [(s, 'norm', None) for s in self.dedupe(exits)] + done

    def s_for(self, st, fr, n):
        out = []
        inits = [st]
        if n.get('i'):
            inits = [s for s, k, v in self.ex(st, fr, n['i'])]
        for s0 in inits:
            out += self.loop(s0, fr, n,
                             lambda s: self.cond(s, fr, n['c']) if n.get('c') else [(s, True)],
                             lambda s: self.ex(s, fr, n['b']),
                             lambda s: [t for t, v in self.ev(s, fr, n['n'])] if n.get('n') else [s])
        return out

    def s_while(self, st, fr, n):
        return self.loop(st, fr, n, lambda s: self.cond(s, fr, n['c']), lambda s: self.ex(s, fr, n['b']), lambda s: [s])

    def s_do(self, st, fr, n):
        out = []
        for s, k, v in self.ex(st, fr, n['b']):
            if k in ('norm', 'cont'):
                for t, c in self.cond(s, fr, n['c']):
                    if c:
                        out += self.s_while(t, fr, {'k': 'while', 'c': n['c'], 'b': n['b'], 'l': n.get('l')})
                    else:
                        out.append((t, 'norm', None))
            elif k == 'brk':
                out.append((s, 'norm', None))
            else:
                out.append((s, k, v))
        return out

    def s_rfor(self, st, fr, n):
        out = []
        var = n['v']
        t = fr.fn.ty(var.get('t')) if isinstance(var, dict) else ''
        for s0, rv in self.ev(st, fr, n['r']):
            if self.c.unroll:
                rv = self.c.elements(self, fr, n, rv)
            iv = ('iv', id(n), fr.fid, var.get('n'))
            if rv[0] == 'rng' and self.c.unroll:
                cur = [s0]
                for i in range(rv[1], rv[2]):
                    nxt = []
                    for s in cur:
                        s = s.copy()
                        if var.get('id') is not None:
                            s.env[(fr.fid, var['id'])] = (self.c.elem(self, s, rv[3], i) or ('L', rv[3] + (('[]', pconst(i)),))) if len(rv) > 3 else num(i)
                        for u, kd, w in self.ex(s, fr, n['b']):
                            if kd in ('norm', 'cont'):
                                nxt.append(u)
                            elif kd == 'brk':
                                out.append((u, 'norm', None))
                            else:
                                out.append((u, kd, w))
                    cur = self.dedupe(nxt)
                out += [(s, 'norm', None) for s in cur]
                continue

            def test(s):
                a, b = s.copy(), s.copy()
                for q in [q for q in a.asm if "'iv', %d" % id(n) in repr(q)]:
                    del a.asm[q]
                    del b.asm[q]
                if any(x in t for x in ('Vector', 'ptr<', 'Array', 'Matrix')) and rv[0] == 'L':
                    v = ('L', rv[1] + (('[]', psym(iv)),))
                else:
                    v = ('#', psym(iv))
                if var.get('id') is not None:
                    a.env[(fr.fid, var['id'])] = v
                for bd in var.get('b', []) or []:
                    if isinstance(bd, dict) and bd.get('id') is not None:
                        a.env[(fr.fid, bd['id'])] = ('U', iv + (bd.get('n'),))
                return [(a, True), (b, False)]

            out += self.loop(s0, fr, n, test, lambda s: self.ex(s, fr, n['b']), lambda s: [s])
        return out

    # ------------------------------------------------------------- entry
    def run(self, fn, args, store=None, cl=None, this=('this',), cls=None, asm=None):
        fr = Frame(('entry',), fn, this, (fn.key,), None, cls)
        st = State({}, dict(store or {}), dict(asm or {}), cl)
        self.inlined.add(fn.key)
        for p, v in zip(fn.j['ps'], args):
            if p.get('id') is not None:
                st.env[(fr.fid, p['id'])] = v
        out = []
        for s, k, v in self.ex(st, fr, fn.j['b']):
            if k != 'throw':
                out.append((s, v))
        return out
