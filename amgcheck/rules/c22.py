"""C22: the application modes of every operator describe one linear map.
For every matrix like class (Mult, MultAdd, MultTrans, MultTransAdd) and every level transfer (TransferF2C, AddF2C, TransferC2F,
AddC2F) the members are executed abstractly over a free module of vectors and operator words (absint), starting from unknown
vectors x, y:
 R1 the plain modes give y = W x: nothing of the old y and nothing of the contents of work vectors enters
 R2 the adding modes give y0 + s W x with the same W and the full scale s
 R3 the transposed modes give W^T (W itself for the operators that are symmetric by contract); F2C is the transpose of C2F
 R4 the input is left alone
 R5 chains of steps apply every step exactly once and in order (chains of length 1..4 run through)
Element-wise kernels and kernels that talk to other ranks are judged by a degree analysis: every update of the output is of
degree one in the scale and in the input, with coefficient one, adds where it has to add and never drops the old value."""
import re
from ..absint import Interp, Client, pval, psym, pconst, padd, num, lbase, ladd, lapply, LZERO, showl, pname, Frame
from ..facts import AnalysisError
from ..ir import walk, kids, cname

MODES = ('Mult', 'MultAdd', 'MultTrans', 'MultTransAdd')
STEPS = ('TransferF2C', 'AddF2C', 'TransferC2F', 'AddC2F')
SYMM = re.compile(r'^amg::(AMGMatrix|EmbeddedAMGMatrix|BaseAMGPC|LinearSolver|AMGAsLinearSolver|SmootherBM2?|BSmoother2SysMat<.*>|\w*Smoother2?<.*>|\w*Smoother|GSS[34]<.*>|Hybrid(BS|Smoother|BaseSmoother)<.*>)$')
STATUS = {'Distribute', 'Cumulate', 'SetParallelStatus', 'SetStatus'}
THIS = ('this',)


def word(p, t=0):
    return frozenset([(((('op', p, t),), None), pconst(1))])


def canon_op(p, t):
    """operators that are one another's transposes by construction"""
    if p and isinstance(p[-1], str) and p[-1] == '_prolT':
        return p[:-1] + ('_prol',), 1 - t
    if p and p[:1] == ('r',) and isinstance(p[1], str):
        nm = p[1].split('::')[-1]
        if nm in ('GetBaseProlTrans', 'GetBaseSparseProlTrans', 'GetProlTrans'):
            return ('r', 'GetBaseProl') + p[2:], 1 - t
        if nm in ('GetBaseSparseProl', 'GetProl'):
            return ('r', 'GetBaseProl') + p[2:], t
        if nm == 'GetBaseProl':
            return ('r', 'GetBaseProl') + p[2:], t
    return p, t


def transpose(lin_words):
    r = {}
    for (w, b), p in lin_words:
        nw = tuple(('op', x[1], 1 - x[2]) for x in reversed(w))
        r[(nw, b)] = p
    return frozenset(r.items())


class C(Client):
    def __init__(self, P, R, cls, n=0):
        self.P, self.R, self.cls_ = P, R, cls
        self.unroll = 40 if n else 0
        self.n = n

    def inline(self, I, fn, e, fr):
        return fn.name.startswith('amg::') and not re.search(r'(UniversalDofs|DCCMap|CalcInverse|Print|::CreateVector|::CreateColVector|::CreateRowVector|TransposeSPM)', fn.name)

    def size(self, p):
        if p and p[-1] in ('vecs', 'spvecs'):
            return self.n - 1
        return self.n

    def elements(self, I, fr, n, rv):
        if rv[0] == 'L' and not any(isinstance(p, tuple) and p[:1] == ('rng',) for p in rv[1]):
            return ('rng', 0, self.size(rv[1]), rv[1])
        return rv

    def op(self, I, obj, t=0):
        p, t = canon_op(obj[1] if obj[0] == 'L' else (obj,), t)
        return word(p, t)

    def call(self, I, st, fr, e, q, nm, obj, args):
        P = self.P
        if nm in STATUS:
            return [(st, ('void',))]
        if nm == 'GetParallelStatus':
            return [(st, ('#', psym(('S', ('status', obj)))))]
        if self.n:
            if nm == 'Size' and obj is not None and obj[0] == 'L' and not args and 'Array' in (q or ''):
                return [(st, num(self.size(obj[1])))]
            if nm == 'Data' and obj is not None and obj[0] == 'L' and not args and 'Array' in (q or ''):
                return [(st, obj)]
            if nm == 'Last' and obj is not None and obj[0] == 'L' and not args:
                return [(st, I.ptr(st, obj[1] + (('[]', pconst(self.size(obj[1]) - 1)),)))]
            if nm == 'Range' and obj is None and args:
                v = [pval(a[1]) if a[0] == '#' else None for a in args]
                if all(x is not None for x in v):
                    return [(st, ('rng', 0 if len(v) == 1 else int(v[0]), int(v[-1])))]
                if len(args) == 1 and args[0][0] == 'L':
                    return [(st, ('rng', 0, self.size(args[0][1])))]
        mine = obj is not None and obj[0] == 'L' and obj[1] == fr.this
        if nm in MODES and obj is not None and len(args) in (2, 3) and args[-1][0] == 'L' and q.split('::')[0] in ('amg', 'ngla'):
            if mine:
                f = P.fns.get(e.get('m'))
                f = (I.override(fr.cls, e.get('m'), nm) if fr.cls and e.get('v') and not e.get('qual') else None) or f
                if f is None or f.j.get('b') is None:
                    return self.mult(I, st, fr, e, nm, obj, args)
                if kernel(P, f):
                    return self.mult(I, st, fr, e, nm, ('L', fr.this + ('kernel:' + ('Mult' if 'Trans' not in nm else 'Trans'),)), args, True)
                return None
            return self.mult(I, st, fr, e, nm, obj, args)
        if nm in ('Mult_Sysmat', 'MultAdd_Sysmat') and obj is not None:
            return self.mult(I, st, fr, e, 'MultAdd' if 'Add' in nm else 'Mult', ('L', obj[1] + ('sysmat',)), args)
        if nm in STEPS and obj is not None and not mine:
            return self.step(I, st, fr, e, nm, obj, args)
        if nm in ('Smooth', 'SmoothV', 'SmoothW', 'SmoothBS') and obj is not None and len(args) == 2:
            s = st.copy()
            I.setvec(s, fr, e, args[0][1], lapply(word(obj[1] + (nm,)), I.vec(s, args[1])))
            return [(s, ('void',))]
        if nm in ('Smooth', 'SmoothBack') and len(args) == 6 and obj is not None and all(a[0] == 'L' for a in args[:3]):
            s = st.copy()
            key = (nm, obj[1], I.vec(s, args[0]), I.vec(s, args[1]), I.vec(s, args[2]) if args[3] == ('B', True) else None)
            I.setvec(s, fr, e, args[0][1], lbase(('fn', 'x') + key))
            I.setvec(s, fr, e, args[2][1], lbase(('fn', 'r') + key))
            return [(s, ('void',))]
        if nm == 'Solve' and obj is not None and len(args) >= 4:
            s = st.copy()
            if args[2] == ('B', True):
                I.setvec(s, fr, e, args[0][1], lapply(word(obj[1] + (nm,)), I.vec(s, args[1])))
            else:       # starts from what is there
                I.setvec(s, fr, e, args[0][1], lbase(('fn', 'solve', obj[1], I.vec(s, args[0]), I.vec(s, args[1]))))
            return [(s, ('void',))]
        if nm in ('CreateVector', 'CreateRowVector', 'CreateColVector'):
            return [(st, ('L', ('obj', id(e), fr.fid)))]
        if nm in ('GetM', 'GetG', 'GetSpM', 'GetSpG') and mine and not args:
            return [(st, ('L', obj[1] + ('_' + nm[-1],)))]
        if nm == 'Add' and obj is not None and obj[0] == 'L' and len(args) == 2 and 'Vector' in q:
            s = st.copy()
            I.setvec(s, fr, e, obj[1], ladd(I.vec(s, obj), I.vec(s, args[1]), I.scal(s, args[0])))
            return [(s, ('void',))]
        if nm == 'Set' and obj is not None and obj[0] == 'L' and len(args) == 2 and 'Vector' in q:
            s = st.copy()
            I.setvec(s, fr, e, obj[1], ladd(LZERO, I.vec(s, args[1]), I.scal(s, args[0])))
            return [(s, ('void',))]
        if nm == 'Scale' and obj is not None and obj[0] == 'L' and len(args) == 1 and 'Vector' in q:
            s = st.copy()
            I.setvec(s, fr, e, obj[1], ladd(LZERO, I.vec(s, obj), I.scal(s, args[0])))
            return [(s, ('void',))]
        if nm == 'SetScalar' and obj is not None and obj[0] == 'L' and len(args) == 1:
            s = st.copy()
            I.setvec(s, fr, e, obj[1], I.vec(s, args[0]))
            return [(s, ('void',))]
        return None

    def mult(self, I, st, fr, e, nm, obj, args, own=False):
        s = st.copy()
        self.R.count("operator applications (path-wise)")
        x, y = args[-2], args[-1]
        w = self.op(I, obj, 0 if own else int('Trans' in nm))
        new = lapply(w, I.vec(s, x))
        if 'Add' in nm:
            new = ladd(I.vec(s, y), new, I.scal(s, args[0]))
        I.setvec(s, fr, e, y[1], new)
        return [(s, ('void',))]

    def step(self, I, st, fr, e, nm, obj, args):
        s = st.copy()
        self.R.count("operator applications (path-wise)")
        a = list(args)
        p = obj[1]
        if len(a) == (4 if 'Add' in nm else 3):
            p = p + (('lev', a[0]),)
            a = a[1:]
        fac = I.scal(s, a.pop(0)) if 'Add' in nm else None
        src, dst = (a[0], a[1]) if 'F2C' in nm else (a[1], a[0])
        new = lapply(word(p, int('F2C' in nm)), I.vec(s, src))
        if fac is not None:
            new = ladd(I.vec(s, dst), new, fac)
        if dst[0] != 'L':
            raise AnalysisError("C22: cannot resolve the target of %s at %s" % (nm, fr.fn.where(e)))
        I.setvec(s, fr, e, dst[1], new)
        return [(s, ('void',))]


# ------------------------------------------------------------------------------------------------ kernels
_kern = {}


def element_views(b):
    """FV() calls that are not operands of a whole-vector assignment"""
    out = []

    def rec(n, whole):
        if n['k'] == 'call' and cname(n) in ('FV', 'FVDouble', 'FVComplex'):
            if not whole:
                out.append(n)
            if n.get('o') is not None:
                rec(n['o'], False)
            return
        if n['k'] in ('op', 'bin') and n['op'] in ('=', '+=', '-=', '*=', '*', '+', '-', '<<'):
            for x in kids(n):
                rec(x, n['op'] in ('=', '+=', '-=', '*=', '<<') or whole)
            return
        for x in kids(n):
            rec(x, whole if n['k'] in ('cast', 'darg', 'un') else False)
    rec(b, False)
    return out


def kernel(P, f, d=0):
    """works on entries of the vectors (or talks to other ranks about them)"""
    if f.key in _kern:
        return _kern[f.key]
    _kern[f.key] = False
    r = False
    b = f.j.get('b')
    if b is not None:
        if element_views(b) and any(n['k'] in ('lam', 'rfor', 'for', 'while', 'do') for n in walk(b)):
            r = True
        for n in walk(b):
            if n['k'] == 'call':
                c = cname(n)
                if c.startswith('NG_MPI_'):
                    r = True
                g = P.fns.get(n.get('m'))
                if g is not None and g.name.startswith('amg::') and g.j.get('rec') == f.j.get('rec') and d < 3 and g.j.get('b') is not None and \
                        any('BaseVector' in g.ty(p['t']) for p in g.j['ps']) and kernel(P, g, d + 1):
                    r = True
    _kern[f.key] = r
    return r


ONE = frozenset([((0, 0, 0), 1.0)])
NIL = frozenset()
ALL = frozenset(['*'])


def meet(a, b):
    return a if '*' in b else b if '*' in a else a & b


def dmul(a, b):
    return frozenset(((tuple(min(3, x + y) for x, y in zip(m, n)), c * d) for m, c in a for n, d in b))


def dneg(a):
    return frozenset((m, -c) for m, c in a)


class Val:
    __slots__ = ('root', 'deg', 'names', 'lam')

    def __init__(self, deg=ONE, root=None, names=frozenset(), lam=None):
        self.deg, self.root, self.names, self.lam = deg, root, names, lam


class Degree:
    """degrees of expressions in (scale, input, old output), with the numerical coefficient, through locals and work buffers"""

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.deg = {}
        self.nm = {}
        self.events = []
        self.sends = []
        self.depth = 0
        self.loops = 0
        self.z = NIL            # the entries (origin of the index) overwritten on this path; '*': all of them
        self.rets = []

    def read(self, v):
        if v.root is None:
            return v.deg
        if v.root == 'x':
            return frozenset([((0, 0, 1), 1.0)])
        if v.root == 'b':
            return frozenset([((0, 1, 0), 1.0)])
        return self.deg.get(v.root, ONE)

    def names(self, v):
        return v.names | self.nm.get(v.root, frozenset())

    def access(self, o, idx):
        """an entry of the input / output vector, with the data its index comes from"""
        if o.root not in ('x', 'b'):
            return frozenset()
        return frozenset([('at' if o.root == 'x' else 'in', frozenset(z for z in idx if isinstance(z, str)))])

    def write(self, fn, v, op, deg, names, node, whole=False):
        if v.root is None:
            return
        if v.root in ('x', 'b'):
            if v.root == 'x' and op == '=':
                at = [z[1] for z in names | v.names if z[:1] == ('at',)]
                self.z = self.z | {frozenset().union(*at) if at else '*'}
            self.events.append((v.root, op, deg, names | v.names, fn, node, self.z))
            return
        old = self.deg.get(v.root)
        if op == '=':
            self.deg[v.root] = deg if (whole or old is None or not self.loops) else (old | deg)
        elif op in ('+=', '-='):
            self.deg[v.root] = (old or NIL) | (deg if op == '+=' else dneg(deg))
        elif op == '*=':
            self.deg[v.root] = dmul(old if old is not None else ONE, deg)
        self.nm[v.root] = self.nm.get(v.root, frozenset()) | names

    def body(self, fn, env, b, fid):
        self.rets.append([])
        self.stmt(fn, env, b, fid)
        for r in self.rets.pop():
            self.z = meet(self.z, r)

    def run(self, fn, vals, this=None):
        env = {}
        for p, v in zip(fn.j['ps'], vals):
            if p.get('id') is not None:
                env[p['id']] = v
        self.body(fn, env, fn.j['b'], fn.key)

    def stmt(self, fn, env, n, fid):
        if n is None:
            return
        k = n['k']
        if k == '{':
            for x in n['b']:
                self.stmt(fn, env, x, fid)
        elif k == 'if':
            for x in ('init', 'cv', 'c'):
                if n.get(x):
                    self.any(fn, env, n[x], fid)
            if n.get('cx') and 'cv1' in n:
                self.stmt(fn, env, n['th'] if n['cv1'] else n.get('el'), fid)
                return
            z0 = self.z
            nl = self.nulltest(fn, env, n.get('c'), fid)
            self.stmt(fn, env, n['th'], fid)
            z1, self.z = ALL if nl is True else self.z, z0
            self.stmt(fn, env, n.get('el'), fid)
            self.z = meet(ALL if nl is False else self.z, z1)
        elif k in ('for', 'while', 'do', 'rfor'):
            self.loops += 1
            for x in ('i', 'r', 'c', 'n'):
                if n.get(x):
                    self.any(fn, env, n[x], fid)
            if k == 'rfor':
                rv = self.ev(fn, env, n['r'], fid)
                if n['v'].get('id') is not None:
                    if cname(n['r']) == 'Range' and n['r'].get('o') is None and re.match(r'(unsigned |const )*(int|long|size_t|short)', fn.ty(n['v'].get('t'))):
                        env[n['v']['id']] = Val()       # an index
                    else:
                        env[n['v']['id']] = Val(ONE, rv.root if rv.root in ('x', 'b') or isinstance(rv.root, tuple) else None, rv.names)
                for bd in n['v'].get('b') or []:
                    if isinstance(bd, dict) and bd.get('id') is not None:
                        env[bd['id']] = Val()
            self.stmt(fn, env, n['b'], fid)
            self.loops -= 1
        elif k in ('sw', 'case', 'default', 'try'):
            for x in ('c', 'v'):
                if isinstance(n.get(x), dict):
                    self.any(fn, env, n[x], fid)
            self.stmt(fn, env, n.get('b'), fid)
        elif k == 'decl':
            for d in n['d']:
                if d['k'] == 'var':
                    self.decl(fn, env, d, fid)
        elif k == 'ret':
            if n.get('e') is not None:
                v = self.ev(fn, env, n['e'], fid)
                env[('ret',)] = v
            if self.rets:
                self.rets[-1].append(self.z)
            self.z = ALL
        elif k in ('brk', 'cont'):
            pass
        else:
            self.ev(fn, env, n, fid)

    def nulltest(self, fn, env, c, fid):
        """True / False: the condition holds exactly when there is no / an output vector"""
        while c is not None and c['k'] in ('cast', 'darg'):
            c = c['e']
        if c is None:
            return None
        if c['k'] == 'un' and c['op'] == '!':
            r = self.nulltest(fn, env, c['e'], fid)
            return None if r is None else not r
        if c['k'] == 'bin' and c['op'] in ('==', '!='):
            a, b = c['a'], c['b']
            for p, q in ((a, b), (b, a)):
                while q['k'] in ('cast', 'darg'):
                    q = q['e']
                if q['k'] == 'nullptr' and self.ev(fn, env, p, fid).root == 'x':
                    return c['op'] == '=='
            return None
        if c['k'] == 'ref' and self.ev(fn, env, c, fid).root == 'x' and fn.ty(c.get('t')).rstrip().endswith('*'):
            return False
        return None

    def any(self, fn, env, n, fid):
        if n['k'] == 'decl':
            self.stmt(fn, env, n, fid)
        elif n['k'] == 'var':
            self.decl(fn, env, n, fid)
        else:
            self.ev(fn, env, n, fid)

    def decl(self, fn, env, d, fid):
        t = fn.ty(d.get('t'))
        if d.get('i') is None:
            env[d['id']] = Val(ONE, ('loc', fid, d['id']))
            self.deg.setdefault(('loc', fid, d['id']), NIL)
            return
        i = d['i']
        if re.search(r'VectorMem|^ngbla::Vector<|^ngcore::Array(Mem)?<', t) and i['k'] == 'ctor':
            env[d['id']] = Val(ONE, ('loc', fid, d['id']))
            self.deg[('loc', fid, d['id'])] = NIL
            for a in i['a']:
                self.ev(fn, env, a, fid)
            return
        v = self.ev(fn, env, i, fid)
        view = v.root is not None and (d.get('ref') or t.endswith('&') or t.endswith('*') or re.search(r'FlatVector|VectorView|SliceVector|FlatArray|FlatMatrix|BaseVector|shared_ptr|FlatTable', t))
        if v.lam is not None or view:
            env[d['id']] = v
        else:
            r = ('loc', fid, d['id'])
            self.deg[r] = self.read(v)
            self.nm[r] = self.names(v)
            env[d['id']] = Val(ONE, r)

    def ev(self, fn, env, e, fid):
        if e is None:
            return Val()
        k = e['k']
        if k in ('cast', 'darg'):
            return self.ev(fn, env, e['e'], fid)
        if k in ('int', 'flt', 'chr'):
            c = float(e['v'])
            return Val(frozenset([((0, 0, 0), c)]) if c else NIL)
        if k == 'bool':
            return Val()
        if k == 'ref':
            v = env.get(e.get('id'))
            if v is None:
                return Val()
            return v
        if k == 'this':
            return Val(ONE, ('this',))
        if k == 'mem':
            o = self.ev(fn, env, e['o'], fid) if e.get('o') is not None else None
            r = (o.root if o is not None and isinstance(o.root, tuple) and o.root[:1] == ('this',) else ('this',)) + (e['n'],)
            return Val(ONE, r, (o.names if o is not None else frozenset()) | {e['n']})
        if k == 'sub':
            o = self.ev(fn, env, e['o'], fid)
            i = self.ev(fn, env, e['i'], fid)
            return Val(o.deg, o.root, o.names | self.names(i) | self.access(o, self.names(i)), o.lam)
        if k == 'lam':
            return Val(ONE, None, frozenset(), (e, env, fn))
        if k == 'cond':
            self.ev(fn, env, e['c'], fid)
            a, b = self.ev(fn, env, e['a'], fid), self.ev(fn, env, e['b'], fid)
            return Val(self.read(a) | self.read(b), None, self.names(a) | self.names(b))
        if k == 'un':
            v = self.ev(fn, env, e['e'], fid)
            if e['op'] == '-':
                return Val(dneg(self.read(v)), None, self.names(v))
            return v
        if k in ('bin', 'op'):
            op = e['op']
            if k == 'bin':
                a = [e['a'], e['b']]
            else:
                a = e['a']
            if op in ('=', '+=', '-=', '*=') and len(a) == 2:
                l = self.ev(fn, env, a[0], fid)
                r = self.ev(fn, env, a[1], fid)
                x = a[0]
                while x['k'] in ('cast', 'darg'):
                    x = x['e']
                self.write(fn, l, op, self.read(r), self.names(r) | self.names(l), e, x['k'] == 'ref')
                return l
            if op == '()' or e.get('lamcall'):
                o = self.ev(fn, env, a[0], fid)
                vs = [self.ev(fn, env, x, fid) for x in a[1:]]
                if o.lam is not None:
                    return self.lam(fn, o.lam, vs, fid, e.get('m'))
                nn = frozenset().union(o.names, *[self.names(v) for v in vs])
                return Val(o.deg, o.root, nn | self.access(o, frozenset().union(*[self.names(v) for v in vs])))
            vs = [self.ev(fn, env, x, fid) for x in a]
            nn = frozenset().union(*[self.names(v) for v in vs]) if vs else frozenset()
            if op in ('[]', '->') or (op == '*' and len(vs) == 1):
                if op == '[]' and len(vs) == 2:
                    nn = nn | self.access(vs[0], self.names(vs[1]))
                return Val(vs[0].deg, vs[0].root, nn, vs[0].lam)
            if op == '*':
                return Val(dmul(self.read(vs[0]), self.read(vs[1])), None, nn)
            if op == '/':
                return Val(self.read(vs[0]), None, nn)
            if op in ('+', '-') and len(vs) == 2:
                if all(m == (0, 0, 0) for v in vs for m, c in self.read(v)):        # index arithmetic, weights
                    return Val(ONE, None, nn)
                return Val(self.read(vs[0]) | (self.read(vs[1]) if op == '+' else dneg(self.read(vs[1]))), None, nn)
            if op == '-':
                return Val(dneg(self.read(vs[0])), None, nn)
            return Val(ONE, None, nn)
        if k in ('call', 'ctor', 'new'):
            return self.call(fn, env, e, fid)
        for x in kids(e):
            self.ev(fn, env, x, fid)
        return Val()

    def lam(self, fn, lam, vs, fid, m=None):
        node, denv, fn = lam
        body, ps = node.get('b'), node.get('ps', [])
        if body is None:
            ins = [i for i in node.get('insts', []) if m is None or i.get('m') == m] or node.get('insts', [])
            if not ins:
                return Val()
            body, ps = ins[0]['b'], ins[0]['ps']
        if self.depth > 12:
            return Val()
        env = dict(denv)
        for i, p in enumerate(ps):
            if p.get('id') is not None:
                env[p['id']] = vs[i] if i < len(vs) else Val()
        self.depth += 1
        self.loops += 1
        self.body(fn, env, body, fid + '/l')
        self.loops -= 1
        self.depth -= 1
        return env.get(('ret',), Val())

    def call(self, fn, env, e, fid):
        nm = cname(e)
        o = self.ev(fn, env, e['o'], fid) if e.get('o') is not None else None
        vs = [self.ev(fn, env, a, fid) for a in e.get('a', [])]
        nn = frozenset().union(*([o.names] if o is not None else []), *[self.names(v) for v in vs])
        q = e.get('f', '')
        if e['k'] == 'ctor':
            if len(vs) == 1:
                return vs[0]
            for v in vs:        # a view on data
                if v.root is not None and self.read(v) != ONE:
                    return Val(ONE, v.root, nn)
            return Val(ONE, None, nn)
        if o is not None and o.root in ('x', 'b') and nm in STATUS:
            return Val()
        if nm in MODES and o is not None and len(vs) in (2, 3) and o.root not in ('x', 'b') and 'BSBlock' not in q:
            d = self.read(vs[-2])
            if len(vs) == 3:
                d = dmul(self.read(vs[0]), d)
            g = self.P.fns.get(e.get('m'))
            if o.root == ('this',) and g is not None and g.j.get('b') is not None:
                self.depth += 1
                self.run(g, vs)
                self.depth -= 1
                return Val()
            self.write(fn, vs[-1], '+=' if len(vs) == 3 else '=', d, nn, e)
            return Val()
        if nm in ('NG_MPI_Send', 'NG_MPI_Isend', 'Send', 'ISend'):
            self.sends.append((self.read(vs[0]), vs[0], fn, e))
            return Val()
        if nm in ('NG_MPI_Recv', 'NG_MPI_Irecv', 'Recv', 'IRecv'):
            self.write(fn, vs[0], '=', frozenset([((0, 1, 0), 1.0)]), nn, e, True)
            return Val()
        g = self.P.fns.get(e.get('m'))
        if g is not None and g.name.startswith('amg::') and g.j.get('b') is not None and self.depth < 10 and not re.search(r'timer|Timer|GetMPIType|GetParallelDofs|Communicator', g.name):
            self.depth += 1
            env2 = {}
            for p, v in zip(g.j['ps'], vs):
                if p.get('id') is not None:
                    env2[p['id']] = v
            self.body(g, env2, g.j['b'], fid + '/' + str(e.get('l')))
            self.depth -= 1
            return env2.get(('ret',), Val(ONE, None, nn))
        for v in vs:
            if v.lam is not None:
                self.lam(fn, v.lam, [], fid)
        if o is not None:
            return Val(o.deg, o.root, nn)
        rm = e.get('rm', 0)
        for i, v in enumerate(vs):
            if rm >> i & 1 and v.root in ('x', 'b') and nm not in ('dynamic_cast',):
                raise AnalysisError("C22: an unknown function writes the vector at %s" % fn.where(e))
        if nm in ('Trans', 'InnerProduct', 'Conj', 'abs') or len(vs) > 1:
            d = ONE
            for v in vs:
                d = dmul(d, self.read(v))
            return Val(d, None, nn)
        if len(vs) == 1:
            return Val(vs[0].deg, vs[0].root, nn)
        return Val(ONE, None, nn)


M11, M01, MX = (1, 1, 0), (0, 1, 0), (0, 0, 1)


def showd(d):
    def one(m, c):
        r = [x + ('^%d' % n if n > 1 else '') for x, n in zip(('s', 'x', 'y'), m) if n]
        return ('%g*' % c if c != 1 else '') + ('*'.join(r) or '1')
    return ' + '.join(sorted(one(m, c) for m, c in d)) or '0'


NOTIDX = {'groups', 'allgroups', 'blocks_no', 'maxbs', 'blocks', 'freedofs'}


def shown(s):
    return '[' + ', '.join(sorted(s)) + ']'


def run_kernel(P, R, cls, f, mode, add):
    D = Degree(P, cls)
    ps = f.j['ps']
    vals = []
    for p in ps:
        t = f.ty(p['t'])
        if 'Vector' in t:
            vals.append(Val(ONE, 'b' if t.startswith('const ') or ' const' in t else 'x'))
        elif add and re.search(r'double|omplex', t):
            vals.append(Val(frozenset([((1, 0, 0), 1.0)])))
        else:
            vals.append(Val())
    D.run(f, vals)
    R.count("kernels (degree analysis)")
    names = frozenset()
    pairs = set()
    first = None
    nx = 0
    for root, op, deg, nms, fn, node, zeroed in D.events:
        R.count("element updates judged")
        if root == 'b':
            R.violation("input:%s:%s" % (cls_name(cls), mode), fn.where(node), "the input vector of %s is written" % mode)
            continue
        nx += 1
        names |= frozenset(z for z in nms if isinstance(z, str))
        at = frozenset().union(*[z[1] for z in nms if z[:1] == ('at',)])
        if SYMM.match(cls) and 'ysmat' not in mode and deg:
            fac = frozenset(z for z in nms if isinstance(z, str)) - NOTIDX - {r[1] for r in D.deg if r[:1] == ('this',) and len(r) > 1}
            if first is None:
                first = fac
            elif fac != first:
                R.violation("factors:%s:%s" % (cls_name(cls), mode), fn.where(node), "one branch of %s applies %s, another one %s" % (mode, shown(first), shown(fac)))
            else:
                R.ok()
        for z in nms:
            if z[:1] == ('in',):
                pairs.add((at - NOTIDX, z[1] - NOTIDX))
                if SYMM.match(cls) and 'ysmat' not in mode:
                    if at - NOTIDX != z[1] - NOTIDX:
                        R.violation("index:%s:%s" % (cls_name(cls), mode), fn.where(node), "a symmetric operator writes entries %s from entries %s" % (shown(at), shown(z[1])))
                    else:
                        R.ok()
        if add:
            if op == '+=':
                good = all(mc == (M11, 1.0) for mc in deg)
            elif op == '=':
                good = (MX, 1.0) in deg and all(mc in ((MX, 1.0), (M11, 1.0)) for mc in deg)
            else:
                good = False
            if not good:
                R.violation("kernel:%s:%s" % (cls_name(cls), mode), fn.where(node), "%s must add s * W x to the output, but the update is y %s %s" % (mode, op, showd(deg)))
            else:
                R.ok("%s::%s adds s * W x element-wise" % (cls_name(cls), mode))
        else:
            if op == '=':
                good = all(mc == (M01, 1.0) for mc in deg)
            elif op == '+=':
                good = all(mc == (M01, 1.0) for mc in deg) and ('*' in zeroed or at in zeroed)
            else:
                good = False
            if not good:
                R.violation("kernel:%s:%s" % (cls_name(cls), mode), fn.where(node), "%s must set the output to W x, but the update is y %s %s%s" %
                            (mode, op, showd(deg), '' if op != '+=' or zeroed else ' and nothing overwrites the old values'))
            else:
                R.ok("%s::%s sets W x element-wise" % (cls_name(cls), mode))
    for deg, v, fn, node in D.sends:
        R.count("element updates judged")
        if not deg or not all(mc == (M01, 1.0) for mc in deg):
            R.violation("send:%s:%s" % (cls_name(cls), mode), fn.where(node), "%s must send the input vector as it is, but sends %s" % (mode, showd(deg)))
        else:
            R.ok()
    if not nx and not (always_throws(f)):
        R.violation("no-write:%s:%s" % (cls_name(cls), mode), f.where(), "%s never writes the output vector" % mode)
    names -= {r[1] for r in D.deg if r[:1] == ('this',) and len(r) > 1}       # work buffers
    return names, frozenset(pairs)


def always_throws(f):
    b = f.j['b']['b'] if f.j['b']['k'] == '{' else [f.j['b']]
    return any(x is not None and x['k'] == 'throw' for x in b)


def cls_name(c):
    return re.sub(r'^amg::', '', re.sub(r'<.*', '', c))


# ------------------------------------------------------------------------------------------------ drive
def all_bases(P, n, seen=None):
    seen = seen if seen is not None else []
    r = P.rec(n)
    if r:
        for b in r['bases']:
            if b[0] not in seen:
                seen.append(b[0])
                all_bases(P, b[0], seen)
    return seen


def final(P, cls, nm, complex_=False):
    """final overrider of nm(…BaseVector…) inside the library"""
    for c in [cls] + all_bases(P, cls):
        if not c.startswith('amg::'):
            continue
        r = P.rec(c)
        for x in (r or {}).get('methods', []):
            if x['n'] == nm:
                f = P.fns.get(x['m'])
                if f is None or f.j.get('b') is None:
                    if f is None and not x.get('pure'):
                        continue
                    return None
                ts = [f.ty(p['t']) for p in f.j['ps']]
                if not any('BaseVector' in t for t in ts):
                    continue
                if any('omplex' in t for t in ts) != complex_:
                    continue
                return f
    return None


def inits(lin, acc=None):
    """initial vector contents a value depends on"""
    acc = acc if acc is not None else set()

    def rec(o):
        if isinstance(o, tuple):
            if len(o) == 2 and o[0] == 'init':
                acc.add(o[1])
                return
            for x in o:
                rec(x)
        elif isinstance(o, frozenset):
            for x in o:
                rec(x)
    for (w, b), p in lin:
        rec(b)
    return acc


def compatible(a, b):
    return all(b.asm[k] == v for k, v in a.asm.items() if k in b.asm)


def run_mode(P, R, cls, f, mode, n, lead=()):
    c = C(P, R, cls, n)
    I = Interp(P, c)
    x, y = ('x',), ('y',)
    args = list(lead)
    s = psym(('S', ('scale',)))
    for p in f.j['ps'][len(lead):]:
        t = f.ty(p['t'])
        if 'Vector' in t:
            args.append(('L', x if t.startswith('const ') or ' const' in t else y))
        else:
            args.append(('#', s))
    X, Y = lbase(('init', x)), lbase(('init', y))
    res = I.run(f, args, {x: ('V', X), y: ('V', Y)}, (), cls=cls)
    R.count("abstract runs")
    out = []
    for st, v in res:
        if I.vec(st, ('L', x)) != X:
            R.violation("input:%s:%s" % (cls_name(cls), mode), f.where(), "%s changes its input to %s" % (mode, showl(I.vec(st, ('L', x)))))
        else:
            R.ok()
        r = I.vec(st, ('L', y))
        if 'Add' in mode:
            d = ladd(r, Y, pconst(-1))
            # d must be s * something free of s
            w = {}
            bad = False
            for t, p in d:
                q = {}
                for m, k in p:
                    m = list(m)
                    if ('S', ('scale',)) not in m:
                        bad = True
                        break
                    m.remove(('S', ('scale',)))
                    if ('S', ('scale',)) in m:
                        bad = True
                    q[tuple(m)] = k
                if bad:
                    break
                w[t] = frozenset(q.items())
            if bad or not d:
                R.violation("add:%s:%s" % (cls_name(cls), mode), f.where(), "%s must give y + s W x, but gives %s" % (mode, showl(r)))
                continue
            r = frozenset(w.items())
        dep = inits(r)
        extra = sorted(pname(z) for z in dep if z != x)
        if extra:
            R.violation("old:%s:%s" % (cls_name(cls), mode), f.where(), "the result of %s depends on the previous contents of %s: %s" % (mode, ', '.join(extra), showl(r)))
            continue
        if x not in dep:
            R.violation("const:%s:%s" % (cls_name(cls), mode), f.where(), "the result of %s does not depend on the input: %s" % (mode, showl(r)))
            continue
        R.ok("%s::%s: y = %s" % (cls_name(cls), mode, showl(r)))
        out.append((st, r))
    return out


def words(lin):
    """(ok, operator words) when lin is a plain linear image of x"""
    return all(b == ('init', ('x',)) and all(isinstance(z, tuple) and z[0] == 'op' for z in w) for (w, b), p in lin)


def agree(P, R, cls, fa, ma, ra, fb, mb, rb, how):
    for sa, a in ra:
        for sb, b in rb:
            if not compatible(sa, sb):
                continue
            if how == 'same' or how == 'sym':
                good = a == b or how == 'sym' and words(a) and b == transpose(a)
            else:
                good = words(a) and b == transpose(a)
            if not good:
                R.violation("agree:%s:%s-%s" % (cls_name(cls), ma, mb), fb.where(), "%s and %s do not describe the same map: %s and %s" % (ma, mb, showl(a), showl(b)))
            else:
                R.ok("%s: %s and %s agree" % (cls_name(cls), ma, mb))


def names_agree(R, cls, fa, ma, ra, fb, mb, rb, trans=False):
    drop = {'group', 'groups', 'allgroups', 'blocks_no', 'maxbs', 'freedofs', 'xdofs'}
    (na, pa), (nb, pb) = ra, rb
    if not trans and na - drop != nb - drop:
        R.violation("factors:%s:%s-%s" % (cls_name(cls), ma, mb), fb.where(), "%s and %s do not use the same data: only one of them uses %s" %
                    (ma, mb, ', '.join(sorted((na - drop) ^ (nb - drop)))))
    else:
        R.ok("%s: %s and %s use the same data" % (cls_name(cls), ma, mb))
    want = frozenset((j, i) for i, j in pa) if trans else pa
    if want != pb:
        d = sorted('%s<-%s' % (shown(i), shown(j)) for i, j in want ^ pb)
        R.violation("index:%s:%s-%s" % (cls_name(cls), ma, mb), fb.where(), "%s and %s do not connect the same entries%s: %s" % (ma, mb, ' (transposed)' if trans else '', '; '.join(d)))
    else:
        R.ok("%s: %s and %s connect the same entries" % (cls_name(cls), ma, mb))


def one_per_pattern(names):
    seen, out = {}, []
    for n in sorted(names):
        k = re.sub(r'<.*>', '<>', n)
        if k not in seen:
            seen[k] = n
            out.append(n)
    return out


def modes_of(P, R, cls):
    got = {}
    for m in MODES:
        f = final(P, cls, m)
        if f is None or always_throws(f):
            continue
        if kernel(P, f):
            got[m] = (f, 'k', run_kernel(P, R, cls, f, m, 'Add' in m))
        else:
            got[m] = (f, 'a', run_mode(P, R, cls, f, m, 3))
        g = final(P, cls, m, True)
        if g is not None and not always_throws(g):
            if kernel(P, g):
                run_kernel(P, R, cls, g, m, 'Add' in m)
            else:
                r = run_mode(P, R, cls, g, m, 3)
                if got[m][1] == 'a':
                    agree(P, R, cls, f, m, got[m][2], g, m + ' (complex)', r, 'same')
    sym = bool(SYMM.match(cls))

    def comp(a, b, how):
        if a in got and b in got:
            if got[a][1] == got[b][1] == 'a':
                agree(P, R, cls, got[a][0], a, got[a][2], got[b][0], b, got[b][2], how)
            elif got[a][1] == got[b][1] == 'k':
                names_agree(R, cls, got[a][0], a, got[a][2], got[b][0], b, got[b][2], how == 'trans')
    comp('Mult', 'MultAdd', 'same')
    comp('MultTrans', 'MultTransAdd', 'same')
    comp('Mult', 'MultTrans', 'sym' if sym else 'trans')
    comp('MultAdd', 'MultTransAdd', 'sym' if sym else 'trans')
    return got


def loops(f):
    return any(n['k'] in ('for', 'rfor', 'while', 'do') for n in walk(f.j['b']))


def chain(R, cls, f, m, n, r):
    """a composed step applies every part exactly once, in order (coarse to fine: 0 .. n-1)"""
    seqs = [[z[1] for z in w if z[0] == 'op'] for (w, b), p in r]
    if len(seqs) == 1 and all(len(q) >= 2 and q[-1][:1] == ('[]',) for q in seqs[0]) and len(set(q[:-1] for q in seqs[0])) == 1:
        idx = [pval(q[-1][1]) for q in seqs[0]]
        if idx == (list(range(n)) if 'C2F' in m else list(range(n))[::-1]) or (len(idx) == 1 and n > 1 and not any(x for x in idx)):
            R.ok("chain of %d steps in order" % n)
            return
    R.violation("chain:%s:%s" % (cls_name(cls), m), f.where(), "with %d parts %s applies %s" % (n, m, showl(r)))


def steps_of(P, R, cls):
    got = {}
    if not any(final(P, cls, m) is not None and final(P, cls, m).j.get('b') is not None for m in STEPS):
        return got
    for n in (1, 2, 3, 4) if any(f is not None and f.j.get('b') is not None and loops(f) and not kernel(P, f) for f in [final(P, cls, m) for m in STEPS]) else (0,):
        got = {}
        for m in STEPS:
            f = final(P, cls, m)
            if f is None or always_throws(f):
                continue
            if kernel(P, f):
                got[m] = (f, 'k', run_kernel(P, R, cls, f, m, 'Add' in m))
            else:
                got[m] = (f, 'a', run_mode(P, R, cls, f, m, n))
                if n:
                    for st, r in got[m][2]:
                        chain(R, cls, f, m, n, r)

        def comp(a, b, how):
            if a in got and b in got:
                if got[a][1] == got[b][1] == 'a':
                    agree(P, R, cls, got[a][0], a, got[a][2], got[b][0], b, got[b][2], how)
                elif got[a][1] == got[b][1] == 'k':
                    names_agree(R, cls, got[a][0], a, got[a][2], got[b][0], b, got[b][2], how == 'trans')
        comp('TransferF2C', 'AddF2C', 'same')
        comp('TransferC2F', 'AddC2F', 'same')
        comp('TransferC2F', 'TransferF2C', 'trans')
    return got


def dofmap(P, R):
    """the level-wise transfers of the map apply the step of that level"""
    r = P.rec('amg::DOFMap')
    k = 0
    for x in r['methods']:
        if x['n'] not in STEPS:
            continue
        f = P.fns.get(x['m'])
        if f is None or f.j.get('b') is None:
            continue
        lev = ('#', psym(('S', ('level',))))
        c = C(P, R, 'amg::DOFMap')
        for st, res in run_mode(P, R, 'amg::DOFMap', f, x['n'], 0, (lev,)):
            ws = [w for (w, b), p in res]
            good = len(ws) == 1 and len(ws[0]) == 1 and ws[0][0][1] == ('this', 'steps', ('[]', lev[1])) and ws[0][0][2] == int('F2C' in x['n']) and \
                all(p == pconst(1) for t, p in res)
            if not good:
                R.violation("level:DOFMap:%s" % x['n'], f.where(), "%s of the map applies %s instead of the step of that level" % (x['n'], showl(res)))
            else:
                R.ok("DOFMap::%s applies the step of its level" % x['n'])
        k += 1
    return k


def run(P, R):
    ms, ss = [], []
    for n in P.recs:
        if not n.startswith('amg::'):
            continue
        bs = all_bases(P, n)
        if any(b.endswith('::BaseDOFMapStep') for b in bs):
            ss.append(n)
        elif any(b.endswith(('::BaseMatrix', '::Preconditioner')) for b in bs) or any(final(P, n, m) for m in MODES):
            ms.append(n)
    done = set()
    nm = ns = 0
    for c in one_per_pattern(ms):
        fs = tuple((final(P, c, m) or P).__class__.__name__ and (final(P, c, m).key if final(P, c, m) else None) for m in MODES)
        if not any(fs):
            continue
        nm += 1
        modes_of(P, R, c)
    for c in one_per_pattern(ss):
        if not any(final(P, c, m) for m in STEPS):
            continue
        ns += 1
        steps_of(P, R, c)
    R.need("operator classes", nm, 15)
    R.need("level transfer classes", ns, 5)
    R.need("level-wise transfers of DOFMap", dofmap(P, R), 4)
    # the block operator behind BSmoother2SysMat
    seen = set()
    for a, b in (('Mult_Sysmat', 'MultAdd_Sysmat'),):
        fa = [f for f in P.fns.values() if f.name.endswith('::' + a) and not f.key.startswith('P:') and f.j.get('b') is not None]
        for f in sorted(fa, key=lambda f: f.name)[:1]:
            g = [h for h in P.fns.values() if h.name == f.name.replace(a, b) and h.j.get('b') is not None]
            if not g:
                raise AnalysisError("C22: %s without %s" % (a, b))
            na = run_kernel(P, R, f.j['rec'], f, a, False)
            nb = run_kernel(P, R, f.j['rec'], g[0], b, True)
            names_agree(R, f.j['rec'], f, a, na, g[0], b, nb)
            seen.add(f.key)
    R.expl.append("Every matrix-like class and every level transfer of the library was executed abstractly in all its application modes from unknown vectors; "
                  "the results were compared as formal operator words (same map, transposed map, scaled and added to the old output, independent of old output and work vectors). "
                  "Element-wise kernels were judged by the degree of every update in scale, input and old output.")
