"""C25: all variants of a local smoothing step perform the same update.
The entry level code of the local smoothers (rows of Gauss-Seidel smoothers, blocks of block smoothers, with the variants that use
or produce residuals, exploit zero starts, or keep parts of A x) is executed abstractly for ONE generic row or block of two rows
with neighbours that are smoothed before and after it.  Entries of vectors are linear forms over b, x and the changes of the
neighbours, coefficients are words over the (not commuting, not symmetric) blocks of A and the inverse of its diagonal block.
The smoothers are set up by their own code.
 R1 the block inverted is the diagonal block of A over the rows of the block (free rows, replaced diagonals included)
 R2 whatever the flags: x changes in the rows of the block by  omega M (b - A x),  x the iterate at that moment, and nowhere else
 R3 on return with update_res the residual in these rows is b - A x, b unchanged
 R4 one step of the smoother as an operator (MultAdd) adds  s M b"""
import hashlib
import re
from ..absint import Interp, Client, State, Frame, pval, psym, pconst, padd, pmul, num, lbase, ladd, lapply, lscale, LZERO, showl, pname
from ..facts import AnalysisError
from ..ir import cname

N = 5
BS = 2
BLOCKS = ((0,), (1, 2), (3,))            # row 4 is in no block
COLROWS = {0: [0, 1], 1: [0, 1, 2, 4], 2: [1, 2, 3], 3: [2, 3, 4], 4: [1, 3, 4]}   # 0 and 3 are not coupled
ROWS = {0: [0, 1, 3], 1: [0, 1, 2, 4], 2: [1, 2, 3], 3: [0, 2, 3], 4: [1, 4]}
OVERLAP = ((0,), (1, 2), (2, 4))       # 2 and 4 are not coupled
DBLOCKS = ((0,), (1, 2), (3,), (4,))
DENSE = {0: [0, 1, 2], 1: [0, 1, 2, 3, 4], 2: [0, 1, 2, 3, 4], 3: [1, 2, 3], 4: [1, 2, 4]}
ONE = frozenset([(((), None), pconst(1))])


def W(*w):
    return frozenset([(((tuple(w),), None), pconst(1))])


def opmul(a, b):
    r = LZERO
    for (x, _), p in a:
        r = ladd(r, frozenset(((x + y, None), q) for (y, _), q in b), p)
    return r


def tword(w):
    if w[0] == 'A' and len(w) == 3:
        return ('A', w[2], w[1])
    if w[0] == 'Inv':
        return ('Inv', tkey(w[1]), w[3], w[2])
    if w[0] == 'T':
        return w[1]
    return ('T', w)


def tkey(D):
    return frozenset(((j, i), trans(o)) for (i, j), o in D)


def trans(o):
    return frozenset(((tuple(tword(x) for x in reversed(w)), b), p) for (w, b), p in o)


def cmp(o, i, j):
    """component (i,j) of the block o"""
    return frozenset([(((('cmp', o, i, j),), None), pconst(1))]) if o else LZERO


def uncmp(get):
    """the block with the components get(i,j)"""
    ws = {(i, j): get(i, j) for i in range(BS) for j in range(BS)}
    if all(w == LZERO for w in ws.values()):
        return LZERO
    r = None
    for (i, j), w in ws.items():
        if w is None:
            return None
        if len(w) != 1:
            return W('comp', frozenset(ws.items()))
        ((u, b), p), = w
        if b is not None or pval(p) != 1 or len(u) != 1 or u[0][0] != 'cmp' or u[0][2:] != (i, j) or r not in (None, u[0][1]):
            return W('comp', frozenset(ws.items()))
        r = u[0][1]
    return r


def hascmp(ent):
    return any(x[0] == 'cmp' for o in ent.values() if o for (w, b), p in o for x in w)


def invert(ent):
    """inverse of a dense matrix given by its entries; a matrix of components is inverted as the block matrix it is"""
    n = max(i for i, j in ent) + 1
    if n % BS == 0 and hascmp(ent):
        bl = {(i, j): uncmp(lambda a, b: ent.get((BS * i + a, BS * j + b))) for i in range(n // BS) for j in range(n // BS)}
        if None not in bl.values() and any(bl.values()):
            v = inverse(bl)
            return {(BS * i + a, BS * j + b): cmp(o, a, b) for (i, j), o in v.items() for a in range(BS) for b in range(BS)}
    return inverse(ent)


def inverse(ent):
    """{(i,j): op} -> {(i,j): op} of the inverse; decouples into the connected parts"""
    idx = sorted({i for i, j in ent} | {j for i, j in ent})
    ent = {k: v for k, v in ent.items() if v}
    comp = {i: i for i in idx}
    for i, j in ent:
        a, b = comp[i], comp[j]
        for k in idx:
            if comp[k] == b:
                comp[k] = a
    r = {}
    for i in idx:
        for j in idx:
            if comp[i] != comp[j]:
                r[i, j] = LZERO
                continue
            part = [k for k in idx if comp[k] == comp[i]]
            if part == [i] and ent.get((i, i)) == ONE:
                r[i, j] = ONE
                continue
            D = frozenset((k, v) for k, v in ent.items() if k[0] in part)
            r[i, j] = frozenset([(((('Inv', D, i, j),), None), pconst(1))])
    return r


# ---------------------------------------------------------------- equality of linear forms modulo D Inv(D) = 1 (polynomial identity testing)
PR = (1 << 61) - 1


def rnd(*key):
    h = int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], 'big')
    return h % (PR - 1) + 1


def mm(a, b):
    return tuple(tuple(sum(x * y for x, y in zip(r, c)) % PR for c in zip(*b)) for r in a)


def madd(a, b, f=1):
    return tuple(tuple((x + f * y) % PR for x, y in zip(r, t)) for r, t in zip(a, b))


def tr(a):
    return tuple(zip(*a))


def minv(M):
    n = len(M)
    A = [list(r) + [int(i == j) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = next((k for k in range(i, n) if A[k][i] % PR), None)
        if p is None:
            return None
        A[i], A[p] = A[p], A[i]
        f = pow(A[i][i], PR - 2, PR)
        A[i] = [x * f % PR for x in A[i]]
        for k in range(n):
            if k != i and A[k][i]:
                g = A[k][i]
                A[k] = [(x - g * y) % PR for x, y in zip(A[k], A[i])]
    return tuple(tuple(r[n:]) for r in A)


I2 = ((1, 0), (0, 1))
ZZ = ((0, 0), (0, 0))
_ev = {}


def evw(w):
    """value of a word's letter: A symmetric, everything else random"""
    r = _ev.get(w)
    if r is not None:
        return r
    if w[0] == 'A' and w[1] > w[2]:
        r = tr(evw(('A', w[2], w[1])))
    elif w[0] == 'T':
        r = tr(evw(w[1]))
    elif w[0] == 'cmp':
        f = evop(w[1])[w[2]][w[3]]
        r = ((f, 0), (0, f))
    elif w[0] == 'comp':
        D = dict(w[1])
        r = tuple(tuple(evop(D[i, j])[0][0] if D[i, j] else 0 for j in range(2)) for i in range(2))
    elif w[0] == 'Inv' and w[1]:
        D = dict(w[1])
        idx = sorted({i for i, j in D} | {j for i, j in D})
        M = [[0] * (2 * len(idx)) for _ in range(2 * len(idx))]
        for (i, j), o in D.items():
            v = evop(o)
            for a in range(2):
                for b in range(2):
                    M[2 * idx.index(i) + a][2 * idx.index(j) + b] = v[a][b]
        m = minv(M)
        if m is None:
            r = tuple(tuple(rnd('sing', w, a, b) for b in range(2)) for a in range(2))
        else:
            a, b = 2 * idx.index(w[2]), 2 * idx.index(w[3])
            r = tuple(tuple(m[a + i][b + j] for j in range(2)) for i in range(2))
    else:
        r = tuple(tuple(rnd(w, a, b) for b in range(2)) for a in range(2))
        if w[0] in ('A', 'md') and (w[0] == 'md' or w[1] == w[2]):
            r = (r[0], (r[0][1], r[1][1]))
    _ev[w] = r
    return r


def evp(p):
    c = pval(p)
    if c is not None:
        n, d = float(c).as_integer_ratio()
        return n * pow(d, PR - 2, PR) % PR
    t = 0
    for m, k in p:
        f = evp(pconst(k))
        for x in m:
            f = f * rnd('sym', x) % PR
        t += f
    return t % PR


def evop(o):
    r = ZZ
    for (w, _), p in o:
        m = I2
        for x in w:
            m = mm(m, evw(x))
        r = madd(r, m, evp(p))
    return r


def evlin(l):
    """the value of a linear form"""
    r = (0, 0)
    for (w, b), p in l:
        v = b[1] if isinstance(b, tuple) and b[:1] == ('val',) else (rnd('base', b, 0), rnd('base', b, 1))
        for x in reversed(w):
            m = evw(x)
            v = tuple(sum(m[i][j] * v[j] for j in range(2)) % PR for i in range(2))
        f = evp(p)
        r = tuple((r[i] + f * v[i]) % PR for i in range(2))
    return r


def isunknown(b):
    if not isinstance(b, tuple) or not b:
        return False
    if b[0] == 'cmp':
        return unknown(b[1])
    if b[0] == 'comp':
        return any(unknown(o) for k, o in b[1] if o)
    if b[0] == 'Inv':
        return any(unknown(o) for k, o in b[1])
    return b[0] in ('strange', 'unset', 'U')


def unsets(z):
    """the names of the memory never written that a letter stands for, None for anything else that is unknown"""
    if not isinstance(z, tuple) or not z:
        return
    if z[0] in ('strange', 'U'):
        yield None
    elif z[0] == 'unset':
        yield str(z[1])
    elif z[0] in ('cmp', 'comp', 'Inv'):
        for o in ([z[1]] if z[0] == 'cmp' else [o for k, o in z[1]]):
            for (w, b), p in o or ():
                for x in w + (b,):
                    yield from unsets(x)


def unknown(o):
    return any(isunknown(b) or any(isunknown(x) for x in w) for (w, b), p in o)


def short(l):
    """long linear forms are carried on by their value"""
    if len(l) > 60 and not unknown(l):
        return lbase(('val', evlin(l)))
    if len(l) > 60:
        us = [u for (w, b), p in l for z in w + (b,) for u in unsets(z)]
        return lbase(('strange', 'long') if None in us or not us else ('unset', us[0]))
    return l


def same(a, b):
    return a == b or evlin(a) == evlin(b)


def name(w):
    if w[0] == 'A':
        return 'A(%s,%s)' % w[1:3]
    if w[0] == 'Inv':
        return 'M(%s,%s)' % (w[2], w[3])
    if w[0] == 'T':
        return name(w[1]) + '^T'
    return '.'.join(str(z) for z in w)


def bname(b):
    if isinstance(b, tuple) and b[:1] == ('e',):
        return '%s_%s%s' % (b[1], b[2], "'" * b[3] if len(b) > 3 else '')
    return pname(b) if b is not None else ''


def show(l, n=8):
    ts = []
    for (w, b), p in sorted(l, key=lambda z: (len(z[0][0]), repr(z))):
        c = pval(p)
        f = '' if c == 1 else '-' if c == -1 else ('%g ' % c if c is not None else pname(p) + ' ')
        ts.append(f + ' '.join([name(x) for x in w] + [bname(b)]).strip())
    return ' + '.join(ts[:n]) + (' + ... (%d terms)' % len(ts) if len(ts) > n else '') if ts else '0'


def V(l):
    return ('V', l)


def isent(p):
    return bool(p) and isinstance(p[-1], tuple) and p[-1][:1] == ('v',)


def ismat(p):
    return bool(p) and isinstance(p[-1], tuple) and p[-1][:1] in (('()',), ('m',), ('c',))


class EI(Interp):
    """values: 'V' entry of a vector, 'T' vector of entries, 'M' entry of a matrix, 'BM' dense block"""

    # ------------------------------------------------------------ places
    def vsize(self, st, p):
        if isinstance(p[-1], tuple) and p[-1][:1] == ('rg',):
            return p[-1][2] - p[-1][1]
        if isinstance(p[-1], tuple) and p[-1][:1] == ('sel',):
            return len(p[-1][1])
        v = st.store.get(('len', p))
        if v is not None:
            return v[1]
        return self.c.vlen(p)

    def vent(self, p, i):
        """path of entry i of a vector view"""
        while isinstance(p[-1], tuple):
            if p[-1][:1] == ('rg',):
                i, p = i + p[-1][1], p[:-1]
            elif p[-1][:1] == ('sel',):
                i, p = p[-1][1][i], p[:-1]
            else:
                break
        if isinstance(p[-1], tuple) and p[-1][:1] == ('rowval',):
            return p + (('m', i),)
        return p + (('v', i),)

    def entry(self, st, p):
        w = st.store.get(p)
        if w is not None and w[0] == 'V':
            return w[1]
        if w is not None and w[0] == '#' and pval(w[1]) == 0.0:
            return LZERO
        f = st.store.get(('fill', p[:-1]))
        if f is not None:
            return LZERO
        if p[:-1] in self.c.glob:
            return lbase(('e', self.c.glob[p[:-1]], p[-1][1]))
        return lbase(('unset', pname(p)))

    def mentry(self, st, p):
        w = st.store.get(p)
        if w is not None and w[0] == 'M':
            return w[1]
        f = st.store.get(('fill', p[:-1]))
        if f is not None:
            return LZERO
        if p[-1][0] == 'c' and ismat(p[:-1]):
            return cmp(self.mentry(st, p[:-1]), p[-1][1], p[-1][2])
        return self.c.minit(self, st, p)

    def gather(self, st, p):
        n = self.c.bsize(self, st, p)
        return tuple(tuple(self.mentry(st, p + (('()', i, j),)) for j in range(n[1])) for i in range(n[0]))

    def val(self, st, fr, v, e=None):
        if v[0] != 'L':
            return v
        p = v[1]
        if isent(p):
            return V(self.entry(st, p))
        if ismat(p):
            return ('M', self.mentry(st, p))
        w = st.store.get(p)
        if w is not None:
            return w
        if p and isinstance(p[-1], tuple) and p[-1][:1] in (('rg',), ('sel',)):
            return ('T', tuple(self.entry(st, self.vent(p, i)) for i in range(self.vsize(st, p))))
        t = fr.fn.ty(e.get('t')) if e is not None else ''
        if self.isvec(t):
            n = self.vsize(st, p)
            if n is not None:
                return ('T', tuple(self.entry(st, self.vent(p, i)) for i in range(n)))
        if 'MatrixView' in t or 'FlatMatrix' in t:
            return ('BM', self.gather(st, p))
        return v

    VT = re.compile(r'VectorView<|FlatVector<|::Vector<|VectorMem<|BaseVector|AutoVector|RowsArrayExpr|S_BaseVector|VVector')

    def isvec(self, t):
        return bool(self.VT.search(t)) and not re.search(r'ptr<|Expr<(?!ngbla::VectorView)', t.replace('RowsArrayExpr<', ''))

    def vec(self, st, v):
        if v[0] == 'V':
            return v[1]
        if v[0] == 'L' and isent(v[1]):
            return self.entry(st, v[1])
        return Interp.vec(self, st, v)

    # ------------------------------------------------------------ arithmetic
    def arith(self, s, op, a, b, fr=None, e=None):
        ea, eb = self.sides(e)
        a, b = self.val(s, fr or self.fr0, a, ea), self.val(s, fr or self.fr0, b, eb)
        f = pconst(1 if op == '+' else -1)
        if op in ('+', '-'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'V' and y[0] == '#' and pval(y[1]) == 0.0:
                    y = V(LZERO)
                    a, b = (x, y) if x is a else (y, x)
                    break
            if a[0] == b[0] == 'V':
                return V(ladd(a[1], b[1], f))
            if a[0] == b[0] == 'M':
                return ('M', ladd(a[1], b[1], f))
            if a[0] == b[0] == 'T' and len(a[1]) == len(b[1]):
                return ('T', tuple(ladd(x, y, f) for x, y in zip(a[1], b[1])))
            if a[0] == b[0] == 'BM' and len(a[1]) == len(b[1]):
                return ('BM', tuple(tuple(ladd(x, y, f) for x, y in zip(r, t)) for r, t in zip(a[1], b[1])))
            if a[0] in ('V', 'T', 'M', 'BM') or b[0] in ('V', 'T', 'M', 'BM'):
                return ('U', (op, a, b))
        if op == '+' and a[0] == 'L' and b[0] == '#' and pval(b[1]) is not None and e is not None and fr.fn.ty(e.get('t')).endswith('*'):
            return ('L', a[1] + (('addr', int(pval(b[1]))),))
        if op == '/' and a[0] == b[0] == '#' and pval(b[1]):
            return ('#', pmul(a[1], pconst(1.0 / pval(b[1]))))
        return Interp.arith(self, s, op, a, b)

    def sides(self, e):
        if e is None:
            return None, None
        return (e['a'], e['b']) if e['k'] == 'bin' else (e['a'][0], e['a'][1]) if e['k'] == 'op' and len(e['a']) > 1 else (None, None)

    def mulop(self, s, fr, e, a, b):
        ea, eb = self.sides(e)
        if a[0] == 'L' and 'SparseMatrix' in fr.fn.ty(ea.get('t')) or a[0] == 'L' and re.search('BaseMatrix', fr.fn.ty(ea.get('t'))):
            v = self.val(s, fr, b, eb)
            if v[0] == 'T' and len(v[1]) == N:
                return ('T', tuple(self.c.rowtimes(self, s, a[1], i, v[1]) for i in range(N)))
        a, b = self.val(s, fr, a, ea), self.val(s, fr, b, eb)
        r = self.mul(a, b)
        return r if r is not None else ('U', ('*', a, b))

    def mul(self, a, b):
        k = a[0] + ' ' + b[0]
        if k == '# #':
            return ('#', pmul(a[1], b[1]))
        if k in ('# V', '# M'):
            return (b[0], lscale(b[1], a[1]))
        if k in ('V #', 'M #'):
            return (a[0], lscale(a[1], b[1]))
        if k == '# T':
            return ('T', tuple(lscale(x, a[1]) for x in b[1]))
        if k == '# BM':
            return ('BM', tuple(tuple(lscale(x, a[1]) for x in r) for r in b[1]))
        if k in ('T #', 'BM #'):
            return self.mul(b, a)
        if k == 'M V':
            return V(lapply(a[1], b[1]))
        if k == 'M M':
            return ('M', opmul(a[1], b[1]))
        if k == 'BM T':
            if a[1] and len(a[1][0]) != len(b[1]):
                return ('U', ('sizes differ', len(a[1][0]), len(b[1])))
            out = []
            for r in a[1]:
                x = LZERO
                for o, l in zip(r, b[1]):
                    x = ladd(x, lapply(o, l))
                out.append(x)
            return ('T', tuple(out))
        return None

    # ------------------------------------------------------------ stores
    def setplace(self, st, fr, e, p, v, t):
        """the value of place p becomes v (in place)"""
        v = self.val(st, fr, v)
        if isent(p):
            if v[0] == '#' and pval(v[1]) == 0.0:
                v = V(LZERO)
            st.store[p] = V(short(v[1])) if v[0] == 'V' else V(lbase(('strange', pname(('x',)), repr(v)[:200])))
            return
        if ismat(p):
            if v[0] == '#':
                v = ('M', lscale(ONE, v[1]))
            st.store[p] = v if v[0] == 'M' else ('M', W('strange', repr(v)[:200]))
            for k in [k for k in st.store if k[:-1] == p and isinstance(k[-1], tuple) and k[-1][:1] == ('c',)]:
                del st.store[k]
            if p[-1][0] == 'c':
                o = uncmp(lambda i, j: self.mentry(st, p[:-1] + (('c', i, j),)))
                if o is not None:
                    st.store[p[:-1]] = ('M', o)
            return
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('cols',) and isinstance(p[-2], tuple) and p[-2][:1] == ('rows',) and v[0] == 'M':
            for i in range(p[-2][2] - p[-2][1]):
                for j in range(p[-1][2] - p[-1][1]):
                    st.store[p[:-2] + (('()', p[-2][1] + i, p[-1][1] + j),)] = ('M', cmp(v[1], i, j))
            return
        if p and isinstance(p[-1], tuple) and p[-1][:1] in (('row',), ('col',)):
            n = self.c.bsize(self, st, p[:-1])
            for k in range(n[1] if p[-1][0] == 'row' else n[0]):
                q = p[:-1] + (('()', p[-1][1], k) if p[-1][0] == 'row' else ('()', k, p[-1][1]),)
                self.setplace(st, fr, e, q, v, '')
            return
        if 'MatrixView' in t or 'FlatMatrix' in t:
            if v[0] == '#':
                for k in [k for k in st.store if k[:len(p)] == p and len(k) == len(p) + 1]:
                    del st.store[k]
                st.store[('fill', p)] = v
            elif v[0] == 'BM':
                for i, r in enumerate(v[1]):
                    for j, x in enumerate(r):
                        st.store[p + (('()', i, j),)] = ('M', x)
            return
        if self.isvec(t) or p and isinstance(p[-1], tuple) and p[-1][:1] in (('rg',), ('sel',)):
            n = self.vsize(st, p)
            if v[0] == '#' and pval(v[1]) == 0.0:
                for i in range(n or 0):
                    st.store[self.vent(p, i)] = V(LZERO)
                if n is None:
                    for k in [k for k in st.store if k[:len(p)] == p and len(k) == len(p) + 1]:
                        del st.store[k]
                    st.store[('fill', p)] = v
                return
            if v[0] == 'T':
                if n is not None and n != len(v[1]):
                    v = ('T', tuple(lbase(('strange', 'size')) for _ in range(n)))
                for i, x in enumerate(v[1]):
                    st.store[self.vent(p, i)] = V(short(x))
                if n is None:
                    st.store[('len', p)] = ('n', len(v[1]))
                return
            for i in range(n or 0):
                st.store[self.vent(p, i)] = V(lbase(('strange', repr(v)[:200])))
            return
        if 'Array<' in t:
            if v[0] == 'L':
                src = v[1]
                n = self.c.size(self, st, src)
                for k in [k for k in st.store if k[:len(p)] == p and len(k) == len(p) + 1]:
                    del st.store[k]
                st.store.pop(('fill', p), None)
                if n is not None:
                    st.store[('len', p)] = ('n', n)
                    for i in range(n):
                        st.store[p + (('[]', pconst(i)),)] = self.c.aget(self, st, src, i)
            elif v[0] == '#':
                for k in [k for k in st.store if k[:len(p)] == p and len(k) == len(p) + 1]:
                    del st.store[k]
                st.store[('fill', p)] = v
            return
        st.store[p] = v

    def assign(self, st, fr, lhs, v, e):
        x = lhs
        while x['k'] in ('cast', 'darg'):
            x = x['e']
        if x['k'] in ('op', 'sub', 'call', 'un') or x['k'] in ('mem', 'ref'):
            t = fr.fn.ty(lhs.get('t')).replace('const ', '')
            if x['k'] in ('op', 'sub', 'call'):
                for s, o in self.ev(st, fr, x):
                    if o[0] == 'L' and (isent(o[1]) or ismat(o[1]) or v[0] in ('T', 'BM') or isinstance(o[1][-1], tuple)):
                        s = s.copy()
                        self.setplace(s, fr, e, o[1], v, t)
                        return s
            v2 = self.val(st, fr, v) if v[0] == 'L' and (isent(v[1]) or ismat(v[1])) else v
            if x['k'] == 'ref' and x.get('id') is not None:
                k = self.home(st, fr, x['id'])
                cur = st.env.get(k)
                if cur is not None and cur[0] == 'L' and (isent(cur[1]) or ismat(cur[1])):
                    s = st.copy()
                    self.setplace(s, fr, e, cur[1], v2, t)
                    return s
                if cur is not None and cur[0] == 'L' and v2[0] in ('V', 'M'):
                    s = st.copy()
                    s.store[cur[1]] = v2
                    return s
                if cur is not None and cur[0] in ('V', 'M'):
                    s = st.copy()
                    s.env[k] = v2
                    return s
            v = v2
        return Interp.assign(self, st, fr, lhs, v, e)

    def place(self, st, fr, e):
        while e['k'] in ('cast', 'darg'):
            e = e['e']
        if e['k'] in ('sub', 'op'):
            v = self.ev(st, fr, e)[0][1]
            if v[0] == 'L':
                return v[1]
            if e['k'] == 'op' and e['op'] == '[]' or e['k'] == 'sub':
                oe, ie = (e['o'], e['i']) if e['k'] == 'sub' else (e['a'][0], e['a'][1])
                o, i = self.ev(st, fr, oe)[0][1], self.ev(st, fr, ie)[0][1]
                return self.aplace(st, o[1], i) if o[0] == 'L' else None
            return None
        return Interp.place(self, st, fr, e)

    def aplace(self, st, p, i):
        i = self.scal(st, i)
        c = pval(i)
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('rg',) and c is not None:
            return p[:-1] + (('[]', pconst(c + p[-1][1])),)
        return p + (('[]', i),)

    def decl(self, st, fr, d):
        if d['k'] != 'var':
            return [(st, 'norm', None)]
        t = fr.fn.ty(d.get('t'))
        if d.get('bind') and d.get('i') is not None:
            out = []
            for s, v in self.ev(st, fr, d['i']):
                s = s.copy()
                vs = v[1] if v[0] == 'tup' else [('L', ('loc', fr.fid, d['id'], i)) for i in range(len(d['bind']))]
                for b, x in zip(d['bind'], vs):
                    s.env[(fr.fid, b['id'])] = x
                out.append((s, 'norm', None))
            return out
        if d.get('i') is None or any(x in t for x in ('Timer', 'RegionT')):
            return Interp.decl(self, st, fr, d)
        path = ('loc', fr.fid, d['id'], d['n'])
        out, rest = [], False
        init = d['i']
        while init['k'] in ('darg', 'cast') and False:
            init = init['e']
        for s, v in self.ev(st, fr, init):
            if v[0] == 'L' and (isent(v[1]) or ismat(v[1])) and not d.get('ref') and not t.endswith('&'):
                v = self.val(s, fr, v)
            if v[0] in ('T', 'BM', 'V', 'M', 'rng', 'tup'):
                s = s.copy()
                if v[0] == 'T' and self.isvec(t):
                    s.env[(fr.fid, d['id'])] = ('L', path)
                    self.setplace(s, fr, d, path, v, t)
                elif v[0] == 'BM' and 'Matrix' in t and 'Expr' not in t:
                    s.env[(fr.fid, d['id'])] = ('L', path)
                    s.store[('dim', path)] = ('n', (len(v[1]), len(v[1][0]) if v[1] else 0))
                    self.setplace(s, fr, d, path, v, t)
                else:
                    s.env[(fr.fid, d['id'])] = v
                out.append((s, 'norm', None))
            elif v[0] == 'L' and (d.get('ref') or t.endswith('&') or re.search(r'Array<|MatrixView|FlatMatrix|VectorView|FlatVector|BitArray|ptr<|Vector|SparseMatrix|\*$', t)):
                s = s.copy()
                s.env[(fr.fid, d['id'])] = v
                if d.get('ref'):
                    self.refs.add((fr.fid, d['id']))
                out.append((s, 'norm', None))
            elif v[0] in ('#', 'B', 'A', 'N', 'F', 'null', 'fn'):
                s = s.copy()
                s.env[(fr.fid, d['id'])] = v
                out.append((s, 'norm', None))
            else:
                rest = True
        return out if not rest else Interp.decl(self, st, fr, d)

    # ------------------------------------------------------------ operators
    def e_op(self, st, fr, e):
        op, a = e['op'], e['a']
        self.fr0 = fr
        if e.get('lamcall') or not a:
            return Interp.e_op(self, st, fr, e)
        if op == '()' and len(a) in (2, 3):
            out = []
            for s, vs in self.evs(st, fr, a):
                o = vs[0]
                if o[0] == 'F' or o[0] == 'L' and (s.store.get(o[1]) or ('x',))[0] == 'F':
                    return Interp.e_op(self, st, fr, e)
                out.append((s, self.paren(s, fr, e, o, vs[1:])))
            return out
        if op == '[]' and len(a) == 2:
            out = []
            for s, (o, i) in self.evs(st, fr, a):
                if i[0] == 'L':
                    i = ('#', self.scal(s, i))
                if o[0] != 'L':
                    out.append((s, ('U', ('idx', o, i))))
                    continue
                t = fr.fn.ty(a[0].get('t'))
                c = pval(i[1]) if i[0] == '#' else None
                if self.isvec(t) and c is not None:
                    out.append((s, ('L', self.vent(o[1], int(c)))))
                    continue
                p = self.aplace(s, o[1], i)
                w = s.store.get(p)
                if w is None and c is not None:
                    q = p[:-1]
                    w = self.c.aget(self, s, q, int(pval(p[-1][1])))
                if w is not None and w[0] in ('#', 'B', 'A', 'N', 'L', 'F'):
                    out.append((s, w))
                elif re.match(r'(const )?(ngbla::Mat<|double)', fr.fn.ty(e.get('t'))):
                    q = p[:-1] + (('m', int(c)) if c is not None else ('m', i),)
                    out.append((s, ('L', q)))
                else:
                    out.append((s, ('L', p)))
            return out
        if op in ('=', '+=', '-=', '*=') and len(a) == 2:
            t = fr.fn.ty(a[0].get('t'))
            if 'ptr<' in t:
                return Interp.e_op(self, st, fr, e)
            out = []
            for s, (o, v) in self.evs(st, fr, a):
                s = s.copy()
                x = self.val(s, fr, v, a[1])
                if op != '=':
                    cur = self.val(s, fr, o, a[0])
                    x = self.arith(s, op[0], cur, x, fr) if op != '*=' else (self.mul(cur, x) or ('U', ('*=',)))
                if o[0] == 'L':
                    self.setplace(s, fr, e, o[1], x if x[0] != 'L' else v, t)
                    out.append((s, o))
                else:
                    out.append((self.assign(s, fr, a[0], x, e), o))
            return out
        if op == '-' and len(a) == 1:
            out = []
            for s, v in self.ev(st, fr, a[0]):
                out.append((s, self.mul(num(-1), self.val(s, fr, v, a[0])) or ('U', ('-', v))))
            return out
        if op in ('+', '-', '*', '/') and len(a) == 2:
            out = []
            for s, (x, y) in self.evs(st, fr, a):
                out.append((s, self.mulop(s, fr, e, x, y) if op == '*' else self.arith(s, op, x, y, fr, e)))
            return out
        return Interp.e_op(self, st, fr, e)

    def e_un(self, st, fr, e):
        self.fr0 = fr
        if e['op'] == '-':
            return [(s, self.mul(num(-1), self.val(s, fr, v, e['e'])) or ('U', ('neg', v))) for s, v in self.ev(st, fr, e['e'])]
        return Interp.e_un(self, st, fr, e)

    def e_bin(self, st, fr, e):
        self.fr0 = fr
        if e['op'] in ('*', '*=', '+', '-', '+=', '-=', '/'):
            out = []
            for s, (a, b) in self.evs(st, fr, [e['a'], e['b']]):
                op = e['op'][0]
                v = self.mulop(s, fr, e, a, b) if op == '*' else self.arith(s, op, a, b, fr, e)
                if e['op'].endswith('='):
                    s = self.assign(s, fr, e['a'], v, e)
                out.append((s, v))
            return out
        if e['op'] in ('==', '!=', '<', '>', '<=', '>='):
            out = []
            for s, (a, b) in self.evs(st, fr, [e['a'], e['b']]):
                if e['op'] in ('==', '!=') and {a[0], b[0]} == {'L', 'null'} and (a if a[0] == 'L' else b)[1] == ('subset',):
                    r = ('B', e['op'] == '!=')
                else:
                    r = self.compare(s, e['op'], a, b)
                out.append((s, r))
            return out
        return Interp.e_bin(self, st, fr, e)

    def e_new(self, st, fr, e):
        pl = (e.get('pl') or [None])[0]
        if pl is None or e.get('i') is None:
            return Interp.e_new(self, st, fr, e)
        while pl['k'] in ('cast', 'darg'):
            pl = pl['e']
        out = []
        for s, v in self.ev(st, fr, e['i']):
            p = self.place(s, fr, pl['e']) if pl['k'] == 'un' and pl['op'] == '&' else None
            s = s.copy()
            if p is not None:
                s.store[p] = v
            out.append((s, ('U', 'placed')))
        return out

    def paren(self, s, fr, e, o, args):
        if o[0] == 'M' or o[0] == 'L' and ismat(o[1]):
            c = [pval(self.scal(s, z)) for z in args]
            if len(c) == 2 and None not in c:
                if o[0] == 'M':
                    return ('M', cmp(o[1], int(c[0]), int(c[1])))
                return ('L', o[1] + (('c', int(c[0]), int(c[1])),))
        if o[0] != 'L':
            return ('U', ('()', o, args))
        ae = e['a']
        t = fr.fn.ty(ae[0].get('t'))
        q = e.get('f') or ''
        if len(args) == 1:
            i = args[0]
            if i[0] == 'L' and 'Array' in fr.fn.ty(ae[1].get('t')):
                n = self.c.size(self, s, i[1])
                idx = [self.c.aget(self, s, i[1], k) for k in range(n or 0)]
                idx = [pval(z[1]) if z is not None and z[0] == '#' else None for z in idx]
                if n is not None and None not in idx:
                    p = o[1]
                    if isinstance(p[-1], tuple) and p[-1][:1] == ('rg',):
                        idx, p = [k + p[-1][1] for k in idx], p[:-1]
                    return ('L', p + (('sel', tuple(int(k) for k in idx)),))
                return ('U', ('sel', o, i))
            c = pval(self.scal(s, i))
            if c is None:
                return ('L', o[1] + (('[]', self.scal(s, i)),))
            return ('L', self.vent(o[1], int(c)))
        c = [pval(self.scal(s, z)) for z in args]
        if None in c:
            return ('U', ('()', o, args))
        i, j = int(c[0]), int(c[1])
        if 'SparseMatrix' in t or 'SparseMatrix' in q:
            return ('M', self.c.element(self, s, o[1], i, j))
        return ('L', o[1] + (('()', i, j),))


class EC(Client):
    deep = 8
    unroll = 40

    def __init__(self, P, R, rows, blocks):
        self.P, self.R, self.ROWS, self.BL = P, R, rows, blocks
        self.glob = {('x',): 'x', ('b',): 'b', ('res',): 'r'}
        self.sizes = {}
        self.tables = {}

    # ------------------------------------------------ data
    def vlen(self, p):
        if p in self.glob:
            return N
        return self.sizes.get(p)

    def bsize(self, I, st, p):
        d = st.store.get(('dim', p))
        if d is not None:
            return d[1]
        ks = [k[-1] for k in st.store if k[:len(p)] == p and len(k) == len(p) + 1 and isinstance(k[-1], tuple) and k[-1][:1] == ('()',)]
        if not ks:
            return (2, 2)
        return (max(k[1] for k in ks) + 1, max(k[2] for k in ks) + 1)

    def minit(self, I, st, p):
        if p[-1][0] == 'm' and p[:-1] in (('md',), ('repl',)):
            return W('md', p[-1][1])
        r = p[:-1]
        if r and isinstance(r[-1], tuple) and r[-1][:1] == ('rowval',):
            k, c = r[-1][2], p[-1][1]
            cs = self.ROWS.get(k, [])
            if isinstance(c, int) and c < len(cs) and not self.isnew(st, r[-1][1]):
                return W('A', k, cs[c])
        if r and isinstance(r[-1], tuple) and r[-1][:1] == ('rowblk',):
            k = r[-1][1]
            rs = self.BL[k]
            cs = self.ROWS[rs[0]]
            if p[-1][1] < len(rs) and p[-1][2] < len(cs):
                return W('A', rs[p[-1][1]], cs[p[-1][2]])
        return W('unset', pname(p))

    def isnew(self, st, mp):
        return ('rows', mp) in st.store

    def cols(self, I, st, mp, i):
        if self.isnew(st, mp):
            n = self.size(I, st, mp + (('rowidx', mp, i),))
            r = []
            for c in range(n or 0):
                v = self.aget(I, st, mp + (('rowidx', mp, i),), c)
                r.append(int(pval(v[1])) if v is not None and v[0] == '#' and pval(v[1]) is not None else -1)
            return r
        return self.ROWS.get(i, [])

    def rowval(self, I, st, mp, i, c):
        v = self.aget(I, st, mp + (('rowval', mp, i),), c)
        if v is not None and v[0] == 'M':
            return v[1]
        return I.mentry(st, v[1] if v is not None and v[0] == 'L' and ismat(v[1]) else mp + (('rowval', mp, i), ('m', c)))

    def element(self, I, st, mp, i, j):
        cs = self.cols(I, st, mp, i)
        return self.rowval(I, st, mp, i, cs.index(j)) if j in cs else LZERO

    def rowtimes(self, I, st, mp, i, xs):
        r = LZERO
        for c, j in enumerate(self.cols(I, st, mp, i)):
            if 0 <= j < len(xs):
                r = ladd(r, lapply(self.rowval(I, st, mp, i, c), xs[j]))
        return r

    def follow(self, st, p):
        for _ in range(4):
            w = st.store.get(p) if len(p) == 2 and p[0] == 'this' else None
            if w is None or w[0] != 'L':
                break
            p = w[1]
        return p

    def size(self, I, st, p):
        p = self.follow(st, p)
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('rg',):
            return p[-1][2] - p[-1][1]
        v = st.store.get(('len', p))
        if v is not None:
            return v[1]
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('rowidx',):
            if self.isnew(st, p[-1][1]):
                k = st.store[('rows', p[-1][1])][1]
                return k[p[-1][2]] if p[-1][2] < len(k) else 0
            return len(self.ROWS.get(p[-1][2], []))
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('rowval',):
            return self.size(I, st, p[:-1] + (('rowidx',) + p[-1][1:],))
        if p[:1] == ('arr',) and len(p) == 2:
            return len(p[1])
        if p in self.tables:
            return len(self.tables[p])
        return self.sizes.get(p)

    def aget(self, I, st, p, i):
        """element i of an array, None when nothing is known"""
        p = self.follow(st, p)
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('rg',):
            p, i = p[:-1], i + p[-1][1]
        w = st.store.get(p + (('[]', pconst(i)),))
        if w is None:
            w = st.store.get(p + (('m', i),))
        if w is not None:
            return w
        f = st.store.get(('fill', p))
        if f is not None:
            return f
        if p[:1] == ('arr',) and len(p) == 2 and i < len(p[1]):
            return num(p[1][i])
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('rowidx',) and not self.isnew(st, p[-1][1]):
            cs = self.ROWS.get(p[-1][2], [])
            return num(cs[i]) if i < len(cs) else None
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('rowval',) or p in (('md',), ('repl',)):
            return ('L', p + (('m', i),))
        if p in self.tables and i < len(self.tables[p]):
            return ('L', ('arr', self.tables[p][i]))
        return None

    def elem(self, I, st, p, i):
        return self.aget(I, st, p, i) or ('L', p + (('[]', pconst(i)),))

    def elements(self, I, fr, n, rv):
        if rv[0] == 'L':
            st = self.st
            k = self.size(I, st, rv[1])
            if k is not None and 'SharedLoop' in fr.fn.ty(n['r'].get('t')):
                return ('rng', 0, k)
            if k is not None:
                return ('rng', 0, k, rv[1])
        return rv

    def bits(self, st, p):
        v = st.store.get(('bits', p))
        return v[1] if v is not None else None

    def inline(self, I, fn, e, fr):
        return fn.name.startswith('amg::') and not re.search(r'(UniversalDofs|DCCMap|Print|GetMemoryUsage|::Create\w*Vector)', fn.name)

    # ------------------------------------------------ calls
    def call(self, I, st, fr, e, q, nm, obj, args):
        self.st = st
        k = e['k']
        isp = obj is not None and obj[0] == 'L'
        c = [int(pval(I.scal(st, a))) if a[0] in ('#', 'L') and pval(I.scal(st, a)) is not None else None for a in args]
        if nm in ('Distribute', 'Cumulate', 'SetParallelStatus', 'Prefetch', 'PrefetchRow', 'CleanUp'):
            return [(st, ('void',))]
        if nm == 'ctor':
            return self.ctor(I, st, fr, e, q, args, c)
        if nm == 'operator bool' and obj is not None and obj[0] in ('null', 'L'):
            return [(st, ('B', obj[0] == 'L'))]
        if obj is not None and nm == 'get':
            return [(st, obj)]
        if obj is not None and obj[0] == 'null':
            return [(st, ('U', ('null deref', nm)))]
        t = fr.fn.ty(e.get('t'))
        if nm in ('max2', 'min2', 'max', 'min') and len(args) == 2 and None not in c:
            return [(st, num((max if 'max' in nm else min)(c)))]
        if nm == 'Range' and not isp and args:
            if None not in c and not (args[0][0] == 'L'):
                return [(st, ('rng', 0 if len(c) == 1 else c[0], c[-1]))]
            if len(args) == 1 and args[0][0] == 'L':
                n = self.size(I, st, args[0][1])
                if n is None and I.isvec(fr.fn.ty(e['a'][0].get('t'))):
                    n = I.vsize(st, args[0][1])
                if n is not None:
                    return [(st, ('rng', 0, n))]
            return None
        if nm == 'Range' and isp:
            if len(args) == 1 and args[0][0] == 'rng':
                c = [args[0][1], args[0][2]]
            if len(c) == 2 and None not in c:
                p, lo = obj[1], 0
                if isinstance(p[-1], tuple) and p[-1][:1] == ('rg',):
                    p, lo = p[:-1], p[-1][1]
                return [(st, ('L', p + (('rg', lo + c[0], lo + c[1]),)))]
            if not args:
                n = self.size(I, st, obj[1])
                if n is not None:
                    return [(st, ('rng', 0, n))]
            return [(st, obj)]
        if isp and nm == 'Size' and not args:
            b = self.bits(st, obj[1])
            if b is not None or 'BitArray' in q:
                return [(st, num(N))]
            n = self.size(I, st, obj[1])
            if n is None and 'Vector' in q:
                n = I.vsize(st, obj[1])
            return [(st, num(n))] if n is not None else None
        if 'BitArray' in q and isp:
            b = self.bits(st, obj[1])
            if b is not None:
                if nm == 'Test' and c[0] is not None:
                    return [(st, ('B', c[0] in b))]
                if nm == 'NumSet':
                    return [(st, num(len(b)))]
                if nm in ('SetBit', 'SetBitAtomic', 'Clear', 'Set') and (not c or c[0] is not None):
                    s = st.copy()
                    s.store[('bits', obj[1])] = ('bits', b | {c[0]} if c and nm != 'Clear' else (b - {c[0]} if c else frozenset(range(N) if nm == 'Set' else ())))
                    return [(s, ('void',))]
            elif nm == 'Clear' and not c:
                s = st.copy()
                s.store[('bits', obj[1])] = ('bits', frozenset())
                return [(s, ('void',))]
        if isp and re.search('SparseMatrix|MatrixGraph', q) and 'DynBlock' not in q:
            if nm == 'GetRowIndices' and c and c[0] is not None:
                return [(st, ('L', obj[1] + (('rowidx', obj[1], c[0]),)))]
            if nm == 'GetRowValues' and c and c[0] is not None:
                return [(st, ('L', obj[1] + (('rowval', obj[1], c[0]),)))]
            if nm in ('Height', 'Width', 'Size'):
                n = len(st.store[('rows', obj[1])][1]) if self.isnew(st, obj[1]) and nm != 'Width' else N
                return [(st, num(n))]
            if nm == 'RowTimesVector' and c[0] is not None:
                v = I.val(st, fr, args[1], e['a'][1])
                if v[0] == 'T':
                    return [(st, V(self.rowtimes(I, st, obj[1], c[0], v[1])))]
            if nm == 'AddRowTransToVector' and c[0] is not None and args[2][0] == 'L':
                w = I.val(st, fr, args[1], e['a'][1])
                if w[0] == 'V':
                    s = st.copy()
                    for n, j in enumerate(self.cols(I, s, obj[1], c[0])):
                        p = I.vent(args[2][1], j)
                        s.store[p] = V(ladd(I.entry(s, p), lapply(trans(self.rowval(I, s, obj[1], c[0], n)), w[1])))
                    return [(s, ('void',))]
            if nm == 'AddRowConjTransToVector':
                return None
        if nm in ('Height', 'Width', 'VHeight', 'VWidth') and isp and not args:
            d = st.store.get(('dim', obj[1]))
            if d is not None:
                return [(st, num(d[1][0 if 'Height' in nm else 1]))]
            if re.search('MatrixView|FlatMatrix', fr.fn.ty((e.get('o') or {}).get('t'))):
                d = self.bsize(I, st, obj[1])
                return [(st, num(d[0 if 'Height' in nm else 1]))]
            return [(st, num(N))]
        if nm == 'GetAMatrix' and not args:
            return [(st, ('L', ('matA',)))]
        if nm in ('GetSpM', 'getDynA') and isp:
            return [(st, ('L', ('matA',)))]
        if nm == 'Trans' and len(args) == 1:
            v = I.val(st, fr, args[0], e['a'][0])
            if v[0] == 'M':
                return [(st, ('M', trans(v[1])))]
            if v[0] == 'BM':
                return [(st, ('BM', tuple(tuple(trans(v[1][i][j]) for i in range(len(v[1]))) for j in range(len(v[1][0]) if v[1] else 0))))]
        if re.match(r'(CalcInverse|CalcPseudoInverse\w*)$', nm) and args and args[0][0] == 'L':
            s = st.copy()
            p = args[0][1]
            self.R.count("diagonal blocks inverted")
            if ismat(p):
                s.store[p] = ('M', invert({(0, 0): I.mentry(s, p)})[0, 0])
            else:
                b = I.gather(s, p)
                for (i, j), o in invert({(i, j): x for i, r in enumerate(b) for j, x in enumerate(r)}).items():
                    s.store[p + (('()', i, j),)] = ('M', o)
            return [(s, ('void',))]
        if nm in ('Row', 'Col') and isp and c and c[0] is not None and re.search('Matrix', q):
            return [(st, ('L', obj[1] + ((nm.lower(), c[0]),)))]
        if nm == 'QuickSort' and args and args[0][0] == 'L':
            n = self.size(I, st, args[0][1])
            vs = [self.aget(I, st, args[0][1], i) for i in range(n or 0)]
            if n is not None and all(v is not None and v[0] == '#' and pval(v[1]) is not None for v in vs):
                s = st.copy()
                for i, v in enumerate(sorted(int(pval(v[1])) for v in vs)):
                    s.store[args[0][1] + (('[]', pconst(i)),)] = num(v)
                return [(s, ('void',))]
            return [(st, ('void',))]
        if nm == 'find_in_sorted_array' and len(args) == 2 and c[0] is not None and args[1][0] == 'L':
            n = self.size(I, st, args[1][1])
            vs = [self.aget(I, st, args[1][1], i) for i in range(n or 0)]
            vs = [int(pval(v[1])) if v is not None and v[0] == '#' and pval(v[1]) is not None else None for v in vs]
            if n is not None and None not in vs:
                if vs != sorted(vs):
                    self.R.violation('%s:search' % fr.fn.name, fr.fn.where(), '%s: find_in_sorted_array on an array that is not sorted (%s)' %
                                     (fr.fn.name, ', '.join(map(str, vs))))
                return [(st, num(vs.index(c[0]) if c[0] in vs else -1))]
        if nm in ('SetSize', 'SetSize0') and isp:
            n = c[0] if c else 0
            if n is not None:
                s = st.copy()
                s.store[('len', obj[1])] = ('n', n)
                return [(s, ('void',))]
            return [(st, ('void',))]
        if nm == 'accumulate' and len(args) == 4 and args[3][0] == 'F':
            p = args[0][1] if args[0][0] in ('L', 'it') else None
            n = self.size(I, st, p) if p else None
            if n is not None:
                cur = [(st, args[2])]
                for i in range(n):
                    nxt = []
                    for s, acc in cur:
                        nxt += I.call_lam(s, fr, e, args[3], [acc, self.elem(I, s, p, i)], [None, None])
                    cur = nxt
                return cur
        if nm in ('begin', 'end') and isp:
            return [(st, obj)]
        if nm == 'Iterate' and args and args[0][0] == 'F':
            lam = I.lams.get((args[0][1], args[0][2]))
            cur = [st]
            for i in range(len(lam[0].get('insts', [])) if lam else 0):
                cur = [z for s in cur for z, _ in I.call_lam(s, fr, e, args[0], [num(i)], e['a'][:1])]
            return [(s, ('void',)) for s in cur]
        m = re.match(r'std::integral_constant<\w+, (\d+)>::operator ', q)
        if m and (obj is None or obj[0] != '#'):
            return [(st, num(int(m.group(1))))]
        if '::operator ' in q and obj is not None and (obj[0] == '#' and nm.startswith('operator ') or q.endswith('*') and not args):
            return [(st, obj)]
        if nm == 'sqr' and c and c[0] is not None:
            return [(st, num(c[0] * c[0]))]
        if nm == 'Data' and isp and not args:
            return [(st, obj)]
        if nm == 'Last' and isp and not args and self.size(I, st, obj[1]):
            v = self.aget(I, st, obj[1], self.size(I, st, obj[1]) - 1)
            return [(st, v)] if v is not None else None
        if nm == 'Addr' and isp:
            return [(st, ('L', obj[1] + (('addr', c[0]),)))]
        if nm in ('Rows', 'Cols') and isp and len(c) == 2 and None not in c:
            return [(st, ('L', obj[1] + ((nm.lower(), c[0], c[1]),)))]
        if nm == 'Done' and 'TableCreator' in q:
            return [(st, ('B', True))]
        if nm == 'MoveTable':
            return [(st, ('L', ('colors',)))]
        if nm == 'ComputeColoring':
            return [(st, num(len(self.tables.get(('colors',), ())) - 1))]
        if isp and 'SharedLoop2' in q and nm == 'Reset' and len(args) == 1 and args[0][0] == 'rng' or isp and 'Partitioning' in q and nm == 'Calc' and c and c[0] is not None:
            s = st.copy()
            s.store[('len', obj[1])] = ('n', c[0] if nm == 'Calc' else args[0][2])
            return [(s, ('void',))]
        if nm in ('ParallelFor', 'ParallelForRange') and len(args) >= 2 and args[1][0] == 'F':
            rng = args[0]
            if rng[0] == 'L' and self.size(I, st, rng[1]) is not None:
                rng = ('rng', 0, self.size(I, st, rng[1]))
            if rng[0] == '#' and pval(rng[1]) is not None:
                rng = ('rng', 0, int(pval(rng[1])))
            if rng[0] == 'rng':
                vals = [rng] if nm == 'ParallelForRange' else [num(i) for i in range(rng[1], rng[2])]
                cur = [st]
                for v in vals:
                    nxt = []
                    for s in cur:
                        nxt += [x for x, _ in I.call_lam(s, fr, e, args[1], [v], e['a'][1:2])]
                    cur = I.dedupe(nxt)
                return [(s, ('void',)) for s in cur]
        if nm in ('ParallelJob', 'CreateJob') and args and args[0][0] == 'F':
            return [(s, ('void',)) for s, _ in I.call_lam(st, fr, e, args[0], [('U', 'taskinfo')], e['a'][:1])]
        r = self.dyn(I, st, fr, e, q, nm, obj, args, c)
        if r is not None:
            return r
        return None

    def ctor(self, I, st, fr, e, q, args, c):
        t = fr.fn.ty(e.get('t'))
        p = ('obj', id(e), fr.fid)
        if 'IntRange' in t or 'T_Range' in t:
            if c and None not in c:
                return [(st, ('rng', 0 if len(c) == 1 else c[0], c[-1]))]
        if e.get('cp') or e.get('mv'):
            if args and args[0][0] == 'L' and args[0][1] in self.tables:
                return [(st, args[0])]
            return None
        if 'BitArray' in t and 'ptr' not in t and c:
            s = st.copy()
            s.store[('bits', p)] = ('bits', frozenset())
            return [(s, ('L', p))]
        if re.search(r'MatrixView<|FlatMatrix<', t) and len(args) == 3:
            s = st.copy()
            q = args[2][1] if args[2][0] == 'L' else ('mem', args[2])
            if None not in c[:2]:
                s.store[('dim', q)] = ('n', (c[0], c[1]))
            return [(s, ('L', q))]
        if re.search(r'^(const )?ngbla::Mat<', t) and len(args) == 1 and args[0][0] == '#':
            return [(st, ('M', lscale(ONE, args[0][1])))]
        if re.match(r'(const )?ngcore::(Flat)?Array<', t) and (not args or c[0] == 0 and len(args) == 2):
            s = st.copy()
            s.store[('len', p)] = ('n', 0)
            return [(s, ('L', p))]
        if re.search(r'VVector<|ngbla::Vector<', t) and c and c[0] is not None and args[0][0] in ('#', 'L'):
            s = st.copy()
            s.store[('len', p)] = ('n', c[0])
            return [(s, ('L', p))]
        if 'SharedLoop2' in t and len(args) == 1 and (c[0] is not None or args[0][0] == 'rng'):
            s = st.copy()
            s.store[('len', p)] = ('n', c[0] if c[0] is not None else args[0][2])
            return [(s, ('L', p))]
        if re.search(r'Array<', t) and len(args) == 1 and c[0] is not None and args[0][0] == '#':
            s = st.copy()
            s.store[('len', p)] = ('n', c[0])
            return [(s, ('L', p))]
        if 'SparseMatrix' in t and args and args[0][0] == 'L' and 'Array' in fr.fn.ty(e['a'][0].get('t')):
            return self.newmat(I, st, args[0][1], p)
        return None

    def newmat(self, I, st, perow, p):
        n = self.size(I, st, perow)
        vs = [self.aget(I, st, perow, i) for i in range(n or 0)]
        vs = [int(pval(v[1])) if v is not None and v[0] == '#' and pval(v[1]) is not None else None for v in vs]
        if n is None or None in vs:
            return None
        s = st.copy()
        s.store[('rows', p)] = ('n', tuple(vs))
        return [(s, ('L', p))]

    def dyn(self, I, st, fr, e, q, nm, obj, args, c):
        isp = obj is not None and obj[0] == 'L'
        if nm == 'make_shared' and args and args[0][0] == 'L' and 'SparseMatrix' in fr.fn.ty(e.get('t')) and 'Array' in fr.fn.ty(e['a'][0].get('t')):
            return self.newmat(I, st, args[0][1], ('obj', id(e), fr.fid))
        if nm == 'make_shared' and 'BitArray' in fr.fn.ty(e.get('t')):
            s = st.copy()
            p = ('obj', id(e), fr.fid)
            s.store[('bits', p)] = ('bits', frozenset())
            return [(s, ('L', p))]
        if nm == 'iterate_intersection' and len(args) == 3 and args[2][0] == 'F' and args[0][0] == args[1][0] == 'L':
            xs = [[self.aget(I, st, a[1], i) for i in range(self.size(I, st, a[1]) or 0)] for a in args[:2]]
            cur = [st]
            for i, x in enumerate(xs[0]):
                for j, y in enumerate(xs[1]):
                    if x is not None and x == y:
                        cur = [z for s in cur for z, _ in I.call_lam(s, fr, e, args[2], [num(i), num(j)], [None, None])]
            return [(s, ('void',)) for s in cur]
        if not isp or 'DynBlock' not in q:
            return None
        if nm == 'GetNumBlocks':
            return [(st, num(len(self.BL)))]
        if nm in ('GetBlockRows', 'GetBlockCols') and c and c[0] is not None:
            return [(st, ('L', ('arr', self.BL[c[0]] if nm == 'GetBlockRows' else tuple(self.ROWS[self.BL[c[0]][0]]))))]
        if nm in ('GetRowBlockSize', 'GetColBlockSize'):
            return [(st, num(1))]
        if nm in ('ItRows', 'ItCols') and len(args) == 2 and args[0][0] == 'L' and args[1][0] == 'F':
            n = self.size(I, st, args[0][1])
            if n is not None:
                cur = [st]
                for i in range(n):
                    cur = [z for s in cur for z, _ in I.call_lam(s, fr, e, args[1], [num(i), self.aget(I, s, args[0][1], i)], [None, None])]
                return [(s, num(n)) for s in cur]
        if nm == 'GetBlockData' and c and c[0] is not None:
            return [(st, ('L', ('rowdata', ('rowblk', c[0]))))]
        if nm == 'GetScalNZE' and c and c[0] is not None:
            return [(st, num(len(self.BL[c[0]]) * len(self.ROWS[self.BL[c[0]][0]])))]
        if nm == 'GetBlockRCV' and c and c[0] is not None:
            s = st.copy()
            rs, cs = self.BL[c[0]], tuple(self.ROWS[self.BL[c[0]][0]])
            p = ('rowdata', ('rowblk', c[0]))
            s.store[('dim', p)] = ('n', (len(rs), len(cs)))
            return [(s, ('tup', (('L', ('arr', rs)), ('L', ('arr', cs)), ('L', p))))]
        if nm.startswith('GetMaxScal'):
            return [(st, num(N))]
        return None

def sumA(rows, i, xs):
    r = LZERO
    for j in rows[i]:
        if j in xs:
            r = ladd(r, lapply(W('A', i, j), xs[j]))
    return r


def construct(I, fn, args, store, asm=None):
    """the states after a constructor"""
    fr = Frame(('ctor',), fn, ('this',), (fn.key,), None, fn.j['rec'])
    st = State({}, dict(store), dict(asm or {}), ())
    I.inlined.add(fn.key)
    for p, v in zip(fn.j['ps'], args):
        if p.get('id') is not None:
            st.env[(fr.fid, p['id'])] = v
    sts = [st]
    for it in fn.j.get('inits') or []:
        if not it.get('m') or not it.get('i') or it['i']['k'] == 'dinit':
            continue
        nxt = []
        for s in sts:
            for s2, v in I.ev(s, fr, it['i']):
                s2 = s2.copy()
                q = ('this', it['m'])
                if v[0] in ('#', 'B', 'A', 'N', 'null') or v[0] == 'L' and v[1] != q and v[1][0] != 'obj':
                    s2.store[q] = v
                nxt.append(s2)
        sts = nxt
    out = []
    for s in sts:
        out += [x for x, k, v in I.ex(s, fr, fn.j['b']) if k != 'throw']
    return out


def ent(n, i):
    return lbase(('e', n, i))


class Model:
    """reference: one sweep over the blocks"""

    def __init__(self, rows, blocks, M, omega=None):
        self.rows, self.blocks, self.M, self.om = rows, blocks, M, omega or pconst(1)

    def ax(self, i, x):
        r = LZERO
        for j in self.rows[i]:
            r = ladd(r, lapply(W('A', i, j), x[j]))
        return r

    def res(self, x, b):
        return [ladd(b[i], self.ax(i, x), pconst(-1)) for i in range(N)]

    def sweep(self, x, b, back=False, order=None):
        x = list(x)
        o = list(order if order is not None else range(len(self.blocks)))
        for k in (reversed(o) if back else o):
            B = self.blocks[k]
            r = {i: ladd(b[i], self.ax(i, x), pconst(-1)) for i in B}
            for i in B:
                for j in B:
                    if (i, j) in self.M[k]:
                        x[i] = ladd(x[i], lapply(self.M[k][i, j], r[j]), self.om)
                x[i] = short(x[i])
        return x

    def apply(self, s, b, x):
        x = list(x)
        for k, B in enumerate(self.blocks):
            for i in B:
                for j in B:
                    if (i, j) in self.M[k]:
                        x[i] = ladd(x[i], lapply(self.M[k][i, j], b[j]), pmul(s, self.om))
        return x


def diags(rows, blocks, md=None, free=None):
    """the inverses of the diagonal blocks over the free rows"""
    out = []
    for B in blocks:
        F = [i for i in B if free is None or i in free]
        D = {(i, j): W('A', i, j) for i in F for j in F if j in rows[i]}
        if md:
            for i in F:
                D[i, i] = W(md, i)
        out.append(inverse(D) if F else {})
    return out


class Job:
    """run the code of one smoother on the model matrix and compare"""

    def __init__(self, P, R, rec, rows, blocks):
        self.P, self.R, self.rec = P, R, rec
        self.c = EC(P, R, rows, blocks)
        self.fns = {}
        for f in P.fns.values():
            if f.j.get('rec') == rec and f.j.get('b') is not None:
                self.fns.setdefault(f.short, []).append(f)
        self.rows = rows

    def fn(self, nm, ps):
        fs = [f for f in self.fns.get(nm, []) if [p.get('n') for p in f.j['ps']] == ps] or [f for f in self.fns.get(nm, []) if len(f.j['ps']) == len(ps)]
        return fs[0] if len(fs) == 1 else None

    def entries(self, I, st, p):
        return [I.entry(st, p + (('v', i),)) for i in range(N)]

    def start(self, st, x0=False, resup=False):
        s = dict(st.store)
        x = [LZERO if x0 else ent('x', i) for i in range(N)]
        b = [ent('b', i) for i in range(N)]
        m = Model(self.rows, (), ())
        for i in range(N):
            s[('x', ('v', i))] = V(x[i])
            s[('b', ('v', i))] = V(b[i])
            s[('res', ('v', i))] = V(m.res(x, b)[i]) if resup else V(lbase(('e', 'old res', i)))
        return s, x, b

    def go(self, st, fn, args, x0=False, resup=False, store=None):
        s, x, b = self.start(st, x0, resup)
        I = EI(self.P, self.c)
        if store is not None:
            s.update(store)
        outs = I.run(fn, args, s, (), ('this',), fn.j['rec'], dict(st.asm))
        return I, [o for o, v in outs], x, b

    def compare(self, what, fn, I, o, x, res=None, b=None, y='x', rows=None):
        """x / res / b: the expected entries"""
        for nm, want in ((y, x), ('res', res), ('b', b)):
            if want is None:
                continue
            got = self.entries(I, o, (nm,))
            for i in range(N):
                if nm == 'res' and rows is not None and i not in rows:
                    continue
                self.R.count("entries compared")
                if not same(got[i], want[i]):
                    self.bad(what, fn, nm, i, got[i], want[i])
                    return False
        return True

    def own(self, z):
        us = list(unsets(z))
        return bool(us) and all(u is not None and re.search(r'(\bupdate|\bmyresb|\bdiag_inv|\bdiag|\bvals)\b', u) for u in us)

    def bad(self, what, fn, nm, i, got, want):
        # memory of the smoother itself must have been written
        if any(isunknown(z) and not self.own(z) for (w, b), p in got for z in w + (b,)):
            note(self.R, False, fn.where(), "the value of %s in row %s is known (%s)" % (nm, i, what))
            return
        d = ladd(got, want, pconst(-1))
        T = {'x': 'the iterate', 'res': 'the residual', 'b': 'the right hand side', 'product': 'A x'}[nm]
        self.R.violation('%s:%s' % (self.rec, what), fn.where(), '%s: %s %s in row %s is not what one step gives; it is %s; difference to the expected value: %s' %
                         (fn.name, what, T, i, show(got, 10), show(d, 10)))


def note(R, ok, where, what):
    R.count("steps followed" if ok else "steps not followed")
    if not ok:
        R.assume.append("%s: not true that %s" % (where, what))
    return bool(ok)


XZ = [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)]


def vec(n):
    return ('L', (n,))


def flags(a, b, c):
    return [('B', a), ('B', b), ('B', c)]


def six(J, st, model, what, order=None, rows=None):
    """Smooth and SmoothBack with all flags"""
    for back in (False, True):
        nm = 'SmoothBack' if back else 'Smooth'
        fn = J.fn(nm, ['x', 'b', 'res', 'res_updated', 'update_res', 'x_zero'])
        if not note(J.R, fn is not None, '%s::%s' % (J.rec, nm), "the smoothing step with flags exists"):
            continue
        for ru, ur, xz in XZ:
            I, outs, x, b = J.go(st, fn, [vec('x'), vec('b'), vec('res')] + flags(ru, ur, xz), xz, ru)
            w = '%s, %s(res_updated=%d, update_res=%d, x_zero=%d)' % (what, nm, ru, ur, xz)
            note(J.R, outs, '%s:%s' % (J.rec, w), "the step can be followed")
            for o in outs:
                xn = model.sweep(x, b, back, order)
                if J.compare(w, fn, I, o, xn, model.res(xn, b) if ur else None, b, rows=rows):
                    J.R.ok(J.rec + ':' + w)


def mult_add(J, st, model, what):
    fn = J.fn('MultAdd', ['s', 'b', 'x'])
    if fn is None:
        return
    I, outs, x, b = J.go(st, fn, [('#', psym('s')), vec('b'), vec('x')])
    for o in outs:
        if J.compare(what + ', MultAdd', fn, I, o, model.apply(psym('s'), b, x), None, b):
            J.R.ok(J.rec + ':' + what + ', MultAdd')


def base(bits=None):
    s = {('this', 'sysmat'): ('L', ('matA',))}
    if bits is not None:
        s[('bits', ('subset',))] = ('bits', frozenset(bits))
    return s


def gss3(P, R, rec):
    for md in (False, True):
        for free in (None, (1, 3)):
            J = Job(P, R, rec, ROWS, tuple((i,) for i in range(N)))
            ct = J.fn('GSS3', ['mat', 'repl_diag', 'subset', '_pinv'] if md else ['mat', 'subset', '_pinv'])
            if not note(R, ct is not None, rec, "constructor exists"):
                continue
            J.c.sizes[('md',)] = N
            args = [('L', ('matA',))] + ([('L', ('md',))] if md else []) + [('null',) if free is None else ('L', ('subset',)), ('A', ('f', ('pinv',)))]
            I = EI(P, J.c)
            sts = construct(I, ct, args, base(free))
            note(R, sts, rec, "the setup can be followed")
            model = Model(ROWS, tuple((i,) for i in range(N)), diags(ROWS, tuple((i,) for i in range(N)), 'md' if md else None, free))
            what = '%s, %s' % ('replaced diagonals' if md else 'own diagonals', 'all rows' if free is None else 'some rows')
            for st in sts:
                six(J, st, model, what)
                mult_add(J, st, model, what)


def four(J, st, model, what):
    """the steps without flags: with the right hand side, and with an up to date residual"""
    for nm, ps, back, wr in (('Smooth', ['x', 'b'], 0, 0), ('SmoothBack', ['x', 'b'], 1, 0), ('SmoothRES', ['x', 'res'], 0, 1), ('SmoothBackRES', ['x', 'res'], 1, 1)):
        fn = J.fn(nm, ps)
        if not note(J.R, fn is not None, J.rec, nm + " exists"):
            continue
        I, outs, x, b = J.go(st, fn, [vec(p) for p in ps], False, True)
        note(J.R, outs, J.rec + ' ' + what, nm + " can be followed")
        for o in outs:
            xn = model.sweep(x, b, back)
            if J.compare('%s, %s' % (what, nm), fn, I, o, xn, model.res(xn, b) if wr else None, b):
                J.R.ok('%s:%s, %s' % (J.rec, what, nm))


def gss4(P, R, rec):
    bl = tuple((i,) for i in range(N))
    for md in (False, True):
        for free in (None, (1, 3)):
            J = Job(P, R, rec, ROWS, bl)
            ct = J.fn('GSS4', ['A', 'repl_diag', 'subset', '_pinv'] if md else ['A', 'subset', '_pinv'])
            if not note(R, ct is not None, rec, "constructor exists"):
                continue
            for repl in (True, False) if md else (None,):
                args = [('L', ('matA',))] + ([('L', ('md',) if repl else ('empty',))] if md else []) + [('null',) if free is None else ('L', ('subset',)), ('A', ('f', ('pinv',)))]
                J.c.sizes[('md',)], J.c.sizes[('empty',)] = N, 0
                sts = construct(EI(P, J.c), ct, args, base(free))
                note(R, sts, rec, "the setup can be followed")
                model = Model(ROWS, bl, diags(ROWS, bl, 'md' if repl else None, free))
                what = '%s%s, %s' % ('replaced diagonals' if repl else 'own diagonals', ' (none given)' if repl is False else '', 'all rows' if free is None else 'some rows')
                for st in sts:
                    four(J, st, model, what)
                    mult_add(J, st, model, what)


def bsm(P, R, rec):
    colors, order = ((1,), (0, 2)), [1, 0, 2]
    for md in (False, True):
        for par, sl2 in ((False, False), (True, False), (True, True)):
            rows = COLROWS if par else ROWS
            J = Job(P, R, rec, rows, BLOCKS)
            ct = J.fn('BSmoother', ['_spmat', '_blocks', '_parallel', '_use_sl2', '_pinv', 'md'])
            if not note(R, ct is not None, rec, "constructor exists"):
                continue
            J.c.tables[('blocks',)] = BLOCKS
            J.c.tables[('colors',)] = colors
            J.c.sizes[('md',)], J.c.sizes[('empty',)] = N, 0
            args = [('L', ('matA',)), ('L', ('blocks',)), ('B', par), ('B', sl2), ('A', ('f', ('pinv',))), ('L', ('md',) if md else ('empty',))]
            sts = construct(EI(P, J.c), ct, args, base())
            note(R, sts, rec, "the setup can be followed")
            model = Model(rows, BLOCKS, diags(rows, BLOCKS, 'md' if md else None))
            what = '%s%s' % ('replaced diagonals' if md else 'own diagonals', ', blocks in order' if not par else ', shared loops' if sl2 else ', blocks by colour')
            o = order if par else None
            for st in sts:
                separate(R, st, rec, ct)
                six(J, st, model, what, o)
                mult_add(J, st, model, what)
                for nm, ps, back, wr in (('SmoothInternal', ['x', 'b', 'steps'], 0, 0), ('SmoothBackInternal', ['x', 'b', 'steps'], 1, 0),
                                         ('SmoothRESInternal', ['x', 'res', 'steps'], 0, 1), ('SmoothBackRESInternal', ['x', 'res', 'steps'], 1, 1)):
                    fn = J.fn(nm, ps)
                    if not note(R, fn is not None, rec, nm + " exists"):
                        continue
                    I, outs, x, b = J.go(st, fn, [vec(p) for p in ps[:2]] + [num(2)], False, True)
                    note(R, outs, rec, nm + " can be followed")
                    for t in outs:
                        xn = model.sweep(model.sweep(x, b, back, o), b, back, o)
                        if J.compare('%s, %s, two steps' % (what, nm), fn, I, t, xn, model.res(xn, b) if wr else None, b):
                            R.ok('%s:%s, %s' % (rec, what, nm))


def dynb(P, R, rec):
    """the smoother for matrices in row blocks: all rows of a block have the same columns"""
    for md in (False, True):
        for free in (None, (0, 1, 3)):
            J = Job(P, R, rec, DENSE, DBLOCKS)
            ct = J.fn('DynBlockSmoother', ['A', 'modDiag', 'freeDofs', 'uRel'] if md else ['A', 'freeDofs', 'uRel'])
            if not note(R, ct is not None, rec, "constructor exists"):
                continue
            J.c.sizes[('md',)], J.c.sizes[('empty',)] = N, 0
            args = [('L', ('matA',))] + ([('L', ('md',))] if md else []) + [('null',) if free is None else ('L', ('subset',)), ('#', psym('omega'))]
            sts = construct(EI(P, J.c), ct, args, base(free))
            note(R, sts, rec, "the setup can be followed")
            model = Model(DENSE, DBLOCKS, diags(DENSE, DBLOCKS, 'md' if md else None, free), psym('omega'))
            what = '%s, %s' % ('replaced diagonals' if md else 'own diagonals', 'all rows' if free is None else 'some rows')
            for st in sts:
                separate(R, st, rec, ct)
                six(J, st, model, what)


def separate(R, st, rec, fn):
    """the blocks kept in one buffer do not overlap"""
    iv = sorted((k[1][:-1], k[1][-1][1], v[1]) for k, v in st.store.items() if k[0] == 'dim' and isinstance(k[1][-1], tuple) and k[1][-1][:1] == ('addr',)
                and isinstance(k[1][-1][1], int))
    for (p, o, n), (p2, o2, n2) in zip(iv, iv[1:]):
        if p == p2:
            R.count("neighbouring blocks in a buffer")
            if o + n[0] * n[1] > o2:
                R.violation('%s:buffer %s' % (rec, pname(p)), fn.where(), '%s: blocks of size %dx%d and %dx%d are kept at offsets %d and %d of %s' %
                            (fn.name, n[0], n[1], n2[0], n2[1], o, o2, pname(p)))
                return
    R.ok('%s: blocks are kept apart' % rec)


def bs2(P, R, rec):
    """the block smoother that keeps the matrix in blocks, with the lower and upper parts of rows apart when blocks do not overlap"""
    for no, blocks, md in ((False, OVERLAP, False), (True, BLOCKS, False), (False, OVERLAP, True)):
        J = Job(P, R, rec, ROWS, blocks)
        what = ('no overlap' if no else 'overlap') + (', replaced diagonals' if md else '')
        JB = Job(P, R, rec + '::BSBlock', ROWS, blocks)
        nm = 'SetLUFromSPMat' if no else 'SetFromSPMat'
        fn = JB.fns.get(nm, [None])[0]
        if not note(R, fn is not None, rec, nm + " exists"):
            continue
        st = State({}, base(), {}, ())
        s = st.store
        T = ('this',)
        bs = T + ('blocks',)
        s[T + ('height',)] = num(N)
        s[T + ('blocks_no',)], s[T + ('maxbs',)] = ('B', no), num(max(map(len, blocks)))
        groups = ((0, 2), (2, len(blocks)))
        s[('len', bs)] = ('n', len(blocks))
        s[('len', T + ('fi_blocks',))], s[('len', T + ('allgroups',))] = ('n', 3), ('n', 2)
        for i, v in enumerate((0, 2, len(blocks))):
            s[T + ('fi_blocks', ('[]', pconst(i)))] = num(v)
        for i in range(2):
            s[T + ('allgroups', ('[]', pconst(i)))] = num(i)
        s[('len', ('d2blk',))] = ('n', N)
        for i in range(N):
            s[('d2blk', ('[]', pconst(i)))] = num(next((k for k, B in enumerate(blocks) if i in B), -1))
        sts = [st]
        for k, B in enumerate(blocks):
            bp = bs + (('[]', pconst(k)),)
            nz = sum(1 for i in B for j in ROWS[i] if j not in B)
            nxt = []
            for z in sts:
                q = dict(z.store)
                for f, n in (('dofnrs', len(B)), ('firsti', 1 + len(B) * (2 if no else 1)), ('cols', nz), ('vals', nz), ('mdadd', len(B) if md else 0)):
                    q[('len', bp + (f,))] = ('n', n)
                for f in ('diag', 'diag_inv'):
                    q[('dim', bp + (f,))] = ('n', (len(B), len(B)))
                q[bp + ('LU',)], q[bp + ('md',)] = ('B', no), ('B', md)
                q[('len', ('bdofs', k))] = ('n', len(B))
                for i, d in enumerate(reversed(B)):
                    q[('bdofs', k, ('[]', pconst(i)))] = num(d)
                for pinv in (False, True):
                    args = ([num(k), ('L', ('d2blk',))] if no else []) + [('L', ('matA',)), ('L', ('bdofs', k)), ('L', ('lh',)), ('B', pinv), ('L', ('md',) if md else ('empty',))]
                    I = EI(P, J.c)
                    for o, v in I.run(fn, args, q, (), bp, fn.j['rec'], dict(z.asm)):
                        if all(o.store != w.store for w in nxt):
                            nxt.append(o)
            sts = nxt
        note(R, sts, rec + ' ' + what, "the setup can be followed")
        J.c.sizes[('empty',)], J.c.sizes[('md',)] = 0, N
        for n in ('myresb', 'update'):
            J.c.sizes[T + (n,)] = N
        model = Model(ROWS, blocks, diags(ROWS, blocks, 'md' if md else None))
        for st in sts:
            st = State({}, st.store, st.asm, ())
            six(J, st, model, what, rows={i for B in blocks for i in B})
            if no:
                mult_add(J, st, model, what)
            for nm, back, symm in (('SmoothK', 0, 0), ('SmoothBackK', 1, 0), ('SmoothSymmK', 0, 1)):
                fs = [f for f in J.fns.get(nm, []) if len(f.j['ps']) == 7]
                if note(R, len(fs) == 1, rec, nm + " exists"):
                    flagged(J, st, model, what + ', ' + nm, fs[0], [num(2)], [], back, symm, 2, {i for B in blocks for i in B})
            fs = J.fns.get('SmoothGroups', [])
            if note(R, len(fs) == 1, rec, "SmoothGroups exists"):
                for back in (False, True):
                    for symm in (False, True) if not back else (False,):   # the code without overlap always starts forward then
                        flagged(J, st, model, '%s, SmoothGroups(reverse=%d, symm=%d)' % (what, back, symm), fs[0],
                                [('L', T + ('allgroups',)), num(2)], [('B', back), ('B', symm)], back, symm, 2, {i for B in blocks for i in B})
            fs, fb = J.fn('Smooth_savebL', ['groups', 'x', 'b', 'res', 'zig']), J.fn('SmoothBack_usebL', ['groups', 'x', 'b', 'res'])
            if no and note(R, fs is not None and fb is not None, rec, "the steps keeping b - L x exist"):
                for xz in (False, True):
                    w = '%s, Smooth_savebL(zig=%d) + SmoothBack_usebL' % (what, xz)
                    gr = ('L', T + ('allgroups',))
                    I, outs, x, b = J.go(st, fs, [gr, vec('x'), vec('b'), vec('res'), ('B', xz)], xz)
                    for o in outs:
                        I2 = EI(P, J.c)
                        for o2, v in I2.run(fb, [gr, vec('x'), vec('b'), vec('res')], dict(o.store), (), ('this',), fb.j['rec'], dict(o.asm)):
                            xn = model.sweep(model.sweep(x, b), b, True)
                            if J.compare(w, fb, I2, o2, xn, None, b):
                                R.ok(rec + ':' + w)
            a_matrix(J, st, what, rec)


def flagged(J, st, model, what, fn, pre, post, back, symm, steps, rows):
    for ru, ur, xz in XZ:
        I, outs, x, b = J.go(st, fn, pre + [vec('x'), vec('b'), vec('res')] + flags(ru, ur, xz) + post, xz, ru)
        w = '%s (res_updated=%d, update_res=%d, x_zero=%d)' % (what, ru, ur, xz)
        note(J.R, outs, '%s:%s' % (J.rec, w), "the step can be followed")
        for o in outs:
            xn = x
            for _ in range(steps):
                xn = model.sweep(xn, b, back)
                if symm:
                    xn = model.sweep(xn, b, not back)
            if J.compare(w, fn, I, o, xn, model.res(xn, b) if ur else None, b, rows=rows):
                J.R.ok(J.rec + ':' + w)


def a_matrix(J, st, what, rec):
    """the matrix the smoother gives out is A, as far as it has it"""
    for nm, args, s in (('Mult_Sysmat', ['x', 'y'], None), ('MultAdd_Sysmat', ['s', 'x', 'y'], psym('s'))):
        fn = J.fn(nm, args)
        if not note(J.R, fn is not None, rec, nm + " exists"):
            continue
        I, outs, x, b = J.go(st, fn, ([] if s is None else [('#', s)]) + [vec('x'), vec('b')])
        for o in outs:
            rows = {i for B in J.c.BL for i in B}
            y = [ladd(LZERO if s is None else b[i], model_ax(J.rows, i, x), s or pconst(1)) for i in range(N)]
            got = J.entries(I, o, ('b',))
            bad = [i for i in sorted(rows) if not same(got[i], y[i])]
            J.R.count("entries compared", len(rows))
            if bad:
                J.bad('%s, %s' % (what, nm), fn, 'product', bad[0], got[bad[0]], y[bad[0]])
            else:
                J.R.ok('%s:%s, %s' % (rec, what, nm))


def model_ax(rows, i, x):
    return Model(rows, (), ()).ax(i, x)


def run(P, R):
    gss3(P, R, 'amg::GSS3<ngbla::Mat<3, 3, double>>')
    gss4(P, R, 'amg::GSS4<ngbla::Mat<3, 3, double>>')
    bsm(P, R, 'amg::BSmoother<ngbla::Mat<2, 2, double>>')
    bsm(P, R, 'amg::BSmoother<double>')
    bs2(P, R, 'amg::BSmoother2<ngbla::Mat<2, 2, double>>')
    dynb(P, R, 'amg::DynBlockSmoother<double>')
    R.need("entries compared", R.counts.get("entries compared", 0), 1000)
