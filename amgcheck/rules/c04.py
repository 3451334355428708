"""C04: the flags of the smoothing interface are truthful and the residual they promise is delivered.
Every member of the Smooth family (and the level functions of the cycles) is executed abstractly for all eight combinations
of res_updated / update_res / x_zero over a free module of vectors and operator words (absint); the vectors hold exactly what
the flags promise on entry.
 R1 at every nested smoothing call the flags passed are truthful: x_zero only for x = 0, res_updated only for res = b - A x
 R2 on return with update_res the residual equals b - A x
 R3 level transfers of the cycles restrict an up-to-date residual and add the correction, with weight one, to the iterate
    that is smoothed on that level; all calls of a level use the vectors and the smoother of that level
 R4 the kernels of HybridDISmoother keep the residual up to date"""
import re
from ..absint import Interp, Client, pval, psym, pconst, padd, num, lbase, ladd, lapply, LZERO, showl, pname, rename_words, TRUE, FALSE
from ..facts import AnalysisError
from ..ir import walk, cname

FAM = {'Smooth': 0, 'SmoothBack': 0, 'SmoothSymm': 0, 'SmoothK': 1, 'SmoothBackK': 1, 'SmoothSymmK': 1, 'SmoothVFromLevel': 1}


def word(*ps):
    return frozenset([((ps), pconst(1))]) if False else frozenset([((tuple(ps), None), pconst(1))])


THIS = ('this',)


class C(Client):
    def __init__(self, P, R, fn, cls):
        self.P, self.R, self.fn, self.cls_ = P, R, fn, cls
        self.calls = 0
        self.transfers = 0
        self.checked = set()
        self.cyc = False
        self.didrec = set()
        self.kern = {}
        self.fix = False        # fixed point mode: b = A x on entry; smoothers and kernels leave a solution alone
        self.uses = {}

    # ---- operator of a smoother object
    def A(self, p):
        return word(('A', p))

    def canon(self, lin):
        """operator words rewritten with the identities of the class at hand"""
        cls = self.cls_

        def one(w):
            out = word()
            for x in w:
                out = compose(out, self.axiom(cls, x))
            return out
        return rename_words(lin, one)

    def axiom(self, cls, x):
        if x == ('A', THIS) or x == ('this', 'sysmat'):
            if 'ProxySmoother' in cls:
                return word(('A', ('this', 'sm')))
            if 'HiptMair' in cls:
                return word(('A', ('this', 'smrange')))
            if 'AMGSmoother' in cls:
                return word(('A', ('this', 'amg_mat', 'smoothers', ('[]', psym(('S', ('this', 'start_level')))))))
            if 'HybridBaseSmoother' in cls:
                return ladd(word('M'), word('G'))
            return word(('A', THIS))
        if x == ('this', 'AR_D'):
            return word(('A', ('this', 'smrange')), ('this', 'D'))
        if x == ('this', 'DT_AR'):
            return word(('this', 'DT'), ('A', ('this', 'smrange')))
        return word(x)

    def eq(self, a, b):
        return not self.canon(ladd(a, b, pconst(-1)))

    def bad(self, fr, e, key, text):
        self.R.violation("%s:%s" % (key, fr.fn.short), fr.fn.where(e), text)

    # ---- hooks
    def atom(self, I, st, key):
        # repeated steps: a positive number of them
        if key[0] in ('lt0', 'gt0', 'eq0') and isinstance(key[1], frozenset):
            d = dict(key[1])
            a = d.pop(((('S', ('k',)),)), 0.0)
            if a and all(m == () for m in d):
                c = d.get((), 0.0)
                # a k + c with k >= 1: sign known when both ends agree
                lo = a + c
                if a > 0:
                    return {'lt0': False if lo >= 0 else None, 'gt0': True if lo > 0 else None, 'eq0': False if lo > 0 else None}[key[0]]
                return {'gt0': False if lo <= 0 else None, 'lt0': True if lo < 0 else None, 'eq0': False if lo < 0 else None}[key[0]]
        return None

    def head(self, I, s, node):
        if s.cl:
            s.cl = tuple(x for x in s.cl if not (x[0][0] == 'last' and ("'iv', %d," % id(node) in repr(x) or "'phi', %d," % id(node) in repr(x))))

    def zero(self, s, lev):
        """the level, or 0 if this path assumes it to be the finest one"""
        for k in (lev, padd(frozenset(), lev, -1.0)):
            if s.asm.get(('eq0', k)) is True:
                return frozenset()
        return lev

    def compact(self, I, s):
        for k in [k for k in s.asm if isinstance(k, tuple) and k[0] in ('b', 'eq')]:
            del s.asm[k]

    def inline(self, I, fn, e, fr):
        return fn.name.startswith('amg::') and not re.search(r'(DOFMap|UniversalDofs|BaseDOFMapStep|DCCMap|CalcInverse|Print)', fn.name)

    def recursion(self, I, st, fr, e):
        lam = getattr(I, 'rec_info', None)
        if lam is not None and id(lam[2]) not in self.didrec:
            lam, dfr, body, ps = lam
            self.didrec.add(id(body))
            from ..absint import Frame
            s = st.copy()
            for k in list(s.store):
                if s.store[k][0] == 'V' and k[:1] == THIS:
                    s.store[k] = ('V', lbase(('any', k)))
            s.cl = ()
            for k in [k for k in s.asm if isinstance(k, tuple) and k[0] in ('eq0', 'lt0', 'gt0')]:
                del s.asm[k]
            nf = Frame(fr.fid + ('rec', id(body)), dfr.fn, dfr.this, fr.stack + (id(body),), dfr, dfr.cls)
            I.run_body(s, nf, body, ps, [('#', psym(('S', ('level',)))) for _ in ps], [], fr, lam)
        s = st.copy()
        for k in list(s.store):
            if s.store[k][0] == 'V' and any(x in k for x in ('x_level', 'rhs_level', 'res_level')):
                s.store[k] = ('V', lbase(I.fresh(fr, e, k)))
        return [(s, ('void',))]

    def call(self, I, st, fr, e, q, nm, obj, args):
        if nm in FAM and len(args) == 6 + FAM[nm] and (q.startswith('amg::') or not q) and \
                all('BaseVector' in fr.fn.ty(x.get('t')) for x in e['a'][FAM[nm]:FAM[nm] + 3]):
            return self.smooth(I, st, fr, e, nm, obj, args)
        if nm == 'GetAMatrix' and not args:
            return [(st, ('M', self.A(obj[1] if obj is not None and obj[0] == 'L' else fr.this)))]
        if nm in ('Mult', 'MultTrans', 'MultAdd', 'MultTransAdd') and obj is not None and len(args) in (2, 3) and args[-1][0] == 'L':
            return self.mult(I, st, fr, e, nm, obj, args)
        if nm in ('GetM', 'GetSpM'):
            return [(st, ('M', word('M')))]
        if nm in ('GetG', 'GetSpG'):
            return [(st, ('M', word('G')))]
        if nm in ('HasGGlobal', 'HasG', 'HasGLocal'):
            return [(st, ('A', ('has', 'loc' if nm == 'HasGLocal' else 'glob')))]
        if nm in ('SmoothStageRes', 'SmoothStageRHS') and len(args) == 6:
            return self.stage(I, st, fr, e, nm, args)
        if nm in ('CreateVector', 'CreateRowVector', 'CreateColVector'):
            return [(st, ('L', ('obj', id(e), fr.fid)))]
        if nm in ('TransferF2C', 'TransferAtoB', 'AddC2F', 'TransferC2F') and obj is not None:
            return self.transfer(I, st, fr, e, nm, obj, args)
        if nm in ('StartDIS2CO', 'FinishDIS2CO', 'StartCO2CU', 'FinishCO2CU', 'Cumulate', 'Distribute', 'SetParallelStatus'):
            return [(st, ('void',))]
        if nm == 'GetParallelStatus':
            return [(st, ('#', psym(('S', ('status', obj)))))]
        if nm == 'Add' and obj is not None and obj[0] == 'L' and len(args) == 2 and 'Vector' in q:
            s = st.copy()
            I.setvec(s, fr, e, obj[1], ladd(I.vec(s, obj), I.vec(s, args[1]), I.scal(s, args[0])))
            return [(s, ('void',))]
        if nm == 'Set' and obj is not None and obj[0] == 'L' and len(args) == 2 and 'Vector' in q:
            s = st.copy()
            I.setvec(s, fr, e, obj[1], ladd(LZERO, I.vec(s, args[1]), I.scal(s, args[0])))
            return [(s, ('void',))]
        if nm == 'SetScalar' and obj is not None and obj[0] == 'L' and len(args) == 1:
            s = st.copy()
            I.setvec(s, fr, e, obj[1], I.vec(s, args[0]))
            return [(s, ('void',))]
        k = self.kernel(I, fr, e)
        if k is not None:
            return self.run_kernel(I, st, fr, e, k, args)
        return None

    # ---- kernels of the local smoothers (element-wise loops): recognised by what they receive
    def kernel(self, I, fr, e):
        m = e.get('m')
        if m in self.kern:
            return self.kern[m]
        r = None
        fn = self.P.fns.get(m)
        if fn is not None and fn.j.get('rec') and re.match(r'amg::(GSS3|GSS4|BSmoother2?|DynBlockSmoother)\b', fn.name) and fn.j.get('b') is not None:
            if self.elementwise(fn, 0):
                cs, ns = [], []
                for i, p in enumerate(fn.j['ps']):
                    t = fn.ty(p['t'])
                    if re.search(r'Vector\b', t) and t.endswith('&'):
                        (cs if t.startswith('const ') else ns).append(i)
                if (len(ns), len(cs)) == (1, 1):
                    r = ('rhs', ns[0], cs[0], None)
                elif (len(ns), len(cs)) == (2, 0):
                    r = ('res', ns[0], None, ns[1])
                elif (len(ns), len(cs)) == (2, 1):
                    r = ('cr' if '_CR' in fn.name else 'work', ns[0], cs[0], ns[1])
        self.kern[m] = r
        return r

    def elementwise(self, fn, d):
        """the function opens its vectors (or hands them to functions that do) and has no vector level operation"""
        if d > 4:
            return False
        hit = False
        for n in walk(fn.j['b']):
            if n['k'] in ('call', 'op') and cname(n) in ('FV', 'FVDouble', 'FVComplex', 'FVScal'):
                hit = True
            if n['k'] == 'call' and cname(n) in ('GetAMatrix', 'CalcResiduum'):
                return False
            if n['k'] == 'op' and n['op'] in ('=', '+=', '-=') and n['a'] and 'BaseVector' in fn.ty(n['a'][0].get('t')):
                return False
            if n['k'] == 'call' and n.get('m') in self.P.fns and self.P.fns[n['m']].name.startswith('amg::') and \
                    self.P.fns[n['m']].j.get('b') is not None and n['m'] != fn.key and not hit:
                if any('BaseVector' in self.P.fns[n['m']].ty(p['t']) for p in self.P.fns[n['m']].j['ps']):
                    hit = self.elementwise(self.P.fns[n['m']], d + 1)
        return hit

    def run_kernel(self, I, st, fr, e, k, args):
        kind, xi, bi, ri = k
        s = st.copy()
        self.R.count("kernel calls")
        x = args[xi]
        if x[0] != 'L':
            raise AnalysisError("C04: cannot resolve the iterate of a kernel call at %s" % fr.fn.where(e))
        old = I.vec(s, x)
        new = lbase(I.fresh(fr, e, x[1]))
        if self.fix and kind in ('res', 'rhs', 'work') and \
                self.eq(I.vec(s, args[ri if kind == 'res' else bi]), LZERO if kind == 'res' else lapply(self.A(THIS), old)):
            new = old
        if kind == 'cr' and self.fix and self.eq(I.vec(s, args[bi]), LZERO):
            new = LZERO
        if kind == 'res':
            r = args[ri]
            if r[0] == 'L':
                I.setvec(s, fr, e, r[1], ladd(I.vec(s, r), lapply(self.A(THIS), ladd(new, old, pconst(-1))), pconst(-1)))
        elif kind == 'cr':
            I.setvec(s, fr, e, args[ri][1], ladd(I.vec(s, args[bi]), lapply(self.A(THIS), new), pconst(-1)))
        elif kind == 'work':
            I.setvec(s, fr, e, args[ri][1], lbase(I.fresh(fr, e, args[ri][1])))
        I.setvec(s, fr, e, x[1], new)
        return [(s, ('void',))]

    def stage(self, I, st, fr, e, nm, args):
        s = st.copy()
        self.R.count("stage kernel calls")
        x, b, r = args[2:5]
        if any(v[0] != 'L' for v in (x, r)):
            raise AnalysisError("C04: stage kernel arguments at %s" % fr.fn.where(e))
        old = I.vec(s, x)
        new = lbase(I.fresh(fr, e, x[1]))
        if self.fix and self.eq_g(s, I.vec(s, r if nm == 'SmoothStageRes' else b), LZERO if nm == 'SmoothStageRes' else lapply(word('M'), old)):
            new = old
        if nm == 'SmoothStageRes':
            I.setvec(s, fr, e, r[1], ladd(I.vec(s, r), lapply(word('M'), ladd(new, old, pconst(-1))), pconst(-1)))
        else:
            # the right-hand side variant works with the M-block only: it needs b - G x_0
            cl = dict(s.cl)
            x0 = cl.get('x0')
            b0 = cl.get('b0')
            want = ladd(b0, lapply(word('G'), x0), pconst(-1))
            if not self.eq_g(s, I.vec(s, b), want):
                self.bad(fr, e, "stage-rhs", "the right-hand side handed to the local kernels is %s instead of b - G x = %s" %
                         (showl(I.vec(s, b)), showl(want)))
            if r[1] != x[1]:
                I.setvec(s, fr, e, r[1], lbase(I.fresh(fr, e, r[1])))
        I.setvec(s, fr, e, x[1], new)
        return [(s, ('void',))]

    def eq_g(self, s, a, b):
        d = self.canon(ladd(a, b, pconst(-1)))
        if s.asm.get(('has', 'loc')) is False or s.asm.get(('has', 'glob')) is False:
            d = frozenset((t, p) for t, p in d if 'G' not in t[0])
        return not d

    def mult(self, I, st, fr, e, nm, obj, args):
        y = args[-1]
        x = args[-2]
        s = st.copy()
        w = I.opw(obj)
        if obj[0] == 'L' and 'Trans' in nm:
            w = word((obj[1], 'T'))
        new = lapply(w, I.vec(s, x))
        if 'Add' in nm:
            new = ladd(I.vec(s, y), new, I.scal(s, args[0]))
        # coarse solve inside a cycle
        if self.cyc and nm == 'Mult' and obj[0] == 'L' and 'crs_inv' in obj[1]:
            self.level_use(s, fr, e, 'coarse', x[1] if x[0] == 'L' else None, y[1], None)
        I.setvec(s, fr, e, y[1], new)
        return [(s, ('void',))]

    # ---- nested smoothing call
    def flag(self, I, s, fr, e, v):
        if v[0] == '#':
            c = pval(v[1])
            return [(s, bool(c))] if c is not None else None
        return I.truth(s, fr, e, v)

    def smooth(self, I, st, fr, e, nm, obj, args):
        o = FAM[nm]
        self.calls += 1
        self.R.count("nested smoothing calls (path-wise)")
        self.checked.add((fr.fn.short, e.get('l')))
        x, b, r = args[o], args[o + 1], args[o + 2]
        fl = args[o + 3:o + 6]
        if any(v[0] != 'L' for v in (x, b, r)):
            raise AnalysisError("C04: cannot resolve the vectors of %s at %s" % (nm, fr.fn.where(e)))
        out = []
        p = obj[1] if obj is not None and obj[0] == 'L' else fr.this
        if nm == 'SmoothVFromLevel':
            lev = args[0][1] if args[0][0] == '#' else psym(('S', args[0]))
            p = p + ('smoothers', ('[]', lev))
        A = self.A(p)
        for s1, ru in I.truth(st, fr, e, fl[0]):
            for s2, ur in I.truth(s1, fr, e, fl[1]):
                for s3, xz in I.truth(s2, fr, e, fl[2]):
                    s = s3.copy()
                    X, B, Rs = I.vec(s, x), I.vec(s, b), I.vec(s, r)
                    if xz and not self.eq(X, LZERO):
                        self.bad(fr, e, "x-zero", "%s is called with x_zero although x = %s" % (nm, showl(X)))
                    else:
                        self.R.ok()
                    if ru:
                        want = ladd(B, lapply(A, X), pconst(-1))
                        if not self.eq(Rs, want):
                            self.bad(fr, e, "res-updated", "%s is called with res_updated although res = %s and b - A x = %s" %
                                     (nm, showl(self.canon(Rs)), showl(self.canon(want))))
                        else:
                            self.R.ok()
                    if x[1] == r[1] or x[1] == b[1]:
                        self.bad(fr, e, "aliased", "%s is called with the same vector for two roles" % nm)
                    if 'HiptMair' in self.cls_ and p == ('this', 'smpot'):
                        cl = dict(s.cl)
                        xr = I.vec(s, ('L', ('x',)))
                        want = lapply(word(('this', 'DT')), ladd(cl['b0'], lapply(self.A(THIS), xr), pconst(-1)))
                        if not self.eq(B, want):
                            self.bad(fr, e, "pot-rhs", "the potential space is smoothed with %s instead of the restricted residual" % showl(self.canon(B)))
                        else:
                            self.R.ok("potential right-hand side = DT (b - A x)")
                    if self.cyc:
                        self.level_use(s, fr, e, p, x[1], b[1], r[1])
                    new = lbase(I.fresh(fr, e, x[1]))
                    if self.fix and self.eq(B, lapply(A, X)):
                        new = X
                    if nm == 'SmoothVFromLevel':
                        for k in [k for k in s.store if s.store[k][0] == 'V' and any(z in k for z in ('x_level', 'rhs_level', 'res_level')) and k not in (x[1], b[1], r[1])]:
                            s.store[k] = ('V', lbase(I.fresh(fr, e, k)))
                    s.store[x[1]] = ('V', new)
                    s.store[r[1]] = ('V', ladd(B, lapply(A, new), pconst(-1)) if ur else lbase(I.fresh(fr, e, r[1])))
                    out.append((s, ('void',)))
        return out

    # ---- cycles
    def level_of(self, p):
        """poly of the level a smoother path belongs to"""
        for x in reversed(p):
            if isinstance(x, tuple) and x[:1] == ('[]',):
                return x[1]
        return None

    def tmpl(self, p, lev):
        """path with level indices made relative to lev"""
        r = []
        for x in p:
            if isinstance(x, tuple) and x[:1] == ('[]',):
                d = pval(padd(x[1], lev, -1.0)) if isinstance(x[1], frozenset) else None
                r.append(('[]', 'l%+g' % d if d is not None else repr(x[1])))
            else:
                r.append(x)
        return tuple(r)

    def tmpl0(self, s, p, lev):
        z = self.zero(s, lev)
        if z == lev:
            return self.tmpl(p, lev)
        return self.tmpl(self.subst(p, lev), z)

    def subst(self, p, lev):
        """indices lev+c -> c (the level is 0)"""
        r = []
        for x in p:
            if isinstance(x, tuple) and x[:1] == ('[]',) and isinstance(x[1], frozenset) and pval(padd(x[1], lev, -1.0)) is not None:
                x = ('[]', padd(x[1], lev, -1.0))
            r.append(x)
        return tuple(r)

    def level_use(self, s, fr, e, p, x, b, r):
        if p == 'coarse':
            self.uses.setdefault('coarse', []).append((x, b, fr, e))
            return
        lev = self.level_of(p)
        if lev is None:
            cl = dict(s.cl)
            cl[('last', 'fls')] = (p, x, b, r)
            s.cl = tuple(sorted(cl.items(), key=repr))
            return
        t = tuple(self.tmpl0(s, z, lev) for z in (x, b, r))
        self.uses.setdefault('smooth', []).append((t, fr, e))
        for y, what in ((t[0], 'iterate'), (t[1], 'right-hand side'), (t[2], 'residual')):
            ix = [z for z in y if isinstance(z, tuple) and z[:1] == ('[]',)]
            if ix and ix[-1][1] != 'l+0':
                self.bad(fr, e, "level", "the %s passed to the smoother of one level is the vector of another level (%s)" % (what, pname(y)))
            else:
                self.R.ok()
        cl = dict(s.cl)
        cl[('last', lev)] = (p, x, b, r)
        s.cl = tuple(sorted(cl.items(), key=repr))

    def transfer(self, I, st, fr, e, nm, obj, args):
        """DOFMap: (level, ...) ; single step: no level"""
        self.R.count("transfer calls (path-wise)")
        self.transfers += 1
        s = st.copy()
        lev = None
        a = list(args)
        step = nm != 'TransferAtoB' and (len(a) == 2 or (nm == 'AddC2F' and len(a) == 3))
        to = None
        if nm == 'TransferAtoB':
            lev, to = a[0][1], a[1][1]
            a = a[2:]
        elif not step:
            lev = a[0][1] if a[0][0] == '#' else None
            a = a[1:]
        fac = None
        if nm == 'AddC2F':
            fac = a[0]
            a = a[1:]
        cl = dict(s.cl)
        if nm in ('TransferF2C', 'TransferAtoB'):
            F, Cc = a
        else:
            F, Cc = a
        last = cl.get(('last', lev)) if lev is not None else None
        if step:
            last = cl.get(('last', 'fls'))
        if lev is not None and Cc[0] == 'L':
            ct = self.tmpl0(s, Cc[1], lev)
            ix = [z for z in ct if isinstance(z, tuple) and z[:1] == ('[]',)]
            if ix and ix[-1][1] != 'l+1':
                self.bad(fr, e, "transfer-level", "the coarse vector of a level transfer belongs to another level (%s)" % pname(ct))
            else:
                self.R.ok()
            self.uses.setdefault('b' if nm in ('TransferF2C', 'TransferAtoB') else 'x', []).append((tuple(z for z in ct), fr, e))
        if lev is not None and F[0] == 'L':
            ft = self.tmpl0(s, F[1], lev)
            ix = [z for z in ft if isinstance(z, tuple) and z[:1] == ('[]',)]
            if ix and ix[-1][1] != 'l+0':
                self.bad(fr, e, "transfer-level", "the fine vector of a level transfer belongs to another level (%s)" % pname(ft))
        if nm in ('TransferF2C', 'TransferAtoB') and F[0] == 'L':
            if last is not None:
                p, x, b, r = last
                want = ladd(I.vec(s, ('L', b)), lapply(self.A(p), I.vec(s, ('L', x))), pconst(-1))
                if not self.eq(I.vec(s, F), want):
                    self.bad(fr, e, "restrict", "the vector restricted to the coarse level is not the residual of the smoothed iterate: %s instead of %s" %
                             (showl(self.canon(I.vec(s, F))), showl(self.canon(want))))
                else:
                    self.R.ok("restricted residual up to date")
        if nm == 'AddC2F' and F[0] == 'L':
            f = pval(fac[1]) if fac[0] == '#' else None
            if f != 1.0:
                self.bad(fr, e, "correction-weight", "the coarse correction is added with a weight other than one")
            if last is not None and F[1] != last[1]:
                self.bad(fr, e, "correction-target", "the coarse correction is added to a vector that is not the smoothed iterate")
            else:
                self.R.ok()
        if Cc[0] == 'L' and nm in ('TransferF2C', 'TransferAtoB'):
            s.store[Cc[1]] = ('V', lbase(I.fresh(fr, e, Cc[1])))
        if F[0] == 'L' and nm in ('AddC2F', 'TransferC2F'):
            s.store[F[1]] = ('V', lbase(I.fresh(fr, e, F[1])))
        return [(s, ('void',))]


def compose(a, b):
    r = LZERO
    for (u, _), p in a:
        for (v, _), q in b:
            from ..absint import pmul
            r = ladd(r, frozenset([((u + v, None), pmul(p, q))]))
    return r


def flag_functions(P):
    """(fn, offset) of every member of the family with a body"""
    out = []
    for f in P.fns.values():
        if f.key.startswith('P:') or f.j.get('b') is None or not f.name.startswith('amg::'):
            continue
        nm = f.name.split('::')[-1].split('<')[0]
        if nm not in FAM:
            continue
        o = FAM[nm]
        ps = f.j['ps']
        if len(ps) != 6 + o or not all('Vector' in f.ty(p['t']) for p in ps[o:o + 3]) or not all(f.ty(p['t']).startswith('bool') for p in ps[o + 3:]):
            continue
        out.append((f, o, nm))
    return out


def one_per_pattern(fs):
    seen, out = set(), []
    for f, o, nm in sorted(fs, key=lambda x: x[0].name):
        k = (re.sub(r'<.*>', '<>', f.name), f.file, f.line)
        if k in seen:
            continue
        seen.add(k)
        out.append((f, o, nm))
    return out


def run_family(P, R, f, o, nm):
    cls = f.j['rec']
    for ru in (False, True):
        for ur in (False, True):
            for xz in (False, True):
                c = C(P, R, f, cls)
                c.uses = {}
                I = Interp(P, c)
                x, b, r = ('x',), ('b',), ('res',)
                lev = psym(('S', ('startlevel',)))
                A = c.A(THIS)
                args = []
                if nm == 'SmoothVFromLevel':
                    c.cyc = True
                    args = [('#', lev)]
                    A = c.A(('this', 'smoothers', ('[]', lev)))
                elif o:
                    args = [('#', psym(('S', ('k',))))]
                X = LZERO if xz else lbase(('init', x))
                B = lbase(('init', b))
                store = {x: ('V', X), b: ('V', B)}
                if ru:
                    store[r] = ('V', ladd(B, lapply(A, X), pconst(-1)))
                args += [('L', x), ('L', b), ('L', r)] + [('B', v) for v in (ru, ur, xz)]
                cl = {'b0': B, 'x0': X}
                res = I.run(f, args, store, tuple(sorted(cl.items())), cls=cls)
                if not res:
                    R.count("combinations that always throw")
                for s, v in res:
                    Xf, Rf, Bf = I.vec(s, ('L', x)), I.vec(s, ('L', r)), I.vec(s, ('L', b))
                    if ur:
                        want = ladd(B, lapply(A, Xf), pconst(-1))
                        if 'HybridBase' in cls:
                            d = ladd(Rf, want, pconst(-1))
                            good = c.eq_g(s, d, LZERO)
                        else:
                            good = c.eq(Rf, want)
                        if not good:
                            R.violation("post:%s" % f.short, f.where(), "called with res_updated=%d, update_res=1, x_zero=%d the function returns res = %s "
                                        "although b - A x = %s" % (ru, xz, showl(c.canon(Rf)), showl(c.canon(want))))
                        else:
                            R.ok("%s(res_updated=%d, update_res=1, x_zero=%d) delivers b - A x" % (f.short, ru, xz))
                    if not c.eq(Bf, B):
                        R.violation("rhs:%s" % f.short, f.where(), "the right-hand side is changed by the smoothing step")
                R.count("abstract runs")
                finish_cycle(c, R, f)


def fixed_point(P, R, f, o, nm):
    """b = A x: whatever the flags, the step returns x"""
    cls = f.j['rec']
    for ru in (False, True):
        for ur in (False, True):
            c = C(P, R, f, cls)
            c.fix = True
            I = Interp(P, c)
            x, b, r = ('x',), ('b',), ('res',)
            A = c.A(THIS)
            X = lbase(('init', x))
            B = lapply(c.canon(A), X)
            store = {x: ('V', X), b: ('V', B)}
            if ru:
                store[r] = ('V', LZERO)
            args = ([('#', psym(('S', ('k',))))] if o else []) + [('L', x), ('L', b), ('L', r)] + [('B', v) for v in (ru, ur, False)]
            for s, v in I.run(f, args, store, tuple(sorted({'b0': B, 'x0': X}.items())), cls=cls):
                Xf = I.vec(s, ('L', x))
                if not c.eq_g(s, Xf, X):
                    R.violation("fixed-point:%s" % f.short, f.where(), "with b = A x (res_updated=%d, update_res=%d) the step returns %s instead of x" %
                                (ru, ur, showl(c.canon(Xf))))
                else:
                    R.ok("%s leaves the solution alone" % f.short)
            R.count("abstract runs")


def run_stage(P, R):
    """kernels written with vector operations (not element by element)"""
    fs = []
    for f in P.fns.values():
        nm = f.name.split('::')[-1]
        if nm in ('SmoothStageRes', 'SmoothStageRHS') and not f.key.startswith('P:') and f.j.get('b') is not None and len(f.j['ps']) == 6:
            if not any(n['k'] in ('call', 'op') and cname(n) in ('FV', 'FVDouble', 'FVComplex', 'Smooth', 'SmoothBack', 'SmoothRES') or
                       n['k'] == 'call' and len([a for a in n['a'] if 'BaseVector' in f.ty(a.get('t'))]) > 1 and cname(n) not in ('Mult', 'MultAdd')
                       for n in walk(f.j['b'])):
                fs.append((f, 0, nm))
    for f, _, nm in one_per_pattern(fs):
        stages = P.enum_values(f.ty(f.j['ps'][0]['t']).replace('const ', '').replace(' &', '').strip())
        dirs = P.enum_values(f.ty(f.j['ps'][1]['t']).replace('const ', '').replace(' &', '').strip())
        for sv in sorted(set(stages)):
            for dv in sorted(set(dirs)):
                for fix in (False, True):
                    c = C(P, R, f, f.j['rec'])
                    I = Interp(P, c)
                    x, b, r = ('x',), ('b',), ('res',)
                    X, B, Rv = (lbase(('init', z)) for z in (x, b, r))
                    if fix:
                        B, Rv = lapply(word('M'), X), LZERO
                    for s, v in I.run(f, [num(sv), num(dv), ('L', x), ('L', b), ('L', r), ('B', False)],
                                      {x: ('V', X), b: ('V', B), r: ('V', Rv)}, (), cls=f.j['rec']):
                        d = ladd(I.vec(s, ('L', x)), X, pconst(-1))
                        if fix and not c.eq(d, LZERO):
                            R.violation("kernel-fixed-point:%s" % f.short, f.where(), "the kernel changes x although the residual vanishes (x changes by %s)" % showl(d))
                        elif nm == 'SmoothStageRes' and not c.eq(ladd(I.vec(s, ('L', r)), lapply(word('M'), d)), Rv):
                            R.violation("kernel-residual:%s" % f.short, f.where(), "the kernel changes x by d = %s but the residual by %s instead of -M d" %
                                        (showl(d), showl(ladd(I.vec(s, ('L', r)), Rv, pconst(-1)))))
                        else:
                            R.ok("%s: residual and iterate agree (stage %s)" % (f.short, sv))
        R.count("vector level stage kernels")


def finish_cycle(c, R, f):
    """vectors used for the same role on neighbouring levels agree"""
    if not c.cyc:
        return
    inner = {t for t, fr, e in c.uses.get('smooth', []) if any(isinstance(z, tuple) and z[:1] == ('[]',) for z in t[0])}

    def strip(p, d):
        return tuple(('[]', 'l+0') if z == ('[]', d) else z for z in p)
    for role, pos in (('b', 1), ('x', 0)):
        for p, fr, e in c.uses.get(role, []):
            ok = not inner or any(strip(p, 'l+1') == t[pos] for t in inner)
            if not ok:
                c.bad(fr, e, "coarse-role", "the vector that carries the %s to the next level (%s) is not the one that level smooths with" %
                      ('restricted residual' if role == 'b' else 'correction', pname(p)))
            else:
                R.ok()
    bs = {strip(p, 'l+1')[:-1] for p, _, _ in c.uses.get('b', [])}
    xs = {strip(p, 'l+1')[:-1] for p, _, _ in c.uses.get('x', [])}
    for x, b, fr, e in c.uses.get('coarse', []):
        if x is None or (bs and x[:-1] not in bs) or (xs and b[:-1] not in xs):
            c.bad(fr, e, "coarse-solve", "the coarsest level is not solved with the restricted residual into the correction")
        else:
            R.ok("coarsest level solved with the restricted residual")


def run_cycle(P, R, f, level_fns):
    c = C(P, R, f, f.j['rec'])
    c.cyc = True
    c.uses = {}
    I = Interp(P, c)
    x, b = ('x',), ('b',)
    ps = f.j['ps']
    args = []
    for p in ps:
        t = f.ty(p['t'])
        args.append(('L', b) if t.startswith('const ') else ('L', x))
    store = {b: ('V', lbase(('init', b)))}
    I.run(f, args, store, (), cls=f.j['rec'])
    R.count("abstract runs")
    finish_cycle(c, R, f)
    return c


def run(P, R):
    fam = one_per_pattern(flag_functions(P))
    names = set()
    for f, o, nm in fam:
        if 'AMGSmoother2' in f.name:
            continue        # local debugging helper of amg_pc.cpp
        run_family(P, R, f, o, nm)
        if 'AMG' not in f.j['rec']:
            fixed_point(P, R, f, o, nm)
        names.add(f.name)
    R.need("members of the smoothing family", len(names), 20)
    run_stage(P, R)
    cyc = 0
    for n in ('AMGMatrix::SmoothV', 'AMGMatrix::SmoothW', 'AMGMatrix::SmoothBS', 'EmbeddedAMGMatrix::Mult'):
        fs = [f for f in P.fns.values() if f.name == 'amg::' + n and f.j.get('b') is not None]
        if not fs:
            raise AnalysisError("C04: %s not found" % n)
        c = run_cycle(P, R, fs[0], None)
        R.need("smoothing calls in " + n, c.calls, 2)
        R.need("transfers in " + n, c.transfers, 2)
        cyc += 1
