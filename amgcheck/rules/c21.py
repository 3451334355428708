"""C21: parallel vectors are used in the parallel status they are in.
A vector shared between ranks carries a status: DISTRIBUTED (the ranks' values add up), CUMULATED (every rank holds the full value).
Local data means something only together with the status, and local operations are right for one status only: a local matrix maps
a cumulated vector to a distributed one, a local restriction distributed to distributed, a local prolongation cumulated to
cumulated. All members that apply operators, transfer between levels, smooth or cycle are executed abstractly (absint) with, for
every vector, the status it is labelled with and the status its local data really has, both unknown on entry:
 R1 local operators and element-wise transfers are applied to vectors that are in the status the operation needs
 R2 no vector is read, converted, handed on or returned with a label its data does not have (relabelling is for vectors that are
    zero or overwritten)
 R3 restrictions return distributed vectors, prolongations cumulated ones, local matrices distributed ones
 R4 hybrid sweeps: the exchange part sees concentrated (or cumulated) right-hand sides, and the halo of the iterate is brought up
    to date through an exchange that is not a no-op
 """
import json
import re
from ..absint import Interp, State, pval, psym, pconst, padd, num, lbase, ladd, LZERO, pname
from ..facts import AnalysisError
from ..ir import walk, cname
from . import c22, c23

D, K, C, Q = 'DISTRIBUTED', 'CONCENTRATED', 'CUMULATED', '?'
STALE = 'updated locally only'
NUM = {0: D, 1: C}
THIS = ('this',)
RAWF = {'GetLocalVector', 'FVDouble', 'FVComplex', 'FVScal', 'FV', 'Memory'}
MODES, STEPS = c22.MODES, c22.STEPS


def strip(p):
    """(path of the vector, seen through a local view?, one entry of it?)"""
    raw = elem = False
    q = []
    for x in p:
        if x == 'raw!':
            raw = True
            q, elem = q, False
            continue
        if raw and isinstance(x, tuple) and x[:1] in (('[]',), ('rg',)):
            elem = True
            continue
        q.append(x)
    return tuple(q), raw, elem


class SI(Interp):
    def vec(self, st, v):
        if v[0] == 'V':
            return v[1]
        if v[0] == 'L':
            p, raw, elem = strip(v[1])
            r = LZERO
            for k in kind(st, p):
                r = ladd(r, lbase(('k', k)))
            return r
        if v[0] == '#' and pval(v[1]) == 0.0:
            return LZERO
        return lbase(('k', Q)) if v[0] in ('#', 'U') else lbase(('k', Q))

    def setvec(self, st, fr, e, path, lin):
        p, raw, elem = strip(path)
        ks = frozenset(b[1] if isinstance(b, tuple) and b[:1] == ('k',) else Q for (w, b), q in lin)
        self.c.wrote(self, st, fr, e, p, raw, elem, ks)

    def unknown(self, s, fr, e, obj, args, exprs):
        s, v = Interp.unknown(self, s, fr, e, obj, args, exprs)
        rm = e.get('rm', 0)
        for i, a in enumerate(args):
            if rm >> i & 1 and a[0] == 'L':
                p, raw, elem = strip(a[1])
                s.store.pop(p, None)
                if ('kd', p) in s.store or raw:
                    setk(s, p, [Q])
                    if not raw:
                        setl(s, p, Q)
        return s, v


def vecty(fr, x):
    """a vector, seen from its expression"""
    while x['k'] in ('cast', 'darg') or x['k'] == 'un' and x['op'] in ('*', '&') or x['k'] == 'op' and x['op'] == '*' and len(x['a']) == 1:
        x = x['a'][0] if x['k'] == 'op' else x['e']
    t = fr.fn.ty(x.get('t'))
    return 'ector' in t and not re.search(r'MultiVector|std::vector', t)


def kind(st, p):
    v = st.store.get(('kd', p))
    return v[1] if v is not None else frozenset([('s', p)])


def setk(st, p, ks):
    st.store[('kd', p)] = ('null', frozenset(ks))


def setl(st, p, l):
    st.store[('lb', p)] = ('null', l)


def sym(l):
    return num(0 if l == D else 1) if l in (D, C) else ('#', psym(('S', ('stat', l))))


class Cl(c23.C):
    cls_ = ''

    def __init__(self, P, R, N, table, role=None):
        c23.C.__init__(self, P, R, N, table)
        self.role = role or {}          # vector path -> status that entries may be accessed in
        self.ops = 0

    def inline(self, I, fn, e, fr):
        return fn.name.startswith('amg::') and not re.search(r'(UniversalDofs|DCCMap|Calc\w*Inverse|Print|GetMemoryUsage|::Create\w*Vector|TransposeSPM|::Get(NOps|ANZE)|MatMult|BackgroundMPIThread|BufferG|BufferM)', fn.name)

    def mem(self, I, st, fr, path, e):
        if fr.fn.ty(e.get('t')) in c23.INTT:
            v = self.table.get(path[-1], None)
            return num(self.N if v is None else v)
        return None

    def stored(self, I, st, fr, path, v, e):
        # element writes through a local view
        p, raw, elem = strip(path)
        if raw:
            st.store.pop(path, None)
            self.access(I, st, fr, e, p, True)

    # ------------------------------------------------------ the two attributes of a vector
    def resolve(self, st, l):
        if isinstance(l, tuple) and l[:1] == ('s',):
            base = psym(('S', ('stat', l)))
            for c, n in ((0, D), (1, C)):
                v = st.asm.get(('eq0', padd(base, pconst(c), -1.0)))
                if v is None:
                    v = st.asm.get(('eq0', padd(pconst(c), base, -1.0)))
                if v:
                    return n
                if v is False:
                    return C if c == 0 else D       # only parallel vectors matter here
        return l

    def label(self, st, p):
        v = st.store.get(('lb', p))
        return self.resolve(st, v[1] if v is not None else ('s', p))

    def kinds(self, st, p):
        return frozenset(self.resolve(st, k) for k in kind(st, p))

    def valid(self, st, p):
        """None when the data fits the label, otherwise what the data is"""
        l = self.label(st, p)
        for k in self.kinds(st, p):
            if Q in (l, k) or k == l or (k == K and l == D):
                continue
            return k
        return None

    def name(self, p):
        n = pname(tuple(x for x in p if x != 'this'))
        return re.sub(r'^\.', '', n)[:60]

    def say(self, k):
        return 'unknown' if isinstance(k, tuple) else k

    def check(self, st, fr, e, p, what):
        self.R.count("vector uses judged (path-wise)")
        k = self.valid(st, p)
        if k is not None:
            self.R.violation("label:%s:%s" % (fr.fn.short, self.name(p)), fr.fn.where(e),
                             "%s: %s is labelled %s but its data is %s" % (what, self.name(p), self.say(self.label(st, p)), self.say(k)))
            setk(st, p, [Q])
            setl(st, p, Q)
        else:
            self.R.ok()

    def want(self, st, fr, e, p, s, what):
        """the data of p must be in status s"""
        self.R.count("status requirements (path-wise)")
        bad = [k for k in self.kinds(st, p) if k not in (s, Q) and not (k == K and s == D)]
        if bad:
            self.R.violation("status:%s:%s:%s" % (fr.fn.short, self.name(p), s), fr.fn.where(e),
                             "%s needs %s in status %s, but on a path to here it may be %s" % (what, self.name(p), s, ', '.join(sorted(self.say(k) for k in bad))))
        else:
            self.R.ok("%s: %s is %s for %s" % (fr.fn.short, self.name(p), s, what))

    def access(self, I, st, fr, e, p, write):
        """entries of a vector are read / written"""
        s = self.role.get(p)
        if s is None:
            setk(st, p, [Q]) if write else None
            return
        if write and not self.kinds(st, p):
            setk(st, p, [s])
            return
        if write and p in self.fresh_out:
            setk(st, p, [s])
            return
        self.want(st, fr, e, p, s, "entry-wise access")
        if write:
            setk(st, p, [s])

    fresh_out = ()

    def wrote(self, I, st, fr, e, p, raw, elem, ks):
        if elem:
            self.access(I, st, fr, e, p, True)
            return
        if raw:
            old = self.kinds(st, p) if e is not None and e.get('op') in ('+=', '-=') else frozenset()
            ks = frozenset(self.resolve(st, k) for k in ks) | old
            setk(st, p, ks)
            if len(ks - {Q, K}) > 1 and not ks <= {D, K}:
                self.R.violation("mixed:%s:%s" % (fr.fn.short, self.name(p)), fr.fn.where(e), "local data of different status is mixed in %s: %s" %
                                 (self.name(p), ', '.join(sorted(self.say(k) for k in ks))))
            return
        op = e.get('op') if e is not None else None
        if op in ('+=', '-=', '*='):
            self.check(st, fr, e, p, "update of the vector")
            if op == '*=':
                return
            # equal status is kept, otherwise both are cumulated
            l = self.label(st, p)
            new = l if all(self.resolve(st, k) == l for k in ks) else Q
            setl(st, p, new)
            setk(st, p, [new] if new != Q else [Q])
            return
        ks = frozenset(self.resolve(st, k) for k in ks)
        if not ks:
            setl(st, p, C)
            setk(st, p, [])
            return
        l = next(iter(ks)) if len(ks) == 1 else Q
        l = D if l == K else l
        setl(st, p, l)
        setk(st, p, [l])

    # ------------------------------------------------------ operators
    def opclass(self, I, obj, q, fr, e, raw):
        """(status in, status out, local?) of a matrix application"""
        p = obj[1] if obj is not None and obj[0] == 'L' else ()
        last = p[-1] if p else ''
        if isinstance(last, tuple) and last[:1] == ('r',):
            last = last[1]
        if p[:1] == ('r',) and isinstance(p[1], str):
            last = p[1].split('::')[-1]
        last = str(last)
        tr = 'Trans' in cname(e)
        t = fr.fn.ty(e['o'].get('t')) if e.get('o') is not None else ''
        if re.search(r'^(_?prolT?|GetBaseProl(Trans)?|GetBaseSparseProl(Trans)?|GetProl(Trans)?)$', last):
            t2 = last.endswith('T') or last.endswith('Trans')
            return (D, D, True) if t2 != tr else (C, C, True)
        if last in ('_M', '_G', 'GetM', 'GetG', 'GetSpM', 'GetSpG'):
            return (C, D, True)
        return None

    def mult(self, I, st, fr, e, nm, obj, args):
        s = st.copy()
        x, y = args[-2], args[-1]
        if x[0] != 'L' or y[0] != 'L':
            return None
        (px, rx, _), (py, ry, _) = strip(x[1]), strip(y[1])
        oc = self.opclass(I, obj, e.get('f', ''), fr, e, rx)
        self.ops += 1
        add = 'Add' in nm
        if oc is not None:
            si, so, loc = oc
            self.want(s, fr, e, px, si, "a local operator")
            if add:
                self.want(s, fr, e, py, so, "the target of a local operator")
                setk(s, py, [so])
            else:
                setk(s, py, [so])
            return [(s, ('void',))]
        if rx or ry:
            # some other local operator: nothing known about it
            setk(s, py, [Q])
            return [(s, ('void',))]
        self.check(s, fr, e, px, "operator application")
        if add:
            self.check(s, fr, e, py, "operator application")
        setl(s, py, Q)
        setk(s, py, [Q])
        return [(s, ('void',))]

    def step(self, I, st, fr, e, nm, obj, args):
        s = st.copy()
        a = [z for z in args]
        n = 2 + ('Add' in nm)
        if len(a) == n + 1:
            a = a[1:]
        if 'Add' in nm:
            a = a[1:]
        src, dst = (a[0], a[1]) if 'F2C' in nm else (a[1], a[0])
        so = D if 'F2C' in nm else C
        self.ops += 1
        if src[0] == 'L':
            p = strip(src[1])[0]
            self.check(s, fr, e, p, nm)
            setl(s, p, so)
            setk(s, p, [so])
        if dst[0] == 'L':
            p = strip(dst[1])[0]
            if 'Add' in nm:
                self.check(s, fr, e, p, nm)
            setl(s, p, so)
            setk(s, p, [so])
        return [(s, ('void',))]

    # ------------------------------------------------------ calls
    def call(self, I, st, fr, e, q, nm, obj, args):
        isp = obj is not None and obj[0] == 'L'
        k = e['k']
        own = isp and obj[1] == fr.this
        if nm in ('Cumulate', 'Distribute') and isp and not args:
            s = st.copy()
            p, raw, elem = strip(obj[1])
            if ('Vector' in (q or '') or 'Vector' in fr.fn.ty((e.get('o') or {}).get('t'))) and not raw:
                self.check(s, fr, e, p, nm)
                l = C if nm == 'Cumulate' else D
                setl(s, p, l)
                setk(s, p, [l] if self.kinds(s, p) else [])
            return [(s, ('void',))]
        if nm in ('SetParallelStatus', 'SetStatus') and isp and len(args) == 1:
            s = st.copy()
            p, raw, elem = strip(obj[1])
            l = Q
            if args[0][0] == '#':
                v = pval(args[0][1])
                if v is not None:
                    l = NUM.get(int(v), Q)
                else:
                    for m, c in args[0][1]:
                        if len(m) == 1 and c == 1.0 and m[0][0] == 'S' and m[0][1][:1] == ('stat',):
                            l = self.resolve(s, m[0][1][1])
            self.R.count("relabellings (path-wise)")
            setl(s, p, l)
            return [(s, ('void',))]
        if nm == 'GetParallelStatus' and isp:
            return [(st, sym(self.label(st, strip(obj[1])[0])))]
        if nm in RAWF and isp and 'Vector' in (q or ''):
            o = I.ptr(st, obj[1])
            if o[0] != 'L':
                return [(st, o)]
            p = o[1] if strip(o[1])[1] else o[1] + ('raw!',)
            return [(st, ('L', p))]
        if k == 'op' and isp and e['op'] in ('()', '[]') and len(args) == 1 and not e.get('lamcall') and strip(obj[1])[1]:
            s = st.copy()
            p = strip(obj[1])[0]
            if p in self.role and p not in self.fresh_out:
                self.access(I, s, fr, e, p, False)
            return [(s, ('L', obj[1] + (('[]', args[0]),)))]
        if nm.startswith('NG_MPI_') or nm in ('Send', 'Recv', 'ISend', 'IRecv'):
            s = st.copy()
            for a in args:
                if a[0] == 'L':
                    p, raw, elem = strip(a[1])
                    if raw and p in self.role:
                        if 'ecv' in nm:
                            setk(s, p, [self.role[p]])
                        else:
                            self.access(I, s, fr, e, p, False)
            return [(s, ('U', ('mpi', id(e))))]
        if nm in MODES and isp and len(args) in (2, 3) and k == 'call' and vecty(fr, e['a'][-1]):
            if own:
                return None
            return self.mult(I, st, fr, e, nm, obj, args)
        if nm in STEPS and isp and not own:
            return self.step(I, st, fr, e, nm, obj, args)
        if nm == 'TransferAtoB' and isp and len(args) >= 4:
            s = st.copy()
            for i, a in enumerate(args[-2:]):
                if a[0] == 'L':
                    p = strip(a[1])[0]
                    if not i:
                        self.check(s, fr, e, p, nm)
                    setl(s, p, Q)
                    setk(s, p, [Q])
            return [(s, ('void',))]
        if nm in ('SmoothStageRes', 'SmoothStageRHS') and len(args) == 6:
            return self.stage(I, st, fr, e, nm, args)
        if nm in ('StartDIS2CO', 'FinishDIS2CO', 'StartCO2CU', 'FinishCO2CU') and len(args) == 1 and args[0][0] == 'L':
            return self.halo(I, st, fr, e, nm, args[0])
        if nm in ('CreateVector', 'CreateRowVector', 'CreateColVector', 'CreateSPVector', 'CreateSuitableVector', 'CreateSuitableSPVector'):
            s = st.copy()
            p = ('obj', id(e), fr.fid)
            setl(s, p, Q)
            setk(s, p, [Q])
            return [(s, ('L', p))]
        if isp and re.match(r'Smooth', nm) and k == 'call' and not own and any(vecty(fr, x) for x in e['a']):
            return self.leaf21(I, st, fr, e, nm, obj, args)
        if own and re.match(r'Smooth', nm) and k == 'call' and e.get('v') and not e.get('qual') and any(vecty(fr, x) for x in e['a']):
            fn = I.override(fr.cls, e['m'], nm) if fr.cls else None
            if fn is None or fn.j.get('b') is None or fn.key in fr.stack:
                return self.leaf21(I, st, fr, e, nm, obj, args)
            return None
        if nm == 'Solve' and isp and not own and len(args) >= 2 and any(vecty(fr, x) for x in e['a']):
            return self.leaf21(I, st, fr, e, nm, obj, args)
        if nm in ('Add', 'Set') and isp and len(args) == 2 and 'Vector' in q:
            s = st.copy()
            e2 = dict(e, op='+=' if nm == 'Add' else '=')
            if args[1][0] == 'L' and not strip(args[1][1])[1]:
                self.check(s, fr, e, strip(args[1][1])[0], nm)
            I.setvec(s, fr, e2, obj[1], I.vec(s, args[1]))
            return [(s, ('void',))]
        if nm in ('InnerProduct', 'L2Norm'):
            s = st.copy()
            for a in ((obj,) if isp else ()) + tuple(args):
                if a[0] == 'L' and not strip(a[1])[1] and any(z in s.store for z in (('lb', a[1]), ('kd', a[1]))):
                    self.check(s, fr, e, a[1], nm)
            return [(s, ('#', psym(('S', ('ip', id(e))))))]
        if k == 'op' and e['op'] in ('=', '+=', '-=') and isp and len(args) == 1 and 'ector' in fr.fn.ty(e['a'][0].get('t')):
            # whole vectors on the right-hand side must be what they say
            s = st.copy()
            if not strip(obj[1])[1]:
                for r, what in self.operands(I, s, fr, e['a'][1]):
                    self.check(s, fr, e, r, "right-hand side of an assignment")
            if args[0][0] == 'V' or args[0][0] in ('L', '#'):
                cur = I.vec(s, args[0])
            else:
                cur = lbase(('k', Q))
            I.setvec(s, fr, e, obj[1], cur)
            return [(s, obj)]
        if nm in ('Smooth', 'Mult') and not isp:
            return None
        if nm in ('StartInThread', 'WaitForThread', 'CheckForFinish', 'BufferG', 'BufferM', 'ApplyG', 'ApplyM'):
            return [(st, ('void',))]
        return self.sizes(I, st, fr, e, q, nm, obj, args)

    def operands(self, I, s, fr, x):
        """vectors named in a vector expression"""
        out = []

        def rec(n):
            if n['k'] in ('cast', 'darg', 'un'):
                rec(n['e'])
            elif n['k'] in ('op', 'bin') and n['op'] in ('+', '-', '*'):
                for z in (n['a'] if n['k'] == 'op' else (n['a'], n['b'])):
                    rec(z)
            elif n['k'] in ('ref', 'mem', 'sub', 'call') and 'ector' in fr.fn.ty(n.get('t')):
                v = I.ev(s.copy(), fr, n)[0][1]
                if v[0] == 'L':
                    p, raw, elem = strip(v[1])
                    if not raw:
                        out.append((p, n))
        rec(x)
        return out

    def sizes(self, I, st, fr, e, q, nm, obj, args):
        """sizes and ranges with concrete numbers (as in C23)"""
        isp = obj is not None and obj[0] == 'L'
        if nm in ('Prefetch', 'PrefetchRow'):
            return [(st, ('void',))]
        if nm in ('max2', 'min2', 'max', 'min') and len(args) == 2:
            v = [pval(a[1]) if a[0] == '#' else None for a in args]
            if None not in v:
                return [(st, num((max if 'max' in nm else min)(v)))]
        if nm == 'Range' and not isp and args:
            v = [pval(a[1]) if a[0] == '#' else None for a in args]
            if None not in v:
                return [(st, ('rng', 0 if len(v) == 1 else int(v[0]), int(v[-1])))]
            if len(args) == 1 and args[0][0] == 'L':
                return [(st, ('rng', 0, self.base(args[0][1])[2]))]
        if nm == 'Last' and isp and not args:
            return [(st, I.ptr(st, obj[1] + (('[]', pconst(self.base(obj[1])[2] - 1)),)))]
        if nm in ('Size', 'Height', 'Width', 'VHeight', 'VWidth', 'NumSet', 'GetND') and isp and not args:
            return [(st, num(self.base(obj[1])[2] if nm == 'Size' else self.N))]
        return None

    # ------------------------------------------------------ smoothers
    def leaf21(self, I, st, fr, e, nm, obj, args):
        s = st.copy()
        self.ops += 1
        vs = [(i, a) for i, a in enumerate(args) if a[0] == 'L' and vecty(fr, e['a'][i])]
        fl = [a for a in args if a[0] == 'B']
        for n, (i, a) in enumerate(vs):
            p, raw, elem = strip(a[1])
            if raw:
                setk(s, p, [Q])
                continue
            x_zero = len(fl) == 3 and fl[2] == ('B', True)
            upd = len(fl) == 3 and fl[0] == ('B', True)
            if n == 1 or (n == 0 and not x_zero and nm != 'SmoothV') or (n == 2 and upd):
                self.check(s, fr, e, p, nm)
            # a smoother may bring its vectors into the other status
            if n != 1:
                setk(s, p, [Q])
            elif self.kinds(s, p):
                setk(s, p, [Q])
            setl(s, p, Q)
        return [(s, ('void',))]

    def stage(self, I, st, fr, e, nm, args):
        s = st.copy()
        self.ops += 1
        res = nm.endswith('Res')
        x, b, r = args[2:5]
        px = strip(x[1])[0]
        pv = strip((r if res else b)[1])[0]
        stg = pval(args[0][1]) if args[0][0] == '#' else None
        kx = self.kinds(s, px)
        bad = [k for k in kx if k not in (C, Q, STALE)]
        if bad:
            self.R.violation("stage-x:%s" % fr.fn.short, fr.fn.where(e), "the local sweeps start from an iterate that may be %s instead of CUMULATED" % ', '.join(sorted(self.say(k) for k in bad)))
        else:
            self.R.ok()
        kv = self.kinds(s, pv)
        if stg is not None and int(stg) == self.ex_part:
            bad = [k for k in kv if k not in (C, K, Q, STALE)]
            if bad:
                self.R.violation("stage-rhs:%s:%s" % (fr.fn.short, nm), fr.fn.where(e), "the exchange part is swept with %s that may be %s: values of other ranks are missing" %
                                 ('a residual' if res else 'a right-hand side', ', '.join(sorted(self.say(k) for k in bad))))
            else:
                self.R.ok("exchange part sees complete values")
        # the sweeps change the iterate on this rank only, and update a distributed residual consistently
        setk(s, px, [STALE])
        if res and self.label(s, pv) == C:
            setk(s, pv, [STALE])
        return [(s, ('void',))]

    def halo(self, I, st, fr, e, nm, a):
        s = st.copy()
        p = strip(a[1])[0]
        l, ks = self.label(s, p), self.kinds(s, p)
        if nm == 'StartDIS2CO':
            self.check(s, fr, e, p, nm)
            setl(s, p, D)
            setk(s, p, [D])
        elif nm == 'FinishDIS2CO':
            setk(s, p, [K if l == D else x for x in ks])
        elif nm == 'StartCO2CU':
            if l not in (D, Q):
                self.R.violation("halo-noop:%s" % fr.fn.short, fr.fn.where(e), "the exchange of the new values does nothing: %s is labelled %s" % (self.name(p), self.say(l)))
            else:
                self.R.ok("halo exchange of %s takes place" % self.name(p))
        elif nm == 'FinishCO2CU':
            if l == D:
                setl(s, p, C)
                setk(s, p, [C])
        return [(s, ('void',))]

    # ------------------------------------------------------
    def finish(self, st, f, roots, want):
        for n, p in roots:
            k = self.valid(st, p)
            if k is not None:
                self.R.violation("exit:%s:%s" % (f.short, n), f.where(), "on return %s is labelled %s but its data is %s" % (n, self.say(self.label(st, p)), self.say(k)))
            else:
                self.R.ok()
            w = want.get(n)
            if ('lb', p) not in st.store and ('kd', p) not in st.store:
                w = None            # not used on this path (the rank has no part of it)
            if w is not None and self.label(st, p) not in (w, Q):
                self.R.violation("result:%s:%s" % (f.short, n), f.where(), "on return %s must be %s, but is labelled %s" % (n, w, self.say(self.label(st, p))))
            elif w is not None:
                self.R.ok("%s returns %s %s" % (f.short, n, w))


def run_one(P, R, cls, f, table, roles=None, want=None, fresh=False, lead=None):
    c = Cl(P, R, table['N'], table)
    c.cls_ = cls
    c.ex_part = EX
    I = SI(P, c)
    args, roots = [], []
    bools = []
    for i, p in enumerate(f.j['ps']):
        t = f.ty(p['t'])
        b = t.replace('const ', '').rstrip(' &*')
        if 'Vector' in t and not 'Array' in t:
            path = (p['n'] or 'arg%d' % i,)
            args.append(('L', path))
            roots.append((path[0], path))
        elif b == 'bool':
            args.append(None)
            bools.append(i)
        elif b in c23.INTT:
            args.append(num(1))
        elif b == 'double':
            args.append(('#', psym(('S', (p['n'],)))))
        elif t.endswith('&') or t.endswith('*') or 'ptr<' in t:
            args.append(('L', (p['n'] or 'arg%d' % i,)))
        else:
            args.append(('U', ('arg', p['n'])))
    if roles:
        c.role = {path: roles[n] for n, path in roots if n in roles}
        c.fresh_out = tuple(path for n, path in roots if fresh and n in fresh)
    import itertools
    for bv in itertools.product((False, True), repeat=len(bools)) if len(bools) <= 3 else [(False,) * len(bools), (True,) * len(bools)]:
        for i, v in zip(bools, bv):
            args[i] = ('B', v)
        st0 = {}
        for s, v in I.run(f, args, st0, (), (), cls=cls):
            c.finish(s, f, roots, want or {})
        R.count("abstract runs")
    return c.ops


EX = 1


def run(P, R):
    global EX
    for raw in P.enums.values():
        for n, v in json.loads(raw)['v']:
            if n.split('::')[-1] == 'EX_PART':
                EX = v
    table = dict(c23.VALS[0], **{'#sub_steps': 3, '#vecs': 2, '#spvecs': 2, '#maps': 2})
    hyb = st = 0
    classes = [n for n in P.recs if n.startswith('amg::')]
    # R1, R3: operators with local parts
    done = set()
    for cls in c22.one_per_pattern(classes):
        rec = P.rec(cls)
        for m in rec.get('methods', []):
            f = P.fns.get(m['m'])
            if f is None or f.j.get('b') is None or f.key in done or c22.always_throws(f):
                continue
            nv = [p for p in f.j['ps'] if 'BaseVector' in f.ty(p['t'])]
            if not nv:
                continue
            outs = [p['n'] for p in nv if not re.search(r'\bconst\b', f.ty(p['t']))]
            ins = [p['n'] for p in nv if re.search(r'\bconst\b', f.ty(p['t']))]
            if m['n'] in STEPS and any(b.endswith('::BaseDOFMapStep') for b in c22.all_bases(P, cls)) and len(nv) == 2 and len(outs) == 1:
                s = D if 'F2C' in m['n'] else C
                done.add(f.key)
                run_one(P, R, cls, f, table, {outs[0]: s, ins[0]: s}, {outs[0]: s}, fresh=outs if 'Add' not in m['n'] else ())
                st += 1
            elif m['n'] in MODES and cls.startswith('amg::Hybrid') and 'Matrix' in cls and len(nv) == 2 and len(outs) == 1:
                done.add(f.key)
                run_one(P, R, cls, f, table, {ins[0]: C, outs[0]: D}, {outs[0]: D}, fresh=outs if 'Add' not in m['n'] else ())
                hyb += 1
    R.need("level transfers", st, 12)
    R.need("applications of hybrid matrices", hyb, 6)
    # R2, R4: everything built from them
    n = 0
    for cls in c22.one_per_pattern(classes):
        fam = any(re.search(r'Smoother|AMGMatrix|LinearSolver|AMGPC|HybridBS', b) for b in [cls] + c22.all_bases(P, cls))
        if not fam or re.match(r'amg::(GSS\d|BSmoother2?|BSmoother2SysMat|DynBlockSmoother)<', cls):
            continue        # (the latter work on one rank only)
        for m in P.rec(cls).get('methods', []):
            f = P.fns.get(m['m'])
            if f is None or f.j.get('b') is None or f.key in done or c22.always_throws(f):
                continue
            nv = [p for p in f.j['ps'] if 'BaseVector' in f.ty(p['t'])]
            if len(nv) < 2 or not re.match(r'(Smooth|Mult|Solve|CalcResiduum|CINV|GetBF)', m['n']):
                continue
            if re.search(r'Stage|Local|Internal|RESInternal', m['n']):
                continue
            done.add(f.key)
            run_one(P, R, cls, f, table)
            n += 1
    R.need("smoothing, cycle and solver members", n, 30)
