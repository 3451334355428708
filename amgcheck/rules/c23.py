"""C23: a backward sweep is the mirror image of the forward sweep.
The steps of a sweep (updates of entries or blocks of x, calls of inner smoothers, transfers between the levels) are recorded in
order by abstract execution, with all sizes replaced by small numbers so that every loop is run through:
 R1 every ...Back... member performs the steps of its forward counterpart in reverse order, with inner smoothers reversed
 R2 symmetric sweeps and the cycles are their own mirror image
 R3 a row or block is updated exactly once per sweep; those that are not free are not touched"""
import re
from ..absint import Interp, Client, pval, psym, pconst, num, lbase, LZERO
from ..facts import AnalysisError
from .c22 import final, all_bases, one_per_pattern, cls_name, compatible

STATUS = {'Distribute', 'Cumulate', 'SetParallelStatus', 'SetStatus'}
INTT = {'int', 'size_t', 'unsigned long', 'unsigned int', 'unsigned', 'long', 'const int', 'const size_t', 'const unsigned long', 'const unsigned int',
        'unsigned long long', 'ngcore::IntRange'}
SMOOTHER = re.compile(r'(Smoother2?|GSS\d|AMGMatrix|HybridBS|BSmoother2?|SmootherBase)(<.*>)?$')
XS = ('x',)
SIZES = {'H', 'W', '_numRowBlocks', '_numColBlocks', 'height', 'width', 'size'}    # known to be sizes of the matrix
UNKNOWN = set()


def clean(p):
    """a path without the identities of syntax nodes and frames"""
    if isinstance(p, tuple):
        if p[:1] in (('iv',), ('phi',), ('h',), ('obj',)):
            return (p[0],) + tuple(clean(z) for z in p[3:])
        if p[:1] == ('loc',):
            return ('loc', p[-1])
        return tuple(clean(z) for z in p)
    if isinstance(p, frozenset):
        v = pval(p) if all(isinstance(z, tuple) and len(z) == 2 for z in p) and not any(isinstance(z[1], frozenset) for z in p) else None
        if v is not None:
            return v
        return frozenset(clean(z) for z in p)
    return p


def show(ev):
    def s(p):
        if isinstance(p, float):
            return '%g' % p
        if isinstance(p, frozenset):
            return '{' + ', '.join(sorted(s(z) for z in p)) + '}'
        if isinstance(p, tuple):
            if p[:1] == ('[]',):
                return '[' + s(p[1]) + ']'
            r = ''
            for z in p:
                t = s(z)
                if t in ('this', '', '1'):
                    continue
                r += t if not r or t[:1] == '[' else '.' + t
            return r
        return str(p)
    if ev[0] == 'all':
        return '{' + ' '.join(sorted(show(z) for z in ev[1])) + '}'
    if ev[0] == 'sm':
        return '%s%s' % (s(ev[1]), '<' if ev[3] else '>')
    if ev[0] == 'tr':
        return '%s(%s)' % (ev[1], s(ev[2]))
    return s(ev[1])


def shows(tr):
    t = ' '.join(show(z) for z in tr) or '(nothing)'
    return t if len(t) < 300 else t[:300] + ' ...'


def first_diff(tr, want):
    for i in range(max(len(tr), len(want))):
        a, b = (show(t[i])[:120] if i < len(t) else 'nothing' for t in (tr, want))
        if i >= len(tr) or i >= len(want) or tr[i] != want[i]:
            return "step %d is %s where %s is needed" % (i + 1, a, b)


def mirror(tr):
    r = []
    for e in reversed(tr):
        if e[0] == 'sm':
            e = e[:3] + (not e[3],) + e[4:]
        elif e[0] == 'tr':
            e = ('tr', 'up' if e[1] == 'down' else 'down') + e[2:]
        r.append(e)
    return tuple(r)


class C(Client):
    deep = 6

    def __init__(self, P, R, N, table):
        self.P, self.R, self.N, self.table = P, R, N, table
        self.unroll = 60

    def inline(self, I, fn, e, fr):
        return fn.name.startswith('amg::') and not re.search(r'(UniversalDofs|DCCMap|Calc\w*Inverse|Print|GetMemoryUsage|::Create\w*Vector|TransposeSPM|::Get(NOps|ANZE)|MatMult)', fn.name)

    # -------------------------------------------------- sizes
    def base(self, p):
        """(array, first, size) of an array valued path"""
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('rg',):
            b, lo, n = self.base(p[:-1])
            return b, lo + p[-1][1], p[-1][2] - p[-1][1]
        if p[:1] == ('arr',):
            return p, 0, len(p[1])
        if p[-1:] == ('allgroups',):
            return ('arr', (0, 1, 2)), 0, 3
        if p and isinstance(p[-1], tuple) and p[-1][:1] == ('[]',):
            return p, 0, 2 if 'block_colors' not in p else 1
        return p, 0, self.table.get('#' + str(p[-1]), self.N)

    def elem(self, I, st, p, i):
        if p[:1] == ('arr',) and 0 <= i < len(p[1]):
            return num(p[1][i])
        if p[-1] == 'fi_blocks':
            return num(2 * i)
        if p[-1] == 'allgroups' or isinstance(p[-1], str) and (p[-1].endswith('ffsets') or p[-1] in ('_rows', '_cols')):
            return num(i)       # one row of one entry per block
        return None

    def elements(self, I, fr, n, rv):
        if rv[0] == 'L' and not any(isinstance(p, tuple) and p[:1] == ('rng',) for p in rv[1]):
            b, lo, k = self.base(rv[1])
            if 'SharedLoop' in fr.fn.ty(n['r'].get('t')):
                k = 1           # shared between the threads: the order of its elements means nothing
            return ('rng', lo, lo + k, b)
        return rv

    def mem(self, I, st, fr, path, e):
        if fr.fn.ty(e.get('t')) in INTT:
            v = self.table.get(path[-1], None)
            if v is None and path[-1] not in SIZES:
                self.R.count("sizes of unknown members")
                UNKNOWN.add(path[-1])
            return num(self.N if v is None else v)
        return None

    def add(self, s, ev):
        if s.cl and s.cl[-1] == ev and ("'iv'" in repr(ev) or "'phi'" in repr(ev)):
            return
        if len(s.cl) > 400:
            raise AnalysisError("C23: endless sweep")
        self.R.count("sweep steps (path-wise)")
        s.cl = s.cl + (ev,)

    def isx(self, p):
        return len(p) > 1 and p[:1] == XS and any(isinstance(z, tuple) and z[:1] == ('[]',) for z in p)

    def stored(self, I, st, fr, path, v, e):
        if self.isx(path):
            self.add(st, ('x', clean(path[1:])))

    # -------------------------------------------------- calls
    def call(self, I, st, fr, e, q, nm, obj, args):
        P = self.P
        if nm in STATUS or nm in ('Prefetch', 'PrefetchRow'):
            return [(st, ('void',))]
        k = e['k']
        isp = obj is not None and obj[0] == 'L'
        if k == 'op' and isp:
            if e['op'] in ('+=', '-=', '*=') and self.isx(obj[1]):
                s = st.copy()
                self.add(s, ('x', clean(obj[1][1:])))
                return [(s, obj)]
            if e['op'] == '()' and not e.get('lamcall') and len(args) == 1 and re.search(r'Vector', q or ''):
                return [(st, I.index(obj, args[0], st))]
            if e['op'] == '[]' and args and args[0][0] == '#' and pval(args[0][1]) is not None:
                b, lo, n = self.base(obj[1])
                i = lo + int(pval(args[0][1]))
                r = self.elem(I, st, b, i)
                if r is not None:
                    return [(st, r)]
                if lo:
                    return [(st, I.ptr(st, b + (('[]', pconst(i)),)))]
        if nm in ('max2', 'min2', 'max', 'min') and len(args) == 2:
            v = [pval(a[1]) if a[0] == '#' else None for a in args]
            if None not in v:
                return [(st, num((max if 'max' in nm else min)(v)))]
        if nm == 'ctor' and re.search(r'Array<(int|unsigned)', fr.fn.ty(e.get('t'))) and len(args) == 1 and args[0][0] == 'U' and args[0][1][0] == 'ilist':
            v = [pval(a[1]) if a[0] == '#' else None for a in args[0][1][2]]
            if None not in v:
                return [(st, ('L', ('arr', tuple(int(x) for x in v))))]
        if nm == 'Range' and not isp and args:
            v = [pval(a[1]) if a[0] == '#' else None for a in args]
            if None not in v:
                return [(st, ('rng', 0 if len(v) == 1 else int(v[0]), int(v[-1])))]
            if len(args) == 1 and args[0][0] == 'L':
                return [(st, ('rng', 0, self.base(args[0][1])[2]))]
        if nm == 'Range' and isp and 'Vector' not in q:
            v = [pval(a[1]) if a[0] == '#' else None for a in args]
            if len(v) == 2 and None not in v:
                return [(st, ('L', obj[1] + (('rg', int(v[0]), int(v[1])),)))]
            if not v:
                return [(st, ('rng', 0, self.base(obj[1])[2]))]
            return [(st, obj)]
        if nm in ('Size', 'Height', 'Width', 'VHeight', 'VWidth', 'NumSet', 'GetND') and isp and not args:
            return [(st, num(self.base(obj[1])[2] if nm == 'Size' else self.N))]
        if nm in ('ParallelFor', 'ParallelForRange') and len(args) >= 2 and args[1][0] == 'F':
            rng = args[0]
            n = (rng[1], rng[2]) if rng[0] == 'rng' else ((0, int(pval(rng[1]))) if rng[0] == '#' and pval(rng[1]) is not None else (0, 1))
            vals = [('rng',) + n] if nm == 'ParallelForRange' else [num(i) for i in range(*n)]
            if rng[0] not in ('rng', '#'):
                vals = [('U', ('range', rng))] if nm == 'ParallelForRange' else [num(0)]
            return self.together(I, st, fr, e, args[1], vals)
        if nm == 'CreateJob' and args and args[0][0] == 'F':
            r = []
            for s, v in I.call_lam(st, fr, e, args[0], [('U', 'taskinfo')], e['a'][:1]):
                r.append((s, ('void',)))
            return r
        m = re.match(r'(Transfer|Add)(F2C|C2F|AtoB)$', nm)
        if m and isp and obj[1] != fr.this:
            s = st.copy()
            lev = [pval(a[1]) for a in args if a[0] == '#' and pval(a[1]) is not None]
            up = m.group(2) == 'C2F'
            if m.group(2) == 'AtoB':
                up = len(lev) > 1 and lev[0] > lev[1]
            elif m.group(1) == 'Add':
                lev = [a for a in lev][:1] if len(args) == 4 else []
            if m.group(2) == 'AtoB':
                lev = [min(lev)] if lev else []
            self.add(s, ('tr', 'up' if up else 'down', (clean(obj[1]),) + tuple(lev[:1])))
            return [(s, ('void',))]
        if isp and k == 'call' and obj[1] == fr.this and 'Smooth' in nm and e.get('v') and not e.get('qual'):
            fn = I.override(fr.cls, e['m'], nm) if fr.cls else None
            if fn is None and not (P.fns.get(e['m']) is not None and P.fns[e['m']].j.get('b') is not None):
                return self.leaf(st, fr, e, nm, obj, args)
        if isp and e.get('m') and k == 'call' and obj[1] != fr.this:
            fn = P.fns.get(e['m'])
            rec = (q or '').rsplit('::', 1)[0]
            if re.search(r'Smooth|^updateBlocks', nm) and SMOOTHER.search(rec) and not rec.endswith('AMGMatrix'):
                r = self.leaf(st, fr, e, nm, obj, args)
                if r is not None:
                    return r
            if SMOOTHER.search(rec) and fn is not None and fn.j.get('b') is not None and self.inline(I, fn, e, fr) and e.get('v'):
                return I.enter(st, fr, e, fn, obj[1], args, e['a'])
            if 'Richardson' in nm:
                s = st.copy()
                self.add(s, ('x', clean(obj[1])))
                return [(s, ('void',))]
        return None

    def leaf(self, st, fr, e, nm, obj, args):
        """a sweep of another smoother; which way it goes is told by its name, its template argument or its arguments"""
        fn = self.P.fns.get(e['m'])
        back = ('Back' in nm) != ('SMOOTHING_DIRECTIONE1E' in e['m'])
        both, what = bool(re.search('[sS]ymm|SYMM', nm)), []
        ps = [(p['n'], fn.ty(p['t'])) for p in fn.j['ps']] if fn is not None else [('', fr.fn.ty(z.get('t'))) for z in e['a']]
        for a, (pn, t) in zip(args, ps):
            t = t.replace('const ', '').rstrip(' &')
            if t == 'bool':
                if re.match('reverse|back|symm', pn or '') and a[0] != 'B':
                    return None
                if re.match('reverse|back', pn or '') and a[1]:
                    back = not back
                if re.match('symm', pn or '') and a[1]:
                    both = True
            elif t.endswith('SMOOTHING_DIRECTION'):
                v = pval(a[1]) if a[0] == '#' else None
                if v is None:
                    return None
                if v:
                    back = not back
            elif a[0] == '#' and pval(a[1]) is not None:
                what.append(pval(a[1]))
            elif a[0] == 'L' and 'Array' in t:
                what.append(clean(a[1]))
        s = st.copy()
        self.add(s, ('sm', clean(obj[1]), 'Stage' if 'Stage' in nm else '', back, tuple(what)))
        if both:
            self.add(s, ('sm', clean(obj[1]), '', not back, tuple(what)))
        return [(s, ('void',))]

    def together(self, I, st, fr, e, lam, vals):
        """iterations that may run at the same time: their order means nothing"""
        old = st.cl
        st = st.copy()
        st.cl = ()
        cur = [st]
        for v in vals:
            nxt = []
            for s in cur:
                nxt += [t for t, _ in I.call_lam(s, fr, e, lam, [v], e['a'][1:2])]
            cur = I.dedupe(nxt)
        out = []
        for s in cur:
            s = s.copy()
            s.cl = old + ((('all', frozenset(s.cl)),) if s.cl else ())
            out.append((s, ('void',)))
        return out


# ------------------------------------------------------------------------------------------------
VALS = (
    {'N': 4, 'split_ind': 2, '_splitInd': 2, 'first_free': 1, 'next_free': 4, '_numLocSteps': 1, '#blocks': 6, '#block_colors': 3, '#allgroups': 3, '#_locBlockNums': 4, '#_exBlockNums': 2, 'n_levels': 3, 'start_level': 0, 'maxbs': 4, 'nsteps': 2, '#loops': 3},
    {'N': 4, 'split_ind': 3, '_splitInd': 1, 'first_free': 0, 'next_free': 4, '_numLocSteps': 2, '#blocks': 6, '#block_colors': 2, '#allgroups': 3, '#_locBlockNums': 4, '#_exBlockNums': 2, 'n_levels': 4, 'start_level': 1, 'maxbs': 4, 'nsteps': 1, '#loops': 2},
    {'N': 3, 'split_ind': 0, '_splitInd': 0, 'first_free': 0, 'next_free': 3, '_numLocSteps': 3, '#blocks': 6, '#block_colors': 1, '#allgroups': 3, '#_locBlockNums': 3, '#_exBlockNums': 3, 'n_levels': 2, 'start_level': 0, 'maxbs': 4, 'nsteps': 3, '#loops': 1},
    {'N': 3, 'split_ind': 1, '_splitInd': 1, 'first_free': 1, 'next_free': 2, '_numLocSteps': 1, '#blocks': 6, '#block_colors': 2, '#allgroups': 3, '#_locBlockNums': 1, '#_exBlockNums': 1, 'n_levels': 2, 'start_level': 0, 'maxbs': 4, 'nsteps': 1, '#loops': 2},
)


def trace(P, R, cls, f, vals, flags):
    """[(assumptions, trace)]"""
    c = C(P, R, vals['N'], vals)
    I = Interp(P, c)
    args, ni = [], 0
    nb = 0
    ints = [p for p in f.j['ps'] if f.ty(p['t']).replace('const ', '').rstrip(' &') in INTT]
    for p in f.j['ps']:
        t = f.ty(p['t'])
        if t.replace('const ', '').rstrip(' &') == 'bool':
            args.append(('B', flags[nb % len(flags)]) if p['n'] not in ('backwards', 'reverse') else ('B', False))
            nb += 1
        elif t.replace('const ', '').rstrip(' &') in INTT:
            v = vals.get('arg:' + p['n'])
            if v is None and len(ints) == 2:
                v = (0, vals['N'])[ints.index(p)]       # a range of rows
            elif v is None:
                v = 0 if re.search('start|lev', p['n']) else 2
            args.append(num(v))
        elif t.endswith('&') or t.endswith('*') or 'ptr<' in t or 'FlatArray' in t or 'FlatVector' in t:
            n = p['n'] or 'arg'
            args.append(('L', ('x',) if n in ('x', 'xl') else ('arr', (0, 1, 2)) if re.search(r'Array<(int|unsigned)', t) else (n,)))
        else:
            args.append(('U', ('arg', p['n'])))
    # the first vector is the one that is changed
    vecs = [i for i, p in enumerate(f.j['ps']) if 'Vector' in f.ty(p['t'])]
    tgt = [i for i in vecs if not f.ty(f.j['ps'][i]['t']).startswith('const ')]
    if tgt:
        args[tgt[0]] = ('L', ('x',))
    out = []
    for s, v in I.run(f, args, cl=(), cls=cls):
        out.append((s.asm, s.cl))
    return out


def pairs_of(P, cls):
    """(forward, backward) members of a class"""
    r = []
    seen = set()
    todo = [cls]
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        rec = P.rec(c)
        if rec is None:
            continue
        todo += [b[0] for b in rec['bases']]
    return seen


def methods(P, cls):
    """name -> list of most derived own implementations (with body) seen from cls"""
    out, names, seen, todo = [], set(), set(), [cls]
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        rec = P.rec(c)
        if rec is None or not c.startswith('amg::'):
            continue
        for m in rec['methods']:
            f = P.fns.get(m['m'])
            if f is None:
                continue
            sig = (m['n'], tuple(f.ty(p['t']) for p in f.j['ps']))
            if sig in names:
                continue
            names.add(sig)
            if f.j.get('b') is not None:
                out.append((m['n'], f, sig[1]))
        todo += [b[0] for b in rec['bases']]
    return out


def pairs(P, cls):
    ms = methods(P, cls)
    idx = {(n, s): f for n, f, s in ms}
    r = []
    for n, f, s in ms:
        if 'Back' in n and 'Smooth' in n:
            g = idx.get((n.replace('Back', ''), s))
            if g is not None:
                r.append((g, f))
    return r


def directions(P, cls):
    """(forward, backward) instances of sweeps with the direction as template argument"""
    r = []
    for k, f in sorted(P.fns.items()):
        if 'SMOOTHING_DIRECTIONE0E' in k and f.name.rsplit('::', 1)[0] == cls and f.j.get('b') is not None and re.match('[sS]mooth|update', f.short):
            g = P.fns.get(k.replace('SMOOTHING_DIRECTIONE0E', 'SMOOTHING_DIRECTIONE1E'))
            if g is not None and g.j.get('b') is not None:
                r.append((f, g))
    return r


def selfm(P, cls):
    out = []
    for n, f, s in methods(P, cls):
        if re.search(r'Symm', n) and 'Smooth' in n:
            out.append(f)
        elif re.search(r'AMGMatrix$', cls) and (re.match(r'Smooth(V|W|BS|VFromLevel)?$', n) or n == 'Mult'):
            out.append(f)
    return out


FLAGS = [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True) if not (a and c and False)]


def pathset(res):
    seen, out = set(), []
    for asm, tr in res:
        k = (frozenset(asm.items()), tr)
        if k not in seen:
            seen.add(k)
            out.append((asm, tr))
    return out


class St:
    def __init__(self, asm):
        self.asm = asm


def covered(P, R, cls, f, vals, asm, tr):
    """R4: the parts of an inner smoother that are smoothed one after the other make up all of it"""
    c, parts = C(P, R, vals['N'], vals), {}
    for e in tr:
        if e[0] != 'sm' or e[2] == 'Stage':
            continue
        w = e[4]
        if len(w) == 2 and all(isinstance(z, float) for z in w):
            parts.setdefault((e[1], ()), []).append((int(w[0]), min(int(w[1]), vals['N']), vals['N']))
        elif len(w) >= 1 and isinstance(w[0], tuple) and w[0] and w[0][:1] != ('arr',):
            b, lo, n = c.base(w[0])
            parts.setdefault((e[1], b), []).append((lo, lo + n, c.base(b)[2]))
    for (o, b), rs in sorted(parts.items(), key=repr):
        n = rs[0][2]
        cnt = [0] * n
        for lo, hi, _ in rs:
            for i in range(max(lo, 0), min(hi, n)):
                cnt[i] += 1
        if len(set(cnt)) > 1 or cnt[:1] == [0]:
            R.violation("parts:%s:%s" % (cls_name(cls), f.short), f.where(),
                        "%s smooths the parts %s of %s, these are not all of the %d, each equally often" % (f.short, [z[:2] for z in rs], show(('x', b or o)), n))
            return False
        R.ok("%s::%s: the parts %s are all of %d" % (cls_name(cls), f.short, [z[:2] for z in rs], n))
    return True


def judge(P, R, cls, f, g, stats):
    for vi, vals in enumerate(VALS):
        for fl in (FLAGS if any(f.ty(p['t']).replace('const ', '').rstrip(' &') == 'bool' for p in f.j['ps']) else FLAGS[:1]):
            a = pathset(trace(P, R, cls, f, vals, fl))
            b = a if g is f else pathset(trace(P, R, cls, g, vals, fl))
            for ta, tra in a:
                want = mirror(tra)
                if not covered(P, R, cls, f, vals, ta, tra):
                    return False
                for tb, trb in b:
                    if g is f and ta is not tb:
                        continue
                    if any(ta.get(k, v) != v for k, v in tb.items()):
                        continue
                    stats['events'] += len(trb)
                    if not trb and tra == want and any(z[0] == 'tr' for z in tra):
                        R.ok("%s::%s is symmetric, %s does nothing" % (cls_name(cls), f.short, g.short))
                        continue
                    if trb != want:
                        if g is f:
                            R.violation("symmetric:%s:%s" % (cls_name(cls), f.short), f.where(), "%s is not symmetric: it performs  %s" % (f.short, shows(tra) + ' ; ' + first_diff(trb, want)))
                        else:
                            R.violation("mirror:%s:%s" % (cls_name(cls), g.short), g.where(),
                                        "%s does not mirror %s: forward  %s ; backward  %s" % (g.short, f.short, shows(tra), shows(trb) + ' ; ' + first_diff(trb, want)))
                        return False
                    R.ok("%s::%s%s: %s" % (cls_name(cls), g.short, '' if g is f else ' mirrors ' + f.short, shows(trb)))
    return True


def indices(p, out):
    """indexed arrays of a step: array -> numbers used"""
    if isinstance(p, tuple):
        for i, z in enumerate(p):
            if isinstance(z, tuple) and z[:1] == ('[]',) and len(z) == 2:
                if isinstance(z[1], float):
                    out.setdefault(p[:i], set()).add(int(z[1]))
                else:
                    indices(z[1], out)
            elif isinstance(z, (tuple, frozenset)):
                indices(z, out)
    elif isinstance(p, frozenset):
        for z in p:
            indices(z, out)


def complete(P, R, cls, f):
    """R3: every free row or block is updated, equally often, those that are not free are not"""
    for vals in VALS:
        c = C(P, R, vals['N'], vals)
        fields, todo = set(), [cls]
        while todo:
            r = P.rec(todo.pop())
            if r is not None:
                fields |= {z['n'] for z in r['fields']}
                todo += [b[0] for b in r['bases']]
        rows = set(range(vals['first_free'], vals['next_free'])) if {'first_free', 'next_free'} <= fields else set(range(vals['N']))
        if any(re.search(r'Array<(int|unsigned)', f.ty(p['t'])) for p in f.j['ps']):
            rows = {0, 1, 2}
        for fl in FLAGS:
            UNKNOWN.clear()
            ts = pathset(trace(P, R, cls, f, vals, fl))
            if UNKNOWN:
                return False            # rows are given by members this rule has no values for
            for asm, tr in ts:
                flat = []
                for e in tr:
                    flat += list(e[1]) if e[0] == 'all' else [e]
                if any(e[0] != 'x' for e in flat) or not f.j['ps']:
                    return False
                used = {}
                for e in flat:
                    indices(e[1], used)
                out = set()
                for k, v in asm.items():
                    if not v and 'BitArray' in repr(k[:1]):
                        a = [pval(z[1]) for z in k[2] if z[0] == '#' and len(z) == 2] if len(k) > 2 and isinstance(k[2], tuple) else []
                        out |= {int(z) for z in a if z is not None}
                if not used and not out and vals is VALS[0]:
                    return False        # no rows or blocks: the vector as a whole
                if not used:
                    used = {(): set()}
                for arr, ks in used.items():
                    arr = arr[:1] if arr and arr[0] == ('x',) else arr
                    if any(isinstance(z, tuple) and z[:1] == ('[]',) for z in arr):
                        continue
                    b, lo, n = c.base(arr) if arr and arr[-1:] != ('x',) else ((), 0, 0)
                    want = (set(range(lo, lo + n)) if arr and arr[-1:] != ('x',) else rows) - out
                    if ks != want:
                        R.violation("rows:%s:%s" % (cls_name(cls), f.short), f.where(),
                                    "%s updates the rows or blocks %s where it has to update %s (not free: %s)" % (f.short, sorted(ks), sorted(want), sorted(out)))
                        return True
                num_of = {}
                for e in flat:
                    num_of[e] = num_of.get(e, 0) + 1
                if len(set(num_of.values())) > 1:
                    R.violation("once:%s:%s" % (cls_name(cls), f.short), f.where(), "%s updates some rows or blocks more often than others: %s" % (f.short, shows(tr)))
                    return True
                R.ok("%s::%s updates every free row once: %s" % (cls_name(cls), f.short, shows(tr)))
    return True


def run(P, R):
    cs = []
    for n in sorted(P.recs):
        if n.startswith('amg::') and SMOOTHER.search(n.split('<')[0] if '<' in n else n):
            cs.append(n)
    done, stats, np, ns, nr = set(), {'events': 0}, 0, 0, 0
    for c in one_per_pattern(cs):
        todo = [(f, g) for f, g in pairs(P, c) + directions(P, c)] + [(f, f) for f in selfm(P, c)]
        # BaseSmoother's own members are judged there, with the sweeps they consist of taken as a whole
        todo = [(f, g) for f, g in todo if c == 'amg::BaseSmoother' or not (f.name + g.name).count('amg::BaseSmoother::') == 2]
        for f, g in todo:
            k = (c, f.key, g.key)
            if k in done:
                continue
            done.add(k)
            if f is not g and complete(P, R, c, f):
                nr += 1
            judge(P, R, c, f, g, stats)
            if f is g:
                ns += 1
            else:
                np += 1
    R.need("forward/backward pairs", np, 12)
    R.need("sweeps that update rows or blocks themselves", nr, 5)
    R.need("symmetric sweeps and cycles", ns, 4)
    R.need("sweep steps compared", stats['events'], 500)
