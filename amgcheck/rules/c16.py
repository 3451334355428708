"""C16: scratch memory on local heaps.  (a) every iteration of a loop gives back what it takes: an allocation inside a loop is enclosed by a
HeapReset on that heap inside the loop; (b) memory taken under a HeapReset is not reachable through a view that outlives it."""
import re
from ..ir import walk, kids, strip, cname
from ..show import show

LOOPS = ('for', 'while', 'do', 'rfor')
LH = re.compile(r'\bLocalHeap\b')
HR = re.compile(r'\bHeapReset\b')
NOALLOC = {'Split', 'CleanUp', 'Available', 'GetPointer', 'HeapReset', 'LocalHeap', 'ThrowException', '~LocalHeap', 'UsedSize'}
EXTALLOC = {'Assign', 'AssignMemory', 'Alloc', 'GetFE', 'GetTrafo', 'GetHDivFE', 'operator()'}


VIEW = re.compile(r'\b(FlatArray|MatrixView|VectorView|FlatMatrix|FlatVector|SliceMatrix|BareSlice|FlatTable)\b|[*&]$')
# loops that may take scratch memory per round: a few rounds per mesh entity, inside a scope that gives it back
EXC = [
    (r'^amg::FindNeighborToMatch$', 'one block per neighbour of one vertex; the caller resets per vertex'),
    (r'::CalcAuxWeightsSC$', 'one block per vertex pair of one element; reset per element'),
    (r'^amg::SplitChunk$', 'splits of one loop, reset on return'),
    (r'::calcFacetConvertMat$', 'one vector per local finite element component, reset per facet'),
    (r'::BuildPrimarySpaceProlongation$', 'debug output, per preserved vector, reset per agglomerate'),
    (r'::CalcFacetFlows$', 'per facet of one element, reset per element'),
]


class Scan:
    """one function (or lambda) body"""

    def __init__(self, P, fn, S):
        self.P, self.fn, self.S = P, fn, S
        self.alias, self.lams, self.born = {}, {}, {}
        self.leak = {}        # heapkey -> first node: memory still taken when the body ends
        self.viol = []
        self.n = 0
        self.nl = 0
        self.from_heap = {}   # view variable -> (heap, resets of that heap in force when it was filled)
        self.decl_ctx = {}    # variable -> context of its declaration

    def ty(self, e):
        return self.fn.ty(e.get('t'))

    def heap(self, e):
        e = strip(e)
        if e is None:
            return None
        k = e['k']
        if k == 'ref':
            return self.alias.get(e.get('id'), e.get('id'))
        if k == 'mem':
            return 'this.' + e['n'] if e['o'] and e['o']['k'] == 'this' else None
        if k == 'un' and e['op'] in ('*', '&'):
            return self.heap(e['e'])
        if k == 'cast':
            return self.heap(e['e'])
        if k == 'ctor' and len(e['a']) == 1:
            return self.heap(e['a'][0])
        return None

    def alloc(self, h, node, ctx, why):
        """ctx: list of ('loop', node) / ('reset', heap) / ('born', heap)"""
        self.n += 1
        top = 0
        for i, c in enumerate(ctx):
            if c == ('born', h):
                top = i
        seg = ctx[top:]
        loop = None
        for c in seg:
            if c[0] == 'loop':
                loop = c[1]
                self.nl += 1
            elif c == ('reset', h):
                loop = None
        if loop is not None:
            self.viol.append(('loop', node, h, loop, why, ('reset', h) in seg or ('born', h) not in ctx))
        if ('reset', h) not in ctx and ('born', h) not in ctx:
            self.leak.setdefault(h, (node, why))

    def stmt(self, s, ctx):
        if s is None:
            return
        k = s.get('k')
        if k == '{':
            c = list(ctx)
            for x in s['b']:
                self.stmt(x, c)
                if x is not None and x.get('k') == 'decl':
                    self.push(x, c)
            return
        if k in LOOPS:
            c = list(ctx)
            for x in ('i', 'r'):
                if s.get(x) is not None:
                    self.stmt(s[x], c)
            c = c + [('loop', s)]
            body = s.get('b')
            if body is not None and body.get('k') == '{':
                # an explicit CleanUp of the heap at the top of the body gives back what the last iteration took
                for x in body['b']:
                    y = strip(x) if x else None
                    if y is not None and y.get('k') == 'call' and cname(y) == 'CleanUp' and y.get('o') is not None and LH.search(self.ty(y['o'])):
                        c = c + [('reset', self.heap(y['o']))]
            for x in ('c', 'n', 'v'):
                if s.get(x) is not None and not (k == 'rfor' and x == 'v'):
                    self.stmt(s[x], c)
            self.stmt(body, c)
            return
        if k == 'decl':
            for v in s['d']:
                if v is not None and v.get('k') == 'var':
                    self.var(v, ctx)
            return
        if k == 'var':
            self.var(s, ctx)
            return
        if k == 'ret' and s.get('e') is not None:
            x = strip(s['e'])
            if x['k'] == 'ref' and x.get('id') in self.from_heap and VIEW.search(self.ty(x)):
                self.escape(self.from_heap[x['id']], s, x['n'])
        if k == 'lam':
            return      # only when it is called or handed on
        if k in ('call', 'ctor', 'op', 'new'):
            self.callx(s, ctx)
            return
        c = ctx
        if k in ('if', 'sw') and s.get('init') is not None:
            c = list(ctx)
        for x in kids(s):
            self.stmt(x, c)

    def escape(self, fh, node, what):
        h, nres = fh
        if nres > 0:
            self.viol.append(('escape', node, h, what, None, 0))

    def push(self, d, c):
        for v in d['d']:
            if v is None or v.get('k') != 'var':
                continue
            t = self.fn.ty(v['t'])
            if HR.search(t) and v.get('i') is not None:
                a = next((x for x in walk(v['i']) if LH.search(self.fn.ty(x.get('t')))and x['k'] in ('ref', 'mem')), None)
                h = self.heap(a) if a is not None else None
                if h:
                    c.append(('reset', h))
            elif re.search(r'\bLocalHeap$', t):
                c.append(('born', v['id']))

    def var(self, v, ctx):
        t = self.fn.ty(v['t'])
        i = v.get('i')
        self.decl_ctx[v['id']] = list(ctx)
        if i is None:
            return
        if HR.search(t):
            return
        if re.search(r'LocalHeap ?&$', t):
            h = self.heap(i)
            if h:
                self.alias[v['id']] = h
            self.stmt(i, ctx)
            return
        x = strip(i)
        if x is not None and x.get('k') == 'lam':
            self.lams[v['id']] = x
            return
        if VIEW.search(t):
            h = self.taken(i)
            if h:
                self.from_heap[v['id']] = (h, ctx.count(('reset', h)))
        self.stmt(i, ctx)

    def taken(self, i):
        """heap whose memory the view i refers to"""
        x = strip(i)
        if x is None:
            return None
        if x['k'] == 'ref':
            f = self.from_heap.get(x.get('id'))
            return f[0] if f else None
        if x['k'] in ('call', 'ctor'):
            for j, a in enumerate(x.get('a', [])):
                if a is not None and LH.search(self.ty(a)):
                    m = x.get('m')
                    if m in self.P.fns and not self.P.fns[m].j.get('dep') and j not in self.S(m):
                        continue
                    return self.heap(a)
            if x['k'] == 'ctor' and len(x['a']) == 1:
                return self.taken(x['a'][0])
        return None

    def lambody(self, l):
        """heaps still taken after the body of a lambda"""
        sub = Scan(self.P, self.fn, self.S)
        sub.alias, sub.lams = dict(self.alias), self.lams
        bodies = [l['b']] if l.get('b') is not None else [i['b'] for i in l.get('insts', []) if i.get('b') is not None]
        for b in bodies:
            sub.stmt(b, [])
        self.viol += sub.viol
        self.n += sub.n
        return sub.leak

    def callx(self, e, ctx):
        k = e['k']
        n = cname(e)
        args = e.get('a', [])
        # a lambda that is called by its name
        lam = None
        o = e.get('o') if k == 'call' else (args[0] if k == 'op' and e.get('op') == '()' and args else None)
        if o is not None:
            x = strip(o)
            if x['k'] == 'lam':
                lam = x
            elif x['k'] == 'ref' and x.get('id') in self.lams:
                lam = self.lams[x['id']]
        if lam is not None and not lam.get('_busy'):
            lam['_busy'] = True
            la = args[1:] if k == 'op' else args
            for pl in [lam.get('ps')] + [i.get('ps') for i in lam.get('insts', [])]:
                for p, a in zip(pl or [], la):
                    x = strip(a) if a is not None else None
                    if x is not None and x['k'] == 'ref' and x.get('id') in self.lams:
                        x = self.lams[x['id']]
                    if x is not None and x['k'] == 'lam' and isinstance(p, dict):
                        self.lams[p.get('id')] = x
                    h = self.heap(a) if a is not None and LH.search(self.ty(a)) else None
                    if h and isinstance(p, dict):
                        self.alias[p.get('id')] = h
            for h, (nd, why) in self.lambody(lam).items():
                self.alloc(h, e, ctx, why)
            lam['_busy'] = False
        if k == 'new' and any(LH.search(self.ty(a)) for a in e.get('pl', []) or []):
            for a in e['pl']:
                if LH.search(self.ty(a)):
                    h = self.heap(a)
                    if h:
                        self.alloc(h, e, ctx, 'placement new')
        if k == 'call' and e.get('o') is not None and n == 'Alloc' and LH.search(self.ty(e['o'])):
            h = self.heap(e['o'])
            if h:
                self.alloc(h, e, ctx, 'Alloc')
        for i, a in enumerate(args):
            if a is None:
                continue
            x = strip(a)
            if x['k'] == 'ref' and x.get('id') in self.lams:
                x = self.lams[x['id']]
            if x['k'] == 'lam' and lam is None:
                if not x.get('_busy'):
                    x['_busy'] = True
                    for h, (nd, why) in self.lambody(x).items():
                        self.alloc(h, nd, ctx + [('loop', e)], why)
                    x['_busy'] = False
                continue
            if LH.search(self.ty(a)) and n not in NOALLOC:
                h = self.heap(a)
                if h is None:
                    continue
                m = e.get('m')
                if m in self.P.fns and not self.P.fns[m].j.get('dep'):
                    f = self.P.fns[m]
                    j = i
                    if j in self.S(m):
                        self.alloc(h, e, ctx, '%s keeps memory of the heap it is given' % n)
                    else:
                        self.n += 1
                elif m is None and (k == 'ctor' or n in EXTALLOC):
                    if k == 'call' and n in ('Assign', 'AssignMemory') and o is not None:
                        r = strip(o)
                        while r is not None and r['k'] in ('mem', 'sub', 'op'):
                            r = strip(r['o'] if r['k'] != 'op' else r['a'][0])
                        if r is not None and r['k'] == 'ref':
                            dc = self.decl_ctx.get(r.get('id'))
                            old = dc.count(('reset', h)) if dc is not None else 0
                            if ctx.count(('reset', h)) > old:
                                self.viol.append(('escape', e, h, show(o), None, 0))
                    self.alloc(h, e, ctx, '%s takes memory' % n)
        for x in kids(e):
            if x is not None and x.get('k') != 'lam':
                self.stmt(x, ctx)


def run(P, R):
    memo, scans = {}, {}

    def S(m):
        if m in memo:
            return memo[m]
        memo[m] = frozenset()
        f = P.fns[m]
        sc = Scan(P, f, S)
        ids = {p['id']: i for i, p in enumerate(f.j.get('ps', [])) if isinstance(p, dict) and 'id' in p}
        for it in f.j.get('inits', []):
            if it.get('i') is not None:
                sc.stmt(it['i'], [])
        sc.stmt(f.j['b'], [])
        scans[m] = sc
        memo[m] = frozenset(ids[h] for h in sc.leak if h in ids)
        return memo[m]

    nf = na = nl = nr = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.name)):
        if f.j.get('dep') or 'LocalHeap' not in f.raw():
            continue
        S(f.key)
        sc = scans[f.key]
        nf += 1
        na += sc.n
        nl += sc.nl
        nr += len(re.findall(r'HeapReset::HeapReset', f.raw()))
        base = re.sub(r'<.*>', '', f.name)
        for kind, node, h, loop, why, covered in sc.viol:
            if kind == 'escape':
                R.violation("escape:%s:%s" % (base, loop[:40]), f.where(node), "%s: '%s' keeps referring to local-heap memory that is given back when the "
                            "HeapReset around its allocation ends" % (f.short, loop))
                continue
            if loop.get('k') in ('call',) and once(P, loop, node):
                R.ok()
                continue
            ex = [w for r, w in EXC if re.search(r, base)]
            if ex and covered:
                R.ok("%s: %s" % (f.where(node), ex[0]))
                R.count("excepted loops")
                continue
            R.violation("loop:%s:%s" % (base, re.sub(r'<.*', '', show(node))[:60]), f.where(node),
                        "%s: every round of the loop at line %s takes memory from a local heap and does not give it back (%s)" % (f.short, loop.get('l'), why))
        for _ in range(sc.n - len(sc.viol)):
            R.ok()
    R.need("functions that use local heaps", nf, 340)
    R.need("allocation sites", na, 1900)
    R.expl.append("Every function of the resolved program that handles a LocalHeap was walked with a stack of the enclosing loops, HeapReset guards and heap "
                  "definitions. Obligations: each expression that takes memory (Alloc, placement new, views and matrices built on a heap, calls whose callee - "
                  "by bottom-up summary - returns with memory still taken) inside a loop has a HeapReset of the same heap (or the heap itself) between that loop and the "
                  "expression; and no view that is filled under a HeapReset is declared outside of it or returned. Lambdas handed to iteration helpers count as loop bodies.")
    R.assume += ["HeapReset and LocalHeap behave as in NGSolve", "six functions with a documented per-call bound on the number of rounds are listed as exceptions",
                 "functions outside the repository that are handed a heap take memory only if listed (finite element / transformation getters, Assign, constructors)"]


def once(P, call, node):
    """the lambda handed to this call is called at most once by the callee (not from within a loop)"""
    for i, a in enumerate(call.get('a', [])):
        x = strip(a) if a else None
        if x is not None and x['k'] == 'lam' and any(y is node for y in walk(x)):
            return once_param(P, call.get('m'), i, 0)
    return False


def once_param(P, m, i, d):
    f = P.fns.get(m)
    if f is None or f.j.get('dep') or d > 3:
        return False
    ps = [p for p in f.j['ps'] if isinstance(p, dict)]
    if i >= len(ps):
        return False
    pid = ps[i].get('id')
    n, ok = 0, True

    def go(e, inloop):
        nonlocal n, ok
        if e is None:
            return
        if e.get('k') == 'op' and e.get('op') == '()' and e['a'] and strip(e['a'][0]).get('id') == pid:
            n += 1
            ok = ok and not inloop
            for y in e['a'][1:]:
                go(y, inloop)
            return
        if e.get('k') == 'call':
            for j, a in enumerate(e.get('a', [])):
                if a is not None and strip(a).get('id') == pid and strip(a)['k'] == 'ref':
                    n += 1
                    ok = ok and not inloop and once_param(P, e.get('m'), j, d + 1)
                else:
                    go(a, inloop)
            go(e.get('o'), inloop)
            return
        if e.get('k') == 'ref' and e.get('id') == pid:
            ok = False      # handed on
        for y in kids(e):
            go(y, inloop or e.get('k') in LOOPS or e.get('k') == 'lam')
    go(f.j['b'], False)
    return ok and n > 0
