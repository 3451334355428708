"""C19: no hidden state.  Static storage (function statics, namespace-scope and static member variables) is either never changed after an
initialisation that does not depend on a particular call, or is scratch that every call overwrites before it reads it; nothing consults
clocks, random numbers or memory addresses to decide anything."""
import json, re
from ..ir import walk, kids, strip, cname

EXEMPT_T = re.compile(r'^(const )?(ngcore::Timer<|ngcore::RegionTimer|PyModuleDef|ngcore::RegisterClassForArchive|ngcore::Array<ngcore::Timer<|ngcore::TimerFunc)|\bThrdTimer')
# lazily created / registry objects, each confirmed by reading
EXC = {
    ('getAMGRegister', 'reg'): 'registry of solver types, filled during static initialisation',
}
RAND = re.compile(r'^(std::)?(rand|srand|random|drand48|lrand48|rand_r|clock|time|getpid|gettimeofday|clock_gettime)$|^std::(mersenne_twister_engine|random_device|linear_congruential_engine|'
                  r'uniform_\w+_distribution|shuffle|random_shuffle|thread::id|this_thread::get_id)|^ngcore::(WallTime|RandomDevice)|'
                  r'std::chrono::.*::now$|^std::hash<')
TIME = re.compile(r'::GetTime$|::GetTimeCounter$|MPI_Wtime$')
HASHED = re.compile(r'\bstd::unordered_\w+<|\b(ngcore::)?HashTable<|\bClosedHashTable<|\bParallelHashTable<')
PTRKEY = re.compile(r'\bstd::(multi)?(set|map)<[^,<>]*(<[^<>]*>)?[^,<>]*\*')
WRITE_OPS = {'=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '%='}
SHAPE = {'SetSize', 'Size', 'Height', 'Width', 'Range', 'Data', 'H', 'W', 'SetSize0', 'SetAllocSize'}


def is_static_ref(x):
    return x.get('k') == 'ref' and x.get('dk') in ('sl', 'g', 'sm')


def rwview(fn, a):
    """argument that hands out a view with writable entries"""
    return a.get('k') == 'ctor' and a.get('cp') and bool(re.search(r'\b(MatrixView|VectorView|FlatArray)<(?!const)', fn.ty(a.get('t'))))


class Scratch:
    """is the variable overwritten before it is read, on every call?  Loops and lambdas handed to an iteration helper are taken to run
    (with zero rounds there is nothing to read either)."""

    def __init__(self, fn, vid):
        self.fn, self.vid, self.bad = fn, vid, None
        self.lams = {}

    def me(self, e):
        e = strip(e)
        while e is not None:
            k = e.get('k')
            if k == 'ref':
                return e.get('id') == self.vid and e.get('dk') == 'sl'
            if k == 'mem' and e.get('o') is not None:
                e = strip(e['o'])
            elif k == 'sub':
                e = strip(e['o'])
            elif k == 'op' and e.get('op') in ('()', '[]') and e.get('a'):
                e = strip(e['a'][0])
            elif k == 'call' and e.get('o') is not None and cname(e) in ('Rows', 'Cols', 'Row', 'Col', 'Range', 'Diag', 'operator()', 'operator[]', 'AddSize'):
                e = strip(e['o'])
            elif k == 'cast':
                e = strip(e['e'])
            else:
                return False
        return False

    def read(self, node):
        if self.bad is None:
            self.bad = node

    def go(self, s, st):
        """st: True = written, None = unreachable"""
        if s is None or st is None:
            return st
        k = s.get('k')
        if k == '{':
            for x in s['b']:
                st = self.go(x, st)
            return st
        if k == 'if':
            st = self.go(s.get('init'), st)
            st = self.go(s.get('cv'), st)
            st = self.go(s.get('c'), st)
            if s.get('cv1') is not None or s.get('cx'):
                v = s.get('cv1')
                if isinstance(v, bool) or isinstance(v, int):
                    return self.go(s.get('th') if v else s.get('el'), st)
            a = self.go(s.get('th'), st)
            b = self.go(s.get('el'), st)
            return self.meet(a, b)
        if k in ('for', 'while', 'rfor', 'do'):
            for x in ('i', 'r', 'c'):
                st = self.go(s.get(x), st)
            r = self.go(s.get('b'), st)
            if r is None:
                r = st
            return self.go(s.get('n'), r)
        if k == 'sw':
            st = self.go(s.get('c'), st)
            r = self.go(s.get('b'), st)
            return st if not (st or r) else (st if not st else True)
        if k == 'ret':
            self.go(s.get('e'), st)
            return None
        if k == 'throw':
            return None
        if k == 'decl':
            for v in s['d']:
                if v is not None and v.get('k') == 'var' and v.get('id') != self.vid and v.get('i') is not None:
                    if strip(v['i']).get('k') == 'lam':
                        self.lams[v['id']] = strip(v['i'])
                        continue
                    st = self.go(v['i'], st)
            return st
        if k == 'lam':
            bodies = [s['b']] if s.get('b') is not None else [i['b'] for i in s.get('insts', []) if i.get('b') is not None]
            r = st
            for b in bodies:
                x = self.go(b, st)
                r = x if x else (True if r else r)
            return True if (st or r) else False
        if k == 'cond':
            st = self.go(s['c'], st)
            return self.meet(self.go(s['a'], st), self.go(s['b'], st))
        if k in ('bin', 'op') and s.get('op') in WRITE_OPS:
            a, b = (s['a'], s['b']) if k == 'bin' else ((s['a'] + [None])[0], (s['a'] + [None, None])[1])
            st = self.go(b, st)
            if self.me(a):
                self.index(a, st)
                if s['op'] != '=' and not st:
                    self.read(s)
                return True
            return self.go(a, st)
        if k in ('call', 'ctor', 'op', 'new'):
            if k == 'op' and s.get('op') == '()' and s.get('a') and strip(s['a'][0]).get('id') in self.lams:
                for x in s['a'][1:]:
                    st = self.go(x, st)
                return self.go(self.lams[strip(s['a'][0])['id']], st)
            o = s.get('o')
            wr = False
            if o is not None and self.me(o):
                if cname(s) not in SHAPE and not st:
                    self.read(s)
            elif o is not None:
                st = self.go(o, st)
            rm = s.get('rm') or 0
            for i, a in enumerate(s.get('a', []) or []):
                if a is None:
                    continue
                if k == 'op' and s.get('op') in ('()', '[]') and i == 0 and self.me(a):
                    if not st:
                        self.read(s)
                    continue
                if self.me(a) and (rm >> i & 1 or rwview(self.fn, a)):
                    wr = True
                else:
                    st = self.go(a, st)
            return True if wr else st
        if k == 'ref':
            if s.get('id') == self.vid and s.get('dk') == 'sl' and not st:
                self.read(s)
            return st
        for x in kids(s):
            st = self.go(x, st)
            if st is None:
                return None
        return st

    def index(self, a, st):
        """subscripts of a write target are read"""
        a = strip(a)
        while a is not None and a.get('k') in ('sub', 'op', 'call', 'mem'):
            if a['k'] == 'sub':
                self.go(a.get('i'), st)
                a = strip(a['o'])
            elif a['k'] == 'op':
                for x in a['a'][1:]:
                    self.go(x, st)
                a = strip(a['a'][0])
            elif a['k'] == 'call':
                for x in a['a']:
                    self.go(x, st)
                a = strip(a['o']) if a.get('o') is not None else None
            else:
                a = strip(a['o']) if a.get('o') is not None else None

    @staticmethod
    def meet(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a and b


def mutation(fn, root, match):
    """first node below root that may change the variable for which match(ref) holds"""
    def base(e):
        e = strip(e)
        while e is not None:
            k = e.get('k')
            if k == 'ref':
                return match(e)
            if k in ('mem', 'sub') and e.get('o') is not None:
                if k == 'mem' and fn.ty(strip(e['o']).get('t')).endswith('*'):
                    return False
                e = strip(e['o'])
            elif k == 'op' and e.get('op') in ('()', '[]') and e.get('a'):
                e = strip(e['a'][0])
            elif k == 'cast':
                e = strip(e['e'])
            else:
                return False
        return False
    for x in walk(root):
        k = x.get('k')
        if k == 'bin' and x['op'] in WRITE_OPS and base(x['a']):
            return x
        if k == 'op' and x.get('op') in WRITE_OPS and x.get('a') and base(x['a'][0]):
            return x
        if k == 'un' and x['op'] in ('++', '--', 'p++', 'p--') and base(x['e']):
            return x
        if k == 'un' and x['op'] == '&' and base(x['e']) and not fn.ty(x.get('t')).startswith('const'):
            return x
        if k == 'call' and x.get('o') is not None and not x.get('cm') and base(x['o']) and not x.get('sm') and cname(x) not in ('Size', 'Range', 'begin', 'end', 'get', 'operator[]'):
            return x
        if k in ('call', 'ctor', 'op'):
            rm = x.get('rm') or 0
            for i, a in enumerate(x.get('a', []) or []):
                if a is not None and (rm >> i & 1 or (k == 'call' and rwview(fn, a))) and base(a) and not (k == 'op' and x.get('op') in ('[]', '()')):
                    return x
        if k == 'var' and x.get('i') is not None and x.get('ref') and not fn.ty(x['t']).startswith('const') and base(x['i']):
            return x
    return None


def run(P, R):
    nst = nscr = nconst = nexc = 0
    # ---- namespace-scope and class-static variables
    gl = {}
    for k, raw in P.vars.items():
        v = json.loads(raw)
        if v.get('sl'):
            continue
        if v.get('const') or EXEMPT_T.search(v['t']):
            R.ok()
            continue
        gl[v['q']] = v
    R.count("namespace-scope and static member variables", len(gl))
    gm = {}
    for f in P.fns.values():
        if f.j.get('dep'):
            continue
        raw = f.raw()
        b = f.j['b']
        # ---- globals changed by functions
        if '"dk":"g"' in raw or '"dk":"sm"' in raw:
            for q in {x['q'] for x in walk(b) if x.get('k') == 'ref' and x.get('dk') in ('g', 'sm') and x.get('q') in gl}:
                m = mutation(f, b, lambda r: r.get('dk') in ('g', 'sm') and r.get('q') == q)
                if m is not None:
                    gm.setdefault(q, (f, m))
        # ---- function statics
        if '"st":1' in raw:
            for x in walk(b):
                if x.get('k') != 'var' or not x.get('st'):
                    continue
                t = f.ty(x['t'])
                if EXEMPT_T.search(t):
                    nexc += 1
                    R.ok()
                    continue
                nst += 1
                base = re.sub(r'<.*', '', f.name)
                key = "%s:%s" % (base, x['n'])
                if (f.short, x['n']) in EXC:
                    R.ok("%s: %s is %s" % (f.where(x), x['n'], EXC[f.short, x['n']]))
                    continue
                dep = None
                if x.get('i') is not None:
                    for y in walk(x['i']):
                        if y.get('k') == 'this' or (y.get('k') == 'ref' and y.get('dk') in ('p', 'v', 'b') and not y.get('ce')):
                            dep = y
                            break
                        if y.get('k') == 'ref' and y.get('dk') == 'sl' and not EXEMPT_T.search(f.ty(y.get('t'))) and \
                                mutation(f, b, lambda r: r.get('dk') == 'sl' and r.get('id') == y['id']) is not None:
                            dep = y
                            break
                mu = mutation(f, b, lambda r: r.get('dk') == 'sl' and r.get('id') == x['id'])
                if mu is None:
                    if dep is not None:
                        R.violation("init:" + key, f.where(x), "%s: static '%s' is initialised once from %s of the first call and then reused by every later call"
                                    % (f.short, x['n'], ("'%s'" % dep.get('n')) if dep.get('n') else 'the object'))
                    else:
                        nconst += 1
                        R.ok()
                    continue
                if dep is None and lazy(f, b, x['id']):
                    nconst += 1
                    R.ok("%s: '%s' is created on first use, independent of the call" % (f.where(x), x['n']))
                    continue
                sc = Scratch(f, x['id'])
                sc.go(b, False)
                if sc.bad is not None:
                    R.violation("state:" + key, f.where(sc.bad), "%s: static '%s' (line %s) is changed by the function and read here before this call has overwritten it: "
                                "its value comes from an earlier call" % (f.short, x['n'], x.get('l')))
                else:
                    nscr += 1
                    R.ok("%s: static scratch '%s' is overwritten before it is read" % (f.where(x), x['n']))
        # ---- sources of nondeterminism
        timed = {}
        for x in walk(b):
            k = x.get('k')
            if k in ('call', 'ctor', 'op') and not x.get('m'):
                n = x.get('f') or ''
                if RAND.search(n):
                    R.violation("nondet:%s:%s" % (re.sub(r'<.*', '', f.name), n.rsplit('::', 1)[-1]), f.where(x), "%s consults %s: the outcome differs from run to run" % (f.short, n[:60]))
                if TIME.search(n):
                    R.count("reads of a timer")
                    timed[id(x)] = x
            if k == 'rfor':
                t = f.ty((x.get('r') or {}).get('t'))
                if (HASHED.search(t) or PTRKEY.search(t)) and not orderfree(x):
                    R.violation("hash:%s" % re.sub(r'<.*', '', f.name), f.where(x), "%s iterates over a container ordered by hash or address (%s)" % (f.short, t[:80]))
                else:
                    R.obl += 1
            if k == 'call' and x.get('o') is not None and cname(x) in ('begin', 'Iterate', 'cbegin'):
                t = f.ty(strip(x['o']).get('t'))
                if HASHED.search(t) or PTRKEY.search(t):
                    R.violation("hash:%s" % re.sub(r'<.*', '', f.name), f.where(x), "%s iterates over a container ordered by hash or address (%s)" % (f.short, t[:80]))
            if k == 'var' and x.get('t') is not None and PTRKEY.search(f.ty(x['t'])):
                R.violation("ptr:%s:%s" % (re.sub(r'<.*', '', f.name), x['n']), f.where(x), "%s orders '%s' by memory address" % (f.short, x['n']))
            if k == 'cast' and f.ty(x.get('t')) in ('unsigned long', 'long', 'uintptr_t', 'intptr_t') and f.ty((x.get('e') or {}).get('t')).endswith('*') and x.get('ck') != 'NoOp' \
                    and f.short != 'Prefetch':
                R.violation("addr:%s" % re.sub(r'<.*', '', f.name), f.where(x), "%s turns an address into a number" % f.short)
            if k == 'bin' and x['op'] in ('<', '>', '<=', '>='):
                t = f.ty(x['a'].get('t'))
                if t.endswith('*') and f.short != 'Prefetch':
                    tb = strip(x['a'])
                    R.violation("addr:%s" % re.sub(r'<.*', '', f.name), f.where(x), "%s compares memory addresses" % f.short) if not loopvar(f, b, tb) else R.ok()
        if timed:
            flow(f, b, timed, R)
    for q, v in gl.items():
        R.obl += 1
        if q in gm:
            f, m = gm[q]
            R.violation("global:" + re.sub(r'<.*?>', '', q), f.where(m), "%s changes the global variable '%s': objects created later (or a second solver) see it" % (f.short, q[:80]))
        else:
            R.count("globals never changed after initialisation")
    R.count("function statics (without timers)", nst)
    R.count("static scratch proved overwritten", nscr)
    R.count("statics never changed", nconst)
    R.need("timers", nexc, 200)
    R.need("function statics", nst, 15)
    R.expl.append("All variables of static storage duration of the resolved program were enumerated. Each function static is a timer, or is never changed and its "
                  "initialiser does not mention parameters, locals or the object, or is scratch for which a definite-overwrite analysis over all paths shows that the function "
                  "writes it before it reads it; namespace-scope and static members are never changed by any function. All calls, comparisons, casts and range loops were "
                  "checked for clocks, random numbers, thread ids, address order and hash order; timer values do not reach conditions.")
    R.assume += ["two lazily created process-wide objects (communication thread, solver registry) are listed exceptions",
                 "one element written counts as overwritten: whether all elements of scratch are written is not decided"]


def loopvar(f, b, e):
    """pointer comparison that only ends a pointer walk"""
    if e is None or e.get('k') != 'ref':
        return False
    for x in walk(b):
        if x.get('k') in ('for', 'while', 'do') and x.get('c') is not None and any(y is e for y in walk(x['c'])):
            return True
    return False


def flow(f, b, timed, R):
    """values of timers in conditions"""
    t = set()
    ch = True

    def tainted(e):
        return any((id(y) in timed) or (y.get('k') == 'ref' and y.get('id') in t) for y in walk(e))
    while ch:
        ch = False
        for x in walk(b):
            if x.get('k') == 'var' and x.get('i') is not None and x['id'] not in t and tainted(x['i']):
                if not re.search(r'stream', f.ty(x['t'])):
                    t.add(x['id'])
                    ch = True
            if x.get('k') == 'bin' and x['op'] in WRITE_OPS and x['a'].get('k') == 'ref' and x['a'].get('id') not in t and tainted(x['b']):
                t.add(x['a']['id'])
                ch = True
    for x in walk(b):
        if x.get('k') in ('if', 'for', 'while', 'do', 'cond', 'sw') and x.get('c') is not None and tainted(x['c']):
            R.violation("clock:%s" % re.sub(r'<.*', '', f.name), f.where(x), "%s decides on a measured time" % f.short)


def orderfree(loop):
    """every round only stores to entries selected by the loop variable"""
    vid = {y['id'] for y in walk(loop['v']) if y.get('k') in ('var', 'bnd') and 'id' in y} if loop.get('v') else set()
    st = (loop.get('b') or {}).get('b') if (loop.get('b') or {}).get('k') == '{' else [loop.get('b')]
    for s in st or []:
        s = strip(s)
        if s is None or s.get('k') not in ('bin', 'op') or s.get('op') != '=':
            return False
        a = s['a'] if s['k'] == 'bin' else s['a'][0]
        if not any(y.get('k') in ('sub', 'op', 'call') for y in walk(a)) or not any(y.get('k') == 'ref' and y.get('id') in vid for y in walk(a)):
            return False
    return True


def lazy(f, b, vid):
    """all changes of the static happen under a test that it is still unset and do not depend on the call"""
    mine = lambda r: r.get('k') == 'ref' and r.get('dk') == 'sl' and r.get('id') == vid
    guarded = []
    for x in walk(b):
        if x.get('k') == 'if' and x.get('th') is not None and x.get('c') is not None:
            c = x['c']
            if any(mine(y) for y in walk(c)) and not any(y.get('k') in ('ref', 'this') and not mine(y) for y in walk(c)):
                neg = c.get('k') in ('un', 'op') and c.get('op') in ('!', '==') or (c.get('k') == 'bin' and c['op'] == '==')
                if neg and not any(y.get('k') == 'this' or (y.get('k') == 'ref' and y.get('dk') == 'p') for y in walk(x['th'])):
                    guarded.append(x['th'])
    if not guarded:
        return False
    gid = {id(y) for g in guarded for y in walk(g)}

    # outside of the guarded blocks it must not change
    def rest(n):
        if n is None or id(n) in gid:
            return
        yield n
        for y in kids(n):
            yield from rest(y)
    for n in rest(b):
        if n.get('k') in ('bin', 'op', 'un', 'call', 'ctor', 'var'):
            m = mutation(f, n, mine)
            if m is not None and id(m) not in gid:
                return False
    return True
