"""C06: no behaviour depends on an indeterminate value.
 R1 every scalar / pointer / enum data member of a class with constructors is given a value by its in-class initialiser or
    on every path through every (non copy/move) constructor, following the object's own methods called from there;
    every scalar member of an options-like aggregate (no constructor) has an in-class initialiser.
 R3 the entries of a local array, vector or matrix are not accumulated into or computed with before anything has been
    written to it.
 R2 a local scalar that is declared without initialiser is assigned on every path before it is read.
Decided by a forward must-assign dataflow over the control flow graphs of all instantiated functions."""
import re
from ..ir import walk, kids, strip
from ..cfg import CFG, solve
from ..common import exhaustive_switches

SC = re.compile(r'^(const )?(bool|char|int|unsigned.*|long.*|short|double|float|signed char|amg::[A-Za-z_:]+|.*\*)( const)?$')

# (class, member): reason - confirmed by reading
EXC = {
    ("amg::AgglomerationData", "hasOffProcTrace"): "pure transport struct, set by InitializeAggData / the map that builds it",
    ("amg::AttachedNodeData", "mesh"): "SetMesh is called by the BlockAlgMesh constructor that takes ownership",
    ("amg::BSmoother2", "n_blocks_tot"): "member is shadowed by a constructor local and never read",
    ("amg::BaseAMGFactory::Logger", "v_comp"): "result of Finalize, which PrintLog runs before reading",
    ("amg::BaseAMGFactory::Logger", "op_comp"): "result of Finalize",
    ("amg::BaseAMGFactory::Logger", "vccl_rank"): "result of Finalize",
    ("amg::BaseAMGFactory::Logger", "v_comp_l"): "result of Finalize",
    ("amg::BaseAMGFactory::Logger", "occl_rank"): "result of Finalize",
    ("amg::BaseAMGFactory::Logger", "op_comp_l"): "result of Finalize",
    ("amg::GridContractMap", "mapped_NN"): "only meaningful (and only read) on ranks that hold the contracted mesh",
    ("amg::HybridGSSmoother", "split_ind"): "assigned in Finalize, which every creator calls before the first smoothing step",
    ("amg::VertexAMGPC", "use_p2_emb"): "first statement of SetUpMaps, which precedes the finest level embedding",
}
# aggregates whose members configure behaviour and are not assigned as a whole by their creator
OPTION_LIKE = re.compile(r'(Options|Config|AMGLevel|LevelCapsule|BaseAMGFactory::State|BaseAgglomerator)$')
# aggregates that one function fills completely
FILLED = re.compile(r'(SPWConfig|HDivStokesAMGPC<?.*::Options|AMGLevel)$')


def writes_of(e, acc, tgt):
    """ordered list of (r/w, key, node); tgt(node) -> key or None"""
    if e is None:
        return
    k = e['k']
    if k == 'lam':
        return
    if k == 'bin' and e['op'] == '=':
        t = lval(e['a'], tgt)
        if t is not None:
            idx_reads(e['a'], acc, tgt)
            writes_of(e['b'], acc, tgt)
            acc.append(('w', t, e))
            return
    if k == 'op' and e['op'] == '=' and len(e['a']) == 2:
        t = lval(e['a'][0], tgt)
        if t is not None:
            writes_of(e['a'][1], acc, tgt)
            acc.append(('w', t, e))
            return
    if k == 'un' and e['op'] == '&':
        t = lval(e['e'], tgt)
        if t is not None:
            acc.append(('w', t, e))
            return
    if k in ('call', 'ctor', 'op'):
        rm = e.get('rm', 0)
        a = e.get('a', [])
        off = 1 if (k == 'op' and e.get('me')) else 0
        ids = set(id(x) for x in a)
        for x in kids(e):
            if id(x) not in ids:
                writes_of(x, acc, tgt)
        w = []
        for i, x in enumerate(a):
            t = lval(x, tgt)
            if t is not None:
                byref = ('f' not in e) or (i - off >= 0 and rm >> (i - off) & 1) or (e.get('lamcall') and i > 0) or \
                        (k == 'op' and e.get('op') == '>>')
                if byref:
                    w.append(t)
                    continue
            writes_of(x, acc, tgt)
        for t in w:
            acc.append(('w', t, e))
        acc.append(('call', None, e))
        return
    t = tgt(e)
    if t is not None:
        acc.append(('r', t, e))
        return
    if k == 'var':
        if e.get('i'):
            if e.get('ref') and lval(e['i'], tgt) is not None:
                acc.append(('w', lval(e['i'], tgt), e))
                return
            writes_of(e['i'], acc, tgt)
        return
    for x in kids(e):
        writes_of(x, acc, tgt)


def lval(e, tgt):
    t = tgt(e)
    if t is not None:
        return t
    if e['k'] == 'sub':
        return lval(e['o'], tgt)
    if e['k'] == 'op' and e['op'] == '[]':
        return lval(e['a'][0], tgt)
    return None


def idx_reads(e, acc, tgt):
    if e['k'] == 'sub':
        writes_of(e['i'], acc, tgt)
        idx_reads(e['o'], acc, tgt)


class MustAssign:
    def __init__(self, P, target=None):
        self.P = P
        self.memo = {}
        self.target = target
        if target:
            self.this_field = lambda e: e['n'] if e['k'] == 'mem' and e.get('own') == target else None

    def this_field(self, e):
        if e['k'] == 'mem' and 'own' in e and e['o']['k'] == 'this':
            return e['n']
        return None

    def assigned(self, fn, depth=0):
        """members of *this assigned on every path to the normal exit (None: never returns)"""
        if fn.key in self.memo:
            return self.memo[fn.key]
        self.memo[fn.key] = frozenset()
        j = fn.j
        cfg = CFG(j['b'], inits=j.get('inits'))
        full = exhaustive_switches(self.P, fn, cfg)
        start = set()
        for i in j.get('inits', []):
            if 'm' in i:
                start.add(i['m'])
            if i.get('deleg') and i['i'].get('m') in self.P.fns:
                d = self.assigned(self.P.fns[i['i']['m']], depth + 1)
                start |= d or set()
        P = self.P

        def tr(n, s):
            e = n.ast
            if e is None or n.kind in ('scope_end', 'lam_enter', 'lam_exit', 'range'):
                return s
            if n.kind == 'ret':
                e = e.get('e')
                if e is None:
                    return s
            acc = []
            writes_of(e, acc, self.this_field)
            for op, t, x in acc:
                if op == 'w':
                    s = s | {t}
                elif op == 'call' and depth < 4:
                    if x['k'] == 'call' and x.get('m') in P.fns and ((x.get('o') or {}).get('k') == 'this' or self.target):
                        a = self.assigned(P.fns[x['m']], depth + 1)
                        if a:
                            s = s | a
            return s

        def edge(n, lab, s):
            if lab and isinstance(lab, tuple) and lab[0] == 'nocase' and n.i in full:
                return None
            return s
        ins, outs = solve(cfg, frozenset(start), tr, lambda a, b: a & b, edge=edge)
        r = ins.get(cfg.exit.i)
        # arrays and containers filled in loops: any write inside a loop counts as an assignment of the array member
        if r is not None:
            extra = set()
            for n in walk(j['b']):
                if n['k'] in ('bin', 'op') and n.get('op') == '=':
                    tgt = n['a'] if n['k'] == 'bin' else n['a'][0]
                    if tgt['k'] in ('sub', 'op'):
                        t = lval(tgt, self.this_field)
                        if t:
                            extra.add(t)
            r = r | extra
        self.memo[fn.key] = r
        return r


def run(P, R):
    ma = MustAssign(P)
    fill = {}

    def filled(name, fields):
        """members that some function definitely assigns together (the one place that sets up the aggregate)"""
        if name not in fill:
            m2, best = MustAssign(P, name), frozenset()
            for f in P.fns.values():
                if '"own":"%s"' % name in f.raw() and not f.j.get('dep'):
                    a = m2.assigned(f)
                    if a and len(a & fields) > len(best):
                        best = a & fields
            fill[name] = best
        return fill[name]
    ctors = {}
    for f in P.fns.values():
        if '"ctor":1' in f.raw() and f.j.get('ctor') and not f.j.get('dep'):
            ctors.setdefault(f.j['rec'], []).append(f)
    nclass = nfield = 0
    seen = set()
    for name in sorted(P.recs):
        r = P.rec(name)
        if r.get('dep') or r.get('union'):
            continue
        usr = [m for m in r['methods'] if m.get('ctor') and not m.get('imp') and not m.get('dflt') and not m.get('del')]
        fields = [x for x in r['fields'] if x.get('c') == 'scalar']
        if not fields:
            continue
        optlike = OPTION_LIKE.search(r['q']) and not usr
        if not usr and not optlike:
            continue
        nclass += 1
        cs = [c for c in ctors.get(name, []) if not c.j.get('cp') and not c.j.get('mv')]
        for x in fields:
            nfield += 1
            if x.get('hi'):
                R.ok()
                continue
            key = "%s::%s" % (r['q'], x['n'])
            if (r['q'], x['n']) in EXC:
                R.count("members assigned by their creator (frozen, read)")
                R.ok()
                continue
            bad = None
            if optlike and not (FILLED.search(r['q']) and x['n'] in filled(name, frozenset(y['n'] for y in fields if not y.get('hi')))):
                bad = "options-like aggregate without initialiser"
                where = "src/%s:%d" % (r['file'], x['l'])
            for c in cs:
                if c.j.get('dflt'):
                    if c.j.get('inits') is not None and any(i.get('m') == x['n'] for i in c.j['inits']):
                        continue
                    bad, where = "left unset by the defaulted constructor", "src/%s:%d" % (r['file'], x['l'])
                    continue
                a = ma.assigned(c)
                if a is not None and x['n'] not in a:
                    bad, where = "not assigned on every path through the constructor at " + c.where(), c.where()
            if bad:
                if key not in seen:
                    seen.add(key)
                    R.violation("member:" + key, where, "data member %s (%s) is indeterminate: %s" % (key, x['t'], bad))
            else:
                R.ok("%s::%s assigned by every constructor" % (r['q'], x['n']))
    R.need("classes with constructors or options", nclass, 100)
    R.need("scalar members", nfield, 350)

    # ---- R2
    nloc = 0
    for f in P.fns.values():
        if '"k":"var"' not in f.raw():
            continue
        j = f.j
        if j.get('dep'):
            continue
        cand = {}
        loopv = set()
        for n in walk(j['b']):
            if n['k'] == 'rfor':
                loopv.add(n['v']['id'])
            if n['k'] == 'var' and 'i' not in n and not n.get('st') and SC.match(f.ty(n['t'])) and '[' not in f.ty(n['t']):
                t = f.ty(n['t'])
                if t.startswith('amg::') and not P.is_enum(t):
                    continue
                cand[n['id']] = n
        for i in loopv:
            cand.pop(i, None)
        if not cand:
            continue
        nloc += len(cand)
        cfg = CFG(j['b'], inits=j.get('inits'))
        full = exhaustive_switches(P, f, cfg)
        bad = {}

        def tgt(e):
            if e['k'] == 'ref' and e.get('id') in cand:
                return e['id']
            return None

        def tr(n, s):
            e = n.ast
            if e is None or n.kind in ('scope_end', 'lam_enter', 'lam_exit', 'range'):
                return s
            if n.kind == 'ret':
                e = e.get('e')
                if e is None:
                    return s
            if n.kind == 'stmt' and e['k'] == 'var' and e['id'] in cand and not e.get('i'):
                return s - {e['id']}
            acc = []
            writes_of(e, acc, tgt)
            for op, t, x in acc:
                if op == 'r' and t not in s:
                    bad[t] = x
                if op in 'rw':
                    s = s | {t}
            return s

        def edge(n, lab, s):
            if lab and isinstance(lab, tuple) and lab[0] == 'nocase' and n.i in full:
                return None
            return s
        solve(cfg, frozenset(), tr, lambda a, b: a & b, edge=edge)
        for t, n in cand.items():
            if t in bad:
                R.violation("local:%s:%s" % (f.name, n['n']), f.where(bad[t]),
                            "local '%s' of %s may be read before it is assigned" % (n['n'], f.name))
            else:
                R.ok()
    R.need("locals without initialiser", nloc, 60)
    entries(P, R)
    R.expl.append("Forward must-assign dataflow over the CFG of every constructor (with own-method summaries) and of every "
                  "function with uninitialised scalar locals; obligations are (member, class instantiation) and locals.")


NUM = r'(bool|char|signed char|unsigned char|int|unsigned int|long|unsigned long|short|double|float|size_t|ngcore::IVec<.*>|ngbla::Vec<.*>|ngbla::Mat<.*>)'
OWN = re.compile(r'^(const )?ngcore::Array<%s(, (unsigned )?(long|int))?>$' % NUM)
VIEW = re.compile(r'^(const )?ng(core::FlatArray|bla::FlatVector|bla::FlatMatrix|bla::Vector|bla::Matrix)<.*>$')
TUP = re.compile(r'^ng(bla::(Vec|Mat)|core::IVec)<.*>$')
RMW = {'+=', '-=', '*=', '/=', '|=', '&=', '^=', '%='}
QUIET = {'Size', 'Height', 'Width', 'SetSize', 'SetAllocSize', 'AllocSize'}


def fresh(f, v):
    """kind of the memory of a local whose entries have no values yet"""
    t = f.ty(v['t'])
    i = v.get('i')
    if v.get('st') or v.get('ref') or t.endswith('&'):
        return None
    if i is not None and (i.get('k') != 'ctor' or i.get('cp') or i.get('mv')):
        return None
    a = [x for x in (i or {}).get('a', []) if x.get('k') != 'darg']
    ints = [x for x in a if re.match(r'^(const )?(unsigned )?(int|long|short|char)( const)?$', f.ty(x.get('t')) or '')]
    if OWN.match(t):
        return 'array' if len(a) == len(ints) and len(a) <= 1 else None
    if TUP.match(t):
        return 'small' if not a else None
    if VIEW.match(t) and a:
        lh = [x for x in a if 'LocalHeap' in (f.ty(x.get('t')) or '')]
        own = re.match(r'^ngbla::(Vector|Matrix)<', t)
        return 'view' if ints and len(ints) + len(lh) == len(a) and (lh or own) else None
    return None


def root(e):
    """(id, whole) of the local whose entry e is"""
    whole = True
    while True:
        k = e['k']
        if k == 'ref':
            return e.get('id'), whole
        if k == 'sub':
            e, whole = e['o'], False
        elif k == 'op' and e['op'] in ('[]', '()') and e.get('a') and not e.get('lamcall'):
            e, whole = e['a'][0], False
        elif k == 'cast':
            e = e['e']
        elif k == 'ctor' and e.get('cp') and len(e.get('a') or []) == 1 and 'FlatArray' in e.get('f', ''):
            e = e['a'][0]
        else:
            return None, whole


def indices(e, out):
    while True:
        k = e['k']
        if k == 'sub':
            out.append(e['i'])
            e = e['o']
        elif k == 'op' and e['op'] in ('[]', '()') and e.get('a'):
            out.extend(e['a'][1:])
            e = e['a'][0]
        elif k == 'cast':
            e = e['e']
        else:
            return


def const(e):
    while e is not None and e['k'] in ('cast', 'ctor') and (e.get('e') or len(e.get('a') or []) == 1):
        e = e.get('e') or e['a'][0]
    if e is not None and e['k'] == 'int':
        return int(e['v'])
    return None


def loops(f, b):
    """lowest values of loop variables"""
    lo = {}
    for n in walk(b):
        if n['k'] == 'rfor' and n.get('v'):
            r = strip(n['r'])
            if r['k'] == 'call' and cname_(r) == 'Range':
                a = [x for x in r['a'] if x['k'] != 'darg']
                lo[n['v']['id']] = const(a[0]) if len(a) > 1 else 0
        elif n['k'] == 'for' and n.get('i') and n['i'].get('k') == 'decl':
            for v in n['i']['d']:
                if v.get('i') is not None and any(x['k'] == 'un' and x['op'] == '++' for x in walk(n.get('n') or {'k': 'none'})):
                    lo[v['id']] = const(v['i'])
    return lo


def low(e, lo):
    """the lowest value of an index, None if not known"""
    c = const(e)
    if c is not None:
        return c
    while e['k'] == 'cast':
        e = e['e']
    if e['k'] == 'ref':
        return lo.get(e.get('id'))
    if e['k'] in ('bin', 'op') and e.get('op') == '+':
        x, y = (e['a'], e['b']) if e['k'] == 'bin' else e['a'][:2]
        x, y = low(x, lo), low(y, lo)
        return x + y if x is not None and y is not None else None
    return None


class Acc(list):
    """events with the lowest index they concern"""
    def __init__(self, lo, P):
        self.lo, self.P = lo, P

    def ev(self, op, r, e, lv=None):
        ix = []
        if lv is not None:
            indices(lv, ix)
        l = low(ix[-1], self.lo) if ix else 0
        self.append((op, r, e, l))


MEMO = {}


def accumulates(P, m, i):
    """the function only adds to its i-th argument"""
    if (m, i) not in MEMO:
        MEMO[m, i] = False
        fn = P.fns.get(m)
        if fn is not None and fn.j.get('b') is not None and i < len(fn.j['ps']) and not fn.j.get('dep'):
            v = fn.j['ps'][i].get('id')
            good, all_ = 0, 0
            for x in walk(fn.j['b']):
                if x['k'] == 'ref' and x.get('id') == v:
                    all_ += 1
                a = [x['a'], x['b']] if x['k'] == 'bin' else x.get('a', []) if x['k'] == 'op' else []
                if x.get('op') in ('+=', '-=') and len(a) == 2 and root(a[0])[0] == v:
                    good += 1
            MEMO[m, i] = all_ > 0 and good == all_
    return MEMO[m, i]


READER = re.compile(r'^(ngcore::Table<|ngla::SparseMatrix|amg::stripped_spm|amg::SparseMat)')


def uses(f, e, cand, acc, val=False):
    """(n/r/w, id, node): new memory, read of entries, anything that may write them"""
    if e is None or e['k'] == 'lam':
        return
    k = e['k']
    if k == 'var':
        if e['id'] in cand:
            if e.get('i'):
                for x in kids(e['i']):
                    uses(f, x, cand, acc)
            acc.ev('n', e['id'], e)
            return
        uses(f, e.get('i'), cand, acc, bool(SC.match(f.ty(e['t']))) and not e.get('ref'))
        return
    r, whole = root(e)
    if r in cand:
        ix = []
        indices(e, ix)
        for x in ix:
            uses(f, x, cand, acc, True)
        acc.ev('r' if val and not whole else 'w', r, e, e)
        return
    op = e.get('op')
    a = [e['a'], e['b']] if k == 'bin' else e.get('a', []) if k == 'op' else []
    if len(a) == 2 and (op == '=' or op in RMW):
        uses(f, a[1], cand, acc, True)
        r, whole = root(a[0])
        if r in cand:
            ix = []
            indices(a[0], ix)
            for x in ix:
                uses(f, x, cand, acc, True)
            acc.ev('w' if op == '=' or whole and cand[r] == 'array' else 'r', r, e, a[0])
        else:
            uses(f, a[0], cand, acc)
        return
    if k in ('un', 'op') and op in ('++', '--'):
        x = e['e'] if k == 'un' else a[0]
        r, whole = root(x)
        if r in cand and not whole:
            ix = []
            indices(x, ix)
            for y in ix:
                uses(f, y, cand, acc, True)
            acc.ev('r', r, e, x)
            return
    if k in ('bin', 'op') and op in ('+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=', '%', '&&', '||') and len(a) == 2:
        for x in a:
            uses(f, x, cand, acc, True)
        return
    if k == 'call' and e.get('o') is not None:
        r, whole = root(e['o'])
        if r in cand and whole and cname_(e) in QUIET:
            for x in e.get('a', []):
                uses(f, x, cand, acc, True)
            return
    if k in ('call', 'ctor'):
        made = re.sub(r'^std::shared_ptr<', '', f.ty(e.get('t')) or '') if k == 'ctor' or cname_(e) == 'make_shared' else ''
        rd = bool(READER.match(made or ''))
        a = e.get('a', [])
        hit = [i for i, x in enumerate(a) if type(x) is dict and root(x)[0] in cand and (rd and i == 0 and len(a) < 4 or
               k == 'call' and e.get('m') and accumulates(acc.P, e['m'], i))]
        if hit:
            for i, x in enumerate(a):
                if i in hit:
                    acc.ev('r', root(x)[0], e, x)
                else:
                    uses(f, x, cand, acc)
            return
    if k == 'cast':
        uses(f, e['e'], cand, acc, val)
        return
    if k == 'cond':
        uses(f, e['c'], cand, acc, True)
        uses(f, e['a'], cand, acc, val)
        uses(f, e['b'], cand, acc, val)
        return
    for x in kids(e):
        uses(f, x, cand, acc)


def cname_(e):
    return e.get('f', '').rsplit('::', 1)[-1]


def entries(P, R):
    narr = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.name)):
        j = f.j
        if j.get('dep') or '"k":"var"' not in f.raw():
            continue
        cand, nodes = {}, {}
        for n in walk(j['b']):
            if n['k'] == 'var':
                t = fresh(f, n)
                if t:
                    cand[n['id']], nodes[n['id']] = t, n
        if not cand:
            continue
        # only those that are read or accumulated into by entries
        narr += len(cand)
        cfg = CFG(j['b'], inits=j.get('inits'))
        bad = {}
        lo = loops(f, j['b'])

        def tr(n, s):
            e = n.ast
            if e is None or n.kind in ('scope_end', 'lam_enter', 'lam_exit'):
                return s
            if n.kind == 'range':
                e = e['r']
            if n.kind == 'ret':
                e = e.get('e')
            acc = Acc(lo, P)
            uses(f, e, cand, acc)
            for op, t, x, l in acc:
                if op == 'n':
                    s = s - {t, ('upper', t)}
                elif op == 'w':
                    s = s | {('upper', t) if l else t}
                elif t not in s and not (('upper', t) in s and l != 0):
                    bad.setdefault(t, {})[n.i] = x, ('upper', t) in s
                else:
                    bad.get(t, {}).pop(n.i, None)
            return s
        solve(cfg, frozenset(), tr, lambda a, b: a | b)
        for t, n in nodes.items():
            if bad.get(t):
                x, up = list(bad[t].values())[0]
                R.violation("entries:%s:%s" % (re.sub(r'<.*>', '', f.name), n['n']), f.where(x),
                            "entries of local '%s' of %s are used before anything has been written to %s" % (n['n'], f.name, "the first of them" if up else "it"))
            else:
                R.ok()
    R.need("local arrays, vectors and matrices without values", narr, 300)
