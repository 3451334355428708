"""C02: collective operations are entered by every rank of the communicator, in the same order.
For every branch whose outcome may differ between ranks (taint from rank numbers, local sizes, local ownership ... through
locals, out-parameters and return values; reductions and broadcasts clean) the languages of collective operations that can
follow on its two sides must be the same."""
import re
from ..ir import walk, calls, kids, cname, strip
from ..graph import CallGraph, postdom, control_deps
from ..taint import Taint
from ..show import show

COLL = {'ngcore::NgMPI_Comm::' + x for x in ('AllReduce', 'Reduce', 'Bcast', 'Barrier', 'Scatter', 'AllGather', 'SubCommunicator',
                                             'ScatterRoot', 'Gather', 'GatherRoot', 'AllGatherRoot')}
COLL |= {'amg::NgsAMG_Comm::' + x for x in ('Bcast', 'Gather', 'AllReduceFA', 'CreateSubCommunicatorGlobal')}
COLL |= {'ngcomp::MeshAccess::AllReduceNodalData', 'ngla::ParallelDofs::ParallelDofs', 'ngla::InnerProduct', 'ngla::L2Norm',
         'ngla::BaseVector::L2Norm', 'ngla::BaseVector::InnerProductD'}
COLLC = re.compile(r'^NG_MPI_(Allreduce|Reduce|Bcast|Barrier|Scatter|Gather|Allgather|Comm_create_group|Comm_split|Comm_create|Comm_dup|Alltoall)')


def is_coll(c):
    q = c.get('f', '')
    if c.get('mkt') == 'ngla::ParallelDofs' and len(c.get('a', [])) > 1:
        return True
    return q in COLL or bool(COLLC.match(q.rsplit('::', 1)[-1]))


# exchanges in which every rank takes part with its neighbours: ranks that share something must agree
NEIGH = re.compile(r'^amg::(BlockTM::(AllreduceNodalData|ScatterNodalData)|EQCHierarchy::ScatterEQC(Data|Array)|ReduceTable|MyAllReduceDofData'
                   r'|ExchangePairWise(2|_norecbuffer)?)$|^ng(comp|la)::(AllReduceDofData|ScatterDofData)$|^ngla::(BaseVector|ParallelBaseVector|S_BaseVector.*)::(Cumulate|Distribute)$')


def is_neigh(c):
    return is_coll(c) or bool(NEIGH.match(c.get('f', '')))


def no_neighbours(why, e):
    """the branch asks whether there is anything to exchange"""
    if not re.match(r'EQCHierarchy::GetNEQCS|local container', why):
        return False
    for x in walk(e):
        if x.get('k') == 'bin' and x['op'] in ('==', '!=', '<', '>', '<=', '>='):
            l = [y for y in (x['a'], x['b']) if y.get('k') == 'cast' or y.get('k') == 'int']
            v = [str(y.get('v', (y.get('e') or {}).get('v'))) for y in l]
            if not any(z in ('0', '1', '2') for z in v):
                return False
    return True


def nameof(c):
    return c['mkt'].rsplit('::', 1)[-1] if c.get('mkt') else c['f'].rsplit('::', 1)[-1]


def direct_nodes(e):
    """calls of this node that are not in nested lambdas, with the short-circuit / conditional operands that guard them"""
    out = []

    def go(x, g):
        if x is None or x.get('k') == 'lam':
            return
        k = x.get('k')
        if k == 'bin' and x['op'] in ('&&', '||'):
            go(x['a'], g)
            go(x['b'], g + [x['a']])
            return
        if k == 'cond':
            go(x['c'], g)
            go(x['a'], g + [x['c']])
            go(x['b'], g + [x['c']])
            return
        for y in kids(x):
            go(y, g)
        if k in ('call', 'op', 'ctor'):
            out.append((x, g))
    go(e, [])
    return out


class Lang:
    """equality of the sets of event sequences that can follow two nodes"""

    def __init__(self, cfg, ev):
        self.cfg, self.ev = cfg, ev
        self.cl = {}

    def closure(self, nodes):
        seen, st = set(), list(nodes)
        res = set()
        while st:
            n = st.pop()
            if n.i in seen:
                continue
            seen.add(n.i)
            if n is self.cfg.throw:
                continue
            if n is self.cfg.exit:
                res.add((n.i, None))
                continue
            if self.ev.get(n.i):
                res.add((n.i, 0))
                continue
            for s, _ in n.succ:
                st.append(s)
        return frozenset(res)

    def step(self, state):
        """state: frozenset of (node, position in its event list)"""
        out = {}
        fin = False
        for i, p in state:
            if p is None:
                fin = True
                continue
            evs = self.ev[i]
            e = evs[p]
            tgt = out.setdefault(e, set())
            if p + 1 < len(evs):
                tgt.add((i, p + 1))
            else:
                tgt |= self.closure([s for s, _ in self.cfg.nodes[i].succ])
        return fin, {e: frozenset(t) for e, t in out.items()}

    def equal(self, a, b):
        a, b = self.closure([a]), self.closure([b])
        if not a or not b:      # one side only throws
            return None
        seen, st = set(), [(a, b, ())]
        while st:
            x, y, w = st.pop()
            if (x, y) in seen or x == y:
                continue
            seen.add((x, y))
            fx, ox = self.step(x)
            fy, oy = self.step(y)
            if fx != fy or set(ox) != set(oy):
                d = sorted(set(ox) ^ set(oy))
                return w, d[0] if d else "end of function"
            for e in ox:
                st.append((ox[e], oy[e], w + (e,)))
            if len(seen) > 4000:
                return None
        return None


# (function, event, reason of the difference): why the ranks may part here
LEV = r'level dropped|IsValid|GetNLevels'
EXC = [
    (r'^amg::NgsAMG_Comm::Bcast$', r'^NG_MPI_Bcast$', r'.', 'contract of the primitive: every rank passes an array of the same size'),
    (r'.', r'^\{(DoDebuggingTests|LogLevel|RSU|GetGlobDNums|SmoothVFromLevel)\}$', LEV,
     'ranks without the level are not in its communicator, the operation only involves those that have it'),
    (r'::BuildCEQCH$', r'^\{EQCHierarchy\}$', r'Rank', 'built on the coarse communicator, which only the group masters belong to'),
    (r'::BuildContractMap$', r'^\{operator<<\}$', LEV, 'debugging output of the contracted mesh, on the coarse communicator'),
    (r'::BuildAMGMat$', r'^\{CoarseLevelInv\}$', LEV, 'inverse on the communicator of the coarsest level'),
    (r'^amg::AMGMatrix::GetNDof$', r'^Bcast$', r'IsValid', 'whether a rank is without the level is the same for all: the level communicator is smaller than the global one'),
    (r'::CheckKVecs$', r'^InnerProduct$', r'GetNLevels', 'debugging output, runs over the levels of this rank, inner products on the level communicator'),
    (r'::CheckLoopDivs$', r'^end of function$', LEV, 'debugging output, runs over the levels of this rank'),
    (r'StokesAMGFactory::', r'^(AllReduce|\{ProjectToPotSpace\}|\{BuildDivMat\})$', LEV, 'collective of the coarse level communicator, which the rank has left'),
]


def word(P, G, T, S, key, memo, depth=0, isc=is_coll):
    """straight-line collective word of a repo function, or None if it branches around them"""
    if key in memo:
        return memo[key]
    memo[key] = None
    f = P.fns.get(key)
    if f is None or depth > 3 or f.j.get('dep'):
        return None
    from ..cfg import CFG
    cfg = CFG(f.j['b'], inits=f.j.get('inits'))
    ev = events(P, G, T, S, f, cfg, memo, depth + 1, isc)
    if any('{' in e for l in ev.values() for e in l):
        return None
    L = Lang(cfg, ev)
    st = L.closure([cfg.entry])
    w = []
    for _ in range(40):
        fin, o = L.step(st)
        if fin and not o:
            memo[key] = tuple(w)
            return memo[key]
        if fin or len(o) != 1:
            return None
        e, st = next(iter(o.items()))
        w.append(e)
    return None


def events(P, G, T, S, fn, cfg, memo, depth=0, isc=is_coll):
    ev = {}
    for n in cfg.nodes:
        if n.ast is None or n.kind in ('scope_end', 'lam_enter', 'lam_exit', 'range'):
            continue
        l = []
        for c, g in direct_nodes(n.ast):
            if isc(c):
                l.append(nameof(c))
            else:
                ts = [t for t in G.targets(c) if t in S]
                if ts:
                    w = word(P, G, T, S, ts[0], memo, depth, isc) if len(ts) == 1 and depth < 4 else None
                    l.extend(w if w is not None else ['{%s}' % nameof(c)])
        if l:
            ev[n.i] = l
    return ev


def run(P, R):
    G = CallGraph(P)
    T = Taint(P, G)
    seeds = set()
    ncoll = 0
    for f in P.fns.values():
        if f.j.get('dep'):
            continue
        for part in [f.j['b']] + [i.get('i') for i in f.j.get('inits', []) if i.get('i')]:
            for c in calls(part):
                if is_coll(c):
                    seeds.add(f.key)
                    ncoll += 1
    S = G.reach_back(seeds)
    R.need("collective call sites (instantiated)", ncoll, 120)
    R.need("functions that run collectives", len(S), 400)
    # exchanges with neighbours
    nex, nn = set(), 0
    for f in P.fns.values():
        if f.j.get('dep'):
            continue
        for part in [f.j['b']] + [i.get('i') for i in f.j.get('inits', []) if i.get('i')]:
            for c in calls(part):
                if is_neigh(c):
                    nex.add(f.key)
                    nn += not is_coll(c)
    S2 = G.reach_back(nex)
    R.need("call sites of exchanges with neighbours (instantiated)", nn, 60)
    memo, memo2 = {}, {}
    TS = Taint(P, G, True)
    nb = nt = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.name)):
        if f.key not in S2 or f.j.get('dep'):
            continue
        if f.key not in S and len(f.raw()) > 200000:
            continue
        cfg, pd, dep, ins, outs, tc, impl = T.analyse(f)
        neighbours(P, R, G, T, S2, f, cfg, ins, tc, memo2)
        if f.key not in S:
            continue
        ev = events(P, G, T, S, f, cfg, memo)
        if not ev:
            continue
        L = Lang(cfg, ev)
        base = re.sub(r'<.*>', '', f.name)
        arguments(R, T, f, cfg, ins, base, TS)
        for n in cfg.nodes:
            if n.kind in ('cond', 'switch', 'range') and n.i in ins:
                nb += 1
                why = tc.get(n.i)
                if not why:
                    R.ok()
                    continue
                nt += 1
                first, bad = n.succ[0][0], None
                LE = L
                er = [x for x in EXC if re.search(x[0], base) and re.search(x[2], why) and x[1].startswith(r'^\{')]
                if er:      # operations only those ranks take part in are not counted
                    LE = Lang(cfg, {i: [e for e in l if not any(re.search(x[1], e) for x in er)] for i, l in ev.items()})
                    if any(L.equal(first, s) for s, _ in n.succ[1:]):
                        R.count("excepted branches")
                for s, lab in n.succ[1:]:
                    bad = bad or LE.equal(first, s)
                if bad:
                    ex = exc(f, n, bad, why)
                    if ex:
                        R.count("excepted branches")
                        R.ok("%s: %s" % (f.where(n.ast), ex))
                    else:
                        R.violation("branch:%s:%s" % (base, bad[1]), f.where(n.ast),
                                    "ranks may disagree on '%s' (%s), and only one side goes on to %s%s" %
                                    (show(n.ast['r'] if n.kind == 'range' else n.ast), why, bad[1], " after " + ", ".join(bad[0][:5]) if bad[0] else ""))
                else:
                    R.ok("%s: '%s' differs between ranks, both sides run the same collectives" % (f.where(n.ast), show(n.ast['r'] if n.kind == 'range' else n.ast)))
            if n.ast is not None and n.i in ev and n.i in ins:
                for c, g in direct_nodes(n.ast):
                    if not (is_coll(c) or any(t in S for t in G.targets(c))):
                        continue
                    for x in g:
                        why = T.t(f, x, dict(ins[n.i]))
                        if why:
                            R.violation("operand:%s:%s" % (base, nameof(c)), f.where(c),
                                        "collective %s is only evaluated depending on '%s' (%s)" % (nameof(c), show(x), why))
                        else:
                            R.ok()
    R.count("branches in functions that run collectives", nb)
    R.need("branches on rank-dependent values", nt, 20)
    R.expl.append("Whole-program call graph closure of MPI collectives; rank taint dataflow; equality of the collective event "
                  "languages on both sides of each rank-dependent branch.")


ROOT = {'Bcast': 1, 'Reduce': 2, 'Gather': 2, 'NG_MPI_Bcast': 3, 'NG_MPI_Reduce': 5, 'NG_MPI_Gather': 6, 'NG_MPI_Gatherv': 7}


def arguments(R, T, f, cfg, ins, base, TS):
    """all ranks name the same root, and as many entries in reductions and broadcasts of arrays"""
    for n in cfg.nodes:
        if n.ast is None or n.i not in ins:
            continue
        for c in calls(n.ast, False) if n.kind != 'range' else ():
            if not is_coll(c):
                continue
            nm, a = nameof(c), c.get('a', [])
            i = ROOT.get(nm)
            if i is not None and i < len(a):
                why = T.t(f, a[i], dict(ins[n.i]))
                R.count("roots of collectives")
                if why:
                    R.violation("root:%s:%s" % (base, nm), f.where(c), "ranks may name different roots for %s: '%s' (%s)" % (nm, show(a[i]), why))
                else:
                    R.ok()
            if nm in ('AllReduceFA', 'Bcast') and a and strip(a[0])['k'] == 'ref' and re.match(r'(class )?(ngcore::)?(Flat)?Array<', f.ty(strip(a[0]).get('t'))):
                v = strip(a[0]).get('id')
                cfg, pd, dep, ins, outs, tc, impl = TS.analyse(f)
                for m in cfg.nodes:
                    for x in walk(m.ast, False) if m.ast is not None and m.i in ins else ():
                        sz = None
                        if x.get('id') == v and (x.get('i') or {}).get('k') == 'ctor' and x['i'].get('a') and not x['i'].get('cp') and not x['i'].get('mv'):
                            sz = x['i']['a'][0]
                        elif x.get('k') == 'call' and cname(x) == 'SetSize' and x.get('o') and strip(x['o']).get('id') == v and x.get('a'):
                            sz = x['a'][0]
                        if sz is None:
                            continue
                        R.count("lengths of reduced arrays")
                        why = TS.t(f, sz, dict(ins[m.i]))
                        if why:
                            R.violation("length:%s:%s" % (base, nm), f.where(c), "ranks may call %s with arrays of different lengths: '%s' has '%s' entries (%s)" %
                                        (nm, show(a[0]), show(sz), why))
                        else:
                            R.ok()


def neighbours(P, R, G, T, S, f, cfg, ins, tc, memo):
    ev = events(P, G, T, S, f, cfg, memo, 0, is_neigh)
    if not ev:
        return
    base = re.sub(r'<.*>', '', f.name)
    L = None
    for n in cfg.nodes:
        if n.kind not in ('cond', 'switch', 'range') or n.i not in ins:
            continue
        why = tc.get(n.i)
        if not why or n.kind == 'range' and not why:
            continue
        if no_neighbours(why, n.ast['r'] if n.kind == 'range' else n.ast):
            R.count("branches that ask whether there are neighbours")
            continue
        if L is None:
            L = Lang(cfg, ev)
        er = [x for x in EXC + NEXC if re.search(x[0], base) and re.search(x[2], why) and x[1].startswith(r'^\{')]
        LE = Lang(cfg, {i: [e for e in l if not any(re.search(x[1], e) for x in er)] for i, l in ev.items()}) if er else L
        bad, first = None, n.succ[0][0]
        for s, lab in n.succ[1:]:
            bad = bad or LE.equal(first, s)
        if bad and not exc(f, n, bad, why, EXC + NEXC):
            R.violation("neighbour:%s:%s" % (base, bad[1]), f.where(n.ast),
                        "ranks that share something may disagree on '%s' (%s), and only one side goes on to %s" %
                        (show(n.ast['r'] if n.kind == 'range' else n.ast), why, bad[1]))
        else:
            R.ok()


NEXC = [
    (r'^amg::AMGMatrix::GetBF$', r'^Cumulate$', LEV, 'exchange among the ranks that have the level'),
    (r'', r'^(AllReduce|\{SetUnitVec\}|Cumulate|Distribute)$', LEV, 'exchange among the ranks that have the level'),
]


def exc(f, n, bad, reason, EXC=EXC):
    base = re.sub(r'<.*>', '', f.name)
    for fn, ev, rs, why in EXC:
        if re.search(fn, base) and re.search(ev, bad[1]) and re.search(rs, reason):
            return why
    return None
