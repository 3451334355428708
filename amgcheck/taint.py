"""which values may differ between the ranks of a communicator"""
import re
from .ir import walk, kids, strip, cname
from .cfg import CFG, solve
from .graph import postdom, control_deps

ALLRED = {'ngcore::NgMPI_Comm::AllReduce', 'ngcore::NgMPI_Comm::AllGather', 'amg::NgsAMG_Comm::AllReduceFA',
          'ngcore::NgMPI_Comm::SubCommunicator', 'ngcore::NgMPI_Comm::Size', 'amg::NgsAMG_Comm::isValid', 'amg::UniversalDofs::IsParallel', 'amg::UniversalDofs::IsTrulyParallel',
          'ngcomp::FESpace::DefinedOn',
          'amg::BlockTM::GetNNGlobal', 'amg::TopologicMesh::GetNNGlobal', 'ngla::ParallelDofs::GetNDofGlobal', 'amg::UniversalDofs::GetNDOFGlobal'}
BCAST = {'ngcore::NgMPI_Comm::Bcast', 'amg::NgsAMG_Comm::Bcast'}
# methods whose result belongs to this rank alone
LOCAL = re.compile(r'''^(
    ngcore::NgMPI_Comm::(Rank|Reduce|Recv)
  | amg::NgsAMG_Comm::Recv
  | amg::(BlockTM|TopologicMesh)::(GetNN|GetENN|GetCNN)
  | amg::HybridBaseMatrix<.*>::HasGLocal
  | amg::EQCHierarchy::(GetNEQCS|IsMasterOfEQC|GetEQCID|GetEQCOfID|GetNLocalEQCS|GetDistantProcs|IsRankInEQC)
  | ngla::ParallelDofs::(GetNDofLocal|IsMasterDof|GetDistantProcs|GetExchangeDofs|IsExchangeProc)
  | amg::UniversalDofs::(IsValid|GetND|GetNDOF|GetNDofLocal|IsMasterDof|GetDistantProcs)
  | amg::(DOFMap|AMGMatrix)::GetNLevels
  | ngcomp::MeshAccess::(GetN[EVPS].*|GetNNodes|GetNFaces|GetNFacets|GetNEdges|GetNRegions_)
  | ngcomp::FESpace::(GetNDof|GetNDofLocal)
  | ngcore::BitArray::(Size|NumSet|Test|operator\[\])
  | ngla::BaseMatrix::(Height|Width|VHeight|VWidth|NZE)
  | ngla::BaseSparseMatrix::.*NZE | ngla::MatrixGraph::(NZE|GetPosition.*|Size)
  | ngla::BaseVector::(Size|FVDouble|FV)
)$''', re.X)
SIZES = ('Size', 'AllocSize', 'AsArray', 'Last', 'Pos', 'Contains')
OBJARR = re.compile(r'shared_ptr|unique_ptr|basic_string|std::string|SpecOpt|IVec')


def serial(e):
    """the outcome of this condition that means the communicator has one rank (or there is none)"""
    e = strip(e)
    if e is None:
        return None
    if e['k'] == 'un' and e['op'] == '!':
        r = serial(e['e'])
        return None if r is None else not r
    if e['k'] == 'call' and e.get('f') in ('amg::UniversalDofs::IsParallel', 'amg::UniversalDofs::IsTrulyParallel'):
        return False
    if e['k'] == 'bin':
        a, b = strip(e['a']), strip(e['b'])
        if a['k'] == 'call' and a.get('f') == 'ngcore::NgMPI_Comm::Size' and b['k'] == 'int':
            v = int(b['v'])
            return {('>', 1): False, ('>=', 2): False, ('==', 1): True, ('<=', 1): True, ('<', 2): True, ('!=', 1): False}.get((e['op'], v))
    return None


class Taint:
    def __init__(self, P, G, strict=False):
        self.P, self.G, self.strict = P, G, strict      # strict: arrays of objects may have different lengths, too
        self.memo = {}
        self.nul = {}

    # ---- expressions
    def t(self, fn, e, s, depth=0):
        """reason string when e may differ between ranks, else None"""
        if e is None:
            return None
        k = e['k']
        if k == 'ref':
            return s.get(e.get('id'))
        if k == 'lam':
            return None
        if k == 'mem':
            if e.get('own') and e['o'] and e['o']['k'] == 'this':
                return s.get('this.' + e['n'])
            if e.get('own') and ('Options' in e['own'] or 'Config' in e['own']):
                return None
            return self.t(fn, e['o'], s, depth)
        if k == 'op' and e['op'] in ('==', '!=') and any(strip(x)['k'] == 'nullptr' for x in e['a'] if x):
            return self.level_object(e['a'][0]) or self.level_object(e['a'][1]) or self.null(fn, e['a'][0], s, depth) or self.null(fn, e['a'][1], s, depth)
        if k == 'cast' and e.get('ck') == 'U' and fn.ty(e.get('t')) == 'bool' and self.level_object(e['e']):
            return self.level_object(e['e'])
        if k in ('call', 'op', 'ctor'):
            q = e.get('f', '')
            if q in ALLRED or q in BCAST:
                return None
            if LOCAL.match(q):
                return "%s at line %s" % (q.split('::', 1)[1], e.get('l'))
            o = e.get('o') if k == 'call' else (e['a'][0] if k == 'op' and e['a'] else None)
            nm = cname(e)
            if k == 'call' and o is not None and nm in SIZES and re.match(r'ngcore::(Flat)?(Array|Table|DynamicTable|HashTable)', q):
                t = fn.ty(o.get('t'))
                if o['k'] == 'call' and o.get('f') in ALLRED:
                    return None
                if not (OBJARR.search(t) and not self.strict or (o['k'] == 'mem' and 'Options' in o.get('own', ''))):
                    return "local container size at line %s" % e.get('l')
                return None
            m = e.get('m')
            if m in self.P.fns and depth < 5 and not e.get('v'):
                rt, outs = self.summary(self.P.fns[m], depth + 1)
                if rt:
                    return rt
            if m and e.get('v') and depth < 3:
                for t in self.G.targets(e):
                    if t in self.P.fns:
                        rt, outs = self.summary(self.P.fns[t], depth + 1)
                        if rt:
                            return rt
            r = None
            for x in kids(e):
                r = r or self.t(fn, x, s, depth)
            return r
        if k == 'bin' and e['op'] in ('==', '!=') and 'nullptr' in (e['a']['k'], e['b']['k']):
            return self.level_object(e['a']) or self.level_object(e['b']) or self.null(fn, e['a'], s, depth) or self.null(fn, e['b'], s, depth)
        r = None
        for x in kids(e):
            r = r or self.t(fn, x, s, depth)
        return r

    def null(self, fn, e, s, depth):
        """reason when this pointer may be null on some ranks and not on others"""
        e = strip(e)
        if e is None:
            return None
        k = e['k']
        if k == 'ref':
            return s.get(('null', e.get('id')))
        if k == 'mem' and e['n'] == '_G' and 'HybridBaseMatrix' in (e.get('own') or ''):
            return "this rank may have no G part, line %s" % e.get('l')
        if k == 'cond':
            n = [strip(x)['k'] == 'nullptr' for x in (e['a'], e['b'])]
            r = self.t(fn, e['c'], s, depth) if any(n) else None
            return r or self.null(fn, e['a'], s, depth) or self.null(fn, e['b'], s, depth)
        if k == 'ctor' and len(e['a']) == 1:
            return self.null(fn, e['a'][0], s, depth)
        if k == 'call':
            m = e.get('m')
            if cname(e) in ('move', 'get') or 'pointer_cast' in cname(e):
                return self.null(fn, e['a'][0] if e['a'] else e.get('o'), s, depth)
            if m in self.P.fns and depth < 5 and not e.get('v'):
                self.summary(self.P.fns[m], depth + 1)
                return self.nul.get(m)
        return None

    def level_object(self, e):
        e = strip(e)
        if e is not None and e['k'] == 'mem' and e['n'] in ('mesh', 'mat') and 'Capsule' in (e.get('own') or ''):
            return "level dropped on this rank, line %s" % e.get('l')
        return None

    def container(self, fn, e, s):
        """reason when the number of elements of e may differ between ranks"""
        r = self.t(fn, e, s)
        if r:
            return r
        t = fn.ty(e.get('t'))
        if re.match(r'(const )?ngcore::(Flat)?(Array|Table)<', t) and not OBJARR.search(t) and e['k'] in ('ref', 'mem') and \
           not (e['k'] == 'mem' and 'Options' in e.get('own', '')):
            return "local container at line %s" % e.get('l')
        return None

    def target(self, e):
        e0 = e
        while e is not None:
            if e['k'] == 'ref':
                return e.get('id')
            if e['k'] == 'mem':
                if e.get('own') and e['o'] and e['o']['k'] == 'this':
                    return 'this.' + e['n']
                e = e['o']
            elif e['k'] == 'sub':
                e = e['o']
            elif e['k'] == 'op' and e['op'] in ('[]', '()', '*', '->') and e['a']:
                e = e['a'][0]
            elif e['k'] == 'un':
                e = e['e']
            else:
                return None
        return None

    def effects(self, fn, e, s, impl, depth):
        """apply the assignments inside e to taint map s (in place)"""
        if e is None:
            return
        k = e['k']
        if k == 'lam':
            return
        for x in kids(e):
            self.effects(fn, x, s, impl, depth)
        if k == 'var':
            r = self.t(fn, e.get('i'), s, depth)
            if e.get('rng'):
                r = None
            self.put(s, e['id'], r, True)
            if e.get('i') is not None and self.isptr(fn, e):
                self.put(s, ('null', e['id']), self.null(fn, e['i'], s, depth), True)
            for b in e.get('bs', []) if isinstance(e.get('bs'), list) else []:
                if isinstance(b, dict) and 'id' in b:
                    self.put(s, b['id'], r, True)
        elif (k == 'bin' and e['op'] == '=') or (k == 'op' and e['op'] == '=' and len(e['a']) == 2):
            a, b = (e['a'], e['b']) if k == 'bin' else e['a']
            x = strip(a)
            if x['k'] == 'op' and x['op'] == '[]' and x['a'] and OBJARR.search(fn.ty(x['a'][0].get('t'))):
                return      # an element of an array of objects: says nothing about their number
            self.put(s, self.target(a), self.t(fn, b, s, depth) or impl, a['k'] in ('ref', 'mem'))
            if a['k'] == 'ref' and a.get('id') is not None and self.isptr(fn, a):
                self.put(s, ('null', a['id']), self.null(fn, b, s, depth) or impl, True)
        elif k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.put(s, self.target(e['a']), self.t(fn, e['b'], s, depth) or impl, False)
        elif k == 'op' and e['op'] in ('+=', '-=', '*=', '/=', '|=', '&=') and len(e['a']) == 2:
            self.put(s, self.target(e['a'][0]), self.t(fn, e['a'][1], s, depth) or impl, False)
        elif k == 'un' and ('++' in e['op'] or '--' in e['op']):
            if impl:
                self.put(s, self.target(e['e']), impl, False)
        elif k in ('call', 'ctor', 'op') and e.get('f') in BCAST:
            for x in e.get('a', []):
                self.put(s, self.target(x), None, True)
        elif k in ('call', 'ctor'):
            if e.get('f') in ALLRED:
                return
            rm = e.get('rm', 0)
            outs = ()
            if e.get('m') in self.P.fns and depth < 5 and not e.get('v'):
                outs = self.summary(self.P.fns[e['m']], depth + 1)[1]
            for i, x in enumerate(e.get('a', [])):
                if rm >> i & 1:
                    if i in outs:
                        self.put(s, self.target(x), outs[i], False)

    def isptr(self, fn, e):
        t = fn.ty(e.get('t'))
        return 'shared_ptr' in t or t.endswith('*')

    def put(self, s, key, r, strong):
        if key is None:
            return
        if r:
            s[key] = r
        elif strong:
            s.pop(key, None)

    # ---- functions
    def analyse(self, fn, depth=0):
        cfg = CFG(fn.j['b'], inits=fn.j.get('inits'))
        pd = postdom(cfg)
        dep = control_deps(cfg, pd)
        impl = {}
        for _ in range(2):
            def tr(n, s):
                e = n.ast
                if e is None or n.kind in ('scope_end', 'lam_enter', 'lam_exit', 'range'):
                    return s
                if n.kind == 'ret':
                    e = e.get('e')
                    if e is None:
                        return s
                d = dict(s)
                self.effects(fn, e, d, impl.get(n.i), depth)
                return tuple(sorted(d.items(), key=lambda x: str(x[0])))

            def join(a, b):
                if a == b:
                    return a
                d = dict(b)
                d.update(dict(a))
                return tuple(sorted(d.items(), key=lambda x: str(x[0])))
            one = {}
            for n in cfg.nodes:
                if n.kind == 'cond':
                    x = serial(n.ast)
                    if x is not None:
                        one[n.i] = x

            def edge(n, lab, s):
                # a communicator of one rank: nobody to disagree with
                return () if n.i in one and lab is one[n.i] else s
            ins, outs = solve(cfg, (), tr, join, edge=edge)
            new = {}
            tc = {}
            for n in cfg.nodes:
                if n.kind in ('cond', 'switch') and n.i in ins:
                    tc[n.i] = self.t(fn, n.ast, dict(ins[n.i]), depth)
                elif n.kind == 'range' and n.i in ins:
                    tc[n.i] = self.container(fn, n.ast['r'], dict(ins[n.i]))
            for n in cfg.nodes:
                for c, lab in dep.get(n.i, ()):
                    if tc.get(c):
                        new[n.i] = tc[c]
            # transitively
            for _ in range(6):
                for n in cfg.nodes:
                    if n.i not in new:
                        for c, lab in dep.get(n.i, ()):
                            if c in new:
                                new[n.i] = new[c]
            if new == impl:
                break
            impl = new
        return cfg, pd, dep, ins, outs, tc, impl

    def summary(self, fn, depth=0):
        if fn.key in self.memo:
            return self.memo[fn.key]
        self.memo[fn.key] = (None, {})
        if fn.j.get('rec') and 'SpecOpt' in fn.j['rec']:      # level-wise options: the same everywhere
            return (None, {})
        if fn.j.get('dep') or len(fn.raw()) > 60000:
            return (None, {})
        cfg, pd, dep, ins, outs, tc, impl = self.analyse(fn, depth)
        rt = None
        for n in cfg.nodes:
            if n.kind == 'ret' and n.i in ins and n.ast.get('e'):
                rt = rt or self.t(fn, n.ast['e'], dict(ins[n.i]), depth)
                if not rt and n.i in impl and n.ast['e']['k'] in ('int', 'bool', 'flt', 'un'):
                    rt = impl[n.i]
                x = strip(n.ast['e'])
                while x is not None and x['k'] == 'ctor' and len(x['a']) == 1:
                    x = strip(x['a'][0])
                if fn.key not in self.nul or not self.nul[fn.key]:
                    self.nul[fn.key] = impl.get(n.i) if x['k'] == 'nullptr' and n.i in impl else self.null(fn, x, dict(ins[n.i]), depth)
        po = {}
        ex = dict(ins.get(cfg.exit.i, ()))
        for i, p in enumerate(fn.j.get('ps', [])):
            if isinstance(p, dict) and p.get('id') in ex:
                po[i] = ex[p['id']]
        self.memo[fn.key] = (rt, po)
        return self.memo[fn.key]
