"""shared semantic helpers"""
import re


def exhaustive_switches(P, fn, cfg):
    """ids of switch nodes whose cases name every enumerator of the scrutinee's enumeration"""
    full = set()
    for n in cfg.nodes:
        if n.kind != 'switch':
            continue
        vals, t = set(), None
        for s, lab in n.succ:
            if lab and lab[0] == 'case':
                v = lab[1]
                if v['k'] == 'enum':
                    vals.add(v['val'])
                    t = fn.ty(v['t'])
        en = P.enum_values(t) if t else None
        if en and set(en) <= vals:
            full.add(n.i)
    return full
