"""helpers over the JSON syntax trees"""


def kids(n):
    """direct child nodes, in evaluation-ish order"""
    for k, v in n.items():
        if type(v) is dict:
            yield v
        elif type(v) is list:
            for x in v:
                if type(x) is dict:
                    yield x


def walk(n, lambdas=True):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        if not lambdas and x.get("k") == "lam" and x is not n:
            continue
        ch = list(kids(x))
        ch.reverse()
        st.extend(ch)


def calls(n, lambdas=True):
    for x in walk(n, lambdas):
        if x.get("k") in ("call", "op", "ctor"):
            yield x


def cname(n):
    """unqualified name of the callee"""
    return n.get("f", "").rsplit("::", 1)[-1]


def strip(n):
    """through implicit copies, casts of value, std::move, * & wrappers of smart pointers"""
    while n is not None:
        k = n.get("k")
        if k == "darg":
            n = n["e"]
        elif k == "ctor" and len(n["a"]) == 1 and (n.get("cp") or n.get("mv")):
            n = n["a"][0]
        elif k == "call" and n.get("f") in ("std::move", "std::forward", "std::ref", "std::__addressof", "std::addressof") and n["a"]:
            n = n["a"][0]
        else:
            return n
    return n
