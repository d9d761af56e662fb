"""default values of the messages the repository defines itself"""
import os
from . import terms as T
from . import db as DBM


def default(t):
    """value of a default-constructed message of the repository, None if it is not one"""
    t = t.replace("const ", "").strip()
    p = t.split("::")
    if len(p) < 3:
        return None
    name = p[2].split("_<")[0].rstrip("_")
    f = os.path.join(DBM.REPO, p[0], p[1], name + ".msg")
    if not os.path.exists(f):
        return None
    out = []
    for ln in open(f):
        ln = ln.split("#")[0].strip()
        if not ln or "=" in ln:
            continue
        ty, n = ln.split()[:2]
        if "[" in ty:
            v = ("vec", ())
        elif ty.startswith(("string", "wstring")):
            v = T.c("")
        elif ty == "bool":
            v = T.FALSE
        elif ty.startswith(("int", "uint", "byte", "char")):
            v = T.c(0)
        elif ty.startswith("float"):
            v = T.c(0.0)
        else:
            q = ty.split("/")
            pk, nm = (q[0], q[-1]) if len(q) > 1 else (p[0], q[0])
            if (pk, nm) == ("lifecycle_msgs", "State"):
                v = ("rec", "lifecycle_msgs::msg::State", (("id", T.c(0)), ("label", T.c(""))))
            else:
                v = default(f"{pk}::msg::{nm}") or ("def", f"{pk}::msg::{nm}")
        out.append((n, v))
    return ("rec", t, tuple(out))
