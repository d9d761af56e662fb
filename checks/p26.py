"""P26 the control cycle never waits for long-held locks."""
from engine.locks import Locks
from engine.util import *
from .p25 import SINGLE, short, chain

RM = "hardware_interface::ResourceManager::"
CM = "controller_manager::ControllerManager::"
ROOTS = [(RM + "read", True), (RM + "write", True), (RM + "enforce_command_limits", True), (CM + "read", False), (CM + "update", False), (CM + "write", False)]
# guard the interface tables only; switching and failure handling in the control loop takes them for single look-ups
TABLES = (RM + "resource_interfaces_lock_", RM + "claimed_command_interfaces_lock_")
MANAGED = SINGLE + ("hardware_interface::HardwareComponent::", "hardware_interface::ResourceStorage::")
INIT = (RM + "import_joint_limiters",)


def run(ctx):
    ctx.rule("From every entry point of the control cycle (reading, updating, writing, enforcing limits) all call paths are followed and every blocking acquisition, sleep and wait with the set of locks "
             "held there is collected. Waiting for a lock of the managers or of a hardware component is a violation unless the path holds it already or every other place that takes it first holds a lock the path holds.")
    ctx.assumption("joint limiters are imported (import_joint_limiters) before hardware is loaded, so it does not contend with a running cycle")
    ctx.assumption("locks protecting single values (interface handles, statistics, limiter data) and, in switching and failure handling only, the two interface-table locks are held by other threads only for one look-up and count as bounded")
    ctx.assumption("plugin code (hardware, controllers) is outside the analysed program")
    db = ctx.db
    L = Locks(db)
    cyc = {q for q, _ in ROOTS}
    holders = {}
    for f in list(db.fns.values()):
        if not f.get("body"):
            continue
        for (hs, kind, w, _), ch in L.summary(f).items():
            if kind in ("lock", "try") and len(ch) == 1 and f["q"] not in cyc and f["q"] not in INIT:
                hold = {h[0] for h in hs} | L.together.get((ch[0][1], ch[0][2]), set())
                holders.setdefault(w[0], []).append((hold, f["q"]))
    for q, strict in ROOTS:
        fs = db.find(q)
        if not fs:
            ctx.undecided(q, "anchor not found")
            continue
        for f in fs:
            ctx.saw(f)
            n = 0
            for (hs, kind, w, _), ch in L.summary(f).items():
                ctx.calls += 1
                for c in ch:
                    ctx.fns.add(c[0])
                if kind == "wait":
                    ctx.bad("the control cycle does not sleep or wait for another thread", f"{ch[-1][1]}: {ch[-1][0]}", f"{w} reached by {chain(ch)}",
                            f"{short(q)} {w} in {short(ch[-1][0])}")
                    continue
                n += 1
                if kind == "try":
                    continue
                held = {h[0] for h in hs}
                if w[0] in held or not w[0].startswith(MANAGED) or (w[0] in TABLES and not strict):
                    continue
                others = [g for hold, g in holders.get(w[0], ()) if not any(x.startswith(SINGLE) for x in hold & held)]
                if not others:
                    continue
                ctx.bad("the control cycle does not wait for a lock held during lengthy work", f"{ch[-1][1]}: {ch[-1][0]}",
                        f"{short(w[0])} is acquired blockingly by {chain(ch)}; it is also taken by {', '.join(sorted({g.split('::')[-1] for g in others})[:6])}",
                        f"{short(q)} {short(w[0])} in {short(ch[-1][0])}")
            ctx.check(True, f"every acquisition reachable from {short(q)} was examined", where(f))
