"""Choosing where to place faults: from the profile of a fault-free run of the same client."""

DISK_KINDS = {
    "write": ["crash", "crash", "enospc", "eio", "short", "slow", "interrupt"],
    "read": ["crash", "eio", "short", "interrupt"],
    "create": ["crash", "crash_after", "enospc", "eio"],
    "open": ["crash", "eio"],
    "mkdir": ["crash", "crash_after", "enospc"],
    "rename": ["crash", "crash_after", "eio"],
    "unlink": ["crash", "crash_after", "eio"],
    "list": ["crash", "eio"],
    "stat": ["crash"],
    "fsync": ["crash", "eio"],
    "truncate": ["crash", "eio"],
    "sleep": ["crash"],
    "net": ["crash", "reset", "timeout", "http", "eof", "slow", "crash_after"],
}


def place(rng, profile, n, kinds=None, spread=None):
    """n faults at steps of a profile (list of step kinds). Half of them near the kind boundaries,
    where in-flight state is richest."""
    out = []
    if not profile:
        return out
    for _ in range(n):
        if rng.random() < 0.35:
            edges = [i for i in range(len(profile)) if i == 0 or profile[i] != profile[i - 1]]
            step = rng.choice(edges) + rng.choice([-1, 0, 0, 1])
        else:
            step = rng.randrange(len(profile))
        step = max(0, min(len(profile) - 1, step))
        avail = DISK_KINDS.get(profile[step], ["crash"])
        if kinds:
            avail = [k for k in avail if k in kinds] or ["crash"]
        f = {"step": step, "kind": rng.choice(avail)}
        if f["kind"] in ("crash", "enospc", "short", "eof"):
            f["frac"] = rng.choice([0.0, 0.02, 0.5, 0.98, round(rng.random(), 3)])
            if f["kind"] in ("short", "eof"):
                f["frac"] = max(0.02, f["frac"])
        if f["kind"] in ("enospc", "eio", "reset") and rng.random() < 0.3:
            f["persist"] = True
        if f["kind"] == "slow":
            f["delay"] = rng.choice([1.0, 5.0, 60.0])
        out.append(f)
    return out
