import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":     # set iteration order is part of a run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", "-m", "dst"] + sys.argv[1:])

sys.dont_write_bytecode = True
from dst import engine  # noqa: E402


def main():
    a = sys.argv[1:]
    if not a:
        print("usage: dst check|replay|one|determinism ...")
        return 2
    if a[0] == "check":
        prop = a[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if tier not in ("quick", "thorough"):
            tier = "quick"
        seed = int(os.environ.get("VERIF_SEED", "1"))
        n = int(a[a.index("-n") + 1]) if "-n" in a else None
        cap = float(a[a.index("--cap") + 1]) if "--cap" in a else None
        return engine.cmd_check(prop, tier, seed, n, cap)
    if a[0] == "replay":
        q = "-q" in a
        return engine.cmd_replay([x for x in a[1:] if x != "-q"][0], not q)
    if a[0] == "one":
        from dst import tools
        return tools.one(a[1], int(a[2]), a[3:])
    if a[0] == "determinism":
        from dst import tools
        return tools.determinism(a[1:])
    print("unknown command")
    return 2


sys.exit(main())
