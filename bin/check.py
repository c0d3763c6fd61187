#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's working tree"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "analysis"))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(1 << 29)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import frame, harness, specs
    from dump import dump
    try:
        harness._D, info = dump()
    except SystemExit as e:
        print(e)
        print("cannot type-check /repo: nothing decided")
        return 2
    ctx = frame.Ctx(pid, tier, seed)
    fn, rule, assumptions = specs.REG[pid]
    ctx.guard("whole check", pid, lambda: fn(ctx))
    return frame.finish(ctx, t0, pid, rule, assumptions, info)


if __name__ == "__main__":
    rc = [2]

    def go():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code if isinstance(e.code, int) else 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
