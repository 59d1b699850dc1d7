#!/usr/bin/env python3
"""check.py <property> --tier quick|thorough : decide one property on /repo's current tree."""
import sys, os, argparse, importlib, traceback, threading
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
sys.dont_write_bytecode = True
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import ctx, registry
    fn = registry.CHECKS[a.prop]
    c = ctx.Ctx(a.prop, a.tier, a.budget or (400 if a.tier == "quick" else 3300))
    rc = 2
    try:
        try:
            fn(c)
        except (ctx.Unsupported, ctx.B.Budget, ctx.B.DepthLimit) as e:
            c.ob("whole check", False, "not encoded: %s" % e)
        rc = c.finish()
        if a.v:
            for u in c.undischarged[:25]: print("  undischarged", u["obligation"], u["reason"][:150])
            for q in sorted(getattr(c, "joblog", []), key=lambda q: -q["seconds"])[:12]: print("  job", q)
            for n in c.notes: print("  note", n)
    except ctx.BuildError as e:
        print("the tree does not compile:", str(e)[:1500])
    except Exception:
        traceback.print_exc()
    finally:
        c.close()
    sys.stdout.flush()
    os._exit(rc)
if __name__ == "__main__":
    threading.stack_size(1 << 30)
    sys.setrecursionlimit(200000)
    t = threading.Thread(target=main); t.start(); t.join()
