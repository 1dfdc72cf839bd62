#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] | --setup | --replay FILE"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True

def main(a):
    from lib import build, core, drv
    if a and a[0] == "--setup":
        for c in ("asan", "asan-mbed"):
            build.driver(c)
        print("setup ok"); return 0
    if a and a[0] == "--replay":
        cfg = "asan"; env = {}
        lines = open(a[1]).read().split("\n")
        import json
        for l in lines:
            if l.startswith("# config: "): cfg = l[10:].strip()
            if l.startswith("# env: "): env = json.loads(l[7:])
        d = drv.Driver(cfg, env=env)
        try:
            for l in lines:
                if l and not l.startswith("#"):
                    print(">", l[:300]); print("<", json.dumps(d.cmd(l))[:600])
            d.close()
        except drv.DriverDied as e:
            print("DIED", e.key); print(e.text[-6000:]); return 1
        return 0
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + pid.lower())
    ctx = core.Ctx(pid, tier, seed, getattr(mod, "LEVEL", "exploration"))
    try:
        try:
            mod.run(ctx)
            ctx.close_drivers()
        except core.Stop:
            pass
        return ctx.finish()
    except build.BuildError as e:
        print("BUILD-ERROR:", e, file=sys.stderr)
    except Exception as e:
        traceback.print_exc()
        try:
            if isinstance(e, core.MISREAD): ctx.misread(e)
        except core.Stop: pass
        if ctx.viol:
            return ctx.finish()
    finally:
        for d in ctx.drivers:
            try: d.kill()
            except Exception: pass
    return 2

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
