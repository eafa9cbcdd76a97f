#!/usr/bin/env python3
"""check.py <property> quick|thorough      run one check
   check.py --replay FILE                  replay a reported violation
   check.py --setup                        warm nothing; verify the tools that checks need are present"""
import importlib, json, os, re, sys, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "lib"))
import vf  # noqa: E402


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        import shutil
        for t in ("clang++", "pkg-config", "bison", "re2c"):
            if not shutil.which(t):
                print("missing tool: " + t)
                return 2
        vf.absl_libs()
        return 0
    if a and a[0] == "--replay":
        with open(a[1]) as fh:
            v = json.load(fh)
        mod = importlib.import_module("checks." + v["property"].lower())
        c = vf.Check(v["property"], v["tier"])
        return mod.replay(c, v) if hasattr(mod, "replay") else replay(c, v)
    prop, tier = a[0], (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    mod = importlib.import_module("checks." + prop.lower())
    c = vf.Check(prop, tier)
    try:
        return mod.run(c)
    except vf.BuildError as e:
        print(str(e))
        if re.search(r"^\S+:\d+:\d+: error: ", str(e), re.M):
            # code a user of the library may write, or code the compiler generated, is refused by the C++ compiler
            first = re.search(r"error: .*", str(e)).group(0)
            c.violation("does-not-compile", first, {"build_error": str(e)[-3000:]})
            c.exhaustive = False
            return c.finish("model_checking", "the code under check could not be compiled", {})
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def replay(c, v):
    r = v["replay"]
    if "harness" not in r:
        print(json.dumps(r, indent=1))
        return getattr(importlib.import_module("checks." + v["property"].lower()), "run")(c)
    b = vf.harness(r["harness"], None, r["defs"])
    rc, txt = c.replay_case(b, r["args"], r["case"], r.get("env"))
    print(txt[-6000:])
    bad = rc != 0 or "VIOL\t" in txt
    print("REPRODUCED" if bad else "not reproduced")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
