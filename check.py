#!/opt/venv/bin/python -B
"""check.py <property> [--tier quick|thorough] [--seed N]"""
import argparse, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
import warnings
warnings.filterwarnings("ignore")
import logging
logging.disable(logging.CRITICAL)

MODULES = {"C01": "c01", "C02": "c01", "C03": "c01", "C05": "c05", "C06": "c05", "C07": "c05", "C08": "c08", "C04": "c08",
           "C09": "c09", "C10": "c09", "C11": "c09", "C12": "c09"}
MODULES.update({"C%02d" % i: "pipe" for i in (13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25, 26)})


MODULES.update({"C24": "c24", "C27": "c27", "C28": "c28", "C29": "c29"})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    import vlib
    c = vlib.Check(a.prop, a.tier, a.seed)
    try:
        mod = __import__(MODULES[a.prop])
        getattr(mod, a.prop)(c)
        return c.finish()
    except Exception as x:
        traceback.print_exc()
        frames = [f.filename for f in traceback.extract_tb(x.__traceback__)]
        if isinstance(x, vlib.ScenarioError) or (frames and frames[-1].startswith(vlib.REPO + "/")):
            # raised by the code under test on the valid inputs a generator gave it
            c.viol.append((["valid_input_fails"], {"error": "%s: %s" % (type(x).__name__, x)}, {"trace": traceback.format_exc()[-1500:]}, "-"))
        if c.viol:
            return c.finish()
        c.scratch.close()
        return 2


if __name__ == "__main__":
    sys.exit(main())
