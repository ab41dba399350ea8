import sys, os, argparse, importlib, traceback


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=None, choices=["quick", "thorough"])
    p.add_argument("--replay")
    a = p.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    from mc import core
    try:
        import importlib.util
        mod = importlib.import_module("mc.props." + a.property.lower())
    except Exception:
        # the code under test does not even import, or the check is broken
        traceback.print_exc()
        return 2
    try:
        return core.main_check(mod, tier, a.replay)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
