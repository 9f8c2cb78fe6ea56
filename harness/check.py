"""usage: check.py <property> [quick|thorough]"""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import lib

    chk = lib.Check(prop, tier)
    try:
        import props
    except Exception as e:  # the code under test cannot even be imported
        import traceback

        chk.violation(f"salabim cannot be used: {type(e).__name__}: {e}", {"traceback": traceback.format_exc()})
        return chk.finish()
    try:
        props.PROPS[prop](chk, tier)
    except Exception:  # an error of the machinery itself
        import traceback

        traceback.print_exc()
        lib.cleanup()
        if chk.violations:
            return 1
        return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
