"""python check.py <property> [--tier quick|thorough] : decides one property."""
import os, sys, traceback, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
import core


def main():
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = core.Check(prop, tier, seed)
    os.environ["MPLCONFIGDIR"] = c.scratch
    try:
        try:
            import checks
            fn = checks.CHECKS[prop]
        except Exception:
            # the code under test cannot even be imported
            c.simple_violation("hftools cannot be imported", traceback.format_exc())
            sys.exit(c.finish())
        fn(c)
    except core.MachineryError as e:
        print("machinery error: %s" % e)
        import shutil
        shutil.rmtree(c.scratch, ignore_errors=True)
        sys.exit(2)
    sys.exit(c.finish())


if __name__ == "__main__":
    main()
