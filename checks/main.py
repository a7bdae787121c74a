import importlib, os, sys


def main():
    sys.setrecursionlimit(20000)
    pid = sys.argv[1].upper()
    if len(sys.argv) > 2 and sys.argv[2] == "thorough":
        os.environ["VERIF_TIER"] = "thorough"
    m = importlib.import_module("checks." + pid.lower())
    from vlib.dump import AnalysisError
    try:
        chk = m.run()
    except AnalysisError as e:
        # a construct the whole analysis starts from is not there in the form it knows: nothing is decided
        from vlib.report import Check
        if getattr(e, "build", False):
            print("the tree does not build: %s" % e)
            sys.stdout.flush()
            os._exit(2)
        chk = Check(pid, "the analysis could not start", level="other")
        chk.undecided("start", "", str(e))
    rc = chk.finish()
    sys.stdout.flush()
    os._exit(rc)


main()
