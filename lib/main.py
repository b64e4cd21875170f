import importlib, sys, traceback, subprocess
import vc
def main():
    pid = sys.argv[1]
    m = importlib.import_module(pid.lower())
    c = vc.Check(pid, getattr(m, "LEVEL", "model_checking"))
    try:
        m.run(c)
    except (vc.ModelError, subprocess.TimeoutExpired) as e:
        print("ERROR of the check (no verdict): %s" % e)
        if not c.nviol: sys.exit(3)   # what was found stands
    except SystemExit as e:
        if e.code in (0, 1, None): raise
        print("ERROR: %s" % e.code); sys.exit(3)
    except Exception:
        traceback.print_exc()
        if not c.nviol: sys.exit(3)
    c.finish()
main()
