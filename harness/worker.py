"""Executes cases of one suite against the real code, one NDJSON event per line."""
import sys
sys.dont_write_bytecode = True
import importlib, json, signal, traceback, warnings
warnings.filterwarnings("ignore")


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def main():
    suite, fin, fout = sys.argv[1:4]
    cases = json.load(open(fin))
    mod = importlib.import_module(f"suites.{suite}")
    import pyvista as pv, vtk
    vtk.vtkObject.GlobalWarningDisplayOff()
    from harness import omit
    omit.install()
    signal.signal(signal.SIGALRM, _alarm)
    late = 0
    with open(fout, "w") as f:
        for c in cases:
            f.write(json.dumps({"start": c["case"]}) + "\n")
            f.flush()
            omit.RNG.seed(c["case"])
            signal.alarm(90)
            try:
                evs = mod.SUITE.run(c)
            except CaseTimeout:
                late += 1
                evs = [dict(ev="crash", why="timeout")]
            except Exception as e:  # projection failed: the output has not even the expected shape
                evs = [dict(ev="crash", why="".join(traceback.format_exception(e))[-600:])]
            finally:
                signal.alarm(0)
            for s, e in enumerate(evs):
                e["case"], e["seq"] = c["case"], s + 1
                f.write(json.dumps(e) + "\n")
            f.write(json.dumps({"end": c["case"]}) + "\n")
            f.flush()
            if late >= 2:      # the code under test hangs; that is decided, do not wait for more of it
                f.write(json.dumps({"abort": 1}) + "\n")
                break


main()
