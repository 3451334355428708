import argparse, importlib, os, signal, sys, time, traceback
from . import facts
from .facts import AnalysisError
from .report import Report


LIMIT = 820        # seconds; a check that is not done by then reports what it has


class OutOfTime(Exception):
    pass


def alarm(sig, frame):
    raise OutOfTime()


def main():
    t0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    try:
        from .program import Program
        if a.props == ["setup"]:
            facts.extract(True)
            return 0
        P = Program()
    except AnalysisError as e:
        print("ANALYSIS-ERROR: %s" % e)
        return 3
    rc = 0
    for p in a.props:
        R = Report(p, a.tier)
        try:
            try:
                mod = importlib.import_module("amgcheck.rules." + p.lower())
                if len(a.props) == 1:
                    signal.signal(signal.SIGALRM, alarm)
                    signal.alarm(max(30, int(LIMIT - (time.time() - t0))))
                mod.run(P, R)
            except OutOfTime:
                R.lost = []
                R.assume.append("the analysis was stopped after %d seconds: the part of the code not reached by then is not covered" % (time.time() - t0))
                print("%s: stopped after %d seconds" % (p, time.time() - t0))
            except Exception as e:
                # what has been found before stays found
                if not R.found():
                    raise
                traceback.print_exc()
            finally:
                signal.alarm(0)
            rc = max(rc, R.finish(P))
        except AnalysisError as e:
            print("ANALYSIS-ERROR: property=%s %s" % (p, e))
            rc = 3
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-ERROR: property=%s internal error" % p)
            rc = 3
    return rc


sys.exit(main())
