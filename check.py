#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo's current source by static analysis."""
import sys, os, time, importlib, threading, faulthandler, signal
faulthandler.register(signal.SIGUSR1)
# the same run every time
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine")); sys.path.insert(0, VERIF)
sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import env as E
    m = importlib.import_module("checks." + pid.lower())
    try: e = E.Env(pid, tier)
    except Exception as x:
        print("cannot analyse the source: %s" % x); return 2
    m.run(e)
    return E.finish(e, t0, seed, m.META)
rc = [2]
def wrap():
    try: rc[0] = main()
    except SystemExit as e: rc[0] = e.code
    except BaseException:
        import traceback; traceback.print_exc()
t = threading.Thread(target=wrap); t.start(); t.join()
sys.stdout.flush()
os._exit(rc[0])
