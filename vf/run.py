import importlib
import json
import os
import signal
import sys


def usual_signals():
    """Signals are handled the usual way whatever this was started from (a shell ignores
    SIGINT and SIGQUIT in what it starts in the background, and that is inherited)."""
    for s in signal.valid_signals() - {signal.SIGPIPE, signal.SIGXFSZ}:
        if signal.getsignal(s) == signal.SIG_IGN:
            signal.signal(s, signal.default_int_handler if s == signal.SIGINT
                          else signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, ())


def main():
    usual_signals()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vf import core

    pid = sys.argv[1]
    mod = importlib.import_module("vf.checks." + pid.lower())
    replay = None
    if sys.argv[2:] == ["thorough"]:
        os.environ["VERIF_TIER"] = "thorough"
    elif len(sys.argv) > 2:
        r = json.load(open(sys.argv[2]))
        os.environ["VERIF_SEED"] = str(r["seed"])
        os.environ["VERIF_TIER"] = r["tier"]
        replay = r["case"]
    sys.exit(core.Check(mod).main(replay))


if __name__ == "__main__":
    main()
