"""Worker process: executes harness tasks, writing one line per event list."""
import faulthandler
import importlib
import json
import sys
import os
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402,F401

faulthandler.enable()
PKG = os.path.join(os.path.realpath(env.REPO), "smote_variants") + os.sep


def main():
    module, func, inp, out = sys.argv[1:5]
    mod = importlib.import_module(module)
    fn = getattr(mod, func)
    with open(inp) as f:
        tasks = json.load(f)
    with open(out, "w") as f:
        for i, t in tasks:
            f.write(json.dumps({"start": i}) + "\n")
            f.flush()
            try:
                ev = fn(t)
            except Exception as e:  # noqa
                frames = [fr.filename for fr in traceback.extract_tb(e.__traceback__)]
                if not any(os.path.realpath(fr).startswith(PKG) for fr in frames):
                    raise
                ev = {"unobservable": traceback.format_exc()[-1200:]}
            f.write(json.dumps({"i": i, "ev": ev}) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
