#!/opt/venv/bin/python
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # A fixed hash seed: one less source of nondeterminism
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
    from mc.runner import main
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
