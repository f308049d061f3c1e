import importlib
import sys
import traceback

pid = sys.argv.pop(1)
try:
    from harness import core
    mod = importlib.import_module("checks." + pid.lower())
except BaseException:  # the package under test does not even import
    traceback.print_exc()
    import json, os, time
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.makedirs(d + "/replays", exist_ok=True)
    p = f"{d}/replays/{pid}-import.json"
    json.dump({"property": pid, "message": traceback.format_exc()}, open(p, "w"))
    print(f"VIOLATION property={pid} replay={p}")
    sys.exit(1)
sys.exit(core.main(mod))
