#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property (see DESIGN.md)."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import common, families

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    return families.check(prop)

def replay(prop, path):
    data = json.load(open(path))
    fam = families.FAMILIES[data["family"]]
    mm = fam.confirm(prop, data["script"])
    if mm:
        print(json.dumps(mm)[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("the replay does not fail")
    return 0

if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except common.CheckError as e:
        print("CHECK-ERROR:", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 3
    finally:
        common.cleanup()
    sys.exit(code)
