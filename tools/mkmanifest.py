"""regenerate MANIFEST.json from properties.jsonl and the property modules that exist"""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the real openconcept code on symbolic arrays (numpy/scipy.sparse swapped in the module globals), "
        "normal-form residuals and path conditions decided by z3 over all real inputs; counterexamples replayed on the real code")
NOTE = {}
NA = {}


def main():
    checks, na = [], []
    for l in open(os.path.join(H, "properties.jsonl")):
        p = json.loads(l)
        pid = p["id"]
        if os.path.exists(os.path.join(H, "props", pid.lower() + ".py")) and pid not in NA:
            checks.append(dict(property=pid, quick_cmd="./check.py %s --tier quick" % pid,
                               thorough_cmd="./check.py %s --tier thorough" % pid, technique=TECH, level="other",
                               level_note=NOTE.get(pid, "solver verdict over all real input values of the stated domains, for the stated "
                                                        "sizes, options and branches (bounds in the evidence file); rounding "
                                                        "error of floating-point arithmetic is not modelled")))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"),
              indent=1)


main()
