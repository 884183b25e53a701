"""Writes MANIFEST.json from the scenarios present in props/ and the properties of properties.jsonl."""
import json, os, importlib.util, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.dont_write_bytecode = True
NA = {
 'C33': "The digits are drawn by Pillow's compiled text rasteriser (FreeType); the repository code around it only forwards the number, so there is "
        "no Python or graph code whose symbolic execution would say anything about which pixels show which digit.",
 'C34': "A statement about how good a locally convergent heuristic gets after hundreds of iterations on particular targets; it is not a universally "
        "quantified fact about the code (there are inputs where it fails), so there is no assertion for a solver to decide.",
 'C35': "Accumulated rounding over million-element FFTs is outside what bit-precise floating-point solving can encode; real-arithmetic obligations "
        "(all other properties) say nothing about it and only small kernels (C09, C13) are decided in floating point.",
}
checks = []
for l in open(os.path.join(R, 'properties.jsonl')):
    d = json.loads(l)
    pid = d['id']
    p = os.path.join(R, 'props', pid + '.py')
    if pid in NA or not os.path.exists(p):
        continue
    spec = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    note = "Bounded symbolic execution of the library's real functions and TensorFlow graphs, every assertion decided by z3 for all values of the symbolic inputs. Bounds: " + m.BOUNDS
    if getattr(m, 'OUTSIDE', ''):
        note += " Outside: " + m.OUTSIDE
    if getattr(m, 'FPNOTE', ''):
        note += " " + m.FPNOTE
    else:
        note += ". Values are exact reals, not rounded floats."
    checks.append(dict(property=pid, quick_cmd="python3 engine/check.py %s --tier quick" % pid,
                       thorough_cmd="python3 engine/check.py %s --tier thorough" % pid,
                       technique=getattr(m, 'TECHNIQUE', "symbolic execution of the library code + z3 (SMT, nonlinear real arithmetic), counterexamples replayed on the library"),
                       level=getattr(m, 'LEVEL', 'other'), level_note=note))
na = [dict(property=k, reason=v) for k, v in NA.items()]
have = set(c['property'] for c in checks) | set(NA)
for l in open(os.path.join(R, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid not in have:
        na.append(dict(property=pid, reason="not claimed yet: the scenario for this property is still being built"))
man = dict(version=1, setup_cmd="python3 engine/setup_check.py", checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
