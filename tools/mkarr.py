"""Writes spec/ArrSig.tla: the parameters the documentation (annotations) of each function allows to be arrays.
Run once, on the base tree; the table is part of the specification."""
import importlib, inspect, re, sys
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
src = open("spec/Sigs.tla").read()
rows = []
for m in re.finditer(r'<<"(\w+)", "(deltares[\w.]+)">>', src):
    mod = importlib.import_module(m[2])
    for n, f in inspect.getmembers(mod, inspect.isfunction):
        if f.__module__ != m[2]:
            continue
        ps = [p for p, q in inspect.signature(f).parameters.items() if "NDArray" in str(q.annotation) or "ndarray" in str(q.annotation)]
        if ps:
            rows.append('  <<"%s", "%s", {%s}>>' % (m[1], n, ", ".join('"%s"' % p for p in ps)))
with open("spec/ArrSig.tla", "w") as fh:
    fh.write("------------------------------- MODULE ArrSig -------------------------------\n"
             "(* the parameters that may be arrays, by module and function *)\n\nArrTable == <<\n" + ",\n".join(rows) + " >>\n" + "=" * 77 + "\n")
