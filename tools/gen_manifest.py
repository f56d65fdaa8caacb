"""Writes MANIFEST.json from properties.jsonl and the check modules.  Run: /opt/venv/bin/python tools/gen_manifest.py"""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
PY = "/opt/venv/bin/python"
NA = {}
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    f = V / "checks" / f"{p['id']}.py"
    if not f.exists():
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
        continue
    m = importlib.import_module(f"checks.{p['id']}")
    checks.append(dict(
        property=p["id"], quick_cmd=f"{PY} -m mc {p['id']}", thorough_cmd=f"{PY} -m mc {p['id']} --tier thorough",
        technique=getattr(m, "TECHNIQUE", "stateless model checking: exhaustive bounded enumeration of operation histories and inputs, executed on the real code in lock step with an independent reference model"),
        level=m.LEVEL,
        level_note=f"Complete within the stated bound. Quick: {m.BOUNDS['quick']}. Thorough: {m.BOUNDS['thorough']}. Assumes: {'; '.join(m.ASSUME)}. Trusts the reference model in /verif/mc and the runner; PyTorch/NumPy primitives are trusted."))
json.dump(dict(version=1, setup_cmd=f"PYTHONHASHSEED=0 {PY} -c \"import mc.core, mc.env; mc.env.setup(); import dhg\"", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check drives the public API of the real code in /repo's working tree. See DESIGN.md."), open(V / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
