"""Writes a manifest that builds the daemon's main.rs as a library (tomllib reads, a small writer writes)."""
import json, os, sys, tomllib
src, dst = sys.argv[1], sys.argv[2]
base = os.path.dirname(os.path.abspath(src))
t = tomllib.load(open(src, "rb"))
p = t["package"]
def val(v):
    if isinstance(v, dict):
        return "{" + ", ".join(f"{json.dumps(k)} = {val(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(val(x) for x in v) + "]"
    if isinstance(v, bool):
        return "true" if v else "false"
    return json.dumps(v)
def fix(d):
    for k, v in d.items():
        if isinstance(v, dict) and "path" in v:
            v["path"] = os.path.normpath(os.path.join(base, v["path"]))
    return d
main = "src/main.rs"
for b in t.get("bin", []):
    main = b.get("path", main)
out = [f'[package]\nname = {val(p["name"])}\nversion = {val(p["version"])}\nedition = {val(p["edition"])}\npublish = false\n',
       f'[lib]\nname = {val(p["name"].replace("-", "_"))}\npath = {val(os.path.join(base, main))}\n']
out.append("[dependencies]")
for k, v in fix(t.get("dependencies", {})).items():
    out.append(f"{json.dumps(k)} = {val(v)}")
if t.get("features"):
    out.append("\n[features]")
    for k, v in t["features"].items():
        out.append(f"{json.dumps(k)} = {val(v)}")
text = "\n".join(out) + "\n"
if not os.path.exists(dst) or open(dst).read() != text:
    open(dst, "w").write(text)
