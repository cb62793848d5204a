"""Regenerate known_findings.json: the fixed entries from the "fix:" commits of the repository, the known ones from KNOWN."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = json.load(open(os.path.join(VERIF, "lib", "known.json")))
PROP = json.load(open(os.path.join(VERIF, "lib", "fixed.json")))
out = [dict(f, status="known") for f in KNOWN]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, _, t = l.partition(" ")
    if not t.startswith("fix:"):
        continue
    t = t[4:].strip()
    pid = PROP.get(t)
    if not pid:
        print("no property for: " + t)
        continue
    out.append({"status": "fixed", "property": pid, "commit": h, "what": "fixed: property=%s %s %s" % (pid, h, t)})
with open(os.path.join(VERIF, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
