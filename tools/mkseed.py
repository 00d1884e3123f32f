"""mkseed.py ID PROPERTY FILE: make seeded/ID/patch.diff from edits (python snippet on stdin: list of (old, new)), in a scratch clone."""
import json, subprocess, sys, pathlib
sid, prop, needs, breaks = sys.argv[1:5]
spec = {}
exec(sys.stdin.read(), spec)
wt = pathlib.Path("/tmp/wt/repo")
subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
subprocess.run(["git", "-C", wt, "pull", "-q"], check=True)
for f, old, new in spec["EDITS"]:
    p = wt / f
    s = p.read_text()
    assert s.count(old) == 1, (f, s.count(old), old)
    p.write_text(s.replace(old, new))
d = pathlib.Path(__file__).resolve().parent.parent / "seeded" / sid
d.mkdir(parents=True, exist_ok=True)
(d / "patch.diff").write_bytes(subprocess.run(["git", "-C", wt, "diff"], check=True, capture_output=True).stdout)
(d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
print(sid, "written")
