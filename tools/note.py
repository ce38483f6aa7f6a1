"""note.py Cxx TECHNIQUE LEVEL_NOTE : claim a property in tools/notes.json and regenerate."""
import json, sys, subprocess, os
d = os.path.dirname(os.path.abspath(__file__))
n = json.load(open(d + "/notes.json"))
n[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
n.pop("na:" + sys.argv[1], None)
json.dump(n, open(d + "/notes.json", "w"), indent=1)
for t in ("mkprops", "mkmanifest"):
    subprocess.check_call(["python3", d + "/%s.py" % t], cwd=os.path.dirname(d))
