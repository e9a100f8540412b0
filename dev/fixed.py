"""development helper: fixed.py PROP "grep in commit subject" "what failed"   records a repair"""
import json, subprocess, sys
pid, g, what = sys.argv[1:]
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-F", "--grep=" + g], capture_output=True, text=True).stdout.split()[0]
d = json.load(open("known_findings.json"))
d["fixed"].append("fixed: property=%s %s %s" % (pid, h, what))
json.dump(d, open("known_findings.json", "w"), indent=1)
print(d["fixed"][-1])
