"""development helper: known.py PROP "what" KEYPREFIX...  moves current violations whose key starts with a prefix into known_findings.json"""
import json, sys
pid, what, pre = sys.argv[1], sys.argv[2], sys.argv[3:]
d = json.load(open("known_findings.json"))
v = json.load(open("evidence/%s-violations.json" % pid))
for x in v:
    if any(x["obligation"].startswith(p) for p in pre):
        d["findings"] = [f for f in d["findings"] if not (f["property"] == pid and f["key"] == x["obligation"])]
        d["findings"].append({"property": pid, "key": x["obligation"], "sig": x["sig"], "where": x["where"], "what": what + " [" + x["obligation"] + "]"})
json.dump(d, open("known_findings.json", "w"), indent=1)
