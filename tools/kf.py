"""records the fix commits of /repo in known_findings.json: tools/kf.py (subject -> property map below)"""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("num_str", "P06"), ("RemarksLabel", "P01"), ("ArithFormula writer", "P01"), ("double line", "P01"), ("Line without Style", "P03"),
       ("Law without Num", "P01"), ("AmendProvision writer", "P01"), ("Item or Subitem", "P01"), ("TableColumn writer", "P01"),
       ("SupplProvisionAppdxTable writer", "P02"), ("SupplProvisionAppdx writer", "P02"), ("RelatedArticleNum", "P01"), ("TOCPreambleLabel", "P01"),
       ("Article element without", "P04"), ("Sup and Sub", "P03"), ("comments before", "P03"), ("reject unknown", "P05")]
p = os.path.join(R, "known_findings.json")
k = json.load(open(p))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
extra = json.load(open(os.path.join(R, "tools", "kf_extra.json"))) if os.path.exists(os.path.join(R, "tools", "kf_extra.json")) else []
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        pr = next((b for a, b in [tuple(x) for x in extra] + MAP if a in s), None)
        assert pr, s
        out.append("fixed: property=%s %s %s" % (pr, h, s[5:]))
k["fixed"] = out
json.dump(k, open(p, "w"), ensure_ascii=False, indent=1)
