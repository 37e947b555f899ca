"""addfix.py fixed PROP SUBJECT-PREFIX WHAT | known PROP KEY WHAT"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "findings_extra.json")
d = json.load(open(p)); d[sys.argv[1]].append(sys.argv[2:5]); json.dump(d, open(p, "w"), indent=1)
