#!/usr/bin/env python3
# addtech.py ID TECHNIQUE NOTE: sets an entry of techniques.json and regenerates the manifest
import json, sys, subprocess, os
d = os.path.dirname(os.path.abspath(__file__))
p = d + "/techniques.json"
m = json.load(open(p))
m[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(m, open(p, "w"), indent=1)
open(p, "a").write("\n")
subprocess.check_call(["python3", d + "/mkmanifest.py"])
