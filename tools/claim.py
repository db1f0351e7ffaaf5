#!/usr/bin/env python3
"""claim.py ID technique note  -- adds an entry of tools/claims.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.json")
d = json.load(open(p))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3], "level": "other"}
json.dump(d, open(p, "w"), indent=1)
