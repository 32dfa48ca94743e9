#!/opt/venv/bin/python
"""Write data/rcps.json: fingerprints of the values of the shipped files."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import boot
boot.set_environment()
boot.ensure_hypothesis()
boot.import_code_under_test()
from checks import c32
with open(c32.REFERENCE, "w") as h:
    json.dump(c32.fingerprints(c32.shipped()), h, indent=0, sort_keys=True)
