#!/usr/bin/env python3
"""Ways of writing the same thing (functions <name>_<n>) and things that only look alike (<name>_<n>_x): the first have
to be told equal, the second different.  usage: idioms.py [file...]   (development only, run by no check)"""
import os
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.program import Program
from sa.conform import Conformance
from sa.behave import diff
from sa.terms import show

files = sys.argv[1:] or sorted(os.path.join(os.path.dirname(os.path.abspath(__file__)), "idioms", f) for f in
                               os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "idioms")))
same = noise = missed = 0
for file in files:
    top = tempfile.mkdtemp()
    os.mkdir(top + "/dessia_common")
    open(top + "/dessia_common/__init__.py", "w").close()
    shutil.copy(file, top + "/dessia_common/m.py")
    p = Program(top)
    c = Conformance(p, p)
    groups = {}
    for q in p.funcs:
        m = re.match(r"(.*)_(\d+)(_x)?$", q)
        if m:
            groups.setdefault(m.group(1), []).append((q, c.behave(p, p.funcs[q], p.funcs[q].cls, ()), m.group(3)))
    for name, fs in groups.items():
        for q, b, x in fs[1:]:
            d = diff(b, fs[0][1], ("value", "attrs", "effects", "raises"))
            if bool(d) != bool(x):
                noise += bool(d)
                missed += not d
                print(q[16:], "DIFFERENT" if d else "SAME")
                for f, a, e in d if "-v" in os.environ.get("V", "") else []:
                    print("    ", f, show(a)[:600] if a is not None else None, "\n      |", show(e)[:600] if e is not None else None)
            else:
                same += 1
    shutil.rmtree(top)
print(same, "as expected,", noise, "told different,", missed, "told equal")
