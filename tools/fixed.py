"""usage: fixed.py PROPERTY <<< 'commit text' lines: append fixed: entries"""
import sys
with open("/verif/known_findings.txt", "a") as f:
    for l in sys.stdin:
        if l.strip():
            c, t = l.strip().split(" ", 1)
            f.write("fixed: property=%s %s %s\n" % (sys.argv[1], c, t))
