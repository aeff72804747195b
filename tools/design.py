"""Writes DESIGN.md from design_head.md, known_findings.json and the planted bugs (development only)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = """S05-frozen S09-both S11-cache E01-order4 E03-mesh E07-given E06-merge T03-inv44 T01-constrain T02-qfm-w
T03-arcdrag P05-uni X01-resume S05-maxstep S05-stop S05-mincoord S09-multi S09-laprot E01-far
P04-layers P05-touch P05-gapholes T01-normfort X02-default P04-bridgeout M01-odd X02-intgrid""".split()
out = open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip()+"\n\n"
for f in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]:
    f = f.replace("fixed: property=", "")
    a, b, t = f.split(" ", 2)
    out += "* %s (`%s`): %s\n" % (a, b, t)
out += open(os.path.join(HERE, "tools", "design_mid.md")).read().rstrip()+"\n\n"
out += "| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    cl = lambda t: " ".join(str(t).split()).replace("|", "\\|")
    out += "| %s%s | %s | %s | %s |\n" % (n, " *" if n in FIRST_MISSED else "", cl(m["what_it_breaks"]), cl(m["needs"]), m["property"])
open(os.path.join(HERE, "DESIGN.md"), "w").write(out)
