"""KNOWN_FINDINGS.txt from the fix commits of /repo and the property each concerns."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.split() for l in """5c4b8a7 B01
f74eeff B06
07e0343 B06
93b1890 B05
581d506 B06
ec73cad B06
1cc6a0d B05
1d4cd89 T01
d023c71 T01
8213dfd B03
65af95e B02
412c44c D07
e3b5cd6 D07
58dd16c T02
1b4cf38 D08
5d36391 D03
2416735 D07
0e53815 D02
b22eeb7 D02
24757b2 D02
2c28885 D07
0bf676f D04
a1c8d34 M01
b821a13 D01
9423930 D01
0d0b0b9 D07
a4ecd01 D01
b3d8f62 D09
bf8849e D06
03c0d18 D10
48868e7 M01
896498e K01
d8b19da K04
f25ae9f K01
f0e6e97 K02
4fd2fed K06
fbfed92 K05
5d0eb5e K05
d73434f K08
454b9ac K08
218218d K01
1657d6e K01
6dc866b K03
4829beb K04
ac38652 K08
ad73c8d M01
19f608f K07
83766d8 K08
e6da701 K08""".splitlines())
extra = os.path.join(ROOT, "tools", "findings_more.txt")   # "hash property" lines for later commits
if os.path.exists(extra):
    for l in open(extra):
        if l.strip():
            k, v = l.split()
            PROP[k] = v
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "bad0a59..HEAD"], text=True)
out = ["# Known findings (open) and repaired defects. Format:",
       "#   known: property=<id> <what fails>            (printed as KNOWN-FINDING, suppresses exactly that)",
       "#   fixed: property=<id> <commit> <what failed>  (suppresses nothing)",
       "# No finding is open: every defect found was repaired."]
for l in log.splitlines():
    hsh, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    if hsh not in PROP:
        raise SystemExit("no property for %s %s" % (hsh, s))
    out.append("fixed: property=%s %s %s" % (PROP[hsh], hsh, s[4:].strip()))
open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), "w").write("\n".join(out) + "\n")
print(len(out) - 4, "fixes")
