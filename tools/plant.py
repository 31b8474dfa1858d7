#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ (C++ files) or /verif/planted_c/<id>/ (C files, see DESIGN.md) from the specifications in tools/bugs/*.py and confirms them:
the patch applies to HEAD, removes only original lines, builds, passes the stable test, and the
demonstration passes without and fails with it. Run: plant.py [ID...]"""
import glob, json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "bad0a59"
NEED = "/tmp/plantwork"


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout, env=env)


def specs():
    out = {}
    for f in sorted(glob.glob(ROOT + "/tools/bugs/*.py")):
        ns = {"__file__": f}
        exec(compile(open(f).read(), f, "exec"), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def copy():
    shutil.rmtree(NEED, ignore_errors=True)
    sh(["cp", "-a", "/repo", NEED])


def original_lines_removed(diff, path_blame):
    """every removed line has to be a line of the base commit"""
    bad = []
    removed = 0
    cur, ln = None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            if cur not in path_blame:
                b = sh(["git", "blame", "-s", "-l", "HEAD", "--", cur], cwd="/repo").stdout.decode("latin1").splitlines()
                path_blame[cur] = [x.startswith("^") or in_base(x.split()[0]) for x in b]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if not path_blame[cur][ln - 1]:
                bad.append((cur, ln, l))
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return removed, bad


_b = {}


def in_base(c):
    c = c.lstrip("^")
    if c not in _b:
        _b[c] = sh(["git", "merge-base", "--is-ancestor", c, BASE], cwd="/repo").returncode == 0
    return _b[c]


def main():
    sp = specs()
    want = sys.argv[1:] or [i for i in sp if not glob.glob(ROOT + "/*/" + i + "/patch.diff")]
    copy()
    blame = {}
    for i in want:
        b = sp[i]
        sh("git checkout -q -- . && git clean -fdq src", cwd=NEED)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(NEED, f)
            s = open(p, encoding="latin1").read()
            n = s.count(old)
            k = b.get("nth", {}).get(old)
            if n != 1 and k is None:
                print(i, "EDIT matches %d times: %s in %s" % (n, old[:60], f))
                ok = False
                break
            if k is None:
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w", encoding="latin1").write(s)
        if not ok:
            continue
        diff = sh("git diff", cwd=NEED).stdout.decode("latin1")
        removed, bad = original_lines_removed(diff, blame)
        if bad or not removed:
            print(i, "not original lines:", removed, bad[:3])
            if not removed or len(bad) == removed:
                continue
        d = ROOT + ("/planted_c/" if re.search(r"^\+\+\+ .*\.[ch]$", diff, re.M) else "/seeded/") + i
        tmp = tempfile.mkdtemp(prefix="seed")
        shutil.copy(ROOT + "/tools/demo/wr.py", tmp)
        open(tmp + "/demo.py", "w").write(b["demo"])
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
        env = dict(os.environ)
        # the demonstration and the tests work in /repo: apply there, undo straight afterwards
        r0 = sh(["bash", tmp + "/demo.sh"], cwd="/repo", timeout=300)
        if r0.returncode != 0:
            print(i, "DEMO FAILS ON UNCHANGED TREE\n", r0.stdout.decode("latin1")[-1500:])
            continue
        open(tmp + "/patch.diff", "w", encoding="latin1").write(diff)
        a = sh(["git", "apply", tmp + "/patch.diff"], cwd="/repo")
        if a.returncode:
            print(i, "does not apply", a.stdout)
            continue
        try:
            t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant_out.json", cwd="/repo")
            passed = "PASS" in open("/repo/build/vp-test/results.txt").read() if t.returncode == 0 else False
            r1 = sh(["bash", tmp + "/demo.sh"], cwd="/repo", timeout=300)
        finally:
            sh("git checkout -q -- .", cwd="/repo")
        if t.returncode or not passed:
            print(i, "BUILD OR TESTS FAIL\n", t.stdout.decode("latin1")[-1500:])
            continue
        if r1.returncode == 0:
            print(i, "DEMO DOES NOT FAIL\n", r1.stdout.decode("latin1")[-1500:])
            continue
        if r1.returncode == 3:
            print(i, "demo does not compile", r1.stdout.decode("latin1")[-1500:])
            continue
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(tmp + "/meta.json", "w"), indent=1)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copytree(tmp, d)
        shutil.rmtree(tmp)
        print(i, "ok:", r1.stdout.decode("latin1").strip().replace("\n", " | ")[:200])
    sh("bash /opt/vp/build.sh", cwd="/repo")
    shutil.rmtree(NEED, ignore_errors=True)


main()
