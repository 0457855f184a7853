#!/opt/veriftools/pyvenv/bin/python3
"""Development tool: make, confirm and try planted bugs.

  plant.py make FILE.py...   FILE.py defines ID, PROPERTY, EDITS (list of
                             (path, old, new)), DEMO (python source), NEEDS,
                             BREAKS; writes /verif/seeded/ID and confirms it
  plant.py try ID... [--all] runs the property's quick check against it
  plant.py confirm ID...     demo passes without and fails with the patch

Everything happens in a scratch copy of /repo bind-mounted over /repo in a
private mount namespace; /repo itself is never touched.
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SEEDED = "/verif/seeded"
SCRATCH = "/tmp/plant"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def in_copy(bid, script, patch=True, timeout=900):
    """Run script with a copy of /repo (patched) in place of /repo."""
    d = "%s/%s-%d" % (SCRATCH, bid, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/evidence")
    sh("cp -a /repo %s/repo" % d)
    try:
        if patch:
            r = sh("git -C %s/repo apply %s/%s/patch.diff"
                   % (d, SEEDED, bid))
            if r.returncode:
                return r
        return sh("unshare -rm sh -c 'mount --bind %s/repo /repo && mount "
                  "--bind %s/evidence /verif/evidence && cd /repo && %s'"
                  % (d, d, script), timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(path):
    spec = importlib.util.spec_from_file_location("bug", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out = "%s/%s" % (SEEDED, m.ID)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/sim")
    d = "%s/make-%s" % (SCRATCH, m.ID)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    sh("cp -a /repo %s" % d)
    for f, old, new in m.EDITS:
        s = open(os.path.join(d, f)).read()
        if s.count(old) != 1:
            shutil.rmtree(d)
            return "%s: %d matches in %s for %r" % (m.ID, s.count(old), f,
                                                    old[:60])
        open(os.path.join(d, f), "w").write(s.replace(old, new))
    r = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE)
    open(out + "/patch.diff", "wb").write(r.stdout)
    shutil.rmtree(d)
    for f in ("__init__", "disk", "h5stub", "process", "py2", "rootstub",
              "plotstub", "world"):
        shutil.copy("/verif/sim/%s.py" % f, out + "/sim/")
    shutil.copy("/verif/tools/demolib.py", out)
    open(out + "/demo.py", "w").write(m.DEMO.lstrip())
    open(out + "/demo.sh", "w").write(
        "#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n"
        "exec /usr/local/bin/python3-vt \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": m.PROPERTY, "needs": m.NEEDS,
               "what_it_breaks": m.BREAKS}, open(out + "/meta.json", "w"),
              indent=1)
    return confirm(m.ID)


def confirm(bid):
    demo = "sh %s/%s/demo.sh" % (SEEDED, bid)
    a = sh(demo, cwd="/repo", timeout=300)
    if a.returncode:
        return "%s: demo fails on the clean tree\n%s" % (bid, a.stdout[-1500:])
    b = in_copy(bid, "bash /opt/vp/build.sh >/dev/null 2>&1 && bash "
                "/opt/vp/test.sh /tmp/plant/%s.json >/dev/null 2>&1; "
                "bash /opt/vp/build.sh >/dev/null 2>&1 || exit 77; "
                "%s; echo DEMO=$?" % (bid, demo))
    if b.returncode == 77:
        return "%s: does not build" % bid
    try:
        t = json.load(open("/tmp/plant/%s.json" % bid))
        npass = len(t["passed"])
    except Exception as e:
        npass = str(e)
    if "DEMO=0" in b.stdout or "DEMO=" not in b.stdout:
        return "%s: demo passes with the patch\n%s" % (bid, b.stdout[-1500:])
    return "%s: confirmed (tests passed: %s): %s" % (
        bid, npass, b.stdout.strip().splitlines()[-2][:150])


def attempt(bid, prop=None, seed=1):
    prop = prop or json.load(open("%s/%s/meta.json" % (SEEDED, bid))
                             )["property"]
    r = in_copy(bid, "cd /verif && VERIF_SEED=%s VERIF_TIER=quick python3-vt "
                "check.py %s --tier quick --workers 4" % (seed, prop))
    lines = r.stdout.strip().splitlines()
    hit = [x for x in lines if x.startswith("VIOLATION property=%s" % prop)]
    run = [x for x in lines if x.startswith("run ")]
    if hit and r.returncode == 1:
        return "%s: CAUGHT by %s: %s" % (bid, prop, (run or [""])[0][:160])
    return "%s: MISSED by %s (exit %d) %s" % (bid, prop, r.returncode,
                                              "\n".join(lines[-12:])
                                              if r.returncode else "")


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    opts = dict(a[2:].split("=") for a in args if "=" in a)
    args = [a for a in args if not a.startswith("--")]
    if "--all" in sys.argv:
        args = sorted(os.path.basename(d) for d in glob.glob(SEEDED + "/*"))
    fn = {"make": make, "confirm": confirm,
          "try": lambda b: attempt(b, opts.get("prop"),
                                   opts.get("seed", 1))}[mode]

    def safe(b):
        try:
            r = fn(b)
            if not isinstance(r, str):
                r = repr(r)
        except Exception as e:
            r = "%s: %r" % (b, e)
        print(r)
        sys.stdout.flush()
    with ThreadPoolExecutor(2 if mode == "try" else 4) as ex:
        list(ex.map(safe, args))


main()
