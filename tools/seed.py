#!/usr/bin/env python3
"""seed.py ID [CHECK...]: validates seeded/<ID> in a scratch copy of /repo and
runs the named checks (default: the property's) of /verif against the copy."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, **kw):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout

def main():
    sid = sys.argv[1]
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = [a for a in sys.argv[2:] if not a.startswith("-")] or [meta["property"]]
    w = tempfile.mkdtemp(prefix="seedwt")
    repo = os.path.join(w, "repo")
    ok = True
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        dd = os.path.join(w, "demo")
        shutil.copytree(d, dd)
        for f in os.listdir(dd):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.unlink(os.path.join(dd, f))
        if "-nodemo" not in sys.argv:
            rc, out = sh("bash %s/demo.sh" % dd, repo)
            print("demo unpatched rc=%d" % rc)
            if rc != 0:
                ok = False
                print(out[-3000:])
        rc, out = sh("git apply %s/patch.diff" % d, repo)
        if rc != 0:
            print("APPLY FAILED", out)
            return 1
        if "-nodemo" not in sys.argv:
            rc, out = sh("bash %s/demo.sh" % dd, repo)
            print("demo patched rc=%d" % rc)
            if rc == 0:
                ok = False
            print(out[-700:])
        if "-notest" not in sys.argv:
            rc, out = sh("sed s#/repo#%s#g /opt/vp/test.sh > %s/test.sh; sed -i 's#/opt/vp/env.sh#%s/env.sh#' %s/test.sh; sed s#/repo#%s#g /opt/vp/env.sh > %s/env.sh; bash %s/test.sh %s/out.json" % (repo, w, w, w, repo, w, w, w), repo)
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = json.load(open(w + "/out.json"))
            got = set(res.get("passed", res.get("pass", [])))
            bad = sorted(base - got)
            print("stable tests failing: %d %s" % (len(bad), bad[:4]))
            ok = ok and not bad
        if "-nocheck" not in sys.argv:
            env = dict(os.environ, GOSX_REPO=repo, GOSX_VERIF=V, VERIF_SEED="1", VERIF_TIER="quick", GOSX_EVID=w)
            for c in checks:
                rc, out = sh("/tmp/gosx check %s" % c, V, env=env)
                print("check %s rc=%d" % (c, rc))
                hs = sorted(set(l.split()[0] for l in out.splitlines() if l.startswith("SV_") and " violated " in l))
                if c == meta["property"]:
                    cf = os.path.join(V, "tools", "caught.json")
                    m = json.load(open(cf)) if os.path.exists(cf) else {}
                    m[sid] = c + ": " + ", ".join(hs) if rc == 1 else "not caught"
                    json.dump(m, open(cf, "w"), indent=1, sort_keys=True)
                print("\n".join(l for l in out.splitlines() if "VIOLATION" in l or "violat" in l.lower() or rc == 2)[:1500])
    finally:
        shutil.rmtree(w)
    return 0 if ok else 1

sys.exit(main())
