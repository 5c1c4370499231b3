"""
Development tool (not a check): applies planted bugs to /repo one after another, runs the
repository's tests, the demonstration and the property's check, and undoes the change.
usage: seedcheck.py [--table] [id ...]
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    root = os.path.join(HERE, "seeded")
    if "--table" in sys.argv:
        print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
        for i in sorted(os.listdir(root)):
            m = json.load(open(os.path.join(root, i, "meta.json")))
            print("| {} | {} | {} | {} |".format(i, m["property"], m["needs"], m["property"] + " (quick)"))
        return
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in sorted(args or os.listdir(root)):
        d = os.path.join(root, i)
        p = json.load(open(os.path.join(d, "meta.json")))["property"]
        out = []
        if sh("cd /repo && bash %s/demo.sh" % d).returncode:
            out.append("demo fails on the unchanged tree")
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, p, "does not apply", r.stderr)
            continue
        try:
            sh("bash /opt/vp/test.sh /tmp/seedcheck.json")
            f = stable - set(json.load(open("/tmp/seedcheck.json"))["passed"])
            if f:
                out.append("tests fail: %s" % sorted(f)[:3])
            if not sh("cd /repo && bash %s/demo.sh" % d).returncode:
                out.append("demo passes with the change")
            r = sh("cd %s && bash run.sh %s" % (HERE, p))
            ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
            print(i, p, "CAUGHT" if ok else "MISSED", out or "valid", flush=True)
        finally:
            sh("git -C /repo checkout -- .")


main()
