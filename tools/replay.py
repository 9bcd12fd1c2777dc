#!/usr/bin/env python3
"""replay.py FILE -- run the failing cases of a replay file (evidence/replay/P..json) again,
on /repo's working tree, and show what the library does with each."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build_harness


def main():
    r = json.load(open(sys.argv[1]))
    exe = build_harness()
    with tempfile.TemporaryDirectory() as d:
        for n, f in enumerate(r["first"]):
            print(f"== {f.get('id')}\n   reported: {f.get('what')}: {str(f.get('detail'))[:600]}")
            p = os.path.join(d, f"case{n}")
            if "xml" in f:
                open(p, "w").write(f["xml"]); cmd = ["one", p]
            elif "text" in f:
                open(p, "w").write("\n".join(f["text"])); cmd = ["onetext", p]
            elif f.get("what") == "trace":
                open(p, "w").write("\n".join(f["case"]["lines"])); cmd = ["onetext", p]
            elif f.get("case") and f.get("args"):
                open(p, "w").write(json.dumps(f["case"]) + "\n")
                cmd = [p if a == "{cases}" else a for a in f["args"]]
                # (files are made in a scratch folder of this run)
                if cmd[0] == "files": cmd[-1] = os.path.join(d, "fs")
                rep = os.path.join(d, "report")
                out = subprocess.run([exe] + cmd + [rep], capture_output=True, text=True)
                if out.returncode: print("   harness:", out.returncode, out.stderr[-300:]); continue
                j = json.load(open(rep))
                print("   case:", json.dumps(f["case"], ensure_ascii=False)[:1500])
                for g in j["fails"]: print(f"   now: {g['what']}: {g['detail'][:600]}")
                if not j["fails"]: print("   now: holds")
                continue
            else:
                print("   (cannot be run again by itself)"); continue
            out = subprocess.run([exe] + cmd, capture_output=True, text=True)
            print("   input:", open(p).read()[:1500]); print("   now:", out.stdout[-1500:])


main()
