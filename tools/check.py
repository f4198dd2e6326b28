#!/usr/bin/env python3
"""check.py PROP [quick|thorough] : rebuild what the property needs from /repo and run its exploration.
exit 0 property held on everything explored; 1 with a VIOLATION line otherwise; 2 infrastructure failure."""
import os, sys, subprocess, json, concurrent.futures as cf, time
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import build
from props import ENGINES
VERIF=build.VERIF
def main():
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    extra=sys.argv[3:]
    os.environ["VERIF_TIER"]=tier
    for d in ("evidence","out","build"): os.makedirs(os.path.join(VERIF,d),exist_ok=True)
    with cf.ThreadPoolExecutor(8) as p:
        try: cmd=ENGINES[prop](p)
        except build.BuildError as e: print("BUILD FAILED\n"+str(e)); return 2
    ev=os.path.join(VERIF,"evidence",prop+".json")
    if os.path.exists(ev): os.remove(ev)
    env=dict(os.environ,MC_OUT=os.path.join(VERIF,"out"),MC_EVIDENCE=ev,MC_BUILD=build.BUILD)
    r=subprocess.run(cmd+extra,env=env)
    rc=r.returncode
    kf=os.path.join(VERIF,"known-findings.txt")
    if rc==0 and os.path.exists(kf):
        for l in open(kf):
            if l.startswith("known: property=%s "%prop): print("KNOWN-FINDING: "+l[len("known: "):].strip())
    return rc if rc in (0,1) else 2
sys.exit(main())
