#!/usr/bin/env python3
"""builds the runtime and harnesses once (checks rebuild what changed)"""
import os, sys, concurrent.futures as cf
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build, props
seen=set()
with cf.ThreadPoolExecutor(8) as p:
    for prop,e in sorted(props.ENGINES.items()):
        k=getattr(e,"key",prop)
        if k in seen: continue
        seen.add(k); e(p)
print("setup done")
