#!/usr/bin/env python3
"""replay.py FILE : rebuilds and replays one recorded execution, printing its trace."""
import sys,os,subprocess,re
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
import build as B; from plan import PLAN; import check
t=open(sys.argv[1]).read(); scen=re.search(r"^prop (\S+)",t,re.M).group(1); m=re.search(r"# backend (\S+)",t); b=m.group(1) if m else "boost"
p=[x for x in PLAN.values() if any(scen==s for s,_ in x["scenarios"])][0]
bins=B.build(p["files"],cov=p.get("cov",False),init=not p.get("raw",False),ginac=p.get("ginac",False)); r=subprocess.run([bins[b],"replay",sys.argv[1],"v"],env=check.ENV); print("exit",r.returncode); sys.exit(0 if r.returncode==0 else 1)
