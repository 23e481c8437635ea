#!/usr/bin/env python3
"""Offline set-up: nothing is installed; verifies that the tools the checks use are present and parses the specifications."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jar = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for exe in (["java", "-version"], ["clang++-18", "--version"]):
    try:
        subprocess.run(exe, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
    except Exception as e:
        print("missing", exe, e); bad = 1
for f in sorted(glob.glob(V + "/specs/*.tla")):
    p = subprocess.run(["java", "-cp", jar, "tla2sany.SANY", os.path.basename(f)], cwd=V + "/specs", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and "error" not in p.stdout.lower().replace("no errors", "")
    print(("ok  " if ok else "BAD ") + os.path.basename(f))
    if not ok:
        print(p.stdout[-1500:]); bad = 1
sys.exit(bad)
