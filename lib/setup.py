"""setup: check that the tools are there and that every specification parses"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
for t in ("java", "cmake", "ninja", "gcc"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode: sys.exit("missing tool " + t)
specs = sorted(f for f in os.listdir(vf.SPECS) if f.endswith(".tla"))
for f in specs:
    p = subprocess.run(["java", "-cp", vf.TLAJARS, "tla2sany.SANY", f], cwd=vf.SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: sys.exit("%s does not parse:\n%s" % (f, p.stdout.decode()[-2000:]))
print("%d specifications parse" % len(specs))
