"""mk.py ID host|cross key=value...: writes demo.sh (and rt.rs) of a planted bug."""
import os, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
i, kind = sys.argv[1:3]
d = os.path.join(here, "..", "..", "seeded", i)
os.makedirs(d, exist_ok=True)
kv = {"FLAGS": "", "FEAT": "", "DEPS": "", "MCPU": "--mattr=", "SEEDS": "24", "MF": "", "PANIC": "unwind", "TC": "1.99.1", "TARGET": "x86_64-unknown-linux-gnu", "RUN": ""}
kv.update(a.split("=", 1) for a in sys.argv[3:])
s = open(os.path.join(here, kind + ".sh")).read()
for k, v in kv.items():
    s = s.replace("@" + k + "@", v)
open(os.path.join(d, "demo.sh"), "w").write(s)
os.chmod(os.path.join(d, "demo.sh"), 0o755)
if kind in ("cross", "exec"):
    shutil.copy(os.path.join(here, "rt.rs"), d)
