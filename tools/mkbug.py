"""mkbug.mk(id, property, needs, breaks, [(file, old, new)], main): writes seeded/<id>/ from /repo's HEAD."""
import json, os, subprocess, shutil, tempfile
V = "/verif/seeded"
HERE = os.path.dirname(os.path.abspath(__file__))
HEAD = '#include <cstdio>\n#include <vector>\n#include <string>\n#include <cstdint>\n#include <cstring>\nusing namespace CEX;\ntypedef std::vector<uint8_t> Bytes;\nstatic Bytes seq(size_t n, int a = 1, int b = 7) { Bytes v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(a + b * i + (i >> 8)); return v; }\n'
def mk(bid, prop, needs, breaks, subs, includes, body, nth=None):
    d = f"{V}/{bid}"; os.makedirs(d, exist_ok=True)
    diff = ""
    with tempfile.TemporaryDirectory() as t:
        files = {}
        for f, a, b in subs:
            s = files.get(f) or subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{f}"], capture_output=True, check=True).stdout.decode("utf8", "surrogateescape")
            nl = "\r\n" in s
            if nl: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            if nth is None:
                assert s.count(a) == 1, (bid, f, a, s.count(a))
                s = s.replace(a, b)
            else:
                p = s.split(a); assert len(p) > nth + 1, (bid, len(p))
                s = a.join(p[:nth + 1]) + b + a.join(p[nth + 1:])
            files[f] = s
        for f, s in files.items():
            for side, c in (("a", None), ("b", s)):
                p = f"{t}/{side}/{f}"; os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "wb").write(subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{f}"], capture_output=True).stdout if c is None else c.encode("utf8", "surrogateescape"))
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{f}", f"b/{f}"], cwd=t, capture_output=True).stdout
            diff += r.decode("utf8", "surrogateescape")
    open(f"{d}/patch.diff", "wb").write(diff.encode("utf8", "surrogateescape"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    inc = "".join(f'#include "{i}"\n' for i in includes)
    open(f"{d}/main.cpp", "w").write(inc + HEAD + body)
    shutil.copy(f"{HERE}/run.py", d)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/run.py" main.cpp\n'); os.chmod(f"{d}/demo.sh", 0o755)
