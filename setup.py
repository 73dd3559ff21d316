#!/usr/bin/env python3
"""Checks that the tools the framework uses are there, and compiles and runs one instrumented program.
Every check builds what it needs from /repo's working tree itself (runs do not see each other's output)."""
import shutil, subprocess, sys, tempfile, os
missing = [t for t in ("clang++", "ninja", "python3", "sed", "ar", "valgrind") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    open(f"{d}/a.cpp", "w").write("#include <openssl/sha.h>\n#include <cstdio>\nint main(){unsigned char o[32];SHA256((const unsigned char*)\"\",0,o);puts(o[0]==0xe3?\"ok\":\"bad\");}\n")
    subprocess.run(["clang++", "-fsanitize=address,undefined", f"{d}/a.cpp", "-o", f"{d}/a", "-Wl,-Bstatic", "-lcrypto", "-Wl,-Bdynamic", "-ldl", "-lpthread"], check=True)
    out = subprocess.run([f"{d}/a"], stdout=subprocess.PIPE, text=True, check=True).stdout
    print("setup:", out.strip())
    sys.exit(0 if out.strip() == "ok" else 1)
finally:
    shutil.rmtree(d, ignore_errors=True)
