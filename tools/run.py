"""run.py main.cpp [args]: compiles main.cpp against the CEX build in the working directory and runs it (under wine, in a prefix of its own)."""
import os, re, subprocess, sys, tempfile
D = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(os.getcwd(), "_build")
flags = re.search(r"^flags = (.*)$", open(f"{B}/build.ninja").read(), re.M).group(1).split()
libs = "-Wl,--stack,16777216 -lws2_32 -liphlpapi -lcrypt32 -lnetapi32 -lpsapi -ladvapi32 -lole32".split()
with tempfile.TemporaryDirectory() as w:
    subprocess.run(["clang++"] + flags + ["-I", os.path.join(os.getcwd(), "CEX"), "-c", os.path.join(D, sys.argv[1]), "-o", f"{w}/m.o"], check=True)
    subprocess.run(["x86_64-w64-mingw32-g++-posix", "-static", "-o", f"{w}/m.exe", f"{w}/m.o", f"{B}/libCEX.a"] + libs, check=True, stderr=subprocess.DEVNULL)
    env = dict(os.environ, WINEPREFIX=f"{w}/wine", WINEDEBUG="-all", WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=", HOME=w)
    env.pop("DISPLAY", None)
    os.mkdir(f"{w}/run")
    try:
        subprocess.run(["/usr/lib/wine/wine64", "wineboot", "-i"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
        try:
            code = subprocess.run(["/usr/lib/wine/wine64", f"{w}/m.exe"] + sys.argv[2:], cwd=f"{w}/run", env=env, stdin=subprocess.DEVNULL, timeout=110).returncode
        except subprocess.TimeoutExpired:
            code = 99
    finally:
        subprocess.run(["/usr/lib/wine/wineserver64", "-k"], env=env)
        subprocess.run(["/usr/lib/wine/wineserver64", "-w"], env=env)
print("exit", code)
sys.exit(code and 1)
