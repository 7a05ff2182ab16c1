"""setup: nothing to build ahead of time (every check compiles and parses /repo's current sources); verify the tools are there"""
import shutil, subprocess, sys
for t in ("gcc", "clang", "python3"):
    if not shutil.which(t): sys.exit(f"missing {t}")
subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3, numpy, scipy"], check=True)
