# nothing to build: the framework is Python; report what the checks will find
import os, shutil, subprocess, sys
for p in ("/opt/venv/bin/python", "/opt/venv-stdlib/bin/python"):
    print(p, subprocess.run([p, "--version"], capture_output=True, text=True).stdout.strip() if os.path.exists(p) else "MISSING")
print("gcc", shutil.which("gcc") or "missing: the wall-clock seam is then off")
sys.exit(0)
