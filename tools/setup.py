"""Setup: nothing to build; every specification must parse and the venv must import lumos."""
import glob, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
d = tempfile.mkdtemp()
try:
    for f in glob.glob(os.path.join(HERE, "spec", "*.tla")):
        shutil.copy(f, d)
    mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, "*.tla")))
    p = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY"] + mods, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or "*** Errors" in p.stdout or "Fatal" in p.stdout:
        print(p.stdout[-4000:])
        sys.exit(1)
    print("parsed", len(mods), "specifications")
finally:
    shutil.rmtree(d, ignore_errors=True)
