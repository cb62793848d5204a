"""Builds the system under test and all drivers once (everything is rebuilt on demand when /repo changes)."""
import glob, os, subprocess, sys
import vbuild

try:
    vbuild.ensure()
except vbuild.BuildError as e:
    print(e)
    sys.exit(2)
for c in sorted(glob.glob(os.path.join(vbuild.VERIF, "checks", "c[0-9]*.py"))):
    subprocess.run([sys.executable, c, "--prebuild"], cwd=vbuild.VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
