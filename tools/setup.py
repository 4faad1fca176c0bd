"""Nothing is built ahead: the checks import /repo's working tree. Only see that the tools are there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
sys.path.insert(0, os.path.join(V, "lib"))
import nowdrv
nowdrv.preload()
print(subprocess.run(["which", "tlc"], capture_output=True, text=True).stdout.strip() or sys.exit("tlc not found"))
