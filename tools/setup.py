"""Sanity check of the tools the checks need (nothing is built ahead: checks import /repo's working tree directly)."""
import subprocess, sys
subprocess.run(["/opt/venv/bin/python","-B","-c","import pvgridder, pyvista, numpy, scipy, shapely; print(pvgridder.__file__)"],check=True)
r=subprocess.run(["java","-version"],capture_output=True,text=True); print(r.stderr.splitlines()[0])
sys.exit(r.returncode)
