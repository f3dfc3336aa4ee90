"""Nothing to build: checks that the tools the checks need are there."""
import subprocess
subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import pandas, numpy, scipy"], check=True)
subprocess.run(["python3-vt", "-B", "-c", "import z3"], check=True)
print("ready")
