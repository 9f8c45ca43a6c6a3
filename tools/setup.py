"""nothing to build: checks that the interpreters, solvers and committed tables the checks need are there"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3
assert subprocess.run(["cvc5", "--version"], capture_output=True).returncode == 0
assert subprocess.run(["/opt/venv/bin/python", "-c", "import fontTools"], capture_output=True).returncode == 0
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
assert subprocess.run([sys.executable, "-B", os.path.join(HERE, "tools", "externs_test.py")]).returncode == 0
print("ok", z3.get_version_string())
