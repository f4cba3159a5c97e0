#!/usr/bin/env python3
"setup_cmd: nothing to build; checks that the tools the checks need are there."
import subprocess, sys
r = subprocess.call(["/opt/veriftools/pyvenv/bin/python3", "-c", "import z3; print('z3', z3.get_version_string())"])
r |= subprocess.call(["cvc5", "--version"], stdout=subprocess.DEVNULL)
sys.exit(r)
