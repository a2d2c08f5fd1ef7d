#!/usr/bin/env python3
"""Nothing is built: checks that what the checks need is there."""
import ctypes
import subprocess
import sys

import z3

assert ctypes.sizeof(ctypes.c_long) == 8
print("python", sys.version.split()[0], "z3", z3.get_version_string())
print(subprocess.run(["cvc5", "--version"], capture_output=True, text=True).stdout.split("\n")[0])
