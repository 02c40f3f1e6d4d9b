#!/usr/bin/env python3
"""replay.py FILE [-t]: runs one replay file (a minimised plan) against /repo's working tree."""
import os, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import build as simbuild
v = [l.split()[1] for l in open(sys.argv[1]) if l.startswith('variant ')][0]
sys.exit(subprocess.run([simbuild.build([v])[v], 'replay', sys.argv[1]] + sys.argv[2:]).returncode)
