#!/usr/bin/env python3
"""Nothing needs to be built in advance: every check builds its driver from /repo. This only verifies that the tools are there."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
for c in (['java', '-version'], ['g++', '--version']):
    if subprocess.run(c, capture_output=True).returncode:
        sys.exit('cannot run ' + c[0])
