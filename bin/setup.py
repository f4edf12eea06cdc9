#!/usr/bin/env python3
"""Checks that the tools the checks need are there. Nothing is built here: every check builds the
harness from /repo's working tree itself."""
import os, shutil, sys
need = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/vp/env.sh"]
bad = [p for p in need if not os.path.exists(p)] + ([] if shutil.which("java") else ["java"])
print("missing: " + ", ".join(bad) if bad else "tools present")
sys.exit(1 if bad else 0)
