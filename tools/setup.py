#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles from /repo's working tree.  This only
verifies that the tools the checks need are present."""
import shutil, sys
need = ["g++", "aarch64-linux-gnu-g++", "arm-linux-gnueabihf-g++", "qemu-aarch64", "qemu-arm"]
miss = [t for t in need if not shutil.which(t)]
if miss:
    print("missing tools:", miss)
    sys.exit(1)
print("ok")
