#!/usr/bin/env python3
"""Prewarms /verif/target with the dependencies of the corpora."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pd"))
sys.dont_write_bytecode = True
from common import *
d = os.path.join(VERIF, "work", "warm")
package("warm", d, DEPS_WITH, {"warm": "fn main() { let _ = (vrt::Rng::new(1), regex::Regex::new(\"a\")); }\n"})
b = cargo(["build", "--offline", "--message-format=json"], d)
print("warm" if b.ok else b.log[-3000:])
# a tree that does not build is for the checks to report
sys.exit(0)
