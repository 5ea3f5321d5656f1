#!/usr/bin/env python3
"""Checks that the tools the engines need are present; builds nothing."""
import shutil, sys
missing = [t for t in ("/usr/lib/llvm-18/bin/llvm-link", "g++", "clang++-18", "nm", "cvc5", "z3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
