#!/usr/bin/env python3
"""Rewrites the GLSL constructs that C++ spells differently (parameter qualifiers, precision, #version)."""
import re, sys
s = open(sys.argv[1], newline=None, errors="replace").read()
s = re.sub(r"^\s*#\s*(version|extension)[^\n]*", "", s, flags=re.M)
s = re.sub(r"\bprecision\s+\w+\s+\w+\s*;", "", s)
s = re.sub(r"\b(highp|mediump|lowp|precise|invariant)\b", "", s)
s = re.sub(r"\b(?:inout|out)\s+(\w+)\s+(\w+)", r"\1& \2", s)
s = re.sub(r"(?<=[(,])(\s*)(const\s+)?in\s+(?=\w)", r"\1\2", s)
open(sys.argv[2], "w").write(s)
