#!/usr/bin/env python3
"""Builds the sanitized extension once (every check rebuilds it from /repo when the content hash differs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build
print(build.ext("asan")[0])
