#!/usr/bin/env python3
"""Builds the harness once, so that a broken toolchain shows up before any check."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'py'))
sys.dont_write_bytecode = True
import level_a
level_a.build()
import build
build.prepare()
import level_c
level_c.tools()
