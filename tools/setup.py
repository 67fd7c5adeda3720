#!/usr/bin/env python3
"""Builds the AST exporter (the only compiled part of the framework) and checks the tools are there."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mxv import fe
import z3
print('exporter', fe.exporter(), 'z3', z3.get_version_string())
