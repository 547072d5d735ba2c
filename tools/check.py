#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from registry import REGISTRY
sys.exit(vlib.main(REGISTRY))
