#!/usr/bin/env python3
"""Build the fact dumper and the facts of the current tree (both are rebuilt by any check that finds them missing or stale)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spf import facts
facts.build_driver()
try:
    facts.build_facts()
except facts.BuildError as e:
    print("facts not built now (checks will report it):", str(e)[-800:])
