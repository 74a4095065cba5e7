#!/usr/bin/env python3
"""build the fact extractor and the fact bases once (checks rebuild whatever is stale)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
sys.dont_write_bytecode = True
import facts
try:
    facts.extract('core', True)
    facts.extract('full', True)
except facts.BuildError as e:
    print(str(e)[-3000:])
    sys.exit(1)
