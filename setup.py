#!/usr/bin/env python3
"""Builds the driver once (every check builds it again from /repo's current tree)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common

for kw in ({}, {"sync": True}, {"release": True}):
    print(common.build_driver(**kw))

import syn
print(syn.build_syngen())
