#!/usr/bin/env python3
"""Builds a group's harness without running it (for development)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import driver
sys.modules["__main__"] = driver
print(driver.build(sys.argv[1]))
