"""Builds what the checks need."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

common.build(library="steps,stages")
print(common.build(library=True))
