#!/usr/bin/env python3
"""Nothing is kept between runs: verifies that the toolchain builds /repo offline and warms the go cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build
b = build.Builder()
try:
    b.goeland(); b.goeland(race=True)
    print('setup ok')
except build.BuildError as e:
    print(e); sys.exit(1)
finally:
    b.close()
