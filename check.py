#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current sources statically.
exit 0 held, 1 VIOLATION, 2 no answer."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import driver
sys.exit(driver.main(sys.argv[1:]))
