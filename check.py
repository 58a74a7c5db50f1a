#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's working tree
   check.py replay FILE                        replay one recorded violation
   check.py build                              build the harness and the command-line tool

Exit 0: the property held on everything explored. Exit 1: VIOLATION line(s). Exit 2: tool error."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
sys.exit(engine.main(sys.argv[1:]))
