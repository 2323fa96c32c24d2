#!/usr/bin/env python3
"""run.py Cxx [quick|thorough]   explore one property;   run.py --replay FILE   re-execute a reported violation"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
os.environ.setdefault('PYTHONHASHSEED', '0')
import engine  # noqa: E402

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        engine.replay(sys.argv[2])
        sys.exit(0)
    sys.exit(engine.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
