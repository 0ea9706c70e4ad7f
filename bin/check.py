#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import checks
if __name__ == '__main__':
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(checks.main(prop, tier))
