#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough] - exit 0: held on everything explored, 1: violation, 2: no answer"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.runner import main
main()
