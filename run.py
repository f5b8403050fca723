#!/opt/veriftools/pyvenv/bin/python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONHASHSEED', '0')
from kit import runner
sys.exit(runner.main('checks.' + sys.argv[1].lower()))
