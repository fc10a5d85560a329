import sys
sys.dont_write_bytecode = True          # leave no __pycache__ in /repo
