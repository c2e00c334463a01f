#!/opt/venv/bin/python
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx.driver import main
sys.exit(main(sys.argv[1:]))
