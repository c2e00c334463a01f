import sys
sys.dont_write_bytecode = True
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _P not in sys.path:
    sys.path.append(_P)
