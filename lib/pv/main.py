# -*- coding: utf-8 -*-
r"""entry: main.py checks/<id>.py [filters]"""
import sys
import runpy
import warnings
warnings.simplefilter('ignore')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')   # z3, at the END of the path
path = sys.argv[1]
sys.argv = sys.argv[1:]
import phyem  # noqa: E402,F401  (once, before the workers fork)
ns = runpy.run_path(path)
ns['check'].main()
