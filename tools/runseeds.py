"""every planted bug against the check of its property, in copies"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run([sys.executable, V + '/tools/par.py'] + sys.argv[1:] + sorted(V + '/seeded/' + x for x in os.listdir(V + '/seeded')))
