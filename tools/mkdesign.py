#!/usr/bin/env python3
"""refreshes the table of planted changes in DESIGN.md"""
import os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + '/DESIGN.md').read()
tab = subprocess.run(['python3', H + '/tools/seedtable.py', H + '/tools/catch_results.txt'], stdout=subprocess.PIPE, text=True, check=True).stdout
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- end -->)', lambda m: m.group(1) + tab + m.group(2), t, flags=re.S)
open(H + '/DESIGN.md', 'w').write(t)
