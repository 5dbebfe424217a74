#!/usr/bin/env python3
"""prints the table of DESIGN.md's section on seeded changes"""
import glob, json, os
print('| change | property | what breaks |\n|---|---|---|')
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeded/*'))):
    m = json.load(open(d + '/meta.json'))
    print('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks']))
