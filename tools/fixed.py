#!/usr/bin/env python3
"""maintenance: rewrites the "fixed" list of known_findings.json from the fix: commits of /repo"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (start of subject, property)
    ('accept typedef names of', 'P12'), ('diagnose uses of typedef', 'P14'),
    ('hash strings', 'P11'),
    ('keep struct types apart', 'P10'),
    ('keep one cell per key', 'P18'),
    ('keep a struct tag declared', 'P19'),
    ('convert case labels', 'P04'),
    ('reduce constant shift counts', 'P01'),
    ('scale arithmetic on pointers to structs', 'P09'), ('diagnose struct tags', 'P14'),
    ('write alert and vertical tab', 'P08'), ('write the bytes of string', 'P08'),
    ('convert arrays and functions', 'P09'), ('take the address of struct members', 'P09'), ('parse nested expressions', 'P14'),
    ('diagnose an output file', 'P15'), ('diagnose null characters', 'P11'), ('diagnose source files', 'P15'),
    ('do not export the labels', 'P16'), ('size string buffers', 'P14'), ('convert constants of global', 'P08'),
    ('diagnose global initializers', 'P14'), ('skip the trailing padding', 'P08'), ('zero-initialize the rest', 'P08'),
    ('do not divide by a constant', 'P06'), ('keep the stack aligned', 'P05'), ('diagnose more values alive', 'P06'),
    ('diagnose expressions that need', 'P06'), ('widen the comparison', 'P01'), ('clear the upper half', 'P02'),
    ('do not load values of structs', 'P14'), ('support shift counts', 'P01'), ('shift unsigned', 'P01'), ('the type of a shift', 'P01'), ('promote a char', 'P09'),
    ('divide pointer differences', 'P09'), ('do not sign-extend string', 'P08'), ('load constants that', 'P01'),
    ('diagnose escape sequences', 'P11'), ('character constants have', 'P11'), ('give integer constants', 'P11'),
    ('do not mistake byte', 'P11'), ('diagnose character constants', 'P11'), ('reduce integer constants', 'P02'),
    ('convert through every level', 'P02'), ('address through the register', 'P09'), ('do not evacuate', 'P06'),
    ('do not keep the registers of a switch', 'P04'), ('do not write past strings', 'P08'), ('accept string literals for arrays', 'P08'),
    ('diagnose enumeration constants', 'P13'),
]
import sys
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    m = [p for t, p in PROP if s.startswith(t)]
    if len(m) != 1:
        sys.exit('no property for: ' + l)
    out.append('fixed: property=%s %s %s' % (m[0], h, s))
p = os.path.join(HERE, 'known_findings.json')
k = json.load(open(p))
k['fixed'] = out
json.dump(k, open(p, 'w'), indent=1)
print(len(out))
