#!/usr/bin/env python3
"""Writes /verif/known-findings.json: defects that were repaired (they suppress nothing) and the ones that are recorded."""
import json, os, subprocess
PROP = {'e4edbd3': 'C16', 'f6a06b8': 'C13', '9e3627a': 'C01', '5fe9c21': 'C12', '99ae840': 'C13', 'f66045d': 'C13', '82bcb8f': 'C10', '6d60e71': 'C04', '705cd66': 'C12', '219c06a': 'C13', '7c183bf': 'C17', '212953e': 'C13',
        'dd91318': 'C04', 'cbd6c27': 'C03', 'e418c4e': 'C03', '0403944': 'C13', '9d3ef2c': 'C19', '93637b1': 'C14', '4ac6a9e': 'C27', 'c7709f7': 'C05', '101c67b': 'C08', '383e245': 'C08', '4a68fff': 'C27',
        '69c9cb8': 'C07', 'e03eb9e': 'C07', '2f41f5f': 'C08', '71a9182': 'C01', 'ee3ed94': 'C07', 'a7c2cf8': 'C15', '9b1a901': 'C03', '5bfab07': 'C18', 'efaf5e9': 'C18', 'cf8bfd5': 'C03', '6ed601b': 'C02',
        'fe10dfb': 'C03', '2851ef6': 'C04', '191a8e1': 'C10', '88e6d1a': 'C17', '088431e': 'C13', '922fb1f': 'C08', 'e0a5a12': 'C14', '5c3b3d9': 'C27', 'b4be37f': 'C16', '9965ab6': 'C23',
        'fa2fcb2': 'C02', 'e48eaba': 'C05', '6209c8d': 'C04', '3cb346d': 'C02', 'b335b06': 'C20', 'ed752f2': 'C20', 'b527c63': 'C20', 'adb8adb': 'C04', 'efe759d': 'C20', '66f9cdf': 'C20', '77e045a': 'C20', '61026f0': 'C24', '0a5e18d': 'C24', '34a1fe4': 'C05', '45cbe13': 'C18'}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--grep=^fix:'], stdout=subprocess.PIPE).stdout.decode().strip().split('\n')
fixed = []
for l in reversed(log):
    h, what = l.split(' ', 1)
    fixed.append('fixed: property=%s %s %s' % (PROP[h], h, what[5:]))
F = lambda p, src, what: dict(property=p, src=src, what=what)
findings = [
    F('C07', 'print(count_zeros(0), count_zeros(1), count_zeros(7))\n', 'count_zeros of a non-negative integer counts the zeros of 64 bits, not of the 63 bits of an integer'),
    F('C07', 'print(lcm(4611686018427387903, 4611686018427387902))\n', 'lcm of operands whose result does not fit is not reduced exactly'),
    F('C07', "print(int('9223372036854775807'))\n", 'int() of a text between 2^62 and 2^63 wraps around instead of failing'),
    dict(property='C20', repeat=['(', 100000], what='a text of 100000 opening parentheses overflows the stack of the compiler'),
]
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known-findings.json'), 'w') as f:
        json.dump(dict(findings=findings, fixed=fixed), f, indent=1)
        f.write('\n')
