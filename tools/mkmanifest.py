#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json
CLAIMED = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24'.split()
ALL = ['C%02d' % i for i in range(1, 25)]
NOTE = ('Every obligation generated from the compiler\'s MIR of the current working tree is discharged for all inputs over the reals; '
        'the bounded cross-check of the compiled crate is separate and never counted as proved. Trusted: rustc\'s MIR, the symbolic executor and '
        'normal form in glmvc, z3, the contracts of dependencies (ndarray, LAPACK, num-traits, statrs). Machine arithmetic is treated as real arithmetic.')
EXTRA = {}
TECH = 'contract-based deductive verification (symbolic execution of MIR against contracts, algebraic normal form and z3)'
checks = [dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
               technique=TECH, level='proof', level_note=(EXTRA.get(p, '') + ' ' + NOTE).strip()) for p in CLAIMED]
na = [dict(property=p, reason='contracts for this property are not finished') for p in ALL if p not in CLAIMED]
d = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na)
json.dump(d, open('/verif/MANIFEST.json', 'w'), indent=1)
