#!/usr/bin/env python3
"""Generates MANIFEST.json from the tables below."""
import json, sys, os
AI = 'relational abstract interpretation of the compiled IR with proved kernel contracts'
NOTE_AI = ('Deduces the property for operands of every length and digit value from the LLVM IR of /repo by abstract interpretation '
           '(inductive loop invariants over digit-weighted sums, one proof per digit system). Trusts clang, the exporter, the model of '
           'std::vector and the abstract domain. An obligation that cannot be discharged is counted as open in the evidence and only '
           'reported as a violation when an exact abstract state of a bounded unrolling contradicts the property.')
CLAIMS = {}
for p in ('C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C04'):
    CLAIMS[p] = (AI, 'proof', NOTE_AI)
FS = 'abstract interpretation of the compiled IR of each member function over symbolic digit sequences (trace partitioning)'
NOTE_FS = ('Every path of each function is interpreted over a symbolic object of any length; loops get inductive invariants. Trusts clang, the exporter and the '
           'models of std::vector, iostream and exceptions. A violation names the function, the path and the abstract state that contradicts the property.')
for p in ('C13', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23'):
    CLAIMS[p] = (FS, 'proof', NOTE_FS)
CLAIMS['C14'] = ('interprocedural effect analysis of the IR (writes to static storage, guards, thread-locals, stateful externals)', 'proof',
                 'Flow-insensitive and sound for the code in the IR; external functions are judged by a table of known pure library functions and anything unknown is reported as open.')
CLAIMS['C15'] = ('comparison of normalised IR terms of every operator overload with the built-in operator on the wrapped integers', 'proof',
                 'Covers every operator, operand order and wrapped type of the instantiation unit. Equality is decided on terms after LLVM simplification; a difference is reported only when an interval/bit evaluation of the two terms confirms that they differ.')
CLAIMS['C16'] = ('compile-time witnesses: constant evaluation by the compiler of every published limit (no code is run)', 'proof',
                 'Exhaustive over the shipped limits types and digit types.')
CLAIMS['C17'] = ('symbol completeness: members declared by each advertised specialisation against symbols defined by the library sources', 'proof',
                 'Exhaustive over the explicit instantiation declarations found in the public headers.')
CLAIMS['C12'] = ('bounds obligations at every container access, discharged by relational abstract interpretation of the compiled IR', 'proof', NOTE_AI)
CLAIMS['C24'] = ('obligations at every division, shift, signed operation and float-to-integer conversion, discharged by relational abstract interpretation of the compiled IR', 'proof', NOTE_AI)
CLAIMS['C25'] = ('ranking functions for every loop and recursion over the abstract loop states; alarms are confirmed by a recurrent set of abstract states', 'proof', NOTE_AI)
CLAIMS['C26'] = ('symbolic linear forms of the transform (coefficients are roots of unity) compared with the defining sum, over the compiled IR', 'other',
                 'The packing of digit sequences is proved for every length; the transforms are compared as exact linear forms for the listed power-of-two lengths. Rounding is not part of the property.')
CLAIMS['C27'] = ('rounding-error analysis by abstract interpretation of the transform code: expression trees with error majorants and spectral norms; the length guard comes from the IR', 'proof',
                 'Bounds the floating-point error of every value mul_strassen rounds, for every digit system and every length its guard admits, from the expressions found in the IR. Assumes IEEE-754 '
                 'double arithmetic to nearest and sin/cos within a few ulp; a violation is reported when the bound of the current expressions cannot stay below one half for an admitted length.')
NA = {}
def main():
    ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
    sys.path.insert(0, 'engine')
    only = os.environ.get('ONLY')
    checks, na = [], []
    for i in ids:
        if i in CLAIMS and (not only or i in only.split(',')):
            t, l, n = CLAIMS[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                           'technique': t, 'level': l, 'level_note': n})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
    M = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
    json.dump(M, open('MANIFEST.json', 'w'), indent=1)
main()
