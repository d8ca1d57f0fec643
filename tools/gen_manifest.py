#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ' Trusts: TLC, the driver reporting what the public interface returned; bounded by the histories carried out.'
NOTE = {
    'C01': 'Every recorded decode must succeed exactly when Wire.tla says so, under AddressSanitizer with the code in a block of its exact size, allocation accounting and a small stack for long plans; the object is then used again.',
    'C02': 'All one- and two-byte operator encodings in several contexts (enumerated by TLC) plus random framings; accepted set and returned position must be those of Wire.tla.',
    'C03': 'Immediates of every length and special pattern against Wire.tla, exact in values and consumed bytes.',
    'C04': 'Random well-typed programs against the denotation computed by ExprVM.tla/Calc.tla, all results and the declared type.',
    'C05': 'Every operator on every combination of operand types and missing operands (enumerated), extreme values, random junk programs; errors must be where the specification has them, and the runner is used again.',
    'C06': 'Strict operators with NULL in every position (enumerated) and zero divisors, plus random programs with many NULLs.',
    'C07': 'All operand combinations exhaustively, all two-level nestings, random nested logic against Calc.tla.',
    'C08': 'Edge grid enumerated by TLC and random pairs, exact against digit arithmetic of Ints.tla, itself checked against unbounded integers.',
    'C09': 'Bit-exact against Floats.tla (IEEE 754 from integers), itself checked exhaustively on small formats.',
    'C10': 'Edge grid and random close pairs of every type against the order of Calc.tla, bit-exact MIN/MAX.',
    'C11': 'Edge grid and random values of every source and target, bit- and byte-exact against Calc.tla/Floats.tla.',
    'C12': 'Edge grid and random values around both ends of the target ranges against Calc.tla.',
    'C13': 'Exhaustive short strings and positions (enumerated by TLC) and random long ones against Calc.tla.',
    'C14': 'Function values within 8 ulp of Elem.tla, which computes them in fixed point to 160 and more bits; CEIL/FLOOR exact.',
    'C15': 'Histories of decode, bind, run, get, destroy; tuples and constants are read back and must be unchanged.',
    'R01': 'Filters and projections over random rows against RelAlg.tla.',
    'R02': 'Aggregates over random rows against the fold of RelAlg.tla.',
    'R03': 'Grouped aggregations with look-alike keys and up to 300 groups against RelAlg.tla; order of groups left open.',
    'R04': 'Chains of up to 60 operators (3000 on a small stack) against RelAlg.tla, where fetching is a relation.',
    'R05': 'Every row tracked through allocation hooks of the driver: released or handed back exactly once, nothing left at the end, returned rows unchanged; AddressSanitizer build.',
    'R06': 'Interleavings of put, get and decode, enumerated by TLC up to five actions and random beyond, against RelAlg.tla.',
    'R07': 'Histories with failing rows at every position against RelAlg.tla.',
    'R08': 'Interleaved histories of several objects against System.tla; the same histories from eight threads in a ThreadSanitizer build.',
    'U01': 'Equality, hashing, copying, concatenation, mapping, optionals and hexadecimal text against Values.tla/System.tla.',
    'U02': 'Every operator on a list in every operand position, runners and plans that carry lists, values read back at the end; against Calc.tla/RelAlg.tla/System.tla with lists as opaque values.',
    'U03': 'Printed operands and type names against Text.tla, which prints from the exact decimal value; Text.tla checked by reading back all one-byte numbers and all FLOAT magnitudes.',
}
checks = [{
    'property': p,
    'quick_cmd': 'python3 tools/run.py %s quick' % p,
    'thorough_cmd': 'python3 tools/run.py %s thorough' % p,
    'evidence_file': 'evidence/%s.json' % p,
    'technique': 'TLA+ specification checked with TLC; conformance by trace validation of recorded histories',
    'level': 'model_checking',
    'level_note': n + TRUST,
} for p, n in NOTE.items()]
json.dump({'version': 1, 'setup_cmd': 'python3 tools/run.py setup', 'checks': checks, 'not_applicable': [],
           'notes': 'TLA+ modules in spec/, driver in harness/, check runner tools/run.py. No hooks in /repo are needed: the public interface exposes the abstract state.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
