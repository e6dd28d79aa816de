"""written by tools/seqs.py: cases that are run one after the other in one process"""
SEQS = {'c01': [[['ring', {'p': 2, 'span': 0}], ['ring', {'p': 2, 'span': 0}]],
         [['equality', {'p': 2, 'span': 0}], ['equality', {'p': 2, 'span': 0}]],
         [['serial', {'p': 2}], ['serial', {'p': 2}]],
         [['augmented', {'p': 2}], ['augmented', {'p': 2}]],
         [['chain', {'n': 6, 'ops': '+-*', 'p': 2}], ['chain', {'n': 6, 'ops': '+-*', 'p': 2}]],
         [['from_bytes', {'n': 0, 'p': 2}], ['from_bytes', {'n': 0, 'p': 2}]],
         [['integer_division', {'p': 2}], ['integer_division', {'p': 2}]],
         [['enumerate_field', {'p': 2}], ['enumerate_field', {'p': 2}]],
         [['ring', {'p': 31, 'span': 300}], ['ring', {'p': 31, 'span': 300}]],
         [['equality', {'p': 31, 'span': 300}], ['equality', {'p': 31, 'span': 300}]],
         [['serial', {'p': 31}], ['serial', {'p': 31}]],
         [['augmented', {'p': 31}], ['augmented', {'p': 31}]],
         [['chain', {'n': 6, 'ops': '*', 'p': 31}], ['chain', {'n': 6, 'ops': '*', 'p': 31}]],
         [['from_bytes', {'n': 0, 'p': 257}], ['from_bytes', {'n': 0, 'p': 257}]],
         [['integer_division', {'p': 2}], ['integer_division', {'p': 3}]],
         [['enumerate_field', {'p': 2}], ['enumerate_field', {'p': 3}]]],
 'c02': [[['inverse', {'p': 2}], ['inverse', {'p': 2}]],
         [['division', {'p': 2}], ['division', {'p': 2}]],
         [['zero', {'p': 2}], ['zero', {'p': 2}]],
         [['inverse_near', {'base': 2, 'p': 65537, 'span': 12}], ['inverse_near', {'base': 2, 'p': 65537, 'span': 12}]],
         [['power', {'n': 0, 'p': 2}], ['power', {'n': 0, 'p': 2}]],
         [['power_square_multiply', {'n': 63, 'p': 257}], ['power_square_multiply', {'n': 63, 'p': 257}]],
         [['fermat', {'p': 3}], ['fermat', {'p': 3}]],
         [['inverse', {'p': 7}], ['inverse', {'p': 7}]],
         [['division', {'p': 5}], ['division', {'p': 5}]],
         [['zero', {'p': 7}], ['zero', {'p': 7}]],
         [['inverse_near', {'base': -2, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041, 'span': 1}],
          ['inverse_near',
           {'base': 57896044618658097711785492504343953926634992332820282019728792003202798059520,
            'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041,
            'span': 1}]],
         [['power', {'n': 9, 'p': 257}], ['power', {'n': 9, 'p': 257}]],
         [['power_square_multiply', {'n': 63, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}],
          ['power_square_multiply', {'n': 63, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['fermat', {'p': 3}], ['fermat', {'p': 7}]],
         [['inverse', {'p': 2}], ['inverse', {'p': 3}]],
         [['division', {'p': 2}], ['division', {'p': 3}]]],
 'c03': [[['integers', {'hi_a': 1023, 'hi_b': 15, 'swap': 1}], ['integers', {'hi_a': 1023, 'hi_b': 15, 'swap': 1}]],
         [['common_divisor', {'hi': 7}], ['common_divisor', {'hi': 7}]],
         [['far', {'a': 102334155, 'b': 63245985, 'span': 3}], ['far', {'a': 102334155, 'b': 63245985, 'span': 3}]],
         [['far', {'a': 57896044618658097711785492504343953926634992332820282019728792003956564819968, 'b': 3, 'span': 3}],
          ['far', {'a': 57896044618658097711785492504343953926634992332820282019728792003956564819968, 'b': 3, 'span': 3}]]],
 'c04': [[['ops', {'m': 2, 'n': 0, 'p': 2}], ['ops', {'m': 2, 'n': 0, 'p': 2}]],
         [['construct', {'n': 0, 'p': 2}], ['construct', {'n': 0, 'p': 2}]],
         [['mixed', {'n': 0, 'p': 2}], ['mixed', {'n': 0, 'p': 2}]],
         [['evaluate', {'m': 1, 'n': 0, 'p': 2}], ['evaluate', {'m': 1, 'n': 0, 'p': 2}]],
         [['compose', {'m': 2, 'n': 3, 'p': 2}], ['compose', {'m': 2, 'n': 3, 'p': 2}]],
         [['power', {'e': 0, 'n': 1, 'p': 2}], ['power', {'e': 0, 'n': 1, 'p': 2}]],
         [['augmented', {'m': 2, 'n': 2, 'p': 2}], ['augmented', {'m': 2, 'n': 2, 'p': 2}]],
         [['serial', {'n': 0, 'p': 2}], ['serial', {'n': 0, 'p': 2}]],
         [['large', {'free': [0, -1], 'm': 9, 'n': 12, 'other': [-1], 'p': 2}], ['large', {'free': [0, -1], 'm': 9, 'n': 12, 'other': [-1], 'p': 2}]],
         [['high_power', {'e': 12, 'free': [1], 'n': 2, 'p': 2}], ['high_power', {'e': 12, 'free': [1], 'n': 2, 'p': 2}]],
         [['badbytes', {'n': 1, 'p': 7}], ['badbytes', {'n': 1, 'p': 7}]],
         [['construct', {'n': 1, 'p': 7}], ['construct', {'n': 1, 'p': 7}]],
         [['mixed', {'n': 1, 'p': 7}], ['mixed', {'n': 1, 'p': 7}]],
         [['evaluate', {'m': 3, 'n': 2, 'p': 7}], ['evaluate', {'m': 3, 'n': 2, 'p': 7}]],
         [['compose', {'m': 2, 'n': 3, 'p': 2}], ['compose', {'m': 2, 'n': 3, 'p': 3}]],
         [['power', {'e': 3, 'n': 2, 'p': 7}], ['power', {'e': 3, 'n': 2, 'p': 7}]]],
 'c05': [[['division', {'m': 1, 'n': 0, 'p': 2}], ['division', {'m': 1, 'n': 0, 'p': 2}]],
         [['exact', {'m': 2, 'n': 1, 'p': 2}], ['exact', {'m': 2, 'n': 1, 'p': 2}]],
         [['by_constant', {'n': 3, 'p': 2}], ['by_constant', {'n': 3, 'p': 2}]],
         [['modular_power', {'e': 0, 'm': 3, 'n': 2, 'p': 2}], ['modular_power', {'e': 0, 'm': 3, 'n': 2, 'p': 2}]],
         [['zero_divisor', {'n': 2, 'p': 2}], ['zero_divisor', {'n': 2, 'p': 2}]],
         [['gcds', {'m': 0, 'n': 1, 'p': 2}], ['gcds', {'m': 0, 'n': 1, 'p': 2}]],
         [['gcd_common', {'k': 2, 'm': 2, 'n': 2, 'p': 2}], ['gcd_common', {'k': 2, 'm': 2, 'n': 2, 'p': 2}]],
         [['large', {'free': [0, 11], 'm': 5, 'n': 12, 'other': [], 'p': 2}], ['large', {'free': [0, 11], 'm': 5, 'n': 12, 'other': [], 'p': 2}]],
         [['large_gcd', {'free': [1], 'k': 3, 'm': 6, 'n': 5, 'p': 2}], ['large_gcd', {'free': [1], 'k': 3, 'm': 6, 'n': 5, 'p': 2}]],
         [['large_power', {'e': 9, 'free': [0], 'm': 4, 'n': 2, 'p': 2}], ['large_power', {'e': 9, 'free': [0], 'm': 4, 'n': 2, 'p': 2}]],
         [['exact', {'m': 2, 'n': 1, 'p': 7}], ['exact', {'m': 2, 'n': 1, 'p': 7}]],
         [['by_constant', {'n': 3, 'p': 2}], ['by_constant', {'n': 3, 'p': 3}]],
         [['modular_power', {'e': 1, 'm': 2, 'n': 2, 'p': 257}], ['modular_power', {'e': 1, 'm': 2, 'n': 2, 'p': 257}]],
         [['zero_divisor', {'n': 2, 'p': 7}], ['zero_divisor', {'n': 2, 'p': 7}]],
         [['gcds', {'m': 4, 'n': 2, 'p': 2}], ['gcds', {'m': 4, 'n': 2, 'p': 2}]],
         [['large', {'free': [0, 11], 'm': 5, 'n': 12, 'other': [], 'p': 2}], ['large', {'free': [0, 11], 'm': 5, 'n': 12, 'other': [], 'p': 5}]]],
 'c06': [[['ring', {'m': 2, 'p': 2}], ['ring', {'m': 2, 'p': 2}]],
         [['mixed', {'m': 2, 'p': 2}], ['mixed', {'m': 2, 'p': 2}]],
         [['serial', {'m': 2, 'p': 2}], ['serial', {'m': 2, 'p': 2}]],
         [['augmented', {'m': 2, 'p': 2}], ['augmented', {'m': 2, 'p': 2}]],
         [['zero', {'m': 2, 'p': 2}], ['zero', {'m': 2, 'p': 2}]],
         [['order', {'m': 2, 'p': 2}], ['order', {'m': 2, 'p': 2}]],
         [['reduction', {'m': 2, 'n': 3, 'p': 2}], ['reduction', {'m': 2, 'n': 3, 'p': 2}]],
         [['invert', {'m': 2, 'p': 2}], ['invert', {'m': 2, 'p': 2}]],
         [['divide', {'m': 2, 'p': 2}], ['divide', {'m': 2, 'p': 2}]],
         [['power', {'e': 0, 'm': 2, 'p': 2}], ['power', {'e': 0, 'm': 2, 'p': 2}]],
         [['fermat', {'m': 2, 'p': 2}], ['fermat', {'m': 2, 'p': 2}]],
         [['badmodulus', {'m': 2, 'p': 2}], ['badmodulus', {'m': 2, 'p': 2}]],
         [['large', {'free': [11], 'm': 12, 'other': [0], 'p': 2}], ['large', {'free': [11], 'm': 12, 'other': [0], 'p': 2}]],
         [['large_inverse', {'free': [11], 'm': 12, 'p': 2}], ['large_inverse', {'free': [11], 'm': 12, 'p': 2}]],
         [['large_power', {'e': 7, 'free': [1], 'm': 12, 'p': 2}], ['large_power', {'e': 7, 'free': [1], 'm': 12, 'p': 2}]],
         [['mixed', {'m': 2, 'p': 3}], ['mixed', {'m': 2, 'p': 3}]]],
 'c07': [[['small', {'p': 2}], ['small', {'p': 2}]],
         [['irreducible', {'monic': True, 'n': 1, 'p': 2}], ['irreducible', {'monic': True, 'n': 1, 'p': 2}]],
         [['primitive', {'n': 1, 'p': 2}], ['primitive', {'n': 1, 'p': 2}]],
         [['monic', {'n': 3, 'p': 2}], ['monic', {'n': 3, 'p': 2}]],
         [['wrong_ring', {'p': 2, 'q': 3}], ['wrong_ring', {'p': 2, 'q': 3}]],
         [['generate', {'k': 2, 'kind': 'irreducible', 'n': 1, 'p': 2}], ['generate', {'k': 2, 'kind': 'irreducible', 'n': 1, 'p': 2}]],
         [['small', {'p': 2}], ['small', {'p': 3}]],
         [['irreducible', {'monic': False, 'n': 1, 'p': 7}], ['irreducible', {'monic': False, 'n': 1, 'p': 7}]],
         [['primitive', {'n': 1, 'p': 7}], ['primitive', {'n': 1, 'p': 7}]],
         [['monic', {'n': 3, 'p': 2}], ['monic', {'n': 3, 'p': 3}]],
         [['generate', {'k': 2, 'kind': 'primitive', 'n': 1, 'p': 2}], ['generate', {'k': 2, 'kind': 'primitive', 'n': 1, 'p': 2}]],
         [['small', {'p': 5}], ['small', {'p': 2}]],
         [['irreducible', {'monic': True, 'n': 1, 'p': 3}], ['irreducible', {'monic': False, 'n': 1, 'p': 3}]],
         [['primitive', {'n': 1, 'p': 2}], ['primitive', {'n': 2, 'p': 2}]],
         [['monic', {'n': 3, 'p': 5}], ['monic', {'n': 3, 'p': 2}]],
         [['generate', {'k': 2, 'kind': 'irreducible', 'n': 1, 'p': 2}], ['generate', {'k': 2, 'kind': 'primitive', 'n': 1, 'p': 2}]]],
 'c08': [[['lagrange', {'n': 1, 'p': 5}], ['lagrange', {'n': 1, 'p': 5}]],
         [['recover', {'n': 1, 'p': 5}], ['recover', {'n': 1, 'p': 5}]],
         [['two', {'p': 5}], ['two', {'p': 5}]],
         [['four', {'fixed': [0, 1, 2, 4], 'p': 5}], ['four', {'fixed': [0, 1, 2, 4], 'p': 5}]],
         [['multi4', {'fixed': [0, 1, 3], 'k': 1, 'p': 31}],
          ['multi4', {'fixed': [0, 1, 3], 'k': 1, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['roots', {'n': 0, 'p': 5}], ['roots', {'n': 0, 'p': 5}]],
         [['inverses', {'n': 0, 'p': 5}], ['inverses', {'n': 0, 'p': 5}]],
         [['large_lagrange', {'free': [0, 5], 'n': 6, 'p': 31}], ['large_lagrange', {'free': [0, 5], 'n': 6, 'p': 31}]],
         [['large_roots', {'free': [8], 'n': 9, 'p': 31}], ['large_roots', {'free': [8], 'n': 9, 'p': 31}]],
         [['large_inverses', {'free': [4], 'n': 9, 'p': 31, 'zeros': []}], ['large_inverses', {'free': [4], 'n': 9, 'p': 31, 'zeros': []}]],
         [['large_multi4', {'free': [1], 'k': 3, 'p': 31}], ['large_multi4', {'free': [1], 'k': 3, 'p': 31}]],
         [['lagrange', {'n': 1, 'p': 5}], ['lagrange', {'n': 2, 'p': 5}]],
         [['recover', {'n': 2, 'p': 31}], ['recover', {'n': 2, 'p': 31}]],
         [['two', {'p': 31}], ['two', {'p': 31}]],
         [['four', {'fixed': [0, 1, 2, 4], 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}],
          ['four', {'fixed': [0, 1, 2, 4], 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['roots', {'n': 2, 'p': 31}], ['roots', {'n': 2, 'p': 31}]]],
 'c09': [[['forward', {'k': 1, 'n': 1, 'p': 5}], ['forward', {'k': 1, 'n': 1, 'p': 5}]],
         [['backward', {'n': 1, 'p': 5}], ['backward', {'n': 1, 'p': 5}]],
         [['roundtrip', {'k': 1, 'n': 1, 'p': 5}], ['roundtrip', {'k': 1, 'n': 1, 'p': 5}]],
         [['oned', {'k': 1, 'n': 1, 'p': 5}], ['oned', {'k': 1, 'n': 1, 'p': 5}]],
         [['product', {'k': 1, 'm': 1, 'n': 1, 'p': 5}], ['product', {'k': 1, 'm': 1, 'n': 1, 'p': 5}]],
         [['short', {'k': 1, 'n': 2, 'p': 5}], ['short', {'k': 1, 'n': 2, 'p': 5}]],
         [['large', {'free': [31], 'k': 32, 'n': 32, 'p': 97, 'vector': [16]}], ['large', {'free': [31], 'k': 32, 'n': 32, 'p': 97, 'vector': [16]}]],
         [['forward', {'k': 2, 'n': 16, 'p': 17}], ['forward', {'k': 2, 'n': 16, 'p': 17}]],
         [['backward', {'n': 8, 'p': 17}], ['backward', {'n': 8, 'p': 17}]],
         [['roundtrip', {'k': 2, 'n': 2, 'p': 5}], ['roundtrip', {'k': 2, 'n': 2, 'p': 7}]],
         [['oned', {'k': 5, 'n': 8, 'p': 17}], ['oned', {'k': 5, 'n': 8, 'p': 17}]],
         [['product', {'k': 4, 'm': 4, 'n': 8, 'p': 17}], ['product', {'k': 4, 'm': 4, 'n': 8, 'p': 17}]],
         [['short', {'k': 1, 'n': 16, 'p': 17}], ['short', {'k': 1, 'n': 16, 'p': 17}]],
         [['forward', {'k': 1, 'n': 2, 'p': 5}], ['forward', {'k': 2, 'n': 2, 'p': 5}]],
         [['backward', {'n': 1, 'p': 5}], ['backward', {'n': 2, 'p': 5}]],
         [['roundtrip', {'k': 3, 'n': 16, 'p': 17}], ['roundtrip', {'k': 3, 'n': 16, 'p': 257}]]],
 'c10': [[['honest', {'n': 4, 'size': 1}], ['honest', {'n': 4, 'size': 1}]],
         [['values', {'n': 4, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}],
          ['values', {'n': 4, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['permutation', {'n': 4}], ['permutation', {'n': 4}]],
         [['tamper', {'n': 4}], ['tamper', {'n': 4}]],
         [['roots', {'n': 4, 'size': 1}], ['roots', {'n': 4, 'size': 1}]],
         [['flip', {'j': 0, 'k': 0, 'n': 4}], ['flip', {'j': 0, 'k': 0, 'n': 4}]],
         [['sizes', {'deep': 32, 'first': 0, 'n': 4, 'second': 64, 'size': 32}],
          ['sizes', {'deep': 32, 'first': 0, 'n': 4, 'second': 64, 'size': 32}]],
         [['shape', {'n': 4, 'size': 32}], ['shape', {'n': 4, 'size': 32}]],
         [['honest', {'n': 4, 'size': 96}], ['honest', {'n': 4, 'size': 96}]],
         [['values', {'n': 8, 'p': 31}], ['values', {'n': 16, 'p': 31}]],
         [['permutation', {'n': 4}], ['permutation', {'n': 8}]],
         [['roots', {'n': 4, 'size': 32}], ['roots', {'n': 4, 'size': 32}]],
         [['sizes', {'deep': 32, 'first': 64, 'n': 8, 'second': 0, 'size': 32}],
          ['sizes', {'deep': 32, 'first': 64, 'n': 8, 'second': 0, 'size': 32}]],
         [['shape', {'n': 4, 'size': 32}], ['shape', {'n': 8, 'size': 32}]],
         [['honest', {'n': 4, 'size': 32}], ['honest', {'n': 8, 'size': 32}]],
         [['values', {'n': 16, 'p': 31}], ['values', {'n': 8, 'p': 31}]]],
 'c11': [[['pack', {'k': 1, 'n': 4, 'p': 31}], ['pack', {'k': 1, 'n': 4, 'p': 31}]],
         [['distinct', {'k': 2, 'n': 4, 'p': 31}], ['distinct', {'k': 2, 'n': 4, 'p': 31}]],
         [['unpacking', {'dims': 1, 'polys': 1}], ['unpacking', {'dims': 1, 'polys': 1}]],
         [['large', {'free': 5, 'k': 8, 'n': 16, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}],
          ['large', {'free': 5, 'k': 8, 'n': 16, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['pack', {'k': 2, 'n': 8, 'p': 31}], ['pack', {'k': 2, 'n': 8, 'p': 31}]],
         [['distinct', {'k': 2, 'n': 4, 'p': 31}],
          ['distinct', {'k': 2, 'n': 4, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['unpacking', {'dims': 2, 'polys': 2}], ['unpacking', {'dims': 2, 'polys': 2}]],
         [['large', {'free': 40, 'k': 2, 'n': 64, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}],
          ['large', {'free': 40, 'k': 2, 'n': 64, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['pack', {'k': 1, 'n': 4, 'p': 31}], ['pack', {'k': 3, 'n': 4, 'p': 31}]],
         [['distinct', {'k': 2, 'n': 4, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}],
          ['distinct', {'k': 2, 'n': 4, 'p': 31}]],
         [['unpacking', {'dims': 1, 'polys': 1}], ['unpacking', {'dims': 2, 'polys': 1}]],
         [['pack', {'k': 3, 'n': 4, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}],
          ['pack', {'k': 1, 'n': 4, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['unpacking', {'dims': 2, 'polys': 2}], ['unpacking', {'dims': 3, 'polys': 2}]]],
 'c12': [[['branches', {'shape': [], 'size': 32}], ['branches', {'shape': [], 'size': 32}]],
         [['branches_twice', {'size': 32}], ['branches_twice', {'size': 32}]],
         [['fri', {'depth': 0, 'final': 1, 'layers': 0, 'per': 0, 'queries': 0, 'size': 32}],
          ['fri', {'depth': 0, 'final': 1, 'layers': 0, 'per': 0, 'queries': 0, 'size': 32}]],
         [['long', {'kind': 'branches', 'n': 60}], ['long', {'kind': 'branches', 'n': 60}]],
         [['branches', {'shape': [0, 2, 0], 'size': 32}], ['branches', {'shape': [0, 2, 0], 'size': 32}]],
         [['fri', {'depth': 1, 'final': 1, 'layers': 1, 'per': 2, 'queries': 1, 'size': 32}],
          ['fri', {'depth': 1, 'final': 1, 'layers': 1, 'per': 2, 'queries': 1, 'size': 32}]],
         [['branches', {'shape': [], 'size': 32}], ['branches', {'shape': [1], 'size': 32}]],
         [['fri', {'depth': 1, 'final': 1, 'layers': 1, 'per': 1, 'queries': 1, 'size': 32}],
          ['fri', {'depth': 2, 'final': 1, 'layers': 1, 'per': 1, 'queries': 1, 'size': 32}]],
         [['branches', {'shape': [2, 1], 'size': 32}], ['branches', {'shape': [2, 2], 'size': 32}]],
         [['fri', {'depth': 0, 'final': 1, 'layers': 0, 'per': 0, 'queries': 0, 'size': 32}],
          ['fri', {'depth': 0, 'final': 3, 'layers': 0, 'per': 0, 'queries': 0, 'size': 32}]]],
 'c13': [[['fresh', {'count': 48, 'k': 0, 'm': 8388608, 'n': 32}], ['fresh', {'count': 48, 'k': 0, 'm': 8388608, 'n': 32}]],
         [['plain', {'count': 8, 'm': 2, 'n': 32}], ['plain', {'count': 8, 'm': 2, 'n': 32}]],
         [['excluded', {'count': 8, 'k': 2, 'm': 8, 'n': 32}], ['excluded', {'count': 8, 'k': 2, 'm': 8, 'n': 32}]],
         [['large', {'m': 16777216}], ['large', {'m': 16777216}]],
         [['power2_wide', {'k': 24}], ['power2_wide', {'k': 24}]],
         [['cycle', {'p': 2}], ['cycle', {'p': 2}]],
         [['mimc', {'k': 1, 'steps': 1}], ['mimc', {'k': 1, 'steps': 1}]],
         [['fresh', {'count': 48, 'k': 0, 'm': 8388608, 'n': 32}], ['fresh', {'count': 48, 'k': 8, 'm': 8388608, 'n': 32}]],
         [['plain', {'count': 1, 'm': 512, 'n': 16}], ['plain', {'count': 1, 'm': 512, 'n': 16}]],
         [['excluded', {'count': 12, 'k': 32, 'm': 512, 'n': 32}], ['excluded', {'count': 12, 'k': 32, 'm': 512, 'n': 32}]],
         [['large', {'m': 16777216}], ['large', {'m': 16777217}]],
         [['power2_wide', {'k': 63}], ['power2_wide', {'k': 63}]],
         [['cycle', {'p': 7}], ['cycle', {'p': 7}]],
         [['mimc', {'k': 2, 'steps': 3}], ['mimc', {'k': 2, 'steps': 3}]],
         [['fresh', {'count': 48, 'k': 8, 'm': 8388608, 'n': 32}], ['fresh', {'count': 48, 'k': 0, 'm': 8388608, 'n': 32}]],
         [['plain', {'count': 1, 'm': 512, 'n': 1}], ['plain', {'count': 4, 'm': 512, 'n': 1}]]],
 'c14': [[['mixed', {'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}], ['mixed', {'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}]],
         [['power', {'e': 0, 'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}], ['power', {'e': 0, 'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}]],
         [['augmented', {'n': 1, 'p': 2, 's': [(0,), (1,)], 't': [(0,), (1,)]}],
          ['augmented', {'n': 1, 'p': 2, 's': [(0,), (1,)], 't': [(0,), (1,)]}]],
         [['degree', {'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}], ['degree', {'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}]],
         [['variables', {'n': 1, 'p': 2}], ['variables', {'n': 1, 'p': 2}]],
         [['arity', {'n': 2, 'p': 2}], ['arity', {'n': 2, 'p': 2}]],
         [['large',
           {'free': [0],
            'n': 4,
            'p': 2,
            's': [[0, 0, 0, 0],
                  [0, 0, 0, 1],
                  [0, 0, 1, 0],
                  [0, 0, 1, 1],
                  [0, 1, 0, 0],
                  [0, 1, 0, 1],
                  [0, 1, 1, 0],
                  [0, 1, 1, 1],
                  [1, 0, 0, 0],
                  [1, 0, 0, 1]],
            't': [[1, 0, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1]]}],
          ['large',
           {'free': [0],
            'n': 4,
            'p': 2,
            's': [[0, 0, 0, 0],
                  [0, 0, 0, 1],
                  [0, 0, 1, 0],
                  [0, 0, 1, 1],
                  [0, 1, 0, 0],
                  [0, 1, 0, 1],
                  [0, 1, 1, 0],
                  [0, 1, 1, 1],
                  [1, 0, 0, 0],
                  [1, 0, 0, 1]],
            't': [[1, 0, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1]]}]],
         [['power', {'e': 2, 'n': 2, 'p': 5, 's': [(0, 0), (1, 0), (0, 1), (2, 1)]}],
          ['power', {'e': 2, 'n': 2, 'p': 5, 's': [(0, 0), (1, 0), (0, 1), (2, 1)]}]],
         [['degree', {'n': 2, 'p': 5, 's': [(0, 0), (1, 0), (0, 1), (2, 1)]}], ['degree', {'n': 2, 'p': 5, 's': [(0, 0), (1, 0), (0, 1), (2, 1)]}]],
         [['variables', {'n': 2, 'p': 5}], ['variables', {'n': 2, 'p': 5}]],
         [['arity', {'n': 2, 'p': 2}], ['arity', {'n': 2, 'p': 5}]],
         [['large',
           {'free': [0],
            'n': 4,
            'p': 2,
            's': [[0, 0, 0, 0],
                  [0, 0, 0, 1],
                  [0, 0, 1, 0],
                  [0, 0, 1, 1],
                  [0, 1, 0, 0],
                  [0, 1, 0, 1],
                  [0, 1, 1, 0],
                  [0, 1, 1, 1],
                  [1, 0, 0, 0],
                  [1, 0, 0, 1]],
            't': [[1, 0, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1]]}],
          ['large',
           {'free': [9],
            'n': 4,
            'p': 2,
            's': [[0, 0, 0, 0],
                  [0, 0, 0, 1],
                  [0, 0, 1, 0],
                  [0, 0, 1, 1],
                  [0, 1, 0, 0],
                  [0, 1, 0, 1],
                  [0, 1, 1, 0],
                  [0, 1, 1, 1],
                  [1, 0, 0, 0],
                  [1, 0, 0, 1]],
            't': [[1, 0, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1]]}]],
         [['power', {'e': 0, 'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}], ['power', {'e': 1, 'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}]],
         [['degree', {'n': 1, 'p': 2, 's': [(0,), (1,), (3,)]}], ['degree', {'n': 1, 'p': 5, 's': [(0,), (1,), (3,)]}]],
         [['variables', {'n': 1, 'p': 2}], ['variables', {'n': 2, 'p': 2}]],
         [['arity', {'n': 2, 'p': 5}], ['arity', {'n': 2, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]]],
 'c15': [[['lift', {'i': 0, 'n': 0, 'p': 2, 'w': 1}], ['lift', {'i': 0, 'n': 0, 'p': 2, 'w': 1}]],
         [['project', {'i': 0, 'p': 2, 's': [(0, 0), (2, 1), (0, 1), (1, 1)], 'w': 2}],
          ['project', {'i': 0, 'p': 2, 's': [(0, 0), (2, 1), (0, 1), (1, 1)], 'w': 2}]],
         [['delta', {'m': 1, 'n': 1, 'p': 2}], ['delta', {'m': 1, 'n': 1, 'p': 2}]],
         [['table', {'m': 1, 'n': 2, 'p': 2}], ['table', {'m': 1, 'n': 2, 'p': 2}]],
         [['lift', {'i': 0, 'n': 2, 'p': 7, 'w': 2}], ['lift', {'i': 0, 'n': 2, 'p': 7, 'w': 2}]],
         [['project', {'i': 1, 'p': 7, 's': [(1, 0), (0, 2)], 'w': 2}], ['project', {'i': 1, 'p': 7, 's': [(1, 0), (0, 2)], 'w': 2}]],
         [['delta', {'m': 1, 'n': 1, 'p': 3}], ['delta', {'m': 1, 'n': 1, 'p': 3}]],
         [['table', {'m': 1, 'n': 1, 'p': 2}], ['table', {'m': 1, 'n': 2, 'p': 2}]],
         [['lift', {'i': 0, 'n': 0, 'p': 2, 'w': 1}], ['lift', {'i': 0, 'n': 1, 'p': 2, 'w': 1}]],
         [['project', {'i': 0, 'p': 2, 's': [(0, 0), (2, 1), (0, 1), (1, 1)], 'w': 2}],
          ['project', {'i': 1, 'p': 2, 's': [(0, 0), (2, 1), (0, 1), (1, 1)], 'w': 2}]],
         [['delta', {'m': 1, 'n': 1, 'p': 2}], ['delta', {'m': 2, 'n': 1, 'p': 2}]],
         [['table', {'m': 1, 'n': 1, 'p': 2}], ['table', {'m': 1, 'n': 1, 'p': 3}]],
         [['lift', {'i': 0, 'n': 1, 'p': 7, 'w': 1}], ['lift', {'i': 0, 'n': 3, 'p': 7, 'w': 1}]],
         [['project', {'i': 0, 'p': 7, 's': [(0, 0, 0), (1, 0, 2), (1, 2, 0), (0, 1, 1)], 'w': 3}],
          ['project', {'i': 2, 'p': 7, 's': [(0, 0, 0), (1, 0, 2), (1, 2, 0), (0, 1, 1)], 'w': 3}]],
         [['delta', {'m': 2, 'n': 1, 'p': 2}], ['delta', {'m': 1, 'n': 1, 'p': 2}]]],
 'c16': [[['trace', {'n': 1, 'p': 7, 'w': 1}], ['trace', {'n': 1, 'p': 7, 'w': 1}]],
         [['honest', {'p': 7, 'w': 1}], ['honest', {'p': 7, 'w': 1}]],
         [['rows', {'k': 0, 'p': 7, 'w': 1}], ['rows', {'k': 0, 'p': 7, 'w': 1}]],
         [['constraints', {'p': 7, 'w': 1}], ['constraints', {'p': 7, 'w': 1}]],
         [['trace', {'n': 1, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041, 'w': 1}],
          ['trace', {'n': 1, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041, 'w': 1}]],
         [['honest', {'p': 257, 'w': 3}], ['honest', {'p': 257, 'w': 3}]],
         [['constraints', {'p': 257, 'w': 3}], ['constraints', {'p': 257, 'w': 3}]],
         [['trace', {'n': 1, 'p': 7, 'w': 1}], ['trace', {'n': 2, 'p': 7, 'w': 1}]],
         [['honest', {'p': 7, 'w': 1}], ['honest', {'as_int': True, 'p': 7, 'w': 1}]],
         [['rows', {'k': 0, 'p': 7, 'w': 1}], ['rows', {'k': 0, 'p': 257, 'w': 1}]],
         [['constraints', {'p': 7, 'w': 2}], ['constraints', {'high': 0, 'p': 7, 'w': 2}]],
         [['trace', {'n': 1, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041, 'w': 1}],
          ['trace', {'n': 2, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041, 'w': 1}]],
         [['honest', {'as_int': True, 'p': 7, 'w': 1}], ['honest', {'p': 7, 'w': 1}]],
         [['constraints', {'high': 0, 'p': 257, 'w': 3}], ['constraints', {'p': 257, 'w': 3}]]],
 'c17': [[['extension', {'k': 0, 'm': 2, 'p': 2}], ['extension', {'k': 0, 'm': 2, 'p': 2}]],
         [['iteration', {'k': 0, 'kind': 'poly', 'n': 2, 'p': 2, 'shifted': True}],
          ['iteration', {'k': 0, 'kind': 'poly', 'n': 2, 'p': 2, 'shifted': True}]],
         [['vanishing', {'basis': [[0, 1]], 'm': 2, 'p': 2}], ['vanishing', {'basis': [[0, 1]], 'm': 2, 'p': 2}]],
         [['extension', {'k': 0, 'm': 2, 'p': 2}], ['extension', {'k': 1, 'm': 2, 'p': 2}]],
         [['iteration', {'k': 1, 'kind': 'field', 'n': 2, 'p': 5, 'shifted': False}],
          ['iteration', {'k': 1, 'kind': 'field', 'n': 2, 'p': 5, 'shifted': False}]],
         [['vanishing', {'basis': [], 'm': 1, 'p': 257}], ['vanishing', {'basis': [], 'm': 1, 'p': 257}]],
         [['extension', {'k': 1, 'm': 2, 'p': 2}], ['extension', {'k': 0, 'm': 2, 'p': 2}]],
         [['iteration', {'k': 1, 'kind': 'poly', 'n': 3, 'p': 2, 'shifted': False}],
          ['iteration', {'k': 1, 'kind': 'field', 'n': 3, 'p': 2, 'shifted': False}]],
         [['vanishing', {'basis': [[0, 1]], 'm': 2, 'p': 2}], ['vanishing', {'basis': [[1], [0, 1]], 'm': 2, 'p': 2}]],
         [['iteration', {'k': 1, 'kind': 'poly', 'n': 2, 'p': 3, 'shifted': False}],
          ['iteration', {'k': 1, 'kind': 'poly', 'n': 2, 'p': 5, 'shifted': False}]],
         [['vanishing', {'basis': [[1], [0, 1]], 'm': 2, 'p': 2}], ['vanishing', {'basis': [[1], [0, 1]], 'm': 2, 'moore': True, 'p': 2}]]],
 'c18': [[['complete', {'ext': 8, 'free': 9, 'polys': 'CUBE1', 'salt': 1, 'spots': 8, 'steps': 2, 'w': 1}],
          ['complete', {'ext': 8, 'free': 9, 'polys': 'CUBE1', 'salt': 1, 'spots': 8, 'steps': 2, 'w': 1}]],
         [['complete', {'ext': 8, 'free': 9, 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['complete', {'ext': 4, 'free': 9, 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]],
         [['complete', {'ext': 4, 'free': 9, 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['complete', {'ext': 8, 'free': 9, 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]]],
 'c19': [[['witness', {'ext': 8, 'polys': 'LINEAR1', 'reg': 0, 'row': 0, 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['witness', {'ext': 8, 'polys': 'LINEAR1', 'reg': 0, 'row': 0, 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]],
         [['tamper', {'ext': 8, 'idx': 0, 'part': 'mroot', 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['tamper', {'ext': 8, 'idx': 0, 'part': 'mroot', 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]],
         [['levels', {'ext': 8, 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['levels', {'ext': 8, 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]],
         [['weights', {'ext': 8, 'of': 'first', 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['weights', {'ext': 8, 'of': 'first', 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]],
         [['challenges', {'num': 1}], ['challenges', {'num': 1}]],
         [['witness', {'ext': 8, 'polys': 'LINEAR1', 'reg': 0, 'row': 0, 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['witness', {'ext': 8, 'polys': 'LINEAR1', 'reg': 0, 'row': 1, 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]],
         [['tamper', {'ext': 8, 'idx': 0, 'part': 'mroot', 'polys': 'LINEAR2', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 2}],
          ['tamper', {'ext': 8, 'idx': 0, 'part': 'mroot', 'polys': 'LINEAR2', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 2}]],
         [['weights', {'ext': 4, 'of': 'first', 'polys': 'LINEAR1', 'salt': 1, 'spots': 6, 'steps': 8, 'w': 1}],
          ['weights', {'ext': 4, 'of': 'first', 'polys': 'LINEAR1', 'salt': 1, 'spots': 6, 'steps': 8, 'w': 1}]],
         [['challenges', {'num': 1}], ['challenges', {'num': 4}]],
         [['tamper', {'ext': 8, 'idx': 1, 'part': 'fri', 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['tamper', {'ext': 8, 'idx': 8, 'part': 'fri', 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]],
         [['weights', {'ext': 8, 'of': 'first', 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}],
          ['weights', {'ext': 8, 'of': 'last', 'polys': 'LINEAR1', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 1}]],
         [['tamper', {'ext': 8, 'idx': 1, 'part': 'fri', 'polys': 'LINEAR2', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 2}],
          ['tamper', {'ext': 8, 'idx': 8, 'part': 'fri', 'polys': 'LINEAR2', 'salt': 1, 'spots': 8, 'steps': 4, 'w': 2}]]],
 'c20': [[['honest', {'excl': 0, 'exps': [0], 'maxdeg': 1, 'n': 8}], ['honest', {'excl': 0, 'exps': [0], 'maxdeg': 1, 'n': 8}]],
         [['high', {'excl': 0, 'exps': [0], 'k': 1, 'maxdeg': 1, 'n': 8}], ['high', {'excl': 0, 'exps': [0], 'k': 1, 'maxdeg': 1, 'n': 8}]],
         [['inner', {'excl': 8, 'level': 4, 'maxdeg': 4, 'n': 16}], ['inner', {'excl': 8, 'level': 4, 'maxdeg': 4, 'n': 16}]],
         [['column', {'excl': 8, 'exps': [0, 2, 31], 'k': 0, 'maxdeg': 32, 'n': 128, 'salt': 1}],
          ['column', {'excl': 8, 'exps': [0, 2, 31], 'k': 0, 'maxdeg': 32, 'n': 128, 'salt': 1}]],
         [['short', {'drop': 0, 'excl': 8, 'maxdeg': 32, 'n': 128, 'salt': 1}], ['short', {'drop': 0, 'excl': 8, 'maxdeg': 32, 'n': 128, 'salt': 1}]],
         [['part', {'cut': 0, 'excl': 8, 'maxdeg': 32, 'n': 128}], ['part', {'cut': 0, 'excl': 8, 'maxdeg': 32, 'n': 128}]],
         [['point', {'excl': 8, 'maxdeg': 32, 'n': 128, 'of': 'column'}], ['point', {'excl': 8, 'maxdeg': 32, 'n': 128, 'of': 'column'}]],
         [['places', {'excl': 8, 'maxdeg': 32, 'n': 128, 'of': 'values'}], ['places', {'excl': 8, 'maxdeg': 32, 'n': 128, 'of': 'values'}]],
         [['tamper', {'excl': 8, 'exps': [0, 3, 30], 'idx': [0], 'maxdeg': 32, 'n': 128, 'part': 'root'}],
          ['tamper', {'excl': 8, 'exps': [0, 3, 30], 'idx': [0], 'maxdeg': 32, 'n': 128, 'part': 'root'}]],
         [['high', {'excl': 0, 'exps': [0], 'k': 1, 'maxdeg': 1, 'n': 8}], ['high', {'excl': 0, 'exps': [0], 'k': 2, 'maxdeg': 1, 'n': 8}]],
         [['inner', {'excl': 8, 'level': 8, 'maxdeg': 4, 'n': 32}], ['inner', {'excl': 8, 'level': 8, 'maxdeg': 4, 'n': 32}]],
         [['column', {'excl': 0, 'exps': [0, 2, 63], 'k': 1, 'maxdeg': 64, 'n': 128, 'salt': 1}],
          ['column', {'excl': 0, 'exps': [0, 2, 63], 'k': 1, 'maxdeg': 64, 'n': 128, 'salt': 1}]],
         [['part', {'cut': 0, 'excl': 8, 'maxdeg': 32, 'n': 128}], ['part', {'cut': 1, 'excl': 8, 'maxdeg': 32, 'n': 128}]],
         [['point', {'excl': 0, 'maxdeg': 32, 'n': 64, 'of': 'column'}], ['point', {'excl': 0, 'maxdeg': 32, 'n': 64, 'of': 'column'}]],
         [['places', {'excl': 0, 'maxdeg': 32, 'n': 64, 'of': 'values'}], ['places', {'excl': 0, 'maxdeg': 32, 'n': 64, 'of': 'values'}]],
         [['tamper', {'excl': 8, 'exps': [0, 3, 30], 'idx': [0, 2, 1], 'maxdeg': 32, 'n': 128, 'part': 'branch'}],
          ['tamper', {'excl': 8, 'exps': [0, 3, 30], 'idx': [0, 2, 1], 'maxdeg': 32, 'n': 128, 'part': 'branch'}]]],
 'c21': [[['order', {'m': 3}], ['order', {'m': 3}]],
         [['two_pow', {'m': 3}], ['two_pow', {'m': 3}]],
         [['binary', {'hi': 4095, 'lo': 0}], ['binary', {'hi': 4095, 'lo': 0}]],
         [['power_list', {}], ['power_list', {}]],
         [['strings', {'k': 1, 'n': 1}], ['strings', {'k': 1, 'n': 1}]],
         [['two_pow', {'m': 3}], ['two_pow', {'m': 4}]],
         [['strings', {'k': 1, 'n': 1}], ['strings', {'k': 4, 'n': 1}]],
         [['two_pow', {'m': 4}], ['two_pow', {'m': 3}]],
         [['strings', {'k': 4, 'n': 1}], ['strings', {'k': 1, 'n': 1}]]],
 'c22': [[['bit', {'k': 4, 'kind': 'affine'}], ['bit', {'k': 4, 'kind': 'affine'}]],
         [['integer', {'bits': 1, 'k': 3, 'kind': 'affine'}], ['integer', {'bits': 1, 'k': 3, 'kind': 'affine'}]],
         [['binding', {'kind': 77}], ['binding', {'kind': 77}]],
         [['secrets', {'bits': 2}], ['secrets', {'bits': 2}]],
         [['overflow', {'bits': 1}], ['overflow', {'bits': 1}]],
         [['openings', {'bits': 1, 'comms': 1, 'given': 1}], ['openings', {'bits': 1, 'comms': 1, 'given': 1}]],
         [['bit', {'k': 4, 'kind': 'affine'}], ['bit', {'k': 4, 'kind': 77}]],
         [['integer', {'bits': 1, 'k': 3, 'kind': 77}], ['integer', {'bits': 1, 'k': 3, 'kind': 77}]],
         [['binding', {'kind': 77}], ['binding', {'kind': ('affine', 1)}]],
         [['secrets', {'bits': 2}], ['secrets', {'bits': 3}]],
         [['overflow', {'bits': 1}], ['overflow', {'bits': 2}]],
         [['openings', {'bits': 2, 'comms': 1, 'given': 1}], ['openings', {'bits': 2, 'comms': 1, 'given': 1}]],
         [['bit', {'k': 4, 'kind': 77}], ['bit', {'k': 4, 'kind': 'affine'}]],
         [['integer', {'bits': 1, 'k': 3, 'kind': 'affine'}], ['integer', {'bits': 2, 'k': 3, 'kind': 'affine'}]],
         [['secrets', {'bits': 3}], ['secrets', {'bits': 4}]],
         [['overflow', {'bits': 2}], ['overflow', {'bits': 4}]]],
 'c23': [[['independent', {'what': 'copy'}], ['independent', {'what': 'copy'}]],
         [['uniform', {'n': 1}], ['uniform', {'n': 1}]],
         [['spread', {'n': 1}], ['spread', {'n': 1}]],
         [['honest', {'m': 1, 'n': 2}], ['honest', {'m': 1, 'n': 2}]],
         [['rounds', {'m': 1, 'n': 2}], ['rounds', {'m': 1, 'n': 2}]],
         [['simulate', {'m': 1, 'n': 2}], ['simulate', {'m': 1, 'n': 2}]],
         [['lengths', {'d': -1, 'k': 1, 'm': 1, 'n': 2}], ['lengths', {'d': -1, 'k': 1, 'm': 1, 'n': 2}]],
         [['sizes', {'m': 2, 'n': 3}], ['sizes', {'m': 2, 'n': 3}]],
         [['extract', {'H': [[1, 1]], 'n': 2}], ['extract', {'H': [[1, 1]], 'n': 2}]],
         [['convince', {'k': 1, 'm': 0, 'n': 3}], ['convince', {'k': 1, 'm': 0, 'n': 3}]],
         [['independent', {'what': 'copy'}], ['independent', {'what': 'challenge'}]],
         [['uniform', {'n': 1}], ['uniform', {'n': 2}]],
         [['spread', {'n': 1}], ['spread', {'n': 2}]],
         [['lengths', {'d': -1, 'k': 1, 'm': 1, 'n': 2}], ['lengths', {'d': 1, 'k': 1, 'm': 1, 'n': 2}]],
         [['independent', {'what': 'challenge'}], ['independent', {'what': 'simulated'}]],
         [['uniform', {'n': 3}], ['uniform', {'n': 1}]]],
 'c24': [[['spread', {'kind': 'shift'}], ['spread', {'kind': 'shift'}]],
         [['independent', {'kind': 'shift', 'what': 'edge'}], ['independent', {'kind': 'shift', 'what': 'edge'}]],
         [['fresh', {'kind': 'shift'}], ['fresh', {'kind': 'shift'}]],
         [['sound', {'edge': [1, 2], 'given': [2, 2], 'kind': 'shift'}], ['sound', {'edge': [1, 2], 'given': [2, 2], 'kind': 'shift'}]],
         [['independent', {'kind': 'shift', 'what': 'edge'}], ['independent', {'kind': 'shift', 'what': 'colours'}]],
         [['sound', {'edge': [2, 1], 'given': [2, 2], 'kind': 'shift'}], ['sound', {'edge': [2, 1], 'given': [2, 2], 'kind': 'shift'}]],
         [['independent', {'kind': 'shift', 'what': 'colours'}], ['independent', {'kind': 'shift', 'what': 'edge'}]],
         [['sound', {'edge': [1, 2], 'given': [2, 2], 'kind': 'shift'}], ['sound', {'edge': [2, 1], 'given': [2, 2], 'kind': 'shift'}]],
         [['sound', {'edge': [2, 1], 'given': [2, 2], 'kind': 'shift'}], ['sound', {'edge': [1, 2], 'given': [2, 2], 'kind': 'shift'}]]],
 'c25': [[['decompose', {'hi': 4096}], ['decompose', {'hi': 4096}]],
         [['parity', {'bits': 8}], ['parity', {'bits': 8}]],
         [['decompose_wide', {'e': 0, 'pos': [63, 200, 255, 256, 511]}], ['decompose_wide', {'e': 0, 'pos': [63, 200, 255, 256, 511]}]],
         [['prime', {'acc': 2, 'p': 2}], ['prime', {'acc': 2, 'p': 2}]],
         [['composite', {'acc': 1, 'n': 0}], ['composite', {'acc': 1, 'n': 0}]],
         [['rounds', {'acc': 2, 'n': 9}], ['rounds', {'acc': 2, 'n': 9}]],
         [['good', {'p': 0}], ['good', {'p': 0}]],
         [['find', {'bits': 4, 'draws': 3}], ['find', {'bits': 4, 'draws': 3}]],
         [['parity', {'bits': 8}], ['parity', {'bits': 12}]],
         [['decompose_wide', {'e': 0, 'pos': [63, 200, 255, 256, 511]}], ['decompose_wide', {'e': 1, 'pos': [63, 200, 255, 256, 511]}]],
         [['prime', {'acc': 2, 'p': 19}], ['prime', {'acc': 2, 'p': 19}]],
         [['composite', {'acc': 1, 'n': 26}], ['composite', {'acc': 1, 'n': 26}]],
         [['rounds', {'acc': 2, 'n': 33}], ['rounds', {'acc': 2, 'n': 33}]],
         [['good', {'p': 16}], ['good', {'p': 16}]],
         [['parity', {'bits': 12}], ['parity', {'bits': 8}]],
         [['prime', {'acc': 2, 'p': 2}], ['prime', {'acc': 2, 'p': 3}]]],
 'c26': [[['digest', {'kind': 'text'}], ['digest', {'kind': 'text'}]],
         [['bookkeeping', {'ops': 1}], ['bookkeeping', {'ops': 1}]],
         [['proofs', {'n': 2}], ['proofs', {'n': 2}]],
         [['order', {'n': 2}], ['order', {'n': 2}]],
         [['tampered', {'field': 'previous_hash', 'k': 1, 'n': 2}], ['tampered', {'field': 'previous_hash', 'k': 1, 'n': 2}]],
         [['pow_', {'hi': 3}], ['pow_', {'hi': 3}]],
         [['predicate', {'last': (0, 9), 'proof': (0, 9)}], ['predicate', {'last': (0, 9), 'proof': (0, 9)}]],
         [['consensus', {'after': 1, 'own': 1, 'sizes': []}], ['consensus', {'after': 1, 'own': 1, 'sizes': []}]],
         [['nodes', {}], ['nodes', {}]],
         [['bookkeeping', {'ops': 1}], ['bookkeeping', {'ops': 2}]],
         [['proofs', {'n': 2}], ['proofs', {'n': 3}]],
         [['order', {'n': 2}], ['order', {'n': 3}]],
         [['predicate', {'last': (0, 9), 'proof': (0, 9)}], ['predicate', {'last': (10, 99), 'proof': (0, 9)}]],
         [['proofs', {'n': 3}], ['proofs', {'n': 4}]],
         [['tampered', {'field': 'index', 'k': 1, 'n': 3}], ['tampered', {'field': 'timestamp', 'k': 1, 'n': 3}]],
         [['predicate', {'last': (10, 99), 'proof': (0, 9)}], ['predicate', {'last': (0, 9), 'proof': (0, 9)}]]],
 'c27': [[['build', {'p': 2}], ['build', {'p': 2}]],
         [['arithmetic', {'op': 'add', 'p': 2}], ['arithmetic', {'op': 'add', 'p': 2}]],
         [['equality', {'p': 2}], ['equality', {'p': 2}]],
         [['mixed', {'p': 2}], ['mixed', {'p': 2}]],
         [['encoding', {'p': 2}], ['encoding', {'p': 2}]],
         [['augmented', {'op': 'add', 'p': 2}], ['augmented', {'op': 'add', 'p': 2}]],
         [['laws', {'p': 2}], ['laws', {'p': 2}]],
         [['power', {'n': 0, 'p': 2}], ['power', {'n': 0, 'p': 2}]],
         [['build', {'p': 5}], ['build', {'p': 5}]],
         [['arithmetic', {'op': 'add', 'p': 2}], ['arithmetic', {'op': 'sub', 'p': 2}]],
         [['mixed', {'p': 2}], ['mixed', {'p': 3}]],
         [['augmented', {'op': 'sub', 'p': 3}], ['augmented', {'op': 'sub', 'p': 3}]],
         [['power', {'n': 3, 'p': 5}], ['power', {'n': 3, 'p': 5}]],
         [['build', {'p': 2}], ['build', {'p': 3}]],
         [['arithmetic', {'op': 'add', 'p': 2}], ['arithmetic', {'op': 'add', 'p': 3}]],
         [['equality', {'p': 2}], ['equality', {'p': 3}]]],
 'c28': [[['memo', {'calls': 2, 'names': ['position'], 'top': 2}], ['memo', {'calls': 2, 'names': ['position'], 'top': 2}]],
         [['failing', {}], ['failing', {}]],
         [['alike_fields', {'kind': 'modp'}], ['alike_fields', {'kind': 'modp'}]],
         [['ints', {'kind': 'modp'}], ['ints', {'kind': 'modp'}]],
         [['many', {'kind': 'memo', 'n': 40}], ['many', {'kind': 'memo', 'n': 40}]],
         [['rings', {'kind': 'polynomials'}], ['rings', {'kind': 'polynomials'}]],
         [['memo', {'calls': 2, 'names': ['position'], 'top': 2}], ['memo', {'calls': 3, 'names': ['position'], 'top': 2}]],
         [['alike_fields', {'kind': 'modp'}], ['alike_fields', {'kind': 'rationals'}]],
         [['rings', {'kind': 'polynomials'}], ['rings', {'kind': 'multivariates'}]],
         [['memo', {'calls': 3, 'names': ['name'], 'top': 2}], ['memo', {'calls': 2, 'names': ['name'], 'top': 2}]],
         [['alike_fields', {'kind': 'rationals'}], ['alike_fields', {'kind': 'modp'}]],
         [['ints', {'kind': 'rationals'}], ['ints', {'kind': 'modp'}]],
         [['rings', {'kind': 'multivariates'}], ['rings', {'kind': 'polynomials'}]],
         [['memo', {'calls': 2, 'names': ['position'], 'top': 2}], ['memo', {'calls': 2, 'names': ['name'], 'top': 2}]]],
 'c29': [[['trace', {'n': 2, 'p': 5, 'w': 2}], ['trace', {'n': 2, 'p': 5, 'w': 2}]],
         [['boundary', {'lead': 0, 'n': 4, 'p': 5, 'rows': None, 'w': 1}], ['boundary', {'lead': 0, 'n': 4, 'p': 5, 'rows': None, 'w': 1}]],
         [['constraint',
           {'lead': 0, 'n': 2, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041, 'polys': 'CUBE1', 'w': 1}],
          ['constraint',
           {'lead': 0, 'n': 2, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041, 'polys': 'CUBE1', 'w': 1}]],
         [['pipeline', {'free': 9, 'n': 2, 'polys': 'CUBE1', 'w': 1}], ['pipeline', {'free': 9, 'n': 2, 'polys': 'CUBE1', 'w': 1}]],
         [['remainder', {'count': 2, 'n': 2, 'p': 5, 'size': 2}], ['remainder', {'count': 2, 'n': 2, 'p': 5, 'size': 2}]],
         [['multiple', {'count': 1, 'n': 2, 'size': 2}], ['multiple', {'count': 1, 'n': 2, 'size': 2}]],
         [['combination', {'deg': 8, 'n': 4, 'reg': 0, 'size': 2, 'w': 1, 'which': 'T'}],
          ['combination', {'deg': 8, 'n': 4, 'reg': 0, 'size': 2, 'w': 1, 'which': 'T'}]],
         [['binds', {'deg': 8, 'n': 4, 'reg': 0, 'w': 1, 'which': 'T'}], ['binds', {'deg': 8, 'n': 4, 'reg': 0, 'w': 1, 'which': 'T'}]],
         [['distinct', {'deg': 8, 'n': 4, 'w': 1}], ['distinct', {'deg': 8, 'n': 4, 'w': 1}]],
         [['weights', {'num': 0}], ['weights', {'num': 0}]],
         [['boundary', {'lead': 0, 'n': 4, 'p': 5, 'rows': None, 'w': 1}],
          ['boundary',
           {'lead': 0, 'n': 4, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041, 'rows': None, 'w': 1}]],
         [['pipeline', {'free': 9, 'n': 4, 'polys': 'LINEAR1', 'w': 1}], ['pipeline', {'free': 9, 'n': 8, 'polys': 'LINEAR1', 'w': 1}]],
         [['remainder', {'n': 4, 'p': 5, 'size': 4}], ['remainder', {'n': 4, 'p': 5, 'size': 4}]],
         [['binds', {'deg': 8, 'n': 4, 'reg': 1, 'w': 2, 'which': 'D'}], ['binds', {'deg': 8, 'n': 4, 'reg': 1, 'w': 2, 'which': 'D'}]],
         [['distinct', {'deg': 8, 'n': 4, 'w': 1}], ['distinct', {'deg': 8, 'n': 4, 'w': 2}]],
         [['weights', {'num': 5}], ['weights', {'num': 5}]]],
 'c30': [[['solve', {'kind': 'field', 'm': 1, 'n': 1, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}],
          ['solve', {'kind': 'field', 'm': 1, 'n': 1, 'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041}]],
         [['large', {'free': [(2, 0), (0, 3)], 'n': 3, 'p': 7, 'seed': 4, 'zero': 1}],
          ['large', {'free': [(2, 0), (0, 3)], 'n': 3, 'p': 7, 'seed': 4, 'zero': 1}]],
         [['solve', {'kind': 'poly', 'm': 1, 'n': 1, 'p': 7}], ['solve', {'kind': 'poly', 'm': 1, 'n': 1, 'p': 7}]],
         [['large', {'free': [(0, 4), (3, 4)], 'n': 4, 'p': 257, 'seed': 5, 'zero': 1}],
          ['large', {'free': [(0, 4), (3, 4)], 'n': 4, 'p': 257, 'seed': 5, 'zero': 1}]],
         [['solve', {'fixed': [[0, 1, 2, 1]], 'kind': 'field', 'm': 1, 'n': 3, 'p': 3}],
          ['solve', {'fixed': [[2, 0, 0, 1]], 'kind': 'field', 'm': 1, 'n': 3, 'p': 3}]],
         [['large', {'free': [(2, 0), (0, 3)], 'n': 3, 'p': 7, 'seed': 4, 'zero': 1}],
          ['large', {'free': [(2, 0), (0, 3)], 'n': 3, 'p': 257, 'seed': 4, 'zero': 1}]],
         [['solve', {'kind': 'field', 'm': 1, 'n': 1, 'p': 2}], ['solve', {'kind': 'poly', 'm': 1, 'n': 1, 'p': 2}]],
         [['large', {'free': [(0, 4), (3, 4)], 'n': 4, 'p': 257, 'seed': 5, 'zero': 1}],
          ['large',
           {'free': [(0, 4), (3, 4)],
            'n': 4,
            'p': 115792089237316195423570985008687907853269984665640564039457584006405596119041,
            'seed': 5,
            'zero': 1}]]],
 'c31': [[['taylor', {'k': 2, 'm': 8, 'n': 1}], ['taylor', {'k': 2, 'm': 8, 'n': 1}]],
         [['subspace', {'eta': 1, 'k': 0, 'm': 3}], ['subspace', {'eta': 1, 'k': 0, 'm': 3}]],
         [['taylor', {'k': 8, 'm': 16, 'n': 3}], ['taylor', {'k': 8, 'm': 16, 'n': 3}]],
         [['subspace', {'eta': 1, 'k': 0, 'm': 3}], ['subspace', {'eta': 1, 'k': 2, 'm': 3}]],
         [['taylor', {'k': 2, 'm': 8, 'n': 1}], ['taylor', {'k': 3, 'm': 8, 'n': 1}]],
         [['subspace', {'eta': 1, 'k': 2, 'm': 3}], ['subspace', {'eta': 1, 'k': 0, 'm': 3}]],
         [['taylor', {'k': 3, 'm': 8, 'n': 2}], ['taylor', {'k': 4, 'm': 8, 'n': 2}]]]}
