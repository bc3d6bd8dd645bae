"""Writes contracts/parser/known.txt and contracts/resolver/known.txt: the functions, and the loops of each."""
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
from units import parser, resolver
ex, _, _ = parser.Unit().generate('/repo')
with open(os.path.join(H, 'contracts/parser/known.txt'), 'w') as f:
    for p, _, _, _ in sorted(ex.functions):
        if p.startswith('parser::'):
            f.write(f'{p} {ex.shape.get(p, '.')}\n')
ex, _, _ = resolver.Unit().generate('/repo')
with open(os.path.join(H, 'contracts/resolver/known.txt'), 'w') as f:
    for p, _, _, _ in sorted(ex.functions):
        f.write(' '.join([p] + ex.heads.get(p, [])) + '\n')
