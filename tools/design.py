"""Writes DESIGN.md from the property list, the notes below and seeded/*/meta.json."""
import os, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOT_APPLICABLE
HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read(); TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()
# oracle: what each transition is compared with; reach: why enumeration reaches what tests cannot; cost: quick wall seconds on 8 cores
O = {
'P01': ('GMP residues', 'zero, one, p-1 and the all-ones/one-bit limb patterns around each carry chain are all in the alphabet, so every branch of every implementation is taken with every aliasing', 8),
'P02': ('schoolbook polynomial arithmetic modulo the defining polynomial, with GMP coefficients (harness/ref.h, tower.h)', 'whole small fields: no operand is special by luck', 15),
'P03': ('the same step computed by fresh elements loaded from canonical bytes', 'hidden state (stale coordinates, cached slopes, lengths) only shows after particular histories; all histories up to the depth are run', 31),
'P04': ('the table of all squares of the field; for large fields Euler criterion and squaring back', 'every random draw of the root finder is scripted', 16),
'P05': ('square-and-multiply through element_mul only, and the running product', 'window-size switches, zero windows and exponents above the order are enumerated', 54),
'P06': ('brute-force addition tables computed with the reference field arithmetic', 'all pairs of points including 2-torsion, inverse pairs and O, in batches and singly', 22),
'P07': ('table of powers of e(P, Q) indexed by ij mod r', 'complete toy groups make bilinearity a finite statement on the real code', 72),
'P08': ('the plain pairing and products of plain pairings', 'every first argument is preprocessed and applied to every second one', 42),
'P09': ('bijection between elements and byte strings, recomputed along several routes', 'all elements of small structures, leading zero bytes included', 10),
'P10': ('membership decided by the reference arithmetic (curve equation, reduced residue)', 'all byte strings of small structures, all corruptions of valid ones', 9),
'P11': ('own parser/printer of the documented grammar', 'every buffer size and every truncation', 5),
'P12': ('independent implementation of the counter expansion, and membership', 'all short messages and every length around the field size', 17),
'P13': ('counting: each element must be hit by equally many answers of the source', 'the random source is replaced by an enumerated one; short reads are injected at every length', 12),
'P14': ('own parser of the parameter syntax; allocation counting; unreadable page behind the buffer', 'every single-fault variant of every text', 6),
'P15': ('primality, embedding degree, curve order, irreducibility and non-residues decided independently, and a bilinearity probe', 'every early answer of the random source at small sizes', 30),
'P16': ('brute force over all field sizes below a bound; class polynomials compared with point counts', 'every discriminant up to the bound, every stopping point of the callback', 12),
'P17': ('GMP integers; multinomials by evaluation at injective points', 'all pairs over an alphabet with word boundaries and both signs', 14),
'P18': ('table of powers', 'every walk of the rho method the scripted source allows', 37),
'P19': ('concatenation of separately printed pieces, truncated as snprintf does', 'all sequences of pieces and all buffer sizes', 8),
'P20': ('counting allocator with guard bytes; AddressSanitizer/UBSan build', 'every operation and life cycle, not only those in the examples', 75),
'P21': ('each script run alone', 'all interleavings of the scripts (objects share static and per-field state)', 60),
'P22': ('array/map model', 'all operation sequences around each growth and shrink step', 16),
'P23': ('exponents mod r, allocation counting', 'all operation sequences incl. self-aliasing; the header is not tested at all upstream', 50),
'P24': ('coefficient vectors mod p, brute-force factor tables', 'all polynomials of small degree, all first draws of the randomised algorithms', 23),
'P25': ('own evaluator of the documented grammar', 'all expression shapes and statement sequences up to the depth', 10),
'P26': ('i l = +-j k mod r', 'all quadruples, the identity included', 36),
'P27': ('allocator interception at link time (--wrap), content of freed blocks', 'all operations of P20', 25),
'P28': ('coefficient-wise GF(3) polynomial arithmetic; tables of multiples and of powers of e(P, P)', 'm at, below and above word boundaries and in all residue classes mod 12', 11),
'P29': ('the transcript of the simplest implementation (naive)', 'the choice is global state that no test switches', 20),
'P30': ('the list of documented field requirements per function', 'every function with every kind of mismatch', 5),
'P31': ('the library under the same random source, and the printed equations', 'all argument lists incl. refused ones; unbounded listings followed to their end', 25),
}
def main():
    out = [HEAD.rstrip(), '', '## Properties', '']
    for p in PROPS:
        o = O[p['id']]
        out += ['### %s %s' % (p['id'], p['title']), '', 'Enumerated: ' + p['bounds'] + '.', '', 'Oracle: %s.  Reach: %s.  Cost: about %d s (quick, 8 cores).  Deciding method: %s' % (o[0], o[1], o[2], p['technique'] + ('' if p['technique'].endswith('.') else '.')), '']
    out += ['## Planted bugs and the checks that catch them', '', 'Each was confirmed in a scratch copy: it builds, loses no stable test, its demo passes before and fails after, and the quick check of its property reports it (`tools/seedtest.sh ID PROP`).', '', '| bug | caught by | what breaks | needs |', '|---|---|---|---|']
    sd = os.path.join(V, 'seeded')
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, 'meta.json'))); out.append('| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs']))
    out += ['', TAIL.rstrip(), '']
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
if __name__ == '__main__': main()
