PROPERTY = 'C01'
NEEDS = '''A CRLE patch with a run of more than 65535 equal bytes.'''
BREAKS = '''The length of the run is kept in 16 bits, so most of the run is
missing and the patch fails or gives other data.'''
EDITS = [('c/detools.c',
'''    crle_p->kind.repeated.number_of_bytes_left = (size_t)repetitions;
''',
'''    crle_p->kind.repeated.number_of_bytes_left = (uint16_t)repetitions;
''')]
DEMO = r'''
from lib import *

so = build_so()

for n in (10, 1000, 65535, 65536, 70000, 200000):
    to = bytes(n)
    data = size(0) + size(0) + size(n)
    patch = (bytes([CRLE]) + size(n)
             + b'\x00' + crle_size(len(data)) + data
             + b'\x01' + crle_size(n) + b'\x00'
             + b'\x00' + crle_size(1) + size(0))
    seq = Seq(so, b'', len(patch))
    seq.process(patch)
    res = seq.finalize()

    if res != n or seq.to != to:
        print(n, res, len(seq.to))
        sys.exit(1)
'''
