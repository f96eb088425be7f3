PROPERTY = 'C19'
NEEDS = '''An ELF file where another section ends at the address where the data begins, elsewhere in the file, and --from-elf-offset or --to-elf-offset.'''
BREAKS = '''The data offset is calculated from the wrong section, so the patch is not that of the given ranges.'''
EDITS = [
('detools/__init__.py',
'''        if begin <= address < begin + size:
            return address - begin + offset
''',
'''        # A symbol may mark the end of a section.
        if begin <= address <= begin + size:
            return address - begin + offset
'''),
]
DEMO = r'''
from lib import *
build_py()
import contextlib
import io
import random
import struct
import sys
import detools

DATA, CODE = 0x20000000, 0x08000000


def elf(text, data):
    names = b'\0.text\0.rodata\0.data\0.symtab\0.strtab\0'
    syms = bytes(16)

    for address, size, kind, index in ((CODE, len(text), 2, 1),
                                       (DATA, len(data), 1, 3)):
        syms += struct.pack('<IIIBBH', 0, address, size, 16 | kind, 0, index)

    sections = [(1, 1, 6, CODE, text, 0, 0), (7, 1, 2, DATA - 64, bytes(64), 0, 0),
                (15, 1, 3, DATA, data, 0, 0), (21, 2, 0, 0, syms, 5, 16),
                (29, 3, 0, 0, names, 0, 0)]
    # The read only data is last in the file.
    order = [0, 2, 3, 4, 1]
    body, places = b'', {}

    for i in order:
        places[i] = 52 + len(body)
        body += sections[i][4]

    head = b'\x7fELF\1\1\1' + bytes(9) + struct.pack(
        '<HHIIIIIHHHHHH', 2, 40, 1, CODE, 0, 52 + len(body), 0, 52, 0, 0, 40, 6, 5)
    table = bytes(40)

    for i, (name, kind, flags, address, content, link, entry) in enumerate(sections):
        table += struct.pack('<10I', name, kind, flags, address, places[i],
                             len(content), link, 0, 1, entry)

    return head + body + table


r = random.Random(1)
text = r.randbytes(400)
data = [struct.pack('<40I', *(DATA + (4 * i + s) % 160 for i in range(40)))
        for s in (0, 8)]
frm, to = (text + d for d in data)
f, t = path('from', frm), path('to', to)
e1, e2 = path('elf1', elf(text, data[0])), path('elf2', elf(text, data[1]))
patches = []


def command(*args):
    p = path('patch')
    sys.argv = ['detools', 'create_patch', '--data-format', 'arm-cortex-m4', *args, f, t, p]

    with contextlib.redirect_stdout(io.StringIO()):
        detools._main()

    return open(p, 'rb').read()


ranges = []

for side in ('from', 'to'):
    ranges += ['--%s-data-offsets' % side, '400-560',
               '--%s-data-addresses' % side, '%d-%d' % (DATA, DATA + 160),
               '--%s-code-addresses' % side, '%d-%d' % (CODE, CODE + 400)]

files = ['--from-elf-file', e1, '--to-elf-file', e2]
wanted = command(*ranges)
assert wanted != command(*[('0-160' if x == '400-560' else x) for x in ranges])
assert command(*files) == wanted
assert command(*files, '--from-elf-offset', '52', '--to-elf-offset', '52') == wanted
'''
