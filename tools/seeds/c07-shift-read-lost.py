PROPERTY = 'C07'
NEEDS = '''A memory read or write that fails while the memory is shifted, other
than for the last part of a segment, in an apply without step callbacks.'''
BREAKS = '''The failure is forgotten when the next part of the segment is
copied, and the apply goes on with wrong data.'''
EDITS = [('c/detools.c',
'''                                    size);

            if (res != 0) {
                return (res);
            }

            res = in_place_mem_write(self_p,
                                     write_address + offset,
                                     &buf[0],
                                     size);

            if (res != 0) {
                return (res);
            }

            offset += size;
        }

        res = in_place_next_step(self_p);

        if (res != 0) {
            return (res);
        }
''',
'''                                    size);

            if (res == 0) {
                res = in_place_mem_write(self_p,
                                         write_address + offset,
                                         &buf[0],
                                         size);
            }

            offset += size;
        }

        if (res == 0) {
            res = in_place_next_step(self_p);
        }

        if (res != 0) {
            return (res);
        }
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(1500))
to = bytes(b ^ 1 for b in frm)
patch = in_place_same(CRLE, 2000, 500, 500, frm, to)

for bad in range(40):
    count = []
    failed = []

    def hook(name, *args):
        if name == 'write':
            count.append(1)

            if len(count) == bad + 1:
                failed.append(bad)

                return -5

        return 0

    mem = Mem(so, bytearray(frm + 500 * b'\xff'), len(patch), hook=hook)
    res = mem.apply(patch)

    if (res >= 0) == bool(failed):
        print(bad, res, failed)
        sys.exit(1)
'''
