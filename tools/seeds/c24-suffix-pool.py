PROPERTY = 'C24'
NEEDS = '''A patch creation that starts after the suffix array of another one has been made and before it has been used.'''
BREAKS = '''The suffix array is that of the other from-data, and the patch is wrong or the creation reads outside its data.'''
EDITS = [
('detools/create.py',
'''LOGGER = logging.getLogger(__name__)
''',
'''LOGGER = logging.getLogger(__name__)

# Memory for suffix arrays. Takes long to allocate for big files.
POOL = {}
'''),
('detools/create.py',
'''    suffix_array = bytearray(4 * (len(from_data) + 1))
    create_suffix_array(''',
'''    size = 4 * (len(from_data) + 1)
    suffix_array = POOL.setdefault(size, bytearray(size))
    create_suffix_array('''),
]
DEMO = r'''
from lib import *
build_py()
import io
import random
import threading
import detools

r = random.Random(1)
alphabets = b'abcdefgh', b'stuvwxyz'
images = []

for alphabet in alphabets:
    frm = bytes(r.choice(alphabet) for _ in range(1000))
    images.append((frm, frm[500:] + frm[:500] + bytes(10)))


class Stream(io.BytesIO):
    """Waits when it is read."""

    def read(self, size=-1):
        reading.set()
        go_on.wait()

        return super().read(size)


def create(frm, to):
    patch = io.BytesIO()
    detools.create_patch(io.BytesIO(frm), to, patch, use_mmap=False)

    return patch.getvalue()


expected = [create(frm, io.BytesIO(to)) for frm, to in images]
reading, go_on = threading.Event(), threading.Event()
got = []
thread = threading.Thread(target=lambda: got.append(create(images[0][0],
                                                           Stream(images[0][1]))))
thread.start()
reading.wait()
assert create(images[1][0], io.BytesIO(images[1][1])) == expected[1]
go_on.set()
thread.join()
assert got == expected[:1]
'''
