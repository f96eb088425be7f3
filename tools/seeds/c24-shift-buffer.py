PROPERTY = 'C24'
NEEDS = '''Two in-place applies at the same time, one reading its from-data while the other is between reading and writing its own.'''
BREAKS = '''The memory gets the from-data of the other apply, and the image is wrong.'''
EDITS = [
('detools/apply.py',
'''class PatchReader(object):
''',
'''# From-data on its way to its new place.
SHIFT_BUFFER = bytearray()


class PatchReader(object):
'''),
('detools/apply.py',
'''    from_data = fmem.read(from_size)
''',
'''    SHIFT_BUFFER[:] = fmem.read(from_size)
'''),
('detools/apply.py',
'''    fmem.write(from_data[:memory_size - shift_size])
''',
'''    fmem.write(SHIFT_BUFFER[:memory_size - shift_size])
'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import random
import threading
import detools

r = random.Random(3)
images = [[bytes(r.randrange(256) for _ in range(3000))] for _ in range(2)]

for image in images:
    to = image[0][:1000] + b'abcd' + image[0][1000:]
    patch = io.BytesIO()
    detools.create_patch(io.BytesIO(image[0]), io.BytesIO(to), patch,
                         patch_type='in-place', memory_size=8000, segment_size=500)
    image += [to, patch.getvalue()]


class Memory(io.BytesIO):
    """Waits on the way to where the from-data is moved to."""

    def seek(self, offset, whence=0):
        if offset > 0 and not waiting.is_set():
            waiting.set()
            go_on.wait()

        return super().seek(offset, whence)


def apply(memory, image):
    memory.write(image[0])
    memory.seek(0)
    done = detools.apply_patch_in_place(memory, io.BytesIO(image[2]))
    assert memory.getvalue()[:len(image[1])] == image[1]


waiting, go_on = threading.Event(), threading.Event()
memory = Memory(images[0][0] + bytes(5000))
thread = threading.Thread(target=lambda: detools.apply_patch_in_place(
    memory, io.BytesIO(images[0][2])))
thread.start()
assert waiting.wait(60)
apply(io.BytesIO(bytes(8000)), images[1])
go_on.set()
thread.join()
assert memory.getvalue()[:len(images[0][1])] == images[0][1]
'''
