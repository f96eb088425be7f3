PROPERTY = 'C13'
NEEDS = '''A second in-place apply with the callback interface started from a
callback of the first.'''
BREAKS = '''Both use the same object, so that the first goes on with the state of
the second.'''
EDITS = [('c/detools.c',
'''    int res;
    struct detools_apply_patch_in_place_t apply_patch;

    res = detools_apply_patch_in_place_init(&apply_patch,
''',
'''    int res;
    /* Big, not on the stack. */
    static struct detools_apply_patch_in_place_t apply_patch;

    res = detools_apply_patch_in_place_init(&apply_patch,
''')]
DEMO = r'''
from lib import *

so = build_so()
so.detools_apply_patch_in_place_callbacks.argtypes = [
    MEMREAD, MEMWRITE, MEMERASE, ctypes.c_void_p, ctypes.c_void_p, READ,
    ctypes.c_size_t, ctypes.c_void_p]


def apply(frm, to, inner=None):
    patch = in_place_same(CRLE, 512, 64, 64, frm, to)
    mem = Mem(so, bytearray(frm + bytes(512 - len(frm))), len(patch))
    state = [0, inner]

    def read(_arg, buf, n):
        ctypes.memmove(buf, patch[state[0]:state[0] + n], n)
        state[0] += n

        return 0

    def erase(*args):
        fn, state[1] = state[1], None

        if fn is not None:
            fn()

        return mem._erase(*args)

    cb = READ(read), MEMERASE(erase)
    res = so.detools_apply_patch_in_place_callbacks(
        mem.callbacks[0], mem.callbacks[1], cb[1], None, None, cb[0],
        len(patch), None)

    return res == len(to) and mem.memory[:len(to)] == to


a = bytes(i * i + i // 3 & 0xff for i in range(400))
b = bytes(i * i + i // 5 & 0xff for i in range(300))
inner = []
good = apply(a, bytes(x ^ 1 for x in a),
             lambda: inner.append(apply(b, bytes(x ^ 9 for x in b))))
print(good, inner)
sys.exit(not (good and inner == [True]))
'''
