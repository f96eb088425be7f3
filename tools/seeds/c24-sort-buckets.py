PROPERTY = 'C24'
NEEDS = '''Two threads that create patches, one entering the suffix sort while the other is in it. (The buckets that are kept between calls and the interpreter lock that is released while sorting are each fine alone.)'''
BREAKS = '''Both use the same buckets: the suffix array is wrong, so is the patch, or the process dies.'''
EDITS = [
('detools/libdivsufsort/divsufsort.c.inc.h',
'''divsufsort(const sauchar_t *T, saidx_t *SA, saidx_t n) {
  saidx_t *bucket_A, *bucket_B;
''',
'''divsufsort(const sauchar_t *T, saidx_t *SA, saidx_t n) {
  static saidx_t *bucket_A, *bucket_B;
'''),
('detools/libdivsufsort/divsufsort.c.inc.h',
'''  else if(n == 2) { m = (T[0] < T[1]); SA[m ^ 1] = 0, SA[m] = 1; return 0; }

  bucket_A = (saidx_t *)malloc(BUCKET_A_SIZE * sizeof(saidx_t));
  bucket_B = (saidx_t *)malloc(BUCKET_B_SIZE * sizeof(saidx_t));

  /* Suffixsort. */
''',
'''  else if(n == 2) { m = (T[0] < T[1]); SA[m ^ 1] = 0, SA[m] = 1; return 0; }

  /* The buckets are kept for the next call. */
  if(bucket_A == NULL) { bucket_A = (saidx_t *)malloc(BUCKET_A_SIZE * sizeof(saidx_t)); }
  if(bucket_B == NULL) { bucket_B = (saidx_t *)malloc(BUCKET_B_SIZE * sizeof(saidx_t)); }

  /* Suffixsort. */
'''),
('detools/libdivsufsort/divsufsort.c.inc.h',
'''    err = -2;
  }

  free(bucket_B);
  free(bucket_A);

  return err;
}

saidx_t
divbwt(''',
'''    err = -2;
  }

  return err;
}

saidx_t
divbwt('''),
('detools/suffix_array.c',
'''    res = create_callback((uint8_t *)from_view.buf,
                          &suffix_array_p[1],
                          (int32_t)from_view.len);
''',
'''    Py_BEGIN_ALLOW_THREADS
    res = create_callback((uint8_t *)from_view.buf,
                          &suffix_array_p[1],
                          (int32_t)from_view.len);
    Py_END_ALLOW_THREADS
'''),
]
DEMO = r'''
from lib import *
build_py()
import os
import random
import sys
import threading
from detools.suffix_array import divsufsort

r = random.Random(1)
datas = [r.randbytes(400000) for _ in range(4)]
bad = []


def create(data):
    array = bytearray(4 * (len(data) + 1))
    divsufsort(data, array)

    return array


expected = [create(data) for data in datas]


def work(i):
    for _ in range(15):
        if create(datas[i]) != expected[i]:
            bad.append(i)


threads = [threading.Thread(target=work, args=(i, )) for i in range(4)]

for thread in threads:
    thread.start()

for thread in threads:
    thread.join()

assert not bad
'''
