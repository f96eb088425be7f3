/* Fault seam of the Python extensions: their allocations (C library and
 * Python objects) can be made to fail.  Linked with --wrap, so the code of
 * /repo is compiled unchanged. */
#include <Python.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

long long shim_calls;     /* allocations since the last reset */
long long shim_fail_at;   /* the n-th of them fails (0: none) */
long long shim_fail_for;  /* and how many after it */
long long shim_failed;
long long shim_live;     /* C allocations not freed yet */

void (*shim_point)(int cost);  /* other threads may run now */
static __thread PyThreadState *released;  /* by this thread, the interpreter lock */
static int unlocked;  /* threads that have released it */
static __thread unsigned int blocks;

static int fails(void)
{
    shim_calls++;

    if (shim_fail_at && shim_calls >= shim_fail_at && shim_calls < shim_fail_at + shim_fail_for) {
        shim_failed++;

        if (shim_failed > 100000) {
            /* asking again and again */
            fprintf(stderr, "HANG: no memory\n");
            _exit(97);
        }

        return 1;
    }

    return 0;
}

void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
PyObject *__real_PyBytes_FromStringAndSize(const char *p, Py_ssize_t n);
PyObject *__real_PyByteArray_FromStringAndSize(const char *p, Py_ssize_t n);
int __real_PyByteArray_Resize(PyObject *o, Py_ssize_t n);
PyObject *__real_PyList_New(Py_ssize_t n);
int __real_PyList_Append(PyObject *l, PyObject *o);

static void *live(void *p)
{
    shim_live += (p != NULL);

    return p;
}

void *__wrap_malloc(size_t n) { return fails() ? NULL : live(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return fails() ? NULL : live(__real_calloc(n, m)); }

void *__wrap_realloc(void *p, size_t n)
{
    if (fails())
        return NULL;

    return p == NULL ? live(__real_realloc(p, n)) : __real_realloc(p, n);
}

void __wrap_free(void *p)
{
    shim_live -= (p != NULL);
    __real_free(p);
}

PyObject *__wrap_PyBytes_FromStringAndSize(const char *p, Py_ssize_t n)
{
    return fails() ? PyErr_NoMemory() : __real_PyBytes_FromStringAndSize(p, n);
}

PyObject *__wrap_PyByteArray_FromStringAndSize(const char *p, Py_ssize_t n)
{
    return fails() ? PyErr_NoMemory() : __real_PyByteArray_FromStringAndSize(p, n);
}

int __wrap_PyByteArray_Resize(PyObject *o, Py_ssize_t n)
{
    if (fails()) {
        PyErr_NoMemory();

        return -1;
    }

    return __real_PyByteArray_Resize(o, n);
}

PyObject *__wrap_PyList_New(Py_ssize_t n)
{
    return fails() ? PyErr_NoMemory() : __real_PyList_New(n);
}

int __wrap_PyList_Append(PyObject *l, PyObject *o)
{
    if (fails()) {
        PyErr_NoMemory();

        return -1;
    }

    return __real_PyList_Append(l, o);
}

PyThreadState *__real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(PyThreadState *state);

PyThreadState *__wrap_PyEval_SaveThread(void)
{
    if (shim_point != NULL)
        shim_point(1000);

    blocks = 0;
    unlocked++;
    released = __real_PyEval_SaveThread();

    return released;
}

void __wrap_PyEval_RestoreThread(PyThreadState *state)
{
    released = NULL;
    __real_PyEval_RestoreThread(state);
    unlocked--;

    if (shim_point != NULL)
        shim_point(1000);
}

/* Every block of the compiled code (-fsanitize-coverage=trace-pc): while it
 * runs without the interpreter lock, others may run. */
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void)
{
    PyThreadState *state;

    if (unlocked == 0)
        return;

    state = released;

    if (state == NULL || shim_point == NULL || ++blocks % 64 != 0)
        return;

    released = NULL;
    __real_PyEval_RestoreThread(state);
    shim_point(64);
    released = __real_PyEval_SaveThread();
}
