// The allocator behind numpy arrays: blocks end at a page boundary, freed
// blocks are unmapped, the n-th allocation fails on request.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <execinfo.h>
#include <string.h>
#include <sys/mman.h>
static long fail_in = -1, allocations = 0, failed = 0, live = 0;
static unsigned long long junk = 88172645463325252ull;
static unsigned long scope_low = 0, scope_high = 0;
// Failures are meant for allocations made on behalf of the extension; numpy's
// own Python functions do not all survive them.
static int in_scope(void) {
  void* at[96];
  int n = backtrace(at, 96);
  for (int i = 0; i < n; i++)
    if ((unsigned long)at[i] >= scope_low && (unsigned long)at[i] < scope_high) return 1;
  return 0;
}
static size_t round_up(size_t n) { return ((n ? n : 1) + 4095) / 4096 * 4096; }
static char* place(char* base, size_t n) { return base + (round_up(n) - n) / 64 * 64; }
static void* get(void* ctx, size_t n) {
  allocations++;
  if (fail_in >= 0 && in_scope() && fail_in-- == 0) {
    failed++;
    return NULL;
  }
  if (n > (size_t)1 << 28) return NULL;
  size_t r = round_up(n);
  char* base = mmap(NULL, r + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (base == MAP_FAILED) return NULL;
  mprotect(base + r, 4096, PROT_NONE);
  for (size_t i = 0; i < r; i += 8) {
    junk ^= junk << 13, junk ^= junk >> 7, junk ^= junk << 17;
    memcpy(base + i, &junk, 8);
  }
  live++;
  return place(base, n);
}
static void* zeroed(void* ctx, size_t a, size_t b) {
  void* p = get(ctx, a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
static void drop(void* ctx, void* p, size_t n) {
  if (!p) return;
  live--;
  char* base = (char*)p - (place(NULL, n) - (char*)NULL);
  munmap(base, round_up(n) + 4096);
}
// growing an array in place is refused
static void* again(void* ctx, void* p, size_t n) { return NULL; }
static PyDataMem_Handler handler = {"lce_sim", 1, {NULL, get, zeroed, again, drop}};
static PyObject* install(PyObject* self, PyObject* none) {
  PyObject* c = PyCapsule_New(&handler, "mem_handler", NULL);
  PyObject* old = PyDataMem_SetHandler(c);
  Py_XDECREF(c);
  if (!old) return NULL;
  Py_DECREF(old);
  Py_RETURN_NONE;
}
static PyObject* arm(PyObject* self, PyObject* a) {
  fail_in = PyLong_AsLong(a);
  Py_RETURN_NONE;
}
static PyObject* scope(PyObject* self, PyObject* a) {
  void* warm[4];
  backtrace(warm, 4);
  if (!PyArg_ParseTuple(a, "kk", &scope_low, &scope_high)) return NULL;
  Py_RETURN_NONE;
}
static PyObject* counts(PyObject* self, PyObject* none) { return Py_BuildValue("(lll)", allocations, failed, live); }
static PyObject* seed(PyObject* self, PyObject* a) {
  junk = PyLong_AsUnsignedLongLongMask(a) * 0x9e3779b97f4a7c15ull | 1;
  Py_RETURN_NONE;
}
static PyMethodDef methods[] = {{"install", install, METH_NOARGS, 0}, {"arm", arm, METH_O, 0}, {"counts", counts, METH_NOARGS, 0}, {"seed", seed, METH_O, 0}, {"scope", scope, METH_VARARGS, 0}, {0}};
static struct PyModuleDef module = {PyModuleDef_HEAD_INIT, "memctl", 0, -1, methods};
PyMODINIT_FUNC PyInit_memctl(void) {
  import_array();
  return PyModule_Create(&module);
}
