// numpy array storage from the simulated heap
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <string.h>
void* rt_np_malloc(size_t); void rt_np_free(void*); void* rt_np_realloc(void*, size_t);
static void* m(void* c, size_t n) { return rt_np_malloc(n); }
static void* z(void* c, size_t a, size_t b) { void* p; if (b && a > (size_t)-1 / b) return 0; p = rt_np_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static void* r(void* c, void* p, size_t n) { return rt_np_realloc(p, n); }
static void f(void* c, void* p, size_t n) { rt_np_free(p); }
static PyDataMem_Handler h = { "sim", 1, { 0, m, z, r, f } };
static PyObject* install(PyObject* self, PyObject* args)
{
  PyObject *cap = PyCapsule_New(&h, "mem_handler", 0), *old;
  if (!cap) return 0;
  old = PyDataMem_SetHandler(cap);
  Py_DECREF(cap);
  if (!old) return 0;
  Py_DECREF(old);
  Py_RETURN_NONE;
}
static PyMethodDef ms[] = { { "install", install, METH_NOARGS, 0 }, { 0 } };
static struct PyModuleDef md = { PyModuleDef_HEAD_INIT, "_hlnpmem", 0, -1, ms };
PyMODINIT_FUNC PyInit__hlnpmem(void) { import_array(); return PyModule_Create(&md); }
