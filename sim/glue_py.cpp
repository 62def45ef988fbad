extern "C" {
void rt_gil_restore(void*, void (*)(void*));
void __real_PyEval_RestoreThread(void*);
void __wrap_PyEval_RestoreThread(void* t) { rt_gil_restore(t, __real_PyEval_RestoreThread); }
}
