/* Ahead of CPython 3.12's own Python.h on the include path.  The code pybindgen
 * generates says "Py_TYPE(&X) = &Y;", which is an lvalue only up to CPython 3.10.
 * This gives Py_TYPE back its definition from those versions, and changes nothing else. */
#ifndef PYBINDGEN_TOOLS_PYTHON_H
#define PYBINDGEN_TOOLS_PYTHON_H
#include_next <Python.h>
#undef Py_TYPE
#define Py_TYPE(ob) (((PyObject *) (ob))->ob_type)
#endif
