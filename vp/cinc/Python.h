/* stand-in for Python.h: every API function is an external that the IR
   interpreter models */
#ifndef VP_PYTHON_H
#define VP_PYTHON_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
typedef struct _object PyObject;
typedef struct _type PyTypeObject;
typedef long Py_ssize_t;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { int base; } PyModuleDef_Base;
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size;
  PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT {0}
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
#define PY_VERSION_HEX 0x030c0000
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define PyMODINIT_FUNC PyObject *
PyObject *PyModule_Create(PyModuleDef *);
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...);
void Py_DECREF_(void *); void Py_INCREF_(void *); void Py_XDECREF_(void *);
#define Py_DECREF(x) Py_DECREF_((void *)(x))
#define Py_INCREF(x) Py_INCREF_((void *)(x))
#define Py_XDECREF(x) Py_XDECREF_((void *)(x))
#define Py_XINCREF(x) Py_INCREF_((void *)(x))
#define Py_CLEAR(x) do { Py_XDECREF(x); (x) = NULL; } while (0)
extern PyObject *PyExc_ValueError, *PyExc_TypeError, *PyExc_MemoryError, *PyExc_RuntimeError, *PyExc_IndexError;
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void *PyMem_Malloc(size_t); void PyMem_Free(void *); void *PyMem_Calloc(size_t, size_t);
void *PyMem_RawMalloc(size_t); void PyMem_RawFree(void *);
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
PyObject *vp_none(void);
#define Py_None vp_none()
#define Py_RETURN_NONE return vp_none()
#endif
