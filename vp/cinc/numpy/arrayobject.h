#ifndef VP_NUMPY_H
#define VP_NUMPY_H
typedef long npy_intp;
typedef struct _arr PyArrayObject;
typedef double npy_double;
enum { NPY_BOOL = 0, NPY_INT = 5, NPY_LONG = 7, NPY_FLOAT = 11, NPY_DOUBLE = 12, NPY_CFLOAT = 14, NPY_CDOUBLE = 15 };
#define NPY_COMPLEX128 NPY_CDOUBLE
#define NPY_FLOAT64 NPY_DOUBLE
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_FORCECAST 0x0010
#define NPY_ARRAY_IN_ARRAY (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED)
#define NPY_ARRAY_CARRAY (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE)
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
#define import_array()
PyObject *PyArray_FROM_OTF(PyObject *, int, int);
#define PyArray_FROMANY(o, t, mi, ma, f) PyArray_FROM_OTF(o, t, f)
#define PyArray_ContiguousFromAny(o, t, mi, ma) PyArray_FROM_OTF(o, t, NPY_ARRAY_IN_ARRAY)
void *PyArray_DATA_(void *);
npy_intp PyArray_DIM_(void *, int);
npy_intp *PyArray_DIMS_(void *);
int PyArray_NDIM_(void *);
npy_intp PyArray_SIZE_(void *);
#define PyArray_DATA(a) PyArray_DATA_((void *)(a))
#define PyArray_BYTES(a) ((char *)PyArray_DATA_((void *)(a)))
#define PyArray_DIM(a, i) PyArray_DIM_((void *)(a), (i))
#define PyArray_DIMS(a) PyArray_DIMS_((void *)(a))
#define PyArray_SHAPE(a) PyArray_DIMS_((void *)(a))
#define PyArray_NDIM(a) PyArray_NDIM_((void *)(a))
#define PyArray_SIZE(a) PyArray_SIZE_((void *)(a))
PyObject *PyArray_SimpleNew_(int, npy_intp *, int);
#define PyArray_SimpleNew(n, d, t) PyArray_SimpleNew_((n), (npy_intp *)(d), (t))
PyObject *PyArray_ZEROS_(int, npy_intp *, int, int);
#define PyArray_ZEROS(n, d, t, f) PyArray_ZEROS_((n), (npy_intp *)(d), (t), (f))
#define PyArray_EMPTY(n, d, t, f) PyArray_SimpleNew_((n), (npy_intp *)(d), (t))
PyObject *PyArray_Return(PyArrayObject *);
#endif
