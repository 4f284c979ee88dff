// Eigen results become fresh numpy arrays; Eigen arguments are read from sequences or arrays.
#pragma once
#include "pybind11.h"
#include <Eigen/Core>
namespace pybind11 {
namespace detail {
inline PyObject *np_empty(std::vector<Py_ssize_t> shape, double **out) {
  static PyObject *empty = nullptr;
  if (!empty) {
    PyObject *np = own(PyImport_ImportModule("numpy"));
    empty = own(PyObject_GetAttrString(np, "empty"));
  }
  PyObject *t = own(PyTuple_New(shape.size()));
  for (size_t i = 0; i < shape.size(); i++)
    PyTuple_SET_ITEM(t, i, PyLong_FromSsize_t(shape[i]));
  PyObject *a = PyObject_CallFunctionObjArgs(empty, t, nullptr);
  Py_DECREF(t);
  own(a);
  Py_buffer b;
  if (PyObject_GetBuffer(a, &b, PyBUF_WRITABLE | PyBUF_C_CONTIGUOUS))
    throw error_already_set();
  *out = static_cast<double *>(b.buf);
  PyBuffer_Release(&b);
  return a;
}
template <class S, int R, int C, int O, int MR, int MC> struct caster<Eigen::Matrix<S, R, C, O, MR, MC>> {
  typedef Eigen::Matrix<S, R, C, O, MR, MC> Mat;
  static Mat load(PyObject *o) {
    Mat m;
    if (C == 1 || R == 1) {
      auto v = caster<std::vector<double>>::load(o);
      m.resize(C == 1 ? v.size() : 1, C == 1 ? 1 : v.size());
      for (size_t i = 0; i < v.size(); i++)
        m(i) = v[i];
      return m;
    }
    auto v = caster<std::vector<std::vector<double>>>::load(o);
    m.resize(v.size(), v.empty() ? 0 : v[0].size());
    for (size_t i = 0; i < v.size(); i++)
      for (size_t j = 0; j < v[0].size(); j++)
        m(i, j) = v[i].at(j);
    return m;
  }
  static PyObject *cast(const Mat &m) {
    double *d;
    PyObject *a = (C == 1 || R == 1) ? np_empty({(Py_ssize_t)m.size()}, &d) : np_empty({(Py_ssize_t)m.rows(), (Py_ssize_t)m.cols()}, &d);
    for (Eigen::Index i = 0; i < m.rows(); i++)
      for (Eigen::Index j = 0; j < m.cols(); j++)
        d[i * m.cols() + j] = m(i, j);
    return a;
  }
};
} // namespace detail
} // namespace pybind11
