// A small stand-in for the parts of pybind11 that a numeric wrapper module uses,
// on the plain CPython API (pybind11 itself is not installed in the sandbox).
// Conversions follow pybind11: sequences for vectors, __index__ for integers,
// numpy arrays for Eigen results, C++ exceptions to the usual Python ones.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <array>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

struct error_already_set : std::exception {};
struct cast_failure {}; // argument does not convert: try the next overload
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct key_error : std::runtime_error { using std::runtime_error::runtime_error; };

struct arg {
  const char *n;
  explicit arg(const char *s) : n(s) {}
  template <class T> arg &operator=(T &&) { return *this; }
  arg &noconvert() { return *this; }
};
namespace literals {
inline arg operator""_a(const char *s, size_t) { return arg(s); }
} // namespace literals
enum class return_value_policy { automatic, copy, move, reference, reference_internal, take_ownership, automatic_reference };
template <class T> struct call_guard {};
struct gil_scoped_release {};

namespace detail {

template <class T> struct type_slot { static PyTypeObject *&type() { static PyTypeObject *t = nullptr; return t; } };
struct Instance {
  PyObject_HEAD
  void *ptr;
};

template <class T, class = void> struct caster { // registered classes and enums
  static T &load(PyObject *o) {
    PyTypeObject *t = type_slot<T>::type();
    if (!t || !PyObject_TypeCheck(o, t))
      throw cast_failure();
    void *p = reinterpret_cast<Instance *>(o)->ptr;
    if (!p)
      throw std::runtime_error("object is not initialised");
    return *static_cast<T *>(p);
  }
  static PyObject *cast(const T &v) {
    PyTypeObject *t = type_slot<T>::type();
    if (!t)
      throw std::runtime_error("type is not registered");
    PyObject *o = t->tp_alloc(t, 0);
    if (!o)
      throw error_already_set();
    reinterpret_cast<Instance *>(o)->ptr = new T(v);
    return o;
  }
};
template <> struct caster<bool> {
  static bool load(PyObject *o) {
    if (o == Py_True)
      return true;
    if (o == Py_False)
      return false;
    if (o == Py_None)
      return false;
    if (std::strstr(Py_TYPE(o)->tp_name, "bool")) {
      int r = PyObject_IsTrue(o);
      if (r >= 0)
        return r;
    }
    PyErr_Clear();
    throw cast_failure();
  }
  static PyObject *cast(bool b) { return PyBool_FromLong(b); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static T load(PyObject *o) {
    if (PyFloat_Check(o))
      throw cast_failure();
    PyObject *i = PyNumber_Index(o);
    if (!i) {
      PyErr_Clear();
      throw cast_failure();
    }
    bool bad;
    T v;
    if (std::is_unsigned<T>::value) {
      unsigned long long x = PyLong_AsUnsignedLongLong(i);
      v = static_cast<T>(x);
      bad = PyErr_Occurred() || static_cast<unsigned long long>(v) != x;
    } else {
      long long x = PyLong_AsLongLong(i);
      v = static_cast<T>(x);
      bad = PyErr_Occurred() || static_cast<long long>(v) != x;
    }
    Py_DECREF(i);
    if (bad) {
      PyErr_Clear();
      throw cast_failure();
    }
    return v;
  }
  static PyObject *cast(T v) { return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
  static T load(PyObject *o) {
    double d = PyFloat_AsDouble(o);
    if (PyErr_Occurred()) {
      PyErr_Clear();
      throw cast_failure();
    }
    return static_cast<T>(d);
  }
  static PyObject *cast(T v) { return PyFloat_FromDouble(v); }
};
template <> struct caster<std::string> {
  static std::string load(PyObject *o) {
    if (PyUnicode_Check(o)) {
      Py_ssize_t n;
      const char *s = PyUnicode_AsUTF8AndSize(o, &n);
      if (!s) {
        PyErr_Clear();
        throw cast_failure();
      }
      return std::string(s, n);
    }
    if (PyBytes_Check(o))
      return std::string(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o));
    throw cast_failure();
  }
  static PyObject *cast(const std::string &s) {
    PyObject *o = PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr);
    if (!o)
      throw error_already_set();
    return o;
  }
};
template <> struct caster<const char *> {
  static PyObject *cast(const char *s) { return caster<std::string>::cast(s); }
};
struct Seq { // owning view of a sequence
  PyObject *f;
  explicit Seq(PyObject *o) {
    if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o))
      throw cast_failure();
    f = PySequence_Fast(o, "");
    if (!f) {
      PyErr_Clear();
      throw cast_failure();
    }
  }
  ~Seq() { Py_DECREF(f); }
  Py_ssize_t size() const { return PySequence_Fast_GET_SIZE(f); }
  PyObject *operator[](Py_ssize_t i) const { return PySequence_Fast_GET_ITEM(f, i); }
};
inline PyObject *own(PyObject *o) {
  if (!o)
    throw error_already_set();
  return o;
}
template <class T, class A> struct caster<std::vector<T, A>> {
  static std::vector<T, A> load(PyObject *o) {
    Seq s(o);
    std::vector<T, A> v;
    v.reserve(s.size());
    for (Py_ssize_t i = 0; i < s.size(); i++)
      v.push_back(caster<T>::load(s[i]));
    return v;
  }
  static PyObject *cast(const std::vector<T, A> &v) {
    PyObject *l = own(PyList_New(v.size()));
    for (size_t i = 0; i < v.size(); i++)
      PyList_SET_ITEM(l, i, caster<T>::cast(v[i]));
    return l;
  }
};
template <class T, size_t N> struct caster<std::array<T, N>> {
  static std::array<T, N> load(PyObject *o) {
    Seq s(o);
    if (s.size() != (Py_ssize_t)N)
      throw cast_failure();
    std::array<T, N> v;
    for (size_t i = 0; i < N; i++)
      v[i] = caster<T>::load(s[i]);
    return v;
  }
  static PyObject *cast(const std::array<T, N> &v) {
    PyObject *l = own(PyList_New(N));
    for (size_t i = 0; i < N; i++)
      PyList_SET_ITEM(l, i, caster<T>::cast(v[i]));
    return l;
  }
};
template <class A, class B> struct caster<std::pair<A, B>> {
  static std::pair<A, B> load(PyObject *o) {
    Seq s(o);
    if (s.size() != 2)
      throw cast_failure();
    return std::pair<A, B>(caster<A>::load(s[0]), caster<B>::load(s[1]));
  }
  static PyObject *cast(const std::pair<A, B> &v) {
    PyObject *a = caster<A>::cast(v.first), *b = caster<B>::cast(v.second);
    PyObject *t = own(PyTuple_Pack(2, a, b));
    Py_DECREF(a);
    Py_DECREF(b);
    return t;
  }
};
template <class... Ts> struct caster<std::tuple<Ts...>> {
  template <size_t... I> static PyObject *impl(const std::tuple<Ts...> &v, std::index_sequence<I...>) {
    PyObject *t = own(PyTuple_New(sizeof...(Ts)));
    int d[] = {0, (PyTuple_SET_ITEM(t, I, caster<Ts>::cast(std::get<I>(v))), 0)...};
    (void)d;
    return t;
  }
  static PyObject *cast(const std::tuple<Ts...> &v) { return impl(v, std::index_sequence_for<Ts...>()); }
};
template <class K, class V> struct caster<std::unordered_map<K, V>> {
  static PyObject *cast(const std::unordered_map<K, V> &m) {
    PyObject *d = own(PyDict_New());
    for (auto &p : m) {
      PyObject *k = caster<K>::cast(p.first), *v = caster<V>::cast(p.second);
      PyDict_SetItem(d, k, v);
      Py_DECREF(k);
      Py_DECREF(v);
    }
    return d;
  }
};
template <class K, class V> struct caster<std::map<K, V>> {
  static PyObject *cast(const std::map<K, V> &m) {
    PyObject *d = own(PyDict_New());
    for (auto &p : m) {
      PyObject *k = caster<K>::cast(p.first), *v = caster<V>::cast(p.second);
      PyDict_SetItem(d, k, v);
      Py_DECREF(k);
      Py_DECREF(v);
    }
    return d;
  }
};

template <class T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
// holds a converted argument; passes it on with the parameter's own type
template <class P, class = void> struct Arg {
  bare<P> v;
  explicit Arg(PyObject *o) : v(caster<bare<P>>::load(o)) {}
  typename std::conditional<std::is_lvalue_reference<P>::value, bare<P> &, bare<P> &&>::type get() {
    return static_cast<typename std::conditional<std::is_lvalue_reference<P>::value, bare<P> &, bare<P> &&>::type>(v);
  }
};
template <class T> struct is_registered_ref : std::integral_constant<bool, std::is_lvalue_reference<decltype(caster<T>::load(nullptr))>::value> {};
template <class P> struct Arg<P, typename std::enable_if<is_registered_ref<bare<P>>::value>::type> {
  bare<P> &v;
  explicit Arg(PyObject *o) : v(caster<bare<P>>::load(o)) {}
  bare<P> &get() { return v; }
};

typedef std::function<PyObject *(PyObject *self, PyObject *args)> Thunk; // throws cast_failure on mismatch

template <class R, class F, class Tup, size_t... I> PyObject *invoke(F &f, Tup &t, std::index_sequence<I...>, std::false_type) {
  return caster<bare<R>>::cast(f(std::get<I>(t).get()...));
}
template <class R, class F, class Tup, size_t... I> PyObject *invoke(F &f, Tup &t, std::index_sequence<I...>, std::true_type) {
  f(std::get<I>(t).get()...);
  Py_RETURN_NONE;
}
template <class... A, size_t... I> std::tuple<Arg<A>...> load_args(PyObject *args, std::index_sequence<I...>) {
  if (PyTuple_GET_SIZE(args) != (Py_ssize_t)sizeof...(A))
    throw cast_failure();
  (void)args;
  return std::tuple<Arg<A>...>(Arg<A>(PyTuple_GET_ITEM(args, I))...);
}
template <class R, class... A, class F> Thunk make_free(F f) {
  return [f](PyObject *, PyObject *args) mutable -> PyObject * {
    auto t = load_args<A...>(args, std::index_sequence_for<A...>());
    return invoke<R>(f, t, std::index_sequence_for<A...>(), std::is_void<R>());
  };
}
template <class C, class R, class... A, class F> Thunk make_method(F f) {
  return [f](PyObject *self, PyObject *args) mutable -> PyObject * {
    C &c = caster<C>::load(self);
    auto t = load_args<A...>(args, std::index_sequence_for<A...>());
    auto g = [&c, &f](typename std::conditional<true, A, A>::type... a) -> R { return f(c, std::forward<A>(a)...); };
    return invoke<R>(g, t, std::index_sequence_for<A...>(), std::is_void<R>());
  };
}
template <class C, class R, class B, class... A> Thunk method(R (B::*p)(A...)) {
  return make_method<C, R, A...>([p](C &c, A... a) -> R { return (c.*p)(std::forward<A>(a)...); });
}
template <class C, class R, class B, class... A> Thunk method(R (B::*p)(A...) const) {
  return make_method<C, R, A...>([p](C &c, A... a) -> R { return (c.*p)(std::forward<A>(a)...); });
}
template <class C, class R, class S, class... A> Thunk method(R (*p)(S, A...)) {
  return make_method<C, R, A...>([p](C &c, A... a) -> R { return p(c, std::forward<A>(a)...); });
}
template <class C, class L, class R, class S, class... A> Thunk lambda_method(L l, R (L::*)(S, A...) const) {
  return make_method<C, R, A...>([l](C &c, A... a) -> R { return l(c, std::forward<A>(a)...); });
}
template <class C, class L, class = decltype(&L::operator())> Thunk method(L l) { return lambda_method<C>(l, &L::operator()); }
template <class R, class... A> Thunk function(R (*p)(A...)) { return make_free<R, A...>(p); }
template <class L, class R, class... A> Thunk lambda_function(L l, R (L::*)(A...) const) { return make_free<R, A...>(l); }
template <class L, class = decltype(&L::operator())> Thunk function(L l) { return lambda_function(l, &L::operator()); }

struct Func {
  std::string name;
  std::vector<Thunk> overloads;
};
inline PyObject *run(Func *f, PyObject *self, PyObject *args) {
  try {
    for (auto &t : f->overloads) {
      try {
        return t(self, args);
      } catch (const cast_failure &) {
      }
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", f->name.c_str());
  } catch (const error_already_set &) {
  } catch (const value_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const index_error &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const key_error &e) {
    PyErr_SetString(PyExc_KeyError, e.what());
  } catch (const type_error &e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (const std::bad_alloc &e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::exception &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception");
  }
  return nullptr;
}
inline PyObject *tramp_free(PyObject *cap, PyObject *args) {
  return run(static_cast<Func *>(PyCapsule_GetPointer(cap, nullptr)), nullptr, args);
}
inline PyObject *tramp_method(PyObject *cap, PyObject *args) { // args[0] is self
  if (PyTuple_GET_SIZE(args) < 1) {
    PyErr_SetString(PyExc_TypeError, "self is missing");
    return nullptr;
  }
  PyObject *rest = PyTuple_GetSlice(args, 1, PyTuple_GET_SIZE(args));
  PyObject *r = run(static_cast<Func *>(PyCapsule_GetPointer(cap, nullptr)), PyTuple_GET_ITEM(args, 0), rest);
  Py_DECREF(rest);
  return r;
}
inline PyObject *make_callable(Func *f, bool is_method) {
  auto *d = new PyMethodDef{f->name.c_str(), is_method ? tramp_method : tramp_free, METH_VARARGS, nullptr};
  PyObject *cap = PyCapsule_New(f, nullptr, nullptr);
  PyObject *fn = PyCFunction_New(d, cap);
  Py_DECREF(cap);
  if (!is_method)
    return fn;
  PyObject *m = PyInstanceMethod_New(fn);
  Py_DECREF(fn);
  return m;
}
} // namespace detail

class handle {
public:
  PyObject *p = nullptr;
  handle() {}
  handle(PyObject *o) : p(o) {}
  PyObject *ptr() const { return p; }
};
typedef handle object;
struct doc_slot {
  PyObject *m;
  doc_slot &operator=(const char *s) {
    PyObject *d = PyUnicode_FromString(s);
    PyObject_SetAttrString(m, "__doc__", d);
    Py_DECREF(d);
    return *this;
  }
};
struct attr_slot {
  PyObject *m;
  std::string n;
  template <class T> attr_slot &operator=(const T &v) {
    PyObject *d = detail::caster<detail::bare<typename std::decay<T>::type>>::cast(v);
    PyObject_SetAttrString(m, n.c_str(), d);
    Py_DECREF(d);
    return *this;
  }
};
class module_ : public handle {
public:
  using handle::handle;
  doc_slot doc() { return doc_slot{p}; }
  attr_slot attr(const char *n) { return attr_slot{p, n}; }
  template <class F, class... X> module_ &def(const char *name, F f, const X &...) {
    auto *fn = new detail::Func{name, {detail::function(f)}};
    PyObject *c = detail::make_callable(fn, false);
    PyObject_SetAttrString(p, name, c);
    Py_DECREF(c);
    return *this;
  }
};
typedef module_ module;

template <class... A> struct init {
  template <class T> static T *make(PyObject *args) { return impl<T>(args, std::index_sequence_for<A...>()); }
  template <class T, size_t... I> static T *impl(PyObject *args, std::index_sequence<I...> s) {
    auto t = detail::load_args<A...>(args, s);
    return new T(std::get<I>(t).get()...);
  }
};
template <class... A> struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*p)(A...)) const { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...), std::false_type = {}) const { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...) const, std::true_type) const { return p; }
};
template <class... A> static constexpr overload_cast_impl<A...> overload_cast{};
static constexpr std::true_type const_{};

namespace detail {
template <class T> struct Ctors {
  static std::vector<std::function<T *(PyObject *)>> &list() {
    static std::vector<std::function<T *(PyObject *)>> l;
    return l;
  }
};
template <class T> int tp_init(PyObject *self, PyObject *args, PyObject *kw) {
  if (kw && PyDict_Size(kw)) {
    PyErr_SetString(PyExc_TypeError, "keyword arguments are not supported");
    return -1;
  }
  Func f{"__init__", {}};
  for (auto &c : Ctors<T>::list())
    f.overloads.push_back([&c](PyObject *s, PyObject *a) -> PyObject * {
      T *t = c(a);
      auto *i = reinterpret_cast<Instance *>(s);
      delete static_cast<T *>(i->ptr);
      i->ptr = t;
      Py_RETURN_NONE;
    });
  PyObject *r = run(&f, self, args);
  Py_XDECREF(r);
  return r ? 0 : -1;
}
template <class T> void tp_dealloc(PyObject *self) {
  PyTypeObject *t = Py_TYPE(self);
  delete static_cast<T *>(reinterpret_cast<Instance *>(self)->ptr);
  t->tp_free(self);
  Py_DECREF(t);
}
template <class T> PyTypeObject *make_type(PyObject *mod, const char *name, initproc in) {
  std::string *full = new std::string(std::string(PyModule_GetName(mod)) + "." + name);
  std::vector<PyType_Slot> slots = {{Py_tp_dealloc, (void *)tp_dealloc<T>}, {Py_tp_new, (void *)PyType_GenericNew}};
  if (in)
    slots.push_back({Py_tp_init, (void *)in});
  slots.push_back({0, nullptr});
  PyType_Spec spec{full->c_str(), (int)sizeof(Instance), 0, Py_TPFLAGS_DEFAULT, slots.data()};
  PyTypeObject *t = (PyTypeObject *)PyType_FromSpec(&spec);
  type_slot<T>::type() = t;
  PyObject_SetAttrString(mod, name, (PyObject *)t);
  return t;
}
} // namespace detail

template <class T, class... Extra> class class_ : public handle {
  std::map<std::string, detail::Func *> fns;
  void add(const char *name, detail::Thunk t) {
    auto &f = fns[name];
    if (f) {
      f->overloads.push_back(t);
      return;
    }
    f = new detail::Func{name, {t}};
    PyObject *c = detail::make_callable(f, true);
    PyObject_SetAttrString(p, name, c);
    Py_DECREF(c);
  }
  void prop(const char *name, detail::Thunk get, detail::Thunk set) {
    PyObject *g = detail::make_callable(new detail::Func{name, {get}}, true);
    PyObject *s = set ? detail::make_callable(new detail::Func{name, {set}}, true) : nullptr;
    // property() calls getter(self): unwrap the instance method
    PyObject *gf = PyInstanceMethod_GET_FUNCTION(g), *sf = s ? PyInstanceMethod_GET_FUNCTION(s) : Py_None;
    PyObject *pr = PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, gf, sf, nullptr);
    PyObject_SetAttrString(p, name, pr);
    Py_XDECREF(pr);
  }

public:
  template <class... X> class_(const handle &m, const char *name, const X &...) : handle((PyObject *)detail::make_type<T>(m.p, name, detail::tp_init<T>)) {}
  template <class... A, class... X> class_ &def(init<A...>, const X &...) {
    detail::Ctors<T>::list().push_back([](PyObject *a) { return init<A...>::template make<T>(a); });
    return *this;
  }
  template <class F, class... X> class_ &def(const char *name, F f, const X &...) {
    add(name, detail::method<T>(f));
    return *this;
  }
  template <class D, class B, class... X> class_ &def_readonly(const char *name, D B::*pm, const X &...) {
    prop(name, detail::method<T>([pm](T &c) -> D { return c.*pm; }), nullptr);
    return *this;
  }
  template <class D, class B, class... X> class_ &def_readwrite(const char *name, D B::*pm, const X &...) {
    prop(name, detail::method<T>([pm](T &c) -> D { return c.*pm; }), detail::method<T>([pm](T &c, D v) -> void { c.*pm = v; }));
    return *this;
  }
  template <class F, class... X> class_ &def_property_readonly(const char *name, F f, const X &...) {
    prop(name, detail::method<T>(f), nullptr);
    return *this;
  }
};

template <class T> class enum_ : public handle {
public:
  template <class... X> enum_(const handle &m, const char *name, const X &...) : handle((PyObject *)detail::make_type<T>(m.p, name, nullptr)) {}
  enum_ &value(const char *name, T v, const char * = nullptr) {
    PyObject *o = detail::caster<T>::cast(v);
    PyObject_SetAttrString(p, name, o);
    Py_DECREF(o);
    return *this;
  }
  enum_ &export_values() { return *this; }
};
} // namespace pybind11

#define PYBIND11_MODULE(NAME, VAR)                                              \
  static void minibind_init_##NAME(::pybind11::module_ &);                      \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##NAME() { \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
    PyObject *m = PyModule_Create(&def);                                        \
    if (!m)                                                                     \
      return nullptr;                                                           \
    ::pybind11::module_ mod(m);                                                 \
    minibind_init_##NAME(mod);                                                  \
    if (PyErr_Occurred())                                                       \
      return nullptr;                                                           \
    return m;                                                                   \
  }                                                                             \
  static void minibind_init_##NAME(::pybind11::module_ &VAR)
