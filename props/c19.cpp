// C19: bounded stack and slot cache against std containers.
#include "common.hpp"
#include <memory>
using namespace rb;
template <class T> struct Mk;
template <> struct Mk<int> {
  static int of(int v) { return v; }
  static string str(int v) { return std::to_string(v); }
};
template <> struct Mk<string> {
  static string of(int v) { return v % 3 == 0 ? string() : string((size_t)(v % 50), 'a') + std::to_string(v); }
  static string str(const string &v) { return v; }
};
template <> struct Mk<vector<double>> {
  static vector<double> of(int v) { return vector<double>((size_t)(v % 7), v * 0.5); }
  static string str(const vector<double> &v) { return std::to_string(v.size()); }
};
template <> struct Mk<std::shared_ptr<int>> {
  static std::shared_ptr<int> of(int v) { return std::make_shared<int>(v); }
  static string str(const std::shared_ptr<int> &v) { return v ? std::to_string(*v) : "null"; }
};
template <class T> static bool same(const T &a, const T &b) { return a == b; }

template <class T> static int run_stack(Case &c) {
  size_t cap = (size_t)(c.chance(15) ? c.range(50, 200) : c.chance(2) ? c.range(200, 1500) : c.range(0, 12));
  tinyfk::SizedStack<T> s(cap);
  vector<T> ref;
  int ops = 0, next = 0;
  c.note("stack of capacity ", cap);
  for (int st = c.range(1, 120); st > 0; st--) {
    if (c.one_in(3000)) { // a long run of pushes and pops, or of resets
      int k = c.chance(70) ? c.range(200, 1000) : c.pick(vector<int>{32768, 65536, 65537}), how = c.range(0, 2);
      for (int i = 0; i < k && cap > ref.size(); i++) {
        s.push(Mk<T>::of(next));
        s.pop();
      }
      for (int i = 0; i < k && how == 1; i++)
        s.reset();
      if (how == 1)
        ref.clear();
      for (int i = 0; i < k && how == 2 && i < 1000; i++, cap++)
        s.extend();
      c.note("push and pop ", k, " times", how == 1 ? ", reset as often" : how == 2 ? ", extend as often" : "");
      c.label("burst on the stack");
    }
    switch (c.weighted({45, 28, 14, 4, 5, 4, 4})) {
    case 6: { // many at once
      size_t k = c.chance(50) ? cap : c.below(cap + 1);
      for (; ref.size() < k; ops++) {
        T v = Mk<T>::of(next++);
        s.push(v);
        ref.push_back(v);
      }
      c.note("filled up to ", k);
      break;
    }
    case 0:
      if (ref.size() < cap) {
        T v = Mk<T>::of(next++);
        s.push(v);
        ref.push_back(v);
        c.note("push ", Mk<T>::str(v));
        ops++;
      }
      break;
    case 1:
      if (!ref.empty()) {
        s.pop();
        ref.pop_back();
        c.note("pop");
        ops++;
      }
      break;
    case 2:
      if (!ref.empty()) { // top is writable
        T v = Mk<T>::of(next++);
        s.top() = v;
        ref.back() = v;
        c.note("top = ", Mk<T>::str(v));
      }
      break;
    case 3:
      s.reset();
      ref.clear();
      c.note("reset");
      break;
    case 4:
      s.extend();
      cap++;
      c.note("extend");
      break;
    default: { // copies are independent
      tinyfk::SizedStack<T> t = s;
      if (!ref.empty())
        t.pop();
      t.reset();
      if (c.chance(50)) {
        t = s;
        s = t;
      }
      c.note("copy");
    }
    }
    c.check(s.size() == ref.size(), "stack size " + std::to_string(s.size()) + ", expected " + std::to_string(ref.size()));
    c.check(s.empty() == ref.empty(), "stack emptiness");
    if (!ref.empty())
      c.check(same(s.top(), ref.back()), "top of the stack is " + Mk<T>::str(s.top()) + ", expected " + Mk<T>::str(ref.back()));
  }
  while (!ref.empty()) { // the whole content, last in first out
    c.check(same(s.top(), ref.back()), "popped " + Mk<T>::str(s.top()) + ", expected " + Mk<T>::str(ref.back()));
    s.pop();
    ref.pop_back();
  }
  c.check(s.empty() && s.size() == 0, "emptied stack is not empty");
  return ops;
}
template <class T> static int run_cache(Case &c) {
  size_t n = (size_t)(c.chance(15) ? c.range(50, 200) : c.chance(2) ? c.range(200, 1500) : c.range(0, 12));
  tinyfk::SizedCache<T> s(n);
  vector<std::unique_ptr<T>> ref(n);
  int ops = 0, next = 0;
  c.note("cache of ", n, " slots");
  for (int st = c.range(1, 120); st > 0; st--) {
    if (c.one_in(3000)) { // many clears with no write in between
      int k = c.chance(50) ? c.pick(vector<int>{255, 256, 257, 511, 512}) : c.chance(70) ? c.range(40, 700) : c.pick(vector<int>{65535, 65536, 65537, 131072});
      for (int i = 0; i < k; i++)
        s.clear();
      for (auto &x : ref)
        x.reset();
      c.note("clear ", k, " times");
      c.label("burst of clears");
    }
    switch (c.weighted({45, 30, 8, 8, 5})) {
    case 0:
      if (n) {
        size_t i = c.below(n);
        T v = Mk<T>::of(next++);
        s.set_cache(i, v);
        ref[i].reset(new T(v));
        c.note("set ", i, " = ", Mk<T>::str(v));
        ops++;
      }
      break;
    case 1:
      if (n && c.chance(8)) { // every slot
        for (size_t i = 0; i < n; i++) {
          T v = Mk<T>::of(next++);
          s.set_cache(i, v);
          ref[i].reset(new T(v));
        }
        c.note("set all");
      }
      break;
    case 2:
      s.clear();
      for (auto &x : ref)
        x.reset();
      c.note("clear");
      ops++;
      break;
    case 3:
      s.extend();
      for (auto &x : ref)
        x.reset();
      ref.emplace_back();
      n++;
      c.note("extend");
      ops++;
      break;
    default: {
      tinyfk::SizedCache<T> t = s;
      t.clear();
      if (n)
        t.set_cache(0, Mk<T>::of(12345));
      t.extend();
      c.note("copy");
    }
    }
    if (n && c.chance(70)) {
      size_t i = c.below(n);
      const T *p = s.get_cache(i);
      c.check((p != nullptr) == (ref[i] != nullptr), "slot " + std::to_string(i) + (p ? " holds a value, expected nothing" : " holds nothing, expected a value"));
      if (p)
        c.check(same(*p, *ref[i]), "slot " + std::to_string(i) + " holds " + Mk<T>::str(*p) + ", expected " + Mk<T>::str(*ref[i]));
    }
  }
  for (size_t i = 0; i < n; i++) {
    const T *p = s.get_cache(i);
    c.check((p != nullptr) == (ref[i] != nullptr), "slot " + std::to_string(i) + (p ? " holds a value, expected nothing" : " holds nothing, expected a value"));
    if (p)
      c.check(same(*p, *ref[i]), "slot " + std::to_string(i) + " holds " + Mk<T>::str(*p) + ", expected " + Mk<T>::str(*ref[i]));
  }
  return ops;
}
static void prop(Case &c) {
  int ty = c.range(0, 3), ops;
  if (c.chance(50)) {
    c.label("stack");
    ops = ty == 0 ? run_stack<int>(c) : ty == 1 ? run_stack<string>(c) : ty == 2 ? run_stack<vector<double>>(c) : run_stack<std::shared_ptr<int>>(c);
  } else {
    c.label("cache");
    ops = ty == 0 ? run_cache<int>(c) : ty == 1 ? run_cache<string>(c) : ty == 2 ? run_cache<vector<double>>(c) : run_cache<std::shared_ptr<int>>(c);
  }
  c.nontrivial = ops >= 5;
}
VP_PROP("C19", "1-120 random operations within the declared capacity on a stack or a cache of ints, strings, vectors or shared pointers, compared after each step with std containers; non-trivial = at least five changing operations",
        prop, 200000, 8000000, 20)
