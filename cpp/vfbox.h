#pragma once
#include <compare>
#include <cstddef>
#include <list>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
namespace vfx {
// containers which are not of the standard library; they fulfil the concepts of include/spb/concepts.h
template <class T> class Seq
{
  std::list<T> d;
public:
  using value_type = T;
  template <class... A> T &emplace_back(A &&...a) { return d.emplace_back(std::forward<A>(a)...); }
  void push_back(T v) { d.push_back(std::move(v)); }
  bool empty() const { return d.empty(); }
  auto begin() { return d.begin(); } auto end() { return d.end(); }
  auto begin() const { return d.begin(); } auto end() const { return d.end(); }
  size_t size() const { return d.size(); }
  void clear() { d.clear(); }
};
template <class T> class Opt
{
  std::unique_ptr<T> p;
public:
  using value_type = T;
  bool has_value() const { return bool(p); }
  void reset() { p.reset(); }
  T &operator*() { return *p; }
  const T &operator*() const { return *p; }
  T &emplace(T v) { p = std::make_unique<T>(std::move(v)); return *p; }
  Opt() = default;
  Opt(T v) : p(std::make_unique<T>(std::move(v))) {}
  template <class U> requires(std::is_constructible_v<T, U> && !std::is_same_v<std::decay_t<U>, T> && !std::is_same_v<std::decay_t<U>, Opt>)
  Opt(U &&v) : p(std::make_unique<T>(std::forward<U>(v))) {}
  Opt(const Opt &o) : p(o.p ? std::make_unique<T>(*o.p) : nullptr) {}
  Opt(Opt &&) = default;
  Opt &operator=(Opt o) { p = std::move(o.p); return *this; }
};
template <class T> class Buf
{
  std::vector<T> d;
public:
  using value_type = T;
  T *data() { return d.data(); } const T *data() const { return d.data(); }
  size_t size() const { return d.size(); }
  auto begin() { return d.data(); } auto end() { return d.data() + d.size(); }
  auto begin() const { return d.data(); } auto end() const { return d.data() + d.size(); }
  bool empty() const { return d.empty(); }
  void resize(size_t n) { d.resize(n); }
  void clear() { d.clear(); }
  auto operator<=>(const Buf &) const = default;
  bool operator==(const Buf &) const = default;
};
} // namespace vfx
