// Stand-in for rclcpp::Serialization: a plain, lossless byte encoding of the message structs.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <rclcpp/rclcpp.hpp>
namespace stub
{
using Bytes = std::vector<uint8_t>;
struct Writer
{
  Bytes & out;
  template <typename T> void operator()(T & v)
  {
    if constexpr (std::is_arithmetic_v<T>) raw(&v, sizeof v);
    else v.visit(*this);
  }
  void operator()(builtin_interfaces::msg::Time & t) { (*this)(t.sec); (*this)(t.nanosec); }
  void operator()(builtin_interfaces::msg::Duration & t) { (*this)(t.sec); (*this)(t.nanosec); }
  void operator()(std::string & s) { uint64_t n = s.size(); raw(&n, 8); raw(s.data(), n); }
  template <typename T> void operator()(std::vector<T> & v)
  {
    uint64_t n = v.size();
    raw(&n, 8);
    for (auto & e : v) (*this)(e);
  }
  template <typename T, size_t N> void operator()(std::array<T, N> & v) { for (auto & e : v) (*this)(e); }
  void raw(const void * p, size_t n)
  {
    auto b = static_cast<const uint8_t *>(p);
    out.insert(out.end(), b, b + n);
  }
};
struct Reader
{
  const Bytes & in;
  size_t at = 0;
  template <typename T> void operator()(T & v)
  {
    if constexpr (std::is_arithmetic_v<T>) raw(&v, sizeof v);
    else v.visit(*this);
  }
  void operator()(builtin_interfaces::msg::Time & t) { (*this)(t.sec); (*this)(t.nanosec); }
  void operator()(builtin_interfaces::msg::Duration & t) { (*this)(t.sec); (*this)(t.nanosec); }
  void operator()(std::string & s) { uint64_t n = 0; raw(&n, 8); check(n); s.resize(n); raw(s.data(), n); }
  template <typename T> void operator()(std::vector<T> & v)
  {
    uint64_t n = 0;
    raw(&n, 8);
    check(n);
    v.resize(n);
    for (auto & e : v) (*this)(e);
  }
  template <typename T, size_t N> void operator()(std::array<T, N> & v) { for (auto & e : v) (*this)(e); }
  void check(uint64_t n) { if (n > in.size() - at) throw std::runtime_error("deserialize: truncated"); }
  void raw(void * p, size_t n)
  {
    if (n > in.size() - at) throw std::runtime_error("deserialize: truncated");
    if (n) std::memcpy(p, in.data() + at, n);
    at += n;
  }
};
}  // namespace stub
namespace rclcpp
{
class SerializedMessage
{
public:
  SerializedMessage() = default;
  explicit SerializedMessage(const stub::Bytes & b) : bytes(b) {}
  size_t size() const { return bytes.size(); }
  stub::Bytes bytes;
};
template <typename T>
class Serialization
{
public:
  void serialize_message(const void * m, SerializedMessage * out) const
  {
    out->bytes.clear();
    stub::Writer w{out->bytes};
    T copy = *static_cast<const T *>(m);
    copy.visit(w);
  }
  void deserialize_message(const SerializedMessage * in, void * m) const
  {
    stub::Reader r{in->bytes};
    static_cast<T *>(m)->visit(r);
    if (r.at != in->bytes.size()) throw std::runtime_error("deserialize: not a message of this type");
  }
};
}  // namespace rclcpp
