// Stand-in for the part of rclcpp that the repository uses. Nodes do not communicate: a test
// reaches a node's subscriptions, services, publishers and parameters by name.
#pragma once
#include <any>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <functional>
#include <future>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <stub/time.hpp>

namespace rclcpp
{
bool ok();
inline void init(int, char const * const *) {}
void shutdown_stub();
inline bool shutdown() { shutdown_stub(); return true; }

class Logger
{
public:
  Logger() = default;
  explicit Logger(const std::string & n) : name_(n) {}
  const char * get_name() const { return name_.c_str(); }
  Logger get_child(const std::string & n) const { return Logger(name_ + "." + n); }
private:
  std::string name_;
};
inline Logger get_logger(const std::string & name) { return Logger(name); }
// Formats (so that every argument is really read) and drops the text
__attribute__((format(printf, 2, 3)))
inline void stub_log(const Logger &, const char * format, ...)
{
  char buf[512];
  va_list ap;
  va_start(ap, format);
  vsnprintf(buf, sizeof buf, format, ap);
  va_end(ap);
  stub::interruption_point();
}

class Duration
{
public:
  Duration() = default;
  Duration(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000LL + ns) {}
  explicit Duration(int64_t ns) : ns_(ns) {}
  Duration(std::chrono::nanoseconds ns) : ns_(ns.count()) {}  // NOLINT
  static Duration from_seconds(double s)
  {
    return Duration(static_cast<int64_t>(s * 1e9));
  }
  static Duration from_nanoseconds(int64_t ns) { return Duration(ns); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
  Duration operator+(const Duration & o) const { return Duration(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return Duration(ns_ - o.ns_); }
  Duration operator*(double k) const { return Duration(static_cast<int64_t>(ns_ * k)); }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
private:
  int64_t ns_ = 0;
};

class Time
{
public:
  Time() = default;
  Time(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000LL + ns) {}
  explicit Time(int64_t ns) : ns_(ns) {}
  Time(const builtin_interfaces::msg::Time & t)  // NOLINT
  : ns_(int64_t(t.sec) * 1000000000LL + t.nanosec) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    int64_t s = ns_ / 1000000000LL, r = ns_ % 1000000000LL;
    if (r < 0) { r += 1000000000LL; --s; }
    t.sec = static_cast<int32_t>(s);
    t.nanosec = static_cast<uint32_t>(r);
    return t;
  }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds()); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds()); }
  Duration operator-(const Time & t) const { return Duration(ns_ - t.ns_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return ns_ != o.ns_; }
private:
  int64_t ns_ = 0;
};

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  Time now() const { stub::interruption_point(); return Time(stub::now_ns()); }
  bool sleep_for(Duration d)
  {
    std::this_thread::sleep_for(std::chrono::nanoseconds(d.nanoseconds()));
    return ok();
  }
};

class Rate
{
public:
  explicit Rate(double hz) : period_(static_cast<int64_t>(1e9 / hz)) {}
  bool sleep() { std::this_thread::sleep_for(std::chrono::nanoseconds(period_)); return true; }
private:
  int64_t period_;
};
using WallRate = Rate;
inline bool sleep_for(std::chrono::nanoseconds d) { std::this_thread::sleep_for(d); return ok(); }

struct KeepLast { explicit KeepLast(size_t n) : depth(n) {} size_t depth; };
struct KeepAll {};
class QoS
{
public:
  QoS(size_t depth = 10) : depth_(depth) {}  // NOLINT
  QoS(KeepLast k) : depth_(k.depth) {}  // NOLINT
  QoS(KeepAll) : depth_(0) {}  // NOLINT
  QoS & transient_local() { transient_ = true; return *this; }
  QoS & durability_volatile() { transient_ = false; return *this; }
  QoS & reliable() { reliable_ = true; return *this; }
  QoS & best_effort() { reliable_ = false; return *this; }
  // Does a subscriber get what was published before it came?
  bool latched() const { return transient_ && reliable_; }
  QoS & keep_last(size_t n) { depth_ = n; return *this; }
private:
  size_t depth_;
  bool transient_ = false, reliable_ = true;
};
struct SystemDefaultsQoS : public QoS {};
struct SensorDataQoS : public QoS {};
struct ServicesQoS : public QoS {};

using ParamVariant = std::variant<bool, int64_t, double, std::string>;
class Parameter
{
public:
  Parameter() = default;
  Parameter(const std::string & n, bool v) : name_(n), v_(v) {}
  Parameter(const std::string & n, int v) : name_(n), v_(static_cast<int64_t>(v)) {}
  Parameter(const std::string & n, int64_t v) : name_(n), v_(v) {}
  Parameter(const std::string & n, double v) : name_(n), v_(v) {}
  Parameter(const std::string & n, const char * v) : name_(n), v_(std::string(v)) {}
  Parameter(const std::string & n, const std::string & v) : name_(n), v_(v) {}
  const std::string & get_name() const { return name_; }
  const ParamVariant & variant() const { return v_; }
  double as_double() const { return std::get<double>(v_); }
  int64_t as_int() const { return std::get<int64_t>(v_); }
  bool as_bool() const { return std::get<bool>(v_); }
  std::string as_string() const { return std::get<std::string>(v_); }
private:
  std::string name_;
  ParamVariant v_;
};

class NodeOptions
{
public:
  NodeOptions & append_parameter_override(const std::string & name, ParamVariant v)
  {
    overrides_[name] = v;
    return *this;
  }
  template <typename T>
  NodeOptions & set(const std::string & name, T v)
  {
    overrides_[name] = Parameter(name, v).variant();
    return *this;
  }
  std::map<std::string, ParamVariant> overrides_;
};

namespace exceptions
{
struct ParameterAlreadyDeclaredException : public std::runtime_error
{
  using std::runtime_error::runtime_error;
};
struct InvalidParameterTypeException : public std::runtime_error
{
  using std::runtime_error::runtime_error;
};
}  // namespace exceptions

template <typename T>
struct Publisher
{
  using SharedPtr = std::shared_ptr<Publisher<T>>;
  void publish(const T & m) { stub::interruption_point(); last = m; ++count; if (on_publish) on_publish(m); stub::interruption_point(); }
  void publish(std::unique_ptr<T> m) { publish(*m); }
  size_t get_subscription_count() const { return 1; }
  T last;
  size_t count = 0;
  QoS qos;
  std::function<void(const T &)> on_publish;
};
template <typename T>
struct Subscription
{
  using SharedPtr = std::shared_ptr<Subscription<T>>;
  std::function<void(const std::shared_ptr<T const> &)> callback;
};
template <typename T>
struct Service
{
  using SharedPtr = std::shared_ptr<Service<T>>;
  std::function<void(std::shared_ptr<typename T::Request>, std::shared_ptr<typename T::Response>)> callback;
};
struct TimerBase
{
  using SharedPtr = std::shared_ptr<TimerBase>;
  std::function<void()> callback;
  void cancel() {}
};
struct CallbackGroup { using SharedPtr = std::shared_ptr<CallbackGroup>; };
enum class CallbackGroupType { MutuallyExclusive, Reentrant };

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & options = NodeOptions())
  : name_(name), options_(options), clock_(std::make_shared<Clock>()) {}
  virtual ~Node() = default;

  template <typename T>
  T declare_parameter(const std::string & name, const T & def)
  {
    if (!declared_.insert(name).second)
    {
      throw exceptions::ParameterAlreadyDeclaredException("parameter declared twice: " + name);
    }
    T value = def;
    auto it = options_.overrides_.find(name);
    if (it != options_.overrides_.end()) value = convert<T>(name, it->second);
    values_[name] = Parameter(name, widen(value)).variant();
    return value;
  }
  template <typename T>
  T declare_parameter(const std::string & name) { return declare_parameter<T>(name, T()); }
  bool has_parameter(const std::string & name) const { return declared_.count(name) > 0; }
  template <typename T>
  bool get_parameter(const std::string & name, T & out) const
  {
    auto it = values_.find(name);
    if (it == values_.end()) return false;
    out = convert<T>(name, it->second);
    return true;
  }
  Parameter get_parameter(const std::string & name) const
  {
    auto it = values_.find(name);
    if (it == values_.end()) throw std::runtime_error("parameter not declared: " + name);
    return std::visit([&](auto v) {return Parameter(name, v);}, it->second);
  }

  template <typename T>
  typename Publisher<T>::SharedPtr create_publisher(const std::string & topic, const QoS & qos)
  {
    auto p = std::make_shared<Publisher<T>>();
    p->qos = qos;
    publishers_[topic] = p;
    return p;
  }
  template <typename T, typename F>
  typename Subscription<T>::SharedPtr create_subscription(const std::string & topic, const QoS &, F && f)
  {
    auto s = std::make_shared<Subscription<T>>();
    s->callback = std::forward<F>(f);
    subscriptions_[topic] = s;
    return s;
  }
  template <typename T, typename F>
  typename Service<T>::SharedPtr create_service(const std::string & name, F && f)
  {
    auto s = std::make_shared<Service<T>>();
    s->callback = std::forward<F>(f);
    services_[name] = s;
    return s;
  }
  template <typename D, typename F>
  TimerBase::SharedPtr create_wall_timer(D, F && f)
  {
    auto t = std::make_shared<TimerBase>();
    t->callback = std::forward<F>(f);
    return t;
  }
  Time now() const { return clock_->now(); }
  Clock::SharedPtr get_clock() const { return clock_; }
  Logger get_logger() const { return Logger(name_); }
  const char * get_name() const { return name_.c_str(); }

  // For tests
  template <typename T>
  Publisher<T> & stub_publisher(const std::string & topic)
  {
    return *std::any_cast<std::shared_ptr<Publisher<T>>>(publishers_.at(topic));
  }
  template <typename T>
  void stub_receive(const std::string & topic, const T & m)
  {
    auto s = std::any_cast<std::shared_ptr<Subscription<T>>>(subscriptions_.at(topic));
    s->callback(std::make_shared<T const>(m));
  }
  template <typename T>
  void stub_call(const std::string & service, const typename T::Request & r)
  {
    auto s = std::any_cast<std::shared_ptr<Service<T>>>(services_.at(service));
    s->callback(std::make_shared<typename T::Request>(r), std::make_shared<typename T::Response>());
  }

private:
  static bool widen(bool v) { return v; }
  static int64_t widen(int v) { return v; }
  static int64_t widen(int64_t v) { return v; }
  static int64_t widen(unsigned v) { return v; }
  static int64_t widen(size_t v) { return static_cast<int64_t>(v); }
  static double widen(double v) { return v; }
  static std::string widen(const std::string & v) { return v; }
  template <typename T>
  static T convert(const std::string & name, const ParamVariant & v)
  {
    using W = decltype(widen(std::declval<T>()));
    if (auto p = std::get_if<W>(&v)) return static_cast<T>(*p);
    throw exceptions::InvalidParameterTypeException("wrong type for parameter " + name);
  }

  std::string name_;
  NodeOptions options_;
  Clock::SharedPtr clock_;
  std::set<std::string> declared_;
  std::map<std::string, ParamVariant> values_;
  std::map<std::string, std::any> publishers_, subscriptions_, services_;
};

inline void spin(std::shared_ptr<Node>) {}
}  // namespace rclcpp

#define STUB_RCLCPP_LOG(logger, ...) ::rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_DEBUG(logger, ...) STUB_RCLCPP_LOG(logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) STUB_RCLCPP_LOG(logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) STUB_RCLCPP_LOG(logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) STUB_RCLCPP_LOG(logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) STUB_RCLCPP_LOG(logger, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE RCLCPP_DEBUG
#define RCLCPP_INFO_ONCE RCLCPP_INFO
#define RCLCPP_WARN_ONCE RCLCPP_WARN
#define RCLCPP_ERROR_ONCE RCLCPP_ERROR
#define STUB_RCLCPP_LOG_T(logger, clock, ms, ...) ((void)(clock), (void)(ms), ::rclcpp::stub_log(logger, __VA_ARGS__))
#define RCLCPP_DEBUG_THROTTLE STUB_RCLCPP_LOG_T
#define RCLCPP_INFO_THROTTLE STUB_RCLCPP_LOG_T
#define RCLCPP_WARN_THROTTLE STUB_RCLCPP_LOG_T
#define RCLCPP_ERROR_THROTTLE STUB_RCLCPP_LOG_T
#define STUB_RCLCPP_STREAM(logger, x) do { std::ostringstream stub_ss; stub_ss << x; (void)(logger); } while (0)
#define RCLCPP_DEBUG_STREAM STUB_RCLCPP_STREAM
#define RCLCPP_INFO_STREAM STUB_RCLCPP_STREAM
#define RCLCPP_WARN_STREAM STUB_RCLCPP_STREAM
#define RCLCPP_ERROR_STREAM STUB_RCLCPP_STREAM
