// Stand-in for pluginlib: classes register themselves by name when their object file is linked.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeinfo>
namespace stub
{
// class name -> factory returning a shared_ptr<Base> in a shared_ptr<void>
std::map<std::string, std::function<std::shared_ptr<void>()>> & plugin_registry();
}
namespace pluginlib
{
struct PluginlibException : public std::runtime_error { using std::runtime_error::runtime_error; };
template <typename Base>
class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string &) {}
  std::shared_ptr<Base> createSharedInstance(const std::string & name)
  {
    auto it = stub::plugin_registry().find(name);
    if (it == stub::plugin_registry().end()) throw PluginlibException("no plugin " + name);
    return std::static_pointer_cast<Base>(it->second());
  }
};
}  // namespace pluginlib
