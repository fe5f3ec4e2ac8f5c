#pragma once
#include <pluginlib/class_loader.hpp>
#define STUB_PLUGIN_CAT2(a, b) a##b
#define STUB_PLUGIN_CAT(a, b) STUB_PLUGIN_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(Derived, Base) \
  namespace { \
  struct STUB_PLUGIN_CAT(StubPlugin, __LINE__) { \
    STUB_PLUGIN_CAT(StubPlugin, __LINE__)() { \
      stub::plugin_registry()[#Derived] = [] { \
        return std::shared_ptr<void>(std::shared_ptr<Base>(std::make_shared<Derived>())); }; } \
  } STUB_PLUGIN_CAT(stub_plugin_, __LINE__); \
  }
