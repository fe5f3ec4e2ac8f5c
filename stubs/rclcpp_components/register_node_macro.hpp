#pragma once
#define RCLCPP_COMPONENTS_REGISTER_NODE(x) \
  static_assert(sizeof(x) > 0, "a registered component is a complete type");
