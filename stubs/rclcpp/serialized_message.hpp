#pragma once
#include <rclcpp/serialization.hpp>
