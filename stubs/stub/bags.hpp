// Bag files live in memory, by name. A bag is read in time order; messages of equal time keep the
// order in which they were written.
#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <rclcpp/serialization.hpp>
namespace stub
{
struct BagMessage
{
  std::string topic, type;
  int64_t time = 0;
  Bytes data;
};
using Bag = std::vector<BagMessage>;
std::map<std::string, Bag> & bags();
// Faults a test injects: the n-th operation (open or write, open or read) from now fails; -1: none
struct BagFaults
{
  long write_in = -1, read_in = -1;
};
BagFaults & bag_faults();
inline void bag_fault(long & n, const char * what)
{
  if (n < 0) return;
  if (n-- == 0) throw std::runtime_error(what);
}
}  // namespace stub
