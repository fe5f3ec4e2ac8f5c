// What a node shows, to compare two of them bit by bit
#pragma once
#include "acts.hpp"

namespace node
{
// What there is to see from the outside, in lines
typedef std::vector<std::string> Seen;
inline Seen look(Sim & s)
{
  Seen seen;
  Map m = s.map();
  for (auto & v : m.scans)
  {
    std::string l = "scan " + std::to_string(v.id) + " at " + show(v.pose);
    for (auto & p : v.points) l += " " + pbt::str(p.x) + "," + pbt::str(p.y);
    seen.push_back(l);
  }
  for (auto & k : m.constraints)
  {
    std::string l = "constraint " + std::to_string(k.begin) + " to " + std::to_string(k.end) + (k.sw ? " switchable" : "");
    for (int i = 0; i < 3; ++i) l += " " + pbt::str(k.t(i));
    for (int i = 0; i < 9; ++i) l += " " + pbt::str(k.info(i));
    seen.push_back(l);
  }
  seen.push_back(std::to_string(s.maps_published()) + " maps and " + std::to_string(s.clouds()) + " clouds published");
  for (auto & m : stub::tf_sent())
    if (m.child_frame_id == s.cfg.odom)
    {
      auto & t = m.transform;
      seen.push_back("transform " + pbt::str(t.translation.x) + " " + pbt::str(t.translation.y) + " " + pbt::str(t.rotation.z) + " " + pbt::str(t.rotation.w));
    }
  return seen;
}
inline void check_seen(const Seen & a, const Seen & b, const std::string & what, const char * other = "alone")
{
  for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) CHECK(a[i] == b[i], what << ": " << b[i] << ", " << other << ": " << a[i]);
  CHECK(a.size() == b.size(), what << " has more or less to show");
}
}  // namespace node
