// C40: memory
#include <cstddef>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "acts.hpp"
using namespace node;

namespace
{
// What is allocated, besides what the harness keeps
size_t allocated()
{
  std::vector<Event>().swap(script().events);
  script().seen.clear();
  std::vector<geometry_msgs::msg::TransformStamped>().swap(stub::tf_sent());
  std::vector<int64_t>().swap(stub::tf_sent_at());
  std::vector<int64_t>().swap(stub::tf_timeouts());
  return __sanitizer_get_current_allocated_bytes();
}
void check_steady(const std::vector<size_t> & bytes, const std::string & what, size_t times = 4)
{
  // (the first times, containers get their sizes and libraries initialise themselves)
  size_t growing = 0;
  for (size_t i = bytes.size() - times; i < bytes.size(); ++i) growing += bytes[i] > bytes[i - 1];
  std::string all;
  for (auto b : bytes) all += " " + std::to_string(b);
  CHECK(growing < times, what << " takes more and more memory: bytes after each time are" << all);
}
void script_for(Case & c, std::vector<Act> & todo, bool spread)
{
  // Particles that are all in one place take the same memory every time
  if (!spread) for (auto & a : todo) a.variance = 0;
  script().closure_shift = 0.02;
  script().record = false;
  script().accept = c.pick(std::vector<unsigned>{100, 60});
}
}  // namespace

PBT_TEST(C40, released, 500, 16000, "histories of up to 25 scans, poses, waits and requests in all modes, each on six nodes one after the other that are unloaded at its end; "
         "non-trivial: a map of two scans")
{
  begin(c);
  bool filter;
  Config f = any_mode(c, filter);
  f.min_particles = f.max_particles;
  write_map(c, "start", 1 + c.below(5), 1, f.barycenter);
  auto files = stub::bags();
  auto todo = acts(c, 1 + c.size(25), f);
  script_for(c, todo, true);
  uint64_t seed = c.seed();
  c.note << f.show();
  for (auto & a : todo) c.note << "; " << describe(a);
  std::vector<size_t> bytes;
  size_t scans = 0;
  for (int round = 0; round < 6; ++round)
  {
    world::reset(seed);
    stub::bags() = files;
    {
      Sim s(f);
      for (auto & a : todo) act(s, a);
      s.advance(1.1);
      scans = s.map().scans.size();
      s.mapper.reset();
    }
    stub::bags() = files;
    bytes.push_back(allocated());
  }
  check_steady(bytes, "to load and unload a node");
  if (scans >= 2) c.nontrivial();
  c.label(filter ? "filter" : f.mapping ? "mapping" : "localising");
}

PBT_TEST(C40, reloaded, 500, 16000, "a node with a history of up to 20 scans, poses, waits and requests, after which a map is loaded, six times over; "
         "non-trivial: a map of two scans was replaced")
{
  begin(c);
  bool filter;
  Config f = any_mode(c, filter);
  f.min_particles = f.max_particles;
  write_map(c, "start", 1 + c.below(5), 1, f.barycenter);
  auto todo = acts(c, 1 + c.size(20), f);
  Act here{2, Pose2d(), {}, 0, 0};
  here.move = copy(Graph(f.barycenter, "start")).scans[0].pose;
  todo.insert(todo.begin(), here);
  script_for(c, todo, false);
  int mode = c.pick(std::vector<int>{0, kEnable, kDisable});
  c.note << f.show();
  for (auto & a : todo) c.note << "; " << describe(a);
  std::vector<size_t> bytes;
  size_t scans = 0;
  Sim s(f);
  for (int round = 0; round < 6; ++round)
  {
    s.odom = Pose2d();
    s.call(kLoad, "start");
    for (auto & a : todo) act(s, a);
    s.advance(1.1);
    scans = std::max(scans, s.map().scans.size());
    s.call(kLoad | mode, "start");
    s.advance(1.3);
    if (f.mapping != (mode != kDisable)) s.call(f.mapping ? kEnable : kDisable);
    bytes.push_back(allocated());
  }
  check_steady(bytes, "to load a map");
  if (scans >= 2) c.nontrivial();
  c.label(filter ? "filter" : f.mapping ? "mapping" : "localising");
}

PBT_TEST(C40, running, 500, 16000, "a node whose map does not grow, as it localises by matching or by a filter, or stands still, is lost or cannot find its transforms, and a history of up to 30 scans, waits and saves, six times over (13 times when particles are spread: they take more memory at one time than at another); "
         "non-trivial: at least five scans each time")
{
  begin(c);
  bool filter;
  Config f = any_mode(c, filter);
  f.min_particles = f.max_particles;
  bool tracking = filter || !f.mapping;
  int why = tracking ? 0 : static_cast<int>(1 + c.below(3));
  if (why == 2) f.map_file = "start";
  if (!f.map_file.empty()) write_map(c, "start", 1 + c.below(5), 1, f.barycenter);
  auto todo = acts(c, 1 + c.size(30), f);
  bool spread = filter && c.chance(50);
  script_for(c, todo, spread);
  if (why == 2) todo.erase(todo.begin());
  size_t scans = 0;
  for (auto & a : todo)
  {
    if (a.kind == 2 && !tracking) a.kind = 1;
    if (a.kind == 3) a.action = kSave;
    if (why == 1) a.move = Pose2d();
    scans += a.kind == 0;
  }
  c.note << f.show() << (tracking ? "" : why == 1 ? " standing still" : why == 2 ? " lost" : " without transforms");
  for (auto & a : todo) c.note << "; " << describe(a);
  if (why == 1) f.travel = f.rotation = 0.1;
  Sim s(f);
  if (why == 1) s.send(s.laser({1, 2, 3}));
  s.odom_known = why != 3;
  Pose2d at = s.odom;
  std::vector<size_t> bytes;
  for (int round = 0; round < (spread ? 13 : 6); ++round)
  {
    s.odom = at;
    for (auto & a : todo) act(s, a);
    s.advance(1.3);
    bytes.push_back(allocated());
  }
  check_steady(bytes, "a node whose map does not grow", spread ? 10 : 4);
  if (scans >= 5) c.nontrivial();
  c.label(filter ? "filter" : f.mapping ? "not moving" : "localising");
}
