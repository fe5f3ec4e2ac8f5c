// C32: storage faults
#include "play.hpp"
using namespace node;

namespace
{
bool same_file(const stub::Bag & a, const stub::Bag & b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i].topic != b[i].topic || a[i].data != b[i].data) return false;
  return true;
}
}  // namespace

PBT_TEST(C32, failures, 4000, 120000, "histories of up to 30 scans, poses, waits and successful requests, with failing saves (existing target, failure of any write) and loads (missing file, failure of any read) in between, in all modes, loop closure possibly at work; "
         "non-trivial: a request failed with at least two scans in the map, and a scan was processed later")
{
  begin(c);
  bool filter = c.chance(20), mapping = c.chance(70);
  Config f = any_config(c, filter, mapping);
  random_script(c);
  f.search = c.pick(std::vector<double>{0, 1});
  f.rolling = static_cast<int>(c.pick(std::vector<int>{10, 2, 1}));
  f.node_limit = 3;
  script().closure_shift = 0.02;
  script().pause = c.chance(30) ? 50 : 0;
  if (filter || !mapping || c.chance(30))
  {
    f.map_file = "start";
    write_map(c, f.map_file, 1 + c.below(6), 1, f.barycenter);
  }
  write_map(c, "other", c.below(6), 1, f.barycenter);
  Play p(c, f, kGate | kGraph | kLocal | kTf);
  p.exact_filter = filter;
  size_t n = 4 + c.size(30), saves = 0, failed = 0, later = 0;
  for (size_t i = 0; i < n; ++i)
  {
    if (!p.localised && c.chance(50)) { p.pose(); continue; }
    switch (c.weighted({8, 3, 6, 1, 1}))
    {
      case 0:
        p.move();
        if (p.laser(false) && failed) ++later;
        break;
      case 1: p.advance(c.pick(std::vector<double>{0.3, 1.1})); break;
      case 2:
        {
          bool busy = world::pausing();
          Map before = p.s.map();
          size_t published = p.s.maps_published();
          int how = static_cast<int>(c.below(4)), action;
          std::string file;
          auto & faults = stub::bag_faults();
          size_t operations = 0;
          switch (how)
          {
            case 0: action = kSave; file = c.chance(50) ? "other" : "start"; stub::bags()[file]; break;
            case 1: action = kLoad; file = "missing"; break;
            case 2:
              action = kSave;
              file = "broken" + std::to_string(i);
              operations = 1 + before.scans.size() + before.constraints.size();
              faults.write_in = static_cast<long>(c.below(operations));
              break;
            default:
              {
                action = kLoad;
                file = "other";
                operations = 1 + stub::bags()["other"].size();
                faults.read_in = static_cast<long>(c.below(operations));
              }
          }
          auto content = stub::bags();
          p.tell(std::string(action == kSave ? "failing save" : "failing load") + " kind " + std::to_string(how));
          int mode = c.pick(std::vector<int>{0, 0, 0, kEnable, kDisable});
          if (mode) p.tell(mode == kEnable ? "with enabling" : "with disabling");
          try
          {
            p.s.call(action | mode, file);
          }
          catch (const std::exception & e)
          {
            pbt::fail(std::string("the request brings down the node: ") + e.what());
          }
          if (mode == kEnable) p.enabled = true;
          else if (mode == kDisable) { p.enabled = false; p.localised = false; }
          p.mapping = p.enabled && !f.filter;
          bool hit = how < 2 || (faults.write_in < 0 && faults.read_in < 0);
          faults = stub::BagFaults();
          world::settle();
          CHECK(hit, "the fault was not reached");
          if (how == 2) stub::bags().erase(file);
          else if (how == 0) content.erase(file);
          for (auto & b : content)
            CHECK(same_file(b.second, stub::bags()[b.first]), "file " << b.first << " changed");
          Map after = p.s.map();
          check_well_formed(after, "after a failed request");
          if (busy) CHECK(after.scans.size() == before.scans.size() && after.constraints.size() >= before.constraints.size(), "a failed request changed the map");
          else check_same(before, after, "a failed request");
          CHECK(p.s.maps_published() == published, "a failed request published a map");
          if (before.scans.size() >= 2) ++failed;
          break;
        }
      case 3: p.configure(kSave, "kept" + std::to_string(++saves)); break;
      default:
        if (c.chance(50)) p.configure(kLoad | c.pick(std::vector<int>{0, 0, kEnable, kDisable}), "other");
        else p.configure(c.pick(std::vector<int>{kEnable, kDisable}));
    }
  }
  p.configure(kSave, "final");
  if (failed && later) c.nontrivial();
  c.label(filter ? "filter" : mapping ? "mapping" : "localising");
}
