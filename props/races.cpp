// C33: data races of the node, by ThreadSanitizer on generated histories. Threads run one at a time, in virtual
// time; that order is not visible to the sanitizer, which knows only of the locks and atomics of the node. Nothing
// here synchronises either: the matchers keep no record, and results of the other threads are not looked at.
#include "play.hpp"
using namespace node;

namespace
{
struct Plan
{
  uint64_t salt = 0;
  unsigned slow_front = 0, slow_back = 0;   // percentage of matches that take a while
  double shift = 0;
} g_plan;                            // not written while the node runs

class ReadingMatcher : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string &, rclcpp::Node *, double) override { known_ = 0; }
  void addScans(const std::vector<ScanPtr>::const_iterator & begin, const std::vector<ScanPtr>::const_iterator & end) override
  {
    for (auto s = begin; s != end; ++s)
    {
      place(*s);
      ++known_;
    }
  }
  double matchScan(const ScanPtr & scan, Pose2d & pose, Eigen::Matrix3d & covariance) const override
  {
    place(scan);
    bool back = world::background();
    uint64_t h = hash(hash(hash(g_plan.salt, scan->getId()), known_), back);
    if (h % 100 < (back ? g_plan.slow_back : g_plan.slow_front)) world::lapse(0.4);
    h = hash(h, 1);
    pose = Pose2d(g_plan.shift * (static_cast<double>(h % 1000) / 500 - 1), g_plan.shift * (static_cast<double>(h / 1000 % 1000) / 500 - 1), 0.01);
    covariance = Eigen::Matrix3d::Identity() * 0.01;
    return back ? (h / 1000000 % 3 ? -5 : 0) : -0.6;
  }
  double scoreScan(const ScanPtr & scan) const override { return place(scan); }
  double scorePoints(const std::vector<Point> &, const Pose2d & pose) const override { return -std::fabs(pose.x) - static_cast<double>(known_); }
  void reset() override { known_ = 0; }

private:
  // Reads what a matcher reads
  double place(const ScanPtr & scan) const
  {
    Pose2d p = scan->getPose();
    double sum = p.x + p.y + p.theta;
    for (auto & q : scan->getPoints()) sum += q.x;
    return sum;
  }
  size_t known_ = 0;
};
}  // namespace

PBT_TEST(C33, histories, 1500, 60000, "histories of up to 60 scans, poses, requests and waits in all modes, with slow matches and transforms during which the other threads go on, under ThreadSanitizer; "
         "non-trivial: at least 3 scans, and 2 s in which other threads ran")
{
  world::reset(c.seed());
  stub::plugin_registry()["verif::Scripted"] = [] {
      return std::static_pointer_cast<void>(std::static_pointer_cast<ndt_2d::ScanMatcher>(std::make_shared<ReadingMatcher>()));
    };
  unsigned mode = static_cast<unsigned>(c.weighted({6, 2, 1}));
  Config f = any_config(c, mode == 1, mode != 2);
  f.search = c.pick(std::vector<double>{3, 0.5, 1, 0});
  f.rolling = static_cast<int>(c.pick(std::vector<int>{2, 1, 3, 10}));
  f.search_limit = static_cast<int>(c.pick(std::vector<int>{3, 1, 100}));
  f.node_limit = static_cast<int>(c.pick(std::vector<int>{3, 0, 25}));
  f.travel = 0.1;
  f.ndt = c.chance(10);
  g_plan.salt = c.seed();
  g_plan.shift = c.pick(std::vector<double>{0.02, 0, 0.2});
  g_plan.slow_front = c.pick(std::vector<unsigned>{0, 20, 60});
  g_plan.slow_back = c.pick(std::vector<unsigned>{30, 0, 100});
  if (mode == 2 || c.chance(25))
  {
    f.map_file = "start";
    write_map(c, f.map_file, c.below(12), 0.7, f.barycenter);
  }
  write_map(c, "other", c.below(12), 0.7, f.barycenter);
  c.note << f.show() << " slow " << g_plan.slow_front << "/" << g_plan.slow_back;
  Sim s(f, false);
  world::settle();
  s.odom = Pose2d(c.coord(1), c.coord(1), c.angle());
  s.mounting.translation.x = 0.2;
  double slow_tf = c.chance(30) ? 0.3 : 0;
  unsigned interrupted = c.pick(std::vector<unsigned>{0, 3, 0, 10, 30});
  if (interrupted)
  {
    world::interrupt(c.seed(), interrupted);
    c.note << " interrupted " << interrupted << "%";
  }
  size_t n = c.chance(60) ? 15 + c.below(45) : 2 + c.size(20), scans = 0;
  double waited = 0;
  for (size_t i = 0; i < n; ++i)
  {
    s.slow = slow_tf > 0 && c.chance(40) ? slow_tf : 0;
    switch (c.weighted({12, 5, 2, 2, 1}))
    {
      case 0:
        {
          s.odom = compose(s.odom, Pose2d(c.real(0.11, 0.5), 0, c.angle()));
          if (std::hypot(s.odom.x, s.odom.y) > 1.5) s.odom = Pose2d(0.3 * s.odom.x, 0.3 * s.odom.y, s.odom.theta);
          std::vector<float> r(1 + c.below(4), 2.0f);
          s.send(s.laser(r));
          ++scans;
          c.note << "; scan";
          break;
        }
      case 1:
        {
          double t = c.pick(std::vector<double>{1.0, 0.25, 0.5, 2.0});
          world::advance(t);
          waited += t;
          c.note << "; " << t << " s";
          break;
        }
      case 2:
        s.pose(Pose2d(c.coord(1), c.coord(1), c.angle()), 0.01, 0.01, 0.01);
        c.note << "; pose";
        break;
      case 3:
        {
          int a = c.pick(std::vector<int>{kEnable, kDisable, kSave, kLoad, kDisable | kLoad, kEnable | kLoad});
          s.call(a, a & kSave ? "out" : "other");
          c.note << "; request " << a;
          break;
        }
      default:
        // (without anything in between)
        s.call(kDisable);
        s.call(kEnable);
        s.pose(Pose2d(c.coord(1), c.coord(1), c.angle()), 0.01, 0.01, 0.01);
        c.note << "; off, on, pose";
    }
  }
  if (scans >= 3 && waited >= 2) c.nontrivial();
  c.label(mode == 1 ? "filter" : mode == 2 ? "localising" : "mapping");
}
