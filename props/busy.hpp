// Histories in which all threads are interrupted anywhere (at locks, logs, publications, questions for the time), with
// a model of what does not depend on the schedule.
#pragma once
#include "play.hpp"

namespace node
{
class Busy
{
public:
  Busy(Case & c_, const Config & f, unsigned percent_) : c(c_), s(f), percent(percent_), seed(c_.seed())
  {
    mapping = f.mapping && !f.filter;
    enabled = f.mapping;
    localised = f.map_file.empty();
    s.mounting.translation.x = 0.2;
    s.odom = Pose2d(c.coord(1), c.coord(1), c.angle());
    if (!f.map_file.empty()) base = s.map();
    scans = base.scans.size();
    pairs.push_back({true, Pose2d(), Pose2d(), stub::now_ns(), stub::now_ns()});
    c.note << f.show() << " interrupted " << percent << "%";
    resume();
  }
  void resume() { world::interrupt(seed = hash(seed, 1), percent); }
  void suspend() { count += world::interruptions(); world::interrupt(0, 0); }
  // The stored map, not interrupted
  Map look()
  {
    world::interrupt(0, 0);
    Map m = s.map();
    resume();
    return m;
  }

  // True: it should be processed
  bool scan()
  {
    for (int k = 0; k < 20; ++k)
    {
      s.odom = compose(s.odom, Pose2d(c.real(0.11, 0.5), 0, c.angle()));
      if (std::hypot(s.odom.x, s.odom.y) > 1.5) s.odom = Pose2d(0.3 * s.odom.x, 0.3 * s.odom.y, s.odom.theta);
      if (std::hypot(s.odom.x - prev_odom.x, s.odom.y - prev_odom.y) > 0.105) break;
    }
    if (std::hypot(s.odom.x - prev_odom.x, s.odom.y - prev_odom.y) < 0.105) throw pbt::Discard();
    std::vector<float> r;
    for (size_t k = 1 + c.below(4); k > 0; --k) r.push_back(static_cast<float>(c.real(0.5, 3)));
    bool process = localised;
    Pose2d predicted = scans ? compose(prev_robot, between(prev_odom, s.odom)) : Pose2d();
    c.note << "; scan" << (process ? "" : " ignored");
    take();
    size_t clouds = s.clouds();
    int64_t from = stub::now_ns();
    s.send(s.laser(r));
    laser_seen = true;
    auto events = take();
    if (!process)
    {
      CHECK(events.empty() && s.clouds() == clouds, "a scan to be ignored was matched, or moved the particles");
      return false;
    }
    const Event * e = nullptr;
    for (auto & v : events) if (v.op == 'm') e = &v;
    Pose2d placed = predicted;
    if (e)
    {
      CHECK(near(e->pose, predicted, 1e-9 * (1 + reach(predicted))), "a scan is matched at " << show(e->pose) << ", the odometry predicts " << show(predicted));
      placed.x = e->pose.x + e->answer.correction.x;
      placed.y = e->pose.y + e->answer.correction.y;
      placed.theta = e->pose.theta + e->answer.correction.theta;
    }
    if (s.cfg.filter)
    {
      CHECK(s.clouds() == clouds + 1, "a scan gave " << s.clouds() - clouds << " particle clouds");
      placed = Play::mean_of(s.cloud());
      ++filtered;
    }
    else if (mapping)
    {
      if (scans)
      {
        CHECK(e, "scan " << scans << " was not matched");
        size_t want = std::min<size_t>(scans, s.cfg.rolling);
        CHECK(e->map.size() == want, "scan " << scans << " was matched against " << e->map.size() << " scans, with a rolling depth of " << s.cfg.rolling);
        for (size_t i = 0; i < want; ++i) CHECK(e->map[i] == scans - want + i, "scan " << scans << " was matched against scan " << e->map[i]);
        chain.push_back({scans, e->map_poses.back(), placed, e->answer.covariance});
      }
      ++scans;
      ++mapped;
    }
    else
    {
      CHECK(e, "a scan was not matched");
      localising.push_back(*e);
    }
    put(placed, from);
    return true;
  }
  // A pose that should be accepted, unless mapping from a known one
  void pose()
  {
    Map m = look();
    Pose2d p = m.scans.empty() ? Pose2d(c.coord(1), c.coord(1), c.angle()) : compose(m.scans[c.below(m.scans.size())].pose, Pose2d(c.coord(1), c.coord(1), c.angle()));
    p.theta = ref::wrap(p.theta);
    bool accept = !(mapping && (localised || !scans));
    c.note << "; pose" << (accept ? "" : " ignored");
    int64_t from = stub::now_ns();
    size_t clouds = s.clouds();
    s.pose(p, 0.01, 0.01, 0.01);
    take();
    if (!accept) return;
    if (mapping) ++scans;
    if (s.cfg.filter) CHECK(s.clouds() == clouds + 1, "a pose gave " << s.clouds() - clouds << " particle clouds");
    localised = true;
    put(p, from);
  }
  void configure(int action, const std::string & file = "")
  {
    c.note << "; request " << action;
    int64_t from = stub::now_ns();
    if (action & kLoad)
    {
      take();
      base = copy(Graph(s.cfg.barycenter, file));
      chain.clear();
      accepted.clear();
      loaded = true;
      scans = base.scans.size();
    }
    s.call(action, file);
    take();
    if (action & kEnable) enabled = true;
    else if (action & kDisable) { enabled = false; localised = false; }
    mapping = enabled && !s.cfg.filter;
    if (action & kLoad)
    {
      localised = false;
      pairs.back().to = std::max(pairs.back().to, from);
      pairs.push_back({true, Pose2d(), Pose2d(), from, stub::now_ns()});
    }
    if ((action & kSave) && !(action & kLoad)) check(copy(Graph(s.cfg.barycenter, file)), "the saved file");
  }
  void wait(double t)
  {
    c.note << "; " << pbt::shortstr(t) << " s";
    s.advance(t);
    take();
  }
  // Until nothing happens any more
  void quiet()
  {
    suspend();
    for (int k = 0, rounds = 0; k < 3 && rounds < 200; ++rounds)
    {
      size_t was = background.size();
      s.advance(1.0);
      take();
      k = world::pausing() || background.size() != was ? 0 : k + 1;
    }
  }

  // Anything that holds of the stored map at any time
  void check(const Map & m, const std::string & what)
  {
    check_well_formed(m, what);
    CHECK(m.scans.size() == scans, what << " has " << m.scans.size() << " scans, expected " << scans);
    for (size_t i = 0; i < base.scans.size(); ++i) CHECK(same(m.scans[i], base.scans[i], false), what << ": scan " << i << " of the loaded map changed");
    for (size_t i = 0; i < base.constraints.size(); ++i) CHECK(i < m.constraints.size() && same(m.constraints[i], base.constraints[i]), what << ": constraint " << i << " of the loaded map changed");
    std::vector<const Map::C *> joins(m.scans.size(), nullptr);
    for (auto & k : m.constraints) if (!k.sw && k.end == k.begin + 1) joins[k.end] = &k;
    for (auto & l : chain)
    {
      auto k = joins[l.scan];
      CHECK(k, what << ": scan " << l.scan << " is not joined to its predecessor");
      Pose2d d = between(l.a, l.b);
      CHECK(pbt::near(k->t(0), d.x, 1e-9) && pbt::near(k->t(1), d.y, 1e-9) && pbt::near(ref::wrap(k->t(2) - d.theta), 0, 1e-9),
            what << ": scan " << l.scan << " is joined by " << k->t.transpose() << ", the match says " << show(d));
      check_information(*k, l.covariance, what);
    }
  }
  // Closures against the matches that found them
  void check_closures(const Map & m)
  {
    std::vector<bool> used(accepted.size(), false);
    size_t n = 0, next = 0;
    for (size_t i = base.constraints.size(); i < m.constraints.size(); ++i)
    {
      auto & k = m.constraints[i];
      if (!k.sw) continue;
      ++n;
      bool found = false;
      for (size_t j = loaded ? 0 : next; j < accepted.size() && !found; ++j)
      {
        auto & e = accepted[j];
        if (used[j] || e.scan != k.end) continue;
        Pose2d at(e.pose.x + e.answer.correction.x, e.pose.y + e.answer.correction.y, e.pose.theta + e.answer.correction.theta);
        for (size_t q = 0; q < e.map.size() && !found; ++q)
        {
          Pose2d d = between(e.map_poses[q], at);
          found = e.map[q] == k.begin && pbt::near(k.t(0), d.x, 1e-9) && pbt::near(k.t(1), d.y, 1e-9) && pbt::near(ref::wrap(k.t(2) - d.theta), 0, 1e-9);
        }
        if (found)
        {
          used[j] = true;
          next = j + 1;
          check_information(k, e.answer.covariance, "a closure");
        }
      }
      CHECK(found, "the closure from " << k.begin << " to " << k.end << " by " << k.t.transpose() << " is not what a match found");
    }
    if (!loaded) CHECK(n == accepted.size(), n << " closures in the map, " << accepted.size() << " were found");
  }
  // The matches of the loop closure thread themselves
  void check_search()
  {
    std::map<size_t, std::set<std::vector<size_t>>> tried;
    for (auto & e : background)
    {
      CHECK(e.op == 'm', "the loop closure thread asks for a score");
      CHECK(!s.cfg.filter, "loop closure while filtering");
      CHECK(tried[e.scan].insert(e.map).second || loaded, "scan " << e.scan << " was matched twice against the same scans");
      CHECK(tried[e.scan].size() <= static_cast<size_t>(s.cfg.search_limit) || loaded, "scan " << e.scan << " was matched " << tried[e.scan].size() << " times");
      double closest = 1e300;
      for (size_t i = 0; i < e.map.size(); ++i)
        if (e.map[i] + s.cfg.rolling < e.scan) closest = std::min(closest, std::hypot(e.map_poses[i].x - e.pose.x, e.map_poses[i].y - e.pose.y));
      CHECK(closest < 1e300, "scan " << e.scan << " was matched against its own predecessors only");
      // (it moves with the closures that are found on the way)
      if (!s.cfg.barycenter) CHECK(closest < s.cfg.search + 1e-9 + 1.5 * script().closure_shift * static_cast<double>(tried[e.scan].size() - 1), "scan " << e.scan << " was matched against scans that are " << closest << " away");
    }
  }
  // Each transform is that of one estimate and the odometry it was made with
  void check_tf(bool last)
  {
    auto & all = stub::tf_sent();
    for (; tf_seen < all.size(); ++tf_seen)
    {
      auto & q = all[tf_seen].transform;
      int64_t t = stub::tf_sent_at()[tf_seen];
      Pose2d got(q.translation.x, q.translation.y, 2 * std::atan2(q.rotation.z, q.rotation.w));
      bool found = false, any = false;
      std::string could;
      for (size_t i = at; i < pairs.size() && !found; ++i)
      {
        auto & p = pairs[i];
        // (a transform is on its way for 3 interruptions at most)
        if (p.from > t) break;
        if (i + 1 < pairs.size() && pairs[i + 1].to < t - 4000000000LL) continue;
        if (p.any) { any = true; continue; }
        if (near(compose(got, p.odom), p.robot, 1e-9 * (1 + reach(p.odom) + reach(p.robot)) + (s.cfg.filter ? 1e-6 : 0))) { found = true; at = i; }
        could += " " + show(compose(p.robot, between(p.odom, Pose2d())));
      }
      CHECK(found || any, "the transform " << show(got) << " is of none of the estimates:" << could);
      transforms += found;
    }
    if (last && !all.empty() && !pairs.back().any)
    {
      auto & q = all.back().transform;
      auto & p = pairs.back();
      Pose2d got(q.translation.x, q.translation.y, 2 * std::atan2(q.rotation.z, q.rotation.w));
      CHECK(near(compose(got, p.odom), p.robot, 1e-9 * (1 + reach(p.odom) + reach(p.robot)) + (s.cfg.filter ? 1e-6 : 0)), "the last transform puts the robot at " << show(compose(got, p.odom)) << ", the estimate is " << show(p.robot));
    }
  }

  struct Link { size_t scan; Pose2d a, b; Eigen::Matrix3d covariance; };
  struct Pair { bool any; Pose2d robot, odom; int64_t from, to; };
  Case & c;
  Sim s;
  unsigned percent;
  uint64_t seed;
  bool mapping, enabled, localised, laser_seen = false, loaded = false;
  size_t scans = 0, mapped = 0, filtered = 0, count = 0, transforms = 0, tf_seen = 0, at = 0, saves = 0;
  Map base;                          // that was loaded
  std::vector<Link> chain;
  std::vector<Pair> pairs;
  std::vector<Event> background, accepted, localising;
  Pose2d prev_odom, prev_robot;

private:
  static double reach(const Pose2d & p) { return std::fabs(p.x) + std::fabs(p.y); }
  void put(const Pose2d & robot, int64_t from)
  {
    prev_robot = robot;
    prev_odom = s.odom;
    pairs.push_back({false, robot, s.odom, from, stub::now_ns()});
  }
  std::vector<Event> take()
  {
    std::vector<Event> front;
    for (auto & e : s.take_events())
    {
      if (!e.background) front.push_back(e);
      else
      {
        background.push_back(e);
        if (e.op == 'm' && std::isfinite(e.answer.score) && e.answer.score < -1) accepted.push_back(e);
      }
    }
    return front;
  }
};

inline Config busy_config(Case & c, bool filter, bool mapping)
{
  Config f = any_config(c, filter, mapping);
  f.travel = 0.1;
  f.rotation = 1.0;
  f.rolling = static_cast<int>(c.pick(std::vector<int>{2, 1, 3, 5}));
  f.search = c.pick(std::vector<double>{1, 3, 0.3});
  f.search_limit = static_cast<int>(c.pick(std::vector<int>{3, 1, 100}));
  f.node_limit = static_cast<int>(c.pick(std::vector<int>{2, 0, 8}));
  random_script(c);
  Script & q = script();
  q.shift = c.pick(std::vector<double>{0.05, 0});
  q.turn = c.pick(std::vector<double>{0.05, 0});
  q.closure_shift = c.pick(std::vector<double>{0.1, 0.02});
  q.closure_turn = 0.05;
  q.accept = 70;
  return f;
}
// Something happens
inline void busy_step(Busy & b, Case & c, bool loads, bool modes)
{
  if (!b.localised && c.chance(60)) { b.pose(); return; }
  switch (c.weighted({12, 4, 1, modes ? 2u : 0u, loads ? 1u : 0u}))
  {
    case 0: b.scan(); break;
    case 1: b.wait(c.pick(std::vector<double>{0.3, 1.1, 2.2})); break;
    case 2: b.pose(); break;
    case 3:
      {
        int a = c.pick(std::vector<int>{kDisable, kEnable, kSave, kSave | kDisable});
        b.configure(a, a & kSave ? "kept" + std::to_string(++b.saves) : "");
        break;
      }
    default: b.configure(kLoad | c.pick(std::vector<int>{0, kEnable, kDisable}), "other");
  }
}
inline unsigned busy_percent(Case & c) { return c.pick(std::vector<unsigned>{10, 3, 25}); }
}  // namespace node
