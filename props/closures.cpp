// C31: loop closures, against a model of the search
#include "busy.hpp"
#include <ndt_2d/ceres_solver.hpp>
using namespace node;

namespace
{
class Search
{
public:
  explicit Search(Play & p_) : p(p_) { reset(p.s.map()); }
  void reset(const Map & map)
  {
    m = map;
    processed = last = 0;
    open = false;
  }
  // Scans that were added
  void follow()
  {
    Map now = p.s.map();
    for (size_t i = m.scans.size(); i < now.scans.size(); ++i) m.scans.push_back(now.scans[i]);
    for (size_t i = known; i < now.constraints.size(); ++i) if (!now.constraints[i].sw) m.constraints.push_back(now.constraints[i]);
    known = now.constraints.size();
  }

  // The next match of the loop closure thread. Result: a closure was found
  bool match(const Event & e)
  {
    CHECK(e.op == 'm', "the loop closure thread asks for a score");
    if (processed <= static_cast<size_t>(p.s.cfg.rolling)) processed = p.s.cfg.rolling + 1;
    while (true)
    {
      CHECK(processed < m.scans.size(), "scan " << e.scan << " was searched again, or matched too often");
      if (!open) start();
      if (next < near.size()) break;
      ++processed;
      open = false;
    }
    size_t i = near[next++];
    auto & scan = m.scans[processed];
    CHECK(e.scan == scan.id, "scan " << e.scan << " was searched, the next one is " << scan.id);
    CHECK(node::near(e.pose, scan.pose, 1e-9), "scan " << scan.id << " was matched at " << show(e.pose) << ", it is at " << show(scan.pose));
    bool found = false;
    for (size_t k = 0; k < e.map.size(); ++k)
    {
      CHECK(e.map[k] + 1 >= i && e.map[k] <= i + 1, "scan " << scan.id << " was matched against scan " << e.map[k] << ", next should be scan " << i);
      CHECK(node::near(e.map_poses[k], m.scans[e.map[k]].pose, 1e-9), "scan " << e.map[k] << " was used at " << show(e.map_poses[k]) << ", it is at " << show(m.scans[e.map[k]].pose));
      found = found || e.map[k] == i;
    }
    CHECK(found, "scan " << scan.id << " was not matched against scan " << i << ", the next nearest");
    ++matches;
    if (std::fabs(e.answer.score - p.typical) < 1e-9) throw pbt::Discard();
    if (!(std::isfinite(e.answer.score) && e.answer.score < p.typical)) return false;
    scan.pose.x += e.answer.correction.x;
    scan.pose.y += e.answer.correction.y;
    scan.pose.theta += e.answer.correction.theta;
    Pose2d d = between(m.scans[i].pose, scan.pose);
    Map::C k;
    k.begin = i;
    k.end = scan.id;
    k.t = Eigen::Vector3d(d.x, d.y, d.theta);
    k.info = e.answer.covariance;
    k.sw = true;
    closures.push_back(k);
    return true;
  }
  // Everything (or the first so many) was searched
  void finish(size_t until = SIZE_MAX)
  {
    if (m.scans.size() <= static_cast<size_t>(p.s.cfg.rolling)) return;
    if (processed <= static_cast<size_t>(p.s.cfg.rolling)) processed = p.s.cfg.rolling + 1;
    for (; processed < m.scans.size() && processed < until; ++processed, open = false)
    {
      if (!open) start();
      CHECK(next == near.size(), "scan " << processed << " was not matched against scan " << near[next] << ", which is near");
    }
  }
  // Closures of the map from number `from` on are those of the model
  void check_closures(const Map & map, size_t from)
  {
    std::vector<Map::C> got;
    for (auto & k : map.constraints) if (k.sw) got.push_back(k);
    CHECK(got.size() == closures.size(), got.size() << " closures in the map, " << closures.size() << " were found");
    for (size_t i = from; i < got.size(); ++i)
    {
      auto & g = got[i];
      auto & e = closures[i];
      CHECK(g.begin == e.begin && g.end == e.end, "a closure joins " << g.begin << " to " << g.end << ", found was " << e.begin << " to " << e.end);
      CHECK((g.t - e.t).head<2>().norm() < 1e-9 && std::fabs(ref::wrap(g.t(2) - e.t(2))) < 1e-9, "the closure from " << g.begin << " to " << g.end << " is " << g.t.transpose() << ", found was " << e.t.transpose());
      check_information(g, e.info, "a closure");
    }
  }

  Map m;
  std::vector<Map::C> closures;
  size_t processed = 0, last = 0, matches = 0, known = 0;

private:
  void start()
  {
    open = true;
    next = 0;
    near.clear();
    auto & cfg = p.s.cfg;
    Eigen::Vector2d at = place_of(m.scans[processed], cfg.barycenter);
    std::vector<std::pair<double, size_t>> d;
    for (size_t i = 0; i + cfg.rolling < processed; ++i)
    {
      double r = (place_of(m.scans[i], cfg.barycenter) - at).norm();
      if (std::fabs(r - cfg.search) < 1e-9) throw pbt::Discard();
      if (r < cfg.search) d.emplace_back(r, i);
    }
    std::sort(d.begin(), d.end());
    for (size_t k = 0; k < d.size(); ++k)
    {
      if (k && d[k].first - d[k - 1].first < 1e-9) throw pbt::Discard();
      if (!m.scans[d[k].second].points.empty() && near.size() < static_cast<size_t>(cfg.search_limit)) near.push_back(d[k].second);
    }
  }
  Play & p;
  bool open = false;
  size_t next = 0;
  std::vector<size_t> near;
};

// The robot goes around in a small area, and comes back
void wander(Play & p, Case & c)
{
  p.move();
  Pose2d at = p.prediction();
  if (p.scans && std::hypot(at.x, at.y) > 0.5 + 4 * p.s.cfg.travel)
  {
    // towards the middle, heading wherever
    double a = std::atan2(-at.y, -at.x) - at.theta + c.coord(0.5), d = std::max(0.5, 2 * p.s.cfg.travel);
    p.s.odom = compose(p.s.odom, Pose2d(d * cos(a), d * sin(a), 0));
  }
}

Config closing_config(Case & c)
{
  Config f = any_config(c, false, true);
  f.rolling = static_cast<int>(c.pick(std::vector<int>{3, 1, 2, 5, 10, 0}));
  f.search = c.pick(std::vector<double>{0.5, 1, 0.2, 3});
  f.search_limit = static_cast<int>(c.pick(std::vector<int>{3, 1, 2, 5, 0, 100}));
  f.travel = c.pick(std::vector<double>{0.1, 0.3, 0.05});
  return f;
}
void closing_script(Case & c)
{
  random_script(c);
  Script & s = script();
  s.closure_shift = c.pick(std::vector<double>{0.02, 0, 0.2});
  s.closure_turn = c.pick(std::vector<double>{0.02, 0, 0.2});
  s.accept = c.pick(std::vector<unsigned>{60, 100, 20, 0});
}

Map optimised(const Map & m)
{
  Graph g(false);
  for (auto & s : m.scans)
  {
    auto p = std::make_shared<Scan>(s.id);
    p->setPose(s.pose);
    g.scans.push_back(p);
  }
  for (auto & k : m.constraints)
  {
    auto q = std::make_shared<Constraint>();
    q->begin = k.begin;
    q->end = k.end;
    q->transform = k.t;
    q->information = k.info;
    q->switchable = k.sw;
    g.constraints.push_back(q);
  }
  ndt_2d::CeresSolver solver;
  solver.optimize(g.constraints, g.scans);
  return copy(g);
}
}  // namespace

PBT_TEST(C31, closures, 3000, 100000, "histories of up to 60 scans in a small area, waits, mapping switched off and on, maps loaded; every match of the loop closure thread, every closure and every optimisation against a model; "
         "non-trivial: at least one closure and 5 scans")
{
  begin(c);
  Config f = closing_config(c);
  f.node_limit = static_cast<int>(c.pick(std::vector<int>{25, 1000, 3, 0, 8}));
  closing_script(c);
  script().close = c.chance(40);
  bool loaded = c.chance(30);
  if (loaded)
  {
    f.map_file = "start";
    write_map(c, f.map_file, 1 + c.below(20), 0.7, f.barycenter);
  }
  write_map(c, "other", 1 + c.below(12), 0.7, f.barycenter);
  Play p(c, f, 0);
  p.s.odom = Pose2d(c.coord(1), c.coord(1), c.angle());
  Search q(p);
  size_t n = c.chance(60) ? 20 + c.below(50) : 3 + c.size(30), optimisations = 0;
  for (size_t i = 0; i <= n; ++i)
  {
    if (!p.localised && c.chance(60))
    {
      p.pose();
      q.m = p.s.map();
      continue;
    }
    switch (i == n ? 1 : c.weighted({16, 4, 1, 1}))
    {
      case 0:
        wander(p, c);
        p.laser(false);
        q.m = p.s.map();
        break;
      case 1:
        {
          Map before = p.s.map();
          p.background.clear();
          p.advance(1.0);
          p.drain();
          Map after = p.s.map();
          size_t from = q.closures.size();
          bool search = p.mapping && p.laser_seen && before.scans.size() > static_cast<size_t>(f.rolling);
          if (!search)
          {
            CHECK(p.background.empty(), "loop closure while not mapping, or with too few scans");
            check_same(before, after, "waiting");
            break;
          }
          for (auto & e : p.background) q.match(e);
          q.finish();
          size_t found = q.closures.size() - from;
          for (size_t k = from; k < q.closures.size(); ++k)
          {
            q.m.constraints.push_back(q.closures[k]);
            if (after.constraints.size() >= q.m.constraints.size()) q.m.constraints.back() = after.constraints[q.m.constraints.size() - 1];
          }
          // (closures of a loaded map are its own)
          Map tail = after;
          CHECK(after.constraints.size() == before.constraints.size() + found, after.constraints.size() - before.constraints.size() << " closures were added, " << found << " were found");
          tail.constraints.erase(tail.constraints.begin(), tail.constraints.begin() + static_cast<long>(before.constraints.size()));
          std::vector<Map::C> all;
          std::swap(all, q.closures);
          q.closures.assign(all.begin() + static_cast<long>(from), all.end());
          for (auto & k : tail.constraints) CHECK(k.sw, "a closure is not switchable");
          q.check_closures(tail, 0);
          std::swap(all, q.closures);
          for (size_t k = 0; k < before.constraints.size(); ++k) CHECK(same(before.constraints[k], after.constraints[k]), "constraint " << k << " changed");
          CHECK(after.scans.size() == before.scans.size(), "scans were added while waiting");
          bool optimise = found && before.scans.size() - q.last > static_cast<size_t>(f.node_limit);
          if (optimise)
          {
            Map want = optimised(q.m);
            double moved = 0, off = 0;
            for (size_t k = 0; k < after.scans.size(); ++k)
            {
              moved = std::max(moved, std::hypot(want.scans[k].pose.x - q.m.scans[k].pose.x, want.scans[k].pose.y - q.m.scans[k].pose.y));
              off = std::max(off, std::hypot(want.scans[k].pose.x - after.scans[k].pose.x, want.scans[k].pose.y - after.scans[k].pose.y));
            }
            CHECK(off <= 1e-3 + 0.02 * moved, "an optimisation was due; poses are " << off << " from where it puts them (they move by up to " << moved << ")");
            q.last = before.scans.size();
            ++optimisations;
          }
          else
            for (size_t k = 0; k < after.scans.size(); ++k)
              CHECK(near(after.scans[k].pose, q.m.scans[k].pose, 1e-9), "scan " << k << " moved to " << show(after.scans[k].pose) << " from " << show(q.m.scans[k].pose) << (found ? " beyond its corrections" : " without a closure"));
          q.m = after;
          break;
        }
      case 2: p.configure(c.pick(std::vector<int>{kEnable, kDisable})); break;
      default:
        if (c.chance(30))
        {
          p.configure(kLoad | c.pick(std::vector<int>{0, 0, kEnable, kDisable}), "other");
          q.reset(p.s.map());
        }
    }
  }
  if (!q.closures.empty() && p.processed >= 5) c.nontrivial();
  c.label(q.closures.empty() ? "no closures" : "closures");
  c.label(optimisations ? "optimised" : "not optimised");
  if (f.search_limit == 0) c.label("limit 0");
}

PBT_TEST(C31, slow_matches, 2000, 60000, "histories of up to 60 scans in a small area with scans arriving while the loop closure thread matches; every match, every closure, and when the graph is optimised; non-trivial: at least one closure and one scan that arrived in between")
{
  begin(c);
  Config f = closing_config(c);
  f.node_limit = static_cast<int>(c.pick(std::vector<int>{100000, 8, 4, 15, 0, 25}));
  closing_script(c);
  script().pause = c.pick(std::vector<unsigned>{50, 20, 100});
  Play p(c, f, 0);
  p.s.odom = Pose2d(c.coord(1), c.coord(1), c.angle());
  Search q(p);
  size_t n = c.chance(70) ? 20 + c.below(50) : 3 + c.size(30), between = 0, optimisations = 0, limit = static_cast<size_t>(f.node_limit);
  // Scans there were at the last optimisation (at least, at most: one that moves nothing is not to be seen),
  // and when the search that is going on began
  size_t least = 0, most = 0, began = 0;
  bool closures = false, found = false, searching = false;
  auto absorb = [&]() {
      p.drain();
      if (!searching && !p.background.empty())
      {
        searching = true;
        found = false;
        began = q.m.scans.size();
      }
      for (auto & e : p.background) found = q.match(e) || found;
      p.background.clear();
      if (world::pausing()) return;
      // The loop closure thread sleeps
      Map now = p.s.map();
      q.m.constraints = now.constraints;
      q.known = now.constraints.size();
      closures = closures || found;
      bool ended = searching;
      searching = false;
      if (ended) q.finish(began);
      double moved = 0;
      CHECK(now.scans.size() == q.m.scans.size(), "number of scans");
      for (size_t k = 0; k < now.scans.size(); ++k)
      {
        auto & u = now.scans[k].pose, & v = q.m.scans[k].pose;
        if (!near(u, v, 1e-9)) moved = std::max({moved, 1e-9, std::hypot(u.x - v.x, u.y - v.y)});
      }
      if (moved > 0)
      {
        CHECK(closures, "scans moved by up to " << moved << " without a closure");
        CHECK(ended, "scans moved by up to " << moved << " while the loop closure thread should sleep");
        CHECK(now.scans.size() - least > limit, "the graph was optimised with " << now.scans.size() << " scans, " << least << " were there the last time; the limit is " << limit);
        q.m.scans = now.scans;
        least = most = now.scans.size();
        closures = false;
        ++optimisations;
      }
      else if (ended && closures && now.scans.size() - least > limit)
      {
        Map want = optimised(q.m);
        double would = 0;
        for (size_t k = 0; k < want.scans.size(); ++k) would = std::max(would, std::hypot(want.scans[k].pose.x - now.scans[k].pose.x, want.scans[k].pose.y - now.scans[k].pose.y));
        if (would < 0.01) most = now.scans.size();
        else CHECK(!(found && began > most && began - most > limit), "the graph was not optimised with closures and " << began << " scans when the search began, " << most << " were there the last time; the limit is " << limit);
      }
      found = false;
    };
  auto wait = [&](double t) {
      for (; t > 0; t -= 0.5)
      {
        p.s.advance(std::min(t, 0.5));
        absorb();
      }
    };
  for (size_t i = 0; i < n; ++i)
  {
    if (c.chance(75))
    {
      wander(p, c);
      between += world::pausing();
      p.laser(false);
      q.follow();
    }
    else
    {
      double t = c.pick(std::vector<double>{0.5, 1.0, 0.2, 2.5});
      p.tell(pbt::shortstr(t) + " s");
      wait(t);
    }
  }
  for (int quiet = 0; quiet < 3; )
  {
    wait(1.0);
    quiet = world::pausing() ? 0 : quiet + 1;
  }
  q.finish();
  Map after = p.s.map();
  check_well_formed(after, "in the end");
  q.check_closures(after, 0);
  CHECK(after.scans.size() == q.m.scans.size(), "number of scans");
  for (size_t k = 0; k < after.scans.size(); ++k)
    CHECK(near(after.scans[k].pose, q.m.scans[k].pose, 1e-9), "scan " << k << " is at " << show(after.scans[k].pose) << ", it was placed and corrected to " << show(q.m.scans[k].pose));
  if (!q.closures.empty() && between) c.nontrivial();
  c.label(optimisations ? "optimised" : "not optimised");
}

PBT_TEST(C31, interrupted, 2000, 80000, "histories of up to 60 scans in a small area, all threads interrupted anywhere: every match of the loop closure thread is one it should make, and the closures are what the matches found; "
         "non-trivial: at least one closure, 6 scans and 10 interruptions")
{
  begin(c);
  Config f = busy_config(c, false, true);
  f.barycenter = c.chance(20);
  Busy b(c, f, busy_percent(c));
  bool modes = c.chance(30);
  size_t n = c.chance(70) ? 20 + c.below(50) : 3 + c.size(30);
  for (size_t i = 0; i < n; ++i) busy_step(b, c, false, modes);
  b.quiet();
  Map m = b.s.map();
  b.check(m, "the map in the end");
  b.check_closures(m);
  b.check_search();
  if (b.mapped >= 6 && !b.accepted.empty() && b.count >= 10) c.nontrivial();
}
