// C25-C28: histories of the node
#include "busy.hpp"
using namespace node;

PBT_TEST(C25, dead_reckoning, 4000, 150000, "up to 30 scans while the robot moves around the limits of the gate, in any odometry frame, while mapping, filtering without noise or localising, the matcher answering zero or any correction; "
         "non-trivial: at least 3 scans processed and one ignored")
{
  begin(c);
  bool filter = c.chance(25), mapping = c.chance(60);
  if (filter && c.chance(50)) mapping = false;
  Config f = any_config(c, filter, mapping);
  f.ndt = c.chance(20);
  random_script(c);
  bool loaded = !mapping || filter || c.chance(20);
  if (loaded)
  {
    f.map_file = "start";
    write_map(c, f.map_file, 1 + c.below(5), 1, f.barycenter);
  }
  Play p(c, f, kGate);
  p.slow = c.chance(25);
  if (p.slow) script().slow = 30;
  p.exact_filter = filter;
  if (loaded)
  {
    for (int i = 0; i < 4 && !p.localised; ++i) p.pose();
    if (!p.localised) throw pbt::Discard();
  }
  size_t n = 2 + c.size(28);
  for (size_t i = 0; i < n; ++i)
  {
    p.move();
    p.laser();
    if (c.chance(40) || p.ndt_estimate) p.advance(0.3);
    if (c.chance(3)) { p.configure(c.chance(50) ? kSave : 0, "kept" + std::to_string(i)); }
    if (!mapping && c.chance(5)) p.pose();
  }
  p.advance(0.5);
  if (p.processed >= 3 && p.ignored) c.nontrivial();
  c.label(filter ? "filter" : mapping ? "mapping" : "localising");
}

PBT_TEST(C26, histories, 4000, 150000, "histories of up to 40 (sometimes 600) scans, poses, requests and waits while mapping, from nothing or a loaded map, with and without loop closures; non-trivial: at least 4 scans mapped")
{
  begin(c);
  Config f = any_config(c, false, true);
  f.ndt = c.chance(15);
  random_script(c);
  if (c.chance(50))
  {
    f.search = c.pick(std::vector<double>{1, 0.3, 3});
    f.node_limit = static_cast<int>(c.pick(std::vector<int>{25, 3, 1, 8}));
    script().closure_shift = 0.02;
    script().closure_turn = 0.02;
    script().accept = 60;
    script().pause = c.chance(40) ? 50 : 0;
  }
  script().singular = c.pick(std::vector<unsigned>{0, 30});
  bool loaded = c.chance(40);
  if (loaded)
  {
    f.map_file = "start";
    write_map(c, f.map_file, 1 + c.below(c.chance(20) ? 25 : 5), 1, f.barycenter);
  }
  write_map(c, "other", c.below(6), 1, f.barycenter);
  Play p(c, f, kGraph);
  // sometimes a long day
  const bool large = c.rare(250);              // a map that grows
  size_t n = large ? 250 + c.below(350) : 3 + c.size(38), saves = 0;
  for (size_t i = 0; i < n; ++i)
  {
    if (!p.localised && c.chance(60)) { p.pose(); continue; }
    switch (large ? c.weighted({60, 1}) : c.weighted({12, 3, 1, 1, 1, 1}))
    {
      case 0: p.move(); p.laser(); break;
      case 1: p.advance(c.pick(std::vector<double>{1.1, 0.3, 0.1, 2.5})); break;
      case 2: p.pose(); break;
      case 3: p.configure(c.chance(50) ? kDisable : kEnable); break;
      case 4: if (c.chance(30)) p.configure(kLoad | (c.chance(50) ? kEnable : 0), "other"); break;
      default: p.configure(kSave | c.pick(std::vector<int>{0, 0, kEnable, kDisable}), "kept" + std::to_string(++saves));
    }
  }
  p.advance(2);
  if (p.scans >= 4 && p.mapped) c.nontrivial();
  c.label(loaded ? "continued" : "new");
  c.label(f.search > 0 ? "closures" : "no closures");
}

PBT_TEST(C26, slow, 2500, 80000, "histories of up to 60 scans in a small area while mapping, with loop closures and optimisations while scans are being matched and transforms are looked up; "
         "non-trivial: at least 6 scans mapped, one of them against scans that moved since its callback began")
{
  begin(c);
  Config f = any_config(c, false, true);
  f.search = c.pick(std::vector<double>{1, 3});
  f.rolling = static_cast<int>(c.pick(std::vector<int>{2, 1, 3, 5}));
  f.node_limit = static_cast<int>(c.pick(std::vector<int>{2, 0, 8}));
  f.travel = 0.1;
  Script & q = script();
  random_script(c);
  q.closure_shift = c.pick(std::vector<double>{0.1, 0.02});
  q.closure_turn = 0.05;
  q.accept = 70;
  q.slow = c.pick(std::vector<unsigned>{50, 20, 100});
  q.pause = c.pick(std::vector<unsigned>{0, 50});
  c.note << f.show() << " slow " << q.slow;
  Sim s(f);
  s.mounting.translation.x = 0.2;
  s.odom = Pose2d(c.coord(1), c.coord(1), c.angle());
  size_t n = c.chance(70) ? 15 + c.below(45) : 3 + c.size(15), mapped = 0, moved = 0;
  for (size_t i = 0; i < n; ++i)
  {
    if (c.chance(30))
    {
      double t = c.pick(std::vector<double>{0.4, 1.0, 2.2});
      s.advance(t);
      c.note << "; " << t << " s";
      check_well_formed(s.map(), "after a while");
      continue;
    }
    s.odom = compose(s.odom, Pose2d(c.real(0.11, 0.5), 0, c.angle()));
    if (std::hypot(s.odom.x, s.odom.y) > 1.5) s.odom = Pose2d(0.3 * s.odom.x, 0.3 * s.odom.y, s.odom.theta);
    std::vector<float> r;
    for (size_t k = 1 + c.below(4); k > 0; --k) r.push_back(static_cast<float>(c.real(0.5, 3)));
    Map before = s.map();
    s.take_events();
    s.slow = c.chance(30) ? 0.6 : 0;
    s.send(s.laser(r));
    s.slow = 0;
    c.note << "; scan";
    Map after = s.map();
    std::vector<Event> events = s.take_events();
    std::string what = "scan " + std::to_string(before.scans.size());
    check_well_formed(after, what);
    size_t k = before.scans.size(), odometry = 0;
    CHECK(after.scans.size() == k + 1, k << " scans became " << after.scans.size());
    ++mapped;
    if (k == 0) continue;
    for (size_t j = before.constraints.size(); j < after.constraints.size(); ++j)
    {
      auto & e = after.constraints[j];
      if (e.sw) continue;
      ++odometry;
      CHECK(e.begin == k - 1 && e.end == k, what << " is joined by a constraint from " << e.begin << " to " << e.end);
      check_relative(e, after.scans[k - 1].pose, after.scans[k].pose, what);
    }
    CHECK(odometry == 1, what << " came with " << odometry << " constraints");
    const Event * match = nullptr;
    for (auto & e : events) if (!e.background && e.op == 'm') match = &e;
    CHECK(match, what << " was not matched");
    CHECK(match->map.size() == std::min<size_t>(k, f.rolling), what << " was matched against " << match->map.size() << " scans");
    // The scans it was matched against are where the constraint says they are
    bool changed = false;
    for (size_t j = 0; j < match->map.size(); ++j)
    {
      size_t id = k - match->map.size() + j;
      CHECK(match->map[j] == id, what << " was matched against scan " << match->map[j]);
      CHECK(same(match->map_poses[j], after.scans[id].pose), what << " was matched against scan " << id << " at " << show(match->map_poses[j]) << ", it was added when that one was at " << show(after.scans[id].pose));
      changed = changed || !same(before.scans[id].pose, after.scans[id].pose);
    }
    moved += changed;
  }
  if (mapped >= 6 && moved) c.nontrivial();
}

PBT_TEST(C27, transforms, 4000, 150000, "histories of up to 30 scans, poses and waits in all modes and any odometry frame; every broadcast transform checked; non-trivial: at least 4 transforms with an estimate after two scans")
{
  begin(c);
  bool filter = c.chance(35), mapping = c.chance(50);
  Config f = any_config(c, filter, mapping);
  f.ndt = !filter && c.chance(15);
  random_script(c);
  if (filter)
    for (double & a : f.alpha) a = c.pick(std::vector<double>{0.2, 0, 0.05});
  bool loaded = !mapping || filter || c.chance(30);
  if (loaded)
  {
    f.map_file = "start";
    write_map(c, f.map_file, c.below(6), 1, f.barycenter);
  }
  write_map(c, "other", c.below(4), 1, f.barycenter);
  Play p(c, f, kTf);
  p.slow = c.chance(50);
  if (p.slow) script().slow = 30;
  size_t n = 3 + c.size(28);
  for (size_t i = 0; i < n; ++i)
  {
    if (!p.localised && c.chance(50)) { p.pose(); p.advance(0.3); continue; }
    switch (c.weighted({8, 4, 1, 1, 1}))
    {
      case 0: p.move(); p.laser(); if (p.ndt_estimate) p.advance(0.3); break;
      case 1: p.advance(c.pick(std::vector<double>{0.3, 1.2, 0.05})); break;
      case 2: p.pose(); p.advance(0.3); break;
      case 3: p.configure(c.pick(std::vector<int>{kDisable, kEnable, 0})); break;
      default: if (c.chance(30)) p.configure(kLoad | c.pick(std::vector<int>{0, 0, kEnable, kDisable}), "other");
    }
  }
  p.advance(1.1);
  if (p.transforms >= 4 && p.processed >= 2) c.nontrivial();
  c.label(filter ? "filter" : mapping ? "mapping" : "localising");
  c.label(loaded ? "loaded" : "new");
  if (p.meanwhile) c.label("transforms during callbacks");
}

PBT_TEST(C28, localisation, 4000, 150000, "histories of up to 40 scans, poses, requests and waits, mapping switched off and on, maps loaded, filtering or not, with loop closures possible; non-trivial: at least 3 scans localised in a map of at least 3")
{
  begin(c);
  bool filter = c.chance(35), mapping = c.chance(60);
  Config f = any_config(c, filter, mapping);
  random_script(c);
  f.search = c.pick(std::vector<double>{0, 0.5, 3});
  f.node_limit = 2;
  script().closure_shift = script().closure_turn = 0.05;
  script().pause = c.chance(40) ? 60 : 0;
  bool loaded = c.chance(60);
  if (loaded)
  {
    f.map_file = "start";
    write_map(c, f.map_file, 1 + c.below(c.chance(40) ? 20 : 6), 0.7, f.barycenter);
  }
  write_map(c, "other", 1 + c.below(16), 0.7, f.barycenter);
  Play p(c, f, kLocal);
  size_t n = c.chance(50) ? 12 + c.below(30) : 4 + c.size(36), local = 0;
  for (size_t i = 0; i < n; ++i)
  {
    if (!p.localised && c.chance(50)) { p.pose(); continue; }
    switch (c.weighted({10, 4, 1, 2, 1}))
    {
      case 0:
        p.move();
        if (p.laser() && !p.mapping && p.scans >= 3) ++local;
        break;
      case 1: p.advance(c.pick(std::vector<double>{0.3, 1.1, 2.2})); break;
      case 2: p.pose(); break;
      case 3: p.configure(c.pick(std::vector<int>{kDisable, kDisable, kEnable, 0})); break;
      default: if (c.chance(30)) p.configure(kLoad | c.pick(std::vector<int>{0, kEnable, kDisable}), "other");
    }
  }
  p.advance(2.2);
  if (local >= 3) c.nontrivial();
  c.label(filter ? "filter" : "matching");
  c.label(loaded ? "loaded" : "new");
}

PBT_TEST(C26, interrupted, 2000, 80000, "histories of up to 50 scans, poses, requests and waits while mapping with loop closures, all threads interrupted anywhere; the stored map after each step against what does not depend on the schedule; "
         "non-trivial: at least 6 scans mapped, a closure and 10 interruptions")
{
  begin(c);
  Config f = busy_config(c, false, true);
  if (c.chance(30))
  {
    f.map_file = "start";
    write_map(c, f.map_file, 1 + c.below(8), 0.7, f.barycenter);
  }
  bool loads = c.chance(25), modes = c.chance(50);
  if (loads) write_map(c, "other", c.below(8), 0.7, f.barycenter);
  Busy b(c, f, busy_percent(c));
  size_t n = c.chance(70) ? 15 + c.below(45) : 3 + c.size(15);
  for (size_t i = 0; i < n; ++i)
  {
    busy_step(b, c, loads, modes);
    b.check(b.look(), "the stored map");
  }
  b.quiet();
  Map m = b.s.map();
  b.check(m, "the map in the end");
  b.check_closures(m);
  if (b.mapped >= 6 && !b.accepted.empty() && b.count >= 10) c.nontrivial();
}

PBT_TEST(C27, interrupted, 2000, 80000, "histories of up to 40 scans, poses, requests and waits in all modes, all threads interrupted anywhere; each broadcast transform against the estimates and the odometry they were made with; "
         "non-trivial: at least 4 transforms of an estimate, and 10 interruptions")
{
  begin(c);
  bool filter = c.chance(25), mapping = c.chance(60);
  Config f = busy_config(c, filter, mapping);
  if (filter)
    for (double & a : f.alpha) a = c.pick(std::vector<double>{0.2, 0, 0.05});
  if (filter || !mapping || c.chance(30))
  {
    f.map_file = "start";
    write_map(c, f.map_file, 1 + c.below(6), 0.7, f.barycenter);
  }
  bool loads = c.chance(25), modes = c.chance(50);
  if (loads) write_map(c, "other", 1 + c.below(6), 0.7, f.barycenter);
  Busy b(c, f, busy_percent(c));
  size_t n = 3 + c.size(38);
  for (size_t i = 0; i < n; ++i)
  {
    busy_step(b, c, loads, modes);
    b.check_tf(false);
  }
  b.quiet();
  b.check_tf(true);
  if (b.transforms >= 4 && b.count >= 10) c.nontrivial();
  c.label(filter ? "filter" : mapping ? "mapping" : "localising");
}

PBT_TEST(C28, interrupted, 2000, 80000, "histories of up to 50 scans, poses, requests and waits, mapping switched off and on, all threads interrupted anywhere; from the end of a request that switches mapping off on, and while filtering, the map stays as it is and scans are matched against all of it; "
         "non-trivial: at least 3 scans localised in a map of at least 3, and 10 interruptions")
{
  begin(c);
  bool filter = c.chance(25), mapping = c.chance(70);
  Config f = busy_config(c, filter, mapping);
  if (filter || !mapping || c.chance(50))
  {
    f.map_file = "start";
    write_map(c, f.map_file, 1 + c.below(10), 0.7, f.barycenter);
  }
  Busy b(c, f, busy_percent(c));
  size_t n = c.chance(60) ? 12 + c.below(40) : 4 + c.size(36), local = 0;
  Map frozen;
  bool is = false;
  for (size_t i = 0; i < n; ++i)
  {
    if (!b.mapping && !is) { frozen = b.look(); is = true; }
    if (b.mapping) is = false;
    if (b.mapping && b.scans > 3 && c.chance(15)) b.configure(kDisable);
    else busy_step(b, c, false, true);
    if (!is) { b.localising.clear(); continue; }
    if (!b.mapping) check_same(frozen, b.look(), "not mapping");
    for (auto & e : b.localising)
    {
      CHECK(e.map.size() == frozen.scans.size(), "localising against " << e.map.size() << " scans of a map of " << frozen.scans.size());
      for (size_t k = 0; k < e.map.size(); ++k)
        CHECK(e.map[k] == frozen.scans[k].id && same(e.map_poses[k], frozen.scans[k].pose), "localising: scan " << k << " of the matcher is " << e.map[k] << " at " << show(e.map_poses[k]) << ", of the map " << frozen.scans[k].id << " at " << show(frozen.scans[k].pose));
    }
    if (frozen.scans.size() >= 3) local += b.localising.size();
    b.localising.clear();
  }
  b.quiet();
  if (is && !b.mapping) check_same(frozen, b.s.map(), "not mapping");
  if (local + b.filtered >= 3 && b.count >= 10) c.nontrivial();
  c.label(filter ? "filter" : "matching");
}
