// C16, C17, C18: the NDT scan matcher
#include "matching.hpp"
using namespace matching;
using pbt::Case;

namespace
{
struct World
{
  Parameters p;
  Place w;
  Scans map;
  ScanPtr query;
  Points used;
  bool sure;
  World(Case & c, double spread)
  {
    p = parameters(c);
    w = place(c, c.pick(std::vector<double>{10, 10, 1000}), 0.6 * p.range);
    map = map_scans(c, w, p.range, spread);
    Pose2d q(w.x + spread * c.real(-1, 1), w.y + spread * c.real(-1, 1), c.angle());
    auto pts = c.rare(30) ? fine_view(c, w, q, p.range) : view(c, w, q, p.range, 60);
    if (c.chance(8)) pts.resize(std::min<size_t>(pts.size(), c.below(3)));
    // displaced from where it was seen
    q.x += p.linear_size * 1.2 * c.real(-1, 1);
    q.y += p.linear_size * 1.2 * c.real(-1, 1);
    q.theta += p.angular_size * 1.2 * c.real(-1, 1);
    if (c.chance(6)) { q.x += 3 * p.range; c.label("far from the map"); }
    query = scan(99, q, pts);
    sure = used_points(pts, p.beams, used);
    c.note << p.show() << ", " << map.size() << " scans around (" << pbt::shortstr(w.x) << " " << pbt::shortstr(w.y) << "), " << pts.size() << " points at " << gen::show(q) << " ";
  }
};
bool on_grid(double v, double size, double res)
{
  double k = (v + size) / res;
  return std::fabs(k - std::round(k)) < 1e-6 && std::fabs(v) <= size * (1 + 1e-9) + 1e-12;
}
}  // namespace

PBT_TEST(C16, best, 6000, 150000, "a scan matched against a map of 1 to 5 scans with random windows: the correction against every other one of the window, scored by the reference map; "
         "non-trivial: the best correction scores better than the rest of the window on average by 2%")
{
  World k(c, 0.8);
  auto m = make(k.p);
  m->addScans(k.map.begin(), k.map.end());
  Map ref(k.map, k.p);
  Frozen before(k.query);
  std::vector<Frozen> mb;
  for (auto & s : k.map) mb.emplace_back(s);
  double s0 = m->scoreScan(k.query);
  Pose2d corr(0.123, -0.456, 0.789);
  if (c.chance(50)) corr = Pose2d();
  Pose2d given = corr;
  Eigen::Matrix3d cov;
  double score = m->matchScan(k.query, corr, cov);
  before.check(k.query);
  for (size_t i = 0; i < mb.size(); ++i) mb[i].check(k.map[i]);
  CHECK(m->scoreScan(k.query) == s0, "matching changed the map");
  c.note << "-> " << gen::show(corr) << " score " << pbt::shortstr(score) << " ";
  CHECK(std::isfinite(score) && score <= 0, "score " << score);
  if (ref.unsure || !k.sure) return;
  bool sx, st;
  auto lin = steps(k.p.linear_size, k.p.linear_res, sx), ang = steps(k.p.angular_size, k.p.angular_res, st);
  Pose2d q = k.query->getPose();
  double n = std::max<double>(1, k.used.size()), best = 0, total = 0, slack_sum = 0;
  bool same = corr.x == given.x && corr.y == given.y && corr.theta == given.theta;
  for (double dth : ang) for (double dx : lin) for (double dy : lin)
  {
    double slack, s = ref.sum(k.used, Pose2d(q.x + dx, q.y + dy, q.theta + dth), slack);
    CHECK(score * n <= -s + slack, "the correction (" << dx << ", " << dy << ", " << dth << ") has the better score " << -s / n << " than the one returned, " << score);
    best = std::max(best, s);
    total += s;
    slack_sum = std::max(slack_sum, slack);
  }
  if (score == 0)
  {
    CHECK(same, "score 0, but the correction was changed");
    c.label("no overlap");
    return;
  }
  if (!(same && best < 1e-290))
  {
    CHECK(on_grid(corr.x, k.p.linear_size, k.p.linear_res), "x " << corr.x << " is no step of the window");
    CHECK(on_grid(corr.y, k.p.linear_size, k.p.linear_res), "y " << corr.y << " is no step of the window");
    CHECK(on_grid(corr.theta, k.p.angular_size, k.p.angular_res), "heading " << corr.theta << " is no step of the window");
  }
  Pose2d at(q.x + corr.x, q.y + corr.y, q.theta + corr.theta);
  double slack, s = ref.sum(k.used, at, slack);
  CHECK_NEAR(score * n, -s, slack, "returned score (times points used) against the one at the corrected pose");
  CHECK_NEAR(m->scorePoints(k.query->getPoints(), at) * n, score * n, 2 * slack, "scorePoints at the corrected pose against the returned score");
  double mean = total / static_cast<double>(ang.size() * lin.size() * lin.size());
  if (best > 1.02 * mean + 1e-6) c.nontrivial();
}

PBT_TEST(C17, weighted, 6000, 150000, "covariance of a match against the score-weighted covariance of all corrections of the window under the reference map; "
         "non-trivial: scores differ by 2% within the window")
{
  World k(c, 0.8);
  auto m = make(k.p);
  m->addScans(k.map.begin(), k.map.end());
  Map ref(k.map, k.p);
  Pose2d corr;
  Eigen::Matrix3d cov;
  cov.setConstant(std::nan(""));
  double score = m->matchScan(k.query, corr, cov);
  double L[3] = {k.p.linear_size, k.p.linear_size, k.p.angular_size};
  CHECK(cov.allFinite(), "the covariance is not finite");
  Eigen::Matrix3d unit = cov;
  for (int i = 0; i < 3; ++i)
  {
    CHECK(cov(i, i) >= -1e-9 * L[i] * L[i], "variance " << i << " is negative: " << cov(i, i));
    CHECK(cov(i, i) <= L[i] * L[i] * (1 + 1e-9), "variance " << i << " is " << cov(i, i) << ", above the square of the window " << L[i]);
    for (int j = 0; j < 3; ++j)
    {
      CHECK_NEAR(cov(i, j), cov(j, i), 1e-9 * L[i] * L[j], "the covariance is not symmetric");
      unit(i, j) = cov(i, j) / L[i] / L[j];
    }
  }
  double least = Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d>(unit).eigenvalues()(0);
  CHECK(least > -1e-9, "the covariance is not positive semidefinite: eigenvalue " << least);
  if (ref.unsure || !k.sure || score == 0) return;
  bool sx, st;
  auto lin = steps(k.p.linear_size, k.p.linear_res, sx), ang = steps(k.p.angular_size, k.p.angular_res, st);
  if (!sx) { lin.push_back(k.p.linear_size); c.label("whole number of steps"); }
  if (!st) ang.push_back(k.p.angular_size);
  Pose2d q = k.query->getPose();
  struct Sums { long double s = 0, u[3] = {0, 0, 0}, k[3][3] = {{0}}; };
  // with the last step of each window, and without
  Sums sums[2][2][2];
  double lo = 1e300, hi = 0, worst = 0;
  for (size_t a = 0; a < ang.size(); ++a) for (size_t x = 0; x < lin.size(); ++x) for (size_t y = 0; y < lin.size(); ++y)
  {
    double slack, s = ref.sum(k.used, Pose2d(q.x + lin[x], q.y + lin[y], q.theta + ang[a]), slack);
    lo = std::min(lo, s);
    hi = std::max(hi, s);
    worst = std::max(worst, slack);
    double v[3] = {lin[x], lin[y], ang[a]};
    for (int e = 0; e < 8; ++e)
    {
      if (!sx && ((x + 1 == lin.size() && !(e & 1)) || (y + 1 == lin.size() && !(e & 2)))) continue;
      if (!st && a + 1 == ang.size() && !(e & 4)) continue;
      Sums & t = sums[e & 1][(e >> 1) & 1][e >> 2];
      t.s += s;
      for (int i = 0; i < 3; ++i)
      {
        t.u[i] += s * v[i];
        for (int j = 0; j < 3; ++j) t.k[i][j] += s * v[i] * v[j];
      }
    }
  }
  c.note << "scores " << pbt::shortstr(lo) << " to " << pbt::shortstr(hi);
  if (worst > 0.5 || hi < 1e-9) return;
  std::string first;
  bool match = false;
  for (int e = 0; e < 8 && !match; ++e)
  {
    const Sums & t = sums[e & 1][(e >> 1) & 1][e >> 2];
    double tol = 1e-7 + worst * 40 * static_cast<double>(lin.size() * lin.size() * ang.size()) / static_cast<double>(t.s);
    bool ok = true;
    for (int i = 0; i < 3 && ok; ++i) for (int j = 0; j < 3 && ok; ++j)
    {
      double expect = static_cast<double>(t.k[i][j] / t.s - t.u[i] * t.u[j] / (t.s * t.s));
      if (!pbt::near(cov(i, j), expect, tol * L[i] * L[j]))
      {
        ok = false;
        std::ostringstream o;
        o.precision(10);
        o << "entry (" << i << ", " << j << ") is " << cov(i, j) << ", the weighted covariance of the corrections is " << expect;
        if (first.empty()) first = o.str();
      }
    }
    match = ok;
  }
  CHECK(match, first);
  if (hi > 1.02 * lo) c.nontrivial();
}

PBT_TEST(C17, moved, 3000, 60000, "the same map and scan matched at two places in the world; non-trivial: the score is not zero")
{
  World k(c, 0.8);
  double d = c.pick(std::vector<double>{100, 7, 1000});
  double tx = d * c.real(-1, 1), ty = d * c.real(-1, 1);
  Scans other;
  for (auto & s : k.map)
  {
    Pose2d p = s->getPose();
    other.push_back(scan(s->getId(), Pose2d(p.x + tx, p.y + ty, p.theta), s->getPoints()));
  }
  Pose2d q = k.query->getPose();
  auto moved = scan(99, Pose2d(q.x + tx, q.y + ty, q.theta), k.query->getPoints());
  auto m = make(k.p), n = make(k.p);
  m->addScans(k.map.begin(), k.map.end());
  n->addScans(other.begin(), other.end());
  Pose2d a, b;
  Eigen::Matrix3d ca, cb;
  double sa = m->matchScan(k.query, a, ca), sb = n->matchScan(moved, b, cb);
  c.note << "moved by " << pbt::shortstr(tx) << " " << pbt::shortstr(ty) << ", scores " << pbt::shortstr(sa) << " " << pbt::shortstr(sb);
  // points next to a cell border may end up on its other side
  Map ra(k.map, k.p), rb(other, k.p);
  if (ra.unsure || rb.unsure) return;
  bool sx, st;
  auto lin = steps(k.p.linear_size, k.p.linear_res, sx), ang = steps(k.p.angular_size, k.p.angular_res, st);
  double worst = 0, total = 0;
  for (double t : ang) for (double x : lin) for (double y : lin)
  {
    double s1, s2;
    total += ra.sum(k.used, Pose2d(q.x + x, q.y + y, q.theta + t), s1);
    rb.sum(k.used, Pose2d(q.x + tx + x, q.y + ty + y, q.theta + t), s2);
    worst = std::max({worst, s1, s2});
  }
  double steps = static_cast<double>(lin.size() * lin.size() * ang.size());
  if (worst > 0.5 || total < 1e-6) return;
  double L[3] = {k.p.linear_size, k.p.linear_size, k.p.angular_size};
  // (information of nearly degenerate cells far from the origin is limited by rounding)
  double far = std::max({std::fabs(k.w.x), std::fabs(k.w.y), std::fabs(k.w.x + tx), std::fabs(k.w.y + ty), 10.0});
  double cond = 1e-16 * far * far / 1e-8;
  if (cond > 1e-3) { c.label("too far to compare"); return; }
  double tol = 1e-6 + 1e3 * cond + worst * 40 * steps / total;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    CHECK_NEAR(ca(i, j), cb(i, j), tol * L[i] * L[j], "covariance entry (" << i << ", " << j << ") here and there");
  c.nontrivial();
}

PBT_TEST(C18, histories, 8000, 200000, "up to 6 additions and resets of scan lists anywhere in the world, scans and points scored against the reference map after each; "
         "non-trivial: a score is not zero in a map that replaced another")
{
  Parameters p = parameters(c);
  if (c.rare(10)) p.beams = 100 + static_cast<int>(c.below(3000));
  auto m = make(p);
  Scans current;
  size_t replaced = 0;
  bool good = false;
  Place w;
  for (size_t r = 0, n = 1 + c.below(6); r < n; ++r)
  {
    // elsewhere, or the same place again
    if (r == 0 || c.chance(60)) w = place(c, c.pick(std::vector<double>{10, 100, 3000}), 0.6 * p.range);
    switch (r == 0 ? c.weighted({1, 8}) : c.weighted({2, 8, 2, 1, 4}))
    {
      case 0:
        m->reset();
        current.clear();
        c.note << "reset ";
        break;
      case 2:
        {
          Scans none;
          m->addScans(none.begin(), none.end());
          current.clear();
          c.note << "empty list ";
          break;
        }
      case 3: c.note << "again "; break;
      case 4:
        {
          // the same scans after they were turned, moved, exchanged, or saw something else (some of them, or all)
          if (current.empty()) break;
          Scans next;
          unsigned kinds = 1 + static_cast<unsigned>(c.below(7));
          for (auto & s : current)
          {
            Pose2d q = s->getPose();
            if ((kinds & 1) && c.chance(70)) q.theta = c.angle();
            if ((kinds & 4) && c.chance(30)) { q.x += 0.3 * c.real(-1, 1); q.y += 0.3 * c.real(-1, 1); }
            auto pts = s->getPoints();
            if ((kinds & 2) && c.chance(70)) pts = view(c, w, q, p.range, 150);
            next.push_back(scan(s->getId(), q, pts));
          }
          current = next;
          ++replaced;
          m->addScans(current.begin(), current.end());
          c.note << "changed ";
          break;
        }
      default:
        {
          if (!current.empty()) ++replaced;
          // scans may be far apart, and only part of a list is added
          current = map_scans(c, w, p.range, c.pick(std::vector<double>{0.8, 0.1, 10}));
          Scans list = current;
          size_t before = c.chance(20) ? 1 : 0, after = c.chance(20) ? 1 : 0;
          Pose2d q(w.x + 0.3, w.y - 0.2, 1);
          if (before) list.insert(list.begin(), scan(50, q, view(c, w, q, p.range, 50)));
          if (after) list.push_back(scan(51, q, view(c, w, q, p.range, 50)));
          m->addScans(list.begin() + before, list.end() - after);
          c.note << current.size() << " scans around (" << pbt::shortstr(w.x) << " " << pbt::shortstr(w.y) << ") ";
        }
    }
    Map ref(current, p);
    if (ref.unsure) return;
    for (size_t k = 0; k < 3; ++k)
    {
      Pose2d seen(w.x + 0.8 * c.real(-1, 1), w.y + 0.8 * c.real(-1, 1), c.angle());
      if (!current.empty() && c.chance(50))
      {
        // near one of the scans
        seen = c.pick(current)->getPose();
        seen.x += 0.3 * c.real(-1, 1);
        seen.y += 0.3 * c.real(-1, 1);
      }
      auto pts = c.rare(30) ? fine_view(c, w, seen, p.range) : view(c, w, seen, p.range, 400);
      if (c.chance(5)) pts.clear();
      Points used;
      if (!used_points(pts, p.beams, used)) continue;
      if (pts.size() > used.size()) c.label("more points than beams");
      Pose2d at(seen.x + 0.05 * c.real(-1, 1), seen.y + 0.05 * c.real(-1, 1), seen.theta + 0.02 * c.real(-1, 1));
      double slack, expect = ref.sum(used, at, slack), count = std::max<double>(1, used.size());
      double s = c.chance(50) ? m->scorePoints(pts, at) : m->scoreScan(scan(7, at, pts));
      CHECK_NEAR(s * count, -expect, slack, "score (times points used) of " << pts.size() << " points at (" << at.x << ", " << at.y << ", " << at.theta << ")");
      if (current.empty()) CHECK(s == 0, "score without a map");
      if (expect > 1e-3 && replaced) good = true;
    }
    if (current.empty())
    {
      Pose2d corr(1, 2, 3);
      Eigen::Matrix3d cov;
      double s = m->matchScan(scan(8, Pose2d(w.x, w.y, 0), view(c, w, Pose2d(w.x, w.y, 0), p.range, 40)), corr, cov);
      CHECK(s == 0 && corr.x == 1 && corr.y == 2 && corr.theta == 3, "a match without a map");
    }
  }
  if (good) c.nontrivial();
}
