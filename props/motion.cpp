// C11, C12: the motion model
#include "common.hpp"
#include <world.hpp>
#include <ndt_2d/motion_model.hpp>
using pbt::Case;

namespace
{
typedef std::vector<Eigen::Vector3d> Particles;

struct Motion { double dx = 0, dy = 0, dth = 0; std::string kind; };

// A motion of at least a centimetre (up to `longest`), or a rotation on the spot
Motion motion(Case & c, double longest)
{
  Motion m;
  double d = c.chance(30) ? c.pick(std::vector<double>{0.25, 1.0, 0.011, 0.02}) : c.real(0.0101, longest);
  double dir = 0;
  switch (c.weighted({3, 2, 2, 3, 2}))
  {
    case 0: m.kind = "forward"; break;
    case 1: m.kind = "backward"; dir = M_PI; break;
    case 2: m.kind = "sideways"; dir = c.chance(50) ? M_PI / 2 : -M_PI / 2; break;
    case 3: m.kind = "diagonal"; dir = c.real(-M_PI, M_PI); break;
    default: m.kind = "rotation"; d = 0;
  }
  m.dx = d * cos(dir);
  m.dy = d * sin(dir);
  if (m.kind == "forward" || m.kind == "backward") m.dy = 0;
  if (m.kind == "sideways") m.dx = 0;
  m.dth = m.kind == "rotation" || c.chance(60) ? c.angle() : 0;
  return m;
}
std::string show(const Motion & m)
{
  return m.kind + " (" + pbt::shortstr(m.dx) + " " + pbt::shortstr(m.dy) + " " + pbt::shortstr(m.dth) + ")";
}
}  // namespace

PBT_TEST(C11, composition, 60000, 3000000, "1 to 20 particles moved by 1 to 6 noise-free motions of every direction; non-trivial: a motion with translation from a pose with a heading, not all alike")
{
  world::reset(c.seed());
  // the fifth parameter plays no part
  ndt_2d::MotionModel model(0, 0, 0, 0, c.chance(30) ? 0.2 : 0.0);
  Particles p;
  double far = c.pick(std::vector<double>{10, 1, 1000});
  for (size_t i = 0, n = 1 + c.size(20); i < n; ++i) p.emplace_back(c.coord(far), c.coord(far), c.angle());
  auto expect = p;
  double drift = 0;
  bool trans = false, heading = false, differ = false;
  for (auto & q : p) { heading = heading || std::fabs(sin(q(2))) > 1e-3; differ = differ || q != p[0]; }
  for (size_t k = 0, n = 1 + c.below(6); k < n; ++k)
  {
    Motion m = motion(c, 5);
    trans = trans || m.kind != "rotation";
    c.note << show(m) << " ";
    c.label(m.kind);
    model.sample(m.dx, m.dy, m.dth, p);
    CHECK(p.size() == expect.size(), "number of particles changed");
    double length = std::hypot(m.dx, m.dy);
    drift = drift + 1e-6 * (length + std::fabs(m.dth) * 0.1) + 1e-14 * far + 6e-7 * length;
    for (size_t i = 0; i < p.size(); ++i)
    {
      auto & e = expect[i];
      e = Eigen::Vector3d(e(0) + m.dx * cos(e(2)) - m.dy * sin(e(2)), e(1) + m.dx * sin(e(2)) + m.dy * cos(e(2)), e(2) + m.dth);
      CHECK_NEAR(p[i](0), e(0), drift + 2e-6 * (k + 1) * length, "x of particle " << i << " after " << show(m));
      CHECK_NEAR(p[i](1), e(1), drift + 2e-6 * (k + 1) * length, "y of particle " << i << " after " << show(m));
      CHECK_NEAR(ref::wrap(p[i](2) - e(2)), 0, 2e-6 * (k + 1), "heading of particle " << i << " after " << show(m));
      CHECK(p[i](2) >= -M_PI - 1e-9 && p[i](2) <= M_PI + 1e-9, "heading " << p[i](2) << " is not normalised");
      e(2) = p[i](2);          // headings are checked one by one
    }
  }
  Particles none;
  model.sample(1, 0, 0, none);
  CHECK(none.empty(), "particles out of nothing");
  if (trans && heading && differ) c.nontrivial();
}

PBT_TEST(C12, spread, 1500, 40000, "12000 particles moved once with noise of random parameters: moments of the two rotations and the translation, recovered from each particle; "
         "non-trivial: at least two of the three have noise")
{
  world::reset(c.seed());
  const size_t n = 12000;
  Motion m = motion(c, 1.5);
  double trans = std::hypot(m.dx, m.dy);
  double rot1 = trans > 0.01 ? std::atan2(m.dy, m.dx) : 0, rot2 = ref::wrap(m.dth - rot1);
  auto fold = [](double a) { a = std::fabs(ref::wrap(a)); return std::min(a, M_PI - a); };
  double f1 = fold(rot1), f2 = fold(rot2);
  // parameters, including switched-off ones, scaled so that rotations stay recoverable
  double a[4];
  for (double & x : a) x = c.chance(25) ? 0.0 : c.chance(25) ? 0.2 : c.real(0.001, 0.4);
  auto sigma = [&](double & s1, double & st, double & s2) {
      s1 = std::sqrt(a[0] * f1 * f1 + a[1] * trans * trans);
      st = std::sqrt(a[2] * trans * trans + a[3] * (f1 * f1 + f2 * f2));
      s2 = std::sqrt(a[0] * f2 * f2 + a[1] * trans * trans);
    };
  double s1, st, s2;
  sigma(s1, st, s2);
  while (std::max(s1, s2) > 0.26)
  {
    a[0] /= 2;
    a[1] /= 2;
    sigma(s1, st, s2);
  }
  bool origin = c.chance(60);
  Eigen::Vector3d start = origin ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(c.coord(20), c.coord(20), c.angle());
  ndt_2d::MotionModel model(a[0], a[1], a[2], a[3], c.chance(30) ? 0.2 : 0.0);
  c.note << show(m) << " alphas " << pbt::shortstr(a[0]) << " " << pbt::shortstr(a[1]) << " " << pbt::shortstr(a[2]) << " " << pbt::shortstr(a[3])
         << " deviations " << pbt::shortstr(s1) << " " << pbt::shortstr(st) << " " << pbt::shortstr(s2);
  Particles p(n, start);
  if (!origin && c.chance(50))
  {
    // all over the place
    for (size_t i = 0; i < n; ++i) p[i] = Eigen::Vector3d(start(0) + 0.01 * (i % 100), start(1) - 0.03 * (i % 77), ref::wrap(start(2) + 0.1 * i));
    c.label("different poses");
  }
  const Particles starts = p;
  bool two = c.chance(30);
  if (two)
  {
    Particles q(p.begin(), p.begin() + n / 2), r(p.begin() + n / 2, p.end());
    model.sample(m.dx, m.dy, m.dth, q);
    model.sample(m.dx, m.dy, m.dth, r);
    p = q;
    p.insert(p.end(), r.begin(), r.end());
    c.label("two calls");
  }
  else model.sample(m.dx, m.dy, m.dth, p);
  CHECK(p.size() == n, "number of particles changed");
  // deviations from the commanded values, in units of the prescribed deviation (or absolute where that is 0)
  std::vector<double> v[3];
  double sd[3] = {s1, st, s2};
  // (away from the origin, or without translation, the direction of a tiny step is lost in rounding)
  double tiny = origin ? 0 : 1e-4;
  size_t lost = 0;
  for (size_t i = 0; i < n; ++i)
  {
    const auto & q = p[i];
    const auto & start = starts[i];
    CHECK(std::isfinite(q(0)) && std::isfinite(q(1)) && q(2) >= -M_PI - 1e-9 && q(2) <= M_PI + 1e-9, "pose " << q(0) << " " << q(1) << " " << q(2));
    double x = q(0) - start(0), y = q(1) - start(1), t = std::hypot(x, y);
    if (t <= tiny)
    {
      // no direction: the rotations cannot be told apart
      ++lost;
      if (t == 0 && st == 0 && s1 == 0) { v[0].push_back(0); v[1].push_back(-trans); v[2].push_back(ref::wrap(q(2) - start(2) - rot1 - rot2)); }
      continue;
    }
    double r1 = ref::wrap(std::atan2(y, x) - start(2) - rot1);
    if (std::fabs(r1) > M_PI / 2) { r1 = ref::wrap(r1 + M_PI); t = -t; }
    v[0].push_back(r1);
    v[1].push_back(t - trans);
    v[2].push_back(ref::wrap(q(2) - start(2) - rot1 - r1 - rot2));
  }
  if (st == 0 && trans == 0)
  {
    // a rotation on the spot without translation noise: only the sum of the rotations shows
    double mean = 0, var = 0, s = std::sqrt(s1 * s1 + s2 * s2);
    for (size_t i = 0; i < n; ++i)
    {
      const auto & q = p[i];
      const auto & start = starts[i];
      double d = ref::wrap(q(2) - start(2) - rot1 - rot2);
      CHECK(q(0) == start(0) && q(1) == start(1), "moved while turning without translation noise");
      mean += d / n;
      var += d * d / n;
    }
    CHECK_NEAR(mean, 0, 6.5 * s / std::sqrt(1.0 * n) + 2e-6, "mean of the rotation");
    CHECK_NEAR(var, s * s, 6.5 * std::sqrt(2.0 / n) * s * s + 1e-11, "variance of the rotation");
    if (s > 0) c.nontrivial();
    c.label("only the sum of rotations");
    return;
  }
  if (lost > n / 50) { c.label("steps too short"); return; }
  // the ones lost are those nearest to zero translation: a small bias
  double k = static_cast<double>(v[0].size()), loss = (n - k) / n * 3;
  static const char * names[3] = {"first rotation", "translation", "second rotation"};
  double z[3] = {0, 0, 0}, zz[3][3] = {{0}};
  double lag[3] = {0, 0, 0}, calls[3] = {0, 0, 0}, floor_[3] = {origin ? 1e-6 : 1e-9, 1e-6 * (1 + trans), 2e-6};
  if (!origin) { floor_[0] = 1e-6; for (double & f : floor_) f += 1e-12 / tiny; }
  double unit[3];
  for (int i = 0; i < 3; ++i) unit[i] = sd[i] > 0 ? sd[i] : 1;
  for (size_t j = 0; j < v[0].size(); ++j)
  {
    for (int i = 0; i < 3; ++i)
    {
      z[i] += v[i][j] / unit[i] / k;
      for (int l = 0; l < 3; ++l) zz[i][l] += v[i][j] / unit[i] * v[l][j] / unit[l] / k;
      if (j >= n / 2) calls[i] += v[i][j] / unit[i] * v[i][j - n / 2] / unit[i] / (k - n / 2);
      if (j) lag[i] += v[i][j] / unit[i] * v[i][j - 1] / unit[i] / k;
    }
  }
  int noisy = 0;
  for (int i = 0; i < 3; ++i)
  {
    if (sd[i] == 0)
    {
      for (double x : v[i]) CHECK_NEAR(x, 0, floor_[i] + 1e-6, names[i] << " has noise where none is prescribed");
      continue;
    }
    ++noisy;
    double f = floor_[i] / sd[i];
    if (f > 0.01) { c.label("noise at rounding size"); continue; }
    CHECK_NEAR(z[i], 0, 6.5 / std::sqrt(k) + f + loss, "mean error of the " << names[i] << ", in deviations");
    CHECK_NEAR(zz[i][i], 1, 6.5 * std::sqrt(2.0 / k) + 4 * f + 3 * loss, "variance of the " << names[i] << " against the prescribed one");
    CHECK_NEAR(lag[i], 0, 6.5 / std::sqrt(k) + 4 * f + loss, "correlation of the " << names[i] << " of neighbouring particles");
    if (two && !lost)
      CHECK_NEAR(calls[i], 0, 6.5 / std::sqrt(k / 2) + 4 * f + loss, "correlation of the " << names[i] << " of two calls");
    for (int l = 0; l < i; ++l)
    {
      double g = floor_[l] / (sd[l] > 0 ? sd[l] : 1e-300);
      if (g > 0.01) continue;
      CHECK_NEAR(zz[i][l], 0, 6.5 / std::sqrt(k) + 4 * (f + g) + loss, "correlation of " << names[l] << " and " << names[i]);
    }
  }
  if (noisy >= 2) c.nontrivial();
}

PBT_TEST(C12, reverse, 4000, 50000, "the same motion forwards and backwards with the same random numbers: equal deviations; particles of one call are not copies of each other; "
         "non-trivial: there is noise in both rotations")
{
  uint64_t seed = c.seed();
  double d = c.real(0.02, 2), turn = c.real(-0.5, 0.5);
  double a[4];
  for (double & x : a) x = c.real(0.01, 0.2);
  double dir = c.chance(40) ? 0 : c.real(-0.4, 0.4);
  const size_t n = 64;
  Particles p(n, Eigen::Vector3d::Zero()), q = p;
  {
    world::reset(seed);
    ndt_2d::MotionModel model(a[0], a[1], a[2], a[3], 0);
    model.sample(d * cos(dir), d * sin(dir), turn, p);
  }
  {
    world::reset(seed);
    ndt_2d::MotionModel model(a[0], a[1], a[2], a[3], 0);
    model.sample(-d * cos(dir), -d * sin(dir), turn, q);
  }
  c.note << pbt::shortstr(d) << " m towards " << pbt::shortstr(dir) << " turning " << pbt::shortstr(turn);
  // root mean square distance to the commanded pose
  auto spread = [&](const Particles & s, double sign, double & pos, double & head) {
      pos = head = 0;
      for (auto & x : s)
      {
        pos += std::pow(x(0) - sign * d * cos(dir), 2) + std::pow(x(1) - sign * d * sin(dir), 2);
        head += std::pow(ref::wrap(x(2) - turn), 2);
      }
      pos = std::sqrt(pos / n);
      head = std::sqrt(head / n);
    };
  double p1, h1, p2, h2;
  spread(p, 1, p1, h1);
  spread(q, -1, p2, h2);
  // 64 independent samples each: within a factor of two
  CHECK(p2 < 2.2 * p1 + 1e-6 && p1 < 2.2 * p2 + 1e-6, "position error " << p1 << " driving forwards and " << p2 << " backwards");
  CHECK(h2 < 2.2 * h1 + 1e-6 && h1 < 2.2 * h2 + 1e-6, "heading error " << h1 << " driving forwards and " << h2 << " backwards");
  std::set<std::vector<double>> distinct;
  for (auto & x : p) distinct.insert({x(0), x(1), x(2)});
  CHECK(distinct.size() > n - 3, "only " << distinct.size() << " distinct particles of " << n);
  c.nontrivial();
}
