// C03, C04: the NDT grid - which points count where, and likelihoods of points and scans
#include "common.hpp"
#include <ndt_2d/ndt_model.hpp>
using ndt_2d::NDT;
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using ndt_2d::ScanPtr;
using pbt::Case;

namespace
{
typedef Eigen::Vector2d V;
typedef std::pair<int64_t, int64_t> Index;

struct Geometry
{
  double cell, size_x, size_y, ox, oy;
  int64_t nx() const { return static_cast<int64_t>(std::floor(size_x / cell)); }   // last required index
  int64_t ny() const { return static_cast<int64_t>(std::floor(size_y / cell)); }
};

// The cell of a position. False: on a border, to within rounding
bool cell_of(const Geometry & g, const V & p, Index & i)
{
  ref::real fx = (static_cast<ref::real>(p(0)) - g.ox) / g.cell, fy = (static_cast<ref::real>(p(1)) - g.oy) / g.cell;
  if (fabsl(fx) > 1e17L || fabsl(fy) > 1e17L)
  {
    i = Index(fx < 0 ? -1 : int64_t(1) << 60, fy < 0 ? -1 : int64_t(1) << 60);
    return true;
  }
  ref::real gx = floorl(fx), gy = floorl(fy);
  i = Index(static_cast<int64_t>(gx), static_cast<int64_t>(gy));
  ref::real tx = 1e-9L * (1 + fabsl(fx) * 1e-4L), ty = 1e-9L * (1 + fabsl(fy) * 1e-4L);
  auto clear = [](ref::real f, ref::real t) {return f > t && f < 1 - t;};
  return clear(fx - gx, tx) && clear(fy - gy, ty);
}

enum Place { Inside, Outside, Margin };
Place place(const Geometry & g, const Index & i)
{
  if (i.first < 0 || i.second < 0) return Outside;
  if (i.first > g.nx() + 2 || i.second > g.ny() + 2) return Outside;
  // the last required cell may be on either side of a rounding error
  bool in_x = i.first < g.nx() || (i.first == g.nx() && g.size_x / g.cell - g.nx() < 1 - 1e-9);
  bool in_y = i.second < g.ny() || (i.second == g.ny() && g.size_y / g.cell - g.ny() < 1 - 1e-9);
  return in_x && in_y ? Inside : Margin;
}

Geometry geometry(Case & c)
{
  Geometry g;
  g.cell = c.pick(std::vector<double>{1.0, 0.25, 0.5, 0.1, 0.3, 2.0, 0.05, 0.7});
  size_t most = c.weighted({8, 1}) ? 300 : 12;
  auto extent = [&] {
      double n = static_cast<double>(c.below(most));
      switch (c.below(3))
      {
        case 0: return n * g.cell;
        case 1: return (n + 0.5) * g.cell;
        default: return (n + c.unit()) * g.cell;
      }
    };
  g.size_x = extent();
  g.size_y = extent();
  if (c.rare(400))
  {
    // a long road
    bool along_x = c.chance(50);
    (along_x ? g.size_x : g.size_y) = (66000 + c.below(5000)) * g.cell;
    (along_x ? g.size_y : g.size_x) = c.below(2) * g.cell;
    c.label("long");
  }
  double m = c.pick(std::vector<double>{10, 100, 5000});
  g.ox = c.coord(m);
  g.oy = c.coord(m);
  return g;
}

Index some_cell(Case & c, const Geometry & g)
{
  auto one = [&](int64_t n) -> int64_t {
      switch (c.weighted({4, 1, 1})) { case 0: return static_cast<int64_t>(c.below(n + 1)); case 1: return 0; default: return n; }
    };
  int64_t x = one(g.nx());
  return Index(x, one(g.ny()));
}

// A position in a cell, away from its borders by 2% of the cell
V in_cell(Case & c, const Geometry & g, const Index & i, double cu, double cv, double r)
{
  double u = std::min(0.98, std::max(0.02, cu + r * c.real(-1, 1)));
  double v = std::min(0.98, std::max(0.02, cv + r * c.real(-1, 1)));
  return V(g.ox + (i.first + u) * g.cell, g.oy + (i.second + v) * g.cell);
}

// A position outside the grid, near or far, also where an index would overflow
V outside(Case & c, const Geometry & g)
{
  Index i = some_cell(c, g);
  V p = in_cell(c, g, i, 0.5, 0.5, 0.4);
  int axis = static_cast<int>(c.below(2));
  int64_t n = axis ? g.ny() : g.nx();
  double far = 0;
  switch (c.weighted({4, 3, 3, 2, 2}))
  {
    case 0: far = -static_cast<double>(i.first * (1 - axis) + i.second * axis) - 1 - static_cast<double>(c.below(3)); break;
    case 1: far = static_cast<double>(n + 3 + c.below(4)); break;
    case 2: far = std::ldexp(1.0 + static_cast<double>(c.below(3)), c.pick(std::vector<int>{32, 31, 33, 40})); break;
    case 3: far = (c.chance(50) ? -1 : 1) * std::ldexp(1.0, c.pick(std::vector<int>{32, 31, 16, 20, 48})); break;
    default: far = (c.chance(50) ? -1 : 1) * std::pow(10.0, c.real(3, 300)); break;
  }
  p(axis) += far * g.cell;
  return p;
}

Point local(const Pose2d & pose, const V & p)
{
  ref::real cs = cosl(pose.theta), sn = sinl(pose.theta), dx = static_cast<ref::real>(p(0)) - pose.x, dy = static_cast<ref::real>(p(1)) - pose.y;
  return Point(static_cast<double>(cs * dx + sn * dy), static_cast<double>(-sn * dx + cs * dy));
}
V global(const Pose2d & pose, const Point & p)
{
  ref::real cs = cosl(pose.theta), sn = sinl(pose.theta);
  return V(static_cast<double>(cs * p.x - sn * p.y + pose.x), static_cast<double>(sn * p.x + cs * p.y + pose.y));
}

struct Reference
{
  Geometry g;
  std::map<Index, std::vector<V>> cells;
  std::map<Index, ref::Stats> cache;
  void add(const V & p)
  {
    Index i;
    cell_of(g, p, i);
    cells[i].push_back(p);
    cache.erase(i);
  }
  const ref::Stats & stats(const Index & i)
  {
    auto it = cache.find(i);
    if (it == cache.end()) it = cache.emplace(i, ref::stats(cells[i])).first;
    return it->second;
  }
};

ScanPtr make_scan(size_t id, const Pose2d & pose, const std::vector<Point> & pts)
{
  auto s = std::make_shared<Scan>(id);
  s->setPose(pose);
  s->setPoints(pts);
  return s;
}

// Compares one query with the reference. Returns true if the comparison says something.
bool check_query(NDT & ndt, Reference & r, const V & q, Case & c)
{
  double v = ndt.likelihood(q);
  CHECK(std::isfinite(v) && v >= 0 && v <= 1 + 1e-12, "likelihood " << v << " at (" << q(0) << ", " << q(1) << ")");
  Index i;
  if (!cell_of(r.g, q, i)) return false;
  Place where = place(r.g, i);
  if (where == Outside)
  {
    c.label("query outside");
    CHECK(v == 0, "likelihood " << v << " outside the grid, at (" << q(0) << ", " << q(1) << ")");
    return true;
  }
  if (where == Margin && v == 0) return false;
  auto & s = r.stats(i);
  double want, tol;
  if (!ref::likelihood(s, q, want, tol)) return false;
  if (s.n < 5) CHECK(v == 0, "likelihood " << v << " in a cell of " << s.n << " points, at (" << q(0) << ", " << q(1) << ")");
  else CHECK_NEAR(v, want, tol + 1e-7, "likelihood at (" << q(0) << ", " << q(1) << "), cell " << i.first << "," << i.second
                  << " of " << s.n << " points");
  if (want > 1e-4) c.label("query with support");
  return want > 1e-4;
}
}  // namespace

PBT_TEST(C03, locality, 60000, 3000000, "a grid, several scans whose points lie in chosen cells (corner and border cells too), "
         "on exact borders, and outside near or far; recomputed in between; queries in every used cell, its neighbours and outside; "
         "non-trivial: at least two cells with 5 points and a query with support")
{
  Reference r;
  Geometry & g = r.g;
  g = geometry(c);
  // exact arithmetic on the borders
  bool exact = c.chance(25);
  if (exact)
  {
    g.cell = c.pick(std::vector<double>{1.0, 0.25, 0.5, 2.0});
    g.ox = std::floor(g.ox);
    g.oy = std::floor(g.oy);
  }
  NDT ndt(g.cell, g.size_x, g.size_y, g.ox, g.oy);
  c.note << "cell " << g.cell << " size " << g.size_x << "x" << g.size_y << " origin " << g.ox << "," << g.oy << (exact ? " exact" : "");
  size_t scans = 1 + c.below(4);
  std::vector<Index> used;
  size_t supported = 0;
  auto query_all = [&]
    {
      ndt.compute();
      for (auto & i : used)
      {
        auto pts = r.cells[i];
        for (int k = 0; k < 2; ++k)
        {
          V q = pts.empty() ? V(0, 0) : V(pts[c.below(pts.size())] + 0.1 * g.cell * V(c.real(-1, 1), c.real(-1, 1)));
          supported += check_query(ndt, r, q, c);
        }
        // just across the borders, and the same offset in a neighbouring cell
        Index j(i.first + static_cast<int64_t>(c.below(3)) - 1, i.second + static_cast<int64_t>(c.below(3)) - 1);
        check_query(ndt, r, in_cell(c, g, j, 0.5, 0.5, 0.5), c);
        V d(g.ox + (i.first + (c.chance(50) ? 0.001 : 0.999)) * g.cell, g.oy + (i.second + c.unit()) * g.cell);
        check_query(ndt, r, d, c);
      }
      for (int k = 0; k < 3; ++k) check_query(ndt, r, outside(c, g), c);
    };
  for (size_t s = 0; s < scans; ++s)
  {
    Pose2d pose;
    if (!exact && c.chance(75)) pose = gen::pose(c, 50);
    std::vector<Point> pts;
    size_t groups = 1 + c.below(4);
    for (size_t k = 0; k < groups; ++k)
    {
      Index i = used.empty() || c.chance(70) ? some_cell(c, g) : used[c.below(used.size())];
      if (c.chance(30) && !used.empty()) i = Index(std::min(g.nx(), used.back().first + 1), used.back().second);
      // far apart on a long road
      for (int64_t far : {65536, -65536})
      {
        if (used.empty() || std::max(g.nx(), g.ny()) < 65536 || c.chance(40)) continue;
        Index l = used.back();
        if (l.first + far >= 0 && l.first + far <= g.nx()) i = Index(l.first + far, l.second);
        if (l.second + far >= 0 && l.second + far <= g.ny()) i = Index(l.first, l.second + far);
      }
      used.push_back(i);
      double cu = c.real(0, 1), cv = c.real(0, 1), rad = c.pick(std::vector<double>{0.2, 0.5, 0.05, 1.0});
      size_t n = c.chance(60) ? 5 + c.below(8) : c.below(7);
      for (size_t m = 0; m < n; ++m)
      {
        V p = in_cell(c, g, i, cu, cv, rad);
        if (exact)
        {
          // on sixteenths of the cell: the lower borders belong to the cell
          p(0) = g.ox + (i.first + static_cast<double>(c.below(16)) / 16) * g.cell;
          p(1) = g.oy + (i.second + static_cast<double>(c.below(16)) / 16) * g.cell;
        }
        Point l = exact ? Point(p(0), p(1)) : local(pose, p);
        pts.push_back(l);
        r.add(exact ? p : global(pose, l));
      }
    }
    size_t strays = c.weighted({3, 2, 1}) * c.below(8);
    for (size_t k = 0; k < strays; ++k)
    {
      V p = outside(c, g);
      Point l = exact ? Point(p(0), p(1)) : local(pose, p);
      V q = exact ? p : global(pose, l);
      Index i;
      if (!cell_of(g, q, i) || place(g, i) != Outside) continue;
      pts.push_back(l);
      c.label("stray points");
    }
    for (size_t k = pts.size(); k > 1; --k) std::swap(pts[k - 1], pts[k - 1 - c.below(k)]);
    ndt.addScan(make_scan(s, pose, pts));
    c.note << "; scan at " << gen::show(pose) << " with " << pts.size() << " points";
    if (c.chance(30)) query_all();
  }
  query_all();
  std::set<Index> full;
  for (auto & i : r.cells) if (i.second.size() >= 5) full.insert(i.first);
  if (full.size() >= 2 && supported) c.nontrivial();
  if (exact) c.label("points on exact borders");
}

PBT_TEST(C03, overflow, 20000, 400000, "queries and points whose cell index overflows 16, 31, 32, 33, 48 or 64 bits, aimed at a used cell; "
         "non-trivial: the used cell has at least 5 points")
{
  Reference r;
  Geometry & g = r.g;
  g = geometry(c);
  NDT ndt(g.cell, g.size_x, g.size_y, g.ox, g.oy);
  Index i = some_cell(c, g);
  std::vector<Point> pts;
  for (size_t k = 0, n = 5 + c.below(5); k < n; ++k)
  {
    V p = in_cell(c, g, i, 0.5, 0.5, 0.4);
    pts.emplace_back(p(0), p(1));
    r.add(p);
  }
  ndt.addScan(make_scan(0, Pose2d(), pts));
  std::vector<Point> strays;
  V q = in_cell(c, g, i, 0.5, 0.5, 0.3);
  for (size_t k = 0, n = 1 + c.below(6); k < n; ++k)
  {
    V p = in_cell(c, g, i, 0.5, 0.5, 0.4);
    double dx = 0, dy = 0;
    int bits = c.pick(std::vector<int>{32, 31, 33, 16, 34, 40, 48, 63, 64});
    double w = std::ldexp(1.0 + static_cast<double>(c.below(4)), bits) * (c.chance(30) ? -1 : 1);
    switch (c.below(4))
    {
      case 0: dx = w; break;
      case 1: dy = w; break;
      case 2: dx = w; dy = w; break;
      // one row up is as far as one grid width to the right
      default: dx = static_cast<double>(g.nx() + 1) * (c.chance(50) ? 1 : -1); dy = dx > 0 ? -1 : 1;
    }
    p += V(dx, dy) * g.cell;
    Index j;
    if (!cell_of(g, p, j) || place(g, j) != Outside) continue;
    double v = ndt.likelihood(p);
    CHECK(v == 0, "likelihood " << v << " outside the grid at (" << p(0) << ", " << p(1) << ")");
    strays.emplace_back(p(0), p(1));
    c.note << " (" << pbt::shortstr(p(0)) << "," << pbt::shortstr(p(1)) << ")";
  }
  ndt.addScan(make_scan(1, Pose2d(), strays));
  ndt.compute();
  check_query(ndt, r, q, c);
  for (auto & p : strays) CHECK(ndt.likelihood(V(p.x, p.y)) == 0, "likelihood outside the grid");
  if (!strays.empty()) c.nontrivial();
}

namespace
{
// Points with support in a grid, all away from cell borders
struct Scene
{
  Geometry g;
  std::vector<V> points;
};
Scene scene(Case & c)
{
  Scene s;
  s.g = geometry(c);
  size_t groups = 1 + c.below(5);
  for (size_t k = 0; k < groups; ++k)
  {
    Index i = some_cell(c, s.g);
    double cu = c.real(0.1, 0.9), cv = c.real(0.1, 0.9);
    size_t n = 3 + c.below(10);
    for (size_t m = 0; m < n; ++m) s.points.push_back(in_cell(c, s.g, i, cu, cv, 0.4));
  }
  return s;
}
// Query positions near the points or anywhere, away from borders
std::vector<V> queries(Case & c, const Scene & s, size_t n)
{
  std::vector<V> out;
  for (size_t k = 0; k < n; ++k)
  {
    V q;
    if (c.chance(75) && !s.points.empty()) q = s.points[c.below(s.points.size())] + 0.2 * s.g.cell * V(c.real(-1, 1), c.real(-1, 1));
    else if (c.chance(50)) q = V(s.g.ox, s.g.oy) + V(c.real(-1, 10), c.real(-1, 10));
    else q = V(s.g.ox, s.g.oy) - V(1, 1);
    Index i;
    // away from borders by a millionth of a cell
    double fx = (q(0) - s.g.ox) / s.g.cell, fy = (q(1) - s.g.oy) / s.g.cell;
    if (std::fabs(fx - std::round(fx)) < 1e-6 || std::fabs(fy - std::round(fy)) < 1e-6) q += V(0.01, 0.01) * s.g.cell;
    out.push_back(q);
  }
  return out;
}
// Adds the points to a grid, in any split into scans at any poses
void add_split(Case & c, NDT & ndt, std::vector<V> pts, bool shuffle)
{
  if (shuffle) for (size_t k = pts.size(); k > 1; --k) std::swap(pts[k - 1], pts[k - 1 - c.below(k)]);
  size_t at = 0, id = 0;
  while (at < pts.size())
  {
    Pose2d pose = gen::pose(c, 100);
    size_t n = std::min(pts.size() - at, static_cast<size_t>(c.below(20)));
    std::vector<Point> l;
    for (size_t k = 0; k < n; ++k) l.push_back(local(pose, pts[at + k]));
    at += n;
    ndt.addScan(make_scan(id++, pose, l));
    if (n == 0 && c.below(3) == 0)
    {
      Pose2d p2;
      ndt.addScan(make_scan(id++, p2, {Point(pts[at](0), pts[at](1))}));
      ++at;
    }
    if (c.chance(20)) ndt.compute();
  }
  ndt.compute();
}
}  // namespace

PBT_TEST(C04, sums, 60000, 2000000, "a map and a list of query points given as positions, 3D vectors, list and scan at any pose; "
         "non-trivial: at least two query points with likelihood above 0.001")
{
  Scene s = scene(c);
  NDT ndt(s.g.cell, s.g.size_x, s.g.size_y, s.g.ox, s.g.oy);
  add_split(c, ndt, s.points, true);
  auto q = queries(c, s, c.size(200));
  Pose2d pose = gen::pose(c, 50);
  std::vector<Point> list, locals;
  double sum = 0;
  size_t big = 0;
  for (auto & p : q)
  {
    double v = ndt.likelihood(p);
    Eigen::Vector3d p3(p(0), p(1), c.pick(std::vector<double>{0, 1, -3}));
    CHECK(ndt.likelihood(p3) == v, "2D and 3D queries differ");
    list.emplace_back(p(0), p(1));
    locals.push_back(local(pose, p));
    sum += v;
    if (v > 1e-3) ++big;
  }
  c.note << "cell " << s.g.cell << ", " << s.points.size() << " map points, " << q.size() << " query points, pose " << gen::show(pose) << ", sum " << pbt::shortstr(sum);
  double tol = 1e-12 * (1 + q.size());
  CHECK_NEAR(ndt.likelihood(list), sum, tol, "likelihood of a list of " << q.size() << " points");
  auto scan = make_scan(7, pose, locals);
  double ls = ndt.likelihood(scan);
  double slack = 1e-6 * (1 + big);
  CHECK_NEAR(ls, sum, slack, "likelihood of a scan of " << q.size() << " points at " << gen::show(pose));
  CHECK(ndt.likelihood(scan) == ls && ndt.likelihood(list) == ndt.likelihood(list), "asking twice gives different answers");
  double again = 0;
  for (auto & p : q) again += ndt.likelihood(p);
  CHECK(again == sum, "asking changed the map");
  // a scan moved rigidly with its points compensated stays the same; the points are those of the scan
  CHECK(scan->getPoints().size() == locals.size() && scan->getPose().x == pose.x, "asking changed the scan");
  if (big >= 2) c.nontrivial();
}

PBT_TEST(C04, splits, 40000, 1500000, "the same map points added as one scan, and split into scans at any poses in any order with recomputation "
         "in between, and all of it translated; non-trivial: a query with a well-determined likelihood above 0.001")
{
  Scene s = scene(c);
  Reference r;
  r.g = s.g;
  for (auto & p : s.points) r.add(p);
  NDT one(s.g.cell, s.g.size_x, s.g.size_y, s.g.ox, s.g.oy);
  std::vector<Point> all;
  for (auto & p : s.points) all.emplace_back(p(0), p(1));
  one.addScan(make_scan(0, Pose2d(), all));
  one.compute();
  NDT split(s.g.cell, s.g.size_x, s.g.size_y, s.g.ox, s.g.oy);
  add_split(c, split, s.points, true);
  V t(c.coord(100), c.coord(100));
  NDT moved(s.g.cell, s.g.size_x, s.g.size_y, s.g.ox + t(0), s.g.oy + t(1));
  std::vector<V> mp;
  for (auto & p : s.points) mp.push_back(p + t);
  add_split(c, moved, mp, false);
  c.note << "cell " << s.g.cell << ", " << s.points.size() << " map points, moved by " << t(0) << "," << t(1);
  for (auto & q : queries(c, s, 10))
  {
    Index i;
    if (!cell_of(s.g, q, i)) continue;
    double want, tol;
    if (!ref::likelihood(r.stats(i), q, want, tol)) continue;
    tol = tol * 4 + 1e-5;
    double v = one.likelihood(q);
    if (place(s.g, i) == Inside) CHECK_NEAR(v, want, tol, "one scan");
    CHECK_NEAR(split.likelihood(q), v, tol, "split into scans at other poses");
    CHECK_NEAR(moved.likelihood(V(q + t)), v, tol, "map and query translated together");
    if (want > 1e-3) c.nontrivial();
  }
}
