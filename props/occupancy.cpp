// C19, C20: the occupancy grid
#include "common.hpp"
#include <ndt_2d/occupancy_grid.hpp>
using ndt_2d::OccupancyGrid;
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using ndt_2d::ScanPtr;
using pbt::Case;
typedef nav_msgs::msg::OccupancyGrid Msg;

namespace
{
typedef std::vector<ScanPtr> Scans;
typedef std::pair<long, long> Cell;

ScanPtr make_scan(size_t id, const Pose2d & p, const std::vector<Point> & pts)
{
  auto s = std::make_shared<Scan>(id);
  s->setPose(p);
  s->setPoints(pts);
  return s;
}
Eigen::Vector2d end_of(const Pose2d & p, const Point & q)
{
  double cs = cos(p.theta), sn = sin(p.theta);
  return Eigen::Vector2d(q.x * cs - q.y * sn + p.x, q.x * sn + q.y * cs + p.y);
}
Point local(const Pose2d & p, double x, double y)
{
  double cs = cos(p.theta), sn = sin(p.theta), dx = x - p.x, dy = y - p.y;
  return Point(cs * dx + sn * dy, -sn * dx + cs * dy);
}

void check_shape(const Msg & m, double res)
{
  CHECK_NEAR(m.info.resolution, res, 1e-6 * res, "resolution of the message");
  CHECK(m.data.size() == static_cast<size_t>(m.info.width) * m.info.height, m.data.size() << " cells in a map of " << m.info.width << " x " << m.info.height);
  for (auto v : m.data) CHECK(v == -1 || v == 0 || v == 100, "a cell of value " << static_cast<int>(v));
  CHECK(m.info.origin.orientation.w == 1 && m.info.origin.orientation.z == 0, "the map is rotated");
}
void check_inside(const Msg & m, double res, const Eigen::Vector2d & p, const char * what)
{
  double x = (p(0) - m.info.origin.position.x) / res, y = (p(1) - m.info.origin.position.y) / res;
  CHECK(x >= 3.99 && y >= 3.99 && x <= m.info.width - 3.99 && y <= m.info.height - 3.99,
        what << " at (" << p(0) << ", " << p(1) << ") is not inside the map with its margin: cell (" << x << ", " << y << ") of " << m.info.width << " x " << m.info.height);
}
void check_covers(const Msg & m, double res, const Scans & scans)
{
  for (auto & s : scans)
  {
    Pose2d p = s->getPose();
    check_inside(m, res, Eigen::Vector2d(p.x, p.y), "the pose");
    for (auto & q : s->getPoints()) check_inside(m, res, end_of(p, q), "an endpoint");
  }
}
// Known cells, indexed from the corner of the world
std::map<Cell, int> known(const Msg & m, double res)
{
  std::map<Cell, int> k;
  double ox = m.info.origin.position.x / res, oy = m.info.origin.position.y / res;
  long bx = std::lround(ox), by = std::lround(oy);
  CHECK(std::fabs(ox - bx) < 1e-4 && std::fabs(oy - by) < 1e-4, "the map is not aligned to its resolution");
  for (size_t i = 0; i < m.data.size(); ++i)
    if (m.data[i] != -1) k[Cell(bx + static_cast<long>(i % m.info.width), by + static_cast<long>(i / m.info.width))] = m.data[i];
  return k;
}
// The cell of a position. False: near a border
bool cell_of(const Eigen::Vector2d & p, double res, Cell & c)
{
  double x = p(0) / res, y = p(1) / res, fx = std::floor(x), fy = std::floor(y), t = 1e-6;
  c = Cell(std::lround(fx), std::lround(fy));
  return x - fx > t && x - fx < 1 - t && y - fy > t && y - fy < 1 - t;
}
std::string show(const Cell & c) { return "(" + std::to_string(c.first) + ", " + std::to_string(c.second) + ")"; }

struct World
{
  double res, thresh, size;
  explicit World(Case & c)
  {
    res = c.pick(std::vector<double>{0.05, 0.1, 0.25, 0.03, 0.5});
    thresh = c.pick(std::vector<double>{0.25, 0.5, 0.1, 0.65, 0.0, 0.75});
    size = res * static_cast<double>(c.pick(std::vector<int>{10, 3, 30, 100}));
    c.note << "resolution " << res << " threshold " << thresh << " ";
  }
  // A position inside a random cell
  double inside(Case & c, double centre, double reach)
  {
    double k = std::floor((centre + reach * c.real(-1, 1)) / res);
    return (k + (c.chance(40) ? 0.5 : c.real(0.01, 0.99))) * res;
  }
  ScanPtr scan(Case & c, size_t id, double x, double y, size_t most)
  {
    Pose2d p(inside(c, x, size), inside(c, y, size), c.angle());
    std::vector<Point> pts;
    size_t n = c.size(most);
    for (size_t i = 0; i < n; ++i)
    {
      double ex = inside(c, p.x, size), ey = inside(c, p.y, size);
      switch (c.weighted({6, 1, 1, 1, 1}))
      {
        case 1: ex = p.x; break;                                  // along the axes
        case 2: ey = p.y; break;
        case 3: { double d = std::round((ex - p.x) / res) * res; ex = p.x + d; ey = p.y + (c.chance(50) ? d : -d); break; }
        case 4: ex = p.x; ey = p.y; break;                        // no ray at all
      }
      pts.push_back(local(p, ex, ey));
    }
    return make_scan(id, p, pts);
  }
};
}  // namespace

PBT_TEST(C19, histories, 8000, 300000, "a renderer used for up to 8 messages while scans are added, moved, changed and replaced, each compared with a new renderer; "
         "non-trivial: at least 2 messages with scans moved or replaced in between")
{
  World w(c);
  OccupancyGrid grid(w.res, w.thresh);
  Scans scans;
  Msg reused;
  bool keep = c.chance(50);
  double x = c.coord(4 * w.size), y = c.coord(4 * w.size);
  bool far = c.rare(400), along_y = far && c.chance(50);
  if (far) w.size = 10 * w.res;
  size_t changes = 0;
  for (size_t r = 0, n = 1 + c.below(8); r < n; ++r)
  {
    switch (r == 0 ? c.weighted({8, 1}) : c.weighted({5, 1, 4, 2, 2}))
    {
      case 0:
        for (size_t k = 0, m = 1 + c.below(4); k < m; ++k) scans.push_back(w.scan(c, scans.size(), x, y, 20));
        if (far)
        {
          // more cells than 15 bits, along one axis
          Pose2d p = scans.back()->getPose();
          (along_y ? p.y : p.x) += w.res * static_cast<double>(20000 + c.below(60000)) * (c.chance(50) ? 1 : -1);
          scans.back()->setPose(p);
          far = false;
          c.label("large");
        }
        c.note << "added to " << scans.size() << " ";
        break;
      case 1: c.note << "again "; break;
      case 2:
        {
          // as optimisation does: all poses change
          double d = w.size * c.pick(std::vector<double>{0.3, 2, 6}), tx = d * c.real(-1, 1), ty = d * c.real(-1, 1);
          for (auto & s : scans)
          {
            Pose2d p = s->getPose();
            s->setPose(Pose2d(p.x + tx + w.res * c.real(-1, 1), p.y + ty, p.theta + c.real(-0.3, 0.3)));
          }
          ++changes;
          c.note << "moved ";
          break;
        }
      case 3:
        {
          // another graph: as many, more or fewer scans, elsewhere
          size_t m = c.chance(40) ? scans.size() : c.below(7);
          scans.clear();
          x = c.coord(4 * w.size);
          y = c.coord(4 * w.size);
          for (size_t k = 0; k < m; ++k) scans.push_back(w.scan(c, k, x, y, 20));
          ++changes;
          c.note << "replaced by " << m << " ";
          break;
        }
      default:
        if (!scans.empty())
        {
          auto s = c.pick(scans);
          s->setPoints(w.scan(c, 0, x, y, 20)->getPoints());
          ++changes;
          c.note << "points changed ";
        }
    }
    Msg fresh_msg, other;
    Msg & m = keep ? reused : other;
    grid.getMsg(scans, m);
    check_shape(m, w.res);
    check_covers(m, w.res, scans);
    OccupancyGrid fresh(w.res, w.thresh);
    fresh.getMsg(scans, fresh_msg);
    check_covers(fresh_msg, w.res, scans);
    // (positions on cell borders may fall to either side when the origin differs by rounding)
    bool sure = true;
    Cell cell;
    for (auto & s : scans)
    {
      Pose2d p = s->getPose();
      sure = cell_of(Eigen::Vector2d(p.x, p.y), w.res, cell) && sure;
      for (auto & q : s->getPoints()) sure = cell_of(end_of(p, q), w.res, cell) && sure;
    }
    auto a = known(m, w.res), b = known(fresh_msg, w.res);
    if (sure || (m.info.origin.position.x == fresh_msg.info.origin.position.x && m.info.origin.position.y == fresh_msg.info.origin.position.y))
      CHECK(a == b, "the map has " << a.size() << " known cells, that of a new renderer " << b.size() << ", or other values");
  }
  if (changes) c.nontrivial();
}

PBT_TEST(C20, ray, 60000, 2000000, "one ray from a random cell to another; non-trivial: the ray is neither along an axis nor diagonal, and at least 5 cells long")
{
  World w(c);
  if (w.thresh == 0.0) w.thresh = 0.2;
  double x = c.coord(3 * w.size), y = c.coord(3 * w.size);
  ScanPtr s;
  Scans scans;
  for (;;)
  {
    s = w.scan(c, 0, x, y, 1);
    auto p = s->getPoints();
    if (p.empty()) p.push_back(local(s->getPose(), w.inside(c, s->getPose().x, w.size), w.inside(c, s->getPose().y, w.size)));
    p.resize(1);
    if (c.rare(1500))
    {
      // more cells than 15 bits
      Pose2d q = s->getPose();
      double d = w.res * (static_cast<double>(10000 + c.below(60000)) + c.real(0.1, 0.9)) * (c.chance(50) ? 1 : -1), e = w.res * 20 * c.real(-1, 1);
      p[0] = c.chance(50) ? local(q, q.x + d, q.y + e) : local(q, q.x + e, q.y + d);
      c.label("large");
    }
    s->setPoints(p);
    break;
  }
  scans.push_back(s);
  OccupancyGrid grid(w.res, w.thresh);
  Msg m;
  grid.getMsg(scans, m);
  check_shape(m, w.res);
  Pose2d p = s->getPose();
  Eigen::Vector2d from(p.x, p.y), to = end_of(p, s->getPoints()[0]);
  Cell a, b;
  bool sure = cell_of(from, w.res, a);
  sure = cell_of(to, w.res, b) && sure;
  c.note << "from cell " << show(a) << " to " << show(b);
  if (!sure) return;
  auto k = known(m, w.res);
  size_t dx = std::labs(a.first - b.first), dy = std::labs(a.second - b.second);
  CHECK(k.count(b) && k[b] == 100, "the cell of the endpoint " << show(b) << " is " << (k.count(b) ? "free" : "unknown"));
  if (a != b) CHECK(k.count(a) && k[a] == 0, "the first cell " << show(a) << " is " << (k.count(a) ? "occupied" : "unknown"));
  CHECK(k.size() >= std::max(dx, dy) + 1 && k.size() <= dx + dy + 1, k.size() << " cells for a ray over " << dx << " x " << dy);
  // all connected, near the true ray, and no other hit
  std::set<Cell> seen = {a};
  std::vector<Cell> todo = {a};
  while (!todo.empty())
  {
    Cell q = todo.back();
    todo.pop_back();
    for (long i = -1; i <= 1; ++i) for (long j = -1; j <= 1; ++j)
    {
      Cell n(q.first + i, q.second + j);
      if (k.count(n) && seen.insert(n).second) todo.push_back(n);
    }
  }
  CHECK(seen.size() == k.size(), "the cells of the ray are not connected");
  Eigen::Vector2d dir = to - from;
  double len2 = dir.squaredNorm();
  for (auto & q : k)
  {
    CHECK(q.second == 0 || q.first == b, "a hit in cell " << show(q.first) << " on the way");
    Eigen::Vector2d mid((q.first.first + 0.5) * w.res, (q.first.second + 0.5) * w.res);
    double t = len2 > 0 ? std::min(1.0, std::max(0.0, (mid - from).dot(dir) / len2)) : 0;
    double d = (mid - from - t * dir).norm() / w.res;
    CHECK(d < 1.5, "cell " << show(q.first) << " is " << d << " cells off the ray");
  }
  if (dx && dy && dx != dy && dx + dy >= 5) c.nontrivial();
}

PBT_TEST(C20, fractions, 4000, 100000, "up to 5 scans of up to 25 rays, in any order: the map against the hits and misses of each ray rendered alone; "
         "non-trivial: some cell was both hit and missed")
{
  World w(c);
  double x = c.coord(3 * w.size), y = c.coord(3 * w.size);
  Scans scans;
  for (size_t k = 0, m = 1 + c.below(5); k < m; ++k) scans.push_back(w.scan(c, k, x, y, 25));
  if (scans.size() > 1 && c.chance(40))
  {
    // seen again from elsewhere: the same endpoints
    auto src = scans[0], dst = scans[1];
    std::vector<Point> pts;
    for (auto & q : src->getPoints())
    {
      auto e = end_of(src->getPose(), q);
      pts.push_back(local(dst->getPose(), e(0), e(1)));
      if (c.chance(50))
      {
        // through the endpoint
        auto d = dst->getPose();
        double f = c.real(1.2, 2);
        pts.push_back(local(d, w.inside(c, d.x + f * (e(0) - d.x), 0), w.inside(c, d.y + f * (e(1) - d.y), 0)));
      }
    }
    dst->setPoints(pts);
  }
  bool sure = true, both = false;
  std::map<Cell, std::pair<int, int>> count;      // hits, misses
  size_t rays = 0;
  // Some measurements are repeated, as often as a robot does that stands still for hours
  std::vector<std::tuple<ScanPtr, Point, int>> repeated;
  int heavy = c.chance(8) ? 1 + c.below(2) : 0;
  for (auto & s : scans)
  {
    Cell cell;
    Pose2d p = s->getPose();
    sure = cell_of(Eigen::Vector2d(p.x, p.y), w.res, cell) && sure;
    for (auto & q : s->getPoints())
    {
      sure = cell_of(end_of(p, q), w.res, cell) && sure;
      if (!sure) return;
      OccupancyGrid one(w.res, 0.3);
      Scans alone = {make_scan(0, p, {q})};
      Msg m;
      one.getMsg(alone, m);
      int times = 1;
      if (heavy && c.chance(30))
      {
        --heavy;
        times = c.pick(std::vector<int>{256, 65536, 65537, 300, 65535, 255, 70000, 128, 32768});
        c.label("a measurement repeated often");
        repeated.emplace_back(s, q, times - 1);
      }
      for (auto & v : known(m, w.res)) (v.second == 100 ? count[v.first].first : count[v.first].second) += times;
      rays += times;
    }
  }
  for (auto & r : repeated)
  {
    auto pts = std::get<0>(r)->getPoints();
    pts.insert(pts.end(), std::get<2>(r), std::get<1>(r));
    std::get<0>(r)->setPoints(pts);
  }
  if (repeated.empty() && c.chance(60))
  {
    // any order
    for (size_t i = scans.size(); i > 1; --i) std::swap(scans[i - 1], scans[c.below(i)]);
    for (auto & s : scans)
    {
      auto p = s->getPoints();
      for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[c.below(i)]);
      s->setPoints(p);
    }
  }
  OccupancyGrid grid(w.res, w.thresh);
  Msg m;
  grid.getMsg(scans, m);
  check_shape(m, w.res);
  auto k = known(m, w.res);
  c.note << scans.size() << " scans, " << rays << " rays, " << count.size() << " cells touched";
  for (auto & v : count)
  {
    int h = v.second.first, f = v.second.second;
    both = both || (h && f);
    int expect = static_cast<double>(h) / static_cast<double>(h + f) > w.thresh ? 100 : 0;
    CHECK(k.count(v.first) && k[v.first] == expect, "cell " << show(v.first) << " with " << h << " hits and " << f << " misses is "
          << (k.count(v.first) ? std::to_string(k[v.first]) : "unknown"));
  }
  for (auto & v : k) CHECK(count.count(v.first), "cell " << show(v.first) << " is known, but no ray touched it");
  if (both) c.nontrivial();
}
