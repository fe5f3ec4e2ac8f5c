// C10: leaf count of the KD-tree
#include "common.hpp"
#include <array>
#include <ndt_2d/kd_tree.hpp>
using pbt::Case;

namespace
{
typedef std::array<long, 3> Bin;
struct Sizes { double x, y, t; };

Sizes sizes(Case & c)
{
  switch (c.weighted({3, 2, 3}))
  {
    case 0: return {0.5, 0.5, 0.2671};                 // the filter's
    case 1: return {1.0, 0.25, 0.5};
  }
  return {c.real(0.05, 2), c.real(0.05, 2), c.real(0.05, 1)};
}

// A position well inside a bin
Eigen::Vector3d inside(Case & c, const Bin & b, const Sizes & s)
{
  double f[3];
  for (double & x : f) x = c.chance(20) ? c.pick(std::vector<double>{1e-4, 1 - 1e-4}) : c.real(0.001, 0.999);
  return Eigen::Vector3d((b[0] + f[0]) * s.x, (b[1] + f[1]) * s.y, (b[2] + f[2]) * s.t);
}
Bin bin(Case & c, long spread, const Bin & centre)
{
  Bin b;
  for (int i = 0; i < 3; ++i) b[i] = centre[i] + c.range(0, 2 * spread) - spread;
  return b;
}
std::string show(const Bin & b)
{
  std::ostringstream o;
  o << b[0] << "," << b[1] << "," << b[2];
  return o.str();
}
}  // namespace

PBT_TEST(C10, leaves, 60000, 2000000, "up to 200 (sometimes 10000) insertions and clears, positions of both signs, often repeated bins and neighbours; "
         "non-trivial: at least 3 bins, one of them used twice, and a bin on both sides of zero on some axis")
{
  Sizes s = sizes(c);
  ndt_2d::KDTree<double> tree(s.x, s.y, s.t, c.below(4) * 50);
  std::set<Bin> expect;
  std::vector<Bin> history;
  long spread = c.pick(std::vector<long>{2, 1, 5, 40});
  Bin centre = {0, 0, 0};
  if (c.chance(30)) centre = {c.range(0, 2000) - 1000, c.range(0, 2000) - 1000, c.range(0, 40) - 20};
  bool large = c.rare(400);
  size_t n = large ? 500 + c.below(9500) : c.size(200);
  if (large) { spread = 40; c.label("large"); }
  bool twice = false;
  std::set<int> low, high;
  CHECK(tree.getLeafCount() == 0, "a new tree has leaves");
  for (size_t i = 0; i < n; ++i)
  {
    if (large ? c.rare(4000) : c.chance(2))
    {
      tree.clear();
      expect.clear();
      CHECK(tree.getLeafCount() == 0, "leaves after a clear");
      c.note << "clear ";
      c.label("clear");
      continue;
    }
    Bin b;
    if (!history.empty() && c.chance(30))
    {
      b = c.pick(history);
      if (c.chance(50)) { int a = c.below(3); b[a] += c.chance(50) ? 1 : -1; }
    }
    else b = bin(c, spread, centre);
    history.push_back(b);
    for (int a = 0; a < 3; ++a) (b[a] < 0 ? low : high).insert(a);
    Eigen::Vector3d p = inside(c, b, s), copy = p;
    double w = c.pick(std::vector<double>{1.0, 0.0, 1e-3, 5.0});
    double weight = w;
    tree.insert(p, weight);
    CHECK(p == copy && weight == w, "insertion changed its arguments");
    if (!expect.insert(b).second) twice = true;
    if (i < 12) c.note << show(b) << " ";
    CHECK(tree.getLeafCount() == expect.size(), "leaf count " << tree.getLeafCount() << " for " << expect.size()
          << " bins after inserting " << show(b) << " at (" << p(0) << ", " << p(1) << ", " << p(2) << ")");
  }
  bool both = false;
  for (int a = 0; a < 3; ++a) both = both || (low.count(a) && high.count(a));
  if (expect.size() >= 3 && twice && both) c.nontrivial();
}

PBT_TEST(C10, order, 20000, 500000, "the same positions inserted in two orders, the second time into a cleared tree with some repeated; non-trivial: at least 5 positions in at least 3 bins")
{
  Sizes s = sizes(c);
  ndt_2d::KDTree<double> tree(s.x, s.y, s.t, 10);
  std::vector<Eigen::Vector3d> p;
  std::set<Bin> bins;
  long spread = c.pick(std::vector<long>{2, 1, 6});
  for (size_t i = 0, n = c.size(60); i < n; ++i)
  {
    Bin b = bin(c, spread, {0, 0, 0});
    bins.insert(b);
    p.push_back(inside(c, b, s));
  }
  double w = 1;
  for (auto & q : p) tree.insert(q, w);
  size_t first = tree.getLeafCount();
  tree.clear();
  auto r = p;
  for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[c.below(i)]);
  for (auto & q : r)
  {
    tree.insert(q, w);
    if (c.chance(20)) tree.insert(q, w);
  }
  c.note << p.size() << " positions in " << bins.size() << " bins";
  CHECK(first == bins.size() && tree.getLeafCount() == bins.size(), "leaf counts " << first << " and, in another order, "
        << tree.getLeafCount() << " for " << bins.size() << " bins");
  if (p.size() >= 5 && bins.size() >= 3) c.nontrivial();
}
