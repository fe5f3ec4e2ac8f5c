// C05: barycenter, pose and points of a scan
#include "common.hpp"
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using pbt::Case;

PBT_TEST(C05, history, 150000, 5000000, "up to 40 random operations (set pose, set points, read pose, points, barycenter, id) on two scans, "
         "mirrored by a model; non-trivial: the barycenter was read after a change made after an earlier read, with points")
{
  struct Model { Pose2d pose; std::vector<Point> points; bool read = false, changed = false; };
  // ids of every size
  size_t ids[2] = {c.below(10), 0};
  ids[1] = c.chance(50) ? ids[0] + 1 : static_cast<size_t>(c.seed());
  Scan scans[2] = {Scan(ids[0]), Scan(ids[1])};
  Model m[2];
  size_t n = 1 + c.size(40);
  bool interesting = false;
  for (size_t k = 0; k < n; ++k)
  {
    int s = c.chance(25);
    Scan & scan = scans[s];
    Model & x = m[s];
    switch (c.weighted({4, 3, 5, 1, 1, 1, 1}))
    {
      case 0:
        {
          Pose2d p = x.pose;
          // all of the pose, or one component of it
          size_t what = c.below(5);
          if (what == 1) p.x = c.coord(100);
          else if (what == 2) p.y = c.coord(100);
          else if (what == 3) p.theta = c.angle();
          else p = gen::pose(c, 1000);
          scan.setPose(p);
          x.pose = p;
          x.changed = true;
          c.note << "p" << s << " ";
          break;
        }
      case 1:
        {
          std::vector<Point> pts;
          size_t count = c.weighted({30, 1}) ? c.below(3000) : c.size(40);
          double r = c.pick(std::vector<double>{10, 1, 100});
          if (c.chance(30) && !x.points.empty())
          {
            // the same points but for one, or a permutation
            pts = x.points;
            if (c.chance(50)) pts[c.below(pts.size())].x += 1;
            else pts.pop_back();
          }
          else for (size_t i = 0; i < count; ++i) pts.emplace_back(c.coord(r), c.coord(r));
          scan.setPoints(pts);
          x.points = pts;
          x.changed = true;
          c.note << "s" << s << ":" << pts.size() << " ";
          break;
        }
      case 2:
        {
          Pose2d b = scan.getBarycenterPose();
          ref::real sx = 0, sy = 0, big = fabsl(x.pose.x) + fabsl(x.pose.y) + 1;
          ref::real cs = cosl(x.pose.theta), sn = sinl(x.pose.theta);
          for (auto & p : x.points)
          {
            sx += p.x * cs - p.y * sn;
            sy += p.x * sn + p.y * cs;
            big = std::max(big, fabsl(p.x) + fabsl(p.y));
          }
          size_t np = x.points.size();
          ref::real wx = x.pose.x + (np ? sx / np : 0), wy = x.pose.y + (np ? sy / np : 0);
          double tol = 1e-14 * (20 + np) * static_cast<double>(big);
          CHECK_NEAR(b.x, static_cast<double>(wx), tol, "barycenter x of " << np << " points after " << k << " operations");
          CHECK_NEAR(b.y, static_cast<double>(wy), tol, "barycenter y of " << np << " points after " << k << " operations");
          CHECK_NEAR(b.theta, x.pose.theta, 0, "barycenter heading");
          if (x.read && x.changed && np) interesting = true;
          x.read = true;
          x.changed = false;
          c.note << "b" << s << " ";
          break;
        }
      case 3:
        {
          auto p = scan.getPoints();
          CHECK(p.size() == x.points.size(), "number of points");
          if (c.chance(50) && !p.empty()) p[0].x += 5;   // the copy is ours
          break;
        }
      case 4:
        {
          Pose2d p = scan.getPose();
          p.x += 1;
          break;
        }
      case 5:
        {
          CHECK(scan.getId() == ids[s], "id");
          break;
        }
      default:
        {
          // a copy is a scan of its own
          Scan copy = scan;
          copy.setPose(Pose2d(1, 2, 3));
          if (c.chance(50)) copy.getBarycenterPose();
        }
    }
    for (int t = 0; t < 2; ++t)
    {
      Pose2d p = scans[t].getPose();
      CHECK(p.x == m[t].pose.x && p.y == m[t].pose.y && p.theta == m[t].pose.theta, "pose of scan " << t << " is not the last one set");
      CHECK(scans[t].getId() == ids[t], "id of scan " << t);
    }
  }
  for (int t = 0; t < 2; ++t)
  {
    auto p = scans[t].getPoints();
    CHECK(p.size() == m[t].points.size(), "number of points of scan " << t);
    for (size_t i = 0; i < p.size(); ++i) CHECK(p[i].x == m[t].points[i].x && p[i].y == m[t].points[i].y, "point " << i);
  }
  if (interesting) c.nontrivial();
}
