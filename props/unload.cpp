// C39: the node goes away at any time, and others come or are there
#include "seen.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace node;

namespace
{
// In a process of its own, in which there never was a node before
struct Result
{
  size_t scans = 0, others = 0;
  Seen seen;
};
Result apart(const std::function<Result()> & f)
{
  int fd[2];
  if (pipe(fd)) pbt::fail("harness: pipe");
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) pbt::fail("harness: fork");
  if (pid == 0)
  {
    close(fd[0]);
    std::string out;
    try
    {
      Result r = f();
      out = std::to_string(r.scans) + " " + std::to_string(r.others) + "\n";
      for (auto & l : r.seen) out += l + "\n";
      out += "end\n";
    }
    catch (const std::exception & e) { out = std::string("!") + e.what(); }
    for (size_t i = 0; i < out.size(); )
    {
      ssize_t n = write(fd[1], out.data() + i, out.size() - i);
      if (n <= 0) break;
      i += static_cast<size_t>(n);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string in;
  char b[65536];
  for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0; ) in.append(b, static_cast<size_t>(n));
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  if (!in.empty() && in[0] == '!') pbt::fail(in.substr(1));
  CHECK(in.size() > 4 && in.compare(in.size() - 4, 4, "end\n") == 0, "the node crashed or hung, status " << status);
  Result r;
  std::istringstream i(in);
  i >> r.scans >> r.others;
  std::string l;
  std::getline(i, l);
  while (std::getline(i, l)) r.seen.push_back(l);
  return r;
}
}  // namespace

PBT_TEST(C39, unloaded, 3000, 100000, "histories of up to 25 scans, poses, waits and requests in all modes, threads interrupted anywhere and matching slow in some; then the node goes away while ROS is running, or after its end, and time passes; "
         "non-trivial: a map of two scans, and a loop closure, match or publication was under way or ahead")
{
  begin(c);
  bool filter;
  Config f = any_mode(c, filter);
  write_map(c, "start", 1 + c.below(5), 1, f.barycenter);
  script().closure_shift = 0.02;
  script().accept = c.pick(std::vector<unsigned>{100, 60});
  script().close = c.chance(30);
  script().pause = c.pick(std::vector<unsigned>{0, 50, 100});
  script().slow = c.chance(20) ? 30 : 0;
  auto todo = acts(c, 1 + c.size(25), f);
  unsigned percent = c.pick(std::vector<unsigned>{0, 10, 40});
  Sim s(f);
  c.note << f.show() << " interrupted " << percent << "%";
  if (percent) world::interrupt(c.seed(), percent);
  for (auto & a : todo)
  {
    c.note << "; " << describe(a);
    act(s, a);
  }
  world::interrupt(0, 0);
  size_t scans = s.map().scans.size();
  bool busy = world::pausing() || stub::now_ns() == rclcpp::Time(s.stamp).nanoseconds();
  if (percent) world::interrupt(c.seed(), percent);
  bool end = c.chance(15);
  c.note << (end ? "; ROS ends" : "; unloaded") << (busy ? " while busy" : "");
  if (end) world::stop();
  size_t closing = 0;
  for (auto & e : s.take_events()) closing += e.background;
  int64_t from = stub::now_ns();
  s.mapper.reset();
  double took = static_cast<double>(stub::now_ns() - from) * 1e-9;
  world::interrupt(0, 0);
  auto last = s.take_events();
  // A scan that is being matched against up to three places, each match taking 0.4 s, and the sleep; interruptions
  // come on top
  double limit = 1.0 + 0.4 * f.search_limit + 0.01;
  if (!percent) CHECK(took <= limit, "the node took " << took << " s to go away");
  else CHECK(took <= 60, "the node took " << took << " s to go away, interrupted");
  size_t sent = stub::tf_sent().size();
  auto files = stub::bags().size();
  world::advance(5);
  CHECK(stub::tf_sent().size() == sent, "a transform was broadcast after the node went away");
  CHECK(stub::bags().size() == files && s.take_events().empty(), "something went on after the node went away");
  if (scans >= 2 && busy) c.nontrivial();
  c.label(filter ? "filter" : f.mapping ? "mapping" : "localising");
  c.label(end ? "after the end of ROS" : "ROS running");
  if (!last.empty()) c.label("closing a loop at that time");
}

PBT_TEST(C39, successor, 1200, 40000, "two histories as above, without interruptions, the second on a node that is made after the first one's went away at any moment; compared bit by bit with the same history on the first node of the process; "
         "non-trivial: both had maps of two scans")
{
  begin(c);
  bool filter, filter0;
  Config f0 = any_mode(c, filter0), f = any_mode(c, filter);
  uint64_t seed = c.seed(), salt = script().salt;
  unsigned accept = c.pick(std::vector<unsigned>{100, 60});
  bool close = c.chance(40);
  write_map(c, "start", 1 + c.below(5), 1, f.barycenter);
  auto files = stub::bags();
  auto first = acts(c, 1 + c.size(20), f0), second = acts(c, 2 + c.size(20), f);
  bool slow = c.chance(50);
  bool stopped = c.chance(20);
  Pose2d at = gen::pose(c, 5);
  auto run = [&](bool before) {
      Result r;
      world::reset(seed);
      script().salt = salt;
      script().closure_shift = 0.02;
      script().accept = accept;
      script().close = close;
      stub::bags() = files;
      if (before)
      {
        {
          Sim s(f0);
          script().pause = slow ? 70 : 0;
          for (auto & a : first) act(s, a);
          r.others = s.map().scans.size();
          if (stopped) world::stop();
          s.mapper.reset();
        }
        world::reset(seed);
        script().events.clear();
        stub::bags() = files;
      }
      script().pause = 0;
      Sim s(f);
      s.odom = at;
      for (auto & a : second) act(s, a);
      s.advance(1.3);
      r.scans = s.map().scans.size();
      r.seen = look(s);
      return r;
    };
  c.note << f0.show();
  for (auto & a : first) c.note << "; " << describe(a);
  c.note << (stopped ? "; ROS ends" : "; unloaded") << "; then " << f.show();
  for (auto & a : second) c.note << "; " << describe(a);
  Result alone = apart([&] {return run(false);}), later = apart([&] {return run(true);});
  check_seen(alone.seen, later.seen, "a node after another one");
  if (later.others >= 2 && later.scans >= 2) c.nontrivial();
  c.label(filter ? "filter" : f.mapping ? "mapping" : "localising");
}

PBT_TEST(C39, neighbour, 1200, 40000, "two nodes with own parameters, robots and frames side by side in one process, each with a history as above, in any interleaving; one of them compared bit by bit with the same history at the same times without the other; "
         "non-trivial: both had maps of two scans, at least four changes between them")
{
  begin(c);
  bool filter, filter2;
  Config f = any_mode(c, filter, false), f2 = any_mode(c, filter2, false);    // (random devices are shared)
  f.robot = "base_link";
  f.odom = "odom";
  f2.robot = "other/base_link";
  f2.odom = "other/odom";
  uint64_t seed = c.seed(), salt = script().salt;
  unsigned accept = c.pick(std::vector<unsigned>{100, 60});
  bool close = c.chance(40);
  write_map(c, "start", 1 + c.below(5), 1, f.barycenter);
  auto files = stub::bags();
  auto mine = acts(c, 2 + c.size(20), f), yours = acts(c, 2 + c.size(20), f2);
  std::vector<bool> turn;
  size_t i = 0, j = 0, changes = 0;
  while (i < mine.size() || j < yours.size())
  {
    bool t = i < mine.size() && (j == yours.size() || c.chance(50));
    if (!turn.empty() && turn.back() != t) ++changes;
    turn.push_back(t);
    ++(t ? i : j);
  }
  size_t leaves = c.chance(30) ? c.below(turn.size()) : turn.size();
  Pose2d at = gen::pose(c, 5), at2 = gen::pose(c, 5);
  auto run = [&](bool with) {
      Result r;
      world::reset(seed);
      script().salt = salt;
      script().closure_shift = 0.02;
      script().accept = accept;
      script().close = close;
      stub::bags() = files;
      Sim s(f);
      std::unique_ptr<Sim> other;
      if (with) other.reset(new Sim(f2));
      s.odom = at;
      if (other)
      {
        other->laser_frame = "other/laser";
        other->odom = at2;
      }
      Sim * there = other.get();
      stub::tf_lookup() = [&s, &there](const std::string & t, const std::string & f, int64_t ns, geometry_msgs::msg::Transform & out) {
          return s.lookup(t, f, ns, out) || (there && there->lookup(t, f, ns, out));
        };
      size_t m = 0, y = 0;
      for (size_t k = 0; k < turn.size(); ++k)
      {
        if (k == leaves)
        {
          // (the same time passes without it)
          world::advance(0.5);
          int64_t t = stub::now_ns() + 4000000000LL;
          if (there)
          {
            r.others = there->map().scans.size();
            there->mapper.reset();
            there = nullptr;
          }
          CHECK(stub::now_ns() <= t, "the other node took more than 4 s to go away");
          world::advance(1e-9 * (static_cast<double>(t - stub::now_ns()) + 0.5));
          CHECK(stub::now_ns() == t, "harness: time");
        }
        const Act & a = turn[k] ? mine[m++] : yours[y++];
        if (a.kind == 1) world::advance(a.seconds);
        else if (turn[k]) act(s, a);
        else if (there) act(*there, a);
      }
      world::advance(1.3);
      r.scans = s.map().scans.size();
      r.seen = look(s);
      if (there) r.others = there->map().scans.size();
      world::stop();
      return r;
    };
  c.note << f.show() << " beside " << f2.show();
  i = j = 0;
  for (size_t k = 0; k < turn.size(); ++k)
  {
    if (k == leaves) c.note << "; the other one goes";
    c.note << (turn[k] ? "; " : "; other ") << describe(turn[k] ? mine[i++] : yours[j++]);
  }
  Result alone = apart([&] {return run(false);}), beside = apart([&] {return run(true);});
  check_seen(alone.seen, beside.seen, "a node beside another one");
  if (beside.scans >= 2 && beside.others >= 2 && changes >= 4) c.nontrivial();
  c.label(f.mapping ? "mapping" : "localising");
}
