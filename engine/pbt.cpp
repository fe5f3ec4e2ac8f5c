#include "pbt.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>

namespace pbt
{
std::vector<Test> & tests()
{
  static std::vector<Test> t;
  return t;
}

static uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t Case::next()
{
  state_ += 0x9e3779b97f4a7c15ull;
  return mix(state_);
}

uint64_t Case::below(uint64_t bound)
{
  size_t i = rec_->count;
  if (i >= TapeBuffer::capacity) throw Discard();
  uint64_t v;
  if (given_) v = i < given_->size() ? (*given_)[i] : 0;
  else v = next();
  v = bound ? v % bound : 0;
  rec_->value[i] = v;
  rec_->count = i + 1;
  return v;
}

double Case::coord(double m)
{
  switch (below(8))
  {
    case 0: return 0.0;
    case 1: return (static_cast<int64_t>(below(9)) - 4) * m / 4.0;
    case 2: return std::max(-m, std::min(m, (static_cast<int64_t>(below(81)) - 40) * 0.25));
    case 3: return std::max(-m, std::min(m, (static_cast<int64_t>(below(2001)) - 1000) * 0.05));
    default: return real(-m, m);
  }
}

double Case::angle()
{
  static const double special[] = {0.0, M_PI / 2, -M_PI / 2, M_PI, -M_PI, M_PI / 4, 1e-9, -1e-9,
                                   M_PI - 1e-6, -M_PI + 1e-6, 2 * M_PI, -2 * M_PI, 3 * M_PI / 4};
  switch (below(8))
  {
    case 0: return 0.0;
    case 1: return special[below(sizeof special / sizeof *special)];
    case 2: return real(-4 * M_PI, 4 * M_PI);
    default: return real(-M_PI, M_PI);
  }
}

double Case::heading()
{
  switch (below(8))
  {
    case 0: return 0.0;
    case 1: return (static_cast<int64_t>(below(8)) - 4) * M_PI / 4;
    case 2: return M_PI - real(1e-6, 0.05);
    case 3: return -M_PI + real(1e-6, 0.05);
    default: return real(-M_PI, M_PI);
  }
}

size_t Case::size(size_t max)
{
  switch (below(8))
  {
    case 0: case 1: case 2: return below(std::min<size_t>(max, 3) + 1);
    case 3: case 4: case 5: return below(std::min<size_t>(max, 12) + 1);
    case 6: return below(std::min<size_t>(max, 60) + 1);
    default: return below(max + 1);
  }
}

size_t Case::weighted(std::initializer_list<unsigned> w)
{
  unsigned total = 0;
  for (auto x : w) total += x;
  uint64_t v = below(total);
  size_t i = 0;
  for (auto x : w)
  {
    if (v < x) return i;
    v -= x;
    ++i;
  }
  return 0;
}

uint64_t Case::hash() const
{
  uint64_t h = rec_->count;
  for (size_t i = 0; i < rec_->count; ++i) h = mix(h ^ rec_->value[i]) + h * 31;
  return h;
}
}  // namespace pbt

#ifndef PBT_LIBFUZZER
using namespace pbt;

namespace
{
struct Shared
{
  volatile long case_index;       // being run; -1: none
  volatile double case_start;     // wall clock, for the watchdog only
  volatile int failed;            // 1: this worker stopped at case_index
  volatile int nontrivial;        // of a case that runs in a process of its own
  uint64_t hash;
  char labels[2048];
  char message[4096];
  char note[8192];
  TapeBuffer tape;
};

constexpr int kCaseCpuSeconds = 60;    // a case takes milliseconds; this is "does not end"
constexpr int kCaseWallSeconds = 200;  // blocked for good (a deadlock)

volatile sig_atomic_t g_stop = 0;

double wall()
{
  timeval t;
  gettimeofday(&t, nullptr);
  return t.tv_sec + t.tv_usec * 1e-6;
}

Shared * shared_page()
{
  void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<Shared *>(p);
}

uint64_t case_seed(uint64_t seed, const Test & t, long i)
{
  uint64_t h = mix(seed);
  for (char ch : t.property + "/" + t.name) h = mix(h ^ static_cast<unsigned char>(ch));
  return mix(h ^ static_cast<uint64_t>(i));
}

void copy_text(char * dst, size_t n, const std::string & s)
{
  strncpy(dst, s.c_str(), n - 1);
  dst[n - 1] = 0;
}

void cpu_timer(int seconds)
{
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

// Runs one case in this process. 0: held. 1: failed. 2: discarded.
int run_here(const Test & t, Case & c, Shared * sh)
{
  try
  {
    t.run(c);
    return 0;
  }
  catch (const Discard &)
  {
    return 2;
  }
  catch (const Failure & f)
  {
    copy_text(sh->message, sizeof sh->message, f.what());
  }
  catch (const std::exception & e)
  {
    copy_text(sh->message, sizeof sh->message, std::string("exception: ") + e.what());
  }
  catch (...)
  {
    copy_text(sh->message, sizeof sh->message, "unknown exception");
  }
  copy_text(sh->note, sizeof sh->note, c.note.str());
  return 1;
}

std::string describe_status(int status)
{
  if (WIFSIGNALED(status))
  {
    int s = WTERMSIG(status);
    if (s == SIGPROF) return "the case does not end (60 s of CPU time)";
    if (s == SIGKILL || s == SIGALRM) return "the case does not end (blocked)";
    return std::string("crash: ") + strsignal(s);
  }
  return "crash: exit code " + std::to_string(WEXITSTATUS(status)) + " (sanitizer report or abort)";
}

// Runs a tape in a child. True if the case fails; message and the canonical tape are in sh.
bool tape_fails(const Test & t, const std::vector<uint64_t> & tape, Shared * sh, bool quiet)
{
  sh->message[0] = sh->note[0] = 0;
  sh->tape.count = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    if (quiet)
    {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      dup2(fd, 2);
    }
    cpu_timer(kCaseCpuSeconds);
    Case c(&sh->tape, tape);
    int r = run_here(t, c, sh);
    _exit(r == 1 ? 10 : 0);
  }
  double start = wall();
  int status;
  while (waitpid(pid, &status, WNOHANG) == 0)
  {
    if (wall() - start > kCaseWallSeconds) kill(pid, SIGKILL);
    usleep(500);
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return false;
  if (!(WIFEXITED(status) && WEXITSTATUS(status) == 10))
    copy_text(sh->message, sizeof sh->message, describe_status(status));
  return true;
}

// Cases of a random search, one after the other in one child: what one leaves behind in the code under test may
// be what makes another one fail
struct Sequence
{
  uint64_t seed;
  long first, step, last;
};
bool sequence_fails(const Test & t, const Sequence & q, Shared * sh, bool quiet)
{
  sh->message[0] = sh->note[0] = 0;
  sh->tape.count = 0;
  sh->case_start = wall();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    if (quiet)
    {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      dup2(fd, 2);
    }
    for (long i = q.first; i <= q.last; i += q.step)
    {
      sh->case_start = wall();
      cpu_timer(kCaseCpuSeconds);
      Case c(&sh->tape, case_seed(q.seed, t, i));
      if (run_here(t, c, sh) == 1) _exit(10);
    }
    _exit(0);
  }
  int status;
  while (waitpid(pid, &status, WNOHANG) == 0)
  {
    if (wall() - sh->case_start > kCaseWallSeconds) kill(pid, SIGKILL);
    usleep(500);
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return false;
  if (!(WIFEXITED(status) && WEXITSTATUS(status) == 10))
    copy_text(sh->message, sizeof sh->message, describe_status(status));
  return true;
}

std::vector<uint64_t> shrink(const Test & t, std::vector<uint64_t> best, Shared * sh, double seconds)
{
  double end = wall() + seconds;
  int tries = 0;
  auto attempt = [&](const std::vector<uint64_t> & cand) {
      if (wall() > end || tries > 3000) return false;
      ++tries;
      if (!tape_fails(t, cand, sh, true)) return false;
      std::vector<uint64_t> got(sh->tape.value, sh->tape.value + sh->tape.count);
      best = got.size() <= cand.size() ? got : cand;
      return true;
    };
  bool progress = true;
  while (progress && wall() < end)
  {
    progress = false;
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2)
    {
      for (size_t i = 0; i + len <= best.size() && wall() < end;)
      {
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        size_t before = best.size();
        if (cand.size() < best.size() && attempt(cand) && best.size() < before) progress = true;
        else i += len;
      }
      if (len == 1) break;
    }
    for (size_t len = std::min<size_t>(best.size(), 64); len >= 1; len /= 2)
    {
      for (size_t i = 0; i + len <= best.size() && wall() < end; i += len)
      {
        bool zero = true;
        for (size_t k = i; k < i + len; ++k) zero = zero && best[k] == 0;
        if (zero) continue;
        auto cand = best;
        std::fill(cand.begin() + i, cand.begin() + i + len, 0);
        if (attempt(cand)) progress = true;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && wall() < end; ++i)
    {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && wall() < end)
      {
        uint64_t mid = lo + (best[i] - lo) / 2;
        auto cand = best;
        cand[i] = mid;
        uint64_t was = best[i];
        if (attempt(cand) && i < best.size() && best[i] < was) progress = true;
        else lo = mid + 1;
      }
    }
  }
  return best;
}

std::string json_escape(const std::string & s)
{
  std::string o;
  for (unsigned char ch : s)
  {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += '?';
    else o += ch;
  }
  return o;
}

struct Result
{
  long evaluations = 0, discarded = 0, nontrivial = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
};

void merge(const std::string & path, Result & r)
{
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line))
  {
    if (line.size() < 2) continue;
    std::string rest = line.substr(2);
    switch (line[0])
    {
      case 'E': r.evaluations += atol(rest.c_str()); break;
      case 'D': r.discarded += atol(rest.c_str()); break;
      case 'N': r.nontrivial += atol(rest.c_str()); break;
      case 'H': r.distinct.insert(strtoull(rest.c_str(), nullptr, 16)); break;
      case 'L':
        {
          auto sp = rest.find(' ');
          r.labels[rest.substr(sp + 1)] += atol(rest.c_str());
          break;
        }
      case 'S': r.samples.push_back(rest); break;
    }
  }
}

// Worker w of n: the cases w, w + n, w + 2n, ...
[[noreturn]] void worker(const Test & t, uint64_t seed, long cases, int w, int n, Shared * sh,
                         const std::string & out, double deadline)
{
  Result r;
  const bool isolated = getenv("PBT_ISOLATED");
  for (long i = w; i < cases; i += n)
  {
    if (wall() > deadline) break;
    sh->case_start = wall();
    sh->case_index = i;
    Case c(&sh->tape, case_seed(seed, t, i));
    int k;
    if (isolated)
    {
      int status;
      pid_t pid = fork();
      if (pid == 0)
      {
        alarm(kCaseWallSeconds - 50);
        cpu_timer(kCaseCpuSeconds);
        int e = run_here(t, c, sh);
        if (e == 0)
        {
          sh->nontrivial = c.is_nontrivial();
          sh->hash = c.hash();
          std::string names;
          for (auto & l : c.labels()) names += l.first + "\n";
          copy_text(sh->labels, sizeof sh->labels, names);
          copy_text(sh->note, sizeof sh->note, c.note.str());
        }
        _exit(e == 0 ? 0 : 10 + e);
      }
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) k = 0;
      else if (WIFEXITED(status) && WEXITSTATUS(status) == 12) k = 2;
      else
      {
        k = 1;
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 11)) copy_text(sh->message, sizeof sh->message, describe_status(status));
      }
    }
    else
    {
      cpu_timer(kCaseCpuSeconds);
      k = run_here(t, c, sh);
    }
    if (k == 1)
    {
      sh->failed = 1;
      break;
    }
    ++r.evaluations;
    if (isolated && k == 0)
    {
      std::istringstream names(sh->labels);
      std::string l;
      while (std::getline(names, l)) ++r.labels[l];
      if (sh->nontrivial)
      {
        ++r.nontrivial;
        r.distinct.insert(sh->hash);
        if (r.samples.size() < 2)
        {
          std::string s = std::string(sh->note).substr(0, 700);
          std::replace(s.begin(), s.end(), '\n', ';');
          r.samples.push_back(s);
        }
      }
      continue;
    }
    if (k == 2) ++r.discarded;
    else
    {
      for (auto & l : c.labels()) ++r.labels[l.first];
      if (c.is_nontrivial())
      {
        ++r.nontrivial;
        if (r.distinct.size() < 200000) r.distinct.insert(c.hash());
        if (r.samples.size() < 2)
        {
          std::string s = c.note.str();
          if (s.size() > 700) s = s.substr(0, 700) + " ...";
          std::replace(s.begin(), s.end(), '\n', ';');
          r.samples.push_back(s);
        }
      }
    }
  }
  cpu_timer(0);
  std::ofstream f(out);
  f << "E " << r.evaluations << "\nD " << r.discarded << "\nN " << r.nontrivial << "\n";
  for (auto & l : r.labels) f << "L " << l.second << " " << l.first << "\n";
  for (auto & s : r.samples) f << "S " << s << "\n";
  f << std::hex;
  for (auto h : r.distinct) f << "H " << h << "\n";
  f.flush();
  f.close();
  if (!sh->failed) sh->case_index = -1;
  _exit(sh->failed ? 10 : 0);
}

// Runs all cases of a test. True if all held; otherwise `tape` fails.
bool search(const Test & t, uint64_t seed, long cases, int jobs, double deadline, Result & r,
            std::vector<uint64_t> & tape, std::string & how, Sequence & where)
{
  char dir[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(dir)) { perror("mkdtemp"); exit(2); }
  jobs = static_cast<int>(std::min<long>(jobs, std::max<long>(1, cases)));
  std::vector<Shared *> sh(jobs);
  std::vector<pid_t> pid(jobs);
  std::vector<int> status(jobs, -1);
  fflush(nullptr);
  for (int w = 0; w < jobs; ++w)
  {
    sh[w] = shared_page();
    sh[w]->case_index = -1;
    sh[w]->case_start = wall();
    pid[w] = fork();
    if (pid[w] == 0)
    {
      int fd = open((std::string(dir) + "/log" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1);
      dup2(fd, 2);
      worker(t, seed, cases, w, jobs, sh[w], std::string(dir) + "/out" + std::to_string(w), deadline);
    }
  }
  int running = jobs;
  long bad = -1;
  int bad_worker = -1;
  while (running > 0)
  {
    for (int w = 0; w < jobs; ++w)
    {
      if (status[w] != -1) continue;
      int s;
      if (waitpid(pid[w], &s, WNOHANG) == pid[w])
      {
        status[w] = s;
        --running;
        if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0))
        {
          long i = sh[w]->case_index;
          if (i >= 0 && (bad < 0 || i < bad)) { bad = i; bad_worker = w; }
          if (i < 0) { std::cerr << "worker ended outside a case: " << describe_status(s) << "\n"; exit(2); }
        }
      }
      else if (wall() - sh[w]->case_start > kCaseWallSeconds)
      {
        kill(pid[w], SIGKILL);
        sh[w]->case_start = wall();
      }
    }
    if (bad >= 0)
    {
      // Do not run the rest
      for (int w = 0; w < jobs; ++w)
        if (status[w] == -1) { kill(pid[w], SIGKILL); waitpid(pid[w], &status[w], 0); --running; }
      break;
    }
    usleep(2000);
  }
  for (int w = 0; w < jobs; ++w) merge(std::string(dir) + "/out" + std::to_string(w), r);
  bool held = bad < 0;
  if (!held)
  {
    Shared * s = sh[bad_worker];
    where = Sequence{seed, bad_worker, jobs, bad};
    how = s->failed ? std::string(s->message) : describe_status(status[bad_worker]);
    tape.assign(s->tape.value, s->tape.value + s->tape.count);
    std::ifstream log(std::string(dir) + "/log" + std::to_string(bad_worker));
    std::string line;
    int n = 0;
    while (std::getline(log, line) && n++ < 40) std::cerr << line << "\n";
  }
  for (int w = 0; w < jobs; ++w)
  {
    unlink((std::string(dir) + "/out" + std::to_string(w)).c_str());
    unlink((std::string(dir) + "/log" + std::to_string(w)).c_str());
    munmap(sh[w], sizeof(Shared));
  }
  rmdir(dir);
  return held;
}

std::vector<uint64_t> read_replay(const std::string & path, std::string & test, Sequence & q)
{
  std::ifstream f(path);
  if (!f) { std::cerr << "cannot read " << path << "\n"; exit(2); }
  std::vector<uint64_t> tape;
  std::string line;
  while (std::getline(f, line))
  {
    if (line.rfind("test ", 0) == 0) test = line.substr(5);
    else if (line.rfind("sequence ", 0) == 0)
    {
      std::istringstream s(line.substr(9));
      s >> q.seed >> q.first >> q.step >> q.last;
    }
    else if (line.rfind("tape ", 0) == 0)
    {
      std::istringstream s(line.substr(5));
      uint64_t v;
      while (s >> v) tape.push_back(v);
    }
  }
  return tape;
}
}  // namespace

int main(int argc, char ** argv)
{
  std::string property, tier = "quick", results, replay_dir = "/tmp", replay, only, fixed_dir;
  uint64_t seed = 1;
  int jobs = 8;
  double budget = 600, scale = 1;
  bool show = false;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&] {if (++i >= argc) { std::cerr << "missing value\n"; exit(2); } return std::string(argv[i]);};
    if (a == "--property") property = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--results") results = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--regressions") fixed_dir = val();
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--only") only = val();
    else if (a == "--show") show = true;
    else { std::cerr << "unknown option " << a << "\n"; return 2; }
  }
  if (!replay.empty())
  {
    std::string name;
    Sequence q{0, 0, 1, -1};
    auto tape = read_replay(replay, name, q);
    for (auto & t : tests())
    {
      if (t.property + "/" + t.name != name) continue;
      Shared * sh = shared_page();
      bool bad = q.last >= 0 ? sequence_fails(t, q, sh, false) : tape_fails(t, tape, sh, false);
      std::cout << name << ": " << (bad ? std::string("FAILS: ") + sh->message : std::string("holds")) << "\n" << sh->note << "\n";
      return bad ? 1 : 0;
    }
    std::cerr << "no test " << name << "\n";
    return 2;
  }

  double start = wall();
  std::ostringstream js;
  js << "{\"tests\": [";
  bool first = true, violated = false;
  std::string where;
  double deadline = start + budget;
  for (auto & t : tests())
  {
    if (t.property != property || (!only.empty() && t.name != only)) continue;
    std::vector<uint64_t> tape;
    std::string how;
    Result r;
    bool held = true;
    long replayed = 0;

    // Saved inputs first: counterexamples of earlier defects, replayed without any search
    if (!fixed_dir.empty())
    {
      std::vector<std::string> files;
      if (DIR * d = opendir(fixed_dir.c_str()))
      {
        while (dirent * e = readdir(d))
        {
          std::string n = e->d_name;
          if (n.rfind(t.property + "-" + t.name + "-", 0) == 0) files.push_back(fixed_dir + "/" + n);
        }
        closedir(d);
      }
      std::sort(files.begin(), files.end());
      Shared * sh = shared_page();
      for (auto & f : files)
      {
        std::string name;
        Sequence unused;
        auto saved = read_replay(f, name, unused);
        ++replayed;
        if (tape_fails(t, saved, sh, false)) { held = false; tape = saved; how = sh->message; break; }
      }
      munmap(sh, sizeof(Shared));
    }

    Sequence found{0, 0, 1, -1};
    long cases = static_cast<long>((tier == "thorough" ? t.thorough : t.quick) * scale);
    if (held && cases > 0) held = search(t, seed, cases, jobs, deadline, r, tape, how, found);
    bool out_of_time = held && r.evaluations < cases;
    if (!held)
    {
      Shared * sh = shared_page();
      std::cerr << t.property << "/" << t.name << ": " << how << " (" << tape.size() << " choices); shrinking\n";
      std::string path = replay_dir + "/" + t.property + "-" + t.name + "-" + std::to_string(seed) + ".replay";
      // A failure counts when its tape fails again
      // (one that does not end takes minutes each time: once is enough)
      bool endless = how.find("does not end") != std::string::npos;
      int again = 0, runs = 0;
      if (endless)
      {
        runs = 1;
        again = 2 * tape_fails(t, tape, sh, true);
      }
      while (!endless && (runs < 3 || (again > 0 && again < 3 && runs < 10))) { ++runs; again += tape_fails(t, tape, sh, true); }
      if (again >= 2)
      {
        if (endless) {}
        else if (again == runs)
        {
          auto small = shrink(t, tape, sh, 40);
          int of = 0;
          for (int k = 0; k < 3; ++k) of += tape_fails(t, small, sh, true);
          if (of == 3) tape = small;
        }
        else std::cerr << "fails in " << again << " of " << runs << " runs\n";
        for (int k = 0; k < 10 && !endless && !tape_fails(t, tape, sh, false); ++k) {}
        std::ofstream f(path);
        f << "test " << t.property << "/" << t.name << "\n";
        f << "message " << sh->message << "\n";
        f << "tape";
        for (auto v : tape) f << " " << v;
        f << "\ncase\n" << sh->note << "\n";
        f.close();
        std::cerr << "minimal case (" << tape.size() << " choices): " << sh->message << "\n" << sh->note << "\n";
        violated = true;
        where = path;
      }
      else
      {
        // Or when it fails again after the cases before it
        Sequence q = found;
        bool fails = false;
        for (long n = endless ? found.last : 1; q.last >= 0; n *= 2)
        {
          q.first = std::max(found.first, found.last - (n - 1) * found.step);
          int of = sequence_fails(t, q, sh, true);
          if (of && (endless || sequence_fails(t, q, sh, true))) { fails = true; break; }
          if (q.first <= found.first) break;
        }
        if (!fails)
        {
          std::cerr << "ERROR: not reproducible\n";
          return 2;
        }
        if (!endless) sequence_fails(t, q, sh, false);
        std::ofstream f(path);
        f << "test " << t.property << "/" << t.name << "\n";
        f << "message " << sh->message << "\n";
        f << "sequence " << q.seed << " " << q.first << " " << q.step << " " << q.last << "\n";
        f << "case\n(the last one of " << (q.last - q.first) / q.step + 1 << " cases in one process)\n" << sh->note << "\n";
        f.close();
        std::cerr << "minimal sequence (" << (q.last - q.first) / q.step + 1 << " cases): " << sh->message << "\n" << sh->note << "\n";
        violated = true;
        where = path;
      }
    }
    double now = wall();
    if (!first) js << ",";
    first = false;
    js << "\n {\"test\": \"" << t.name << "\", \"cases\": " << r.evaluations << ", \"planned\": " << cases
       << ", \"nontrivial\": " << r.nontrivial << ", \"distinct\": " << r.distinct.size()
       << ", \"discarded\": " << r.discarded << ", \"saved_inputs_replayed\": " << replayed
       << ", \"stopped_by_time\": " << (out_of_time ? "true" : "false")
       << ", \"held\": " << (held ? "true" : "false") << ", \"rule\": \"" << json_escape(t.rule)
       << "\", \"labels\": {";
    bool f2 = true;
    for (auto & l : r.labels) { js << (f2 ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second; f2 = false; }
    js << "}, \"samples\": [";
    f2 = true;
    for (size_t k = 0; k < r.samples.size() && k < 3; ++k)
    {
      js << (f2 ? "" : ", ") << "\"" << json_escape(r.samples[k]) << "\"";
      f2 = false;
    }
    js << "], \"wall_s\": " << (now - start) << "}";
    std::cout << t.property << "/" << t.name << ": " << r.evaluations << " cases, " << r.nontrivial
              << " non-trivial, " << (held ? "held" : "FAILED") << "\n";
    if (show) for (auto & l : r.labels) std::cout << "    " << l.first << ": " << l.second << "\n";
    if (violated) break;
  }
  js << "\n], \"violated\": " << (violated ? "true" : "false") << ", \"replay\": \"" << json_escape(where) << "\"}\n";
  if (!results.empty())
  {
    std::ofstream f(results);
    f << js.str();
  }
  return violated ? 1 : 0;
}
#endif
