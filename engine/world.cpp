#include "world.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <climits>
#include <mutex>
#include <random>
#include <vector>
#include <cstdlib>

#include <pluginlib/class_loader.hpp>
#include <rclcpp/rclcpp.hpp>
#include <stub/bags.hpp>
#include <stub/time.hpp>
#include <tf2_ros/buffer.h>

// (This file is never compiled with ThreadSanitizer and does not use what that one sees: the way in which
// threads are scheduled here does not order their accesses to memory.)
namespace
{
// A lock and a condition variable that no sanitizer knows of
class Lock
{
public:
  void lock()
  {
    int v = 0;
    if (word_.compare_exchange_strong(v, 1)) return;
    if (v != 2) v = word_.exchange(2);
    while (v != 0)
    {
      syscall(SYS_futex, &word_, FUTEX_WAIT_PRIVATE, 2, nullptr, nullptr, 0);
      v = word_.exchange(2);
    }
  }
  void unlock()
  {
    if (word_.exchange(0) == 2) syscall(SYS_futex, &word_, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }

private:
  std::atomic<int> word_{0};
};
class Condition
{
public:
  void notify_all()
  {
    ++word_;
    syscall(SYS_futex, &word_, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
  }
  // False: nothing happened for `seconds`
  template <class P>
  bool wait(std::unique_lock<Lock> & lock, double seconds, P done)
  {
    timespec start;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &start);
    while (!done())
    {
      timespec t;
      syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
      double left = seconds - static_cast<double>(t.tv_sec - start.tv_sec) - 1e-9 * static_cast<double>(t.tv_nsec - start.tv_nsec);
      if (seconds > 0 && left <= 0) return false;
      timespec w{static_cast<time_t>(left), static_cast<long>((left - static_cast<double>(static_cast<time_t>(left))) * 1e9)};
      int seen = word_;
      lock.unlock();
      syscall(SYS_futex, &word_, FUTEX_WAIT_PRIVATE, seen, seconds > 0 ? &w : nullptr, nullptr, 0);
      lock.lock();
    }
    return true;
  }

private:
  std::atomic<int> word_{0};
};

struct Parked
{
  unsigned number;                   // of the thread
  int64_t wake;
  bool released;
  bool pausing;
  bool locking;                      // waits for a mutex
  const void * condition;            // waits to be notified
};
constexpr int64_t kNever = INT64_MAX;
Lock g_mutex;
Condition g_parked_cv, g_release_cv;
// (No memory is moved or allocated, which sanitizers see)
class ParkedList
{
public:
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  Parked * operator[](size_t i) const { return p_[i]; }
  Parked * back() const { return p_[n_ - 1]; }
  Parked * const * begin() const { return p_; }
  Parked * const * end() const { return p_ + n_; }
  void add(Parked * p)
  {
    if (n_ == kMost) abort();
    p_[n_++] = p;
  }
  void remove(const Parked * p)
  {
    size_t i = 0;
    while (p_[i] != p) ++i;
    for (--n_; i < n_; ++i) const_cast<Parked * volatile *>(p_)[i] = p_[i + 1];   // (not a memmove)
  }

private:
  static constexpr size_t kMost = 256;
  Parked * p_[kMost];
  size_t n_ = 0;
};
ParkedList g_parked;
size_t g_threads = 0;                // that are running or parked, besides the main thread
int64_t g_now = 0;
bool g_stopped = false;
bool g_main_blocked = false;         // the main thread waits for a lock
uint64_t g_random = 0, g_interrupt = 0;
unsigned g_percent = 0;              // of interruptions
unsigned g_interruptions = 0;
bool g_interrupted = false;          // the main thread is
unsigned g_started = 0;
struct Thread { pthread_t handle; unsigned number; bool ended; };
Thread g_all[256];                   // threads that were not joined
size_t g_all_n = 0;
thread_local unsigned t_number = 0;  // of a thread of the code under test, until it ends; others have 0

bool is_main()
{
  static thread_local int main = -1;
  static thread_local pid_t pid = -1;
  if (main < 0 || pid != getpid())
  {
    pid = getpid();
    main = syscall(SYS_gettid) == pid;
  }
  return main;
}

// Called by background threads
void park(int64_t wake, bool pausing = false, bool locking = false)
{
  std::unique_lock<Lock> lock(g_mutex);
  if (g_stopped && !locking)
  {
    g_now = std::max(g_now, wake);
    return;
  }
  if (pausing && g_main_blocked) return;
  Parked p{t_number, wake, false, pausing, locking, nullptr};
  g_parked.add(&p);
  g_parked_cv.notify_all();
  if (!pausing)
  {
    g_release_cv.wait(lock, 0, [&] {return p.released;});
  }
  else if (!g_release_cv.wait(lock, 10, [&] {return p.released;}))
  {
    // The main thread waits for something this thread holds that is not a mutex
    g_parked.remove(&p);
  }
}

void wait_all_parked(std::unique_lock<Lock> & lock)
{
  g_parked_cv.wait(lock, 0, [] {return g_parked.size() >= g_threads;});
}

void release(Parked * p)
{
  g_parked.remove(p);
  p->released = true;
  g_release_cv.notify_all();
}

// The next thread that wakes up by `target` runs until it stops again. False: there is none
bool step(std::unique_lock<Lock> & lock, int64_t target)
{
  Parked * next = nullptr;
  for (auto p : g_parked)
  {
    if (p->wake <= target && p->wake != kNever && (!next || p->wake < next->wake || (p->wake == next->wake && p->number < next->number)))
    {
      next = p;
    }
  }
  if (!next) return false;
  g_now = std::max(g_now, next->wake);
  release(next);
  wait_all_parked(lock);
  return true;
}

int sleep_until(int64_t wake)
{
  park(wake);
  return 0;
}
}  // namespace

namespace world
{
namespace
{
int64_t g_begin = 1000000000000LL;
}
int64_t begin_ns() { return g_begin; }
void reset(uint64_t seed)
{
  // Clocks count from the epoch, or from the start of a simulation
  uint64_t h = (seed + 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull;
  h ^= h >> 29;
  const int64_t ns = static_cast<int64_t>(h >> 8) % 1000000000;
  g_begin = seed == 1 || h % 3 == 0 ? 1000000000000LL : h % 3 == 1 ? 1763595600000000000LL + ns : 123456000000000LL + ns;
  {
    std::lock_guard<Lock> lock(g_mutex);
    g_now = g_begin;
    g_stopped = false;
    g_main_blocked = false;
    g_random = seed;
    g_percent = g_interruptions = 0;
  }
  stub::bags().clear();
  stub::bag_faults() = stub::BagFaults();
  stub::tf_lookup() = nullptr;
  stub::tf_sent().clear();
  stub::tf_sent_at().clear();
  stub::tf_timeouts().clear();
  stub::tf_waits() = false;
}

void pause(double seconds)
{
  if (!is_main()) park(stub::now_ns() + static_cast<int64_t>(seconds * 1e9), true);
}

void lapse(double seconds)
{
  if (is_main()) advance(seconds);
  else pause(seconds);
}

bool background() { return !is_main(); }

bool pausing()
{
  std::lock_guard<Lock> lock(g_mutex);
  return std::any_of(g_parked.begin(), g_parked.end(), [](Parked * p) {return p->pausing;});
}

void interrupt(uint64_t seed, unsigned percent)
{
  std::lock_guard<Lock> lock(g_mutex);
  g_interrupt = seed;
  g_percent = percent;
}

unsigned interruptions() { return g_interruptions; }

void settle()
{
  std::unique_lock<Lock> lock(g_mutex);
  wait_all_parked(lock);
}

void advance(double seconds)
{
  std::unique_lock<Lock> lock(g_mutex);
  int64_t target = g_now + static_cast<int64_t>(seconds * 1e9);
  wait_all_parked(lock);
  while (step(lock, target)) {}
  g_now = target;
}

void stop()
{
  std::unique_lock<Lock> lock(g_mutex);
  g_stopped = true;
  g_percent = 0;
  wait_all_parked(lock);
  // (a thread that has to wait for a mutex stops again)
  // and one that waits to be notified goes on waiting
  while (true)
  {
    Parked * next = nullptr;
    for (auto p : g_parked)
      if (!next && p->wake != kNever) next = p;
    if (!next) break;
    release(next);
    wait_all_parked(lock);
  }
}
}  // namespace world

namespace stub
{
void interruption_point()
{
  if (!t_number && !is_main()) return;
  double t;
  {
    std::lock_guard<Lock> lock(g_mutex);
    if (g_percent == 0 || g_stopped || (is_main() && (g_interrupted || g_main_blocked))) return;
    g_interrupt = g_interrupt * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t h = g_interrupt >> 33;
    if (h % 100 >= g_percent) return;
    ++g_interruptions;
    static const double kTimes[] = {0.001, 0.26, 0.05, 1.01};
    t = kTimes[h / 100 % 4];
    if (is_main()) g_interrupted = true;
  }
  world::lapse(t);
  if (is_main()) g_interrupted = false;
}
int64_t now_ns()
{
  std::lock_guard<Lock> lock(g_mutex);
  return g_now;
}
void set_now_ns(int64_t t)
{
  std::lock_guard<Lock> lock(g_mutex);
  g_now = t;
}
std::map<std::string, std::function<std::shared_ptr<void>()>> & plugin_registry()
{
  static std::map<std::string, std::function<std::shared_ptr<void>()>> r;
  return r;
}
std::map<std::string, Bag> & bags()
{
  static std::map<std::string, Bag> b;
  return b;
}
BagFaults & bag_faults()
{
  static BagFaults f;
  return f;
}
TfLookup & tf_lookup()
{
  static TfLookup f;
  return f;
}
std::vector<int64_t> & tf_sent_at()
{
  static std::vector<int64_t> v;
  return v;
}
bool & tf_waits()
{
  static bool b = false;
  return b;
}
void tf_wait() { world::lapse(0.01); }
std::vector<int64_t> & tf_timeouts()
{
  static std::vector<int64_t> v;
  return v;
}
std::vector<geometry_msgs::msg::TransformStamped> & tf_sent()
{
  static std::vector<geometry_msgs::msg::TransformStamped> v;
  return v;
}
}  // namespace stub

namespace rclcpp
{
bool ok()
{
  static thread_local bool seen = false;
  if (!seen && !is_main())
  {
    // A background thread starts: it runs when time passes
    seen = true;
    park(stub::now_ns());
  }
  std::lock_guard<Lock> lock(g_mutex);
  return !g_stopped;
}
void shutdown_stub() { world::stop(); }
}  // namespace rclcpp

// Random devices are seeded by the case
namespace std
{
random_device::result_type random_device::_M_getval()
{
  std::lock_guard<Lock> lock(g_mutex);
  g_random += 0x9e3779b97f4a7c15ull;
  uint64_t z = g_random;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return static_cast<result_type>(z ^ (z >> 31));
}
}  // namespace std

namespace
{
struct Start
{
  void * (*routine)(void *);
  void * argument;
  unsigned number;
};
void * run_thread(void * p)
{
  Start s = *static_cast<Start *>(p);
  delete static_cast<Start *>(p);
  t_number = s.number;
  void * r = s.routine(s.argument);
  t_number = 0;
  std::lock_guard<Lock> lock(g_mutex);
  for (size_t i = 0; i < g_all_n; ++i)
    if (g_all[i].number == s.number) g_all[i].ended = true;
  --g_threads;
  g_parked_cv.notify_all();
  return r;
}
}  // namespace

// Threads are counted
extern "C" int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*routine)(void *), void * argument)
{
  typedef int (*Create)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
  static Create real = reinterpret_cast<Create>(dlsym(RTLD_NEXT, "pthread_create"));
  unsigned number;
  {
    std::lock_guard<Lock> lock(g_mutex);
    ++g_threads;
    number = ++g_started;
  }
  auto start = new Start{routine, argument, number};
  {
    std::lock_guard<Lock> lock(g_mutex);
    if (g_all_n == sizeof g_all / sizeof *g_all) g_all_n = 0;
    g_all[g_all_n++] = {pthread_t(), number, false};
  }
  int r = real(t, a, run_thread, start);
  std::lock_guard<Lock> lock(g_mutex);
  for (size_t i = 0; i < g_all_n; ++i)
    if (g_all[i].number == number)
    {
      if (r == 0) g_all[i].handle = *t;
      else g_all[i].number = 0;
    }
  if (r != 0)
  {
    delete start;
    --g_threads;
  }
  return r;
}

namespace
{
[[noreturn]] void stuck(const char * text, size_t n)
{
  ssize_t k = write(2, text, n);
  _exit(k > 0 ? 97 : 98);
}
}  // namespace

// Time passes while one waits for the end of a thread
extern "C" int pthread_join(pthread_t t, void ** result)
{
  typedef int (*Join)(pthread_t, void **);
  static Join real = reinterpret_cast<Join>(dlsym(RTLD_NEXT, "pthread_join"));
  unsigned number = 0;
  {
    std::unique_lock<Lock> lock(g_mutex);
    for (size_t i = 0; i < g_all_n; ++i)
      if (pthread_equal(g_all[i].handle, t)) number = g_all[i].number;
  }
  auto ended = [&] {
      for (size_t i = 0; i < g_all_n; ++i)
        if (g_all[i].number == number) return g_all[i].ended;
      return true;
    };
  if (number)
  {
    std::unique_lock<Lock> lock(g_mutex);
    int64_t start = g_now;
    for (int round = 0; !ended(); ++round)
    {
      if (is_main())
      {
        wait_all_parked(lock);
        if (ended() || !step(lock, kNever)) break;
        static const char text[] = "the main thread waits for the end of a thread that goes on\n";
        if (round > 200000 || g_now - start > 3600000000000LL) stuck(text, sizeof text - 1);
      }
      else
      {
        lock.unlock();
        park(stub::now_ns() + 1000000, false, true);
        lock.lock();
      }
    }
    for (size_t i = 0; i < g_all_n; ++i)
      if (g_all[i].number == number) { g_all[i] = g_all[--g_all_n]; break; }
  }
  return real(t, result);
}

// When a background thread has to wait for a mutex, it tries again after a while of virtual time (the main
// thread may have the mutex). When the main thread has to wait for one, threads that pause or wait go on one after
// the other: one of them has it.
template <class Lockable>
int acquire(Lockable * m, int (*attempt)(Lockable *), const char * name)
{
  stub::interruption_point();
  if (!is_main())
  {
    if (!t_number)
    {
      typedef int (*Real)(Lockable *);
      return reinterpret_cast<Real>(dlsym(RTLD_NEXT, name))(m);
    }
    while (attempt(m) != 0) park(stub::now_ns() + 1000000, false, true);
    return 0;
  }
  for (int round = 0; attempt(m) != 0; ++round)
  {
    std::unique_lock<Lock> lock(g_mutex);
    g_main_blocked = true;
    wait_all_parked(lock);
    if (round > 20000)
    {
      static const char text[] = "deadlock: the main thread waits for a mutex that is not released\n";
      stuck(text, sizeof text - 1);
    }
    unsigned last = 0;
    while (true)
    {
      // In order of their numbers
      Parked * next = nullptr;
      for (auto p : g_parked)
        if ((p->pausing || p->locking) && p->number > last && (!next || p->number < next->number)) next = p;
      if (!next) break;
      last = next->number;
      release(next);
      wait_all_parked(lock);
    }
    // Or the mutex is held by a thread that sleeps
    if (round > 4) step(lock, INT64_MAX);
    g_main_blocked = false;
  }
  return 0;
}
template <class Lockable>
int release_lock(Lockable * m, const char * name, int (*& real)(Lockable *))
{
  if (!real) real = reinterpret_cast<int (*)(Lockable *)>(dlsym(RTLD_NEXT, name));
  int r = real(m);
  stub::interruption_point();
  return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m)
{
  static int (*real)(pthread_mutex_t *) = nullptr;
  return release_lock(m, "pthread_mutex_unlock", real);
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  static int (*real)(pthread_rwlock_t *) = nullptr;
  return release_lock(m, "pthread_rwlock_unlock", real);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) { return acquire(m, pthread_mutex_trylock, "pthread_mutex_lock"); }
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t * m) { return acquire(m, pthread_rwlock_tryrdlock, "pthread_rwlock_rdlock"); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t * m) { return acquire(m, pthread_rwlock_trywrlock, "pthread_rwlock_wrlock"); }

// Background threads wait to be notified in virtual time, and it is the time they see
namespace
{
int64_t nanoseconds(const timespec & t) { return t.tv_sec * 1000000000LL + t.tv_nsec; }
int wait_notified(pthread_cond_t * c, pthread_mutex_t * m, int64_t wake)
{
  std::unique_lock<Lock> lock(g_mutex);
  Parked p{t_number, wake, false, false, false, c};
  bool over = wake != kNever && g_stopped;
  if (over) g_now = std::max(g_now, wake);
  else
  {
    g_parked.add(&p);
    // (nobody else runs before this thread waits)
    lock.unlock();
    typedef int (*Unlock)(pthread_mutex_t *);
    reinterpret_cast<Unlock>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"))(m);
    lock.lock();
    g_parked_cv.notify_all();
    g_release_cv.wait(lock, 0, [&] {return p.released;});
    over = p.condition && wake != kNever;
    lock.unlock();
    pthread_mutex_lock(m);
  }
  return over ? ETIMEDOUT : 0;
}
void notify(const pthread_cond_t * c, bool all)
{
  std::lock_guard<Lock> lock(g_mutex);
  Parked * first = nullptr;
  for (auto p : g_parked)
    if (p->condition == c && (all || !first || p->number < first->number))
    {
      first = p;
      if (all) { p->condition = nullptr; p->wake = g_now; }
    }
  if (first && !all) { first->condition = nullptr; first->wake = g_now; }
}
}  // namespace
extern "C" int clock_gettime(clockid_t clock, timespec * t)
{
  if (!t_number) return static_cast<int>(syscall(SYS_clock_gettime, clock, t));
  int64_t n = stub::now_ns();
  t->tv_sec = n / 1000000000LL;
  t->tv_nsec = n % 1000000000LL;
  return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  typedef int (*Wait)(pthread_cond_t *, pthread_mutex_t *);
  if (t_number) return wait_notified(c, m, kNever);
  return reinterpret_cast<Wait>(dlsym(RTLD_NEXT, "pthread_cond_wait"))(c, m);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t)
{
  typedef int (*Wait)(pthread_cond_t *, pthread_mutex_t *, const timespec *);
  if (t_number) return wait_notified(c, m, nanoseconds(*t));
  return reinterpret_cast<Wait>(dlsym(RTLD_NEXT, "pthread_cond_timedwait"))(c, m, t);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t clock, const timespec * t)
{
  typedef int (*Wait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
  if (t_number) return wait_notified(c, m, nanoseconds(*t));
  return reinterpret_cast<Wait>(dlsym(RTLD_NEXT, "pthread_cond_clockwait"))(c, m, clock, t);
}
extern "C" int pthread_cond_signal(pthread_cond_t * c)
{
  notify(c, false);
  return reinterpret_cast<int (*)(pthread_cond_t *)>(dlsym(RTLD_NEXT, "pthread_cond_signal"))(c);
}
extern "C" int pthread_cond_broadcast(pthread_cond_t * c)
{
  notify(c, true);
  return reinterpret_cast<int (*)(pthread_cond_t *)>(dlsym(RTLD_NEXT, "pthread_cond_broadcast"))(c);
}

// Sleeps of background threads are sleeps in virtual time
extern "C" int nanosleep(const timespec * t, timespec * left)
{
  if (is_main()) return static_cast<int>(syscall(SYS_nanosleep, t, left));
  return sleep_until(stub::now_ns() + t->tv_sec * 1000000000LL + t->tv_nsec);
}
extern "C" int clock_nanosleep(clockid_t clock, int flags, const timespec * t, timespec * left)
{
  if (is_main())
  {
    long r = syscall(SYS_clock_nanosleep, clock, flags, t, left);
    return r == 0 ? 0 : errno;
  }
  int64_t d = t->tv_sec * 1000000000LL + t->tv_nsec;
  if (flags & TIMER_ABSTIME)
  {
    timespec n;
    clock_gettime(clock, &n);
    d = std::max<int64_t>(0, d - (n.tv_sec * 1000000000LL + n.tv_nsec));
  }
  return sleep_until(stub::now_ns() + d);
}
extern "C" int usleep(useconds_t us)
{
  timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
