// LD_PRELOAD fork server.  The interpreter boots once; when it opens the file
// named by VERIF_FORK_POINT, this shim answers requests instead: each request
// names a real program, a child is forked, and the child opens that program
// under the fork point's name and runs it to its end.
//
// request  (fd 198): u32 length, then "program\0stdout\0stderr\0cwd\0opts\0stdin\0"
// response (fd 199): i32 wait status, i32 timed out, u64 max rss (KiB), u64 allocations (variant gc)
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

static bool in_child = false;
static std::string actual;
static std::uint64_t * shared = nullptr; // tells the number of allocations of a child

static bool read_all(int fd, void * p, std::size_t n)
{
  auto c = static_cast<char *>(p);
  while (n) { auto k = ::read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; }
  return true;
}

static void fast_exit(int status, void *)
{
  std::cout.flush();
  std::cerr.flush();
  std::fflush(nullptr);
  if (auto n = static_cast<std::uint64_t *>(::dlsym(RTLD_DEFAULT, "meevax_gc_allocations")); n && shared) *shared = *n;
  ::_exit(status);
}

static void serve()
{
  ::signal(SIGPIPE, SIG_DFL);
  shared = static_cast<std::uint64_t *>(::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (shared == MAP_FAILED) shared = nullptr;
  for (;;)
  {
    std::uint32_t n;
    if (!read_all(198, &n, sizeof n)) ::_exit(0);
    std::vector<char> buf(n + 1);
    if (!read_all(198, buf.data(), n)) ::_exit(0);
    std::vector<std::string> f;
    for (std::size_t i = 0; i < n;) { f.emplace_back(buf.data() + i); i += f.back().size() + 1; }
    f.resize(6);
    // opts: "timeout_ms as_mb slow_exit gc_armed gc_every gc_seed gc_skip gc_max"
    long timeout_ms = 10000, as_mb = 0; int slow_exit = 0, gc_armed = 0; unsigned long long gc_every = 0, gc_seed = 0, gc_skip = 0, gc_max = 0;
    std::sscanf(f[4].c_str(), "%ld %ld %d %d %llu %llu %llu %llu", &timeout_ms, &as_mb, &slow_exit, &gc_armed, &gc_every, &gc_seed, &gc_skip, &gc_max);
    if (shared) *shared = 0;

    sigset_t set, old;
    sigemptyset(&set); sigaddset(&set, SIGCHLD);
    sigprocmask(SIG_BLOCK, &set, &old);

    auto pid = ::fork();
    if (pid == 0)
    {
      sigprocmask(SIG_SETMASK, &old, nullptr);
      in_child = true;
      ::prctl(PR_SET_PDEATHSIG, SIGKILL);
      ::setpgid(0, 0);
      ::close(198); ::close(199);
      auto redirect = [](char const* path, int flags, int fd) { int k = ::open(path, flags, 0600); if (k >= 0 && k != fd) { ::dup2(k, fd); ::close(k); } };
      redirect(f[5].empty() ? "/dev/null" : f[5].c_str(), O_RDONLY, 0);
      redirect(f[1].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 1);
      redirect(f[2].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 2);
      if (!f[3].empty() && ::chdir(f[3].c_str())) ::_exit(97);
      rlimit r;
      r.rlim_cur = r.rlim_max = 0; ::setrlimit(RLIMIT_CORE, &r);
      if (as_mb) { r.rlim_cur = r.rlim_max = rlim_t(as_mb) << 20; ::setrlimit(RLIMIT_AS, &r); }
      r.rlim_cur = r.rlim_max = rlim_t(64) << 20; ::setrlimit(RLIMIT_FSIZE, &r);
      r.rlim_cur = r.rlim_max = timeout_ms / 1000 + 2; ::setrlimit(RLIMIT_CPU, &r);
      auto set = [](char const* name, std::uint64_t value) { if (auto p = static_cast<std::uint64_t *>(::dlsym(RTLD_DEFAULT, name))) *p = value; };
      set("meevax_gc_every", gc_every); set("meevax_gc_seed", gc_seed); set("meevax_gc_skip", gc_skip); set("meevax_gc_max", gc_max);
      if (auto p = static_cast<int *>(::dlsym(RTLD_DEFAULT, "meevax_gc_armed"))) *p = gc_armed;
      if (!slow_exit) ::on_exit(fast_exit, nullptr);
      actual = f[0];
      return;
    }
    std::int32_t status = -1, timed_out = 0; std::uint64_t rss = 0;
    if (pid > 0)
    {
      timespec deadline; clock_gettime(CLOCK_MONOTONIC, &deadline);
      auto left = timeout_ms;
      for (;;)
      {
        rusage u;
        auto k = ::wait4(pid, &status, WNOHANG, &u);
        if (k == pid) { rss = u.ru_maxrss; break; }
        timespec now; clock_gettime(CLOCK_MONOTONIC, &now);
        left = timeout_ms - ((now.tv_sec - deadline.tv_sec) * 1000 + (now.tv_nsec - deadline.tv_nsec) / 1000000);
        if (left <= 0 && !timed_out) { timed_out = 1; ::kill(-pid, SIGKILL); ::kill(pid, SIGKILL); }
        if (timed_out) left = 1000;
        timespec t { left / 1000, (left % 1000) * 1000000 };
        sigtimedwait(&set, nullptr, &t);
      }
      ::kill(-pid, SIGKILL);
    }
    sigprocmask(SIG_SETMASK, &old, nullptr);
    char out[24];
    std::memcpy(out, &status, 4); std::memcpy(out + 4, &timed_out, 4); std::memcpy(out + 8, &rss, 8);
    std::uint64_t allocations = shared ? *shared : 0;
    std::memcpy(out + 16, &allocations, 8);
    if (::write(199, out, 24) != 24) ::_exit(0);
  }
}

static char const* redirect_path(char const* path)
{
  static char const* point = std::getenv("VERIF_FORK_POINT");
  if (point && path && std::strcmp(path, point) == 0)
  {
    if (!in_child) serve();
    return actual.c_str();
  }
  if (in_child && path && std::strcmp(path, "/dev/full") == 0)
  {
    if (auto probe = reinterpret_cast<void (*)()>(::dlsym(RTLD_DEFAULT, "meevax_gc_probe"))) probe();
    return "/dev/null";
  }
  return path;
}

extern "C" {
FILE * fopen(char const* path, char const* mode)
{
  static auto real = reinterpret_cast<FILE * (*)(char const*, char const*)>(::dlsym(RTLD_NEXT, "fopen"));
  return real(redirect_path(path), mode);
}
FILE * fopen64(char const* path, char const* mode)
{
  static auto real = reinterpret_cast<FILE * (*)(char const*, char const*)>(::dlsym(RTLD_NEXT, "fopen64"));
  return real(redirect_path(path), mode);
}
int open(char const* path, int flags, ...)
{
  static auto real = reinterpret_cast<int (*)(char const*, int, ...)>(::dlsym(RTLD_NEXT, "open"));
  __builtin_va_list ap; __builtin_va_start(ap, flags); int mode = __builtin_va_arg(ap, int); __builtin_va_end(ap);
  return real(redirect_path(path), flags, mode);
}
int open64(char const* path, int flags, ...)
{
  static auto real = reinterpret_cast<int (*)(char const*, int, ...)>(::dlsym(RTLD_NEXT, "open64"));
  __builtin_va_list ap; __builtin_va_start(ap, flags); int mode = __builtin_va_arg(ap, int); __builtin_va_end(ap);
  return real(redirect_path(path), flags, mode);
}
}
