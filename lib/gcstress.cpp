// Wrapped around meevax::kernel::request (the allocation hook of the collector) at link time:
// the schedule of collections becomes an input of the test.  Idle until the process is a forked
// child (see shim.cpp), which sets:
//   meevax_gc_skip    allocations without a forced collection at first
//   meevax_gc_every   then one collection before every so many allocations
//   meevax_gc_seed    ... or, if not 0, pseudo-random gaps of that mean
//   meevax_gc_max     forced collections at most (0: no limit)
// Opening the file /dev/full collects and tells how much is alive, on stderr (see shim.cpp).
#include <cstddef>
#include <cstdlib>
#include <cstdint>
#include <cstdio>
#include <malloc.h>
#include <unistd.h>

namespace meevax { inline namespace kernel { auto collect() noexcept -> void; auto count() noexcept -> std::size_t; } }

extern "C" {
void __real__ZN6meevax6kernel7requestEm(std::size_t) noexcept;
int meevax_gc_armed = 0;
std::uint64_t meevax_gc_every = 0;
std::uint64_t meevax_gc_seed = 0;
std::uint64_t meevax_gc_skip = 0;
std::uint64_t meevax_gc_max = 0;
std::uint64_t meevax_gc_allocations = 0;

static std::uint64_t countdown = 0, forced = 0;

static std::uint64_t next_gap()
{
  if (!meevax_gc_seed) return meevax_gc_every;
  meevax_gc_seed ^= meevax_gc_seed << 13;
  meevax_gc_seed ^= meevax_gc_seed >> 7;
  meevax_gc_seed ^= meevax_gc_seed << 17;
  return 1 + meevax_gc_seed % (2 * meevax_gc_every);
}

void __wrap__ZN6meevax6kernel7requestEm(std::size_t n) noexcept
{
  if (meevax_gc_armed && ++meevax_gc_allocations > meevax_gc_skip && meevax_gc_every && (!meevax_gc_max || forced < meevax_gc_max))
  {
    if (!countdown) countdown = next_gap();
    if (!--countdown)
    {
      ++forced;
      meevax::collect();
    }
  }
  __real__ZN6meevax6kernel7requestEm(n);
}

void meevax_gc_probe()
{
  meevax::collect();
  auto const m = ::mallinfo2();
  char text[120];
  auto n = std::snprintf(text, sizeof text, "gc-probe %zu objects %zu bytes %llu allocations\n",
                         meevax::count(), m.uordblks + m.hblkhd, (unsigned long long)meevax_gc_allocations);
  if (::write(2, text, n) != n) std::abort();
}
}
