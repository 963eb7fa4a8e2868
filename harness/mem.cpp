// Executes operation histories on the containers of meevax::memory and prints what they answer.
// The histories and the expected answers come from checks/p23_memory.py.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <iterator>
#include <algorithm>
#include <bit>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

#include <meevax/memory/literal.hpp>
#include <meevax/memory/pointer_set.hpp>
#include <meevax/memory/allocator.hpp>
#include <meevax/memory/nan_boxing_pointer.hpp>

using u64 = std::uint64_t;

template <typename Set, typename T>
void sets(std::istream & in)
{
  auto a = std::make_unique<Set>(), b = std::make_unique<Set>();
  auto P = [](u64 x) { return reinterpret_cast<T>(x); };
  auto U = [](auto p) { return static_cast<unsigned long long>(reinterpret_cast<std::uintptr_t>(p)); };
  std::string op;
  while (in >> op)
  {
    u64 x = 0, k = 0;
    switch (op[0])
    {
    case 'i': in >> x; a->insert(P(x)); break;
    case 'e': in >> x; a->erase(P(x)); break;
    case 'c': in >> x; std::printf("%d\n", int(a->contains(P(x)))); break;
    case 'n': std::printf("%llu %d\n", (unsigned long long)a->size(), int(a->empty())); break;
    case 'l': // forwards from a lower bound
      in >> x >> k;
      {
        auto i = a->lower_bound(P(x));
        for (; k-- && i; ++i) std::printf("%llx ", U(*i));
        std::printf("%s\n", i == a->end() ? "end" : "");
      }
      break;
    case 'b': // backwards from before a lower bound
      in >> x >> k;
      {
        auto i = a->lower_bound(P(x));
        for (--i; k-- && i; --i) std::printf("%llx ", U(*i));
        std::printf("%s\n", i == a->end() ? "end" : "");
      }
      break;
    case 'r': // backwards from the end
      in >> k;
      {
        auto i = a->end();
        for (--i; k-- && i; --i) std::printf("%llx ", U(*i));
        std::printf("%s\n", i == a->end() ? "end" : "");
      }
      break;
    case 'f': // all
      for (auto p : *a) std::printf("%llx ", U(p));
      std::printf(".\n");
      break;
    case 'g': // the way the collector walks an interval
      in >> x >> k;
      std::for_each(a->lower_bound(P(x)), a->lower_bound(P(k)), [&](auto p) { std::printf("%llx ", U(p)); });
      std::printf(".\n");
      break;
    case 'd': // erase while walking
      in >> x >> k;
      for (auto p : *a) if ((U(p) >> 3) % k == x) { std::printf("%llx ", U(p)); a->erase(p); }
      std::printf(".\n");
      break;
    case 'm': // move into the other set, as marking does
      in >> x;
      { auto p = P(x); b->insert(p); a->erase(p); }
      break;
    case 'w': a->swap(*b); break;
    case 'z': { auto c = std::make_unique<Set>(); a->swap(*c); } break;
    }
  }
}

template <std::size_t Size, std::size_t Align>
struct alignas(Align) object { unsigned char bytes[Size]; };

template <typename T, std::size_t N>
void allocs(std::istream & in)
{
  using A = typename std::allocator_traits<meevax::segregated_storage_allocator<void, N>>::template rebind_alloc<T>;
  static A a;
  std::vector<std::pair<unsigned char *, unsigned char>> live;
  std::map<unsigned char *, std::size_t> where;
  unsigned char pattern = 1;
  auto check = [&](std::size_t i)
  {
    for (std::size_t j = 0; j < sizeof(T); ++j) if (live[i].first[j] != live[i].second) { std::printf("block %zu overwritten\n", i); return; }
  };
  std::string op;
  auto release = [&](std::size_t i)
  {
    check(i);
    where.erase(live[i].first);
    a.deallocate(reinterpret_cast<T *>(live[i].first), 1);
    live[i] = live.back();
    live.pop_back();
  };
  auto obtain = [&]
  {
    auto p = reinterpret_cast<unsigned char *>(a.allocate(1));
    if (!p) { std::printf("null\n"); return; }
    if (reinterpret_cast<std::uintptr_t>(p) % alignof(T)) std::printf("misaligned\n");
    auto i = where.lower_bound(p);
    if (i != where.end() && p + sizeof(T) > i->first) std::printf("overlap\n");
    if (i != where.begin() && std::prev(i)->first + sizeof(T) > p) std::printf("overlap\n");
    where[p] = live.size();
    std::memset(p, pattern, sizeof(T));
    live.emplace_back(p, pattern++);
  };
  while (in >> op)
  {
    u64 x = 0;
    in >> x;
    if (op == "a") while (x--) obtain();
    else if (op == "f") { if (!live.empty()) release(x % live.size()); }
    else if (op == "F") while (x-- && !live.empty()) release(live.size() - 1);
    else if (op == "q") while (x-- && !live.empty()) release(0);
    else for (std::size_t i = 0; i < live.size(); ++i) check(i);
  }
  while (!live.empty()) release(live.size() - 1);
  std::printf("ok\n");
}

struct six { std::uint32_t i; };
using sint = std::int32_t;
enum class small : std::uint16_t {};
struct P { int x; };
using box = meevax::nan_boxing_pointer<P, bool, sint, float, six, small>;

static void show(box const& b)
{
  // what it says it is, and what it holds
  std::printf("%d%d%d%d%d%d%d%d ", int(b.is<bool>()), int(b.is<sint>()), int(b.is<float>()), int(b.is<six>()), int(b.is<small>()), int(b.is<P *>()), int(b.is<std::nullptr_t>()), int(b.is<double>()));
  std::printf("%d ", int(static_cast<bool>(b)));
  std::printf("%d ", b.type() == typeid(bool) ? 0 : b.type() == typeid(sint) ? 1 : b.type() == typeid(float) ? 2 : b.type() == typeid(six) ? 3 : b.type() == typeid(small) ? 4
            : b.type() == typeid(std::nullptr_t) ? 6 : b.type() == typeid(double) ? 7 : 5);
  std::printf("%llx ", (unsigned long long)reinterpret_cast<std::uintptr_t>(b.get()));
  if (b.is<bool>()) std::printf("%d\n", int(b.as<bool>()));
  else if (b.is<sint>()) std::printf("%d\n", b.as<sint>());
  else if (b.is<float>()) std::printf("%x\n", std::bit_cast<std::uint32_t>(b.as<float>()));
  else if (b.is<six>()) std::printf("%x\n", b.as<six>().i);
  else if (b.is<small>()) std::printf("%x\n", unsigned(b.as<small>()));
  else if (b.is<double>()) std::printf("%llx\n", (unsigned long long)std::bit_cast<u64>(b.as<double>()));
  else std::printf("-\n");
}

static void boxes(std::istream & in)
{
  std::vector<box> v(4, box());
  std::string op;
  while (in >> op)
  {
    int i, j; u64 x;
    in >> i;
    if (op == "=") { in >> j; v[i].reset(v[j]); }
    else if (op == "k") { in >> j; v[i] = box(v[j]); }
    else if (op == "?") { in >> j; std::printf("%d\n", int(v[i] == v[j])); }
    else
    {
      in >> x;
      bool fresh = op.size() > 1;
      auto set = [&](auto y) { if (fresh) v[i] = box(y); else v[i].reset(y); };
      switch (op[0])
      {
      case 'b': set(bool(x)); break;
      case 's': set(sint(x)); break;
      case 'f': set(std::bit_cast<float>(std::uint32_t(x))); break;
      case 'c': set(six { std::uint32_t(x) }); break;
      case 'e': set(small(x)); break;
      case 'p': set(reinterpret_cast<P *>(x)); break;
      case 'n': set(nullptr); break;
      case 'd': set(std::bit_cast<double>(x)); break;
      }
    }
    show(v[i]);
  }
}

int main()
{
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream in(line);
    std::string kind;
    in >> kind;
    if (kind == "s0") sets<meevax::pointer_set<std::int64_t const*, 15, 16, 16>, std::int64_t const*>(in);
    else if (kind == "s1") sets<meevax::pointer_set<std::int32_t const*, 15, 16, 16>, std::int32_t const*>(in);
    else if (kind == "s2") sets<meevax::pointer_set<std::int64_t const*, 5, 3, 6>, std::int64_t const*>(in);
    else if (kind == "s3") sets<meevax::pointer_set<std::int16_t const*, 9, 2, 7>, std::int16_t const*>(in);
    else if (kind == "a0") allocs<object<8, 8>, 1024>(in);
    else if (kind == "a1") allocs<object<24, 8>, 1>(in);
    else if (kind == "a2") allocs<object<56, 8>, 3>(in);
    else if (kind == "a3") allocs<object<64, 16>, 8>(in);
    else if (kind == "a4") allocs<object<1, 1>, 2>(in);
    else if (kind == "a5") allocs<object<96, 32>, 5>(in);
    else if (kind == "n") boxes(in);
    std::printf("@\n");
  }
}
