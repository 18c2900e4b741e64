// Deterministic simulation core: PRNG, hashing, step counter / coverage hook,
// coroutines with simulator-owned stacks, simulated allocator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ---------------------------------------------------------------- PRNG
static inline u64 mix64(u64 z) {
  z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
struct Rng {
  u64 s[4];
  explicit Rng(u64 seed = 1) { u64 z = seed; for (auto &x : s) { x = mix64(z); z += 0x9E3779B97F4A7C15ull; } }
  static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
  u64 next() {
    u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Hash {
  u64 h = 0xcbf29ce484222325ull;
  void add(u64 v) { h = mix64(h ^ v) + 0x100; }
  void bytes(const void *p, size_t n) {
    const u8 *b = (const u8 *)p; u64 v; add(n);
    while (n >= 8) { memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
    v = 0; if (n) { memcpy(&v, b, n); add(v); }
  }
};
static inline u64 hash_bytes(const void *p, size_t n) { Hash h; h.bytes(p, n); return h.h; }

// ---------------------------------------------------------------- steps, coverage, preemption
// Every basic block of the decoder calls the guard hook: one step of simulated time.
extern "C" {
extern u64 g_steps;          // steps executed since process start
extern u64 g_step_limit;     // preempt / budget trap when g_steps reaches this
extern u8 *g_cov; extern u32 g_cov_n;
}
enum TrapKind { TRAP_NONE = 0, TRAP_PREEMPT = 1, TRAP_BUDGET = 2 };

// ---------------------------------------------------------------- coroutines
struct Coro {
  u8 *map = nullptr; size_t map_sz = 0; u8 *lo = nullptr, *hi = nullptr;  // usable stack [lo,hi)
  void *sp = nullptr; bool done = true; std::function<void()> fn;
  size_t paint = 192 * 1024;
  explicit Coro(size_t stack = 4u << 20, int slot = -1, u64 place = 0);
  ~Coro();
  Coro(const Coro &) = delete;
  // start fn on this stack; stack region below the frame is filled from fillseed (0 => zero bytes)
  void start(std::function<void()> f, u64 fillseed, size_t off = 0);
  // resume until fn finishes, yields, or (abs) step limit reached. returns true when finished
  bool resume(u64 step_limit, bool limit_is_budget);
};
extern Coro *g_cur;
extern bool g_budget_hit;
void coro_yield();

// ---------------------------------------------------------------- simulated allocator
struct Block { u8 *user; u8 *base; size_t req, align, cap; bool freed; u8 *map; size_t map_sz; };
struct Alloc {
  // policy
  u64 seed = 0;             // placement + fill garbage
  int fail_at = -1;         // fail the nth request (0-based); -1 = never
  u32 fail_mask = 0;        // additional failing request set (bit per request index)
  int host = 0, gen = -1;   // address slot
  bool keep_stale = false;  // hand back the previous instance's memory, contents included
  u64 place = 0;            // address choice within the slot
  int align_mode = 0;       // 0: 16-byte aligned; k>0: odd placement offsets from seed
  bool guard_pages = false; // put block end against PROT_NONE page
  // record
  std::vector<Block> blocks; int n_req = 0, n_fail = 0, n_free = 0, bad_free = 0, dbl_free = 0;
  std::string last_err;
  void *do_malloc(u32 size, u32 align);
  void do_free(void *p);
  // verify the canaries around every block; returns "" or description
  std::string check();
  int live() const { int n = 0; for (auto &b : blocks) n += !b.freed; return n; }
  ~Alloc();
};
extern Alloc *g_alloc;
extern "C" void *sim_malloc(u32 size, u32 align);
extern "C" void sim_free(void *p);
void fill_garbage(u8 *p, size_t n, u64 seed);  // seed 0 => zeros
