#include "core.hpp"
#include <sys/mman.h>
#include <unistd.h>

FILE *g_trace = nullptr;
extern "C" {
u64 g_steps = 0; u64 g_step_limit = ~0ull; u8 *g_cov = nullptr; u32 g_cov_n = 0;
static u8 *g_cov_alloc = nullptr;
}
Coro *g_cur = nullptr; bool g_budget_hit = false; Alloc *g_alloc = nullptr;
static void *g_main_sp = nullptr; static bool g_limit_is_budget = false;
static void trap();

extern "C" void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) {
  if (start == stop || *start) return;
  if (!g_cov_alloc) { g_cov_alloc = (u8 *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_cov = g_cov_alloc; }
  for (u32 *x = start; x < stop; x++) *x = ++g_cov_n;
}
extern "C" void __sanitizer_cov_trace_pc_guard(u32 *guard) {
  g_cov[*guard] = 1;
#ifdef SIM_TRACE   // debugging flavour: program counters from execute call SIM_TRACE_FROM on
  if (g_trace) { u64 ra = (u64)__builtin_return_address(0); fwrite(&ra, 8, 1, g_trace); }
#endif
  if (__builtin_expect(++g_steps >= g_step_limit, 0)) trap();
}

// callee-saved register context switch (SysV x86-64)
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");
extern "C" void sim_switch(void **save, void *to);

static void trap() {
  if (!g_cur) { g_step_limit = ~0ull; return; }
#ifdef SIM_DIRECT
  fprintf(stderr, "SIM step budget exhausted\n"); _exit(98);
#endif
  if (g_limit_is_budget) g_budget_hit = true;
  coro_yield();
}
void coro_yield() { Coro *c = g_cur; sim_switch(&c->sp, g_main_sp); }

static void coro_main() {
  Coro *c = g_cur; c->fn(); c->done = true;
  for (;;) coro_yield();
}
// Simulated memory lives at fixed addresses so that a run does not depend on the
// address-space layout of the machine it happens to execute on.
static u8 *map_at(u64 want, size_t n) {
  u8 *p = (u8 *)mmap((void *)want, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (want ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED && want) p = (u8 *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(97); }
  return p;
}
static int g_stack_gen[64], g_heap_gen[64];
// With a placement seed the address bits 12-35 of every stack and block are drawn from it, so that
// address words read where none belong take all kinds of values.
Coro::Coro(size_t stack, int slot, u64 place) {
  map_sz = stack + 8192;
  u64 gen = slot < 0 ? 0 : g_stack_gen[slot & 63]++ & 0xfff, low = gen << 24;
  if (place) { u64 r = mix64(place * 31 + gen + 1); low = ((r & 0xfff) << 24) + (r >> 20 & 0x7ff000); }
  map = map_at(slot < 0 ? 0 : 0x200000000000ull + ((u64)(slot & 63) << 36) + low, map_sz);
  mprotect(map, 4096, PROT_NONE); mprotect(map + map_sz - 4096, 4096, PROT_NONE); lo = map + 4096; hi = map + map_sz - 4096;
}
Coro::~Coro() { if (map) munmap(map, map_sz); }
void Coro::start(std::function<void()> f, u64 fillseed, size_t off) {
  fn = std::move(f); done = false;
  u8 *top = hi - (off & ~(size_t)15);
#ifndef SIM_DIRECT
  fill_garbage(top - paint, paint, fillseed);
#endif
  u64 *s = (u64 *)(top - 64);
  *--s = 0;                       // fake return address for coro_main
  *--s = (u64)(void *)coro_main;  // ret target
  for (int i = 0; i < 6; i++) *--s = 0;
  sp = s;
}
bool Coro::resume(u64 step_limit, bool is_budget) {
#ifdef SIM_DIRECT   // sanitizer build: calls run on the process stack, without preemption
  g_cur = this; g_step_limit = step_limit; fn(); done = true; g_step_limit = ~0ull; g_cur = nullptr; return true;
#endif
  g_cur = this; g_step_limit = step_limit; g_limit_is_budget = is_budget; g_budget_hit = false;
  sim_switch(&g_main_sp, sp);
  g_step_limit = ~0ull; g_cur = nullptr;
  return done;
}

void fill_garbage(u8 *p, size_t n, u64 seed) {
  if (!seed) { memset(p, 0, n); return; }
  u64 x = mix64(seed);
  int mode = x % 4; x = mix64(x);
  if (mode == 0) { memset(p, (int)(x & 0xff) | 1, n); return; }   // constant byte
  while (n >= 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(p, &x, 8); p += 8; n -= 8; }
  memcpy(p, &x, n);
}

static const size_t RED = 256;
struct Stale { u8 *map; size_t sz; };
static std::map<std::pair<int, int>, Stale> g_stale;
static u8 canary(u64 seed, size_t i) { return (u8)(0xC3 ^ (i * 37) ^ seed); }
void *Alloc::do_malloc(u32 size, u32 align) {
  int idx = n_req++;
  if (gen < 0) gen = g_heap_gen[host & 63]++;
  if (idx == fail_at || (idx < 32 && (fail_mask >> idx & 1))) { n_fail++; blocks.push_back({nullptr, nullptr, size, align, 0, true, nullptr, 0}); return nullptr; }
#ifdef SIM_DIRECT   // sanitizer build: red zones directly behind the promised size
  { Block b; b.req = size; b.align = align; b.cap = size; b.freed = false; b.map = nullptr; b.map_sz = 0;
    u8 *m = (u8 *)malloc((size_t)size + align); b.user = b.base = m; if (seed) fill_garbage(m, (size_t)size + align, mix64(seed * 1315423911u + idx + 77) | 1); blocks.push_back(b); return m; }
#endif
  Block b; b.req = size; b.align = align; b.cap = (size_t)size + align; b.freed = false;
  u64 r = mix64(seed * 1315423911u + idx + 77); const size_t pg = 4096;
  size_t off = align_mode ? (r >> 8) % 32 * 8 : 0;
  size_t body = (b.cap + 2 * RED + 512 + pg - 1) / pg * pg;
  b.map_sz = body + 2 * pg; bool stale = false;
  auto st = g_stale.find({host, idx});
  if (keep_stale && st != g_stale.end() && st->second.sz == b.map_sz) { b.map = st->second.map; g_stale.erase(st); stale = true; }
  else { u64 i4 = idx & 15, low = 0;
    if (place) { i4 ^= mix64(place) & 15; low = mix64(place * 7 + gen * 64 + idx) >> 9 & 0x7fff000; }
    b.map = map_at(0x100000000000ull + ((u64)(host & 63) << 36) + ((u64)(gen & 15) << 32) + (i4 << 28) + low, b.map_sz); }
  if (!stale) { mprotect(b.map, pg, PROT_NONE); mprotect(b.map + pg + body, pg, PROT_NONE); }
  b.base = b.map + pg; u8 *end = b.base + body;
  if (guard_pages) {   // end of the block flush with the inaccessible page (8-byte granularity, as malloc may give)
    b.user = (u8 *)((uintptr_t)(end - b.cap) & ~(uintptr_t)7);
  } else b.user = b.base + RED + off;
  u8 *lo = std::max(b.base, b.user - RED), *hi = std::min(end, b.user + b.cap + RED);
  for (u8 *q = lo; q < b.user; q++) *q = canary(seed, b.user - q);
  for (u8 *q = b.user + b.cap; q < hi; q++) *q = canary(seed, q - b.user);
  if (!stale) { if (seed) fill_garbage(b.user, b.cap, r | 1); }
  blocks.push_back(b);
  return b.user;
}
std::string Alloc::check() {
#ifdef SIM_DIRECT
  return "";
#endif
  char buf[200];
  for (size_t k = 0; k < blocks.size(); k++) {
    Block &b = blocks[k]; if (!b.user || b.freed) continue;
    u8 *end = b.map + b.map_sz - 4096, *lo = std::max(b.base, b.user - RED), *hi = std::min(end, b.user + b.cap + RED);
    for (u8 *q = lo; q < b.user; q++) if (*q != canary(seed, b.user - q)) {
      snprintf(buf, sizeof buf, "block %zu (size %zu) written %zd bytes before its start", k, b.req, (ssize_t)(b.user - q)); return buf; }
    for (u8 *q = b.user + b.cap; q < hi; q++) if (*q != canary(seed, q - b.user)) {
      snprintf(buf, sizeof buf, "block %zu (size %zu) written %zd bytes past its end", k, b.req, (ssize_t)(q - (b.user + b.cap))); return buf; }
  }
  return "";
}
static void drop(Block &b, int host, int idx, bool keep) {
  if (keep) { auto &s = g_stale[{host, idx}]; if (s.map) munmap(s.map, s.sz); s = {b.map, b.map_sz}; } else munmap(b.map, b.map_sz);
  b.base = nullptr; b.map = nullptr;
}
void Alloc::do_free(void *p) {
  n_free++;
  for (int pass = 0; pass < 2; pass++) for (auto &b : blocks) if (b.user == p && p && b.freed == (pass == 1)) {
    if (b.freed) { dbl_free++; last_err = "block freed twice"; return; }
    std::string e = check(); if (!e.empty() && last_err.empty()) last_err = e;
#ifdef SIM_DIRECT
    free(b.user); b.freed = true; return;
#endif
    b.freed = true; drop(b, host, (int)(&b - &blocks[0]), keep_stale);
    return;
  }
  bad_free++; last_err = "free of a pointer that was never allocated";
}
Alloc::~Alloc() {
#ifdef SIM_DIRECT
  for (auto &b : blocks) if (!b.freed && b.user) free(b.user);
  return;
#endif
  for (auto &b : blocks) if (!b.freed && b.user) munmap(b.map, b.map_sz); }
extern "C" void *sim_malloc(u32 size, u32 align) { return g_alloc->do_malloc(size, align); }
extern "C" void sim_free(void *p) { g_alloc->do_free(p); }
