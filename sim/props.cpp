#include "props.hpp"
#include <sstream>
#include <cmath>
std::string Plan::text() const { std::ostringstream o; o << "plan " << prop << " " << seed << " " << kind << "\n" << w.text(); return o.str(); }
bool Plan::parse(const std::string &t) {
  std::istringstream in(t); std::string l; if (!std::getline(in, l)) return false; char id[64]; unsigned long long s; int k;
  if (sscanf(l.c_str(), "plan %63s %llu %d", id, &s, &k) != 3) return false; prop = id; seed = s; kind = k;
  while (std::getline(in, l)) if (!l.empty() && l[0] != '#') w.parse_line(l);
  return !w.h.empty();
}
typedef std::vector<CallOut> Log;
enum { C_CONS = 1, C_INFO = 2 };
static std::string fmt(const char *w, size_t i, const CallOut &x, const CallOut &y) {
  char t[260]; snprintf(t, sizeof t, "call %zu (op %d, packet %d): %s differs: err %llx/%llx out %d/%d consumed %d/%d pcm %016llx/%016llx", i, x.op, x.pkt, w, (long long)x.err & 0xffffffff, (long long)y.err & 0xffffffff, x.out, y.out, x.consumed, y.consumed, (long long)x.ohash, (long long)y.ohash); return t;
}
// "" when equal, else class; detail in d
static std::string cmp(const Log &a, const Log &b, int what, std::string &d) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    auto &x = a[i]; auto &y = b[i];
    const char *w = x.op != y.op ? "operation" : x.err != y.err ? "error" : x.out != y.out ? "output-size" : x.ohash != y.ohash ? "pcm" : (what & C_CONS) && x.consumed != y.consumed ? "consumed" : (what & C_INFO) && x.info != y.info ? "info" : nullptr;
    if (w) { d = fmt(w, i, x, y); return w; }
  }
  if (a.size() != b.size()) { d = "number of calls differs: " + std::to_string(a.size()) + "/" + std::to_string(b.size()); return "calls"; }
  return "";
}
static Log sel(const HostOut &h, int op, bool outonly, int life = -1) { Log k; for (auto &e : h.log) if (e.op == op && (!outonly || e.out > 0) && (life < 0 || e.life == life)) k.push_back(e); return k; }
static Log lifelog(const HostOut &h, int life) { Log k; for (auto &e : h.log) if (e.life == life) k.push_back(e); return k; }
static u64 nout(const Log &l) { u64 n = 0; for (auto &e : l) n += e.op == OP_EXEC && e.out > 0; return n; }
static const std::vector<std::string> &names() { static std::vector<std::string> n = corpus_names(); return n; }
static bool has(const std::string &n, const char *f) { return ("," + corpus(n).feat + ",").find(std::string(",") + f + ",") != std::string::npos; }
static std::string pick_stream(Rng &r) { return names()[r.below(names().size())]; }

static const WorldOut &run(const WorldSpec &w, Verdict &v, bool test, bool keep = false) {
  static WorldOut o; const WorldOut *p;
  if (test || keep) { o = run_world(w, keep); p = &o; } else p = &run_cached(w, false);
  v.worlds++; v.steps += p->steps; v.switches += p->switches; for (auto &h : p->h) { v.calls += h.log.size(); v.frames += nout(h.log); }
  if (test) { for (auto &f : p->faults) v.faults[f.first] += f.second; Hash s; for (auto &h : p->h) s.add(h.hash()); v.hash = s.h; s.add(p->schedhash); for (auto &f : p->faults) { s.bytes(f.first.data(), f.first.size()); s.add(f.second); } v.shape = s.h; }
  return *p;
}
static bool dead(const WorldOut &o, Verdict &v) { if (o.ok) return false; std::string c = o.crash; for (auto &ch : c) if (ch == ' ') ch = '-'; v.fail("crash:" + c, "the simulated process died: " + o.crash + " " + o.diag.substr(0, 300)); return true; }
static bool refbad(const WorldOut &o, Verdict &v) { if (o.ok) return false; v.probes["reference_died"]++; return true; }
static std::vector<int> frames_of(const std::vector<Pkt> &pk) { std::vector<int> f; for (size_t k = 0; k < pk.size(); k++) if (pk[k].type == PK_FRAME) f.push_back((int)k); return f; }

// ---------------------------------------------------------------- generators shared by properties
static void damage_cfg(Rng &r, LifeSpec &L) {   // the first configuration is damaged or lost
  auto pk = apply_ops(L); int at = -1; for (size_t i = 0; i < pk.size() && at < 0; i++) if (pk[i].type == PK_CONFIG) at = i; if (at < 0) return;
  i64 sz = std::max<size_t>(1, pk[at].d.size());
  for (int n = r.range(1, 3); n > 0; n--) { PktOp q; q.at = at; i64 pos = r.below(r.chance(0.5) ? std::min<i64>(sz, 8) : sz);
    switch (r.below(6)) { case 0: q.k = "drop"; L.ops.push_back(q); return; case 1: q.k = "trunc"; q.a = {pos}; break; case 2: q.k = "burst"; q.a = {pos, r.range(1, 12), (i64)(r.next() >> 1)}; break;
      case 3: q.k = "set"; q.a = {pos, (i64)r.below(256)}; break; default: q.k = "flip"; q.a = {pos, (i64)r.below(8)}; }
    L.ops.push_back(q); }
}
static void gen_corrupt(Rng &r, LifeSpec &L, int n, const char *kinds) {   // kinds: letters f b t s d D l
  auto pk = apply_ops(L); auto f = frames_of(pk); if (f.empty()) return; std::string ks = kinds;
  // swarm: each plan enables a subset of the fault kinds
  std::string on; for (char c : ks) if (r.chance(0.5)) on += c; if (on.empty()) on = ks[r.below(ks.size())];
  for (int k = 0; k < n; k++) {
    PktOp p; int x = f[r.below(f.size())]; p.at = x; i64 sz = std::max<size_t>(1, pk[x].d.size()); i64 pos = r.chance(0.4) ? (i64)r.below(std::min<i64>(sz, 24)) : (i64)r.below(sz);
    switch (on[r.below(on.size())]) {
    case 'f': p.k = "flip"; p.a = {pos, (i64)r.below(8)}; break;
    case 'b': p.k = "burst"; p.a = {pos, r.range(1, r.chance(0.2) ? 400 : 40), (i64)(r.next() >> 1)}; break;
    case 't': p.k = "trunc"; p.a = {pos}; break;
    case 's': p.k = "set"; p.a = {pos, (i64)r.below(256)}; break;
    case 'd': p.k = "drop"; break;
    case 'D': p.k = "dup"; break;
    case 'l': p.k = "late"; p.a = {r.range(1, 3)}; break;
    }
    L.ops.push_back(p);
  }
}
static void gen_env(Rng &r, HostSpec &h) {
  if (r.chance(0.6)) h.at["aseed"] = r.range(1, 1 << 30);
  if (r.chance(0.6)) h.at["sseed"] = r.range(1, 1 << 30);
  if (r.chance(0.5)) h.at["soff"] = (i64)r.below(2048) * 16;
  if (r.chance(0.5)) h.at["align"] = 1;
  if (r.chance(0.6)) h.at["place"] = r.range(1, 1 << 30);
  if (r.chance(0.3)) h.at["guard"] = 1;
  if (r.chance(0.3)) h.at["vinit"] = 1;
  if (r.chance(0.5)) h.at["scrib_out"] = r.range(1, 1 << 30);
  if (r.chance(0.5)) h.at["scrib_scr"] = r.range(1, 1 << 30);
}
static const char *ENV[] = {"place", "vinit", "aseed", "sseed", "soff", "align", "guard", "scrib_out", "scrib_scr"};
static void strip(HostSpec &h, std::initializer_list<const char *> ks) { for (auto k : ks) h.at.erase(k); }
static int gen_wd(Rng &r) { int w[] = {16, 24, 32}; return w[r.below(3)]; }
static Plan base(const char *id, u64 seed, Rng &r, int hosts = 1) { Plan p; p.prop = id; p.seed = seed; p.w.h.resize(hosts); for (int i = 0; i < hosts; i++) { LifeSpec l; l.stream = pick_stream(r); p.w.h[i].lives.push_back(l); if (hosts > 1) p.w.h[i].at["slot"] = i; } return p; }
static Rng rng_for(const char *id, u64 seed) { return Rng(mix64(seed * 1000003 + hash_bytes(id, strlen(id)))); }
static void gen_feed(Rng &r, HostSpec &h) {
  int m = r.below(4); if (m == 0) h.at["feed"] = 1; else if (m == 1) { h.at["feed"] = 2; h.at["feedseed"] = r.range(1, 1 << 30); }
  else { int n = r.range(1, 30); for (int k = 0; k < n; k++) h.feed[(int)r.below(30)] = r.chance(0.5) ? 0 : r.chance(0.5) ? r.range(1, 16) : r.range(1, 6000); }
  if (r.chance(0.7)) h.at["stale"] = r.range(1, 1 << 30);
}
// ---------------------------------------------------------------- P01 delivery
static void gen_cross(Rng &r, LifeSpec &l, bool damage);
static Plan gen01(u64 s, bool) {
  Rng r = rng_for("P01", s); Plan p = base("P01", s, r); auto &h = p.w.h[0]; gen_feed(r, h);
  if (r.chance(0.3)) h.lives[0].ov["wd"] = gen_wd(r);
  if (r.chance(0.15)) gen_cross(r, h.lives[0], false);
  return p;
}
static void ev01(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; for (auto &h : a.h) { strip(h, {"feed", "feedseed", "stale"}); h.feed.clear(); }
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (dead(X, v)) return; if (refbad(A, v)) return;
  std::string d, c = cmp(A.h[0].log, X.h[0].log, C_CONS | C_INFO, d); if (!c.empty()) v.fail("delivery:" + c, d);
  v.compared += nout(A.h[0].log); v.nontrivial = nout(A.h[0].log) > 0 && (X.faults.count("feed.short_delivery") || X.faults.count("mem.stale_input_tail"));
}
// ---------------------------------------------------------------- P02 isolation
static void gen_sched(Rng &r, WorldSpec &w, int hosts, bool th) {
  int style = r.below(5); int n = style == 1 ? 400 : th ? 6000 : 2500;
  if (style == 0) { for (int k = 0; k < n; k++) w.sched.push_back({(int)r.below(hosts), r.below(r.chance(0.2) ? 500000 : 5000) + 1}); }
  else if (style == 1) { for (int k = 0; k < n; k++) w.sched.push_back({(int)r.below(hosts), 1ull << 40}); }                       // whole calls
  else if (style == 2) { u64 q = 1ull << r.range(4, 17); for (int k = 0; k < n; k++) w.sched.push_back({k % hosts, q + r.below(3)}); }   // lock step
  else if (style == 3) { int regime = 0; u64 lim[] = {40, 3000, 200000, 4000000};                                                    // bursty: regimes of slice length
    for (int k = 0; k < n; k++) { if (r.chance(0.01)) regime = r.below(4); w.sched.push_back({(int)r.below(hosts), r.below(lim[regime]) + 1}); } }
  else { for (int k = 0; k < 40; k++) { int a = r.below(hosts), b = (a + 1 + r.below(hosts - 1)) % hosts; w.sched.push_back({a, r.below(6000000) + 1}); int m = r.range(1, 3); for (int j = 0; j < m; j++) w.sched.push_back({b, 1ull << 40}); } }   // stop one inside a call, run whole calls of another
}
static Plan gen02(u64 s, bool th) {
  Rng r = rng_for("P02", s); int n = r.chance(0.25) ? 3 : 2; Plan p = base("P02", s, r, n);
  if (r.chance(0.3)) for (int i = 1; i < n; i++) p.w.h[i].lives[0].stream = p.w.h[0].lives[0].stream;
  for (int i = 0; i < n; i++) { auto &h = p.w.h[i]; auto &l = h.lives[0];
    if (r.chance(0.35)) gen_corrupt(r, l, r.range(1, 3), "fbtsdDl");
    if (r.chance(0.15)) h.at["feed"] = 1;
    if (r.chance(0.2)) l.ov["wd"] = gen_wd(r);
    if (r.chance(0.1)) l.ov["failat"] = r.below(6);
    if (r.chance(0.2)) { LifeSpec m; m.stream = pick_stream(r); m.f1 = r.range(1, 3); if (r.chance(0.5)) h.lives.push_back(m); else { m.end = r.chance(0.3) ? 'k' : 'd'; h.lives.insert(h.lives.begin(), m); } }
  }
  gen_sched(r, p.w, n, th); return p;
}
static void ev02(const Plan &p, Verdict &v) {
  auto X = run(p.w, v, true); std::vector<WorldOut> A; bool rb = false;
  for (size_t i = 0; i < p.w.h.size(); i++) { WorldSpec a; a.h.push_back(p.w.h[i]); A.push_back(run(a, v, false)); if (refbad(A.back(), v)) rb = true; }
  if (rb) return; if (dead(X, v)) return;
  for (size_t i = 0; i < A.size(); i++) { std::string d, c = cmp(A[i].h[0].log, X.h[i].log, C_CONS | C_INFO, d); if (!c.empty()) v.fail("interference:" + c, "instance " + std::to_string(i) + " alone vs interleaved: " + d); v.compared += nout(A[i].h[0].log); }
  v.nontrivial = X.switches > 0;
}
// ---------------------------------------------------------------- P03 memory discipline (sanitizer flavour and guard pages)
static void gen_cuts(Rng &r, LifeSpec &l) {
  const HostCfg &h = corpus(l.stream).hc; auto c = [&](const char *k, const std::vector<u8> &b) { if (!b.empty() && r.chance(0.7)) l.ov[k] = r.below(b.size()); };
  c("cutei", h.ei); c("cutls", h.ls); c("cutsd", h.sd); c("cutbrir", h.brir); c("cutmaeg", h.maeg); c("cutmaei", h.maei); c("cutmaes", h.maes); c("cutmaep", h.maep);
}
static bool has_side(const HostCfg &h) { return !(h.ei.empty() && h.ls.empty() && h.sd.empty() && h.brir.empty() && h.maeg.empty() && h.maei.empty() && h.maes.empty() && h.maep.empty()); }
// host data (interaction, local setup, scene displacement, binaural responses, scene) of another stream, valid host parameters of another kind
static const std::vector<std::string> &donors(const char *k) {
  static std::map<std::string, std::vector<std::string>> m;
  if (m.empty()) for (auto &n : names()) { auto &h = corpus(n).hc; auto a = [&](const char *q, const std::vector<u8> &b) { if (!b.empty() && n[0] == 'g') m[q].push_back(n.substr(1)); };
    a("ei", h.ei); a("ls", h.ls); a("sd", h.sd); a("br", h.brir); a("mg", h.maeg); a("mi", h.maei); a("ms", h.maes); a("mp", h.maep); }
  return m[k];
}
static void gen_cross(Rng &r, LifeSpec &l, bool damage) {
  static const char *K[] = {"ei", "ls", "sd", "br", "mg", "ms", "mp"}; std::string only = r.chance(0.5) ? K[r.below(7)] : "";
  for (auto k : K) { if (donors(k).empty() || (only.empty() ? !r.chance(0.3) : only != k)) continue; auto &d = donors(k); l.ov[std::string("x_") + k] = atoll(d[r.below(d.size())].c_str()); }
  if (damage) for (auto k : K) if (r.chance(l.ov.count(std::string("x_") + k) ? 0.5 : 0.2)) l.ov[std::string("m_") + k] = r.range(1, 1 << 30);
  if (r.chance(0.3)) { i64 c = r.range(0, 20); l.ov["cicp"] = c == 8 ? 7 : c; } if (r.chance(0.2)) l.ov["effect"] = r.below(9); if (r.chance(0.2)) l.ov["preset"] = r.range(-1, 31); if (r.chance(0.2)) { l.ov["loud0"] = 1; l.ov["loud1"] = r.range(0, 252); }
  if (r.chance(0.1)) l.ov["ext"] = r.below(2);
}
static void gen_dcfg(Rng &r, LifeSpec &l) {   // damaged configurations anywhere in the stream
  i64 n = apply_ops(l).size();
  for (int j = r.range(1, 3); j > 0; j--) { PktOp o; o.k = "dcfg"; o.at = r.chance(0.2) ? -1 : (int)r.range(1, std::max<i64>(2, n)); o.s = r.chance(0.5) ? l.stream : pick_stream(r); o.a = {(i64)(r.next() >> 1)}; l.ops.push_back(o); }
}
static void gen_insf(Rng &r, LifeSpec &l) {   // frames of this or other streams anywhere
  i64 n = apply_ops(l).size();
  for (int j = r.range(1, 2); j > 0; j--) { PktOp o; o.k = "insf"; o.at = r.chance(0.2) ? -1 : (int)r.range(2, std::max<i64>(3, n)); o.s = r.chance(0.4) ? l.stream : pick_stream(r); i64 a = r.below(6); o.a = {a, a + r.range(1, 3)}; l.ops.push_back(o); }
}
static Plan gen03(u64 s, bool) {
  Rng r = rng_for("P03", s); Plan p = base("P03", s, r); auto &h = p.w.h[0]; auto &l = h.lives[0];
  int k = r.below(10);
  if (k < 6) gen_corrupt(r, l, r.range(1, 5), "fbtsdDl"); else if (k < 8) gen_corrupt(r, l, r.range(1, 4), "dDl");
  if (r.chance(0.4)) { h.at["feed"] = 2; h.at["feedseed"] = r.range(1, 1 << 30); }
  if (r.chance(0.3)) l.ov["wd"] = gen_wd(r);
  if (r.chance(0.3)) h.at["aseed"] = r.range(1, 1 << 30);
  if (r.chance(0.2)) { auto pk = apply_ops(l); size_t n = 0; for (auto &x : pk) n += x.d.size() + 4; l.cut = r.below(n); }
  if (r.chance(0.3)) h.at["guard"] = 1;
  if (r.chance(0.3)) gen_dcfg(r, l);
  return p;
}
static void ev03(const Plan &p, Verdict &v) {
  auto X = run(p.w, v, true); if (dead(X, v)) return;
  for (auto &h : X.h) if (h.viol == "memory" || h.viol == "input-buffer-written" || h.viol == "side-buffer-written" || h.viol == "output-size-range" || h.viol == "no-progress") v.fail(h.viol, h.vdetail);
  v.nontrivial = !X.faults.empty(); v.compared += X.h[0].log.size();
}
// ---------------------------------------------------------------- P04 allocation failure, release exactly once
static Plan gen04(u64 s, bool) {
  Rng r = rng_for("P04", s); Plan p = base("P04", s, r); auto &h = p.w.h[0]; h.lives[0].f1 = r.range(0, 2);
  h.lives[0].ov["failmask"] = s % 65 == 64 ? (i64)(r.next() & 0xffff) : (i64)(s % 65);          // every subset of the first six requests, in turn
  if (s % 65 == 0) { h.lives[0].end = 'u'; h.lives[0].max_calls = r.below(4); }
  if (r.chance(0.4)) { LifeSpec m; m.stream = pick_stream(r); m.f1 = 1; m.ov["failmask"] = 1 + r.below(63); h.lives.push_back(m); }
  LifeSpec z; z.stream = pick_stream(r); z.f1 = r.range(1, 3); h.lives.push_back(z);
  if (r.chance(0.5)) h.at["align"] = 1; if (r.chance(0.5)) h.at["aseed"] = r.range(1, 1 << 30); if (r.chance(0.3)) h.at["recycle"] = 1; if (r.chance(0.3)) h.at["guard"] = 1;
  return p;
}
static void ev04(const Plan &p, Verdict &v) {
  auto X = run(p.w, v, true); if (dead(X, v)) return; auto &H = X.h[0]; size_t nl = p.w.h[0].lives.size();
  if (H.viol == "memory") v.fail("memory", H.vdetail);
  for (size_t j = 0; j < nl; j++) { Log l = lifelog(H, j); if (l.empty()) continue;
    const CallOut &c = l[0]; bool failed = c.info > 0;   // info of create = refused requests
    if (failed && !(c.err & 0x8000)) v.fail("create-succeeds-without-memory", "life " + std::to_string(j) + ": " + std::to_string(c.info) + " requests refused, create returned 0");
    if (failed && (c.err & 0x8000) && (u32)c.err != 0xFFFF8000) v.fail("create-error-class", "life " + std::to_string(j) + ": create returned " + std::to_string((u32)c.err) + " after a refused request");
    if (!failed && ((u32)c.err & 0x8000)) v.fail("create-fails-with-memory", "life " + std::to_string(j) + " create returned " + std::to_string((u32)c.err));
    const CallOut &d = l.back(); if (d.op == OP_DELETE && d.out != 0) v.fail("leak", "life " + std::to_string(j) + ": " + std::to_string(d.out) + " blocks still allocated after delete");
    if (d.op == OP_DELETE && d.err != 0) v.fail("delete-error", "delete returned " + std::to_string((u32)d.err));
    if (failed) { v.probes["create_refused"]++; for (auto &e : l) if (e.op == OP_INIT || e.op == OP_EXEC) v.fail("harness", "unexpected call after refused create"); } }
  WorldSpec a = p.w; a.h[0].lives.assign(1, p.w.h[0].lives.back()); auto A = run(a, v, false); if (refbad(A, v)) return;
  if (a.h[0].lives[0].ov.count("failmask")) return;
  std::string d, c = cmp(A.h[0].log, lifelog(H, nl - 1), C_CONS | C_INFO, d); if (!c.empty()) v.fail("after-refused-create:" + c, d);
  v.compared += nout(A.h[0].log); v.nontrivial = X.faults.count("alloc.failed_request") || p.w.h[0].lives[0].end == 'u';
}
// ---------------------------------------------------------------- P05 bounded progress under corrupted and lossy input
static Plan gen05(u64 s, bool) {
  Rng r = rng_for("P05", s); Plan p = base("P05", s, r); auto &h = p.w.h[0]; auto &l = h.lives[0];
  gen_corrupt(r, l, r.range(1, 8), "fbtsdDl"); if (r.chance(0.3)) gen_dcfg(r, l); if (r.chance(0.15)) gen_insf(r, l); if (r.chance(0.15)) gen_cross(r, l, r.chance(0.5));
  if (r.chance(0.4)) { h.at["feed"] = 2; h.at["feedseed"] = r.range(1, 1 << 30); }
  if (r.chance(0.3)) h.at["stale"] = r.range(1, 1 << 30);
  if (r.chance(0.2)) { auto pk = apply_ops(l); size_t n = 0; for (auto &x : pk) n += x.d.size() + 4; l.cut = r.below(n); }
  if (r.chance(0.3)) for (int k = 0, n = r.range(1, 4); k < n; k++) h.feed[(int)r.range(1, 12)] = -10 - (i64)r.below(200);
  if (r.chance(0.3)) h.at["starve_keep"] = 0;
  return p;
}
static void ev05(const Plan &p, Verdict &v) {
  auto X = run(p.w, v, true); if (dead(X, v)) return;
  for (auto &h : X.h) if (h.viol == "no-progress" || h.viol == "consumed-range") v.fail(h.viol, h.vdetail);
  v.nontrivial = !X.faults.empty(); v.compared += X.h[0].log.size();
}
// ---------------------------------------------------------------- P06 output contract
static const int CICP_N[] = {0, 1, 2, 3, 4, 5, 6, 8, 2, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14};
static Plan gen06(u64 s, bool) {
  Rng r = rng_for("P06", s); Plan p = base("P06", s, r); auto &h = p.w.h[0]; auto &l = h.lives[0]; l.ov["wd"] = gen_wd(r);
  if (r.chance(0.6)) gen_corrupt(r, l, r.range(1, 4), "fbtsdDl");
  if (r.chance(0.25)) gen_dcfg(r, l); if (r.chance(0.15)) gen_insf(r, l);
  if (r.chance(0.3)) { PktOp q; q.k = "app"; q.s = pick_stream(r); q.a = {0, 3}; l.ops.push_back(q); l.ov["nosb"] = 1; }
  if (r.chance(0.3)) gen_feed(r, h);
  return p;
}
static void ev06(const Plan &p, Verdict &v) {
  auto X = run(p.w, v, true); if (dead(X, v)) return; const LifeSpec &L = p.w.h[0].lives[0]; HostCfg hc = life_cfg(L);
  if (X.h[0].viol == "output-size-range") v.fail("output-size-range", X.h[0].vdetail);
  // first packet of every segment: an output frame may be shorter only when it is the first of its segment (start-up delay removed)
  std::vector<int> start{0}; { LifeSpec b = L; b.ops.clear(); for (auto &o : L.ops) if (o.k != "app") b.ops.push_back(o); int at = apply_ops(b).size(); for (auto &o : L.ops) if (o.k == "app") { start.push_back(at); LifeSpec f; f.stream = o.s; f.f0 = o.a[0]; f.f1 = o.a[1]; f.ov = b.ov; at += apply_ops(f).size(); } }
  { auto pk = apply_ops(L); const std::vector<u8> *c = nullptr; for (size_t i = 0; i < pk.size(); i++) if (pk[i].type == PK_CONFIG) { if (c && *c != pk[i].d) start.push_back(i); c = &pk[i].d; }   // another configuration, damaged or not, may begin a segment
    std::sort(start.begin(), start.end()); }
  size_t seg = (size_t)-1; int len = 0, ch = 0, fs = 0; bool first = true;
  for (auto &e : X.h[0].log) { if (e.op != OP_EXEC) { if (e.op == OP_INIT && e.err == 0 && e.wd != hc.wd && e.wd) v.fail("word-size", "requested " + std::to_string(hc.wd) + " reported " + std::to_string(e.wd)); continue; }
    if (e.out <= 0) continue; char t[200]; snprintf(t, sizeof t, "packet %d: %d bytes, %d channels, %d bits, %d Hz, prerolls %d, err %x", e.pkt, e.out, e.nch, e.wd, e.fs, e.npre, (u32)e.err);
    if (e.wd != hc.wd) { v.fail("word-size", t); continue; }
    if (e.nch < 1 || e.nch > 24) { v.fail("channel-count", t); continue; }
    int unit = e.nch * (e.wd / 8); if (e.out % unit) { v.fail("partial-sample", t); continue; }
    int n = e.out / unit; size_t g = 0; while (g + 1 < start.size() && start[g + 1] <= e.pkt) g++;
    if (g != seg) { seg = g; len = 0; first = true; ch = e.nch; fs = e.fs; }
    if (e.nch != ch) v.fail("channel-count-changes", t);
    if (e.fs != fs) v.fail("sample-rate-changes", t);
    if (first) { first = false; if (n > 3 * 4096) v.fail("frame-length", t); len = -n; }
    else { bool ok = false; for (int f : {768, 1024, 2048, 4096}) if (n == f || n == f * 3 / 2 || n == f * 2 || n == f * 3) ok = true;
      if (len <= 0) { if (n < -len) v.fail("frame-length-shrinks", t); len = n; } else if (n != len) v.fail("frame-length-changes", t); if (!ok) v.fail("frame-length", t); }
    v.compared++; }
  v.nontrivial = nout(X.h[0].log) > 0;
}
// ---------------------------------------------------------------- P07 environment independence
static Plan gen07(u64 s, bool) {
  Rng r = rng_for("P07", s); Plan p = base("P07", s, r); auto &h = p.w.h[0]; gen_env(r, h);
  { auto &l = h.lives[0]; int x = r.below(10); if (x < 3) gen_corrupt(r, l, r.range(1, 4), "fbtsdDl"); else if (x < 5) gen_cross(r, l, r.chance(0.5));
    if (r.chance(0.2)) gen_dcfg(r, l); if (r.chance(0.15)) gen_insf(r, l); }
  if (r.chance(0.3)) gen_corrupt(r, h.lives[0], r.range(1, 3), "dDl");
  if (r.chance(0.3)) h.lives[0].ov["wd"] = gen_wd(r);
  if (h.at.empty()) h.at["aseed"] = 1 + (i64)(s & 0xffff);
  return p;
}
static void ev07(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; for (auto &h : a.h) for (auto k : ENV) h.at.erase(k);
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (dead(X, v)) return; if (refbad(A, v)) return;
  std::string d, c = cmp(A.h[0].log, X.h[0].log, C_CONS | C_INFO, d); if (!c.empty()) v.fail("environment:" + c, d);
  for (auto k : ENV) if (p.w.h[0].at.count(k)) v.faults[std::string("env.") + k]++;
  v.compared += nout(A.h[0].log); v.nontrivial = nout(A.h[0].log) > 0;
}
// ---------------------------------------------------------------- P08 history independence
static Plan gen08(u64 s, bool th) {
  Rng r = rng_for("P08", s); Plan p = base("P08", s, r); auto &h = p.w.h[0]; int n = r.range(1, th ? 4 : 2);
  for (int k = 0; k < n; k++) { LifeSpec m; m.stream = r.chance(0.25) ? h.lives.back().stream : pick_stream(r); m.f1 = r.chance(0.5) ? r.range(0, 4) : -1;
    int e = r.below(10); m.end = e < 5 ? 'd' : e < 8 ? 'k' : 'u'; if (r.chance(0.3)) m.max_calls = r.below(4);
    if (r.chance(0.4)) gen_corrupt(r, m, r.range(1, 4), "fbtsdDl"); if (r.chance(0.2)) gen_dcfg(r, m); if (r.chance(0.15)) gen_insf(r, m); if (r.chance(0.15)) gen_cross(r, m, r.chance(0.5)); if (r.chance(0.2)) m.cut = r.below(2000); if (r.chance(0.15)) gen_cuts(r, m); if (r.chance(0.1)) m.ov["failat"] = r.below(6); if (r.chance(0.2)) m.ov["wd"] = gen_wd(r);
    if (r.chance(0.15)) m.ov["execfirst"] = 1;
    h.lives.insert(h.lives.begin(), m); }
  if (r.chance(0.6)) h.at["recycle"] = 1; if (r.chance(0.3)) h.at["aseed"] = r.range(1, 1 << 30); if (r.chance(0.3)) h.at["sseed"] = r.range(1, 1 << 30);
  return p;
}
static void ev08(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; a.h[0].lives.assign(1, p.w.h[0].lives.back()); auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return;
  std::string d, c = cmp(A.h[0].log, lifelog(X.h[0], p.w.h[0].lives.size() - 1), C_CONS | C_INFO, d); if (!c.empty()) v.fail("history:" + c, d);
  for (auto &l : p.w.h[0].lives) { v.faults[l.end == 'k' ? "life.abandoned" : l.end == 'u' ? "life.deleted_early" : "life.ended"]++; for (auto &o : l.ov) if (o.first.substr(0, 3) == "cut") v.faults["life.truncated_side_data"]++; }
  v.compared += nout(A.h[0].log); v.nontrivial = nout(A.h[0].log) > 0 && p.w.h[0].lives.size() > 1;
}
// ---------------------------------------------------------------- P09 / P11 configuration change: every segment decodes as if fresh
static bool cfg_diff(const Stream &a, const Stream &b) { const Pkt *x = 0, *y = 0; for (auto &k : a.p) if (k.type == PK_CONFIG) { x = &k; break; } for (auto &k : b.p) if (k.type == PK_CONFIG) { y = &k; break; } return x && y && x->d != y->d; }
static bool plain(const std::string &n) { auto &h = corpus(n).hc; return !has_side(h) && !h.resamp; }
static Plan gen_change(const char *id, u64 s, bool faults) {
  Rng r = rng_for(id, s); Plan p = base(id, s, r); auto &l = p.w.h[0].lives[0];
  l.ov["nosb"] = 1; l.ov["resamp"] = 0; if (r.chance(0.5)) l.f1 = r.range(1, 4);
  if (r.chance(0.35)) { static const char *K[] = {"br", "br", "ls"}; auto k = K[r.below(3)]; auto &d = donors(k); if (!d.empty()) { auto q = d[r.below(d.size())]; l.ov[std::string("x_") + k] = atoll(q.c_str()); if (r.chance(0.7)) l.stream = "g" + q; } }   // binaural responses or a loudspeaker set-up of the host stay in force
  if (faults) { gen_corrupt(r, l, r.range(1, 4), "fbtsdDl"); p.w.h[0].at["feed"] = 1; }
  int n = r.range(1, 3); std::string prev = l.stream; for (int k = 0; k < n; k++) { PktOp q; q.k = "app"; for (int t = 0; t < 8; t++) { q.s = k && r.chance(0.4) ? l.stream : pick_stream(r); if (cfg_diff(corpus(prev), corpus(q.s))) break; } q.a = {0, r.range(2, 6)};
    if (faults && r.chance(0.5)) for (int j = r.range(1, 3); j > 0; j--) { PktOp o; o.at = -1; o.s = r.chance(0.5) ? q.s : pick_stream(r); if (r.chance(0.6)) { o.k = "dcfg"; o.a = {(i64)(r.next() >> 1)}; } else { o.k = "insf"; i64 b = r.below(6); o.a = {b, b + r.range(1, 3)}; } l.ops.push_back(o); }
    l.ops.push_back(q); prev = q.s; }
  if (!faults && r.chance(0.3)) gen_feed(r, p.w.h[0]); if (r.chance(0.2)) l.ov["wd"] = gen_wd(r);
  return p;
}
static Plan gen09(u64 s, bool) { return gen_change("P09", s, true); }
static Plan gen11(u64 s, bool) { return gen_change("P11", s, false); }
static void ev_change(const Plan &p, Verdict &v) {
  const LifeSpec &L = p.w.h[0].lives[0]; HostCfg hc = life_cfg(L);
  auto X = run(p.w, v, true);
  std::vector<const PktOp *> app; std::vector<LifeSpec> before; for (size_t i = 0; i < L.ops.size(); i++) if (L.ops[i].k == "app") { app.push_back(&L.ops[i]); LifeSpec b = L; b.ops.resize(i); before.push_back(b); }
  if (app.empty()) return;
  { WorldSpec a; a.h.resize(1); LifeSpec f = L; f.ops.clear(); a.h[0].lives.push_back(f); auto A = run(a, v, false); if (refbad(A, v)) return; if (nout(A.h[0].log) == 0) return; }   // the first stream must be one the decoder accepts
  for (size_t k = 0; k < app.size(); k++) {
    auto *o = app[k]; LifeSpec f; f.stream = o->s; f.f0 = o->a[0]; f.f1 = o->a[1]; f.ov = L.ov; f.ov["nosb"] = 1; f.ov["wd"] = hc.wd; f.ov["cicp"] = hc.cicp; f.ov["effect"] = hc.effect; f.ov["loud0"] = hc.loud0; f.ov["loud1"] = hc.loud1; f.ov["preset"] = hc.preset; f.ov["ext"] = hc.ext; f.ov["resamp"] = 0; f.ov["fs"] = hc.out_fs;
    WorldSpec a; a.h.resize(1); a.h[0].lives.push_back(f); auto seg = apply_ops(f), pre = apply_ops(before[k]); int np = seg.size(), at = pre.size(); auto A = run(a, v, false); if (refbad(A, v)) return;
    Log x = sel(A.h[0], OP_EXEC, true), y; if (!X.ok) { dead(X, v); return; }
    for (auto &e : X.h[0].log) if (e.op == OP_EXEC && e.out > 0 && e.pkt >= at && e.pkt < at + np) y.push_back(e);
    const Pkt *c0 = nullptr, *c1 = nullptr; for (auto &q : pre) if (q.type == PK_CONFIG) c0 = &q; for (auto &q : seg) if (q.type == PK_CONFIG) { c1 = &q; break; }
    if (x.empty() || !c0 || !c1 || c0->d == c1->d) continue;   // judged: a configuration the decoder accepts, different from the last one it was given
    for (auto &e : y) e.pkt -= at; std::string d, c = cmp(x, y, 0, d); if (!c.empty()) { v.fail("change:" + c, "segment " + o->s + " fresh vs after change: " + d); return; } v.compared += x.size(); v.nontrivial = true;
  }
  v.faults["channel.reconfigure"] += app.size();
}
// ---------------------------------------------------------------- P12 repeated configuration packets
static Plan gen12(u64 s, bool) {
  Rng r = rng_for("P12", s); Plan p = base("P12", s, r); auto &l = p.w.h[0].lives[0]; auto pk = apply_ops(l); auto f = frames_of(pk); if (f.empty()) return p;
  int n = r.range(1, 6); for (int k = 0; k < n; k++) { PktOp q; q.k = "cpcfg"; q.at = f[r.below(f.size())]; l.ops.push_back(q); }
  if (r.chance(0.3)) gen_feed(r, p.w.h[0]);
  return p;
}
static void ev12(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; auto &o = a.h[0].lives[0].ops; o.erase(std::remove_if(o.begin(), o.end(), [](const PktOp &q) { return q.k == "cpcfg"; }), o.end()); strip(a.h[0], {"feed", "feedseed", "stale"}); a.h[0].feed.clear();
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return;
  std::string d, c = cmp(sel(A.h[0], OP_EXEC, true), sel(X.h[0], OP_EXEC, true), 0, d); if (!c.empty()) v.fail("repeat:" + c, d);
  for (auto &e : X.h[0].log) if (e.op == OP_EXEC && e.out == 0 && e.err && nout(A.h[0].log) == sel(A.h[0], OP_EXEC, false).size()) v.fail("repeat:error", "a repeated configuration packet was answered with error " + std::to_string((u32)e.err));
  v.compared += nout(A.h[0].log); v.nontrivial = nout(A.h[0].log) > 0 && X.faults.count("channel.cpcfg");
}
// ---------------------------------------------------------------- P13 API misuse: execute before init
static Plan gen13(u64 s, bool) {
  Rng r = rng_for("P13", s); Plan p = base("P13", s, r); auto &h = p.w.h[0]; auto &l = h.lives[0]; if (r.chance(0.5)) l.f1 = r.range(1, 4);
  bool first = r.chance(0.5); if (first) l.ov["execfirst"] = r.range(1, 3);
  if (!first || r.chance(0.4)) {   // calls between initialisation attempts that fail
    l.ov["execmid"] = r.range(1, 2); int k = r.below(4);
    if (k == 0 && has_side(life_cfg(l))) gen_cuts(r, l);
    else damage_cfg(r, l);
  }
  if (r.chance(0.3)) gen_env(r, h); return p;
}
static void ev13(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; a.h[0].lives[0].ov.erase("execfirst"); a.h[0].lives[0].ov.erase("execmid"); auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return; Log y;
  for (auto &e : X.h[0].log) { if (e.early) { if (e.err == 0) v.fail("premature-accepted", "execute before initialisation returned no error"); if (e.out != 0) v.fail("premature-output", "execute before initialisation produced " + std::to_string(e.out) + " bytes"); v.probes["premature_execute"]++; } else y.push_back(e); }
  if (X.h[0].viol == "memory") v.fail("memory", X.h[0].vdetail);
  std::string d, c = cmp(A.h[0].log, y, C_CONS | C_INFO, d); if (!c.empty()) v.fail("after-premature:" + c, d);
  v.compared += nout(A.h[0].log); v.nontrivial = X.h[0].log.size() > A.h[0].log.size();
  for (auto &e : y) if (e.op == OP_INIT && &e != &y.back()) { v.probes["initialisation_attempts"]++; }
}
// ---------------------------------------------------------------- P14 non-audio packets are transparent
static Plan gen14(u64 s, bool) {
  Rng r = rng_for("P14", s); Plan p = base("P14", s, r); auto &l = p.w.h[0].lives[0]; auto pk = apply_ops(l); static const int types[] = {0, 8, 9, 10, 11, 7, 13, 14, 15, 16, 17, 18, 4, 5, 100, 300}; int n = r.range(1, 8);
  for (int k = 0; k < n; k++) { PktOp q; q.k = "add"; q.at = r.below(pk.size() + 1); if (q.at == (int)pk.size()) q.at = -1; q.a = {types[r.below(16)], (i64)r.below(r.chance(0.1) ? 70000 : 5), (i64)r.below(r.chance(0.15) ? 2500 : 60), (i64)(r.next() >> 1)}; if (r.chance(0.2)) q.a = {6, 0, 1, 0}; l.ops.push_back(q); }
  if (r.chance(0.3)) gen_feed(r, p.w.h[0]);
  return p;
}
static void ev14(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; auto &o = a.h[0].lives[0].ops; o.erase(std::remove_if(o.begin(), o.end(), [](const PktOp &q) { return q.k == "add"; }), o.end()); strip(a.h[0], {"feed", "feedseed", "stale"}); a.h[0].feed.clear();
  // what the host must be able to hand over in one call may not exceed the input buffer
  { auto pk = apply_ops(p.w.h[0].lives[0]); size_t run_ = 0; for (auto &k : pk) { run_ += k.d.size() + 12; if (run_ > 16000) return; if (is_stop(k.type)) run_ = 0; } }
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return;
  std::string d, c = cmp(sel(A.h[0], OP_EXEC, true), sel(X.h[0], OP_EXEC, true), 0, d); if (!c.empty()) v.fail("inserted:" + c, d);
  v.compared += nout(A.h[0].log); v.nontrivial = nout(A.h[0].log) > 0 && X.faults.count("channel.add");
}
// ---------------------------------------------------------------- P15 causality: later faults never change earlier output
static Plan gen15(u64 s, bool) {
  Rng r = rng_for("P15", s); Plan p = base("P15", s, r); auto &l = p.w.h[0].lives[0]; auto pk = apply_ops(l);
  if (r.chance(0.35)) { size_t n = 0; for (auto &x : pk) n += x.d.size() + 4; l.cut = r.below(n); }
  else if (r.chance(0.5)) gen_corrupt(r, l, r.range(1, 4), "fbtsdDl");
  else {   // other data in place of what follows: another stream, or packets of all kinds
    int k = r.below(3); if (k != 1) { l.f1 = r.range(1, 6); PktOp q; q.k = "app"; q.at = 1 << 20; q.s = r.chance(0.3) ? l.stream : pick_stream(r); q.a = {0, r.range(1, 4)}; l.ops.push_back(q); l.ov["nosb"] = has_side(life_cfg(l)); }
    if (k != 0) { pk = apply_ops(l); static const int types[] = {0, 1, 1, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 100}; for (int n = r.range(1, 3); n > 0; n--) { PktOp q; q.k = "add"; q.at = r.below(pk.size()); q.a = {types[r.below(22)], (i64)r.below(3), (i64)r.below(60), (i64)(r.next() >> 1)}; l.ops.push_back(q); } } }
  if (r.chance(0.3)) gen_feed(r, p.w.h[0]);
  return p;
}
static void ev15(const Plan &p, Verdict &v) {
  const LifeSpec &L = p.w.h[0].lives[0]; WorldSpec a = p.w; a.h[0].lives[0].ops.clear(); a.h[0].lives[0].cut = -1; strip(a.h[0], {"feed", "feedseed", "stale"}); a.h[0].feed.clear();
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return;
  auto pk = apply_ops(a.h[0].lives[0]); int first = 1 << 30; for (auto &o : L.ops) first = std::min(first, o.at < 0 ? (int)pk.size() : std::min(o.at, (int)pk.size())); int cutp = 1 << 30;
  if (L.cut >= 0) { std::vector<u8> b; for (size_t i = 0; i < pk.size(); i++) { mhas_put(b, pk[i]); if ((i64)b.size() > L.cut) { cutp = i; break; } } }
  Log x, y; for (auto &e : A.h[0].log) if (e.op == OP_EXEC && e.out > 0 && e.pkt < std::min(first, cutp)) x.push_back(e);
  for (auto &e : X.h[0].log) if (e.op == OP_EXEC && e.out > 0 && e.pkt < std::min(first, cutp)) y.push_back(e);
  std::string d, c = cmp(x, y, 0, d); if (!c.empty()) v.fail("earlier-output:" + c, d);
  v.compared += x.size(); v.nontrivial = !x.empty() && !X.faults.empty();
}
// ---------------------------------------------------------------- P16 raw and packetised transport agree
static Plan gen16(u64 s, bool) {
  Rng r = rng_for("P16", s); Plan p = base("P16", s, r); auto &l = p.w.h[0].lives[0]; l.ov["raw"] = 1; l.ov["mhas"] = 0;
  if (r.chance(0.3)) l.ov["wd"] = gen_wd(r); if (r.chance(0.4)) p.w.h[0].at["stale"] = r.range(1, 1 << 30); return p;
}
static void ev16(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; a.h[0].lives[0].ov.erase("raw"); a.h[0].lives[0].ov.erase("mhas"); strip(a.h[0], {"stale"}); 
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return;
  std::string d, c = cmp(sel(A.h[0], OP_EXEC, true), sel(X.h[0], OP_EXEC, true), 0, d); if (!c.empty()) v.fail("transport:" + c, d);
  v.compared += nout(A.h[0].log); v.nontrivial = nout(A.h[0].log) > 0;
}
// ---------------------------------------------------------------- P17 truncated side information
static Plan gen17(u64 s, bool) {
  Rng r = rng_for("P17", s); Plan p = base("P17", s, r); auto &l = p.w.h[0].lives[0];
  for (int t = 0; t < 200 && !has_side(corpus(l.stream).hc); t++) l.stream = pick_stream(r);
  for (int t = 0; t < 5; t++) { gen_cuts(r, l); if (!l.ov.empty()) break; } if (r.chance(0.5)) { if (r.chance(0.6)) l.ov.clear(); gen_cross(r, l, r.chance(0.6)); } l.f1 = r.range(1, 4); if (r.chance(0.5)) p.w.h[0].at["soff"] = r.range(1, 1 << 20); if (r.chance(0.5)) p.w.h[0].at["sseed"] = r.range(1, 1 << 30); LifeSpec z = l; z.ov.clear(); p.w.h[0].lives.push_back(z); if (r.chance(0.5)) p.w.h[0].at["recycle"] = 1; return p;
}
static void ev17(const Plan &p, Verdict &v) {
  auto X = run(p.w, v, true); if (dead(X, v)) return; auto &H = X.h[0];
  if (H.viol == "memory" || H.viol == "input-buffer-written" || H.viol == "side-buffer-written" || H.viol == "no-progress" || H.viol == "output-size-range") v.fail(H.viol, H.vdetail);
  WorldSpec a = p.w; a.h[0].lives.assign(1, p.w.h[0].lives.back()); auto A = run(a, v, false); if (refbad(A, v)) return;
  std::string d, c = cmp(A.h[0].log, lifelog(H, p.w.h[0].lives.size() - 1), C_CONS | C_INFO, d); if (!c.empty()) v.fail("after-truncated-side-data:" + c, d);
  for (auto &e : H.log) if (e.op == OP_INIT && e.life == 0 && ((u32)e.err & 0xFFFFFFF8) == 0x1000 && (e.err & 7)) v.probes["truncation_reported"]++;
  for (auto &o : p.w.h[0].lives[0].ov) v.faults["side." + o.first]++;
  v.compared += nout(A.h[0].log); v.nontrivial = !p.w.h[0].lives[0].ov.empty();
}
// ---------------------------------------------------------------- P18 starvation
static Plan gen18(u64 s, bool) {
  Rng r = rng_for("P18", s); Plan p = base("P18", s, r); auto &h = p.w.h[0]; int n = r.range(1, 4); for (int k = 0; k < n; k++) h.feed[(int)r.range(1, 10)] = -10 - (i64)r.below(r.chance(0.5) ? 12 : 600); h.at["starve_keep"] = 1; return p;
}
static void ev18(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; a.h[0].feed.clear(); auto A = run(a, v, false); if (refbad(A, v)) return; std::map<int, int> need; for (auto &e : A.h[0].log) if (e.op == OP_EXEC && e.err == 0) need[e.pos] = e.consumed;
  auto X = run(p.w, v, true); if (dead(X, v)) return;
  // only the first starved call of a run: what follows may depend on the part of the packet already decoded
  for (auto &e : X.h[0].log) { if (e.op != OP_EXEC) continue; auto it = need.find(e.pos); if (it == need.end() || e.supplied >= it->second) { if (e.consumed != (it == need.end() ? -1 : it->second)) break; continue; }
    v.probes["starved_execute"]++; v.nontrivial = true; v.compared++;
    char t[160]; snprintf(t, sizeof t, "execute given %d of the %d bytes the packet needs: err %x consumed %d out %d", e.supplied, it->second, (u32)e.err, e.consumed, e.out);
    if (e.out != 0) v.fail("starved-output", t); if (e.err == 0) v.fail("starved-accepted", t); break; }
}
// ---------------------------------------------------------------- P19 host parameters: an invalid one is reported, replaced by its default and touches nothing else
static const struct { const char *k; int err, dflt; } HP[] = {{"wd", 0x800, 16}, {"effect", 0x802, 0}, {"cicp", 0x803, 0}, {"preset", 0x804, -1}};
static bool hp_bad(const char *k, i64 v) { std::string n = k; return n == "wd" ? v != 16 && v != 24 && v != 32 : n == "effect" ? v < 0 || v > 8 : n == "cicp" ? v < 0 || v > 20 : v >= 32; }
static bool loud_bad(const HostCfg &h) { return h.loud0 == 1 && (h.loud1 < -3 || h.loud1 > 255); }
static Plan gen19(u64 s, bool) {
  Rng r = rng_for("P19", s); Plan p = base("P19", s, r); auto &h = p.w.h[0]; auto &o = h.lives[0].ov; h.lives[0].f1 = r.range(2, 8);
  static const int big[] = {21, 33, 64, 100, 127, 255, 1000, 65536, 0x7fffffff, -1, -2, -100, (int)0x80000000}; auto ext = [&] { return (i64)big[r.below(13)]; };
  int n = 0;
  for (int t = 0; t < 4 && !n; t++) {
    if (r.chance(0.5)) { n++; int w[] = {16, 24, 32, 8, 0, 17, 20, 48}; o["wd"] = r.chance(0.2) ? ext() : w[r.below(8)]; }
    if (r.chance(0.4)) { n++; o["effect"] = r.chance(0.5) ? r.below(9) : r.chance(0.4) ? 9 : ext(); }
    if (r.chance(0.4)) { n++; i64 c = r.chance(0.5) ? r.range(1, 19) : r.chance(0.4) ? 21 : ext(); o["cicp"] = c == 8 ? 7 : c; }
    if (r.chance(0.4)) { n++; o["preset"] = r.chance(0.5) ? r.range(-1, 31) : r.range(32, 127); }
    if (r.chance(0.4)) { n++; o["loud0"] = 1; o["loud1"] = r.chance(0.5) ? r.range(0, 252) : r.chance(0.5) ? r.range(256, 5000) : -r.range(4, 5000); }
  }
  if (r.chance(0.3)) gen_env(r, h); return p;
}
static void ev19(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; auto &o = a.h[0].lives[0].ov; HostCfg hc = life_cfg(p.w.h[0].lives[0]); std::vector<int> codes;
  for (auto &q : HP) { std::string k = q.k; i64 x = k == "wd" ? hc.wd : k == "effect" ? hc.effect : k == "cicp" ? hc.cicp : hc.preset; if (hp_bad(q.k, x)) { codes.push_back(q.err); o[k] = q.dflt; v.faults["host.invalid_" + k]++; } }
  if (loud_bad(hc)) { codes.push_back(0x801); o["loud0"] = 0; o["loud1"] = 0; v.faults["host.invalid_loudness"]++; }
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return; if (X.h[0].log.empty() || A.h[0].log.empty()) return;
  auto &H = X.h[0]; u32 e = (u32)H.log[0].err; std::string val; { char t[120]; snprintf(t, sizeof t, " (word size %d effect %d layout %d preset %d loudness %d/%d)", hc.wd, hc.effect, hc.cicp, hc.preset, hc.loud0, hc.loud1); val = t; }
  char t[60]; snprintf(t, sizeof t, "create returned %x", e);
  if (e & 0x8000) { v.fail("create-fails", t + val); return; }
  if (codes.empty() ? e != 0 : std::find(codes.begin(), codes.end(), (int)e) == codes.end()) v.fail(codes.empty() ? "valid-reported" : e ? "wrong-code" : "invalid-not-reported", t + val);
  if (H.viol == "host-parameters-written") v.fail(H.viol, H.vdetail);
  Log x = A.h[0].log, y = H.log; x[0].err = y[0].err; std::string d, c = cmp(x, y, C_CONS | C_INFO, d); if (!c.empty()) v.fail("parameters:" + c, d + val);
  v.compared += nout(x); v.nontrivial = !codes.empty();
}
// ---------------------------------------------------------------- P20 joining a running stream: what precedes the first acceptable configuration is skipped
static bool p20op(const PktOp &q) { return q.k == "insf" || q.k == "dcfg" || q.k == "add"; }
static Plan gen20(u64 s, bool) {
  Rng r = rng_for("P20", s); Plan p = base("P20", s, r); auto &h = p.w.h[0]; auto &l = h.lives[0]; l.f1 = r.range(2, 8); h.at["maxinit"] = 200;
  int kinds = r.range(1, 7), n = r.range(1, 5);
  for (int k = 0; k < n; k++) { PktOp q; q.at = 0; int x = r.below(3); if (!(kinds >> x & 1)) { k--; continue; }
    if (x == 0) { q.k = "insf"; q.s = r.chance(0.5) ? l.stream : pick_stream(r); i64 a = r.below(6); q.a = {a, a + r.range(1, 3)}; }
    else if (x == 1) { q.k = "dcfg"; q.s = r.chance(0.4) ? l.stream : pick_stream(r); q.a = {(i64)(r.next() >> 1)}; }
    else { static const int types[] = {0, 6, 8, 9, 10, 11, 7, 14, 15, 16, 17, 18, 100, 300}; q.k = "add"; q.a = {types[r.below(14)], (i64)r.below(5), (i64)r.below(60), (i64)(r.next() >> 1)}; if (q.a[0] == 6) q.a[2] = 1; }
    l.ops.push_back(q); }
  if (r.chance(0.4)) h.at["framed"] = 0;
  if (r.chance(0.3)) gen_feed(r, h);
  if (r.chance(0.2)) gen_env(r, h);
  return p;
}
static void ev20(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; auto &o = a.h[0].lives[0].ops; o.erase(std::remove_if(o.begin(), o.end(), p20op), o.end()); strip(a.h[0], {"feed", "feedseed", "stale"}); a.h[0].feed.clear();
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return;
  auto pk = apply_ops(p.w.h[0].lives[0]); size_t np = pk.size() - apply_ops(a.h[0].lives[0]).size(); std::vector<u8> b; std::vector<int> at; std::vector<size_t> end; for (size_t i = 0; i < np; i++) { at.push_back((int)b.size()); mhas_put(b, pk[i]); end.push_back(b.size()); }
  int from = 0; for (size_t i = 0; i < np; i++) if (is_stop(pk[i].type)) from = (int)end[i];   // a call starting here or later meets the intact configuration first
  if (A.h[0].log.size() < 2 || A.h[0].log[1].op != OP_INIT || A.h[0].log[1].err || A.h[0].log[1].nch == 0) return;   // the stream's own configuration is accepted by the first call
  for (auto &e : X.h[0].log) if (e.op == OP_INIT) { bool frame = false, cfg = false; for (size_t i = 0; i < np; i++) if (e.pos < (int)end[i] && e.pos >= at[i]) { size_t j = i; while (j < np && !is_stop(pk[j].type)) j++; if (j < np) (pk[j].type == PK_CONFIG ? cfg : frame) = true; }
    if (e.pos >= from) continue; v.probes["initialisation_skipped"]++;
    if (frame && e.err == 0) v.fail("join:frame-accepted", "an initialisation call that was given a frame reported no error, packet " + std::to_string(e.pkt)); if (cfg && e.err) v.probes["configuration_rejected"]++; }
  Log x, y; int last = -1; for (size_t i = 0; i < X.h[0].log.size(); i++) if (X.h[0].log[i].op == OP_INIT) last = (int)i; if (last < 0) return;
  if (X.h[0].log[last].pos < from && X.h[0].log.size() > (size_t)last + 1 && X.h[0].log[last + 1].op == OP_EXEC) {   // it settled on something before: judged only when there was no configuration before
    for (auto &q : p.w.h[0].lives[0].ops) if (q.k == "dcfg") { v.probes["damaged_configuration_accepted"]++; return; }
    v.fail("join:settled-early", "initialisation succeeded at byte " + std::to_string(X.h[0].log[last].pos) + " although the first configuration starts after byte " + std::to_string(from)); return; }
  for (size_t i = 1; i < A.h[0].log.size(); i++) x.push_back(A.h[0].log[i]); for (size_t i = last; i < X.h[0].log.size(); i++) y.push_back(X.h[0].log[i]);
  if (y[0].op == OP_INIT) y[0].consumed = x[0].consumed;   // non-audio packets before the configuration are consumed with it
  std::string d, c = cmp(x, y, C_CONS | C_INFO, d); if (!c.empty()) v.fail("join:" + c, d);
  v.compared += nout(x); v.nontrivial = nout(x) > 0 && last > 1;
}
// ---------------------------------------------------------------- P21 packet framing survives whatever the packets hold
static Plan gen21(u64 s, bool) {
  Rng r = rng_for("P21", s); Plan p = base("P21", s, r); auto &h = p.w.h[0]; auto &l = h.lives[0]; if (r.chance(0.5)) l.f1 = r.range(3, 12);
  int k = r.range(1, 7); auto f = frames_of(apply_ops(l)); size_t n = apply_ops(l).size();
  if (k & 1) { gen_corrupt(r, l, r.range(1, 5), "fbtsdDl"); if (r.chance(0.3)) { PktOp o; if (!f.empty()) { o.at = f[r.below(f.size())]; o.k = "grow"; o.a = {r.range(1, 40), (i64)(r.next() >> 1)}; l.ops.push_back(o); } } }
  if (k & 2) for (int q = r.range(1, 2); q > 0; q--) { PktOp o; o.at = r.chance(0.2) ? -1 : (int)r.range(2, std::max<i64>(3, n)); o.k = "insf"; o.s = r.chance(0.4) ? l.stream : pick_stream(r); i64 a = r.below(6); o.a = {a, a + r.range(1, 3)}; l.ops.push_back(o); }
  if (k & 4) { PktOp o; o.at = r.chance(0.4) ? -1 : (int)r.range(2, std::max<i64>(3, n)); int x = r.below(3); o.s = pick_stream(r);
    if (x == 0) { o.k = "ins"; o.a = {0, r.range(1, 4)}; } else if (x == 1) { o.k = "dcfg"; o.a = {(i64)(r.next() >> 1)}; } else o.k = "cpcfg"; l.ops.push_back(o); }
  h.at["framed"] = 0; h.at["maxinit"] = 200; if (r.chance(0.4)) gen_feed(r, h); if (r.chance(0.2)) gen_env(r, h);
  return p;
}
static void ev21(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; a.h[0].at["framed"] = 1; strip(a.h[0], {"feed", "feedseed", "stale"}); a.h[0].feed.clear();
  auto A = run(a, v, false); auto X = run(p.w, v, true); if (refbad(A, v)) return; if (dead(X, v)) return;
  auto &x = X.h[0].log; auto &y = A.h[0].log; bool init = false; for (auto &e : y) if (e.op == OP_EXEC) init = true; if (!init) return;   // host data refused: the stream is not reached
  std::string d, c = cmp(y, x, C_CONS | C_INFO, d); if (!c.empty()) { v.fail("framing:" + c, d); return; }
  for (size_t i = 0; i < x.size(); i++) if (x[i].pos != y[i].pos) { v.fail("framing:position", "call " + std::to_string(i) + " starts at byte " + std::to_string(x[i].pos) + ", the packet it belongs to at " + std::to_string(y[i].pos)); return; }
  u64 bad = 0; for (auto &e : x) bad += e.op == OP_EXEC && e.err; v.probes["failed_calls"] += bad; v.compared += x.size(); v.nontrivial = !X.faults.empty();
}
// ---------------------------------------------------------------- P22 recovery: decoding resumes with the first intact frame that can be decoded on its own
static bool indep(const Pkt &k) { return k.type == PK_FRAME && k.d.size() && k.d[0] & 0x80; }
static bool refers_back(int e) { u32 c = (u32)e & 0xffff; return c == 0x9022 || c == 0x9023 || c == 0x901e; }   // its aliasing cancellation data belong to a predecessor that is not there
static bool p22out(const std::string &f) { return f.find("preroll,") != std::string::npos || f.find("hoa,") != std::string::npos || f.find("hoa0,") == std::string::npos; }   // frames that carry a configuration may change it when damaged; scene-based side information has an independency of its own
static Plan gen22(u64 s, bool) {
  Rng r = rng_for("P22", s); Plan p = base("P22", s, r); auto &h = p.w.h[0]; auto &l = h.lives[0]; std::vector<int> f, q;
  for (int n = 0; n < 40; n++) { q.clear(); f.clear(); if (!p22out(corpus(l.stream).feat)) { auto pk = apply_ops(l); f = frames_of(pk); for (size_t i = 1; i < f.size(); i++) if (indep(pk[f[i]])) q.push_back((int)i); } if (!q.empty()) break; l.stream = pick_stream(r); }
  if (q.empty()) return p;
  int k = q[r.below(q.size())]; LifeSpec t = l; t.f1 = k;   // everything in front of frame k may suffer
  gen_corrupt(r, t, r.range(1, 5), "fbtsdDl"); l.ops = t.ops; for (auto &o : l.ops) if (o.k == "late") o.a[0] = std::min<i64>(o.a[0], std::max(0, f[k] - 1 - o.at)); l.ops.erase(std::remove_if(l.ops.begin(), l.ops.end(), [](const PktOp &o) { return o.k == "late" && o.a[0] < 1; }), l.ops.end());
  if (r.chance(0.25)) { PktOp o; o.k = "insf"; o.s = pick_stream(r); i64 a = r.below(5); o.a = {a, a + r.range(1, 3)}; o.at = f[r.below(k)]; l.ops.push_back(o); }
  if (r.chance(0.3)) gen_feed(r, h); if (r.chance(0.15)) gen_env(r, h); if (r.chance(0.2)) l.ov["wd"] = gen_wd(r);
  return p;
}
static void ev22(const Plan &p, Verdict &v) {
  WorldSpec a = p.w; auto &l = a.h[0].lives[0]; l.ops.erase(std::remove_if(l.ops.begin(), l.ops.end(), [](const PktOp &q) { return q.k != "cfg"; }), l.ops.end()); strip(a.h[0], {"feed", "feedseed", "stale"}); a.h[0].feed.clear();
  auto pa = apply_ops(l), px = apply_ops(p.w.h[0].lives[0]); int last = -1; for (auto &q : p.w.h[0].lives[0].ops) last = std::max(last, q.at + (q.k == "late" ? (int)q.a[0] : 0));
  int tail = 0, na = (int)pa.size(), nx = (int)px.size(); while (tail < std::min(na - 1 - last, nx) && pa[na - 1 - tail].d == px[nx - 1 - tail].d && pa[na - 1 - tail].type == px[nx - 1 - tail].type) tail++;
  int k = na - tail, nf = 0; if (last < 0) return; for (int i = 0; i < k; i++) nf += pa[i].type == PK_FRAME; while (k < na && !indep(pa[k])) nf += pa[k++].type == PK_FRAME; if (k >= na || p22out(corpus(l.stream).feat)) return;
  WorldSpec b = a; b.h[0].lives[0].f0 = l.f0 + nf;   // a decoder that starts with that frame
  WorldSpec c = a; { int i = 0, seen = 0; for (; i < k; i++) if (pa[i].type == PK_FRAME && seen++) { PktOp q; q.k = "drop"; q.at = i; c.h[0].lives[0].ops.push_back(q); } }   // and one that jumps to it from the beginning
  auto A = run(a, v, false), B = run(b, v, false), C = run(c, v, false); auto X = run(p.w, v, true); if (refbad(A, v) || refbad(B, v) || refbad(C, v)) return; if (dead(X, v)) return;
  int nc = (int)apply_ops(c.h[0].lives[0]).size(), nb = (int)apply_ops(b.h[0].lives[0]).size(); std::map<int, const CallOut *> ma, mb, mc, mx;   // by distance from the end of the stream
  for (auto &e : A.h[0].log) if (e.op == OP_EXEC) ma[na - e.pkt] = &e; for (auto &e : B.h[0].log) if (e.op == OP_EXEC) mb[nb - e.pkt] = &e; for (auto &e : C.h[0].log) if (e.op == OP_EXEC) mc[nc - e.pkt] = &e; for (auto &e : X.h[0].log) if (e.op == OP_EXEC) mx[nx - e.pkt] = &e;
  u64 n = 0;
  for (int i = k; i < na; i++) if (pa[i].type == PK_FRAME) {
    auto x = mx.find(na - i), y = ma.find(na - i), z = mb.find(na - i), w = mc.find(na - i); if (y == ma.end() || z == mb.end() || w == mc.end()) return; auto &A1 = *y->second; auto &B1 = *z->second; if (i == k && !A1.err) for (const CallOut *q : {&B1, w->second}) if (q->err) { if (refers_back((int)q->err)) { v.probes["independent_frame_refers_back"]++; return; } char t[120]; snprintf(t, sizeof t, "a decoder that %s packet %d, an independent frame, refuses it with error %x", q == &B1 ? "starts at" : "jumps to", k, (unsigned)q->err); v.fail("recovery:start", t); return; }
    if (A1.err || B1.err || w->second->err || (i > k && A1.out != B1.out)) break;   // not decodable from here on its own
    if (x == mx.end()) { v.fail("recovery:call-missing", "no call for intact packet " + std::to_string(i)); return; } auto &X1 = *x->second;
    if (i == k && refers_back((int)X1.err)) { v.probes["independent_frame_refers_back"]++; break; } if (i == k) v.probes["resumed"]++;
    char t[200]; snprintf(t, sizeof t, "packet %d%s: error %x and %d bytes of audio; %d in the undisturbed stream, %d for a decoder that starts at packet %d", i, i == k ? " (the first independent one)" : "", (unsigned)X1.err, X1.out, A1.out, B1.out, k);
    if (X1.err) { v.fail("recovery:error", t); return; }
    if (X1.out != A1.out && !(i == k && X1.out == B1.out)) { v.fail("recovery:output-size", t); return; }
    n++;
  }
  v.compared += n; v.nontrivial = n > 0;
}
const std::vector<Prop> g_props = {
  {"P01", false, gen01, ev01}, {"P02", false, gen02, ev02}, {"P03", true, gen03, ev03}, {"P04", false, gen04, ev04}, {"P05", false, gen05, ev05}, {"P06", false, gen06, ev06}, {"P07", false, gen07, ev07}, {"P08", false, gen08, ev08},
  {"P09", false, gen09, ev_change}, {"P11", false, gen11, ev_change}, {"P12", false, gen12, ev12}, {"P13", false, gen13, ev13}, {"P14", false, gen14, ev14}, {"P15", false, gen15, ev15}, {"P16", false, gen16, ev16}, {"P17", true, gen17, ev17}, {"P18", false, gen18, ev18}, {"P19", false, gen19, ev19}, {"P20", false, gen20, ev20}, {"P21", false, gen21, ev21}, {"P22", false, gen22, ev22},
};
const Prop *find_prop(const std::string &id) { for (auto &p : g_props) if (id == p.id) return &p; return nullptr; }
