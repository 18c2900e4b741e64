#include "props.hpp"
#include <time.h>
#include <unistd.h>
#include <sys/personality.h>
#include <fstream>
#include <sstream>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Verdict evaluate(const Plan &p) {
  Verdict v; const Prop *q = find_prop(p.prop); if (!q) { fprintf(stderr, "no property %s\n", p.prop.c_str()); exit(3); }
  q->eval(p, v); Hash h; h.add(hash_bytes(v.cls.data(), v.cls.size())); h.add(v.hash); v.hash = h.h; return v;
}
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
// ---------------------------------------------------------------- minimisation: same property, same class
static bool still(const Plan &p, const std::string &cls, double until) { if (now() > until) return false; Verdict v = evaluate(p); return v.bad && v.cls == cls; }
template <class T> static void ddmin(std::vector<T> &v, const std::function<bool(const std::vector<T> &)> &ok) {
  size_t n = 2;
  if (!v.empty() && ok({})) { v.clear(); return; }
  while (v.size() >= 2) {
    size_t c = std::max<size_t>(1, v.size() / n); bool red = false;
    for (size_t b = 0; b < v.size(); b += c) { std::vector<T> t(v.begin(), v.begin() + b); if (b + c < v.size()) t.insert(t.end(), v.begin() + b + c, v.end()); if (ok(t)) { v = t; n = std::max<size_t>(2, n - 1); red = true; break; } }
    if (!red) { if (c == 1) break; n = std::min(v.size(), n * 2); }
  }
}
static Plan minimise(Plan p, const std::string &cls, double secs) {
  double until = now() + secs;
  auto tryp = [&](Plan q) { if (still(q, cls, until)) { p = q; return true; } return false; };
  for (int round = 0; round < 2; round++) {
    // drop whole lives but the last, then ops, feeds, schedule, attributes
    for (size_t i = 0; i < p.w.h.size(); i++) for (size_t j = 0; p.w.h[i].lives.size() > 1 && j + 1 < p.w.h[i].lives.size();) { Plan q = p; q.w.h[i].lives.erase(q.w.h[i].lives.begin() + j); if (!tryp(q)) j++; }
    for (size_t i = 0; i < p.w.h.size(); i++) for (size_t j = 0; j < p.w.h[i].lives.size(); j++) {
      auto ops = p.w.h[i].lives[j].ops; ddmin<PktOp>(ops, [&](const std::vector<PktOp> &t) { Plan q = p; q.w.h[i].lives[j].ops = t; return tryp(q); });
      for (auto k : std::map<std::string, i64>(p.w.h[i].lives[j].ov)) { Plan q = p; q.w.h[i].lives[j].ov.erase(k.first); tryp(q); }
      if (j < p.w.h[i].lives.size()) { int nf = corpus(p.w.h[i].lives[j].stream).frames().size(); int f0 = p.w.h[i].lives[j].f0, f1 = p.w.h[i].lives[j].f1; if (f1 < 0 || f1 > nf) f1 = nf; for (int c = f0 + 1; c < f1; c = c < f0 + 4 ? c + 1 : c + 3) { Plan q = p; q.w.h[i].lives[j].f1 = c; if (tryp(q)) break; } }
    }
    for (size_t i = 0; i < p.w.h.size(); i++) {
      std::vector<std::pair<int, i64>> f(p.w.h[i].feed.begin(), p.w.h[i].feed.end());
      ddmin<std::pair<int, i64>>(f, [&](const std::vector<std::pair<int, i64>> &t) { Plan q = p; q.w.h[i].feed.clear(); for (auto &x : t) q.w.h[i].feed[x.first] = x.second; return tryp(q); });
      for (auto k : std::map<std::string, i64>(p.w.h[i].at)) { if (k.first == "slot") continue; Plan q = p; q.w.h[i].at.erase(k.first); tryp(q); }
    }
    auto s = p.w.sched; ddmin<std::pair<int, u64>>(s, [&](const std::vector<std::pair<int, u64>> &t) { Plan q = p; q.w.sched = t; return tryp(q); });
    // merge neighbouring slices of the same host
    { Plan q = p; q.w.sched.clear(); for (auto &e : p.w.sched) if (!q.w.sched.empty() && q.w.sched.back().first == e.first) q.w.sched.back().second += e.second; else q.w.sched.push_back(e); tryp(q); }
  }
  return p;
}
int main(int c, char **v) {
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int pers = personality(0xffffffff); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", v); } }
  if (c < 3) { fprintf(stderr, "usage: simrun CORPUS gen|exec|min|batch ...\n"); return 3; }
  g_corpus_dir = v[1]; std::string cmd = v[2];
  if (cmd == "list") { for (auto &p : g_props) printf("%s %d\n", p.id, (int)p.san); return 0; }
  if (cmd == "screen") {   // corpus acceptance: a stream stays only if its own frames end inside their packets
    for (auto &n : corpus_names()) { Plan p; p.prop = "P01"; p.w.h.resize(1); LifeSpec l; l.stream = n; p.w.h[0].lives.push_back(l); p.w.h[0].at["feed"] = 1; std::string why;
      for (int k = 1; k <= 4 && why.empty(); k++) { p.w.h[0].at["stale"] = k * 7919; Verdict v = evaluate(p); if (v.bad) why = v.cls; }
      if (why.empty()) { Plan q; q.prop = "P16"; q.w.h.resize(1); l.ov["raw"] = 1; l.ov["mhas"] = 0; q.w.h[0].lives.push_back(l); for (int k = 1; k <= 3 && why.empty(); k++) { q.w.h[0].at["stale"] = k * 104729; Verdict v = evaluate(q); if (v.bad) why = v.cls; } }
      // the bits behind a frame must not matter: put packets with different leading bits behind every frame
      static const int lead[] = {0, 4, 5, 6, 9, 100}; auto pk = apply_ops(p.w.h[0].lives[0]);
      for (int t = 0; t < 6 && why.empty(); t++) for (int lab = 0; lab < 3 && why.empty(); lab += 2) { Plan q; q.prop = "P14"; q.w.h.resize(1); LifeSpec m; m.stream = n; for (size_t i = 0; i <= pk.size(); i++) { PktOp o; o.k = "add"; o.at = i == pk.size() ? -1 : (int)i; o.a = {lead[t], lab, lead[t] == 6 ? 1 : t * 3, t * 77 + lab}; m.ops.push_back(o); } q.w.h[0].lives.push_back(m); Verdict v = evaluate(q); if (v.bad) why = v.cls; }
      if (!why.empty()) printf("REJECT %s %s [%s]\n", n.c_str(), why.c_str(), corpus(n).feat.c_str()); }
    return 0;
  }
  if (cmd == "show") { Plan p; if (!p.parse(slurp(v[3]))) return 3; auto o = run_world(p.w, false); printf("%s %s\n", o.ok ? "ok" : o.crash.c_str(), o.diag.substr(0, 3000).c_str());
    for (size_t i = 0; i < o.h.size(); i++) { for (auto &e : o.h[i].log) printf("h%zu life %d op %d pkt %d pos %d sup %d err %x cons %d out %d nch %d wd %d fs %d npre %d pcm %016llx\n", i, e.life, e.op, e.pkt, e.pos, e.supplied, (u32)e.err, e.consumed, e.out, e.nch, e.wd, e.fs, e.npre, (unsigned long long)e.ohash); printf("h%zu viol %s %s\n", i, o.h[i].viol.c_str(), o.h[i].vdetail.c_str()); }
    return 0;
  }
  if (cmd == "gen") { const Prop *q = find_prop(v[3]); Plan p = q->gen(strtoull(v[4], 0, 10), c > 5 && !strcmp(v[5], "thorough")); fputs(p.text().c_str(), stdout); return 0; }
  if (cmd == "exec" || cmd == "min") {
    Plan p; if (!p.parse(slurp(v[3]))) { fprintf(stderr, "bad plan\n"); return 3; }
    if (cmd == "min") { Verdict v0 = evaluate(p); if (!v0.bad) { printf("RESULT ok - %016llx\n", (unsigned long long)v0.hash); return 0; } p = minimise(p, v0.cls, atof(v[5])); write_file(v[4], p.text()); }
    Verdict r = evaluate(p); printf("RESULT %s %s %016llx | %s\n", r.bad ? "violation" : "ok", r.bad ? r.cls.c_str() : "-", (unsigned long long)r.hash, r.detail.c_str()); return 0;
  }
  if (cmd == "batch") {   // batch PROP lo hi step tier outdir deadline_s
    const Prop *q = find_prop(v[3]); u64 lo = strtoull(v[4], 0, 10), hi = strtoull(v[5], 0, 10), st = strtoull(v[6], 0, 10); bool th = !strcmp(v[7], "thorough"); std::string od = v[8]; double end = now() + atof(v[9]);
    std::map<std::string, u64> F, P; u64 worlds = 0, steps = 0, sw = 0, calls = 0, frames = 0, cmp = 0; int nv = 0; bool cut = false;
    for (u64 s = lo; s < hi; s += st) {
      if (now() > end) { cut = true; break; }
      Plan p = q->gen(s, th); Verdict r = evaluate(p); for (auto &f : r.faults) F[f.first] += f.second; for (auto &f : r.probes) P[f.first] += f.second;
      worlds += r.worlds; steps += r.steps; sw += r.switches; calls += r.calls; frames += r.frames; cmp += r.compared;
      printf("R %llu %d %d %016llx %016llx %s\n", (unsigned long long)s, (int)r.bad, (int)r.nontrivial, (unsigned long long)r.hash, (unsigned long long)r.shape, r.bad ? (r.cls + " | " + r.detail).c_str() : "-");
      if (r.bad) { write_file(od + "/" + p.prop + "-" + std::to_string(s) + ".plan", p.text()); if (++nv >= (getenv("SIM_SURVEY") ? 1 << 30 : 12)) { cut = true; break; } }
      fflush(stdout);
    }
    for (auto &f : F) printf("F %s %llu\n", f.first.c_str(), (unsigned long long)f.second);
    for (auto &f : P) printf("P %s %llu\n", f.first.c_str(), (unsigned long long)f.second);
    printf("T worlds %llu steps %llu switches %llu calls %llu frames %llu compared %llu cut %d\n", (unsigned long long)worlds, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)calls, (unsigned long long)frames, (unsigned long long)cmp, (int)cut);
    if (g_cov) { std::string b((g_cov_n + 8) / 8, 0); for (u32 i = 1; i <= g_cov_n; i++) if (g_cov[i]) b[i >> 3] |= 1 << (i & 7); write_file(od + "/cov." + std::to_string(lo), b); printf("C %u\n", g_cov_n); }
    return 0;
  }
  return 3;
}
