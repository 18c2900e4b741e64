// Simulated world: one or more hosts, each owning one decoder instance fed through a
// fault-injecting packet channel, driven by an explicit schedule.  Everything that
// happens is a function of the WorldSpec (which is printable and re-readable text).
#pragma once
#include "host.hpp"

struct PktOp { std::string k; int at = 0; std::vector<i64> a; std::string s; };   // channel fault / edit on packet index
struct LifeSpec {
  std::string stream; int f0 = 0, f1 = -1;         // frame window [f0,f1) of the stream (-1: all); non-frame packets before f0 are kept only if keephdr
  std::map<std::string, i64> ov;                   // host configuration overrides
  char end = 'd';                                  // 'd' delete, 'k' abandoned (host died), 'u' delete without finishing the data
  int max_calls = -1; i64 cut = -1;                // stop after that many execute calls; cut the byte stream
  std::vector<PktOp> ops;
};
struct HostSpec {
  std::map<std::string, i64> at;                   // aseed sseed align guard scrib_out scrib_scr scrib_in stale feed framed persist failat failmask budget nocheck
  std::vector<LifeSpec> lives; std::map<int, i64> feed; // per-execute-call extra bytes beyond the minimum (-1: fill buffer)
  i64 get(const char *k, i64 d = 0) const { auto i = at.find(k); return i == at.end() ? d : i->second; }
};
struct WorldSpec {
  std::vector<HostSpec> h; std::vector<std::pair<int, u64>> sched;   // (host, steps)
  std::string text() const; bool parse_line(const std::string &l);
  std::string key() const { return text(); }
};

struct CallOut { u8 op; u8 life; u8 early; i64 err; int consumed, out; u64 ohash, info; u64 steps; int pos; int supplied; int pkt; int nch, wd, fs, npre; };
struct HostOut {
  std::vector<CallOut> log; std::vector<u8> pcm; std::string viol; std::string vdetail; int nreq = 0, live = 0; u64 faults = 0; u64 steps = 0;
  u64 hash() const;
};
struct WorldOut {
  bool ok = false; std::string crash;   // "" or "signal N" / "hang" / "lost" / sanitizer report
  std::string diag;                     // first lines the process printed about its own death
  std::vector<HostOut> h; u64 switches = 0; u64 schedhash = 0; u64 steps = 0; std::map<std::string, u64> faults;
};
const Stream &corpus(const std::string &name);
std::vector<std::string> corpus_names();
extern std::string g_corpus_dir;
std::vector<Pkt> apply_ops(const LifeSpec &l, std::map<std::string, u64> *fc = nullptr);
HostCfg life_cfg(const LifeSpec &l);
// run in a forked child; pcm kept when keep_pcm
WorldOut run_world(const WorldSpec &w, bool keep_pcm);
const WorldOut &run_cached(const WorldSpec &w, bool keep_pcm);
