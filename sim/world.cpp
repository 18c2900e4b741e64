#include "world.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <errno.h>
#include <sstream>
#include <memory>

extern FILE *g_trace;
std::string g_corpus_dir;
static std::map<std::string, Stream> g_cor;
const Stream &corpus(const std::string &n) {
  auto i = g_cor.find(n); if (i != g_cor.end()) return i->second;
  std::vector<u8> b; Stream s;
  if (!read_file(g_corpus_dir + "/" + n + ".strm", b) || !stream_load(std::string(b.begin(), b.end()), s)) { fprintf(stderr, "cannot load stream %s\n", n.c_str()); exit(3); }
  s.name = n; return g_cor[n] = s;
}
std::vector<std::string> corpus_names() {
  std::vector<std::string> v; DIR *d = opendir(g_corpus_dir.c_str()); if (!d) { fprintf(stderr, "no corpus %s\n", g_corpus_dir.c_str()); exit(3); }
  while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n.size() > 5 && n.substr(n.size() - 5) == ".strm") v.push_back(n.substr(0, n.size() - 5)); }
  closedir(d); std::sort(v.begin(), v.end()); return v;
}

// ------------------------------------------------------------------ text form
std::string WorldSpec::text() const {
  std::ostringstream o;
  for (size_t i = 0; i < h.size(); i++) {
    o << "host " << i; for (auto &k : h[i].at) o << " " << k.first << "=" << k.second; o << "\n";
    for (size_t j = 0; j < h[i].lives.size(); j++) {
      auto &l = h[i].lives[j]; o << "life " << i << " " << l.stream << " f0=" << l.f0 << " f1=" << l.f1 << " end=" << (int)l.end << " max=" << l.max_calls << " cut=" << l.cut;
      for (auto &k : l.ov) o << " " << k.first << "=" << k.second; o << "\n";
      for (auto &p : l.ops) { o << "pop " << i << " " << j << " " << p.k << " " << p.at << " " << (p.s.empty() ? "-" : p.s); for (auto x : p.a) o << " " << x; o << "\n"; }
    }
    for (auto &f : h[i].feed) o << "feed " << i << " " << f.first << " " << f.second << "\n";
  }
  for (auto &s : sched) o << "run " << s.first << " " << s.second << "\n";
  return o.str();
}
bool WorldSpec::parse_line(const std::string &l) {
  std::istringstream in(l); std::string t; if (!(in >> t)) return false; size_t i;
  auto kv = [&](std::map<std::string, i64> &m) { std::string x; while (in >> x) { auto e = x.find('='); if (e != std::string::npos) m[x.substr(0, e)] = (i64)strtoull(x.c_str() + e + 1, nullptr, 10); } };
  if (t == "host") { in >> i; if (h.size() <= i) h.resize(i + 1); kv(h[i].at); return true; }
  if (t == "life") { LifeSpec f; in >> i >> f.stream; std::map<std::string, i64> m; kv(m); if (h.size() <= i) h.resize(i + 1);
    f.f0 = m["f0"]; f.f1 = m["f1"]; f.end = (char)m["end"]; f.max_calls = m["max"]; f.cut = m["cut"]; for (auto k : {"f0", "f1", "end", "max", "cut"}) m.erase(k);
    f.ov = m; h[i].lives.push_back(f); return true; }
  if (t == "pop") { size_t j; PktOp p; in >> i >> j >> p.k >> p.at >> p.s; if (p.s == "-") p.s = ""; i64 x; while (in >> x) p.a.push_back(x); if (i < h.size() && j < h[i].lives.size()) h[i].lives[j].ops.push_back(p); return true; }
  if (t == "feed") { int c; i64 v; in >> i >> c >> v; if (i < h.size()) h[i].feed[c] = v; return true; }
  if (t == "run") { u64 v; in >> i >> v; sched.push_back({(int)i, v}); return true; }
  return false;
}

// ------------------------------------------------------------------ channel
static std::vector<Pkt> window(const Stream &s, int f0, int f1) {
  std::vector<Pkt> v; int f = 0;
  for (auto &k : s.p) {
    bool fr = k.type == PK_FRAME;
    if (fr) { if (f >= f0 && (f1 < 0 || f < f1)) v.push_back(k); f++; }
    else if (f1 >= 0 && f >= f1 && f > 0) continue;
    else if (f == 0 || f >= f0) v.push_back(k);   // headers are always delivered
  }
  return v;
}
// ops refer to indices in the ORIGINAL windowed packet list; ids keep them stable
std::vector<Pkt> apply_ops(const LifeSpec &l, std::map<std::string, u64> *fc) {
  std::vector<Pkt> base = window(corpus(l.stream), l.f0, l.f1);
  struct N { int id; Pkt p; }; std::vector<N> v; for (size_t i = 0; i < base.size(); i++) v.push_back({(int)i, base[i]});
  auto find = [&](int id) { if (id < 0) return -1; for (size_t i = 0; i < v.size(); i++) if (v[i].id == id) return (int)i; return -1; };
  for (auto &o : l.ops) {
    int i = find(o.at); auto A = [&](size_t k, i64 d = 0) { return k < o.a.size() ? o.a[k] : d; };
    bool fired = true;
    if (o.k == "add") {          // add 'type' packet at position (before id at, or end when at<0): a0=type a1=label a2=len a3=seed
      Pkt k; k.type = A(0); k.label = A(1); k.d.resize(A(2)); Rng r(A(3)); for (auto &b : k.d) b = r.next(); if (k.type == PK_SYNC) k.d.assign(1, 0xA5);
      v.insert(i < 0 ? v.end() : v.begin() + i, N{-1, k});
    } else if (o.k == "app") {   // append window of another stream: s=name a0=f0 a1=f1
      LifeSpec t; t.stream = o.s; t.f0 = A(0); t.f1 = A(1, -1); auto w = window(corpus(o.s), t.f0, t.f1);
      for (auto &k : w) v.push_back({-1, k});
    } else if (o.k == "ins") {   // insert window of another stream before id
      auto w = window(corpus(o.s), A(0), A(1, -1)); std::vector<N> n; for (auto &k : w) n.push_back({-1, k});
      v.insert(i < 0 ? v.end() : v.begin() + i, n.begin(), n.end());
    } else if (o.k == "insf") {  // insert only the frames [a0,a1) of another stream before id
      std::vector<N> n; int f = 0; for (auto &k : corpus(o.s).p) if (k.type == PK_FRAME) { if (f >= A(0) && f < A(1)) n.push_back({-1, k}); f++; }
      v.insert(i < 0 ? v.end() : v.begin() + i, n.begin(), n.end());
    } else if (o.k == "dcfg") {  // insert a damaged copy of the configuration of another stream before id: a0=seed
      Pkt k; for (auto &q : corpus(o.s).p) if (q.type == PK_CONFIG) { k = q; break; }
      Rng r(A(0)); k.type = PK_CONFIG; if (k.d.empty()) fired = false;
      else { switch (r.below(5)) { case 0: k.d.resize(r.below(k.d.size())); break; case 1: for (auto &b : k.d) b = r.next(); break; case 2: { size_t b = r.below(k.d.size()); for (size_t q = b; q < k.d.size(); q++) k.d[q] = r.next(); break; }
          default: for (int n = r.range(1, 6); n > 0; n--) k.d[r.below(r.chance(0.5) ? std::min<size_t>(k.d.size(), 12) : k.d.size())] ^= 1 << r.below(8); }
        v.insert(i < 0 ? v.end() : v.begin() + i, N{-1, k}); }
    } else if (o.k == "cpcfg") { // repeat the stream's config packet before id
      const Pkt *c = nullptr; for (auto &k : base) if (k.type == PK_CONFIG) { c = &k; break; }
      if (c) v.insert(i < 0 ? v.end() : v.begin() + i, N{-1, *c}); else fired = false;
    } else if (o.k == "del" || o.k == "drop") { if (i >= 0) v.erase(v.begin() + i); else fired = false; }
    else if (i < 0) fired = false;
    else if (o.k == "dup") v.insert(v.begin() + i, N{-1, v[i].p});
    else if (o.k == "late") { N t = v[i]; int j = std::min<i64>((i64)v.size() - 1, i + A(0, 1)); v.erase(v.begin() + i); v.insert(v.begin() + j, t); }
    else if (o.k == "flip") { auto &d = v[i].p.d; if (!d.empty()) d[A(0) % d.size()] ^= 1 << (A(1) & 7); else fired = false; }
    else if (o.k == "set") { auto &d = v[i].p.d; if (!d.empty()) d[A(0) % d.size()] = A(1); else fired = false; }
    else if (o.k == "burst") { auto &d = v[i].p.d; Rng r(A(2)); if (d.empty()) fired = false; else { size_t b = A(0) % d.size(); for (size_t k = 0; k < (size_t)A(1) && b + k < d.size(); k++) d[b + k] = r.next(); } }
    else if (o.k == "trunc") { auto &d = v[i].p.d; if (A(0) < (i64)d.size()) d.resize(A(0)); else fired = false; }
    else if (o.k == "grow") { auto &d = v[i].p.d; Rng r(A(1)); for (i64 k = 0; k < A(0); k++) d.push_back(r.next()); }
    else fired = false;
    if (fired && fc) (*fc)["channel." + o.k]++;
  }
  std::vector<Pkt> r; for (auto &n : v) r.push_back(n.p); return r;
}
HostCfg life_cfg(const LifeSpec &l) {
  HostCfg h = corpus(l.stream).hc;
  for (auto &k : l.ov) if (k.first.size() == 4 && k.first.substr(0, 2) == "x_") {   // host data that belong to another stream
    const HostCfg &o = corpus("g" + std::to_string(k.second)).hc; std::string q = k.first.substr(2);
    if (q == "ei") h.ei = o.ei; else if (q == "ls") h.ls = o.ls; else if (q == "sd") h.sd = o.sd; else if (q == "br") h.brir = o.brir; else if (q == "mg") h.maeg = o.maeg; else if (q == "mi") h.maei = o.maei; else if (q == "ms") h.maes = o.maes; else if (q == "mp") h.maep = o.maep;
  }
  for (auto &k : l.ov) if (k.first.size() == 4 && k.first.substr(0, 2) == "m_") {   // damaged host data
    std::string q = k.first.substr(2); auto &d = q == "ei" ? h.ei : q == "ls" ? h.ls : q == "sd" ? h.sd : q == "br" ? h.brir : q == "mg" ? h.maeg : q == "mi" ? h.maei : q == "ms" ? h.maes : h.maep;
    Rng r(k.second); if (!d.empty()) for (int n = r.range(1, 4); n > 0; n--) { size_t at = r.below(r.chance(0.6) ? std::min<size_t>(d.size(), 16) : d.size()); if (r.chance(0.6)) d[at] ^= 1 << r.below(8); else d[at] = r.next(); }
  }
  for (auto &k : l.ov) {
    if (k.first == "wd") h.wd = k.second; else if (k.first == "cicp") h.cicp = k.second; else if (k.first == "effect") h.effect = k.second;
    else if (k.first == "loud0") h.loud0 = k.second; else if (k.first == "loud1") h.loud1 = k.second; else if (k.first == "preset") h.preset = k.second;
    else if (k.first == "raw") h.raw = k.second; else if (k.first == "ext") h.ext = k.second; else if (k.first == "resamp") h.resamp = k.second; else if (k.first == "fs") h.out_fs = k.second;
    else if (k.first == "nosb" && k.second) { h.ei.clear(); h.ls.clear(); h.sd.clear(); h.brir.clear(); h.maeg.clear(); h.maei.clear(); h.maes.clear(); h.maep.clear(); }
    else if (k.first == "cutei" && (size_t)k.second < h.ei.size()) h.ei.resize(k.second);
    else if (k.first == "cutls" && (size_t)k.second < h.ls.size()) h.ls.resize(k.second);
    else if (k.first == "cutsd" && (size_t)k.second < h.sd.size()) h.sd.resize(k.second);
    else if (k.first == "cutbrir" && (size_t)k.second < h.brir.size()) h.brir.resize(k.second);
    else if (k.first == "cutmaeg" && (size_t)k.second < h.maeg.size()) h.maeg.resize(k.second);
    else if (k.first == "cutmaei" && (size_t)k.second < h.maei.size()) h.maei.resize(k.second);
    else if (k.first == "cutmaes" && (size_t)k.second < h.maes.size()) h.maes.resize(k.second);
    else if (k.first == "cutmaep" && (size_t)k.second < h.maep.size()) h.maep.resize(k.second);
  }
  return h;
}

// ------------------------------------------------------------------ host state machine
struct Host {
  const HostSpec &s; int idx; bool keep; HostOut o; std::map<std::string, u64> *fc;
  std::unique_ptr<Inst> in; size_t life = 0; int phase = 0;  // 0 create 1 init 2 exec 3 delete 4 done
  std::vector<u8> bytes; std::vector<size_t> ends; std::vector<u8> stop; size_t pos = 0; int ninit = 0, nexec = 0, gcall = 0; int stall = 0;
  bool incall = false; int op = 0; u64 csteps = 0; int supplied = 0; u64 inhash = 0, sidehash = 0; bool raw = false; std::vector<size_t> rawlen; int curpkt = 0;
  u64 created_ever = 0; ia_input_config inhost;
  Host(const HostSpec &sp, int i, bool k, std::map<std::string, u64> *f) : s(sp), idx(i), keep(k), fc(f) {}
  void viol(const std::string &c, const std::string &d) { if (o.viol.empty()) { o.viol = c; o.vdetail = d; } }
  bool done() const { return phase == 4; }
  void load_life() {
    const LifeSpec &l = s.lives[life]; auto pk = apply_ops(l, fc); bytes.clear(); ends.clear(); stop.clear(); rawlen.clear(); raw = false;
    HostCfg hc = life_cfg(l);
    if (hc.raw) { // MP4-style transport: config and access units without packet framing
      raw = true; for (auto &k : pk) if (is_stop(k.type) && k.type != PK_PCMCFG && k.type != PK_PCMDATA) { bytes.insert(bytes.end(), k.d.begin(), k.d.end()); ends.push_back(bytes.size()); stop.push_back(1); }
    } else for (auto &k : pk) { mhas_put(bytes, k); ends.push_back(bytes.size()); stop.push_back(is_stop(k.type)); }
    if (l.cut >= 0 && (size_t)l.cut < bytes.size()) { bytes.resize(l.cut); if (fc) (*fc)["channel.cut"]++; }
    pos = 0; ninit = nexec = 0; stall = 0;
  }
  size_t align_up(size_t p) { for (auto e : ends) if (e >= p) return e; return bytes.size(); }
  bool boundary(size_t p) { if (!p) return true; for (auto e : ends) if (e == p) return true; return false; }
  size_t need() { for (size_t i = 0; i < ends.size(); i++) if (ends[i] > pos && stop[i]) return std::min(ends[i], bytes.size()) - pos; return bytes.size() - pos; }
  int pktidx() { for (size_t i = 0; i < ends.size(); i++) if (ends[i] > pos) return (int)i; return (int)ends.size(); }
  u64 side() { Hash h; auto a = [&](std::vector<u8> &v) { h.bytes(v.data(), v.size()); }; a(in->eb); a(in->lb); a(in->sb); a(in->bb); a(in->mg); a(in->mi); a(in->ms); a(in->mp); return h.h; }
  // prepare and begin the next API call; returns false if the host is done
  bool prepare() {
    for (;;) {
      if (phase == 4) return false;
      if (phase == 0) {
        if (life >= s.lives.size()) { phase = 4; return false; }
        load_life(); in.reset(); in.reset(new Inst((int)s.get("slot", idx), 4u << 20, s.get("place")));
        Alloc &a = in->alloc; a.host = (int)s.get("slot", idx); a.seed = s.get("aseed") ? mix64(s.get("aseed") + life) | 1 : 0; a.place = s.get("place"); a.align_mode = s.get("align"); a.guard_pages = s.get("guard");
        { auto &ov = s.lives[life].ov; a.fail_at = ov.count("failat") ? ov.at("failat") : s.get("failat", -1); a.fail_mask = ov.count("failmask") ? ov.at("failmask") : s.get("failmask"); } a.keep_stale = s.get("recycle");
        in->stack_seed = s.get("sseed"); in->stack_off = s.get("soff"); in->vinit = s.get("vinit"); in->keep_pcm = keep; in->setup(life_cfg(s.lives[life]), s.lives[life].ov.count("mhas") ? s.lives[life].ov.at("mhas") : 1);
        sidehash = side(); op = OP_CREATE; break;
      }
      const LifeSpec &l = s.lives[life];
      if (phase == 1) {
        if (l.ov.count("execfirst") && ninit == 0 && nexec < l.ov.at("execfirst")) { nexec++; op = OP_EXEC; feed(); break; }
        if (pos >= bytes.size() || ninit >= s.get("maxinit", 8)) { phase = 3; continue; }
        if (l.ov.count("execmid") && ninit > 0 && nexec < l.ov.at("execmid") * ninit) { nexec++; op = OP_EXEC; feed(); break; }   // after an initialisation that did not succeed
        op = OP_INIT; ninit++; feed(); break;
      }
      if (phase == 2) {
        if (pos >= bytes.size() || (l.max_calls >= 0 && nexec >= l.max_calls)) { phase = 3; continue; }
        op = OP_EXEC; nexec++; feed(); break;
      }
      if (phase == 3) {
        if (l.end == 'k') { life++; phase = 0; zombies.push_back(std::move(in)); continue; }
        op = OP_DELETE; break;
      }
    }
#ifdef SIM_TRACE
    if (getenv("SIM_TRACE_FROM") && op == OP_EXEC && curpkt >= atoi(getenv("SIM_TRACE_FROM")) && !g_trace) g_trace = fopen(getenv("SIM_TRACE_OUT"), "wb");
#endif
    g_alloc = &in->alloc; csteps = 0; inhost = in->in; in->begin(op); incall = true; return true;
  }
  std::vector<std::unique_ptr<Inst>> zombies;
  void feed() {
    size_t cap = in->icap(), left = bytes.size() - pos, n = std::min(cap, left); curpkt = pktidx();
    i64 f = -2; auto it = s.feed.find(gcall); if (it != s.feed.end()) f = it->second;
    int mode = s.get("feed");   // 0 full, 1 minimum, 2 seeded
    if (raw) n = std::min(n, need());
    else if (f == -2 && mode) f = mode == 1 ? 0 : (i64)Rng(mix64(s.get("feedseed") + gcall * 977)).below(2) * (i64)Rng(mix64(s.get("feedseed") + gcall * 977 + 5)).below(4096);
    if (!raw && f >= 0) { n = std::min(n, need() + (size_t)f); if (fc && n < std::min(cap, left)) (*fc)["feed.short_delivery"]++; }
    if (!raw && f <= -10) { n = std::min<size_t>(n, (size_t)(-f - 10)); if (fc) (*fc)["feed.starved"]++; }   // starvation: fewer bytes than needed
    if (s.get("stale")) { fill_garbage(in->ibuf(), cap, mix64(s.get("stale") + gcall) | 1); if (fc) (*fc)["mem.stale_input_tail"]++; }
    memcpy(in->ibuf(), &bytes[pos], n); supplied = (int)n; in->in.num_inp_bytes = (WORD32)n;
    if (op == OP_EXEC && s.get("scrib_out")) { fill_garbage(in->obuf(), in->ocap(), mix64(s.get("scrib_out") + gcall) | 1); if (fc) (*fc)["mem.output_scribble"]++; }
    if (op == OP_EXEC && s.get("scrib_scr")) { fill_garbage(in->scratch(), in->scratch_sz(), mix64(s.get("scrib_scr") + gcall) | 1); if (fc) (*fc)["mem.scratch_scribble"]++; }
    inhash = s.get("nocheck") ? 0 : hash_bytes(in->ibuf(), n); gcall++;
  }
  u64 info() {
    Hash h; auto &u = in->out; h.add(u.i_samp_freq); h.add(u.i_num_chan); h.add(u.i_pcm_wd_sz); h.add(u.cicp_index); h.add(u.num_speakers); h.add(u.ui_init_done); h.add(u.is_binaural_rendering);
    h.add(u.spk_layout); int n = std::max(0, std::min(32, (int)u.num_speakers)); for (int i = 0; i < n; i++) { h.add((u64)(i64)u.azimuth[i]); h.add((u64)(i64)u.elevation[i]); h.add(u.is_lfe[i]); }
    if (in->hc.ext) { h.add(u.ch_md_payload_length); h.add(u.oam_md_payload_length); h.add(u.hoa_md_payload_length); h.add(u.pcm_payload_length);
      auto b = [&](std::vector<u8> &v, i64 l) { if (l > 0 && l <= (i64)v.size()) h.bytes(v.data(), l); }; b(in->xch, u.ch_md_payload_length); b(in->xoam, u.oam_md_payload_length); b(in->xhoa, u.hoa_md_payload_length); b(in->xpcm, u.pcm_payload_length); }
    h.add(u.i_drc_effect); h.add(u.i_target_loudness); h.add(u.i_loud_norm); return h.h;
  }
  void finish() {   // call returned
    incall = false; Inst &I = *in; I.record(op); CallOut c; memset(&c, 0, sizeof c); c.op = op; c.life = life; c.err = (i64)(int)I.ret; c.steps = csteps; c.pos = (int)pos; c.pkt = curpkt;
    o.steps += csteps;
    bool chk = !s.get("nocheck");
    inhost.enable_resamp = I.in.enable_resamp;   // an in-out field: cleared when the ratio is not available
    if (chk && memcmp(&inhost, &I.in, sizeof inhost)) viol("host-parameters-written", "call " + std::to_string(gcall) + " (op " + std::to_string(op) + ")");
    if (op == OP_CREATE) {
      o.nreq = I.alloc.n_req; c.supplied = 0; c.info = I.alloc.n_fail; c.out = I.alloc.live(); if (fc && I.alloc.n_fail) (*fc)["alloc.failed_request"] += I.alloc.n_fail;
      phase = I.ret & 0x8000 ? 3 : 1;
    } else if (op == OP_INIT || op == OP_EXEC) {
      c.supplied = supplied; c.consumed = I.out.i_bytes_consumed; 
      if (op == OP_EXEC) { c.out = I.out.num_out_bytes; c.ohash = I.log.back().ohash; if (keep && c.out > 0 && (u32)c.out <= I.ocap()) o.pcm.insert(o.pcm.end(), I.obuf(), I.obuf() + c.out); }
      c.info = info(); c.nch = I.out.i_num_chan; c.wd = I.out.i_pcm_wd_sz; c.fs = I.out.i_samp_freq; c.npre = I.out.num_preroll;
      if (chk) {
        if (hash_bytes(I.ibuf(), supplied) != inhash) viol("input-buffer-written", "call " + std::to_string(gcall));
        if (side() != sidehash) viol("side-buffer-written", "call " + std::to_string(gcall));
        if (c.out < 0 || (u32)c.out > I.ocap()) viol("output-size-range", "call " + std::to_string(gcall) + " out " + std::to_string(c.out));
        if (op == OP_EXEC && ((c.consumed < 1 && supplied > 0) || c.consumed < 0 || c.consumed > std::max(1, supplied))) viol("consumed-range", "call " + std::to_string(gcall) + " consumed " + std::to_string(c.consumed) + " of " + std::to_string(supplied));
      }
      i64 adv = std::max(0, std::min<int>(c.consumed, supplied));
      if (op == OP_INIT && adv < 1) adv = 1;
      size_t np = pos + adv;
      if (raw) np = pos + supplied;
      else if (s.get("framed", 1)) { if (!boundary(np)) np = align_up(np); }
      if (np == pos) np = pos + 1;
      if (op == OP_EXEC && phase == 1) c.early = 1, np = pos;   // premature call: the host still holds its data
      if (s.feed.count(gcall - 1) && s.feed.at(gcall - 1) <= -10) np = pos + (s.get("starve_keep", 1) ? 0 : supplied);   // framed host keeps undelivered packet
      pos = std::min(np, bytes.size());
      if (op == OP_INIT) { if (I.out.ui_init_done) { phase = 2; nexec = 0; } else { bool fatal = (u32)I.ret & 0x8000; if (fatal && !s.get("persist", 1)) phase = 3; } }
      else if (phase == 2) { bool fatal = (u32)I.ret & 0x8000; if (fatal && !s.get("persist", 1)) phase = 3; }
    } else { // delete
      o.live += I.alloc.live(); c.info = I.alloc.n_free; c.out = I.alloc.live();
      if (chk) { if (!I.alloc.last_err.empty()) viol("memory", I.alloc.last_err); if (I.alloc.dbl_free) viol("memory", "double free"); if (I.alloc.live()) viol("memory", "leak of " + std::to_string(I.alloc.live()) + " blocks"); }
      life++; phase = 0;
    }
    if (chk && op != OP_DELETE) { std::string e = I.alloc.check(); if (!e.empty()) viol("memory", e + " (op " + std::to_string(op) + " call " + std::to_string(gcall) + ")"); }
    o.log.push_back(c);
  }
  // run up to n steps; returns steps used
  u64 run(u64 n, u64 budget) {
    u64 used = 0;
    while (!incall) { if (!prepare()) return used; break; }
    g_alloc = &in->alloc; u64 lim = std::min(n, budget - csteps); u64 s0 = g_steps;
    bool fin = in->coro.resume(g_steps + lim, false); used = g_steps - s0; csteps += used;
    if (fin) finish();
    else if (csteps >= budget) { viol("no-progress", std::string("op ") + std::to_string(op) + " call " + std::to_string(gcall) + " exceeded the step budget"); phase = 4; incall = false; }
    return used;
  }
};
u64 HostOut::hash() const {
  Hash h; for (auto &c : log) { h.add(c.op); h.add(c.err); h.add(c.consumed); h.add(c.out); h.add(c.ohash); h.add(c.info); } h.bytes(viol.data(), viol.size()); return h.h;
}

static void put64(std::string &b, u64 v) { b.append((char *)&v, 8); }
static void puts_(std::string &b, const void *p, size_t n) { put64(b, n); b.append((const char *)p, n); }
struct Rd { const std::string &b; size_t p = 0; bool bad = false; u64 g() { if (p + 8 > b.size()) { bad = true; return 0; } u64 v; memcpy(&v, &b[p], 8); p += 8; return v; }
  std::string s() { u64 n = g(); if (bad || p + n > b.size()) { bad = true; return ""; } std::string r = b.substr(p, n); p += n; return r; } };

static void child_main(const WorldSpec &w, bool keep, int fd) {
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  WorldOut out; std::vector<std::unique_ptr<Host>> hs;
  for (size_t i = 0; i < w.h.size(); i++) hs.emplace_back(new Host(w.h[i], (int)i, keep, &out.faults));
  Hash sh;
  auto budget = [&](size_t i) { return (u64)w.h[i].get("budget", 400000000); };
  int last = -1;
  for (auto &e : w.sched) {
    if ((size_t)e.first >= hs.size() || hs[e.first]->done()) continue;
    if (last >= 0 && last != e.first) out.switches++;
    last = e.first; u64 u = hs[e.first]->run(e.second, budget(e.first)); sh.add(e.first); sh.add(u); sh.add(hs[e.first]->gcall);
    if (hs[e.first]->incall) out.faults["sched.preempt_inside_call"]++;
  }
  for (bool any = true; any;) { any = false; for (size_t i = 0; i < hs.size(); i++) if (!hs[i]->done()) { hs[i]->run(~0ull >> 2, budget(i)); any = true; } }
  std::string b; put64(b, 0x600d600d); put64(b, hs.size());
  for (auto &h : hs) {
    put64(b, h->o.log.size()); b.append((char *)h->o.log.data(), h->o.log.size() * sizeof(CallOut)); puts_(b, h->o.pcm.data(), h->o.pcm.size());
    puts_(b, h->o.viol.data(), h->o.viol.size()); puts_(b, h->o.vdetail.data(), h->o.vdetail.size()); put64(b, h->o.nreq); put64(b, h->o.live); put64(b, h->o.steps);
  }
  put64(b, out.switches); put64(b, sh.h); put64(b, g_steps); put64(b, out.faults.size()); for (auto &f : out.faults) { puts_(b, f.first.data(), f.first.size()); put64(b, f.second); }
  put64(b, 0xe0de0de0);
  if (g_trace) fclose(g_trace);
  size_t p = 0; while (p < b.size()) { ssize_t n = write(fd, b.data() + p, b.size() - p); if (n <= 0) break; p += n; }
  _exit(0);
}
// "kind in function" from a sanitizer report, "" when there is none
static std::string san_class(const std::string &m) {
  size_t q = m.find("ERROR: AddressSanitizer: "), r = m.find("runtime error: ");
  if (q == std::string::npos && r == std::string::npos) return m.find("SIM step budget exhausted") != std::string::npos ? "no-progress" : "";
  std::string k, f; size_t p = 0;
  if (r != std::string::npos && (q == std::string::npos || r < q)) { k = "bounds"; size_t b = m.rfind('\n', r); b = b == std::string::npos ? 0 : b + 1; f = m.substr(b, m.find(' ', b) - b); size_t sl = f.rfind('/'); if (sl != std::string::npos) f = f.substr(sl + 1); f = f.substr(0, f.find(':')); return "sanitizer " + k + " " + f; }
  k = m.substr(q + 25, m.find_first_of(" \n", q + 25) - q - 25);
  for (p = q; (p = m.find(" in ", p)) != std::string::npos; p += 4) { size_t e = m.find('\n', p); std::string l = m.substr(p + 4, e - p - 4); if (l.find("/decoder/") != std::string::npos) { f = l.substr(0, l.find(' ')); break; } }
  return "sanitizer " + k + " " + f;
}
WorldOut run_world(const WorldSpec &w, bool keep) {
  WorldOut o; for (auto &h : w.h) for (auto &l : h.lives) { corpus(l.stream); life_cfg(l); for (auto &p : l.ops) if (!p.s.empty()) corpus(p.s); }
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(3); }
  static int efd = -1; if (efd < 0) efd = memfd_create("err", 0); if (ftruncate(efd, 0)) {} lseek(efd, 0, SEEK_SET);
  pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(3); }
  if (!pid) { close(fd[0]); dup2(efd, 2); g_steps = 0; child_main(w, keep, fd[1]); }
  close(fd[1]); std::string b; char t[65536]; time_t t0 = time(nullptr); bool hang = false;
  for (;;) {
    struct pollfd pf = {fd[0], POLLIN, 0}; int r = poll(&pf, 1, 1000);
    if (r > 0) { ssize_t n = read(fd[0], t, sizeof t); if (n <= 0) break; b.append(t, n); }
    else if (time(nullptr) - t0 > 120) { hang = true; kill(pid, SIGKILL); break; }
  }
  close(fd[0]); int st = 0; waitpid(pid, &st, 0);
  if (hang) { o.crash = "hang"; return o; }
  { char e[20000]; ssize_t n = pread(efd, e, sizeof e - 1, 0); if (n > 0) { e[n] = 0; o.diag.assign(e, n); } }
  { std::string sc = san_class(o.diag); if (!sc.empty()) { o.crash = sc; return o; } }
  if (WIFSIGNALED(st)) { o.crash = "signal " + std::to_string(WTERMSIG(st)); if (WTERMSIG(st) == SIGKILL) o.crash = "killed"; return o; }
  Rd r{b}; if (r.g() != 0x600d600d) { o.crash = "exit " + std::to_string(WEXITSTATUS(st)); return o; }
  u64 n = r.g();
  for (u64 i = 0; i < n && !r.bad; i++) {
    HostOut h; u64 m = r.g(); if (r.p + m * sizeof(CallOut) > b.size()) { r.bad = true; break; } h.log.resize(m); memcpy(h.log.data(), &b[r.p], m * sizeof(CallOut)); r.p += m * sizeof(CallOut);
    std::string s = r.s(); h.pcm.assign(s.begin(), s.end()); h.viol = r.s(); h.vdetail = r.s(); h.nreq = r.g(); h.live = r.g(); h.steps = r.g(); o.h.push_back(h);
  }
  o.switches = r.g(); o.schedhash = r.g(); o.steps = r.g(); u64 nf = r.g(); for (u64 i = 0; i < nf && !r.bad; i++) { std::string k = r.s(); o.faults[k] = r.g(); }
  if (r.g() != 0xe0de0de0 || r.bad) { o.crash = "lost"; return o; }
  o.ok = true; return o;
}
const WorldOut &run_cached(const WorldSpec &w, bool keep) {
  static std::map<std::string, WorldOut> c; std::string k = w.text() + (keep ? "P" : ""); auto i = c.find(k); if (i != c.end()) return i->second;
  if (c.size() > 2000) c.clear();
  return c[k] = run_world(w, keep);
}
