#include "host.hpp"

std::vector<Pkt> mhas_split(const std::vector<u8> &b, size_t max_pk, std::vector<size_t> *ends) {
  std::vector<Pkt> v; size_t pos = 0, nb = b.size() * 8;
  auto rd = [&](int n, bool &ok) -> u64 { u64 r = 0; for (int i = 0; i < n; i++) { if (pos >= nb) { ok = false; return 0; } r = r << 1 | ((b[pos / 8] >> (7 - pos % 8)) & 1); pos++; } return r; };
  auto esc = [&](int a, int bb, int c, bool &ok) -> u64 { u64 x = rd(a, ok); if (x == (1ull << a) - 1) { u64 y = rd(bb, ok); x += y; if (y == (1ull << bb) - 1) x += rd(c, ok); } return x; };
  while (v.size() < max_pk && pos < nb) {
    bool ok = true; Pkt k; k.type = esc(3, 8, 8, ok); k.label = esc(2, 8, 32, ok); u64 len = esc(11, 24, 24, ok);
    size_t at = (pos + 7) / 8; if (!ok || at + len > b.size()) break;
    k.d.assign(b.begin() + at, b.begin() + at + len); pos = (at + len) * 8; v.push_back(k); if (ends) ends->push_back(at + len);
  }
  return v;
}
bool read_file(const std::string &p, std::vector<u8> &o) {
  FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; o.clear(); u8 t[65536]; size_t n;
  while ((n = fread(t, 1, sizeof t, f)) > 0) o.insert(o.end(), t, t + n); fclose(f); return true;
}
bool write_file(const std::string &p, const std::string &d) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; bool ok = fwrite(d.data(), 1, d.size(), f) == d.size(); return fclose(f) == 0 && ok; }

// container: text header lines, then binary sections "NAME len\n<bytes>\n"
static void put_sec(std::string &o, const char *n, const std::vector<u8> &d) { if (d.empty()) return; o += std::string(n) + " " + std::to_string(d.size()) + "\n"; o.append((const char *)d.data(), d.size()); o += "\n"; }
std::string stream_save(const Stream &s) {
  std::string o = "MPGHSIM1\n"; char b[400];
  const HostCfg &h = s.hc;
  snprintf(b, sizeof b, "cfg %d %d %d %d %d %d %d %d %d %d %u\n", h.wd, h.cicp, h.effect, h.loud0, h.loud1, h.preset, h.raw, h.ext, h.resamp, h.out_fs, s.ccfl); o += b;
  o += "feat " + (s.feat.empty() ? std::string("-") : s.feat) + "\n";
  put_sec(o, "ei", h.ei); put_sec(o, "ls", h.ls); put_sec(o, "sd", h.sd); put_sec(o, "brir", h.brir);
  put_sec(o, "maeg", h.maeg); put_sec(o, "maei", h.maei); put_sec(o, "maes", h.maes); put_sec(o, "maep", h.maep);
  std::vector<u8> m; for (auto &k : s.p) mhas_put(m, k); put_sec(o, "mhas", m); o += "end 0\n"; return o;
}
bool stream_load(const std::string &x, Stream &s) {
  size_t p = 0; auto line = [&]() { size_t e = x.find('\n', p); if (e == std::string::npos) { std::string r; p = x.size(); return r; } std::string r = x.substr(p, e - p); p = e + 1; return r; };
  if (line() != "MPGHSIM1") return false; std::string c = line(); HostCfg &h = s.hc;
  if (sscanf(c.c_str(), "cfg %d %d %d %d %d %d %d %d %d %d %u", &h.wd, &h.cicp, &h.effect, &h.loud0, &h.loud1, &h.preset, &h.raw, &h.ext, &h.resamp, &h.out_fs, &s.ccfl) != 11) return false;
  s.feat = line().substr(5);
  for (;;) {
    std::string l = line(); char n[16]; unsigned len; if (sscanf(l.c_str(), "%15s %u", n, &len) != 2) return false;
    std::string k = n; if (k == "end") return true; if (p + len > x.size()) return false;
    std::vector<u8> d(x.begin() + p, x.begin() + p + len); p += len + 1;
    if (k == "ei") h.ei = d; else if (k == "ls") h.ls = d; else if (k == "sd") h.sd = d; else if (k == "brir") h.brir = d;
    else if (k == "maeg") h.maeg = d; else if (k == "maei") h.maei = d; else if (k == "maes") h.maes = d; else if (k == "maep") h.maep = d;
    else if (k == "mhas") s.p = mhas_split(d); else return false;
  }
}

void Inst::setup(const HostCfg &h, bool mhas) {
  hc = h; memset(&in, 0, sizeof in); memset(&out, 0, sizeof out);
  in.ui_pcm_wd_sz = h.wd; in.ui_effect = h.effect; in.ui_target_loudness[0] = h.loud0; in.ui_target_loudness[1] = h.loud1;
  in.ui_mhas_flag = mhas; in.ui_raw_flag = h.raw; in.ui_cicp_layout_idx = h.cicp; in.i_preset_id = (WORD8)h.preset;
  in.extrn_rend_flag = h.ext; in.enable_resamp = h.resamp; in.out_samp_freq = h.out_fs;
  auto put = [](const std::vector<u8> &s, std::vector<u8> &d, UWORD8 *&ptr, WORD32 &flag, WORD32 &len) {
    d = s; if (s.empty()) { ptr = nullptr; flag = 0; len = 0; return; }
    len = (WORD32)s.size(); flag = 1; d.push_back(0); ptr = d.data(); };
  put(h.ei, eb, in.ptr_ei_buf, in.ei_info_flag, in.ei_info_size);
  put(h.ls, lb, in.ptr_ls_buf, in.lsi_info_flag, in.lsi_info_size);
  put(h.sd, sb, in.ptr_sd_buf, in.sd_info_flag, in.sd_info_size);
  put(h.brir, bb, in.ptr_brir_buf, in.binaural_flag, in.binaural_data_len);
  put(h.maeg, mg, in.ptr_maeg_buf, in.maeg_flag, in.maeg_len);
  put(h.maei, mi, in.ptr_maei_buf, in.maei_flag, in.maei_len);
  put(h.maes, ms, in.ptr_maes_buf, in.maes_flag, in.maes_len);
  put(h.maep, mp, in.ptr_maep_buf, in.maep_flag, in.maep_len);
  if (h.ext) {
    xch.assign(768, 0); xoam.assign(768, 0); xhoa.assign(768, 0); xpcm.assign(1024 * 32 * 4, 0);
    in.ptr_ext_ren_ch_data_buf = xch.data(); in.ptr_ext_ren_oam_data_buf = xoam.data();
    in.ptr_ext_ren_hoa_data_buf = xhoa.data(); in.ptr_ext_ren_pcm_buf = xpcm.data();
  }
  out.malloc_mpegh = &sim_malloc; out.free_mpegh = &sim_free;
}
#ifdef SIM_VARIANT
extern "C" { IA_ERRORCODE v2_ia_mpegh_dec_create(pVOID, pVOID); IA_ERRORCODE v2_ia_mpegh_dec_init(pVOID, pVOID, pVOID); IA_ERRORCODE v2_ia_mpegh_dec_execute(pVOID, pVOID, pVOID); IA_ERRORCODE v2_ia_mpegh_dec_delete(pVOID); }
#endif
void Inst::begin(int op) {
  size_t off = stack_off ? mix64(stack_off * 977 + log.size()) % 2048 * 16 : 0; u64 fill = stack_seed ? mix64(stack_seed + log.size() * 31 + op) | 1 : 0;
  coro.start([this, op, off, fill] {
    void *obj = out.pv_ia_process_api_obj;
#ifdef SIM_DIRECT
    if (off) { u8 *x = (u8 *)__builtin_alloca(off); fill_garbage(x, off, fill); asm volatile("" : : "r"(x) : "memory"); }   // calls come from different depths
#endif
#ifdef SIM_VARIANT
    if (vinit) switch (op) {
    case OP_CREATE: ret = v2_ia_mpegh_dec_create(&in, &out); return;
    case OP_INIT: ret = v2_ia_mpegh_dec_init(obj, &in, &out); return;
    case OP_EXEC: ret = v2_ia_mpegh_dec_execute(obj, &in, &out); return;
    case OP_DELETE: ret = v2_ia_mpegh_dec_delete(&out); return;
    }
#endif
    switch (op) {
    case OP_CREATE: ret = ia_mpegh_dec_create(&in, &out); break;
    case OP_INIT: ret = ia_mpegh_dec_init(obj, &in, &out); break;
    case OP_EXEC: ret = ia_mpegh_dec_execute(obj, &in, &out); break;
    case OP_DELETE: ret = ia_mpegh_dec_delete(&out); break;
    }
  }, fill, off);
}
void Inst::record(int op) {
  CallRec r; r.op = op; r.err = ret; r.consumed = out.i_bytes_consumed; r.out = op == OP_EXEC ? out.num_out_bytes : 0; r.ohash = 0; r.steps = last_steps;
  if (op == OP_EXEC && out.num_out_bytes > 0 && (u32)out.num_out_bytes <= ocap()) {
    r.ohash = hash_bytes(obuf(), out.num_out_bytes);
    if (keep_pcm) pcm.insert(pcm.end(), obuf(), obuf() + out.num_out_bytes);
  }
  log.push_back(r); last_err = ret;
}
int Inst::call(int op) {
  g_alloc = &alloc; u64 s0 = g_steps; begin(op);
  bool fin = coro.resume(budget == ~0ull ? ~0ull : g_steps + budget, true);
  last_steps = g_steps - s0;
  if (!fin) { budget_hit = true; ret = -1; if (violation.empty()) violation = "call did not finish within its step budget"; return -1; }
  record(op); return ret;
}
