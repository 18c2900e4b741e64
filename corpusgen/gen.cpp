// Offline corpus generator (not run by any check). Produces syntactically valid MPEG-H streams by
// letting the decoder itself ask for every field: each bit-reader call is intercepted, and the bits it
// is about to read are chosen by a seeded policy and written into the stream ("generative parsing").
#include "host.hpp"
#include <unistd.h>
#include <dirent.h>
#include <cmath>
extern "C" {
#include "ia_core_coder_bitbuffer.h"
}
struct Buf { u8 *base; size_t n; std::vector<u8> dec; bool live; };
static std::vector<Buf> g_bufs; static bool g_on = false; static Rng *g_r = nullptr;
struct Site { std::string src; std::string fn; u64 id; };
static std::map<void *, Site> g_sites; static u64 g_pol_seed = 0; static bool g_rare = false;
struct PokeRec { int buf; std::vector<u32> bits; void *ra; };
static std::map<std::string, int> g_esite;
static std::vector<PokeRec> g_plog;              // every decision made in this attempt, in order
static std::vector<std::pair<u8 *, int>> g_b8;  // source byte pointer/bit of every 8-bit read in the input

static std::map<std::string, std::vector<std::string>> g_src;
static const Site &site(void *ra) {
  auto it = g_sites.find(ra); if (it != g_sites.end()) return it->second;
  static std::map<u64, std::pair<std::string, std::string>> tab; static bool loaded = false;
  if (!loaded) { loaded = true; FILE *p = fopen((std::string(getenv("GEN_DIR") ? getenv("GEN_DIR") : "/tmp/cg") + "/sites.txt").c_str(), "r"); unsigned long ad; char fn[300], fl[300]; while (p && fscanf(p, "%lx %299s %299s", &ad, fn, fl) == 3) tab[ad] = {fn, fl}; if (p) fclose(p); }
  Site s; auto tt = tab[(u64)ra]; s.fn = tt.first; std::string f = tt.second; size_t c = f.rfind(':'); int ln = c == std::string::npos ? 0 : atoi(f.c_str() + c + 1); f = f.substr(0, c);
  if (!g_src.count(f)) { std::vector<u8> d; read_file(f, d); std::vector<std::string> L; std::string cur; for (u8 ch : d) { if (ch == '\n') { L.push_back(cur); cur.clear(); } else cur += (char)ch; } g_src[f] = L; }
  auto &L = g_src[f]; for (int i = ln - 2; i <= ln; i++) if (i >= 0 && i < (int)L.size()) s.src += L[i] + "\n";
  s.id = hash_bytes(s.fn.data(), s.fn.size()) ^ (u64)ln; return g_sites[ra] = s;
}
static struct Ctx { int nch = 0, hoa_tc = 0, hoa_order = 0, min_amb = 0, lpd = 1, eimode = 0, gsc = 1, drcid = 0, ngrp = 1, nbox = 0, cicp = 2, rcicp = 2; double indep = 0.15; } g_cx;
static u64 choose(void *ra, int n) {
  const Site &s = site(ra); Rng &r = *g_r; auto has = [&](const char *t) { return s.src.find(t) != std::string::npos; };
  auto fn = [&](const char *t) { return s.fn == t; };
  u64 h = mix64(g_pol_seed ^ s.id); u64 full = n >= 64 ? ~0ull : (1ull << n) - 1;
  auto small = [&](int m) { return std::min<u64>(full, r.below(m + 1)); };
  // --- HOA config
  if (fn("impeghd_fill_config") && r.chance(0.985)) {
    if (n == 3 && has("WORD32 max, val")) return g_cx.hoa_order = (int)(r.chance(0.85) ? 1 + r.below(4) : r.below(7));
    if (n == 3 && has("  val = ia_core")) { int m = std::min((int)floor(sqrt((double)g_cx.hoa_tc) - 1), g_cx.hoa_order); return g_cx.min_amb = (int)r.below(m + 2); }
    if (has("uses_nfc =")) return r.chance(0.3);
    if (has("temp[3] =") && !has("temp[1] =") ) return 0x3f + r.below(2);
    if (has("coded_v_vec_length =") && n == 2) return r.below(3);
    if (has("frame_length_indicator =") && n == 2) return r.below(3);
    if (has("use_phase_shift_decorr =")) return 0;
    if (has("pred_subbands_idx =") && n == 2) return 0;
    if (has("par_subband_table_idx =") && n == 2) return 0;
    if (has("ptr_config_data->diff_order_bits") ) { int d = g_cx.hoa_order - (g_cx.min_amb - 1); return std::min<u64>(full, r.below(d + 1)); }
    if (has("vq_conf_bits")) return std::min<u64>(full, r.below(8));
  }
  // --- DRC
  if (fn("impd_drc_parse_config") && r.chance(0.985)) {
    if (has("drc_coefficients_drc_count =")) { g_cx.drcid = 0; return 1; }
    if (n == 6) return r.chance(0.1) ? 0 : 1 + r.below(2);
    if (has("drc_instructions_type =") && n == 1) return r.chance(0.12);
    if (has("drc_config_ext_present =")) return r.chance(0.1);
    if (has("loudness_infoset_present =")) return 0;
  }
  if (fn("impd_drc_parse_config_ext") || fn("impd_drc_parse_loudness_info_set_ext")) { if (n == 4 && has("_ext_type[")) return r.chance(0.7) ? 0 : 1 + r.below(3); if (n == 4) return r.below(2); }
  if (fn("impd_drc_mpegh3da_parse_drc_channel_layout") && n == 7) return r.chance(0.93) ? g_cx.nch : 1 + r.below(12);
  if (fn("impd_drc_parse_coeff") && r.chance(0.985)) { if (n == 5) return 2; if (n == 6) return g_cx.gsc = 1 + (int)r.below(3); }
  if (fn("impd_drc_parse_gain_set_params") && r.chance(0.985)) { if (n == 6 && has("temp =")) { int p = (int)r.below(4); if (p == 3 && r.chance(0.5)) p = 0; return p << 4 | 8 | r.below(2) << 2 | r.below(2) << 1; } if (n == 4 && has("band_count =")) return r.chance(0.5) ? 1 : 1 + r.below(4); if (n == 10) return 1 + r.below(200); }
  if (fn("impd_drc_parse_drc_instructions") && r.chance(0.985)) {
    if (has("drc_set_id =") && n == 6) return ++g_cx.drcid; if (has("drc_location =") && n == 4) return 1;
    if (n == 16) { if (r.chance(0.12)) return 1u << (10 + r.below(2)); return r.below(0x400); }
    if (has("depends_on_drc_set_present =") && n == 1) return r.chance(0.05);
    if (has("depends_on_drc_set =") && n == 6) return 1 + r.below(2);
  }
  if (fn("impd_drc_parse_downmix_id")) { if (has("downmix_id[0] =") && n == 7) return r.chance(0.85) ? 0 : r.chance(0.6) ? 0x7f : r.below(4); if (has("additional_dmix_id_flag =")) return r.chance(0.06); }
  if (fn("impd_drc_parse_instrns_effect_not_self_other")) { if (n == 7) return (r.chance(0.9) ? 1 + r.below(g_cx.gsc) : 0) << 1 | (g_cx.nch > 1 && r.chance(0.1)); if (n == 5) return r.below(std::max(1, g_cx.nch - 1)); }
  if (fn("impd_drc_parse_instrns_effect_self_other")) { if (n == 1 && has("repeat_params =")) return r.chance(0.15); if (n == 5) return r.below(std::max(1, g_cx.nch - 1)); if (n == 6) return 1 + r.below(g_cx.gsc); }
  if (fn("impd_drc_mpegh3da_parse_loudness_info_set") && n == 6) return 1 + r.below(4);
  if (fn("impd_drc_parse_loudness_info")) { if (has("drc_set_id =") && n == 6) return r.below(4); if (has("measurement_count =")) return 1 + r.below(3); if (n == 8) return r.below(2) | (r.chance(0.1) ? r.below(256) : 0); }
  if (fn("impd_drc_parse_loudness_measure") && n == 4) return r.chance(0.6) ? 1 : r.below(9);
  // --- OAM
  if (fn("impeghd_obj_md_cfg") && r.chance(0.99)) { if (has("ld_md_coding_present =")) return 1; if (has("core_len_present =")) return r.chance(0.7); if (n == 6) { static const int F[] = {3, 7, 15}; return F[r.below(3)]; } }
  if (fn("impeghd_enh_obj_md_config") && has("has_divergence[i] =")) return r.chance(0.2);
  // --- interaction side info
  if (fn("impeghd_ele_interaction")) { if (has("ei_num_groups =") && n == 7) return r.chance(0.9) ? g_cx.ngrp : r.below(4); if (has("sign_data_len")) return r.chance(0.8) ? 0 : r.below(5); if (has("intrctn_mode =")) return r.chance(0.4); }
  if (n == 7 && has("ei_grp_id[grp] =")) return r.below(g_cx.ngrp + 1);
  if (has("num_loudspk = ")) return r.chance(0.7) ? 1 + r.below(12) : 0; if (has("num_wire_out = ")) return r.chance(0.97) ? 0 : r.below(4);
  if (has("ren_type = ")) return r.chance(0.2);
  if (fn("ia_core_coder_read_escape_value") && (n == 5 || n == 3 || n == 4)) return r.chance(0.7) ? r.below(7) : r.next() & full;
  if (fn("impeghd_speaker_config_3d")) { static const int CC[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20}; if (n == 2) return r.chance(0.97) ? 0 : 1 + r.below(3); if (n == 6) return r.chance(0.85) ? g_cx.cicp : CC[r.below(r.chance(0.6) ? 6 : 18)]; if (n == 7) return CC[r.below(18)]; }
  if (fn("impeghd_parse_brir_info")) { if (n == 8) return r.below(4); if (n == 4) return 1; if (n == 5) return r.chance(0.8) ? 3 : r.below(13); if (has("is_hoa_data =")) return g_cx.hoa_tc > 0 && r.chance(0.5); if (has("data_format_id")) return r.chance(0.5) ? 0 : 2; }
  if (fn("impeghd_binaural_read_fir_data") || fn("impeghd_binaural_read_td_data")) {
    if (n == 24) return 16 + r.below(r.chance(0.9) ? 60 : 300); if (has("begin_delay =") && n == 16) return r.below(300); if (has("len_direct =") && n == 16) return 16 << r.below(2); if (n == 8) return r.below(3);
    if (n == 32) { if (has("all_cut_freq")) return r.chance(0.6) ? 8000 + r.below(16000) : 0; float f = (float)((r.unit() - 0.5) * 0.15); if (has("_fc")) f = (float)(4000 + r.below(16000)); if (has("weight")) f = (float)r.unit(); u32 q; memcpy(&q, &f, 4); return q; }
  }
  if (fn("ia_core_coder_read_tns_u") || fn("ia_core_coder_read_tns_tcx")) { if (has("start_band_bits") || has("START_BAND_BITS")) return r.below(r.chance(0.85) ? 5 : full); if (has("order_bits") || has("ORDER_BITS")) return r.below(1 + std::min<u64>(full, 12)); }
  // --- scene info
  if (has("no:of groups") || has("num_groups =") ) return std::min<u64>(full, r.chance(0.85) ? g_cx.ngrp : r.below(4));
  if (n == 7 && (has("group_id") || has("mae_group"))) return r.below(g_cx.ngrp + 1);
  if (n == 8 && has("global_gain =")) return 60 + r.below(60);
  if (has("usac_independency_flg")) return r.chance(g_cx.indep);
  if (has("usac_ext_element_present =")) return r.chance(0.85);
  if (has("usac_ext_element_use_dft_length =")) return 0;
  if (has("pay_load_length = ia_core") && n == 8) return r.chance(0.03) ? r.below(4) : 12 + r.below(120);
  if (has("core_mode[ch]")) return g_cx.lpd && r.chance(0.45);
  if (n == 6 && has("max_sfb =")) return r.chance(0.95) ? r.below(42) : r.below(64);
  if (n == 6 && has("cicp_speaker_layout_idx =")) { static const int CC[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20}; return r.chance(0.5) ? g_cx.cicp : CC[r.below(18)]; }
  if (has("arith_reset_flag")) return r.chance(0.3);
  (void)small;
  if (n == 1) { static const double P[] = {0.08, 0.3, 0.5, 0.5, 0.7, 0.92}; return r.chance(P[h % 6]); }
  if (g_rare && r.chance(0.02)) return r.chance(0.5) ? 0 : full;
  switch (h % 4) {
  case 0: return r.below(1ull << (1 + r.below(n)));            // small biased
  case 1: case 2: return r.next() & full;
  default: return r.chance(0.5) ? r.below(std::min<u64>(full, 3) + 1) : r.next() & full;
  }
}
static Buf *find(u8 *p) { for (auto &b : g_bufs) if (b.live && p >= b.base && p < b.base + b.n) return &b; return nullptr; }
static void setbit(u8 *p, int bit /*7..0*/, int v) { *p = (*p & ~(1 << bit)) | (v << bit); }
static void poke(ia_bit_buf_struct *bs, int n, void *ra) {
  if (!g_on || n <= 0 || n > 32 || bs->cnt_bits < n) return;
  u8 *p = bs->ptr_read_next; int bit = bs->bit_pos; if (bit < 0 || bit > 7) return;
  Buf *b = find(p);
  if (site(ra).fn == "ia_core_coder_headerdecode") return;
  if (b) {
    u64 v = 0; bool any = false; size_t o = (p - b->base) * 8 + (7 - bit);
    if (o + n > b->n * 8) return;
    for (int i = 0; i < n; i++) if (!b->dec[o + i]) any = true;
    if (n == 8) g_b8.push_back({p, bit});
    if (!any) return;
    v = choose(ra, n); if (getenv("GEN_TRACE")) fprintf(stderr, "poke %s n%d v%lu : %s", site(ra).fn.c_str(), n, v, site(ra).src.c_str()); g_plog.push_back({(int)(b - &g_bufs[0]), {}, ra});
    for (int i = 0; i < n; i++) { size_t q = o + i; if (!b->dec[q]) { setbit(b->base + q / 8, 7 - q % 8, v >> (n - 1 - i) & 1); b->dec[q] = 1; g_plog.back().bits.push_back((u32)q); } }
    return;
  }
  // a copy of an extension payload: poke the copy and its origin
  u8 *base = bs->ptr_bit_buf_base; size_t L = bs->ptr_bit_buf_end - base + 1; if (L < 4 || L > 4096) return;
  static u8 *lb = nullptr; static size_t lL = 0; static long start = -1; static size_t lgn = 0;
  auto val = [&](size_t k) { u8 *q = g_b8[k].first; int bt = g_b8[k].second; if (bt == 7) return (u8)*q; return (u8)((q[0] << (7 - bt)) | (q[1] >> (bt + 1))); };
  bool ok = lb == base && lL == L && lgn == g_b8.size() && start >= 0;
  if (ok) for (size_t k = 0; k < 4; k++) if (val(start + k) != base[k]) ok = false;
  if (!ok) {
    start = -1;
    for (long s = (long)g_b8.size() - (long)std::min<size_t>(L, 4); s >= 0 && s > (long)g_b8.size() - 20000; s--) {
      size_t m = 0; while (m < L && s + m < g_b8.size() && val(s + m) == base[m]) m++;
      if (m == L || (m >= 8 && s + m == g_b8.size())) { start = s; break; }
    }
    lb = base; lL = L; lgn = g_b8.size();
  }
  if (start < 0) return;
  size_t o = (p - base) * 8 + (7 - bit); if (p < base || o + n > L * 8) return;
  u64 v = choose(ra, n); g_plog.push_back({0, {}, ra});
  for (int i = 0; i < n; i++) {
    size_t q = o + i, k = start + q / 8; if (k >= g_b8.size()) return;
    u8 *sp = g_b8[k].first; size_t sb = (7 - g_b8[k].second) + q % 8; u8 *tp = sp + sb / 8;
    // one flag per payload bit
    static std::set<std::pair<u8 *, int>> dummy; (void)dummy;
    Buf *ob = find(tp); if (!ob) return; size_t fo = (tp - ob->base) * 8 + sb % 8;
    if (ob->dec[fo] == 2) continue;
    ob->dec[fo] = 2; g_plog.back().buf = (int)(ob - &g_bufs[0]); g_plog.back().bits.push_back((u32)fo); int bv = v >> (n - 1 - i) & 1; setbit(tp, 7 - sb % 8, bv); setbit(base + q / 8, 7 - q % 8, bv);
  }
}
extern "C" {
WORD32 __real_ia_core_coder_read_bits_buf(ia_bit_buf_struct *, WORD);
WORD32 __real_ia_core_coder_show_bits_buf(ia_bit_buf_struct *, WORD);
UWORD32 __real_ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *);
VOID __real_ia_core_coder_read_escape_value(ia_bit_buf_struct *, UWORD32 *, UWORD32, UWORD32, UWORD32);
WORD32 __wrap_ia_core_coder_read_bits_buf(ia_bit_buf_struct *b, WORD n) { poke(b, n, __builtin_return_address(0)); return __real_ia_core_coder_read_bits_buf(b, n); }
WORD32 __wrap_ia_core_coder_show_bits_buf(ia_bit_buf_struct *b, WORD n) { poke(b, n, __builtin_return_address(0)); return __real_ia_core_coder_show_bits_buf(b, n); }
UWORD32 __wrap_ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *b) { poke(b, 32, __builtin_return_address(0)); return __real_ia_core_coder_read_bits_buf_32(b); }
}
static void reg(u8 *p, size_t n) { g_bufs.push_back({p, n, std::vector<u8>(n * 8, 0), true}); }

static void note(int e) { char t[40]; snprintf(t, 40, "%x ", e); std::string k = t; for (int i = 0; i < 2 && i < (int)g_plog.size(); i++) { const Site &x = site(g_plog[g_plog.size() - 1 - i].ra); auto p = x.src.find('\n'); k += x.fn + " <" + x.src.substr(p + 1, x.src.find('\n', p + 1) - p - 1) + "> "; } g_esite[k]++; }
// forget the last k decisions; re-randomise everything undecided behind the last kept one
static void backtrack(Rng &r, size_t k) {
  k = std::min(k, g_plog.size());
  for (size_t i = 0; i < k; i++) { PokeRec &p = g_plog.back(); for (u32 q : p.bits) g_bufs[p.buf].dec[q] = 0; g_plog.pop_back(); }
  for (auto &b : g_bufs) { size_t last = 0; for (size_t q = b.dec.size(); q-- > 0;) if (b.dec[q]) { last = q; break; } (void)last;
    for (size_t q = 0; q < b.dec.size(); q++) if (!b.dec[q] && r.chance(0.5)) b.base[q / 8] ^= 1 << (7 - q % 8); }
}
// ---------------------------------------------------------------- config writer
struct Fixed { size_t a, b; };  // free bit ranges inside the config payload
struct CfgW { BitW w; std::vector<Fixed> fr; Rng &r; CfgW(Rng &rr) : r(rr) {}
  void free_bits(size_t n) { size_t a = w.n; for (size_t i = 0; i < n; i++) w.put(r.below(2), 1); fr.push_back({a, w.n}); } };
static const int CICP_N[] = {0, 1, 2, 3, 4, 5, 6, 8, 0, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14};
static void chan_els(CfgW &c, std::vector<std::function<void()>> &els, int n, bool allow_cpe, bool plain, bool lfe_ok, int fb) {
  Rng &r = c.r;
  auto common = [&c, plain, fb](bool cpe) {
    Rng &r = c.r; BitW &w = c.w; w.put(0, 1); w.put(fb >= 0 ? fb : (int)r.below(2), 1);
    bool nf = !plain && r.chance(0.7); w.put(nf, 1); bool enf = !plain && r.chance(0.6); w.put(enf, 1);
    if (enf) { w.put(r.below(2), 1); w.put(r.below(2), 1); w.put(r.below(2), 1); w.put(r.below(2), 1); w.put(r.below(32), 5); w.put(r.chance(0.4) ? 15 : r.below(16), 4); if (cpe) w.put(r.below(2), 1); }
  };
  while (n > 0) {
    if (n >= 2 && allow_cpe && r.chance(0.6)) { els.push_back([&c, common] { c.w.put(1, 2); common(true); c.w.put(0, 2); c.w.put(0, 1); c.w.put(c.r.below(2), 1); }); n -= 2; }
    else if (lfe_ok && r.chance(0.12)) { els.push_back([&c] { c.w.put(2, 2); }); n -= 1; }
    else { els.push_back([&c, common] { c.w.put(0, 2); common(false); }); n -= 1; }
  }
}
static void spk_cfg(CfgW &c, int type, int cicp, int n) {
  BitW &w = c.w; Rng &r = c.r; w.put(type, 2);
  if (type == 0) { w.put(cicp, 6); return; }
  w.esc(n - 1, 5, 8, 16);
  if (type == 1) { std::set<int> used; for (int i = 0; i < n; i++) { int k; do k = (int)r.below(43); while (used.count(k) || k == 8); used.insert(k); w.put(k, 7); } }
  if (type == 2) {
    int prec = r.below(2); w.put(prec, 1); int i = 0;
    while (i < n) {
      int az; bool lfe = r.chance(0.08);
      if (r.chance(0.3)) { int k = (int)r.below(24); if (k == 8) k = 0; static const int AZ[] = {30, -30, 0, 0, 110, -110, 22, -22, 135, -135, 180, 90, -90, 60, -60, 30, -30, 0, 135, -135, 180, 90, -90, 0, 45}; (void)AZ;
        w.put(1, 1); w.put(k, 7);
        static const int az0[] = {2, 3, 10, 17, 20, 23}; bool z = false; for (int q : az0) if (q == k) z = true; if (k == 0 || k == 8) z = k == 0 ? true : true;  // idx 0/8 are skipped by the parser
        if (k == 0) z = true;
        if (!z) w.put(0, 1);
      } else {
        w.put(0, 1); int el = (int)r.below(4); w.put(el, 2);
        if (el == 3) { int e = (int)r.below(prec ? 60 : 12); w.put(e, prec ? 7 : 5); if (e) w.put(r.below(2), 1); }
        az = (int)r.below(prec ? 181 : 37); w.put(az, prec ? 8 : 6); int d = prec ? az : az * 5; if (d != 0 && d != 180) w.put(r.below(2), 1); w.put(lfe, 1);
        if (d != 0 && d != 180) { bool sym = i + 1 < n && r.chance(0.5); w.put(sym, 1); if (sym) i++; }
      }
      i++;
    }
  }
}
struct Built { std::vector<u8> cfg; std::vector<Fixed> fr; bool hoa = false, obj = false, ch = false, pre = false; std::string feat; u32 ccfl = 1024; };
static Built build_cfg(Rng &r, int theme) {
  CfgW c(r); BitW &w = c.w; Built b; bool lc = r.chance(0.7); (void)lc;
  w.put(lc ? 0x0D : 0x12, 8);
  static const int FS[] = {3, 3, 3, 3, 4, 5, 6, 7, 8}; int fi = FS[r.below(r.chance(0.6) ? 5 : 9)];
  if (r.chance(0.06)) { w.put(31, 5); w.put(8000 + r.below(40001), 24); } else w.put(fi, 5);
  static const int CL[] = {1, 1, 1, 1, 1, 0, 2, 3, 4}; int cl = CL[r.below(r.chance(0.8) ? 5 : 9)]; w.put(cl, 3); b.ccfl = cl == 0 ? 768 : 1024;
  w.put(0, 1);
  int nch = 0, nobj = 0, nhoa = 0;  // per theme
  if (theme == 0 || theme == 3 || theme == 5) nch = 1;
  if (theme == 1 || theme == 3 || theme == 4) nobj = 1 + (int)r.below(r.chance(0.7) ? 3 : 10);
  if (theme == 2 || theme == 4 || theme == 5) nhoa = 1;
  int hoaN = 0, cicp; static const int CC[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20};
  do cicp = r.chance(0.55) ? (int)(1 + r.below(6)) : CC[r.below(18)]; while (CICP_N[cicp] > 12 && r.chance(0.7));
  int rst = r.chance(0.12) ? 1 : r.chance(0.1) ? 2 : 0; int nspk = CICP_N[cicp];
  if (rst) nspk = 1 + (int)r.below(10);
  if (nch) nch = nspk; if (nhoa) { hoaN = 1 + (int)r.below(3); nhoa = std::min((hoaN + 1) * (hoaN + 1), 1 + (int)r.below(9)); }
  if (nch + nobj + nhoa > 16) { nobj = std::min(nobj, 3); if (nch + nobj + nhoa > 16) nhoa = std::max(1, 16 - nch - nobj) * (nhoa > 0); if (nch + nobj + nhoa > 16) { nobj = 16 - nch - nhoa; } }
  if (nobj < 0) nobj = 0;
  int types = (nch > 0) + (nobj > 0) + (nhoa > 0);
  w.put(types > 1 ? 1 : r.below(2), 1);
  spk_cfg(c, rst, cicp, nspk);
  // groups
  struct G { int t, n; }; std::vector<G> g;
  if (nch) g.push_back({0, nch});
  if (nobj) { int left = nobj; while (left > 0) { int k = 1 + (int)r.below(left); g.push_back({1, k}); left -= k; } }
  if (nhoa) g.push_back({3, nhoa});
  if (r.chance(0.3)) std::reverse(g.begin(), g.end());
  w.put(g.size() - 1, 5);
  for (auto &q : g) { w.put(q.t, 3); w.esc(q.n - 1, 5, 8, 16); if (q.t == 0) { bool df = rst == 0 && r.chance(0.12); w.put(df, 1); if (df) spk_cfg(c, 0, cicp, q.n); } }
  // elements in group order
  std::vector<std::function<void()>> els; bool preroll = r.chance(0.12); b.pre = preroll;
  auto ext = [&c](u32 type, int len, bool fr, bool zero = false) { BitW &w = c.w; w.put(3, 2); w.esc(type, 4, 8, 16); w.esc(len, 4, 8, 16); w.put(0, 1); w.put(0, 1); (void)zero; if (fr) c.free_bits(len * 8); };
  int fb = r.chance(0.35) ? 1 : r.chance(0.5) ? 0 : -1;
  if (preroll) { els.push_back([ext] { ext(3, 0, false); }); b.feat += " preroll"; }
  bool drc = r.chance(0.4), fill = r.chance(0.15), mct = (nch + nhoa) >= 2 && r.chance(0.35), pm = r.chance(0.12), fmtc = r.chance(0.06), unk = r.chance(0.06);
  if (drc) { int L = 20 + (int)r.below(60); els.push_back([ext, L] { ext(4, L, true); }); b.feat += " drc"; }
  int mctl = 1 + (int)r.below(4);
  if (mct && r.chance(0.3)) { els.push_back([ext, mctl] { ext(9, mctl, true); }); mct = false; b.feat += " mct"; }
  int gi = 0; for (auto &q : g) {
    if (q.t == 3) { int L = 10 + (int)r.below(14); els.push_back([ext, L] { ext(7, L, true); }); b.feat += " hoa"; }
    if (q.t == 1 && !b.obj) { int L = 2 + (int)r.below(6); if (r.chance(0.9)) { els.push_back([ext, L] { ext(5, L, true); }); b.feat += " oam"; } if (r.chance(0.15)) { int L2 = 4 + (int)r.below(10); els.push_back([ext, L2] { ext(13, L2, true); }); b.feat += " enh"; } b.obj = true; }
    chan_els(c, els, q.n, q.t != 1 || r.chance(0.3), false, q.t == 0, fb);
    if (mct && q.t != 1) { els.push_back([ext, mctl] { ext(9, mctl, true); }); mct = false; b.feat += " mct"; }
    gi++;
  }
  if (pm) { els.push_back([ext] { ext(14, 3, true); }); b.feat += " pm"; }
  if (fmtc) els.push_back([ext] { ext(8, 3, true); });
  if (unk) els.push_back([ext] { ext(10 + 0, 2, true); });
  if (fill) { els.push_back([ext] { ext(0, 0, false); }); b.feat += " fill"; }
  w.esc((u32)els.size() - 1, 4, 8, 16); bool elp = r.chance(0.1); w.put(elp, 1);
  for (auto &e : els) e();
  bool cext = r.chance(0.45); w.put(cext, 1);
  if (cext) {
    std::vector<int> ty; int k = 1 + (int)r.below(3); static const int T[] = {0, 1, 1, 2, 3, 3, 6, 7, 4}; for (int i = 0; i < k; i++) ty.push_back(T[r.below(9)]);
    std::sort(ty.begin(), ty.end()); ty.erase(std::unique(ty.begin(), ty.end()), ty.end());
    w.esc((u32)ty.size() - 1, 2, 4, 8);
    for (int t : ty) {
      int L = t == 0 ? (int)r.below(5) : t == 7 ? 2 : t == 6 ? ((int)g.size() * 4 + 7) / 8 : t == 2 ? 6 + (int)r.below(30) : 60 + (int)r.below(120);
      if (t == 6 && (g.size() * 4) % 8) { L = (int)g.size() / 2; }
      w.esc(t, 4, 8, 16); w.esc(L, 4, 8, 16); b.feat += " ce" + std::to_string(t);
      if (t == 0) for (int i = 0; i < L; i++) w.put(0xA5, 8);
      else if (t == 7) { w.put(0, 4); w.put(0, 4); w.put(lc ? 0x0D : 0x12, 8); }
      else if (t == 6) { for (size_t i = 0; i < g.size(); i++) { w.put(r.below(8), 3); w.put(r.below(2), 1); } }
      else c.free_bits(L * 8);
    }
  }
  c.free_bits(16 * 8);  // slack
  g_cx.nch = nch + nobj; if (!g_cx.nch) g_cx.nch = nspk; g_cx.hoa_tc = nhoa; g_cx.ngrp = (int)g.size(); g_cx.cicp = rst ? 2 : cicp; b.cfg = w.b; b.fr = c.fr; b.hoa = nhoa; b.ch = nch;
  char t[80]; snprintf(t, sizeof t, " ch%d obj%d hoa%d fs%d cl%d rst%d", nch, nobj, nhoa, fi, cl, rst); b.feat += t;
  return b;
}
// ---------------------------------------------------------------- generation of one stream
struct Snap { std::vector<std::vector<u8>> m; ia_input_config in; ia_output_config out; };
static void snap(Inst &I, Snap &s) { s.m.clear(); int k = 0; for (auto &b : I.alloc.blocks) { if (k == 3 || k == 4) { s.m.emplace_back(); } else s.m.emplace_back(b.user, b.user + b.cap); k++; } s.in = I.in; s.out = I.out; }
static void rest(Inst &I, Snap &s) { for (size_t i = 0; i < s.m.size(); i++) if (!s.m[i].empty()) memcpy(I.alloc.blocks[i].user, s.m[i].data(), s.m[i].size()); I.in = s.in; I.out = s.out; }

static std::map<int, int> g_errs; static int g_verbose = 0;
static double peak_of(const Inst &I, size_t from) {
  size_t bps = I.hc.wd / 8; double pk = 0; for (size_t i = from; i + bps <= I.pcm.size(); i += bps) { int v = bps == 2 ? (int16_t)(I.pcm[i] | I.pcm[i + 1] << 8) : bps == 3 ? ((int)((u32)I.pcm[i] << 8 | (u32)I.pcm[i + 1] << 16 | (u32)I.pcm[i + 2] << 24) >> 16) : (int)(int16_t)(I.pcm[i + 2] | I.pcm[i + 3] << 8); pk = std::max(pk, std::abs((double)v) / 32768.0); }
  return pk;
}
static bool gen_stream(u64 seed, int nframes, Stream &S, const char *&why) {
  Rng r(seed); g_r = &r; g_cx = Ctx(); g_cx.indep = r.chance(0.7) ? 0.12 : 0.5; g_pol_seed = r.next(); g_rare = r.chance(0.2);
  HostCfg h; int theme; { double x = r.unit(); theme = x < 0.38 ? 0 : x < 0.55 ? 1 : x < 0.75 ? 2 : x < 0.88 ? 3 : x < 0.95 ? 4 : 5; }
  Built b = build_cfg(r, theme);
  static const int W[] = {16, 16, 24, 32}; h.wd = W[r.below(4)];
  if (r.chance(0.45)) { static const int CC[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 13}; h.cicp = CC[r.below(19)]; if (CICP_N[h.cicp] > 12 && r.chance(0.6)) h.cicp = 2; b.feat += " tgt" + std::to_string(h.cicp); g_cx.cicp = h.cicp; }
  if (r.chance(0.3)) { h.effect = (int)r.below(9); }
  if (r.chance(0.3)) { h.loud0 = -(int)r.below(64); h.loud1 = 1; b.feat += " loud"; }
  if (r.chance(0.2)) h.preset = (int)r.below(4);
  if (r.chance(0.12)) { h.ext = 1; b.feat += " ext"; }
  if (r.chance(0.15)) { static const int OF[] = {48000, 44100, 96000, 32000, 24000, 16000}; h.resamp = 1; h.out_fs = OF[r.below(6)]; b.feat += " resamp" + std::to_string(h.out_fs); }
  auto rnd = [&](size_t n) { std::vector<u8> v(n); for (auto &x : v) x = (u8)r.next(); return v; };
  bool sd = r.chance(theme == 0 ? 0.1 : 0.3), ei = r.chance(0.2), ls = r.chance(0.12), br = r.chance(0.08);
  if (sd) { h.sd = rnd(40 + r.below(200)); b.feat += " sd"; } if (ei) { h.ei = rnd(700); b.feat += " ei"; }
  if (ls) { h.ls = rnd(16000); b.feat += " ls"; } if (br) { h.brir = rnd(24000); b.feat += " brir"; }
  if (r.chance(0.05)) { h.maeg = rnd(400); h.maes = rnd(200); h.maep = rnd(400); b.feat += " mae4"; }
  Inst I; I.budget = 60000000; I.alloc.seed = 0; I.setup(h); if (I.create()) { why = "create"; return false; }
  g_bufs.clear(); g_b8.clear(); g_plog.clear();
  reg(I.ibuf(), I.icap());
  auto R = [&](UWORD8 *p, size_t n) { if (p && n) reg(p, n); };
  R(I.in.ptr_ei_buf, h.ei.size()); R(I.in.ptr_ls_buf, h.ls.size()); R(I.in.ptr_sd_buf, h.sd.size()); R(I.in.ptr_brir_buf, h.brir.size());
  R(I.in.ptr_maeg_buf, h.maeg.size()); R(I.in.ptr_maes_buf, h.maes.size()); R(I.in.ptr_maep_buf, h.maep.size());
  std::vector<u8> m; mhas_put(m, Pkt{PK_SYNC, 0, {0xA5}}); size_t hs = m.size(); Pkt ck{PK_CONFIG, 1, b.cfg}; mhas_put(m, ck);
  size_t c0 = m.size() - b.cfg.size(); (void)hs;
  memcpy(I.ibuf(), m.data(), m.size()); 
  Buf &ib = g_bufs[0]; std::fill(ib.dec.begin(), ib.dec.end(), 1);
  for (auto &f : b.fr) for (size_t q = f.a; q < f.b; q++) ib.dec[c0 * 8 + q] = 0;
  static Snap s0; snap(I, s0); bool iok = false; int e = 0; std::vector<PokeRec> kept; u8 *ib0 = I.ibuf(); std::vector<u8> ibc(ib0, ib0 + m.size());
  for (int t = 0; t < 160; t++) {
    if (t) { rest(I, s0); size_t k = 1 + r.below(3); if (r.chance(0.3)) k += r.below(1 + t / 4); if (r.chance(0.1)) k += r.below(60); backtrack(r, k); I.log.clear(); }
    g_b8.clear(); I.in.num_inp_bytes = (int)m.size(); g_on = true; e = I.init(); g_on = false;
    if (I.budget_hit) { why = "init hang"; return false; }
    if (!e && I.inited()) { iok = true; break; } g_errs[e]++; note(e);
  }
  if (!iok) { why = "init"; return false; }
  size_t used = I.out.i_bytes_consumed; if (used <= c0 || used > m.size()) { why = "cfg consumed"; return false; }
  b.cfg.assign(I.ibuf() + c0, I.ibuf() + used);
  S.p.clear(); S.p.push_back(Pkt{PK_SYNC, 0, {0xA5}}); S.p.push_back(Pkt{PK_CONFIG, 1, b.cfg});
  auto upd = [&](std::vector<u8> &v, UWORD8 *p) { if (p && !v.empty()) v.assign(p, p + v.size()); };
  auto updt = [&](std::vector<u8> &v, UWORD8 *p, WORD32 &len) { if (!p || v.empty()) return; v.assign(p, p + v.size()); Buf *b = find(p); if (!b) return; size_t last = 0; for (size_t q = b->dec.size(); q-- > 0;) if (b->dec[q]) { last = q; break; } v.resize(std::min(v.size(), last / 8 + 2)); (void)len; };
  static Snap sn; int maxB = (int)std::min<size_t>(12000, 1500 * 6);
  for (int f = 0; f < nframes; f++) {
    snap(I, sn); g_plog.clear(); bool ok = false; size_t pk0 = I.pcm.size(); auto log0 = I.log.size();
    size_t h0 = 0; u8 *ibp = I.ibuf();
    for (int t = 0; t < 60 && !ok; t++) {
      if (t) { rest(I, sn); I.pcm.resize(pk0); I.log.resize(log0); }
      if (t % 20 == 0) {
      BitW w; w.esc(2, 3, 8, 8); w.esc(1, 2, 8, 32); w.esc(maxB, 11, 24, 24); memcpy(ibp, w.b.data(), w.b.size()); h0 = w.b.size();
      for (int i = 0; i < maxB; i++) ibp[h0 + i] = (u8)r.next();
      std::fill(ib.dec.begin(), ib.dec.end(), 1); for (size_t q = h0 * 8; q < (h0 + maxB) * 8; q++) ib.dec[q] = 0;
      if (f == 0) { ibp[h0] |= 0x80; ib.dec[h0 * 8] = 1; }
      g_plog.clear();
      } else { size_t k = 1 + r.below(3); if (r.chance(0.4)) k += r.below(1 + 4 * (t % 20)); if (r.chance(0.2)) k += r.below(g_plog.size() + 1); backtrack(r, k); }
      g_b8.clear(); I.in.num_inp_bytes = (int)(h0 + maxB);
      g_on = true; e = I.exec(); g_on = false;
      if (I.budget_hit) { why = "exec hang"; return false; }
      size_t cons = I.out.i_bytes_consumed;
      if (e) { g_errs[e]++; note(e); if ((e & 0xffff) == 0x9819) g_cx.lpd = 0; continue; }
      if (cons <= h0 || cons > h0 + maxB - 64 || I.out.num_out_bytes > (int)I.ocap()) { g_errs[-12345]++; continue; }
      double pk = peak_of(I, pk0); if (pk > 0.999 && t < 40) { g_errs[-999]++; continue; }
      S.p.push_back(Pkt{PK_FRAME, 1, std::vector<u8>(ibp + h0, ibp + cons)}); ok = true;
    }
    if (!ok) { why = "frame"; if (f < 3) return false; break; }
  }
  updt(h.ei, I.in.ptr_ei_buf, I.in.ei_info_size); updt(h.ls, I.in.ptr_ls_buf, I.in.lsi_info_size); upd(h.sd, I.in.ptr_sd_buf); updt(h.brir, I.in.ptr_brir_buf, I.in.binaural_data_len);
  upd(h.maeg, I.in.ptr_maeg_buf); upd(h.maes, I.in.ptr_maes_buf); upd(h.maep, I.in.ptr_maep_buf);
  S.hc = h; S.ccfl = b.ccfl; S.feat = b.feat.size() ? b.feat.substr(1) : "-"; for (auto &x : S.feat) if (x == ' ') x = ',';
  return true;
}
// replay without pokes; every call must succeed; returns outcome summary
struct Ver { bool ok; std::string why; double peak; u64 nz; u64 hash; u64 steps; };
static Ver verify(const Stream &S, int seedvar) {
  Ver v{false, "", 0, 0, 0, 0}; Inst I; I.budget = 60000000; I.alloc.seed = seedvar; I.alloc.align_mode = seedvar != 0; I.stack_seed = seedvar; I.setup(S.hc);
  if (I.create()) { v.why = "create"; return v; }
  std::vector<u8> b; std::vector<size_t> at; for (auto &k : S.p) { at.push_back(b.size()); mhas_put(b, k); }
  size_t pos = 0; u64 s0 = g_steps; Rng gr(seedvar + 5);
  while (pos < b.size()) {
    // exactly one packet run up to next stop packet, garbage beyond
    size_t n = std::min<size_t>(I.icap(), b.size() - pos); memcpy(I.ibuf(), &b[pos], n); for (size_t i = n; i < I.icap(); i++) I.ibuf()[i] = seedvar ? (u8)gr.next() : 0;
    I.in.num_inp_bytes = (int)n; int e = I.inited() ? I.exec() : I.init();
    if (I.budget_hit) { v.why = "hang"; return v; }
    if (e || I.out.i_bytes_consumed <= 0) { char t[60]; snprintf(t, 60, "err %x at %zu", e, pos); v.why = t; return v; }
    pos += I.out.i_bytes_consumed;
    bool bd = pos == b.size(); for (size_t a : at) if (a == pos) bd = true;
    if (!bd) { v.why = "misaligned"; return v; }
  }
  v.hash = hash_bytes(I.pcm.data(), I.pcm.size()); v.peak = peak_of(I, 0); for (u8 x : I.pcm) v.nz += x != 0; v.steps = g_steps - s0; v.ok = true;
  std::string c = I.alloc.check(); if (!c.empty()) { v.ok = false; v.why = "mem " + c; } return v;
}
int main(int argc, char **argv) {
  if (argc == 3) {  // single seed, no fork
    Stream S; const char *why = ""; g_verbose = 1; bool ok = gen_stream(strtoull(argv[1], 0, 0), atoi(argv[2]), S, why); printf("%d %s frames %zu feat %s\n", ok, why, S.frames().size(), S.feat.c_str());
    for (auto &x : g_errs) printf("  err %x x%d\n", x.first, x.second); for (auto &x : g_esite) if (x.second > 2) printf("   site %d %s\n", x.second, x.first.c_str()); if (ok) { Ver a = verify(S, 0), b = verify(S, 77); printf("ver %d %s %lx / %d %s %lx peak %f steps %lu\n", a.ok, a.why.c_str(), a.hash, b.ok, b.why.c_str(), b.hash, a.peak, a.steps); } return 0;
  }
  u64 s0 = atoll(argv[1]), n = atoll(argv[2]); std::string out = argv[3]; int nf = argc > 4 ? atoi(argv[4]) : 10; g_verbose = argc > 5;
  std::vector<u8> gc; { std::vector<u8> o; if (read_file(out + "/cov." + std::to_string(s0), o)) gc = o; } gc.resize(1 << 20, 0);
  std::map<std::string, int> whys;
  for (u64 i = 0; i < n; i++) {
    u64 seed = s0 * 1000003 + i;
    // child: crash isolation
    int pfd[2]; if (pipe(pfd)) return 1; pid_t pid = fork();
    if (!pid) {
      alarm(60); close(pfd[0]); Stream S; const char *why = ""; memset(g_cov, 0, g_cov_n + 1);
      std::string msg; int nf2 = std::max(3, (int)(nf / 2 + Rng(seed * 7).below(nf)));
      if (!gen_stream(seed, nf2, S, why)) { msg = std::string("G ") + why; if (std::string(why) == "init" || std::string(why) == "frame") { char t[40]; int best = 0, bn = 0; for (auto &x : g_errs) if (x.second > bn) { bn = x.second; best = x.first; } snprintf(t, 40, " %x", best); msg += t; } }
      else {
        memset(g_cov, 0, g_cov_n + 1); Ver a = verify(S, 0);
        if (!a.ok) msg = "V " + a.why.substr(0, 12);
        else { std::vector<u8> cv(g_cov, g_cov + g_cov_n + 1); Ver c2 = verify(S, 77); if (!c2.ok) msg = "W " + c2.why.substr(0, 12); else {
          S.name = "g" + std::to_string(seed); char t[100]; snprintf(t, 100, ",pk%.3f,st%lu", a.peak, (unsigned long)(a.steps / 1000)); S.feat += t; if (c2.hash != a.hash) S.feat += ",ENVDEP";
          write_file(out + "/" + S.name + ".strm.tmp", stream_save(S)); write_file(out + "/" + S.name + ".cov.tmp", std::string((char *)cv.data(), cv.size())); msg = a.hash == c2.hash ? "OK" : "OKD"; } }
      }
      if (write(pfd[1], msg.data(), msg.size())) {} _exit(0);
    }
    close(pfd[1]); char t[300]; std::string msg; ssize_t k; while ((k = read(pfd[0], t, 300)) > 0) msg.append(t, k); close(pfd[0]); int st; extern int wait4c(pid_t, int *); wait4c(pid, &st);
    if (msg.empty()) { char q[40]; snprintf(q, 40, "CRASH %d", st); msg = q; printf("seed %lu crash %d\n", seed, st); }
    whys[msg]++;
    if (msg.substr(0, 2) == "OK") {
      std::string nm = out + "/g" + std::to_string(seed); std::vector<u8> cv; read_file(nm + ".cov.tmp", cv); int nw = 0; for (size_t j = 0; j < cv.size(); j++) if (cv[j] && !gc[j]) nw++;
      if (nw > 0 || msg == "OKD") { for (size_t j = 0; j < cv.size(); j++) gc[j] |= cv[j]; rename((nm + ".strm.tmp").c_str(), (nm + ".strm").c_str()); rename((nm + ".cov.tmp").c_str(), (nm + ".cov").c_str()); if (g_verbose) printf("keep %lu new %d\n", seed, nw); }
      else { unlink((nm + ".strm.tmp").c_str()); unlink((nm + ".cov.tmp").c_str()); }
    }
  }
  size_t tot = 0; for (u8 x : gc) tot += x; printf("covered %zu / %u\n", tot, g_cov_n); for (auto &w : whys) printf("  %5d %s\n", w.second, w.first.c_str());
}
#include <sys/wait.h>
int wait4c(pid_t p, int *s) { return waitpid(p, s, 0); }
