// Model of one host application owning one decoder instance, plus stream containers.
#pragma once
#include "core.hpp"
extern "C" {
#include "impeghd_type_def.h"
#include "impeghd_memory_standards.h"
#include "impeghd_error_codes.h"
#include "impeghd_api.h"
}

// ---------------------------------------------------------------- streams
enum { PK_FILL = 0, PK_CONFIG = 1, PK_FRAME = 2, PK_SCENE = 3, PK_SYNC = 6, PK_GAP = 7, PK_MARKER = 8, PK_CRC16 = 9,
       PK_CRC32 = 10, PK_DESC = 11, PK_USERINT = 12, PK_LOUDDRC = 13, PK_BUFINFO = 14, PK_GCRC16 = 15, PK_GCRC32 = 16,
       PK_TRUNC = 17, PK_GENDATA = 18, PK_EARCON = 19, PK_PCMCFG = 20, PK_PCMDATA = 21, PK_LOUD = 22 };
struct Pkt { u32 type; u32 label; std::vector<u8> d; };
struct HostCfg {
  int wd = 16, cicp = 0, effect = 0, loud0 = 0, loud1 = 0, preset = -1, raw = 0, ext = 0, resamp = 0, out_fs = 0;
  std::vector<u8> ei, ls, sd, brir, maeg, maei, maes, maep;
};
struct Stream {
  std::string name; std::vector<Pkt> p; HostCfg hc; u32 ccfl = 1024; std::string feat;
  std::vector<size_t> frames() const { std::vector<size_t> v; for (size_t i = 0; i < p.size(); i++) if (p[i].type == PK_FRAME) v.push_back(i); return v; }
};
struct BitW {
  std::vector<u8> b; size_t n = 0;
  void put(u64 v, int bits) { for (int i = bits - 1; i >= 0; i--) { if (n % 8 == 0) b.push_back(0); b[n / 8] |= ((v >> i) & 1) << (7 - n % 8); n++; } }
  void esc(u32 v, int a, int bb, int c) {
    u32 m1 = (1u << a) - 1; if (v < m1) { put(v, a); return; } put(m1, a); v -= m1;
    u32 m2 = bb ? (1u << bb) - 1 : 0; if (v < m2 || !c) { put(v, bb); return; } put(m2, bb); put(v - m2, c);
  }
};
static inline void mhas_put(std::vector<u8> &o, const Pkt &k) {
  BitW w; w.esc(k.type, 3, 8, 8); w.esc(k.label, 2, 8, 32); w.esc((u32)k.d.size(), 11, 24, 24);
  o.insert(o.end(), w.b.begin(), w.b.end()); o.insert(o.end(), k.d.begin(), k.d.end());
}
std::vector<Pkt> mhas_split(const std::vector<u8> &b, size_t max_pk = ~0ull, std::vector<size_t> *ends = nullptr);
static inline bool is_stop(u32 t) { return t == PK_CONFIG || t == PK_FRAME || t == PK_PCMCFG || t == PK_PCMDATA; }

std::string stream_save(const Stream &s);
bool stream_load(const std::string &blob, Stream &s);
bool read_file(const std::string &p, std::vector<u8> &o);
bool write_file(const std::string &p, const std::string &d);

// ---------------------------------------------------------------- decoder instance
struct CallRec { int op; int err; int consumed; int out; u64 ohash; u64 steps; };
enum { OP_CREATE, OP_INIT, OP_EXEC, OP_DELETE };
struct Inst {
  ia_input_config in; ia_output_config out; Alloc alloc; HostCfg hc; Coro coro;
  std::vector<u8> eb, lb, sb, bb, mg, mi, ms, mp, xch, xoam, xhoa, xpcm;
  u64 stack_seed = 0; u64 budget = ~0ull; bool budget_hit = false; bool created = false;
  bool keep_pcm = true; std::vector<u8> pcm; std::vector<CallRec> log; u64 last_steps = 0; int last_err = 0;
  bool check_input = false; std::string violation;   // set by built-in invariants
  size_t stack_off = 0; int vinit = 0;
  Inst(int slot = -1, size_t stack = 4u << 20, u64 place = 0) : coro(stack, slot, place) { memset(&in, 0, sizeof in); memset(&out, 0, sizeof out); }
  void setup(const HostCfg &h, bool mhas = true);
  // Begin an API call on the instance's coroutine without running it (scheduler drives it).
  void begin(int op);
  int ret = 0;
  // run a whole call without interleaving
  int call(int op);
  int create() { int r = call(OP_CREATE); created = !(r & 0x8000); return r; }
  int init() { return call(OP_INIT); }
  int exec() { return call(OP_EXEC); }
  int del() { created = false; return call(OP_DELETE); }
  u8 *ibuf() { return (u8 *)out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr; }
  u8 *obuf() { return (u8 *)out.mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr; }
  u8 *scratch() { return (u8 *)out.mem_info_table[MEMTYPE_SCRATCH].mem_ptr; }
  u32 scratch_sz() { return out.mem_info_table[MEMTYPE_SCRATCH].ui_size; }
  u32 icap() { return out.ui_inp_buf_size; }
  u32 ocap() { return out.mem_info_table[IA_MEMTYPE_OUTPUT].ui_size; }
  bool inited() const { return out.ui_init_done != 0; }
  void record(int op);
};
