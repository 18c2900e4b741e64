From 813f5aeaa9f6fef2736fe9a4510c73e4f08524bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 01/44] fix: refresh output sample rate after a mid-stream
 configuration change

---
 decoder/impeghd_api.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6414ca8..c99b3fd 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1181,6 +1181,12 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->p_state_mpeghd->decode_create_done = 0;
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (p_obj_mpegh_dec->mpeghd_config.resample_output == 0)
+  {
+    p_obj_mpegh_dec->mpeghd_config.out_samp_freq = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
+    p_obj_mpegh_dec->mpeghd_config.stream_samp_freq =
+        p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
+  }
   p_obj_mpegh_dec->p_state_mpeghd->flush = 1;
   return err;
 }
-- 
2.43.0


From 43b68c5f60cff675098f8a1e9dec323165e387fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 02/44] fix: leave decoder state alone when an unchanged
 configuration packet is repeated

---
 decoder/ia_core_coder_decode_main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 137f834..0bf5e97 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2524,6 +2524,12 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
                    pac_info.packet_length);
             mpegh_dec_handle->prev_cfg_len = pac_info.packet_length;
           }
+          if (!flush && handle->p_state_mpeghd->ui_init_done &&
+              handle->p_state_mpeghd->frame_counter != 0)
+          {
+            /* configuration already in use, nothing to be re-initialized */
+            return IA_MPEGH_DEC_NO_ERROR;
+          }
           pstr_dec_data->dec_bit_buf.bit_pos = bit_pos;
           pstr_dec_data->dec_bit_buf.cnt_bits = cnt_bits;
           pstr_dec_data->dec_bit_buf.ptr_read_next = ptr_read_next;
-- 
2.43.0


From a7f71a2f598c93eaadc4178ff29699edaa121609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 03/44] fix: forget the audio pre-roll configuration when the
 decoder is re-initialised mid-stream

---
 decoder/impeghd_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index c99b3fd..4bbc7b8 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1179,6 +1179,9 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
   p_obj_mpegh_dec->p_state_mpeghd->frame_counter = 0;
   p_obj_mpegh_dec->p_state_mpeghd->decode_create_done = 0;
+  p_obj_mpegh_dec->p_state_mpeghd->preroll_config_present = 0;
+  memset(p_obj_mpegh_dec->p_state_mpeghd->preroll_config_prev, 0,
+         sizeof(p_obj_mpegh_dec->p_state_mpeghd->preroll_config_prev));
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
   if (p_obj_mpegh_dec->mpeghd_config.resample_output == 0)
-- 
2.43.0


From 753a11b644d807bed048ec80f75fb81f54b1d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 04/44] fix: clear the temporary object renderer used to derive
 format converter gains

---
 decoder/ia_core_coder_decode_main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 0bf5e97..f6ad868 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -663,7 +663,8 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       ptr_scratch += sizeof(*pstr_obj_renderer);
       ia_oam_dec_config_struct *p_obj_md_cfg = (ia_oam_dec_config_struct *)ptr_scratch;
 
-      memset(&pstr_obj_renderer->str_obj_md_dec_state, 0, sizeof(*p_obj_md_cfg));
+      memset(pstr_obj_renderer, 0, sizeof(*pstr_obj_renderer));
+      memset(p_obj_md_cfg, 0, sizeof(*p_obj_md_cfg));
 
       pstr_obj_renderer->str_obj_md_dec_state.p_obj_md_cfg = p_obj_md_cfg;
       pstr_obj_renderer->str_obj_md_dec_state.num_objects = num_out_chn;
-- 
2.43.0


From a5d58977b0bc8776cd8adf09151fba51f42875e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 05/44] fix: count LFE loudspeakers of an explicit speaker list
 from the geometry table

---
 decoder/impeghd_obj_ren_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 3e9d85d..0006296 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -150,7 +150,7 @@ static IA_ERRORCODE impeghd_flex_spk_2_ls_geometry(ia_cicp_ls_geo_str *array_cic
       pp_cicp_ls_geometry[i]->ls_azimuth_start = ia_cicp_ls_geo_tbls[idx].ls_azimuth_start;
       pp_cicp_ls_geometry[i]->ls_azimuth_end = ia_cicp_ls_geo_tbls[idx].ls_azimuth_end;
       pp_cicp_ls_geometry[i]->lfe_flag = ia_cicp_ls_geo_tbls[idx].lfe_flag;
-      *num_lfe += ptr_flex_spk->str_flex_spk_descr[idx].is_lfe;
+      *num_lfe += ia_cicp_ls_geo_tbls[idx].lfe_flag;
     }
   }
   return 0;
-- 
2.43.0


From 1910b9a0987bb9d99bc7cf3caaef220de21f42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 06/44] fix: look up LFE flags of an explicit speaker list by
 speaker index in the HOA renderer

---
 decoder/impeghd_hoa_render_mtrx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/decoder/impeghd_hoa_render_mtrx.c b/decoder/impeghd_hoa_render_mtrx.c
index aa0bfe5..193bc90 100644
--- a/decoder/impeghd_hoa_render_mtrx.c
+++ b/decoder/impeghd_hoa_render_mtrx.c
@@ -389,8 +389,7 @@ impeghd_hoa_ren_mtrx_init_with_spc_pos_param(ia_render_hoa_render_mtrx_str *ren_
 
       for (i = 0; i < loop; i++)
       {
-        speaker_table = ia_cicp_idx_ls_set_map_tbl[ref_spk_layout->cicp_spk_idx[i]];
-        if (1 == ia_cicp_ls_geo_tbls[speaker_table[i]].lfe_flag)
+        if (1 == ia_cicp_ls_geo_tbls[ref_spk_layout->cicp_spk_idx[i]].lfe_flag)
           ren_handle->spk_idx[i] = 1;
       }
     }
-- 
2.43.0


From c56b89cf8c22317025c70c9582eefa4fadf1650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 07/44] fix: hold three coordinates per signalled loudspeaker
 in the HOA rendering matrix

---
 decoder/impeghd_hoa_render_mtrx.c | 9 ++++++---
 decoder/impeghd_hoa_render_mtrx.h | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_hoa_render_mtrx.c b/decoder/impeghd_hoa_render_mtrx.c
index 193bc90..7936c1e 100644
--- a/decoder/impeghd_hoa_render_mtrx.c
+++ b/decoder/impeghd_hoa_render_mtrx.c
@@ -423,15 +423,18 @@ impeghd_hoa_ren_mtrx_init_with_spc_pos_param(ia_render_hoa_render_mtrx_str *ren_
 VOID impeghd_hoa_ren_mtrx_resort_spk_pos(pVOID handle, const pUWORD32 order, pVOID scratch)
 {
   pUWORD32 temp_ls_type = (UWORD32 *)scratch;
-  FLOAT32 temp_signaled_speaker_pos_rad[HOA_MAX_VECTOR_SIZE];
+  FLOAT32 temp_signaled_speaker_pos_rad[HOA_MAX_VECTOR_SIZE * 3];
   WORD32 i;
   ia_render_hoa_render_mtrx_str *ren_handle = (ia_render_hoa_render_mtrx_str *)handle;
 
   for (i = 0; i < HOA_MAX_VECTOR_SIZE; i++)
   {
-    temp_signaled_speaker_pos_rad[i] = 1000.0;
     temp_ls_type[i] = 2;
   }
+  for (i = 0; i < HOA_MAX_VECTOR_SIZE * 3; i++)
+  {
+    temp_signaled_speaker_pos_rad[i] = 1000.0;
+  }
 
   for (i = 0; i < ren_handle->l_speakers; ++i)
   {
@@ -446,6 +449,6 @@ VOID impeghd_hoa_ren_mtrx_resort_spk_pos(pVOID handle, const pUWORD32 order, pVO
 
   memcpy(&ren_handle->spk_idx[0], &temp_ls_type[0], sizeof(UWORD32) * HOA_MAX_VECTOR_SIZE);
   ia_core_coder_mem_cpy(&temp_signaled_speaker_pos_rad[0],
-                        &ren_handle->signaled_speaker_pos_rad[0], HOA_MAX_VECTOR_SIZE);
+                        &ren_handle->signaled_speaker_pos_rad[0], HOA_MAX_VECTOR_SIZE * 3);
 }
 /** @} */ /* End of HOAProc */
\ No newline at end of file
diff --git a/decoder/impeghd_hoa_render_mtrx.h b/decoder/impeghd_hoa_render_mtrx.h
index 236286f..60c67ae 100644
--- a/decoder/impeghd_hoa_render_mtrx.h
+++ b/decoder/impeghd_hoa_render_mtrx.h
@@ -37,7 +37,7 @@
 
 typedef struct
 {
-  FLOAT32 signaled_speaker_pos_rad[HOA_MAX_VECTOR_SIZE];
+  FLOAT32 signaled_speaker_pos_rad[HOA_MAX_VECTOR_SIZE * 3];
   UWORD32 spk_idx[HOA_MAX_VECTOR_SIZE];
   WORD32 num_subwoofer;
   WORD32 num_satellites;
-- 
2.43.0


From 5f28ccb0e76f1474f401b029d8b9851f08677699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 08/44] fix: validate HOA vector indices against the codebook
 of their own channel

---
 decoder/impeghd_hoa_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 96b117d..bf2c2e8 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -519,7 +519,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (j = 0; j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
     {
       /*ISO/IEC 23008-9 section 5.19.6*/
-      switch (ptr_frame_data->codebk_idx[j])
+      switch (ptr_frame_data->codebk_idx[sig_ch_idx])
       {
       case 0:
         if (ptr_frame_data->vvec_idx[j] > 900)
-- 
2.43.0


From de9f1043975743c36664ea259f9b7e17d456f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 09/44] fix: size the HOA fade-in channel flags for one-based
 coefficient indices

---
 decoder/impeghd_hoa_dec_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index b7a206e..b20491d 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -42,7 +42,7 @@ typedef struct
   UWORD8 additional_info[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 non_transitional_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
-  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS];
+  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
   UWORD32 new_vec_channels[HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 additional_value[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
-- 
2.43.0


From 258f0421df7560c31d551a607d5fdbb00f80a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 10/44] fix: size the binaural channel map for every renderer
 input channel

---
 decoder/impeghd_binaural_renderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index affddd1..9b4b212 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -78,7 +78,7 @@ typedef struct
 typedef struct
 {
   ia_binaural_ren_pers_mem_str str_binaural;
-  WORD32 channel_map[MAX_NUM_BRIR_PAIRS];
+  WORD32 channel_map[MAX_NUM_BRIR_CHANNELS];
   FLOAT32 binaural_signal_in_renderer[MAX_NUM_BRIR_CHANNELS][BINAURAL_TEST_LGR_SIGNAL];
   FLOAT32 binaural_signal_out_renderer[BINAURAL_NB_OUTPUT][BINAURAL_DIR_MAXLEN];
   FLOAT32 *ptr_binaural_signal_in_renderer[MAX_NUM_BRIR_CHANNELS];
-- 
2.43.0


From 928b422d0f724f7d294d7b926729e0e3416a6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 11/44] fix: ignore a TCX TNS filter that does not start at a
 valid scale factor band

---
 decoder/ia_core_coder_tcx_fwd_alcnx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_tcx_fwd_alcnx.c b/decoder/ia_core_coder_tcx_fwd_alcnx.c
index 8865073..f757a05 100644
--- a/decoder/ia_core_coder_tcx_fwd_alcnx.c
+++ b/decoder/ia_core_coder_tcx_fwd_alcnx.c
@@ -472,7 +472,8 @@ static VOID ia_core_coder_tns_dec_lpd(ia_sfb_info_struct *sfb_info,
   WORD32 filter_stop;
   WORD32 filter_size;
 
-  if (!tns->n_filt || (tns_filter->stop_band > 15) || (tns_filter->order <= 0))
+  if (!tns->n_filt || (tns_filter->start_band < 1) || (tns_filter->stop_band > 15) ||
+      (tns_filter->order <= 0))
   {
     return;
   }
-- 
2.43.0


From 3c153d44a1ae4dc57b2050c2158299e0f26f256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 12/44] fix: do not form pointers beyond the resampler delay
 line

---
 decoder/impeghd_resampler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_resampler.c b/decoder/impeghd_resampler.c
index a024d67..55b7fb1 100644
--- a/decoder/impeghd_resampler.c
+++ b/decoder/impeghd_resampler.c
@@ -116,7 +116,9 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
   for (idx1 = 0; idx1 < (pstr_resampler->input_length); idx1++)
   {
     const FLOAT32 *ptr_filt_coef = ptr_resamp_filt_tbl;
-    ptr_delay = &pstr_resampler->delay_samples_upsamp[idx1];
+    ptr_delay = (idx1 < (RESAMPLE_DELAY / fac_up))
+                    ? &pstr_resampler->delay_samples_upsamp[idx1]
+                    : &pstr_resampler->delay_samples_upsamp[0];
     ia_core_coder_memset(poly_filt_outputs, RESAMPLE_MAX_RATIO);
 
     for (idx2 = 0; (idx1 + idx2) < (RESAMPLE_DELAY / fac_up); idx2++)
-- 
2.43.0


From 1b6d723c3c2f551552421378093027b61fe4e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 13/44] fix: keep the initial binaural block fill within the
 processing block length

---
 decoder/impeghd_api.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 4bbc7b8..ad80291 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -833,6 +833,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
 
     pstr_dec_data->binaural_handle.str_binaural.memory_index +=
         2048; // TODO: Replace 2048, with variable
+    if (pstr_dec_data->binaural_handle.str_binaural.processed_samples > 0)
+    {
+      /* short filters process blocks of fewer than 2048 samples */
+      pstr_dec_data->binaural_handle.str_binaural.memory_index %=
+          pstr_dec_data->binaural_handle.str_binaural.processed_samples;
+    }
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
-- 
2.43.0


From d0ba521ceaa6b4b9830afa0435a3aece8b47b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 14/44] fix: reject audio scene boxes with more entries than
 the decoder can hold

---
 decoder/impeghd_api.c            | 28 ++++++++++++++++---
 decoder/impeghd_mae_mp4_intrfc.c | 47 ++++++++++++++++++++++++++------
 decoder/impeghd_mae_mp4_intrfc.h | 16 +++++------
 3 files changed, 71 insertions(+), 20 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index ad80291..03a8a6b 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -723,7 +723,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maeg_buf,
                                       pstr_input_config->maeg_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maeg(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maeg(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
   if (pstr_input_config->maes_flag == 1 && pstr_input_config->ptr_maes_buf != NULL)
@@ -741,7 +746,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maes_buf,
                                       pstr_input_config->maes_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maes(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maes(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
   if (pstr_input_config->maep_flag == 1 && pstr_input_config->ptr_maep_buf != NULL)
@@ -759,7 +769,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maep_buf,
                                       pstr_input_config->maep_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maep(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maep(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
 
@@ -778,7 +793,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maei_buf,
                                       pstr_input_config->maei_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_mael(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_mael(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
 
diff --git a/decoder/impeghd_mae_mp4_intrfc.c b/decoder/impeghd_mae_mp4_intrfc.c
index 8876eae..0d9a21d 100644
--- a/decoder/impeghd_mae_mp4_intrfc.c
+++ b/decoder/impeghd_mae_mp4_intrfc.c
@@ -35,6 +35,7 @@
 #include <impeghd_type_def.h>
 #include "ia_core_coder_bitbuffer.h"
 #include "ia_core_coder_cnst.h"
+#include "impeghd_error_codes.h"
 #include "impeghd_memory_standards.h"
 #include "impeghd_mhas_parse.h"
 
@@ -49,8 +50,8 @@
  *
  *
  */
-VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 k, j;
 
@@ -66,6 +67,12 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
   ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
   ptr_mae_audio_scene_info->group_desc_data.num_descr_blks =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7) + 1; // reserved bits
+  if ((UWORD8)ptr_mae_audio_scene_info->group_desc_data.num_descr_blks >=
+      MAX_NUM_DESCRIPTOIN_BLOCKS)
+  {
+    ptr_mae_audio_scene_info->group_desc_data.num_descr_blks = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_DESCRIPTION_BLOCKS;
+  }
   for (j = 0; j < ptr_mae_audio_scene_info->group_desc_data.num_descr_blks; j++)
   {
 
@@ -153,6 +160,7 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
   {
     ptr_mae_audio_scene_info->preset_desc_data.descr_data[j][0][k] = 0;
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maep
@@ -165,14 +173,19 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
  *
  *
  */
-VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 i, j, num_conditions, num_group_presets;
   ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
   ptr_mae_audio_scene_info->num_group_presets =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_group_presets = ptr_mae_audio_scene_info->num_group_presets;
+  if (num_group_presets > MAX_NUM_GROUPS_PRESETS)
+  {
+    ptr_mae_audio_scene_info->num_group_presets = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS;
+  }
   for (i = 0; i < num_group_presets; i++)
   {
     ia_core_coder_read_bits_buf(ptr_read_buff, 3); // reserved bits
@@ -185,6 +198,11 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
     ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions =
         ia_core_coder_read_bits_buf(ptr_read_buff, 8);
     num_conditions = ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions;
+    if ((num_conditions < 0) || (num_conditions > MAX_GROUP_PRESET_NUM_CONDITIONS))
+    {
+      ptr_mae_audio_scene_info->num_group_presets = 0;
+      return IA_MPEGH_DEC_INIT_FATAL_INVALID_ASI_PARAM;
+    }
     for (j = 0; j < num_conditions; j++)
     {
       ptr_mae_audio_scene_info->group_presets_definition[i].reference_id[j] =
@@ -225,6 +243,7 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
       }
     }
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maes
@@ -237,8 +256,8 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
  *
  *
  */
-VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 num_switch_groups, i, j;
 
@@ -246,6 +265,11 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
   ptr_mae_audio_scene_info->num_switch_groups =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_switch_groups = ptr_mae_audio_scene_info->num_switch_groups;
+  if (num_switch_groups > MAX_NUM_SWITCH_GROUPS)
+  {
+    ptr_mae_audio_scene_info->num_switch_groups = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_SWITCH_GROUPS;
+  }
   for (i = 0; i < num_switch_groups; i++)
   {
     ptr_mae_audio_scene_info->switch_group_definition[i].allow_on_off = 0;
@@ -269,6 +293,7 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
     ptr_mae_audio_scene_info->switch_group_definition[i].default_group_id =
         ia_core_coder_read_bits_buf(ptr_read_buff, 7); // default id
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maeg
@@ -281,8 +306,8 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
  *
  *
  */
-VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 num_grps;
   ptr_mae_audio_scene_info->main_stream_flag = 1;
@@ -293,6 +318,11 @@ VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
   ptr_mae_audio_scene_info->num_groups =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_grps = ptr_mae_audio_scene_info->num_groups;
+  if (num_grps > MAX_NUM_GROUPS)
+  {
+    ptr_mae_audio_scene_info->num_groups = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUP;
+  }
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
     ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
@@ -348,4 +378,5 @@ VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
   }
   ptr_mae_audio_scene_info->group_definition[0].start_id = 0;
   ptr_mae_audio_scene_info->group_definition[1].start_id = 2;
+  return IA_MPEGH_DEC_NO_ERROR;
 }
diff --git a/decoder/impeghd_mae_mp4_intrfc.h b/decoder/impeghd_mae_mp4_intrfc.h
index a7f774e..c845df9 100644
--- a/decoder/impeghd_mae_mp4_intrfc.h
+++ b/decoder/impeghd_mae_mp4_intrfc.h
@@ -35,13 +35,13 @@
 #ifndef IMPEGHD_MAE_INTRFC_H
 #define IMPEGHD_MAE_INTRFC_H
 
-VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
 
 #endif /* IMPEGHD_MAE_INTRFC_H */
\ No newline at end of file
-- 
2.43.0


From cb7686b2757e134ae7badf1a57c9aa18dfefbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 15/44] fix: ignore switch group members that name no defined
 group

---
 decoder/impeghd_metadata_preprocessor.c | 30 +++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 040aa1e..06392c5 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -2742,7 +2742,7 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
     {
       idx = impeghd_md_proc_grp_idx(pstr_asc,
                                     pstr_mae_asi->switch_group_definition[i].member_id[k]);
-      if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+      if (idx >= 0 && pstr_interact_cfg->on_off_status_modified[idx] == 1)
       {
         num_non_zero++;
       }
@@ -2759,7 +2759,10 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
       if (sw_grp_allow_on_off != 1)
       {
         idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-        pstr_interact_cfg->on_off_status_modified[idx] = 1;
+        if (idx >= 0)
+        {
+          pstr_interact_cfg->on_off_status_modified[idx] = 1;
+        }
       }
       else
       {
@@ -2774,12 +2777,18 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
         if (default_id != member_id)
         {
           idx = impeghd_md_proc_grp_idx(pstr_asc, member_id);
-          pstr_interact_cfg->on_off_status_modified[idx] = 0;
+          if (idx >= 0)
+          {
+            pstr_interact_cfg->on_off_status_modified[idx] = 0;
+          }
         }
         else
         {
           idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-          pstr_interact_cfg->on_off_status_modified[idx] = 1;
+          if (idx >= 0)
+          {
+            pstr_interact_cfg->on_off_status_modified[idx] = 1;
+          }
         }
       }
     }
@@ -3099,7 +3108,7 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
               {
                 idx = impeghd_md_proc_grp_idx(
                     pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
-                if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+                if (idx >= 0 && pstr_interact_cfg->on_off_status_modified[idx] == 1)
                 {
                   pstr_interact_cfg->on_off_status_modified[idx] = 0;
                 }
@@ -3131,7 +3140,7 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             {
               idx = impeghd_md_proc_grp_idx(
                   pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
-              if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+              if (idx >= 0 && pstr_interact_cfg->on_off_status_modified[idx] == 1)
               {
                 num_non_zero++;
               }
@@ -3139,7 +3148,10 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             if (num_non_zero == 0)
             {
               idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-              pstr_interact_cfg->on_off_status_modified[idx] = 1;
+              if (idx >= 0)
+              {
+                pstr_interact_cfg->on_off_status_modified[idx] = 1;
+              }
             }
             else if (num_non_zero > 1)
             {
@@ -4616,6 +4628,10 @@ static IA_ERRORCODE impeghd_mp_process_frame(ia_audio_specific_config_struct *ps
         {
           group_id = pstr_mae_asi->switch_group_definition[0].member_id[m];
           grp_index = impeghd_md_proc_grp_idx(pstr_asc, group_id);
+          if (grp_index < 0)
+          {
+            continue;
+          }
           if (m == choose_switch_grp_member)
           {
             pstr_mae_asi->group_definition[grp_index].default_on_off = 1;
-- 
2.43.0


From 941033ed9d588533a413b29677ff347ed25ca2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 16/44] fix: give the binaural renderer one input history slot
 more than diffuse blocks

---
 decoder/impeghd_binaural_renderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index 9b4b212..c4d6372 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -71,7 +71,7 @@ typedef struct
   FLOAT32 input_mem_buf[MAX_NUM_BRIR_CHANNELS][BINAURAL_FFT_MAXLEN];
   FLOAT32 output_mem_buf[BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
   FLOAT32 taps_diffuse[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
-  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_FFT_MAXLEN];
+  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS + 1][BINAURAL_FFT_MAXLEN];
   FLOAT32 diffuse_weight[MAX_NUM_BRIR_CHANNELS];
 } ia_binaural_ren_pers_mem_str;
 
-- 
2.43.0


From 5117c4799ca2e4322bcb33e65e146bb5290c2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 17/44] fix: do not form pointers beyond the resampler
 decimation delay line

---
 decoder/impeghd_resampler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_resampler.c b/decoder/impeghd_resampler.c
index 55b7fb1..203cc71 100644
--- a/decoder/impeghd_resampler.c
+++ b/decoder/impeghd_resampler.c
@@ -177,7 +177,8 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
       const FLOAT32 *ptr_filt_coef = &impeghd_resampler_filter[0];
 
       mac = 0;
-      ptr_delay = &pstr_resampler->delay_samples[idx1];
+      ptr_delay = (idx1 < RESAMPLE_DELAY) ? &pstr_resampler->delay_samples[idx1]
+                                          : &pstr_resampler->delay_samples[0];
       for (idx2 = 0; idx1 + idx2 < RESAMPLE_DELAY; idx2++)
       {
         mac += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
-- 
2.43.0


From 1f94db92c026a182058bcd24d19b2f35523ded7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 18/44] fix: skip interaction gain members outside the decoded
 channel range

---
 decoder/impeghd_metadata_preprocessor.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 06392c5..33081bd 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -3809,6 +3809,10 @@ static IA_ERRORCODE impeghd_md_apply_gain_interactivity(
           member_id = pstr_mae_asi->group_definition[i].start_id + k;
         }
 
+        if ((member_id < 0) || (member_id >= MAX_NUM_CHANNELS))
+        {
+          continue;
+        }
         memset(&pstr_dec_data->str_usac_data.time_sample_vector[member_id][0], 0,
                sizeof(pstr_dec_data->str_usac_data.time_sample_vector[member_id][j]) *
                    pstr_dec_data->str_usac_data.ccfl);
@@ -3841,6 +3845,10 @@ static IA_ERRORCODE impeghd_md_apply_gain_interactivity(
                 member_id = pstr_mae_asi->group_definition[i].start_id + k;
               }
 
+              if ((member_id < 0) || (member_id >= MAX_NUM_CHANNELS))
+              {
+                continue;
+              }
               /* interpolate between lastGain and currentGain over the interval of 1 frame */
 
               for (j = 0; j < pstr_dec_data->str_usac_data.ccfl; j++)
-- 
2.43.0


From 96c45bd6bd2f051232d9dcc992de2b3276e9b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 19/44] fix: refuse HOA binaural rendering of more coefficients
 than output channels

---
 decoder/impeghd_hoa_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_decoder.c b/decoder/impeghd_hoa_decoder.c
index f48ad8d..5b2a0df 100644
--- a/decoder/impeghd_hoa_decoder.c
+++ b/decoder/impeghd_hoa_decoder.c
@@ -143,6 +143,10 @@ IA_ERRORCODE impeghd_hoa_dec_decode(impeghd_hoa_dec_struct *dec_handle, pFLOAT32
 
   if (dec_handle->is_brir_rendering)
   {
+    if (dec_handle->ia_hoa_config->num_coeffs > MAX_NUM_CHANNELS)
+    {
+      return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_SPEAKERS;
+    }
     *num_out_ch = dec_handle->ia_hoa_config->num_coeffs;
   }
   else
-- 
2.43.0


From fd560d3a43fed7de029e2ce5e90f06828c476406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 20/44] fix: reject configuration packets longer than the
 stored configuration

---
 decoder/ia_core_coder_decode_main.c  | 4 ++++
 decoder/ia_core_coder_headerdecode.c | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index f6ad868..6a341bc 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2506,6 +2506,10 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       {
         WORD32 bytes_consumed;
         WORD32 flush = 0;
+        if (pac_info.packet_length > MAX_CFG_DATA_LENGTH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+        }
         if (mpegh_dec_handle->prev_cfg_len)
         {
           WORD32 i = 0;
diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index c34b318..be9a73b 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -192,6 +192,11 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         WORD32 bit_pos = handle_bit_buff->bit_pos;
         WORD32 cnt_bits = handle_bit_buff->cnt_bits;
         UWORD8 *ptr_read_next = handle_bit_buff->ptr_read_next;
+        if (info.packet_length > MAX_CFG_DATA_LENGTH)
+        {
+          p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = 1;
+          return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+        }
         mpeghd_state_struct->prev_cfg_len = info.packet_length;
         for (i = 0; i < info.packet_length; i++)
         {
-- 
2.43.0


From 2d257d25128c582a17e70d98da7b775af929675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 21/44] fix: report no stale byte count when a call fails
 before reading its input

---
 decoder/impeghd_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 03a8a6b..2b1ee10 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1445,6 +1445,9 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
 
     if (p_obj_mpegh_dec->p_state_mpeghd->num_of_output_ch > MAX_NUM_CHANNELS)
       return IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX;
+    /* nothing of this call's input has been read yet */
+    pstr_dec_data->dec_bit_buf.size = 0;
+    pstr_dec_data->dec_bit_buf.cnt_bits = 0;
     error_code =
         ia_core_coder_dec_main(p_obj_mpegh_dec, inbuffer, outbuffer, &out_bytes, frames_done,
                                pcm_size, &p_obj_mpegh_dec->p_state_mpeghd->num_of_output_ch);
-- 
2.43.0


From f290f704e893eee0d40bffd9c5dfba60e3622f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:11 +0000
Subject: [PATCH 22/44] fix: return the non-fatal configuration errors from
 create and keep the other parameters

---
 decoder/impeghd_api.c | 49 +++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 2b1ee10..0245174 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -256,14 +256,14 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
     p_obj_mpegh_dec->mpeghd_config.ui_mhas_flag = ptr_input_config->ui_mhas_flag;
   }
 
-  if ((ptr_input_config->ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
+  if ((ptr_input_config->ui_cicp_layout_idx > IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
       (ptr_input_config->ui_cicp_layout_idx < NUM_LS_CFGS))
   {
     p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx = ptr_input_config->ui_cicp_layout_idx;
   }
   else if (ptr_input_config->ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL)
   {
-    return IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_CICP_INDEX;
+    err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_CICP_INDEX;
   }
 
   if ((ptr_input_config->i_preset_id != IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL) &&
@@ -273,16 +273,19 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
   }
   else if (ptr_input_config->i_preset_id != IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL)
   {
-    return IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PRESET_ID;
+    err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PRESET_ID;
   }
 
   if ((ptr_input_config->ui_pcm_wd_sz != 16) && (ptr_input_config->ui_pcm_wd_sz != 24) &&
       (ptr_input_config->ui_pcm_wd_sz != 32))
   {
-    p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = 16;
-    return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PCM_WDSZ);
+    p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = IMPEGHD_CONFIG_PARAM_PCM_WD_SZ_DFLT_VAL;
+    err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_PCM_WDSZ;
+  }
+  else
+  {
+    p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = ptr_input_config->ui_pcm_wd_sz;
   }
-  p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz = ptr_input_config->ui_pcm_wd_sz;
 
   if (ptr_input_config->enable_resamp)
   {
@@ -293,30 +296,29 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
   {
     if ((ptr_input_config->ui_effect > 8) || (ptr_input_config->ui_effect < 0))
     {
-      p_obj_mpegh_dec->mpeghd_config.ui_effect_type = 0;
-      p_obj_mpegh_dec->mpeghd_config.drc_apply = 1;
-      return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_EFFECT_TYPE);
+      p_obj_mpegh_dec->mpeghd_config.ui_effect_type = IMPEGHD_CONFIG_PARAM_EFFECT_TYPE_DFLT_VAL;
+      err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_EFFECT_TYPE;
+    }
+    else
+    {
+      p_obj_mpegh_dec->mpeghd_config.ui_effect_type = ptr_input_config->ui_effect;
     }
-    p_obj_mpegh_dec->mpeghd_config.ui_effect_type = ptr_input_config->ui_effect;
   }
 
   if (ptr_input_config->ui_target_loudness[0] == 1)
   {
-    if (ptr_input_config->ui_target_loudness[1] >= 0)
+    WORD32 target_loudness = -(ptr_input_config->ui_target_loudness[1] >> 2);
+    if ((target_loudness > 0) || (target_loudness < -63))
     {
-      p_obj_mpegh_dec->mpeghd_config.ui_loud_norm_flag = 1;
-      p_obj_mpegh_dec->mpeghd_config.drc_apply = 1;
+      err_code = IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_TARGET_LOUDNESS;
     }
-    ptr_input_config->ui_target_loudness[1] = -(ptr_input_config->ui_target_loudness[1] >> 2);
-    if (((ptr_input_config->ui_target_loudness[1]) > 0) ||
-        ((ptr_input_config->ui_target_loudness[1]) < -63))
+    else
     {
-      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = 0;
-      p_obj_mpegh_dec->mpeghd_config.drc_apply = 0;
-      return (IA_MPEGH_DEC_CONFIG_NONFATAL_INVALID_TARGET_LOUDNESS);
+      p_obj_mpegh_dec->mpeghd_config.ui_loud_norm_flag = 1;
+      p_obj_mpegh_dec->mpeghd_config.drc_apply = 1;
+      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = target_loudness;
+      p_obj_mpegh_dec->mpeghd_config.ui_target_loudness_set = 1;
     }
-    p_obj_mpegh_dec->mpeghd_config.ui_target_loudness = ptr_input_config->ui_target_loudness[1];
-    p_obj_mpegh_dec->mpeghd_config.ui_target_loudness_set = 1;
   }
   return err_code;
 }
@@ -501,6 +503,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   pVOID pv_value;
   WORD32 ui_api_size;
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
+  IA_ERRORCODE config_err_code = IA_MPEGH_DEC_NO_ERROR;
   ia_input_config *pstr_input_config = (ia_input_config *)pv_input;
   ia_output_config *pstr_output_config = (ia_output_config *)pv_output;
   ia_mpegh_dec_api_struct *p_obj_mpegh_dech;
@@ -538,7 +541,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
         (ia_mpegh_dec_block_tables_struct *)&ia_core_coder_mpeghd_block_tables;
   }
 
-  err_code = impeghd_set_config_params(p_obj_mpegh_dech, pstr_input_config);
+  config_err_code = impeghd_set_config_params(p_obj_mpegh_dech, pstr_input_config);
 
   pstr_output_config->ui_proc_mem_tabs_size =
       (sizeof(ia_mem_info_struct) + sizeof(pVOID *)) * (NUM_MEMTABS);
@@ -577,7 +580,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   }
   impeghd_update_output_config(p_obj_mpegh_dech, pstr_output_config);
 
-  return err_code;
+  return config_err_code;
 }
 
 /**
-- 
2.43.0


From aa9cc3c259b906b7ff0a75d7d1bc87c8982d059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:33 +0000
Subject: [PATCH 23/44] fix: drop the TD overlap pointer into scratch memory at
 the end of an LPD frame

---
 decoder/ia_core_coder_lpc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/ia_core_coder_lpc.c b/decoder/ia_core_coder_lpc.c
index 8958041..3aed22a 100644
--- a/decoder/ia_core_coder_lpc.c
+++ b/decoder/ia_core_coder_lpc.c
@@ -1173,6 +1173,11 @@ IA_ERRORCODE ia_core_coder_lpd_dec(ia_usac_data_struct *usac_data, ia_usac_lpd_d
   ia_core_coder_mem_cpy(&pitch_gain[num_subfr_in_superfr], st->gain_prev, num_subfr_by2);
   err = ia_core_coder_lpd_dec_lpd_stereo_proc(usac_data, st, td_config, fsynth, pscr, synth_fb,
                                               chan, mode, synth_delay);
+  if (td_config->full_band_lpd)
+  {
+    /* the overlap of the preceding FD frame is in the scratch memory of this frame */
+    st->overlap_buf = NULL;
+  }
   return err;
 }
 
-- 
2.43.0


From 4d3f0930bc072e6e53f3890b45d5780e2a659035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:33 +0000
Subject: [PATCH 24/44] fix: initialise the requested DRC group tables before
 they are compared

---
 decoder/ia_core_coder_decode_main.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 6a341bc..c643b5c 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -3119,9 +3119,9 @@ IA_ERRORCODE impeghd_uni_drc_dec_init(ia_audio_specific_config_struct *pstr_audi
   WORD8 num_group_preset_ids_requested;
   WORD32 num_ch;
 
-  WORD8 group_id_requested[MAX_NUM_GROUPS];
-  WORD8 group_preset_id_requested[MAX_NUM_GROUPS_PRESETS];
-  WORD8 num_members_group_preset_ids_requested[MAX_NUM_GROUPS];
+  WORD8 group_id_requested[MAX_NUM_GROUPS] = {0};
+  WORD8 group_preset_id_requested[MAX_NUM_GROUPS_PRESETS] = {0};
+  WORD8 num_members_group_preset_ids_requested[MAX_NUM_GROUPS] = {0};
   WORD32 decDownmixIdList[NUM_GAIN_DEC_INSTANCES] = {0, 4};
 
   pVOID persistant_ptr = (VOID *)&pstr_dec_data->drc_persistent_buf[0];
-- 
2.43.0


From 08a00a4720a309bac7d57acea12c5ac99b516385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:47 +0000
Subject: [PATCH 25/44] fix: refuse a DRC set applied to more channels than its
 tables hold

---
 decoder/impd_drc_init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/impd_drc_init.c b/decoder/impd_drc_init.c
index c09daa6..4d21a5b 100644
--- a/decoder/impd_drc_init.c
+++ b/decoder/impd_drc_init.c
@@ -552,6 +552,11 @@ IA_ERRORCODE impd_drc_init_selected_drc_set(ia_drc_params_struct *pstr_ia_drc_pa
   pstr_ia_drc_params->sel_drc_array[pstr_ia_drc_params->drc_set_counter].downmix_instrns_idx =
       downmix_instructions_selected;
 
+  if (channel_count > MAX_CHANNEL_COUNT)
+  {
+    return IA_MPEGD_DRC_INIT_FATAL_UNEXPECTED_ERROR;
+  }
+
   pstr_drc_instructions_uni_drc->audio_num_chan = channel_count;
 
   if (pstr_drc_instructions_uni_drc->drc_set_id <= 0)
-- 
2.43.0


From 1d270344addc657c099b3e958410c760db401617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 26/44] fix: report an incomplete access unit instead of
 decoding missing bits as zero

---
 decoder/impeghd_mhas_parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 3a26f06..3d2f9e4 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -1378,6 +1378,12 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
   } while ((MHAS_PAC_TYP_MPEGH3DACFG != pkt_type) && (MHAS_PAC_TYP_MPEGH3DAFRAME != pkt_type) &&
            (1 != pstr_mae_asi->pcm_data_config.pcm_packet_type_present));
 
+  if ((MHAS_PAC_TYP_MPEGH3DAFRAME == pkt_type) && ((pkt_len << 3) > pstr_bit_buf->cnt_bits))
+  {
+    /* incomplete access unit, arithmetic decoding would take the missing bits as zero */
+    longjmp(*(pstr_bit_buf->xmpeghd_jmp_buf), IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES);
+  }
+
   pstr_pac_info->packet_type = pkt_type;
   pstr_pac_info->packet_lbl = pkt_lbl;
   pstr_pac_info->packet_length = pkt_len;
-- 
2.43.0


From 2df78243eb7e665445aefd63f771fccbd9d42e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 27/44] fix: forget the input channel names of the previous
 configuration in the format converter

---
 decoder/ia_core_coder_decode_main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index c643b5c..af8b0e7 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -564,6 +564,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
     pstr_fc_state = &p_obj_mpegh_dec->p_state_mpeghd->state_format_conv;
     pstr_format_conv = &pstr_decoder->str_format_converter;
     ptr_chn_in = &pstr_fc_state->format_in_chan[0];
+    memset(ptr_chn_in, 0, sizeof(pstr_fc_state->format_in_chan));
     for (i = 0; i < (WORD32)pstr_signals_3d->num_sig_group; i++)
     {
 
-- 
2.43.0


From 80722e6dbbe3d7e3a8d11eed642ed9b0941bb985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 28/44] fix: look speaker positions of a local setup up by
 speaker index

impeghd_get_geom_frm_spk_cfg() used the layout look-up with a speaker index
and ignored its failure, leaving pointers unset or reading past the tables.
---
 decoder/ia_core_coder_init_config.c | 61 ++++++++++++++++-------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c32dbc1..c55f27f 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1730,6 +1730,7 @@ VOID ia_core_coder_conf_default(ia_usac_config_struct *pstr_usac_conf)
 IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
                                        ia_interface_speaker_config_3d *spk_config_3d)
 {
+  IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   UWORD32 i;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   spk_config_3d->spk_layout_type = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 2);
@@ -1765,8 +1766,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     }
     }
   }
-  impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
-                               &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  err_code = impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
+                                          &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  if (err_code)
+  {
+    return err_code;
+  }
 
   spk_config_3d->num_speakers = spk_config_3d->num_ch + spk_config_3d->num_lfes;
 
@@ -1901,12 +1906,12 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
                                           WORD32 *num_lfes)
 {
   UWORD32 i;
-  ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-  WORD32 in_num_channels, in_num_lfes;
+  const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry;
+  WORD32 cicp_spk_idx;
   if (speaker_config_3d->spk_layout_type == 0)
   {
-    impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx, ptr_geometry,
-                                          num_channels, num_lfes);
+    return impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx,
+                                                 ptr_geometry, num_channels, num_lfes);
   }
   else if (speaker_config_3d->spk_layout_type < 3)
   {
@@ -1929,18 +1934,18 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
         }
         else
         {
-          const WORD32 **in_channel_names;
-          impeghd_cicpidx_2_ls_geometry(
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx,
-              (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i], &in_num_channels,
-              &in_num_lfes, (const WORD32 **)&in_channel_names);
-          ptr_geometry[i].cicp_loudspeaker_idx =
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-          ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+          cicp_spk_idx = speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
+          if (cicp_spk_idx < 0 || cicp_spk_idx >= CICP_MAX_CH)
+          {
+            return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
+          }
+          ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[cicp_spk_idx];
+          ptr_geometry[i].cicp_loudspeaker_idx = cicp_spk_idx;
+          ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
           ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         }
         if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe != 0)
         {
@@ -1956,18 +1961,18 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
       *num_channels = speaker_config_3d->num_speakers;
       for (i = 0; i < speaker_config_3d->num_speakers; i++)
       {
-        const WORD32 **in_channel_names;
-        impeghd_cicpidx_2_ls_geometry(speaker_config_3d->cicp_spk_idx[i],
-                                      (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i],
-                                      &in_num_channels, &in_num_lfes,
-                                      (const WORD32 **)&in_channel_names);
-        ptr_geometry[i].cicp_loudspeaker_idx =
-            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-        ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+        cicp_spk_idx = speaker_config_3d->cicp_spk_idx[i];
+        if (cicp_spk_idx < 0 || cicp_spk_idx >= CICP_MAX_CH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
+        }
+        ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[cicp_spk_idx];
+        ptr_geometry[i].cicp_loudspeaker_idx = cicp_spk_idx;
+        ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
         ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
             (speaker_config_3d->cicp_spk_idx[i] == 26))
         {
-- 
2.43.0


From 5e107561e8b7d720072cb555ecdc71e1c8d466a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 29/44] fix: bound speaker count and layout index of local
 setup information

The loudspeaker count (16 bits) was used to fill fixed tables and the layout
index to read the speaker count table before it was range checked.
---
 decoder/impeghd_api.c                    | 19 +++++++++++++++++--
 decoder/impeghd_ele_interaction_intrfc.c | 11 ++++++++++-
 decoder/impeghd_obj_ren_dec.c            |  3 +--
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 0245174..43380e6 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -671,8 +671,23 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
              sizeof(ia_interface_speaker_config_3d));
     }
 
-    p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx =
-        ptr_ele_interface->spk_config.cicp_spk_layout_idx;
+    if (ptr_ele_interface->spk_config.spk_layout_type == 0)
+    {
+      if (ptr_ele_interface->spk_config.cicp_spk_layout_idx < 0 ||
+          ptr_ele_interface->spk_config.cicp_spk_layout_idx == 8 ||
+          ptr_ele_interface->spk_config.cicp_spk_layout_idx > NUM_LS_CFGS)
+      {
+        pstr_output_config->i_bytes_consumed = 1;
+        return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_LAYOUT_INDEX;
+      }
+      p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx =
+          ptr_ele_interface->spk_config.cicp_spk_layout_idx;
+    }
+    else
+    {
+      p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx =
+          IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL;
+    }
   }
   if (pstr_input_config->extrn_rend_flag == 1)
   {
diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index d376745..0c05cae 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -106,6 +106,10 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
   UWORD32 ld_spk;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
+  if (num_loudspk > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+  }
   impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
   has_loud_spk_dist = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   has_loud_spk_calibration_gain = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -566,7 +570,12 @@ IA_ERRORCODE impeghd_3da_local_setup_information(ia_bit_buf_struct *ptr_bit_buf,
     }
     break;
   case 0:
-    impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    err_code = impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    if (err_code == IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED)
+    {
+      return err_code;
+    }
+    err_code = IA_MPEGH_DEC_NO_ERROR;
     impeghd_loud_spk_inv_quant(pstr_local_setup_data);
     break;
   }
diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 0006296..a5aaba3 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -1088,12 +1088,10 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
     if (pstr_local_setup->enable_ele_int == 0)
     {
       cicp_idx = ptr_obj_ren_dec_state->cicp_out_idx;
-      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
     }
     else
     {
       cicp_idx = pstr_local_setup->spk_config.cicp_spk_layout_idx;
-      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
     }
     if (cicp_idx <= 0 || cicp_idx == 8 || cicp_idx > NUM_LS_CFGS)
     {
@@ -1101,6 +1099,7 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
     }
     else
     {
+      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
       in_channel_names = ia_cicp_idx_ls_set_map_tbl[cicp_idx];
       in_num_channels = impgehd_cicp_get_num_ls[cicp_idx];
       in_num_lfes = 0;
-- 
2.43.0


From 17ec0de37b676a02c1682a1dbee89af37862dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 30/44] fix: copy only as many speaker positions as the layout
 has

The local setup may announce more speakers than the reference layout.
---
 decoder/impeghd_obj_ren_dec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index a5aaba3..f9db450 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -1114,7 +1114,9 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
   }
   if (pstr_local_setup->enable_ele_int == 1)
   {
-    for (UWORD32 k = 0; k < pstr_local_setup->num_spk; k++)
+    for (UWORD32 k = 0; k < pstr_local_setup->num_spk &&
+                        k < (UWORD32)ptr_obj_ren_dec_state->num_cicp_speakers;
+         k++)
     {
       pstr_local_setup->ptr_cicp_ls_geo[k].ls_elevation =
           ptr_obj_ren_dec_state->ptr_cicp_ls_geo[k]->ls_elevation;
-- 
2.43.0


From 23b43977222a671ce78aea264b330a5301a9a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 31/44] fix: bound direct and diffuse block counts of BRIR data

---
 decoder/impeghd_binaural.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 17b4d5a..1c9b77c 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -180,6 +180,12 @@ impeghd_binaural_read_td_data(ia_bit_buf_struct *ptr_bit_buf,
     return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_CHANNELS;
   }
 
+  if (pstr_binaural_td_data->len_direct > MAX_LENGTH_DIRECT_FILTER ||
+      pstr_binaural_td_data->num_diffuse_block > MAX_NUM_DIFFUSE_BLOCKS)
+  {
+    return IA_MPEGH_BINAURAL_INIT_FATAL_UNSUPPORTED_BLOCK_LENGTH;
+  }
+
   for (pair = 0; pair < pstr_binaural_rep->brir_pairs; pair++)
   {
     data = ia_core_coder_read_bits_buf_32(ptr_bit_buf);
-- 
2.43.0


From 560fe43b62604894a200c4877f98259d29407f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 32/44] fix: bound BRIR speaker and channel indices

The number of speakers and the channel map come from side information; an
output channel without a BRIR channel indexed past the filters.
---
 decoder/ia_core_coder_decode_main.c |  9 +++++++++
 decoder/impeghd_binaural_renderer.c | 10 ++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index af8b0e7..bdf7378 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2836,6 +2836,15 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
 
       if (handle->mpeghd_config.ui_binaural_flag)
       {
+        for (channel = 0; channel < (*num_channel_out); channel++)
+        {
+          if (channel >= MAX_NUM_BRIR_CHANNELS ||
+              pstr_dec_data->binaural_handle.channel_map[channel] >=
+                  pstr_dec_data->binaural_handle.str_binaural.num_input)
+          {
+            return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_CHANNELS;
+          }
+        }
         for (sig = 0; sig < BINAURAL_TEST_LGR_SIGNAL; sig++)
         {
           for (channel = 0; channel < (*num_channel_out); channel++)
diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index ba54120..92298ab 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -356,6 +356,11 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
   ia_td_binaural_ren_param_str *ptr_td_binaural_renderer_param = NULL;
   ia_ch_geometry geometry_expected[CICP2GEOMETRY_MAX_LOUDSPEAKERS_BRIR] = {{0}};
 
+  if (wav_param->num_speaker_expected > CICP2GEOMETRY_MAX_LOUDSPEAKERS_BRIR)
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_SPEAKERS;
+  }
+
   if (wav_param->cicp_spk_idx > 0)
   {
     error = impeghd_fill_ls_geom_frm_cicp_spk_idx(wav_param->cicp_spk_idx, &geometry_expected[0],
@@ -378,7 +383,7 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
           ind = -1;
           impeghd_br_find_geometry_in_speaker_config_3d(
               &geometry_expected[j], &(ptr_binaural_rep->setup_spk_config_3d), &ind);
-          if (ind != -1)
+          if (ind != -1 && ind < ptr_binaural_rep->td_binaural_ren_param.num_channel)
           {
             ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
             binaural_handle->channel_map[j] = ind;
@@ -394,7 +399,8 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
           break;
         }
       }
-      else
+      else if (wav_param->num_speaker_expected <=
+               ptr_binaural_rep->td_binaural_ren_param.num_channel)
       {
         ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
         for (j = 0; j < wav_param->num_speaker_expected; j++)
-- 
2.43.0


From 366cd8bf791bdf8320385df6047257a28acccc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 33/44] fix: keep the result of the output layout look-up in
 the format converter

The result was dropped, so an unsupported layout left the geometry pointers
unset and they were dereferenced.
---
 decoder/ia_core_coder_decode_main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index bdf7378..9d3f699 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -685,7 +685,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       const WORD32 *in_channel_names, *out_channel_names;
       ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
       ia_cicp_ls_geo_str *ptr_cicp_out_geometry[CICP_MAX_NUM_LS];
-      impeghd_cicpidx_2_ls_geometry(
+      error_num = impeghd_cicpidx_2_ls_geometry(
           pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx,
           (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[0], &num_speakers_lcl, &num_lfes_lcl,
           (const WORD32 **)&in_channel_names);
@@ -694,7 +694,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
       }
 
-      impeghd_cicpidx_2_ls_geometry(
+      error_num = impeghd_cicpidx_2_ls_geometry(
           cicp_idx, (const ia_cicp_ls_geo_str **)&ptr_cicp_out_geometry[0], &num_speakers_out,
           &num_lfes_out, (const WORD32 **)&out_channel_names);
       if (error_num != IA_MPEGH_DEC_NO_ERROR)
-- 
2.43.0


From 17bcdc395f0feb4d10fe0d8e89f3f37ea4bfd62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 34/44] fix: search group presets among the presets

The look-up ran over the number of groups (up to 16) and read past the 8
preset definitions; the conjunct flag was read with a condition index that
can be one past the group definitions.
---
 decoder/ia_core_coder_decode_main.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 9d3f699..6d6630f 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -963,7 +963,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
   {
     WORD32 pr_grp_idx = -1;
     WORD32 grp_idx = -1;
-    for (grp = 0; grp < num_decoded_groups; grp++)
+    for (grp = 0; grp < ptr_mae_asi->num_group_presets; grp++)
     {
       if (ptr_mae_asi->group_presets_definition[grp].group_id == preset_id)
       {
@@ -996,14 +996,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
         /* Invalid Group Id */
         return IA_MPEGH_DEC_EXE_FATAL_INVALID_GRP_ID;
       }
-      if (0 == ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx])
-      {
-        has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
-      }
-      else
-      {
-        has_conjuct_mbrs = ptr_mae_asi->group_definition[cond].has_conjunct_members;
-      }
+      has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
 
       for (mbr = 0; mbr < num_members; mbr++)
       {
@@ -3009,7 +3002,7 @@ IA_ERRORCODE impeghd_uni_drc_dec_asi_init(ia_audio_specific_config_struct *pstr_
       return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS;
     }
 
-    for (grp = 0; grp < pstr_mae_asi->num_groups; grp++)
+    for (grp = 0; grp < pstr_mae_asi->num_group_presets; grp++)
     {
       if (pstr_mae_asi->group_presets_definition[grp].group_id == preset_id)
       {
-- 
2.43.0


From 4bdede0bb77bb760277a9888c1b842769b6a6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 35/44] fix: continue behind a configuration that was refused

ia_mpegh_dec_init gave the length of the payload, or one byte, as consumed
when it refused a packet, and took a configuration refused with a non-fatal
error for an accepted one; what the refused one had set up stayed in place.
---
 decoder/ia_core_coder_headerdecode.c | 14 +++--
 decoder/impeghd_api.c                | 79 ++++++++++++++++++++--------
 2 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index be9a73b..9d93365 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -149,6 +149,7 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
   WORD32 bit_offset;
   WORD32 is_ga_header = 0;
   WORD32 ui_raw_flag;
+  WORD32 packet_end;
 
   ia_mpegh_dec_state_struct *mpeghd_state_struct = p_obj_mpegh_dec->pp_mem_mpeghd[PERSIST_IDX];
 
@@ -178,9 +179,17 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
     if (0 == ui_raw_flag)
     {
       impeghd_mhas_parse(&info, &pstr_asc->str_mae_asi, handle_bit_buff);
+      /* a packet that is given up is left behind with its header and the packets before it */
+      packet_end =
+          (((header_len << 3) - handle_bit_buff->cnt_bits + 7) >> 3) + info.packet_length;
+      if (packet_end > header_len)
+      {
+        packet_end = header_len;
+      }
+      p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = packet_end;
+      *bytes_consumed = packet_end;
       if (MHAS_PAC_TYP_MPEGH3DACFG != info.packet_type)
       {
-        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
         return IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND;
       }
     }
@@ -194,7 +203,6 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         UWORD8 *ptr_read_next = handle_bit_buff->ptr_read_next;
         if (info.packet_length > MAX_CFG_DATA_LENGTH)
         {
-          p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = 1;
           return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
         }
         mpeghd_state_struct->prev_cfg_len = info.packet_length;
@@ -209,7 +217,6 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
       err = impegh_3daudio_config_dec(mpeghd_state_struct, bytes_consumed, handle_bit_buff);
       if (err != IA_MPEGH_DEC_NO_ERROR)
       {
-        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
         return err;
       }
       if (0 == ui_raw_flag)
@@ -220,6 +227,7 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         {
           return IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR;
         }
+        *bytes_consumed = packet_end;
       }
     }
     return err;
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 43380e6..5b5156c 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -583,6 +583,32 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   return config_err_code;
 }
 
+static VOID impeghd_dec_reset(ia_mpegh_dec_api_struct *p_obj_mpegh_dec);
+
+/**
+ *  impeghd_dec_init_failed
+ *
+ *  \brief Leave the decoder ready for initialization with what follows in the stream
+ *
+ *  \param [in,out] p_obj_mpegh_dec    Pointer to decoder handle structure
+ *  \param [in,out] pstr_output_config Pointer to output config structure
+ *
+ */
+static VOID impeghd_dec_init_failed(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
+                                    ia_output_config *pstr_output_config)
+{
+  impeghd_dec_reset(p_obj_mpegh_dec);
+  p_obj_mpegh_dec->p_state_mpeghd->prev_cfg_len = 0;
+  p_obj_mpegh_dec->p_state_mpeghd->ui_init_done = 0;
+
+  pstr_output_config->ui_init_done = 0;
+  pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
+  if (pstr_output_config->i_bytes_consumed == 0)
+  {
+    pstr_output_config->i_bytes_consumed = 1;
+  }
+}
+
 /**
  *  ia_mpegh_dec_init
  *
@@ -607,6 +633,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   ia_mae_audio_scene_info *ptr_mae_audio_scene_info = &pstr_audio_specific_config->str_mae_asi;
 
   pstr_output_config->i_bytes_consumed = 0;
+  p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = 0;
   p_obj_mpegh_dec->p_state_mpeghd->ui_in_bytes = pstr_input_config->num_inp_bytes;
   p_obj_mpegh_dec->mpeghd_config.ui_raw_flag = pstr_input_config->ui_raw_flag;
   p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag = pstr_input_config->binaural_flag;
@@ -631,6 +658,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                        &pstr_audio_specific_config->str_mae_asi);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
   }
@@ -821,6 +849,11 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
 
   err_code = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    impeghd_dec_init_failed(p_obj_mpegh_dec, pstr_output_config);
+    return err_code;
+  }
   if (pstr_input_config->enable_resamp == 1)
   {
     IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
@@ -866,6 +899,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                               &pstr_dec_data->binaural_handle);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      impeghd_dec_init_failed(p_obj_mpegh_dec, pstr_output_config);
       return err_code;
     }
 
@@ -1187,19 +1221,15 @@ IA_ERRORCODE ia_mpegh_dec_delete(pVOID pv_output)
 }
 
 /**
- *  ia_core_coder_decoder_flush_api
- *
- *  \brief Flush the remaining buffers
+ *  impeghd_dec_reset
  *
- *  \param [in] p_obj_mpegh_dec Pointer to decoder handle structure
+ *  \brief Drop everything that was set up for a configuration of the stream
  *
- *  \return IA_ERRORCODE         Processing error if any
+ *  \param [in,out] p_obj_mpegh_dec Pointer to decoder handle structure
  *
  */
-IA_ERRORCODE
-ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
+static VOID impeghd_dec_reset(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
 {
-  IA_ERRORCODE err;
   ia_dec_data_struct *pstr_dec_data = p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
 
   memset(&pstr_dec_data->str_frame_data, 0, sizeof(pstr_dec_data->str_frame_data));
@@ -1226,6 +1256,24 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->p_state_mpeghd->preroll_config_present = 0;
   memset(p_obj_mpegh_dec->p_state_mpeghd->preroll_config_prev, 0,
          sizeof(p_obj_mpegh_dec->p_state_mpeghd->preroll_config_prev));
+}
+
+/**
+ *  ia_core_coder_decoder_flush_api
+ *
+ *  \brief Flush the remaining buffers
+ *
+ *  \param [in] p_obj_mpegh_dec Pointer to decoder handle structure
+ *
+ *  \return IA_ERRORCODE         Processing error if any
+ *
+ */
+IA_ERRORCODE
+ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
+{
+  IA_ERRORCODE err;
+
+  impeghd_dec_reset(p_obj_mpegh_dec);
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
   if (p_obj_mpegh_dec->mpeghd_config.resample_output == 0)
@@ -1317,21 +1365,8 @@ ia_core_coder_dec_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
       }
       return_val = ia_core_coder_headerdecode(p_obj_mpegh_dec, (UWORD8 *)in_buffer,
                                               &header_bytes_consumed);
-      if (return_val < 0)
-      {
-        if (return_val == (WORD32)IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX)
-        {
-          p_state_mpegh_dec->i_bytes_consumed = header_bytes_consumed;
-          return return_val;
-        }
-        // p_state_mpegh_dec->i_bytes_consumed = 1;
-
-        return return_val;
-      }
-
-      if (return_val == IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES)
+      if (return_val != 0)
       {
-        p_state_mpegh_dec->i_bytes_consumed = header_bytes_consumed;
         return return_val;
       }
 
-- 
2.43.0


From 45031b2393f5d25ae1830d4863bc1400bfe45673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 36/44] fix: end an access unit at the end of its packet

A host that hands over more than one packet per call had the bits that
follow a damaged frame read as part of it, and was told to continue in the
middle of another packet.
---
 decoder/ia_core_coder_decode_main.c | 16 ++++++++++++++++
 decoder/ia_core_coder_struct_def.h  |  1 +
 decoder/impeghd_api.c               | 13 +++++++++++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 6d6630f..461e74d 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2432,6 +2432,22 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       {
         return err_code;
       }
+      if (MHAS_PAC_TYP_MPEGH3DAFRAME == pac_info.packet_type ||
+          MHAS_PAC_TYP_MPEGH3DACFG == pac_info.packet_type)
+      {
+        /* the packet is all this call reads, whatever its decoding makes of it */
+        WORD32 header_bits =
+            pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits;
+        WORD32 access_unit_bytes = ((header_bits + 7) >> 3) + pac_info.packet_length;
+        if (access_unit_bytes < (WORD32)mpegh_dec_handle->ui_in_bytes)
+        {
+          mpegh_dec_handle->ui_in_bytes = access_unit_bytes;
+          pstr_dec_data->dec_bit_buf.size = access_unit_bytes << 3;
+          pstr_dec_data->dec_bit_buf.cnt_bits = (access_unit_bytes << 3) - header_bits;
+          pstr_dec_data->dec_bit_buf.ptr_bit_buf_end = (UWORD8 *)inbuffer + access_unit_bytes - 1;
+        }
+        mpegh_dec_handle->access_unit_bytes = mpegh_dec_handle->ui_in_bytes;
+      }
     }
     if (pstr_asc->str_mae_asi.earcon_info.earcon_present &&
         pstr_asc->str_mae_asi.earcon_info.earcon_cicp_spk_idx[0] > 0)
diff --git a/decoder/ia_core_coder_struct_def.h b/decoder/ia_core_coder_struct_def.h
index cca5e5f..4ff258e 100644
--- a/decoder/ia_core_coder_struct_def.h
+++ b/decoder/ia_core_coder_struct_def.h
@@ -161,6 +161,7 @@ typedef struct ia_mpegh_dec_state_struct
   WORD8 prev_cfg_data[MAX_CFG_DATA_LENGTH];
   WORD32 prev_cfg_len;
   WORD32 flush;
+  WORD32 access_unit_bytes;
 } ia_mpegh_dec_state_struct;
 
 typedef struct ia_mpegh_dec_api_struct
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 5b5156c..dd7d9bf 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1499,6 +1499,7 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
     if (p_obj_mpegh_dec->p_state_mpeghd->num_of_output_ch > MAX_NUM_CHANNELS)
       return IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX;
     /* nothing of this call's input has been read yet */
+    p_state_mpegh_dec->access_unit_bytes = 0;
     pstr_dec_data->dec_bit_buf.size = 0;
     pstr_dec_data->dec_bit_buf.cnt_bits = 0;
     error_code =
@@ -1507,7 +1508,11 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
 
     if (error_code != IA_MPEGH_DEC_NO_ERROR)
     {
-      if (pstr_dec_data->dec_bit_buf.size != 0 && pstr_dec_data->dec_bit_buf.cnt_bits >= 0)
+      if (p_state_mpegh_dec->access_unit_bytes != 0)
+      {
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = p_state_mpegh_dec->access_unit_bytes;
+      }
+      else if (pstr_dec_data->dec_bit_buf.size != 0 && pstr_dec_data->dec_bit_buf.cnt_bits >= 0)
       {
         p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
             (pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits + 7) >> 3;
@@ -1523,7 +1528,11 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   if (p_obj_mpegh_dec->p_state_mpeghd->flush == 0)
   {
     p_obj_mpegh_dec->p_state_mpeghd->frame_counter++;
-    if (pstr_dec_data->dec_bit_buf.size != 0 && pstr_dec_data->dec_bit_buf.cnt_bits >= 0)
+    if (p_state_mpegh_dec->access_unit_bytes != 0)
+    {
+      p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = p_state_mpegh_dec->access_unit_bytes;
+    }
+    else if (pstr_dec_data->dec_bit_buf.size != 0 && pstr_dec_data->dec_bit_buf.cnt_bits >= 0)
     {
       p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
           (pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits + 7) >> 3;
-- 
2.43.0


From 1d902904a7538eeb0b98fe83ce5dc0d4a4b7796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 37/44] fix: wait for the next configuration when a change of
 configuration fails

After a configuration that could not be set up every later call failed,
also those with a valid configuration.
---
 decoder/ia_core_coder_decode_main.c |  6 ++++--
 decoder/impeghd_api.c               | 11 +++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 461e74d..1288867 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2449,7 +2449,8 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         mpegh_dec_handle->access_unit_bytes = mpegh_dec_handle->ui_in_bytes;
       }
     }
-    if (pstr_asc->str_mae_asi.earcon_info.earcon_present &&
+    if ((MHAS_PAC_TYP_MPEGH3DACFG != pac_info.packet_type) &&
+        pstr_asc->str_mae_asi.earcon_info.earcon_present &&
         pstr_asc->str_mae_asi.earcon_info.earcon_cicp_spk_idx[0] > 0)
     {
       err_code = impeghd_format_conv_earcon_init(handle, pstr_asc);
@@ -2476,7 +2477,8 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       }
       return IA_MPEGH_DEC_NO_ERROR;
     }
-    if ((pstr_asc->str_mae_asi.asi_present == 1) && (!pstr_asc->str_mae_asi.asi_config_set) &&
+    if ((MHAS_PAC_TYP_MPEGH3DACFG != pac_info.packet_type) &&
+        (pstr_asc->str_mae_asi.asi_present == 1) && (!pstr_asc->str_mae_asi.asi_config_set) &&
         ((handle->mpeghd_config.ui_target_loudness_set) ||
          (pstr_dec_data->str_drc_payload.pstr_drc_config != NULL)))
     {
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index dd7d9bf..b5d3c30 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1276,6 +1276,12 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   impeghd_dec_reset(p_obj_mpegh_dec);
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (err != IA_MPEGH_DEC_NO_ERROR)
+  {
+    /* no configuration is in force until the next one in the stream is accepted */
+    impeghd_dec_reset(p_obj_mpegh_dec);
+    p_obj_mpegh_dec->p_state_mpeghd->prev_cfg_len = 0;
+  }
   if (p_obj_mpegh_dec->mpeghd_config.resample_output == 0)
   {
     p_obj_mpegh_dec->mpeghd_config.out_samp_freq = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
@@ -1496,6 +1502,11 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
         ->str_frame_data.str_audio_specific_config.str_usac_config.str_usac_dec_config
         .preroll_counter = 0;
 
+    if (frames_done == 0)
+    {
+      p_obj_mpegh_dec->p_state_mpeghd->ui_out_bytes = 0;
+      return ia_core_coder_decoder_flush_api(p_obj_mpegh_dec);
+    }
     if (p_obj_mpegh_dec->p_state_mpeghd->num_of_output_ch > MAX_NUM_CHANNELS)
       return IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX;
     /* nothing of this call's input has been read yet */
-- 
2.43.0


From d5d89fdda9e4295f3e6c99f28a7d4f720b704bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 38/44] fix: set the binaural renderer up again when the
 configuration changes

---
 decoder/impeghd_api.c | 87 ++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 29 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index b5d3c30..e550e34 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -585,6 +585,59 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
 
 static VOID impeghd_dec_reset(ia_mpegh_dec_api_struct *p_obj_mpegh_dec);
 
+/**
+ *  impeghd_dec_binaural_init
+ *
+ *  \brief Set the binaural renderer up for the configuration in force
+ *
+ *  \param [in,out] p_obj_mpegh_dec Pointer to decoder handle structure
+ *
+ *  \return IA_ERRORCODE            Processing error if any
+ *
+ */
+static IA_ERRORCODE impeghd_dec_binaural_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
+{
+  IA_ERRORCODE err_code;
+  ia_audio_specific_config_struct *pstr_audio_specific_config =
+      (ia_audio_specific_config_struct *)
+          p_obj_mpegh_dec->p_state_mpeghd->ia_audio_specific_config;
+  ia_binaural_in_stream_cfg_str wav_info;
+  ia_dec_data_struct *pstr_dec_data =
+      (ia_dec_data_struct *)p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
+  ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
+  wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
+  wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
+  {
+    wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
+  }
+  else
+  {
+    wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
+  }
+
+  pstr_binaural_rendering->ptr_scratch =
+      p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
+  err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
+                                            &pstr_dec_data->binaural_handle);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err_code;
+  }
+
+  pstr_dec_data->binaural_handle.str_binaural.memory_index +=
+      2048; // TODO: Replace 2048, with variable
+  if (pstr_dec_data->binaural_handle.str_binaural.processed_samples > 0)
+  {
+    /* short filters process blocks of fewer than 2048 samples */
+    pstr_dec_data->binaural_handle.str_binaural.memory_index %=
+        pstr_dec_data->binaural_handle.str_binaural.processed_samples;
+  }
+
+  return IA_MPEGH_DEC_NO_ERROR;
+}
+
 /**
  *  impeghd_dec_init_failed
  *
@@ -877,40 +930,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
   if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
   {
-    ia_binaural_in_stream_cfg_str wav_info;
-    ia_dec_data_struct *pstr_dec_data =
-        (ia_dec_data_struct *)p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
-    ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
-    wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-    wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-    wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-    if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
-    {
-      wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
-    }
-    else
-    {
-      wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
-    }
-
-    pstr_binaural_rendering->ptr_scratch =
-        p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
-    err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
-                                              &pstr_dec_data->binaural_handle);
+    err_code = impeghd_dec_binaural_init(p_obj_mpegh_dec);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
       impeghd_dec_init_failed(p_obj_mpegh_dec, pstr_output_config);
       return err_code;
     }
-
-    pstr_dec_data->binaural_handle.str_binaural.memory_index +=
-        2048; // TODO: Replace 2048, with variable
-    if (pstr_dec_data->binaural_handle.str_binaural.processed_samples > 0)
-    {
-      /* short filters process blocks of fewer than 2048 samples */
-      pstr_dec_data->binaural_handle.str_binaural.memory_index %=
-          pstr_dec_data->binaural_handle.str_binaural.processed_samples;
-    }
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
@@ -1276,6 +1301,10 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   impeghd_dec_reset(p_obj_mpegh_dec);
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (err == IA_MPEGH_DEC_NO_ERROR && p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  {
+    err = impeghd_dec_binaural_init(p_obj_mpegh_dec);
+  }
   if (err != IA_MPEGH_DEC_NO_ERROR)
   {
     /* no configuration is in force until the next one in the stream is accepted */
-- 
2.43.0


From a452165e70aa2b756fd5bed9317489c00007cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 39/44] fix: read a configuration no further than its packet

---
 decoder/ia_core_coder_headerdecode.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index 9d93365..e53c7d6 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -192,6 +192,11 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
       {
         return IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND;
       }
+      /* the configuration ends with its packet */
+      handle_bit_buff->cnt_bits -= (header_len - packet_end) << 3;
+      handle_bit_buff->size = packet_end << 3;
+      handle_bit_buff->ptr_bit_buf_end = buffer + packet_end - 1;
+      mpeghd_state_struct->ui_in_bytes = packet_end;
     }
     {
       bit_offset = handle_bit_buff->cnt_bits;
-- 
2.43.0


From c53fc92330101de3c8242c5d7773f9cd8d8b5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 40/44] fix: wait for the next configuration when that of a
 pre-roll is refused

---
 decoder/ia_core_coder_decode_main.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 1288867..f98eb50 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2374,6 +2374,8 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
   WORD32 loudness_norm_flag;
   WORD32 drc_effect_type;
   WORD32 config_len = 0;
+  WORD32 frames_decoded;
+  WORD32 prev_cfg_len;
 
   UWORD8 config[288] = {0};
   WORD preroll_frame_offset[4] = {0};
@@ -2722,12 +2724,19 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
           return IA_MPEGH_DEC_EXE_FATAL_NO_SUITABLE_TRACK;
         }
 
+        /* no configuration is in force should this one be refused */
+        frames_decoded = mpegh_dec_handle->frame_counter;
+        prev_cfg_len = mpegh_dec_handle->prev_cfg_len;
+        mpegh_dec_handle->frame_counter = 0;
+        mpegh_dec_handle->prev_cfg_len = 0;
         err_code = ia_core_coder_mpegh_3da_config(&config_bit_buf, mpegh_dec_handle,
                                                   &pstr_asc->str_mae_asi);
         if (err_code != IA_MPEGH_DEC_NO_ERROR)
         {
           return err_code;
         }
+        mpegh_dec_handle->frame_counter = frames_decoded;
+        mpegh_dec_handle->prev_cfg_len = prev_cfg_len;
 
         pstr_dec_data->str_frame_data.str_audio_specific_config.sampling_frequency =
             pstr_dec_data->str_frame_data.str_audio_specific_config.str_usac_config
-- 
2.43.0


From da871dc3b702c5ffb7e05affdfa8dd0e997c4871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 41/44] fix: window of a time-domain frame with the
 Kaiser-Bessel shape

A frequency-domain frame that follows a time-domain frame with that shape was
refused because the 256 sample slope was missing from the selection.
---
 decoder/ia_core_coder_windowing.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder/ia_core_coder_windowing.c b/decoder/ia_core_coder_windowing.c
index f30d96b..9eee9ae 100644
--- a/decoder/ia_core_coder_windowing.c
+++ b/decoder/ia_core_coder_windowing.c
@@ -77,6 +77,9 @@ IA_ERRORCODE ia_core_coder_calc_window(FLOAT32 **window, WORD32 window_length,
     case WIN_LEN_1024:
       *window = (FLOAT32 *)ia_core_coder_kbd_win1024;
       break;
+    case WIN_LEN_256:
+      *window = (FLOAT32 *)ia_core_coder_kbd_window256;
+      break;
     case WIN_LEN_128:
       *window = (FLOAT32 *)ia_core_coder_kbd_window128;
       break;
-- 
2.43.0


From c30990fdb10ededd9c4d6c436201534259822f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 42/44] fix: every frame starts without extension payloads

The lengths of the payloads were cleared for the first two elements only: the
payload of an earlier frame was applied to frames without one, and the length
of the DRC payload grew from frame to frame. A frame without multichannel data
or enhanced object metadata is decoded without them.
---
 decoder/ia_core_coder_decode_main.c | 4 ++++
 decoder/impeghd_api.c               | 5 ++++-
 decoder/impeghd_multichannel.c      | 7 +++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index f98eb50..26623e5 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1983,6 +1983,10 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         ia_oam_dec_state_struct *pstr_obj_md_dec_state =
             &pstr_dec_data->str_obj_ren_dec_state.str_obj_md_dec_state;
         ia_bit_buf_struct bit_buf_str;
+        if (0 == bit_buf_size)
+        {
+          break;
+        }
         ia_core_coder_create_init_bit_buf(&bit_buf_str, ptr_bit_buf_base, bit_buf_size);
         bit_buf_str.xmpeghd_jmp_buf = pstr_dec_data->dec_bit_buf.xmpeghd_jmp_buf;
         pstr_dec_data->str_enh_obj_md_frame.p_enh_obj_md_cfg =
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index e550e34..06a68f4 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1516,13 +1516,16 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
     ptr_audio_specific_config->str_usac_config.str_usac_dec_config.preroll_counter = 0;
     {
       WORD32 iii = 0;
-      for (iii = 0; iii < (MAX_AUDIO_PREROLLS + 1); iii++)
+      for (iii = 0; iii < MAX_ELEMENTS_USAC; iii++)
       {
         ((ia_dec_data_struct *)(p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data))
             ->str_frame_data.str_audio_specific_config.str_usac_config.str_usac_dec_config
             .usac_ext_gain_payload_len[iii] = 0;
         ptr_audio_specific_config->str_usac_config.str_usac_dec_config
             .usac_ext_gain_payload_len[iii] = 0; // reinitilize the payload len buff
+      }
+      for (iii = 0; iii < (MAX_AUDIO_PREROLLS + 1); iii++)
+      {
         ptr_audio_specific_config->str_usac_config.str_usac_dec_config.preroll_bytes[iii] = 0;
       }
     }
diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index 0735761..9e34a90 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -392,6 +392,13 @@ IA_ERRORCODE impeghd_mc_parse(ia_multichannel_data *ptr_mc_data, UWORD8 *ptr_bit
   WORD32 box, band, default_val, channel_map, last_val = 0, new_coeff, bands_per_win;
   ia_bit_buf_struct it_bit_buff;
 
+  if (0 == bitbuf_len)
+  {
+    /* the frame carries no multichannel data */
+    ptr_mc_data->num_pairs = 0;
+    return IA_MPEGH_DEC_NO_ERROR;
+  }
+
   ia_core_coder_create_init_bit_buf(&it_bit_buff, ptr_bitbuf, bitbuf_len);
   it_bit_buff.xmpeghd_jmp_buf = ptr_dec_bit_buf->xmpeghd_jmp_buf;
 
-- 
2.43.0


From aba2886b988ceeff685f30ee5a360ffaa2c43625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 43/44] fix: reject a reference layout with fewer speakers than
 channels

---
 decoder/ia_core_coder_decode_main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 26623e5..17411b2 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -701,6 +701,10 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
       }
+      if ((num_speakers_lcl < num_chnl_in) || (num_speakers_out < num_out_chn))
+      {
+        return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
+      }
       for (chn = 0; chn < num_speakers_lcl; chn++)
       {
         pstr_obj_renderer->str_obj_md_dec_state.gain_descaled[chn] = 1;
-- 
2.43.0


From f0706353dc3feeec773554e07fcc2e5e96ebeaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:08 +0000
Subject: [PATCH 44/44] fix: bound the active prediction ids of a scene-based
 frame

---
 decoder/impeghd_hoa_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index bf2c2e8..560e051 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -401,6 +401,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
           {
             WORD32 pred_id =
                 ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->active_pred_ids_bits);
+            if (pred_id >= MAXIMUM_NUM_HOA_COEFF)
+            {
+              return IA_MPEGH_HOA_INIT_FATAL_INVALID_ACTIVE_DIRS_IDS;
+            }
             ptr_frame_data->active_pred[pred_id] = 1;
             i++;
           }
-- 
2.43.0

