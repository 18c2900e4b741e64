#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
API = "decoder/impeghd_api.c"; MAIN = "decoder/ia_core_coder_decode_main.c"; HDR = "decoder/ia_core_coder_headerdecode.c"; BITS = "decoder/ia_core_coder_bitbuffer.c"; MHAS = "decoder/impeghd_mhas_parse.c"; CFG = "decoder/ia_core_coder_init_config.c"
OBS = ["return codes of create, init, execute and delete", "num_out_bytes, i_bytes_consumed and the output buffer after every call"]
T = "The repository's two tests decode one intact sine stream from two containers, once, in one process, with one host configuration"
P = []
def p(id, title, statement, over, text, why, files, mech, level="exploration", note="", state=None, obs=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, state=state or [], obs=obs or OBS))

p("P01", "Decoding does not depend on how the host splits the byte stream into calls",
  "For every valid stream, as long as each call is given at least the packet it is about to decode, the audio, the return codes and the number of consumed bytes of every call are the same however many further bytes of the stream are supplied with it and whatever stale bytes lie in the input buffer behind them. Nothing the decoder reports may depend on bytes it was not given.",
  ["schedules", "inputs"], "all delivery schedules of all valid streams: every division of the byte stream into input buffers of at least one packet, all contents of the buffer behind the supplied bytes",
  T + " and always fills the input buffer the same way.", [API, MAIN, HDR, BITS, MHAS],
  [("bit buffer built over exactly the supplied bytes on every call", MAIN + " ia_core_coder_dec_main"), ("consumed byte count computed from the read position", MAIN), ("underrun exit", BITS)],
  note="seeded delivery schedules against a reference run of the same stream in the same build; corpus of 134 streams covering channels, objects, scene-based audio, loudness/DRC, resampling, binaural and external rendering")
p("P02", "Decoder instances never influence each other",
  "Several decoder instances used at the same time, each by its own caller thread, each produce exactly the return codes, consumed counts and audio they produce alone, whatever instruction-level interleaving of their calls happens, including while another instance is being created, is decoding damaged data, fails, or is deleted.",
  ["schedules", "fault_sequences"], "all interleavings, at any instruction, of the API calls of two or three instances on the same or different streams, configurations and faults",
  T + ": there is never a second instance, so any writable state shared between instances goes unseen.", [API, MAIN, "decoder/ia_core_coder_rom.c", "decoder/ia_core_coder_function_selector.c"],
  [("all state lives in the memory the instance requested at creation; tables are constant", API + " ia_mpegh_dec_create"), ("non-local exit buffer held per instance", API + " ia_mpegh_dec_execute")],
  note="the instances are coroutines preempted at any basic block of the real decoder by the seeded scheduler; x86-64 scalar build; preemption granularity is a basic block, weak-memory effects are not modelled")
p("P03", "No memory outside the given buffers is touched, whatever happens to the data",
  "Whatever happens to a stream after its first configuration (frames lost, duplicated, reordered, truncated, corrupted or taken from another stream, further configurations damaged), whatever host parameters and side information it is given, and however the bytes are divided over calls, the decoder never reads or writes outside the memory it was given, never writes to the input or side-information buffers, and never reports more output than the output buffer holds.",
  ["fault_sequences", "inputs"], "all sequences of bit flips, byte bursts, truncation, loss, duplication, reordering, foreign frames, damaged configurations and end of stream applied to valid streams, damaged side information, all delivery schedules",
  T + ": no damaged frame is ever decoded.", [API, MAIN, BITS, "decoder/ia_core_coder_process.c", "decoder/ia_core_coder_acelp_bitparse.c", "decoder/impeghd_hoa_frame.c", "decoder/impd_drc_dynamic_payload.c"],
  [("range checks on decoded indices and counts", "every payload parser under decoder/"), ("bit buffer end check", BITS), ("sizes of the six memory requests", API)],
  note="AddressSanitizer and array-bounds instrumented build of the decoder inside the simulator, blocks handed out by the simulated allocator with canaries and guard pages; the first configuration is intact")
p("P04", "A refused memory request fails creation cleanly, and everything is released once",
  "If any subset of the memory requests made while creating a decoder is refused, creation reports the fatal memory error; deleting the instance, whether creation failed, decoding ended or was abandoned midway, hands back every block obtained exactly once and nothing else. A later creation with enough memory succeeds and decodes exactly like a first one.",
  ["fault_sequences", "crash_points"], "all subsets of refused requests, deletion after any call, followed by any further life of a decoder in the same memory",
  T + ": memory is never refused and nothing is counted at deletion.", [API],
  [("every request checked, fatal memory error returned", API + " ia_mpegh_dec_create"), ("release list walked by delete", API + " ia_mpegh_dec_delete")], level="fault_enumeration",
  note="every subset of the first six requests (creation makes six) is enumerated in turn by consecutive seeds, combined with seeded streams, placements and later lives")
p("P05", "Every call ends and moves forward, whatever bytes it is given",
  "Whatever happens to the frames of a stream, whatever frames of other streams and damaged configurations come between them, and however they are handed over, every call given at least one byte returns within a bounded number of steps and reports between one and the number of supplied bytes as consumed, so a host that advances by the reported count always reaches the end of the data.",
  ["fault_sequences", "schedules"], "all corruption, truncation, loss, duplication and reordering sequences on the frames of valid streams, damaged configurations and foreign frames between them, all delivery schedules including starving calls",
  T + ": no call is ever given data on which it could stall.", [API, MAIN, HDR, BITS],
  [("consumed count set on every exit path", API), ("loop bounds in the payload parsers", MAIN), ("underrun exit", BITS)],
  note="progress is measured in executed basic blocks (budget 400 million per call, about 100 times the most expensive intact frame)")
p("P06", "Output always has the announced format and a constant frame length",
  "Every output frame, under any frame faults and configuration changes, consists of whole samples of the announced channel count in the requested word size; within one configuration the channel count, the sample rate and, after the first frame, the frame length never change, and only the first frame after a configuration may be shorter.",
  ["fault_sequences", "configurations", "histories"], "all fault sequences, damaged configurations, word sizes, host configurations and configuration changes over valid streams",
  T + " and compares only the resulting file.", [API, MAIN, "decoder/ia_core_coder_process.c", "decoder/impeghd_resampler.c"],
  [("output size computed from frame length, channels and word size", API + " ia_core_coder_dec_execute"), ("start-up delay removed from the first frame", MAIN)],
  note="checked on every output frame of every simulated run")
p("P07", "Results do not depend on memory contents, addresses or the stack",
  "For every stream, intact or damaged, and every host configuration the result of every call is a function of the host parameters and the bytes given so far: it does not depend on the initial contents of the memory the host provides, on the addresses and alignments it chooses within the requested alignment, on stack contents or position, on the values automatic variables happen to have before they are assigned, or on what the host or other code leaves in the scratch and output buffers between calls.",
  ["configurations", "histories"], "all initial memory contents, block placements and addresses, stack contents and positions, initial values of automatic variables, and all contents of scratch and output buffers between calls, over all valid streams with frame damage, loss, duplication and reordering, foreign frames, damaged configurations and side information of other streams",
  T + " with the zeroed, same-address memory of one short process.", [API, MAIN, "decoder/ia_core_coder_lpc.c", "decoder/ia_core_coder_create.c", "decoder/impeghd_obj_ren_dec.c"],
  [("persistent state cleared at creation", API), ("per-frame scratch written before it is read", "all modules using the scratch block"), ("alignment of the requested blocks", API)],
  note="differential: a seeded environment against the plain one in the same build, including a twin of the library compiled with pattern-initialised automatics; detects any dependence that reaches a return code, count or sample")
p("P08", "A new instance decodes as if no other had ever lived",
  "A decoder created after any history of earlier instances in the same process (finished, deleted midway, abandoned without deletion, failed at creation or initialisation, fed with damaged data), even when it is given their memory with its old contents, behaves exactly as the first one would.",
  ["histories", "crash_points", "fault_sequences"], "all histories of earlier decoder lives and the points at which each ended",
  T + ": each process decodes one stream.", [API, MAIN, "decoder/ia_core_coder_create.c"],
  [("all memory cleared at creation", API), ("no writable static data", "decoder/")], note="seeded lives with faults and crash points before the compared one")
p("P09", "A new configuration restores correct decoding after any earlier damage",
  "However the preceding frames were damaged, lost, duplicated or reordered, and whatever frames of other streams or damaged configurations came before, once a different valid configuration arrives intact the decoder produces, from the first frame of the new configuration on, exactly the audio a freshly created decoder with the same host parameters produces for it.",
  ["fault_sequences", "histories"], "all fault sequences on the frames before the change, damaged and refused configurations before it, all pairs and triples of valid streams, with and without binaural responses or a loudspeaker set-up given by the host",
  T + ": there is neither a fault nor a configuration change.", [API, MAIN, CFG, HDR],
  [("re-initialisation on a changed configuration", API + " ia_core_coder_decoder_flush_api"), ("configuration comparison", MAIN)],
  note="recovery stated as: correct from the first frame after faults stop; compared with a fresh instance of the same build")
p("P11", "After a configuration change each segment decodes like a stream of its own",
  "When a stream changes to a different valid configuration, and back again, each segment gives exactly the audio that a freshly created decoder with the same host parameters gives for that segment alone, independent of the segments before it and of how the bytes are divided over calls.",
  ["histories", "schedules"], "all sequences of two to four segments of valid streams with different configurations, all delivery schedules",
  T + ": the configuration never changes.", [API, MAIN, CFG, "decoder/impeghd_format_conv_init.c", "decoder/impeghd_hoa_dec_init.c"],
  [("re-initialisation on a changed configuration", API + " ia_core_coder_decoder_flush_api"), ("per-configuration state reset", CFG)],
  note="binaural responses and the loudspeaker set-up of the host stay in force and are included; excluded are the side-information buffers that belong to one stream (interaction, scene data, scene displacement) and the output resampler, which the interface applies at initialisation only")
p("P12", "Repeating the configuration packet in force changes nothing",
  "Repeating the unchanged configuration packet before any frames, any number of times, is accepted without error and leaves the audio of all frames exactly as without the repetitions, so a broadcast stream with periodic configurations plays like the stored one.",
  ["histories", "schedules"], "all positions and numbers of repetitions in valid streams, all delivery schedules", T + " and one configuration.", [MAIN, HDR],
  [("comparison with the stored configuration", MAIN + " ia_core_coder_dec_main")], note="differential against the run without repetitions")
p("P13", "Executing before initialisation is refused and harmless",
  "An execute call made before initialisation has succeeded, whether before the first initialisation call or after a failed one, reports an error and produces no audio, and when the host then initialises and decodes the same data the results are exactly those of a host that never made the premature call.",
  ["histories"], "all numbers and positions of premature calls, also behind initialisations that failed on damaged configurations, all valid streams and memory environments", T + " with a host that calls in the right order.", [API],
  [("initialisation flag checked by execute", API + " ia_mpegh_dec_execute")], note="differential against the well-ordered host")
p("P14", "Packets that carry no audio are transparent",
  "Inserting packets of a type the decoder does not use (fill, sync, marker, descriptor, user data, reserved or private types) with any label, length and content anywhere between packets does not change the audio of any frame.",
  ["histories", "inputs"], "all insertions of non-audio packets at packet boundaries of valid streams, all delivery schedules", T + " whose packet sequence is fixed.", [MHAS, MAIN, HDR],
  [("skip of unknown packet types by length", MHAS + " impeghd_mhas_parse"), ("escape coded type, label and length", MHAS)], note="differential against the stream without the insertions")
p("P15", "Audio already produced never depends on what comes later",
  "The audio of a frame depends only on the data up to and including that frame: damaging, dropping, duplicating, reordering or cutting off later data, or following it with packets of any kind, another configuration or another stream, leaves every earlier output exactly as it was.",
  ["fault_sequences"], "all fault sequences, continuations and cut points, over all valid streams and delivery schedules", T + ": nothing is ever damaged.", [MAIN, API, BITS],
  [("frames are parsed and rendered in order, nothing behind the access unit is interpreted", MAIN)], note="differential: outputs before the first fault compared with the fault-free run")
p("P16", "Packetised and raw transport of the same stream give the same audio",
  "The same configuration and access units give exactly the same audio whether they are delivered as a packetised stream or as the raw configuration and access units of a file format, whatever stale bytes follow a raw access unit in the input buffer.",
  ["schedules", "inputs"], "all valid streams in both transports", T + ": it compares both containers with a stored result for one stream.", [API, HDR, MAIN],
  [("raw flag skips the packet layer", MAIN), ("configuration parsed from the same syntax", HDR)], note="streams whose meaning lies only in configuration and access units; the corpus carries scene data in the configuration, not in packets of its own")
p("P17", "Truncated, damaged or foreign side information is harmless",
  "If any of the optional side-information buffers given at initialisation (element interaction, local setup, scene displacement, binaural responses, scene data) ends early, is damaged, or belongs to another stream, the decoder stays within the given bytes, keeps making progress, and a following decoder given the complete buffers behaves as if it were the first.",
  ["fault_sequences", "crash_points"], "all truncation points, damage and exchanges of all side-information buffers, alone and combined, with valid streams", T + " without any side information.", ["decoder/impeghd_ele_interaction_intrfc.c", "decoder/impeghd_binaural.c", API, "decoder/impeghd_scene_displacement.c"],
  [("separate bit buffers with end check", API), ("non-fatal errors for insufficient side data", API)], note="sanitizer build; every byte position of a buffer is a possible truncation point")
p("P18", "An incomplete packet is reported and yields no audio",
  "When an execute call is given only the first part of the packet it needs, it reports an error and produces no audio; it never takes missing bytes for data.",
  ["schedules", "fault_sequences"], "all short deliveries of the next packet in packetised streams, at any call", T + " and always supplies enough data.", [MHAS, BITS, MAIN, "decoder/ia_core_coder_arith_dec.c"],
  [("packet length compared with the supplied bytes", MHAS), ("underrun exit", BITS)], note="the expected length of each call comes from the reference run")
p("P19", "An invalid host parameter is reported, replaced and touches nothing else",
  "Creating a decoder with an out-of-range word size, loudness target, effect type, target layout or preset succeeds, returns the specific non-fatal code of an invalid parameter, and behaves exactly as if that parameter had its documented default while every valid parameter keeps its effect; valid parameters are accepted without any code and the host's parameters are not modified.",
  ["configurations", "fault_sequences"], "all combinations of valid and invalid host parameters over all valid streams", T + ": one set of valid parameters.", [API, "decoder/impeghd_config_params.h", "docs/INDEX.md"],
  [("range checks and defaults at creation", API + " ia_mpegh_dec_create")], note="differential against the host that passes the documented default explicitly")
p("P20", "A decoder that joins a running stream decodes from the first configuration on",
  "A host that starts in the middle of a broadcast and passes every packet to initialisation until it succeeds is told to skip each frame, damaged configuration and unrelated packet that precedes the first intact configuration, by an error and the number of bytes to skip, never loses part of what follows them, and from that configuration on obtains exactly the results of a decoder that starts there.",
  ["histories", "fault_sequences", "schedules"], "all sequences of frames, damaged configurations and packets without audio in front of the first configuration of all valid streams, all delivery schedules", T + " which starts with its configuration.", [API, HDR, MHAS],
  [("initialisation skips what is not a configuration and leaves no trace of a refused one", API + " ia_mpegh_dec_init"), ("length of a refused packet reported as consumed", HDR + " ia_core_coder_headerdecode")], note="differential against the decoder that starts at the configuration; a damaged configuration that happens to be acceptable ends the comparison")
p("P21", "A host without packet knowledge stays in step through damage and changes",
  "A host that only advances by the reported number of consumed bytes obtains, whatever frames are damaged, foreign or missing and whatever configurations change, repeat or are damaged, the same sequence of calls, with the same starting positions, return codes and audio, as a host that parses the packet layer itself and passes exactly one packet per call: every failed or successful call consumes exactly the packets it was about.",
  ["schedules", "fault_sequences", "histories"], "all fault sequences on frames, inserted frames of other streams, changes, repetitions and damage of configurations, with all delivery schedules", T + " and nothing is damaged.", [API, MAIN, HDR],
  [("input bounded to the packet, whose end is reported as consumed", MAIN + " ia_core_coder_dec_main"), ("consumed bytes of failed calls", API + " ia_core_coder_dec_execute")], note="differential between two host models in the same build")
p("P22", "Decoding resumes with the first intact frame that can be decoded on its own",
  "Whatever happens to earlier frames (damage, loss, repetition, reordering, frames of another stream), the first intact frame that is coded independently of its predecessors is decoded without error - also by a decoder that starts or jumps there - and from it on every intact frame that such a decoder can decode has the return code and the amount of audio it has in the undisturbed stream: no error leaves anything behind that outlasts it.",
  ["fault_sequences", "histories"], "all fault sequences in front of all independent frames of all valid channel- and object-based streams whose frames do not embed configurations", T + " and nothing is damaged.", [API, MAIN, "decoder/ia_core_coder_process.c"],
  [("state of a failed frame is not used by an independent one", MAIN + " ia_core_coder_dec_main"), ("extension payloads cleared before each frame", API + " ia_core_coder_dec_execute")], note="differential against the undisturbed stream and against decoders that start at, and jump to, the independent frame; an independent frame whose aliasing-cancellation data belong to a predecessor that is missing is not judged")
exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None
NA = [dict(id="P90", title="Decoded audio conforms numerically to ISO/IEC 23008-3",
  statement="For every conforming stream the decoded audio lies within the conformance tolerance of the reference decoder of the standard.",
  over=["inputs"], text="all conforming streams", why=T + ".", files=[MAIN, "decoder/ia_core_coder_imdct.c", "decoder/ia_core_coder_windowing.c"], mech=[("signal processing chain", "decoder/")], state=[], obs=OBS,
  reason="a pure function of the bitstream with no schedule, clock, fault or interleaving in it, and no reference decoder or conformance streams are available offline; the simulator's oracles are relations between runs of the same build"),
 dict(id="P91", title="Format conversion, rendering and loudness control keep their acoustic intent",
  statement="Downmix matrices, object panning, scene-based rendering, binaural filters and loudness gains produce the loudness, position and spectral balance that the standard prescribes for the chosen playback layout.",
  over=["inputs", "configurations"], text="all layouts, metadata and gains", why=T + ".", files=["decoder/impeghd_format_conv_init.c", "decoder/impeghd_obj_ren_dec.c", "decoder/impeghd_hoa_renderer.c", "decoder/impd_drc_gain_dec.c"], mech=[("rendering mathematics", "decoder/")], state=[], obs=OBS,
  reason="numerical quality of pure computations: no nondeterminism, fault or history decides it, so simulation with fault injection does not apply"),
 dict(id="P92", title="The test application writes a correct wave file header and reads any MP4 layout",
  statement="The command line application delivers every access unit of any valid container to the decoder in order and writes a wave file whose header describes the audio written.",
  over=["inputs"], text="all container layouts", why=T + ".", files=["test/impeghd_main.c"], mech=[("file reader and writer", "test/")], state=[], obs=["the written file"],
  reason="the application is test code of the repository, not the shipped library; it is replaced by the simulated host, so nothing the simulator runs decides it")]
with open(V + "/properties.jsonl", "w") as f:
    for q in P + NA:
        o = dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                 anchors=dict(files=q["files"], state=q["state"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]], observe_at=q["obs"], hook_needed=None))
        assert len(o["title"]) <= 80, (o["id"], len(o["title"])); f.write(json.dumps(o) + "\n")
M = dict(version=1, setup_cmd="clang++ --version && python3 --version",
  hooks=dict(guard="none: no source line was added to /repo for the simulator", enable="the checks compile /repo/decoder with clang -fsanitize-coverage=trace-pc-guard, which calls the simulator at every basic block; allocator, input, output, scratch and host parameters are seams of the public interface", source_commits=[]),
  checks=[dict(property=q["id"], quick_cmd=f"python3 run.py {q['id']} quick", thorough_cmd=f"python3 run.py {q['id']} thorough", technique="deterministic simulation with fault injection: seeded plans, relational oracle, minimised replay", level=q["level"], level_note=q["note"]) for q in P],
  not_applicable=[dict(property=q["id"], reason=q["reason"]) for q in NA],
  notes="Each check builds the simulator and /repo's decoder from the working tree into /verif/.build (keyed by content) and runs seeded plans in forked worlds; replay files go to /verif/replays: python3 run.py --replay FILE re-executes one, --show FILE prints its calls.")
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1); print(len(P), "claimed", len(NA), "not applicable")
