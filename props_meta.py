# per property: flavour, number of seeded plans in the quick tier, evidence texts
A0 = ["the corpus streams (built by corpusgen/ and taken from the repository) are the workloads; the host is the model in sim/world.cpp", "x86-64 build of /repo/decoder with clang -O2; floating point results are compared only with results of the same binary"]
def m(quick, rule, san=False, level="exploration", assume=[]): return {"quick": quick, "rule": rule, "san": san, "level": level, "assume": A0 + assume}
META = {
 "P01": m(2400, "the intact reference produced audio and at least one call was given fewer bytes than available, or stale bytes stood behind the given ones"),
 "P02": m(700, "at least one switch between instances inside a call"),
 "P03": m(1600, "at least one fault was injected", san=True, assume=["AddressSanitizer and array-bounds instrumentation define 'outside its memory'; the first configuration is delivered intact"]),
 "P04": m(2400, "at least one memory request was refused, or the instance was deleted early", level="fault_enumeration"),
 "P05": m(3200, "at least one fault was injected"),
 "P06": m(3200, "at least one output frame was produced"),
 "P07": m(2000, "the reference produced audio and at least one environment attribute differed"),
 "P08": m(1600, "an earlier life preceded the compared one, which produced audio"),
 "P09": m(1600, "a segment after a configuration change was compared with its fresh decode"),
 "P11": m(1600, "a segment after a configuration change was compared with its fresh decode"),
 "P12": m(2400, "a configuration packet was repeated and the reference produced audio"),
 "P13": m(2400, "execute was called before initialisation had succeeded"),
 "P14": m(2400, "packets were inserted and the reference produced audio"),
 "P15": m(2400, "a fault was injected and at least one output precedes it"),
 "P16": m(2400, "the packetised reference produced audio"),
 "P17": m(1600, "at least one side-information buffer was truncated, damaged or exchanged", san=True),
 "P18": m(3200, "at least one execute call was given an incomplete packet"),
 "P19": m(3200, "at least one host parameter was outside its documented range"),
 "P20": m(2400, "at least one initialisation call was skipped and the joined stream produced audio"),
 "P21": m(2000, "at least one fault was injected"),
 "P22": m(2400, "an intact independent frame followed the faults and was compared"),
}
