#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json (checks that exist) and NOTES below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(ROOT, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = {
 "P01": ("property-based round trip over generated box values, independent model as generator", "all modelled kinds, versions, flags, counts; values drawn with boundary bias; bounded entry counts"),
 "P02": ("property-based differential of declared, reported and real sizes", "all modelled kinds; bounded entry counts"),
 "P03": ("property-based differential against an independent encoder", "the reference encoder is hand-written from the formats"),
 "P04": ("property-based differential against an independent layout and renderer", "the reference renderer is hand-written; includes legal forms this library does not emit"),
 "P05": ("property-based model test on sparse files of any size", "offsets and sizes up to 2^61; one pinned constructor combination excluded (known finding)"),
 "P06": ("stateful property-based test of tree layout against an independent layout and walker", "trees of bounded size; giant payloads simulated on sparse streams"),
 "P07": ("property-based sequence test against a reference bit stream", "bounded sequence lengths and field sizes"),
 "P08": ("structured mutation, coverage-guided fuzzing and memory/time accounting under sanitizers", "absence of crashes is sampled, not proved"),
 "P09": ("generated files against an independent dump", "bounded tree depth and size"),
 "P10": ("generated files and payloads cut at every byte", "all cut positions of bounded files"),
 "P11": ("model-based histories with an independent demuxer as oracle", "bounded tracks, samples and sizes"),
 "P12": ("model-based histories, independent demuxer and differential against the progressive writer", "bounded tracks, samples and sizes"),
 "P13": ("generated histories around the 32-bit limits on sparse streams and real files", "limits simulated by sparse streams; one real file above 4 GiB per run for the intermediate file"),
 "P14": ("property-based expansion round trip and minimality against a reference, on the tables alone and in written movies", "bounded table lengths, all offset magnitudes"),
 "P15": ("generated Annex-B streams against a reference splitter", "bounded unit counts and sizes"),
 "P16": ("generated parameters and histories, independent parser of the finished movie box", "parameter values with boundary bias"),
 "P17": ("exhaustive registry sweep and generated type codes against a reference registry", "all registered types each run; other codes sampled"),
 "P18": ("stateful model-based operation histories", "all versioned kinds; bounded history length"),
 "P19": ("fault injection at every byte and every seek of generated write sequences", "faults at every position of bounded outputs"),
 "P20": ("property-based differential against an independent calendar", "all days of the 32-bit range in the thorough tier"),
 "P21": ("generated files run through the command-line tool against an independent dump", "bounded number of processes"),
 "P23": ("fault injection at every byte, seek and position query of generated reads, against the undisturbed result", "faults at every position of bounded inputs"),
 "P22": ("generated values at and beyond each limit", "limits of the listed kinds"),
 "P24": ("stateful random histories of construction, use, failure and abandonment under AddressSanitizer, with every block of memory and every file descriptor counted", "generated histories of bounded length"),
 "P25": ("random concurrent work under ThreadSanitizer, each result compared with what the same work gives alone", "the schedules that occur; two to four threads"),
 "P26": ("metamorphic: generated histories with and without refused requests give the same bytes and values", "one refused request at a time; outputs that take all or nothing of a sample"),
 "P28": ("metamorphic: the same generated work in plain and in drawn surroundings gives the same results", "no locale but C, C.utf8 and own facets is installed; the clock is stopped"),
 "P29": ("metamorphic: a copy against its original, before and after either is changed; comparison operators against the comparison of field lists", "boxes are copied through their own class, not through a base class"),
 "P27": ("generated large recordings, tables and trees written under CPU-time and memory accounting", "limits several times today's cost; up to 200 000 samples, 48 MB of media, 60 000 boxes"),
}
NA = {}
out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        t, n = NOTES[i]
        out["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                              "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                              "technique": t, "level": "exploration", "level_note": n})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
