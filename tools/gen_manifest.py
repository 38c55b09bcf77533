#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from CLAIMS; every property without a claim is listed as not applicable."""
import json
CLAIMS = {
"F02": ("path summaries of every function that reads: error of each reading call known nil, amount compared with the buffer, loops left only at a mark", "Every path of every function that reads (itself or through others) is listed with what is known about the outcome of each reading call; library reading calls are taken from a list by name and form. Data already in memory that is sliced by computed offsets is not judged."),
"S01": ("path-sensitive interpretation of the document writer against the file grammar with the byte counter as typestate", "Decides where offsets are read, that every loop covers every object, and the counts; trusts that the destination returns the number of bytes it accepted."),
"S05": ("def-use dataflow between the Length value and the data written after the stream keyword", "The value printed as Length must be the length of exactly the data written as the stream, taken after the last write and flush, on every path."),
"S03": ("abstract interpretation of the writers against a PDF object grammar automaton", "Every error-free path of every object writer, loops included, writes one complete PDF object. Trusts the Go library's documented output behaviour and the importer's data."),
"S02": ("value provenance analysis of every printed object number against the object list", "Each number printed before '0 R' (or handed over as one) is traced backwards to the additions to the object list; kind of object, offset by one, and unset values are decided on every origin."),
"S04": ("comparison of the dictionary entries written on every path class with the required entries per object kind", "Presence and value kind of the entries required by ISO 32000 are decided for every error-free path of every object writer."),
"S08": ("value provenance of the number in every resource name, must-register path analysis", "Names used in content are matched with resource dictionary keys by form, number origin and offset; each add site must register on every path, each counter must advance."),
"P01": ("dataflow from the cipher to every stream and string site, origin analysis of protection values, must-set typestate of new objects", "Every write of stream data or a string is judged per protection state on every path; the cipher itself (RC4/MD5) and the strength of keys are trusted."),
"O01": ("forward dataflow of error obligations on every path, with sticky-writer and infallible-writer summaries", "Every error result of every call in the analysed packages is followed on every path to the error result of the function; dropped, overwritten and forgotten errors are reported."),
"O08": ("typestate of pipes and buffered writers with must-close and must-drain path analysis", "Every pipe: closed on every path of its goroutine with the failure handed over, flushed before, drained or closed by the reader. Trusts that encoders report failures by their error result."),
"O04": ("call-graph reachability from the public API to process-ending, panicking, printing and logging calls", "Every such call in the analysed packages is reported unless it lies in a call without an error result documented to stop. Run-time panics (index, nil) are not in this rule; the importer library is excluded."),
"O02": ("interprocedural effect analysis of serialising, order analysis of reads, resets and updates of document state during output", "Every write reachable from a serialising method must go to its destination or fresh memory; every change of document state by an output route must be repeatable (reset or guarded), never skipped by state of earlier outputs, and unread by building calls."),
"O07": ("typestate of pooled objects on every path, deferred calls in order, reachability of their memory from the effect analysis", "Every place that takes from a pool is followed to every return: given back exactly once, not used, returned or kept afterwards; emptied before Put or after Get. Objects handed on through structures are followed by their reachability only."),
"O09": ("forward dataflow of held locks with helper summaries (typestate of mutexes)", "Every access to a table whose struct carries a lock is checked on every path; lock objects are told apart by access path."),
"O05": ("interprocedural effect analysis of package variables, retained references to them, and fonts taken from containers", "Every write reachable from a public function or callback is expressed as an access path; one rooted in a package variable, or in font memory shared through a container, is reported. Library code outside the packages is taken to keep no state per process."),
"F03": ("interprocedural effect analysis with the loading functions cut out of the call graph", "Any write into memory of the font parser, by any function that can run after loading, is reported with its instruction. Writes through paths longer than ten steps are not resolved."),
"P02": ("interprocedural effect analysis of key derivation and set-up, read-set and dependence analysis of object keys", "Writes, retained references and returned memory of the derivation; writers of key fields outside set-up; writers of passwords and padding; fields and sources an object key depends on. MD5 and RC4 are trusted."),
"O06": ("interprocedural effect and alias analysis (access paths rooted in parameters, flow-sensitive for locals)", "Every write and every stored reference reachable from an exported call is expressed in the call's parameters; a location inside a caller's slice or structure that is written or kept is reported. Interfaces, callbacks and retained byte slices are excluded as stated."),
"L07": ("typestate analysis of the page being started over every path with the calls inlined; coverage rule for the loop that lists the pages", "Every path of the calls that add a page is followed with a state (object added, current, size, count, content, cursor, callbacks); the page tree loop must pass every object and raise the count exactly where a page is listed. The value of the margins and of the size is not decided."),
"L03": ("conditional constant propagation over monomials (constant times powers of the input and the custom factor), per unit and configuration", "Every conversion function is evaluated from its SSA form with the input unknown, for each unit, configuration and shape override; the resulting factor is compared with the definition. Variadic calls up to four variables."),
"L05": ("backward provenance of every text looked up, measured or kept by an element to the registering call of the same font; must-register dataflow inside that call", "Origins are followed through calls, function values, closures and slices; a change of the current font on a way from registration to use is reported. Elements the caller builds itself (CacheContent) are outside; the glyph lookup itself is trusted."),
"L04": ("equality facts on every path to a merge (predicates entered), compared with the read set of the drawing functions", "Every field path the drawing of a run reads must be known equal (or the run's end) where a run is extended; only the last element may be extended; measured again afterwards."),
"L01": ("dimension analysis (units, points, free) by abstract interpretation of every public call with its calls entered, flow-sensitive memory", "Every public call is interpreted with its numbers in units and the document's state in points; mixing, double conversion, lengths written or kept in another dimension than elsewhere are reported. Constants carry no dimension; only the dimension is decided, not the value."),
"L02": ("symbolic differentiation of every written coordinate by the page heights, path-sensitive through the emission automaton with the current transformation; must-update analysis of page changes", "The rate at which each written vertical coordinate follows the height of the current page is computed from the source and compared with what its operator (and the flips in force) needs; every change of page must set the size. Positions proper (x, offsets) are not decided."),
"L06": ("backward slicing of reused objects to their inputs, symbolic key templates per path, compared with what lookups cover", "Every input of a reused object must be in the key (or compared by the search) whenever it is set, unambiguously and at the precision written. Digests (MD5) and paths are taken to identify image data."),
"O03": ("order-dependence analysis of every loop over a map, reachability of clock, randomness and environment, dataflow of addresses into text, effects of goroutines", "Each map loop's effects, early exits and carried values are judged on the SSA form; accepted only when commutative, keyed by the entry, sorted by a total order before use, or decided by at most one entry. Library encoders and the page importer are trusted."),
"F04": ("path summary of the collection of glyphs: induction over the growing list, evaluation of every combination of component flags", "The loop that reads components is found by the flags it tests; where it starts, how far it steps for every flag combination, when it stops and that each component is on the list are decided on every path. Sorting and copying of the listed glyphs into the tables is not decided here."),
"F05": ("path summaries over symbolic terms of the table of characters, its registrations and its consumers, with loop coverage", "Every path of the table's methods, of the registering functions and of the writers of widths, Unicode map and glyph program is summarised symbolically; inductive loop reasoning shows entries in order, complete and with their own glyph. Rune ranges (bfrange grouping, runes above U+FFFF) are not decided."),
"F06": ("path summaries specialised to each member of each closed set, with the printed operators in normal form; constant propagation", "For every member of each set (and every combination of bits) the writing function is summarised with that member fixed and everything else symbolic: each way through must print the operators and the operands (compared as polynomials over the fields) that the member stands for. Pure functions of texts (styles, blend modes) are evaluated by constant propagation on every member and on texts that name none."),
"F07": ("path summaries of the drawing calls followed to the operators written; the path compared as polynomials over the numbers given and the page height", "Each call is summarised with its numbers symbolic and followed through the object added to the operators printed for it; moves, lines, curves and boxes are put together and compared (corners around, either way; curves as quarter ellipses). Conversion of units is taken as the identity (L01, L03 decide it); polygons with up to five corners; rounding of printed numbers is not decided."),
"N05": ("path summaries per combination of flips, crop and mask; product of the written matrices compared as polynomials over the fields and cos/sin of the angle", "The function that writes an image (and the one that writes a rotation) is summarised for each combination with everything else symbolic; the matrices and boxes printed are multiplied as polynomials and compared with the mirrored, cropped and turned box; the fields are followed from ImageOptions to the object written. Rotation of a cropped image under a mask is not decided; rounding of printed numbers neither."),
"L08": ("ranking functions for every loop, found on path summaries of its iterations; structural or numeric descent of recursive calls", "For each of the loops of the library a lexicographic measure (numbers, lengths, their differences) is found that advances on every path through an iteration and is bounded by a fact of that path, or the loop reads input that ends. Not decided: that the bound is small (a count read from a font may be large); wrap-around of 64-bit numbers; library calls are taken to return."),
"S06": ("abstract interpretation of the content elements against the content operator grammar", "Operators, operand kinds and counts, q/Q, BT/ET and path state are decided on every path of every content element; numeric operand values are not."),
"S07": ("character-class taint analysis of caller text through encoders into PDF contexts", "Every character class of every caller-controlled string is followed to the place it is written; classes that could end the context are reported."),
}
NA = json.load(open('/verif/tools/not_applicable.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "One static analyser (checker/) decides all properties from the type-checked SSA form of /repo; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": "static analysis: "+t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check still being built")})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
