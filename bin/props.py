"""Configuration of the per-property checks."""

PROPS = {
    "C01": {
        "level": "model_checking",
        "technique": "TLA+ machine of generations of fonts and files (merging of contradicting and missing tables, derivation of all tables from the font) with the fixed point model-checked for all combinations of tables; those files and fonts, random fonts, files with changed and foreign tables and existing fonts passed through write/read/write/read/write by the real code, and every generation validated against the machine",
        "note": "",
        "models": [
            {"module": "MCRoundTrip.tla", "cfg": "MCRoundTripStyle.cfg", "workers": 4, "emits": True, "quick_only": True},
            {"module": "MCRoundTrip.tla", "cfg": "MCRoundTripNumber.cfg", "workers": 4, "emits": True},
            {"module": "MCRoundTrip.tla", "cfg": "MCRoundTripStyleDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 1500},
        ],
        "trace": "RoundTripTrace.tla",
        "min_records": 5000,
    },
    "C02": {
        "level": "model_checking",
        "technique": "TLA+ machine of a decode session (answer once, then accessors; no transition for a panic) with linear cost bounds, and model-checked reader of shared structures; every shape of the model turned into real tables, and all truncations, field corruptions and random changes of valid inputs decoded by the real code, with results, panics, memory and time validated against the machine",
        "note": "",
        "models": [
            {"module": "MCTotality.tla", "cfg": "MCTotality.cfg", "workers": 2, "emits": True, "quick_only": True},
            {"module": "MCTotality.tla", "cfg": "MCTotalityDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 1500},
        ],
        "trace": "TotalityTrace.tla",
        "min_records": 1000,
    },
    "C03": {
        "level": "model_checking",
        "technique": "TLA+ specification of the sfnt container (directory, search fields, alignment, overlap, checksums) model-checked against a nondeterministic writer; files written by the real code for TLC-enumerated and random table sets and generated fonts validated byte by byte, together with what an independent reader finds in them",
        "note": "",
        "models": [
            {"module": "MCSfnt.tla", "cfg": "MCSfnt.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCSfnt.tla", "cfg": "MCSfntDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "SfntTrace.tla",
        "min_records": 3000,
    },
    "C04": {
        "level": "model_checking",
        "technique": "TLA+ nondeterministic Type 2 encoder model-checked against the Type 2 machine; charstrings emitted by the real writer (TLC-enumerated and random glyphs) executed on the TLA+ machine and compared with the glyph description",
        "note": "",
        "models": [
            {"module": "MCType2Enc.tla", "cfg": "MCType2Enc.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCType2Enc.tla", "cfg": "MCType2EncDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2000},
        ],
        "trace": "Type2EncTrace.tla",
        "min_records": 10000,
    },
    "C05": {
        "level": "model_checking",
        "technique": "TLA+ Type 2 charstring machine, model-checked with TLC over all one-operator programs; TLC-enumerated, grammar-generated and mutated programs decoded by the real reader and validated against the machine",
        "note": "",
        "models": [
            {"module": "MCType2.tla", "cfg": "MCType2.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCType2.tla", "cfg": "MCType2Deep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2000},
        ],
        "trace": "Type2Trace.tla",
        "min_records": 20000,
    },
    "C06": {
        "level": "model_checking",
        "technique": "TLA+ shaping machine, model-checked with TLC; TLC-enumerated and random table/sequence cases executed by the real shaper and every recorded call validated against the machine",
        "note": "",
        "models": [
            {"module": "MCShaper.tla", "cfg": "MCShaper.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCShaper.tla", "cfg": "MCShaperDeep.cfg", "workers": 8, "emits": True, "thorough": True},
        ],
        "trace": "ShaperTrace.tla",
        "min_records": 10000,
    },
    "C07": {
        "level": "model_checking",
        "technique": "TLA+ session machine over the shaping machine, model-checked with TLC; recorded call histories of the real shaper (random, adversarial, mutated and TLC-generated tables) validated against it",
        "note": "",
        "models": [
            {"module": "MCSession.tla", "cfg": "MCSession.cfg", "workers": 6, "emits": True},
        ],
        "trace": "ShaperSessionTrace.tla",
        "min_records": 8000,
    },
    "C09": {
        "level": "model_checking",
        "technique": "TLA+ decoding machines for cmap formats 0/4/6/12 and the cmap table, model-checked against a nondeterministic encoder; TLC-enumerated and random mappings encoded by the real code, the bytes and the library's own lookups validated against the machines",
        "note": "",
        "models": [
            {"module": "MCCmap.tla", "cfg": "MCCmap.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCCmap.tla", "cfg": "MCCmapDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2000},
        ],
        "trace": "CmapTrace.tla",
        "min_records": 20000,
    },
    "C11": {
        "level": "model_checking",
        "technique": "TLA+ decoding machines for loca, simple and composite glyphs and the outline semantics, model-checked against a nondeterministic encoder; TLC-enumerated and random glyph sets encoded and decoded by the real code, bytes, contours, component lists and an independent reader's outlines validated against the machines",
        "note": "",
        "models": [
            {"module": "MCGlyf.tla", "cfg": "MCGlyf2.cfg", "workers": 3, "emits": True, "quick_only": True},
            {"module": "MCGlyf.tla", "cfg": "MCGlyf3.cfg", "workers": 3, "emits": True, "quick_only": True},
            {"module": "MCGlyf.tla", "cfg": "MCGlyf2Deep.cfg", "workers": 4, "emits": True, "thorough": True, "timeout": 2500},
            {"module": "MCGlyf.tla", "cfg": "MCGlyf3Deep.cfg", "workers": 4, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "GlyfTrace.tla",
        "min_records": 20000,
    },
    "C12": {
        "level": "model_checking",
        "technique": "TLA+ decoding machines for hhea/hmtx, head, maxp, OS/2 and post and definitions of the derived fields, boxes and PDF metrics, model-checked against a nondeterministic metrics encoder; TLC-enumerated and random tables, complete fonts and metric queries of the real code validated against the machines",
        "note": "",
        "models": [
            {"module": "MCMetrics.tla", "cfg": "MCMetrics.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCMetrics.tla", "cfg": "MCMetricsDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2000},
        ],
        "trace": "MetricsTrace.tla",
        "min_records": 4000,
    },
    "C13": {
        "level": "model_checking",
        "technique": "TLA+ decoding machine for CFF files (INDEX, DICT, charset, encoding, FDSelect, private dictionaries, widths), model-checked against a nondeterministic writer of all formats; files written by the real code for TLC-enumerated and random fonts, and files in foreign formats, validated against the machine",
        "note": "",
        "models": [
            {"module": "MCCff.tla", "cfg": "MCCff.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCCff.tla", "cfg": "MCCffDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "CffTrace.tla",
        "min_records": 2000,
    },
    "C08": {
        "level": "model_checking",
        "technique": "TLA+ decoding machines for GSUB, GPOS, GDEF, coverage and class definition tables; the lookup-list layout algorithm and all binary forms of the glyph tables model-checked; structures of every lookup type and format, TLC-enumerated layouts around the 16-bit limits and tables in foreign layouts passed through the real encoders and decoders and validated against the machines",
        "note": "",
        "models": [
            {"module": "MCOtl.tla", "cfg": "MCOtl.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCOtl.tla", "cfg": "MCOtlDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "OtlTrace.tla",
        "min_records": 1500,
    },
    "C10": {
        "level": "model_checking",
        "technique": "TLA+ specification of subsetting (glyph selection, closure under substitutions, composites, renumbering of rules); commutation of subsetting with shaping model-checked; TLC-enumerated fonts and random fonts subset by the real code, the results written and re-read and validated against the spec",
        "note": "",
        "models": [
            {"module": "MCSubset.tla", "cfg": "MCSubset.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCSubset.tla", "cfg": "MCSubsetDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "SubsetTrace.tla",
        "min_records": 1500,
    },
    "C19": {
        "level": "model_checking",
        "technique": "TLA+ definition of the lookup notation (lexer, grammar, meaning, printer), model-checked on all short token sequences, and of the two-process token stream; the same texts, random descriptions of random lookups, mutations and token soups given to the real parser and explainer under different GOMAXPROCS, and results, errors and goroutine counts validated against the definition",
        "note": "",
        "models": [
            {"module": "TokenStream.tla", "cfg": "TokenStream.cfg", "workers": 2},
            {"module": "MCNotation.tla", "cfg": "MCNotation.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCNotation.tla", "cfg": "MCNotationDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "NotationTrace.tla",
        "min_records": 10000,
    },
    "C20": {
        "level": "model_checking",
        "technique": "TLA+ naming machine (duplicates, character names, substitution rules in any order, placeholders), model-checked for all small fonts; the same fonts and random ones named by the real code (TrueType, CFF, CID-keyed, read from files, conversion to simple fonts) and the names validated against the specification",
        "note": "",
        "models": [
            {"module": "MCGlyphNames.tla", "cfg": "MCGlyphNames.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCGlyphNames.tla", "cfg": "MCGlyphNamesDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "GlyphNamesTrace.tla",
        "min_records": 8000,
    },
    "C15": {
        "level": "model_checking",
        "technique": "TLA+ machine of the layout pipeline (best cmap, feature selection, substitution, widths, positioning, kern table, standard ligatures) on top of the shaping machine, model-checked; TLC-enumerated fonts, script lists, kern tables and ligature sets and random fonts laid out by the real code and validated against the machine",
        "note": "",
        "models": [
            {"module": "MCPipeline.tla", "cfg": "MCPipeline.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCPipeline.tla", "cfg": "MCPipelineDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "PipelineTrace.tla",
        "min_records": 3000,
    },
    "C14": {
        "level": "model_checking",
        "technique": "TLA+ decoding machines for name and post tables, character codecs and language tables, model-checked against nondeterministic writers; tables written by the real code for TLC-enumerated and random information, tables from other writers, and every script/language pair passed through the real code, validated against the machines",
        "note": "",
        "models": [
            {"module": "MCNames.tla", "cfg": "MCNames.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCNames.tla", "cfg": "MCNamesDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "NamesTrace.tla",
        "min_records": 4000,
    },
    "C16": {
        "level": "model_checking",
        "technique": "TLA+ machine of goroutines running segmented operations on one font under four designs (pure, patched buffer, lazy index, shared scratch), model-checked over all schedules of small programs; the schedules which tell the designs apart are forced on the real code, and freely running goroutines in fresh processes are watched by the race detector, every result, race report and font digest being validated against the machine",
        "note": "",
        "race": True,
        "models": [
            {"module": "MCConcurrent.tla", "cfg": "MCConcurrent.cfg", "workers": 2, "emits": True, "quick_only": True},
            {"module": "MCConcurrent.tla", "cfg": "MCConcurrentTwo.cfg", "workers": 4, "emits": True, "quick_only": True},
            {"module": "MCConcurrent.tla", "cfg": "MCConcurrentThree.cfg", "workers": 4, "emits": True},
            {"module": "MCConcurrent.tla", "cfg": "MCConcurrentDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2500},
        ],
        "trace": "ConcurrentTrace.tla",
        "min_records": 2000,
    },
    "C17": {
        "level": "model_checking",
        "technique": "TLA+ byte-view machine; TLC-checked buffer design; TLC-generated histories replayed and recorded traces validated against the spec",
        "note": "Exhaustive for the buffer design at small constants and for all TLC-generated histories of length 2 (quick) or 3 (thorough) around the real buffer boundaries; random histories beyond. Trusts TLC and the trace recorder.",
        "models": [
            {"module": "BufferedView.tla", "cfg": "MCBufferedView.cfg", "workers": 4},
            {"module": "MCByteViewGen.tla", "cfg": "MCByteViewGen.cfg", "workers": 4, "emits": True, "quick_only": True},
            {"module": "MCByteViewGen.tla", "cfg": "MCByteViewGenDeep.cfg", "workers": 4, "emits": True, "thorough": True},
        ],
        "trace": "ByteViewTrace.tla",
        "min_records": 50000,
    },
    "C18": {
        "level": "model_checking",
        "technique": "TLA+ machines of failing destinations and sources with the contract of writers and readers, model-checked for every partition into writes; every fault point of files written and read by the real code executed in several fault modes, and the recorded calls, counts and errors validated against the machines",
        "note": "",
        "models": [
            {"module": "MCFault.tla", "cfg": "MCFault.cfg", "workers": 6, "emits": True, "quick_only": True},
            {"module": "MCFault.tla", "cfg": "MCFaultDeep.cfg", "workers": 8, "emits": True, "thorough": True, "timeout": 2000},
        ],
        "trace": "FaultTrace.tla",
        "min_records": 400,
    },
}
