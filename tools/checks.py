"""What each check runs: harness entries, their bounds, and how long."""
TRUST = [
    "the executor (symx) and Z3 are trusted; rustc's LLVM IR (opt-level 0, then LLVM O1) stands for the code",
    "blake3::hash is an abstract injective digest function; collisions are outside the claim",
    "std's SipHash is abstract: map iteration order is one of the explored orders",
]


def job(entry, covers, secs=150, steps=None, bound="", reps=1, **params):
    d = dict(entry=entry, params=params, covers=covers, secs=secs, bound=bound, reps=reps)
    if steps:
        d["steps"] = steps
    return d


GEN = "OCAfiles of a two-attribute base and generated instructions: 17 kinds (add attribute, remove attribute, classification, meta, label, information, character encoding, conformance, format, unit, cardinality, condition, entry codes, entries, link, attribute framing, flagged attributes), 2 languages, 8 attribute types, every value `n` symbolic lower-case letters"
ONE = "one instruction of any kind, n=2"
TWO = "two instructions: the first of any kind, the second of the same kind or an attribute addition, removal or label, n=1"
ANY = "two instructions, both of any kind, n=2"
THREE = "three instructions: the first of any kind, the others of the same kind or an attribute addition, removal or label, n=1; as far as the time budget reaches"
OUT = "values with other characters (see P09, P11), longer histories, other languages, more attributes than three"


def std(entry, covers, one=True):
    q = [job(entry, covers, bound=ONE, n=2, cmds=1)] if one else []
    q.append(job(entry, covers, bound=TWO, n=1, cmds=2))
    return dict(bounds=GEN + ". Quick: " + "; ".join(x["bound"] for x in q), outside=OUT, quick=q,
                thorough=q + [job(entry, covers, bound=ANY, n=2, cmds=2, any=1, secs=600), job(entry, covers, bound=THREE, n=1, cmds=3, secs=900)])


CHECKS = {
    "P01": dict(
        bounds=GEN + ". The instructions of one file are of one kind (chosen freely), each on any attribute or attributes; quick: two instructions, n=1, two iteration orders of every hash map (reversed; last two of three keys exchanged) against the identity order; thorough: all six orders of the first three keys, and three instructions as far as the time budget reaches",
        outside="files mixing kinds, iteration orders which no permutation of the first three keys of a map gives",
        quick=[job("h_determ", ["built twice"], n=1, cmds=2, types=3, reps=40)],
        thorough=[job("h_determ", ["built twice"], n=1, cmds=2, orders=5, reps=40, secs=600), job("h_determ", ["built twice"], n=1, cmds=3, reps=40, secs=900)]),
    "P02": std("h_faithful", ["built"]),
    "P03": dict(
        bounds=GEN + ". One kind of instruction is mixed with attribute removal and addition in any order and on any attributes. Quick: two instructions, n=1, and three, n=1, within the time budget",
        outside=OUT,
        quick=[job("h_override", ["built"], n=1, cmds=2), job("h_override", ["built"], n=1, cmds=3, few=1, types=2)],
        thorough=[job("h_override", ["built"], n=2, cmds=2), job("h_override", ["built"], n=1, cmds=3, secs=1200)]),
    "P04": std("h_valid", ["identifiers recomputed", "validated"]),
    "P06": std("h_json", ["loaded"]),
    "P07": dict(
        bounds=GEN + ". A base of one instruction of any kind, extended by one of the same kind or an attribute addition, removal or label; the base is reloaded from its JSON. Quick: n=1",
        outside=OUT,
        quick=[job("h_from", ["extended"], n=1)],
        thorough=[job("h_from", ["extended"], n=2), job("h_from", ["extended"], n=1, any=1, secs=900), job("h_from", ["extended"], n=1, reload=0)]),
    "P08": std("h_ast", ["rebuilt"]),
    "P05": dict(
        bounds=GEN + ". A bundle of one instruction of any kind, n=1; one content text anywhere changed in its first or last character (other case, blank, x; thorough: any letter), one member renamed, one member or list element or overlay left out, or one identifier replaced; or the overlays taken from a bundle with another capture base and the bundle identifier recomputed",
        outside="several changes at once; the version string",
        quick=[job("h_tamper", ["tampered"], n=1, cmds=1), job("h_swap", ["swapped"], n=1)],
        thorough=[job("h_tamper", ["tampered"], n=1, cmds=1, letters=1, secs=400), job("h_tamper", ["tampered"], n=1, cmds=2, secs=900), job("h_swap", ["swapped"], n=2)]),
    "P09": dict(
        bounds=GEN + ". Parsed instructions are printed and parsed again; bundles are exported, printed, parsed and rebuilt. Quick: " + ONE + "; " + TWO + ". Also 37 instruction templates in which a window of bytes at any position is arbitrary ASCII (quick: 1 byte replacing 1, 2 replacing 2): whatever parses is printed and parsed again",
        outside="non-ASCII windows, longer windows, longer histories",
        quick=[job("h_print", ["printed"], n=2, cmds=1), job("h_print", ["printed"], n=1, cmds=2), job("h_print_bundle", ["rebuilt"], n=1, cmds=1), job("h_print_any", ["printed"], w=1, cut=1), job("h_print_any", ["printed"], w=2, cut=2), job("h_print_bundle", ["rebuilt"], n=1, cmds=2)],
        thorough=[job("h_print", ["printed"], n=2, cmds=2, any=1, secs=300), job("h_print_any", ["printed"], w=2, cut=1, secs=400), job("h_print_any", ["printed"], w=3, cut=3, secs=600), job("h_print_bundle", ["rebuilt"], n=2, cmds=2, any=1, secs=600)]),
    "P10": dict(
        bounds="37 instruction templates covering every instruction of the grammar, in which a window of bytes at any position is arbitrary ASCII (quick: 1 byte replacing one, 1 byte inserted; thorough: 2 replacing 1, 3 replacing 3); whatever parses is built, on nothing and on a base bundle",
        outside="non-ASCII windows, several windows, longer windows",
        quick=[job("h_crash", ["parsed", "built", "rejected by the builder", "rejected by the parser"], w=1, cut=1), job("h_crash", ["parsed", "built"], w=1, cut=0)],
        thorough=[job("h_crash", ["parsed", "built"], w=2, cut=1, secs=500), job("h_crash", ["parsed", "built"], w=3, cut=3, secs=900)]),
    "P11": dict(
        bounds=GEN + ". One instruction of any kind: any one keyword letter in the other case, all keywords in lower case, one surplus blank or tab between any two words, comments, blank lines and line continuations around and between. n=1",
        outside="several of these at once",
        quick=[job("h_spelling", ["case", "blanks", "lines"], n=1, cmds=1)],
        thorough=[job("h_spelling", ["case", "blanks", "lines"], n=2, cmds=1, secs=300), job("h_spelling", ["case", "blanks", "lines"], n=1, cmds=2, secs=600)]),
    "P12": std("h_cmdjson", ["read back"]),
    "P13": dict(
        bounds="all 256 codes; every ASCII name of overlay types up to 18 characters, attribute types up to 9, encodings up to 10; overlay types within bundles with any one-digit versions (thorough: two digits); attribute types nested up to three arrays deep",
        outside="non-ASCII names, longer names",
        quick=[job("h_names", ["code", "overlay name read", "overlay type read", "attribute type read", "encoding read", "kind read", "nested type read"])],
        thorough=[job("h_names", ["code", "overlay name read", "overlay type read", "attribute type read", "encoding read", "kind read", "nested type read"], len=24, digits=2, secs=400)]),
    "P14": dict(
        bounds="every history of up to three instructions adding or removing one or two attributes or one property, names of one letter out of three, then an instruction about any other object; every version text of up to 6 ASCII characters. Thorough: four instructions as far as the time budget reaches",
        outside="longer histories, other names; FROM",
        quick=[job("h_rules", ["accepted", "refused", "version"], cmds=3)],
        thorough=[job("h_rules", ["accepted", "refused", "version"], cmds=4, secs=900)]),
    "P15": dict(
        bounds="conditions of up to two placeholders (thorough: three) over two known attributes, one with a longer name, an unknown one and the attribute itself, with symbolic one-letter constants; stored conditions with up to three dependencies out of four names and any one-digit position (thorough: two digits)",
        outside="other expressions; longer names",
        quick=[job("h_condition", ["stored", "accepted", "rejected"], deps=1), job("h_condition", ["stored", "accepted", "rejected"], deps=2, types=1), job("h_positions", ["accepted", "rejected"])],
        thorough=[job("h_condition", ["stored", "accepted", "rejected"], deps=2, secs=400), job("h_condition", ["stored", "accepted", "rejected"], deps=3, types=1, secs=600), job("h_positions", ["accepted", "rejected"], digits=2, secs=600)]),
    "P16": dict(
        bounds="each kind of translated overlay (thorough: two kinds together), two texts each present or not in each of three languages, every subset of the three languages enforced",
        outside="more than three languages or two texts",
        quick=[job("h_translations", ["complete", "incomplete"])],
        thorough=[job("h_translations", ["complete", "incomplete"], kinds=2, secs=900)]),
    "P17": dict(
        bounds="bundles with one overlay of each kind: any one node left out, renamed to any two letters, doubled, or replaced by null, a number, true, an empty text, list or object, nested lists or objects, or any ASCII text of one character (thorough: two; and a bundle with all kinds at once); any one byte anywhere (of the members all overlays share, in one overlay; of identifiers, the first two and the last; thorough: in all overlays, and two bytes) arbitrary. Whatever loads is validated, exported, printed, encoded, extended and rebuilt",
        outside="several faults at once, longer windows",
        quick=[job("h_malformed", ["loaded", "rejected"], n=1), job("h_jsonbytes", ["loaded", "rejected"], few=1)],
        thorough=[job("h_malformed", ["loaded", "rejected"], n=2, secs=600), job("h_malformed", ["loaded", "rejected"], n=1, all=1, secs=900), job("h_jsonbytes", ["loaded", "rejected"], secs=300), job("h_jsonbytes", ["loaded", "rejected"], w=2, secs=900)]),
    "P18": dict(
        bounds=GEN + ". Builds through the facade over in-memory stores and SQLite: one instruction of any kind on the base, alone, or followed by a second build of the same instructions and one more (attribute addition or removal, label, meta; given in full or by FROM), or by an attribute added and removed again and an extension by FROM. Quick: n=1, one attribute type; with a second build the first one is an attribute addition or removal, label or cardinality",
        outside="longer histories than five instructions; stores other than in-memory ones",
        quick=[job("h_history", ["one build", "two builds with a common start", "extension", "an instruction and its undoing", "plain history", "instructions without effect or undoing others"], n=1, types=1, few=1)],
        thorough=[job("h_history", ["one build", "extension"], n=1, secs=900), job("h_history", ["one build"], n=1, cmds=2, types=2, shapes=1, secs=600)]),
    "P19": dict(
        bounds=GEN + ". One build of one instruction of any kind on the base, n=1, alone or after another build which shares its capture base, or capture base and an overlay, or nothing. Every object is explored, and texts which are no identifiers",
        outside="more than two builds",
        quick=[job("h_relations", ["one build", "two builds"], n=1)],
        thorough=[job("h_relations", ["one build", "two builds"], n=1, cmds=2, secs=900)]),
    "P20": dict(
        bounds="two or three named bundles, one name possibly given twice; a reference by any name of one or two letters (and five others), in an attribute at up to three nested arrays or in a link, alone or among other attributes, in a file with or without a name of its own; names kept in the facade or outside",
        outside="names of other characters; references in other places than attributes and links",
        quick=[job("h_refs", ["resolved", "unknown"])],
        thorough=[job("h_refs", ["resolved", "unknown"], depth=6, secs=300)]),
    "P21": dict(
        bounds="three bundles (thorough: four), each with up to two references to earlier ones or to one which was never built, at up to one array (thorough: three) deep, with symbolic one-letter attribute names",
        outside="larger graphs; links are not dependencies",
        quick=[job("h_deps", ["dependencies", "missing dependency", "no dependencies"], bundles=3, depth=2)],
        thorough=[job("h_deps", ["dependencies", "missing dependency", "no dependencies"], bundles=3, depth=4, secs=400), job("h_deps", ["dependencies", "missing dependency", "no dependencies"], bundles=4, depth=2, secs=900)]),
    "P22": dict(
        bounds="one of twelve faulty lines, or any line of one lower-case letter (thorough: two), at any place among up to five sound ones (attributes, comment, empty line, a continued line, meta), with or without a name for the file, in a store with one bundle (thorough: also an empty one)",
        outside="several faults; faults in a later of several builds",
        quick=[job("h_failed", ["rejected", "line reported", "sound beginning"], n=1, before=1)],
        thorough=[job("h_failed", ["rejected", "line reported", "sound beginning"], n=2, secs=400)]),
    "P23": dict(
        bounds="up to three puts into the in-memory store, in three of the six namespaces, keys of up to two printable ASCII characters, values of one or two arbitrary bytes, then every get and listing",
        outside="longer keys and values; the sled store",
        quick=[job("h_store", ["put"], puts=3)],
        thorough=[job("h_store", ["put"], puts=3, odd=1, secs=300), job("h_store", ["put"], puts=4, secs=900)]),
    "P24": dict(
        bounds=GEN + ". One instruction of any kind (n=1), and two of the same kind or with an attribute addition, removal or label, on the base, or on the base given as such; also what the facade keeps of the records",
        outside="longer histories",
        quick=[job("h_steps", ["capture base step", "overlay step", "from a base", "from nothing"], n=1, cmds=1), job("h_steps", ["capture base step", "overlay step", "overlay with a parent", "from a base", "from nothing"], n=1, cmds=2, types=1), job("h_records", ["kept"], n=1, cmds=1, types=1)],
        thorough=[job("h_steps", ["overlay with a parent"], n=1, cmds=2, any=1, secs=900), job("h_records", ["kept"], n=1, cmds=2, secs=600)]),
    "P25": dict(
        bounds=GEN + ". One instruction of any kind on the base (n=1, quick: one attribute type), or one of more than 300 bytes, built from records, then extended by a label, a removal or an addition on the recorded base; on a base never recorded, a base whose record is damaged, or with an instruction which cannot be applied; graphs of three added versions with any one-letter names (thorough: two)",
        outside="identifiers longer than 255 bytes",
        quick=[job("h_versions", ["built", "long instruction", "known base", "unknown base", "damaged base", "bad instruction"], n=1, types=1), job("h_graph", ["added"])],
        thorough=[job("h_versions", ["built", "long instruction", "known base", "unknown base", "damaged base", "bad instruction"], n=1, secs=600), job("h_graph", ["added"], len=2, secs=600)]),
    "P26": dict(
        bounds="one rename or link instruction with one or two pairs, with or without blanks and continuation, names of one symbolic character (thorough: two; also two instructions), with no source and target or symbolic ones; nine texts in which one byte (thorough: two) at any position is arbitrary ASCII",
        outside="non-ASCII texts, longer names",
        quick=[job("h_transform", ["built"], cmds=1), job("h_transform", ["built"], cmds=2, pairs=1, blanks=1, metas=2), job("h_transform_any", ["parsed", "built", "not built", "rejected"])],
        thorough=[job("h_transform", ["built"], cmds=1, n=2, secs=400), job("h_transform", ["built"], cmds=2, secs=600), job("h_transform_any", ["parsed", "built", "not built", "rejected"], w=2, secs=300), job("h_transform_any", ["parsed", "built", "not built", "rejected"], w=3, cut=2, secs=900)]),
    "P27": dict(
        bounds="up to two builds (thorough: three) of six texts, some with symbolic letters, equal ones and shared capture bases included; page sizes 0, 1, 2, 3, 100 and the largest number, every page up to one after the last and the largest number",
        outside="more builds",
        quick=[job("h_listing", ["nothing built", "one build", "two builds"], builds=2)],
        thorough=[job("h_listing", ["nothing built", "one build", "two builds", "three builds"], builds=3, secs=900)]),
    "P28": dict(
        bounds="one or two bundles with one of seven pairs of names and descriptions (one bundle also with both languages), ten words and every word of four letters which differs from one in one place; queries of any two ASCII bytes (thorough: three) alone, after or in quotes or after other text; page sizes 1 and 10. SQLite (3.41.2) is executed with the code",
        outside="words of less than three letters; queries using the query language of FTS5 are only checked not to crash; non-ASCII words",
        quick=[job("h_search", ["something to find", "nothing to find"], queries=5, places=2), job("h_query", ["found", "not found"], n=2)],
        thorough=[job("h_search", ["something to find", "nothing to find"], secs=600), job("h_query", ["found", "not found"], n=3, secs=400)]),
    "P29": dict(
        bounds="six bodies (semantics, transformation, the directive within quoted texts, none) after seven beginnings, with no directive, either known one or any word of two letters, at any line, with blanks at any place of it",
        outside="other bytes in the directive",
        quick=[job("h_precompiler", ["transformation", "semantics", "unknown directive", "body of the language"])],
        thorough=[job("h_precompiler", ["transformation", "semantics", "unknown directive", "body of the language"], n=14, secs=400)]),
    "P31": dict(
        bounds="twelve forms of conditions (comparisons, and, or, not, arithmetic, the same attribute twice, texts, constants, no expression, unknown name) with symbolic one-digit values and constants, each of the two values present or missing in the record",
        outside="other forms and values; the Lua interpreter as such",
        quick=[job("h_eval", ["true", "false", "error"])],
        thorough=[job("h_eval", ["true", "false", "error"])]),
}
