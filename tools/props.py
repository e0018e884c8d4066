"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append(d)
B="semantics/oca-bundle/src/"; A="semantics/oca-ast/src/"; F="semantics/oca-file/src/ocafile/"; D="semantics/oca-dag/src/"; O="oca/src/"; T="transformation/"

p("P01","Building is deterministic: one OCAfile, one bundle, one identifier",
  "Building the same OCAfile twice gives byte-identical bundle JSON and the same bundle identifier. Neither the hash seeds of the process nor the order in which it happens to iterate its internal maps can show in the output.",
  ["inputs","schedules"],"every sequence of instructions within the bound, every content of its values, and every relative iteration order of the maps the builder uses",
  "A test process runs with one random hash seed and compares with itself or a fixed string for a few files; it never relates two iteration orders of the same build.",
  [B+"state/oca.rs",B+"build.rs",B+"state/attribute.rs",B+"state/oca/capture_base.rs"],[("overlay generation and ordering",B+"state/oca.rs: generate_overlays, serialize_overlays"),("sorted attribute map serialisation",B+"state/oca/capture_base.rs, overlay/*.rs serialize_*")],["bundle JSON and said"])
p("P02","A built bundle states exactly what the OCAfile states",
  "The capture base and overlays of a built bundle contain every attribute, type, classification, flag and overlay value the OCAfile declares, each with the language, attribute and value given, and nothing else. Every overlay names the capture base of the same bundle.",
  ["inputs","programs"],"every instruction kind and pairs of them, over every attribute, language and value within the bound",
  "The tests build a handful of files and mostly look at the identifier or one overlay; values, languages and pairings are fixed.",
  [F+"mod.rs",F+"instructions/add.rs",F+"instructions/helpers.rs",B+"build.rs",B+"state/oca.rs","semantics/oca-bundle/src/state/oca/overlay"],[("text to instructions",F+"instructions/*.rs"),("instructions to state",B+"build.rs: apply_command"),("state to overlays",B+"state/oca.rs: generate_overlays")])
p("P03","Instructions apply in order: later ones win, removal removes everything",
  "When several instructions speak about the same attribute the last one decides, and everything not mentioned by an instruction is left as it was. Removing an attribute removes it from the capture base and from every overlay, and re-adding it later starts from nothing.",
  ["programs","histories"],"every sequence of up to three instructions over add, override, remove and re-add with every value within the bound",
  "Tests use single additions; no test overrides a value with every other kind, or removes an attribute that overlays describe.",
  [B+"build.rs",B+"state/oca.rs",B+"state/attribute.rs"],[("merge of attribute descriptions",B+"state/attribute.rs: merge"),("removal",B+"state/oca.rs: remove_attribute")])
p("P04","Every built bundle passes the project's own validation, identifiers included",
  "A bundle built from any accepted OCAfile passes structural validation, unless a condition in it refers to an attribute the bundle does not have. Its identifier and those of its capture base and overlays are the digests of the respective content, so that anyone can recompute them.",
  ["inputs","programs"],"every OCAfile of the generator (all instruction kinds, all values within the bound)",
  "Tests validate two or three fixed bundles; none recomputes identifiers independently.",
  [B+"state/validator.rs",B+"state/oca.rs","semantics/oca-bundle/src/state/oca/overlay",B+"state/oca/capture_base.rs"],[("said derivation",B+"state/oca.rs: fill_said, OverlayWith SAD"),("validator",B+"state/validator.rs: Validator::validate")])
p("P05","Tampering with a published bundle is detected by validation",
  "Change any declared content of a valid bundle (an attribute, its type, the classification, an overlay value, a language, or leave a part out) without recomputing identifiers, and loading or validation fails. Overlays taken from another bundle, which point at another capture base, fail as well even where every identifier is recomputed.",
  ["inputs","fault_sequences"],"every bundle of the generator, every content position, every replacement value within the bound",
  "One test tampers one field with one value.",
  [B+"state/validator.rs"],[("digest verification",B+"state/validator.rs: validate"),("capture base link check",B+"state/validator.rs")])
p("P06","Bundle JSON loads back to the same bundle",
  "Loading the JSON of a built bundle succeeds and encoding the loaded bundle again gives the same bytes, and so the same identifiers. No overlay or value is lost or changed on the way.",
  ["inputs"],"every bundle of the generator",
  "Tests load fixed JSON files and check one or two fields.",
  [B+"controller.rs",B+"state/oca.rs","semantics/oca-bundle/src/state/oca/overlay"],[("overlay deserialisation",B+"state/oca.rs: deserialize_overlays, DynOverlay"),("loader",B+"controller.rs: load_oca")])
p("P07","Extending a bundle with FROM equals writing one OCAfile",
  "Building a base and then an OCAfile that starts FROM that base and adds further instructions gives the same bundle as building all instructions in one file. Nothing of the base is lost or changed except what the new instructions say.",
  ["programs","histories"],"every base instruction kind followed by every extension instruction kind, all values within the bound",
  "One test extends one bundle; the state restored from the base is never compared for other overlay kinds.",
  [B+"build.rs",B+"state/oca.rs"],[("restoring builder state from a bundle",B+"state/oca.rs: From<OCABundle> for OCABox"),("from_ast with a base",B+"build.rs: from_ast")])
p("P08","A bundle exported as instructions rebuilds to the same identifier",
  "Turning a bundle into instructions and building those gives a bundle with the same identifier. No overlay kind is silently dropped.",
  ["inputs"],"every bundle of the generator",
  "One test converts one bundle with a subset of the overlays.",
  [B+"state/oca.rs",B+"build.rs"],[("export",B+"state/oca.rs: to_ast")])
p("P09","Generated OCAfile text parses back to the same instructions",
  "Printing instructions as OCAfile text and parsing the text gives the same instructions, for every instruction the parser itself can produce. So the OCAfile generated for a bundle rebuilds that bundle.",
  ["inputs","programs"],"every instruction kind with every value within the bound, including quotes, spaces and non-ASCII bytes where the grammar accepts them",
  "Tests compare generated text with one expected string; special characters and most instruction kinds are not exercised.",
  [F+"mod.rs",F+"instructions/add.rs","semantics/oca-file/src/ocafile.pest"],[("printer",F+"mod.rs: generate_from_ast"),("parser",F+"mod.rs: parse_from_string")])
p("P10","Any OCAfile text is parsed or rejected; parser and builder never crash",
  "For any input text the parser returns instructions or an error, and for any instructions it returns, the builder returns a bundle or errors. Neither panics nor fails to return.",
  ["inputs"],"every text made from an instruction template in which a window of bytes is arbitrary, up to the stated window size and position",
  "Tests feed well-formed files and a few chosen errors; the arguments that reach unwraps are not among them.",
  [F+"mod.rs",F+"instructions/add.rs",F+"instructions/from.rs",F+"instructions/remove.rs",F+"instructions/helpers.rs",B+"build.rs"],[("instruction parsing",F+"instructions/*.rs"),("command application",B+"build.rs: apply_command")])
p("P11","Keyword case and extra blanks do not change what an OCAfile means",
  "Writing instruction keywords in another letter case, or adding comments, blank lines and surplus blanks between words, gives the same bundle. Values keep their spelling.",
  ["inputs"],"every per-letter case choice of the keywords and every placement of extra blanks and comment lines within the bound",
  "Two tests use one lower-case spelling each.",
  ["semantics/oca-file/src/ocafile.pest",F+"mod.rs"],[("grammar","semantics/oca-file/src/ocafile.pest")])
p("P12","Instructions survive JSON serialisation unchanged",
  "Serialising instructions to JSON and reading them back gives equal instructions, for every instruction the parser can produce. Stored histories therefore replay what was built.",
  ["inputs"],"every instruction of the generator, all values within the bound",
  "A test round-trips one instruction list.",
  [A+"ast/mod.rs",A+"ast/recursive_attributes.rs",A+"ast/attributes.rs"],[("instruction serde",A+"ast/mod.rs"),("attribute type serde",A+"ast/attributes.rs, recursive_attributes.rs")])
p("P13","Type, kind and encoding names are one-to-one",
  "The numeric code of every instruction object kind decodes to that kind and unknown codes are refused, never taken for a kind. Every overlay type, attribute type and character encoding prints a name that reads back as itself, and two different ones never share a name.",
  ["inputs"],"all 256 codes, all kinds, and every name up to the stated length",
  "Tests check single members.",
  [A+"ast/mod.rs",A+"ast/attributes.rs",B+"state/encoding.rs"],[("codes",A+"ast/mod.rs: From<u8> for ObjectKind"),("names",A+"ast/mod.rs: OverlayType FromStr/Display; "+B+"state/encoding.rs")])
p("P14","The instruction validator enforces add-once and remove-existing",
  "An instruction adding attributes is accepted exactly when none of them is currently defined by the preceding instructions, and one removing attributes or properties exactly when all of them are. An instruction list whose version is not the supported one is rejected, and instructions about anything else are accepted.",
  ["histories"],"every history of up to three add/remove instructions over three names, then any instruction",
  "Tests run three fixed histories.",
  [A+"validator.rs"],[("rules",A+"validator.rs")])
p("P15","Conditions keep their meaning and refer only to known attributes",
  "A condition accepted by the validator keeps its text with each ${attribute} replaced by the position of that attribute in its dependency list, each attribute listed once. Condition validation rejects unknown attributes and out-of-range positions with an error, never a crash.",
  ["inputs"],"every condition of up to three placeholders over known and unknown names; every stored condition with arbitrary positions",
  "Tests use one condition with two placeholders.",
  [B+"state/oca/overlay/conditional.rs",B+"state/validator.rs",B+"build.rs"],[("placeholder mapping",B+"state/oca/overlay/conditional.rs, state/attribute.rs"),("checks",B+"state/validator.rs")])
p("P16","Translation enforcement reports exactly the missing translations",
  "With a list of enforced languages, validation looks at each kind of translated overlay (meta, label, information, entry) a bundle has at all. For each it reports exactly every enforced language that is missing, every language present that is not enforced, and every text present in one language and missing in another; with nothing to report it succeeds.",
  ["inputs","configurations"],"every subset of languages present per overlay kind and every enforced subset of three languages",
  "Tests check one missing translation per kind.",
  [B+"state/validator.rs"],[("translation checks",B+"state/validator.rs: enforce_translations, validate_*")])
p("P17","Malformed bundle JSON is an error, never a crash",
  "Loading any JSON text as a bundle returns a bundle or an error. Validating, exporting or extending whatever loads does not crash either.",
  ["inputs","fault_sequences"],"every single structural fault (missing, retyped, renamed or emptied member) in a bundle with all overlay kinds, and byte windows of arbitrary content",
  "Tests load only well-formed bundles and one with a wrong field.",
  [B+"controller.rs",B+"state/oca.rs","semantics/oca-bundle/src/state/oca/overlay",A+"ast/recursive_attributes.rs"],[("loader",B+"controller.rs: load_oca"),("overlay deserialisation",B+"state/oca.rs")])
p("P18","The recorded history of a bundle replays to that bundle",
  "Asking for the history of a built bundle always returns, and returns instructions which, replayed from the oldest, give the bundle; every intermediate identifier named in it is that of the bundle at that step. Where no instruction undoes another or changes nothing, these are exactly the instructions given, in order, those of the bundle named by FROM first.",
  ["histories","programs"],"every sequence of instructions within the bound built into one store, including ones that undo each other or change nothing",
  "Tests ask for the history of one linear build.",
  [O+"facade/build.rs",O+"facade/fetch.rs"],[("history records",O+"facade/build.rs: build_meta, build_step"),("history walk",O+"facade/fetch.rs: get_oca_bundle_steps")])
p("P19","Relations report exactly the objects that belong together",
  "After building bundles, exploring an identifier names its kind and, as relations, exactly the objects built with it. Relation records decode to what was encoded.",
  ["histories"],"every two builds of the generator in one store; every list of relation records",
  "One test explores one bundle.",
  [O+"facade/explore.rs"],[("relation records",O+"facade/explore.rs")])
p("P20","References by name resolve to the named bundle or the build fails",
  "In a successfully built bundle every attribute or link referring to another bundle by name carries the identifier last recorded for exactly that name, at any nesting depth. If a name is unknown the build fails and names it.",
  ["inputs","histories"],"every attribute type of the generator with a by-name reference at any position up to depth three, every set of known names",
  "Tests resolve one reference at top level.",
  [O+"local_references.rs",O+"facade/build.rs"],[("substitution",O+"local_references.rs: replace_refn_with_refs")])
p("P21","Fetching with dependencies returns every bundle referred to, at any depth",
  "Fetching a bundle together with its dependencies returns exactly the bundles reachable through its references, wherever in an attribute type the reference stands. A missing dependency is an error naming it; references that form a chain of any length still end.",
  ["inputs","histories"],"reference graphs of up to three bundles with references at top level, inside arrays and in nested arrays",
  "One test fetches one dependency at top level.",
  [O+"facade/fetch.rs",B+"state/oca.rs"],[("collection of references",O+"facade/fetch.rs: retrive_all_references")])
p("P22","A failed build changes nothing and points at the offending line",
  "When an OCAfile is rejected, nothing it would have produced can be fetched, listed, searched or explored afterwards. Where a line is reported it is that of the offending instruction in the text given.",
  ["inputs","fault_sequences"],"every OCAfile of the generator with one faulty instruction at any position, with comments and blank lines anywhere before it",
  "A test checks one error list; no test looks at the store after a failure.",
  [O+"facade/build.rs",F+"mod.rs",B+"build.rs"],[("validate before build",O+"facade/build.rs: validate_ocafile"),("line numbers",F+"mod.rs: parse_from_string; "+B+"build.rs: from_ast")])
p("P23","A store returns the last value put under a key, per namespace",
  "After any sequence of puts, a get returns the last value put under that key in that namespace and nothing if none was; listing a namespace returns exactly its values. Namespaces never see each other's keys.",
  ["histories"],"every sequence of up to four puts over two namespaces, all keys and values within the bound",
  "Tests put and get single keys.",
  [O+"data_storage.rs"],[("in-memory store",O+"data_storage.rs: InMemoryDataStorage")])
p("P24","The step records of a build chain from the base to the bundle",
  "The records produced for a build name, for every instruction, the capture base, overlay and bundle that exist after it. Each record's parent is the object last recorded for the same bundle, capture base or overlay, and the last record is the built bundle.",
  ["programs","histories"],"every sequence of up to two instructions of every kind",
  "One test counts the records of one build.",
  [D+"lib.rs"],[("record construction",D+"lib.rs: build_core_db_model, apply_step")])
p("P25","Version records replay to the bundle they were recorded for",
  "Building from records gives the same bundle as applying the instructions directly, and records for every step the bundle, the one before it and the instruction, of any length. An unknown or unreadable base, or an instruction which cannot be applied, is an error. A version added to the graph is kept with its parent and among its parent's successors.",
  ["histories","inputs"],"every chain of up to two records with instructions of arbitrary length up to 300 bytes",
  "One test builds one chain of short instructions.",
  [D+"versioning/mod.rs",D+"versioning/ocafile.rs",D+"versioning/bundle.rs"],[("record framing",D+"versioning/ocafile.rs: build_oca")])
p("P26","Transformations carry exactly the renames and links written, and never crash",
  "A transformation parsed from text holds exactly the rename and link pairs written, its source and target, and prints text that parses back to the same. Its identifier is a function of its content, and any text is parsed or rejected without a crash.",
  ["inputs"],"every rename/link instruction with every name within the bound; templates with arbitrary byte windows",
  "One test parses one transformation.",
  [T+"oca-file/src/ocafile/mod.rs",T+"oca-file/src/ocafile/instructions",T+"transformation-file/src/build.rs",T+"transformation-file/src/state/mod.rs"],[("parser",T+"oca-file/src/ocafile"),("builder",T+"transformation-file/src/build.rs")])
p("P27","A built bundle can be fetched, listed and paged exactly once",
  "After a successful build, fetching by identifier returns the built bundle, and listing bundles or capture bases returns every one built, once, with totals that agree. Any page size and page number partition that list without loss or repetition.",
  ["histories","inputs"],"every set of up to three builds, every page size and page number within the bound, zero included",
  "Tests list one or two bundles with one page size.",
  [O+"facade/fetch.rs",O+"repositories/oca_bundle_cache_repo.rs",O+"repositories/capture_base_cache_repo.rs",O+"facade/build.rs"],[("cache tables",O+"repositories/*_cache_repo.rs"),("paging",O+"facade/fetch.rs: fetch_all_oca_bundle")])
p("P28","Full-text search finds a bundle by its own words and only then",
  "A bundle is found by a word of at least three letters which its name or description contains in any language it carries, in any case of letters, and not by a word they do not contain. Any query text returns a result or an empty one without crashing, and paging partitions the results.",
  ["inputs","histories"],"every word within the bound against up to two bundles; every query of arbitrary bytes up to the bound",
  "Tests search one fixed word.",
  [O+"repositories/oca_bundle_fts_repo.rs",O+"facade/fetch.rs"],[("index and query",O+"repositories/oca_bundle_fts_repo.rs")])
p("P29","The precompiler directive alone decides which language a file is read as",
  "A file with the transformation directive is parsed as a transformation and any other as semantics, with the same result as giving it to that parser directly. The directive's position among the comments and blanks around it do not matter; an unknown directive is an error.",
  ["inputs"],"every file of a directive line with arbitrary bytes around it and a body of either language",
  "Three tests with fixed files.",
  ["oca-file/src/ocafile/mod.rs"],[("dispatch","oca-file/src/ocafile/mod.rs: parse_from_string")])
p("P30","Records in a store on disk survive a crash at any point",
  "After a crash at any moment during a build, reopening the on-disk store yields every bundle whose build had returned, and never a half-written record under its key.",
  ["crash_points"],"every crash point during a build with the file-system or embedded-database store",
  "No test kills the process.",
  [O+"data_storage.rs"],[("file-system store",O+"data_storage.rs: FileSystemStorage"),("sled store",O+"data_storage.rs: SledDataStorage")])
p("P31","Evaluating a condition gives what its text says about the record",
  "Evaluating an attribute's condition on a record of values gives the truth value of the condition with the values of the record put for its placeholders, whatever else the record contains. A record that lacks a value the condition refers to, or a condition that is no expression, is an error.",
  ["inputs"],"every condition of the stated forms over two attributes and a constant, all one-digit values, every set of missing values",
  "Tests evaluate two conditions on fixed records.",
  [B+"state/oca/overlay/conditional.rs"],[("evaluation with a Lua interpreter",B+"state/oca/overlay/conditional.rs: check_condition")])
if __name__ == "__main__":
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    open(f, "w").write("".join(json.dumps(x) + "\n" for x in P))
