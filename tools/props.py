"""Per-property configuration of the checks (used by check.py and mkmanifest.py)."""
X = "exploration"

# quick: cases per unit of weight and process; thorough: rounds of as many, with other seeds
def c(quick, thorough, rule, level=X, **kw):
    return dict(quick=quick, thorough=thorough, rule=rule, level=level, **kw)

GEN = ("Types are drawn (reflect.StructOf structs with drawn fields, tags, pointers, lists, named types, types with custom "
       "representations, static recursive types; top-level non-structs), then values of them, on a drawn codec (registered "
       "interfaces and concretes, colliding prefixes, always-disambiguate). ")

CHECKS = {
 "C01": c(9000, 24, GEN + "A case is one value encoded, decoded and compared with its independently computed normal form; "
          "non-trivial: the encoding has at least 2 bytes; distinct by type and bytes."),
 "C02": c(9000, 24, GEN + "A case is one value whose encoding is compared byte for byte with an independent reference encoder; "
          "non-trivial: at least 2 bytes; distinct by type and bytes."),
 "C03": c(4500, 24, "Proto3 message types are drawn at run time (scalars of every kind, enums, timestamps, nested and repeated messages), with the "
          "corresponding Go struct for amino; a case is one drawn message value encoded by both amino and golang/protobuf and decoded crosswise; "
          "non-trivial: at least 2 bytes; distinct by type and bytes.", technique="property-based differential testing (rapid) against golang/protobuf"),
 "C04": c(6000, 24, GEN + "A case is one value and a second, logically equal representation of it on another codec with other registration order and history "
          "(or, for injectivity, a mutated value); non-trivial: at least 2 bytes; distinct by type and bytes.",
          technique="metamorphic property-based testing (rapid): equal content, other representation or history"),
 "C05": c(4000, 24, GEN + "A case is one registered value inside one or more interfaces, or at the top level, encoded, compared with the prefix bytes computed from the name, "
          "decoded and compared in type and value, or one name/prefix that must be refused; non-trivial: an interface value was written; distinct by type and bytes."),
 "C06": c(14000, 24, "A case is one drawn history of registrations (legal and illegal), Seal, uses and PrintTypes on one codec, followed step by step by a model of the registry; "
          "non-trivial: at least two successful registrations and a rejected one; distinct by history.", technique="stateful model-based property testing (rapid)"),
 "C09": c(8000, 24, GEN + "A case is one corruption of a valid encoding (or one framing corruption) whose acceptance is compared with an independent strict decoder; "
          "non-trivial: the reference rejects it, or accepts at least 2 bytes; distinct by type and bytes.",
          technique="structured mutation fuzzing (rapid) against an independent strict decoder"),
 "C10": c(7000, 24, GEN + "A case is one accepted input (canonical or corrupted) decoded, re-encoded, decoded and re-encoded, compared with an independent decoder; "
          "non-trivial: accepted with at least 2 bytes; distinct by type and bytes.",
          technique="structured mutation fuzzing (rapid) with a round-trip and a reference decoder as oracles"),
 "C13": c(8000, 24, GEN + "A case is one value through JSON and back, plain and indented; non-trivial: the document has at least 5 bytes; distinct by type and document."),
 "C14": c(9000, 24, GEN + "A case is one value whose document is compared with an independently computed one; non-trivial: at least 5 bytes; distinct by type and document."),
 "C15": c(9000, 24, GEN + "A case is one corruption of a valid document whose acceptance is compared with an independent strict reader; scalar literals are enumerated against every scalar kind; "
          "non-trivial: the reference rejects it; distinct by type and document.",
          technique="structured mutation fuzzing (rapid) against an independent strict JSON reader"),
 "C07": c(4000, 24, "A case is one byte string (a corrupted encoding, structured soup, a piece repeated thousands of times, or thousands of nested levels) given to one entry "
          "point and target type, or to every exported primitive decoder; checked: no panic, no endless loop (CPU time), bytes allocated below a bound linear in the input. "
          "Non-trivial: at least 2 bytes; distinct by type and bytes.", limited=True, technique="structured fuzzing (rapid) with crash, CPU and allocation oracles"),
 "C08": c(3000, 24, "A case is one text (a corrupted document, token soup, long or deeply nested documents) decoded into one target type; checked: no panic, no endless loop, "
          "bytes allocated below a bound linear in the input per nesting level. Non-trivial: at least 2 bytes; distinct by type and text.", limited=True,
          technique="structured fuzzing (rapid) with crash, CPU and allocation oracles"),
 "C11": c(5000, 24, "A case is one framed value through the writer forms (failing writers included), one stream of messages read through a chunking reader under drawn size limits, or one faulty "
          "stream (cut, failing, malformed or lying length, bad body); checked against the bytes handed out by the reader. Non-trivial: more than one message, more than 2 bytes, or a fault; distinct by bytes.",
          technique="property-based testing (rapid) with fault-injecting readers and writers"),
 "C12": c(1800, 24, GEN + "A struct type is drawn and a second one with appended fields, both inside drawn wrapper shapes (pointers, lists, arrays, interfaces, top level); a case is one value written "
          "as one and read as the other; non-trivial: more than 2 bytes; distinct by types and bytes.", technique="metamorphic property-based testing (rapid) over pairs of generated types"),
 "C16": c(7000, 24, "Types (exported and unexported fields, pointers, lists, arrays, maps, interfaces, types with DeepCopy or with MarshalAmino/UnmarshalAmino in value and pointer form) and values are drawn; "
          "a case is one value copied and compared with an independent copy, with the address ranges of both checked for overlap, and scribbled over; non-trivial: something copied by reference; distinct by type and value.",
          technique="property-based testing (rapid) with a reference copier and address-range disjointness"),
 "C17": c(7000, 24, GEN + "The type has a custom representation at a drawn position and a twin type with the representation in its place; a case is one value of both, encoded and decoded, or one failing method; "
          "non-trivial: at least 2 bytes; distinct by type and bytes.", technique="metamorphic property-based testing (rapid): custom type against its representation"),
 "C18": c(350, 24, "A case is one shared codec (or the package-level functions) and 2 to 6 goroutines released together, each running the same drawn operations in its own order, with results "
          "compared to those computed alone, under the race detector; or one call during which methods of the value, a reader or a writer call the same codec; or goroutines that register (also types, names and prefixes that exclude each other) and seal while others use the codec; distinct by operations and plans.", race=True, maxprocs=4, shards=4,
          technique="concurrent history generation (rapid) under the Go race detector, with sequential results as the oracle"),
 "C19": c(9000, 24, "The exported primitive coders and prefix functions: a case is one value of one primitive (powers of two and neighbours enumerated, others drawn), encoded, measured with "
          "its Size function, compared with an independently computed encoding and decoded with trailing bytes, every truncation of it, or an arbitrary byte string whose acceptance, value and length "
          "are compared with an independent decoder; non-trivial: at least 2 bytes; distinct by primitive and bytes.",
          technique="property-based testing (rapid) of the primitives with an independent codec, boundaries enumerated"),
 "C20": c(2000, 24, GEN + "A case is one value encoded (argument, its spare capacity and its neighbours compared before and after, result scribbled over), one input decoded (input compared before and "
          "after and then scribbled over, result compared), or one value decoded into a variable with other contents; non-trivial: at least 2 bytes; distinct by type and bytes.",
          technique="metamorphic property-based testing (rapid): mutate inputs or results afterwards and compare"),
 "C21": c(9000, 24, "Instants over the whole range of years 1 to 9999 with boundary seconds and nanoseconds, in several zones, outside it, and wire forms of times (fields missing, swapped, repeated, out of range), "
          "in drawn positions; a case is one of them encoded and compared byte for byte with an independent encoder, decoded and compared as an instant, or refused; non-trivial: not the zero time; distinct by type and bytes.",
          technique="property-based testing (rapid) with an independent codec for times, boundaries enumerated"),
 "C22": c(1500, 24, GEN + "A case is one value (or input) through all exported forms that must agree: package level and method, Must and plain, bare and length-prefixed, writer and reader, value and pointer "
          "argument, JSON and indented JSON, and targets with several levels of pointers; non-trivial: at least 2 bytes; distinct by type and bytes.",
          technique="differential property-based testing (rapid) between the exported forms"),
 "C23": c(700, 24, "The aminoscan binary is run on drawn wire messages, malformed ones and names; a case is one run whose output is parsed and compared with an independent scanner; non-trivial: at least 2 bytes; distinct by arguments.",
          technique="property-based testing (rapid) of the built binary against an independent scanner"),
 "C24": c(600, 24, "A case is one value that has no encoding (floats without unsafe, maps, channels, functions, complex numbers, unregistered interfaces and concrete types, nil pointers in interfaces and "
          "empty_elements lists, lists too deep), at a drawn position in a drawn type, refused by a drawn encoder one or more times, and then the codec compared with a fresh one on drawn probes and registered on; or the encoding of a value of a drawn type, decoded into the same type with such a kind in its place, where it must be refused; "
          "distinct by type, value and registrations.", technique="stateful property-based testing (rapid): rejected operations, then differential probes against a fresh codec"),
 "C25": c(4000, 24, GEN + "A case is one value with a type that has MarshalJSON and UnmarshalJSON (in several kinds, with MarshalAmino beside them, or one that records and returns any drawn JSON text) at a drawn "
          "position, encoded and compared with an independent encoder, and decoded from the plain, reordered and indented document; or one with failing methods; or the same type in binary; or a type whose methods are the pointer's, compared with its twin; non-trivial: the document has at "
          "least 5 bytes; distinct by type and document.", technique="property-based testing (rapid) with an independent JSON encoder and recorded pieces of the document"),
 "C26": c(300, 24, "A case is one value (drawn, or up to 300 levels of one of eight ways of nesting, or a list, map or string of up to 30000 elements) encoded, decoded or copied while the bytes allocated are counted and compared with a bound linear in the value and its "
          "encoding per level; a runaway is ended by the CPU limit, and a list 100 times as long may not take 500 times the CPU time (and more than 2 s); non-trivial: more than two levels, or long; distinct by type, operation, size and depth.", limited=True,
          technique="property-based testing (rapid) with allocation and CPU oracles"),
}
