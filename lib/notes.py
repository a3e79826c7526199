"""Technique and assurance note of each check, for MANIFEST.json."""
T_LEAF = "TLA+ (TLC): leaf-value specification; generated spellings replayed into the real codecs, recorded reads/writes trace-validated"
A_LEAF = ("TLC enumerates every spelling in the stated bounds and the specification's verdict is compared with the real decoder and encoder; "
          "seeded random traces of the real code are validated event by event. Trusts TLC, the Go toolchain and the harness's canonical projection of values. ")
NOTES = {
 "C22": (T_LEAF, A_LEAF + "Bounds: calendar edges x precisions x zone styles, every whole-minute offset from -12:00 to +14:00, every day of chosen years, single-character damage."),
 "C23": (T_LEAF, A_LEAF + "Bounds: all texts up to 5 characters over a small alphabet, a product of signs/integers/separators/fractions up to 100 decimals, all pairs of short spellings for equality."),
 "C24": (T_LEAF, A_LEAF + "Every constant and every legal name of all 40 enumerated types, each name against every type, and damaged names."),
 "C25": (T_LEAF, A_LEAF + "UIDs of lengths 0-60 with hyphens at any subset of nine places; random UIDs: shape, spread of every digit over two processes, no repeats."),
 "C26": (T_LEAF, A_LEAF + "All short texts over small alphabets, 64-bit limits, all sequences of up to three (thorough: four) wire pieces with entities."),
}
NA = {}
T_DOC = ("TLA+ (TLC): reader and writer of OFX documents as token-level transition systems over a schema of every aggregate; "
         "generated and damaged documents replayed into the real decoder and its result compared with the model's projection")
A_DOC = ("The model's verdict (accepted with exactly this content / rejected) is compared with DecodeResponse and ParseResponse, whole and delivered in small pieces. "
         "Trusts TLC, the Go toolchain, the schema tables (written from the OFX specification and the API documentation) and the harness's projection of values. ")
NOTES.update({
 "C12": (T_DOC, A_DOC + "Bounds: every ordered pair of message sets with repeats, every message and set tag in every place of one-set documents, seeded random plans of up to 7 sets, signon set missing/late/double."),
 "C13": (T_DOC, A_DOC + "Bounds: every element, enumerated name and list alternative of every response aggregate, and seeded dense documents; foreign elements injected at sampled places (every place in the thorough tier)."),
 "C14": (T_DOC, A_DOC + "Bounds: every element in unclosed, partly closed and closed 1.x form with four white-space habits; seeded documents in twelve spellings each."),
 "C15": (T_DOC + "; decoded responses are marshalled and parsed twice", A_DOC + "Bounds: a valid document for nearly every element and list alternative, seeded valid documents in all eleven versions."),
 "C16": (T_DOC, A_DOC + "Bounds: every alternative of every mixed list alone and with neighbours; strangers injected at sampled places of documents with mixed lists."),
 "C17": (T_DOC + "; randomly damaged documents recorded and trace-validated by the same reader", A_DOC + "Bounds: 14 kinds of token damage at sampled places, every byte prefix of sampled documents, thousands of documents with random token and byte damage."),
})

T_VAL = ("TLA+ (TLC): validity rules of OFX over abstract objects; TLC changes valid objects step by step and its verdict for every version is compared with "
         "the Valid methods and Marshal of objects built from the real types")
A_VAL = ("Objects are the real Go types, filled by reflection from the model's projection. Trusts TLC, the Go toolchain, the rules in OfxValid.tla and OfxStatus.tla (from the OFX "
         "specification and the library's documented behaviour) and the harness's builder. ")
NOTES.update({
 "C07": (T_VAL, A_VAL + "Bounds: every message kind in every slot, valid or not, sampled sequences of two (thorough: three) messages, all eleven versions and unsupported numbers; objects with every message kind under one change, bank objects under sampled pairs."),
 "C18": (T_VAL + "; here well-formed documents with any number of invalid parts are parsed and the reported errors counted", A_VAL + "Bounds: seeded documents of up to 10 message sets with 0-10 invalid parts in several versions."),
 "C19": (T_VAL, A_VAL + "Bounds: rich statements under every single change (unset, boundary and illegal values, added alternatives) and sampled pairs (thorough: triples), all versions."),
 "C20": (T_VAL, A_VAL + "Bounds: requests of every kind under every single change and bank requests under sampled pairs (thorough: triples), lengths at each limit in bytes, all versions."),
 "C21": (T_VAL, A_VAL + "Every code from -2 to 17000 (thorough: 100000) and 64-bit limits x severities in several spellings; statuses inside responses under single changes."),
})

NOTES["C11"] = ("TLA+ (TLC): header grammar as a specification; headers put together with up to two deviations are parsed in front of bodies that tell the syntaxes apart; "
                "randomly damaged headers are recorded and trace-validated",
                "Every single deviation from the prescribed header in all eleven versions and a pseudo-random share of the pairs (thorough: more pairs, triples), thousands of headers with "
                "random character damage. XML declarations outside a list of common ones and headers longer than the reader's buffer are left free. Trusts TLC, the Go toolchain and the header grammar.")

T_WIRE = ("TLA+ (TLC): the content a marshalled object must have is specified as a function of the object; TLC generates requests, the harness builds and marshals them with the real "
          "library, and TLC validates every document written against the specification")
A_WIRE = "Trusts TLC, the Go toolchain, the schema tables, the header grammar and the harness's tokenizer and builder. "
NOTES.update({
 "C08": (T_WIRE, A_WIRE + "Bounds: every element and enumerated name of every request aggregate alone and with all that follows it, seeded random requests of up to six plans of message sets, each in several versions and layouts (thorough: 12)."),
 "C09": (T_WIRE + ", all its variants together", A_WIRE + "The same requests in 7 (thorough: all 44) combinations of version, indentation and line ends."),
 "C10": ("TLA+ (TLC): histories of edits, layouts, breakages and marshals over several live objects; each is executed on real objects and every document compared (trace validation) with what a "
         "process of its own writes for that object state", "Bounds: all histories of three steps over two objects and four over one (thorough: one more, sampled), simulated histories of 60 steps over six objects; six versions/layouts. "
         "Objects are compared before and after each marshal; returned documents are looked at again at the end of each history. " + A_WIRE),
})

T_NET = ("TLA+ (TLC): the exchange between caller, client and servers as a state machine whose behaviours (answers of every kind, redirects, cookies, failures, histories of calls) "
         "are generated and replayed with the real clients against real TLS servers on the loopback, every request seen and every return value compared")
A_NET = "Trusts TLC, the Go toolchain, net/http's and crypto/tls's conformance to HTTP, and the harness's servers, which log what they read off the wire. "
NOTES.update({
 "C01": (T_NET, A_NET + "Every step is also an invariant of the specification (nothing sent unless the scheme is TLS and the certificate verified). Bounds: chains of up to three redirects to every kind of target, plaintext and untrusted servers, all client kinds."),
 "C02": ("TLA+ (TLC): histories of sends of shared request objects through clients of all configurations are generated, executed and the bytes received by the servers trace-validated", A_NET + "Bounds: histories of up to three sends and edits over two objects, simulated longer ones."),
 "C03": (T_NET, A_NET + "Bounds: every answer kind (status x body x framing x failure point) for single calls, sampled redirect chains and histories."),
 "C04": (T_NET, A_NET + "Bounds: every pair of first and second answers over status, length, cookies and failure; sampled histories of calls."),
 "C05": (T_NET + "; open connections are counted at the servers after repeated calls", A_NET + "Bounds: every answer kind repeated, sampled mixtures; a leak must show as a growing number of open connections or unclosed bodies."),
 "C06": ("TLA+ (TLC): URLs near the institutions' and configurations are enumerated with the client and accessor values each must give; replayed into GetClient and the constructors", "Bounds: every single and sampled double edit of the known URLs, every configuration with values set and unset. Trusts TLC, the Go toolchain."),
})
NOTES.update({
 "C27": ("TLA+ (TLC): programs of pairs of library operations; each pair is run side by side by many goroutines under the race detector, and step by step in every enumerated interleaving (readers, messages and "
         "servers that wait for their turn); what each operation returns is trace-validated against what it returns alone",
         "Bounds: every ordered pair of 18 operations (parse, damaged parse, marshal, Valid, send through each client kind, client selection, leaf values, statuses, UIDs), interleavings of up to four steps each "
         "(sampled 1 in 5 quick; thorough: all, and threes). Schedules inside one step are the Go scheduler's. Trusts TLC, the Go toolchain and its race detector."),
})

T_CLI = ("TLA+ (TLC): runs of the ofx tool (command, flags, server's answer, output file) are generated from the specification with what must come of each; replayed with the real binary against local TLS servers; "
         "requests received or printed are trace-validated by TraceCli")
A_CLI = "The binary is built from /repo and run in scratch directories. Lines are matched by their values in order, not by their layout. Trusts TLC, the Go toolchain, the harness's servers. "
NOTES.update({
 "C28": (T_CLI, A_CLI + "Bounds: every element of the statement aggregates (sampled 1 in 6 in quick), smallest, largest and random statements in 1.x and 2.x, plans with other message sets, every status code (sampled in quick) in signon and message with and without a body, every kind of failing answer."),
 "C29": (T_CLI, A_CLI + "Bounds: every value of a table of flag values alone, every needed flag left out, seeded combinations of flags; every reply kind x framing x output file kind."),
 "C30": (T_CLI, A_CLI + "Bounds: dry runs as C29; detect-settings accepted at sampled positions of all 1188 requests and never, refusals of 11 kinds in turn; the delay flag is 0."),
})
