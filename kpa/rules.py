"""Property table."""
from . import rules_flow as F
from . import rules_crypto as C
from . import rules_stream as S
from . import rules_xml as X
from . import rules_model as M
from . import rules_refs as R
from . import rules_protect as O
from . import rules_json as J
from . import rules_kdb as K
from . import rules_zip as Z
from . import rules_tree as T
from . import rules_bounds as B
from . import rules_codec as D
from . import rules_loops as L

ASSUMPTIONS = ["pugixml, zlib, OpenSSL and the C++ library behave as documented",
               "allocation failure is outside the analysis",
               "element pointers stored in the model's containers are non-null"]

RULES = {
    "P01": (X.xml_roundtrip, "correspondence of document places, codecs and conditions between the XML writer and reader"),
    "P02": (K.kdb_records, "typestate of the record framing and value-flow correspondence between record fields written and read"),
    "P03": (C.header_faithful, "value-flow correspondence between header records written and read"),
    "P04": (C.key_recipe, "value numbering of the key derivation in both directions, compared modulo header fields"),
    "P05": (C.import_verified, "must-hold facts at the successful return of both imports, and read-status analysis"),
    "P10": (C.confidential, "information-flow analysis from model and key to unencrypted sinks"),
    "P21": (J.json_output, "JSON recogniser run over the output events of every path, with classes of text pieces"),
    "P22": (C.key_file, "path facts at the stores that change the key"),
    "P06": (S.checksummed_blocks, "must-hold facts where verified bytes are released; value numbering of written blocks"),
    "P07": (S.block_chaining, "value numbering of the chaining loop, finite evaluation of the padding conditions"),
    "P08": (F.write_checked, "write-status analysis over the event graph of both exporters"),
    "P09": (F.dest_late, "ordering analysis: destination opened after all fallible preparation"),
    "P11": (F.exceptions, "exception-effect analysis of the public operations"),
    "P12": (F.no_abort, "reachability and dependence of assertions and aborts"),
    "P13": (F.null_safe, "nullness analysis of the data model's pointers"),
    "P16": (F.no_shared_state, "effect analysis for shared mutable state"),
    "P14": (M.read_only, "effect analysis of the read-only operations"),
    "P15": (M.reusable, "read-before-reset analysis of the file objects"),
    "P17": (M.comparison, "conditional constant propagation of every comparison operator under assumed differences"),
    "P18": (M.accessors, "symbolic results of accessors, constructors, copies and moves"),
    "P19": (F.initialised, "definite initialisation"),
    "P20": (lambda c, rep: (O.protected_stream(c, rep), D.keystream(c, rep)), "order and value-flow analysis of the keystream uses on both sides of the document, bit-level value flow of the combination itself"),
    "P23": (T.stored_sizes, "range facts at narrowing conversions, counting of records written, pairing of sizes with writes"),
    "P24": (T.kdb_tree, "inductive invariant over the level table, checked on the loop's transfer function; value flow of the numbers"),
    "P25": (Z.compressed, "typestate of the compression stream object: finite evaluation of path conditions over step results"),
    "P27": (B.buffer_bounds, "linear (polyhedral) bounds analysis of every subscript and bulk access, with inductive size relations"),
    "P28": (D.base64_codec, "bit-level value-flow analysis (canonical value graphs) of encoder and decoder against RFC 4648"),
    "P29": (D.ciphers, "bit-level value-flow analysis (canonical value graphs) of the ciphers against their published definitions"),
    "P30": (L.loops_end, "ranking-function and progress analysis of every loop over the interpreted program (counter ranges, advancing positions, consuming transfers)"),
    "P31": (L.nesting_bounded, "recursion analysis over the call graph: depth parameters against constant limits at every recursive call"),
    "P26": (R.references, "value-flow analysis of identifier lookups: pool contents, keys and order"),
}
