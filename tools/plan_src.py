"""What decides each property: proof units (contracts/NAME.unit), Kani harness groups, claimed level and note."""
HOOKS = {"guard": "none", "enable": "no hooks"}
NOT_APPLICABLE = []
BOUND = ("The rest is only explored: generated cases through the public API against an independent model, 25 s (quick) or 300 s (thorough).")


def p(level, units, kani, note, assumptions=(), theorems=()):
    return {"level": level, "units": units, "kani": kani, "note": note, "assumptions": list(assumptions), "theorems": list(theorems)}


EXPLORED = ("Assumed: what DESIGN.md and the evidence list as trusted. In addition the public API is explored against an independent model, 25 s (quick) or 300 s (thorough).")
TEXTS = "Trusted: the methods of str (find, strip, split, get, replace, range of a map) mean on characters what std documents. "
META = ["metas", "props", "objects", "segments"]
FILE = META + ["scan"]
CODE = ["numbers", "samples", "strings"]
READ = ["records", "contig", "inter", "block", "reads", "io", "plan", "fills", "exec", "channels", "many", "query", "index", "history", "numbers", "samples"]
SHAPE = ["block", "index", "history", "query"]
SESS = ["append", "session", "emit", "writing"]
# what the statements are about, where it is not the code of this repository
A_MEM = "reserving room for up to 2^32 elements succeeds while the stream is healthy (enough_memory)"
A_SIZE = "sizes fit the address space, and a file has less than 2^63 bytes"
A_EVEN = "the channels of an interleaved segment have as many samples each (else the format does not say where they are)"
A_STREAM = "bytes put out through a writer and flushed are what the stream holds at that position (std::io, BufWriter, a Seek which does what it says)"
A_META = "metadata fits the 32-bit lengths of the format (stored_as_is)"
A_LENGTH = "a channel has fewer than 2^64 samples"
A_SEEK = "a seek which fails during opening ends the file there (File refuses positions behind 2^63, which incomplete segments lead to)"
A_NAMES = "the channels of one call are distinct, and a channel is not asked for twice"
PLAN = {
    "R01": p("proof", FILE + READ, [], "Proved for all inputs: what read_channel and read_channel_from deliver is the window of the samples of the channel, in either layout and byte order, for any start and output (theorem_window); these samples are those the "
             "history of accepted segments says (theorem_opened), and are decoded as the bytes say. " + EXPLORED,
             [A_MEM, A_SIZE, A_EVEN], ["theorem_window", "theorem_opened"]),
    "R02": p("proof", READ, [], "Proved for all inputs: every output of a read of several channels is what a read of its channel alone gives (theorem_together), whatever the other channels and outputs are. " + EXPLORED,
             [A_MEM, A_SIZE, A_EVEN, A_NAMES], ["theorem_together", "theorem_window"]),
    "R03": p("proof", FILE + READ, [], "Proved for all inputs: channel_length gives the number of samples of the channel, none for what is not in the file, and a read large enough delivers exactly these (theorem_length); what a segment adds to it (theorem_counted). " + EXPLORED,
             [A_MEM, A_SIZE, A_EVEN, A_LENGTH], ["theorem_length", "theorem_counted", "theorem_opened"]),
    "W01": p("proof", CODE + SESS + READ + ["disk"], [], "Proved for all sessions: after any number of writes of channels and properties a channel has the samples it had and then its share of every write, in order, bit for bit (theorem_write, theorem_write_others, theorem_props_others, "
             "theorem_session); reads deliver the samples of a channel (theorem_window). " + EXPLORED,
             [A_STREAM, A_SIZE, A_META, A_NAMES, A_MEM], ["theorem_write", "theorem_write_others", "theorem_props_others", "theorem_session", "theorem_window"]),
    "W02": p("proof", FILE + SESS + READ + ["disk"], [], "Proved for all histories of writes: the bytes of any number of emitted segments are scanned as exactly these (theorem_history), and an index which knows what is scanned tells the same objects, properties and samples as the session (theorem_reopened, theorem_opened). " + EXPLORED,
             [A_STREAM, A_SIZE, A_META, A_MEM, A_SEEK], ["theorem_history", "theorem_segment_stored", "theorem_reopened", "theorem_opened"]),
    "W03": p("proof", FILE + SESS + READ + ["disk"], [], "Proved for all files whose last segment is complete: a writer starts behind the last segment and only adds bytes; whatever is appended, scanning finds what it found and then the new segment (theorem_appended), and all samples stay, in front of the new ones (theorem_kept, theorem_session). " + EXPLORED,
             [A_STREAM, A_SIZE, A_META, A_MEM], ["theorem_appended", "theorem_kept", "theorem_session"]),
    "I01": p("proof", SHAPE + FILE, [], "Proved for all inputs: the list of objects after a segment (theorem_list), the format of every object (theorem_formats), the channels and samples its raw data is attributed to (theorem_attributed); a reference to a format which is not there is refused (theorem_missing_format); "
             "an opened file is the history of its accepted segments (theorem_opened). " + EXPLORED,
             [A_MEM, A_SIZE, A_SEEK], ["theorem_list", "theorem_formats", "theorem_attributed", "theorem_missing_format", "theorem_opened"]),
    "P01": p("proof", ["props", "objects", "append"] + SHAPE + FILE, [], "Proved for all histories: a property has the value of the last entry for its path and name, or none (theorem_last_value); entries of other objects, writes of samples and segments which do not name it leave it alone (theorem_other_objects, theorem_write_props, theorem_props_others); "
             "setting properties sets exactly these (theorem_props_set); the queries answer from that, and with an error for an object which is not there. " + EXPLORED,
             [A_MEM, A_SIZE, A_META, A_STREAM], ["theorem_last_value", "theorem_props_set", "theorem_write_props", "theorem_other_objects", "theorem_props_others", "theorem_opened"]),
    "C01": p("proof", CODE + ["records", "metas", "writing"], [], "Proved for all values: every sample type is stored in the size of its type and decodes to itself whatever follows it, in both byte orders (theorem_codec); one order is the other backwards, part by part (theorem_bytes_*); texts (theorem_text); the codes of the types (theorem_codes); "
             "blocks of samples are their samples after each other. " + EXPLORED,
             ["to_le_bytes and from_le_bytes of std, and the bits of floats, are inverse; LVTime of labview-interop keeps sixteen bytes", A_MEM],
             ["theorem_codec", "theorem_text", "theorem_codes", "theorem_bytes_bool", "theorem_bytes_LVTime", "theorem_bytes_ExtendedRaw", "theorem_bytes_Complex_f32", "theorem_bytes_Complex_f64"]
             + ["theorem_bytes_" + t for t in "i8 u8 i16 u16 i32 u32 i64 u64 f32 f64".split()]),
    "C02": p("proof", META + CODE + ["emit"], [], "Proved for all values: metadata, objects, properties and texts come back from their bytes, whatever follows, in both byte orders (theorem_metadata, theorem_object_bytes, theorem_property, theorem_value, theorem_text); the size declared is the number of bytes written. " + EXPLORED,
             [A_META, A_SIZE, A_MEM], ["theorem_metadata", "theorem_object_bytes", "theorem_property", "theorem_value", "theorem_text", "theorem_codec", "theorem_segment_stored"]),
    "H01": p("proof", META + CODE + SESS, [], "Proved for all writes: a segment is tag, flags, version, both offsets, metadata and data, and nothing else (theorem_header); the offsets are the lengths of the parts (theorem_segment_lengths); the flags say what is there (theorem_flags, theorem_flags_props); metadata is left out only "
             "where the list and the formats stand (theorem_no_metadata); segments follow each other without gap (theorem_history). " + EXPLORED,
             [A_STREAM, A_SIZE], ["theorem_header", "theorem_segment_lengths", "theorem_flags", "theorem_flags_props", "theorem_no_metadata", "theorem_history"]),
    "M01": p("proof", FILE + READ + ["strings", "lists", "paths", "convert"], [], "Proved for all bytes: opening a file, listing, querying and reading its channels never panics, overflows or indexes out of range, and every loop ends. "
             "The loops whose turns a file claims are bounded: segments by the bytes of the file (theorem_segments_read), objects and properties by the bytes they are read from (theorem_entries), "
             "chunks and rows of a block by the samples skipped and wanted (an invariant of each reader against `needed`; that every channel asked for has samples in a chunk is a precondition on the way down from execute_read_plan). All other loops go through what these have gathered. " + EXPLORED,
             [A_MEM, A_SIZE, "time is counted in turns of loops: what one turn, one call of std or one reservation takes is not, nor is the sum over nested loops formed"], ["theorem_segments_read", "theorem_entries"]),
    "N01": p("proof", ["paths"], [], "Proved for all texts: what the constructors build, what is accepted as which kind of path and kept, and that names without single quotes "
             "come back (theorem_names), other names give another path (theorem_distinct) and what is accepted has the form of its kind (theorem_forms). " + TEXTS + EXPLORED,
             theorems=["theorem_names", "theorem_distinct", "theorem_forms"]),
    "N02": p("proof", ["lists", "paths"], [], "Proved for every index: the groups listed are those named by the paths of objects, each once; the channels listed of a group are exactly the objects "
             "which are channels of that group, each once (theorem_groups, theorem_group_channels, theorem_nothing_missing). " + TEXTS + EXPLORED,
             theorems=["theorem_groups", "theorem_group_channels", "theorem_nothing_missing"]),
    "T01": p("proof", ["convert", "records", "block", "exec", "channels", "many", "query"], [], "Proved for all inputs: a property converts to exactly the type it holds; the tables of supported types against a table written "
             "from the format description (theorem_types_*); a plan of records whose type does not match is an error, and so is a channel which is not in the file. " + EXPLORED,
             theorems=["theorem_types_" + n for n in "i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool LVTime ExtendedRaw String Complex_f32 Complex_f64".split()]),
    "E01": p("proof", SESS, [], "Proved for all arguments at any point of any session: which writes are refused (theorem_refused); one which is refused returns an error, puts out nothing and leaves the index as it was (contract of write_channels), so all that is read after it is as before (theorem_refusal_kept). " + EXPLORED,
             [A_SIZE], ["theorem_refused", "theorem_refusal_kept"]),
    "E02": p("proof", SESS + READ, [], "Proved at every point of failing: a write whose stream fails reports an error, adds no more than its segment behind what was put out before, and leaves the index and all samples as they were (theorem_failed_write); repeated through a new writer once the stream works, "
             "it makes of the file what it had made of it if nothing had failed (theorem_retry); a sync succeeds only if everything was passed on; a read succeeds only with the right samples, and does not change the index. " + EXPLORED,
             [A_STREAM, A_SIZE, A_META, A_MEM, "what a failed write left in the file is a part, from the start on, of what was put out"], ["theorem_failed_write", "theorem_retry", "theorem_window"]),
    "F01": p("exploration", SESS + FILE, [], "Proved: a sync which succeeds has passed on everything put out before, and a file opened from that has every object, property and sample of the session (theorem_synced, theorem_landed_prefix). Not proved: closing, which is the drop of the writer of std. " + BOUND,
             [A_STREAM, A_SIZE]),
    "L01": p("proof", READ + FILE, [], "Proved for all pairs of files: if both hold the same samples of a channel where their layouts say, in whatever byte orders, layouts, chunks and segments, they read alike (theorem_layouts, theorem_window); metadata repeated or omitted means the same (theorem_repeated, theorem_list_repeated), "
             "and a segment without data between others changes no samples (theorem_between). " + EXPLORED,
             [A_MEM, A_SIZE, A_EVEN], ["theorem_layouts", "theorem_window", "theorem_repeated", "theorem_list_repeated", "theorem_between"]),
}
