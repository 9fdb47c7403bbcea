#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are reviewable)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public API of the crate"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CR="src/file/channel_reader.rs"; RD="src/raw_data/mod.rs"; CT="src/raw_data/contigious_multi_channel_read.rs"; IL="src/raw_data/interleaved_multi_channel_read.rs"; RC="src/raw_data/records.rs"
IB="src/index/building.rs"; IM="src/index/mod.rs"; IW="src/index/writing.rs"; IQ="src/index/querying.rs"; FW="src/file/file_writer.rs"; FM="src/file/mod.rs"; MD="src/meta_data.rs"; PR="src/properties.rs"; WR="src/io/writer.rs"; RE="src/io/reader.rs"; DW="src/raw_data/write.rs"; PA="src/paths.rs"; DT="src/io/data_types/mod.rs"

p("R01","A window read returns exactly the stored samples",
 "For every well-formed file, every channel of a fixed-size sample type, every start sample and every output length, reading that channel from that start fills the first min(output length, samples stored after the start) output elements with exactly the channel's stored samples in file order. Every output element beyond those is left untouched, and a start at or after the end of the channel is not an error. It holds however the samples are spread over segments, repeated chunks, interleaved or contiguous layout, and little- or big-endian segments.",
 ["inputs","configurations"],"all well-formed files (segment/chunk/channel structure, layout, byte order, fixed-size sample type; the channels of an interleaved segment have equal lengths), all start samples, all output lengths",
 "The tests read a handful of hand-made buffers with one or two segments at a few offsets; the guarantee is over every split of the samples into segments and chunks and every start and length.",
 [CR,RD,CT,IL,RC],[("read plan: which blocks and how many samples to skip per channel",CR+" read_plan"),("per block sample counts and output windows",CR+" execute_read_plan, get_block_sample_counts, get_block_read_data"),("contiguous and interleaved block readers",CT+" read; "+IL+" read"),("record plan",RC+" build_record_plan")])
p("R02","Reading several channels together equals reading each one alone",
 "Reading any set of distinct channels in one call, from any common start and with output slices of any (also differing) lengths, gives in every output exactly what reading that channel alone from that start into that output gives. This includes channels that are absent from some segments, that end at different places, and channels listed in another order than in the file.",
 ["inputs","configurations"],"all well-formed files, all selections and orders of distinct channels of one sample type, all common starts, all combinations of output lengths",
 "Tests cover a few two-channel reads with equal outputs; the relation quantifies over every combination of channels, output lengths, and block membership.",
 [CR,RD,CT,IL,RC],[("per channel progress",CR+" ChannelProgress, execute_read_plan"),("per channel skip inside a block",RD+" read_with_per_channel_skip; "+RC+" set_block_skip")])
p("R03","The reported channel length equals the number of retrievable samples",
 "For every well-formed file the reported length of a channel equals the number of samples stored for it over all segments and chunks, which is exactly how many samples a sufficiently large read delivers. An object without data reports zero, and an object that is not in the file reports no length.",
 ["inputs","histories"],"all well-formed files and all write histories; every object path",
 "The tests check lengths for a few fixed indexes; repeated chunks, format changes and objects re-entering the active list are unbounded combinations.",
 [IM,IB,RD],[("sample count per data location",IB+" insert_data_block"),("chunk count",RD+" chunk_size, number_of_chunks"),("sum over locations",IM+" channel_length")])
p("W01","Samples written in a session read back in write order",
 "After any sequence of successful channel writes (any channels, layouts, sample types, lengths, and changes of the channel list or length between writes) interleaved with property writes, reading any channel from the same open file returns the concatenation, in write order, of the samples given for that channel. In an interleaved write sample k of channel j is value k*n+j of the values passed for n channels; in a contiguous write it is value j*m+k, with m samples per channel.",
 ["histories","inputs"],"all sequences of writes over all channel lists, layouts, fixed-size sample types and lengths, through one or more writers",
 "Tests write one to three segments with doubles; the guarantee is over unbounded histories in which each write's metadata depends on everything written before.",
 [FW,IW,IB,WR,DW],[("choice of metadata for the next segment",FW+" DataStreamWriter::new; "+IW+" check_write_values"),("index update after the write",FW+" end_stream; "+IB+" add_segment"),("raw data writing",DW+" WriteBlock")])
p("W02","Reopening a written file gives the same contents",
 "After any sequence of successful writes, opening a file from the bytes produced gives the same objects, property values, channel lengths and samples as the session that wrote them reports.",
 ["histories"],"all sequences of channel and property writes, in one or several sessions",
 "Session state and file bytes are produced by different code paths and can drift apart; tests re-open only a few short histories.",
 [FW,IW,WR,MD,IB,FM],[("segment writing",WR+" write_segment"),("segment reading and indexing",FM+" build_index; "+MD+" Segment::read"),("in-session index update",FW+" end_stream")])
p("W03","Appending never disturbs what the file already held",
 "Opening any well-formed file and writing more to it leaves every byte of the existing segments unchanged, keeps every sample and property already stored readable as before, and makes the new samples follow the existing ones. This holds for existing files in either byte order and layout.",
 ["histories","inputs"],"all well-formed existing files (any producer, byte order, layout), all later write sequences",
 "Tests append to files the library itself just wrote; the existing content and its live channel list are unbounded.",
 [FM,FW,IW,IB],[("start position of the new segment",FM+" writer; "+IM+" next_segment_start"),("metadata reuse against the live list",IW+" check_write_values")])
p("I01","Incremental metadata is resolved as the format defines",
 "When a file is opened, each segment's raw data is attributed to the channels and formats that the format's incremental rules define: a new-object-list flag starts an empty list, otherwise the previous list is kept in order with new objects appended; an object keeps its most recent format when it says so or is not mentioned; and a segment without metadata reuses list and formats unchanged. A reference to a previous format that does not exist is an error.",
 ["inputs","histories"],"all sequences of well-formed segments with and without metadata, new lists, repeated, changed and re-activated objects",
 "Tests cover eight hand-made two-segment cases; the resolution depends on the whole history of segments.",
 [IB,IM,MD,RE],[("active list maintenance",IB+" add_segment, update_or_activate_data_object"),("metadata flag handling",RE+" read_segment"),("latest format per object",IM+" ObjectData::update")],
 [("active objects","channels with data in the next block, in order",IB),("latest data format","last explicit raw data index per object",IM)])
p("P01","The last written value of a property wins and nothing else changes",
 "After any history of property writes and segments, reading a property returns the most recently stored value for exactly that object path and name, or nothing if it was never stored. The listing of an object's properties is exactly the set of names stored for it with their latest values, asking for a property of an object that is not in the file is an error, and writing properties to one object never changes the properties, formats or samples of any other object.",
 ["histories","inputs"],"all sequences of property writes and loaded metadata over all object paths, names and values",
 "Tests overwrite one or two properties once; unbounded histories and collisions between objects and names are not reached.",
 [IM,IB,FW,PR],[("property merge",IM+" ObjectData::update"),("property lookup",IM+" get_object_property, get_object_properties")])
p("C01","Every value encodes and decodes to itself in both byte orders",
 "For every fixed-size type, every value is stored in exactly the number of bytes the format gives its type, in the byte order requested, and decoding those bytes gives the value back bit for bit; strings are stored as a 32-bit length and their bytes and decode to themselves. Every type code of the format maps to its type and back, and the size reported for a type equals the bytes a value of that type occupies.",
 ["inputs"],"all values of all supported types, both byte orders; all 2^32 type codes",
 "Tests check one or two example values per type; symbolic full-domain contracts cover every bit pattern.",
 ["src/io/data_types/native_numerics.rs","src/io/data_types/bool.rs","src/io/data_types/complex.rs","src/io/data_types/extended.rs","src/io/data_types/timestamp.rs","src/io/data_types/strings.rs",DT],[("storage type implementations",DT+" TdmsStorageType"),("type codes and sizes",DT+" DataType")],hook="re-export of crate-private items under cfg")
p("C02","Metadata encodes and decodes to itself and to exactly its declared size",
 "For every segment metadata (any number of objects, any UTF-8 paths and property names, every property type and value, every kind of raw data index of fixed-size types), writing it produces exactly the number of bytes it declares, in the layout the format defines, and reading those bytes back in the same byte order gives an equal value and consumes exactly those bytes.",
 ["inputs"],"all metadata values; both byte orders",
 "Tests encode three small objects; the declared size feeds the segment offsets, so one wrong byte for one property type corrupts the file.",
 [MD,PR,WR,RE],[("metadata read/write/size",MD+" TdmsMetaData"),("property read/write/size",PR+" TdmsMetaData for PropertyValue")],hook="re-export of crate-private items under cfg")
p("H01","Every segment written has a header that matches its bytes",
 "After any sequence of writes the stored bytes are exactly a sequence of segments with no gap or overlap: each starts with the lead-in tag, has flags that tell whether metadata, raw data, interleaving and a new object list are present, a metadata length equal to the metadata bytes that follow and a segment length equal to metadata plus raw bytes. The raw bytes are exactly the values written, in the declared layout and byte order.",
 ["histories","inputs"],"all write histories",
 "Tests compare one or two segments byte for byte; sizes and flags depend on every type and on the history of writes.",
 [WR,MD,DW,FW],[("segment writing",WR+" write_segment"),("ToC bits",MD+" ToC::as_bytes"),("raw block size",DW+" WriteBlock::size")])
p("M01","Malformed input is answered with an error, never a panic or a hang",
 "Opening any sequence of bytes as a file, and then listing, querying and reading whatever it claims to hold, returns a result or an error. It never panics, overflows, divides by zero or indexes out of range, and its running time is bounded by the file size and the samples and start position requested, never by sizes the file merely claims.",
 ["inputs"],"all byte strings; all channels, starts and output lengths of at most a few thousand samples",
 "Tests feed two or three corrupt headers; header fields are 64-bit and combine.",
 [MD,IB,IM,RD,CT,IL,RC,CR,"src/io/data_types/strings.rs"],[("checked segment arithmetic",MD+" total_size_bytes; "+RD+" from_segment, chunk_size"),("fallible allocation",RE+" read_vec; "+MD+" ObjectMetaData::read"),("bounded block loops",CT+" read; "+IL+" read")])
p("N01","Object paths build and parse back to the same names",
 "For all group and channel names without single quotes (any other characters, including slashes, double quotes, spaces, empty and non-ASCII names), the path built from them parses back to exactly those names, and distinct (group, channel) pairs give distinct paths. A path text accepted as an object path is kept verbatim, and text that is not the root, a group path or a channel path is rejected as the kind it is not.",
 ["inputs"],"all names and all candidate path strings",
 "Tests try a few ASCII names and one quote; names are arbitrary strings containing the separators themselves.",
 [PA],[("escaping and parsing",PA+" escape_name, split_names, parse_path, parse_name"),("conversions",PA+" TryFrom")])
p("N02","Group and channel listings are exactly what the file contains",
 "For every file, the group listing contains the name of every group that occurs in any object path exactly once and nothing else. Listing the channels of a group gives exactly the channel paths whose group is that group, each once, in particular none of a group whose name merely starts with the same text, and never the group itself.",
 ["inputs","histories"],"all sets of object paths, including groups that are prefixes of each other and groups never written explicitly",
 "Tests list two or three well separated groups; prefix collisions, escaped names and implicit groups are not enumerated.",
 [FM,IQ,PA],[("path range query",IQ+" paths_starting_with"),("listing",FM+" list_groups, list_channels_in_group")])
p("T01","Reading as the wrong type or a missing object is an error, never wrong data",
 "Reading samples of a channel as a sample type which does not support the stored type is an error, for every pair of stored and requested types, and a read of stored samples succeeds only for a matching type; reading a channel that is not in the file is an error. A property converts to a Rust type exactly when it holds that type, then giving exactly the stored value, and otherwise is an error.",
 ["inputs"],"all pairs of stored and requested types; all property values and conversion targets",
 "Tests try one mismatching pair; the table of types is 17x14 and is consulted per block.",
 [RC,PR,DT,CR],[("type check of the read plan",RC+" validate_types_match"),("property conversions",PR+" TryFrom"),("supported types",DT+" SUPPORTED_TYPES")])
p("E01","A rejected write leaves the file and the session unchanged",
 "A channel write that is refused because of its arguments (no channels, no values, a value count not divisible by the channel count, or a type that cannot be stored) returns an error, leaves the stored bytes unchanged, and leaves everything the session reports and every later write and read exactly as if the call had not been made.",
 ["inputs","histories"],"all invalid argument combinations at every point of every write history",
 "Tests check that an error is returned, not that nothing was written and that later writes still line up.",
 [FW,DW],[("argument checks before writing",FW+" DataStreamWriter::new; "+DW+" from_slice")])
p("E02","A failed I/O operation never corrupts what was there before",
 "If the underlying stream fails during a channel or property write, or during the sync after it, one of these calls reports an error and every byte of the segments synced before is unchanged. A write that reports an error leaves everything the session reports as it was before that call and, when everything earlier was synced, repeating it through a new writer once the stream works again gives the same contents as if nothing had failed. If the stream fails during a read, the read reports an error and later reads are unaffected.",
 ["fault_sequences","histories"],"a failure at every byte position of the stream during any write or read of any history",
 "No test injects an I/O error.",
 [FW,FM,IB,WR,CR],[("index update only after the segment is written",FW+" write_channels, end_stream, write_properties"),("writer start position",FM+" writer")])
p("F01","Synced writes are in the stream",
 "When syncing the writer or closing it succeeds without an I/O error, every segment written before is completely in the underlying stream: the bytes in the stream at that moment open as a file with exactly the contents written so far.",
 ["crash_points","histories"],"the process stopping right after any sync or writer close in any write history",
 "Tests read from the same process through the same buffers and never look at the stream at the moment of the sync.",
 [WR,FW],[("flush of the buffered writer",WR+" sync"),("ownership of the buffered writer",FW+" TdmsFileWriter")])
p("L01","The physical layout of a file does not change its contents",
 "The same logical contents stored with either byte order, either layout, with metadata repeated or omitted where the format allows, as repeated chunks of one segment or as separate segments, or with header and property segments in between, read back as the same samples and properties.",
 ["configurations","inputs"],"all pairs of well-formed encodings of the same contents",
 "Tests use separate fixed files per layout and never compare encodings of the same contents.",
 [RD,CT,IL,RE,IB,MD],[("reader selection",RD+" read"),("byte order selection",MD+" Segment::read"),("layout readers",CT+"; "+IL)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
