#!/usr/bin/env python3
"""Writes properties.jsonl.  (The text lives here so that it can be edited.)"""
import json, os
R="netcdf/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","A CDF file whose writer closed without error reads back exactly",
 "When a CDF writer's Close returns nil, the file is well formed by the CDF specification, and reopening it yields every accepted group attribute, dimension and variable: same names in the order given, same types, shapes, dimension names, attribute values and element values, bit for bit (strings padded with NUL to a common length). This holds for every sequence of accepted calls, and no storage error during writing may turn into a nil Close and a file that reads differently.",
 ["histories","inputs","fault_sequences"],
 "every sequence of writer calls over all supported types and shapes (scalars, up to four dimensions, the unlimited dimension, unnamed dimensions, int64-range types forcing version 5), every write or close error, every division of the reads that verify it into short reads",
 "The tests write about a dozen hand-picked files to a real disk that never fails; offsets, padding and the version depend on the combination and order of all variables and attributes.",
 [R+"cdf/cdfwriter.go",R+"cdf/cdf.go",R+"netcdf4.go"],
 [("header and offset computation",R+"cdf/cdfwriter.go"),("sticky write errors through the buffered writer",R+"cdf/cdfwriter.go Close")],
 observe=["netcdf.OpenWriter / Writer / netcdf.Open"],hook="file open/create seam (tag verif)")

p("C02","An HDF5 file whose writer closed without error reads back exactly",
 "When an HDF5 writer's root Close returns nil, reopening the file yields the same tree of groups with every accepted attribute and variable: same names, types, shapes, dimension names, attribute order and values, and element values bit for bit, including nested and variable-length values and strings (which may lose NULs at their end; others are refused). This holds for every sequence of accepted calls on the root and on subgroups, and no storage error during writing may turn into a nil Close and a file that reads differently.",
 ["histories","inputs","fault_sequences"],
 "every sequence of writer calls over groups, coordinate variables, all supported types, vlen lists and strings, every write or close error, every division of the verifying reads",
 "The tests write hand-picked files with few objects; addresses, heap references and dimension scales depend on the whole history, and the tests' disk never fails.",
 [R+"hdf5/hdf5writer.go",R+"hdf5/writer_utils.go",R+"hdf5/hdf5.go"],
 [("object layout, global heap and dimension-scale passes",R+"hdf5/hdf5writer.go Close"),("reader",R+"hdf5/hdf5.go")],
 observe=["netcdf.OpenWriter / Writer / netcdf.Open"],hook="file open/create seam (tag verif)")

p("C03","Write failures are reported and the output file is closed exactly once",
 "If any create, write or close of the output file fails or comes up short while a writer (CDF or HDF5) is used, some call of that writer returns a non-nil error and none panics. Whatever happens (success, storage failure, refused input, repeated Close), once the root writer has been closed its file handle has been closed exactly once, and closing again neither rewrites the file nor panics.",
 ["fault_sequences","histories"],
 "every position and kind of failing create/write/close (EIO, ENOSPC, short and torn writes, transient or permanent) in every writer history of both formats",
 "The tests never make a write fail; an error swallowed at one of the many write calls, or a handle leaked on an error path, is invisible on a healthy disk.",
 [R+"cdf/cdfwriter.go",R+"hdf5/hdf5writer.go",R+"hdf5/writer_utils.go"],
 [("error propagation in Close",R+"cdf/cdfwriter.go"),("error propagation in Close",R+"hdf5/hdf5writer.go")],
 observe=["Writer return values","handle open/close events of the simulated storage"],hook="file create seam (tag verif)")

p("C04","A crash while writing never leaves a file that reads as wrong data",
 "If the process stops at any byte while a writer is producing a file, so that only a prefix of the file is left, then opening and reading that file either fails with an error or yields, for everything that is returned without error, exactly the values and attributes that were being written. Nothing from a torn file is ever silently replaced by zeros or other bytes, and reading it never panics. The one exception is the CDF reader's documented use of the variable's fill value for elements that do not lie wholly within the file, in data that is not interleaved with other records; no element ever mixes bytes of the file with fill bytes.",
 ["crash_points","histories","inputs"],
 "every writer history of both formats, every byte at which the process can stop, and every torn copy of a well-formed CDF file with record data",
 "No test truncates a file it wrote at more than a few places; the outcome depends on which structure the cut falls into.",
 [R+"cdf/cdf.go",R+"hdf5/hdf5.go",R+"hdf5/readers.go",R+"cdf/cdfwriter.go",R+"hdf5/hdf5writer.go"],
 [("size checks on open",R+"cdf/cdf.go"),("superblock end-of-file address check",R+"hdf5/hdf5.go")],
 observe=["netcdf.Open on the surviving prefix"],hook="file create seam (tag verif)")

p("C05","A writer call that is refused leaves no trace in the file",
 "When AddVar, AddAttributes or CreateGroup returns an error, the writer goes on as if the call had not been made: later valid calls are accepted and Close succeeds, and the finished file is the one the accepted calls alone would have produced. Calls with an invalid name, a value or attribute of an unsupported type, a ragged array, more dimensions than the value or HDF5 (32) has, a dimension size that contradicts an earlier one, or a name already taken are refused with an error, never with a panic, and are not discovered only at Close.",
 ["histories","inputs"],
 "every interleaving of invalid calls with valid ones, in both formats; calls after Close are refused too",
 "The tests check single refusals and then stop; they do not go on writing and read the file back, and the state a refused call may leave behind shows only in later calls or in the file.",
 [R+"cdf/cdfwriter.go",R+"hdf5/hdf5writer.go",R+"../internal/validname.go"],
 [("validation before mutation in AddVar/AddAttributes/CreateGroup",R+"cdf/cdfwriter.go, "+R+"hdf5/hdf5writer.go")],
 observe=["Writer return values; the file byte for byte against the file of the accepted calls alone"],hook="file create seam (tag verif)")

p("C06","A well-formed CDF file reads exactly, however the storage delivers it",
 "For every well-formed CDF file (versions 1, 2 and 5, fixed and record variables, any layout the specification allows) the reader returns exactly the file's attributes, dimensions, variables, types, shapes and values. This does not depend on how the underlying reader splits the bytes: one at a time, in random pieces, with end-of-file reported together with the last bytes or after them, or with occasional empty reads.",
 ["inputs","schedules"],
 "every CDF file an independent encoder can produce within small bounds, times every delivery schedule of the bytes",
 "The tests read files made by ncgen from a disk that always delivers whole buffers; record interleaving, padding, gaps and short reads combine in ways they never reach.",
 [R+"cdf/cdf.go",R+"netcdf4.go"],
 [("header parser and record reader",R+"cdf/cdf.go"),("format sniffing",R+"netcdf4.go getKind")],
 observe=["netcdf.New / netcdf.Open"],hook="file open seam (tag verif)")

p("C07","An HDF5 file made by the reference tools reads exactly, however delivered",
 "For well-formed HDF5/NetCDF4 files produced by the reference implementation (contiguous, compact and chunked storage; deflate, shuffle and fletcher32 filters; old and new file format; groups, user-defined types, fill values, unlimited dimensions, strings, vlen, compound, enum, opaque) the reader returns exactly the attributes, dimensions, types, shapes and values the reference tools report. A file that uses a feature the reader does not support (soft and external links, shared messages, committed types of the newest version, the chunk indexes of layout version 4) is refused with an error, never read wrongly. This does not depend on how the underlying reader splits the bytes it delivers.",
 ["inputs","schedules"],
 "a corpus of reference-made files covering each layout, filter and type, times every delivery schedule of the bytes (one byte at a time, random pieces, block boundaries, end-of-file with or after the last bytes, empty reads)",
 "The tests compare a few such files read from a healthy disk that never delivers short; filter pipelines and buffered readers behave differently when reads come in pieces.",
 [R+"hdf5/hdf5.go",R+"hdf5/readers.go",R+"hdf5/segment.go",R+"hdf5/types.go"],
 [("object header, b-tree, heap parsing",R+"hdf5/hdf5.go"),("filter and segment readers",R+"hdf5/readers.go, "+R+"hdf5/segment.go")],
 observe=["netcdf.New / netcdf.Open"],hook="file open seam (tag verif)")

p("C08","A slice equals that part of the whole, and no slice reaches outside",
 "GetSlice(b,e) and GetSliceMD(b,e) return exactly the elements of the full value that lie in the requested ranges, for every variable of both formats and every storage layout, and Len and Shape describe that full value. A request that is out of range, reversed, or of the wrong rank returns an error and no data, and never panics.",
 ["inputs","histories","schedules"],
 "every variable of generated CDF files, generated HDF5 files and reference-made HDF5 files, every begin/end including empty, reversed, negative and beyond-the-end, in any order of calls, under every delivery schedule",
 "The tests slice a handful of variables at a handful of places; the wrong row, a missing chunk or a filter boundary shows only at particular begin/end and layout combinations.",
 [R+"cdf/cdf.go",R+"hdf5/hdf5.go","internal/slicer.go",R+"hdf5/segment.go"],
 [("slice seek and trim",R+"cdf/cdf.go, "+R+"hdf5/hdf5.go"),("generic slicer","internal/slicer.go")],
 observe=["VarGetter"],hook="file open seam (tag verif)")

p("C09","What a read returns does not depend on earlier reads or their results",
 "Every read call on an open file returns the same result whatever calls were made before it on the same or other handles of that file, in whatever order, including failed lookups, slices, type queries, and opening and closing of groups. A caller that modifies the variable values, name lists, shapes or dimension lists it was given does not change what later calls return.",
 ["histories"],
 "every sequence of read calls over several group handles and variable getters of one file of either format, with the caller overwriting everything it is handed",
 "The tests call each function once on a fresh handle and never write into what they get; caches and shared slices inside the reader are only visible over longer histories.",
 [R+"cdf/cdf.go",R+"hdf5/hdf5.go",R+"hdf5/amap.go",R+"util/orderedmap.go"],
 [("per-object state and caches",R+"hdf5/hdf5.go"),("copies handed to the caller",R+"cdf/cdf.go")],
 observe=["Group and VarGetter"],hook="file open seam (tag verif)")

p("C10","A storage error while reading is reported, never turned into data",
 "If a read, seek or open of the underlying file fails, or (HDF5) ends early where the file is longer, each affected call returns an error (Attributes of an HDF5 group, which has no error result, returns nil); whatever is returned without an error is exactly what a healthy read returns, no call panics, and no name, attribute or group silently goes missing from data returned later. Once the storage works again, reads on a still-open file give the right results, and a failed open can simply be repeated.",
 ["fault_sequences","histories","schedules"],
 "every position and kind of failing operation (EIO, short read followed by an error, premature end-of-file, failing seek; transient or lasting) in histories of reads over files of both formats",
 "No test makes a read fail; an error dropped at any of the many read sites, or a half-filled cache, yields plausible wrong data.",
 [R+"cdf/cdf.go",R+"hdf5/hdf5.go",R+"hdf5/readers.go",R+"netcdf4.go"],
 [("error propagation by throw/recover at API entry points",R+"hdf5/hdf5.go"),("error propagation",R+"cdf/cdf.go")],
 observe=["netcdf.New / Open / Group / VarGetter"],hook="file open seam (tag verif)")

p("C11","Concurrent use of separate group handles gives sequential results",
 "Goroutines that each use their own group handle of one open HDF5 file (obtained with GetGroup) can read, list, slice, look up types and open and close groups at the same time, and every call returns what it would have returned had the calls been made one after another. No interleaving causes a wrong value, a spurious error, a panic, a deadlock, or a file closed while a handle is still in use. Goroutines that open and read other files, open the same file on their own, or write files of their own at the same time neither disturb the others nor are disturbed: calls on different open files are independent of each other.",
 ["schedules","histories"],
 "every interleaving, at storage operations and lock operations, of two to four tasks with their own handles on one file, over generated and reference-made files, with further tasks that open and read other files, open the same file separately, or write files",
 "The tests are single-threaded, and the race detector sees only the interleavings that happen to occur; the library has one shared file position and lock.",
 [R+"hdf5/hdf5.go",R+"hdf5/readers.go"],
 [("file lock held over seek+read pairs",R+"hdf5/readers.go"),("reference count of the shared file",R+"hdf5/hdf5.go")],
 observe=["Group and VarGetter from several simulated tasks"],hook="lock and file hooks (tag verif)")

p("C12","Files are closed exactly when the last handle goes, and never leaked",
 "After a successful Open exactly one underlying file handle is left open; it stays open exactly as long as some group handle obtained from it is open, is then closed exactly once, and is never used afterwards. A failed Open leaves no file open, closing a handle twice changes nothing, using a handle after its own Close neither panics nor touches the file, and other handles of the same file keep working.",
 ["histories","fault_sequences"],
 "every order of opening, re-opening groups and closing handles, with open and read failures and malformed files, for both formats and for Open and New",
 "The tests close in the ordinary order and cannot see a leaked or doubly closed descriptor.",
 [R+"netcdf4.go",R+"cdf/cdf.go",R+"hdf5/hdf5.go",R+"hdf5/readers.go"],
 [("reference counting of the file",R+"hdf5/hdf5.go, "+R+"hdf5/readers.go"),("close on failure",R+"netcdf4.go")],
 observe=["open/close events of the simulated storage"],hook="file open seam (tag verif)")

p("C13","Damaged or hostile file contents never panic, hang or kill the process",
 "Opening and reading a file whose bytes have been altered in any way (bit flips, overwritten fields, truncation, random contents) returns values or errors: no call panics, exits the process, loops without progress, or allocates without bound (no single value or structure larger than the greater of 1 GiB and 4096 times the file's length). The handle can still be closed, and other files are unaffected.",
 ["inputs","fault_sequences"],
 "every corruption of generated and reference-made files of both formats by up to a few changed bytes, biased to header fields, lengths, offsets and counts, and every read call on what opens",
 "The tests try a few specially damaged files; the number of fields whose damage leads to an unchecked index, an endless chain or a fatal log call is far larger.",
 [R+"cdf/cdf.go",R+"hdf5/hdf5.go",R+"hdf5/assert.go",R+"hdf5/readers.go"],
 [("assertions and recovery at API entry points",R+"hdf5/assert.go, "+R+"hdf5/errors.go"),("header validation",R+"cdf/cdf.go")],
 observe=["netcdf.Open and every read call"],hook="file open seam (tag verif)")

p("C14","Stored checksums are enforced: damaged protected bytes are never returned",
 "When bytes protected by a checksum are altered in storage (HDF5 version-2 metadata structures, chunks stored with the fletcher32 filter, deflate-compressed chunks), any call whose result depends on them returns an error or the original data, never altered data. This holds for whole reads and for slices, wherever in the chunk the damage and the requested range lie.",
 ["fault_sequences","inputs"],
 "every single-byte (and few-byte) change within the protected regions of reference-made files with checksummed metadata, fletcher32 or deflate, and every read or slice touching the damaged structure",
 "The tests have no damaged checksummed file beyond a bad magic; whether a checksum is compared on each path (slices, last chunk, partial chunks) is unobservable on good files.",
 [R+"hdf5/checksum.go",R+"hdf5/readers.go",R+"hdf5/hdf5.go"],
 [("metadata checksum comparison",R+"hdf5/hdf5.go, "+R+"hdf5/checksum.go"),("fletcher32 filter",R+"hdf5/readers.go")],
 observe=["Group and VarGetter on the damaged file"],hook="file open seam (tag verif)")

p("C15","Results and output bytes do not vary from run to run",
 "The same sequence of calls always gives the same results in the same order: listings of variables, groups, types, dimensions and attributes, type descriptions and values of a given file are identical in every process, and a writer given the same calls produces the same file byte for byte. Nothing depends on hash-map iteration order or on other files being read or written.",
 ["schedules","histories","inputs"],
 "every map iteration order the runtime may choose, for reading and writing histories of both formats",
 "A test run sees one random map order; a dependence on it passes or fails by chance and order-insensitive comparisons hide it.",
 [R+"cdf/cdf.go",R+"cdf/cdfwriter.go",R+"hdf5/hdf5.go",R+"hdf5/hdf5writer.go",R+"hdf5/writer_utils.go",R+"util/orderedmap.go"],
 [("ordered listings",R+"hdf5/hdf5.go sortChildren"),("ordered maps of attributes",R+"util/orderedmap.go")],
 observe=["two simulated executions with different map orders, compared event by event"],hook="runtime overlay that seeds map iteration; file seam (tag verif)")
p("C16","What was read from a file can be written to another without loss",
 "The variables, attributes and groups of any file this library can read can be handed to its writers as they were read (with names for dimensions that have none, and without the dimension that stands for the characters of strings): HDF5 or CDF files to the HDF5 writer, CDF files to the CDF writer. Whatever the writer accepts, and Close then reports as written, reads back as the values that were read, with the same dimensions and attributes, including user-defined types (enum, opaque, compound, vlen), which can't be made in any other way. Values made of numbers, strings without inner NULs, enums, opaques, compounds of these, and lists of these that are not nested are accepted by the HDF5 writer, unless their type or shape cannot be told from them (empty lists of user-defined types, a dimension of length zero before another) or an attribute is too large for it; non-empty values of CDF files are accepted by the CDF writer. Strings may lose NULs at their end, and lists of one element in attributes may come back as the element.",
 ["inputs","histories","fault_sequences"],
 "every file of either format the library can read, with any nesting of user-defined types, every choice of target format, with and without write failures",
 "The tests copy a few files of fixed types; which combination of nested types, list lengths, shapes and attribute positions the two-pass writer lays out correctly cannot be sampled by hand.",
 [R+"hdf5/hdf5writer.go",R+"hdf5/writer_utils.go",R+"cdf/cdfwriter.go"],
 [("types of user-defined values",R+"hdf5/writer_utils.go buildDatatypeMessage"),("lists collected in one pass and referred to in another",R+"hdf5/hdf5writer.go collectVlenData"),("what is accepted",R+"hdf5/hdf5writer.go checkValue")],
 observe=["netcdf.Open on the copy"],hook="file create and open seam (tag verif)")
p("C17","HDF5 files written are valid HDF5 and netCDF-4 for every other reader too",
 "When an HDF5 writer's root Close returns nil, the bytes of the file are a valid HDF5 file by the format specification, whatever was written (any sequence of accepted calls, values made by the caller or read from another file): every structure well-formed and with its right size, checksum and address, no two overlapping, the end of file where the superblock says; and it means what was given to the writer. A reader that shares nothing with this library finds the same groups, variables and attributes, with the same types (integer signs and sizes, floats, strings, lists, enums, opaques, compounds), shapes and element values, attributes that can be counted and listed, and by the netCDF-4 conventions the same dimensions: each dimension scale marked, named and numbered as one, and each variable's dimension list referring to scales of the right name and length in its group or above.",
 ["inputs","histories","fault_sequences"],
 "every history of accepted writer calls, in any group structure, with any values of the supported types or copied from any readable file, with and without write failures",
 "The tests run ncdump and h5repack over a few files, which notice neither attributes that h5repack drops nor sizes and counts that matter only for larger values; reading back with the library itself cannot see mistakes that its reader and writer share.",
 [R+"hdf5/hdf5writer.go",R+"hdf5/writer_utils.go"],
 [("object headers and their messages",R+"hdf5/hdf5writer.go writeObjectHeaderV2"),("global heap collections",R+"hdf5/hdf5writer.go writeCollection"),("dimension scales and references to them",R+"hdf5/hdf5writer.go createDimensionScales, buildDimensionListAttribute"),("datatypes",R+"hdf5/writer_utils.go buildDatatypeMessage")],
 observe=["the bytes of the file after Close, through a decoder written from the specification"],hook="file create seam (tag verif)")
p("C18","Data beyond 4 GiB is read exactly, and a slice costs what it returns",
 "Sizes and positions of 2 GiB, 4 GiB and more are right: in CDF files (classic, 64-bit offset and 64-bit data, with dimensions, record counts, records, record positions and variable positions as large as the format allows) and HDF5 files (contiguous and chunked variables of any numeric, string, enum or opaque type, one- or multidimensional, fixed or unlimited, filtered or not; small variables, attributes and groups whose parts lie anywhere in such a file). Every slice of a variable too large to be held in memory, wherever in it, equals that part of the data, its length and shape are right, a range that is not inside it is refused, and the slice is had without reading or producing what comes before it: what is read and the memory needed depend on the slice and the chunks it touches, not on its place or on the size of the variable. Under failing reads a slice fails or is right.",
 ["inputs","histories","fault_sequences"],
 "every position and size up to the limits of the formats, every history of slice calls, with and without read failures",
 "No test has a file of more than a few megabytes: 32-bit arithmetic in any reader of sizes, offsets, indices or chunk numbers works on all of them. The simulated storage computes the bytes of terabyte files when they are read.",
 [R+"cdf/cdf.go",R+"hdf5/hdf5.go",R+"hdf5/readers.go"],
 [("sizes and record positions",R+"cdf/cdf.go getVar, newRecordReader, getVarCommon"),("places of chunks",R+"hdf5/hdf5.go newRecordReader, readBTreeNodeAny"),("slices of chunks",R+"hdf5/readers.go layoutReader, calculateFlatOffset")],
 observe=["VarGetter.GetSlice and GetSliceMD, and storage reads under them"],hook="file open seam (tag verif)")
p("C19","CDF files of more than 4 GiB are written exactly",
 "A CDF writer given variables that together or alone pass 2 GiB or 4 GiB writes a file in which every variable is complete, where the header says, and every size is right; the file's version can express each size and position in it as other readers require (before version 5, only the last variable may have more than 4 GiB); the small variables before, between and after the large ones are right too; and the library reads slices of all of it back exactly. If the storage fails or fills up anywhere on the way, Close says so.",
 ["inputs","fault_sequences"],
 "every order and size of variables up to and beyond 2 and 4 GiB, every type, every point of failure of the storage",
 "No test writes more than a few megabytes, so sizes, offsets and versions are only exercised where 32 bits are plenty; a mistake loses data that exists nowhere else.",
 [R+"cdf/cdfwriter.go"],
 [("sizes and offsets",R+"cdf/cdfwriter.go computeVsize, writeVar"),("version",R+"cdf/cdfwriter.go AddVar"),("data",R+"cdf/cdfwriter.go writeData")],
 observe=["the bytes written, VarGetter.GetSlice, Close's error"],hook="file create and open seams (tag verif)")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
