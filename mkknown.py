#!/usr/bin/env python3
# Writes known_findings.json.  "fixed" entries suppress nothing; "known" ones are
# matched by property, exact violation class and a part of the detail.
import json
FIXED = [
 ("C01", "9bcf1a1", "a CDF header written as version 2 in part when a later attribute needed version 5"),
 ("C01", "11c0153", "CDF dimensions given as the empty string shared one nameless dimension"),
 ("C01", "94a1595", "CDF record variables got offsets between the fixed ones, so that data overlapped"),
 ("C06", "76b601f", "opening failed when the first read returned no bytes and no error"),
 ("C01", "ca5882c", "CDF string variables were sized by the first row, cutting or shifting longer strings"),
 ("C02", "c0765b4", "string coordinate variables referred to a heap written at another place"),
 ("C07", "5df30c1", "bytes returned together with an error were dropped, short reads not continued"),
 ("C10", "c1dac2b", "a failed or short data read in the HDF5 reader gave zeros without an error"),
 ("C08", "0fd919a", "HDF5 slices reused state of earlier ones, ran over the end, or began at the wrong row"),
 ("C15", "c548901", "listings of HDF5 attributes, groups and types followed map order"),
 ("C05", "e77c1f9", "a refused CDF AddVar left dimensions or the version changed; ragged arrays were found only at Close"),
 ("C03", "9927cb4", "the CDF file was left open when writing failed, and closed again by a second Close"),
 ("C03", "79ab82c", "HDF5 Close panicked after AddAttributes(nil)"),
 ("C03", "a31d4dc", "the HDF5 file was left open when writing failed"),
 ("C05", "82a9157", "HDF5 values and attributes that cannot be stored were found only at Close, or corrupted the file; a duplicate variable replaced the first"),
 ("C02", "7634eaa", "HDF5 dimensions of the same name but different size in different groups were merged"),
 ("C02", "03173e0", "HDF5 names of more than 255 bytes were cut; dimension names with slashes got lost"),
 ("C02", "69958a7", "HDF5 attributes and lists without elements came back wrong or panicked"),
 ("C05", "f9bb021", "CDF AddVar panicked on values of unsupported types"),
 ("C08", "6611f95", "CDF slices of record variables returned the wrong records"),
 ("C08", "db52647", "slice ranges were not checked, and strings were not sliced by character; Shape and Dimensions handed out internal slices"),
 ("C06", "5b4a337", "a CDF _FillValue of another type panicked, and torn elements were completed with fill bytes"),
 ("C09", "7bf645f", "OrderedMap.Keys handed out the slice used internally"),
 ("C12", "df31892", "closing a CDF group twice closed the file for its other groups"),
 ("C13", "c54f47d", "damaged CDF headers panicked or made the reader allocate without bound"),
 ("C13", "530836e", "damaged HDF5 files caused panics or ended the process"),
 ("C13", "87d7713", "damaged HDF5 files could make the reader allocate or recurse without bound"),
 ("C14", "9a05d1e", "damage to unread parts of filtered chunks and to fractal heap blocks went unnoticed"),
 ("C10", "a1f3574", "a failed read of an HDF5 attribute or heap spoiled later reads"),
 ("C11", "99be14d", "group handles of one HDF5 file could not be used at the same time"),
 ("C06", "a191dad", "CDF characters without elements (no records) came back as bytes, not strings"),
 ("C07", "b867957", "HDF5 attributes in an object header were not listed in creation order"),
 ("C07", "96d270d", "values of opaque HDF5 attributes without a tag came back as zeros"),
 ("C07", "794c2a9", "a Fletcher checksum of 65535 was taken for damage"),
 ("C07", "951e29b", "values of chunked HDF5 variables of three or more dimensions came in the wrong order"),
 ("C07", "5144374", "HDF5 attributes and characters of more than one string came back as one or not at all"),
 ("C07", "cf8103c", "an HDF5 attribute of a compound type with one member came back as the member"),
 ("C07", "7836c92", "members of HDF5 compounds were misread unless in the order of their offsets"),
 ("C07", "052c87f", "the tag of an opaque HDF5 type was read to the end of the compound it is in"),
 ("C07", "962ed03", "HDF5 types of more than 255 members, or with offsets of three bytes, were misread"),
 ("C07", "4977d4c", "large HDF5 groups with a symbol table, or with small leaves, could not be opened"),
 ("C07", "d38093c", "HDF5 attributes without a value came back as one zero"),
 ("C07", "5f490de", "HDF5 variables shorter than their unlimited dimension came back short"),
 ("C07", "363b671", "coordinate variables of several dimensions had only one"),
 ("C07", "6fac12e", "attributes of HDF5 variables and of groups other than the root had no type"),
 ("C07", "8c6d3e2", "types of HDF5 attributes had dimensions that their values don't have"),
 ("C07", "7137856", "lists of one element in HDF5 attributes came back as the element"),
 ("C07", "8d19156", "chunked HDF5 variables could not be read if their type comes after the layout"),
 ("C07", "e751c22", "HDF5 types of the same form as another one were not found by name"),
 ("C08", "3f61241", "slices of HDF5 enumerations ignored all ranges but the first"),
 ("C08", "ccd6b88", "HDF5 slices missed the last chunks of large variables"),
 ("C07", "65929b5", "negative HDF5 integers that do not use all bits of their type were read as positive ones"),
 ("C07", "0f03b21", "HDF5 floats with a mantissa of an unusual place or size were read as other numbers"),
 ("C02", "792d8a3", "an empty scalar string in an HDF5 file read back as a NUL character"),
 ("C06", "969130c", "a scalar CDF character above 127 was returned as its UTF-8 form"),
 ("C02", "a54c7e6", "HDF5 strings with a NUL were accepted and cut there"),
 ("C16", "eb04765", "HDF5 compounds with lists in them, read from a file, could not be written as variables: Close panicked"),
 ("C16", "8e77f23", "empty lists of HDF5 opaques were written in a way that made the file unreadable"),
 ("C16", "021759a", "HDF5 compounds with an empty list of a user-defined type made the file unreadable"),
 ("C16", "1c22df7", "lists of HDF5 enums inside other values were written as something else"),
 ("C16", "c9fff3c", "empty lists of lists came back from HDF5 with a level less"),
 ("C16", "c34abad", "HDF5 attributes that are tables of lists made Close panic"),
 ("C17", "00431fc", "HDF5 files had attributes that the HDF5 library didn't count: h5repack dropped them"),
 ("C16", "289b183", "HDF5 compounds of 64 KiB and more were written with member offsets of a wrong width"),
 ("C17", "7f64e91", "HDF5 variables and attributes of more than 32 dimensions were accepted: the files were invalid"),
 ("C18", "0a9e194", "CDF dimensions, record counts and sizes of 2 GiB and more were taken for negative in files before version 5; records of 4 GiB and more were misplaced"),
 ("C18", "43183f0", "a slice of an HDF5 variable chunked in several dimensions produced everything in front of it, and was refused if the variable was large"),
 ("C19", "2a7ebea", "a CDF variable of 4 GiB or more was written into a version 2 file with a truncated size, even with variables after it, which other readers refuse"),
 ("C01", "64a9bdf", "CDF files of more than 1024 dimensions could be written but not read"),
 ("C07", "3ac2a27", "HDF5 objects of more than 10000 header continuations were refused"),
 ("C13", "f4f511e", "a damaged CDF file with a variable of many dimensions of length one could use up the memory"),
]
KNOWN = []
out = [{"id": f"F{i+1:02}", "property": p, "status": "fixed", "commit": c, "what": w,
        "record": f"fixed: property={p} {c} {w}"} for i, (p, c, w) in enumerate(FIXED)]
out += KNOWN
open("/verif/known_findings.json", "w").write(json.dumps(out, indent=1, ensure_ascii=False) + "\n")
