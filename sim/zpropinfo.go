package main

// What the evidence says about how each property's runs are made and what runs for real.

const (
	realAll = "all of netcdf, netcdf/cdf, netcdf/hdf5, netcdf/util and internal, compiled from /repo's working tree with the tag verif; Go's compress/zlib, bufio and runtime"
	stubFS  = "the files (sim/simfs.go in place of os.File, through internal/seam or the ReadSeekerCloser argument) and Go's map iteration order (seeded by the run)"
)

var propRules = map[string]string{
	"C01": "A writer history drawn from the seed (variables of all CDF types and shapes, attributes, dimension sharing) is run against the simulated storage, in some runs with write and close failures; if Close returned nil the file is decoded by an independent strict decoder and read back by the library under a random delivery schedule, and both are compared with the model of the accepted calls.  A run is trivial if it makes fewer than two writer calls or Close fails.",
	"C02": "A writer history drawn from the seed (groups, coordinate variables, all types, vlen lists and strings, list attributes) is run against the simulated storage, in some runs with write and close failures; if Close returned nil the file is read back by the library under a random delivery schedule and compared with the model of the accepted calls.  A run is trivial if it makes fewer than two writer calls or Close fails.",
	"C03": "A writer history drawn from the seed is run with up to three failing creates, writes (at a call or at a byte, transient or lasting, torn) or closes; each failure must surface in a call's result, the handle must be closed exactly once, and closing again must change nothing.  A run is trivial if it makes fewer than two calls.",
	"C05": "A writer history with one to four invalid calls at random places; each must be refused with an error, Close must succeed, the file must equal, byte for byte, the file of the accepted calls alone, and read back as the model says; calls after Close must be refused.  A run is trivial if no call was refused.",
	"C04": "A CDF or HDF5 writer dies after a byte chosen by the seed (uniform, near the start, near the end), or a file of the independent encoder is cut, often near the edge of a record or variable; what is left is opened and read in full with a few slices: every result must be an error or what was being written (for missing elements of unrecorded data: the fill value, exactly where the layout says so).  A run is trivial if nothing was cut.",
	"C06": "A CDF file drawn from the seed is encoded by cdfbuild.go and read through Open or New under a random delivery schedule; one file in eight was written by libnetcdf from such a file; everything the API offers is compared with the model.  A run is trivial if the file has neither variables nor attributes.",
	"C07": "A file made by the reference tools, drawn from the seed, is read through Open or New under a random delivery schedule; everything the API offers is compared with what the reference libraries read from it.  A run is trivial if the file uses an unsupported feature and was refused, or is empty.",
	"C08": "A file (independent encoder, library writer, or reference-made fixture) and a history of slice calls, valid and invalid, through getters that live on, under a random delivery schedule; each result is compared with that part of the whole value read by a fresh handle.  A run is trivial if no slice was compared.",
	"C09": "A file and a history of 8 to 50 reader calls over several handles; each result is compared with that of a fresh handle on healthy storage, and in half the runs everything handed out is overwritten.  A run is trivial if fewer than two calls were compared.",
	"C10": "A file and a history of reader calls, made twice, with one to three failing reads, seeks or opens (EIO after some bytes, early end-of-file, stalls) at random operations; results are compared with healthy ones.  A run is trivial if no fault fired.",
	"C11": "A file and two to four tasks with their own handles and two to ten calls each; the scheduler draws the running task at every storage and lock operation; results are compared with sequential ones, then the file's handles are checked.  Further runs, counted in the probes, go through a build with the race detector, where any two accesses of the library that its own locks do not order are a violation.  A run is trivial if the running task changed fewer than two times.",
	"C12": "A file, in some runs damaged, and a history of opening, re-opening, closing (also twice) and using handles (also closed ones), in some runs with failing opens, reads, seeks or closes; after every call the open files of the simulated storage must be those in use.  A run is trivial if nothing could be opened and nothing failed.",
	"C13": "A file with damage drawn from the seed (bits, bytes, fields, copied or large numbers, random contents, truncation); everything it then offers is read.  A run is trivial if there was no file.",
	"C14": "A file of the reference tools or of the library's HDF5 writer, one to eight neighbouring bytes under a checksum changed, and a history of calls; in a third of the runs the damage comes when handles are already open.  Where checksums are is found by signature and confirmed by an independent lookup3 (regions.go), and for chunks by libhdf5.  Every result must be an error or that of the undamaged file.  A run is trivial if nothing was damaged.",
	"C15": "A writer and reader history, made twice with different map orders, the second time after other files were used; every result and the written bytes are compared.  A run is trivial if it made fewer than three calls.",
	"C16": "A file (independent encoder, library writer, or reference-made fixture) is read and everything in it handed to a writer, in some runs with write and close failures; refusals are judged by the value, and if Close returned nil the copy is compared with what was read.  A run is trivial if nothing was copied.",
	"C17": "A writer history, or a file copied into the HDF5 writer, in some runs with write and close failures; if Close returned nil the bytes are decoded by h5strict.go, which shares nothing with the library and insists on the specification, and everything in them is compared with what was given to the writer.  A run is trivial if nothing was written.",
	"C19": "A CDF writer history with one to three variables that reach past 2 or 4 GiB, in some runs with storage that fails or fills up on the way; then slices.  A run is trivial if less than 1 GiB was written and compared, or nothing read back.",
	"C18": "A file of more than 4 GiB, computed or sparse, and a history of slices and small reads, in some runs with read failures.  A run is trivial if nothing was compared.",
}

func init() {
	for id, p := range props {
		if p.Rule == "" {
			p.Rule = propRules[id]
		}
		if p.Real == "" {
			p.Real = realAll
		}
		if p.Stub == "" {
			p.Stub = stubFS
		}
	}
}
