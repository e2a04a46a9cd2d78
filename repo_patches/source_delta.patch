From 57525999ea87d7612f4a66c5b8142225dba8d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 01/72] seam: route file open/create and the file lock through
 internal/seam

A normal build is unchanged.  With -tags verif a simulator can supply the
files and the lock.
---
 internal/seam/seam.go       | 28 +++++++++++++
 internal/seam/seam_verif.go | 79 +++++++++++++++++++++++++++++++++++++
 netcdf/cdf/cdf.go           |  3 +-
 netcdf/cdf/cdfwriter.go     |  6 +--
 netcdf/hdf5/hdf5.go         |  3 +-
 netcdf/hdf5/hdf5writer.go   |  6 +--
 netcdf/hdf5/readers.go      |  6 +--
 netcdf/netcdf4.go           |  4 +-
 8 files changed, 122 insertions(+), 13 deletions(-)
 create mode 100644 internal/seam/seam.go
 create mode 100644 internal/seam/seam_verif.go

diff --git a/internal/seam/seam.go b/internal/seam/seam.go
new file mode 100644
index 0000000..82d085d
--- /dev/null
+++ b/internal/seam/seam.go
@@ -0,0 +1,28 @@
+//go:build !verif
+
+// Package seam is the single place where this module touches the outside
+// world: opening and creating files, and the lock that serializes file access.
+// In a normal build it is exactly the standard library.  Building with
+// "-tags verif" replaces it with a version that a simulator can control.
+package seam
+
+import (
+	"os"
+	"sync"
+)
+
+// File is an open file.
+type File = *os.File
+
+// Mutex is a mutual exclusion lock.
+type Mutex = sync.Mutex
+
+// Open opens the named file for reading.
+func Open(name string) (File, error) {
+	return os.Open(name)
+}
+
+// Create creates or truncates the named file.
+func Create(name string) (File, error) {
+	return os.Create(name)
+}
diff --git a/internal/seam/seam_verif.go b/internal/seam/seam_verif.go
new file mode 100644
index 0000000..a3b6aab
--- /dev/null
+++ b/internal/seam/seam_verif.go
@@ -0,0 +1,79 @@
+//go:build verif
+
+// Package seam, in a "-tags verif" build, lets a simulator decide what happens
+// when files are opened, created or locked.  It is never part of a normal build.
+package seam
+
+import (
+	"io"
+	"os"
+	"sync"
+)
+
+// File is an open file.  It has the part of *os.File's method set that a
+// reader or a writer could reasonably want.
+type File interface {
+	io.Reader
+	io.ReaderAt
+	io.Writer
+	io.WriterAt
+	io.Seeker
+	io.Closer
+	io.StringWriter
+	Name() string
+	Stat() (os.FileInfo, error)
+	Sync() error
+	Truncate(size int64) error
+}
+
+// Hooks the simulator sets.  When a hook is nil, the real thing is used.
+var (
+	OpenHook   func(name string) (File, error)
+	CreateHook func(name string) (File, error)
+	LockHook   func(m *Mutex)
+	UnlockHook func(m *Mutex)
+)
+
+// Mutex is a mutual exclusion lock.
+type Mutex struct {
+	mu sync.Mutex
+}
+
+// Lock locks m.
+func (m *Mutex) Lock() {
+	if LockHook != nil {
+		LockHook(m)
+		return
+	}
+	m.mu.Lock()
+}
+
+// TryLock tries to lock m.
+func (m *Mutex) TryLock() bool {
+	return m.mu.TryLock()
+}
+
+// Unlock unlocks m.
+func (m *Mutex) Unlock() {
+	if UnlockHook != nil {
+		UnlockHook(m)
+		return
+	}
+	m.mu.Unlock()
+}
+
+// Open opens the named file for reading.
+func Open(name string) (File, error) {
+	if OpenHook != nil {
+		return OpenHook(name)
+	}
+	return os.Open(name)
+}
+
+// Create creates or truncates the named file.
+func Create(name string) (File, error) {
+	if CreateHook != nil {
+		return CreateHook(name)
+	}
+	return os.Create(name)
+}
diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8700213..cf0a349 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -13,6 +13,7 @@ import (
 	"reflect"
 
 	"github.com/batchatco/go-native-netcdf/internal"
+	"github.com/batchatco/go-native-netcdf/internal/seam"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
@@ -568,7 +569,7 @@ func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
 // Open is the implementation of the API netcdf.Open.
 // Using netcdf.Open is preferred over using this directly.
 func Open(fname string) (api.Group, error) {
-	file, err := os.Open(fname)
+	file, err := seam.Open(fname)
 	if err != nil {
 		return nil, err
 	}
diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 09d0b64..91331a4 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -9,10 +9,10 @@ import (
 	"fmt"
 	"io"
 	"math"
-	"os"
 	"reflect"
 
 	"github.com/batchatco/go-native-netcdf/internal"
+	"github.com/batchatco/go-native-netcdf/internal/seam"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
@@ -34,7 +34,7 @@ type savedVar struct {
 }
 
 type CDFWriter struct {
-	file        *os.File
+	file        seam.File
 	bf          *countedWriter
 	vars        []savedVar
 	globalAttrs api.AttributeMap
@@ -938,7 +938,7 @@ func (cw *CDFWriter) writeAll() {
 // using AddVar and AddGlobalAttrs.  The file must be closed to actually
 // write it out.
 func OpenWriter(fileName string) (api.Writer, error) {
-	file, err := os.Create(fileName)
+	file, err := seam.Create(fileName)
 	if err != nil {
 		return nil, err
 	}
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 69bcdca..fbd99d5 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -16,6 +16,7 @@ import (
 	"time"
 
 	"github.com/batchatco/go-native-netcdf/internal"
+	"github.com/batchatco/go-native-netcdf/internal/seam"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
@@ -2385,7 +2386,7 @@ func fileSize(file io.ReadSeeker) int64 {
 // Using netcdf.Open is preferred over using this directly.
 func Open(fname string) (nc api.Group, err error) {
 	defer thrower.RecoverError(&err)
-	file, err := os.Open(fname)
+	file, err := seam.Open(fname)
 	if err != nil {
 		return nil, err
 	}
diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddc9f2d..9064ce6 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,11 +5,11 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
-	"os"
 	"reflect"
 	"slices"
 
 	"github.com/batchatco/go-native-netcdf/internal"
+	"github.com/batchatco/go-native-netcdf/internal/seam"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
@@ -52,7 +52,7 @@ type h5Message struct {
 }
 
 type HDF5Writer struct {
-	file            *os.File
+	file            seam.File
 	buf             *bytes.Buffer
 	root            *h5Group
 	heap            *h5GlobalHeap
@@ -1267,7 +1267,7 @@ func hasValidNames(am api.AttributeMap) bool {
 }
 
 func OpenWriter(fileName string) (api.Writer, error) {
-	file, err := os.Create(fileName)
+	file, err := seam.Create(fileName)
 	if err != nil {
 		return nil, err
 	}
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 28f222b..5e11c32 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -6,8 +6,8 @@ import (
 	"bufio"
 	"bytes"
 	"io"
-	"sync"
 
+	"github.com/batchatco/go-native-netcdf/internal/seam"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
 )
@@ -28,7 +28,7 @@ type remReader interface {
 type refCountedFile struct {
 	file     io.ReadSeeker
 	refCount int
-	lock     sync.Mutex // Serializes seek+read pairs across multiple raFile views of the same file.
+	lock     seam.Mutex // Serializes seek+read pairs across multiple raFile views of the same file.
 }
 
 // Random access file: can do random seeks
@@ -255,7 +255,7 @@ func (f *raFile) ReadAt(b []byte, offset int64) (int, error) {
 }
 
 func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
-	return &refCountedFile{file, 1, sync.Mutex{}}
+	return &refCountedFile{file, 1, seam.Mutex{}}
 }
 
 func (rcf *refCountedFile) reference() {
diff --git a/netcdf/netcdf4.go b/netcdf/netcdf4.go
index 9f676c6..634a97b 100644
--- a/netcdf/netcdf4.go
+++ b/netcdf/netcdf4.go
@@ -4,8 +4,8 @@ package netcdf
 import (
 	"errors"
 	"io"
-	"os"
 
+	"github.com/batchatco/go-native-netcdf/internal/seam"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
 	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
@@ -27,7 +27,7 @@ const (
 
 // Open opens a NetCDF4 file by name
 func Open(fname string) (api.Group, error) {
-	file, err := os.Open(fname)
+	file, err := seam.Open(fname)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9bcf1a18165216462340eee6c5072038d9c6bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 02/72] fix: settle the CDF version before writing the header

A file that needs version 5 only because of a global attribute was written
with a version 2 header followed by version 5 numbers.
---
 netcdf/cdf/cdfwriter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 91331a4..12568d9 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -893,6 +893,8 @@ func (cw *CDFWriter) writeNumber(n int64) {
 }
 
 func (cw *CDFWriter) writeAll() {
+	// The version decides the layout of everything that follows.
+	cw.checkV5Attributes(cw.globalAttrs)
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
@@ -909,7 +911,6 @@ func (cw *CDFWriter) writeAll() {
 		write32(cw.bf, 0)        // dimensions: absent
 		cw.writeNumber(int64(0)) // dimensions: absent
 	}
-	cw.checkV5Attributes(cw.globalAttrs)
 	cw.writeAttributes(cw.globalAttrs)
 	if len(cw.vars) > 0 {
 		write32(cw.bf, fieldVariable)
-- 
2.43.0


From 11c015339cee4fd6619c0c44498297c573bb8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 03/72] fix: name dimensions that are given as the empty string

AddVar appended the generated name instead of using it, so the dimension was
called "" (and clashed with the next one), and wrote into the caller's slice.
---
 netcdf/cdf/cdfwriter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 12568d9..16b0340 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -416,6 +416,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
+	dimNames := make([]string, len(dimLengths))
 	for i := range dimLengths {
 		var dimName string
 		if i < len(vr.Dimensions) {
@@ -427,10 +428,9 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			} else {
 				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
 			}
-			vr.Dimensions = append(vr.Dimensions, dimName)
 		}
+		dimNames[i] = dimName
 
-		dimName = vr.Dimensions[i]
 		currentLength, has := cw.dimLengths[dimName]
 		if has {
 			if dimLengths[i] != currentLength {
@@ -444,7 +444,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		}
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes, 0})
+		dimNames, vr.Attributes, 0})
 	return nil
 }
 
-- 
2.43.0


From 94a1595f19410401e221bf2044383d28fc1eabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 04/72] fix: place record data after the other variables in CDF
 files

A zero-length (unlimited) variable has no records, yet the size of one was
added to the offset of every later variable, whose data then read shifted.
---
 netcdf/cdf/cdfwriter.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 16b0340..6a55425 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -615,6 +615,27 @@ func (cw *CDFWriter) writeVar(which int) {
 	cw.writeAttributes(saved.attrs)
 
 	write32(cw.bf, int32(saved.ty))
+	cw.writeNumber(saved.vsize)
+
+	calcOffset := cw.begin
+	for i := range cw.vars {
+		other := &cw.vars[i]
+		// The records come after all the variables that are not record variables.
+		if (i < which && other.isRecord() == saved.isRecord()) ||
+			(saved.isRecord() && !other.isRecord()) {
+			calcOffset += other.vsize
+		}
+	}
+	write64(cw.bf, calcOffset)
+}
+
+// isRecord returns true if the variable has the unlimited dimension.
+func (saved *savedVar) isRecord() bool {
+	return len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0
+}
+
+// computeVsize computes the padded size of the variable or of one record of it.
+func (saved *savedVar) computeVsize() int64 {
 	vsize := int64(0)
 	switch saved.ty {
 	case typeDouble, typeInt64, typeUInt64:
@@ -641,14 +662,7 @@ func (cw *CDFWriter) writeVar(which int) {
 	}
 	// pad vsize
 	vsize = 4 * ((vsize + 3) / 4)
-	cw.writeNumber(int64(vsize))
-	saved.vsize = vsize
-
-	calcOffset := cw.begin
-	for i := range which {
-		calcOffset += cw.vars[i].vsize
-	}
-	write64(cw.bf, calcOffset)
+	return vsize
 }
 
 func (cw *CDFWriter) computeAttributeSize(attrs api.AttributeMap) int64 {
@@ -921,6 +935,7 @@ func (cw *CDFWriter) writeAll() {
 		cw.begin = cw.bf.Count()
 		for i := range cw.vars {
 			cw.begin += cw.computeVarSize(&cw.vars[i])
+			cw.vars[i].vsize = cw.vars[i].computeVsize()
 		}
 
 		for i := range cw.vars {
-- 
2.43.0


From 76b601f65fac23209e8986dc05f4cb8aa7ed2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 05/72] fix: getKind must not take an empty read for a byte

---
 netcdf/netcdf4.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/netcdf4.go b/netcdf/netcdf4.go
index 634a97b..0c1a8b5 100644
--- a/netcdf/netcdf4.go
+++ b/netcdf/netcdf4.go
@@ -69,8 +69,8 @@ func New(file api.ReadSeekerCloser) (api.Group, error) {
 
 func getKind(file io.ReadSeeker) (byte, error) {
 	var b [1]byte
-	n, err := file.Read(b[:])
-	if n == 0 {
+	_, err := io.ReadFull(file, b[:])
+	if err != nil {
 		return 0, err
 	}
 	_, err = file.Seek(0, io.SeekStart)
-- 
2.43.0


From ca5882c1942af397fb2002f6d961b9c53b7ea188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 06/72] fix: size CDF strings by the longest of all of them,
 not of the first row

---
 netcdf/cdf/cdfwriter.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 6a55425..550e87d 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -286,18 +286,8 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	switch t.Kind() {
 	case reflect.Array, reflect.Slice:
 		if t.Elem().Kind() == reflect.String {
-			// special case to longest string
-			maxLen := int64(0)
-			for i := range int(vLen) {
-				if int64(rv.Index(i).Len()) > maxLen {
-					maxLen = int64(rv.Index(i).Len())
-				}
-			}
-			if maxLen == 0 {
-				thrower.Throw(ErrEmptySlice)
-			}
-			dims = append(dims, maxLen)
-			return dims, typeChar
+			// special case to longest string, which the caller will find
+			return append(dims, 0), typeChar
 		}
 		if vLen == 0 {
 			// minimal support for unlimited, when it is the only dimension.
@@ -322,7 +312,27 @@ func (cw *CDFWriter) getDimLengthsHelper(
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
-	return cw.getDimLengthsHelper(v, dims, dimNames)
+	dims, kind := cw.getDimLengthsHelper(v, dims, dimNames)
+	if kind == typeChar && v.Kind() != reflect.String {
+		maxLen := longestString(v)
+		if maxLen == 0 {
+			thrower.Throw(ErrEmptySlice)
+		}
+		dims[len(dims)-1] = maxLen
+	}
+	return dims, kind
+}
+
+// longestString returns the length of the longest string in a (nested) slice of them.
+func longestString(v reflect.Value) int64 {
+	if v.Kind() == reflect.String {
+		return int64(v.Len())
+	}
+	maxLen := int64(0)
+	for i := range v.Len() {
+		maxLen = max(maxLen, longestString(v.Index(i)))
+	}
+	return maxLen
 }
 
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
-- 
2.43.0


From c0765b4210a274cb0003d18d39b9c62b91e2c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 07/72] fix: write the string and vlen heap before the
 coordinate variables

A coordinate variable of strings, or one with string-list or vlen attributes,
was written before the heap existed: Close panicked on a nil pointer.  The
references to dimension scales now have a heap of their own, which also ends
the clash between a string "__dimref:x" and dimension x.
---
 netcdf/hdf5/hdf5writer.go   | 34 +++++++++++++++++++---------------
 netcdf/hdf5/writer_utils.go |  4 ++--
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 9064ce6..2f8e46b 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -55,7 +55,8 @@ type HDF5Writer struct {
 	file            seam.File
 	buf             *bytes.Buffer
 	root            *h5Group
-	heap            *h5GlobalHeap
+	heap            *h5GlobalHeap     // strings and vlen data
+	dimHeap         *h5GlobalHeap     // references to dimension scales
 	closed          bool
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
@@ -78,19 +79,20 @@ func (hw *HDF5Writer) Close() (err error) {
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
 
-	// 2. Write dimension scale variable data and OHs first,
-	//    so we know their addresses for DIMENSION_LIST references.
-	hw.writeDimScaleContents(hw.root)
-
-	// 3. Collect strings, vlen data, and dimension references, then write global heap
+	// 2. Collect strings and vlen data, then write the global heap.  This has
+	//    to come first because any variable or attribute can refer to it.
 	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
+	hw.writeGlobalHeap(hw.heap)
+
+	// 3. Write dimension scale variable data and OHs, so we know their
+	//    addresses for DIMENSION_LIST references, and the heap of references.
+	hw.writeDimScaleContents(hw.root)
+	hw.dimHeap = &h5GlobalHeap{indices: make(map[string]uint32)}
 	hw.collectDimReferences(hw.root)
-	if len(hw.heap.objects) > 0 {
-		hw.writeGlobalHeap()
-	}
+	hw.writeGlobalHeap(hw.dimHeap)
 
 	// 4. Write data variables and subgroups
 	hw.writeGroupContents(hw.root)
@@ -260,7 +262,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if dname == "" {
 				continue
 			}
-			if _, ok := hw.heap.indices["__dimref:"+dname]; ok {
+			if _, ok := hw.dimHeap.indices[dname]; ok {
 				continue
 			}
 			addr, ok := hw.dimAddrs[dname]
@@ -270,8 +272,8 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			// Store the 8-byte object reference in the global heap
 			ref := make([]byte, 8)
 			binary.LittleEndian.PutUint64(ref, addr)
-			hw.heap.objects = append(hw.heap.objects, ref)
-			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
+			hw.dimHeap.objects = append(hw.dimHeap.objects, ref)
+			hw.dimHeap.indices[dname] = uint32(len(hw.dimHeap.objects))
 		}
 	}
 	for _, sub := range g.groups {
@@ -408,7 +410,7 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 	}
 
 	// Add DIMENSION_LIST attribute for data variables (not dim scales)
-	if !v.isDimScale && len(v.dimensions) > 0 && hw.heap != nil {
+	if !v.isDimScale && len(v.dimensions) > 0 {
 		dimListMsg := hw.buildDimensionListAttribute(v.dimensions)
 		if dimListMsg != nil {
 			messages = append(messages, *dimListMsg)
@@ -941,8 +943,10 @@ func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
 	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
 }
 
-func (hw *HDF5Writer) writeGlobalHeap() {
-	gh := hw.heap
+func (hw *HDF5Writer) writeGlobalHeap(gh *h5GlobalHeap) {
+	if len(gh.objects) == 0 {
+		return
+	}
 
 	// Align to 8 bytes so that objects within the collection are
 	// properly aligned when using absolute buffer position for padding.
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index f67ac72..72f3fec 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -601,9 +601,9 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.heap.indices["__dimref:"+dname]
+		heapIdx := hw.dimHeap.indices[dname]
 		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
-		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
+		util.MustWriteLE(buf, hw.dimHeap.addr) // global heap address
 		util.MustWriteLE(buf, heapIdx)         // global heap object index
 	}
 
-- 
2.43.0


From 5df30c14671983a9a9bd3a5b3743ed037738d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 08/72] fix: keep the bytes a read returns with an error, and
 fill ReadAt's buffer

raFile.Read dropped bytes that came together with io.EOF, and ReadAt
took whatever one Read returned, so a storage that delivers short reads
made a good file look corrupt.
---
 netcdf/hdf5/readers.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 5e11c32..4c0ac9f 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -231,27 +231,15 @@ func (f *raFile) readNoLock(p []byte) (int, error) {
 	n, err := f.rcFile.file.Read(p[:thisLen])
 	if err != nil {
 		logger.Error("Read error in Read", err, io.SeekStart)
-		return 0, err
 	}
-	// Save position
+	// Save position.  Bytes that come together with an error count too.
 	f.seekPointer += int64(n)
 	// Return read results
 	return n, err
 }
 
 func (f *raFile) ReadAt(b []byte, offset int64) (int, error) {
-	f.rcFile.Lock()
-	defer f.rcFile.Unlock()
-	save := f.seekPointer
-	_, err := f.rcFile.file.Seek(offset, io.SeekStart)
-	if err != nil {
-		logger.Error("Seek error in ReadAt", err, offset, io.SeekStart)
-		return 0, err
-	}
-	f.seekPointer = offset
-	n, retErr := f.readNoLock(b)
-	f.seekPointer = save
-	return n, retErr
+	return io.ReadFull(f.seekAt(offset), b)
 }
 
 func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
-- 
2.43.0


From c1dac2b09862cf284274fe2fd1daed94121f392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 09/72] fix: report a data read that fails or comes up short in
 the HDF5 reader

The shuffle, fletcher32 and chunk readers dropped I/O errors or took a
short input for the end of the data, and the caller then got zeros, fill
values or the following chunk's bytes in the place of the missing data.
---
 netcdf/hdf5/hdf5.go    | 22 +---------------
 netcdf/hdf5/readers.go | 58 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index fbd99d5..f50706b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2454,26 +2454,6 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 	return reflect.MakeSlice(sliceType, int(dimLengths[0]), int(dimLengths[0]))
 }
 
-func readAll(bf io.Reader, b []byte) (uint64, error) {
-	tot := uint64(0)
-	for {
-		n, err := bf.Read(b)
-		if n == 0 {
-			break
-		}
-		tot += uint64(n)
-		b = b[n:]
-		if err == io.EOF {
-			return tot, err
-		}
-		if err != nil {
-			logger.Error("Some other error", err)
-			return tot, err
-		}
-	}
-	return tot, nil
-}
-
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	nBlocks := len(obj.dataBlocks)
 	size := uint64(calcAttrSize(obj.objAttr))
@@ -2617,7 +2597,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		}
 		assert(seg.offset <= off, "discontiguous data")
 		logger.Infof("Reader at offset 0x%x length %d", seg.offset, seg.length)
-		readers = append(readers, newResetReader(r, int64(seg.length)))
+		readers = append(readers, newExactReader(r, int64(seg.length)))
 		off += seg.length
 	}
 	if size > off {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 4c0ac9f..4ba32fb 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -97,9 +97,12 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 	if thisLen+fl.count > fl.size-4 {
 		thisLen = (fl.size - 4) - fl.count
 	}
+	if thisLen == 0 && len(b) > 0 {
+		return 0, io.EOF
+	}
 	n, err := fl.r.Read(b[:thisLen])
-	if err != nil && err != io.EOF {
-		return 0, err
+	if err == io.EOF && fl.count+uint64(n) == fl.size-4 {
+		err = nil // that was the last byte of data
 	}
 	addToSums := func(val uint16) {
 		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
@@ -138,7 +141,7 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 			thrower.Throw(ErrFletcherChecksum)
 		}
 	}
-	return n, nil
+	return n, err
 }
 
 func (r *resetReader) Rem() int64 {
@@ -304,14 +307,13 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	if thisLen > r.size {
 		thisLen = r.size
 	}
-	var err error
 	if r.b == nil {
-		r.b = make([]byte, r.size)
-		tot, err := readAll(r.r, r.b)
-		unshuffle(r.b[:tot], r.shuffleParam)
-		if err != nil {
-			assert(err == io.EOF, err.Error())
+		b := make([]byte, r.size)
+		if _, err := io.ReadFull(r.r, b); err != nil {
+			return 0, noEOF(err)
 		}
+		unshuffle(b, r.shuffleParam)
+		r.b = b
 	}
 	copy(p, r.b[:thisLen])
 	r.b = r.b[thisLen:]
@@ -319,7 +321,41 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	if r.size == 0 {
 		return int(thisLen), io.EOF
 	}
-	return int(thisLen), err
+	return int(thisLen), nil
+}
+
+// noEOF turns the end of the input, where more was needed, into an error that
+// nobody takes for an ordinary end.
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
+// exactReader reads size bytes from r, and fails if r ends before that.
+type exactReader struct {
+	r   io.Reader
+	rem int64
+}
+
+func newExactReader(r io.Reader, size int64) io.Reader {
+	return &exactReader{r, size}
+}
+
+func (er *exactReader) Read(p []byte) (int, error) {
+	if er.rem == 0 {
+		return 0, io.EOF
+	}
+	if int64(len(p)) > er.rem {
+		p = p[:er.rem]
+	}
+	n, err := er.r.Read(p)
+	er.rem -= int64(n)
+	if err == io.EOF && er.rem > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
 }
 
 type layoutReader struct {
@@ -442,7 +478,7 @@ func (lr *layoutReader) fillrow() error {
 		// Read one chunk
 		_, err := io.ReadFull(lr.r, readBuf)
 		if err != nil {
-			return err
+			return noEOF(err)
 		}
 
 		// Interleave this chunk's rows into lr.buf
-- 
2.43.0


From 0fd919abac28e6f1c0ca210cd5adc5bad1f1ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 10/72] fix: HDF5 slices that stick, run over the end, or start
 at the wrong row

GetSlice stored its bounds in the variable itself, so that later reads of
the variable returned the slice.  Slices of variables with multi-row
chunks always started at row 0, a slice that ended in unallocated chunks
ended early, and bounds were not checked against the dimensions.
---
 netcdf/hdf5/hdf5.go | 59 ++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index f50706b..eb0ffb9 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2600,8 +2600,8 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		readers = append(readers, newExactReader(r, int64(seg.length)))
 		off += seg.length
 	}
-	if size > off {
-		extra := size - off
+	if lastOffset > off {
+		extra := lastOffset - off
 		logger.Infof("Fill value reader at end offset 0x%x length %d",
 			off, extra)
 		readers = append(readers, makeFillValueReader(obj, nil, int64(extra)))
@@ -2673,37 +2673,15 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 
 func (h5 *HDF5) getData(obj *object) any {
 	attr := obj.objAttr
-	sz := calcAttrSize(obj.objAttr)
 	bf := h5.newMaybeLayoutRecordReader(obj)
-	logger.Info("about to getdataattr rem=", bf.(remReader).Rem(), "size=", sz)
-	if int64(sz) > bf.(remReader).Rem() {
-		length := int64(sz) - bf.(remReader).Rem()
-		logger.Info("Add fill value reader", length)
-		bf = makeFillValueReader(obj, bf, int64(sz))
+	logger.Info("about to getdataattr rem=", bf.(remReader).Rem())
+	if attr.isSlice && needsLayoutReader(attr) && attr.dimensions[0] > 0 {
+		// The layout reader delivers the whole variable.  Pick the slice out of it.
+		rowSize := int64(calcDataSize(attr) / attr.dimensions[0] * uint64(attr.length))
+		skip(bf, rowSize*attr.firstDim)
+		bf = newResetReader(bf, rowSize*(attr.lastDim-attr.firstDim))
 	}
-	var bff io.Reader
-	if attr.isSlice {
-		assert(attr.lastDim >= attr.firstDim, "bad slice params")
-		var chunkSize int64
-		switch {
-		case len(attr.dimensions) == 0:
-			chunkSize = 1
-		case attr.dimensions[0] == 0:
-			chunkSize = 0
-		default:
-			chunkSize = int64(sz) / int64(attr.dimensions[0])
-			if needsLayoutReader(attr) {
-				// The above calculation could be wrong due to layout chunks.
-				// The calculation is not simple and is a TODO.
-				logger.Info("var slices with chunked layout not fully implemented")
-			}
-		}
-		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
-		bff = newResetReader(bf, sliceSize)
-	} else {
-		bff = newResetReader(bf, int64(sz))
-	}
-	return getDataAttr(h5, h5, bff, *attr)
+	return getDataAttr(h5, h5, bf, *attr)
 }
 
 func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
@@ -3274,17 +3252,23 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		d = int64(found.objAttr.dimensions[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
-		if begin == 0 && end == 1 && fakeEnd {
+		if begin < 0 || end < begin || end > d {
+			return nil, errors.New("invalid slice parameters")
+		}
+		if fakeEnd {
+			if begin == end {
+				return nil, errors.New("invalid slice parameters")
+			}
 			data := h5.getData(found)
 			if data == nil {
 				return nil, ErrNotFound
 			}
 			return data, nil
 		}
-		if end < begin {
-			return nil, errors.New("invalid slice parameters")
-		}
+		// The slice parameters must not stick to the variable.
 		fakeObj := *found
+		fakeAttr := *found.objAttr
+		fakeObj.objAttr = &fakeAttr
 		fakeObj.objAttr.isSlice = true
 		fakeObj.objAttr.firstDim = begin
 		fakeObj.objAttr.lastDim = end
@@ -3299,10 +3283,13 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			return nil, ErrDimensionality
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if begin[i] < 0 || end[i] < begin[i] || end[i] > int64(found.objAttr.dimensions[i]) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
+		if len(begin) == 0 {
+			return getSlice(0, 1)
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
-- 
2.43.0


From c5489019ff178bf4bba4870ae7a0ff7d5725ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 11/72] fix: list HDF5 attributes, groups and types in a fixed
 order

They were listed in Go's random map order, and so was the choice among
named types of equal structure.  Attributes keep the file's order;
children without a creation order are listed by name.
---
 netcdf/hdf5/hdf5.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index eb0ffb9..dd7e8a1 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2969,7 +2969,7 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
-	for typeName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
 		if obj.isGroup {
 			continue
 		}
@@ -2980,7 +2980,7 @@ func (h5 *HDF5) ListTypes() []string {
 			// this is a variable
 			continue
 		}
-		ret = append(ret, typeName)
+		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -3020,7 +3020,8 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	if h5.groupObject == nil {
 		return ""
 	}
-	for varName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
+		varName := obj.name
 		if obj.isGroup || origNames[varName] {
 			continue
 		}
@@ -3059,6 +3060,7 @@ func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	filtered := make(map[string]any)
+	keys := []string{}
 	for i := range unfiltered {
 		val := unfiltered[i]
 		logger.Infof("getting attribute %s %p", val.name, val)
@@ -3076,13 +3078,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				val.value = getDataAttr(h5, h5, val.df, *val)
 			}
 			value := undoScalarAttribute(val.value)
+			if _, has := filtered[val.name]; !has {
+				keys = append(keys, val.name)
+			}
 			filtered[val.name] = value
 		}
 	}
-	keys := []string{}
-	for key := range filtered {
-		keys = append(keys, key)
-	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
 	om.Hide(ncpKey)
@@ -3340,8 +3341,7 @@ func (h5 *HDF5) ListSubgroups() []string {
 			ret = append(ret, tail)
 			return
 		}
-		obj.sortChildren()
-		for _, o := range obj.children {
+		for _, o := range obj.sortChildren() {
 			sgDescend(o, group+o.name+"/")
 		}
 	}
@@ -3356,7 +3356,7 @@ func (h5 *HDF5) sortAttrList(obj *object) {
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 	}
-	sort.Slice(obj.attrlist, func(i, j int) bool {
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
 	})
 	obj.attrListIsSorted = true
@@ -3368,7 +3368,10 @@ func (obj *object) sortChildren() []*object {
 		children = append(children, child)
 	}
 	sort.Slice(children, func(i, j int) bool {
-		return children[i].creationOrder < children[j].creationOrder
+		if children[i].creationOrder != children[j].creationOrder {
+			return children[i].creationOrder < children[j].creationOrder
+		}
+		return children[i].name < children[j].name
 	})
 	return children
 }
-- 
2.43.0


From e77c1f93d97831c1ccb29d49600abf924601098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 12/72] fix: a CDF writer call that is refused must leave
 nothing behind

AddVar left dimensions and the version 5 flag behind when it failed, and
accepted ragged slices, duplicate names, a second unlimited dimension,
extra dimensions and zero lengths that only made Close fail or the file
malformed.  AddAttributes did not check types.  Values that are arrays or
of named types made Close panic; nil made AddVar panic.
---
 netcdf/cdf/cdfwriter.go | 141 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 134 insertions(+), 7 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 550e87d..8606dd8 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -44,6 +44,7 @@ type CDFWriter struct {
 	nextID      int64
 	version     int8
 	begin       int64
+	closed      bool
 }
 
 var (
@@ -52,6 +53,9 @@ var (
 	ErrInvalidName          = errors.New("invalid name")
 	ErrAttribute            = errors.New("invalid attribute")
 	ErrEmptySlice           = errors.New("empty slice encountered")
+	ErrRagged               = errors.New("slices of different lengths in one dimension")
+	ErrDuplicateName        = errors.New("name already in use")
+	ErrClosed               = errors.New("writer is closed")
 )
 
 func (c *countedWriter) Count() int64 {
@@ -396,10 +400,16 @@ func hasValidNames(am api.AttributeMap) bool {
 
 // AddAttributes adds attributes to be written out.
 // Use util.NewOrderedMap to create attribute maps.
-func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) error {
+func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
+	defer thrower.RecoverError(&err)
+
+	if cw.closed {
+		return ErrClosed
+	}
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
+	needsV5(attrs) // throws if the types are not supported
 	cw.globalAttrs = attrs
 	return nil
 }
@@ -412,16 +422,46 @@ func (cw *CDFWriter) CreateGroup(name string) (api.Writer, error) {
 // AddVar adds a variable to be written out.
 // Use util.NewOrderedMap to create attribute maps for the variable.
 func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
+	// A call that fails must not leave anything behind.
+	oldVersion, oldDims := cw.version, len(cw.dimNames)
+	defer func() {
+		if err == nil {
+			return
+		}
+		cw.version = oldVersion
+		for _, dimName := range cw.dimNames[oldDims:] {
+			delete(cw.dimLengths, dimName)
+			delete(cw.dimIds, dimName)
+		}
+		cw.dimNames = cw.dimNames[:oldDims]
+		cw.nextID = int64(oldDims)
+	}()
 	defer thrower.RecoverError(&err)
 
+	if cw.closed {
+		return ErrClosed
+	}
 	if !internal.IsValidNetCDFName(name) {
 		return ErrInvalidName
 	}
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for i := range cw.vars {
+		if cw.vars[i].name == name {
+			return ErrDuplicateName
+		}
+	}
 	cw.checkV5Attributes(vr.Attributes)
-	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
+	if vr.Values == nil {
+		return ErrUnknownType
+	}
+	values := plainValue(reflect.ValueOf(vr.Values))
+	dimLengths, ty := cw.getDimLengths(values.Interface(), vr.Dimensions)
+	checkRectangular(values, dimLengths)
+	if len(vr.Dimensions) > len(dimLengths) {
+		return ErrDimensionSize
+	}
 	switch ty {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
@@ -447,17 +487,96 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 				thrower.Throw(ErrDimensionSize)
 			}
 		} else {
+			if dimLengths[i] == 0 && cw.hasUnlimited() {
+				// there can be only one
+				thrower.Throw(ErrDimensionSize)
+			}
 			cw.dimLengths[dimName] = dimLengths[i]
 			cw.dimIds[dimName] = cw.nextID
 			cw.dimNames = append(cw.dimNames, dimName)
 			cw.nextID++
 		}
 	}
-	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		dimNames, vr.Attributes, 0})
+	saved := savedVar{name, values.Interface(), ty, dimLengths, dimNames, vr.Attributes, 0}
+	saved.vsize = saved.computeVsize() // throws if the dimensions are not possible
+	cw.vars = append(cw.vars, saved)
 	return nil
 }
 
+// hasUnlimited returns true if there already is an unlimited dimension.
+func (cw *CDFWriter) hasUnlimited() bool {
+	for _, length := range cw.dimLengths {
+		if length == 0 {
+			return true
+		}
+	}
+	return false
+}
+
+// plainValue returns a value made of slices of the built-in types, which is
+// what writeData expects: arrays become slices and named types lose their names.
+func plainValue(v reflect.Value) reflect.Value {
+	t := v.Type()
+	depth := 0
+	exact := true
+	for t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
+		exact = exact && t.Kind() == reflect.Slice && t.Name() == ""
+		t = t.Elem()
+		depth++
+	}
+	builtin, has := plainTypes[t.Kind()]
+	if !has || (exact && t == builtin) {
+		return v
+	}
+	t = builtin
+	for range depth {
+		t = reflect.SliceOf(t)
+	}
+	var plain func(v reflect.Value, t reflect.Type) reflect.Value
+	plain = func(v reflect.Value, t reflect.Type) reflect.Value {
+		if t.Kind() != reflect.Slice {
+			return v.Convert(t)
+		}
+		s := reflect.MakeSlice(t, v.Len(), v.Len())
+		for i := range v.Len() {
+			s.Index(i).Set(plain(v.Index(i), t.Elem()))
+		}
+		return s
+	}
+	return plain(v, t)
+}
+
+var plainTypes = map[reflect.Kind]reflect.Type{
+	reflect.String:  reflect.TypeFor[string](),
+	reflect.Int8:    reflect.TypeFor[int8](),
+	reflect.Int16:   reflect.TypeFor[int16](),
+	reflect.Int32:   reflect.TypeFor[int32](),
+	reflect.Int64:   reflect.TypeFor[int64](),
+	reflect.Uint8:   reflect.TypeFor[uint8](),
+	reflect.Uint16:  reflect.TypeFor[uint16](),
+	reflect.Uint32:  reflect.TypeFor[uint32](),
+	reflect.Uint64:  reflect.TypeFor[uint64](),
+	reflect.Float32: reflect.TypeFor[float32](),
+	reflect.Float64: reflect.TypeFor[float64](),
+}
+
+// checkRectangular checks that all the slices of one dimension have its length.
+// Strings can be shorter than theirs; they are padded.
+func checkRectangular(v reflect.Value, dimLengths []int64) {
+	if len(dimLengths) == 0 || v.Kind() == reflect.String {
+		return
+	}
+	if int64(v.Len()) != dimLengths[0] {
+		thrower.Throw(ErrRagged)
+	}
+	if len(dimLengths) == 1 {
+		return
+	}
+	for i := range v.Len() {
+		checkRectangular(v.Index(i), dimLengths[1:])
+	}
+}
+
 func (cw *CDFWriter) writeAttributes(attrs api.AttributeMap) {
 	if attrs == nil || len(attrs.Keys()) == 0 {
 		write32(cw.bf, 0)        //  attributes: absent
@@ -593,8 +712,16 @@ func (cw *CDFWriter) writeAttributes(attrs api.AttributeMap) {
 }
 
 func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
+	if needsV5(attrs) {
+		cw.version = 5
+	}
+}
+
+// needsV5 returns true if any attribute has a type that only version 5 has.
+func needsV5(attrs api.AttributeMap) bool {
+	v5 := false
 	if attrs == nil {
-		return
+		return false
 	}
 	for _, k := range attrs.Keys() {
 		v, _ := attrs.Get(k)
@@ -603,14 +730,14 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 			[]int8, []int16, []int32, []float32, []float64:
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
-			cw.version = 5
-			return
+			v5 = true
 
 		default:
 			logger.Errorf("invalid attribute %#v", v)
 			thrower.Throw(ErrAttribute)
 		}
 	}
+	return v5
 }
 
 func (cw *CDFWriter) writeVar(which int) {
-- 
2.43.0


From 9927cb4bfff5cc9ba4aab305e62cc629d5ef2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 13/72] fix: close the CDF file when writing it fails, and only
 once

An error thrown while the header was written left the file open, and a
second Close wrote it again or panicked.
---
 netcdf/cdf/cdfwriter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 8606dd8..1c2f724 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -987,14 +987,16 @@ func (cw *CDFWriter) writeData(saved savedVar) {
 }
 
 // Close writes all the data out and closes the file.
-func (cw *CDFWriter) Close() (err error) {
-	defer thrower.RecoverError(&err)
-	cw.writeAll()
-	err = cw.bf.Flush()
+func (cw *CDFWriter) Close() error {
+	if cw.closed {
+		return nil
+	}
+	cw.closed = true
+	err := cw.writeOut()
 	err2 := cw.file.Close()
 	if err == nil {
 		err = err2
-	} else {
+	} else if err2 != nil {
 		// return the first error, log the second
 		logger.Error(err2)
 	}
@@ -1002,6 +1004,12 @@ func (cw *CDFWriter) Close() (err error) {
 	return err
 }
 
+func (cw *CDFWriter) writeOut() (err error) {
+	defer thrower.RecoverError(&err)
+	cw.writeAll()
+	return cw.bf.Flush()
+}
+
 func writeAny(w io.Writer, any any) {
 	util.MustWriteBE(w, any)
 }
-- 
2.43.0


From 79ab82c583845d432576f44981f7c327e02018f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 14/72] fix: HDF5 Close panicked when the root attributes had
 been set to nil

---
 netcdf/hdf5/hdf5writer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 2f8e46b..0e32117 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -122,13 +122,16 @@ func (hw *HDF5Writer) Close() (err error) {
 // addNCProperties adds the _NCProperties hidden attribute to the root group.
 func (hw *HDF5Writer) addNCProperties() {
 	const ncpValue = "version=2,github.com/batchatco/go-native-netcdf=1.0"
-	keys := hw.root.attributes.Keys()
-	keys = append(keys, ncpKey)
+	var keys []string
 	vals := make(map[string]any)
-	for _, k := range hw.root.attributes.Keys() {
-		v, _ := hw.root.attributes.Get(k)
-		vals[k] = v
+	if hw.root.attributes != nil {
+		keys = slices.Clone(hw.root.attributes.Keys())
+		for _, k := range keys {
+			v, _ := hw.root.attributes.Get(k)
+			vals[k] = v
+		}
 	}
+	keys = append(keys, ncpKey)
 	vals[ncpKey] = ncpValue
 	hw.root.attributes, _ = util.NewOrderedMap(keys, vals)
 }
-- 
2.43.0


From a31d4dcd70c2cb6fe0a34756b0a05afca509f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 15/72] fix: close the HDF5 file when writing it fails

---
 netcdf/hdf5/hdf5writer.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 0e32117..93c3399 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -64,12 +64,22 @@ type HDF5Writer struct {
 	vlenPos         int      // counter into vlenHeapIndices during data write
 }
 
-func (hw *HDF5Writer) Close() (err error) {
-	defer thrower.RecoverError(&err)
+func (hw *HDF5Writer) Close() error {
 	if hw.closed {
 		return nil
 	}
 	hw.closed = true
+	err := hw.writeOut()
+	err2 := hw.file.Close()
+	if err == nil {
+		err = err2
+	}
+	return err
+}
+
+// writeOut builds the file and writes it.
+func (hw *HDF5Writer) writeOut() (err error) {
+	defer thrower.RecoverError(&err)
 
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
@@ -112,10 +122,6 @@ func (hw *HDF5Writer) Close() (err error) {
 	binary.LittleEndian.PutUint32(data[44:], sbChecksum)
 
 	_, err = hw.file.Write(data)
-	if err != nil {
-		return err
-	}
-	err = hw.file.Close()
 	return err
 }
 
-- 
2.43.0


From 82a9157018275981ad36f1fee6d47bbd0fc3b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 16/72] fix: refuse what an HDF5 file cannot hold when it is
 added, not at Close

Ragged arrays, values of mixed or undeterminable types, dimension lists that
do not match the value, names that are taken, reserved attribute names,
attributes that do not fit into a message and calls after Close were accepted
and made Close fail, panic or write a file that reads differently.  Lists of
strings of varying length were accepted as well but got fixed-size elements;
they are written as variable-length strings now, which needs the addresses of
heap objects when they are added, and heap indices no longer overflow.
---
 netcdf/hdf5/errors.go       |   9 +
 netcdf/hdf5/hdf5writer.go   | 548 +++++++++++++++++++++++-------------
 netcdf/hdf5/writer_utils.go |  48 ++--
 3 files changed, 387 insertions(+), 218 deletions(-)

diff --git a/netcdf/hdf5/errors.go b/netcdf/hdf5/errors.go
index 3a20a32..5568297 100644
--- a/netcdf/hdf5/errors.go
+++ b/netcdf/hdf5/errors.go
@@ -85,4 +85,13 @@ var (
 	// ErrUnsupportedType is returned when a Go type not supported by NetCDF4
 	// is passed to the writer (e.g. bool, complex64, int).
 	ErrUnsupportedType = errors.New("unsupported type")
+
+	// ErrDuplicateName is returned by the writer for a name that is already in use
+	ErrDuplicateName = errors.New("name already in use")
+
+	// ErrClosed is returned by the writer when it is used after Close
+	ErrClosed = errors.New("writer is closed")
+
+	// ErrTooLarge is returned by the writer for things that the format has no room for
+	ErrTooLarge = errors.New("too large")
 )
diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 93c3399..d0ed1cb 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"slices"
 
@@ -20,29 +21,39 @@ var (
 )
 
 type h5Var struct {
-	name            string
-	val             any
-	dimensions      []string
-	attributes      api.AttributeMap
-	addr            uint64
-	isDimScale      bool
-	vlenHeapIndices []uint32            // heap indices for vlen elements
-	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
+	name         string
+	val          any
+	dimensions   []string
+	attributes   api.AttributeMap
+	addr         uint64
+	isDimScale   bool
+	vlenRefs     []h5HeapRef            // heap references for vlen elements
+	attrVlenRefs map[string][]h5HeapRef // per-attribute vlen heap references
 }
 
 type h5Group struct {
-	name            string
-	groups          map[string]*h5Group
-	vars            map[string]*h5Var
-	attributes      api.AttributeMap
-	addr            uint64
-	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
+	name         string
+	groups       map[string]*h5Group
+	vars         map[string]*h5Var
+	attributes   api.AttributeMap
+	addr         uint64
+	attrVlenRefs map[string][]h5HeapRef // per-attribute vlen heap references
 }
 
+// h5HeapRef tells where an object is in the global heap.
+type h5HeapRef struct {
+	addr  uint64 // of the collection
+	index uint32 // in the collection
+}
+
+// h5GlobalHeap is a list of heap collections, one after the other.
+// addr is the address of the last one: there are more of them only if one
+// cannot have as many objects.
 type h5GlobalHeap struct {
 	addr    uint64
-	objects [][]byte
-	indices map[string]uint32
+	size    uint64     // of the objects in the last collection
+	objects [][][]byte // by collection
+	refs    map[string]h5HeapRef
 }
 
 type h5Message struct {
@@ -52,16 +63,16 @@ type h5Message struct {
 }
 
 type HDF5Writer struct {
-	file            seam.File
-	buf             *bytes.Buffer
-	root            *h5Group
-	heap            *h5GlobalHeap     // strings and vlen data
-	dimHeap         *h5GlobalHeap     // references to dimension scales
-	closed          bool
-	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
-	byteOrder       binary.ByteOrder
-	vlenHeapIndices []uint32 // per-variable vlen heap indices during data write
-	vlenPos         int      // counter into vlenHeapIndices during data write
+	file      seam.File
+	buf       *bytes.Buffer
+	root      *h5Group
+	heap      *h5GlobalHeap // strings and vlen data
+	dimHeap   *h5GlobalHeap // references to dimension scales
+	closed    bool
+	dimAddrs  map[string]uint64 // dimension name → dim scale variable OH address
+	byteOrder binary.ByteOrder
+	vlenRefs  []h5HeapRef // per-variable vlen heap references during data write
+	vlenPos   int         // counter into vlenRefs during data write
 }
 
 func (hw *HDF5Writer) Close() error {
@@ -91,7 +102,7 @@ func (hw *HDF5Writer) writeOut() (err error) {
 
 	// 2. Collect strings and vlen data, then write the global heap.  This has
 	//    to come first because any variable or attribute can refer to it.
-	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	hw.heap = hw.newGlobalHeap()
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
@@ -100,7 +111,7 @@ func (hw *HDF5Writer) writeOut() (err error) {
 	// 3. Write dimension scale variable data and OHs, so we know their
 	//    addresses for DIMENSION_LIST references, and the heap of references.
 	hw.writeDimScaleContents(hw.root)
-	hw.dimHeap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	hw.dimHeap = hw.newGlobalHeap()
 	hw.collectDimReferences(hw.root)
 	hw.writeGlobalHeap(hw.dimHeap)
 
@@ -271,7 +282,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if dname == "" {
 				continue
 			}
-			if _, ok := hw.dimHeap.indices[dname]; ok {
+			if _, ok := hw.dimHeap.refs[dname]; ok {
 				continue
 			}
 			addr, ok := hw.dimAddrs[dname]
@@ -281,8 +292,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			// Store the 8-byte object reference in the global heap
 			ref := make([]byte, 8)
 			binary.LittleEndian.PutUint64(ref, addr)
-			hw.dimHeap.objects = append(hw.dimHeap.objects, ref)
-			hw.dimHeap.indices[dname] = uint32(len(hw.dimHeap.objects))
+			hw.dimHeap.refs[dname] = hw.dimHeap.add(ref)
 		}
 	}
 	for _, sub := range g.groups {
@@ -359,11 +369,11 @@ func (hw *HDF5Writer) writeGroupObjectHeaderV2(g *h5Group) {
 	if g.attributes != nil {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
-			if indices, ok := g.attrVlenIndices[k]; ok {
-				hw.vlenHeapIndices = indices
+			if refs, ok := g.attrVlenRefs[k]; ok {
+				hw.vlenRefs = refs
 				hw.vlenPos = 0
 			} else {
-				hw.vlenHeapIndices = nil
+				hw.vlenRefs = nil
 			}
 			messages = append(messages, hw.buildAttributeMessage(k, val))
 		}
@@ -408,11 +418,11 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 	if v.attributes != nil {
 		for _, k := range v.attributes.Keys() {
 			val, _ := v.attributes.Get(k)
-			if indices, ok := v.attrVlenIndices[k]; ok {
-				hw.vlenHeapIndices = indices
+			if refs, ok := v.attrVlenRefs[k]; ok {
+				hw.vlenRefs = refs
 				hw.vlenPos = 0
 			} else {
-				hw.vlenHeapIndices = nil
+				hw.vlenRefs = nil
 			}
 			messages = append(messages, hw.buildAttributeMessage(k, val))
 		}
@@ -431,10 +441,10 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 
 func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 	buf := new(bytes.Buffer)
-	util.MustWriteByte(buf, 0)                      // version
-	util.MustWriteByte(buf, 0)                      // flags (no creation order tracking)
-	util.MustWriteLE(buf, uint64(invalidAddress))   // fractal heap address (undefined = compact)
-	util.MustWriteLE(buf, uint64(invalidAddress))   // name index v2 B-tree address (undefined = compact)
+	util.MustWriteByte(buf, 0)                    // version
+	util.MustWriteByte(buf, 0)                    // flags (no creation order tracking)
+	util.MustWriteLE(buf, uint64(invalidAddress)) // fractal heap address (undefined = compact)
+	util.MustWriteLE(buf, uint64(invalidAddress)) // name index v2 B-tree address (undefined = compact)
 	return h5Message{mType: 2, data: buf.Bytes()}
 }
 
@@ -485,9 +495,9 @@ func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
 			pad += 8
 		}
 		// Write a null message (type 0) with data size = pad - 4
-		util.MustWriteByte(msgBuf, 0)                      // type 0 (nil)
-		util.MustWriteLE(msgBuf, uint16(pad-4))            // data size
-		util.MustWriteByte(msgBuf, 0)                      // flags
+		util.MustWriteByte(msgBuf, 0)           // type 0 (nil)
+		util.MustWriteLE(msgBuf, uint16(pad-4)) // data size
+		util.MustWriteByte(msgBuf, 0)           // flags
 		for range pad - 4 {
 			util.MustWriteByte(msgBuf, 0) // null data
 		}
@@ -499,6 +509,7 @@ func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
 	util.MustWriteLE(ohBuf, ohChecksum)
 	util.MustWriteRaw(hw.buf, ohBuf.Bytes())
 }
+
 // writeData writes variable data to the buffer and returns the logical
 // data size (before alignment padding).
 func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
@@ -514,7 +525,7 @@ func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
 		}
 	}
 	// Set up vlen state for this variable
-	hw.vlenHeapIndices = v.vlenHeapIndices
+	hw.vlenRefs = v.vlenRefs
 	hw.vlenPos = 0
 
 	nDims := len(v.dimensions)
@@ -544,11 +555,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen data: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(hw.buf, uint32(rv.Len()))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
-			hw.vlenPos++
+			hw.writeNextVlenRef(hw.buf, rv.Len())
 			return
 		}
 		for i := range rv.Len() {
@@ -566,11 +573,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 			}
 		} else {
 			// VLen string
-			str := rv.String()
-			idx := hw.heap.indices[str]
-			util.MustWriteLE(hw.buf, uint32(len(str)))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.writeStringRef(hw.buf, rv.String())
 		}
 		return
 	}
@@ -685,9 +688,8 @@ func (hw *HDF5Writer) collectStringsActual(rv reflect.Value) {
 }
 
 func (hw *HDF5Writer) addStringToHeap(s string) {
-	if _, ok := hw.heap.indices[s]; !ok {
-		hw.heap.objects = append(hw.heap.objects, []byte(s))
-		hw.heap.indices[s] = uint32(len(hw.heap.objects))
+	if _, ok := hw.heap.refs[s]; !ok {
+		hw.heap.refs[s] = hw.heap.add([]byte(s))
 	}
 }
 
@@ -762,7 +764,7 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 	}
 	// At the vlen level: serialize this element's data
 	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenElement(rv, v)
+		hw.serializeVlenToHeap(rv, &v.vlenRefs)
 		return
 	}
 	// Check compound fields for vlen
@@ -770,7 +772,7 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 		for _, f := range c {
 			frv := reflect.ValueOf(f.Val)
 			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenElement(frv, v)
+				hw.serializeVlenToHeap(frv, &v.vlenRefs)
 			}
 		}
 	}
@@ -783,13 +785,13 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
-				var indices []uint32
-				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
-				if len(indices) > 0 {
-					if v.attrVlenIndices == nil {
-						v.attrVlenIndices = make(map[string][]uint32)
+				var refs []h5HeapRef
+				hw.collectVlenFromValue(reflect.ValueOf(val), &refs)
+				if len(refs) > 0 {
+					if v.attrVlenRefs == nil {
+						v.attrVlenRefs = make(map[string][]h5HeapRef)
 					}
-					v.attrVlenIndices[k] = indices
+					v.attrVlenRefs[k] = refs
 				}
 			}
 		}
@@ -797,13 +799,13 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 	if g.attributes != nil {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
-			var indices []uint32
-			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
-			if len(indices) > 0 {
-				if g.attrVlenIndices == nil {
-					g.attrVlenIndices = make(map[string][]uint32)
+			var refs []h5HeapRef
+			hw.collectVlenFromValue(reflect.ValueOf(val), &refs)
+			if len(refs) > 0 {
+				if g.attrVlenRefs == nil {
+					g.attrVlenRefs = make(map[string][]h5HeapRef)
 				}
-				g.attrVlenIndices[k] = indices
+				g.attrVlenRefs[k] = refs
 			}
 		}
 	}
@@ -814,7 +816,7 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 
 // collectVlenFromValue recursively walks a value and serializes any vlen
 // elements (varying-length slices) to the global heap.
-func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32) {
+func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, refs *[]h5HeapRef) {
 	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
 	}
@@ -827,16 +829,16 @@ func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32)
 				frv.Type() != reflect.TypeOf(compound{}) &&
 				frv.Type() != reflect.TypeOf(opaque{}) {
 				// Vlen field in compound: serialize it
-				hw.serializeVlenToHeap(frv, indices)
+				hw.serializeVlenToHeap(frv, refs)
 			} else {
-				hw.collectVlenFromValue(frv, indices)
+				hw.collectVlenFromValue(frv, refs)
 			}
 		}
 		return
 	case opaque:
 		return
 	case enumerated:
-		hw.collectVlenFromValue(reflect.ValueOf(v.values), indices)
+		hw.collectVlenFromValue(reflect.ValueOf(v.values), refs)
 		return
 	}
 
@@ -858,20 +860,20 @@ func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32)
 			}
 			if isVlen {
 				for i := range rv.Len() {
-					hw.serializeVlenToHeap(rv.Index(i), indices)
+					hw.serializeVlenToHeap(rv.Index(i), refs)
 				}
 				return
 			}
 		}
 		// Regular array: recurse into elements
 		for i := range rv.Len() {
-			hw.collectVlenFromValue(rv.Index(i), indices)
+			hw.collectVlenFromValue(rv.Index(i), refs)
 		}
 	}
 }
 
 // serializeVlenToHeap serializes a single vlen slice and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
+func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, refs *[]h5HeapRef) {
 	buf := new(bytes.Buffer)
 	for i := range rv.Len() {
 		elem := rv.Index(i)
@@ -882,13 +884,13 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
 			util.MustWriteRaw(buf, []byte(val))
 		case enumerated:
 			util.MustWrite(buf, hw.byteOrder, val.values)
+		case string:
+			hw.writeStringRef(buf, val)
 		default:
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
 	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	*indices = append(*indices, uint32(len(hw.heap.objects)))
+	*refs = append(*refs, hw.heap.add(buf.Bytes()))
 }
 
 // getAttributeDimensions returns the array dimensions and effective nDims
@@ -931,48 +933,72 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	return dims, nDims
 }
 
-// serializeVlenElement serializes a single vlen element and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
-	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
-	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
-}
+const (
+	// The HDF5 library requires global heap collections to be at least
+	// 4096 bytes (H5HG_MINSIZE).
+	minGCOLSize = 4096
 
-func (hw *HDF5Writer) writeGlobalHeap(gh *h5GlobalHeap) {
-	if len(gh.objects) == 0 {
-		return
-	}
+	maxGCOLObjects = math.MaxUint16 // the index has 16 bits
+	heapHeaderSize = 16             // of collections and of objects
+)
 
+// newGlobalHeap starts a heap at the current end of the file. It is to be
+// written there with writeGlobalHeap before anything else is.
+func (hw *HDF5Writer) newGlobalHeap() *h5GlobalHeap {
 	// Align to 8 bytes so that objects within the collection are
 	// properly aligned when using absolute buffer position for padding.
 	for (hw.buf.Len() % 8) != 0 {
 		util.MustWriteByte(hw.buf, 0)
 	}
-	gh.addr = uint64(hw.buf.Len())
+	return &h5GlobalHeap{
+		addr: uint64(hw.buf.Len()),
+		refs: make(map[string]h5HeapRef),
+	}
+}
+
+// collectionSize returns the size of a collection that has these many bytes
+// of objects.  There's always a free space object at the end.
+func collectionSize(size uint64) uint64 {
+	return max(heapHeaderSize+size+heapHeaderSize, minGCOLSize)
+}
+
+// add adds an object to the heap.
+func (gh *h5GlobalHeap) add(obj []byte) h5HeapRef {
+	last := len(gh.objects) - 1
+	switch {
+	case last < 0:
+		gh.objects = append(gh.objects, nil)
+		last++
+	case len(gh.objects[last]) == maxGCOLObjects:
+		gh.addr += collectionSize(gh.size)
+		gh.size = 0
+		gh.objects = append(gh.objects, nil)
+		last++
+	}
+	gh.objects[last] = append(gh.objects[last], obj)
+	gh.size += heapHeaderSize + uint64(len(obj)+7)/8*8
+	return h5HeapRef{gh.addr, uint32(len(gh.objects[last]))}
+}
+
+func (hw *HDF5Writer) writeGlobalHeap(gh *h5GlobalHeap) {
+	for _, objects := range gh.objects {
+		hw.writeCollection(objects)
+	}
+}
+
+func (hw *HDF5Writer) writeCollection(objects [][]byte) {
+	size := uint64(0)
+	for _, obj := range objects {
+		size += heapHeaderSize + uint64(len(obj)+7)/8*8
+	}
 
 	// Collection Header
 	util.MustWriteRaw(hw.buf, []byte("GCOL"))
 	util.MustWriteByte(hw.buf, 1)              // version
 	util.MustWriteRaw(hw.buf, []byte{0, 0, 0}) // reserved
+	util.MustWriteLE(hw.buf, collectionSize(size))
 
-	sizeAddr := hw.buf.Len()
-	util.MustWriteLE(hw.buf, uint64(0)) // placeholder for size
-
-	for i, obj := range gh.objects {
+	for i, obj := range objects {
 		util.MustWriteLE(hw.buf, uint16(i+1)) // index
 		util.MustWriteLE(hw.buf, uint16(0))   // ref count
 		util.MustWriteLE(hw.buf, uint32(0))   // reserved
@@ -984,30 +1010,33 @@ func (hw *HDF5Writer) writeGlobalHeap(gh *h5GlobalHeap) {
 		}
 	}
 
-	// The HDF5 library requires global heap collections to be at least
-	// 4096 bytes (H5HG_MINSIZE). Pad with free space to meet this minimum.
-	// The free space entry (index 0) size field includes its own 16-byte
-	// header — it represents the total remaining bytes from the start of
-	// the entry to the end of the collection.
-	const minGCOLSize = 4096
-	currentSize := hw.buf.Len() - int(gh.addr)
-	totalSize := currentSize + 16 // at least room for the free space header
-	if totalSize < minGCOLSize {
-		totalSize = minGCOLSize
-	}
-	freeEntrySize := totalSize - currentSize // includes the 16-byte header
-	util.MustWriteLE(hw.buf, uint16(0))               // index 0 = free space
-	util.MustWriteLE(hw.buf, uint16(0))               // ref count
-	util.MustWriteLE(hw.buf, uint32(0))               // reserved
-	util.MustWriteLE(hw.buf, uint64(freeEntrySize))   // total free space (incl header)
-	for range freeEntrySize - 16 {
-		util.MustWriteByte(hw.buf, 0)
-	}
+	// Pad with free space. The free space entry (index 0) size field includes
+	// its own 16-byte header — it represents the total remaining bytes from
+	// the start of the entry to the end of the collection.
+	freeEntrySize := collectionSize(size) - heapHeaderSize - size
+	util.MustWriteLE(hw.buf, uint16(0))     // index 0 = free space
+	util.MustWriteLE(hw.buf, uint16(0))     // ref count
+	util.MustWriteLE(hw.buf, uint32(0))     // reserved
+	util.MustWriteLE(hw.buf, freeEntrySize) // total free space (incl header)
+	util.MustWriteRaw(hw.buf, make([]byte, freeEntrySize-heapHeaderSize))
+}
 
-	// Final size
-	finalSize := uint64(hw.buf.Len()) - gh.addr
-	data := hw.buf.Bytes()
-	binary.LittleEndian.PutUint64(data[sizeAddr:], finalSize)
+// writeHeapRef writes the descriptor of a string or list of n elements.
+func writeHeapRef(buf *bytes.Buffer, n int, ref h5HeapRef) {
+	util.MustWriteLE(buf, uint32(n))
+	util.MustWriteLE(buf, ref.addr)
+	util.MustWriteLE(buf, ref.index)
+}
+
+// writeStringRef writes the descriptor of a string that is in the heap.
+func (hw *HDF5Writer) writeStringRef(buf *bytes.Buffer, s string) {
+	writeHeapRef(buf, len(s), hw.heap.refs[s])
+}
+
+// writeNextVlenRef writes the descriptor of the next list of what is being written.
+func (hw *HDF5Writer) writeNextVlenRef(buf *bytes.Buffer, n int) {
+	writeHeapRef(buf, n, hw.vlenRefs[hw.vlenPos])
+	hw.vlenPos++
 }
 
 func (hw *HDF5Writer) getDimensions(val any) []uint64 {
@@ -1064,40 +1093,45 @@ func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
 }
 
 func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
+	return hw.addAttributes(hw.root, attrs)
+}
+
+func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
+	return hw.addVar(hw.root, name, vr)
+}
+
+func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
+	return hw.createGroup(hw.root, name)
+}
+
+func (hw *HDF5Writer) addAttributes(g *h5Group, attrs api.AttributeMap) error {
+	if hw.closed {
+		return ErrClosed
 	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
+	if err := hw.checkAttributes(attrs); err != nil {
+		return err
 	}
-	hw.root.attributes = attrs
+	g.attributes = attrs
 	return nil
 }
 
-func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
+func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
+	if hw.closed {
+		return ErrClosed
+	}
 	if !internal.IsValidNetCDFName(name) {
 		return ErrInvalidName
 	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
+	if g.hasChild(name) {
+		return fmt.Errorf("%w: %s", ErrDuplicateName, name)
 	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
+	if err := hw.checkAttributes(vr.Attributes); err != nil {
+		return err
 	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
+	if err := hw.checkValue(vr.Values, len(vr.Dimensions)); err != nil {
+		return err
 	}
-	hw.root.vars[name] = &h5Var{
+	g.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
 		dimensions: vr.Dimensions,
@@ -1106,22 +1140,35 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 	return nil
 }
 
-func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
+func (hw *HDF5Writer) createGroup(parent *h5Group, name string) (api.Writer, error) {
+	if hw.closed {
+		return nil, ErrClosed
+	}
 	if !internal.IsValidNetCDFName(name) {
 		return nil, ErrInvalidName
 	}
-	if g, ok := hw.root.groups[name]; ok {
+	if g, ok := parent.groups[name]; ok {
 		return &groupWriter{hw: hw, group: g}, nil
 	}
+	if parent.hasChild(name) {
+		return nil, fmt.Errorf("%w: %s", ErrDuplicateName, name)
+	}
 	g := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
 		vars:   make(map[string]*h5Var),
 	}
-	hw.root.groups[name] = g
+	parent.groups[name] = g
 	return &groupWriter{hw: hw, group: g}, nil
 }
 
+// hasChild returns true if the group has a variable or a subgroup of that name.
+func (g *h5Group) hasChild(name string) bool {
+	_, isVar := g.vars[name]
+	_, isGroup := g.groups[name]
+	return isVar || isGroup
+}
+
 type groupWriter struct {
 	hw    *HDF5Writer
 	group *h5Group
@@ -1132,62 +1179,169 @@ func (gw *groupWriter) Close() error {
 }
 
 func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
+	return gw.hw.addAttributes(gw.group, attrs)
+}
+
+func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
+	return gw.hw.addVar(gw.group, name, vr)
+}
+
+func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
+	return gw.hw.createGroup(gw.group, name)
+}
+
+// checkAttributes checks that the attributes can be written.
+func (hw *HDF5Writer) checkAttributes(attrs api.AttributeMap) error {
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
+	if attrs == nil {
+		return nil
+	}
+	for _, k := range attrs.Keys() {
+		v, _ := attrs.Get(k)
+		if !isSupportedType(v) {
+			return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+		}
+		dims, nDims := hw.getAttributeDimensions(v)
+		if err := hw.checkValue(v, nDims); err != nil {
+			return err
+		}
+		if err := hw.checkAttributeSize(k, v, dims, nDims); err != nil {
+			return err
 		}
 	}
-	gw.group.attributes = attrs
 	return nil
 }
 
-func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
+// checkAttributeSize checks that the attribute fits into a message.
+func (hw *HDF5Writer) checkAttributeSize(name string, val any, dims []uint64, nDims int) (err error) {
+	defer thrower.RecoverError(&err)
+	dt := hw.buildDatatypeMessage(val, nDims)
+	// Whatever its class, a datatype has its size in the same place.
+	size := uint64(binary.LittleEndian.Uint32(dt[4:]))
+	for _, d := range dims {
+		size *= d
 	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
+	const overhead = 64 // header and padding
+	size += uint64(len(name) + len(dt) + 8*len(dims) + overhead)
+	if size > math.MaxUint16 {
+		return fmt.Errorf("%w: attribute %s", ErrTooLarge, name)
 	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
+	return nil
+}
+
+// checkValue checks that val can be written with nDims dimensions: that the
+// dimensions are there and are rectangular, and that what remains below them
+// is of one type, which can be a list of varying length.
+func (hw *HDF5Writer) checkValue(val any, nDims int) (err error) {
+	defer thrower.RecoverError(&err)
+	if !isSupportedType(val) {
+		return fmt.Errorf("%w: %T", ErrUnsupportedType, val)
 	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+	rv := reflect.ValueOf(val)
+	if e, ok := val.(enumerated); ok {
+		rv = reflect.ValueOf(e.values)
+	}
+	dims := getDimensionsLimited(rv, nDims)
+	if len(dims) != nDims {
+		return ErrDimensionality
+	}
+	sig := "*"
+	var check func(rv reflect.Value, dims []uint64)
+	check = func(rv reflect.Value, dims []uint64) {
+		if len(dims) > 0 {
+			if uint64(rv.Len()) != dims[0] {
+				thrower.Throw(ErrDimensionality)
+			}
+			for i := range rv.Len() {
+				check(rv.Index(i), dims[1:])
+				if isPlain(rv.Type().Elem()) {
+					return // they are all the same
+				}
 			}
+			return
+		}
+		s := writableSignature(rv, true)
+		if sig == "*" {
+			sig = s
+		}
+		if s != sig && s != "*" {
+			thrower.Throw(ErrUnsupportedType)
 		}
 	}
-	gw.group.vars[name] = &h5Var{
-		name:       name,
-		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
+	check(rv, dims)
+	if sig == "*" {
+		// No element tells the type, so it has to be a plain one.
+		t := rv.Type()
+		for t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
+			t = t.Elem()
+		}
+		if !isPlain(t) {
+			return ErrUnsupportedType
+		}
 	}
+	hw.buildDatatypeMessage(val, nDims) // throws if it can't be done
 	return nil
 }
 
-func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
+// isPlain returns true for scalar types.
+func isPlain(t reflect.Type) bool {
+	return t.Kind() != reflect.Slice && t.Kind() != reflect.Array &&
+		t != reflect.TypeFor[enumerated]() && isSupportedElemType(t)
+}
+
+// writableSignature describes the type of an element.  It throws if elements
+// of that type cannot be written.  It returns "*" for a list that does not tell
+// the type of its elements because it is empty.
+func writableSignature(rv reflect.Value, canBeVlen bool) string {
+	switch v := rv.Interface().(type) {
+	case compound:
+		if len(v) == 0 {
+			thrower.Throw(ErrUnsupportedType)
+		}
+		sig := "compound{"
+		for _, f := range v {
+			if f.Val == nil {
+				thrower.Throw(ErrUnsupportedType)
+			}
+			sig += f.Name + ":" + writableSignature(reflect.ValueOf(f.Val), canBeVlen) + ";"
+		}
+		return sig + "}"
+	case opaque:
+		if len(v) == 0 {
+			thrower.Throw(ErrUnsupportedType)
+		}
+		return fmt.Sprintf("opaque(%d)", len(v))
+	case enumerated:
+		if v.values == nil || !isPlain(reflect.TypeOf(v.values)) {
+			thrower.Throw(ErrUnsupportedType)
+		}
+		return fmt.Sprintf("enum(%T,%v,%v)", v.values, v.names, v.memberVals)
 	}
-	if g, ok := gw.group.groups[name]; ok {
-		return &groupWriter{hw: gw.hw, group: g}, nil
+	if rv.Kind() != reflect.Slice {
+		if !isPlain(rv.Type()) {
+			thrower.Throw(ErrUnsupportedType)
+		}
+		return rv.Kind().String()
 	}
-	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
+	// a list of varying length
+	elem := rv.Type().Elem()
+	if !canBeVlen {
+		thrower.Throw(ErrUnsupportedType)
+	}
+	if isPlain(elem) {
+		return "*" + elem.Kind().String()
 	}
-	gw.group.groups[name] = g
-	return &groupWriter{hw: gw.hw, group: g}, nil
+	sig := "*"
+	for i := range rv.Len() {
+		s := "*" + writableSignature(rv.Index(i), false)
+		if i > 0 && s != sig {
+			thrower.Throw(ErrUnsupportedType)
+		}
+		sig = s
+	}
+	return sig
 }
 
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
@@ -1275,6 +1429,10 @@ func hasValidNames(am api.AttributeMap) bool {
 		if !internal.IsValidNetCDFName(key) {
 			return false
 		}
+		switch key {
+		case "CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST":
+			return false // reserved: these describe dimensions
+		}
 	}
 	return true
 }
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 72f3fec..ceb4192 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -177,6 +177,19 @@ func navigateToFirst(rv reflect.Value, depth int) reflect.Value {
 	return rv
 }
 
+// findNonEmpty returns the first list at the given depth that has elements.
+func findNonEmpty(rv reflect.Value, depth int) (reflect.Value, bool) {
+	if depth == 0 {
+		return rv, rv.Len() > 0
+	}
+	for i := range rv.Len() {
+		if list, ok := findNonEmpty(rv.Index(i), depth-1); ok {
+			return list, true
+		}
+	}
+	return rv, false
+}
+
 func buildOpaqueDatatype(size int) []byte {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 0x15) // version 1, class 5 (opaque)
@@ -302,6 +315,10 @@ func (hw *HDF5Writer) buildVlenSequenceDatatype(rv reflect.Value) []byte {
 	} else {
 		elemVal = reflect.Zero(rv.Type().Elem()).Interface()
 	}
+	if _, ok := elemVal.(string); ok {
+		util.MustWriteRaw(buf, hw.buildVLenStringDatatype())
+		return buf.Bytes()
+	}
 	elemRv := reflect.ValueOf(elemVal)
 	for elemRv.Kind() == reflect.Pointer || elemRv.Kind() == reflect.Interface {
 		elemRv = elemRv.Elem()
@@ -371,11 +388,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(buf, uint32(rv.Len()))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
-			hw.vlenPos++
+			hw.writeNextVlenRef(buf, rv.Len())
 			return
 		}
 		for i := range rv.Len() {
@@ -393,11 +406,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 			}
 		} else {
 			// VLen string
-			str := rv.String()
-			idx := hw.heap.indices[str]
-			util.MustWriteLE(buf, uint32(len(str)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeStringRef(buf, rv.String())
 		}
 		return
 	}
@@ -421,10 +430,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			util.MustWrite(buf, hw.byteOrder, v)
 		case string:
 			// Vlen string descriptor
-			idx := hw.heap.indices[v]
-			util.MustWriteLE(buf, uint32(len(v)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeStringRef(buf, v)
 		case compound:
 			hw.writeCompoundValue(buf, v)
 		case opaque:
@@ -435,11 +441,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			// Vlen sequence descriptor
 			rv := reflect.ValueOf(v)
 			if rv.Kind() == reflect.Slice {
-				idx := hw.vlenHeapIndices[hw.vlenPos]
-				util.MustWriteLE(buf, uint32(rv.Len()))
-				util.MustWriteLE(buf, hw.heap.addr)
-				util.MustWriteLE(buf, idx)
-				hw.vlenPos++
+				hw.writeNextVlenRef(buf, rv.Len())
 			} else {
 				thrower.Throw(ErrUnsupportedType)
 			}
@@ -488,6 +490,9 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 	// If still a slice after consuming declared dims, it's vlen
 	if t.Kind() == reflect.Slice {
 		elem := navigateToFirst(rv, dimsStripped)
+		if full, ok := findNonEmpty(rv, dimsStripped); ok {
+			elem = full
+		}
 		return hw.buildVlenSequenceDatatype(elem)
 	}
 
@@ -601,10 +606,7 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.dimHeap.indices[dname]
-		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
-		util.MustWriteLE(buf, hw.dimHeap.addr) // global heap address
-		util.MustWriteLE(buf, heapIdx)         // global heap object index
+		writeHeapRef(buf, 1, hw.dimHeap.refs[dname])
 	}
 
 	msg := h5Message{mType: 12, data: buf.Bytes()}
-- 
2.43.0


From 7634eaaf172624ba32e049c2d4aca6cee20759c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 17/72] fix: keep HDF5 dimensions of the same name but
 different size apart

All dimensions were put into the root group by name, so a second one of
another size was replaced by the first, and variables that happened to have
the name of a dimension were turned into its scale.  Define such dimensions in
the group that uses them, refuse contradictions within a group, and use and
understand the NetCDF4 prefix for variables named like a dimension.  Groups
and variables are gone through in a fixed order.
---
 netcdf/hdf5/hdf5.go         |  16 +-
 netcdf/hdf5/hdf5writer.go   | 296 +++++++++++++++++++-----------------
 netcdf/hdf5/writer_utils.go |  22 ++-
 3 files changed, 176 insertions(+), 158 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index dd7e8a1..9ce65b7 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2848,9 +2848,16 @@ func (k objectKind) isDimensionScale() bool {
 	return k.hasClass && !k.hasCoordinates && !k.hasName
 }
 
+// Variables that share the name of a dimension without being its coordinate
+// variable are stored with this prefix.
+const nonCoordPrefix = "_nc4_non_coord_"
+
 func (h5 *HDF5) findVariable(varName string) *object {
-	obj, has := h5.groupObject.children[varName]
+	obj, has := h5.groupObject.children[nonCoordPrefix+varName]
 	if !has {
+		obj, has = h5.groupObject.children[varName]
+	}
+	if !has || strings.HasPrefix(varName, nonCoordPrefix) {
 		return nil
 	}
 	logger.Info("Found variable", varName, "group", h5.groupName, "child=", obj.name)
@@ -3385,9 +3392,10 @@ func (h5 *HDF5) ListVariables() []string {
 		children := obj.sortChildren()
 		for _, o := range children {
 			if group == h5.groupName && o.name != "" {
-				if h5.findVariable(o.name) != nil {
-					logger.Info("append", o.name)
-					ret = append(ret, o.name)
+				name := strings.TrimPrefix(o.name, nonCoordPrefix)
+				if h5.findVariable(name) == o {
+					logger.Info("append", name)
+					ret = append(ret, name)
 				}
 				continue
 			}
diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index d0ed1cb..bff2d89 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"math"
 	"reflect"
 	"slices"
@@ -27,6 +28,8 @@ type h5Var struct {
 	attributes   api.AttributeMap
 	addr         uint64
 	isDimScale   bool
+	dimScales    []*h5Var               // the scales of the dimensions, nil if unnamed
+	dimRef       h5HeapRef              // reference to this dimension scale
 	vlenRefs     []h5HeapRef            // heap references for vlen elements
 	attrVlenRefs map[string][]h5HeapRef // per-attribute vlen heap references
 }
@@ -35,11 +38,47 @@ type h5Group struct {
 	name         string
 	groups       map[string]*h5Group
 	vars         map[string]*h5Var
+	dimSizes     map[string]uint64 // sizes of the dimensions the variables use
+	dimScales    map[string]*h5Var // dimensions that are defined here
 	attributes   api.AttributeMap
 	addr         uint64
 	attrVlenRefs map[string][]h5HeapRef // per-attribute vlen heap references
 }
 
+// linkName returns the name under which the variable is stored.  If it shares
+// the name of a dimension without being its coordinate variable, then the
+// NetCDF4 convention is to prefix it.
+func (g *h5Group) linkName(v *h5Var) string {
+	if scale, ok := g.dimScales[v.name]; ok && scale != v {
+		return nonCoordPrefix + v.name
+	}
+	return v.name
+}
+
+// canDefineDim returns true if the dimension can be defined here with that
+// size without renaming anything.
+func (g *h5Group) canDefineDim(name string, size uint64) bool {
+	if _, ok := g.dimScales[name]; ok {
+		return false
+	}
+	if _, ok := g.groups[name]; ok {
+		return false
+	}
+	v, ok := g.vars[name]
+	return !ok || v.isCoordinate(size)
+}
+
+// isCoordinate returns true if the variable can be the scale of the dimension
+// it is named after.
+func (v *h5Var) isCoordinate(size uint64) bool {
+	return len(v.dimensions) == 1 && v.dimensions[0] == v.name && v.shape()[0] == size
+}
+
+// shape returns the sizes of the dimensions.
+func (v *h5Var) shape() []uint64 {
+	return getDimensionsLimited(reflect.ValueOf(v.val), len(v.dimensions))
+}
+
 // h5HeapRef tells where an object is in the global heap.
 type h5HeapRef struct {
 	addr  uint64 // of the collection
@@ -69,7 +108,7 @@ type HDF5Writer struct {
 	heap      *h5GlobalHeap // strings and vlen data
 	dimHeap   *h5GlobalHeap // references to dimension scales
 	closed    bool
-	dimAddrs  map[string]uint64 // dimension name → dim scale variable OH address
+	nDims     int // dimensions defined so far
 	byteOrder binary.ByteOrder
 	vlenRefs  []h5HeapRef // per-variable vlen heap references during data write
 	vlenPos   int         // counter into vlenRefs during data write
@@ -95,7 +134,6 @@ func (hw *HDF5Writer) writeOut() (err error) {
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
 	hw.createDimensionScales(hw.root)
-	hw.dimAddrs = make(map[string]uint64)
 
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
@@ -153,150 +191,108 @@ func (hw *HDF5Writer) addNCProperties() {
 	hw.root.attributes, _ = util.NewOrderedMap(keys, vals)
 }
 
-// createDimensionScales collects all unique dimensions from variables
-// and creates dimension scale variables for each one.
-func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
-	type dimInfo struct {
-		name string
-		size uint64
-	}
-	// Collect unique dimensions in order
-	seen := make(map[string]bool)
-	var dims []dimInfo
-
-	var collectDims func(grp *h5Group)
-	collectDims = func(grp *h5Group) {
-		var names []string
-		for name := range grp.vars {
-			names = append(names, name)
-		}
-		slices.Sort(names)
-		for _, name := range names {
-			v := grp.vars[name]
-			if v.isDimScale {
-				continue
-			}
-			shape := hw.getDimensions(v.val)
-			for i, dname := range v.dimensions {
-				if dname == "" || seen[dname] {
-					continue
-				}
-				seen[dname] = true
-				var size uint64
-				if i < len(shape) {
-					size = shape[i]
-				}
-				dims = append(dims, dimInfo{dname, size})
+// createDimensionScales finds the dimension scale for each dimension that the
+// variables in a group use, and creates it if there is none.
+// path has the groups from the root down to the group.
+func (hw *HDF5Writer) createDimensionScales(path ...*h5Group) {
+	g := path[len(path)-1]
+	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
+		v := g.vars[name]
+		shape := v.shape()
+		for i, dname := range v.dimensions {
+			var scale *h5Var
+			if dname != "" {
+				scale = hw.dimensionScale(path, dname, shape[i])
 			}
+			v.dimScales = append(v.dimScales, scale)
 		}
-		var groupNames []string
-		for name := range grp.groups {
-			groupNames = append(groupNames, name)
-		}
-		slices.Sort(groupNames)
-		for _, name := range groupNames {
-			collectDims(grp.groups[name])
+	}
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		hw.createDimensionScales(append(slices.Clone(path), g.groups[name])...)
+	}
+}
+
+// dimensionScale returns the scale of a dimension.
+func (hw *HDF5Writer) dimensionScale(path []*h5Group, name string, size uint64) *h5Var {
+	for _, g := range slices.Backward(path) {
+		if scale, ok := g.dimScales[name]; ok {
+			if scale.shape()[0] == size {
+				return scale
+			}
+			break // this one hides any others
 		}
 	}
-	collectDims(g)
+	// Dimensions are defined in the root group if possible.
+	g := path[0]
+	if !g.canDefineDim(name, size) {
+		g = path[len(path)-1]
+	}
 
-	// Create or promote dimension scale variables.
 	// If a variable already exists with the same name as a dimension
 	// (a "coordinate variable"), promote it to a dimension scale by
 	// adding the required attributes. Otherwise create a synthetic one.
-	for i, d := range dims {
-		if existing, ok := g.vars[d.name]; ok && !existing.isDimScale {
-			// Promote existing coordinate variable to dimension scale
-			existing.isDimScale = true
-			// Prepend CLASS, NAME, _Netcdf4Dimid to existing attributes
-			nameVal := d.name
-			keys := []string{"CLASS", "NAME", "_Netcdf4Dimid"}
-			vals := map[string]any{
-				"CLASS":         "DIMENSION_SCALE",
-				"NAME":          nameVal,
-				"_Netcdf4Dimid": int32(i),
-			}
-			if existing.attributes != nil {
-				for _, k := range existing.attributes.Keys() {
-					v, _ := existing.attributes.Get(k)
-					keys = append(keys, k)
-					vals[k] = v
-				}
-			}
-			existing.attributes, _ = util.NewOrderedMap(keys, vals)
-		} else {
-			// Create synthetic dimension scale variable
-			nameVal := fmt.Sprintf("This is a netCDF dimension but not a netCDF variable.%10d", d.size)
-			dimAttrs, _ := util.NewOrderedMap(
-				[]string{"CLASS", "NAME", "_Netcdf4Dimid"},
-				map[string]any{
-					"CLASS":         "DIMENSION_SCALE",
-					"NAME":          nameVal,
-					"_Netcdf4Dimid": int32(i),
-				},
-			)
-			g.vars[d.name] = &h5Var{
-				name:       d.name,
-				val:        make([]int8, d.size),
-				dimensions: []string{d.name},
-				attributes: dimAttrs,
-				isDimScale: true,
-			}
+	scale, ok := g.vars[name]
+	nameVal := name
+	if !ok || !scale.isCoordinate(size) {
+		nameVal = fmt.Sprintf("This is a netCDF dimension but not a netCDF variable.%10d", size)
+		scale = &h5Var{
+			name:       name,
+			val:        make([]int8, size),
+			dimensions: []string{name},
+		}
+	}
+	scale.isDimScale = true
+	keys := []string{"CLASS", "NAME", "_Netcdf4Dimid"}
+	vals := map[string]any{
+		"CLASS":         "DIMENSION_SCALE",
+		"NAME":          nameVal,
+		"_Netcdf4Dimid": int32(hw.nDims),
+	}
+	hw.nDims++
+	if scale.attributes != nil {
+		for _, k := range scale.attributes.Keys() {
+			v, _ := scale.attributes.Get(k)
+			keys = append(keys, k)
+			vals[k] = v
 		}
 	}
+	scale.attributes, _ = util.NewOrderedMap(keys, vals)
+	if g.dimScales == nil {
+		g.dimScales = make(map[string]*h5Var)
+	}
+	g.dimScales[name] = scale
+	return scale
 }
 
 // writeDimScaleContents writes dimension scale variables' data and OHs.
 func (hw *HDF5Writer) writeDimScaleContents(g *h5Group) {
-	var dimNames []string
-	for name, v := range g.vars {
-		if v.isDimScale {
-			dimNames = append(dimNames, name)
-		}
-	}
-	slices.Sort(dimNames)
-	for _, name := range dimNames {
-		v := g.vars[name]
+	for _, name := range slices.Sorted(maps.Keys(g.dimScales)) {
+		v := g.dimScales[name]
 		dataAddr := uint64(hw.buf.Len())
 		dataSize := hw.writeDataVar(v)
 
 		v.addr = uint64(hw.buf.Len())
 		hw.writeVarObjectHeaderV2(v, dataAddr, dataSize)
-		hw.dimAddrs[name] = v.addr
 	}
 
 	// Recurse into subgroups
-	for _, sub := range g.groups {
-		hw.writeDimScaleContents(sub)
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		hw.writeDimScaleContents(g.groups[name])
 	}
 }
 
 // collectDimReferences adds global heap entries for dimension references
 // needed by DIMENSION_LIST attributes.
 func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
-	for _, v := range g.vars {
-		if v.isDimScale {
-			continue
-		}
-		for _, dname := range v.dimensions {
-			if dname == "" {
-				continue
-			}
-			if _, ok := hw.dimHeap.refs[dname]; ok {
-				continue
-			}
-			addr, ok := hw.dimAddrs[dname]
-			if !ok {
-				continue
-			}
-			// Store the 8-byte object reference in the global heap
-			ref := make([]byte, 8)
-			binary.LittleEndian.PutUint64(ref, addr)
-			hw.dimHeap.refs[dname] = hw.dimHeap.add(ref)
-		}
+	for _, name := range slices.Sorted(maps.Keys(g.dimScales)) {
+		// Store the 8-byte object reference in the global heap
+		scale := g.dimScales[name]
+		ref := make([]byte, 8)
+		binary.LittleEndian.PutUint64(ref, scale.addr)
+		scale.dimRef = hw.dimHeap.add(ref)
 	}
-	for _, sub := range g.groups {
-		hw.collectDimReferences(sub)
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		hw.collectDimReferences(g.groups[name])
 	}
 }
 
@@ -347,21 +343,18 @@ func (hw *HDF5Writer) writeGroupObjectHeaderV2(g *h5Group) {
 	messages = append(messages, h5Message{mType: 10, data: []byte{0, 0}})
 
 	// Link messages for children
-	var varNames []string
-	for name := range g.vars {
-		varNames = append(varNames, name)
+	children := make(map[string]*h5Var)
+	for _, v := range g.vars {
+		children[g.linkName(v)] = v
 	}
-	slices.Sort(varNames)
-	for _, name := range varNames {
-		messages = append(messages, hw.buildLinkMessage(name, g.vars[name].addr))
+	for name, v := range g.dimScales {
+		children[name] = v
 	}
-
-	var groupNames []string
-	for name := range g.groups {
-		groupNames = append(groupNames, name)
+	for _, name := range slices.Sorted(maps.Keys(children)) {
+		messages = append(messages, hw.buildLinkMessage(name, children[name].addr))
 	}
-	slices.Sort(groupNames)
-	for _, name := range groupNames {
+
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
 		messages = append(messages, hw.buildLinkMessage(name, g.groups[name].addr))
 	}
 
@@ -430,7 +423,7 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 
 	// Add DIMENSION_LIST attribute for data variables (not dim scales)
 	if !v.isDimScale && len(v.dimensions) > 0 {
-		dimListMsg := hw.buildDimensionListAttribute(v.dimensions)
+		dimListMsg := hw.buildDimensionListAttribute(v.dimScales)
 		if dimListMsg != nil {
 			messages = append(messages, *dimListMsg)
 		}
@@ -606,7 +599,8 @@ func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 }
 
 func (hw *HDF5Writer) collectStrings(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
+		v := g.vars[name]
 		hw.collectStringsRecursive(reflect.ValueOf(v.val))
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
@@ -621,7 +615,8 @@ func (hw *HDF5Writer) collectStrings(g *h5Group) {
 			hw.collectStringsRecursive(reflect.ValueOf(val))
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		sub := g.groups[name]
 		hw.collectStrings(sub)
 	}
 }
@@ -695,7 +690,8 @@ func (hw *HDF5Writer) addStringToHeap(s string) {
 
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
+		v := g.vars[name]
 		nDims := len(v.dimensions)
 		rv := reflect.ValueOf(v.val)
 		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
@@ -706,7 +702,8 @@ func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 			hw.collectVlenElements(rv, nDims, v)
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		sub := g.groups[name]
 		hw.collectVlenData(sub)
 	}
 }
@@ -781,7 +778,8 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 // collectAttrVlenData walks all attributes (on variables and groups) and
 // serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
+		v := g.vars[name]
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
@@ -809,7 +807,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 			}
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		sub := g.groups[name]
 		hw.collectAttrVlenData(sub)
 	}
 }
@@ -1131,12 +1130,25 @@ func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
 	if err := hw.checkValue(vr.Values, len(vr.Dimensions)); err != nil {
 		return err
 	}
-	g.vars[name] = &h5Var{
+	v := &h5Var{
 		name:       name,
 		val:        vr.Values,
 		dimensions: vr.Dimensions,
 		attributes: vr.Attributes,
 	}
+	dimSizes := maps.Clone(g.dimSizes)
+	for i, size := range v.shape() {
+		dname := v.dimensions[i]
+		if _, ok := g.groups[dname]; ok {
+			return fmt.Errorf("%w: %s", ErrDuplicateName, dname)
+		}
+		if had, ok := dimSizes[dname]; ok && had != size && dname != "" {
+			return fmt.Errorf("%w: %s is %d", ErrDimensionality, dname, had)
+		}
+		dimSizes[dname] = size
+	}
+	g.dimSizes = dimSizes
+	g.vars[name] = v
 	return nil
 }
 
@@ -1150,13 +1162,14 @@ func (hw *HDF5Writer) createGroup(parent *h5Group, name string) (api.Writer, err
 	if g, ok := parent.groups[name]; ok {
 		return &groupWriter{hw: hw, group: g}, nil
 	}
-	if parent.hasChild(name) {
+	if _, isDim := parent.dimSizes[name]; isDim || parent.hasChild(name) {
 		return nil, fmt.Errorf("%w: %s", ErrDuplicateName, name)
 	}
 	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
+		name:     name,
+		groups:   make(map[string]*h5Group),
+		vars:     make(map[string]*h5Var),
+		dimSizes: make(map[string]uint64),
 	}
 	parent.groups[name] = g
 	return &groupWriter{hw: hw, group: g}, nil
@@ -1451,6 +1464,7 @@ func OpenWriter(fileName string) (api.Writer, error) {
 			name:       "/",
 			groups:     make(map[string]*h5Group),
 			vars:       make(map[string]*h5Var),
+			dimSizes:   make(map[string]uint64),
 			attributes: rootAttrs,
 		},
 	}
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index ceb4192..8284014 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
@@ -568,16 +569,11 @@ func buildVLenReferenceDatatype() []byte {
 }
 
 // buildDimensionListAttribute builds the DIMENSION_LIST attribute message
-// for a variable with the given dimension names.
-func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message {
-	// Check that all dimensions have addresses and heap entries
-	for _, dname := range dimNames {
-		if dname == "" {
-			return nil
-		}
-		if _, ok := hw.dimAddrs[dname]; !ok {
-			return nil
-		}
+// for a variable with the given dimensions.
+func (hw *HDF5Writer) buildDimensionListAttribute(scales []*h5Var) *h5Message {
+	// Check that all dimensions have a scale
+	if slices.Contains(scales, nil) {
+		return nil
 	}
 
 	buf := new(bytes.Buffer)
@@ -590,7 +586,7 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 	dtMsg := buildVLenReferenceDatatype()
 	util.MustWriteLE(buf, uint16(len(dtMsg)))
 
-	dsMsg := buildDataspaceMessage([]uint64{uint64(len(dimNames))})
+	dsMsg := buildDataspaceMessage([]uint64{uint64(len(scales))})
 	util.MustWriteLE(buf, uint16(len(dsMsg)))
 
 	writePadded := func(b []byte) {
@@ -605,8 +601,8 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 	writePadded(dsMsg)
 
 	// Write VLEN descriptors: for each dimension, one reference
-	for _, dname := range dimNames {
-		writeHeapRef(buf, 1, hw.dimHeap.refs[dname])
+	for _, scale := range scales {
+		writeHeapRef(buf, 1, scale.dimRef)
 	}
 
 	msg := h5Message{mType: 12, data: buf.Bytes()}
-- 
2.43.0


From 03173e02b7d7d5c7e736ee7e7173497066e5c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 18/72] fix: HDF5 names of more than 255 bytes were cut, and
 ones with slashes got lost

---
 netcdf/hdf5/hdf5writer.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index bff2d89..cfb0488 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -9,6 +9,7 @@ import (
 	"math"
 	"reflect"
 	"slices"
+	"strings"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/internal/seam"
@@ -444,8 +445,13 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-	util.MustWriteByte(buf, 0) // flags
-	util.MustWriteByte(buf, byte(len(name)))
+	if len(name) <= math.MaxUint8 {
+		util.MustWriteByte(buf, 0) // flags: 1-byte length
+		util.MustWriteByte(buf, byte(len(name)))
+	} else {
+		util.MustWriteByte(buf, 1) // flags: 2-byte length
+		util.MustWriteLE(buf, uint16(len(name)))
+	}
 	util.MustWriteRaw(buf, []byte(name))
 	util.MustWriteLE(buf, addr)
 
@@ -1121,6 +1127,9 @@ func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
 	if !internal.IsValidNetCDFName(name) {
 		return ErrInvalidName
 	}
+	if len(name) > maxLinkName {
+		return fmt.Errorf("%w: name", ErrTooLarge)
+	}
 	if g.hasChild(name) {
 		return fmt.Errorf("%w: %s", ErrDuplicateName, name)
 	}
@@ -1139,6 +1148,9 @@ func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
 	dimSizes := maps.Clone(g.dimSizes)
 	for i, size := range v.shape() {
 		dname := v.dimensions[i]
+		if len(dname) > maxLinkName || strings.ContainsRune(dname, '/') {
+			return fmt.Errorf("%w: %s", ErrInvalidName, dname)
+		}
 		if _, ok := g.groups[dname]; ok {
 			return fmt.Errorf("%w: %s", ErrDuplicateName, dname)
 		}
@@ -1159,6 +1171,9 @@ func (hw *HDF5Writer) createGroup(parent *h5Group, name string) (api.Writer, err
 	if !internal.IsValidNetCDFName(name) {
 		return nil, ErrInvalidName
 	}
+	if len(name) > maxLinkName {
+		return nil, fmt.Errorf("%w: name", ErrTooLarge)
+	}
 	if g, ok := parent.groups[name]; ok {
 		return &groupWriter{hw: hw, group: g}, nil
 	}
@@ -1175,6 +1190,10 @@ func (hw *HDF5Writer) createGroup(parent *h5Group, name string) (api.Writer, err
 	return &groupWriter{hw: hw, group: g}, nil
 }
 
+// maxLinkName is how long names can be.  They must fit into a message along with
+// some other information, and possibly a prefix.
+const maxLinkName = math.MaxUint16 - 64
+
 // hasChild returns true if the group has a variable or a subgroup of that name.
 func (g *h5Group) hasChild(name string) bool {
 	_, isVar := g.vars[name]
-- 
2.43.0


From 69958a702bce1af48e2c923955049c08ee25b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 19/72] fix: read HDF5 attributes and lists without elements,
 refuse ones cut short

---
 netcdf/hdf5/floatingPoint.go |  5 +++--
 netcdf/hdf5/hdf5.go          | 31 +++++++++----------------------
 netcdf/hdf5/vlen.go          | 21 ++++++++++++++++++---
 3 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 1951315..a1b3931 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -147,8 +147,9 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		return
 	}
 	logger.Info("data len", df.Rem())
-	assert(df.Rem() >= int64(attr.length), "floating-point data short")
-	attr.df = newResetReaderSave(df, df.Rem())
+	if df.Rem() >= int64(attr.length) {
+		attr.df = newResetReaderSave(df, df.Rem())
+	}
 }
 
 func allocFloats(bf io.Reader, dimLengths []uint64, endian binary.ByteOrder) any {
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 9ce65b7..45061a9 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -626,7 +626,9 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	attr.dimensions = dims
 	logger.Info("sizeRem=", bf.Rem())
 	pf := newResetReaderFromBytes(dtb)
+	rem := bf.Rem()
 	printDatatype(h5, h5, pf, bf, count, attr)
+	assert(count == 0 || rem/count >= int64(attr.length), "attribute data short")
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
@@ -1585,8 +1587,11 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		}
 		fail("permutation indices not supported")
 	}
-	if version == 2 && dstype == 2 && bf.Rem() > 0 {
-		logger.Info("Null v2 flags=", flags, "d=", d, "rem=", bf.Rem())
+	if version == 2 && dstype == 2 {
+		if bf.Rem() > 0 {
+			logger.Info("Null v2 flags=", flags, "d=", d, "rem=", bf.Rem())
+		}
+		count = 0
 	}
 	return ret, count
 }
@@ -3406,24 +3411,6 @@ func (h5 *HDF5) ListVariables() []string {
 	return ret
 }
 
-func emptySlice(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	elemType := top.Type().Elem()
-	slices := 0
-	// count how many slices we need to make
-	for elemType.Kind() == reflect.Slice {
-		elemType = elemType.Elem()
-		slices++
-	}
-	// here's one slice
-	empty := reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
-	// here are the rest
-	for i := 1; i < slices; i++ {
-		empty = reflect.MakeSlice(reflect.SliceOf(empty.Type()), 0, 0)
-	}
-	return empty
-}
-
 func undoInterfaces(v any) reflect.Value {
 	top := reflect.ValueOf(v)
 	if top.Kind() != reflect.Slice {
@@ -3435,9 +3422,9 @@ func undoInterfaces(v any) reflect.Value {
 	if top.Type().Name() != "" {
 		return top
 	}
-	length := reflect.ValueOf(v).Len()
+	length := top.Len()
 	if length == 0 {
-		return emptySlice(v)
+		return top
 	}
 	underlying := undoInterfaces(top.Index(0).Interface())
 	val := reflect.MakeSlice(reflect.SliceOf(underlying.Type()), length, length)
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index bbf8091..a9d4986 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -220,8 +220,7 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 			logger.Info("Alloc inner", i, "of", thisDim)
 			vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
 		}
-		assert(vals[0] != nil, "we never return nil")
-		t := reflect.ValueOf(vals[0]).Type()
+		t := elemType(vals, hr, c, dimLengths, attr, cast)
 		vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
 		for i := range int(thisDim) {
 			vals2.Index(i).Set(reflect.ValueOf(vals[i]))
@@ -236,10 +235,26 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		logger.Info("Alloc outer", i, "of", thisDim)
 		vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
 	}
-	t := reflect.ValueOf(vals[0]).Type()
+	t := elemType(vals, hr, c, dimLengths, attr, cast)
 	vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
 	for i := range int(thisDim) {
 		vals2.Index(i).Set(reflect.ValueOf(vals[i]))
 	}
 	return vals2.Interface()
 }
+
+// elemType returns the type of the elements of what allocVariable returns, which are vals.
+func elemType(vals []any, hr heapReader, c caster, dimLengths []uint64, attr attribute,
+	cast reflect.Type) reflect.Type {
+	if len(vals) > 0 {
+		assert(vals[0] != nil, "we never return nil")
+		return reflect.TypeOf(vals[0])
+	}
+	// There are none.  Make an empty one to get its type.
+	var empty [16]byte
+	t := reflect.TypeOf(allocVariable(hr, c, newResetReaderFromBytes(empty[:]), nil, attr, cast))
+	for range dimLengths[1:] {
+		t = reflect.SliceOf(t)
+	}
+	return t
+}
-- 
2.43.0


From f9bb02155e89f9af160ed6425d6faec71d42ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 20/72] fix: CDF AddVar panicked on values of unsupported types

---
 netcdf/cdf/cdfwriter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 1c2f724..d5bca04 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -273,11 +273,17 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	dims []int64,
 	dimNames []string) ([]int64, int) {
 
+	if !rv.IsValid() {
+		thrower.Throw(ErrUnknownType) // untyped nil
+	}
 	t := rv.Type()
 	kind := cw.scalarKind(t.Kind())
 	switch kind {
 	case typeNone:
-		break
+		if t.Kind() != reflect.Array && t.Kind() != reflect.Slice {
+			logger.Info("Unknown type", t.Kind())
+			thrower.Throw(ErrUnknownType)
+		}
 	case typeChar:
 		if rv.Len() == 1 && len(dimNames) == 0 {
 			return dims, kind
-- 
2.43.0


From 6611f952e41626805b6472b2e3552046066e474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 21/72] fix: CDF slices of record variables read the wrong
 records

GetSlice with a beginning greater than zero skipped records and took the
wrong offset, and panicked on the readers it had not set.
---
 netcdf/cdf/cdf.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index cf0a349..f592973 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -682,7 +682,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 
 		var bf io.Reader
 		if unlimited && !cdf.specialCase {
-			bf = cdf.newRecordReader(&varFound, start, sizeInBytes)
+			bf = cdf.newRecordReader(&varFound, begin, nChunks)
 		} else {
 			seekTo(cdf.file, int64(varFound.begin)+start)
 			bf = io.LimitReader(makeFillValueReader(varFound,
@@ -905,20 +905,12 @@ func newSeekReader(file io.ReadSeeker, offset int64) io.Reader {
 	return &seekReader{file: file, offset: offset, reader: nil}
 }
 
-func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader {
-	readers := make([]io.Reader, cdf.numRecs)
-
-	for i := uint64(0); i < uint64(cdf.numRecs) && size > 0; i++ {
-		increment := int64(i) * int64(cdf.recSize)
-		if start > increment {
-			continue
-		}
-		offset := int64(v.begin) + increment
-		begin := offset + start
-		thisSize := v.vsize
-		readers[i] = io.LimitReader(newSeekReader(cdf.file, begin), thisSize)
-		size -= thisSize
-		start = 0
+// newRecordReader reads count records of the variable, beginning with the given one.
+func (cdf *CDF) newRecordReader(v *variable, first int64, count int64) io.Reader {
+	readers := make([]io.Reader, count)
+	for i := range readers {
+		offset := int64(v.begin) + (first+int64(i))*int64(cdf.recSize)
+		readers[i] = io.LimitReader(newSeekReader(cdf.file, offset), v.vsize)
 	}
 	return io.MultiReader(readers...)
 }
-- 
2.43.0


From db52647ea648b674cba50814f9decdb3f4139977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 22/72] fix: check slice ranges, and slice the characters of
 strings

A range outside the variable panicked or read other data, GetSliceMD of a
scalar panicked, and the last dimension of CDF strings was not sliced.
Shape and Dimensions handed out the slices used internally.
---
 internal/slicer.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index 9939390..5a1066e 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -1,12 +1,16 @@
 package internal
 
 import (
+	"errors"
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-thrower"
 )
 
+var errSlice = errors.New("invalid slice parameters")
+
 type slice struct {
 	getSlice   func(begin, end int64) (any, error)
 	getSliceMD func(begin, end []int64) (any, error)
@@ -20,12 +24,29 @@ type slice struct {
 
 func (sl *slice) GetSlice(begin, end int64) (slice any, err error) {
 	defer thrower.RecoverError(&err)
+	if begin < 0 || end < begin || end > sl.length {
+		return nil, errSlice
+	}
+	if len(sl.shape) == 0 && begin == end {
+		return nil, errSlice // a scalar cannot be left out
+	}
 	slice, err = sl.getSlice(begin, end)
 	return slice, err
 }
 
 func (sl *slice) GetSliceMD(begin, end []int64) (slice any, err error) {
 	defer thrower.RecoverError(&err)
+	if len(begin) != len(sl.shape) || len(end) != len(sl.shape) {
+		return nil, errSlice
+	}
+	for i, length := range sl.shape {
+		if begin[i] < 0 || end[i] < begin[i] || end[i] > length {
+			return nil, errSlice
+		}
+	}
+	if len(sl.shape) == 0 {
+		return sl.getSlice(0, sl.length)
+	}
 	slice, err = sl.getSliceMD(begin, end)
 	return slice, err
 }
@@ -41,7 +62,7 @@ func (sl *slice) Len() int64 {
 }
 
 func (sl *slice) Shape() []int64 {
-	return sl.shape
+	return slices.Clone(sl.shape)
 }
 
 func (sl *slice) Attributes() api.AttributeMap {
@@ -49,7 +70,7 @@ func (sl *slice) Attributes() api.AttributeMap {
 }
 
 func (sl *slice) Dimensions() []string {
-	return sl.dimNames
+	return slices.Clone(sl.dimNames)
 }
 
 func (sl *slice) Type() string {
@@ -104,6 +125,11 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		}
 		return sliced
 	}
+	if v.Kind() == reflect.String {
+		// The last dimension is the characters
+		n := int64(v.Len())
+		return v.Slice(int(min(begin[0], n)), int(min(end[0], n)))
+	}
 	// For scalars or base types at the end of recursion
 	return v
 }
-- 
2.43.0


From 5b4a3378aecdcee1ffebfcac15cc751674732903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 23/72] fix: CDF fill values of another type panicked, or
 completed torn elements

A _FillValue attribute that does not have the variable's type (always the
case for character variables, where it is a string) made reading panic.
Where the file ends within an element, the rest of it was taken from the
fill value.
---
 netcdf/cdf/cdf.go | 139 +++++++++++++++++-----------------------------
 1 file changed, 52 insertions(+), 87 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index f592973..d5dfe8a 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -659,26 +659,23 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			nChunks = int64(end - begin)
 		}
 		sliceSize := int64(1)
-		var start int64
-		var sizeInBytes int64
+		var elemSize int64
 
 		sliceSize = nChunks * chunkSize
-		start = begin * chunkSize
 		switch varFound.vType {
 		case typeDouble, typeInt64, typeUInt64:
-			start *= 8
-			sizeInBytes = sliceSize * 8
+			elemSize = 8
 		case typeInt, typeFloat, typeUInt:
-			start *= 4
-			sizeInBytes = sliceSize * 4
+			elemSize = 4
 		case typeShort, typeUShort:
-			start *= 2
-			sizeInBytes = sliceSize * 2
+			elemSize = 2
 		case typeChar, typeByte, typeUByte:
-			sizeInBytes = sliceSize
+			elemSize = 1
 		default:
 			thrower.Throw(ErrInternal)
 		}
+		start := begin * chunkSize * elemSize
+		sizeInBytes := sliceSize * elemSize
 
 		var bf io.Reader
 		if unlimited && !cdf.specialCase {
@@ -686,7 +683,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		} else {
 			seekTo(cdf.file, int64(varFound.begin)+start)
 			bf = io.LimitReader(makeFillValueReader(varFound,
-				io.Reader(bufio.NewReader(cdf.file))), sizeInBytes)
+				&elementReader{r: bufio.NewReader(cdf.file), size: elemSize}), sizeInBytes)
 		}
 
 		// in case of unlimited, should read a record at a time, using cdf.recSize
@@ -915,6 +912,23 @@ func (cdf *CDF) newRecordReader(v *variable, first int64, count int64) io.Reader
 	return io.MultiReader(readers...)
 }
 
+// elementReader reads a number of elements of a given size.  It is an error if
+// the data ends within one, so that what is read after it cannot complete it.
+type elementReader struct {
+	r     io.Reader
+	size  int64
+	count int64
+}
+
+func (er *elementReader) Read(p []byte) (int, error) {
+	n, err := er.r.Read(p)
+	er.count += int64(n)
+	if err == io.EOF && er.count%er.size != 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 func emptySlice(v any, dimLengths []uint64) any {
 	top := reflect.ValueOf(v)
 	elemType := top.Type().Elem()
@@ -1162,6 +1176,15 @@ func makeFillValueDouble(d float64) []byte {
 	return buf.Bytes()
 }
 
+// fillValueOr returns the user's fill value if it has the variable's type, and
+// the default otherwise.
+func fillValueOr[T any](userFV any, defaultFV T) T {
+	if fv, ok := userFV.(T); ok {
+		return fv
+	}
+	return defaultFV
+}
+
 func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	userFV, hasUserFV := v.attrs.Get("_FillValue")
 	if hasUserFV {
@@ -1176,102 +1199,44 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	var fillValue []byte
 	switch v.vType {
 	case typeFloat:
-		var fv float32
-		if hasUserFV {
-			fv = userFV.(float32)
-		} else {
-			fv = math.Float32frombits(internal.FillFloat)
-		}
-		fillValue = makeFillValueFloat(fv)
+		fillValue = makeFillValueFloat(
+			fillValueOr(userFV, math.Float32frombits(internal.FillFloat)))
 
 	case typeDouble:
-		var fv float64
-		if hasUserFV {
-			fv = userFV.(float64)
-		} else {
-			fv = math.Float64frombits(internal.FillDouble)
-		}
-		fillValue = makeFillValueDouble(fv)
+		fillValue = makeFillValueDouble(
+			fillValueOr(userFV, math.Float64frombits(internal.FillDouble)))
 
 	case typeByte:
-		var fv byte
-		if hasUserFV {
-			fv = byte(userFV.(int8))
-		} else {
-			fb := internal.FillByte
-			fv = byte(fb)
-		}
-		fillValue = []byte{fv}
+		fillValue = []byte{byte(fillValueOr(userFV, internal.FillByte))}
 
 	case typeUByte:
-		var fv byte
-		if hasUserFV {
-			fv = byte(userFV.(uint8))
-		} else {
-			fv = internal.FillUByte
-		}
-		fillValue = []byte{fv}
+		fillValue = []byte{fillValueOr(userFV, internal.FillUByte)}
 
 	case typeShort:
-		var fv int16
-		if hasUserFV {
-			fv = userFV.(int16)
-		} else {
-			fv = internal.FillShort
-		}
-		fillValue = makeFillValueShort(fv)
+		fillValue = makeFillValueShort(fillValueOr(userFV, internal.FillShort))
 
 	case typeUShort:
-		var fv uint16
-		if hasUserFV {
-			fv = userFV.(uint16)
-		} else {
-			fv = internal.FillUShort
-		}
-		fillValue = makeFillValueShort(int16(fv))
+		fillValue = makeFillValueShort(
+			int16(fillValueOr(userFV, internal.FillUShort)))
 
 	case typeInt:
-		var fv int32
-		if hasUserFV {
-			fv = userFV.(int32)
-		} else {
-			fv = int32(internal.FillInt)
-		}
-		fillValue = makeFillValueInt(fv)
+		fillValue = makeFillValueInt(fillValueOr(userFV, internal.FillInt))
 
 	case typeUInt:
-		var fv uint32
-		if hasUserFV {
-			fv = userFV.(uint32)
-		} else {
-			fv = internal.FillUInt
-		}
-		fillValue = makeFillValueInt(int32(fv))
+		fillValue = makeFillValueInt(
+			int32(fillValueOr(userFV, internal.FillUInt)))
 
 	case typeInt64:
-		var fv int64
-		if hasUserFV {
-			fv = userFV.(int64)
-		} else {
-			fv = internal.FillInt64
-		}
-		fillValue = makeFillValueInt64(fv)
+		fillValue = makeFillValueInt64(fillValueOr(userFV, internal.FillInt64))
 
 	case typeUInt64:
-		var fv uint64
-		if hasUserFV {
-			fv = userFV.(uint64)
-		} else {
-			fv = internal.FillUInt64
-		}
-		fillValue = makeFillValueInt64(int64(fv))
+		fillValue = makeFillValueInt64(
+			int64(fillValueOr(userFV, internal.FillUInt64)))
 
 	case typeChar:
-		var fv byte
-		if hasUserFV {
-			fv = userFV.(byte)
-		} else {
-			fv = byte(internal.FillChar)
+		fv := fillValueOr(userFV, internal.FillChar)
+		if s, ok := userFV.(string); ok && len(s) == 1 {
+			fv = s[0]
 		}
 		fillValue = []byte{fv}
 
-- 
2.43.0


From 7bf645f0a3076fc45d431e432dbd18caa789c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 24/72] fix: OrderedMap.Keys handed out the slice used
 internally

Changing it changed what later calls, or ListVariables of a CDF file, returned.
---
 netcdf/util/orderedmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index ff9fe1f..921877d 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -101,7 +101,7 @@ func (om *OrderedMap) Hide(hiddenKey string) {
 // Keys returns the keys in order for the map.
 // It does not return the hidden keys.
 func (om *OrderedMap) Keys() []string {
-	return om.visibleKeys
+	return slices.Clone(om.visibleKeys)
 }
 
 func (om *OrderedMap) pGoType(val any) (string, bool) {
-- 
2.43.0


From df318928cf048ba021479f789b6afb15bdf20531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 25/72] fix: closing a CDF group twice closed the file for its
 other groups

GetGroup returned the same group, and using it after Close panicked.
---
 netcdf/cdf/cdf.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index d5dfe8a..0b4f8cd 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -69,7 +69,7 @@ const (
 type CDF struct {
 	fname        string
 	file         api.ReadSeekerCloser
-	fileRefCount int
+	fileRefCount *int // shared by all the groups of the file
 	version      uint8
 	numRecs      uint64 // 64-bits in V5
 	recSize      uint64
@@ -541,18 +541,27 @@ func (cdf *CDF) readHeader() (err error) {
 // Close closes this group and closes any underlying files if they are no
 // longer being used by any other groups.
 func (cdf *CDF) Close() {
-	defer thrower.RecoverError(nil)
-	assert(cdf.fileRefCount > 0, "ref count off", ErrInternal)
-	cdf.fileRefCount--
-	if cdf.fileRefCount == 0 {
-		err := cdf.file.Close()
+	if cdf.file == (closedFile{}) {
+		return
+	}
+	file := cdf.file
+	cdf.file = closedFile{}
+	*cdf.fileRefCount--
+	if *cdf.fileRefCount == 0 {
+		err := file.Close()
 		if err != nil {
 			logger.Error("Error on close (ignored):", err)
 		}
-		cdf.file = nil
 	}
 }
 
+// closedFile is what a group has for a file after it was closed.
+type closedFile struct{}
+
+func (closedFile) Read([]byte) (int, error)       { return 0, os.ErrClosed }
+func (closedFile) Seek(int64, int) (int64, error) { return 0, os.ErrClosed }
+func (closedFile) Close() error                   { return nil }
+
 // GetGroup gets the given group or returns an error if not found.
 // The group can start with "/" for absolute names, or relative.
 func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
@@ -562,8 +571,12 @@ func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
 	if group != "" && group != "/" {
 		return nil, ErrNotFound
 	}
-	cdf.fileRefCount++
-	return api.Group(cdf), nil
+	if cdf.file == (closedFile{}) {
+		return nil, os.ErrClosed
+	}
+	*cdf.fileRefCount++
+	sameGroup := *cdf
+	return api.Group(&sameGroup), nil
 }
 
 // Open is the implementation of the API netcdf.Open.
@@ -584,7 +597,8 @@ func Open(fname string) (api.Group, error) {
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (ag api.Group, err error) {
 	defer thrower.RecoverError(&err)
-	c := &CDF{file: file, fileRefCount: 1}
+	fileRefCount := 1
+	c := &CDF{file: file, fileRefCount: &fileRefCount}
 	err = c.readHeader()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c54f47dceb22295f8d184e6c363d22b5fa8ca650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 26/72] fix: damaged CDF headers panicked or allocated without
 bound

---
 netcdf/cdf/cdf.go | 116 ++++++++++++++++++++++++----------------------
 1 file changed, 60 insertions(+), 56 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 0b4f8cd..d466fd9 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -80,7 +80,11 @@ type CDF struct {
 	slowConvert  convertType // default is fast
 }
 
-const maxDimensions = 1024
+const (
+	maxDimensions = 1024
+	maxSize       = math.MaxInt64 / 8 // elements of a variable
+	maxMissing    = 1 << 26           // bytes of a variable beyond the end of the file
+)
 
 var (
 	ErrNotCDF                = errors.New("not a CDF file")
@@ -180,9 +184,22 @@ func assert(condition bool, message string, err error) {
 
 // Read up to nBytes
 func readBytes(r io.Reader, nBytes uint64) []byte {
-	b := make([]byte, nBytes)
-	util.MustReadBE(r, b)
-	return b
+	return readArray[byte](r, nBytes)
+}
+
+// readArray reads n values.  The number may be nonsense, so this does not
+// allocate much more than what there is to read.
+func readArray[T any](r io.Reader, n uint64) []T {
+	const maxBlock = 1 << 16
+	values := make([]T, min(n, maxBlock))
+	util.MustReadBE(r, values)
+	for n -= uint64(len(values)); n > 0; {
+		block := make([]T, min(n, maxBlock))
+		util.MustReadBE(r, block)
+		values = append(values, block...)
+		n -= uint64(len(block))
+	}
+	return values
 }
 
 func read8(r io.Reader) byte {
@@ -235,86 +252,54 @@ func (cdf *CDF) getAttr(bf io.Reader) (string, any) {
 	switch vType {
 	case typeByte:
 		// byte becomes int8 in go-speak
-		b := make([]int8, nvars)
-		util.MustReadBE(bf, b)
-		values = b
+		values = readArray[int8](bf, nvars)
 		nread += nvars
 
 	case typeChar:
 		// char array becomes string in go-speak
-		b := make([]byte, nvars)
-		util.MustReadBE(bf, b)
-		values = string(b)
+		values = string(readArray[byte](bf, nvars))
 		nread += nvars
 
 	case typeShort:
-		sv := make([]int16, nvars)
-		util.MustReadBE(bf, sv)
-		values = sv
+		values = readArray[int16](bf, nvars)
 		nread += 2 * nvars
 
 	case typeInt:
-		i32v := make([]int32, nvars)
-		util.MustReadBE(bf, i32v)
-		values = i32v
+		values = readArray[int32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeFloat:
-		fv := make([]float32, nvars)
-		util.MustReadBE(bf, fv)
-		values = fv
+		values = readArray[float32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeDouble:
-		dv := make([]float64, nvars)
-		util.MustReadBE(bf, dv)
-		values = dv
+		values = readArray[float64](bf, nvars)
 		nread += 8 * nvars
 
 	case typeUByte:
 		cdf.checkVersion(5)
 		// unsigned byte becomes uint8 in go-speak
-		b := make([]uint8, nvars)
-		for i := range b {
-			b[i] = uint8(read8(bf))
-		}
-		values = b
+		values = readArray[uint8](bf, nvars)
 		nread += nvars
 
 	case typeUShort:
 		cdf.checkVersion(5)
-		sv := make([]uint16, nvars)
-		for i := range sv {
-			sv[i] = read16(bf)
-		}
-		values = sv
+		values = readArray[uint16](bf, nvars)
 		nread += 2 * nvars
 
 	case typeUInt:
 		cdf.checkVersion(5)
-		i32v := make([]uint32, nvars)
-		for i := range i32v {
-			i32v[i] = read32(bf)
-		}
-		values = i32v
+		values = readArray[uint32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeInt64:
 		cdf.checkVersion(5)
-		i64v := make([]int64, nvars)
-		for i := range i64v {
-			i64v[i] = int64(read64(bf))
-		}
-		values = i64v
+		values = readArray[int64](bf, nvars)
 		nread += 8 * nvars
 
 	case typeUInt64:
 		cdf.checkVersion(5)
-		i64v := make([]uint64, nvars)
-		for i := range i64v {
-			i64v[i] = read64(bf)
-		}
-		values = i64v
+		values = readArray[uint64](bf, nvars)
 		nread += 8 * nvars
 
 	default:
@@ -369,6 +354,8 @@ func (cdf *CDF) getAttrList(bf io.Reader) *util.OrderedMap {
 
 func (cdf *CDF) readName(bf io.Reader) string {
 	nameLen := cdf.readNumber(bf)
+	assert(roundInt32(nameLen) >= nameLen, "corrupted file, name length",
+		ErrCorruptedFile)
 	b := readBytes(bf, roundInt32(nameLen))
 	for i := uint64(0); i < nameLen; i++ {
 		if b[i] == 0 {
@@ -387,7 +374,14 @@ func (cdf *CDF) getDim(bf io.Reader) dimension {
 }
 
 func (cdf *CDF) hasUnlimitedDimension(ids []uint64) bool {
-	return len(ids) > 0 && cdf.dimensions[ids[0]].dimLength == 0
+	return len(ids) > 0 && cdf.dimension(ids[0]).dimLength == 0
+}
+
+func (cdf *CDF) dimension(id uint64) dimension {
+	assert(id < uint64(len(cdf.dimensions)),
+		fmt.Sprint("dimid: ", id, " not found"),
+		ErrCorruptedFile)
+	return cdf.dimensions[id]
 }
 
 func (cdf *CDF) getVar(bf io.Reader) variable {
@@ -409,7 +403,7 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	if nDims > 0 && cdf.hasUnlimitedDimension(dimids) {
 		n := uint64(1)
 		for i := 1; i < len(dimids); i++ {
-			n *= cdf.dimensions[dimids[i]].dimLength
+			n *= cdf.dimension(dimids[i]).dimLength
 		}
 		// Calculate the vsize actually used, without padding, which is
 		// different than the vsize.  This matters when there is just one
@@ -624,14 +618,10 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 	dimNames := make([]string, len(varFound.dimids))
 
 	totalSize := int64(1)
+	nonZeroSize := uint64(1)
 	unlimited := false
 	for i := range dimLengths {
-		dimid := varFound.dimids[i]
-		assert(dimid < uint64(len(cdf.dimensions)),
-			fmt.Sprint(name, " dimid: ", varFound.dimids[i], " not found"),
-			ErrInternal)
-
-		dim := cdf.dimensions[dimid]
+		dim := cdf.dimension(varFound.dimids[i])
 		dimLengths[i] = dim.dimLength
 		// Handle unlimited dimension.
 		if dimLengths[i] == 0 {
@@ -642,6 +632,12 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			dimLengths[i] = cdf.numRecs
 		}
 		dimNames[i] = dim.name
+		if dimLengths[i] > 0 {
+			assert(dimLengths[i] <= maxSize/nonZeroSize,
+				"corrupted file, variable is too large",
+				ErrCorruptedFile)
+			nonZeroSize *= dimLengths[i]
+		}
 		totalSize *= int64(dimLengths[i])
 	}
 	var chunkSize int64
@@ -691,6 +687,14 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		start := begin * chunkSize * elemSize
 		sizeInBytes := sliceSize * elemSize
 
+		// Don't allocate memory for what can't be there.
+		fileSize, err := cdf.file.Seek(0, io.SeekEnd)
+		thrower.ThrowIfError(err)
+		assert(sizeInBytes <= max(fileSize, maxMissing) &&
+			(!unlimited || sizeInBytes <= fileSize),
+			"corrupted file, variable is larger than the file",
+			ErrCorruptedFile)
+
 		var bf io.Reader
 		if unlimited && !cdf.specialCase {
 			bf = cdf.newRecordReader(&varFound, begin, nChunks)
@@ -739,7 +743,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		default:
 			fail("unknown type", ErrUnknownType)
 		}
-		err := binary.Read(bf, binary.BigEndian, data)
+		err = binary.Read(bf, binary.BigEndian, data)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 530836ed812d197a53297baaddd44ca26ef99b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 27/72] fix: damaged HDF5 files caused panics or ended the
 process

Index and conversion panics while parsing become ErrCorrupted, reserved bytes
that are not zero no longer call Fatal, and the calls without an error result
return nothing when the file cannot be read, instead of panicking.
---
 netcdf/api/api.go     |  1 +
 netcdf/hdf5/amap.go   |  5 +++++
 netcdf/hdf5/assert.go | 24 ++++++++++++++++++--
 netcdf/hdf5/hdf5.go   | 52 +++++++++++++++++++++++++++++++++----------
 4 files changed, 68 insertions(+), 14 deletions(-)

diff --git a/netcdf/api/api.go b/netcdf/api/api.go
index 41bdce8..1f77735 100644
--- a/netcdf/api/api.go
+++ b/netcdf/api/api.go
@@ -67,6 +67,7 @@ type Group interface {
 	Close()
 
 	// Attributes returns the global attributes for this group.
+	// It is nil if the attributes cannot be read.
 	Attributes() AttributeMap
 
 	// ListVariables lists the variables in this group.
diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index b4ec65c..5a83589 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -2,6 +2,7 @@ package hdf5
 
 import (
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
+	"github.com/batchatco/go-thrower"
 )
 
 // Adds callbacks to the standard OrderedMap so we can print
@@ -13,11 +14,15 @@ type callback struct {
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	ret := c.h5.findGlobalAttrType(key)
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	ret := c.h5.findGlobalAttrGoType(key)
 	return ret, ret != ""
 }
diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index ad19e48..6e09fcf 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -5,6 +5,8 @@ package hdf5
 import (
 	"fmt"
 	"io"
+	"reflect"
+	"runtime"
 
 	"github.com/batchatco/go-thrower"
 )
@@ -16,8 +18,8 @@ const (
 )
 
 var (
-	logFunc   = logger.Fatal // logging function for padBytesCheck()
-	maybeFail = fail         // fail function, can be disabled for testing
+	logFunc   = failCorrupted // what padBytesCheck() calls when it finds something else
+	maybeFail = fail          // fail function, can be disabled for testing
 )
 
 // Panics if condition isn't met
@@ -64,6 +66,24 @@ func failError(err error, msg string) {
 	panic("never gets here")
 }
 
+// Throws the error for a corrupted file
+func failCorrupted(v ...any) {
+	failError(ErrCorrupted, fmt.Sprint(v...))
+}
+
+// throwPanics turns the panics that file contents which make no sense can cause
+// (such as an index out of range) into thrown errors.  Defer it after
+// thrower.RecoverError, so that it runs before it.
+func throwPanics() {
+	switch r := recover().(type) {
+	case nil:
+	case runtime.Error, *reflect.ValueError, string:
+		failCorrupted("panic: ", r)
+	default:
+		panic(r)
+	}
+}
+
 // Check that pad bytes are zero up to byte boundary (pad32 = 1,3 or 7)
 func padBytes(bf io.Reader, pad32 int) {
 	padBytesCheck(bf, pad32, round, logFunc)
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 45061a9..b66e93c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -286,9 +286,10 @@ func SetLogLevel(level int) int {
 
 func (h5 *HDF5) newSeek(addr uint64, size int64) remReader {
 	logger.Infof("Seek to 0x%x", addr)
-	assert(int64(addr)+size <= h5.fileSize,
-		fmt.Sprintf("bad seek addr=0x%x size=%d addr+size=0x%x fileSize=0x%x",
-			addr, size, int64(addr)+size, h5.fileSize))
+	assertError(h5.file != nil, os.ErrClosed, "file is closed")
+	if size < 0 || addr > uint64(h5.fileSize) || uint64(size) > uint64(h5.fileSize)-addr {
+		fail(fmt.Sprintf("bad seek addr=0x%x size=%d fileSize=0x%x", addr, size, h5.fileSize))
+	}
 	if size == 0 {
 		size = h5.fileSize - int64(addr)
 	}
@@ -860,7 +861,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 				logger.Infof("offset=0x%x length=%d", offset, length)
 				h5.readLinkData(obj, obj.link, offset, length, co, h5.readLinkDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 
 		case 8: // for indexing the ‘name’ field for indexed attributes.
@@ -912,7 +913,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 					offset, length, mflags, co)
 				h5.readLinkData(obj, obj.attr, offset, length, 0, h5.readAttributeDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 		default:
 			fail(fmt.Sprintf("unhandled type: %d", ty))
@@ -1450,7 +1451,8 @@ func hexPrint(addr uint64) string {
 func (h5 *HDF5) isMagic(magic string, addr uint64) bool {
 	assert(addr != 0 && addr != invalidAddress,
 		fmt.Sprint("invalid address for checking magic number: ", hexPrint(addr)))
-	if addr+4 > uint64(h5.fileSize) {
+	assertError(h5.file != nil, os.ErrClosed, "file is closed")
+	if h5.fileSize < 4 || addr > uint64(h5.fileSize)-4 {
 		logger.Error("seeking past end of file -- probably a truncated file")
 		thrower.Throw(ErrCorrupted)
 		panic("not reached")
@@ -2329,6 +2331,7 @@ func canonicalizePath(s string) string {
 // The group can start with "/" for absolute names, or relative.
 func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 	defer thrower.RecoverError(&err)
+	defer throwPanics()
 	var groupName string
 	group = canonicalizePath(group)
 	toDescend := h5.groupObject
@@ -2391,6 +2394,7 @@ func fileSize(file io.ReadSeeker) int64 {
 // Using netcdf.Open is preferred over using this directly.
 func Open(fname string) (nc api.Group, err error) {
 	defer thrower.RecoverError(&err)
+	defer throwPanics()
 	file, err := seam.Open(fname)
 	if err != nil {
 		return nil, err
@@ -2406,6 +2410,7 @@ func Open(fname string) (nc api.Group, err error) {
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	defer thrower.RecoverError(&err)
+	defer throwPanics()
 	fileSize := fileSize(file)
 	if f, ok := file.(*os.File); ok {
 		logger.Info("Opened", f.Name())
@@ -2807,9 +2812,11 @@ loop:
 	return ptype
 }
 
-// Attributes returns the global attributes for this group.
+// Attributes returns the global attributes for this group, or nil if they
+// cannot be read.
 func (h5 *HDF5) Attributes() api.AttributeMap {
-	// entry point, panic can bubble up
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	assert(h5.groupObject != nil, "nil root object")
 	h5.sortAttrList(h5.groupObject)
 	return h5.getAttributes(h5.groupObject.attrlist)
@@ -2945,6 +2952,8 @@ func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
 
 // GetType gets the CDL description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetType(typeName string) (string, bool) {
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	obj, has := h5.getTypeObj(typeName)
 	if !has {
 		return "", false
@@ -2956,6 +2965,8 @@ func (h5 *HDF5) GetType(typeName string) (string, bool) {
 
 // GetGoType gets the Go description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	obj, has := h5.groupObject.children[typeName]
 	if !has {
 		return "", false
@@ -2980,6 +2991,8 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	var ret []string
 	for _, obj := range h5.groupObject.sortChildren() {
 		if obj.isGroup {
@@ -2999,6 +3012,8 @@ func (h5 *HDF5) ListTypes() []string {
 
 // ListDimensions lists the names of the dimensions in this group.
 func (h5 *HDF5) ListDimensions() []string {
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	var ret []string
 	children := h5.groupObject.sortChildren()
 	for _, obj := range children {
@@ -3016,12 +3031,17 @@ func (h5 *HDF5) ListDimensions() []string {
 // GetDimension returns the size of the given dimension and sets
 // the bool to true if found.
 func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	for _, obj := range h5.groupObject.children {
 		if obj.isGroup {
 			continue
 		}
 		k := classifyObject(obj.attrlist)
 		if k.hasClass && (k.hasName || !k.hasCoordinates) && obj.name == name {
+			if len(obj.objAttr.dimensions) == 0 {
+				return 0, false
+			}
 			return obj.objAttr.dimensions[0], true
 		}
 	}
@@ -3221,6 +3241,7 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 	err = ErrInternal
 	defer thrower.RecoverError(&err)
+	defer throwPanics()
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Infof("variable %s not found", varName)
@@ -3246,6 +3267,7 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 // reduce memory usage.
 func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 	defer thrower.RecoverError(&err)
+	defer throwPanics()
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Warnf("variable %s not found", varName)
@@ -3264,7 +3286,9 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 	default:
 		d = int64(found.objAttr.dimensions[0])
 	}
-	getSlice := func(begin, end int64) (any, error) {
+	getSlice := func(begin, end int64) (slice any, err error) {
+		defer thrower.RecoverError(&err)
+		defer throwPanics()
 		if begin < 0 || end < begin || end > d {
 			return nil, errors.New("invalid slice parameters")
 		}
@@ -3291,7 +3315,9 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		}
 		return data, nil
 	}
-	getSliceMD := func(begin, end []int64) (any, error) {
+	getSliceMD := func(begin, end []int64) (slice any, err error) {
+		defer thrower.RecoverError(&err)
+		defer throwPanics()
 		if len(begin) != len(found.objAttr.dimensions) || len(end) != len(found.objAttr.dimensions) {
 			return nil, ErrDimensionality
 		}
@@ -3337,7 +3363,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 
 // ListSubgroups returns the names of the subgroups of this group.
 func (h5 *HDF5) ListSubgroups() []string {
-	// entry point
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	// Only go one level down
 	var ret []string
 	var sgDescend func(obj *object, group string)
@@ -3390,7 +3417,8 @@ func (obj *object) sortChildren() []*object {
 
 // ListVariables lists the variables in this group.
 func (h5 *HDF5) ListVariables() []string {
-	// entry point, panic can bubble up
+	defer thrower.RecoverError(nil)
+	defer throwPanics()
 	var ret []string
 	var descend func(obj *object, group string)
 	descend = func(obj *object, group string) {
-- 
2.43.0


From 87d771352182667e2cf7ef071221d41d9be01d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 28/72] fix: limit what damaged HDF5 files can make the reader
 do

Sizes are checked for overflow and against the room there is, trees and chains of
blocks that point back to themselves are noticed, a value out of all proportion to
the file is refused, and checksums are verified before what they protect is used.
---
 netcdf/hdf5/array.go    |   1 +
 netcdf/hdf5/compound.go |   2 +
 netcdf/hdf5/enum.go     |   1 +
 netcdf/hdf5/hdf5.go     | 127 ++++++++++++++++++++++++++++++----------
 netcdf/hdf5/readers.go  |  36 ++++++++----
 netcdf/hdf5/types.go    |   1 +
 netcdf/hdf5/vlen.go     |   7 ++-
 7 files changed, 130 insertions(+), 45 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index db710d0..9c42406 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -87,6 +87,7 @@ func (arrayManagerType) parse(hr heapReader, c caster, attr *attribute, bitField
 	var arrayAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &arrayAttr)
 	arrayAttr.dimensions = dimensions
+	assertError(calcAttrSize(&arrayAttr) == uint64(attr.length), ErrCorrupted, "array size")
 	attr.children = append(attr.children, &arrayAttr)
 	if df != nil && df.Rem() > 0 {
 		logger.Info("Using an array in an attribute")
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 02ac2a4..6ceaa2c 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -130,6 +130,8 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 
 		logger.Infof("%d compound before: len(prop) = %d len(data) = %d", i, bf.Rem(), rem)
 		printDatatype(hr, c, bf, nil, 0, &compoundAttribute)
+		assertError(uint64(byteOffset)+calcAttrSize(&compoundAttribute) <= uint64(attr.length),
+			ErrCorrupted, "compound member does not fit")
 		logger.Infof("%d compound after: len(prop) = %d len(data) = %d", i, bf.Rem(), rem)
 		logger.Infof("%d compound dtlength", compoundAttribute.length)
 		attr.children = append(attr.children, &compoundAttribute)
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 029142d..66e6959 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -144,6 +144,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	default:
 		thrower.Throw(ErrFixedPoint)
 	}
+	assertError(attr.length == enumAttr.length, ErrCorrupted, "enum size")
 	values := make([]any, numberOfMembers)
 	enumAttr.enumValues = values
 	for i := uint32(0); i < numberOfMembers; i++ {
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index b66e93c..8c018b2 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -51,6 +51,13 @@ const (
 	floatEnums = false
 )
 
+// maxContinuations is more continuation blocks than the header of any object in a
+// sound file has.
+const maxContinuations = 10000
+
+// maxDepth is more than any tree or heap of a sound file can be deep.
+const maxDepth = 64
+
 // maxDTVersion is the highest datatype version we support.
 // Version 4 was introduced in HDF5 1.12 for new reference types.
 // For compound types, version 4 uses the same packed encoding as version 3.
@@ -219,6 +226,7 @@ type HDF5 struct {
 	addrs         map[uint64]bool
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
+	memoryUsed    uint64                       // by the value that is being read
 }
 
 type linkInfo struct {
@@ -230,6 +238,7 @@ type linkInfo struct {
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
+	depth            int // how many indirect blocks are above this one
 }
 
 type object struct {
@@ -251,6 +260,7 @@ type object struct {
 	isGroup          bool
 	creationOrder    uint64
 	attrListIsSorted bool
+	nContinuations   int
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -684,6 +694,8 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 	assert(blockToUse != invalidAddress, "did not find direct or indirect block")
 
 	nextLink := *link
+	nextLink.depth++
+	assertError(nextLink.depth < maxDepth, ErrCorrupted, "too many nested indirect blocks")
 
 	logger.Infof("Read indirect block 0x%x %d", blockToUse, blockSize)
 	nrows := log2(blockSize) - log2(link.blockSize*uint64(width)) + 1
@@ -739,6 +751,7 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 	b := readEnc(bf, uint8(size))
 	lenlen := uint64(b)
 	logger.Infof("lenlen=0x%x", lenlen)
+	assertError(lenlen <= uint64(bf.Rem()), ErrCorrupted, "link name too long")
 	linkName := make([]byte, lenlen)
 	if lenlen > 0 {
 		read(bf, linkName)
@@ -770,6 +783,7 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 }
 
 func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32) {
+	assertError(depth < maxDepth, ErrCorrupted, "b-tree too deep")
 	nr := uint64(numRec) // should work
 	len := 4 + 2 + nr*uint64(recordSize)
 	sub := 0
@@ -777,6 +791,7 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 		sub = 2
 	}
 	bsize := int64(4+2) + int64(nr)*int64(recordSize) + (int64(nr)+1)*int64(8+1+sub)
+	h5.checkChecksum(bta, int(bsize))
 	bf := h5.newSeek(bta, bsize)
 	checkMagic(bf, 4, "BTIN")
 	version := read8(bf)
@@ -821,7 +836,6 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 		}
 	}
 	checkVal(int64(len), bsize, "accounting problem")
-	h5.checkChecksum(bta, int(len))
 }
 
 func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
@@ -923,6 +937,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 
 func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordSize uint16) {
 	nbytes := 4 + 2 + int(numRec)*int(recordSize)
+	h5.checkChecksum(bta, nbytes)
 	bf := h5.newSeek(bta, int64(nbytes))
 	checkMagic(bf, 4, "BTLF")
 	version := read8(bf)
@@ -931,7 +946,6 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 	logger.Info("bt type=", ty)
 	h5.readRecords(parent, bf, numRec, ty)
 	logger.Infof("leaf node size=%d", nbytes)
-	h5.checkChecksum(bta, nbytes)
 }
 
 func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize uint64) uint64 {
@@ -950,11 +964,11 @@ func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize u
 
 func (h5 *HDF5) readBTreeNode(parent *object, bta uint64, dtSize uint64,
 	numberOfElements uint64, dimensionality uint8, firstOffset, lastOffset uint64) {
-	h5.readBTreeNodeAny(parent, bta, true /*isTop*/, dtSize, numberOfElements,
+	h5.readBTreeNodeAny(parent, bta, -1 /*top*/, dtSize, numberOfElements,
 		dimensionality, firstOffset, lastOffset)
 }
 
-func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
+func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, parentLevel int,
 	dtSize uint64, numberOfElements uint64, dimensionality uint8,
 	firstOffset, lastOffset uint64) {
 	bf := h5.newSeek(bta, 24) // adjust later
@@ -966,8 +980,10 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 	leftAddress := read64(bf)
 	rightAddress := read64(bf)
 	if leftAddress != invalidAddress || rightAddress != invalidAddress {
-		assert(!isTop, "Siblings unexpected")
+		assert(parentLevel >= 0, "Siblings unexpected")
 	}
+	assertError(parentLevel < 0 && nodeLevel < maxDepth || int(nodeLevel) == parentLevel-1,
+		ErrCorrupted, "b-tree level")
 	dimDataSize := 0
 	if dimensionality > 0 {
 		dimDataSize = 8 * int(dimensionality-1)
@@ -1016,7 +1032,7 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 		}
 
 		if nodeLevel > 0 {
-			h5.readBTreeNodeAny(parent, entries[i].addr, false /*not top*/, dtSize,
+			h5.readBTreeNodeAny(parent, entries[i].addr, int(nodeLevel), dtSize,
 				numberOfElements, dimensionality, firstOffset, lastOffset)
 			continue
 		}
@@ -1043,7 +1059,8 @@ func (h5 *HDF5) readRootBlock(link *linkInfo, bta uint64, nrows uint16) {
 	maxBlockSize := link.maximumBlockSize
 	// bytes in block
 	// signature=4 version=1 heapaddr=8 blockoffset=(calc) + variables=(calc) + checksum
-	bSize := 4 + 1 + 8 + int64(link.maxHeapSize/8) + int64(nrows*width*8) + 4
+	bSize := 4 + 1 + 8 + int64(link.maxHeapSize/8) + int64(nrows)*int64(width)*8 + 4
+	h5.checkChecksum(bta, int(bSize)-4)
 	bf := h5.newSeek(bta, bSize)
 	checkMagic(bf, 4, "FHIB")
 	version := read8(bf)
@@ -1100,7 +1117,6 @@ func (h5 *HDF5) readRootBlock(link *linkInfo, bta uint64, nrows uint16) {
 	}
 	link.block = addrs   // direct blocks
 	link.iBlock = iAddrs // indirect blocks
-	h5.checkChecksum(bta, int(bSize)-4)
 }
 
 func checkVal(expected, actual any, comment string) {
@@ -1144,26 +1160,29 @@ func checkVal(expected, actual any, comment string) {
 }
 
 func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64) {
-	// Return from cache on subsequent calls to the same heap collection.
-	if cache, ok := h5.heapCache[heapAddress]; ok {
-		if data, ok := cache[index]; ok {
-			return newResetReaderFromBytes(data), uint64(len(data))
-		}
-		return nil, 0
+	cache, ok := h5.heapCache[heapAddress]
+	if !ok {
+		// First visit: parse the entire collection and cache every object.
+		cache = h5.readHeapCollection(heapAddress)
+		h5.heapCache[heapAddress] = cache
 	}
+	data, ok := cache[index]
+	assertError(ok, ErrCorrupted, "no such object in the global heap")
+	return newResetReaderFromBytes(data), uint64(len(data))
+}
 
-	// First visit: parse the entire collection and cache every object.
+func (h5 *HDF5) readHeapCollection(heapAddress uint64) map[uint32][]byte {
 	cache := make(map[uint32][]byte)
-	h5.heapCache[heapAddress] = cache
-
 	bf := h5.newSeek(heapAddress, 16) // header is 16 bytes
 	checkMagic(bf, 4, "GCOL")
 	version := read8(bf)
 	checkVal(1, version, "version")
 	checkZeroes(bf, 3)
 	csize := read64(bf) // collection size including these 16 header bytes
+	assertError(csize >= 16, ErrCorrupted, "heap collection too small")
 	csize -= 16
 	bf = h5.newSeek(heapAddress+uint64(bf.Count()), int64(csize))
+	h5.useMemory(csize)
 	for csize >= 16 {
 		hoi := read16(bf) // heap object index
 		// Index 0 is the free-space sentinel whose osize covers the header itself,
@@ -1191,14 +1210,46 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 			}
 		}
 	}
+	return cache
+}
 
-	if data, ok := cache[index]; ok {
-		return newResetReaderFromBytes(data), uint64(len(data))
+// useMemory keeps account of the memory that the value being read needs, roughly, and
+// throws an error if it is out of all proportion to the size of the file.  Otherwise
+// a few damaged bytes could use up all the memory there is.
+func (h5 *HDF5) useMemory(nBytes uint64) {
+	const (
+		allowance = 1 << 30
+		maxRatio  = 4096 // deflate can do 1032
+	)
+	limit := max(allowance, uint64(h5.fileSize)*maxRatio)
+	h5.memoryUsed += nBytes
+	assertError(nBytes <= limit && h5.memoryUsed <= limit, ErrTooLarge,
+		"value is too large for a file of this size")
+}
+
+// memoryNeeded estimates the memory that a value of the given type and dimensions needs.
+func memoryNeeded(attr *attribute, dimensions []uint64) uint64 {
+	const perSlice, perElement = 24, 48
+	nBytes := uint64(0)
+	n := uint64(1)
+	for i, d := range dimensions {
+		n = mulSizes(n, d)
+		if i < len(dimensions)-1 {
+			nBytes += mulSizes(n, perSlice)
+			assertError(nBytes < math.MaxInt64, ErrTooLarge, "value is too large")
+		}
+	}
+	size := uint64(attr.length)
+	switch attr.class {
+	case typeFixedPoint, typeFloatingPoint, typeEnumerated:
+	default:
+		size += perElement
 	}
-	return nil, 0
+	return nBytes + mulSizes(n, size)
 }
 
 func (h5 *HDF5) readHeap(link *linkInfo) {
+	h5.checkChecksum(link.heapAddress, 142)
 	bf := h5.newSeek(link.heapAddress, 144)
 	checkMagic(bf, 4, "FRHP")
 	version := read8(bf)
@@ -1259,7 +1310,6 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	logger.Infof("root block address=0x%x", rootBlockAddress)
 	rowsRootIndirect := read16(bf)
 	logger.Infof("rows in root indirect block=%d", rowsRootIndirect)
-	h5.checkChecksum(link.heapAddress, 142)
 	if rowsRootIndirect > 0 {
 		logger.Info("Reading indirect heap block")
 		h5.readRootBlock(link, rootBlockAddress, rowsRootIndirect)
@@ -1390,6 +1440,7 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 }
 
 func (h5 *HDF5) readBTree(parent *object, addr uint64) {
+	h5.checkChecksum(addr, 34)
 	bf := h5.newSeek(addr, 36)
 	checkMagic(bf, 4, "BTHD")
 	version := read8(bf)
@@ -1414,7 +1465,6 @@ func (h5 *HDF5) readBTree(parent *object, addr uint64) {
 	numRec := read64(bf)
 	logger.Info("numRec=", numRec)
 
-	h5.checkChecksum(addr, 34)
 	// TODO: indirect blocks for leaf
 	if depth > 0 {
 		h5.readBTreeInternal(parent, rootNodeAddress, uint64(numRecRootNode), recordSize, depth, nodeSize)
@@ -1564,13 +1614,12 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		fail(fmt.Sprintf("unknown dstype %d", dstype))
 	}
 	ret := make([]uint64, d)
-	count := int64(1)
 	for i := range int(d) {
 		sz := read64(bf)
 		logger.Infof("dataspace dimension %d/%d size=%d", i, d, sz)
 		ret[i] = sz
-		count *= int64(sz)
 	}
+	count := int64(mulSizes(ret...))
 	if hasFlag8(flags, 0) {
 		for i := range int(d) {
 			sz := read64(bf)
@@ -1703,7 +1752,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 			layout := make([]uint64, int(dimensionality)-1)
 			for i := range int(dimensionality) - 1 {
 				size := read32(bf)
-				numberOfElements *= uint64(size)
+				numberOfElements = mulSizes(numberOfElements, uint64(size))
 				layout[i] = uint64(size)
 				logger.Info("layout", i, "size", size)
 			}
@@ -1712,6 +1761,8 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 			size := read32(bf)
 			logger.Infof("layout data element size=%d, number of elements=%d", size,
 				numberOfElements)
+			assertError(size > 0 && mulSizes(numberOfElements, uint64(size)) > 0, ErrCorrupted,
+				"chunk without elements")
 			if address != invalidAddress {
 				parent.btreeAddr = address
 				parent.chunkSize = uint64(size)
@@ -1861,6 +1912,7 @@ func (h5 *HDF5) readFillValue(bf io.Reader) []byte {
 		logger.Infof("zero length fill value")
 		return nil // zero-length, maybe they meant zero
 	}
+	assertError(int64(len) <= bf.(remReader).Rem(), ErrCorrupted, "fill value too long")
 	b := make([]byte, len)
 	read(bf, b)
 	logger.Infof("fill value=0x%x len=%d", b, len)
@@ -1992,6 +2044,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("Fill value old")
 			sz := read32(f)
 			logger.Info("Fill value old size", sz)
+			assertError(int64(sz) <= f.Rem(), ErrCorrupted, "fill value too long")
 			fv := make([]byte, sz)
 			read(f, fv)
 			obj.fillValueOld = fv
@@ -2141,10 +2194,14 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 	offset := read64(obf)
 	size := read64(obf)
 	logger.Infof("continuation offset=%08x length=%d", offset, size)
+	obj.nContinuations++
+	assertError(obj.nContinuations <= maxContinuations, ErrCorrupted, "too many continuations")
 	bf := h5.newSeek(offset, int64(size))
 	chunkSize := size
 	start := 0
 	if version > 1 {
+		assertError(size >= 8, ErrCorrupted, "continuation too short")
+		h5.checkChecksum(offset, int(size)-4)
 		checkMagic(bf, 4, "OCHK")
 		chunkSize = size - 8 // minus magic & checksum
 		start = 4            // skip magic
@@ -2164,7 +2221,6 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 			}
 			checkZeroes(bf, int(gap))
 		}
-		h5.checkChecksum(offset, int(size)-4)
 	}
 }
 
@@ -2253,6 +2309,9 @@ func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	assert(bf.Rem() == 0, "should use all bytes")
 	bf = h5.newSeek(addr, int64(chunkSize)+bf.Rem())
 
+	// Compute the checksum first
+	h5.checkChecksum(origAddr, int(addr+chunkSize-origAddr))
+
 	// Read fields that object header and continuation blocks have in common
 	logger.Info("size of chunk=", chunkSize)
 	obj.children = make(map[string]*object)
@@ -2262,10 +2321,6 @@ func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	assert(used == int64(chunkSize),
 		fmt.Sprintf("readCommon should read %d bytes, read %d, delta %d",
 			chunkSize, used, int64(chunkSize)-used))
-	addr += chunkSize
-
-	// Finally, compute the checksum
-	h5.checkChecksum(origAddr, int(addr-origAddr))
 	logger.Infof("obj %s at addr 0x%x\n", obj.name, origAddr)
 }
 
@@ -2653,7 +2708,7 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 	if obj.fillValue == nil {
 		objFillValue = obj.fillValueOld
 	}
-	if objFillValue != nil {
+	if len(objFillValue) > 0 {
 		if &objFillValue[0] == &fillValueUndefinedConstant[0] {
 			logger.Info("Using the undefined fill value")
 			undefinedFillValue = true
@@ -2682,7 +2737,14 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 }
 
 func (h5 *HDF5) getData(obj *object) any {
+	h5.memoryUsed = 0
 	attr := obj.objAttr
+	if needsLayoutReader(attr) {
+		// It is read a stripe of chunks at a time, each of which takes whole chunks.
+		chunk := attribute{class: typeFixedPoint, length: attr.length}
+		h5.useMemory(memoryNeeded(&chunk, attr.layout))
+		h5.useMemory(memoryNeeded(&chunk, attr.dimensions))
+	}
 	bf := h5.newMaybeLayoutRecordReader(obj)
 	logger.Info("about to getdataattr rem=", bf.(remReader).Rem())
 	if attr.isSlice && needsLayoutReader(attr) && attr.dimensions[0] > 0 {
@@ -2715,6 +2777,7 @@ func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
 		}
 		dimensions = nd
 	}
+	hr.useMemory(memoryNeeded(&attr, dimensions))
 	return alloc(attr.class, hr, c, bf, &attr, dimensions)
 }
 
@@ -3076,6 +3139,7 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 
 func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 	if a.df != nil {
+		h5.memoryUsed = 0
 		a.df = makeFillValueReader(obj, a.df, int64(calcAttrSize(a)))
 		logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
 		// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
@@ -3100,6 +3164,7 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 		case "_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
 		default:
+			h5.memoryUsed = 0
 			if val.value == nil {
 				if val.df == nil {
 					logger.Info("Need fill value reader", val.name)
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 4ba32fb..7f11694 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -6,6 +6,8 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"math"
+	"math/bits"
 
 	"github.com/batchatco/go-native-netcdf/internal/seam"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
@@ -284,7 +286,7 @@ func newUnshuffleReader(r io.Reader, size uint64, shuffleParam uint32) remReader
 }
 
 func unshuffle(val []byte, n uint32) {
-	if n == 1 {
+	if n <= 1 {
 		return // avoids allocation
 	}
 	// shuffle params are never very large in practice, so this isn't wasteful
@@ -370,11 +372,7 @@ type layoutReader struct {
 // calcChunkSize calculates the size of a chunk
 // Returns 0 if not chunked
 func calcChunkSize(attr *attribute) uint64 {
-	chunkSize := uint64(1)
-	for _, v := range attr.layout {
-		chunkSize *= v
-	}
-	return chunkSize
+	return mulSizes(attr.layout...)
 }
 
 // calcAttrSize computes the total size of an object in bytes.
@@ -382,24 +380,36 @@ func calcChunkSize(attr *attribute) uint64 {
 func calcAttrSize(attr *attribute) uint64 {
 	dtLength := uint64(attr.length)
 	if len(attr.layout) == 0 {
-		return calcDataSize(attr) * dtLength // not chunked
+		return mulSizes(calcDataSize(attr), dtLength) // not chunked
 	}
 	totalChunks := uint64(1)
 	for i := range attr.dimensions {
 		gi := (attr.dimensions[i] + attr.layout[i] - 1) / attr.layout[i]
-		totalChunks *= gi
+		totalChunks = mulSizes(totalChunks, gi)
 	}
 	chunkSize := calcChunkSize(attr)
-	return totalChunks * chunkSize * dtLength
+	return mulSizes(totalChunks, chunkSize, dtLength)
 }
 
 // calcDataSize computes the size of the data, not counting chunks.
 func calcDataSize(attr *attribute) uint64 {
-	dataSize := uint64(1)
-	for _, v := range attr.dimensions {
-		dataSize *= v
+	return mulSizes(attr.dimensions...)
+}
+
+// mulSizes multiplies sizes, and throws an error if the product overflows.
+func mulSizes(sizes ...uint64) uint64 {
+	product := uint64(1)
+	for _, v := range sizes {
+		if v == 0 {
+			return 0
+		}
+	}
+	for _, v := range sizes {
+		hi, lo := bits.Mul64(product, v)
+		assertError(hi == 0 && lo <= math.MaxInt64, ErrCorrupted, "size overflow")
+		product = lo
 	}
-	return dataSize
+	return product
 }
 
 func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLength uint64) uint64 {
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index e1e8734..5b90520 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -20,6 +20,7 @@ type typeManager interface {
 
 type heapReader interface {
 	readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64)
+	useMemory(nBytes uint64)
 }
 
 type caster interface {
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index a9d4986..0d50bf2 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -131,6 +131,7 @@ func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
 			return ""
 		}
 		bff, sz := hr.readGlobalHeap(addr, index)
+		hr.useMemory(sz)
 		s := make([]byte, sz)
 		read(bff, s)
 		logger.Info("string=", string(s))
@@ -187,10 +188,14 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		if length == 0 {
 			// If there's no value to read, we fake one to get the type.
 			attr.dimensions = nil
+			hr.useMemory(uint64(attr.length))
 			s = make([]byte, attr.length)
 			bff = newResetReaderFromBytes(s)
 		} else {
-			bff, _ = hr.readGlobalHeap(addr, index)
+			var size uint64
+			bff, size = hr.readGlobalHeap(addr, index)
+			assertError(mulSizes(uint64(length), uint64(attr.length)) <= size, ErrCorrupted,
+				"variable-length data too short")
 		}
 		var t reflect.Type
 		val0 = getDataAttr(hr, c, bff, attr)
-- 
2.43.0


From 9a05d1ebc37af150d30e3391c5d6db352a4abbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 29/72] fix: verify the checksums of whole chunks and of heap
 blocks

Slices of compressed or fletcher32 chunks, and chunks whose data ended before
their checksum, were returned without the checksum having been verified, and the
checksums of direct blocks of fractal heaps were ignored.  What is read of a chunk
index no longer sticks to the variable, and blocks too small for the data are
errors.
---
 netcdf/hdf5/hdf5.go    | 177 ++++++++++++++++++++++++-----------------
 netcdf/hdf5/readers.go |  60 ++++++--------
 2 files changed, 129 insertions(+), 108 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 8c018b2..e14da50 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2,6 +2,7 @@
 package hdf5
 
 import (
+	"bytes"
 	"compress/zlib"
 	"encoding/binary"
 	"errors"
@@ -239,6 +240,8 @@ type linkInfo struct {
 	tableWidth       uint16
 	maximumBlockSize uint64
 	depth            int // how many indirect blocks are above this one
+	checksummed      bool
+	verified         map[uint64]bool // direct blocks whose checksum is good
 }
 
 type object struct {
@@ -669,6 +672,8 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 		}
 	}
 	if offset < blockSize && blockToUse != invalidAddress {
+		assertError(uint64(length) <= blockSize-offset, ErrCorrupted, "object outside heap block")
+		h5.checkDirectBlock(link, blockToUse, blockSize)
 		callback(obj, blockToUse, offset, length, creationOrder)
 		return
 	}
@@ -705,6 +710,23 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 	h5.readLinkData(obj, &nextLink, offset, length, creationOrder, callback)
 }
 
+// checkDirectBlock verifies the checksum of a direct block of a fractal heap.
+func (h5 *HDF5) checkDirectBlock(link *linkInfo, addr uint64, blockSize uint64) {
+	if !link.checksummed || link.verified[addr] {
+		return
+	}
+	bf := h5.newSeek(addr, int64(blockSize))
+	b := make([]byte, blockSize)
+	read(bf, b)
+	sumAt := 4 + 1 + 8 + link.maxHeapSize/8 // after the magic, version, heap address and offset
+	assertError(len(b) >= sumAt+4, ErrCorrupted, "heap block too small")
+	assertError(string(b[:4]) == "FHDB", ErrBadMagic, "bad magic of direct block")
+	sum := binary.LittleEndian.Uint32(b[sumAt:])
+	clear(b[sumAt : sumAt+4]) // it counts as zero itself
+	assert(checksum(b) == sum, "checksum mismatch")
+	link.verified[addr] = true
+}
+
 func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, offset uint64, length uint16,
 	creationOrder uint64, callback doublerCallback) {
 	logger.Infof("offset=0x%x length=%d", offset, length)
@@ -1261,7 +1283,9 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	checkVal(0, filterLen, "filterlen must be zero")
 	flags := read8(bf)
 	logger.Infof("flags=%s", binaryToString(uint64(flags)))
-	if !hasFlag8(flags, 1) {
+	link.checksummed = hasFlag8(flags, 1)
+	link.verified = make(map[uint64]bool)
+	if !link.checksummed {
 		logger.Warn("not using checksums")
 	}
 	maxSizeObjects := read32(bf)
@@ -1761,8 +1785,9 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 			size := read32(bf)
 			logger.Infof("layout data element size=%d, number of elements=%d", size,
 				numberOfElements)
-			assertError(size > 0 && mulSizes(numberOfElements, uint64(size)) > 0, ErrCorrupted,
-				"chunk without elements")
+			chunkBytes := mulSizes(numberOfElements, uint64(size))
+			assertError(chunkBytes > 0 && chunkBytes <= math.MaxUint32, ErrCorrupted,
+				"bad chunk size")
 			if address != invalidAddress {
 				parent.btreeAddr = address
 				parent.chunkSize = uint64(size)
@@ -2520,12 +2545,12 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 }
 
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
-	nBlocks := len(obj.dataBlocks)
 	size := uint64(calcAttrSize(obj.objAttr))
 	if size == 0 {
 		return newResetReaderFromBytes([]byte{})
 	}
 	logger.Info("size=", size, "dtlength=", obj.objAttr.length, "dims=", obj.objAttr.dimensions)
+	fullSize := size
 	firstOffset := uint64(0)
 	lastOffset := uint64(size)
 	segments := newSegments()
@@ -2537,16 +2562,21 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			size = lastOffset - firstOffset
 		}
 	}
-	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
-		nBlocks = len(obj.dataBlocks)
+	assertError(obj.btreeAddr == 0 || obj.chunkSize == uint64(obj.objAttr.length), ErrCorrupted,
+		"element size of the chunks is not that of the type")
+	blocks := obj.dataBlocks
+	if len(blocks) == 0 && obj.btreeAddr != 0 {
+		// What is found depends on the range, so it must not stick to the object.
+		found := *obj
+		h5.readBTreeNode(&found, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
+		blocks = found.dataBlocks
 	}
-	if nBlocks == 0 {
+	if len(blocks) == 0 {
 		logger.Info("No blocks, filling only", size, obj.objAttr.dimensions)
 		return makeFillValueReader(obj, nil, int64(size))
 	}
 	offset := uint64(0)
-	for _, val := range obj.dataBlocks {
+	for _, val := range blocks {
 		dsLength := val.dsLength
 		skipBegin := uint64(0)
 		skipEnd := uint64(0)
@@ -2554,6 +2584,8 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 
 		if len(obj.objAttr.layout) > 0 {
 			offset = calculateFlatOffset(val.offsets, obj.objAttr.dimensions, obj.objAttr.layout, uint64(obj.objAttr.length))
+		} else {
+			assertError(dsLength >= fullSize, ErrCorrupted, "not enough room for the data")
 		}
 
 		if offset+dsLength <= firstOffset {
@@ -2563,7 +2595,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			continue
 		}
 		if offset >= lastOffset {
-			break
+			continue
 		}
 		if firstOffset >= offset && firstOffset < offset+dsLength {
 			skipBegin = (firstOffset - offset)
@@ -2572,74 +2604,27 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			skipEnd = offset + dsLength - lastOffset
 		}
 
+		thisSize := dsLength - (skipBegin + skipEnd)
 		var bf io.Reader
-		canSeek := false
-		if val.rawData != nil {
-			thisSize := int64(dsLength - skipEnd)
-			bf = newResetReaderFromBytes(val.rawData[:thisSize])
-		} else {
+		switch {
+		case val.rawData != nil:
+			bf = newResetReaderFromBytes(val.rawData[skipBegin : skipBegin+thisSize])
+		case val.isFiltered(obj.filters):
+			bf = &lazyReader{open: func() io.Reader {
+				return bytes.NewReader(h5.readFiltered(obj, val)[skipBegin : skipBegin+thisSize])
+			}}
+		default:
+			assertError(val.length >= dsLength, ErrCorrupted, "chunk too short")
 			logger.Infof("offset=0x%x length=%d offset+length=0x%x filesize=0x%x",
 				valOffset, val.length,
 				valOffset+val.length, h5.fileSize)
-			bf = h5.newSeek(valOffset, int64(val.length))
-			canSeek = true
-		}
-
-		// Filters must be applied in the reverse order of their definition.
-		// We pre-calculate the expected data size at each stage of the pipeline
-		// to ensure filters like Fletcher32 and Shuffle receive the correct input/output sizes.
-		targetSize := make([]uint64, len(obj.filters))
-		curr := dsLength
-		for j := range obj.filters {
-			targetSize[j] = curr
-			if (1<<uint(j))&val.filterMask == 0 {
-				if obj.filters[j].kind == filterFletcher32 {
-					curr += 4
-				}
-			}
-		}
-
-		inputSize := val.length
-		for j := len(obj.filters) - 1; j >= 0; j-- {
-			f := obj.filters[j]
-			if (1<<uint(j))&val.filterMask != 0 {
-				continue
-			}
-			switch f.kind {
-			case filterFletcher32:
-				bf = fletcher32Reader(bf, inputSize)
-				inputSize -= 4
-			case filterDeflate:
-				zbf, err := zlib.NewReader(bf)
-				if err != nil {
-					failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
-				}
-				// If there are more filters, we don't know the size yet.
-				// But shuffle usually needs it.
-				bf = newResetReader(zbf, int64(targetSize[j]))
-				inputSize = targetSize[j]
-				canSeek = false
-			case filterShuffle:
-				shuffleParam := uint32(0)
-				if len(f.cdv) > 0 {
-					shuffleParam = f.cdv[0]
-				}
-				bf = newUnshuffleReader(bf, targetSize[j], shuffleParam)
-				inputSize = targetSize[j]
-				canSeek = false
-			}
-		}
-		if skipBegin > 0 {
-			if canSeek {
-				thisSize := int64(dsLength - (skipBegin + skipEnd))
-				bf = h5.newSeek(valOffset+skipBegin, thisSize)
-			} else {
-				skip(bf, int64(skipBegin))
-			}
+			bf = &lazyReader{open: func() io.Reader {
+				return h5.newSeek(valOffset+skipBegin, int64(thisSize))
+			}}
 		}
 		thisSeg := &segment{
 			offset: offset + skipBegin,
-			length: dsLength - (skipBegin + skipEnd),
+			length: thisSize,
 			r:      bf,
 		}
 		segments.append(thisSeg)
@@ -2677,6 +2662,56 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	return newResetReader(io.MultiReader(readers...), int64(size))
 }
 
+// isFiltered returns true if any of the filters was applied to the block.
+func (db *dataBlock) isFiltered(filters []filter) bool {
+	for j := range filters {
+		if (1<<uint(j))&db.filterMask == 0 {
+			return true
+		}
+	}
+	return false
+}
+
+// readFiltered reads a whole block and undoes its filters.  It always takes the whole
+// block, because that is what checksums are about.
+func (h5 *HDF5) readFiltered(obj *object, val dataBlock) []byte {
+	// No filter adds that much to its input.
+	maxSize := 2*val.dsLength + 65536
+	h5.useMemory(maxSize)
+	defer func() { h5.memoryUsed -= maxSize }()
+	bf := h5.newSeek(val.offset, int64(val.length))
+	b := make([]byte, val.length)
+	read(bf, b)
+	// Filters must be applied in the reverse order of their definition.
+	for j := len(obj.filters) - 1; j >= 0; j-- {
+		f := obj.filters[j]
+		if (1<<uint(j))&val.filterMask != 0 {
+			continue
+		}
+		switch f.kind {
+		case filterFletcher32:
+			fl := fletcher32Reader(bytes.NewReader(b), uint64(len(b)))
+			out := make([]byte, fl.Rem())
+			read(fl, out)
+			b = out
+		case filterDeflate:
+			zbf, err := zlib.NewReader(bytes.NewReader(b))
+			if err != nil {
+				failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
+			}
+			// Read on to the end, because the checksum is there.
+			b, err = io.ReadAll(io.LimitReader(zbf, int64(maxSize)+1))
+			thrower.ThrowIfError(noEOF(err))
+		case filterShuffle:
+			if len(f.cdv) > 0 {
+				unshuffle(b, f.cdv[0])
+			}
+		}
+	}
+	assertError(uint64(len(b)) == val.dsLength, ErrCorrupted, "wrong size of filtered data")
+	return b
+}
+
 func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object) io.Reader {
 	r := h5.newRecordReader(obj)
 	if needsLayoutReader(obj.objAttr) {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 7f11694..e103582 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -47,14 +47,6 @@ type resetReader struct {
 	bytes []byte
 }
 
-// unshuffleReader implements the shuffle algorithm
-type unshuffleReader struct {
-	r            io.Reader
-	b            []byte
-	size         uint64
-	shuffleParam uint32
-}
-
 // Streaming version of a fletcher32 reader
 type fletcher struct {
 	r            io.Reader
@@ -281,10 +273,6 @@ func (rcf *refCountedFile) dereference() error {
 	return err
 }
 
-func newUnshuffleReader(r io.Reader, size uint64, shuffleParam uint32) remReader {
-	return newResetReader(&unshuffleReader{r, nil, size, shuffleParam}, int64(size))
-}
-
 func unshuffle(val []byte, n uint32) {
 	if n <= 1 {
 		return // avoids allocation
@@ -293,6 +281,8 @@ func unshuffle(val []byte, n uint32) {
 	// of memory.
 	tmp := make([]byte, len(val))
 	nelems := len(val) / int(n)
+	whole := nelems * int(n)
+	copy(tmp[whole:], val[whole:])
 	for i := range int(n) {
 		for j := range nelems {
 			tmp[j*int(n)+i] = val[i*nelems+j]
@@ -301,31 +291,6 @@ func unshuffle(val []byte, n uint32) {
 	copy(val, tmp)
 }
 
-func (r *unshuffleReader) Read(p []byte) (int, error) {
-	if r.size == 0 {
-		return 0, io.EOF
-	}
-	thisLen := uint64(len(p))
-	if thisLen > r.size {
-		thisLen = r.size
-	}
-	if r.b == nil {
-		b := make([]byte, r.size)
-		if _, err := io.ReadFull(r.r, b); err != nil {
-			return 0, noEOF(err)
-		}
-		unshuffle(b, r.shuffleParam)
-		r.b = b
-	}
-	copy(p, r.b[:thisLen])
-	r.b = r.b[thisLen:]
-	r.size -= thisLen
-	if r.size == 0 {
-		return int(thisLen), io.EOF
-	}
-	return int(thisLen), nil
-}
-
 // noEOF turns the end of the input, where more was needed, into an error that
 // nobody takes for an ordinary end.
 func noEOF(err error) error {
@@ -335,6 +300,27 @@ func noEOF(err error) error {
 	return err
 }
 
+// lazyReader opens what it reads from when it is first read, and forgets it at the end.
+type lazyReader struct {
+	open func() io.Reader
+	r    io.Reader
+}
+
+func (lr *lazyReader) Read(p []byte) (int, error) {
+	if lr.r == nil {
+		if lr.open == nil {
+			return 0, io.EOF
+		}
+		lr.r = lr.open()
+		lr.open = nil
+	}
+	n, err := lr.r.Read(p)
+	if err == io.EOF {
+		lr.r = nil
+	}
+	return n, err
+}
+
 // exactReader reads size bytes from r, and fails if r ends before that.
 type exactReader struct {
 	r   io.Reader
-- 
2.43.0


From a1f357417ce973392f02b84c3403699255a331e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 30/72] fix: a failed read of an HDF5 attribute or heap no
 longer spoils later reads

The reader of an attribute was used up by a failed attempt, an incomplete heap
collection stayed in the cache, and attributes of other objects were parsed for no
purpose when the dimensions of a variable were looked up.
---
 netcdf/hdf5/hdf5.go    | 79 +++++++++++++-----------------------------
 netcdf/hdf5/readers.go |  4 +--
 2 files changed, 27 insertions(+), 56 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index e14da50..87770c9 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -195,7 +195,7 @@ type attribute struct {
 	endian        binary.ByteOrder
 	dtversion     uint8
 	creationOrder uint64
-	df            io.Reader
+	df            *resetReader // has the bytes of a value that is not parsed yet
 	noDf          bool
 }
 
@@ -3172,21 +3172,23 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	return ""
 }
 
-func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
-	if a.df != nil {
-		h5.memoryUsed = 0
-		a.df = makeFillValueReader(obj, a.df, int64(calcAttrSize(a)))
-		logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
-		// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
-		save := h5.registrations
-		switch a.name {
-		case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
-			h5.registrations = nil
-		}
-		a.value = getDataAttr(h5, h5, a.df, *a)
-		a.df = nil
-		h5.registrations = save
+// parseAttr parses the value of an attribute.  If it fails, it can be tried again.
+func (h5 *HDF5) parseAttr(a *attribute) {
+	if a.df == nil {
+		return
 	}
+	h5.memoryUsed = 0
+	logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
+	// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
+	save := h5.registrations
+	defer func() { h5.registrations = save }()
+	switch a.name {
+	case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
+		h5.registrations = nil
+	}
+	df := newResetReaderFromBytes(a.df.bytes)
+	a.value = getDataAttr(h5, h5, df, *a)
+	a.df = nil
 }
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
@@ -3199,15 +3201,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 		case "_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
 		default:
-			h5.memoryUsed = 0
+			h5.parseAttr(val)
 			if val.value == nil {
-				if val.df == nil {
-					logger.Info("Need fill value reader", val.name)
-					fakeObj := newObject()
-					sz := calcAttrSize(val)
-					val.df = makeFillValueReader(fakeObj, nil, int64(sz))
-				}
-				val.value = getDataAttr(h5, h5, val.df, *val)
+				logger.Info("Need fill value reader", val.name)
+				h5.memoryUsed = 0
+				df := makeFillValueReader(newObject(), nil, int64(calcAttrSize(val)))
+				val.value = getDataAttr(h5, h5, df, *val)
 			}
 			value := undoScalarAttribute(val.value)
 			if _, has := filtered[val.name]; !has {
@@ -3272,7 +3271,7 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
 	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
+		h5.parseAttr(obj.attrlist[i])
 		a := obj.attrlist[i]
 		if a.name != "DIMENSION_LIST" {
 			continue
@@ -3295,36 +3294,8 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		return dimNames
 	}
 
-	var f func(ob *object)
-	f = func(ob *object) {
-		logger.Infof("obj %s 0x%x", ob.name, ob.addr)
-		for i := range ob.attrlist {
-			h5.parseAttr(ob, ob.attrlist[i])
-			a := ob.attrlist[i]
-			if a.name != "REFERENCE_LIST" {
-				continue
-			}
-			logger.Infof("value is %T %v", a.value, a.value)
-			for k, v := range a.value.([]compound) {
-				vals2 := v
-				v0 := vals2[0].Val.(uint64)
-				v1, has := vals2[1].Val.(int32)
-				if !has {
-					// Recent versions of netcdf tools generate unsigned for the dimension.
-					logger.Info("Unsigned reference dimension")
-					uv1 := vals2[1].Val.(uint32)
-					v1 = int32(uv1)
-				}
-				logger.Infof("single ref %d 0x%x %d %s", k, v0, v1, ob.name)
-			}
-		}
-		for _, o := range ob.children {
-			f(o)
-		}
-	}
-	f(h5.rootObject)
 	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
+		h5.parseAttr(obj.attrlist[i])
 		a := obj.attrlist[i]
 		switch a.name {
 		case "NAME":
@@ -3493,7 +3464,7 @@ func (h5 *HDF5) sortAttrList(obj *object) {
 		return
 	}
 	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
+		h5.parseAttr(obj.attrlist[i])
 	}
 	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index e103582..10c3153 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -150,7 +150,7 @@ func (r *resetReader) Read(p []byte) (int, error) {
 	return r.lr.Read(p)
 }
 
-func newResetReaderFromBytes(b []byte) remReader {
+func newResetReaderFromBytes(b []byte) *resetReader {
 	file := bytes.NewReader(b)
 	size := int64(len(b))
 	ret := &resetReader{
@@ -169,7 +169,7 @@ func newResetReader(file io.Reader, size int64) remReader {
 	return ret
 }
 
-func newResetReaderSave(file io.Reader, size int64) remReader {
+func newResetReaderSave(file io.Reader, size int64) *resetReader {
 	b := make([]byte, size)
 	read(file, b)
 	return newResetReaderFromBytes(b)
-- 
2.43.0


From 99be14d5127f4d1a54be0bb233e1e48f96642e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 31/72] fix: groups of one HDF5 file could not be used at the
 same time

They share caches, parsed attributes and types, and the count of open groups, none
of which was protected.  Using a closed group is an error now, and a read of an
array type no longer changes its dimensions.
---
 netcdf/hdf5/amap.go    |  4 +++
 netcdf/hdf5/array.go   |  7 ++---
 netcdf/hdf5/hdf5.go    | 60 ++++++++++++++++++++++++++++++++++++------
 netcdf/hdf5/readers.go |  2 ++
 4 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index 5a83589..61482df 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -14,6 +14,8 @@ type callback struct {
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
+	c.h5.mu.Lock()
+	defer c.h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	ret := c.h5.findGlobalAttrType(key)
@@ -21,6 +23,8 @@ func (c *callback) regCallback(key string) (string, bool) {
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
+	c.h5.mu.Lock()
+	defer c.h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	ret := c.h5.findGlobalAttrGoType(key)
diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index 9c42406..29de500 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -3,6 +3,7 @@ package hdf5
 import (
 	"fmt"
 	"io"
+	"slices"
 	"strings"
 )
 
@@ -48,16 +49,16 @@ func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attri
 	logger.Info("orig dimensions=", attr.dimensions)
 	logger.Info("Array length=", attr.length)
 	logger.Info("Array dimensions=", dimensions)
-	arrayAttr := attr.children[0]
+	arrayAttr := *attr.children[0] // a copy, as the dimensions are only for this time
 	logger.Info("child dimensions=", arrayAttr.dimensions)
 	logger.Info("childlength=", arrayAttr.length)
-	newDimensions := append(dimensions, arrayAttr.dimensions...)
+	newDimensions := slices.Concat(dimensions, arrayAttr.dimensions)
 	arrayAttr.dimensions = newDimensions
 	logger.Info("new dimensions=", newDimensions)
 	cbf := bf.(remReader)
 	logger.Info(cbf.Count(), "child length", arrayAttr.length)
 	logger.Info(cbf.Count(), "array", "class", arrayAttr.class)
-	return getDataAttr(hr, c, cbf, *arrayAttr)
+	return getDataAttr(hr, c, cbf, arrayAttr)
 }
 
 func (arrayManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 87770c9..788cc98 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -228,6 +228,7 @@ type HDF5 struct {
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
 	memoryUsed    uint64                       // by the value that is being read
+	mu            *seam.Mutex                  // protects what the groups of a file share
 }
 
 type linkInfo struct {
@@ -2385,6 +2386,8 @@ func (h5 *HDF5) readDataObjectHeaderV1(obj *object, addr uint64) {
 // Close closes this group and closes any underlying files if they are no
 // longer being used by any other groups.
 func (h5 *HDF5) Close() {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	if h5.file != nil {
 		h5.file.Close()
 	}
@@ -2410,9 +2413,12 @@ func canonicalizePath(s string) string {
 // GetGroup gets the given group or returns an error if not found.
 // The group can start with "/" for absolute names, or relative.
 func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(&err)
 	defer throwPanics()
 	var groupName string
+	assertError(h5.file != nil, os.ErrClosed, "group is closed")
 	group = canonicalizePath(group)
 	toDescend := h5.groupObject
 	h5groupName := h5.groupName
@@ -2507,6 +2513,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		registrations: make(map[string]any),
 		addrs:         make(map[uint64]bool),
 		heapCache:     make(map[uint64]map[uint32][]byte),
+		mu:            new(seam.Mutex),
 	}
 	h5.readSuperblock()
 	assert(h5.rootAddr != invalidAddress, "No root address")
@@ -2913,6 +2920,8 @@ loop:
 // Attributes returns the global attributes for this group, or nil if they
 // cannot be read.
 func (h5 *HDF5) Attributes() api.AttributeMap {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	assert(h5.groupObject != nil, "nil root object")
@@ -3050,6 +3059,12 @@ func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
 
 // GetType gets the CDL description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetType(typeName string) (string, bool) {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
+	return h5.getType(typeName)
+}
+
+func (h5 *HDF5) getType(typeName string) (string, bool) {
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	obj, has := h5.getTypeObj(typeName)
@@ -3063,6 +3078,8 @@ func (h5 *HDF5) GetType(typeName string) (string, bool) {
 
 // GetGoType gets the Go description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	obj, has := h5.groupObject.children[typeName]
@@ -3089,6 +3106,8 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	var ret []string
@@ -3110,6 +3129,8 @@ func (h5 *HDF5) ListTypes() []string {
 
 // ListDimensions lists the names of the dimensions in this group.
 func (h5 *HDF5) ListDimensions() []string {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	var ret []string
@@ -3129,6 +3150,8 @@ func (h5 *HDF5) ListDimensions() []string {
 // GetDimension returns the size of the given dimension and sets
 // the bool to true if found.
 func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	for _, obj := range h5.groupObject.children {
@@ -3310,9 +3333,12 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 
 // GetVariable returns the named variable or sets the error if not found.
 func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	err = ErrInternal
 	defer thrower.RecoverError(&err)
 	defer throwPanics()
+	assertError(h5.file != nil, os.ErrClosed, "group is closed")
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Infof("variable %s not found", varName)
@@ -3337,8 +3363,11 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 // smaller slices of a variable, in case the variable is very large and you want to
 // reduce memory usage.
 func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(&err)
 	defer throwPanics()
+	assertError(h5.file != nil, os.ErrClosed, "group is closed")
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Warnf("variable %s not found", varName)
@@ -3357,12 +3386,11 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 	default:
 		d = int64(found.objAttr.dimensions[0])
 	}
-	getSlice := func(begin, end int64) (slice any, err error) {
-		defer thrower.RecoverError(&err)
-		defer throwPanics()
+	getSlice := func(begin, end int64) (any, error) {
 		if begin < 0 || end < begin || end > d {
 			return nil, errors.New("invalid slice parameters")
 		}
+		assertError(h5.file != nil, os.ErrClosed, "group is closed")
 		if fakeEnd {
 			if begin == end {
 				return nil, errors.New("invalid slice parameters")
@@ -3386,9 +3414,7 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		}
 		return data, nil
 	}
-	getSliceMD := func(begin, end []int64) (slice any, err error) {
-		defer thrower.RecoverError(&err)
-		defer throwPanics()
+	getSliceMD := func(begin, end []int64) (any, error) {
 		if len(begin) != len(found.objAttr.dimensions) || len(end) != len(found.objAttr.dimensions) {
 			return nil, ErrDimensionality
 		}
@@ -3419,6 +3445,20 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
+	lockedSlice := func(begin, end int64) (slice any, err error) {
+		h5.mu.Lock()
+		defer h5.mu.Unlock()
+		defer thrower.RecoverError(&err)
+		defer throwPanics()
+		return getSlice(begin, end)
+	}
+	lockedSliceMD := func(begin, end []int64) (slice any, err error) {
+		h5.mu.Lock()
+		defer h5.mu.Unlock()
+		defer thrower.RecoverError(&err)
+		defer throwPanics()
+		return getSliceMD(begin, end)
+	}
 	dims := h5.getDimensions(found)
 	shape := make([]int64, len(found.objAttr.dimensions))
 	for i, v := range found.objAttr.dimensions {
@@ -3429,11 +3469,13 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 	ty := cdlTypeString(found.objAttr.class, h5, varName, found.objAttr, origNames)
 	origNames = map[string]bool{varName: true}
 	goTy := goTypeString(found.objAttr.class, h5, varName, found.objAttr, origNames)
-	return internal.NewSlicer(getSlice, getSliceMD, d, shape, dims, attrs, ty, goTy), nil
+	return internal.NewSlicer(lockedSlice, lockedSliceMD, d, shape, dims, attrs, ty, goTy), nil
 }
 
 // ListSubgroups returns the names of the subgroups of this group.
 func (h5 *HDF5) ListSubgroups() []string {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	// Only go one level down
@@ -3488,6 +3530,8 @@ func (obj *object) sortChildren() []*object {
 
 // ListVariables lists the variables in this group.
 func (h5 *HDF5) ListVariables() []string {
+	h5.mu.Lock()
+	defer h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
 	var ret []string
@@ -3545,7 +3589,7 @@ func convert(v any) any {
 }
 
 func (h5 *HDF5) register(typeName string, proto any) {
-	if _, has := h5.GetType(typeName); !has {
+	if _, has := h5.getType(typeName); !has {
 		logger.Warn("no such type", typeName)
 		return
 	}
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 10c3153..d376151 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -244,6 +244,8 @@ func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
 }
 
 func (rcf *refCountedFile) reference() {
+	rcf.lock.Lock()
+	defer rcf.lock.Unlock()
 	rcf.refCount++
 }
 
-- 
2.43.0


From a191daddd2fc3108c981bdc26fb63d6eb370756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 32/72] fix: CDF characters without elements came back as
 bytes, not strings

---
 netcdf/cdf/cdf.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index d466fd9..4a6eb92 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1128,6 +1128,13 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 	v := reflect.ValueOf(data)
 	if v.Len() == 0 {
+		if vType == typeChar && len(dimLengths) > 0 {
+			// the last dimension is the length of the strings
+			if len(dimLengths) == 1 {
+				return ""
+			}
+			return emptySlice([]string{}, dimLengths[:len(dimLengths)-1])
+		}
 		return emptySlice(data, dimLengths)
 	}
 	if len(dimLengths) == 0 {
-- 
2.43.0


From b867957942d596dc12c440df84c81c42c3b309ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:19 +0000
Subject: [PATCH 33/72] fix: HDF5 attributes in an object header were not
 listed in creation order

---
 netcdf/hdf5/hdf5.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 788cc98..94be3ab 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2009,12 +2009,13 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("header message flag: must fail to open if you don't understand type")
 		}
 
+		co := uint16(0)
 		if hasFlag8(ohFlags, 2) {
 			if bf.Rem() < 2 {
 				logger.Info("no chunks to read creation order")
 				break
 			}
-			co := read16(bf)
+			co = read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
 		if size == 0 && version > 1 {
@@ -2113,7 +2114,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeAttribute:
 			logger.Infof("Attribute, obj addr=0x%x", obj.addr)
-			h5.readAttribute(obj, f, 0)
+			h5.readAttribute(obj, f, uint64(co))
 
 		case typeObjectComment:
 			comment := readNullTerminatedName(f, 0)
-- 
2.43.0


From 96d270d7f77404d3f8fad083a960e90b50e15290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 34/72] fix: values of opaque HDF5 attributes without a tag
 came back as zeros

---
 netcdf/hdf5/opaque.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 50b9cfb..4f2d27c 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -44,6 +44,9 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 }
 
 func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+	if df != nil && df.Rem() >= int64(attr.length) {
+		attr.df = newResetReaderSave(df, df.Rem())
+	}
 	if bf.Rem() == 0 {
 		logger.Info("No properties for opaque")
 		return
@@ -59,9 +62,6 @@ func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 		checkVal(0, tag[i],
 			fmt.Sprint("reserved byte should be zero: ", i))
 	}
-	if df != nil && df.Rem() >= int64(attr.length) {
-		attr.df = newResetReaderSave(df, df.Rem())
-	}
 }
 
 func allocOpaque(bf io.Reader, dimLengths []uint64, length uint32,
-- 
2.43.0


From 794c2a938988b13a76b0d20d50a1658034efef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 35/72] fix: a Fletcher checksum of 65535 was taken for damage

---
 netcdf/hdf5/readers.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index d376151..c8c1324 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -98,9 +98,14 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 	if err == io.EOF && fl.count+uint64(n) == fl.size-4 {
 		err = nil // that was the last byte of data
 	}
+	// The sums are modulo 65535, but the HDF5 library has 65535 in place of 0, except
+	// when there are nothing but zeros.
+	reduce := func(sum uint32) uint32 {
+		return (sum & 0xffff) + (sum >> 16)
+	}
 	addToSums := func(val uint16) {
-		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
-		fl.sum2 = (fl.sum1 + fl.sum2) % 65535
+		fl.sum1 = reduce(fl.sum1 + uint32(val))
+		fl.sum2 = reduce(fl.sum1 + fl.sum2)
 	}
 	for i := 0; i < n; i++ {
 		var val uint16
-- 
2.43.0


From 951e29b448a8c6f6b2f531655773bf9723eec309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 36/72] fix: values of chunked HDF5 variables of three or more
 dimensions came in the wrong order

---
 netcdf/hdf5/readers.go | 122 ++++++++++++++---------------------------
 1 file changed, 42 insertions(+), 80 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index c8c1324..a3a2240 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"math"
 	"math/bits"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/internal/seam"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
@@ -425,6 +426,8 @@ func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLen
 	return flatChunkIndex * chunkSize * dtLength
 }
 
+// fillrow reads the chunks that are in the same place along the first dimension, and puts
+// what they have in order.
 func (lr *layoutReader) fillrow() error {
 	attr := lr.obj.objAttr
 	dims := attr.dimensions
@@ -433,107 +436,66 @@ func (lr *layoutReader) fillrow() error {
 	rank := len(dims)
 
 	// Grid dimensions
-	g := make([]int, rank)
-	totalStripes := 1
+	g := make([]uint64, rank)
+	numChunksInStripe := uint64(1)
 	for i := range rank {
-		g[i] = int((dims[i] + layout[i] - 1) / layout[i])
-		if i < rank-1 {
-			totalStripes *= g[i]
+		g[i] = (dims[i] + layout[i] - 1) / layout[i]
+		if i > 0 {
+			numChunksInStripe *= g[i]
 		}
 	}
 
-	if lr.stripeIndex >= totalStripes {
+	if uint64(lr.stripeIndex) >= g[0] {
 		return io.EOF
 	}
 
-	// Current stripe grid coordinates
-	stripeCoords := make([]int, rank-1)
-	tempIndex := lr.stripeIndex
-	for i := rank - 2; i >= 0; i-- {
-		stripeCoords[i] = tempIndex % g[i]
-		tempIndex /= g[i]
-	}
-
-	// Calculate number of valid rows in this stripe
-	// A "row" here is the last dimension.
-	numRowsInStripe := 1
-	validCounts := make([]int, rank-1)
-	for i := range rank - 1 {
-		start := uint64(stripeCoords[i]) * layout[i]
-		end := start + layout[i]
-		if end > dims[i] {
-			end = dims[i]
-		}
-		validCounts[i] = int(end - start)
-		numRowsInStripe *= validCounts[i]
-	}
-
-	// Stripe buffer size
-	lineLen := dims[rank-1]
-	lr.buf = make([]byte, uint64(numRowsInStripe)*lineLen*dtLength)
+	// Where the stripe starts, and what there is of it.
+	start := make([]uint64, rank)
+	stripeDims := slices.Clone(dims)
+	stripeStart := uint64(lr.stripeIndex) * layout[0]
+	stripeDims[0] = min(layout[0], dims[0]-stripeStart)
+	lr.buf = make([]byte, mulSizes(mulSizes(stripeDims...), dtLength))
 
-	// Read one stripe of chunks
-	numChunksInStripe := g[rank-1]
-	chunkSize := calcChunkSize(attr)
-	readBuf := make([]byte, chunkSize*dtLength)
+	readBuf := make([]byte, calcChunkSize(attr)*dtLength)
+	chunkLineLen := layout[rank-1]
+	numLinesInChunk := calcChunkSize(attr) / chunkLineLen
 
-	for gc := range numChunksInStripe {
-		// Read one chunk
+	for chunk := range numChunksInStripe {
 		_, err := io.ReadFull(lr.r, readBuf)
 		if err != nil {
 			return noEOF(err)
 		}
 
-		// Interleave this chunk's rows into lr.buf
-		numRowsInChunk := 1
-		for i := range rank - 1 {
-			numRowsInChunk *= int(layout[i])
+		// Where the chunk starts in the stripe
+		rem := chunk
+		for i := rank - 1; i > 0; i-- {
+			start[i] = rem % g[i] * layout[i]
+			rem /= g[i]
 		}
-
-		chunkLineLen := layout[rank-1]
-		delta := make([]int, rank-1)
-
-		for rc := range numRowsInChunk {
-			// Decode rc into local relative coordinates
-			tempRC := rc
+		copyLen := min(chunkLineLen, stripeDims[rank-1]-start[rank-1])
+
+		// Copy the chunk's lines, which are along the last dimension.
+		for line := range numLinesInChunk {
+			destOffset := start[rank-1]
+			stride := stripeDims[rank-1]
+			inside := true
+			rem := line
 			for i := rank - 2; i >= 0; i-- {
-				delta[i] = tempRC % int(layout[i])
-				tempRC /= int(layout[i])
-			}
-
-			// Check if this row is valid in the dataset
-			isValid := true
-			for i := range rank - 1 {
-				if uint64(stripeCoords[i])*layout[i]+uint64(delta[i]) >= dims[i] {
-					isValid = false
+				at := start[i] + rem%layout[i]
+				rem /= layout[i]
+				if at >= stripeDims[i] {
+					inside = false // the chunk reaches over the edge
 					break
 				}
+				destOffset += at * stride
+				stride *= stripeDims[i]
 			}
-
-			if !isValid {
-				continue
-			}
-
-			destRowIndex := 0
-			stride := 1
-			for i := rank - 2; i >= 0; i-- {
-				destRowIndex += delta[i] * stride
-				stride *= validCounts[i]
-			}
-
-			srcOffset := uint64(rc) * chunkLineLen * dtLength
-			destColOffset := uint64(gc) * layout[rank-1]
-			if destColOffset >= lineLen {
+			if !inside {
 				continue
 			}
-
-			destOffset := (uint64(destRowIndex)*lineLen + destColOffset) * dtLength
-			copyLen := chunkLineLen
-			if destColOffset+copyLen > lineLen {
-				copyLen = lineLen - destColOffset
-			}
-
-			copy(lr.buf[destOffset:destOffset+copyLen*dtLength], readBuf[srcOffset:srcOffset+copyLen*dtLength])
+			srcOffset := line * chunkLineLen
+			copy(lr.buf[destOffset*dtLength:(destOffset+copyLen)*dtLength],
+				readBuf[srcOffset*dtLength:])
 		}
 	}
 
-- 
2.43.0


From 5144374ebcf0c201b59c082bd31d0175b82857af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 37/72] fix: HDF5 attributes and characters of more than one
 string came back as one or not at all

---
 netcdf/hdf5/string.go | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 4721ee1..3dcb320 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -40,6 +40,12 @@ func (stringManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 		logger.Infof("no data")
 		return
 	}
+	isCharArray := attr.length == 1 && len(attr.dimensions) == 1
+	if mulSizes(attr.dimensions...) != 1 && !isCharArray {
+		// More than one string, or none.
+		attr.df = newResetReaderSave(df, df.Rem())
+		return
+	}
 	b := make([]byte, df.Rem())
 	read(df, b)
 	logger.Infof("* string padding=%d set=%d b[%s]=%s", padding, set,
@@ -49,34 +55,27 @@ func (stringManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 
 // Regular strings are fixed length, as opposed to variable length ones
 func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
+	// NetCDF convention: the characters along the last dimension are returned as a single
+	// concatenated string.  However, HDF5 strings can also be arrays of strings.
+	// If dtlen is 1, it's definitely a character array.
+	// If dtlen > 1, it's an array of strings.
+	if dtlen == 1 && len(dimLengths) <= 1 {
+		b := make([]byte, mulSizes(dimLengths...))
+		read(bf, b)
+		return string(b)
+	}
 	if len(dimLengths) == 0 {
 		b := make([]byte, dtlen)
 		read(bf, b)
 		return getString(b)
 	}
-	thisDim := dimLengths[0]
-	if len(dimLengths) == 1 {
-		// NetCDF convention: 1D character arrays are returned as a single concatenated string.
-		// However, HDF5 strings can also be arrays of strings.
-		// If dtlen is 1, it's definitely a character array.
-		// If dtlen > 1, it's an array of strings.
-		if dtlen == 1 {
-			b := make([]byte, thisDim)
-			read(bf, b)
-			return getString(b)
-		}
-		values := make([]string, thisDim)
-		for i := uint64(0); i < thisDim; i++ {
-			b := make([]byte, dtlen)
-			read(bf, b)
-			values[i] = getString(b)
-		}
-		return values
+	sliceDims := dimLengths
+	if dtlen == 1 {
+		sliceDims = dimLengths[:len(dimLengths)-1]
 	}
-	ty := reflect.TypeOf("")
-	vals := makeSlices(ty, dimLengths)
-	for i := uint64(0); i < thisDim; i++ {
-		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
+	vals := makeSlices(reflect.TypeOf(""), sliceDims)
+	for i := range int(dimLengths[0]) {
+		vals.Index(i).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
 	}
 	return vals.Interface()
 }
-- 
2.43.0


From cf8103c3456cd4528aeed52330654624ccc7eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 38/72] fix: an HDF5 attribute of a compound type with one
 member came back as the member

---
 netcdf/hdf5/hdf5.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 94be3ab..dd017c8 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3248,12 +3248,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 // A scalar attribute can be stored as a single-length array.
 // This code undoes that to return an actual scalar.
 func undoScalarAttribute(value any) any {
-	// Opaque is a slice, but we don't want to undo it.
-	_, has := value.(opaque)
-	if has {
+	// Opaque and compound are slices, but we don't want to undo them.
+	switch value.(type) {
+	case opaque, compound:
 		return value
 	}
-	_, has = value.(enumerated)
+	_, has := value.(enumerated)
 	// Enumerated that haven't been cast can also be slices.
 	if has {
 		e, has := value.(enumerated)
-- 
2.43.0


From 7836c92f916a92db903fdfda2dfdd6eb8af928ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 39/72] fix: members of HDF5 compounds were misread unless in
 the order of their offsets

---
 netcdf/hdf5/compound.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 6ceaa2c..b9e58e0 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -171,24 +171,16 @@ func allocCompounds(hr heapReader, cstr caster, bf io.Reader, dimLengths []uint6
 		} else {
 			rem = length
 		}
-		cbf := newResetReader(bf, rem)
+		// Members do not have to be in the order of their offsets.
+		record := make([]byte, rem)
+		read(bf, record)
 		varray := make([]compoundField, len(attr.children))
 		for i, c := range attr.children {
-			byteOffset := c.byteOffset
-			clen := uint64(calcAttrSize(c))
-			if int64(byteOffset) > cbf.Count() {
-				skipLen := int64(byteOffset) - cbf.Count()
-				logger.Info("skip to offset", skipLen)
-				skip(cbf, int64(skipLen))
-			}
-			ccbf := newResetReader(cbf, int64(clen))
-			varray[i].Val = getDataAttr(hr, cstr, ccbf, *c)
+			end := uint64(c.byteOffset) + calcAttrSize(c)
+			assertError(end <= uint64(len(record)), io.ErrUnexpectedEOF, "compound too short")
+			varray[i].Val = getDataAttr(hr, cstr, newResetReaderFromBytes(record[c.byteOffset:end]), *c)
 			varray[i].Name = c.name
 		}
-		if cbf.Count() < length {
-			rem := length - cbf.Count()
-			skip(cbf, int64(rem))
-		}
 		if cast != nil {
 			fields := make([]reflect.StructField, len(attr.children))
 			for i := range fields {
-- 
2.43.0


From 052c87f75eda3d0c6df830e926fd51382eea4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 40/72] fix: the tag of an opaque HDF5 type was read to the end
 of the compound it is in

---
 netcdf/hdf5/opaque.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 4f2d27c..3626648 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -47,11 +47,12 @@ func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 	if df != nil && df.Rem() >= int64(attr.length) {
 		attr.df = newResetReaderSave(df, df.Rem())
 	}
-	if bf.Rem() == 0 {
+	plen := int(bitFields & 0xff) // what follows may belong to a compound
+	if plen == 0 {
 		logger.Info("No properties for opaque")
 		return
 	}
-	plen := int(bf.Rem())
+	assertError(int64(plen) <= bf.Rem(), ErrCorrupted, "opaque tag too long")
 	tag := make([]byte, plen)
 	// The tag is a user-defined ASCII string describing the opaque data (per the HDF5 spec).
 	read(bf, tag)
-- 
2.43.0


From 962ed03fbc4afd07825ba21a5fe1839524a5bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 41/72] fix: HDF5 types of more than 255 members, or with
 offsets of three bytes, were misread

---
 netcdf/hdf5/compound.go | 2 +-
 netcdf/hdf5/enum.go     | 2 +-
 netcdf/hdf5/hdf5.go     | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index b9e58e0..aea6728 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -68,7 +68,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
 		fmt.Sprintln("compound datatype version", attr.dtversion, "not supported"))
-	nmembers := bitFields & 0b11111111
+	nmembers := bitFields & 0xffff
 	logger.Info("* number of members:", nmembers)
 
 	padding := 7
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 66e6959..f1d2db8 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -114,7 +114,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	var enumAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &enumAttr)
 	logger.Info("blen now", bf.Count())
-	numberOfMembers := bitFields & 0b11111111
+	numberOfMembers := bitFields & 0xffff
 	logger.Info("number of members=", numberOfMembers)
 	names := make([]string, numberOfMembers)
 	padding := 7
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index dd017c8..a562bb4 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -342,6 +342,9 @@ func readEnc(r io.Reader, e uint8) uint64 {
 		return uint64(read8(r))
 	case 2:
 		return uint64(read16(r))
+	case 3:
+		low := uint64(read16(r))
+		return low | uint64(read8(r))<<16
 	case 4:
 		return uint64(read32(r))
 	case 8:
-- 
2.43.0


From 4977d4cfdbb2f574d80d21e73450e0a66108160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 42/72] fix: large HDF5 groups with a symbol table, or with
 small leaves, could not be opened

---
 netcdf/hdf5/hdf5.go | 95 ++++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 49 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index a562bb4..db7f03f 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -224,7 +224,7 @@ type HDF5 struct {
 	rootObject    *object
 	groupObject   *object
 	registrations map[string]any
-	addrs         map[uint64]bool
+	addrs         map[uint64]*object           // by address; nil while the object is being read
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
 	memoryUsed    uint64                       // by the value that is being read
@@ -444,7 +444,6 @@ func (h5 *HDF5) readSuperblock() {
 
 		s := read16(bf)
 		logger.Info("Group leaf node k", s)
-		assert(s == 4, "Group leaf node K assumed to be 4 always")
 		s = read16(bf)
 		logger.Info("Group internal node k", s)
 
@@ -789,23 +788,35 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 	logger.Infof("hard link=0x%x", hardAddr)
 	_, has := parent.children[string(linkName)]
 	assert(!has, "duplicate object")
-	if h5.hasAddr(hardAddr) {
-		logger.Info("avoid link loop")
-		logger.Infof("done with name=%s", string(linkName))
+	h5.addChild(parent, string(linkName), hardAddr, co)
+}
+
+// addChild reads the object at the given address, and gives it to the parent.
+func (h5 *HDF5) addChild(parent *object, name string, addr uint64, creationOrder uint64) {
+	if seen, has := h5.addrs[addr]; has {
+		if seen == nil || seen.isGroup {
+			logger.Info("avoid link loop")
+			return
+		}
+		// Another name for the same variable or type
+		obj := *seen
+		obj.name = name
+		obj.creationOrder = creationOrder
+		parent.children[name] = &obj
 		return
 	}
 	obj := newObject()
-	obj.name = string(linkName)
-	parent.children[obj.name] = obj
-	obj.creationOrder = co
-	obj.addr = hardAddr
-	h5.addrs[hardAddr] = true
-	h5.readDataObjectHeader(obj, hardAddr)
-	logger.Info("obj name", obj.name)
+	obj.name = name
+	parent.children[name] = obj
+	obj.creationOrder = creationOrder
+	obj.addr = addr
+	h5.addrs[addr] = nil
+	h5.readDataObjectHeader(obj, addr)
 	logger.Infof("object (0x%x, %s) from parent (0x%x, %s)\n",
 		obj.addr, obj.name, parent.addr, parent.name)
 	h5.dumpObject(obj)
-	logger.Infof("done with name=%s", string(linkName))
+	h5.addrs[addr] = obj
+	logger.Infof("done with name=%s", name)
 }
 
 func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32) {
@@ -1410,28 +1421,16 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 		}
 		_, has := parent.children[linkName]
 		assert(!has, "duplicate object")
-		if h5.hasAddr(objectHeaderAddress) {
-			logger.Info("avoid link loop")
-			logger.Infof("done with name=%s", string(linkName))
-			return
-		}
-		obj := newObject()
-		obj.addr = objectHeaderAddress
-		h5.addrs[objectHeaderAddress] = true
-
-		obj.name = linkName
-		logger.Infof("object (0x%x, %s) from symbol table, parent (0x%x, %s)\n",
-			obj.addr, obj.name, parent.addr, parent.name)
-		parent.children[obj.name] = obj
-		obj.isGroup = true
-		h5.readDataObjectHeader(obj, objectHeaderAddress)
+		h5.addChild(parent, linkName, objectHeaderAddress, 0)
 		logger.Info("STE rem=", bf.Rem())
-		h5.dumpObject(obj)
-		logger.Infof("done with name=%s", obj.name)
 	}
 }
 
 func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
+	h5.readSymbolTableAny(parent, addr, -1 /*top*/, heapAddr)
+}
+
+func (h5 *HDF5) readSymbolTableAny(parent *object, addr uint64, parentLevel int, heapAddr uint64) {
 	bf := h5.newSeek(addr, 52) // adjust later
 
 	checkMagic(bf, 4, "TREE") // "SNOD"
@@ -1442,28 +1441,28 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	rightAddress := read64(bf)
 	logger.Infof("type=%v level=%v entries=%v left=0x%x right=0x%x",
 		nodeType, nodeLevel, entriesUsed, leftAddress, rightAddress)
-	if nodeLevel > 0 {
-		logger.Infof("Start level %d", nodeLevel)
+	if leftAddress != invalidAddress || rightAddress != invalidAddress {
+		assert(parentLevel >= 0, "Siblings unexpected")
 	}
-	assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
-		"Siblings unexpected")
+	assertError(parentLevel < 0 && nodeLevel < maxDepth || int(nodeLevel) == parentLevel-1,
+		ErrCorrupted, "b-tree level")
 	assert(nodeType == 0, "what we expect")
-	type keyAddr struct {
-		key  uint64
-		addr uint64
-	}
-	keyAddrs := []keyAddr{}
+	addrs := []uint64{}
 	bf = h5.newSeek(addr+uint64(bf.Count()), 16*int64(entriesUsed)+8)
 	for i := uint16(0); i < entriesUsed; i++ {
 		key := read64(bf)
 		childAddr := read64(bf)
 		logger.Infof("%d: key=%d addr=0x%x", i, key, addr)
-		keyAddrs = append(keyAddrs, keyAddr{key, childAddr})
+		addrs = append(addrs, childAddr)
 	}
 	lastKey := read64(bf)
 	logger.Infof("last key=%d", lastKey)
-	for _, v := range keyAddrs {
-		h5.readSymbolTableLeaf(parent, v.addr, heapAddr)
+	for _, childAddr := range addrs {
+		if nodeLevel > 0 {
+			h5.readSymbolTableAny(parent, childAddr, int(nodeLevel), heapAddr)
+		} else {
+			h5.readSymbolTableLeaf(parent, childAddr, heapAddr)
+		}
 	}
 }
 
@@ -2515,7 +2514,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		rootObject:    nil,
 		groupObject:   nil,
 		registrations: make(map[string]any),
-		addrs:         make(map[uint64]bool),
+		addrs:         make(map[uint64]*object),
 		heapCache:     make(map[uint64]map[uint32][]byte),
 		mu:            new(seam.Mutex),
 	}
@@ -2933,10 +2932,6 @@ func (h5 *HDF5) Attributes() api.AttributeMap {
 	return h5.getAttributes(h5.groupObject.attrlist)
 }
 
-func (h5 *HDF5) hasAddr(addr uint64) bool {
-	return h5.addrs[addr]
-}
-
 // objectKind holds the results of scanning an object's NetCDF4 metadata attributes.
 type objectKind struct {
 	hasClass       bool // CLASS attribute present
@@ -3284,8 +3279,10 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	m := make(map[uint64]string)
 	var walk func(*object)
 	walk = func(obj *object) {
-		m[obj.addr] = obj.name
-		for _, child := range obj.children {
+		if _, has := m[obj.addr]; !has {
+			m[obj.addr] = obj.name
+		}
+		for _, child := range obj.sortChildren() {
 			walk(child)
 		}
 	}
-- 
2.43.0


From d38093c0111638fa2c963dce5e1926615e3837ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 43/72] fix: HDF5 attributes without a value came back as one
 zero

---
 netcdf/hdf5/hdf5.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index db7f03f..0131a49 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1669,6 +1669,7 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		if bf.Rem() > 0 {
 			logger.Info("Null v2 flags=", flags, "d=", d, "rem=", bf.Rem())
 		}
+		ret = []uint64{0} // no elements
 		count = 0
 	}
 	return ret, count
-- 
2.43.0


From 5f490de1f77a70266a52640ce68b0beee86283b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 44/72] fix: HDF5 variables shorter than their unlimited
 dimension came back short

---
 netcdf/hdf5/hdf5.go | 111 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 89 insertions(+), 22 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 0131a49..430427b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -227,6 +228,7 @@ type HDF5 struct {
 	addrs         map[uint64]*object           // by address; nil while the object is being read
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
+	dimLengths    map[uint64]uint64            // lazy cache: address of an unlimited dimension → length
 	memoryUsed    uint64                       // by the value that is being read
 	mu            *seam.Mutex                  // protects what the groups of a file share
 }
@@ -262,6 +264,7 @@ type object struct {
 	fillValue        []byte // takes precedence over old fill value
 	fillValueOld     []byte
 	isGroup          bool
+	unlimited        []bool // which of the dimensions are unlimited
 	creationOrder    uint64
 	attrListIsSorted bool
 	nContinuations   int
@@ -634,7 +637,7 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 			checkVal(0, z, "zero pad")
 		}
 	}
-	dims, count := h5.readDataspace(newResetReader(bf, int64(dataspaceSize)))
+	dims, count, _ := h5.readDataspace(newResetReader(bf, int64(dataspaceSize)))
 	if version == 1 {
 		padBytes(bf, 7)
 	}
@@ -1610,7 +1613,9 @@ func headerTypeToString(ty int) string {
 	return htts[ty]
 }
 
-func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
+// readDataspace returns the dimensions, the number of elements, and which of the
+// dimensions are unlimited.
+func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64, []bool) {
 	bf := obf.(remReader)
 	version := read8(bf)
 	logger.Info("dataspace message version=", version)
@@ -1647,9 +1652,11 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		ret[i] = sz
 	}
 	count := int64(mulSizes(ret...))
+	unlimited := make([]bool, d)
 	if hasFlag8(flags, 0) {
 		for i := range int(d) {
 			sz := read64(bf)
+			unlimited[i] = sz == unlimitedSize
 			if sz == unlimitedSize {
 				logger.Infof("dataspace maximum dimension %d/%d UNLIMITED", i, d)
 			} else {
@@ -1671,8 +1678,9 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		}
 		ret = []uint64{0} // no elements
 		count = 0
+		unlimited = []bool{false}
 	}
-	return ret, count
+	return ret, count, unlimited
 }
 
 func (h5 *HDF5) readFilterPipeline(obj *object, obf io.Reader) {
@@ -2049,7 +2057,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeDataspace:
 			obj.isGroup = false
-			obj.objAttr.dimensions, _ = h5.readDataspace(f)
+			obj.objAttr.dimensions, _, obj.unlimited = h5.readDataspace(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 
 		case typeLinkInfo:
@@ -3163,6 +3171,9 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 			if len(obj.objAttr.dimensions) == 0 {
 				return 0, false
 			}
+			if obj.unlimited[0] && !k.isDimensionScale() {
+				return h5.unlimitedLengths()[obj.addr], true
+			}
 			return obj.objAttr.dimensions[0], true
 		}
 	}
@@ -3292,26 +3303,80 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	return m
 }
 
+// dimensionScales returns the addresses of the dimensions of a variable that has
+// a list of them, and nil if it doesn't have one.
+func (h5 *HDF5) dimensionScales(obj *object) [][]uint64 {
+	for _, a := range obj.attrlist {
+		if a.name == "DIMENSION_LIST" {
+			h5.parseAttr(a)
+			logger.Infof("DIMENSION_LIST=%T 0x%x", a.value, a.value)
+			return a.value.([][]uint64)
+		}
+	}
+	return nil
+}
+
+// unlimitedLengths returns the lengths of the unlimited dimensions, by address.
+// The length is that of the longest variable, because the variables, and the dimension
+// itself, have only what has been written of them.
+func (h5 *HDF5) unlimitedLengths() map[uint64]uint64 {
+	if h5.dimLengths != nil {
+		return h5.dimLengths
+	}
+	m := make(map[uint64]uint64)
+	var walk func(*object)
+	walk = func(obj *object) {
+		if len(obj.unlimited) > 0 && obj.unlimited[0] && classifyObject(obj.attrlist).hasClass {
+			m[obj.addr] = max(m[obj.addr], obj.objAttr.dimensions[0])
+		}
+		if slices.Contains(obj.unlimited, true) {
+			for i, addrs := range h5.dimensionScales(obj) {
+				if i < len(obj.unlimited) && obj.unlimited[i] {
+					for _, addr := range addrs {
+						m[addr] = max(m[addr], obj.objAttr.dimensions[i])
+					}
+				}
+			}
+		}
+		for _, child := range obj.children {
+			walk(child)
+		}
+	}
+	walk(h5.rootObject)
+	h5.dimLengths = m
+	return m
+}
+
+// fullLength returns the variable with its unlimited dimensions at their full lengths.
+// What isn't in the file has the fill value.
+func (h5 *HDF5) fullLength(obj *object) *object {
+	if !slices.Contains(obj.unlimited, true) {
+		return obj
+	}
+	full := *obj
+	fullAttr := *obj.objAttr
+	full.objAttr = &fullAttr
+	fullAttr.dimensions = slices.Clone(fullAttr.dimensions)
+	for i, addrs := range h5.dimensionScales(obj) {
+		if i < len(obj.unlimited) && obj.unlimited[i] {
+			for _, addr := range addrs {
+				fullAttr.dimensions[i] = max(fullAttr.dimensions[i], h5.unlimitedLengths()[addr])
+			}
+		}
+	}
+	return &full
+}
+
 func (h5 *HDF5) getDimensions(obj *object) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
-	for i := range obj.attrlist {
-		h5.parseAttr(obj.attrlist[i])
-		a := obj.attrlist[i]
-		if a.name != "DIMENSION_LIST" {
-			continue
-		}
-		logger.Infof("DIMENSION_LIST=%T 0x%x", a.value, a.value)
-		varLen := a.value.([][]uint64)
-		addrToName := h5.addrIndex()
-		for _, v := range varLen {
-			for i, addr := range v {
-				// Each entry in the dimension list is a uint64 object address.
-				logger.Infof("dimension list %d 0x%x)", i, addr)
-				if name := addrToName[addr]; name != "" {
-					logger.Info("dim found", name)
-					dimNames = append(dimNames, name)
-				}
+	for _, v := range h5.dimensionScales(obj) {
+		for i, addr := range v {
+			// Each entry in the dimension list is a uint64 object address.
+			logger.Infof("dimension list %d 0x%x)", i, addr)
+			if name := h5.addrIndex()[addr]; name != "" {
+				logger.Info("dim found", name)
+				dimNames = append(dimNames, name)
 			}
 		}
 	}
@@ -3346,11 +3411,12 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 		logger.Infof("variable %s not found", varName)
 		return nil, ErrNotFound
 	}
+	h5.sortAttrList(found)
+	found = h5.fullLength(found)
 	data := h5.getData(found)
 	if data == nil {
 		return nil, ErrNotFound
 	}
-	h5.sortAttrList(found)
 	dims := h5.getDimensions(found)
 	attrs := h5.getAttributes(found.attrlist)
 	return &api.Variable{
@@ -3376,6 +3442,7 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		return nil, ErrNotFound
 	}
 	h5.sortAttrList(found)
+	found = h5.fullLength(found)
 	d := int64(0)
 	fakeEnd := false
 	switch {
-- 
2.43.0


From 363b6716abaeb202fdc61b0821b3f1b491eba439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 45/72] fix: coordinate variables of several dimensions had
 only one

---
 netcdf/hdf5/hdf5.go | 50 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 430427b..d8eea49 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -229,6 +229,7 @@ type HDF5 struct {
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
 	dimLengths    map[uint64]uint64            // lazy cache: address of an unlimited dimension → length
+	dimIDs        map[int32]uint64             // lazy cache: netCDF dimension ID → address
 	memoryUsed    uint64                       // by the value that is being read
 	mu            *seam.Mutex                  // protects what the groups of a file share
 }
@@ -3303,6 +3304,32 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	return m
 }
 
+// dimIDIndex builds and caches a map from netCDF dimension IDs to addresses.
+func (h5 *HDF5) dimIDIndex() map[int32]uint64 {
+	if h5.dimIDs != nil {
+		return h5.dimIDs
+	}
+	m := make(map[int32]uint64)
+	var walk func(*object)
+	walk = func(obj *object) {
+		isDimension := classifyObject(obj.attrlist).hasClass
+		for _, a := range obj.attrlist {
+			if isDimension && a.name == "_Netcdf4Dimid" {
+				h5.parseAttr(a)
+				if id, ok := undoScalarAttribute(a.value).(int32); ok {
+					m[id] = obj.addr
+				}
+			}
+		}
+		for _, child := range obj.sortChildren() {
+			walk(child)
+		}
+	}
+	walk(h5.rootObject)
+	h5.dimIDs = m
+	return m
+}
+
 // dimensionScales returns the addresses of the dimensions of a variable that has
 // a list of them, and nil if it doesn't have one.
 func (h5 *HDF5) dimensionScales(obj *object) [][]uint64 {
@@ -3313,6 +3340,25 @@ func (h5 *HDF5) dimensionScales(obj *object) [][]uint64 {
 			return a.value.([][]uint64)
 		}
 	}
+	// Coordinate variables of several dimensions have the IDs of the dimensions.
+	for _, a := range obj.attrlist {
+		if a.name == "_Netcdf4Coordinates" {
+			h5.parseAttr(a)
+			ids, ok := a.value.([]int32)
+			if !ok || len(ids) != len(obj.objAttr.dimensions) {
+				return nil
+			}
+			scales := make([][]uint64, len(ids))
+			for i, id := range ids {
+				addr, has := h5.dimIDIndex()[id]
+				if !has {
+					return nil
+				}
+				scales[i] = []uint64{addr}
+			}
+			return scales
+		}
+	}
 	return nil
 }
 
@@ -3389,8 +3435,8 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		a := obj.attrlist[i]
 		switch a.name {
 		case "NAME":
-			nameValue := a.value.(string)
-			if !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
+			nameValue, ok := a.value.(string)
+			if ok && !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
 				return append(dimNames, nameValue)
 			}
 		}
-- 
2.43.0


From 6fac12ed3d6d66015b7a88ec8b60d418636685c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 46/72] fix: attributes of HDF5 variables and of groups other
 than the root had no type

---
 netcdf/hdf5/amap.go | 19 ++++++++++++++-----
 netcdf/hdf5/hdf5.go | 10 +++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index 61482df..6510a24 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -8,8 +8,8 @@ import (
 // Adds callbacks to the standard OrderedMap so we can print
 // out more complex types than the default (structs, enums, etc.)
 type callback struct {
-	h5 *HDF5
-	om *util.OrderedMap
+	h5    *HDF5
+	attrs []*attribute
 }
 
 // CDL callback (regular)
@@ -18,7 +18,7 @@ func (c *callback) regCallback(key string) (string, bool) {
 	defer c.h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
-	ret := c.h5.findGlobalAttrType(key)
+	ret := c.h5.findAttrType(c.attrs, key)
 	return ret, ret != ""
 }
 
@@ -27,15 +27,24 @@ func (c *callback) goCallback(key string) (string, bool) {
 	defer c.h5.mu.Unlock()
 	defer thrower.RecoverError(nil)
 	defer throwPanics()
-	ret := c.h5.findGlobalAttrGoType(key)
+	ret := c.h5.findAttrGoType(c.attrs, key)
 	return ret, ret != ""
 }
 
 func newTypedAttributeMap(h5 *HDF5, keys []string, values map[string]any) (*util.OrderedMap, error) {
+	var attrs []*attribute
+	if h5 != nil {
+		attrs = h5.rootObject.attrlist
+	}
+	return newAttributeMap(h5, attrs, keys, values)
+}
+
+// newAttributeMap makes a map whose types are those of the given attributes.
+func newAttributeMap(h5 *HDF5, attrs []*attribute, keys []string, values map[string]any) (*util.OrderedMap, error) {
 	om, err := util.NewOrderedMap(keys, values)
 	assertError(err == nil, err, "creating ordered map")
 	if h5 != nil {
-		c := callback{h5, om}
+		c := callback{h5, attrs}
 		om.SetTypeCallbacks(c.regCallback, c.goCallback)
 	}
 	return om, nil
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index d8eea49..94692af 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2999,8 +2999,8 @@ func (h5 *HDF5) findVariable(varName string) *object {
 	return obj
 }
 
-func (h5 *HDF5) findGlobalAttrType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrType(attrs []*attribute, attrName string) string {
+	for _, attr := range attrs {
 		if attr.name != attrName {
 			continue
 		}
@@ -3019,8 +3019,8 @@ func (h5 *HDF5) findGlobalAttrType(attrName string) string {
 	panic("silence warning")
 }
 
-func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrGoType(attrs []*attribute, attrName string) string {
+	for _, attr := range attrs {
 		if attr.name != attrName {
 			continue
 		}
@@ -3250,7 +3250,7 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 			filtered[val.name] = value
 		}
 	}
-	om, err := newTypedAttributeMap(h5, keys, filtered)
+	om, err := newAttributeMap(h5, unfiltered, keys, filtered)
 	thrower.ThrowIfError(err)
 	om.Hide(ncpKey)
 	return om
-- 
2.43.0


From 8c6d3e24b6bc9ef65a0a6ce9157ecc3b2172c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 47/72] fix: types of HDF5 attributes had dimensions that their
 values don't have

---
 netcdf/hdf5/hdf5.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 94692af..4b02880 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2999,6 +2999,19 @@ func (h5 *HDF5) findVariable(varName string) *object {
 	return obj
 }
 
+// attrTypeDims returns the dimensions that the value of an attribute has, which doesn't
+// have the one of the characters of a string, nor the first one if it is 1.
+func attrTypeDims(attr *attribute) []uint64 {
+	dims := attr.dimensions
+	if attr.class == typeString && attr.length == 1 && len(dims) > 0 {
+		dims = dims[:len(dims)-1]
+	}
+	if len(dims) > 0 && dims[0] == 1 {
+		dims = dims[1:]
+	}
+	return dims
+}
+
 func (h5 *HDF5) findAttrType(attrs []*attribute, attrName string) string {
 	for _, attr := range attrs {
 		if attr.name != attrName {
@@ -3007,11 +3020,8 @@ func (h5 *HDF5) findAttrType(attrs []*attribute, attrName string) string {
 		origNames := map[string]bool{}
 		base := cdlTypeString(attr.class, h5, attrName, attr, origNames)
 		dims := ""
-		if len(attr.dimensions) == 1 && attr.dimensions[0] == 1 {
-		} else {
-			for range attr.dimensions {
-				dims += "(*)"
-			}
+		for range attrTypeDims(attr) {
+			dims += "(*)"
 		}
 		return base + dims
 	}
@@ -3027,11 +3037,8 @@ func (h5 *HDF5) findAttrGoType(attrs []*attribute, attrName string) string {
 		origNames := map[string]bool{}
 		base := goTypeString(attr.class, h5, attrName, attr, origNames)
 		dims := ""
-		if len(attr.dimensions) == 1 && attr.dimensions[0] == 1 {
-		} else {
-			for range attr.dimensions {
-				dims += "[]"
-			}
+		for range attrTypeDims(attr) {
+			dims += "[]"
 		}
 		return dims + base
 	}
-- 
2.43.0


From 7137856bf1ed3e3e6d2672b5c12217c75dfe958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 48/72] fix: lists of one element in HDF5 attributes came back
 as the element

---
 netcdf/hdf5/hdf5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 4b02880..301be3f 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3250,7 +3250,10 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				df := makeFillValueReader(newObject(), nil, int64(calcAttrSize(val)))
 				val.value = getDataAttr(h5, h5, df, *val)
 			}
-			value := undoScalarAttribute(val.value)
+			value := val.value
+			if len(val.dimensions) > 0 && val.dimensions[0] == 1 {
+				value = undoScalarAttribute(value)
+			}
 			if _, has := filtered[val.name]; !has {
 				keys = append(keys, val.name)
 			}
-- 
2.43.0


From 8d19156e0d96ece50a9e3a4a7b03d72a6a1b87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 49/72] fix: chunked HDF5 variables could not be read if their
 type comes after the layout

---
 netcdf/hdf5/hdf5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 301be3f..c0ab53a 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2070,12 +2070,15 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		case typeDatatype:
 			obj.isGroup = false
 			logger.Info("Datatype")
-			// Preserve dimensions and noDf from the existing objAttr across the datatype re-read.
+			// Preserve dimensions, layout and noDf from the existing objAttr across the datatype
+			// re-read.  The messages can be in any order.
 			save := obj.objAttr.dimensions
+			layout := obj.objAttr.layout
 			noDf := obj.objAttr.noDf
 			obj.objAttr = h5.readDatatype(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 			obj.objAttr.dimensions = save
+			obj.objAttr.layout = layout
 			obj.objAttr.noDf = noDf
 
 		case typeDataStorageFillValueOld:
-- 
2.43.0


From e751c2289ba740e7fdb438327ff7faaadfe767e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 50/72] fix: HDF5 types of the same form as another one were
 not found by name

---
 netcdf/hdf5/array.go    |  4 ++--
 netcdf/hdf5/compound.go |  4 ++--
 netcdf/hdf5/enum.go     |  4 ++--
 netcdf/hdf5/hdf5.go     | 25 ++++++++++++++++---------
 netcdf/hdf5/opaque.go   |  4 ++--
 netcdf/hdf5/types.go    |  9 ++++++++-
 netcdf/hdf5/vlen.go     |  4 ++--
 7 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index 29de500..fd73f92 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -24,7 +24,7 @@ func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute
 	}
 	dims := strings.Join(dStr, ",")
 	signature := fmt.Sprintf("%s(%s)", ty, dims)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
@@ -39,7 +39,7 @@ func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attrib
 	}
 	dims := strings.Join(dStr, "")
 	signature := fmt.Sprintf("%s%s", dims, ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index aea6728..96eadaf 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -30,7 +30,7 @@ func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attrib
 	}
 	interior := strings.Join(members, "")
 	signature := fmt.Sprintf("compound {\n%s}", interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -45,7 +45,7 @@ func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *att
 	}
 	interior := strings.Join(members, "\n")
 	signature := fmt.Sprintf("struct {\n%s\n}\n", interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index f1d2db8..c75085b 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -33,7 +33,7 @@ func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	}
 	interior := strings.Join(list, ",\n")
 	signature := fmt.Sprintf("%s enum {\n%s\n}", ty, interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -56,7 +56,7 @@ func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	}
 	interior := strings.Join(list, "\n")
 	signature := fmt.Sprintf("%s\nconst (\n%s\n)\n", ty, interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c0ab53a..85e1cd6 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3191,13 +3191,16 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 	return 0, false
 }
 
-func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
+// findSignature returns the name of the type that is like the attribute's, or nothing if
+// that is one of origNames, which have to be printed in full.
+func (h5 *HDF5) findSignature(attr *attribute, name string, origNames map[string]bool, printer printerType) string {
 	if h5.groupObject == nil {
 		return ""
 	}
+	signature := printer(attr.class, plainTypes{}, name, attr, origNames)
+	namedType := ""
 	for _, obj := range h5.groupObject.sortChildren() {
-		varName := obj.name
-		if obj.isGroup || origNames[varName] {
+		if obj.isGroup {
 			continue
 		}
 		if classifyObject(obj.attrlist).isDimensionScale() {
@@ -3207,14 +3210,18 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 			// this is a variable
 			continue
 		}
-		origNames[varName] = true
-		sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
-		origNames[varName] = false
-		if sig != "" && sig == signature {
-			return obj.name
+		sig := printer(obj.objAttr.class, plainTypes{}, name, obj.objAttr, origNames)
+		if sig == "" || sig != signature {
+			continue
+		}
+		if origNames[obj.name] {
+			return ""
+		}
+		if namedType == "" {
+			namedType = obj.name
 		}
 	}
-	return ""
+	return namedType
 }
 
 // parseAttr parses the value of an attribute.  If it fails, it can be tried again.
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 3626648..f6c3f39 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -17,7 +17,7 @@ var (
 
 func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("opaque(%d)", attr.length)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -26,7 +26,7 @@ func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribut
 
 func (opaqueManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("[%d]uint8", attr.length)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index 5b90520..c151828 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -28,10 +28,17 @@ type caster interface {
 }
 
 type sigHelper interface {
-	findSignature(signature string, name string, origNames map[string]bool,
+	findSignature(attr *attribute, name string, origNames map[string]bool,
 		printer printerType) string
 }
 
+// plainTypes is for printing types without using the names of others.
+type plainTypes struct{}
+
+func (plainTypes) findSignature(*attribute, string, map[string]bool, printerType) string {
+	return ""
+}
+
 type printerType func(class uint8, helper sigHelper, name string, attr *attribute,
 	origNames map[string]bool) string
 
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 0d50bf2..b36520c 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -24,7 +24,7 @@ func (vlenManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	ty := cdlTypeString(vAttr.class, sh, name, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("%s(*)", ty)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -40,7 +40,7 @@ func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	ty := goTypeString(vAttr.class, sh, typeName, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("[]%s", ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
-- 
2.43.0


From 3f61241651e63939eb6605cb7df97e3706cfc2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 51/72] fix: slices of HDF5 enumerations ignored all ranges but
 the first

---
 netcdf/hdf5/hdf5.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 85e1cd6..3a2219c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3578,6 +3578,10 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		copy(newEnd, end)
 		newEnd[0] = end[0] - begin[0]
 
+		if enum, is := partialData.(enumerated); is {
+			enum.values, err = internal.SliceMD(enum.values, newDims, newBegin, newEnd)
+			return enum, err
+		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
 	lockedSlice := func(begin, end int64) (slice any, err error) {
-- 
2.43.0


From ccd6b888a692bff571b19c84cf14f30e9e8a1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 52/72] fix: HDF5 slices missed the last chunks of large
 variables

---
 netcdf/hdf5/hdf5.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 3a2219c..2c14b81 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1064,6 +1064,8 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, parentLevel int,
 		high := entries[i+1].flatOffset
 		if nodeLevel == 0 {
 			high = low + numberOfElements*dtSize
+		} else if i+1 == entriesUsed {
+			high = 0 // the last key may not be past the last chunk
 		}
 
 		// Prune if the requested range [firstOffset, lastOffset) does not overlap
-- 
2.43.0


From 65929b55bca373c52116852bb07f5b56e0ec6c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 53/72] fix: refuse signed HDF5 integers that don't use all
 their bits

---
 netcdf/hdf5/fixedPoint.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/fixedPoint.go b/netcdf/hdf5/fixedPoint.go
index 97a4c4f..288aada 100644
--- a/netcdf/hdf5/fixedPoint.go
+++ b/netcdf/hdf5/fixedPoint.go
@@ -148,6 +148,9 @@ func (fixedPointManagerType) parse(hr heapReader, c caster, attr *attribute, bit
 	logger.Infof("bitOffset=%d bitPrecision=%d blen=%d", bitOffset, bitPrecision,
 		bf.Count())
 	assertError(bitOffset == 0, ErrFixedPoint, "bit offset must be zero")
+	// A negative number with fewer bits isn't sign-extended in the file.
+	assertError(!attr.signed || uint32(bitPrecision) == attr.length*8, ErrFixedPoint,
+		"signed fixed point must use all its bits")
 	switch attr.length {
 	case 1, 2, 4, 8:
 		break
-- 
2.43.0


From 0f03b21e4f402e88b0a0d9996d05876cdf6fa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 54/72] fix: check where the mantissa of HDF5 floats is

---
 netcdf/hdf5/floatingPoint.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index a1b3931..410ffe1 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -131,12 +131,16 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		assertError(bitPrecision == 32, ErrFloatingPoint, "float32 precision must be 32")
 		assertError(exponentLocation == 23, ErrFloatingPoint, "float32 exponent location must be 23")
 		assertError(exponentSize == 8, ErrFloatingPoint, "float32 exponent size must be 8")
+		assertError(mantissaLocation == 0, ErrFloatingPoint, "float32 mantissa location must be 0")
+		assertError(mantissaSize == 23, ErrFloatingPoint, "float32 mantissa size must be 23")
 		assertError(exponentBias == 127, ErrFloatingPoint, "float32 exponent bias must be 127")
 	case 8:
 		assertError(sign == 63, ErrFloatingPoint, "float64 sign location must be 63")
 		assertError(bitPrecision == 64, ErrFloatingPoint, "float64 precision must be 64")
 		assertError(exponentLocation == 52, ErrFloatingPoint, "float64 exponent location must be 52")
 		assertError(exponentSize == 11, ErrFloatingPoint, "float64 exponent size must be 11")
+		assertError(mantissaLocation == 0, ErrFloatingPoint, "float64 mantissa location must be 0")
+		assertError(mantissaSize == 52, ErrFloatingPoint, "float64 mantissa size must be 52")
 		assertError(exponentBias == 1023, ErrFloatingPoint, "float64 exponent bias must be 1023")
 	default:
 		logger.Error("bad dtlenth for fp", attr.length)
-- 
2.43.0


From 792d8a390da343ef4e115ae9b4e07f69f4fbb93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 55/72] fix: empty HDF5 strings came back as a NUL character

---
 netcdf/hdf5/writer_utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 8284014..9777345 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -617,7 +617,9 @@ func findMaxLen(rv reflect.Value, maxLen *int) {
 		return
 	}
 	if rv.Kind() == reflect.String {
-		l := len(rv.String())
+		// With its terminator an empty string would have one byte, and those
+		// are read as characters.
+		l := max(len(rv.String()), 1)
 		if l > *maxLen {
 			*maxLen = l
 		}
-- 
2.43.0


From 969130c67a873a1eec1fabaa5882aed531d4badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 56/72] fix: single CDF characters above 127 were converted to
 UTF-8

---
 netcdf/cdf/cdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 4a6eb92..a1c85dd 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -970,7 +970,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 		case typeChar:
 			v := data.([]byte)
-			return string(v[0])
+			return string(v[:1])
 
 		case typeShort:
 			v := data.([]int16)
-- 
2.43.0


From a54c7e671d5b1354f280d77d259907bedf666a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 57/72] fix: refuse HDF5 strings that would be cut at a NUL

---
 netcdf/hdf5/hdf5writer.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index cfb0488..d9eb38a 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1279,6 +1279,9 @@ func (hw *HDF5Writer) checkValue(val any, nDims int) (err error) {
 	if len(dims) != nDims {
 		return ErrDimensionality
 	}
+	if hasInnerNUL(rv) {
+		return fmt.Errorf("%w: string with a NUL", ErrUnsupportedType)
+	}
 	sig := "*"
 	var check func(rv reflect.Value, dims []uint64)
 	check = func(rv reflect.Value, dims []uint64) {
@@ -1317,6 +1320,33 @@ func (hw *HDF5Writer) checkValue(val any, nDims int) (err error) {
 	return nil
 }
 
+// hasInnerNUL returns true if there is a string that would be cut, because in
+// the file strings end at the first NUL.
+func hasInnerNUL(rv reflect.Value) bool {
+	switch rv.Kind() {
+	case reflect.String:
+		return strings.Contains(strings.TrimRight(rv.String(), "\x00"), "\x00")
+	case reflect.Slice, reflect.Array:
+		if c, ok := rv.Interface().(compound); ok {
+			for _, f := range c {
+				if hasInnerNUL(reflect.ValueOf(f.Val)) {
+					return true
+				}
+			}
+			return false
+		}
+		if e := rv.Type().Elem(); isPlain(e) && e.Kind() != reflect.String {
+			return false
+		}
+		for i := range rv.Len() {
+			if hasInnerNUL(rv.Index(i)) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // isPlain returns true for scalar types.
 func isPlain(t reflect.Type) bool {
 	return t.Kind() != reflect.Slice && t.Kind() != reflect.Array &&
-- 
2.43.0


From eb047654597c20c108327810b441833160b07939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 58/72] fix: HDF5 compounds with lists in them could not be
 written as variables

---
 netcdf/hdf5/hdf5writer.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index d9eb38a..d1a79ae 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -743,8 +743,7 @@ func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
 	// Also check within compound fields
 	if c, ok := rv.Interface().(compound); ok {
 		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
+			if hw.hasVlenData(reflect.ValueOf(f.Val), 0) {
 				return true
 			}
 		}
@@ -765,19 +764,14 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 		}
 		return
 	}
+	// Check compound fields for vlen
+	if _, ok := rv.Interface().(compound); ok {
+		hw.collectVlenFromValue(rv, &v.vlenRefs)
+		return
+	}
 	// At the vlen level: serialize this element's data
 	if rv.Kind() == reflect.Slice {
 		hw.serializeVlenToHeap(rv, &v.vlenRefs)
-		return
-	}
-	// Check compound fields for vlen
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenToHeap(frv, &v.vlenRefs)
-			}
-		}
 	}
 }
 
-- 
2.43.0


From 8e77f23344c49cd963ab6b1eacd300a5b95ef589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 59/72] fix: refuse empty lists of HDF5 opaques, their size is
 not known

---
 netcdf/hdf5/hdf5writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index d1a79ae..23bcd4e 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1304,6 +1304,9 @@ func (hw *HDF5Writer) checkValue(val any, nDims int) (err error) {
 		// No element tells the type, so it has to be a plain one.
 		t := rv.Type()
 		for t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
+			if t == reflect.TypeFor[opaque]() {
+				return ErrUnsupportedType // its size is not known
+			}
 			t = t.Elem()
 		}
 		if !isPlain(t) {
-- 
2.43.0


From 021759a731ef399390694d5b4bfb163edd1efcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 60/72] fix: refuse HDF5 compounds when nothing tells the type
 of a list in them

---
 netcdf/hdf5/hdf5writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 23bcd4e..d3c5019 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1364,7 +1364,11 @@ func writableSignature(rv reflect.Value, canBeVlen bool) string {
 			if f.Val == nil {
 				thrower.Throw(ErrUnsupportedType)
 			}
-			sig += f.Name + ":" + writableSignature(reflect.ValueOf(f.Val), canBeVlen) + ";"
+			s := writableSignature(reflect.ValueOf(f.Val), canBeVlen)
+			if s == "*" {
+				thrower.Throw(ErrUnsupportedType) // nothing tells its type
+			}
+			sig += f.Name + ":" + s + ";"
 		}
 		return sig + "}"
 	case opaque:
-- 
2.43.0


From 1c22df72e5f30bd97fe18ea06d43ba268341de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 61/72] fix: refuse arrays and lists of HDF5 enums, they were
 written wrongly

---
 netcdf/hdf5/hdf5writer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index d3c5019..3a9aa7e 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1266,7 +1266,8 @@ func (hw *HDF5Writer) checkValue(val any, nDims int) (err error) {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, val)
 	}
 	rv := reflect.ValueOf(val)
-	if e, ok := val.(enumerated); ok {
+	e, isEnum := val.(enumerated)
+	if isEnum {
 		rv = reflect.ValueOf(e.values)
 	}
 	dims := getDimensionsLimited(rv, nDims)
@@ -1291,7 +1292,7 @@ func (hw *HDF5Writer) checkValue(val any, nDims int) (err error) {
 			}
 			return
 		}
-		s := writableSignature(rv, true)
+		s := writableSignature(rv, !isEnum) // there are no lists of enums
 		if sig == "*" {
 			sig = s
 		}
-- 
2.43.0


From c9fff3c7d8c972bbf6ae23f8a270c020b70387ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 62/72] fix: refuse empty lists of lists, HDF5 lost a level of
 them

---
 netcdf/hdf5/hdf5writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 3a9aa7e..ac675aa 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1304,13 +1304,15 @@ func (hw *HDF5Writer) checkValue(val any, nDims int) (err error) {
 	if sig == "*" {
 		// No element tells the type, so it has to be a plain one.
 		t := rv.Type()
+		depth := 0
 		for t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
 			if t == reflect.TypeFor[opaque]() {
 				return ErrUnsupportedType // its size is not known
 			}
 			t = t.Elem()
+			depth++
 		}
-		if !isPlain(t) {
+		if !isPlain(t) || depth > nDims+1 {
 			return ErrUnsupportedType
 		}
 	}
-- 
2.43.0


From c34abad413dc75f0dbf7086ab9c93b613de93e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 63/72] fix: HDF5 attributes that are tables of lists could not
 be written

---
 netcdf/hdf5/hdf5writer.go | 47 +++++++++++++++------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ac675aa..89548bc 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -705,7 +705,7 @@ func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 		}
 		// Check if this variable has vlen data (more nesting than declared dims)
 		if hw.hasVlenData(rv, nDims) {
-			hw.collectVlenElements(rv, nDims, v)
+			hw.collectVlenElements(rv, nDims, &v.vlenRefs)
 		}
 	}
 	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
@@ -753,25 +753,25 @@ func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
 
 // collectVlenElements walks through the array dimensions and serializes
 // each vlen element into the global heap.
-func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5Var) {
+func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, refs *[]h5HeapRef) {
 	if e, ok := rv.Interface().(enumerated); ok {
-		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, v)
+		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, refs)
 		return
 	}
 	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
 		for i := range rv.Len() {
-			hw.collectVlenElements(rv.Index(i), dimsLeft-1, v)
+			hw.collectVlenElements(rv.Index(i), dimsLeft-1, refs)
 		}
 		return
 	}
 	// Check compound fields for vlen
 	if _, ok := rv.Interface().(compound); ok {
-		hw.collectVlenFromValue(rv, &v.vlenRefs)
+		hw.collectVlenFromValue(rv, refs)
 		return
 	}
 	// At the vlen level: serialize this element's data
 	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenToHeap(rv, &v.vlenRefs)
+		hw.serializeVlenToHeap(rv, refs)
 	}
 }
 
@@ -783,8 +783,7 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
-				var refs []h5HeapRef
-				hw.collectVlenFromValue(reflect.ValueOf(val), &refs)
+				refs := hw.collectAttrVlenElements(val)
 				if len(refs) > 0 {
 					if v.attrVlenRefs == nil {
 						v.attrVlenRefs = make(map[string][]h5HeapRef)
@@ -797,8 +796,7 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 	if g.attributes != nil {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
-			var refs []h5HeapRef
-			hw.collectVlenFromValue(reflect.ValueOf(val), &refs)
+			refs := hw.collectAttrVlenElements(val)
 			if len(refs) > 0 {
 				if g.attrVlenRefs == nil {
 					g.attrVlenRefs = make(map[string][]h5HeapRef)
@@ -813,6 +811,16 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 	}
 }
 
+// collectAttrVlenElements serializes the vlen elements of an attribute.
+func (hw *HDF5Writer) collectAttrVlenElements(val any) []h5HeapRef {
+	var refs []h5HeapRef
+	rv := reflect.ValueOf(val)
+	if _, nDims := hw.getAttributeDimensions(val); hw.hasVlenData(rv, nDims) {
+		hw.collectVlenElements(rv, nDims, &refs)
+	}
+	return refs
+}
+
 // collectVlenFromValue recursively walks a value and serializes any vlen
 // elements (varying-length slices) to the global heap.
 func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, refs *[]h5HeapRef) {
@@ -845,25 +853,6 @@ func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, refs *[]h5HeapRef)
 		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
 			return
 		}
-		// Check if elements are slices with varying lengths (vlen)
-		if rv.Len() > 0 && rv.Index(0).Kind() == reflect.Slice {
-			isVlen := false
-			if rv.Len() > 1 {
-				firstLen := rv.Index(0).Len()
-				for i := 1; i < rv.Len(); i++ {
-					if rv.Index(i).Len() != firstLen {
-						isVlen = true
-						break
-					}
-				}
-			}
-			if isVlen {
-				for i := range rv.Len() {
-					hw.serializeVlenToHeap(rv.Index(i), refs)
-				}
-				return
-			}
-		}
 		// Regular array: recurse into elements
 		for i := range rv.Len() {
 			hw.collectVlenFromValue(rv.Index(i), refs)
-- 
2.43.0


From 00431fc52a604491a25a14b3511f5946f51f489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 64/72] fix: write an attribute info message, so that the HDF5
 library counts the attributes

A version 2 object header whose attributes are not announced by an
attribute info message has no attributes as far as libhdf5's counting and
iterating is concerned: h5repack and h5copy dropped every attribute.
---
 netcdf/hdf5/hdf5writer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 89548bc..ef6fe81 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -359,6 +359,9 @@ func (hw *HDF5Writer) writeGroupObjectHeaderV2(g *h5Group) {
 		messages = append(messages, hw.buildLinkMessage(name, g.groups[name].addr))
 	}
 
+	// Attribute Info Message (type 21)
+	messages = append(messages, hw.buildAttributeInfoMessage())
+
 	// Attributes
 	if g.attributes != nil {
 		for _, k := range g.attributes.Keys() {
@@ -407,6 +410,7 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 		{mType: 1, data: dsMsg},
 		{mType: 3, data: dtMsg},
 		{mType: 8, data: layoutMsg},
+		hw.buildAttributeInfoMessage(),
 	}
 
 	if v.attributes != nil {
@@ -442,6 +446,18 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 	return h5Message{mType: 2, data: buf.Bytes()}
 }
 
+// buildAttributeInfoMessage says that the attributes are stored in the object
+// header itself.  Without it the HDF5 library doesn't count the attributes of
+// a version 2 object header, so that it can't list or copy them.
+func (hw *HDF5Writer) buildAttributeInfoMessage() h5Message {
+	buf := new(bytes.Buffer)
+	util.MustWriteByte(buf, 0)                    // version
+	util.MustWriteByte(buf, 0)                    // flags (no creation order tracking)
+	util.MustWriteLE(buf, uint64(invalidAddress)) // fractal heap address (undefined = compact)
+	util.MustWriteLE(buf, uint64(invalidAddress)) // name index v2 B-tree address (undefined = compact)
+	return h5Message{mType: 21, data: buf.Bytes()}
+}
+
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-- 
2.43.0


From 289b183eba53c12b7f6e0a77865a93863831efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 65/72] fix: write 3-byte member offsets in compounds of 64 KiB
 and more

Version 3 compound datatypes store a member's offset in as few bytes as
the compound's size needs, which is 3 from 65536 up to 16777215; 4 were
written, and what was written could not be read.
---
 netcdf/hdf5/writer_utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 9777345..1b8be6b 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -148,13 +148,16 @@ func calcFieldSize(val any) int {
 	return 0
 }
 
-// writeEnc writes a 1, 2, or 4 byte encoded integer for compound byte offsets.
+// writeEnc writes a 1, 2, 3, or 4 byte encoded integer for compound byte offsets.
 func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	switch {
 	case totalSize < 256:
 		util.MustWriteByte(buf, byte(val))
 	case totalSize < 65536:
 		util.MustWriteLE(buf, uint16(val))
+	case totalSize < 16777216:
+		util.MustWriteLE(buf, uint16(val))
+		util.MustWriteByte(buf, byte(val>>16))
 	default:
 		util.MustWriteLE(buf, val)
 	}
-- 
2.43.0


From 7f64e91a0a12d3b840bf9f287a6cd2b31c405799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 66/72] fix: refuse more than 32 dimensions

HDF5 allows 32; with 256 or more the rank didn't even fit its byte, and
the file was corrupt.
---
 netcdf/hdf5/hdf5writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ef6fe81..2717044 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1262,6 +1262,9 @@ func (hw *HDF5Writer) checkAttributeSize(name string, val any, dims []uint64, nD
 	return nil
 }
 
+// maxRank is how many dimensions HDF5 allows.
+const maxRank = 32
+
 // checkValue checks that val can be written with nDims dimensions: that the
 // dimensions are there and are rectangular, and that what remains below them
 // is of one type, which can be a list of varying length.
@@ -1276,7 +1279,7 @@ func (hw *HDF5Writer) checkValue(val any, nDims int) (err error) {
 		rv = reflect.ValueOf(e.values)
 	}
 	dims := getDimensionsLimited(rv, nDims)
-	if len(dims) != nDims {
+	if len(dims) != nDims || nDims > maxRank {
 		return ErrDimensionality
 	}
 	if hasInnerNUL(rv) {
-- 
2.43.0


From 0a9e194ff257ae6ae33860eebd153d81f59963d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 67/72] fix: CDF sizes of 2 GiB and more were taken for
 negative, and records of 4 GiB misplaced

---
 netcdf/cdf/cdf.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index a1c85dd..02490e8 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -420,7 +420,8 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 		default:
 			thrower.Throw(ErrUnknownType)
 		}
-		cdf.recSize += uint64(vsize)
+		// vsize can't tell the size of a large record, so it isn't used.
+		cdf.recSize += roundInt32(n)
 		usedVsize = n
 	}
 	var offset uint64
@@ -437,9 +438,7 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 
 func (cdf *CDF) readNumber(bf io.Reader) uint64 {
 	if cdf.version < 5 {
-		n := read32(bf)
-		// Sign-extend the 32-bit value to 64-bit before returning as uint64.
-		return uint64(int64(int32(n)))
+		return uint64(read32(bf))
 	}
 	return read64(bf)
 }
@@ -466,7 +465,11 @@ func (cdf *CDF) readHeader() (err error) {
 	cdf.version = version
 	// numrecs
 	numRecs := cdf.readNumber(bf)
-	assert(numRecs != 0xffffffffffffffff,
+	streaming := uint64(math.MaxUint64)
+	if version < 5 {
+		streaming = math.MaxUint32
+	}
+	assert(numRecs != streaming,
 		"streaming not supported",
 		ErrNoStreamingDimensions)
 	cdf.numRecs = numRecs
-- 
2.43.0


From 43183f05142eecf1b50339d04d0c740074da7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 68/72] fix: a slice of a chunked HDF5 variable read everything
 in front of it

---
 netcdf/hdf5/hdf5.go    | 47 ++++++++++++++++++++++++++++++++++++------
 netcdf/hdf5/readers.go | 11 ++++++++--
 2 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 2c14b81..31c7a0d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2579,7 +2579,15 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	firstOffset := uint64(0)
 	lastOffset := uint64(size)
 	segments := newSegments()
-	if obj.objAttr.isSlice && !needsLayoutReader(obj.objAttr) {
+	layoutReader := needsLayoutReader(obj.objAttr)
+	if layoutReader {
+		// The chunks of the stripes wanted
+		first, last, nStripes := stripes(obj.objAttr)
+		stripeSize := size / nStripes
+		firstOffset = first * stripeSize
+		lastOffset = last * stripeSize
+		size = lastOffset - firstOffset
+	} else if obj.objAttr.isSlice {
 		if len(obj.objAttr.dimensions) > 0 && obj.objAttr.dimensions[0] > 0 {
 			dimSize := size / obj.objAttr.dimensions[0]
 			firstOffset = uint64(obj.objAttr.firstDim) * dimSize
@@ -2593,7 +2601,14 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	if len(blocks) == 0 && obj.btreeAddr != 0 {
 		// What is found depends on the range, so it must not stick to the object.
 		found := *obj
-		h5.readBTreeNode(&found, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
+		begin, end := firstOffset, lastOffset
+		if layoutReader {
+			// The B-tree is searched for the rows, as if there were no chunks.
+			first, last, _ := stripes(obj.objAttr)
+			stripeSize := mulSizes(obj.objAttr.layout[0], rowSize(obj.objAttr))
+			begin, end = mulSizes(first, stripeSize), mulSizes(last, stripeSize)
+		}
+		h5.readBTreeNode(&found, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, begin, end)
 		blocks = found.dataBlocks
 	}
 	if len(blocks) == 0 {
@@ -2762,6 +2777,23 @@ func needsLayoutReader(attr *attribute) bool {
 	return false
 }
 
+// rowSize is the size of what is at one place along the first dimension.
+func rowSize(attr *attribute) uint64 {
+	return mulSizes(mulSizes(attr.dimensions[1:]...), uint64(attr.length))
+}
+
+// stripes finds which stripes of chunks, that is chunks in the same place along the first
+// dimension, have what is wanted: from first up to but not including last, of nStripes.
+func stripes(attr *attribute) (first, last, nStripes uint64) {
+	nStripes = (attr.dimensions[0] + attr.layout[0] - 1) / attr.layout[0]
+	if !attr.isSlice {
+		return 0, nStripes, nStripes
+	}
+	first = uint64(attr.firstDim) / attr.layout[0]
+	last = (uint64(attr.lastDim) + attr.layout[0] - 1) / attr.layout[0]
+	return first, last, nStripes
+}
+
 func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 	undefinedFillValue := false
 	objFillValue := obj.fillValue
@@ -2803,14 +2835,17 @@ func (h5 *HDF5) getData(obj *object) any {
 		// It is read a stripe of chunks at a time, each of which takes whole chunks.
 		chunk := attribute{class: typeFixedPoint, length: attr.length}
 		h5.useMemory(memoryNeeded(&chunk, attr.layout))
-		h5.useMemory(memoryNeeded(&chunk, attr.dimensions))
+		stripe := slices.Clone(attr.dimensions)
+		stripe[0] = min(stripe[0], attr.layout[0])
+		h5.useMemory(memoryNeeded(&chunk, stripe))
 	}
 	bf := h5.newMaybeLayoutRecordReader(obj)
 	logger.Info("about to getdataattr rem=", bf.(remReader).Rem())
 	if attr.isSlice && needsLayoutReader(attr) && attr.dimensions[0] > 0 {
-		// The layout reader delivers the whole variable.  Pick the slice out of it.
-		rowSize := int64(calcDataSize(attr) / attr.dimensions[0] * uint64(attr.length))
-		skip(bf, rowSize*attr.firstDim)
+		// The layout reader delivers whole stripes.  Pick the slice out of them.
+		first, _, _ := stripes(attr)
+		rowSize := int64(rowSize(attr))
+		skip(bf, rowSize*(attr.firstDim-int64(first*attr.layout[0])))
 		bf = newResetReader(bf, rowSize*(attr.lastDim-attr.firstDim))
 	}
 	return getDataAttr(h5, h5, bf, *attr)
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index a3a2240..cc5cfcb 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -526,6 +526,13 @@ func (lr *layoutReader) Count() int64 {
 }
 
 func newLayoutReader(r remReader, obj *object) io.Reader {
-	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
-	return &layoutReader{r, obj, nil, int64(size), 0, 0}
+	attr := obj.objAttr
+	size := calcDataSize(attr) * uint64(attr.length)
+	first := uint64(0)
+	if size > 0 {
+		var last uint64
+		first, last, _ = stripes(attr)
+		size = (min(last*attr.layout[0], attr.dimensions[0]) - first*attr.layout[0]) * rowSize(attr)
+	}
+	return &layoutReader{r, obj, nil, int64(size), 0, int(first)}
 }
-- 
2.43.0


From 2a7ebea151bc9585f49463003968c1e79033f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 69/72] fix: CDF variables of 4 GiB and more were written with
 a size that 32 bits cannot hold

---
 netcdf/cdf/cdfwriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index d5bca04..a781d8e 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -505,6 +505,9 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	}
 	saved := savedVar{name, values.Interface(), ty, dimLengths, dimNames, vr.Attributes, 0}
 	saved.vsize = saved.computeVsize() // throws if the dimensions are not possible
+	if saved.vsize > math.MaxUint32-3 {
+		cw.version = 5 // before, a size is stored in 32 bits
+	}
 	cw.vars = append(cw.vars, saved)
 	return nil
 }
-- 
2.43.0


From 64a9bdf0b0e73346bab1b0a7ff92364c580a0e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 70/72] fix: CDF files of more than 1024 dimensions could be
 written but not read

Nothing limits the number of dimensions of a file; 1024 is the limit of one
variable (NC_MAX_VAR_DIMS).  The writer keeps to the latter.
---
 netcdf/cdf/cdf.go       | 12 +++---------
 netcdf/cdf/cdfwriter.go |  3 +++
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 02490e8..83b5cc1 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -81,7 +81,7 @@ type CDF struct {
 }
 
 const (
-	maxDimensions = 1024
+	maxDimensions = 1024              // of a variable
 	maxSize       = math.MaxInt64 / 8 // elements of a variable
 	maxMissing    = 1 << 26           // bytes of a variable beyond the end of the file
 )
@@ -476,14 +476,8 @@ func (cdf *CDF) readHeader() (err error) {
 
 	// dimlist
 	nDims := cdf.getNElems(bf, fieldDimension)
-	assert(nDims <= maxDimensions,
-		"too many dimensions",
-		ErrTooManyDimensions)
-	if nDims > 0 {
-		cdf.dimensions = make([]dimension, nDims)
-		for i := uint64(0); i < nDims; i++ {
-			cdf.dimensions[i] = cdf.getDim(bf)
-		}
+	for i := uint64(0); i < nDims; i++ {
+		cdf.dimensions = append(cdf.dimensions, cdf.getDim(bf))
 	}
 
 	// gatt_list
diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index a781d8e..05fa0be 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -468,6 +468,9 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if len(vr.Dimensions) > len(dimLengths) {
 		return ErrDimensionSize
 	}
+	if len(dimLengths) > maxDimensions {
+		return ErrTooManyDimensions
+	}
 	switch ty {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
-- 
2.43.0


From 3ac2a2791fffb1aeb84ca0514d84f623eb47e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:02 +0000
Subject: [PATCH 71/72] fix: HDF5 objects of more than 10000 header
 continuations were refused

HDF5 writes such headers, e.g. for a dataset of that many attributes in a file of
the earliest format.
---
 netcdf/hdf5/hdf5.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 31c7a0d..92713b7 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -54,8 +54,8 @@ const (
 )
 
 // maxContinuations is more continuation blocks than the header of any object in a
-// sound file has.
-const maxContinuations = 10000
+// sound file has: there is a message for each, and these are counted in 16 bits.
+const maxContinuations = 1 << 16
 
 // maxDepth is more than any tree or heap of a sound file can be deep.
 const maxDepth = 64
-- 
2.43.0


From f4f511e9ad9121673a61f89183c1538a9926962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:23 +0000
Subject: [PATCH 72/72] fix: a damaged CDF file could use up the memory with
 slices of one element

A variable larger than the file is limited in bytes, but with dimensions of length
one each byte needs a slice header for every dimension.
---
 netcdf/cdf/cdf.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 83b5cc1..195ec82 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -84,6 +84,7 @@ const (
 	maxDimensions = 1024              // of a variable
 	maxSize       = math.MaxInt64 / 8 // elements of a variable
 	maxMissing    = 1 << 26           // bytes of a variable beyond the end of the file
+	maxSlices     = 1 << 25           // slices that hold a variable larger than the file
 )
 
 var (
@@ -691,6 +692,16 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			(!unlimited || sizeInBytes <= fileSize),
 			"corrupted file, variable is larger than the file",
 			ErrCorruptedFile)
+		nSlices := int64(0) // of all the dimensions but the last
+		for i, n := 0, nChunks; i < len(dimLengths)-1; i++ {
+			if i > 0 {
+				n *= int64(dimLengths[i])
+			}
+			nSlices += n
+		}
+		assert(sizeInBytes <= fileSize || nSlices <= maxSlices,
+			"corrupted file, variable is too large for a file of this size",
+			ErrCorruptedFile)
 
 		var bf io.Reader
 		if unlimited && !cdf.specialCase {
-- 
2.43.0

