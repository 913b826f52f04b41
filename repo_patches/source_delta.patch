From b8b30ba51fed48966fcc95b7464c0c6e402a6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 01/30] fix: MatchStandaloneJSON no longer changes the Config
 it is called through

---
 snaps/matchStandaloneJSON.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 701e81b..4072369 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -12,11 +12,13 @@ import (
 func (c *Config) MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
 	t.Helper()
 
-	if c.extension == "" {
-		c.extension = ".json"
+	// don't alter the caller's config, it can be shared between calls and tests
+	cc := *c
+	if cc.extension == "" {
+		cc.extension = ".json"
 	}
 
-	matchStandaloneJSON(c, t, input, matchers...)
+	matchStandaloneJSON(&cc, t, input, matchers...)
 }
 
 func MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
-- 
2.43.0


From 7cb8030e7e608dc53d9335d778629c8d6a6b598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 02/30] fix: take the file lock when adding a snapshot

---
 snaps/snapshot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ee63b2c..35ddbd8 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -245,6 +245,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 }
 
 func addNewSnapshot(testID, snapshot, snapPath string) error {
+	// a test updating the same file reads it and dumps it as a whole, an entry
+	// appended in between would be lost
+	_m.Lock()
+	defer _m.Unlock()
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
 	}
-- 
2.43.0


From e5fd459463bc6b0d30a0a32e2816ff4188501ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 03/30] fix: store `---` and `/-/-/-/` lines differently

---
 snaps/snapshot.go | 16 ++++++++++++++--
 snaps/utils.go    |  2 ++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 35ddbd8..f15b205 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -391,8 +391,10 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 func unescapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
-		if s == "/-/-/-/" {
+		if s == escapedEndSequence {
 			ss[idx] = endSequence
+		} else if isEscaped(s) {
+			ss[idx] = s[1:]
 		}
 	}
 	return strings.Join(ss, "\n")
@@ -402,8 +404,18 @@ func escapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
 		if s == endSequence {
-			ss[idx] = "/-/-/-/"
+			ss[idx] = escapedEndSequence
+		} else if isEscaped(s) {
+			ss[idx] = "/" + s
 		}
 	}
 	return strings.Join(ss, "\n")
 }
+
+// isEscaped reports whether a line is the escaped endSequence, with any number of
+// additional leading slashes. Those lines get one more slash when they are stored so
+// they can be told apart from an escaped endSequence.
+func isEscaped(s string) bool {
+	s, found := strings.CutSuffix(s, escapedEndSequence)
+	return found && strings.Trim(s, "/") == ""
+}
diff --git a/snaps/utils.go b/snaps/utils.go
index 7c441ca..e091657 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -39,6 +39,8 @@ const (
 
 	snapsExt    = ".snap"
 	endSequence = "---"
+	// a line equal to endSequence is stored as escapedEndSequence
+	escapedEndSequence = "/-/-/-/"
 )
 
 type (
-- 
2.43.0


From 71bf10f24fd143466cafd96918d7de46c713c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 04/30] fix: Clean handles entries of fuzz tests and benchmarks

---
 snaps/clean.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 73761d1..a37eb9c 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -117,19 +117,22 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
-// getTestID will return the testID if the line is in the form of [Test... - number]
+// getTestID will return the testID if the line is in the form of [test-name - number]
+//
+// test-name is not only "Test..." as snapshots can be created from fuzz tests and
+// benchmarks as well.
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
 		return "", false
 	}
 
-	// needs to start with [Test and end with ]
-	if !bytes.HasPrefix(b, []byte("[Test")) || b[len(b)-1] != ']' {
+	// needs to start with [ and end with ]
+	if b[0] != '[' || b[len(b)-1] != ']' {
 		return "", false
 	}
 
-	// needs to contain ' - '
-	separator := bytes.Index(b, []byte(" - "))
+	// needs to contain ' - ' before the number
+	separator := bytes.LastIndex(b, []byte(" - "))
 	if separator == -1 {
 		return "", false
 	}
-- 
2.43.0


From ce693d0c71fbce0bcc368876a9ddac28d42c336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 05/30] fix: don't take lines inside a snapshot for the start
 of another one

---
 snaps/snapshot.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index f15b205..c9c3328 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -222,6 +222,9 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 		l := s.Bytes()
 		if !bytes.Equal(l, tid) {
 			lineNumber++
+			if _, isID := getTestID(l); isID {
+				lineNumber += removeSnapshot(s)
+			}
 			continue
 		}
 		var snapshot strings.Builder
@@ -287,6 +290,9 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 		updatedSnapFile.Write(b)
 		updatedSnapFile.WriteByte('\n')
 		if !bytes.Equal(b, tid) {
+			if _, isID := getTestID(b); isID {
+				copySnapshot(s, &updatedSnapFile)
+			}
 			continue
 		}
 
@@ -313,13 +319,30 @@ func overwriteFile(f *os.File, b []byte) error {
 	return err
 }
 
-func removeSnapshot(s *bufio.Scanner) {
+// removeSnapshot skips the body of a snapshot and returns the number of lines skipped.
+//
+// Lines in the body can look like a test id, they should not be searched for one.
+func removeSnapshot(s *bufio.Scanner) (lines int) {
 	for s.Scan() {
+		lines++
 		// skip until ---
 		if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
 			break
 		}
 	}
+
+	return lines
+}
+
+// copySnapshot writes the body of a snapshot to w until and including ---.
+func copySnapshot(s *bufio.Scanner, w *bytes.Buffer) {
+	for s.Scan() {
+		w.Write(s.Bytes())
+		w.WriteByte('\n')
+		if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
+			break
+		}
+	}
 }
 
 func upsertStandaloneSnapshot(snapshot, snapPath string) error {
-- 
2.43.0


From c2529e62e3901fd0c109772425056e0aa08aa890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 06/30] fix: report single line texts that differ only in
 invalid UTF-8

---
 snaps/diff.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/snaps/diff.go b/snaps/diff.go
index 19304e1..9358a03 100644
--- a/snaps/diff.go
+++ b/snaps/diff.go
@@ -155,7 +155,16 @@ func singlelineDiff(expected, received string) (string, int, int) {
 		dmp.DiffMain(expected, received, false),
 	)
 	if len(diffs) == 1 && diffs[0].Type == diffEqual {
-		return "", -1, -1
+		if expected == received {
+			return "", -1, -1
+		}
+
+		// the texts differ only in bytes that are not valid UTF-8, those are all
+		// the same for the diff
+		diffs = []diffmatchpatch.Diff{
+			{Type: diffDelete, Text: expected},
+			{Type: diffInsert, Text: received},
+		}
 	}
 
 	var inserted, deleted int
-- 
2.43.0


From 81fae120adc9b15f3f78b1b10bc7cc1c069ceb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 07/30] fix: Clean doesn't remove obsolete snapshots when it is
 only sorting

---
 snaps/clean.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index a37eb9c..8d32192 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -252,10 +252,14 @@ func examineSnaps(
 
 			if !registeredTests.Has(testID) && !testSkipped(testID, runOnly) {
 				obsoleteTests = append(obsoleteTests, testID)
-				hasDiffs = true
 
-				removeSnapshot(s)
-				continue
+				// only when updating the obsolete test should be left out
+				if update {
+					hasDiffs = true
+
+					removeSnapshot(s)
+					continue
+				}
 			}
 
 			for s.Scan() {
-- 
2.43.0


From f2886e2e1b272865ba20dfe4395d12140e774a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 08/30] fix: Clean keeps the values of entries that share an id

---
 snaps/clean.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 8d32192..75e889f 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -226,7 +226,8 @@ func examineSnaps(
 	sort bool,
 ) ([]string, error) {
 	obsoleteTests := []string{}
-	tests := map[string]string{}
+	// a file can hold a test id more than once e.g. after a merge
+	tests := map[string][]string{}
 	data := bytes.Buffer{}
 	testIDs := []string{}
 
@@ -266,7 +267,7 @@ func examineSnaps(
 				line := s.Bytes()
 
 				if bytes.Equal(line, endSequenceByteSlice) {
-					tests[testID] = data.String()
+					tests[testID] = append(tests[testID], data.String())
 
 					data.Reset()
 					break
@@ -305,12 +306,12 @@ func examineSnaps(
 		}
 
 		for _, id := range testIDs {
-			test, ok := tests[id]
-			if !ok {
+			if len(tests[id]) == 0 {
 				continue
 			}
 
-			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, test, endSequence)
+			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, tests[id][0], endSequence)
+			tests[id] = tests[id][1:]
 		}
 		f.Close()
 
-- 
2.43.0


From 3dfee22f845d6c4e027cc73159df8147ac6d4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 09/30] fix: Clean keeps every snapshot addressed when
 executions of a test differ

---
 snaps/clean.go    | 12 +++++++-----
 snaps/snapshot.go |  8 ++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 75e889f..76c5d88 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"testing"
@@ -80,21 +79,24 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	// This is just for making sure Clean is called from TestMain
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
-	count, _ := strconv.Atoi(flag.Lookup("test.count").Value.String())
+	// the registries keep the highest number of snapshots of a single execution, so there
+	// is no need to divide with the times the tests ran. Executions of a test don't have
+	// to create the same number of snapshots.
+	const count = 1
 	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.cleanup,
+		standaloneTestsRegistry.highest,
 		count,
 		standaloneOccurrenceFMT,
 	)
 
 	obsoleteFiles, usedFiles := examineFiles(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		registeredStandaloneTests,
 		runOnly,
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		usedFiles,
 		runOnly,
 		count,
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index c9c3328..76333ff 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -134,6 +134,8 @@ func handleError(t testingT, err any) {
 type syncRegistry struct {
 	running map[string]map[string]int
 	cleanup map[string]map[string]int
+	// the highest number of snapshots a single execution of the test has created
+	highest map[string]map[string]int
 	sync.Mutex
 }
 
@@ -145,11 +147,13 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 	if _, exists := s.running[snapPath]; !exists {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
+		s.highest[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
 	c := s.running[snapPath][testName]
+	s.highest[snapPath][testName] = max(s.highest[snapPath][testName], c)
 	s.Unlock()
 
 	return fmt.Sprintf("[%s - %d]", testName, c)
@@ -166,6 +170,7 @@ func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
 		cleanup: make(map[string]map[string]int),
+		highest: make(map[string]map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -173,6 +178,7 @@ func newRegistry() *syncRegistry {
 type syncStandaloneRegistry struct {
 	running map[string]int
 	cleanup map[string]int
+	highest map[string]int
 	sync.Mutex
 }
 
@@ -180,6 +186,7 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 	return &syncStandaloneRegistry{
 		running: make(map[string]int),
 		cleanup: make(map[string]int),
+		highest: make(map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -190,6 +197,7 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
 	c := s.running[snapPath]
+	s.highest[snapPath] = max(s.highest[snapPath], c)
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
-- 
2.43.0


From 9f58971c6104c53dcbd1ce0b98e7f8ac4b841255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 10/30] fix: matchers don't edit the caller's json in place

---
 match/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index a1cabb2..fcc4d4a 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -9,8 +9,9 @@ import (
 var (
 	errPathNotFound = errors.New("path does not exist")
 	setJSONOptions  = &sjson.Options{
-		Optimistic:     true,
-		ReplaceInPlace: true,
+		Optimistic: true,
+		// the document can be the caller's []byte, it must not be edited in place
+		ReplaceInPlace: false,
 	}
 )
 
-- 
2.43.0


From bed1bf5abd8c3f68ff692816e79373de0cddea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 11/30] fix: handle % in the path of standalone snapshots

---
 snaps/snapshot.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 76333ff..f1793eb 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -391,15 +391,25 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
 	}
 
+	callerDir := filepath.Dir(callerFilename)
+	if isStandalone {
+		dir, callerDir = escapeVerbs(dir), escapeVerbs(callerDir)
+	}
+
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
 	snapPathRel := snapPath
 	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
+		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
 	}
 
 	return snapPath, snapPathRel
 }
 
+// escapeVerbs escapes % as the path of a standalone snapshot is a format string.
+func escapeVerbs(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
+}
+
 func constructFilename(c *Config, callerFilename, tName string, isStandalone bool) string {
 	filename := c.filename
 	if filename == "" {
@@ -411,12 +421,11 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 		}
 	}
 
-	if isStandalone {
-		filename += "_%d"
+	if !isStandalone {
+		return filename + snapsExt + c.extension
 	}
-	filename += snapsExt + c.extension
 
-	return filename
+	return escapeVerbs(filename) + "_%d" + snapsExt + escapeVerbs(c.extension)
 }
 
 func unescapeEndChars(s string) string {
-- 
2.43.0


From e1971a3ebb6c1fe4e9e31e3356a654f147d453b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 12/30] fix: count the standalone snapshots of each test on
 their own

---
 snaps/matchStandaloneJSON.go     |  8 ++++++--
 snaps/matchStandaloneSnapshot.go |  8 ++++++--
 snaps/snapshot.go                | 20 +++++++++++++++-----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 4072369..fb646ec 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -36,9 +36,13 @@ func matchStandaloneJSON(c *Config, t testingT, input any, matchers ...match.JSO
 	t.Helper()
 
 	genericPathSnap, genericSnapPathRel := snapshotPath(c, t.Name(), true)
-	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(genericPathSnap, genericSnapPathRel)
+	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(
+		genericPathSnap,
+		genericSnapPathRel,
+		t.Name(),
+	)
 	t.Cleanup(func() {
-		standaloneTestsRegistry.reset(genericPathSnap)
+		standaloneTestsRegistry.reset(genericPathSnap, t.Name())
 	})
 
 	j, err := validateJSON(input)
diff --git a/snaps/matchStandaloneSnapshot.go b/snaps/matchStandaloneSnapshot.go
index e6012ca..8e99a94 100644
--- a/snaps/matchStandaloneSnapshot.go
+++ b/snaps/matchStandaloneSnapshot.go
@@ -42,9 +42,13 @@ func matchStandaloneSnapshot(c *Config, t testingT, input any) {
 	t.Helper()
 
 	genericPathSnap, genericSnapPathRel := snapshotPath(c, t.Name(), true)
-	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(genericPathSnap, genericSnapPathRel)
+	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(
+		genericPathSnap,
+		genericSnapPathRel,
+		t.Name(),
+	)
 	t.Cleanup(func() {
-		standaloneTestsRegistry.reset(genericPathSnap)
+		standaloneTestsRegistry.reset(genericPathSnap, t.Name())
 	})
 
 	snapshot := pretty.Sprint(input)
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index f1793eb..382e775 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -191,24 +191,34 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 	}
 }
 
-func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string, string) {
+// Returns the paths of the next snapshot. Tests that share a filename count on their own,
+// a test's snapshots don't depend on the ones created from its subtests or in parallel.
+func (s *syncStandaloneRegistry) getTestID(
+	snapPath, snapPathRel string,
+	testName ...string,
+) (string, string) {
 	s.Lock()
 
-	s.running[snapPath]++
+	key := s.runningKey(snapPath, testName)
+	s.running[key]++
 	s.cleanup[snapPath]++
-	c := s.running[snapPath]
+	c := s.running[key]
 	s.highest[snapPath] = max(s.highest[snapPath], c)
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
 }
 
-func (s *syncStandaloneRegistry) reset(snapPath string) {
+func (s *syncStandaloneRegistry) reset(snapPath string, testName ...string) {
 	s.Lock()
-	s.running[snapPath] = 0
+	s.running[s.runningKey(snapPath, testName)] = 0
 	s.Unlock()
 }
 
+func (s *syncStandaloneRegistry) runningKey(snapPath string, testName []string) string {
+	return strings.Join(append([]string{snapPath}, testName...), "\x00")
+}
+
 // getPrevSnapshot scans file searching for a snapshot matching the given testID and returns
 // the snapshot with the line where is located inside the file.
 //
-- 
2.43.0


From 832a397f6eb1502410de7f11dc0cf78483ddb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 13/30] fix: match the -run flag as the testing package does

---
 snaps/skip.go | 73 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 70 insertions(+), 3 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 7016257..df5fe24 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"path"
 	"regexp"
+	"slices"
 	"strings"
 
 	"github.com/gkampitakis/go-snaps/internal/colors"
@@ -68,7 +69,10 @@ Then every "child" test should be skipped
 */
 func testSkipped(testID, runOnly string) bool {
 	// testID form: Test.*/runName - 1
-	testName := strings.Split(testID, " - ")[0]
+	testName := testID
+	if i := strings.LastIndex(testID, " - "); i != -1 {
+		testName = testID[:i]
+	}
 
 	for _, name := range skippedTests.values {
 		if testName == name || strings.HasPrefix(testName, name+"/") {
@@ -76,8 +80,71 @@ func testSkipped(testID, runOnly string) bool {
 		}
 	}
 
-	matched, _ := regexp.MatchString(runOnly, testID)
-	return !matched
+	return !isSelected(testName, runOnly)
+}
+
+// isSelected checks if the -run flag selects the test.
+//
+// It follows the testing package, the alternatives of the pattern and the name of the test
+// are matched level by level ( separated by '/' ). A test is also selected when one of its
+// subtests can be.
+func isSelected(testName, runOnly string) bool {
+	if runOnly == "" {
+		return true
+	}
+
+	names := strings.Split(testName, "/")
+
+	return slices.ContainsFunc(splitRunOnly(runOnly), func(patterns []string) bool {
+		for i, name := range names {
+			if i >= len(patterns) {
+				break
+			}
+			if matched, _ := regexp.MatchString(patterns[i], name); !matched {
+				return false
+			}
+		}
+		return true
+	})
+}
+
+// splitRunOnly splits the pattern at '|' and then at '/' if they are not part of a group or
+// of a character class.
+func splitRunOnly(runOnly string) [][]string {
+	alternatives := [][]string{{}}
+	brackets, parens, start := 0, 0, 0
+	add := func(end int) {
+		// tests' names don't have spaces
+		pattern := strings.ReplaceAll(runOnly[start:end], " ", "_")
+		last := len(alternatives) - 1
+		alternatives[last] = append(alternatives[last], pattern)
+		start = end + 1
+	}
+
+	for i := 0; i < len(runOnly); i++ {
+		switch c := runOnly[i]; {
+		case c == '\\':
+			i++
+		case c == '[':
+			brackets++
+		case c == ']':
+			brackets = max(brackets-1, 0)
+		case brackets > 0:
+		case c == '(':
+			parens++
+		case c == ')':
+			parens--
+		case parens != 0:
+		case c == '/':
+			add(i)
+		case c == '|':
+			add(i)
+			alternatives = append(alternatives, []string{})
+		}
+	}
+	add(len(runOnly))
+
+	return alternatives
 }
 
 func isFileSkipped(dir, filename, runOnly string) bool {
-- 
2.43.0


From 22997bb02068b2fbd1fa5dc9f7d0ceec6c7ef070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 14/30] fix: Clean keeps the files of tests that didn't run

---
 snaps/clean.go |  3 ++-
 snaps/skip.go  | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 76c5d88..054de2c 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -200,7 +200,8 @@ func examineFiles(
 				continue
 			}
 
-			if isFileSkipped(dir, content.Name(), runOnly) {
+			if isFileSkipped(dir, content.Name(), runOnly) ||
+				isFileOfSkippedTest(snapPath, runOnly) {
 				continue
 			}
 
diff --git a/snaps/skip.go b/snaps/skip.go
index df5fe24..67ba679 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -4,7 +4,9 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"os"
 	"path"
+	"path/filepath"
 	"regexp"
 	"slices"
 	"strings"
@@ -15,6 +17,8 @@ import (
 var (
 	skippedTests = newSyncSlice()
 	skippedMsg   = colors.Sprint(colors.Yellow, skipSymbol+"Snapshot skipped")
+	// standalone snapshots are named as 'name_number.snap' plus an optional extension
+	standaloneNameRegexp = regexp.MustCompile(`_\d+\.snap`)
 )
 
 // Wrapper of testing.Skip
@@ -147,6 +151,43 @@ func splitRunOnly(runOnly string) [][]string {
 	return alternatives
 }
 
+// isFileOfSkippedTest checks if a file, no test has used, belongs to a test that didn't run.
+func isFileOfSkippedTest(snapPath, runOnly string) bool {
+	f, err := os.Open(snapPath)
+	if err != nil {
+		return false
+	}
+	defer f.Close()
+
+	s := snapshotScanner(f)
+	for s.Scan() {
+		testID, isID := getTestID(s.Bytes())
+		if !isID {
+			continue
+		}
+		if testSkipped(testID, runOnly) {
+			return true
+		}
+
+		removeSnapshot(s)
+	}
+
+	filename := filepath.Base(snapPath)
+	if !standaloneNameRegexp.MatchString(filename) {
+		return false
+	}
+
+	// standalone snapshots don't contain a test id. Their filename is not enough for knowing
+	// if the test that creates them was part of the 'runOnly'.
+	if runOnly != "" {
+		return true
+	}
+
+	return slices.ContainsFunc(skippedTests.values, func(name string) bool {
+		return strings.HasPrefix(filename, strings.ReplaceAll(name, "/", "_")+"_")
+	})
+}
+
 func isFileSkipped(dir, filename, runOnly string) bool {
 	// When a file is skipped through CLI with -run flag we can track it
 	if runOnly == "" {
-- 
2.43.0


From 609080afcce8a628078ec680d380aea288137c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 15/30] fix: keep the snapshots' directory of trimpath builds
 when a test changes directory

---
 snaps/snapshot.go | 15 ++++++++-------
 snaps/utils.go    |  3 +++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 382e775..4948028 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -396,21 +396,22 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
 
+	callerDir := filepath.Dir(callerFilename)
+	if isTrimBathBuild {
+		callerDir = initialDir
+	}
+
 	dir := c.snapsDir
-	if !filepath.IsAbs(dir) && !isTrimBathBuild {
-		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
+	if !filepath.IsAbs(dir) {
+		dir = filepath.Join(callerDir, c.snapsDir)
 	}
 
-	callerDir := filepath.Dir(callerFilename)
 	if isStandalone {
 		dir, callerDir = escapeVerbs(dir), escapeVerbs(callerDir)
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
-	snapPathRel := snapPath
-	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
-	}
+	snapPathRel, _ := filepath.Rel(callerDir, snapPath)
 
 	return snapPath, snapPathRel
 }
diff --git a/snaps/utils.go b/snaps/utils.go
index e091657..adfb96d 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -25,6 +25,9 @@ var (
 		snapsDir: "__snapshots__",
 	}
 	isTrimBathBuild = trimPathBuild()
+	// the directory of the package under test, in trimpath builds the callers' paths are not
+	// usable and tests can change their working directory
+	initialDir, _ = os.Getwd()
 )
 
 const (
-- 
2.43.0


From 4aedb09a2215c182a07c867d0ebe8b02887acb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 16/30] fix: keep YAML valid when a placeholder cannot be laid
 out as the value it replaces

---
 match/internal/yaml/yaml.go | 89 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 88 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6b22881..3427009 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -3,10 +3,12 @@ package yaml
 import (
 	"bytes"
 	"errors"
+	"reflect"
 	"strings"
 
 	"github.com/goccy/go-yaml"
 	"github.com/goccy/go-yaml/ast"
+	"github.com/goccy/go-yaml/parser"
 )
 
 // GetValue returns the value of the node.
@@ -51,7 +53,80 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		return err
 	}
 
-	return path.ReplaceWithReader(f, bytes.NewReader(b))
+	if err := replace(f, path, b); err != nil {
+		return err
+	}
+
+	// multiline values, mappings and strings that look like document markers can end up as
+	// something else at the place of the replaced node, they are written in a single line instead.
+	if !isFragile(value, b) || holds(f, path, value, b) {
+		return nil
+	}
+
+	b, err = yaml.MarshalWithOptions(value, yaml.JSON())
+	if err != nil {
+		return err
+	}
+
+	return replace(f, path, b)
+}
+
+func replace(f *ast.File, path *yaml.Path, b []byte) error {
+	src, err := parser.ParseBytes(b, 0)
+	if err != nil {
+		return err
+	}
+	if len(src.Docs) != 1 || src.Docs[0].Body == nil {
+		return nil
+	}
+
+	dst := &ast.File{Name: f.Name}
+	for _, doc := range f.Docs {
+		if doc.Body != nil {
+			dst.Docs = append(dst.Docs, doc)
+		}
+	}
+
+	return path.ReplaceWithFile(dst, src)
+}
+
+func isFragile(value interface{}, b []byte) bool {
+	if s, ok := value.(string); ok {
+		return strings.Contains(s, "\n") ||
+			strings.HasPrefix(s, "---") ||
+			strings.HasPrefix(s, "...")
+	}
+
+	return bytes.Count(b, []byte("\n")) > 1 || bytes.Contains(b, []byte(": "))
+}
+
+// holds checks if reading the file at the path returns the value.
+func holds(f *ast.File, path *yaml.Path, value interface{}, b []byte) bool {
+	file, err := parser.ParseBytes(MarshalFile(f, true), 0)
+	if err != nil {
+		return false
+	}
+
+	node, err := path.FilterFile(file)
+	if err != nil {
+		return false
+	}
+
+	got, err := GetValue(node)
+	if err != nil {
+		return false
+	}
+
+	if _, ok := value.(string); ok {
+		return got == value
+	}
+
+	var want interface{}
+	if err := yaml.Unmarshal(b, &want); err != nil {
+		return false
+	}
+
+	return reflect.DeepEqual(got, want)
 }
 
 // MarshalFile returns the representation of the ast.File to a byte slice.
@@ -59,6 +134,18 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 	docs := make([]string, 0, len(f.Docs))
 
 	for _, doc := range f.Docs {
+		if doc.Body == nil {
+			// an empty document has only its markers
+			if doc.Start != nil {
+				docs = append(docs, doc.Start.Value)
+			}
+			if doc.End != nil {
+				docs = append(docs, doc.End.Value)
+			}
+
+			continue
+		}
+
 		docs = append(docs, doc.String())
 	}
 
-- 
2.43.0


From fb41fa544e5076aa477a05b7e2fbf46ce56bbcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 17/30] fix: report placeholders that are not representable in
 JSON

---
 match/any.go    |  3 +--
 match/custom.go |  3 +--
 match/utils.go  | 17 +++++++++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/match/any.go b/match/any.go
index 8947ed6..067ee48 100644
--- a/match/any.go
+++ b/match/any.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type anyMatcher struct {
@@ -104,7 +103,7 @@ func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(json, path, a.placeholder, setJSONOptions)
+		j, err := setJSON(json, path, a.placeholder)
 		if err != nil {
 			errs = append(errs, a.matcherError(err, path))
 
diff --git a/match/custom.go b/match/custom.go
index bef2a6c..ffd4238 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type customMatcher struct {
@@ -123,7 +122,7 @@ func (c *customMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	b, err = sjson.SetBytesOptions(b, c.path, value, setJSONOptions)
+	b, err = setJSON(b, c.path, value)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
diff --git a/match/utils.go b/match/utils.go
index fcc4d4a..6c18f09 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -2,7 +2,9 @@ package match
 
 import (
 	"errors"
+	"fmt"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 )
 
@@ -15,6 +17,21 @@ var (
 	}
 )
 
+// setJSON replaces the value at the path, the placeholder needs to be representable in json.
+func setJSON(json []byte, path string, value any) ([]byte, error) {
+	j, err := sjson.SetBytesOptions(json, path, value, setJSONOptions)
+	if err != nil {
+		return nil, err
+	}
+
+	// non finite numbers are written as they are printed
+	if !gjson.ValidBytes(j) {
+		return nil, fmt.Errorf("unsupported value: %v", value)
+	}
+
+	return j, nil
+}
+
 type JSONMatcher interface {
 	JSON([]byte) ([]byte, []MatcherError)
 }
-- 
2.43.0


From fe1eeaa81cc6213292f2214d3c88637f607a68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 18/30] fix: replace JSON members whose key starts with a colon

---
 match/type.go  | 8 +-------
 match/utils.go | 7 +++++++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/match/type.go b/match/type.go
index 5f532e7..d25d9d2 100644
--- a/match/type.go
+++ b/match/type.go
@@ -7,7 +7,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type typeMatcher[ExpectedType any] struct {
@@ -118,12 +117,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(
-			json,
-			path,
-			typePlaceholder(r.Value()),
-			setJSONOptions,
-		)
+		j, err := setJSON(json, path, typePlaceholder(r.Value()))
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
diff --git a/match/utils.go b/match/utils.go
index 6c18f09..08f5739 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -3,6 +3,7 @@ package match
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
@@ -19,6 +20,12 @@ var (
 
 // setJSON replaces the value at the path, the placeholder needs to be representable in json.
 func setJSON(json []byte, path string, value any) ([]byte, error) {
+	// a ':' at the start of a key is part of the key, in sjson it needs to be escaped
+	path = strings.ReplaceAll(path, ".:", `.\:`)
+	if strings.HasPrefix(path, ":") {
+		path = `\` + path
+	}
+
 	j, err := sjson.SetBytesOptions(json, path, value, setJSONOptions)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0eb4e8e19a214766ef0e0e70d789d7f9aca68e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 19/30] fix: treat YAML paths through scalars or out of range
 as missing

---
 match/internal/yaml/yaml.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 3427009..ad59d0d 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -34,16 +34,33 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 		return nil, nil, false, err
 	}
 
-	node, err := path.FilterFile(f)
-	if err != nil {
-		if errors.Is(err, yaml.ErrNotFoundNode) {
-			return path, nil, false, nil
+	for _, doc := range f.Docs {
+		node, err := filter(doc, path)
+		if err != nil {
+			return path, nil, false, err
 		}
 
-		return path, nil, false, err
+		if node != nil {
+			return path, node, true, nil
+		}
+	}
+
+	return path, nil, false, nil
+}
+
+// filter returns the node of the document at the path or nil if the document doesn't have it.
+func filter(doc *ast.DocumentNode, path *yaml.Path) (ast.Node, error) {
+	if doc.Body == nil {
+		return nil, nil
+	}
+
+	node, err := path.FilterNode(doc.Body)
+	// a path that asks for an index or a key the document doesn't have is an invalid query
+	if errors.Is(err, yaml.ErrNotFoundNode) || errors.Is(err, yaml.ErrInvalidQuery) {
+		return nil, nil
 	}
 
-	return path, node, true, nil
+	return node, err
 }
 
 // Update marshals the value and replaces the file at the path provided with the new value.
@@ -82,7 +99,7 @@ func replace(f *ast.File, path *yaml.Path, b []byte) error {
 
 	dst := &ast.File{Name: f.Name}
 	for _, doc := range f.Docs {
-		if doc.Body != nil {
+		if node, err := filter(doc, path); err == nil && node != nil {
 			dst.Docs = append(dst.Docs, doc)
 		}
 	}
-- 
2.43.0


From e90debbeefe72477512ba1114119dde7a81fe2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 20/30] fix: keep YAML documents as given when no matcher
 applies

---
 match/any.go  | 8 ++++++++
 match/type.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/match/any.go b/match/any.go
index 067ee48..6d4afea 100644
--- a/match/any.go
+++ b/match/any.go
@@ -63,6 +63,8 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, []MatcherError{a.matcherError(err, "*")}
 	}
 
+	updated := false
+
 	for _, p := range a.paths {
 		path, _, exists, err := yaml.Get(f, p)
 		if err != nil {
@@ -83,6 +85,12 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 
 			continue
 		}
+		updated = true
+	}
+
+	// nothing was replaced, the document stays as it was given
+	if !updated {
+		return b, errs
 	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
diff --git a/match/type.go b/match/type.go
index d25d9d2..b0e73b8 100644
--- a/match/type.go
+++ b/match/type.go
@@ -58,6 +58,8 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, []MatcherError{t.matcherError(err, "*")}
 	}
 
+	updated := false
+
 	for _, p := range t.paths {
 		path, node, exists, err := yaml.Get(f, p)
 		if err != nil {
@@ -91,6 +93,12 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 
 			continue
 		}
+		updated = true
+	}
+
+	// nothing was replaced, the document stays as it was given
+	if !updated {
+		return b, errs
 	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
-- 
2.43.0


From aa323888389bcdde0deab19aa836c64dd526e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 21/30] fix: check that a YAML placeholder reads as its value
 at its place

---
 match/internal/yaml/yaml.go | 86 ++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index ad59d0d..76f296f 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -1,7 +1,6 @@
 package yaml
 
 import (
-	"bytes"
 	"errors"
 	"reflect"
 	"strings"
@@ -70,25 +69,30 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		return err
 	}
 
-	if err := replace(f, path, b); err != nil {
+	inline, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	if err != nil {
 		return err
 	}
 
-	// multiline values, mappings and strings that look like document markers can end up as
-	// something else at the place of the replaced node, they are written in a single line instead.
-	if !isFragile(value, b) || holds(f, path, value, b) {
-		return nil
+	want := value
+	if _, ok := value.(string); !ok {
+		want = nil
+		if err := yaml.Unmarshal(inline, &want); err != nil {
+			return err
+		}
 	}
 
-	b, err = yaml.MarshalWithOptions(value, yaml.JSON())
-	if err != nil {
-		return err
+	if err := replace(f, path, b, true); err == nil && holds(f, path, want) {
+		return nil
 	}
 
-	return replace(f, path, b)
+	// the value ends up as something else at the place of the replaced node ( e.g. multiline values,
+	// strings that look like document markers or contain indicators of a flow collection ),
+	// it's written in a single line instead, without the comment between its key and the next line.
+	return replace(f, path, inline, false)
 }
 
-func replace(f *ast.File, path *yaml.Path, b []byte) error {
+func replace(f *ast.File, path *yaml.Path, b []byte, keepComments bool) error {
 	src, err := parser.ParseBytes(b, 0)
 	if err != nil {
 		return err
@@ -104,46 +108,60 @@ func replace(f *ast.File, path *yaml.Path, b []byte) error {
 		}
 	}
 
-	return path.ReplaceWithFile(dst, src)
-}
+	if err := path.ReplaceWithFile(dst, src); err != nil {
+		return err
+	}
 
-func isFragile(value interface{}, b []byte) bool {
-	if s, ok := value.(string); ok {
-		return strings.Contains(s, "\n") ||
-			strings.HasPrefix(s, "---") ||
-			strings.HasPrefix(s, "...")
+	if keepComments {
+		return nil
+	}
+
+	for _, doc := range dst.Docs {
+		for _, node := range ast.Filter(ast.MappingValueType, doc) {
+			if n, ok := node.(*ast.MappingValueNode); ok && n.Value == src.Docs[0].Body {
+				_ = n.Key.SetComment(nil)
+			}
+		}
 	}
 
-	return bytes.Count(b, []byte("\n")) > 1 || bytes.Contains(b, []byte(": "))
+	return nil
 }
 
 // holds checks if reading the file at the path returns the value.
-func holds(f *ast.File, path *yaml.Path, value interface{}, b []byte) bool {
+func holds(f *ast.File, path *yaml.Path, value interface{}) (ok bool) {
+	// nodes that don't fit in the place of the replaced one can fail to print
+	defer func() {
+		if r := recover(); r != nil {
+			ok = false
+		}
+	}()
+
 	file, err := parser.ParseBytes(MarshalFile(f, true), 0)
 	if err != nil {
 		return false
 	}
 
-	node, err := path.FilterFile(file)
-	if err != nil {
-		return false
+	for _, node := range filterAll(file, path) {
+		got, err := GetValue(node)
+		if err != nil || !reflect.DeepEqual(got, value) {
+			return false
+		}
 	}
 
-	got, err := GetValue(node)
-	if err != nil {
-		return false
-	}
+	return len(filterAll(file, path)) == len(filterAll(f, path))
+}
 
-	if _, ok := value.(string); ok {
-		return got == value
-	}
+// filterAll returns the nodes of the documents at the path.
+func filterAll(f *ast.File, path *yaml.Path) []ast.Node {
+	var nodes []ast.Node
 
-	var want interface{}
-	if err := yaml.Unmarshal(b, &want); err != nil {
-		return false
+	for _, doc := range f.Docs {
+		if node, err := filter(doc, path); err == nil && node != nil {
+			nodes = append(nodes, node)
+		}
 	}
 
-	return reflect.DeepEqual(got, want)
+	return nodes
 }
 
 // MarshalFile returns the representation of the ast.File to a byte slice.
-- 
2.43.0


From 0bc3fe74bf646ef42e7f7a48a3c2ce10c8e5e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 22/30] fix: lay out YAML placeholders independently of the
 values they replace

---
 match/internal/yaml/yaml.go | 41 ++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 76f296f..fdde245 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -10,6 +10,8 @@ import (
 	"github.com/goccy/go-yaml/parser"
 )
 
+const indentation = 2
+
 // GetValue returns the value of the node.
 func GetValue(node ast.Node) (interface{}, error) {
 	data, err := node.MarshalYAML()
@@ -86,9 +88,14 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		return nil
 	}
 
+	// the comment between a key and the next line doesn't fit before a value in the line of its key
+	if err := replace(f, path, b, false); err == nil && holds(f, path, want) {
+		return nil
+	}
+
 	// the value ends up as something else at the place of the replaced node ( e.g. multiline values,
 	// strings that look like document markers or contain indicators of a flow collection ),
-	// it's written in a single line instead, without the comment between its key and the next line.
+	// it's written in a single line instead.
 	return replace(f, path, inline, false)
 }
 
@@ -112,21 +119,41 @@ func replace(f *ast.File, path *yaml.Path, b []byte, keepComments bool) error {
 		return err
 	}
 
-	if keepComments {
-		return nil
-	}
-
+	value := src.Docs[0].Body
 	for _, doc := range dst.Docs {
 		for _, node := range ast.Filter(ast.MappingValueType, doc) {
-			if n, ok := node.(*ast.MappingValueNode); ok && n.Value == src.Docs[0].Body {
+			n, ok := node.(*ast.MappingValueNode)
+			if !ok || n.Value != value {
+				continue
+			}
+
+			if !keepComments {
 				_ = n.Key.SetComment(nil)
 			}
+
+			indent(n)
 		}
 	}
 
 	return nil
 }
 
+// indent lays out the lines of the value relatively to its key, independently of the value that was replaced.
+func indent(n *ast.MappingValueNode) {
+	column := n.Key.GetToken().Position.Column + indentation
+
+	switch v := n.Value.(type) {
+	case *ast.MappingNode:
+		if len(v.Values) != 0 {
+			v.AddColumn(column - v.Values[0].Key.GetToken().Position.Column)
+		}
+	case *ast.MappingValueNode:
+		v.AddColumn(column - v.Key.GetToken().Position.Column)
+	case *ast.SequenceNode:
+		v.AddColumn(column - v.Start.Position.Column)
+	}
+}
+
 // holds checks if reading the file at the path returns the value.
 func holds(f *ast.File, path *yaml.Path, value interface{}) (ok bool) {
 	// nodes that don't fit in the place of the replaced one can fail to print
@@ -136,7 +163,7 @@ func holds(f *ast.File, path *yaml.Path, value interface{}) (ok bool) {
 		}
 	}()
 
-	file, err := parser.ParseBytes(MarshalFile(f, true), 0)
+	file, err := parser.ParseBytes(MarshalFile(f, false), 0)
 	if err != nil {
 		return false
 	}
-- 
2.43.0


From 6817263baf9e6faba21be2be8300fa28115a9a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 23/30] fix: give YAML callbacks block scalars with their final
 newline

---
 match/internal/yaml/yaml.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index fdde245..de25ba4 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -14,13 +14,8 @@ const indentation = 2
 
 // GetValue returns the value of the node.
 func GetValue(node ast.Node) (interface{}, error) {
-	data, err := node.MarshalYAML()
-	if err != nil {
-		return nil, err
-	}
-
 	var value interface{}
-	if err := yaml.Unmarshal(data, &value); err != nil {
+	if err := yaml.NodeToValue(node, &value); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 67e662f133fe3ea5b101743a46d58753a3069bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 24/30] fix: YAML matchers accept comments after flow
 collections

---
 match/any.go                |  3 +--
 match/custom.go             |  3 +--
 match/internal/yaml/yaml.go | 11 +++++++++++
 match/type.go               |  3 +--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/match/any.go b/match/any.go
index 6d4afea..b22f473 100644
--- a/match/any.go
+++ b/match/any.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
-	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
 )
 
@@ -58,7 +57,7 @@ func (a *anyMatcher) ErrOnMissingPath(e bool) *anyMatcher {
 func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
-	f, err := parser.ParseBytes(b, parser.ParseComments)
+	f, err := yaml.Parse(b)
 	if err != nil {
 		return b, []MatcherError{a.matcherError(err, "*")}
 	}
diff --git a/match/custom.go b/match/custom.go
index ffd4238..a2e330a 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
-	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
 )
 
@@ -72,7 +71,7 @@ func (c *customMatcher) ErrOnMissingPath(e bool) *customMatcher {
 
 // YAML is intended to be called internally on snaps.MatchYAML for applying Custom matcher
 func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
-	f, err := parser.ParseBytes(b, parser.ParseComments)
+	f, err := yaml.Parse(b)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index de25ba4..0609b8a 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -12,6 +12,17 @@ import (
 
 const indentation = 2
 
+// Parse parses the documents with their comments,
+// or without them when the parser doesn't accept a comment where it is.
+func Parse(b []byte) (*ast.File, error) {
+	f, err := parser.ParseBytes(b, parser.ParseComments)
+	if err != nil {
+		return parser.ParseBytes(b, 0)
+	}
+
+	return f, nil
+}
+
 // GetValue returns the value of the node.
 func GetValue(node ast.Node) (interface{}, error) {
 	var value interface{}
diff --git a/match/type.go b/match/type.go
index b0e73b8..ce89aa6 100644
--- a/match/type.go
+++ b/match/type.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
-	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
 )
 
@@ -53,7 +52,7 @@ func (t *typeMatcher[T]) ErrOnMissingPath(e bool) *typeMatcher[T] {
 func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
-	f, err := parser.ParseBytes(b, parser.ParseComments)
+	f, err := yaml.Parse(b)
 	if err != nil {
 		return b, []MatcherError{t.matcherError(err, "*")}
 	}
-- 
2.43.0


From d9a76f15fc8d25fc73ceb999287cf6da19417899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 25/30] fix: write multiline YAML placeholders of flow
 collections in a single line

---
 match/internal/yaml/yaml.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 0609b8a..439bd2e 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -1,6 +1,7 @@
 package yaml
 
 import (
+	"bytes"
 	"errors"
 	"reflect"
 	"strings"
@@ -90,6 +91,11 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		}
 	}
 
+	// lines of a flow collection can't be laid out independently of the values before them
+	if bytes.ContainsRune(bytes.TrimSuffix(b, []byte{'\n'}), '\n') && inFlow(f, path) {
+		return replace(f, path, inline, false)
+	}
+
 	if err := replace(f, path, b, true); err == nil && holds(f, path, want) {
 		return nil
 	}
@@ -105,6 +111,33 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 	return replace(f, path, inline, false)
 }
 
+// inFlow checks if the path is inside a flow collection in any of the documents.
+func inFlow(f *ast.File, path *yaml.Path) bool {
+	for _, doc := range f.Docs {
+		node, err := filter(doc, path)
+		if err != nil {
+			continue
+		}
+
+		for node != nil && node != doc.Body {
+			node = ast.Parent(doc.Body, node)
+
+			switch n := node.(type) {
+			case *ast.MappingNode:
+				if n.IsFlowStyle {
+					return true
+				}
+			case *ast.SequenceNode:
+				if n.IsFlowStyle {
+					return true
+				}
+			}
+		}
+	}
+
+	return false
+}
+
 func replace(f *ast.File, path *yaml.Path, b []byte, keepComments bool) error {
 	src, err := parser.ParseBytes(b, 0)
 	if err != nil {
-- 
2.43.0


From d0962cac3375dd298a2d2d6229d9e9e1f513668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 26/30] fix: replace YAML values that equal a placeholder which
 looks like a document marker

---
 match/internal/yaml/yaml.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 439bd2e..d1b0ba4 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -13,6 +13,8 @@ import (
 
 const indentation = 2
 
+var errNotValue = errors.New("not a single value")
+
 // Parse parses the documents with their comments,
 // or without them when the parser doesn't accept a comment where it is.
 func Parse(b []byte) (*ast.File, error) {
@@ -144,7 +146,7 @@ func replace(f *ast.File, path *yaml.Path, b []byte, keepComments bool) error {
 		return err
 	}
 	if len(src.Docs) != 1 || src.Docs[0].Body == nil {
-		return nil
+		return errNotValue
 	}
 
 	dst := &ast.File{Name: f.Name}
-- 
2.43.0


From 277a096eaf63cdbf533fb9035bfa07a5a8294f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 27/30] fix: keep the comment after a YAML sequence that is
 replaced

---
 match/internal/yaml/yaml.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index d1b0ba4..c798aad 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -153,6 +153,7 @@ func replace(f *ast.File, path *yaml.Path, b []byte, keepComments bool) error {
 	for _, doc := range f.Docs {
 		if node, err := filter(doc, path); err == nil && node != nil {
 			dst.Docs = append(dst.Docs, doc)
+			keepFootComment(doc, node)
 		}
 	}
 
@@ -179,6 +180,18 @@ func replace(f *ast.File, path *yaml.Path, b []byte, keepComments bool) error {
 	return nil
 }
 
+// keepFootComment moves the comment after a sequence, which isn't part of its values, to the key of the sequence.
+func keepFootComment(doc *ast.DocumentNode, node ast.Node) {
+	seq, ok := node.(*ast.SequenceNode)
+	if !ok || seq.FootComment == nil {
+		return
+	}
+
+	if key, ok := ast.Parent(doc.Body, seq).(*ast.MappingValueNode); ok && key.FootComment == nil {
+		key.FootComment, seq.FootComment = seq.FootComment, nil
+	}
+}
+
 // indent lays out the lines of the value relatively to its key, independently of the value that was replaced.
 func indent(n *ast.MappingValueNode) {
 	column := n.Key.GetToken().Position.Column + indentation
-- 
2.43.0


From 8fb19605397cdd25494f77e3126ef31eb72eaf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 28/30] fix: report malformed YAML paths that panic

---
 match/internal/yaml/yaml.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index c798aad..55ea0b2 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -3,6 +3,7 @@ package yaml
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"reflect"
 	"strings"
 
@@ -38,8 +39,15 @@ func GetValue(node ast.Node) (interface{}, error) {
 
 // Get takes an ast.File and a string representing a path
 // and returns the yaml.Path, the node and a bool indicating if the node exists.
-func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
-	path, err := yaml.PathString(p)
+func Get(f *ast.File, p string) (path *yaml.Path, node ast.Node, exists bool, err error) {
+	// some malformed paths panic
+	defer func() {
+		if r := recover(); r != nil {
+			path, node, exists, err = nil, nil, false, fmt.Errorf("invalid path: %v", r)
+		}
+	}()
+
+	path, err = yaml.PathString(p)
 	if err != nil {
 		return nil, nil, false, err
 	}
-- 
2.43.0


From b67b68899c10312455ee81a3db38f24c848745bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 29/30] fix: YAML matchers replace the root

---
 match/internal/yaml/yaml.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 55ea0b2..77cb821 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -12,7 +12,10 @@ import (
 	"github.com/goccy/go-yaml/parser"
 )
 
-const indentation = 2
+const (
+	indentation = 2
+	root        = "$"
+)
 
 var errNotValue = errors.New("not a single value")
 
@@ -165,6 +168,15 @@ func replace(f *ast.File, path *yaml.Path, b []byte, keepComments bool) error {
 		}
 	}
 
+	// the root has no container to be replaced in
+	if path.String() == root {
+		for _, doc := range dst.Docs {
+			doc.Body = src.Docs[0].Body
+		}
+
+		return nil
+	}
+
 	if err := path.ReplaceWithFile(dst, src); err != nil {
 		return err
 	}
-- 
2.43.0


From 9cf69ef0ca05db37c81feaaf7f70cf5b03a1e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 30/30] fix: report JSON paths that don't point to a value of
 the document

---
 match/utils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/match/utils.go b/match/utils.go
index 08f5739..3447bd5 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -11,6 +11,7 @@ import (
 
 var (
 	errPathNotFound = errors.New("path does not exist")
+	errPathNotValue = errors.New("path does not point to a value of the document")
 	setJSONOptions  = &sjson.Options{
 		Optimistic: true,
 		// the document can be the caller's []byte, it must not be edited in place
@@ -20,6 +21,13 @@ var (
 
 // setJSON replaces the value at the path, the placeholder needs to be representable in json.
 func setJSON(json []byte, path string, value any) ([]byte, error) {
+	// modifiers, counts and multipaths have a result that is not part of the document and
+	// can't be replaced. A list with no elements has nothing to replace.
+	r := gjson.GetBytes(json, path)
+	if r.Index == 0 && len(r.Indexes) == 0 && !(r.Raw == "[]" && strings.Contains(path, "#")) {
+		return nil, errPathNotValue
+	}
+
 	// a ':' at the start of a key is part of the key, in sjson it needs to be escaped
 	path = strings.ReplaceAll(path, ".:", `.\:`)
 	if strings.HasPrefix(path, ":") {
-- 
2.43.0

