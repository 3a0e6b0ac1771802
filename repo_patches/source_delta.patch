From af257963a08bf180a1e2df55d2eae9c35b8e283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 01/86] fix: apply exactly the suppressions whose code covers
 the finding

An annotation nested in the range of another one was folded into the outer
entry, so that it suppressed its rules in the whole outer range, and the lookup
stopped at the first related entry. Both depended on the random order of the
comment map.
---
 analyzer.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 34ac82b..7b28cd3 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -16,6 +16,7 @@
 package gosec
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
 	"go/ast"
@@ -28,6 +29,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -94,7 +96,7 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 	found := false
 	start, end := i.parseLine(line)
 	for _, ig := range is {
-		if ig.start <= start && ig.end >= end {
+		if ig.start == start && ig.end == end {
 			found = true
 			for r, s := range suppressions {
 				ss, ok := ig.suppressions[r]
@@ -123,14 +125,17 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 
 func (i ignores) get(file string, line string) map[string][]issue.SuppressionInfo {
 	start, end := i.parseLine(line)
+	suppressions := make(map[string][]issue.SuppressionInfo)
 	if is, ok := i[file]; ok {
 		for _, i := range is {
 			if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
-				return i.suppressions
+				for r, s := range i.suppressions {
+					suppressions[r] = append(suppressions[r], s...)
+				}
 			}
 		}
 	}
-	return map[string][]issue.SuppressionInfo{}
+	return suppressions
 }
 
 // The Context is populated with data parsed from the source code as it is scanned.
@@ -677,7 +682,15 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 }
 
 func (gosec *Analyzer) updateIgnores() {
+	nodes := make([]ast.Node, 0, len(gosec.context.Comments))
 	for n := range gosec.context.Comments {
+		nodes = append(nodes, n)
+	}
+	// Collect the suppressions in source order, because the order of the comment map is random.
+	slices.SortFunc(nodes, func(a, b ast.Node) int {
+		return cmp.Compare(gosec.context.Comments[a][0].Pos(), gosec.context.Comments[b][0].Pos())
+	})
+	for _, n := range nodes {
 		gosec.updateIgnoredRulesForNode(n)
 	}
 }
-- 
2.43.0


From 489dae0581f805d4fc014fee38a96bcc8fd9214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 02/86] fix: honour every annotated comment of a statement

Only the first of several comments attached to the same code was considered, so
that an annotation above a statement disabled the one at the end of its line.
---
 analyzer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 7b28cd3..d5b6ac3 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -565,7 +565,7 @@ func (gosec *Analyzer) AppendError(file string, err error) {
 }
 
 // ignore a node (and sub-tree) if it is tagged with a nosec tag comment
-func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
+func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 	if gosec.ignoreNosec {
 		return nil
 	}
@@ -588,6 +588,7 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
 	}
 
+	var allIgnores []map[string]issue.SuppressionInfo
 	for _, group := range groups {
 		found, args := findNoSecDirective(group, noSecDefaultTag, noSecAlternativeTag)
 		if !found {
@@ -623,9 +624,9 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		if len(matches) == 0 {
 			ignores[aliasOfAllRules] = suppression
 		}
-		return ignores
+		allIgnores = append(allIgnores, ignores)
 	}
-	return nil
+	return allIgnores
 }
 
 // findNoSecDirective checks if the comment group contains `#nosec` or `//gosec:disable` directive.
@@ -696,8 +697,7 @@ func (gosec *Analyzer) updateIgnores() {
 }
 
 func (gosec *Analyzer) updateIgnoredRulesForNode(n ast.Node) {
-	ignoredRules := gosec.ignore(n)
-	if len(ignoredRules) > 0 {
+	for _, ignoredRules := range gosec.ignore(n) {
 		if gosec.context.Ignores == nil {
 			gosec.context.Ignores = newIgnores()
 		}
-- 
2.43.0


From ea99757d618cbcbffa68072a2607d3f1c2bd6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 03/86] fix: take the alternative nosec tag literally

A tag with characters special in regular expressions aborted the scan.
---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index d5b6ac3..9b6584d 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -653,7 +653,7 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+tag).MatchString(comment) {
+	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
 		// Discard what's in front of the nosec tag.
 		return true, strings.SplitN(comment, tag, 2)[1]
 	}
-- 
2.43.0


From add9fd12f90c3dfab28fa90d49624852c85f8a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 04/86] fix: report errors in quiet mode when there are no
 findings

A quiet scan whose packages failed to load or to compile printed nothing and
exited with 0 when it had no findings.
---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 2753ea4..03fc1a0 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -494,7 +494,7 @@ func main() {
 	}
 
 	// Exit quietly if nothing was found
-	if len(issues) == 0 && *flagQuiet {
+	if len(issues) == 0 && len(errors) == 0 && *flagQuiet {
 		os.Exit(0)
 	}
 
-- 
2.43.0


From 8e60e0ee17145a31593720942b8773b070ec06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 05/86] fix: do not fail because of ignored findings which are
 only shown

With -show-ignored the findings ignored by #nosec made the scan exit with 1
although none of them is counted as found.
---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 03fc1a0..b990d29 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -348,7 +348,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 func exit(issues []*issue.Issue, errors map[string][]gosec.Error, noFail bool) {
 	nsi := 0
 	for _, issue := range issues {
-		if len(issue.Suppressions) == 0 {
+		if !issue.NoSec && len(issue.Suppressions) == 0 {
 			nsi++
 		}
 	}
-- 
2.43.0


From 02311fe48c6f152cf734a5d726105919402ef9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 06/86] fix: apply the build tags to every package of a scan

The tags were removed from the load configuration which all workers share,
so that only the first package was selected with them, and the packages were
type-checked without them, which reported errors the build does not have.
---
 analyzer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 9b6584d..ff66d5e 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -366,11 +366,16 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
-	// step 3/3 remove build tags from conf to proceed build correctly.
+	// step 3/3 pass the build tags on as build flags to proceed build correctly.
+	// The configuration is shared by all packages and must stay as it is.
 	gosec.mu.Lock()
-	conf.BuildFlags = nil
 	defer gosec.mu.Unlock()
-	pkgs, err := packages.Load(conf, packageFiles...)
+	loadConf := *conf
+	loadConf.BuildFlags = nil
+	if len(conf.BuildFlags) > 0 {
+		loadConf.BuildFlags = []string{"-tags=" + strings.Join(conf.BuildFlags, ",")}
+	}
+	pkgs, err := packages.Load(&loadConf, packageFiles...)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("loading files from package %q: %w", pkgPath, err)
 	}
-- 
2.43.0


From 0305b7ff3c72e5b8f1abe3e6aa249f95bd36e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 07/86] fix: accept colons in the file names of errors

An error in a file whose path has a colon aborted the whole scan.
---
 analyzer.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index ff66d5e..e3e96dd 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -526,20 +526,9 @@ func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 		return nil
 	}
 	for _, pkgErr := range pkg.Errors {
-		parts := strings.Split(pkgErr.Pos, ":")
-		file := parts[0]
-		var err error
-		var line int
-		if len(parts) > 1 {
-			if line, err = strconv.Atoi(parts[1]); err != nil {
-				return fmt.Errorf("parsing line: %w", err)
-			}
-		}
-		var column int
-		if len(parts) > 2 {
-			if column, err = strconv.Atoi(parts[2]); err != nil {
-				return fmt.Errorf("parsing column: %w", err)
-			}
+		file, line, column, err := splitPos(pkgErr.Pos)
+		if err != nil {
+			return err
 		}
 		msg := strings.TrimSpace(pkgErr.Msg)
 		newErr := NewError(line, column, msg)
@@ -553,6 +542,30 @@ func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 	return nil
 }
 
+// filePosRegexp matches a position which has at least a line.
+var filePosRegexp = regexp.MustCompile(`^(.+?):(\d+)(?::(\d+))?$`)
+
+// splitPos splits a position of the form "file[:line[:column]]". The name of the file can contain colons.
+func splitPos(pos string) (string, int, int, error) {
+	if match := filePosRegexp.FindStringSubmatch(pos); match != nil {
+		line, err := strconv.Atoi(match[2])
+		if err != nil {
+			return "", 0, 0, fmt.Errorf("parsing line: %w", err)
+		}
+		column := 0
+		if match[3] != "" {
+			if column, err = strconv.Atoi(match[3]); err != nil {
+				return "", 0, 0, fmt.Errorf("parsing column: %w", err)
+			}
+		}
+		return match[1], line, column, nil
+	}
+	if strings.Contains(pos, ":") {
+		return "", 0, 0, fmt.Errorf("parsing position: %q", pos)
+	}
+	return pos, 0, 0, nil
+}
+
 // AppendError appends an error to the file errors
 func (gosec *Analyzer) AppendError(file string, err error) {
 	// Do not report the error for empty packages (e.g. files excluded from build with a tag)
-- 
2.43.0


From 3be4dbbce62dd95392f6c555ec2ab5605be1d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 08/86] fix: check files which are loaded several times only
 once

With -tests the files of a package are part of the package and of its test
variant, and overlapping paths name the same package: their findings, errors
and counters were reported twice.
---
 analyzer.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index e3e96dd..7e7d978 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -191,6 +191,7 @@ type Analyzer struct {
 	trackSuppressions bool
 	concurrency       int
 	analyzerSet       *analyzers.AnalyzerSet
+	skipFiles         map[string]bool // names of the files which are already checked
 	mu                sync.Mutex
 }
 
@@ -309,6 +310,12 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		close(results)
 	}()
 
+	// The same file can be loaded several times (e.g. as part of a package and of its test
+	// variant, or because of overlapping paths), but it is checked only once.
+	checkedFiles := make(map[string]bool)
+	gosec.skipFiles = checkedFiles
+	defer func() { gosec.skipFiles = nil }()
+
 	for r := range results {
 		if r.err != nil {
 			gosec.AppendError(r.pkgPath, r.err)
@@ -323,6 +330,11 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 				}
 				gosec.CheckRules(pkg)
 				gosec.CheckAnalyzers(pkg)
+				for _, file := range pkg.Syntax {
+					if fp := pkg.Fset.File(file.Pos()); fp != nil {
+						checkedFiles[fp.Name()] = true
+					}
+				}
 			}
 		}
 	}
@@ -397,6 +409,9 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 		if filepath.Ext(checkedFile) != ".go" {
 			continue
 		}
+		if gosec.skipFiles[checkedFile] {
+			continue
+		}
 		if gosec.excludeGenerated && ast.IsGenerated(file) {
 			gosec.logger.Println("Ignoring generated file:", checkedFile)
 			continue
@@ -464,6 +479,9 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 		if result != nil {
 			if passIssues, ok := result.([]*issue.Issue); ok {
 				for _, iss := range passIssues {
+					if gosec.skipFiles[iss.File] {
+						continue
+					}
 					if gosec.excludeGenerated {
 						if _, ok := generatedFiles[iss.File]; ok {
 							continue
@@ -533,6 +551,9 @@ func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 		msg := strings.TrimSpace(pkgErr.Msg)
 		newErr := NewError(line, column, msg)
 		if errSlice, ok := gosec.errors[file]; ok {
+			if slices.Contains(errSlice, *newErr) {
+				continue
+			}
 			gosec.errors[file] = append(errSlice, *newErr)
 		} else {
 			errSlice = []Error{}
-- 
2.43.0


From f9528b1711a6cdd9344ab67d036035cc787f799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 09/86] fix: order issues and errors at the same line
 deterministically

---
 cmd/gosec/sort_issues.go | 4 ++++
 errors.go                | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/gosec/sort_issues.go b/cmd/gosec/sort_issues.go
index c155cbf..68d919c 100644
--- a/cmd/gosec/sort_issues.go
+++ b/cmd/gosec/sort_issues.go
@@ -23,6 +23,10 @@ func sortIssues(issues []*issue.Issue) {
 			cmp.Compare(i.What, j.What),
 			cmp.Compare(i.File, j.File),
 			cmp.Compare(extractLineNumber(i.Line), extractLineNumber(j.Line)),
+			cmp.Compare(extractLineNumber(i.Col), extractLineNumber(j.Col)),
+			cmp.Compare(i.RuleID, j.RuleID),
+			cmp.Compare(i.Line, j.Line),
+			cmp.Compare(i.Code, j.Code),
 		)
 	})
 }
diff --git a/errors.go b/errors.go
index 2f66727..84cb7dc 100644
--- a/errors.go
+++ b/errors.go
@@ -25,7 +25,10 @@ func sortErrors(allErrors map[string][]Error) {
 	for _, errors := range allErrors {
 		sort.Slice(errors, func(i, j int) bool {
 			if errors[i].Line == errors[j].Line {
-				return errors[i].Column <= errors[j].Column
+				if errors[i].Column == errors[j].Column {
+					return errors[i].Err < errors[j].Err
+				}
+				return errors[i].Column < errors[j].Column
 			}
 			return errors[i].Line < errors[j].Line
 		})
-- 
2.43.0


From 855ac3446065304482104285852cea9ccfec0707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 10/86] fix: do not report findings in the expanded copies of
 Cgo files

The data flow analyzers reported them under the name of a file in the build
cache, where they can be neither found nor suppressed. The rules skip them.
---
 analyzer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 7e7d978..2f3ffd0 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -479,7 +479,8 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 		if result != nil {
 			if passIssues, ok := result.([]*issue.Issue); ok {
 				for _, iss := range passIssues {
-					if gosec.skipFiles[iss.File] {
+					// The expanded copies of Cgo files in the cache do not need to be analyzed.
+					if filepath.Ext(iss.File) != ".go" || gosec.skipFiles[iss.File] {
 						continue
 					}
 					if gosec.excludeGenerated {
-- 
2.43.0


From c069759d71583d244cfdbab381b3bc90b7e1c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 11/86] fix: report the lines of the file itself for findings

A //line directive changed the lines and columns of a finding to those of the
file it names, while the finding named the file which contains the code.
---
 analyzers/util.go | 10 ++++++----
 helpers.go        |  2 +-
 issue/issue.go    | 13 +++++++++----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/analyzers/util.go b/analyzers/util.go
index 57cc42b..8084770 100644
--- a/analyzers/util.go
+++ b/analyzers/util.go
@@ -66,8 +66,10 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	if file == nil {
 		return &issue.Issue{}
 	}
-	line := file.Line(pos)
-	col := file.Position(pos).Column
+	// The position in the file itself, which ignores any //line directive.
+	position := file.PositionFor(pos, false)
+	line := position.Line
+	col := position.Column
 
 	return &issue.Issue{
 		RuleID:     analyzerID,
@@ -85,11 +87,11 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 func issueCodeSnippet(fileSet *token.FileSet, pos token.Pos) string {
 	file := fileSet.File(pos)
 
-	start := (int64)(file.Line(pos))
+	start := (int64)(file.PositionFor(pos, false).Line)
 	if start-issue.SnippetOffset > 0 {
 		start = start - issue.SnippetOffset
 	}
-	end := (int64)(file.Line(pos))
+	end := (int64)(file.PositionFor(pos, false).Line)
 	end = end + issue.SnippetOffset
 
 	var code string
diff --git a/helpers.go b/helpers.go
index 33e2b4a..d10065c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -325,7 +325,7 @@ func GetImportPath(name string, ctx *Context) (string, bool) {
 // GetLocation returns the filename and line number of an ast.Node
 func GetLocation(n ast.Node, ctx *Context) (string, int) {
 	fobj := ctx.FileSet.File(n.Pos())
-	return fobj.Name(), fobj.Line(n.Pos())
+	return fobj.Name(), fobj.PositionFor(n.Pos(), false).Line
 }
 
 // Gopath returns all GOPATHs
diff --git a/issue/issue.go b/issue/issue.go
index b7c804e..563e93b 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -169,7 +169,7 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 }
 
 func codeSnippetStartLine(node ast.Node, fobj *token.File) int64 {
-	s := (int64)(fobj.Line(node.Pos()))
+	s := (int64)(physicalLine(fobj, node.Pos()))
 	if s-SnippetOffset > 0 {
 		return s - SnippetOffset
 	}
@@ -177,7 +177,7 @@ func codeSnippetStartLine(node ast.Node, fobj *token.File) int64 {
 }
 
 func codeSnippetEndLine(node ast.Node, fobj *token.File) int64 {
-	e := (int64)(fobj.Line(node.End()))
+	e := (int64)(physicalLine(fobj, node.End()))
 	return e + SnippetOffset
 }
 
@@ -185,7 +185,7 @@ func codeSnippetEndLine(node ast.Node, fobj *token.File) int64 {
 func New(fobj *token.File, node ast.Node, ruleID, desc string, severity, confidence Score) *Issue {
 	name := fobj.Name()
 	line := GetLine(fobj, node)
-	col := strconv.Itoa(fobj.Position(node.Pos()).Column)
+	col := strconv.Itoa(fobj.PositionFor(node.Pos(), false).Column)
 
 	var code string
 	if node == nil {
@@ -220,9 +220,14 @@ func (i *Issue) WithSuppressions(suppressions []SuppressionInfo) *Issue {
 	return i
 }
 
+// physicalLine returns the line in the file itself, which ignores any //line directive.
+func physicalLine(fobj *token.File, pos token.Pos) int {
+	return fobj.PositionFor(pos, false).Line
+}
+
 // GetLine returns the line number of a given ast.Node
 func GetLine(fobj *token.File, node ast.Node) string {
-	start, end := fobj.Line(node.Pos()), fobj.Line(node.End())
+	start, end := physicalLine(fobj, node.Pos()), physicalLine(fobj, node.End())
 	line := strconv.Itoa(start)
 	if start != end {
 		line = fmt.Sprintf("%d-%d", start, end)
-- 
2.43.0


From e7112a1748ff72c08c2b9ebb3cb3be7208226bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 12/86] fix: keep long lines in the code snippets

The snippet of a finding ended before the first line of more than 64 KB.
---
 issue/issue.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/issue/issue.go b/issue/issue.go
index 563e93b..0c25c17 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -18,11 +18,14 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"go/ast"
 	"go/token"
+	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/securego/gosec/v2/cwe"
 )
@@ -154,15 +157,16 @@ func (c Score) String() string {
 func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 	var pos int64
 	var buf bytes.Buffer
-	scanner := bufio.NewScanner(file)
-	scanner.Split(bufio.ScanLines)
-	for scanner.Scan() {
-		pos++
-		if pos > end {
+	reader := bufio.NewReader(file)
+	for pos < end {
+		text, err := reader.ReadString('\n')
+		if err != nil && (!errors.Is(err, io.EOF) || text == "") {
 			break
-		} else if pos >= start && pos <= end {
-			code := fmt.Sprintf("%d: %s\n", pos, scanner.Text())
-			buf.WriteString(code)
+		}
+		pos++
+		if pos >= start {
+			text = strings.TrimSuffix(strings.TrimSuffix(text, "\n"), "\r")
+			buf.WriteString(fmt.Sprintf("%d: %s\n", pos, text))
 		}
 	}
 	return buf.String(), nil
-- 
2.43.0


From a9297775b205de2c83c5087f2517dd487f47fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 13/86] fix: make report paths relative to the default path of
 -r

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index b990d29..38a41e3 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -499,7 +499,7 @@ func main() {
 	}
 
 	// Create output report
-	rootPaths := getRootPaths(flag.Args())
+	rootPaths := getRootPaths(paths)
 
 	reportInfo := gosec.NewReportInfo(issues, metrics, errors).WithVersion(Version)
 
-- 
2.43.0


From c8ea5a34082a27c3e35d29dfe7d5ab4ee3a906df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 14/86] fix: keep the suppressed issues for the reports which
 follow

---
 report/formatter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/report/formatter.go b/report/formatter.go
index 3e83dc6..1c5a629 100644
--- a/report/formatter.go
+++ b/report/formatter.go
@@ -55,7 +55,10 @@ const (
 func CreateReport(w io.Writer, format string, enableColor bool, rootPaths []string, data *gosec.ReportInfo) error {
 	var err error
 	if format != "json" && format != "sarif" {
-		data.Issues = filterOutSuppressedIssues(data.Issues)
+		// work on a copy because the report info can be used for another report
+		filtered := *data
+		filtered.Issues = filterOutSuppressedIssues(data.Issues)
+		data = &filtered
 	}
 	switch format {
 	case "json":
-- 
2.43.0


From 303db074a3d933d7d567c7c9e9dad8fc98ec4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 15/86] fix: escape the whole text of junit failures

---
 report/junit/formatter.go | 3 +--
 report/junit/types.go     | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/report/junit/formatter.go b/report/junit/formatter.go
index 3b974fd..c27a7d2 100644
--- a/report/junit/formatter.go
+++ b/report/junit/formatter.go
@@ -1,7 +1,6 @@
 package junit
 
 import (
-	"html"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -17,7 +16,7 @@ func generatePlaintext(issue *issue.Issue) string {
 		"[" + issue.File + ":" + issue.Line + "] - " +
 		issue.What + " (Confidence: " + strconv.Itoa(int(issue.Confidence)) +
 		", Severity: " + strconv.Itoa(int(issue.Severity)) +
-		", CWE: " + cweID + ")\n" + "> " + html.EscapeString(issue.Code) +
+		", CWE: " + cweID + ")\n" + "> " + issue.Code +
 		"\n Autofix: " + issue.Autofix
 }
 
diff --git a/report/junit/types.go b/report/junit/types.go
index bac3218..f19e763 100644
--- a/report/junit/types.go
+++ b/report/junit/types.go
@@ -29,5 +29,5 @@ type Testcase struct {
 type Failure struct {
 	XMLName xml.Name `xml:"failure"`
 	Message string   `xml:"message,attr"`
-	Text    string   `xml:",innerxml"`
+	Text    string   `xml:",chardata"`
 }
-- 
2.43.0


From e73213d9bd2c7a9bfb39c3fbbc136cc6715ed568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 16/86] fix: report failed writes of csv reports

---
 report/csv/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/report/csv/writer.go b/report/csv/writer.go
index 40bb6a1..0b15715 100644
--- a/report/csv/writer.go
+++ b/report/csv/writer.go
@@ -10,7 +10,6 @@ import (
 // WriteReport write a report in csv format to the output writer
 func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 	out := csv.NewWriter(w)
-	defer out.Flush()
 	for _, issue := range data.Issues {
 		err := out.Write([]string{
 			issue.File,
@@ -25,5 +24,6 @@ func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 			return err
 		}
 	}
-	return nil
+	out.Flush()
+	return out.Error()
 }
-- 
2.43.0


From 775c2840ea54e1f32643ca72e016a93ae6682357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 17/86] fix: keep long lines in the code of text reports

---
 report/text/writer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/report/text/writer.go b/report/text/writer.go
index d839a43..4588de0 100644
--- a/report/text/writer.go
+++ b/report/text/writer.go
@@ -1,7 +1,6 @@
 package text
 
 import (
-	"bufio"
 	"bytes"
 	_ "embed" // use go embed to import template
 	"fmt"
@@ -79,11 +78,13 @@ func highlight(t string, s issue.Score, ignored bool) string {
 // printCodeSnippet prints the code snippet from the issue by adding a marker to the affected line
 func printCodeSnippet(issue *issue.Issue) string {
 	start, end := parseLine(issue.Line)
-	scanner := bufio.NewScanner(strings.NewReader(issue.Code))
 	var buf bytes.Buffer
 	line := start
-	for scanner.Scan() {
-		codeLine := scanner.Text()
+	for _, codeLine := range strings.SplitAfter(issue.Code, "\n") {
+		if codeLine == "" {
+			continue
+		}
+		codeLine = strings.TrimSuffix(strings.TrimSuffix(codeLine, "\n"), "\r")
 		if strings.HasPrefix(codeLine, strconv.Itoa(line)) && line <= end {
 			codeLine = "  > " + codeLine + "\n"
 			line++
-- 
2.43.0


From 6647aa0ae7726e827d088ac81fa0847d43c2abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 18/86] fix: take the paths of reports only relative to
 directories which contain the file

---
 report/sarif/formatter.go | 6 +++---
 report/sonar/formatter.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f47c250..28eb4a9 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -183,10 +183,10 @@ func parseSarifLocation(i *issue.Issue, rootPaths []string) (*Location, error) {
 }
 
 func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLocation {
-	var filePath string
+	filePath := i.File
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(i.File, rootPath) {
-			filePath = strings.Replace(i.File, rootPath+"/", "", 1)
+		if path, ok := strings.CutPrefix(i.File, strings.TrimSuffix(rootPath, "/")+"/"); ok {
+			filePath = path
 		}
 	}
 	return NewArtifactLocation(filePath)
diff --git a/report/sonar/formatter.go b/report/sonar/formatter.go
index d635d9d..d76d1ba 100644
--- a/report/sonar/formatter.go
+++ b/report/sonar/formatter.go
@@ -40,8 +40,8 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 func parseFilePath(issue *issue.Issue, rootPaths []string) string {
 	var sonarFilePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(issue.File, rootPath) {
-			sonarFilePath = strings.Replace(issue.File, rootPath+"/", "", 1)
+		if path, ok := strings.CutPrefix(issue.File, strings.TrimSuffix(rootPath, "/")+"/"); ok {
+			sonarFilePath = path
 		}
 	}
 	return sonarFilePath
-- 
2.43.0


From d9c566b64694ac8c6e5fc3ce3915f6a6235a1cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 19/86] fix: escape the file names in the URIs of SARIF reports

---
 report/sarif/formatter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index 28eb4a9..1200fbf 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -2,6 +2,7 @@ package sarif
 
 import (
 	"fmt"
+	"net/url"
 	"sort"
 	"strconv"
 	"strings"
@@ -189,7 +190,7 @@ func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLoc
 			filePath = path
 		}
 	}
-	return NewArtifactLocation(filePath)
+	return NewArtifactLocation((&url.URL{Path: filePath}).String())
 }
 
 func parseSarifRegion(i *issue.Issue) (*Region, error) {
-- 
2.43.0


From 3ac9c6b4fccccfb4e8f16e69d492c4d6f248fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 20/86] fix: let the SARIF results refer to the rule they
 belong to

---
 report/sarif/formatter.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index 1200fbf..f354233 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -33,9 +33,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 			}
 		}
 
-		rule := parseSarifRule(issue)
-		var ruleIndex int
-		rules, ruleIndex = addRuleInOrder(rules, rule)
+		rules = addRuleInOrder(rules, parseSarifRule(issue))
 
 		location, err := parseSarifLocation(issue, rootPaths)
 		if err != nil {
@@ -44,7 +42,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 
 		result := NewResult(
 			issue.RuleID,
-			ruleIndex,
+			0, // set when all rules are known
 			getSarifLevel(issue.Severity.String()),
 			issue.What,
 			buildSarifSuppressions(issue.Suppressions),
@@ -54,6 +52,14 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		results = append(results, result)
 	}
 
+	ruleIndexes := map[string]int{}
+	for i, rule := range rules {
+		ruleIndexes[rule.ID] = i
+	}
+	for _, result := range results {
+		result.RuleIndex = ruleIndexes[result.RuleID]
+	}
+
 	sort.SliceStable(cweTaxa, func(i, j int) bool { return cweTaxa[i].ID < cweTaxa[j].ID })
 
 	tool := NewTool(buildSarifDriver(rules, data.GosecVersion))
@@ -68,16 +74,15 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		WithRuns(run), nil
 }
 
-// addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules
-// slice and the position where the rule was inserted
-func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]*ReportingDescriptor, int) {
-	position := 0
+// addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules slice
+func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) []*ReportingDescriptor {
+	position := len(rules)
 	for i, r := range rules {
 		if r.ID < rule.ID {
 			continue
 		}
 		if r.ID == rule.ID {
-			return rules, i
+			return rules
 		}
 		position = i
 		break
@@ -85,7 +90,7 @@ func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]
 	rules = append(rules, nil)
 	copy(rules[position+1:], rules[position:])
 	rules[position] = rule
-	return rules, position
+	return rules
 }
 
 // parseSarifRule return SARIF rule field struct
-- 
2.43.0


From f5fe08df5a454e8b507b8f4b57ed80dd269d721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 21/86] fix: do not write null relationships or fail on unknown
 weaknesses in SARIF

---
 report/sarif/formatter.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f354233..41f41bb 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -27,6 +27,9 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 			_, ok := weaknesses[issue.Cwe.ID]
 			if !ok {
 				weakness := cwe.Get(issue.Cwe.ID)
+				if weakness == nil {
+					weakness = issue.Cwe
+				}
 				weaknesses[issue.Cwe.ID] = weakness
 				cweTaxon := parseSarifTaxon(weakness)
 				cweTaxa = append(cweTaxa, cweTaxon)
@@ -100,7 +103,7 @@ func parseSarifRule(i *issue.Issue) *ReportingDescriptor {
 	if cwe != nil {
 		name = cwe.Name
 	}
-	return &ReportingDescriptor{
+	rule := &ReportingDescriptor{
 		ID:               i.RuleID,
 		Name:             name,
 		ShortDescription: NewMultiformatMessageString(i.What),
@@ -114,10 +117,11 @@ func parseSarifRule(i *issue.Issue) *ReportingDescriptor {
 		DefaultConfiguration: &ReportingConfiguration{
 			Level: getSarifLevel(i.Severity.String()),
 		},
-		Relationships: []*ReportingDescriptorRelationship{
-			buildSarifReportingDescriptorRelationship(i.Cwe),
-		},
 	}
+	if relationship := buildSarifReportingDescriptorRelationship(i.Cwe); relationship != nil {
+		rule.Relationships = []*ReportingDescriptorRelationship{relationship}
+	}
+	return rule
 }
 
 func buildSarifReportingDescriptorRelationship(weakness *cwe.Weakness) *ReportingDescriptorRelationship {
-- 
2.43.0


From 8a54d0622e9d63864845318c0f7e770dd474bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 22/86] fix: write the required members of SARIF fixes

---
 report/sarif/builder.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/report/sarif/builder.go b/report/sarif/builder.go
index 40663ce..8f5fa51 100644
--- a/report/sarif/builder.go
+++ b/report/sarif/builder.go
@@ -91,6 +91,7 @@ func NewResult(ruleID string, ruleIndex int, level Level, message string, suppre
 		result.Fixes = []*Fix{
 			{
 				Description: &Message{
+					Text:     autofix,
 					Markdown: autofix,
 				},
 			},
@@ -109,6 +110,18 @@ func NewMessage(text string) *Message {
 // WithLocations define the current result's locations
 func (r *Result) WithLocations(locations ...*Location) *Result {
 	r.Locations = locations
+	// a fix has to state what it changes: the description proposes the change, nothing is replaced
+	for _, fix := range r.Fixes {
+		for _, location := range locations {
+			region := location.PhysicalLocation.Region
+			fix.ArtifactChanges = append(fix.ArtifactChanges, &ArtifactChange{
+				ArtifactLocation: location.PhysicalLocation.ArtifactLocation,
+				Replacements: []*Replacement{
+					{DeletedRegion: NewRegion(region.StartLine, region.StartLine, region.StartColumn, region.StartColumn, region.SourceLanguage)},
+				},
+			})
+		}
+	}
 	return r
 }
 
-- 
2.43.0


From fd3c554a72f522cd25b7973ffe5a3b7fc8b0da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 23/86] fix: show issues without a weakness in HTML reports

---
 report/html/template.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/report/html/template.html b/report/html/template.html
index a2d5626..8dfcd83 100644
--- a/report/html/template.html
+++ b/report/html/template.html
@@ -86,7 +86,7 @@
           <div className="columns">
               <div className="column is-three-quarters">
                 <strong className="break-word">{ this.props.data.file } (line { this.props.data.line })</strong>
-                <p>{this.props.data.rule_id} (CWE-{this.props.data.cwe.id}): { this.props.data.details }</p>
+                <p>{this.props.data.rule_id} ({ this.props.data.cwe ? 'CWE-' + this.props.data.cwe.id : 'CWE' }): { this.props.data.details }</p>
               </div>
               <div className="column is-one-quarter">
                 <div className="field is-grouped is-grouped-multiline">
-- 
2.43.0


From a53df96d47fe1d3698673a283f4fdc2b501c60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 24/86] fix: give G307 the weakness of the other permission
 rules

---
 issue/issue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/issue/issue.go b/issue/issue.go
index 0c25c17..02d2798 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -80,6 +80,7 @@ var ruleToCWE = map[string]string{
 	"G304": "22",
 	"G305": "22",
 	"G306": "276",
+	"G307": "276",
 	"G401": "328",
 	"G402": "295",
 	"G403": "310",
-- 
2.43.0


From 8c257bf92bc70f63a607026813d65b06ce27d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 25/86] fix: keep the nosec tag when the nosec option is
 switched off in the configuration

---
 analyzer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 2f3ffd0..59bf030 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -604,6 +604,10 @@ func (gosec *Analyzer) AppendError(file string, err error) {
 	gosec.errors[file] = errors
 }
 
+// switchValues are the values which switch the nosec option on or off. Any other value is an
+// alternative for the default tag.
+var switchValues = []string{"true", "enabled", "false", "disabled", ""}
+
 // ignore a node (and sub-tree) if it is tagged with a nosec tag comment
 func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 	if gosec.ignoreNosec {
@@ -616,7 +620,7 @@ func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 
 	// Checks if an alternative for #nosec is set and, if not, uses the default.
 	noSecDefaultTag, err := gosec.config.GetGlobal(Nosec)
-	if err != nil {
+	if err != nil || slices.Contains(switchValues, noSecDefaultTag) {
 		noSecDefaultTag = NoSecTag(string(Nosec))
 	} else {
 		noSecDefaultTag = NoSecTag(noSecDefaultTag)
-- 
2.43.0


From 329bb4c7fc0aa6d0de233721be10b40c27cb54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 26/86] fix: do not count ignored findings which are shown
 because of the configuration

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 38a41e3..501a862 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -337,7 +337,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 	for _, issue := range issues {
 		if issue.Severity >= severity && issue.Confidence >= confidence {
 			result = append(result, issue)
-			if (!issue.NoSec || !*flagShowIgnored) && len(issue.Suppressions) == 0 {
+			if !issue.NoSec && len(issue.Suppressions) == 0 {
 				trueIssues++
 			}
 		}
-- 
2.43.0


From 88f5aa56cd46d304eb4db491edac9ba44654d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 27/86] fix: ignore empty global options

---
 analyzer.go | 2 +-
 config.go   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 59bf030..23e175c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -626,7 +626,7 @@ func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 		noSecDefaultTag = NoSecTag(noSecDefaultTag)
 	}
 	noSecAlternativeTag, err := gosec.config.GetGlobal(NoSecAlternative)
-	if err != nil {
+	if err != nil || noSecAlternativeTag == "" {
 		noSecAlternativeTag = noSecDefaultTag
 	} else {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
diff --git a/config.go b/config.go
index fc355d8..c18cb61 100644
--- a/config.go
+++ b/config.go
@@ -59,6 +59,10 @@ func (c Config) convertGlobals() {
 		if settings, ok := globals.(map[string]interface{}); ok {
 			validGlobals := map[GlobalOption]string{}
 			for k, v := range settings {
+				if v == nil {
+					// null stands for an option which is not set
+					continue
+				}
 				validGlobals[c.keyToGlobalOptions(k)] = fmt.Sprintf("%v", v)
 			}
 			c[Globals] = validGlobals
-- 
2.43.0


From 919a1d20d5f8ce4dad173a0bbc66689be0801bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 28/86] fix: accept alternative nosec tags with a leading # as
 documented

---
 config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index c18cb61..6ca29cd 100644
--- a/config.go
+++ b/config.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"strings"
 )
 
 const (
@@ -33,9 +34,10 @@ const (
 	SSA GlobalOption = "ssa"
 )
 
-// NoSecTag returns the tag used to disable gosec for a line of code.
+// NoSecTag returns the tag used to disable gosec for a line of code. The tag can be given with or
+// without the leading #.
 func NoSecTag(tag string) string {
-	return fmt.Sprintf("%s%s", "#", tag)
+	return fmt.Sprintf("%s%s", "#", strings.TrimPrefix(tag, "#"))
 }
 
 // Config is used to provide configuration and customization to each of the rules.
-- 
2.43.0


From 83ba87b8d154f9aba7dd3dae7fb03746afcd57ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 29/86] fix: let switches given on the command line win over
 the configuration file

---
 cmd/gosec/main.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 501a862..76da31f 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -22,6 +22,7 @@ import (
 	"os"
 	"runtime"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/securego/gosec/v2"
@@ -199,6 +200,15 @@ func usage() {
 	fmt.Fprint(os.Stderr, "\n")
 }
 
+// isFlagGiven checks if a flag is present on the command line
+func isFlagGiven(name string) bool {
+	given := false
+	flag.Visit(func(f *flag.Flag) {
+		given = given || f.Name == name
+	})
+	return given
+}
+
 func loadConfig(configFile string) (gosec.Config, error) {
 	config := gosec.NewConfig()
 	if configFile != "" {
@@ -212,18 +222,18 @@ func loadConfig(configFile string) (gosec.Config, error) {
 			return nil, err
 		}
 	}
-	if *flagIgnoreNoSec {
-		config.SetGlobal(gosec.Nosec, "true")
-	}
-	if *flagShowIgnored {
-		config.SetGlobal(gosec.ShowIgnored, "true")
+	// the flags given on the command line win over the configuration file
+	setSwitch := func(option gosec.GlobalOption, name string, value bool) {
+		if enabled, _ := config.IsGlobalEnabled(option); enabled != value && isFlagGiven(name) {
+			config.SetGlobal(option, strconv.FormatBool(value))
+		}
 	}
+	setSwitch(gosec.Nosec, "nosec", *flagIgnoreNoSec)
+	setSwitch(gosec.ShowIgnored, "show-ignored", *flagShowIgnored)
+	setSwitch(gosec.Audit, "enable-audit", *flagEnableAudit)
 	if *flagAlternativeNoSec != "" {
 		config.SetGlobal(gosec.NoSecAlternative, *flagAlternativeNoSec)
 	}
-	if *flagEnableAudit {
-		config.SetGlobal(gosec.Audit, "true")
-	}
 	// set global option IncludeRules, when flag set or global option IncludeRules  is nil
 	if v, _ := config.GetGlobal(gosec.IncludeRules); *flagRulesInclude != "" || v == "" {
 		config.SetGlobal(gosec.IncludeRules, *flagRulesInclude)
-- 
2.43.0


From b807d2095bbb034c7e50b3b013342b97babdf92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 30/86] fix: recognise import paths written as raw strings

---
 import_tracker.go  | 2 +-
 rules/blocklist.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/import_tracker.go b/import_tracker.go
index 0d9ebfe..0d2a01d 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -52,7 +52,7 @@ func (t *ImportTracker) TrackPackages(pkgs ...*types.Package) {
 
 // TrackImport tracks imports.
 func (t *ImportTracker) TrackImport(imported *ast.ImportSpec) {
-	importPath := strings.Trim(imported.Path.Value, `"`)
+	importPath := strings.Trim(imported.Path.Value, "\"`")
 	if imported.Name != nil {
 		if imported.Name.Name != "_" {
 			// Aliased import
diff --git a/rules/blocklist.go b/rules/blocklist.go
index a4376b1..c474b1a 100644
--- a/rules/blocklist.go
+++ b/rules/blocklist.go
@@ -29,8 +29,7 @@ type blocklistedImport struct {
 
 func unquote(original string) string {
 	cleaned := strings.TrimSpace(original)
-	cleaned = strings.TrimLeft(cleaned, `"`)
-	return strings.TrimRight(cleaned, `"`)
+	return strings.Trim(cleaned, "\"`")
 }
 
 func (r *blocklistedImport) ID() string {
-- 
2.43.0


From 1f36e549c0c28d4ae9428efdb812e49bcb42d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 31/86] fix: tell the called package by the type information

---
 call_list.go | 16 ++++++++++++++++
 helpers.go   | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 69 insertions(+)

diff --git a/call_list.go b/call_list.go
index 4f2d6c5..26704b5 100644
--- a/call_list.go
+++ b/call_list.go
@@ -72,6 +72,18 @@ func (c CallList) ContainsPointer(selector, indent string) bool {
 // ContainsPkgCallExpr resolves the call expression name and type, and then further looks
 // up the package path for that type. Finally, it determines if the call exists within the call list
 func (c CallList) ContainsPkgCallExpr(n ast.Node, ctx *Context, stripVendor bool) *ast.CallExpr {
+	resolved := false
+	if call, ok := n.(*ast.CallExpr); ok {
+		var path, ident string
+		path, ident, resolved = resolvePackageCall(call, ctx)
+		if path != "" {
+			if !c.Contains(path, ident) {
+				return nil
+			}
+			return call
+		}
+	}
+
 	selector, ident, err := GetCallInfo(n, ctx)
 	if err != nil {
 		return nil
@@ -83,6 +95,10 @@ func (c CallList) ContainsPkgCallExpr(n ast.Node, ctx *Context, stripVendor bool
 	// 2. A full name if a structure function is called (TypeOf(expr)).
 	// E.g., "math/big.Rat" if called function of Rat structure from math/big.
 	if !strings.ContainsRune(selector, '.') {
+		if resolved {
+			// something without a package, e.g. the method of a type parameter
+			return nil
+		}
 		// Use only explicit path (optionally strip vendor path prefix) to reduce conflicts
 		path, ok := GetImportPath(selector, ctx)
 		if !ok {
diff --git a/helpers.go b/helpers.go
index d10065c..7592d14 100644
--- a/helpers.go
+++ b/helpers.go
@@ -28,6 +28,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -49,6 +50,12 @@ func MatchCallByPackage(n ast.Node, c *Context, pkg string, names ...string) (*a
 	}
 
 	if callExpr, ok := n.(*ast.CallExpr); ok {
+		if path, callName, resolved := resolvePackageCall(callExpr, c); resolved {
+			if path == pkg && slices.Contains(names, callName) {
+				return callExpr, true
+			}
+			return nil, false
+		}
 		packageName, callName, err := GetCallInfo(callExpr, c)
 		if err != nil {
 			return nil, false
@@ -222,6 +229,52 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 	return "", "", fmt.Errorf("unable to determine call info")
 }
 
+// resolvePackageCall returns the import path of the package and the name of its
+// function which is called. The path is empty when something else is called, and
+// the last value is false when the type information doesn't tell what is called.
+func resolvePackageCall(call *ast.CallExpr, ctx *Context) (string, string, bool) {
+	if ctx.Info == nil {
+		return "", "", false
+	}
+	fun := ast.Unparen(call.Fun)
+	switch inst := fun.(type) {
+	case *ast.IndexExpr:
+		fun = ast.Unparen(inst.X)
+	case *ast.IndexListExpr:
+		fun = ast.Unparen(inst.X)
+	}
+	switch fn := fun.(type) {
+	case *ast.Ident:
+		obj := ctx.Info.Uses[fn]
+		if obj == nil {
+			return "", "", false
+		}
+		// members of other packages can be used without a qualifier when imported with a dot
+		if pkg := obj.Pkg(); pkg != nil && pkg != ctx.Pkg && obj.Parent() == pkg.Scope() {
+			return withoutVendor(pkg.Path()), fn.Name, true
+		}
+		return "", fn.Name, true
+	case *ast.SelectorExpr:
+		if expr, ok := fn.X.(*ast.Ident); ok {
+			switch obj := ctx.Info.Uses[expr].(type) {
+			case nil:
+				return "", "", false
+			case *types.PkgName:
+				return withoutVendor(obj.Imported().Path()), fn.Sel.Name, true
+			}
+		}
+		return "", fn.Sel.Name, true
+	}
+	return "", "", false
+}
+
+func withoutVendor(path string) string {
+	if idx := strings.LastIndex(path, "/"+vendorPath); idx >= 0 {
+		return path[idx+1+len(vendorPath):]
+	}
+	return path
+}
+
 // GetCallStringArgsValues returns the values of strings arguments if they can be resolved
 func GetCallStringArgsValues(n ast.Node, _ *Context) []string {
 	values := []string{}
-- 
2.43.0


From 2d0d661a14192da9ddb429f22476c2f9642f5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 32/86] fix: report http.Server literals whose type is left out
 or renamed

---
 rules/slowloris.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rules/slowloris.go b/rules/slowloris.go
index 70db73f..fd5bc9f 100644
--- a/rules/slowloris.go
+++ b/rules/slowloris.go
@@ -16,6 +16,7 @@ package rules
 
 import (
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -48,8 +49,15 @@ func containsReadHeaderTimeout(node *ast.CompositeLit) bool {
 func (r *slowloris) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
 	switch node := n.(type) {
 	case *ast.CompositeLit:
-		actualType := ctx.Info.TypeOf(node.Type)
-		if actualType != nil && actualType.String() == "net/http.Server" {
+		// the type is left out in elements of slices and maps, which can be pointers
+		actualType := ctx.Info.TypeOf(node)
+		if actualType == nil {
+			return nil, nil
+		}
+		if pointer, ok := actualType.Underlying().(*types.Pointer); ok {
+			actualType = pointer.Elem()
+		}
+		if types.Unalias(actualType).String() == "net/http.Server" {
 			if !containsReadHeaderTimeout(node) {
 				return ctx.NewIssue(node, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
-- 
2.43.0


From ec0a00f7c5a89e967395300a634be76b51377e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 33/86] fix: judge file modes by their constant value and the
 configured limit

---
 rules/fileperms.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index bf2a959..d8843ec 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -17,6 +17,8 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/constant"
+	"io/fs"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -60,8 +62,11 @@ func modeIsSubset(subset int64, superset int64) bool {
 func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	for _, pkg := range r.pkgs {
 		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
+			if len(callexpr.Args) == 0 {
+				continue
+			}
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
-			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
+			if mode, ok := constantMode(modeArg, c); ok && !modeIsSubset(mode, r.mode) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
@@ -69,16 +74,18 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 	return nil, nil
 }
 
-// isOsPerm check if the provide ast node contains a os.PermMode symbol
-func isOsPerm(n ast.Node) bool {
-	if node, ok := n.(*ast.SelectorExpr); ok {
-		if identX, ok := node.X.(*ast.Ident); ok {
-			if identX.Name == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
-				return true
-			}
-		}
+// fileKind are the mode bits which tell the kind of a file, but don't permit anything.
+const fileKind = fs.ModeType | fs.ModeAppend | fs.ModeExclusive | fs.ModeTemporary
+
+// constantMode returns the permissions granted by a constant file mode.
+func constantMode(n ast.Expr, c *gosec.Context) (int64, bool) {
+	value := c.Info.Types[n].Value
+	if value == nil {
+		mode, err := gosec.GetInt(n)
+		return mode, err == nil
 	}
-	return false
+	mode, ok := constant.Int64Val(constant.ToInt(value))
+	return mode &^ int64(fileKind), ok
 }
 
 // NewWritePerms creates a rule to detect file Writes with bad permissions.
-- 
2.43.0


From 116278e35174ed54aefbaec9fe8e73a9fae8535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 34/86] fix: judge integer conversions by the values which can
 reach them

---
 analyzers/conversion_overflow.go | 645 +++++++++++++++----------------
 1 file changed, 318 insertions(+), 327 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 42e1867..11f2bb9 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -15,13 +15,13 @@
 package analyzers
 
 import (
-	"cmp"
 	"fmt"
+	"go/constant"
 	"go/token"
-	"math"
+	"go/types"
+	"math/big"
 	"regexp"
 	"strconv"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -37,21 +37,10 @@ type integer struct {
 	max    uint
 }
 
-type rangeResult struct {
-	minValue             int
-	maxValue             uint
-	explicitPositiveVals []uint
-	explicitNegativeVals []int
-	isRangeCheck         bool
-	convertFound         bool
-}
-
-type branchResults struct {
-	minValue             *int
-	maxValue             *uint
-	explicitPositiveVals []uint
-	explicitNegativeVals []int
-	convertFound         bool
+// interval is a range of integers, both ends included. It is empty when min exceeds max.
+type interval struct {
+	min *big.Int
+	max *big.Int
 }
 
 func newConversionOverflowAnalyzer(id string, description string) *analysis.Analyzer {
@@ -75,8 +64,8 @@ func runConversionOverflow(pass *analysis.Pass) (interface{}, error) {
 			for _, instr := range block.Instrs {
 				switch instr := instr.(type) {
 				case *ssa.Convert:
-					src := instr.X.Type().Underlying().String()
-					dst := instr.Type().Underlying().String()
+					src := typeName(instr.X.Type())
+					dst := typeName(instr.Type())
 					if isIntOverflow(src, dst) {
 						if isSafeConversion(instr) {
 							continue
@@ -168,392 +157,394 @@ func parseIntType(intType string) (integer, error) {
 	}, nil
 }
 
-func isSafeConversion(instr *ssa.Convert) bool {
-	dstType := instr.Type().Underlying().String()
-
-	// Check for constant conversions.
-	if constVal, ok := instr.X.(*ssa.Const); ok {
-		if isConstantInRange(constVal, dstType) {
-			return true
-		}
-	}
-
-	// Check for string to integer conversions with specified bit size.
-	if isStringToIntConversion(instr, dstType) {
-		return true
-	}
-
-	// Check for explicit range checks.
-	if hasExplicitRangeCheck(instr, dstType) {
-		return true
-	}
-
-	return false
+// typeName returns the name of the underlying type.
+func typeName(t types.Type) string {
+	return t.Underlying().String()
 }
 
-func isConstantInRange(constVal *ssa.Const, dstType string) bool {
-	value, err := strconv.ParseInt(constVal.Value.String(), 10, 64)
-	if err != nil {
+// isSafeConversion tells if every value which can reach the conversion fits into its destination type.
+func isSafeConversion(instr *ssa.Convert) bool {
+	dst, ok := typeInterval(instr.Type())
+	if !ok {
 		return false
 	}
-
-	dstInt, err := parseIntType(dstType)
-	if err != nil {
+	src, ok := valueInterval(instr.X, instr, map[*ssa.Phi]interval{})
+	if !ok {
 		return false
 	}
 
-	if dstInt.signed {
-		return value >= -(1<<(dstInt.size-1)) && value <= (1<<(dstInt.size-1))-1
+	// The minimum of a signed type has no opposite in that type. Its negation wraps around, and the bits
+	// are those of the right magnitude only for an unsigned destination of the same size.
+	if neg, ok := instr.X.(*ssa.UnOp); ok && neg.Op == token.SUB {
+		operand, _ := typeInterval(neg.Type())
+		if src.max.Cmp(operand.max) > 0 && dst.max.BitLen() != src.max.BitLen() {
+			return false
+		}
 	}
-	return value >= 0 && value <= (1<<dstInt.size)-1
+
+	return src.within(dst)
 }
 
-func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-	// Traverse the SSA instructions to find the original variable.
-	original := instr.X
-	for {
-		switch v := original.(type) {
-		case *ssa.Call:
-			if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
-				if len(v.Call.Args) == 3 {
-					if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
-						signed := v.Call.StaticCallee().Name() == "ParseInt"
-						bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
-						if err != nil {
-							return false
-						}
-						dstInt, err := parseIntType(dstType)
-						if err != nil {
-							return false
-						}
+// valueInterval returns the range of the values which v can have when the execution reaches the instruction at.
+func valueInterval(v ssa.Value, at ssa.Instruction, traced map[*ssa.Phi]interval) (interval, bool) {
+	result, ok := typeInterval(v.Type())
+	if !ok {
+		return result, false
+	}
 
-						// we're good if:
-						// - signs match and bit size is <= than destination
-						// - parsing unsigned and bit size is < than destination
-						isSafe := (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
-							(bitSizeValue < dstInt.size && !signed)
-						return isSafe
-					}
-				}
+	switch v := v.(type) {
+	case *ssa.Const:
+		if v.Value == nil {
+			return result, true
+		}
+		if value, ok := bigInt(v); ok {
+			return interval{min: value, max: value}, true
+		}
+		return result, true
+	case *ssa.Phi:
+		if known, ok := traced[v]; ok {
+			result = known
+			break
+		}
+		if len(traced) >= maxTracedPhis {
+			break
+		}
+		// A value which depends on itself is not traced any further.
+		traced[v] = result
+		// The value is the one which belongs to the edge the block is entered by.
+		merged := interval{min: big.NewInt(1), max: new(big.Int)}
+		for i, edge := range v.Edges {
+			pred := v.Block().Preds[i]
+			incoming, ok := valueInterval(edge, pred.Instrs[len(pred.Instrs)-1], traced)
+			if !ok {
+				return result, true
 			}
-			return false
-		case *ssa.Phi:
-			original = v.Edges[0]
-		case *ssa.Extract:
-			original = v.Tuple
-		default:
-			return false
+			merged = merged.union(confine(incoming, edge, pred, v.Block()))
+		}
+		result = result.intersect(merged)
+		traced[v] = result
+	case *ssa.Call:
+		if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin && (fn.Name() == "len" || fn.Name() == "cap") {
+			result.min = new(big.Int)
+		}
+	case *ssa.Extract:
+		if call, ok := v.Tuple.(*ssa.Call); ok && v.Index == 0 {
+			result = result.intersect(parsedInterval(call, result))
+		}
+	case *ssa.UnOp:
+		if v.Op == token.SUB && result.min.Sign() < 0 {
+			operand, ok := valueInterval(v.X, at, traced)
+			if ok {
+				result = interval{min: new(big.Int).Neg(operand.max), max: new(big.Int).Neg(operand.min)}
+			}
+		}
+		if v.Op == token.MUL {
+			// The value is the one of the variable when it is loaded.
+			return result.intersect(checkedInterval(v, v, result)), true
 		}
 	}
+
+	return result.intersect(checkedInterval(v, at, result)), true
 }
 
-func hasExplicitRangeCheck(instr *ssa.Convert, dstType string) bool {
-	dstInt, err := parseIntType(dstType)
-	if err != nil {
-		return false
-	}
+// maxTracedPhis limits how many merged values are traced back from a conversion.
+const maxTracedPhis = 32
 
-	srcInt, err := parseIntType(instr.X.Type().String())
+// typeInterval returns the range of the values of an integer type.
+func typeInterval(t types.Type) (interval, bool) {
+	parsed, err := parseIntType(typeName(t))
 	if err != nil {
-		return false
+		return interval{}, false
 	}
+	return interval{min: big.NewInt(int64(parsed.min)), max: new(big.Int).SetUint64(uint64(parsed.max))}, true
+}
 
-	minValue := srcInt.min
-	maxValue := srcInt.max
-	explicitPositiveVals := []uint{}
-	explicitNegativeVals := []int{}
+// parsedInterval returns the range of the result of a call which parses a string into an integer of a given
+// bit size, and all the values for any other call.
+func parsedInterval(call *ssa.Call, all interval) interval {
+	callee := call.Call.StaticCallee()
+	if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "strconv" || len(call.Call.Args) != 3 {
+		return all
+	}
+	size, ok := call.Call.Args[2].(*ssa.Const)
+	if !ok {
+		return all
+	}
+	bits := size.Int64()
+	if bits == 0 {
+		bits = strconv.IntSize
+	}
+	if bits < 0 || bits > 64 {
+		return all
+	}
+	one := big.NewInt(1)
+	switch callee.Name() {
+	case "ParseInt":
+		limit := new(big.Int).Lsh(one, uint(bits-1))
+		return interval{min: new(big.Int).Neg(limit), max: new(big.Int).Sub(limit, one)}
+	case "ParseUint":
+		limit := new(big.Int).Lsh(one, uint(bits))
+		return interval{min: new(big.Int), max: limit.Sub(limit, one)}
+	}
+	return all
+}
 
-	if minValue > dstInt.min && maxValue < dstInt.max {
-		return true
+// checkedInterval returns the range to which the comparisons with constants, passed on the way from the
+// definition of the value v to the instruction at, confine it. all is the range of v without any of them.
+func checkedInterval(v ssa.Value, at ssa.Instruction, all interval) interval {
+	target := at.Block()
+	var definition *ssa.BasicBlock
+	if instr, ok := v.(ssa.Instruction); ok && !isLoad(v) {
+		definition = instr.Block()
+	}
+	if target == nil || definition == target {
+		return all
+	}
+
+	// The blocks which can be passed on the way.
+	between := map[*ssa.BasicBlock]bool{target: true}
+	for pending := []*ssa.BasicBlock{target}; len(pending) > 0; {
+		block := pending[0]
+		pending = pending[1:]
+		if block == definition {
+			continue
+		}
+		for _, pred := range block.Preds {
+			if !between[pred] {
+				between[pred] = true
+				pending = append(pending, pred)
+			}
+		}
 	}
 
-	visitedIfs := make(map[*ssa.If]bool)
-	for _, block := range instr.Parent().Blocks {
-		for _, blockInstr := range block.Instrs {
-			switch v := blockInstr.(type) {
-			case *ssa.If:
-				result := getResultRange(v, instr, visitedIfs)
-				if result.isRangeCheck {
-					minValue = max(minValue, result.minValue)
-					maxValue = min(maxValue, result.maxValue)
-					explicitPositiveVals = append(explicitPositiveVals, result.explicitPositiveVals...)
-					explicitNegativeVals = append(explicitNegativeVals, result.explicitNegativeVals...)
-				}
-			case *ssa.Call:
-				// These function return an int of a guaranteed size.
-				if v != instr.X {
+	none := interval{min: big.NewInt(1), max: new(big.Int)}
+	// The range of v at the start of each block, for the blocks found to be reachable so far.
+	entry := map[*ssa.BasicBlock]interval{}
+	for changed := true; changed; {
+		changed = false
+		for _, block := range target.Parent().Blocks {
+			if !between[block] {
+				continue
+			}
+			result := none
+			if len(block.Preds) == 0 || block == definition {
+				result = all
+			}
+			for _, pred := range block.Preds {
+				incoming, ok := entry[pred]
+				if !ok {
 					continue
 				}
-				if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin {
-					switch fn.Name() {
-					case "len", "cap":
-						minValue = 0
-					}
+				if assigned(v, pred.Instrs) {
+					incoming = all
 				}
+				result = result.union(confine(incoming, v, pred, block))
 			}
-
-			if explicitValsInRange(explicitPositiveVals, explicitNegativeVals, dstInt) {
-				return true
-			} else if minValue >= dstInt.min && maxValue <= dstInt.max {
-				return true
+			if result.empty() {
+				continue
+			}
+			if previous, ok := entry[block]; !ok || !previous.equal(result) {
+				entry[block] = result
+				changed = true
 			}
 		}
 	}
-	return false
-}
 
-// getResultRange is a recursive function that walks the branches of the if statement to find the range of the variable.
-func getResultRange(ifInstr *ssa.If, instr *ssa.Convert, visitedIfs map[*ssa.If]bool) rangeResult {
-	if visitedIfs[ifInstr] {
-		return rangeResult{minValue: math.MinInt, maxValue: math.MaxUint}
-	}
-	visitedIfs[ifInstr] = true
-
-	cond := ifInstr.Cond
-	binOp, ok := cond.(*ssa.BinOp)
-	if !ok || !isRangeCheck(binOp, instr.X) {
-		return rangeResult{minValue: math.MinInt, maxValue: math.MaxUint}
-	}
-
-	result := rangeResult{
-		minValue:     math.MinInt,
-		maxValue:     math.MaxUint,
-		isRangeCheck: true,
+	result, ok := entry[target]
+	if !ok {
+		// The conversion is never reached.
+		return none
 	}
-
-	thenBounds := walkBranchForConvert(ifInstr.Block().Succs[0], instr, visitedIfs)
-	elseBounds := walkBranchForConvert(ifInstr.Block().Succs[1], instr, visitedIfs)
-
-	updateResultFromBinOp(&result, binOp, instr, thenBounds.convertFound)
-
-	if thenBounds.convertFound {
-		result.convertFound = true
-		result.minValue = maxWithPtr(result.minValue, thenBounds.minValue)
-		result.maxValue = minWithPtr(result.maxValue, thenBounds.maxValue)
-	} else if elseBounds.convertFound {
-		result.convertFound = true
-		result.minValue = maxWithPtr(result.minValue, elseBounds.minValue)
-		result.maxValue = minWithPtr(result.maxValue, elseBounds.maxValue)
+	for i, instr := range target.Instrs {
+		if instr == at && assigned(v, target.Instrs[:i]) {
+			return all
+		}
 	}
-
-	result.explicitPositiveVals = append(result.explicitPositiveVals, thenBounds.explicitPositiveVals...)
-	result.explicitNegativeVals = append(result.explicitNegativeVals, thenBounds.explicitNegativeVals...)
-	result.explicitPositiveVals = append(result.explicitPositiveVals, elseBounds.explicitPositiveVals...)
-	result.explicitNegativeVals = append(result.explicitNegativeVals, elseBounds.explicitNegativeVals...)
-
 	return result
 }
 
-// updateResultFromBinOp updates the rangeResult based on the BinOp instruction and the location of the Convert instruction.
-func updateResultFromBinOp(result *rangeResult, binOp *ssa.BinOp, instr *ssa.Convert, successPathConvert bool) {
-	x, y := binOp.X, binOp.Y
-	operandsFlipped := false
-
-	compareVal, op := getRealValueFromOperation(instr.X)
-
-	// Handle FieldAddr
-	if fieldAddr, ok := compareVal.(*ssa.FieldAddr); ok {
-		compareVal = fieldAddr
+// confine returns the part of the range of v which the branch from one block to another lets through.
+func confine(in interval, v ssa.Value, from, to *ssa.BasicBlock) interval {
+	branch, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
+	if !ok || from.Succs[0] == from.Succs[1] {
+		return in
 	}
-
-	if !isSameOrRelated(x, compareVal) {
-		y = x
-		operandsFlipped = true
+	cond, ok := branch.Cond.(*ssa.BinOp)
+	if !ok {
+		return in
 	}
 
-	constVal, ok := y.(*ssa.Const)
+	op := cond.Op
+	limit, isConst := cond.Y.(*ssa.Const)
+	if !isConst || !sameValue(cond.X, v) {
+		limit, isConst = cond.X.(*ssa.Const)
+		if !isConst || !sameValue(cond.Y, v) {
+			return in
+		}
+		op = flippedComparisons[op]
+	}
+	if to == from.Succs[1] {
+		op = negatedComparisons[op]
+	}
+	if limit.Value == nil {
+		return in
+	}
+	bound, ok := bigInt(limit)
 	if !ok {
-		return
-	}
-	// TODO: constVal.Value nil check avoids #1229 panic but seems to be hiding a bug in the code above or in x/tools/go/ssa.
-	if constVal.Value == nil {
-		// log.Fatalf("[gosec] constVal.Value is nil flipped=%t, constVal=%#v, binOp=%#v", operandsFlipped, constVal, binOp)
-		return
-	}
-	switch binOp.Op {
-	case token.LEQ, token.LSS:
-		updateMinMaxForLessOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
-	case token.GEQ, token.GTR:
-		updateMinMaxForGreaterOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
+		return in
+	}
+
+	one := big.NewInt(1)
+	out := in
+	switch op {
+	case token.LSS:
+		out.max = minBig(in.max, new(big.Int).Sub(bound, one))
+	case token.LEQ:
+		out.max = minBig(in.max, bound)
+	case token.GTR:
+		out.min = maxBig(in.min, new(big.Int).Add(bound, one))
+	case token.GEQ:
+		out.min = maxBig(in.min, bound)
 	case token.EQL:
-		if !successPathConvert {
-			break
-		}
-		updateExplicitValues(result, constVal)
+		out.min = maxBig(in.min, bound)
+		out.max = minBig(in.max, bound)
 	case token.NEQ:
-		if successPathConvert {
-			break
-		}
-		updateExplicitValues(result, constVal)
-	}
-
-	if op == "neg" {
-		minVal := result.minValue
-		maxVal := result.maxValue
-
-		if minVal >= 0 {
-			result.maxValue = uint(minVal)
+		if in.min.Cmp(bound) == 0 {
+			out.min = new(big.Int).Add(bound, one)
 		}
-		if maxVal <= math.MaxInt {
-			result.minValue = int(maxVal)
+		if in.max.Cmp(bound) == 0 {
+			out.max = new(big.Int).Sub(bound, one)
 		}
 	}
+	return out
 }
 
-func updateExplicitValues(result *rangeResult, constVal *ssa.Const) {
-	if strings.Contains(constVal.String(), "-") {
-		result.explicitNegativeVals = append(result.explicitNegativeVals, int(constVal.Int64()))
-	} else {
-		result.explicitPositiveVals = append(result.explicitPositiveVals, uint(constVal.Uint64()))
-	}
+// flippedComparisons maps each operator to the one with the operands exchanged.
+var flippedComparisons = map[token.Token]token.Token{
+	token.LSS: token.GTR,
+	token.LEQ: token.GEQ,
+	token.GTR: token.LSS,
+	token.GEQ: token.LEQ,
+	token.EQL: token.EQL,
+	token.NEQ: token.NEQ,
 }
 
-func updateMinMaxForLessOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the maximum value.
-	if successPathConvert && !operandsFlipped {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LEQ {
-			result.maxValue--
-		}
-	} else {
-		result.minValue = int(constVal.Int64())
-		if op == token.GTR {
-			result.minValue++
-		}
-	}
+// negatedComparisons maps each operator to the one which holds when it does not.
+var negatedComparisons = map[token.Token]token.Token{
+	token.LSS: token.GEQ,
+	token.LEQ: token.GTR,
+	token.GTR: token.LEQ,
+	token.GEQ: token.LSS,
+	token.EQL: token.NEQ,
+	token.NEQ: token.EQL,
 }
 
-func updateMinMaxForGreaterOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the minimum value.
-	if successPathConvert && !operandsFlipped {
-		result.minValue = int(constVal.Int64())
-		if op == token.GEQ {
-			result.minValue++
-		}
-	} else {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LSS {
-			result.maxValue--
-		}
+// sameValue tells if two values are the same, or loaded from the same variable or field, or negated from the same.
+func sameValue(a, b ssa.Value) bool {
+	if a == b {
+		return true
 	}
+	aOp, ok := a.(*ssa.UnOp)
+	if !ok {
+		return false
+	}
+	bOp, ok := b.(*ssa.UnOp)
+	if !ok || aOp.Op != bOp.Op {
+		return false
+	}
+	switch aOp.Op {
+	case token.MUL:
+		return sameAddress(aOp.X, bOp.X)
+	case token.SUB:
+		return sameValue(aOp.X, bOp.X)
+	}
+	return false
 }
 
-// walkBranchForConvert walks the branch of the if statement to find the range of the variable and where the conversion is.
-func walkBranchForConvert(block *ssa.BasicBlock, instr *ssa.Convert, visitedIfs map[*ssa.If]bool) branchResults {
-	bounds := branchResults{}
-
-	for _, blockInstr := range block.Instrs {
-		switch v := blockInstr.(type) {
-		case *ssa.If:
-			result := getResultRange(v, instr, visitedIfs)
-			bounds.convertFound = bounds.convertFound || result.convertFound
-
-			if result.isRangeCheck {
-				bounds.minValue = toPtr(maxWithPtr(result.minValue, bounds.minValue))
-				bounds.maxValue = toPtr(minWithPtr(result.maxValue, bounds.maxValue))
-				bounds.explicitPositiveVals = append(bounds.explicitPositiveVals, result.explicitPositiveVals...)
-				bounds.explicitNegativeVals = append(bounds.explicitNegativeVals, result.explicitNegativeVals...)
-			}
-		case *ssa.Call:
-			if v == instr.X {
-				if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin && (fn.Name() == "len" || fn.Name() == "cap") {
-					bounds.minValue = toPtr(0)
-				}
-			}
-		case *ssa.Convert:
-			if v == instr {
-				bounds.convertFound = true
-				return bounds
-			}
-		}
+// sameAddress tells if two addresses are those of the same variable or the same field of it.
+func sameAddress(a, b ssa.Value) bool {
+	if a == b {
+		return true
 	}
-
-	return bounds
+	aField, ok := a.(*ssa.FieldAddr)
+	if !ok {
+		return false
+	}
+	bField, ok := b.(*ssa.FieldAddr)
+	if !ok || aField.Field != bField.Field {
+		return false
+	}
+	return sameAddress(aField.X, bField.X)
 }
 
-func isRangeCheck(v ssa.Value, x ssa.Value) bool {
-	compareVal, _ := getRealValueFromOperation(x)
+// isLoad tells if the value is read from a variable.
+func isLoad(v ssa.Value) bool {
+	op, ok := v.(*ssa.UnOp)
+	return ok && (op.Op == token.MUL || op.Op == token.SUB && isLoad(op.X))
+}
 
-	switch op := v.(type) {
-	case *ssa.BinOp:
-		switch op.Op {
-		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
-			leftMatch := isSameOrRelated(op.X, compareVal)
-			rightMatch := isSameOrRelated(op.Y, compareVal)
-			return leftMatch || rightMatch
+// assigned tells if one of the instructions stores into the variable which the value v is read from.
+func assigned(v ssa.Value, instrs []ssa.Instruction) bool {
+	op, ok := v.(*ssa.UnOp)
+	if !ok {
+		return false
+	}
+	if op.Op != token.MUL {
+		return assigned(op.X, instrs)
+	}
+	for _, instr := range instrs {
+		if store, ok := instr.(*ssa.Store); ok && sameAddress(store.Addr, op.X) {
+			return true
 		}
 	}
 	return false
 }
 
-func getRealValueFromOperation(v ssa.Value) (ssa.Value, string) {
-	switch v := v.(type) {
-	case *ssa.UnOp:
-		if v.Op == token.SUB {
-			val, _ := getRealValueFromOperation(v.X)
-			return val, "neg"
-		}
-		return getRealValueFromOperation(v.X)
-	case *ssa.FieldAddr:
-		return v, "field"
-	case *ssa.Alloc:
-		return v, "alloc"
+// bigInt returns the value of an integer constant.
+func bigInt(c *ssa.Const) (*big.Int, bool) {
+	value := constant.ToInt(c.Value)
+	if value.Kind() != constant.Int {
+		return nil, false
 	}
-	return v, ""
+	return new(big.Int).SetString(value.ExactString(), 10)
 }
 
-func isSameOrRelated(a, b ssa.Value) bool {
-	aVal, _ := getRealValueFromOperation(a)
-	bVal, _ := getRealValueFromOperation(b)
-
-	if aVal == bVal {
-		return true
-	}
+func (i interval) empty() bool {
+	return i.min.Cmp(i.max) > 0
+}
 
-	// Check if both are FieldAddr operations referring to the same field of the same struct
-	if aField, aOk := aVal.(*ssa.FieldAddr); aOk {
-		if bField, bOk := bVal.(*ssa.FieldAddr); bOk {
-			return aField.X == bField.X && aField.Field == bField.Field
-		}
-	}
+func (i interval) within(other interval) bool {
+	return i.empty() || i.min.Cmp(other.min) >= 0 && i.max.Cmp(other.max) <= 0
+}
 
-	return false
+func (i interval) equal(other interval) bool {
+	return i.min.Cmp(other.min) == 0 && i.max.Cmp(other.max) == 0
 }
 
-func explicitValsInRange(explicitPosVals []uint, explicitNegVals []int, dstInt integer) bool {
-	if len(explicitPosVals) == 0 && len(explicitNegVals) == 0 {
-		return false
-	}
+func (i interval) intersect(other interval) interval {
+	return interval{min: maxBig(i.min, other.min), max: minBig(i.max, other.max)}
+}
 
-	for _, val := range explicitPosVals {
-		if val > dstInt.max {
-			return false
-		}
+func (i interval) union(other interval) interval {
+	if i.empty() {
+		return other
 	}
-
-	for _, val := range explicitNegVals {
-		if val < dstInt.min {
-			return false
-		}
+	if other.empty() {
+		return i
 	}
-
-	return true
+	return interval{min: minBig(i.min, other.min), max: maxBig(i.max, other.max)}
 }
 
-func minWithPtr[T cmp.Ordered](a T, b *T) T {
-	if b == nil {
+func minBig(a, b *big.Int) *big.Int {
+	if a.Cmp(b) <= 0 {
 		return a
 	}
-	return min(a, *b)
+	return b
 }
 
-func maxWithPtr[T cmp.Ordered](a T, b *T) T {
-	if b == nil {
+func maxBig(a, b *big.Int) *big.Int {
+	if a.Cmp(b) >= 0 {
 		return a
 	}
-	return max(a, *b)
-}
-
-func toPtr[T any](a T) *T {
-	return &a
+	return b
 }
-- 
2.43.0


From 07ed492031292fbcd4aecca71faed5aea55f4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 35/86] fix: check conversions from and to byte and rune

---
 analyzers/conversion_overflow.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 11f2bb9..9a36b8a 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -157,8 +157,12 @@ func parseIntType(intType string) (integer, error) {
 	}, nil
 }
 
-// typeName returns the name of the underlying type.
+// typeName returns the name of the underlying type. The predeclared aliases byte and rune
+// go by the name of the type they stand for.
 func typeName(t types.Type) string {
+	if basic, ok := t.Underlying().(*types.Basic); ok {
+		return types.Typ[basic.Kind()].Name()
+	}
 	return t.Underlying().String()
 }
 
-- 
2.43.0


From 05fb27b06fbfd9252ddde76f18e5867bdc52f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 36/86] fix: analyze the initializers of package level
 variables

---
 analyzer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 23e175c..58b8fa6 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -37,6 +37,7 @@ import (
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
 	"golang.org/x/tools/go/packages"
+	"golang.org/x/tools/go/ssa"
 
 	"github.com/securego/gosec/v2/analyzers"
 	"github.com/securego/gosec/v2/issue"
@@ -536,7 +537,24 @@ func (gosec *Analyzer) buildSSA(pkg *packages.Package) (interface{}, error) {
 		AllPackageFacts:   nil,
 	}
 
-	return ssaPass.Analyzer.Run(ssaPass)
+	result, err := ssaPass.Analyzer.Run(ssaPass)
+	if ssaResult, ok := result.(*buildssa.SSA); ok && ssaResult.Pkg != nil {
+		// The initializers of the package level variables are not part of any function declared in the sources.
+		ssaResult.SrcFuncs = appendFuncs(ssaResult.SrcFuncs, ssaResult.Pkg.Func("init"))
+	}
+	return result, err
+}
+
+// appendFuncs adds a function and the functions defined in it to the list.
+func appendFuncs(funcs []*ssa.Function, fn *ssa.Function) []*ssa.Function {
+	if fn == nil {
+		return funcs
+	}
+	funcs = append(funcs, fn)
+	for _, anon := range fn.AnonFuncs {
+		funcs = appendFuncs(funcs, anon)
+	}
+	return funcs
 }
 
 // ParseErrors parses the errors from given package
-- 
2.43.0


From c9026bf96f905fc558ad17f13949112fa536bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 37/86] fix: judge each TLS configuration by its own constant
 values

---
 rules/tls.go | 255 ++++++++++++++++++++++++++-------------------------
 1 file changed, 128 insertions(+), 127 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 65a0b5a..637618e 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -20,8 +20,9 @@ import (
 	"crypto/tls"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/types"
-	"strconv"
+	"math"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -29,12 +30,10 @@ import (
 
 type insecureConfigTLS struct {
 	issue.MetaData
-	MinVersion       int64
-	MaxVersion       int64
-	requiredType     string
-	goodCiphers      []string
-	actualMinVersion int64
-	actualMaxVersion int64
+	MinVersion   int64
+	MaxVersion   int64
+	requiredType string
+	goodCiphers  []string
 }
 
 func (t *insecureConfigTLS) ID() string {
@@ -50,118 +49,73 @@ func stringInSlice(a string, list []string) bool {
 	return false
 }
 
+// tlsVersions holds the protocol versions which are set in one configuration.
+type tlsVersions struct {
+	min int64
+	max int64
+}
+
 func (t *insecureConfigTLS) processTLSCipherSuites(n ast.Node, c *gosec.Context) *issue.Issue {
 	if ciphers, ok := n.(*ast.CompositeLit); ok {
 		for _, cipher := range ciphers.Elts {
-			if ident, ok := cipher.(*ast.SelectorExpr); ok {
-				if !stringInSlice(ident.Sel.Name, t.goodCiphers) {
-					err := fmt.Sprintf("TLS Bad Cipher Suite: %s", ident.Sel.Name)
-					return c.NewIssue(ident, t.ID(), err, issue.High, issue.High)
-				}
+			if kv, ok := cipher.(*ast.KeyValueExpr); ok {
+				cipher = kv.Value
+			}
+			name := ""
+			if id, ok := intConstant(cipher, c); ok && id >= 0 && id <= math.MaxUint16 {
+				name = tls.CipherSuiteName(uint16(id))
+			} else if selector, ok := cipher.(*ast.SelectorExpr); ok {
+				name = selector.Sel.Name
+			}
+			if name != "" && !stringInSlice(name, t.goodCiphers) {
+				err := fmt.Sprintf("TLS Bad Cipher Suite: %s", name)
+				return c.NewIssue(cipher, t.ID(), err, issue.High, issue.High)
 			}
 		}
 	}
 	return nil
 }
 
-func (t *insecureConfigTLS) processTLSConf(n ast.Node, c *gosec.Context) *issue.Issue {
+func (t *insecureConfigTLS) processTLSConf(n ast.Node, c *gosec.Context, versions *tlsVersions) *issue.Issue {
 	if kve, ok := n.(*ast.KeyValueExpr); ok {
-		issue := t.processTLSConfVal(kve.Key, kve.Value, c)
-		if issue != nil {
-			return issue
-		}
-	} else if assign, ok := n.(*ast.AssignStmt); ok {
-		if len(assign.Lhs) < 1 || len(assign.Rhs) < 1 {
-			return nil
-		}
-		if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-			issue := t.processTLSConfVal(selector.Sel, assign.Rhs[0], c)
-			if issue != nil {
-				return issue
-			}
-		}
+		return t.processTLSConfVal(kve.Key, kve.Value, c, versions)
 	}
 	return nil
 }
 
-func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *gosec.Context) *issue.Issue {
+func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *gosec.Context, versions *tlsVersions) *issue.Issue {
 	if ident, ok := key.(*ast.Ident); ok {
 		switch ident.Name {
 		case "InsecureSkipVerify":
-			if node, ok := value.(*ast.Ident); ok {
-				if node.Name != "false" {
+			if constVal, ok := boolConstant(value, c); ok {
+				if constVal {
 					return c.NewIssue(value, t.ID(), "TLS InsecureSkipVerify set true.", issue.High, issue.High)
 				}
+			} else if _, ok := value.(*ast.Ident); ok {
+				return c.NewIssue(value, t.ID(), "TLS InsecureSkipVerify set true.", issue.High, issue.High)
 			} else {
 				// TODO(tk): symbol tab look up to get the actual value
 				return c.NewIssue(value, t.ID(), "TLS InsecureSkipVerify may be true.", issue.High, issue.Low)
 			}
 
 		case "PreferServerCipherSuites":
-			if node, ok := value.(*ast.Ident); ok {
-				if node.Name == "false" {
+			if constVal, ok := boolConstant(value, c); ok {
+				if !constVal {
 					return c.NewIssue(value, t.ID(), "TLS PreferServerCipherSuites set false.", issue.Medium, issue.High)
 				}
-			} else {
+			} else if _, ok := value.(*ast.Ident); !ok {
 				// TODO(tk): symbol tab look up to get the actual value
 				return c.NewIssue(value, t.ID(), "TLS PreferServerCipherSuites may be false.", issue.Medium, issue.Low)
 			}
 
 		case "MinVersion":
-			if d, ok := value.(*ast.Ident); ok {
-				obj := d.Obj
-				if obj == nil {
-					for _, f := range c.PkgFiles {
-						obj = f.Scope.Lookup(d.Name)
-						if obj != nil {
-							break
-						}
-					}
-				}
-				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
-					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						x := s.X.(*ast.Ident).Name
-						sel := s.Sel.Name
-
-						for _, imp := range c.Pkg.Imports() {
-							if imp.Name() == x {
-								tObj := imp.Scope().Lookup(sel)
-								if cst, ok := tObj.(*types.Const); ok {
-									// ..got the value check if this can be translated
-									if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
-										t.actualMinVersion = minVersion
-									}
-								}
-							}
-						}
-					}
-					if ival, ierr := gosec.GetInt(vs.Values[0]); ierr == nil {
-						t.actualMinVersion = ival
-					}
-				}
-			} else if ival, ierr := gosec.GetInt(value); ierr == nil {
-				t.actualMinVersion = ival
-			} else {
-				if se, ok := value.(*ast.SelectorExpr); ok {
-					if pkg, ok := se.X.(*ast.Ident); ok {
-						if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
-							t.actualMinVersion = t.mapVersion(se.Sel.Name)
-						}
-					}
-				}
+			if version, ok := versionValue(value, c); ok {
+				versions.min = version
 			}
 
 		case "MaxVersion":
-			if ival, ierr := gosec.GetInt(value); ierr == nil {
-				t.actualMaxVersion = ival
-			} else {
-				if se, ok := value.(*ast.SelectorExpr); ok {
-					if pkg, ok := se.X.(*ast.Ident); ok {
-						if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
-							t.actualMaxVersion = t.mapVersion(se.Sel.Name)
-						}
-					}
-				}
+			if version, ok := versionValue(value, c); ok {
+				versions.max = version
 			}
 
 		case "CipherSuites":
@@ -174,64 +128,111 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 	return nil
 }
 
-func (t *insecureConfigTLS) mapVersion(version string) int64 {
-	var v int64
-	switch version {
-	case "VersionTLS13":
-		v = tls.VersionTLS13
-	case "VersionTLS12":
-		v = tls.VersionTLS12
-	case "VersionTLS11":
-		v = tls.VersionTLS11
-	case "VersionTLS10":
-		v = tls.VersionTLS10
-	}
-	return v
+// boolConstant returns the value of a constant boolean expression.
+func boolConstant(expr ast.Expr, c *gosec.Context) (bool, bool) {
+	tv, ok := c.Info.Types[expr]
+	if !ok || tv.Value == nil || tv.Value.Kind() != constant.Bool {
+		return false, false
+	}
+	return constant.BoolVal(tv.Value), true
+}
+
+// intConstant returns the value of a constant integer expression.
+func intConstant(expr ast.Expr, c *gosec.Context) (int64, bool) {
+	tv, ok := c.Info.Types[expr]
+	if !ok || tv.Value == nil {
+		return 0, false
+	}
+	return constant.Int64Val(constant.ToInt(tv.Value))
 }
 
-func (t *insecureConfigTLS) checkVersion(n ast.Node, c *gosec.Context) *issue.Issue {
-	if t.actualMaxVersion == 0 && t.actualMinVersion >= t.MinVersion {
-		// no warning is generated since the min version is greater than the secure min version
-		return nil
+// versionValue returns the protocol version which is either a constant or the value a variable is declared with.
+func versionValue(expr ast.Expr, c *gosec.Context) (int64, bool) {
+	if version, ok := intConstant(expr, c); ok {
+		return version, true
 	}
-	if t.actualMinVersion < t.MinVersion {
+	ident, ok := expr.(*ast.Ident)
+	if !ok {
+		return 0, false
+	}
+	obj := ident.Obj
+	if obj == nil {
+		for _, f := range c.PkgFiles {
+			if obj = f.Scope.Lookup(ident.Name); obj != nil {
+				break
+			}
+		}
+	}
+	if obj == nil {
+		return 0, false
+	}
+	switch decl := obj.Decl.(type) {
+	case *ast.ValueSpec:
+		for i, name := range decl.Names {
+			if name.Name == ident.Name && i < len(decl.Values) {
+				return intConstant(decl.Values[i], c)
+			}
+		}
+	case *ast.AssignStmt:
+		for i, name := range decl.Lhs {
+			if name, ok := name.(*ast.Ident); ok && name.Name == ident.Name && len(decl.Lhs) == len(decl.Rhs) {
+				return intConstant(decl.Rhs[i], c)
+			}
+		}
+	}
+	return 0, false
+}
+
+func (t *insecureConfigTLS) checkVersion(n ast.Node, c *gosec.Context, versions tlsVersions) *issue.Issue {
+	if versions.min < t.MinVersion {
 		return c.NewIssue(n, t.ID(), "TLS MinVersion too low.", issue.High, issue.High)
 	}
-	if t.actualMaxVersion < t.MaxVersion {
+	if versions.max != 0 && versions.max < t.MaxVersion {
 		return c.NewIssue(n, t.ID(), "TLS MaxVersion too low.", issue.High, issue.High)
 	}
 	return nil
 }
 
-func (t *insecureConfigTLS) resetVersion() {
-	t.actualMaxVersion = 0
-	t.actualMinVersion = 0
+// isConfig tells if the type is the required one or a pointer to it.
+func (t *insecureConfigTLS) isConfig(typ types.Type) bool {
+	if typ == nil {
+		return false
+	}
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok {
+		typ = ptr.Elem()
+	}
+	return types.Unalias(typ).String() == t.requiredType
 }
 
 func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
-		actualType := c.Info.TypeOf(complit.Type)
-		if actualType != nil && actualType.String() == t.requiredType {
-			for _, elt := range complit.Elts {
-				issue := t.processTLSConf(elt, c)
-				if issue != nil {
-					return issue, nil
-				}
+	switch n := n.(type) {
+	case *ast.CompositeLit:
+		if !t.isConfig(c.Info.TypeOf(n)) {
+			return nil, nil
+		}
+		versions := tlsVersions{}
+		for _, elt := range n.Elts {
+			if issue := t.processTLSConf(elt, c, &versions); issue != nil {
+				return issue, nil
 			}
-			issue := t.checkVersion(complit, c)
-			t.resetVersion()
-			return issue, nil
 		}
-	} else {
-		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-			if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-				actualType := c.Info.TypeOf(selector.X)
-				if actualType != nil && actualType.String() == t.requiredType {
-					issue := t.processTLSConf(assign, c)
-					if issue != nil {
-						return issue, nil
-					}
-				}
+		return t.checkVersion(n, c, versions), nil
+	case *ast.AssignStmt:
+		if len(n.Lhs) != len(n.Rhs) {
+			return nil, nil
+		}
+		for i, lhs := range n.Lhs {
+			selector, ok := lhs.(*ast.SelectorExpr)
+			if !ok || !t.isConfig(c.Info.TypeOf(selector.X)) {
+				continue
+			}
+			// The versions which are not assigned are not judged.
+			versions := tlsVersions{min: t.MinVersion, max: t.MaxVersion}
+			if issue := t.processTLSConfVal(selector.Sel, n.Rhs[i], c, &versions); issue != nil {
+				return issue, nil
+			}
+			if issue := t.checkVersion(n, c, versions); issue != nil {
+				return issue, nil
 			}
 		}
 	}
-- 
2.43.0


From d01a5635eeb9378a9319ce7c93638d50b3118b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 38/86] fix: judge RSA key sizes by their constant value

---
 rules/rsa.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/rsa.go b/rules/rsa.go
index 331e7fc..587a479 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -33,8 +33,8 @@ func (w *weakKeyStrength) ID() string {
 }
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
-		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
+	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil && len(callExpr.Args) == 2 {
+		if bits, ok := intConstant(callExpr.Args[1], c); ok && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
 	}
-- 
2.43.0


From 0f0d7ca7bba7749ad94379f1af4504da1fea209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 39/86] fix: forget the errors when an analyzer is reset

---
 analyzer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 58b8fa6..61b0790 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -815,11 +815,12 @@ func (gosec *Analyzer) Report() ([]*issue.Issue, *Metrics, map[string][]Error) {
 	return gosec.issues, gosec.stats, gosec.errors
 }
 
-// Reset clears state such as context, issues and metrics from the configured analyzer
+// Reset clears state such as context, issues, metrics and errors from the configured analyzer
 func (gosec *Analyzer) Reset() {
 	gosec.context = &Context{}
 	gosec.issues = make([]*issue.Issue, 0, 16)
 	gosec.stats = &Metrics{}
+	gosec.errors = make(map[string][]Error)
 	gosec.ruleset = NewRuleSet()
 	gosec.analyzerSet = analyzers.NewAnalyzerSet()
 }
-- 
2.43.0


From 04c4b3bd15dbebd1fb5c517080b48ee1f69a6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 40/86] fix: forget the annotations of a file before it is
 checked again

---
 analyzer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 61b0790..30cccc5 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -428,6 +428,8 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 		gosec.context.PkgFiles = pkg.Syntax
 		gosec.context.Imports = NewImportTracker()
 		gosec.context.PassedValues = make(map[string]interface{})
+		// The annotations found when the file was checked before do not apply anymore.
+		delete(gosec.context.Ignores, checkedFile)
 		gosec.updateIgnores()
 		ast.Walk(gosec, file)
 		gosec.stats.NumFiles++
-- 
2.43.0


From 12a033f0d21d0add0324880b97956330a39ba60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 41/86] fix: track decompressing readers by the variables they
 are bound to

---
 rules/decompression-bomb.go | 58 +++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 7e57f1a..44f567d 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -42,36 +43,34 @@ func containsReaderCall(node ast.Node, ctx *gosec.Context, list gosec.CallList)
 }
 
 func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	var readerVarObj map[*ast.Object]struct{}
+	var readerVarObj map[types.Object]struct{}
 
 	// To check multiple lines, ctx.PassedValues is used to store temporary data.
 	if _, ok := ctx.PassedValues[d.ID()]; !ok {
-		readerVarObj = make(map[*ast.Object]struct{})
+		readerVarObj = make(map[types.Object]struct{})
 		ctx.PassedValues[d.ID()] = readerVarObj
-	} else if pv, ok := ctx.PassedValues[d.ID()].(map[*ast.Object]struct{}); ok {
+	} else if pv, ok := ctx.PassedValues[d.ID()].(map[types.Object]struct{}); ok {
 		readerVarObj = pv
 	} else {
-		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[*ast.Object]struct{}, but %T", d.ID(), ctx.PassedValues[d.ID()])
+		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[types.Object]struct{}, but %T", d.ID(), ctx.PassedValues[d.ID()])
 	}
 
 	// io.Copy is a common function.
 	// To reduce false positives, This rule detects code which is used for compressed data only.
 	switch n := node.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range n.Rhs {
-			if callExpr, ok := expr.(*ast.CallExpr); ok && containsReaderCall(callExpr, ctx, d.readerCalls) {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
-					// Example:
-					//  r, _ := zlib.NewReader(buf)
-					//  Add r's Obj to readerVarObj map
-					readerVarObj[idt.Obj] = struct{}{}
-				}
+	case *ast.AssignStmt, *ast.ValueSpec:
+		eachAssignment(n, func(name *ast.Ident, value ast.Expr) {
+			// Example:
+			//  r, _ := zlib.NewReader(buf)
+			//  Add r's object to readerVarObj map
+			if obj := ctx.Info.ObjectOf(name); obj != nil && containsReaderCall(value, ctx, d.readerCalls) {
+				readerVarObj[obj] = struct{}{}
 			}
-		}
+		})
 	case *ast.CallExpr:
-		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
-			if idt, ok := n.Args[1].(*ast.Ident); ok {
-				if _, ok := readerVarObj[idt.Obj]; ok {
+		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
+			if idt, ok := ast.Unparen(n.Args[1]).(*ast.Ident); ok {
+				if _, ok := readerVarObj[ctx.Info.ObjectOf(idt)]; ok {
 					// Detect io.Copy(x, r)
 					return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
 				}
@@ -82,6 +81,29 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 	return nil, nil
 }
 
+// eachAssignment calls the function for each variable which is bound by an assignment or a declaration, with
+// the expression that gives the value (or the first of several values) of the variable.
+func eachAssignment(node ast.Node, f func(name *ast.Ident, value ast.Expr)) {
+	var names, values []ast.Expr
+	switch n := node.(type) {
+	case *ast.AssignStmt:
+		names, values = n.Lhs, n.Rhs
+	case *ast.ValueSpec:
+		for _, name := range n.Names {
+			names = append(names, name)
+		}
+		values = n.Values
+	}
+	for i, value := range values {
+		if i >= len(names) {
+			break
+		}
+		if name, ok := ast.Unparen(names[i]).(*ast.Ident); ok && name.Name != "_" {
+			f(name, ast.Unparen(value))
+		}
+	}
+}
+
 // NewDecompressionBombCheck detects if there is potential DoS vulnerability via decompression bomb
 func NewDecompressionBombCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	readerCalls := gosec.NewCallList()
@@ -107,5 +129,5 @@ func NewDecompressionBombCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Nod
 		},
 		readerCalls: readerCalls,
 		copyCalls:   copyCalls,
-	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.CallExpr)(nil)}
+	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.ValueSpec)(nil), (*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From 1a14ee81a5af7358f4bab0179b91bd3038070f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 42/86] fix: track parsed integers by the variables they are
 bound to

---
 rules/integer_overflow.go | 47 +++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 1d57906..f4d331f 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -32,40 +33,36 @@ func (i *integerOverflowCheck) ID() string {
 }
 
 func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	var atoiVarObj map[*ast.Object]ast.Node
+	var atoiVarObj map[types.Object]ast.Node
 
 	// To check multiple lines, ctx.PassedValues is used to store temporary data.
 	if _, ok := ctx.PassedValues[i.ID()]; !ok {
-		atoiVarObj = make(map[*ast.Object]ast.Node)
+		atoiVarObj = make(map[types.Object]ast.Node)
 		ctx.PassedValues[i.ID()] = atoiVarObj
-	} else if pv, ok := ctx.PassedValues[i.ID()].(map[*ast.Object]ast.Node); ok {
+	} else if pv, ok := ctx.PassedValues[i.ID()].(map[types.Object]ast.Node); ok {
 		atoiVarObj = pv
 	} else {
-		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[*ast.Object]ast.Node, but %T", i.ID(), ctx.PassedValues[i.ID()])
+		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[types.Object]ast.Node, but %T", i.ID(), ctx.PassedValues[i.ID()])
 	}
 
 	// strconv.Atoi is a common function.
 	// To reduce false positives, This rule detects code which is converted to int32/int16 only.
 	switch n := node.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range n.Rhs {
-			if callExpr, ok := expr.(*ast.CallExpr); ok && i.calls.ContainsPkgCallExpr(callExpr, ctx, false) != nil {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
-					// Example:
-					//  v, _ := strconv.Atoi("1111")
-					// Add v's Obj to atoiVarObj map
-					atoiVarObj[idt.Obj] = n
-				}
+	case *ast.AssignStmt, *ast.ValueSpec:
+		eachAssignment(n, func(name *ast.Ident, value ast.Expr) {
+			// Example:
+			//  v, _ := strconv.Atoi("1111")
+			// Add v's object to atoiVarObj map
+			if obj := ctx.Info.ObjectOf(name); obj != nil && i.calls.ContainsPkgCallExpr(value, ctx, false) != nil {
+				atoiVarObj[obj] = n
 			}
-		}
+		})
 	case *ast.CallExpr:
-		if fun, ok := n.Fun.(*ast.Ident); ok {
-			if fun.Name == "int32" || fun.Name == "int16" {
-				if idt, ok := n.Args[0].(*ast.Ident); ok {
-					if _, ok := atoiVarObj[idt.Obj]; ok {
-						// Detect int32(v) and int16(v)
-						return ctx.NewIssue(n, i.ID(), i.What, i.Severity, i.Confidence), nil
-					}
+		if tv, ok := ctx.Info.Types[n.Fun]; ok && tv.IsType() && len(n.Args) == 1 && isInt16Or32(tv.Type) {
+			if idt, ok := ast.Unparen(n.Args[0]).(*ast.Ident); ok {
+				if _, ok := atoiVarObj[ctx.Info.ObjectOf(idt)]; ok {
+					// Detect int32(v) and int16(v)
+					return ctx.NewIssue(n, i.ID(), i.What, i.Severity, i.Confidence), nil
 				}
 			}
 		}
@@ -74,6 +71,12 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 	return nil, nil
 }
 
+// isInt16Or32 tells if the type is a signed integer type of 16 or 32 bits.
+func isInt16Or32(t types.Type) bool {
+	basic, ok := t.Underlying().(*types.Basic)
+	return ok && (basic.Kind() == types.Int16 || basic.Kind() == types.Int32)
+}
+
 // NewIntegerOverflowCheck detects if there is potential Integer OverFlow
 func NewIntegerOverflowCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	calls := gosec.NewCallList()
@@ -86,5 +89,5 @@ func NewIntegerOverflowCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Node)
 			What:       "Potential Integer overflow made by strconv.Atoi result conversion to int16/32",
 		},
 		calls: calls,
-	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.CallExpr)(nil)}
+	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.ValueSpec)(nil), (*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From 9bdf5718bb89666a8581bd6a7579f6c8e419a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 43/86] fix: accept calls of exec.CommandContext without
 arguments

---
 rules/subproc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/subproc.go b/rules/subproc.go
index 1e2ceda..1686319 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -43,7 +43,7 @@ func (r *subprocess) ID() string {
 func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
 		args := node.Args
-		if r.isContext(n, c) {
+		if r.isContext(n, c) && len(args) > 0 {
 			args = args[1:]
 		}
 		for _, arg := range args {
-- 
2.43.0


From a40078ddd0fdd031d4db0280f2357de248d30f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 44/86] fix: accept calls without arguments when looking for
 predictable temporary files

---
 rules/tempfiles.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 6fef52a..29f5bab 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -50,14 +50,14 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		}
 		return nil
 	}
-	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
+	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
 	}
 	return nil
 }
 
 func (t *badTempFile) Match(n ast.Node, c *gosec.Context) (gi *issue.Issue, err error) {
-	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
+	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil && len(node.Args) > 0 {
 		return t.findTempDirArgs(n, c, node.Args[0]), nil
 	}
 	return nil, nil
-- 
2.43.0


From 79e049267868f87e78d3b5b894c15dbb5b191207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 45/86] fix: accept formatting calls which lack the format

---
 rules/sql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index 61222bf..001b26b 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -289,7 +289,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 	if node := s.fmtCalls.ContainsPkgCallExpr(n, ctx, false); node != nil {
 		// if the function is fmt.Fprintf, search for SQL statement in Args[1] instead
 		if sel, ok := node.Fun.(*ast.SelectorExpr); ok {
-			if sel.Sel.Name == "Fprintf" {
+			if sel.Sel.Name == "Fprintf" && len(node.Args) > 0 {
 				// if os.Stderr or os.Stdout is in Arg[0], mark as no issue
 				if arg, ok := node.Args[0].(*ast.SelectorExpr); ok {
 					if ident, ok := arg.X.(*ast.Ident); ok {
@@ -304,7 +304,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		}
 
 		// no formatter
-		if len(node.Args) == 0 {
+		if len(node.Args) <= argIndex {
 			return nil
 		}
 
-- 
2.43.0


From 30ff8392cc421d1abc47cc58f18242cca0196a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:29 +0000
Subject: [PATCH 46/86] fix: follow each parameter once when looking for the
 origin of a nonce

---
 analyzers/hardcoded_nonce.go | 44 ++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index c9c5395..8d2544d 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -72,12 +72,49 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 	return issues, nil
 }
 
+// trackedValue is a value which is passed to one of the tracked functions.
+type trackedValue struct {
+	value       ssa.Value
+	functions   map[string][]int
+	description string
+}
+
+// raiseIssue backtracks from a value passed to a tracked function to its origins. Each parameter on the way
+// is followed only once, because functions can call themselves.
 func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
 	pass *analysis.Pass, issueDescription string,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
 	}
+	var allIssues []*issue.Issue
+	followed := map[ssa.Value]bool{}
+	pending := []trackedValue{{val, funcsToTrack, issueDescription}}
+	for len(pending) > 0 {
+		tracked := pending[0]
+		pending = pending[1:]
+		if _, ok := tracked.value.(*ssa.Parameter); ok {
+			if followed[tracked.value] {
+				continue
+			}
+			followed[tracked.value] = true
+		}
+		issues, origins, err := raiseIssueOf(tracked.value, tracked.functions, ssaFuncs, pass, tracked.description)
+		allIssues = append(allIssues, issues...)
+		if err != nil {
+			return allIssues, err
+		}
+		pending = append(pending, origins...)
+	}
+	return allIssues, nil
+}
+
+// raiseIssueOf checks a value passed to a tracked function. For a parameter, it gives the values which the calls
+// pass for it.
+func raiseIssueOf(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
+	pass *analysis.Pass, issueDescription string,
+) ([]*issue.Issue, []trackedValue, error) {
+	var origins []trackedValue
 	var err error
 	var allIssues []*issue.Issue
 	var issues []*issue.Issue
@@ -134,17 +171,16 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 			args := getArgsFromTrackedFunctions(ssaFuncs, trackedFunctions)
 
 			issueDescription += " by passing a parameter to a function and"
-			// recursively backtrack to where the origin of a variable passed to multiple functions is
+			// backtrack to where the origin of a variable passed to multiple functions is
 			for _, arg := range args {
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription)
-				allIssues = append(allIssues, issues...)
+				origins = append(origins, trackedValue{*arg, trackedFunctions, issueDescription})
 			}
 		}
 	}
-	return allIssues, err
+	return allIssues, origins, err
 }
 
 // iterateThroughReferrers iterates through all places that use the `variable` argument and check if it's used in one of the tracked functions.
-- 
2.43.0


From 99fbe8506ccd5b6b649b7fa6926b5bbc101f6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:43 +0000
Subject: [PATCH 47/86] fix: visit the slices of recursive functions once for
 each capacity

---
 analyzers/slice_bounds.go | 46 +++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 968102f..69f0412 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -57,6 +57,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 
 	issues := map[ssa.Instruction]*issue.Issue{}
 	ifs := map[ssa.If]*ssa.BinOp{}
+	seen := sliceVisits{}
 	for _, mcall := range ssaResult.SSA.SrcFuncs {
 		for _, block := range mcall.DomPreorder() {
 			for _, instr := range block.Instrs {
@@ -77,7 +78,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 									l, h := extractSliceBounds(slice)
 									newCap := computeSliceNewCap(l, h, sliceCap)
 									violations := []ssa.Instruction{}
-									trackSliceBounds(0, newCap, slice, &violations, ifs)
+									trackSliceBounds(0, newCap, slice, &violations, ifs, seen)
 									for _, s := range violations {
 										switch s := s.(type) {
 										case *ssa.Slice:
@@ -118,11 +119,13 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 			if i == 1 {
 				bound = invBound(bound)
 			}
+			processed := map[*ssa.BasicBlock]int{}
 			var processBlock func(block *ssa.BasicBlock, depth int)
 			processBlock = func(block *ssa.BasicBlock, depth int) {
-				if depth == maxDepth {
+				if before, ok := processed[block]; depth == maxDepth || ok && before <= depth {
 					return
 				}
+				processed[block] = depth
 				depth++
 				for _, instr := range block.Instrs {
 					if _, ok := issues[instr]; ok {
@@ -170,8 +173,27 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	return nil, nil
 }
 
-func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
-	if depth == maxDepth {
+// sliceVisit is a slice with a given capacity, of which either the uses are tracked or the bounds are checked.
+type sliceVisit struct {
+	node     ssa.Node
+	sliceCap int
+	check    bool
+}
+
+// sliceVisits tells at what depth the slices were visited.
+type sliceVisits map[sliceVisit]int
+
+// again tells if a visit was made before, from where at least as much could be reached.
+func (v sliceVisits) again(visit sliceVisit, depth int) bool {
+	if before, ok := v[visit]; ok && before <= depth {
+		return true
+	}
+	v[visit] = depth
+	return false
+}
+
+func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, seen sliceVisits) {
+	if depth == maxDepth || seen.again(sliceVisit{slice, sliceCap, false}, depth) {
 		return
 	}
 	depth++
@@ -183,12 +205,12 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 		for _, refinstr := range *referrers {
 			switch refinstr := refinstr.(type) {
 			case *ssa.Slice:
-				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs)
+				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs, seen)
 				switch refinstr.X.(type) {
 				case *ssa.Alloc, *ssa.Parameter:
 					l, h := extractSliceBounds(refinstr)
 					newCap := computeSliceNewCap(l, h, sliceCap)
-					trackSliceBounds(depth, newCap, refinstr, violations, ifs)
+					trackSliceBounds(depth, newCap, refinstr, violations, ifs, seen)
 				}
 			case *ssa.IndexAddr:
 				indexValue, err := extractIntValue(refinstr.Index.String())
@@ -208,7 +230,7 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
 						if len(fn.Params) > parPos && parPos > -1 {
 							param := fn.Params[parPos]
-							trackSliceBounds(depth, sliceCap, param, violations, ifs)
+							trackSliceBounds(depth, sliceCap, param, violations, ifs, seen)
 						}
 					}
 				}
@@ -217,8 +239,8 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 	}
 }
 
-func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
-	if depth == maxDepth {
+func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, seen sliceVisits) {
+	if depth == maxDepth || seen.again(sliceVisit{slice, sliceCap, true}, depth) {
 		return
 	}
 	depth++
@@ -233,7 +255,7 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	case *ssa.Alloc, *ssa.Parameter, *ssa.Slice:
 		l, h := extractSliceBounds(slice)
 		newCap := computeSliceNewCap(l, h, sliceCap)
-		trackSliceBounds(depth, newCap, slice, violations, ifs)
+		trackSliceBounds(depth, newCap, slice, violations, ifs, seen)
 	}
 
 	references := slice.Referrers()
@@ -243,12 +265,12 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	for _, ref := range *references {
 		switch s := ref.(type) {
 		case *ssa.Slice:
-			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs)
+			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs, seen)
 			switch s.X.(type) {
 			case *ssa.Alloc, *ssa.Parameter:
 				l, h := extractSliceBounds(s)
 				newCap := computeSliceNewCap(l, h, sliceCap)
-				trackSliceBounds(depth, newCap, s, violations, ifs)
+				trackSliceBounds(depth, newCap, s, violations, ifs, seen)
 			}
 		}
 	}
-- 
2.43.0


From ff831a1f6fd3c296f79da728deecb45cfd88e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 48/86] fix: resolve each declaration once, and none through
 itself

---
 resolve.go | 83 ++++++++++++++++++++++--------------------------------
 1 file changed, 34 insertions(+), 49 deletions(-)

diff --git a/resolve.go b/resolve.go
index a201b8d..91a89b4 100644
--- a/resolve.go
+++ b/resolve.go
@@ -16,80 +16,65 @@ package gosec
 
 import "go/ast"
 
-func resolveIdent(n *ast.Ident, c *Context) bool {
+// resolver resolves nodes to known constants.
+type resolver struct {
+	// verdicts about the declarations of variables. A declaration which depends on itself is not known.
+	declarations map[ast.Node]bool
+}
+
+func (r *resolver) resolveIdent(n *ast.Ident) bool {
 	if n.Obj == nil || n.Obj.Kind != ast.Var {
 		return true
 	}
-	if node, ok := n.Obj.Decl.(ast.Node); ok {
-		return TryResolve(node, c)
-	}
-	return false
-}
-
-func resolveValueSpec(n *ast.ValueSpec, c *Context) bool {
-	if len(n.Values) == 0 {
+	node, ok := n.Obj.Decl.(ast.Node)
+	if !ok {
 		return false
 	}
-	for _, value := range n.Values {
-		if !TryResolve(value, c) {
-			return false
-		}
+	if resolved, ok := r.declarations[node]; ok {
+		return resolved
 	}
-	return true
+	r.declarations[node] = false
+	r.declarations[node] = r.resolve(node)
+	return r.declarations[node]
 }
 
-func resolveAssign(n *ast.AssignStmt, c *Context) bool {
-	if len(n.Rhs) == 0 {
+func (r *resolver) resolveAll(nodes []ast.Expr) bool {
+	if len(nodes) == 0 {
 		return false
 	}
-	for _, arg := range n.Rhs {
-		if !TryResolve(arg, c) {
+	for _, node := range nodes {
+		if !r.resolve(node) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveCompLit(n *ast.CompositeLit, c *Context) bool {
-	if len(n.Elts) == 0 {
-		return false
-	}
-	for _, arg := range n.Elts {
-		if !TryResolve(arg, c) {
-			return false
-		}
-	}
-	return true
-}
-
-func resolveBinExpr(n *ast.BinaryExpr, c *Context) bool {
-	return (TryResolve(n.X, c) && TryResolve(n.Y, c))
-}
-
-func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
-	// TODO(tkelsey): next step, full function resolution
-	return false
-}
-
-// TryResolve will attempt, given a subtree starting at some AST node, to resolve
-// all values contained within to a known constant. It is used to check for any
-// unknown values in compound expressions.
-func TryResolve(n ast.Node, c *Context) bool {
+func (r *resolver) resolve(n ast.Node) bool {
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
 	case *ast.CompositeLit:
-		return resolveCompLit(node, c)
+		return r.resolveAll(node.Elts)
 	case *ast.Ident:
-		return resolveIdent(node, c)
+		return r.resolveIdent(node)
 	case *ast.ValueSpec:
-		return resolveValueSpec(node, c)
+		return r.resolveAll(node.Values)
 	case *ast.AssignStmt:
-		return resolveAssign(node, c)
+		return r.resolveAll(node.Rhs)
 	case *ast.CallExpr:
-		return resolveCallExpr(node, c)
+		// TODO(tkelsey): next step, full function resolution
+		return false
 	case *ast.BinaryExpr:
-		return resolveBinExpr(node, c)
+		return r.resolve(node.X) && r.resolve(node.Y)
 	}
 	return false
 }
+
+// TryResolve will attempt, given a subtree starting at some AST node, to resolve
+// all values contained within to a known constant. It is used to check for any
+// unknown values in compound expressions.
+func TryResolve(n ast.Node, _ *Context) bool {
+	r := &resolver{declarations: map[ast.Node]bool{}}
+	return r.resolve(n)
+}
-- 
2.43.0


From de4d107bdd1d716762176d25077de997f95e1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 49/86] fix: build no SSA representation of packages with type
 errors

---
 analyzer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 30cccc5..daba8fe 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -439,6 +439,13 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 
 // CheckAnalyzers runs analyzers on a given package.
 func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
+	// The SSA representation is defined for packages without type errors only. For others, building it can even
+	// exceed the stack, which cannot be handled.
+	if len(pkg.TypeErrors) > 0 {
+		gosec.logger.Printf("Skipping the analyzers of the package %q because of type errors", pkg.Name)
+		return
+	}
+
 	ssaResult, err := gosec.buildSSA(pkg)
 	if err != nil || ssaResult == nil {
 		gosec.logger.Printf("Error building the SSA representation of the package %q: %s", pkg.Name, err)
-- 
2.43.0


From 8dad61417572d0c181afaeb948daedb30f73a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 50/86] fix: consider every call of an assignment and every
 error result

---
 rules/errors.go | 58 +++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 2786426..5e2eda5 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -31,23 +31,32 @@ func (r *noErrorCheck) ID() string {
 	return r.MetaData.ID
 }
 
-func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) int {
-	if tv := ctx.Info.TypeOf(callExpr); tv != nil {
-		switch t := tv.(type) {
-		case *types.Tuple:
-			for pos := 0; pos < t.Len(); pos++ {
-				variable := t.At(pos)
-				if variable != nil && variable.Type().String() == "error" {
-					return pos
-				}
-			}
-		case *types.Named:
-			if t.String() == "error" {
-				return 0
+// returnsErrors gives the positions of the results of a call which are errors
+func returnsErrors(callExpr *ast.CallExpr, ctx *gosec.Context) []int {
+	positions := []int{}
+	switch t := ctx.Info.TypeOf(callExpr).(type) {
+	case nil:
+	case *types.Tuple:
+		for pos := 0; pos < t.Len(); pos++ {
+			if isError(t.At(pos).Type()) {
+				positions = append(positions, pos)
 			}
 		}
+	default:
+		if isError(t) {
+			positions = append(positions, 0)
+		}
 	}
-	return -1
+	return positions
+}
+
+func isError(t types.Type) bool {
+	return types.Identical(t, types.Universe.Lookup("error").Type())
+}
+
+func isBlank(expr ast.Expr) bool {
+	id, ok := ast.Unparen(expr).(*ast.Ident)
+	return ok && id.Name == "_"
 }
 
 func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
@@ -55,22 +64,25 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
-			for _, expr := range stmt.Rhs {
-				if callExpr, ok := expr.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(expr, ctx) == nil {
-					pos := returnsError(callExpr, ctx)
-					if pos < 0 || pos >= len(stmt.Lhs) {
-						return nil, nil
+			for i, expr := range stmt.Rhs {
+				callExpr, ok := ast.Unparen(expr).(*ast.CallExpr)
+				if !ok || r.whitelist.ContainsCallExpr(callExpr, ctx) != nil {
+					continue
+				}
+				for _, pos := range returnsErrors(callExpr, ctx) {
+					// only a single call can be assigned to several operands
+					if len(stmt.Rhs) > 1 {
+						pos = i
 					}
-					if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
+					if pos < len(stmt.Lhs) && isBlank(stmt.Lhs[pos]) {
 						return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 					}
 				}
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(stmt.X, ctx) == nil {
-			pos := returnsError(callExpr, ctx)
-			if pos >= 0 {
+		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
+			if len(returnsErrors(callExpr, ctx)) > 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
-- 
2.43.0


From b8f3c8264b00ce131022283ea095e7bc717a590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 51/86] fix: resolve the calls on the list of those whose
 errors may be ignored

---
 call_list.go    | 58 +++++++++++++++++++++++++++++++++++++++++++++++++
 rules/errors.go |  4 ++--
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/call_list.go b/call_list.go
index 26704b5..a519779 100644
--- a/call_list.go
+++ b/call_list.go
@@ -15,6 +15,7 @@ package gosec
 
 import (
 	"go/ast"
+	"go/types"
 	"strings"
 )
 
@@ -132,3 +133,60 @@ func (c CallList) ContainsCallExpr(n ast.Node, ctx *Context) *ast.CallExpr {
 
 	return n.(*ast.CallExpr)
 }
+
+// ContainsCall determines whether the function or method which is called exists within the
+// call list, whatever the name its package is imported under and the form of the receiver.
+func (c CallList) ContainsCall(call *ast.CallExpr, ctx *Context) bool {
+	fun := ast.Unparen(call.Fun)
+	switch inst := fun.(type) {
+	case *ast.IndexExpr:
+		fun = ast.Unparen(inst.X)
+	case *ast.IndexListExpr:
+		fun = ast.Unparen(inst.X)
+	}
+	var ident *ast.Ident
+	switch fn := fun.(type) {
+	case *ast.Ident:
+		ident = fn
+	case *ast.SelectorExpr:
+		if selection, ok := ctx.Info.Selections[fn]; ok {
+			return c.containsSelection(selection)
+		}
+		ident = fn.Sel
+	default:
+		return false
+	}
+	obj := ctx.Info.Uses[ident]
+	if obj == nil {
+		return c.ContainsCallExpr(call, ctx) != nil
+	}
+	pkg := obj.Pkg()
+	if pkg == nil || obj.Parent() != pkg.Scope() {
+		return false
+	}
+	return c.Contains(pkg.Name(), obj.Name()) || c.Contains(pkg.Path(), obj.Name())
+}
+
+// containsSelection looks up a method (or field) by the type it is selected from, and by those
+// of the embedded fields it is promoted from.
+func (c CallList) containsSelection(selection *types.Selection) bool {
+	name := selection.Obj().Name()
+	t := selection.Recv()
+	for _, index := range selection.Index() {
+		for _, recv := range []types.Type{t, types.Unalias(t)} {
+			if c.Contains(recv.String(), name) || c.ContainsPointer(recv.String(), name) {
+				return true
+			}
+		}
+		t = t.Underlying()
+		if ptr, ok := t.(*types.Pointer); ok {
+			t = ptr.Elem().Underlying()
+		}
+		st, ok := t.(*types.Struct)
+		if !ok || index >= st.NumFields() {
+			return false
+		}
+		t = st.Field(index).Type()
+	}
+	return false
+}
diff --git a/rules/errors.go b/rules/errors.go
index 5e2eda5..cb79fbb 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -66,7 +66,7 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
 			for i, expr := range stmt.Rhs {
 				callExpr, ok := ast.Unparen(expr).(*ast.CallExpr)
-				if !ok || r.whitelist.ContainsCallExpr(callExpr, ctx) != nil {
+				if !ok || r.whitelist.ContainsCall(callExpr, ctx) {
 					continue
 				}
 				for _, pos := range returnsErrors(callExpr, ctx) {
@@ -81,7 +81,7 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
+		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && !r.whitelist.ContainsCall(callExpr, ctx) {
 			if len(returnsErrors(callExpr, ctx)) > 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
-- 
2.43.0


From 8d0aad184216440ff2dbe967dbe89569889054d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:41 +0000
Subject: [PATCH 52/86] fix: resolve constants of any form and each variable by
 its own value

---
 resolve.go | 52 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/resolve.go b/resolve.go
index 91a89b4..6cce2a2 100644
--- a/resolve.go
+++ b/resolve.go
@@ -14,12 +14,16 @@
 
 package gosec
 
-import "go/ast"
+import (
+	"go/ast"
+	"go/types"
+)
 
 // resolver resolves nodes to known constants.
 type resolver struct {
+	info *types.Info
 	// verdicts about the declarations of variables. A declaration which depends on itself is not known.
-	declarations map[ast.Node]bool
+	declarations map[*ast.Object]bool
 }
 
 func (r *resolver) resolveIdent(n *ast.Ident) bool {
@@ -30,12 +34,36 @@ func (r *resolver) resolveIdent(n *ast.Ident) bool {
 	if !ok {
 		return false
 	}
-	if resolved, ok := r.declarations[node]; ok {
+	if resolved, ok := r.declarations[n.Obj]; ok {
 		return resolved
 	}
-	r.declarations[node] = false
-	r.declarations[node] = r.resolve(node)
-	return r.declarations[node]
+	r.declarations[n.Obj] = false
+	r.declarations[n.Obj] = r.resolve(declaredValue(n.Obj, node))
+	return r.declarations[n.Obj]
+}
+
+// declaredValue returns the value of a variable when its declaration gives one to each variable,
+// or else the whole declaration.
+func declaredValue(obj *ast.Object, decl ast.Node) ast.Node {
+	switch node := decl.(type) {
+	case *ast.ValueSpec:
+		if len(node.Names) == len(node.Values) {
+			for i, name := range node.Names {
+				if name.Obj == obj {
+					return node.Values[i]
+				}
+			}
+		}
+	case *ast.AssignStmt:
+		if len(node.Lhs) == len(node.Rhs) {
+			for i, expr := range node.Lhs {
+				if ident, ok := expr.(*ast.Ident); ok && ident.Obj == obj {
+					return node.Rhs[i]
+				}
+			}
+		}
+	}
+	return decl
 }
 
 func (r *resolver) resolveAll(nodes []ast.Expr) bool {
@@ -51,6 +79,9 @@ func (r *resolver) resolveAll(nodes []ast.Expr) bool {
 }
 
 func (r *resolver) resolve(n ast.Node) bool {
+	if expr, ok := n.(ast.Expr); ok && r.info != nil && r.info.Types[expr].Value != nil {
+		return true
+	}
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
@@ -67,6 +98,8 @@ func (r *resolver) resolve(n ast.Node) bool {
 		return false
 	case *ast.BinaryExpr:
 		return r.resolve(node.X) && r.resolve(node.Y)
+	case *ast.ParenExpr:
+		return r.resolve(node.X)
 	}
 	return false
 }
@@ -74,7 +107,10 @@ func (r *resolver) resolve(n ast.Node) bool {
 // TryResolve will attempt, given a subtree starting at some AST node, to resolve
 // all values contained within to a known constant. It is used to check for any
 // unknown values in compound expressions.
-func TryResolve(n ast.Node, _ *Context) bool {
-	r := &resolver{declarations: map[ast.Node]bool{}}
+func TryResolve(n ast.Node, ctx *Context) bool {
+	r := &resolver{declarations: map[*ast.Object]bool{}}
+	if ctx != nil {
+		r.info = ctx.Info
+	}
 	return r.resolve(n)
 }
-- 
2.43.0


From 89796e7a7b7a884c81864145eb1d575baaea7846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:43 +0000
Subject: [PATCH 53/86] fix: skip the context of commands whatever their
 package is imported as

---
 rules/subproc.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rules/subproc.go b/rules/subproc.go
index 1686319..8f46670 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -47,6 +47,7 @@ func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 			args = args[1:]
 		}
 		for _, arg := range args {
+			arg = ast.Unparen(arg)
 			if ident, ok := arg.(*ast.Ident); ok {
 				obj := c.Info.ObjectOf(ident)
 
@@ -99,12 +100,10 @@ func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 // isContext checks whether or not the node is a CommandContext call or not
 // This is required in order to skip the first argument from the check.
 func (r *subprocess) isContext(n ast.Node, ctx *gosec.Context) bool {
-	selector, indent, err := gosec.GetCallInfo(n, ctx)
-	if err != nil {
-		return false
-	}
-	if selector == "exec" && indent == "CommandContext" {
-		return true
+	for _, pkg := range []string{"os/exec", "golang.org/x/sys/execabs"} {
+		if _, ok := gosec.MatchCallByPackage(n, ctx, pkg, "CommandContext"); ok {
+			return true
+		}
 	}
 	return false
 }
-- 
2.43.0


From 742a7b05fdf28284287442df6faad55328188f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 54/86] fix: tell variables of the package from local ones of
 the same name

---
 rules/ssrf.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rules/ssrf.go b/rules/ssrf.go
index dbf0108..b20aae2 100644
--- a/rules/ssrf.go
+++ b/rules/ssrf.go
@@ -22,12 +22,11 @@ func (r *ssrf) ID() string {
 // The first argument is the url
 func (r *ssrf) ResolveVar(n *ast.CallExpr, c *gosec.Context) bool {
 	if len(n.Args) > 0 {
-		arg := n.Args[0]
+		arg := ast.Unparen(n.Args[0])
 		if ident, ok := arg.(*ast.Ident); ok {
 			obj := c.Info.ObjectOf(ident)
 			if _, ok := obj.(*types.Var); ok {
-				scope := c.Pkg.Scope()
-				if scope != nil && scope.Lookup(ident.Name) != nil {
+				if obj.Pkg() != nil && obj.Parent() == obj.Pkg().Scope() {
 					// a URL defined in a variable at package scope can be changed at any time
 					return true
 				}
-- 
2.43.0


From 305a17cbe1abd8c21d6f3d603c6fe2b016f66e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 55/86] fix: find the variables of concatenations in
 parentheses and on both sides

---
 helpers.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/helpers.go b/helpers.go
index 7592d14..6dd5cb7 100644
--- a/helpers.go
+++ b/helpers.go
@@ -466,22 +466,16 @@ func ConcatString(n *ast.BinaryExpr) (string, bool) {
 // FindVarIdentities returns array of all variable identities in a given binary expression
 func FindVarIdentities(n *ast.BinaryExpr, c *Context) ([]*ast.Ident, bool) {
 	identities := []*ast.Ident{}
-	// sub expressions are found in X object, Y object is always the last term
-	if rightOperand, ok := n.Y.(*ast.Ident); ok {
-		obj := c.Info.ObjectOf(rightOperand)
-		if _, ok := obj.(*types.Var); ok && !TryResolve(rightOperand, c) {
-			identities = append(identities, rightOperand)
-		}
-	}
-	if leftOperand, ok := n.X.(*ast.BinaryExpr); ok {
-		if leftIdentities, ok := FindVarIdentities(leftOperand, c); ok {
-			identities = append(identities, leftIdentities...)
-		}
-	} else {
-		if leftOperand, ok := n.X.(*ast.Ident); ok {
-			obj := c.Info.ObjectOf(leftOperand)
-			if _, ok := obj.(*types.Var); ok && !TryResolve(leftOperand, c) {
-				identities = append(identities, leftOperand)
+	for _, operand := range []ast.Expr{n.Y, n.X} {
+		switch node := ast.Unparen(operand).(type) {
+		case *ast.BinaryExpr:
+			if nested, ok := FindVarIdentities(node, c); ok {
+				identities = append(identities, nested...)
+			}
+		case *ast.Ident:
+			obj := c.Info.ObjectOf(node)
+			if _, ok := obj.(*types.Var); ok && !TryResolve(node, c) {
+				identities = append(identities, node)
 			}
 		}
 	}
-- 
2.43.0


From 3911b5041a69f12e239f191b1afa2b7ac74f44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 56/86] fix: report URLs concatenated with variables

---
 rules/ssrf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rules/ssrf.go b/rules/ssrf.go
index b20aae2..d9549af 100644
--- a/rules/ssrf.go
+++ b/rules/ssrf.go
@@ -35,6 +35,12 @@ func (r *ssrf) ResolveVar(n *ast.CallExpr, c *gosec.Context) bool {
 				}
 			}
 		}
+		// handles concatenation eg. http.Get("http://" + host)
+		if binExp, ok := arg.(*ast.BinaryExpr); ok {
+			if _, ok := gosec.FindVarIdentities(binExp, c); ok {
+				return true
+			}
+		}
 	}
 	return false
 }
-- 
2.43.0


From 18bc81fe10c90f999d00e7f99edf472639524fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:50 +0000
Subject: [PATCH 57/86] fix: look at the queries of all calls whatever their
 receiver and place

---
 rules/sql.go | 108 ++++++++++++++-------------------------------------
 1 file changed, 29 insertions(+), 79 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index 001b26b..f067518 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -15,8 +15,8 @@
 package rules
 
 import (
-	"fmt"
 	"go/ast"
+	"go/types"
 	"regexp"
 
 	"github.com/securego/gosec/v2"
@@ -25,7 +25,6 @@ import (
 
 type sqlStatement struct {
 	issue.MetaData
-	gosec.CallList
 
 	// Contains a list of patterns which must all match for the rule to match.
 	patterns []*regexp.Regexp
@@ -54,26 +53,29 @@ var sqlCallIdents = map[string]map[string]int{
 	},
 }
 
-// findQueryArg locates the argument taking raw SQL
-func findQueryArg(call *ast.CallExpr, ctx *gosec.Context) (ast.Expr, error) {
-	typeName, fnName, err := gosec.GetCallInfo(call, ctx)
-	if err != nil {
-		return nil, err
+// findQueryArg locates the argument taking raw SQL. It is nil when the call executes no SQL.
+func findQueryArg(call *ast.CallExpr, ctx *gosec.Context) ast.Expr {
+	selector, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr)
+	if !ok {
+		return nil
 	}
-	i := -1
-	if ni, ok := sqlCallIdents[typeName]; ok {
-		if i, ok = ni[fnName]; !ok {
-			i = -1
-		}
+	selection, ok := ctx.Info.Selections[selector]
+	if !ok || selection.Kind() != types.MethodVal {
+		return nil
+	}
+	fn, ok := selection.Obj().(*types.Func)
+	if !ok {
+		return nil
 	}
-	if i == -1 {
-		return nil, fmt.Errorf("SQL argument index not found for %s.%s", typeName, fnName)
+	receiver := fn.Type().(*types.Signature).Recv()
+	if receiver == nil {
+		return nil
 	}
-	if i >= len(call.Args) {
-		return nil, nil
+	i, ok := sqlCallIdents[receiver.Type().String()][fn.Name()]
+	if !ok || i >= len(call.Args) {
+		return nil
 	}
-	query := call.Args[i]
-	return query, nil
+	return call.Args[i]
 }
 
 func (s *sqlStatement) ID() string {
@@ -141,10 +143,7 @@ func (s *sqlStrConcat) checkObject(n *ast.Ident, c *gosec.Context) bool {
 
 // checkQuery verifies if the query parameters is a string concatenation
 func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
-	query, err := findQueryArg(call, ctx)
-	if err != nil {
-		return nil, err
-	}
+	query := findQueryArg(call, ctx)
 
 	if be, ok := query.(*ast.BinaryExpr); ok {
 		operands := gosec.GetBinaryExprOperands(be)
@@ -193,19 +192,9 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 
 // Checks SQL query concatenation issues such as "SELECT * FROM table WHERE " + " ' OR 1=1"
 func (s *sqlStrConcat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	switch stmt := n.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range stmt.Rhs {
-			if sqlQueryCall, ok := expr.(*ast.CallExpr); ok && s.ContainsCallExpr(expr, ctx) != nil {
-				return s.checkQuery(sqlQueryCall, ctx)
-			}
-		}
-	case *ast.ExprStmt:
-		if sqlQueryCall, ok := stmt.X.(*ast.CallExpr); ok && s.ContainsCallExpr(stmt.X, ctx) != nil {
-			return s.checkQuery(sqlQueryCall, ctx)
-		}
+	if call, ok := n.(*ast.CallExpr); ok {
+		return s.checkQuery(call, ctx)
 	}
-
 	return nil, nil
 }
 
@@ -222,20 +211,12 @@ func NewSQLStrConcat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 				Confidence: issue.High,
 				What:       "SQL string concatenation",
 			},
-			CallList: gosec.NewCallList(),
 		},
 	}
-
-	for s, si := range sqlCallIdents {
-		for i := range si {
-			rule.Add(s, i)
-		}
-	}
-	return rule, []ast.Node{(*ast.AssignStmt)(nil), (*ast.ExprStmt)(nil)}
+	return rule, []ast.Node{(*ast.CallExpr)(nil)}
 }
 
 type sqlStrFormat struct {
-	gosec.CallList
 	sqlStatement
 	fmtCalls      gosec.CallList
 	noIssue       gosec.CallList
@@ -263,10 +244,7 @@ func (s *sqlStrFormat) constObject(e ast.Expr, c *gosec.Context) bool {
 }
 
 func (s *sqlStrFormat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
-	query, err := findQueryArg(call, ctx)
-	if err != nil {
-		return nil, err
-	}
+	query := findQueryArg(call, ctx)
 
 	if ident, ok := query.(*ast.Ident); ok && ident.Obj != nil {
 		decl := ident.Obj.Decl
@@ -274,7 +252,7 @@ func (s *sqlStrFormat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 			for _, expr := range assign.Rhs {
 				issue := s.checkFormatting(expr, ctx)
 				if issue != nil {
-					return issue, err
+					return issue, nil
 				}
 			}
 		}
@@ -344,30 +322,8 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 
 // Check SQL query formatting issues such as "fmt.Sprintf("SELECT * FROM foo where '%s', userInput)"
 func (s *sqlStrFormat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	switch stmt := n.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range stmt.Rhs {
-			if call, ok := expr.(*ast.CallExpr); ok {
-				selector, ok := call.Fun.(*ast.SelectorExpr)
-				if !ok {
-					continue
-				}
-				sqlQueryCall, ok := selector.X.(*ast.CallExpr)
-				if ok && s.ContainsCallExpr(sqlQueryCall, ctx) != nil {
-					issue, err := s.checkQuery(sqlQueryCall, ctx)
-					if err == nil && issue != nil {
-						return issue, err
-					}
-				}
-			}
-			if sqlQueryCall, ok := expr.(*ast.CallExpr); ok && s.ContainsCallExpr(expr, ctx) != nil {
-				return s.checkQuery(sqlQueryCall, ctx)
-			}
-		}
-	case *ast.ExprStmt:
-		if sqlQueryCall, ok := stmt.X.(*ast.CallExpr); ok && s.ContainsCallExpr(stmt.X, ctx) != nil {
-			return s.checkQuery(sqlQueryCall, ctx)
-		}
+	if call, ok := n.(*ast.CallExpr); ok {
+		return s.checkQuery(call, ctx)
 	}
 	return nil, nil
 }
@@ -375,7 +331,6 @@ func (s *sqlStrFormat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 // NewSQLStrFormat looks for cases where we're building SQL query strings using format strings
 func NewSQLStrFormat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	rule := &sqlStrFormat{
-		CallList:      gosec.NewCallList(),
 		fmtCalls:      gosec.NewCallList(),
 		noIssue:       gosec.NewCallList(),
 		noIssueQuoted: gosec.NewCallList(),
@@ -392,14 +347,9 @@ func NewSQLStrFormat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 			},
 		},
 	}
-	for s, si := range sqlCallIdents {
-		for i := range si {
-			rule.Add(s, i)
-		}
-	}
 	rule.fmtCalls.AddAll("fmt", "Sprint", "Sprintf", "Sprintln", "Fprintf")
 	rule.noIssue.AddAll("os", "Stdout", "Stderr")
 	rule.noIssueQuoted.Add("github.com/lib/pq", "QuoteIdentifier")
 
-	return rule, []ast.Node{(*ast.AssignStmt)(nil), (*ast.ExprStmt)(nil)}
+	return rule, []ast.Node{(*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From aa431b8661a7b77f760a491ef315d4c89ec7b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 58/86] fix: tell the constant parts of concatenated queries by
 their values

---
 rules/sql.go | 142 +++++++++++++++++++++------------------------------
 1 file changed, 59 insertions(+), 83 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index f067518..16b341e 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -16,6 +16,7 @@ package rules
 
 import (
 	"go/ast"
+	"go/constant"
 	"go/types"
 	"regexp"
 
@@ -78,6 +79,57 @@ func findQueryArg(call *ast.CallExpr, ctx *gosec.Context) ast.Expr {
 	return call.Args[i]
 }
 
+// queryValues returns the query itself, or the values a variable is declared with.
+func queryValues(query ast.Expr) []ast.Expr {
+	values := []ast.Expr{query}
+	if ident, ok := ast.Unparen(query).(*ast.Ident); ok && ident.Obj != nil {
+		switch decl := ident.Obj.Decl.(type) {
+		case *ast.AssignStmt:
+			values = decl.Rhs
+			if len(decl.Lhs) == len(decl.Rhs) {
+				for i, lhs := range decl.Lhs {
+					if name, ok := lhs.(*ast.Ident); ok && name.Obj == ident.Obj {
+						values = decl.Rhs[i : i+1]
+					}
+				}
+			}
+		case *ast.ValueSpec:
+			values = decl.Values
+			if len(decl.Names) == len(decl.Values) {
+				for i, name := range decl.Names {
+					if name.Obj == ident.Obj {
+						values = decl.Values[i : i+1]
+					}
+				}
+			}
+		}
+	}
+	unparenthesized := make([]ast.Expr, 0, len(values))
+	for _, value := range values {
+		unparenthesized = append(unparenthesized, ast.Unparen(value))
+	}
+	return unparenthesized
+}
+
+// isConstant tells if an expression has a constant value.
+func isConstant(expr ast.Expr, ctx *gosec.Context) bool {
+	return ctx.Info.Types[expr].Value != nil
+}
+
+// constantText returns the constant parts of a string concatenation joined together.
+func constantText(expr ast.Expr, ctx *gosec.Context) string {
+	if value := ctx.Info.Types[expr].Value; value != nil {
+		if value.Kind() == constant.String {
+			return constant.StringVal(value)
+		}
+		return ""
+	}
+	if be, ok := ast.Unparen(expr).(*ast.BinaryExpr); ok {
+		return constantText(be.X, ctx) + constantText(be.Y, ctx)
+	}
+	return ""
+}
+
 func (s *sqlStatement) ID() string {
 	return s.MetaData.ID
 }
@@ -100,93 +152,17 @@ func (s *sqlStrConcat) ID() string {
 	return s.MetaData.ID
 }
 
-// findInjectionInBranch walks diwb a set if expressions, and will create new issues if it finds SQL injections
-// This method assumes you've already verified that the branch contains SQL syntax
-func (s *sqlStrConcat) findInjectionInBranch(ctx *gosec.Context, branch []ast.Expr) *ast.BinaryExpr {
-	for _, node := range branch {
-		be, ok := node.(*ast.BinaryExpr)
-		if !ok {
-			continue
-		}
-
-		operands := gosec.GetBinaryExprOperands(be)
-
-		for _, op := range operands {
-			if _, ok := op.(*ast.BasicLit); ok {
-				continue
-			}
-
-			if ident, ok := op.(*ast.Ident); ok && s.checkObject(ident, ctx) {
-				continue
-			}
-
-			return be
-		}
-	}
-	return nil
-}
-
-// see if we can figure out what it is
-func (s *sqlStrConcat) checkObject(n *ast.Ident, c *gosec.Context) bool {
-	if n.Obj != nil {
-		return n.Obj.Kind != ast.Var && n.Obj.Kind != ast.Fun
-	}
-
-	// Try to resolve unresolved identifiers using other files in same package
-	for _, file := range c.PkgFiles {
-		if node, ok := file.Scope.Objects[n.String()]; ok {
-			return node.Kind != ast.Var && node.Kind != ast.Fun
-		}
-	}
-	return false
-}
-
 // checkQuery verifies if the query parameters is a string concatenation
 func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
-	query := findQueryArg(call, ctx)
-
-	if be, ok := query.(*ast.BinaryExpr); ok {
-		operands := gosec.GetBinaryExprOperands(be)
-		if start, ok := operands[0].(*ast.BasicLit); ok {
-			if str, e := gosec.GetString(start); e == nil {
-				if !s.MatchPatterns(str) {
-					return nil, nil
-				}
-			}
-			for _, op := range operands[1:] {
-				if _, ok := op.(*ast.BasicLit); ok {
-					continue
-				}
-				if op, ok := op.(*ast.Ident); ok && s.checkObject(op, ctx) {
-					continue
-				}
-				return ctx.NewIssue(be, s.ID(), s.What, s.Severity, s.Confidence), nil
-			}
-		}
-	}
-
-	// Handle the case where an injection occurs as an infixed string concatenation, ie "SELECT * FROM foo WHERE name = '" + os.Args[0] + "' AND 1=1"
-	if id, ok := query.(*ast.Ident); ok {
-		var match bool
-		for _, str := range gosec.GetIdentStringValuesRecursive(id) {
-			if s.MatchPatterns(str) {
-				match = true
-				break
-			}
-		}
-
-		if !match {
-			return nil, nil
-		}
-
-		switch decl := id.Obj.Decl.(type) {
-		case *ast.AssignStmt:
-			if injection := s.findInjectionInBranch(ctx, decl.Rhs); injection != nil {
-				return ctx.NewIssue(injection, s.ID(), s.What, s.Severity, s.Confidence), nil
-			}
+	// The concatenation may also be the value the query variable is declared with, ie
+	// q := "SELECT * FROM foo WHERE name = '" + os.Args[0] + "' AND 1=1"
+	for _, query := range queryValues(findQueryArg(call, ctx)) {
+		be, ok := query.(*ast.BinaryExpr)
+		if !ok || isConstant(be, ctx) || !s.MatchPatterns(constantText(be, ctx)) {
+			continue
 		}
+		return ctx.NewIssue(be, s.ID(), s.What, s.Severity, s.Confidence), nil
 	}
-
 	return nil, nil
 }
 
-- 
2.43.0


From 143c0fd80ef1f2ece3c2752e941254667c855bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 59/86] fix: tell formats and formatted constants of queries by
 their values

---
 rules/sql.go | 48 +++++-------------------------------------------
 1 file changed, 5 insertions(+), 43 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index 16b341e..e29a5ff 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -199,41 +199,12 @@ type sqlStrFormat struct {
 	noIssueQuoted gosec.CallList
 }
 
-// see if we can figure out what it is
-func (s *sqlStrFormat) constObject(e ast.Expr, c *gosec.Context) bool {
-	n, ok := e.(*ast.Ident)
-	if !ok {
-		return false
-	}
-
-	if n.Obj != nil {
-		return n.Obj.Kind == ast.Con
-	}
-
-	// Try to resolve unresolved identifiers using other files in same package
-	for _, file := range c.PkgFiles {
-		if node, ok := file.Scope.Objects[n.String()]; ok {
-			return node.Kind == ast.Con
-		}
-	}
-	return false
-}
-
 func (s *sqlStrFormat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
-	query := findQueryArg(call, ctx)
-
-	if ident, ok := query.(*ast.Ident); ok && ident.Obj != nil {
-		decl := ident.Obj.Decl
-		if assign, ok := decl.(*ast.AssignStmt); ok {
-			for _, expr := range assign.Rhs {
-				issue := s.checkFormatting(expr, ctx)
-				if issue != nil {
-					return issue, nil
-				}
-			}
+	for _, expr := range queryValues(findQueryArg(call, ctx)) {
+		if issue := s.checkFormatting(expr, ctx); issue != nil {
+			return issue, nil
 		}
 	}
-
 	return nil, nil
 }
 
@@ -262,16 +233,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 			return nil
 		}
 
-		var formatter string
-
-		// concats callexpr arg strings together if needed before regex evaluation
-		if argExpr, ok := node.Args[argIndex].(*ast.BinaryExpr); ok {
-			if fullStr, ok := gosec.ConcatString(argExpr); ok {
-				formatter = fullStr
-			}
-		} else if arg, e := gosec.GetString(node.Args[argIndex]); e == nil {
-			formatter = arg
-		}
+		formatter := constantText(node.Args[argIndex], ctx)
 		if len(formatter) <= 0 {
 			return nil
 		}
@@ -280,7 +242,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		if argIndex+1 < len(node.Args) {
 			allSafe := true
 			for _, arg := range node.Args[argIndex+1:] {
-				if n := s.noIssueQuoted.ContainsPkgCallExpr(arg, ctx, true); n == nil && !s.constObject(arg, ctx) {
+				if n := s.noIssueQuoted.ContainsPkgCallExpr(arg, ctx, true); n == nil && !isConstant(arg, ctx) {
 					allSafe = false
 					break
 				}
-- 
2.43.0


From f4ac4d5a0502fb4556d80ec37117121ced72ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:35 +0000
Subject: [PATCH 60/86] fix: look at printed queries, and not at formats
 without variables

---
 rules/sql.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index e29a5ff..1048075 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -195,6 +195,7 @@ func NewSQLStrConcat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 type sqlStrFormat struct {
 	sqlStatement
 	fmtCalls      gosec.CallList
+	printCalls    gosec.CallList
 	noIssue       gosec.CallList
 	noIssueQuoted gosec.CallList
 }
@@ -239,18 +240,21 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		}
 
 		// If all formatter args are quoted or constant, then the SQL construction is safe
-		if argIndex+1 < len(node.Args) {
-			allSafe := true
-			for _, arg := range node.Args[argIndex+1:] {
-				if n := s.noIssueQuoted.ContainsPkgCallExpr(arg, ctx, true); n == nil && !isConstant(arg, ctx) {
-					allSafe = false
-					break
-				}
-			}
-			if allSafe {
-				return nil
+		allSafe := isConstant(node.Args[argIndex], ctx)
+		for _, arg := range node.Args[argIndex+1:] {
+			if n := s.noIssueQuoted.ContainsPkgCallExpr(arg, ctx, true); n == nil && !isConstant(arg, ctx) {
+				allSafe = false
+				break
 			}
 		}
+		if allSafe {
+			return nil
+		}
+
+		// Sprint and Sprintln have no format, they print all their args as with %v
+		if s.printCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
+			formatter += "%v"
+		}
 		if s.MatchPatterns(formatter) {
 			return ctx.NewIssue(n, s.ID(), s.What, s.Severity, s.Confidence)
 		}
@@ -270,6 +274,7 @@ func (s *sqlStrFormat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 func NewSQLStrFormat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	rule := &sqlStrFormat{
 		fmtCalls:      gosec.NewCallList(),
+		printCalls:    gosec.NewCallList(),
 		noIssue:       gosec.NewCallList(),
 		noIssueQuoted: gosec.NewCallList(),
 		sqlStatement: sqlStatement{
@@ -286,6 +291,7 @@ func NewSQLStrFormat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 		},
 	}
 	rule.fmtCalls.AddAll("fmt", "Sprint", "Sprintf", "Sprintln", "Fprintf")
+	rule.printCalls.AddAll("fmt", "Sprint", "Sprintln")
 	rule.noIssue.AddAll("os", "Stdout", "Stderr")
 	rule.noIssueQuoted.Add("github.com/lib/pq", "QuoteIdentifier")
 
-- 
2.43.0


From 611ad546d8d6748c6946457e20c0edb55ea62c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 61/86] fix: exempt only the variables whose own path is
 cleaned

---
 rules/readfile.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/rules/readfile.go b/rules/readfile.go
index da6b9c9..3135063 100644
--- a/rules/readfile.go
+++ b/rules/readfile.go
@@ -27,7 +27,7 @@ type readfile struct {
 	gosec.CallList
 	pathJoin   gosec.CallList
 	clean      gosec.CallList
-	cleanedVar map[any]ast.Node
+	cleanedVar map[*ast.Object]ast.Node
 }
 
 // ID returns the identifier for this rule
@@ -39,6 +39,7 @@ func (r *readfile) ID() string {
 func (r *readfile) isJoinFunc(n ast.Node, c *gosec.Context) bool {
 	if call := r.pathJoin.ContainsPkgCallExpr(n, c, false); call != nil {
 		for _, arg := range call.Args {
+			arg = ast.Unparen(arg)
 			// edge case: check if one of the args is a BinaryExpr
 			if binExp, ok := arg.(*ast.BinaryExpr); ok {
 				// iterate and resolve all found identities from the BinaryExpr
@@ -61,18 +62,37 @@ func (r *readfile) isJoinFunc(n ast.Node, c *gosec.Context) bool {
 
 // isFilepathClean checks if there is a filepath.Clean for given variable
 func (r *readfile) isFilepathClean(n *ast.Ident, c *gosec.Context) bool {
-	if _, ok := r.cleanedVar[n.Obj.Decl]; ok {
+	if _, ok := r.cleanedVar[n.Obj]; ok {
 		return true
 	}
 	if n.Obj.Kind != ast.Var {
 		return false
 	}
-	if node, ok := n.Obj.Decl.(*ast.AssignStmt); ok {
-		if call, ok := node.Rhs[0].(*ast.CallExpr); ok {
-			if clean := r.clean.ContainsPkgCallExpr(call, c, false); clean != nil {
-				return true
+	switch decl := n.Obj.Decl.(type) {
+	case *ast.AssignStmt:
+		// all the variables of the left side are assigned from one call unless both sides are of the same length
+		value := decl.Rhs[0]
+		if len(decl.Lhs) == len(decl.Rhs) {
+			for i, lhs := range decl.Lhs {
+				if ident, ok := lhs.(*ast.Ident); ok && ident.Obj == n.Obj {
+					value = decl.Rhs[i]
+				}
+			}
+		}
+		return r.clean.ContainsPkgCallExpr(ast.Unparen(value), c, false) != nil
+	case *ast.ValueSpec:
+		if len(decl.Values) == 0 {
+			return false
+		}
+		value := decl.Values[0]
+		if len(decl.Names) == len(decl.Values) {
+			for i, name := range decl.Names {
+				if name.Obj == n.Obj {
+					value = decl.Values[i]
+				}
 			}
 		}
+		return r.clean.ContainsPkgCallExpr(ast.Unparen(value), c, false) != nil
 	}
 	return false
 }
@@ -80,11 +100,11 @@ func (r *readfile) isFilepathClean(n *ast.Ident, c *gosec.Context) bool {
 // trackFilepathClean tracks back the declaration of variable from filepath.Clean argument
 func (r *readfile) trackFilepathClean(n ast.Node) {
 	if clean, ok := n.(*ast.CallExpr); ok && len(clean.Args) > 0 {
-		if ident, ok := clean.Args[0].(*ast.Ident); ok {
+		if ident, ok := ast.Unparen(clean.Args[0]).(*ast.Ident); ok {
 			// ident.Obj may be nil if the referenced declaration is in another file. It also may be incorrect.
 			// if it is nil, do not follow it.
 			if ident.Obj != nil {
-				r.cleanedVar[ident.Obj.Decl] = n
+				r.cleanedVar[ident.Obj] = n
 			}
 		}
 	}
@@ -97,6 +117,7 @@ func (r *readfile) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 		return nil, nil
 	} else if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
 		for _, arg := range node.Args {
+			arg = ast.Unparen(arg)
 			// handles path joining functions in Arg
 			// eg. os.Open(filepath.Join("/tmp/", file))
 			if callExpr, ok := arg.(*ast.CallExpr); ok {
@@ -137,7 +158,7 @@ func NewReadFile(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 			Severity:   issue.Medium,
 			Confidence: issue.High,
 		},
-		cleanedVar: map[any]ast.Node{},
+		cleanedVar: map[*ast.Object]ast.Node{},
 	}
 	rule.pathJoin.Add("path/filepath", "Join")
 	rule.pathJoin.Add("path", "Join")
-- 
2.43.0


From e2abf0e131382d8b1b8533b021a5df4ba15d6ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 62/86] fix: take only the path of a file call as the path

---
 rules/readfile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rules/readfile.go b/rules/readfile.go
index 3135063..858253c 100644
--- a/rules/readfile.go
+++ b/rules/readfile.go
@@ -116,7 +116,8 @@ func (r *readfile) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 		r.trackFilepathClean(n)
 		return nil, nil
 	} else if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
-		for _, arg := range node.Args {
+		// the path is the first argument
+		for _, arg := range node.Args[:min(1, len(node.Args))] {
 			arg = ast.Unparen(arg)
 			// handles path joining functions in Arg
 			// eg. os.Open(filepath.Join("/tmp/", file))
-- 
2.43.0


From 22e0149ad77dfe15e82d1d6c6793417c77a93fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 63/86] fix: match credentials with their own values, however
 the strings are split

---
 rules/hardcoded_credentials.go | 58 ++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c10d18b..b697920 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -233,23 +233,38 @@ func (r *credentials) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error
 	return nil, nil
 }
 
+// literalString returns the value of a string literal, or of several ones concatenated.
+func literalString(n ast.Expr) (string, error) {
+	expr := ast.Unparen(n)
+	if concat, ok := expr.(*ast.BinaryExpr); ok && concat.Op == token.ADD {
+		x, err := literalString(concat.X)
+		if err != nil {
+			return "", err
+		}
+		y, err := literalString(concat.Y)
+		if err != nil {
+			return "", err
+		}
+		return x + y, nil
+	}
+	return gosec.GetString(expr)
+}
+
 func (r *credentials) matchAssign(assign *ast.AssignStmt, ctx *gosec.Context) (*issue.Issue, error) {
-	for _, i := range assign.Lhs {
-		if ident, ok := i.(*ast.Ident); ok {
+	for index, i := range assign.Lhs {
+		if ident, ok := ast.Unparen(i).(*ast.Ident); ok {
 			// First check LHS to find anything being assigned to variables whose name appears to be a cred
-			if r.pattern.MatchString(ident.Name) {
-				for _, e := range assign.Rhs {
-					if val, err := gosec.GetString(e); err == nil {
-						if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
-							return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
-						}
+			if r.pattern.MatchString(ident.Name) && len(assign.Lhs) == len(assign.Rhs) {
+				if val, err := literalString(assign.Rhs[index]); err == nil {
+					if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
+						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
 					}
 				}
 			}
 
 			// Now that no names were matched, match the RHS to see if the actual values being assigned are creds
 			for _, e := range assign.Rhs {
-				val, err := gosec.GetString(e)
+				val, err := literalString(e)
 				if err != nil {
 					continue
 				}
@@ -274,7 +289,7 @@ func (r *credentials) matchValueSpec(valueSpec *ast.ValueSpec, ctx *gosec.Contex
 			if len(valueSpec.Values) <= index {
 				index = len(valueSpec.Values) - 1
 			}
-			if val, err := gosec.GetString(valueSpec.Values[index]); err == nil {
+			if val, err := literalString(valueSpec.Values[index]); err == nil {
 				if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
 					return ctx.NewIssue(valueSpec, r.ID(), r.What, r.Severity, r.Confidence), nil
 				}
@@ -284,7 +299,7 @@ func (r *credentials) matchValueSpec(valueSpec *ast.ValueSpec, ctx *gosec.Contex
 
 	// Now that no variable names have been matched, match the actual values to find any creds
 	for _, ident := range valueSpec.Values {
-		if val, err := gosec.GetString(ident); err == nil {
+		if val, err := literalString(ident); err == nil {
 			if r.ignoreEntropy || r.isHighEntropyString(val) {
 				if ok, patternName := r.isSecretPattern(val); ok {
 					return ctx.NewIssue(valueSpec, r.ID(), fmt.Sprintf("%s: %s", r.What, patternName), r.Severity, r.Confidence), nil
@@ -298,9 +313,9 @@ func (r *credentials) matchValueSpec(valueSpec *ast.ValueSpec, ctx *gosec.Contex
 
 func (r *credentials) matchEqualityCheck(binaryExpr *ast.BinaryExpr, ctx *gosec.Context) (*issue.Issue, error) {
 	if binaryExpr.Op == token.EQL || binaryExpr.Op == token.NEQ {
-		ident, ok := binaryExpr.X.(*ast.Ident)
+		ident, ok := ast.Unparen(binaryExpr.X).(*ast.Ident)
 		if !ok {
-			ident, _ = binaryExpr.Y.(*ast.Ident)
+			ident, _ = ast.Unparen(binaryExpr.Y).(*ast.Ident)
 		}
 
 		if ident != nil && r.pattern.MatchString(ident.Name) {
@@ -308,7 +323,7 @@ func (r *credentials) matchEqualityCheck(binaryExpr *ast.BinaryExpr, ctx *gosec.
 			if !ok {
 				valueNode = binaryExpr.X
 			}
-			if val, err := gosec.GetString(valueNode); err == nil {
+			if val, err := literalString(valueNode); err == nil {
 				if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
 					return ctx.NewIssue(binaryExpr, r.ID(), r.What, r.Severity, r.Confidence), nil
 				}
@@ -317,17 +332,14 @@ func (r *credentials) matchEqualityCheck(binaryExpr *ast.BinaryExpr, ctx *gosec.
 
 		// Now that the variable names have been checked, and no matches were found, make sure that
 		// either the left or right operands is a string literal so we can match the value.
-		identStrConst, ok := binaryExpr.X.(*ast.BasicLit)
-		if !ok {
-			identStrConst, ok = binaryExpr.Y.(*ast.BasicLit)
+		s, err := literalString(binaryExpr.X)
+		if err != nil {
+			s, err = literalString(binaryExpr.Y)
 		}
 
-		if ok && identStrConst.Kind == token.STRING {
-			s, _ := gosec.GetString(identStrConst)
-			if r.ignoreEntropy || r.isHighEntropyString(s) {
-				if ok, patternName := r.isSecretPattern(s); ok {
-					return ctx.NewIssue(binaryExpr, r.ID(), fmt.Sprintf("%s: %s", r.What, patternName), r.Severity, r.Confidence), nil
-				}
+		if err == nil && (r.ignoreEntropy || r.isHighEntropyString(s)) {
+			if ok, patternName := r.isSecretPattern(s); ok {
+				return ctx.NewIssue(binaryExpr, r.ID(), fmt.Sprintf("%s: %s", r.What, patternName), r.Severity, r.Confidence), nil
 			}
 		}
 	}
-- 
2.43.0


From 45c041893b7986f1b801fa5707062eb49daa6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 64/86] fix: ignore negative truncation lengths of credentials

---
 rules/hardcoded_credentials.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index b697920..41b6cd0 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -383,7 +383,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 		}
 		if configTruncate, ok := conf["truncate"]; ok {
 			if cfgTruncate, ok := configTruncate.(string); ok {
-				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil {
+				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil && parsedInt >= 0 {
 					truncateString = parsedInt
 				}
 			}
-- 
2.43.0


From f3d2fc4d5a93c00cc2748b6c4d53a35fe6d50465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 65/86] fix: recognise passwords in URLs with any letters

---
 rules/hardcoded_credentials.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index 41b6cd0..1d96c5d 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -143,7 +143,7 @@ var secretsPatterns = [...]secretPattern{
 	},
 	{
 		name:   "Password in URL",
-		regexp: regexp.MustCompile(`[a-zA-Z]{3,10}://[^/\\s:@]{3,20}:[^/\\s:@]{3,20}@.{1,100}["'\\s]`),
+		regexp: regexp.MustCompile(`[a-zA-Z]{3,10}://[^/\s:@]{3,20}:[^/\s:@]{3,20}@.{1,100}["'\s]`),
 	},
 	{
 		name:   "Slack Webhook",
-- 
2.43.0


From 611d120a67d9fe9948f5399d3592ae875e7d9f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:53 +0000
Subject: [PATCH 66/86] fix: survive an autofix candidate without content

---
 autofix/ai.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 3535f7e..5f77415 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -67,7 +67,7 @@ func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, promp
 		return "", errors.New("no autofix returned by gemini")
 	}
 
-	if len(resp.Candidates[0].Content.Parts) == 0 {
+	if resp.Candidates[0].Content == nil || len(resp.Candidates[0].Content.Parts) == 0 {
 		return "", errors.New("nothing found in the first autofix returned by gemini")
 	}
 
-- 
2.43.0


From 7afa35ce52c263f8a0165df76978d5c65be8a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 67/86] fix: report autofix answers that the client cannot read

---
 autofix/ai.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 5f77415..187586c 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -58,7 +58,13 @@ type genAIGenerativeModelWrapper struct {
 }
 
 // GenerateContent generates a response for the given prompt using gemini API.
-func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, prompt string) (string, error) {
+func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, prompt string) (autofix string, err error) {
+	// The client panics on answers which it does not expect
+	defer func() {
+		if r := recover(); r != nil {
+			autofix, err = "", fmt.Errorf("generating autofix: %v", r)
+		}
+	}()
 	resp, err := w.model.GenerateContent(ctx, genai.Text(prompt))
 	if err != nil {
 		return "", fmt.Errorf("generating autofix: %w", err)
-- 
2.43.0


From a4effb2ff26896c20479577a9507a7320d3278b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 68/86] fix: take the key of the AI provider from its flag

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 76da31f..d32832b 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -515,7 +515,7 @@ func main() {
 
 	// Call AI request to solve the issues
 	aiAPIKey := os.Getenv(aiAPIKeyEnv)
-	if aiAPIKeyEnv == "" {
+	if aiAPIKey == "" {
 		aiAPIKey = *flagAiAPIKey
 	}
 	if *flagAiAPIProvider != "" && aiAPIKey != "" {
-- 
2.43.0


From 83a898d97e04626b04e4976a881c117cb31ed40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 69/86] fix: tell the length and the capacity of slices apart

---
 analyzers/slice_bounds.go | 131 ++++++++++++++++++--------------------
 1 file changed, 63 insertions(+), 68 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 69f0412..2e1891c 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -17,6 +17,7 @@ package analyzers
 import (
 	"errors"
 	"fmt"
+	"go/constant"
 	"go/token"
 	"regexp"
 	"strconv"
@@ -75,10 +76,9 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 						if slice, ok := instr.(*ssa.Slice); ok {
 							if _, ok := slice.X.(*ssa.Alloc); ok {
 								if slice.Parent() != nil {
-									l, h := extractSliceBounds(slice)
-									newCap := computeSliceNewCap(l, h, sliceCap)
+									size := sliceSize{sliceCap, sliceCap}.cut(slice)
 									violations := []ssa.Instruction{}
-									trackSliceBounds(0, newCap, slice, &violations, ifs, seen)
+									trackSliceBounds(0, size, slice, &violations, ifs, seen)
 									for _, s := range violations {
 										switch s := s.(type) {
 										case *ssa.Slice:
@@ -173,11 +173,60 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	return nil, nil
 }
 
-// sliceVisit is a slice with a given capacity, of which either the uses are tracked or the bounds are checked.
+// sliceSize is the length and the capacity of a slice, or the most that they can be.
+type sliceSize struct {
+	length   int
+	capacity int
+}
+
+// cut returns the size of what a slice expression takes from a slice of this size.
+// A slice without length is there to be filled: it is judged by its capacity.
+func (s sliceSize) cut(slice *ssa.Slice) sliceSize {
+	low, _ := constInt(slice.Low)
+	size := sliceSize{s.length - low, s.capacity - low}
+	if limit, ok := constInt(slice.Max); ok {
+		size.capacity = limit - low
+	}
+	if high, ok := constInt(slice.High); ok && high > 0 {
+		size.length = high - low
+	} else if slice.High != nil {
+		size.length = size.capacity
+	}
+	return size
+}
+
+// allows tells if the constant bounds of a slice expression are inside of a slice of this size.
+func (s sliceSize) allows(slice *ssa.Slice) bool {
+	if limit, ok := constInt(slice.Max); ok && limit > s.capacity {
+		return false
+	}
+	if high, ok := constInt(slice.High); ok && high > s.capacity {
+		return false
+	}
+	low, _ := constInt(slice.Low)
+	if slice.High == nil {
+		return low <= s.length
+	}
+	return low <= s.capacity
+}
+
+// constInt returns the value of an integer constant.
+func constInt(value ssa.Value) (int, bool) {
+	c, ok := value.(*ssa.Const)
+	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
+		return 0, false
+	}
+	n, exact := constant.Int64Val(c.Value)
+	if !exact {
+		return 0, false
+	}
+	return int(n), true
+}
+
+// sliceVisit is a slice with a given size, the uses of which are tracked.
 type sliceVisit struct {
-	node     ssa.Node
-	sliceCap int
-	check    bool
+	node ssa.Value
+	size sliceSize
 }
 
 // sliceVisits tells at what depth the slices were visited.
@@ -192,8 +241,8 @@ func (v sliceVisits) again(visit sliceVisit, depth int) bool {
 	return false
 }
 
-func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, seen sliceVisits) {
-	if depth == maxDepth || seen.again(sliceVisit{slice, sliceCap, false}, depth) {
+func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, seen sliceVisits) {
+	if depth == maxDepth || seen.again(sliceVisit{slice, size}, depth) {
 		return
 	}
 	depth++
@@ -205,16 +254,12 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 		for _, refinstr := range *referrers {
 			switch refinstr := refinstr.(type) {
 			case *ssa.Slice:
-				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs, seen)
-				switch refinstr.X.(type) {
-				case *ssa.Alloc, *ssa.Parameter:
-					l, h := extractSliceBounds(refinstr)
-					newCap := computeSliceNewCap(l, h, sliceCap)
-					trackSliceBounds(depth, newCap, refinstr, violations, ifs, seen)
+				if !size.allows(refinstr) {
+					*violations = append(*violations, refinstr)
 				}
+				trackSliceBounds(depth, size.cut(refinstr), refinstr, violations, ifs, seen)
 			case *ssa.IndexAddr:
-				indexValue, err := extractIntValue(refinstr.Index.String())
-				if err == nil && !isSliceIndexInsideBounds(0, sliceCap, indexValue) {
+				if index, ok := constInt(refinstr.Index); ok && !isSliceIndexInsideBounds(0, size.length, index) {
 					*violations = append(*violations, refinstr)
 				}
 			case *ssa.Call:
@@ -230,7 +275,7 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
 						if len(fn.Params) > parPos && parPos > -1 {
 							param := fn.Params[parPos]
-							trackSliceBounds(depth, sliceCap, param, violations, ifs, seen)
+							trackSliceBounds(depth, size, param, violations, ifs, seen)
 						}
 					}
 				}
@@ -239,43 +284,6 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 	}
 }
 
-func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, seen sliceVisits) {
-	if depth == maxDepth || seen.again(sliceVisit{slice, sliceCap, true}, depth) {
-		return
-	}
-	depth++
-	if violations == nil {
-		violations = &[]ssa.Instruction{}
-	}
-	sliceLow, sliceHigh := extractSliceBounds(slice)
-	if !isSliceInsideBounds(0, sliceCap, sliceLow, sliceHigh) {
-		*violations = append(*violations, slice)
-	}
-	switch slice.X.(type) {
-	case *ssa.Alloc, *ssa.Parameter, *ssa.Slice:
-		l, h := extractSliceBounds(slice)
-		newCap := computeSliceNewCap(l, h, sliceCap)
-		trackSliceBounds(depth, newCap, slice, violations, ifs, seen)
-	}
-
-	references := slice.Referrers()
-	if references == nil {
-		return
-	}
-	for _, ref := range *references {
-		switch s := ref.(type) {
-		case *ssa.Slice:
-			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs, seen)
-			switch s.X.(type) {
-			case *ssa.Alloc, *ssa.Parameter:
-				l, h := extractSliceBounds(s)
-				newCap := computeSliceNewCap(l, h, sliceCap)
-				trackSliceBounds(depth, newCap, s, violations, ifs, seen)
-			}
-		}
-	}
-}
-
 func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
 	if builtInLen, ok := call.Call.Value.(*ssa.Builtin); ok {
 		if builtInLen.Name() == "len" {
@@ -297,19 +305,6 @@ func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
 	return nil, nil
 }
 
-func computeSliceNewCap(l, h, oldCap int) int {
-	if l == 0 && h == 0 {
-		return oldCap
-	}
-	if l > 0 && h == 0 {
-		return oldCap - l
-	}
-	if l == 0 && h > 0 {
-		return h
-	}
-	return h - l
-}
-
 func invBound(bound bound) bound {
 	switch bound {
 	case lowerUnbounded:
-- 
2.43.0


From 422a645a2cd641958c1651a57853275b025a832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 70/86] fix: follow slices through all arguments they are
 passed as

---
 analyzers/slice_bounds.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 2e1891c..15848b3 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -266,16 +266,13 @@ func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]
 				if ifref, cond := extractSliceIfLenCondition(refinstr); ifref != nil && cond != nil {
 					ifs[*ifref] = cond
 				} else {
-					parPos := -1
-					for pos, arg := range refinstr.Call.Args {
-						if a, ok := arg.(*ssa.Slice); ok && a == slice {
-							parPos = pos
-						}
+					fn, ok := refinstr.Call.Value.(*ssa.Function)
+					if !ok {
+						continue
 					}
-					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
-						if len(fn.Params) > parPos && parPos > -1 {
-							param := fn.Params[parPos]
-							trackSliceBounds(depth, size, param, violations, ifs, seen)
+					for pos, arg := range refinstr.Call.Args {
+						if arg == slice && pos < len(fn.Params) {
+							trackSliceBounds(depth, size, fn.Params[pos], violations, ifs, seen)
 						}
 					}
 				}
-- 
2.43.0


From 15a39b0897ea8fb9d6270c698018664246a3d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 71/86] fix: take a comparison of the length of a slice for
 what it implies, wherever it holds

---
 analyzers/slice_bounds.go | 283 +++++++++++++++++---------------------
 1 file changed, 129 insertions(+), 154 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 15848b3..7f1ef7b 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -16,7 +16,6 @@ package analyzers
 
 import (
 	"errors"
-	"fmt"
 	"go/constant"
 	"go/token"
 	"regexp"
@@ -30,15 +29,6 @@ import (
 	"github.com/securego/gosec/v2/issue"
 )
 
-type bound int
-
-const (
-	lowerUnbounded bound = iota
-	upperUnbounded
-	unbounded
-	upperBounded
-)
-
 const maxDepth = 20
 
 func newSliceBoundsAnalyzer(id string, description string) *analysis.Analyzer {
@@ -57,7 +47,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	}
 
 	issues := map[ssa.Instruction]*issue.Issue{}
-	ifs := map[ssa.If]*ssa.BinOp{}
+	guards := sliceGuards{}
 	seen := sliceVisits{}
 	for _, mcall := range ssaResult.SSA.SrcFuncs {
 		for _, block := range mcall.DomPreorder() {
@@ -78,7 +68,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 								if slice.Parent() != nil {
 									size := sliceSize{sliceCap, sliceCap}.cut(slice)
 									violations := []ssa.Instruction{}
-									trackSliceBounds(0, size, slice, &violations, ifs, seen)
+									trackSliceBounds(0, size, slice, &violations, guards, seen)
 									for _, s := range violations {
 										switch s := s.(type) {
 										case *ssa.Slice:
@@ -110,56 +100,9 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 		}
 	}
 
-	for ifref, binop := range ifs {
-		bound, value, err := extractBinOpBound(binop)
-		if err != nil {
-			continue
-		}
-		for i, block := range ifref.Block().Succs {
-			if i == 1 {
-				bound = invBound(bound)
-			}
-			processed := map[*ssa.BasicBlock]int{}
-			var processBlock func(block *ssa.BasicBlock, depth int)
-			processBlock = func(block *ssa.BasicBlock, depth int) {
-				if before, ok := processed[block]; depth == maxDepth || ok && before <= depth {
-					return
-				}
-				processed[block] = depth
-				depth++
-				for _, instr := range block.Instrs {
-					if _, ok := issues[instr]; ok {
-						switch bound {
-						case lowerUnbounded:
-							break
-						case upperUnbounded, unbounded:
-							delete(issues, instr)
-						case upperBounded:
-							switch tinstr := instr.(type) {
-							case *ssa.Slice:
-								lower, upper := extractSliceBounds(tinstr)
-								if isSliceInsideBounds(0, value, lower, upper) {
-									delete(issues, instr)
-								}
-							case *ssa.IndexAddr:
-								indexValue, err := extractIntValue(tinstr.Index.String())
-								if err != nil {
-									break
-								}
-								if isSliceIndexInsideBounds(0, value, indexValue) {
-									delete(issues, instr)
-								}
-							}
-						}
-					} else if nestedIfInstr, ok := instr.(*ssa.If); ok {
-						for _, nestedBlock := range nestedIfInstr.Block().Succs {
-							processBlock(nestedBlock, depth)
-						}
-					}
-				}
-			}
-
-			processBlock(block, 0)
+	for instr := range issues {
+		if guards.protect(instr) {
+			delete(issues, instr)
 		}
 	}
 
@@ -241,7 +184,7 @@ func (v sliceVisits) again(visit sliceVisit, depth int) bool {
 	return false
 }
 
-func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, seen sliceVisits) {
+func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]ssa.Instruction, guards sliceGuards, seen sliceVisits) {
 	if depth == maxDepth || seen.again(sliceVisit{slice, size}, depth) {
 		return
 	}
@@ -257,14 +200,16 @@ func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]
 				if !size.allows(refinstr) {
 					*violations = append(*violations, refinstr)
 				}
-				trackSliceBounds(depth, size.cut(refinstr), refinstr, violations, ifs, seen)
+				trackSliceBounds(depth, size.cut(refinstr), refinstr, violations, guards, seen)
 			case *ssa.IndexAddr:
 				if index, ok := constInt(refinstr.Index); ok && !isSliceIndexInsideBounds(0, size.length, index) {
 					*violations = append(*violations, refinstr)
 				}
 			case *ssa.Call:
-				if ifref, cond := extractSliceIfLenCondition(refinstr); ifref != nil && cond != nil {
-					ifs[*ifref] = cond
+				if builtin, ok := refinstr.Call.Value.(*ssa.Builtin); ok {
+					if builtin.Name() == "len" {
+						guards.add(slice, refinstr)
+					}
 				} else {
 					fn, ok := refinstr.Call.Value.(*ssa.Function)
 					if !ok {
@@ -272,7 +217,7 @@ func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]
 					}
 					for pos, arg := range refinstr.Call.Args {
 						if arg == slice && pos < len(fn.Params) {
-							trackSliceBounds(depth, size, fn.Params[pos], violations, ifs, seen)
+							trackSliceBounds(depth, size, fn.Params[pos], violations, guards, seen)
 						}
 					}
 				}
@@ -281,117 +226,147 @@ func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]
 	}
 }
 
-func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
-	if builtInLen, ok := call.Call.Value.(*ssa.Builtin); ok {
-		if builtInLen.Name() == "len" {
-			refs := call.Referrers()
-			if refs != nil {
-				for _, ref := range *refs {
-					if binop, ok := ref.(*ssa.BinOp); ok {
-						binoprefs := binop.Referrers()
-						for _, ref := range *binoprefs {
-							if ifref, ok := ref.(*ssa.If); ok {
-								return ifref, binop
-							}
-						}
-					}
+// sliceGuards are the comparisons of the lengths of slices, by the branches which they decide.
+type sliceGuards map[ssa.Value]map[*ssa.If]*ssa.BinOp
+
+// add records the comparisons of the length of a slice.
+func (g sliceGuards) add(slice ssa.Value, length *ssa.Call) {
+	refs := length.Referrers()
+	if refs == nil {
+		return
+	}
+	for _, ref := range *refs {
+		cond, ok := ref.(*ssa.BinOp)
+		if !ok || cond.Referrers() == nil {
+			continue
+		}
+		for _, ref := range *cond.Referrers() {
+			if ifref, ok := ref.(*ssa.If); ok {
+				if g[slice] == nil {
+					g[slice] = map[*ssa.If]*ssa.BinOp{}
 				}
+				g[slice][ifref] = cond
 			}
 		}
 	}
-	return nil, nil
 }
 
-func invBound(bound bound) bound {
-	switch bound {
-	case lowerUnbounded:
-		return upperUnbounded
-	case upperUnbounded:
-		return lowerUnbounded
-	case upperBounded:
-		return unbounded
-	case unbounded:
-		return upperBounded
-	default:
-		return unbounded
+// protect tells if an access to a slice is only reached when the slice is long enough.
+func (g sliceGuards) protect(instr ssa.Instruction) bool {
+	switch instr := instr.(type) {
+	case *ssa.IndexAddr:
+		index, ok := constInt(instr.Index)
+		return ok && index < g.leastLength(instr.X, instr.Block())
+	case *ssa.Slice:
+		least := g.leastLength(instr.X, instr.Block())
+		return sliceSize{least, least}.allows(instr)
 	}
+	return false
 }
 
-func extractBinOpBound(binop *ssa.BinOp) (bound, int, error) {
-	if binop.X != nil {
-		if x, ok := binop.X.(*ssa.Const); ok {
-			value, err := strconv.Atoi(x.Value.String())
-			if err != nil {
-				return lowerUnbounded, value, err
-			}
-			switch binop.Op {
-			case token.LSS, token.LEQ:
-				return upperUnbounded, value, nil
-			case token.GTR, token.GEQ:
-				return lowerUnbounded, value, nil
-			case token.EQL:
-				return upperBounded, value, nil
-			case token.NEQ:
-				return unbounded, value, nil
+// leastLength returns the length which a slice is known to have at least in a block.
+func (g sliceGuards) leastLength(slice ssa.Value, block *ssa.BasicBlock) int {
+	least := 0
+	for ifref, cond := range g[slice] {
+		for i := range ifref.Block().Succs {
+			if onlyReachedBy(ifref.Block(), i, block) {
+				least = max(least, impliedLength(cond, i == 0))
 			}
 		}
 	}
-	if binop.Y != nil {
-		if y, ok := binop.Y.(*ssa.Const); ok {
-			value, err := strconv.Atoi(y.Value.String())
-			if err != nil {
-				return lowerUnbounded, value, err
-			}
-			switch binop.Op {
-			case token.LSS, token.LEQ:
-				return lowerUnbounded, value, nil
-			case token.GTR, token.GEQ:
-				return upperUnbounded, value, nil
-			case token.EQL:
-				return upperBounded, value, nil
-			case token.NEQ:
-				return unbounded, value, nil
-			}
+	if cut, ok := slice.(*ssa.Slice); ok && cut.High == nil && cut.Max == nil {
+		if low, ok := constInt(cut.Low); ok || cut.Low == nil {
+			least = max(least, g.leastLength(cut.X, block)-low)
 		}
 	}
-	return lowerUnbounded, 0, fmt.Errorf("unable to extract constant from binop")
-}
-
-func isSliceIndexInsideBounds(l, h int, index int) bool {
-	return (l <= index && index < h)
-}
-
-func isSliceInsideBounds(l, h int, cl, ch int) bool {
-	return (l <= cl && h >= ch) && (l <= ch && h >= cl)
+	return least
 }
 
-func extractSliceBounds(slice *ssa.Slice) (int, int) {
-	var low int
-	if slice.Low != nil {
-		l, err := extractIntValue(slice.Low.String())
-		if err == nil {
-			low = l
+// impliedLength returns the least length when its comparison with a constant holds, or does not.
+func impliedLength(cond *ssa.BinOp, holds bool) int {
+	op := cond.Op
+	value, ok := constInt(cond.Y)
+	if !ok {
+		if value, ok = constInt(cond.X); !ok {
+			return 0
+		}
+		switch op {
+		case token.LSS:
+			op = token.GTR
+		case token.LEQ:
+			op = token.GEQ
+		case token.GTR:
+			op = token.LSS
+		case token.GEQ:
+			op = token.LEQ
 		}
 	}
-	var high int
-	if slice.High != nil {
-		h, err := extractIntValue(slice.High.String())
-		if err == nil {
-			high = h
+	if !holds {
+		switch op {
+		case token.LSS:
+			op = token.GEQ
+		case token.LEQ:
+			op = token.GTR
+		case token.EQL:
+			op = token.NEQ
+		case token.NEQ:
+			op = token.EQL
+		default:
+			return 0
 		}
 	}
-	return low, high
+	switch {
+	case op == token.GTR:
+		return value + 1
+	case op == token.GEQ, op == token.EQL:
+		return value
+	case op == token.NEQ && value == 0:
+		return 1
+	}
+	return 0
 }
 
-func extractIntValue(value string) (int, error) {
-	parts := strings.Split(value, ":")
-	if len(parts) != 2 {
-		return 0, fmt.Errorf("invalid value: %s", value)
+// onlyReachedBy tells if the program comes to a block only by a branch of another one.
+func onlyReachedBy(from *ssa.BasicBlock, branch int, block *ssa.BasicBlock) bool {
+	entry := block.Parent().Blocks[0]
+	reached := map[*ssa.BasicBlock]bool{entry: true}
+	for todo := []*ssa.BasicBlock{entry}; len(todo) > 0; {
+		last := todo[len(todo)-1]
+		todo = todo[:len(todo)-1]
+		if last == block {
+			return false
+		}
+		if neverReturns(last) {
+			continue
+		}
+		for i, succ := range last.Succs {
+			if !reached[succ] && (last != from || i != branch) {
+				reached[succ] = true
+				todo = append(todo, succ)
+			}
+		}
 	}
-	if parts[1] != "int" {
-		return 0, fmt.Errorf("invalid value: %s", value)
+	return true
+}
+
+// neverReturns tells if a block ends the program.
+func neverReturns(block *ssa.BasicBlock) bool {
+	for _, instr := range block.Instrs {
+		if call, ok := instr.(*ssa.Call); ok {
+			if fn := call.Call.StaticCallee(); fn != nil {
+				switch name := fn.String(); {
+				case name == "os.Exit", name == "runtime.Goexit", strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "log.Panic"),
+					strings.HasPrefix(name, "(*log.Logger).Fatal"), strings.HasPrefix(name, "(*log.Logger).Panic"):
+					return true
+				}
+			}
+		}
 	}
-	return strconv.Atoi(parts[0])
+	return false
+}
+
+func isSliceIndexInsideBounds(l, h int, index int) bool {
+	return (l <= index && index < h)
 }
 
 func extractSliceCapFromAlloc(instr string) (int, error) {
-- 
2.43.0


From 9bfd1c930ba46e3f096d24336c042009fa071185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:57 +0000
Subject: [PATCH 72/86] fix: do not cut the slices of recursive functions
 without end

---
 analyzers/slice_bounds.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 7f1ef7b..83d8581 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -212,7 +212,8 @@ func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]
 					}
 				} else {
 					fn, ok := refinstr.Call.Value.(*ssa.Function)
-					if !ok {
+					// how often a function calls itself is not known
+					if !ok || fn == refinstr.Parent() {
 						continue
 					}
 					for pos, arg := range refinstr.Call.Args {
-- 
2.43.0


From 7b230a8ff314bef6cbc546a24224f6b9f8b1063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 73/86] fix: take the value of a variable alone when several
 are declared at once

---
 helpers.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/helpers.go b/helpers.go
index 6dd5cb7..cdab425 100644
--- a/helpers.go
+++ b/helpers.go
@@ -299,17 +299,9 @@ func getIdentStringValues(ident *ast.Ident, stringFinder func(ast.Node) (string,
 	values := []string{}
 	obj := ident.Obj
 	if obj != nil {
-		switch decl := obj.Decl.(type) {
-		case *ast.ValueSpec:
-			for _, v := range decl.Values {
-				value, err := stringFinder(v)
-				if err == nil {
-					values = append(values, value)
-				}
-			}
-		case *ast.AssignStmt:
-			for _, v := range decl.Rhs {
-				value, err := stringFinder(v)
+		if decl, ok := obj.Decl.(ast.Node); ok {
+			if v, ok := declaredValue(obj, decl).(ast.Expr); ok {
+				value, err := stringFinder(ast.Unparen(v))
 				if err == nil {
 					values = append(values, value)
 				}
-- 
2.43.0


From e0162950fcae44b830c898b45b545ed1feb25cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:55 +0000
Subject: [PATCH 74/86] fix: recognise the addresses of all network interfaces
 exactly

---
 rules/bind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/bind.go b/rules/bind.go
index fef760c..11c8252 100644
--- a/rules/bind.go
+++ b/rules/bind.go
@@ -39,7 +39,7 @@ func (r *bindsToAllNetworkInterfaces) Match(n ast.Node, c *gosec.Context) (*issu
 		return nil, nil
 	}
 	if len(callExpr.Args) > 1 {
-		arg := callExpr.Args[1]
+		arg := ast.Unparen(callExpr.Args[1])
 		if bl, ok := arg.(*ast.BasicLit); ok {
 			if arg, err := gosec.GetString(bl); err == nil {
 				if r.pattern.MatchString(arg) {
@@ -73,7 +73,7 @@ func NewBindsToAllNetworkInterfaces(id string, _ gosec.Config) (gosec.Rule, []as
 	calls.Add("crypto/tls", "Listen")
 	return &bindsToAllNetworkInterfaces{
 		calls:   calls,
-		pattern: regexp.MustCompile(`^(0.0.0.0|:).*$`),
+		pattern: regexp.MustCompile(`^(0\.0\.0\.0|\[::\]|:).*$`),
 		MetaData: issue.MetaData{
 			ID:         id,
 			Severity:   issue.Medium,
-- 
2.43.0


From 31277eba09e48bce4ee8ab64162590535e6db50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:57 +0000
Subject: [PATCH 75/86] fix: recognise readers of compressed data wherever they
 are opened

---
 rules/decompression-bomb.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 44f567d..a96a3a6 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -37,9 +37,15 @@ func containsReaderCall(node ast.Node, ctx *gosec.Context, list gosec.CallList)
 	if list.ContainsPkgCallExpr(node, ctx, false) != nil {
 		return true
 	}
-	// Resolve type info of ident (for *archive/zip.File.Open)
-	s, idt, _ := gosec.GetCallInfo(node, ctx)
-	return list.Contains(s, idt)
+	// Resolve type info of the receiver (for *archive/zip.File.Open)
+	if call, ok := node.(*ast.CallExpr); ok {
+		if selector, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr); ok {
+			if receiver := ctx.Info.TypeOf(selector.X); receiver != nil {
+				return list.Contains(receiver.String(), selector.Sel.Name)
+			}
+		}
+	}
+	return false
 }
 
 func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
@@ -69,7 +75,12 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 		})
 	case *ast.CallExpr:
 		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
-			if idt, ok := ast.Unparen(n.Args[1]).(*ast.Ident); ok {
+			source := ast.Unparen(n.Args[1])
+			if containsReaderCall(source, ctx, d.readerCalls) {
+				// Detect io.Copy(x, flate.NewReader(y))
+				return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
+			}
+			if idt, ok := source.(*ast.Ident); ok {
 				if _, ok := readerVarObj[ctx.Info.ObjectOf(idt)]; ok {
 					// Detect io.Copy(x, r)
 					return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
-- 
2.43.0


From d7fce419076d5639576ea5eb07fb03714b9836e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 76/86] fix: look for shared temporary directories inside
 parentheses

---
 rules/tempfiles.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 29f5bab..3bfc0f4 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -35,6 +35,9 @@ func (t *badTempFile) ID() string {
 }
 
 func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.Node) *issue.Issue {
+	if expr, ok := suspect.(ast.Expr); ok {
+		suspect = ast.Unparen(expr)
+	}
 	if s, e := gosec.GetString(suspect); e == nil {
 		if t.args.MatchString(s) {
 			return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence)
-- 
2.43.0


From 9bcff2757f2747c8c0ba8e773ccefaed6b8e6cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:01 +0000
Subject: [PATCH 77/86] fix: judge the name of an archive member by the value
 of its own variable

---
 rules/archive.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rules/archive.go b/rules/archive.go
index 9870474..e093c4e 100644
--- a/rules/archive.go
+++ b/rules/archive.go
@@ -23,15 +23,17 @@ func (a *archive) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := a.calls.ContainsPkgCallExpr(n, c, false); node != nil {
 		for _, arg := range node.Args {
 			var argType types.Type
+			arg = ast.Unparen(arg)
 			if selector, ok := arg.(*ast.SelectorExpr); ok {
 				argType = c.Info.TypeOf(selector.X)
 			} else if ident, ok := arg.(*ast.Ident); ok {
 				if ident.Obj != nil && ident.Obj.Kind == ast.Var {
-					decl := ident.Obj.Decl
-					if assign, ok := decl.(*ast.AssignStmt); ok {
-						if selector, ok := assign.Rhs[0].(*ast.SelectorExpr); ok {
-							argType = c.Info.TypeOf(selector.X)
-						}
+					if decl, ok := ident.Obj.Decl.(ast.Node); ok {
+						eachAssignment(decl, func(name *ast.Ident, value ast.Expr) {
+							if selector, ok := value.(*ast.SelectorExpr); ok && name.Obj == ident.Obj {
+								argType = c.Info.TypeOf(selector.X)
+							}
+						})
 					}
 				}
 			}
-- 
2.43.0


From c2db37d2eced633ed41a00058a12b9d19b686549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 78/86] fix: recognise the root directory of a file server
 however it is written

---
 rules/directory-traversal.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 47bcb2d..2eb1a8f 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -2,7 +2,9 @@ package rules
 
 import (
 	"go/ast"
+	"go/types"
 	"regexp"
+	"strconv"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -27,10 +29,19 @@ func (r *traversal) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error)
 
 func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
 	for _, i := range assign.Args {
-		if basiclit, ok1 := i.(*ast.BasicLit); ok1 {
+		if basiclit, ok1 := ast.Unparen(i).(*ast.BasicLit); ok1 {
+			value := basiclit.Value
+			if text, err := gosec.GetString(basiclit); err == nil {
+				value = strconv.Quote(text)
+			}
 			if fun, ok2 := assign.Fun.(*ast.SelectorExpr); ok2 {
 				if x, ok3 := fun.X.(*ast.Ident); ok3 {
-					str := x.Name + "." + fun.Sel.Name + "(" + basiclit.Value + ")"
+					name := x.Name
+					// a package can be imported under another name
+					if pkg, ok := ctx.Info.ObjectOf(x).(*types.PkgName); ok {
+						name = pkg.Imported().Name()
+					}
+					str := name + "." + fun.Sel.Name + "(" + value + ")"
 					if r.pattern.MatchString(str) {
 						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
 					}
-- 
2.43.0


From 34c99b05db1ad336e9c4ef9a6aa239ca4ec6940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:05 +0000
Subject: [PATCH 79/86] fix: see the address of a loop variable inside
 parentheses

---
 rules/implicit_aliasing.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index ee2358c..0fc4632 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -41,6 +41,8 @@ func doGetIdentExpr(expr ast.Expr, hasSelector bool) (*ast.Ident, bool) {
 		return doGetIdentExpr(node.X, true)
 	case *ast.UnaryExpr:
 		return doGetIdentExpr(node.X, hasSelector)
+	case *ast.ParenExpr:
+		return doGetIdentExpr(node.X, hasSelector)
 	default:
 		return nil, false
 	}
-- 
2.43.0


From f04a9854289309256ca69e82839f3f222c40c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 80/86] fix: do not take another variable for the one a range
 assigns to

---
 rules/implicit_aliasing.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index 0fc4632..885265a 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -66,7 +66,8 @@ func (r *implicitAliasing) Match(n ast.Node, c *gosec.Context) (*issue.Issue, er
 						return nil, nil
 					}
 
-					if object, ok := assignment.Lhs[1].(*ast.Ident); ok {
+					// the range can assign to a variable which is declared elsewhere, together with others
+					if object, ok := assignment.Lhs[1].(*ast.Ident); ok && object.Obj == key.Obj {
 						r.aliases[object.Obj] = struct{}{}
 
 						if r.rightBrace < node.Body.Rbrace {
-- 
2.43.0


From 5ed69182a9ead9771e0eb78c53d033c7be46d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:52 +0000
Subject: [PATCH 81/86] fix: report fixed nonces where they are passed as such
 only

---
 analyzers/hardcoded_nonce.go | 54 +++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 8d2544d..4939c3c 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -18,7 +18,6 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -197,15 +196,15 @@ func iterateThroughReferrers(variable ssa.Value, funcsToTrack map[string][]int,
 		return gosecIssues, nil
 	}
 	// Go through all functions that use the given arg variable
+	reported := map[ssa.Instruction]bool{}
 	for _, ref := range *refs {
+		if reported[ref] {
+			continue
+		}
 		// Iterate through the functions we are interested
-		for trackedFunc := range funcsToTrack {
-
-			// Split the functions we are interested in, by the '.' because we will use the function name to do the comparison
-			// MIGHT GIVE SOME FALSE POSITIVES THIS WAY
-			trackedFuncParts := strings.Split(trackedFunc, ".")
-			trackedFuncPartsName := trackedFuncParts[len(trackedFuncParts)-1]
-			if strings.Contains(ref.String(), trackedFuncPartsName) {
+		for trackedFunc, trackedFuncArgsInfo := range funcsToTrack {
+			if trackedArg(ref, trackedFunc, trackedFuncArgsInfo) == variable {
+				reported[ref] = true
 				gosecIssues = append(gosecIssues, newIssue(analyzerID, issueDescription, fileSet, ref.Pos(), issue.High, issueConfidence))
 			}
 		}
@@ -256,24 +255,29 @@ func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[strin
 }
 
 func iterateTrackedFunctionsAndAddArgs(funcBlocInstr ssa.Instruction, trackedFunc map[string][]int, values map[string]*ssa.Value) {
-	if funcCall, ok := (funcBlocInstr).(*ssa.Call); ok {
-		for trackedFuncName, trackedFuncArgsInfo := range trackedFunc {
-			// only process functions that have the same number of arguments as the ones we track
-			if len(funcCall.Call.Args) == trackedFuncArgsInfo[0] {
-				tmpArg := funcCall.Call.Args[trackedFuncArgsInfo[1]]
-				// check if the function is called from an object or directly from the package
-				if funcCall.Call.Method != nil {
-					if methodFullname := funcCall.Call.Method.FullName(); methodFullname == trackedFuncName {
-						if !isContainedInMap(tmpArg, values) {
-							addToVarsMap(tmpArg, values)
-						}
-					}
-				} else if funcCall.Call.Value.String() == trackedFuncName {
-					if !isContainedInMap(tmpArg, values) {
-						addToVarsMap(tmpArg, values)
-					}
-				}
+	for trackedFuncName, trackedFuncArgsInfo := range trackedFunc {
+		if tmpArg := trackedArg(funcBlocInstr, trackedFuncName, trackedFuncArgsInfo); tmpArg != nil {
+			if !isContainedInMap(tmpArg, values) {
+				addToVarsMap(tmpArg, values)
 			}
 		}
 	}
 }
+
+// trackedArg returns the tracked argument of a call to the tracked function, or nil for any other instruction.
+func trackedArg(instr ssa.Instruction, trackedFuncName string, trackedFuncArgsInfo []int) ssa.Value {
+	funcCall, ok := instr.(*ssa.Call)
+	// only process functions that have the same number of arguments as the ones we track
+	if !ok || len(funcCall.Call.Args) != trackedFuncArgsInfo[0] {
+		return nil
+	}
+	// check if the function is called from an object or directly from the package
+	name := funcCall.Call.Value.String()
+	if funcCall.Call.Method != nil {
+		name = funcCall.Call.Method.FullName()
+	}
+	if name != trackedFuncName {
+		return nil
+	}
+	return funcCall.Call.Args[trackedFuncArgsInfo[1]]
+}
-- 
2.43.0


From a43daabbbddefc40f23443c37cc4449a2753017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:34 +0000
Subject: [PATCH 82/86] fix: do not take nonces read from crypto/rand for fixed
 ones

---
 analyzers/hardcoded_nonce.go | 156 +++++++++++++++++++++++++++++++++--
 1 file changed, 148 insertions(+), 8 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 4939c3c..1c0223a 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -119,12 +119,15 @@ func raiseIssueOf(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.
 	var issues []*issue.Issue
 	switch valType := (val).(type) {
 	case *ssa.Slice:
+		if isFilledByCryptoRand(val) {
+			break
+		}
 		issueDescription += " by passing hardcoded slice/array"
 		issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
 		allIssues = append(allIssues, issues...)
 	case *ssa.UnOp:
 		// Check if it's a dereference operation (a.k.a pointer)
-		if valType.Op == token.MUL {
+		if valType.Op == token.MUL && !isFilledByCryptoRand(val) {
 			issueDescription += " by passing pointer which points to hardcoded variable"
 			issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.Low)
 			allIssues = append(allIssues, issues...)
@@ -212,17 +215,26 @@ func iterateThroughReferrers(variable ssa.Value, funcsToTrack map[string][]int,
 	return gosecIssues, nil
 }
 
-// isFuncContainsCryptoRand checks whether a function contains a call to crypto/rand.Read in it's function body.
+// isFuncContainsCryptoRand checks whether a function, or one of the functions it calls, makes use of the random
+// bytes of crypto/rand in its function body.
 func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	if funcCall == nil {
 		return false, errors.New("passed ssa.Function object is nil")
 	}
-	for _, block := range funcCall.Blocks {
-		for _, instr := range block.Instrs {
-			if call, ok := instr.(*ssa.Call); ok {
-				if calledFunction, ok := call.Call.Value.(*ssa.Function); ok {
-					if calledFunction.Pkg != nil && calledFunction.Pkg.Pkg.Path() == "crypto/rand" && calledFunction.Name() == "Read" {
-						return true, nil
+	visited := map[*ssa.Function]bool{funcCall: true}
+	pending := []*ssa.Function{funcCall}
+	for len(pending) > 0 {
+		function := pending[0]
+		pending = pending[1:]
+		for _, block := range function.Blocks {
+			for _, instr := range block.Instrs {
+				if isFilledByCall(instr, nil) {
+					return true, nil
+				}
+				if call, ok := instr.(*ssa.Call); ok {
+					if called := call.Call.StaticCallee(); called != nil && !visited[called] {
+						visited[called] = true
+						pending = append(pending, called)
 					}
 				}
 			}
@@ -231,6 +243,134 @@ func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	return false, nil
 }
 
+// isCryptoRand checks whether a value is the function or variable of crypto/rand with the given name.
+func isCryptoRand(value ssa.Value, name string) bool {
+	switch v := value.(type) {
+	case *ssa.Function:
+		return v.Pkg != nil && v.Pkg.Pkg.Path() == "crypto/rand" && v.Name() == name
+	case *ssa.UnOp:
+		global, ok := v.X.(*ssa.Global)
+		return ok && global.Pkg != nil && global.Pkg.Pkg.Path() == "crypto/rand" && global.Name() == name
+	}
+	return false
+}
+
+// isFilledByCall checks whether an instruction fills a value, or any value when it is nil, with random bytes.
+func isFilledByCall(instr ssa.Instruction, value ssa.Value) bool {
+	call, ok := instr.(*ssa.Call)
+	if !ok {
+		return false
+	}
+	filled := func(index int) bool {
+		return len(call.Call.Args) > index && (value == nil || call.Call.Args[index] == value)
+	}
+	// rand.Read(value)
+	if isCryptoRand(call.Call.Value, "Read") {
+		return filled(0)
+	}
+	// rand.Reader.Read(value)
+	if call.Call.Method != nil {
+		return call.Call.Method.Name() == "Read" && isCryptoRand(call.Call.Value, "Reader") && filled(0)
+	}
+	// io.ReadFull(rand.Reader, value)
+	if called := call.Call.StaticCallee(); called != nil && called.Pkg != nil && called.Pkg.Pkg.Path() == "io" {
+		return (called.Name() == "ReadFull" || called.Name() == "ReadAtLeast") &&
+			isCryptoRand(call.Call.Args[0], "Reader") && filled(1)
+	}
+	return false
+}
+
+// isFilledByCryptoRand checks whether the memory of a slice, or a part of it, is filled with random bytes.
+func isFilledByCryptoRand(value ssa.Value) bool {
+	visited := map[ssa.Value]bool{}
+	pending := []ssa.Value{value}
+	add := func(values ...ssa.Value) {
+		pending = append(pending, values...)
+	}
+	for len(pending) > 0 {
+		current := pending[0]
+		pending = pending[1:]
+		if visited[current] {
+			continue
+		}
+		visited[current] = true
+		switch v := current.(type) {
+		case *ssa.Slice:
+			add(v.X)
+		case *ssa.UnOp:
+			// the variable which holds the slice
+			switch v.X.(type) {
+			case *ssa.Alloc, *ssa.FreeVar:
+				add(v.X)
+			}
+		case *ssa.FreeVar:
+			add(capturedVariables(v)...)
+		}
+		refs := current.Referrers()
+		if refs == nil {
+			continue
+		}
+		for _, ref := range *refs {
+			if isFilledByCall(ref, current) {
+				return true
+			}
+			switch r := ref.(type) {
+			case *ssa.Slice:
+				if r.X == current {
+					add(r)
+				}
+			case *ssa.UnOp:
+				if r.Op == token.MUL {
+					add(r)
+				}
+			case *ssa.Store:
+				if r.Addr == current {
+					add(r.Val)
+				} else if alloc, ok := r.Addr.(*ssa.Alloc); ok {
+					add(alloc)
+				}
+			case *ssa.Call:
+				// functions which fill their parameter
+				if called := r.Call.StaticCallee(); called != nil && len(called.Params) == len(r.Call.Args) {
+					for i, arg := range r.Call.Args {
+						if arg == current {
+							add(called.Params[i])
+						}
+					}
+				}
+			case *ssa.MakeClosure:
+				if closure, ok := r.Fn.(*ssa.Function); ok {
+					for i, binding := range r.Bindings {
+						if binding == current && i < len(closure.FreeVars) {
+							add(closure.FreeVars[i])
+						}
+					}
+				}
+			}
+		}
+	}
+	return false
+}
+
+// capturedVariables returns the variables which a function literal captures as one of its free variables.
+func capturedVariables(freeVar *ssa.FreeVar) []ssa.Value {
+	var captured []ssa.Value
+	function := freeVar.Parent()
+	if function == nil || function.Referrers() == nil {
+		return nil
+	}
+	for _, ref := range *function.Referrers() {
+		if closure, ok := ref.(*ssa.MakeClosure); ok {
+			for i, binding := range closure.Bindings {
+				if i < len(function.FreeVars) && function.FreeVars[i] == freeVar {
+					captured = append(captured, binding)
+				}
+			}
+		}
+	}
+	return captured
+}
+
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
 	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
 	mapToAddTo[key] = &value
-- 
2.43.0


From a8eb508b7a9b35caf2cc89a662f4a6e7e9b469e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:12 +0000
Subject: [PATCH 83/86] fix: do not follow slices further than where they are
 out of bounds

---
 analyzers/slice_bounds.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 83d8581..4b977cb 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -199,6 +199,7 @@ func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]
 			case *ssa.Slice:
 				if !size.allows(refinstr) {
 					*violations = append(*violations, refinstr)
+					continue
 				}
 				trackSliceBounds(depth, size.cut(refinstr), refinstr, violations, guards, seen)
 			case *ssa.IndexAddr:
-- 
2.43.0


From b01cca7e442325b147ad5e199931a25d78b942ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:05 +0000
Subject: [PATCH 84/86] fix: do not fail on a constant passed as nonce

---
 analyzers/hardcoded_nonce.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 1c0223a..1497b31 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -372,16 +372,23 @@ func capturedVariables(freeVar *ssa.FreeVar) []ssa.Value {
 }
 
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	mapToAddTo[key] = &value
+	mapToAddTo[keyInMap(value)] = &value
 }
 
 func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	_, contained := mapToCheck[key]
+	_, contained := mapToCheck[keyInMap(value)]
 	return contained
 }
 
+func keyInMap(value ssa.Value) string {
+	key := value.Name() + value.Type().String() + value.String()
+	// constants belong to no function
+	if parent := value.Parent(); parent != nil {
+		key += parent.String()
+	}
+	return key
+}
+
 func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[string][]int) map[string]*ssa.Value {
 	values := make(map[string]*ssa.Value)
 	for _, pkgFunc := range ssaFuncs {
-- 
2.43.0


From 4a5a6b9f37a35d97a6a3064a780cdcb283d61a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:04 +0000
Subject: [PATCH 85/86] fix: look for fixed nonces of named types too

---
 analyzers/hardcoded_nonce.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 1497b31..e088899 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
+	"go/types"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -117,7 +118,12 @@ func raiseIssueOf(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.
 	var err error
 	var allIssues []*issue.Issue
 	var issues []*issue.Issue
-	switch valType := (val).(type) {
+	origin := val
+	// the same value with another type
+	for changed, ok := origin.(*ssa.ChangeType); ok; changed, ok = origin.(*ssa.ChangeType) {
+		origin = changed.X
+	}
+	switch valType := origin.(type) {
 	case *ssa.Slice:
 		if isFilledByCryptoRand(val) {
 			break
@@ -151,7 +157,7 @@ func raiseIssueOf(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.
 	// only checks from strings->[]byte
 	// might need to add additional types
 	case *ssa.Convert:
-		if valType.Type().String() == "[]byte" && valType.X.Type().String() == "string" {
+		if isConvertedString(valType) {
 			issueDescription += " by passing converted string"
 			issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
 			allIssues = append(allIssues, issues...)
@@ -297,6 +303,8 @@ func isFilledByCryptoRand(value ssa.Value) bool {
 		switch v := current.(type) {
 		case *ssa.Slice:
 			add(v.X)
+		case *ssa.ChangeType:
+			add(v.X)
 		case *ssa.UnOp:
 			// the variable which holds the slice
 			switch v.X.(type) {
@@ -319,6 +327,8 @@ func isFilledByCryptoRand(value ssa.Value) bool {
 				if r.X == current {
 					add(r)
 				}
+			case *ssa.ChangeType:
+				add(r)
 			case *ssa.UnOp:
 				if r.Op == token.MUL {
 					add(r)
@@ -371,6 +381,16 @@ func capturedVariables(freeVar *ssa.FreeVar) []ssa.Value {
 	return captured
 }
 
+// isConvertedString tells whether a conversion turns a string into bytes.
+func isConvertedString(conversion *ssa.Convert) bool {
+	from, ok := conversion.X.Type().Underlying().(*types.Basic)
+	if !ok || from.Info()&types.IsString == 0 {
+		return false
+	}
+	to, ok := conversion.Type().Underlying().(*types.Slice)
+	return ok && types.Identical(to.Elem().Underlying(), types.Typ[types.Byte])
+}
+
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
 	mapToAddTo[keyInMap(value)] = &value
 }
-- 
2.43.0


From d866f9f09761aede79c4faace04799332abfa4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:02 +0000
Subject: [PATCH 86/86] fix: read a suppression where it is, not where the text
 mentions its tag

---
 analyzer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index daba8fe..e87a088 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -724,9 +724,10 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
+	// The tag counts at the start of a line, not where the text merely mentions it.
+	if loc := regexp.MustCompile("(?:^|\n *)" + regexp.QuoteMeta(tag)).FindStringIndex(comment); loc != nil {
 		// Discard what's in front of the nosec tag.
-		return true, strings.SplitN(comment, tag, 2)[1]
+		return true, comment[loc[1]:]
 	}
 
 	return false, ""
-- 
2.43.0

