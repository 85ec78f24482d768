From 602310aef14eb567f25da430b5e0c75c4a12b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 01/64] fix: an overlay comment in one position no longer
 clears the later ones

The switch with fallthrough assigned the line and foot comments whenever an
earlier position had an overlay comment, wiping the document's own comments.
---
 internal/actions/merge.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 372e647..d3f2f3f 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -186,16 +186,15 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 		keyName = values[0]
 	}
 
-	switch {
-	case n.HeadComment != "":
+	if n.HeadComment != "" {
 		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.LineComment != "":
+	if n.LineComment != "" {
 		o.LineComment = format(n.LineComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.FootComment != "":
+	if n.FootComment != "" {
 		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)
 	}
 }
-- 
2.43.0


From aa07dbecc3e84cb9a8a956b23ad5114aabddfcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 02/64] fix: merging an empty map over a scalar or sequence
 makes it a map

Only a non-empty overlay map converted the node; an empty one was ignored,
although an empty sequence already converts.
---
 internal/actions/merge.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index d3f2f3f..3daa809 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -67,16 +67,16 @@ func mergeDocument(o, n *yaml.Node) error {
 }
 
 func mergeMap(o, n *yaml.Node) error {
+	if o.Kind != yaml.MappingNode {
+		o.Kind = yaml.MappingNode
+		o.Tag = "!!map"
+		o.Value = ""
+		o.Content = []*yaml.Node{}
+	}
+
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
 
-		if o.Kind != yaml.MappingNode {
-			o.Kind = yaml.MappingNode
-			o.Tag = "!!map"
-			o.Value = ""
-			o.Content = []*yaml.Node{}
-		}
-
 		for oi := 0; oi < len(o.Content)-1; oi += 2 {
 			var foundMarker bool
 
-- 
2.43.0


From 84364f4671d2c61fa9a75014f11df7775b34228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 03/64] fix: combining integers is exact or refused

Integers were read with Atoi, so octal, hexadecimal, binary and grouped
notations were misread or rejected, and the sum could wrap around.  A refused
combination no longer changes the comments of the document either.
---
 internal/actions/combine.go | 45 ++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 7064c7b..76578ce 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 
 	"gopkg.in/yaml.v3"
 )
@@ -14,46 +15,64 @@ import (
 // ErrCombineOnlyForScalars occurs when a non-scalar is attempted to be combined with a scalar value.
 var ErrCombineOnlyForScalars = errors.New("combine action can only be used on scalar values")
 
+// ErrCombineOverflow occurs when the sum of two integers does not fit.
+var ErrCombineOverflow = errors.New("the sum of the values is out of range")
+
 func CombineNode(originalValue, newValue *yaml.Node) error {
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
 	}
 
+	value, err := combineScalars(originalValue, newValue)
+	if err != nil {
+		return err
+	}
+
 	mergeComments(originalValue, newValue)
 
+	originalValue.Value = value
+
+	return nil
+}
+
+func combineScalars(originalValue, newValue *yaml.Node) (string, error) {
 	switch originalValue.Tag {
 	case "!!int":
-		o, err := strconv.Atoi(originalValue.Value)
+		o, err := parseInt(originalValue.Value)
 		if err != nil {
-			return fmt.Errorf("failed to %s to int for merging: %w", originalValue.Value, err)
+			return "", fmt.Errorf("failed to %s to int for merging: %w", originalValue.Value, err)
 		}
 
-		n, err := strconv.Atoi(newValue.Value)
+		n, err := parseInt(newValue.Value)
 		if err != nil {
-			return fmt.Errorf("failed to %s to int for merging: %w", newValue.Value, err)
+			return "", fmt.Errorf("failed to %s to int for merging: %w", newValue.Value, err)
 		}
 
-		originalValue.Value = strconv.Itoa(o + n)
+		sum := o + n
+		if (n > 0) != (sum > o) && n != 0 {
+			return "", fmt.Errorf("%w, %s and %s", ErrCombineOverflow, originalValue.Value, newValue.Value)
+		}
 
-		return nil
+		return strconv.FormatInt(sum, 10), nil
 
 	case "!!bool":
 		o, err := strconv.ParseBool(originalValue.Value)
 		if err != nil {
-			return fmt.Errorf("failed to %s to bool for merging: %w", originalValue.Value, err)
+			return "", fmt.Errorf("failed to %s to bool for merging: %w", originalValue.Value, err)
 		}
 
 		n, err := strconv.ParseBool(newValue.Value)
 		if err != nil {
-			return fmt.Errorf("failed to %s to bool for merging: %w", newValue.Value, err)
+			return "", fmt.Errorf("failed to %s to bool for merging: %w", newValue.Value, err)
 		}
 
-		originalValue.Value = strconv.FormatBool(o && n)
-
-		return nil
+		return strconv.FormatBool(o && n), nil
 	}
 
-	originalValue.Value += newValue.Value
+	return originalValue.Value + newValue.Value, nil
+}
 
-	return nil
+// parseInt reads an integer in any of the notations YAML has for it.
+func parseInt(s string) (int64, error) {
+	return strconv.ParseInt(strings.ReplaceAll(s, "_", ""), 0, 64)
 }
-- 
2.43.0


From 00adeb5b5f91374cf3bbfb2c0d13dc519e8a5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 04/64] fix: a style listed twice is still that style

Styles are bits; summing a repeated one selected a different style.
---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index ed05565..4aa37c0 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -59,7 +59,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 func (ss Styles) GetStyle() Style {
 	var s Style
 	for _, v := range ss {
-		s += v
+		s |= v
 	}
 
 	return s
-- 
2.43.0


From 7d50fdd2cc68c29291c5bb835c3e5ae87e432399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 05/64] fix: format markers are substituted in one pass

Marker-like text inside original values was dropped, and because substitution
replaced the first occurrence of the marker in the text built so far, what had
just been inserted could be substituted again.
---
 internal/actions/format.go | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/internal/actions/format.go b/internal/actions/format.go
index f2c0c05..fddb470 100644
--- a/internal/actions/format.go
+++ b/internal/actions/format.go
@@ -13,8 +13,6 @@ import (
 )
 
 func format(formatStr string, v ...interface{}) string {
-	v = sanitizeValues(v...)
-
 	return doFormat(formatStr, v...)
 }
 
@@ -37,22 +35,6 @@ func sanitizeNode(n ...*yaml.Node) {
 	}
 }
 
-func sanitizeValues(v ...interface{}) []interface{} {
-	for _, t := range []string{
-		ValueMarker,
-		LineCommentMarker,
-		HeadCommentMarker,
-		FootCommentMarker,
-		KeyMarker,
-	} {
-		for j := range v {
-			v[j] = strings.ReplaceAll(v[j].(string), t, "")
-		}
-	}
-
-	return v
-}
-
 func doFormat(s string, values ...interface{}) string {
 	markers := []string{
 		ValueMarker,
@@ -72,14 +54,16 @@ func doFormat(s string, values ...interface{}) string {
 
 	re := regexp.MustCompile(`(?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?`)
 
-	matches := re.FindAllStringSubmatch(s, -1)
+	var sb strings.Builder
 
-	for _, match := range matches {
+	last := 0
+
+	for _, loc := range re.FindAllStringSubmatchIndex(s, -1) {
 		result := make(map[string]string)
 
 		for i, name := range re.SubexpNames() {
-			if i != 0 && name != "" {
-				result[name] = match[i]
+			if i != 0 && name != "" && loc[2*i] >= 0 {
+				result[name] = s[loc[2*i]:loc[2*i+1]]
 			}
 		}
 
@@ -95,11 +79,16 @@ func doFormat(s string, values ...interface{}) string {
 				}
 			}
 
-			s = strings.Replace(s, match[0], marker, 1)
+			sb.WriteString(s[last:loc[0]])
+			sb.WriteString(marker)
+
+			last = loc[1]
 		}
 	}
 
-	return s
+	sb.WriteString(s[last:])
+
+	return sb.String()
 }
 
 func processSedCommand(command, value string) (string, error) {
-- 
2.43.0


From d3398590b883cab7d32e89737883c7f166bc9da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 06/64] fix: comments of a marker key are merged once

The comments of an overlay key with a format marker were merged into the
matching key and then again by mergeScalar, so %h, %l and %f in them expanded
to the comment already replaced.
---
 internal/actions/merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 3daa809..285933c 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -91,7 +91,9 @@ func mergeMap(o, n *yaml.Node) error {
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
-			mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			if !foundMarker {
+				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			}
 
 			if err := merge(o.Content[oi+1], n.Content[ni+1], keyName); err != nil {
 				return err
-- 
2.43.0


From 03ecfe8ec4b774931a2876c656d7f71deb7cf129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 07/64] fix: merge comments that sit on maps and empty
 sequences

The comment of an overlay value like '{a: b} # c' or '[] # c' belongs to the
map or sequence node itself and was not carried into the document.
---
 internal/actions/merge.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 285933c..d026e8c 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -74,6 +74,8 @@ func mergeMap(o, n *yaml.Node) error {
 		o.Content = []*yaml.Node{}
 	}
 
+	mergeComments(o, n)
+
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
 
@@ -124,9 +126,9 @@ func mergeArray(o, n *yaml.Node) error {
 		o.Content = []*yaml.Node{}
 	}
 
-	if n.Content != nil {
-		mergeComments(o, n, o.Value)
+	mergeComments(o, n, o.Value)
 
+	if n.Content != nil {
 		if err := addNode(o, n.Content...); err != nil {
 			return err
 		}
-- 
2.43.0


From 755ed721a85596dc975f042851393e549f35d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 08/64] fix: resolving the default onMissing action does not
 write to the overlay

Common overlays are shared by the goroutines that process the files, so
storing the resolved action in them was a data race.
---
 internal/overlays/onmissing.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index f5607fe..09d4324 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -28,9 +28,12 @@ type OnMissing struct {
 }
 
 func (o *Overlay) onMissing(n *yaml.Node) error {
-	if o.OnMissing.Action == actions.Default {
+	// the overlay may be shared between files that are processed concurrently, so it is not changed here
+	action := o.OnMissing.Action
+
+	if action == actions.Default {
 		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {
-			o.OnMissing.Action = actions.Inject
+			action = actions.Inject
 		}
 	}
 
@@ -39,7 +42,7 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// we need to then check if each inject path is valid (does it exist)
 	// if we had an inject path(s) then we inject the value to those locations
 	// if we didn't have an inject path we have an implicit onMissing: ignore and we put out a warning if not stdout option to terminal
-	switch o.OnMissing.Action {
+	switch action {
 	case actions.Inject:
 		return o.handleInjectPath(n)
 	default:
-- 
2.43.0


From acff854045e010bc8c8cb71bc666f8f927fd140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 09/64] fix: onMissing never injects for delete and combine
 overlays

The documentation restricts inject to the merge and replace actions; a delete
overlay without a match created the entry it was meant to delete.
---
 internal/overlays/onmissing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 09d4324..c79783e 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -37,6 +37,11 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 		}
 	}
 
+	// there is nothing to inject for actions that only work on existing values
+	if o.Action == actions.Delete || o.Action == actions.Combine {
+		action = actions.Ignore
+	}
+
 	// check if the query has a match
 	// if no match then we require an inject path
 	// we need to then check if each inject path is valid (does it exist)
-- 
2.43.0


From 2fb899e451fa6916de20c8d606deb3bad82e8414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 10/64] fix: injecting into an emptied document adds content
 instead of crashing

---
 internal/actions/merge.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index d026e8c..6ef1498 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -55,12 +55,18 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 }
 
 func mergeDocument(o, n *yaml.Node) error {
-	if o.Content != nil && n.Content != nil {
-		mergeComments(o, n, o.Value)
+	if len(n.Content) == 0 {
+		return nil
+	}
 
-		if err := merge(o.Content[0], n.Content[0], o.Value); err != nil {
-			return err
-		}
+	mergeComments(o, n, o.Value)
+
+	if len(o.Content) == 0 {
+		return addNode(o, n.Content...)
+	}
+
+	if err := merge(o.Content[0], n.Content[0], o.Value); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From 00985646f40a44f73b48795adc7b247138323b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 11/64] fix: document queries treat an emptied map or sequence
 as equal to an empty one

---
 internal/overlays/documentquery.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 9609f86..8c36e91 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -41,7 +41,11 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 }
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
-	compareOptions := cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style")
+	compareOptions := cmp.Options{
+		cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style"),
+		// an overlay that deletes the last entry leaves an empty slice, parsing {} or [] leaves none
+		cmpopts.EquateEmpty(),
+	}
 
 	if dq.Conditions == nil {
 		return true
-- 
2.43.0


From 72370cc833983f2687ce843979784c7cd2396a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 12/64] fix: an anchor does not make a value differ from a
 document query's value

---
 internal/overlays/documentquery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 8c36e91..e4d9e26 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -42,7 +42,7 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 	compareOptions := cmp.Options{
-		cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style"),
+		cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style", "Anchor"),
 		// an overlay that deletes the last entry leaves an empty slice, parsing {} or [] leaves none
 		cmpopts.EquateEmpty(),
 	}
-- 
2.43.0


From b16d8cf91f515fd1ce4b5a9488a712c3900eea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 13/64] fix: a dotted path name is unescaped once, as queries
 read it

---
 internal/builder/path.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index f54876d..3a5fd10 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -100,8 +100,6 @@ func newPath(l *lexer) (*Path, error) {
 			return nil, fmt.Errorf("%w, wildcard notation not allowed for build", ErrInvalidPathSyntax)
 		}
 
-		childName = unescape(childName)
-
 		return childThen(l, childName)
 
 	case lexemeUndottedChild:
-- 
2.43.0


From a5c25dba4184c92e23443fe16de62926e7df811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 14/64] fix: replacing with a missing value gives null instead
 of an unwritable node

---
 internal/actions/replace.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/actions/replace.go b/internal/actions/replace.go
index 61df805..7255b45 100644
--- a/internal/actions/replace.go
+++ b/internal/actions/replace.go
@@ -13,6 +13,11 @@ import (
 func ReplaceNode(original, replace *yaml.Node) error {
 	ov := *original
 
+	if replace.Kind == 0 {
+		// a value that was not given is null, a node without a kind cannot be written
+		replace = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "null"}
+	}
+
 	if err := reprint.FromTo(replace, original); err != nil {
 		return fmt.Errorf("failed to replace value: %w", err)
 	}
-- 
2.43.0


From 2c7e52c8c7168d2836b51482e5fd92c9d20f7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 15/64] fix: injecting with an empty list of paths no longer
 crashes

---
 internal/overlays/onmissing.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index c79783e..e562aea 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -58,6 +58,12 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 }
 
 func (o *Overlay) doInjectPath(ip Queries, node *yaml.Node) error {
+	if len(ip) == 0 {
+		log.Debugf("ignoring %s due to %s\n", o.Action, ErrOnMissingNoInjectPath)
+
+		return nil
+	}
+
 	bps, err := builder.NewPaths(ip.Paths())
 	if err != nil {
 		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
-- 
2.43.0


From 8b086cd7947fc6d3be21a46445079571035c9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 16/64] fix: injecting into a document that was itself replaced
 merges with what it became

---
 internal/actions/merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 6ef1498..e38346f 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -59,6 +59,11 @@ func mergeDocument(o, n *yaml.Node) error {
 		return nil
 	}
 
+	// an overlay may have replaced the document itself
+	if o.Kind != yaml.DocumentNode {
+		return merge(o, n.Content[0])
+	}
+
 	mergeComments(o, n, o.Value)
 
 	if len(o.Content) == 0 {
-- 
2.43.0


From fac07724b1f76f67378a4a1edbf3b429ab9bc285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 17/64] fix: common overlays no longer leak one file's overlays
 into another

---
 internal/instructions/instructions.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 0fcd18b..36c287b 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -111,8 +111,11 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 
 // addCommonOverlays, takes all common overlays and adds them to each yamlFile entry.
 func (i *Instructions) addCommonOverlays() {
+	// the capacity is cut off so that every file gets a list of its own
+	common := i.CommonOverlays[:len(i.CommonOverlays):len(i.CommonOverlays)]
+
 	for _, yf := range i.YamlFiles {
-		yf.Overlays = append(i.CommonOverlays, yf.Overlays...)
+		yf.Overlays = append(common, yf.Overlays...) //nolint:gocritic // a new list is wanted
 	}
 }
 
-- 
2.43.0


From 0a375271aa643be8cb49923c107cd90787995595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 18/64] fix: paths of yamlFiles are cleaned, absolute ones too

---
 internal/instructions/yamlfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index e06fd3a..7a9e12d 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -122,6 +122,9 @@ func (yfs *YamlFiles) expandDirectories() error {
 			y[i].Path = path.Join(viper.GetString("instructionsDir"), y[i].Path)
 		}
 
+		// different spellings of a path are the same file
+		y[i].Path = path.Clean(y[i].Path)
+
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-- 
2.43.0


From 144afd67e3ed3305245667b9ec30deb725b86bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 19/64] fix: a single file in the root directory is not written
 over its source

---
 internal/instructions/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 454c8be..8f4c619 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 )
 
 func ReadStream(fileName string) (io.Reader, error) {
@@ -38,7 +39,7 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 	case 0:
 		return ""
 	case 1:
-		return path.Dir(path.Clean(paths[0])) + string(os.PathSeparator)
+		return strings.TrimSuffix(path.Dir(path.Clean(paths[0])), string(os.PathSeparator)) + string(os.PathSeparator)
 	}
 
 	c := path.Clean(paths[0]) + string(sep)
-- 
2.43.0


From 072a1242821edb6eaff7306b56b698d5b41568e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 20/64] fix: a directory's files take its place in the list

---
 internal/instructions/yamlfile.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 7a9e12d..b374561 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -136,6 +136,8 @@ func (yfs *YamlFiles) expandDirectories() error {
 				return err
 			}
 
+			expanded := make([]*YamlFile, 0, len(paths))
+
 			for _, p := range paths {
 				sp := &YamlFile{
 					Name:       y[i].Name,
@@ -145,10 +147,11 @@ func (yfs *YamlFiles) expandDirectories() error {
 					OutputPath: y[i].OutputPath,
 				}
 
-				y = append(y, sp)
+				expanded = append(expanded, sp)
 			}
 
-			y = append(y[:i], y[i+1:]...)
+			// the files take the place of the directory
+			y = append(y[:i], append(expanded, y[i+1:]...)...)
 			i--
 		}
 	}
-- 
2.43.0


From ae6659c47c41c3631f0dd88bc1eb54ff968f2f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 21/64] fix: comments of the document itself are removed as
 well

---
 internal/instructions/yamlfile.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index b374561..21adc45 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -186,15 +186,11 @@ func (yfs *YamlFiles) mergeDuplicates() {
 
 // removeCommentsFromNode will traverse the tree of yaml nodes and remove all comments.
 func removeCommentsFromNode(node *yaml.Node) {
-	if node.Content == nil {
-		return
-	}
+	node.HeadComment = ""
+	node.LineComment = ""
+	node.FootComment = ""
 
 	for _, child := range node.Content {
-		child.HeadComment = ""
-		child.LineComment = ""
-		child.FootComment = ""
-
 		removeCommentsFromNode(child)
 	}
 }
-- 
2.43.0


From 9912c7c85290278c832c757da975453abc206da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 22/64] fix: output begins with a document marker when the
 first document was deleted

---
 internal/instructions/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b2d5b59..432134b 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -117,12 +117,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 
 	ye.SetIndent(viper.GetInt("indentLevel"))
 
-	for i, node := range nodes {
+	for _, node := range nodes {
 		if len(node.Content) == 0 {
 			continue
 		}
 
-		if i == 0 {
+		if !fileWritten {
 			output.WriteString("---\n")
 		}
 
-- 
2.43.0


From 87fc989cf3d295f0a2fc7019d0c9641d008424b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 23/64] fix: YOT_ environment variables take effect

---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 8eaa323..7f2eca6 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -47,7 +47,7 @@ func New() *Root {
 
 func (r *Root) initConfig() {
 	for k, v := range envMap() {
-		if err := viper.BindEnv(k, v); err != nil {
+		if err := viper.BindEnv(v, k); err != nil {
 			r.Log.Fatal(err)
 		}
 	}
-- 
2.43.0


From 94042cb91ddc1f2c9a5dcfa4ad463e7eca195e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 24/64] fix: instruction templates can use the sprig functions

---
 internal/instructions/template.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/template.go b/internal/instructions/template.go
index 815f730..aac0015 100644
--- a/internal/instructions/template.go
+++ b/internal/instructions/template.go
@@ -7,19 +7,19 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"path"
 	"text/template"
 
 	"github.com/Masterminds/sprig/v3"
 )
 
 func renderInstructionsTemplate(fileName string, values interface{}) (io.Reader, error) {
-	tpl, err := template.ParseFiles(fileName)
+	// the functions have to be known before the file is parsed
+	tpl, err := template.New(path.Base(fileName)).Funcs(sprig.TxtFuncMap()).Option("missingkey=zero").ParseFiles(fileName)
 	if err != nil {
 		return nil, fmt.Errorf("unable to process template for instructions file %s, %w", fileName, err)
 	}
 
-	tpl = tpl.Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
-
 	var b bytes.Buffer
 
 	if err := tpl.Execute(&b, values); err != nil {
-- 
2.43.0


From 45023d3611ac5a295021492ae5258929100449e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 25/64] fix: accept every name of a log level from the
 environment and configuration file, and report an unknown one

---
 internal/commands/flags.go | 37 ++++++++++++++++++++++++++++---------
 internal/commands/root.go  |  4 ++--
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/internal/commands/flags.go b/internal/commands/flags.go
index 0459c79..e4730ed 100644
--- a/internal/commands/flags.go
+++ b/internal/commands/flags.go
@@ -4,20 +4,18 @@
 package commands
 
 import (
+	"fmt"
+	"strings"
+
 	"github.com/op/go-logging"
 	"github.com/spf13/viper"
 	"github.com/thediveo/enumflag"
 	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 )
 
-func (r *Root) initializeCommonFlags() {
-	r.Command.Flags().StringVar(&r.configFile, "config", r.configFile, "config file (default is $HOME/.yot)")
-
-	if err := viper.BindPFlag("configFile", r.Command.Flags().Lookup("config")); err != nil {
-		r.Log.Fatal(err)
-	}
-
-	logMap := map[logging.Level][]string{
+// logLevels are the names every log level may be given by.
+func logLevels() map[logging.Level][]string {
+	return map[logging.Level][]string{
 		logging.CRITICAL: {"critical", "crit", "c"},
 		logging.ERROR:    {"error", "err", "e"},
 		logging.WARNING:  {"warning", "warn", "w"},
@@ -25,9 +23,30 @@ func (r *Root) initializeCommonFlags() {
 		logging.INFO:     {"info", "i"},
 		logging.DEBUG:    {"debug", "d", "verbose", "v"},
 	}
+}
+
+// getLogLevel finds the log level with the given name.
+func getLogLevel(name string) (logging.Level, error) {
+	for level, names := range logLevels() {
+		for _, n := range names {
+			if strings.EqualFold(n, name) {
+				return level, nil
+			}
+		}
+	}
+
+	return logging.ERROR, fmt.Errorf("%w, %s", logging.ErrInvalidLogLevel, name)
+}
+
+func (r *Root) initializeCommonFlags() {
+	r.Command.Flags().StringVar(&r.configFile, "config", r.configFile, "config file (default is $HOME/.yot)")
+
+	if err := viper.BindPFlag("configFile", r.Command.Flags().Lookup("config")); err != nil {
+		r.Log.Fatal(err)
+	}
 
 	r.Command.Flags().VarP(
-		enumflag.New(&r.Options.LogLevel, "logLevel", logMap, enumflag.EnumCaseInsensitive),
+		enumflag.New(&r.Options.LogLevel, "logLevel", logLevels(), enumflag.EnumCaseInsensitive),
 		"log-level",
 		"v",
 		helpLogLevel,
diff --git a/internal/commands/root.go b/internal/commands/root.go
index 7f2eca6..3e1ee1d 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -139,9 +139,9 @@ func (r *Root) SetupLogging(cmd *cobra.Command, args []string) {
 		logging.NewBackendFormatter(logging.NewLogBackend(os.Stderr, "", 0), format),
 	)
 
-	logLevel, err := logging.LogLevel((viper.GetString("logLevel")))
+	logLevel, err := getLogLevel(viper.GetString("logLevel"))
 	if err != nil {
-		panic(err)
+		r.Log.Fatal(err)
 	}
 
 	backend.SetLevel(logLevel, "")
-- 
2.43.0


From c348dae479c9426fc68298a44b3efecbf4d31582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 26/64] fix: report a negative indent level instead of crashing

---
 internal/instructions/config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 432134b..24df26b 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -5,6 +5,7 @@ package instructions
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -17,6 +18,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ErrInvalidIndentLevel occurs when the indent level is negative.
+var ErrInvalidIndentLevel = errors.New("invalid indent level")
+
 // Config contains configuration options used with instruction files.
 type Config struct {
 	LogLevel               logging.Level
@@ -115,7 +119,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		}
 	}()
 
-	ye.SetIndent(viper.GetInt("indentLevel"))
+	indent := viper.GetInt("indentLevel")
+	if indent < 0 {
+		return nil, fmt.Errorf("%w, %d", ErrInvalidIndentLevel, indent)
+	}
+
+	ye.SetIndent(indent)
 
 	for _, node := range nodes {
 		if len(node.Content) == 0 {
-- 
2.43.0


From 02e423d9fdf7f2bc49dec7c28f6dbe27d2a2fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 27/64] fix: an empty entry in a list of the instructions is an
 error, not a crash

---
 internal/instructions/instructions.go |  4 ++++
 internal/instructions/yamlfile.go     | 29 +++++++++++++++++++++++++++
 internal/overlays/documentquery.go    | 19 ++++++++++++++++++
 internal/overlays/overlay.go          | 19 ++++++++++++++++++
 4 files changed, 71 insertions(+)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 36c287b..29ed858 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -106,6 +106,10 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
+	if err := overlays.CheckEntries(instructions.CommonOverlays); err != nil {
+		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
+	}
+
 	return &instructions, nil
 }
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 21adc45..50ec724 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -63,6 +63,12 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for _, yf := range yft {
+		if err := yf.checkEntries(); err != nil {
+			return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
+		}
+	}
+
 	y := YamlFiles(yft)
 	if err := y.expandDirectories(); err != nil {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
@@ -81,6 +87,29 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 	return nil
 }
 
+// checkEntries rejects empty list entries.
+func (yf *YamlFile) checkEntries() error {
+	if yf == nil {
+		return fmt.Errorf("%w in yamlFiles", overlays.ErrEmptyEntry)
+	}
+
+	for _, d := range yf.Documents {
+		if d == nil {
+			return fmt.Errorf("%w in documents", overlays.ErrEmptyEntry)
+		}
+
+		if err := overlays.CheckEntries(d.Overlays); err != nil {
+			return fmt.Errorf("%w", err)
+		}
+	}
+
+	if err := overlays.CheckEntries(yf.Overlays); err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
+	return nil
+}
+
 func (yf *YamlFile) readYamlFile() error {
 	reader, err := ReadStream(yf.Path)
 	if err != nil {
diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index e4d9e26..abcec33 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -4,6 +4,8 @@
 package overlays
 
 import (
+	"fmt"
+
 	"github.com/google/go-cmp/cmp"
 	"github.com/google/go-cmp/cmp/cmpopts"
 	"gopkg.in/yaml.v3"
@@ -20,6 +22,23 @@ type Condition struct {
 
 type DocumentQueries []*DocumentQuery
 
+// checkEntries rejects groups and conditions that are empty list entries.
+func (dq DocumentQueries) checkEntries() error {
+	for _, q := range dq {
+		if q == nil {
+			return fmt.Errorf("%w in documentQuery", ErrEmptyEntry)
+		}
+
+		for _, c := range q.Conditions {
+			if c == nil {
+				return fmt.Errorf("%w in conditions", ErrEmptyEntry)
+			}
+		}
+	}
+
+	return nil
+}
+
 func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 	if len(dq) == 0 {
 		log.Debugf("No Document Queries found, continuing")
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index b1c44e1..82eb423 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -4,6 +4,7 @@
 package overlays
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/op/go-logging"
@@ -13,6 +14,9 @@ import (
 
 var log = logging.MustGetLogger("overlays") //nolint:gochecknoglobals
 
+// ErrEmptyEntry occurs when a list holds an entry that is empty.
+var ErrEmptyEntry = errors.New("empty list entry")
+
 type Overlay struct {
 	Name          string          `yaml:"name,omitempty"`
 	Query         Queries         `yaml:"query,omitempty"`
@@ -23,6 +27,17 @@ type Overlay struct {
 	DocumentIndex []int           `yaml:"documentIndex,omitempty"`
 }
 
+// CheckEntries rejects lists of overlays with empty entries.
+func CheckEntries(os []*Overlay) error {
+	for _, o := range os {
+		if o == nil {
+			return fmt.Errorf("%w in overlays", ErrEmptyEntry)
+		}
+	}
+
+	return nil
+}
+
 func (o *Overlay) Apply(n *yaml.Node) error {
 	log.Debugf("Checking Document Queries for [%q]", o.Name)
 
@@ -87,6 +102,10 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	if err := o.DocumentQuery.checkEntries(); err != nil {
+		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
+	}
+
 	switch "" {
 	case o.Name:
 		o.Name = o.Query.String()
-- 
2.43.0


From 663d6ec2a9419f7ad22ce6c1c514bd53bcb9889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:28 +0000
Subject: [PATCH 28/64] fix: an alias whose anchor was removed keeps its value

---
 internal/actions/alias.go       | 86 +++++++++++++++++++++++++++++++++
 internal/instructions/config.go |  5 ++
 2 files changed, 91 insertions(+)
 create mode 100644 internal/actions/alias.go

diff --git a/internal/actions/alias.go b/internal/actions/alias.go
new file mode 100644
index 0000000..1d8a4fc
--- /dev/null
+++ b/internal/actions/alias.go
@@ -0,0 +1,86 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+package actions
+
+import (
+	"errors"
+	"fmt"
+
+	"gopkg.in/yaml.v3"
+)
+
+// ErrRecursiveAlias occurs when a value contains itself.
+var ErrRecursiveAlias = errors.New("anchor value contains itself")
+
+// ResolveAliases returns a copy of a value in which every alias is replaced by what it stands for. The copy has no
+// anchors, as it may be used in places where they mean something else.
+func ResolveAliases(n *yaml.Node, parents ...*yaml.Node) (*yaml.Node, error) {
+	if n.Kind == yaml.AliasNode {
+		target, err := ResolveAliases(n.Alias, parents...)
+		if err != nil {
+			return nil, err
+		}
+
+		target.HeadComment, target.LineComment, target.FootComment = n.HeadComment, n.LineComment, n.FootComment
+
+		return target, nil
+	}
+
+	for _, p := range parents {
+		if p == n {
+			return nil, fmt.Errorf("%w, &%s", ErrRecursiveAlias, n.Anchor)
+		}
+	}
+
+	parents = append(parents[:len(parents):len(parents)], n)
+
+	resolved := *n
+	resolved.Anchor = ""
+	resolved.Content = nil
+
+	for _, child := range n.Content {
+		c, err := ResolveAliases(child, parents...)
+		if err != nil {
+			return nil, err
+		}
+
+		resolved.Content = append(resolved.Content, c)
+	}
+
+	return &resolved, nil
+}
+
+// ResolveLostAliases replaces the aliases of a document whose anchors are gone by what they stood for.
+func ResolveLostAliases(document *yaml.Node) error {
+	return resolveLostAliases(document, map[string]*yaml.Node{})
+}
+
+func resolveLostAliases(n *yaml.Node, anchors map[string]*yaml.Node) error {
+	if n.Kind == yaml.AliasNode {
+		if anchors[n.Value] == n.Alias {
+			return nil
+		}
+
+		resolved, err := ResolveAliases(n)
+		if err != nil {
+			return err
+		}
+
+		*n = *resolved
+
+		return nil
+	}
+
+	if n.Anchor != "" {
+		anchors[n.Anchor] = n
+	}
+
+	for _, child := range n.Content {
+		if err := resolveLostAliases(child, anchors); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 24df26b..259e16e 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -135,6 +135,11 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 			output.WriteString("---\n")
 		}
 
+		// an overlay may have removed what an alias refers to
+		if err := actions.ResolveLostAliases(node); err != nil {
+			return nil, fmt.Errorf("%w", err)
+		}
+
 		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
 
-- 
2.43.0


From 51aca674382cf05d8cf35a6fe6219ae14512825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 29/64] fix: aliases in overlay values stand for their value

---
 internal/instructions/config.go |  7 +++++++
 internal/overlays/overlay.go    | 28 ++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 259e16e..b1cc9f7 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -192,6 +192,13 @@ func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
 			cfg.Overlay.Value = *cfg.Overlay.Value.Content[0]
 		}
 
+		value, err := actions.ResolveAliases(&cfg.Overlay.Value)
+		if err != nil {
+			return fmt.Errorf("unable to read overlay value from flag, %w", err)
+		}
+
+		cfg.Overlay.Value = *value
+
 		i.CommonOverlays = append(i.CommonOverlays, &cfg.Overlay)
 	}
 
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index 82eb423..784a5bf 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -106,6 +106,10 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	if err := o.resolveAliases(); err != nil {
+		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
+	}
+
 	switch "" {
 	case o.Name:
 		o.Name = o.Query.String()
@@ -115,3 +119,27 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 
 	return nil
 }
+
+// resolveAliases replaces the aliases of the overlay's values by what they stand for, as their anchors are not in the
+// documents that the values are put in or compared with.
+func (o *Overlay) resolveAliases() error {
+	v, err := actions.ResolveAliases(&o.Value)
+	if err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
+	o.Value = *v
+
+	for _, q := range o.DocumentQuery {
+		for _, c := range q.Conditions {
+			v, err := actions.ResolveAliases(&c.Value)
+			if err != nil {
+				return fmt.Errorf("%w", err)
+			}
+
+			c.Value = *v
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From c245758073323490d149a7cd451e59e84ede5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 30/64] fix: merging or combining into an alias starts from the
 value it stands for

---
 internal/actions/alias.go   | 25 +++++++++++++++++--------
 internal/actions/combine.go |  4 ++++
 internal/actions/merge.go   |  9 +++++++++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/internal/actions/alias.go b/internal/actions/alias.go
index 1d8a4fc..3d7537c 100644
--- a/internal/actions/alias.go
+++ b/internal/actions/alias.go
@@ -62,14 +62,7 @@ func resolveLostAliases(n *yaml.Node, anchors map[string]*yaml.Node) error {
 			return nil
 		}
 
-		resolved, err := ResolveAliases(n)
-		if err != nil {
-			return err
-		}
-
-		*n = *resolved
-
-		return nil
+		return resolveAlias(n)
 	}
 
 	if n.Anchor != "" {
@@ -84,3 +77,19 @@ func resolveLostAliases(n *yaml.Node, anchors map[string]*yaml.Node) error {
 
 	return nil
 }
+
+// resolveAlias makes an alias a copy of what it stands for, other nodes are left alone.
+func resolveAlias(n *yaml.Node) error {
+	if n.Kind != yaml.AliasNode {
+		return nil
+	}
+
+	resolved, err := ResolveAliases(n)
+	if err != nil {
+		return err
+	}
+
+	*n = *resolved
+
+	return nil
+}
diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 76578ce..11ca4d8 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -19,6 +19,10 @@ var ErrCombineOnlyForScalars = errors.New("combine action can only be used on sc
 var ErrCombineOverflow = errors.New("the sum of the values is out of range")
 
 func CombineNode(originalValue, newValue *yaml.Node) error {
+	if err := resolveAlias(originalValue); err != nil {
+		return err
+	}
+
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
 	}
diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index e38346f..f35c547 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -36,6 +36,11 @@ func MergeNode(nodes ...*yaml.Node) error {
 }
 
 func merge(o, n *yaml.Node, keyName ...string) error {
+	// what the alias refers to is not what is merged into
+	if err := resolveAlias(o); err != nil {
+		return err
+	}
+
 	switch n.Kind {
 	case yaml.DocumentNode:
 		return mergeDocument(o, n)
@@ -101,6 +106,10 @@ func mergeMap(o, n *yaml.Node) error {
 
 			resultFound = true
 
+			if err := resolveAlias(o.Content[oi+1]); err != nil {
+				return err
+			}
+
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
-- 
2.43.0


From 2412051542f163292f65b1dd2f1fda686e1a74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:09 +0000
Subject: [PATCH 31/64] fix: values files with aliases can be merged

---
 internal/instructions/values.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 44d2dd1..d0920c0 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -29,7 +29,11 @@ func getValues(fileNames []string) (interface{}, error) {
 			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
 		}
 
-		yamlValues[i] = &yamlValue
+		// anchors of one file mean nothing in another
+		yamlValues[i], err = actions.ResolveAliases(&yamlValue)
+		if err != nil {
+			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
+		}
 	}
 
 	if len(yamlValues) != 0 {
-- 
2.43.0


From cd593e02c14ca88ab7c8aaa235700a8fd1e44a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:11 +0000
Subject: [PATCH 32/64] fix: a document query compares an alias by the value it
 stands for

---
 internal/overlays/documentquery.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index abcec33..4cbdc78 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/google/go-cmp/cmp"
 	"github.com/google/go-cmp/cmp/cmpopts"
+	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 	"gopkg.in/yaml.v3"
 )
 
@@ -78,7 +79,13 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 		if !c.Value.IsZero() {
 			for _, result := range results {
-				if ok := cmp.Equal(*result, c.Value, compareOptions); !ok {
+				// an alias is compared by what it stands for
+				resolved, err := actions.ResolveAliases(result)
+				if err != nil {
+					return false
+				}
+
+				if ok := cmp.Equal(*resolved, c.Value, compareOptions); !ok {
 					return false
 				}
 			}
-- 
2.43.0


From c6650bdb18eaf28daa1ab762d40f503d41d8b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 33/64] fix: a sed command keeps the first and last line breaks
 of a multi-line value

---
 internal/actions/format.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/actions/format.go b/internal/actions/format.go
index fddb470..dca9192 100644
--- a/internal/actions/format.go
+++ b/internal/actions/format.go
@@ -97,13 +97,15 @@ func processSedCommand(command, value string) (string, error) {
 		return value, fmt.Errorf("sed error: %w", err)
 	}
 
-	value, err = engine.RunString(value)
+	result, err := engine.RunString(value)
 	if err != nil {
 		return value, fmt.Errorf("sed error: %w", err)
 	}
 
-	value = strings.TrimSuffix(value, "\n")
-	value = strings.TrimPrefix(value, "\n")
+	// sed ends every line, also when the value does not
+	if !strings.HasSuffix(value, "\n") {
+		result = strings.TrimSuffix(result, "\n")
+	}
 
-	return value, nil
+	return result, nil
 }
-- 
2.43.0


From bcd7570938b926a3f17a34191c9716982a2e0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 34/64] fix: the documented style name singleQuote is accepted
 by the flag

---
 docs/sections/commandUsage.md | 2 +-
 internal/actions/style.go     | 4 ++--
 internal/commands/docs.go     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/docs/sections/commandUsage.md b/docs/sections/commandUsage.md
index 75a5bc3..4881457 100644
--- a/docs/sections/commandUsage.md
+++ b/docs/sections/commandUsage.md
@@ -48,7 +48,7 @@ Flags:
                                         NORMAL:       {"normal", "n"},
                                         TAGGED:       {"tagged", "tag", "t"},
                                         DOUBLEQUOTED: {"doubleQuoted", "doubleQuote", "double", "dq"},
-                                        SINGLEQUOTED: {"singleQuoted", "singleQoute", "single", "sq"},
+                                        SINGLEQUOTED: {"singleQuoted", "singleQuote", "single", "sq"},
                                         LITERAL:      {"literal", "l"},
                                         FOLDED:       {"folded", "fold", "fo"},
                                         FLOW:         {"flow", "fl"}
diff --git a/internal/actions/style.go b/internal/actions/style.go
index 4aa37c0..95c83eb 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -49,7 +49,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 		NormalStyle:       {"normal", "n"},
 		TaggedStyle:       {"tagged", "tag", "t"},
 		DoubleQuotedStyle: {"doubleQuoted", "doubleQuote", "double", "dq"},
-		SingleQuotedStyle: {"singleQuoted", "singleQoute", "single", "sq"},
+		SingleQuotedStyle: {"singleQuoted", "singleQuote", "singleQoute", "single", "sq"},
 		LiteralStyle:      {"literal", "l"},
 		FoldedStyle:       {"folded", "fold", "fo"},
 		FlowStyle:         {"flow", "fl"},
@@ -96,7 +96,7 @@ func GetStyleFromConfig(v ...string) Styles {
 				result = append(result, TaggedStyle)
 			case "doublequoted", "doublequote", "double", "dq":
 				result = append(result, DoubleQuotedStyle)
-			case "singlequoted", "singlequote", "single", "sq":
+			case "singlequoted", "singlequote", "singleqoute", "single", "sq":
 				result = append(result, SingleQuotedStyle)
 			case "literal", "l":
 				result = append(result, LiteralStyle)
diff --git a/internal/commands/docs.go b/internal/commands/docs.go
index 135ce7b..8224820 100644
--- a/internal/commands/docs.go
+++ b/internal/commands/docs.go
@@ -76,7 +76,7 @@ Multiple values can be provided to achieve the desired result, valid values are:
 	NORMAL:       {"normal", "n"},
 	TAGGED:       {"tagged", "tag", "t"},
 	DOUBLEQUOTED: {"doubleQuoted", "doubleQuote", "double", "dq"},
-	SINGLEQUOTED: {"singleQuoted", "singleQoute", "single", "sq"},
+	SINGLEQUOTED: {"singleQuoted", "singleQuote", "single", "sq"},
 	LITERAL:      {"literal", "l"},
 	FOLDED:       {"folded", "fold", "fo"},
 	FLOW:         {"flow", "fl"}
-- 
2.43.0


From a5786fdd63c5c058bd3b28bcff7d81cba6d24d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 35/64] fix: a query option is the query as it stands, not YAML

---
 internal/overlays/query.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 9928230..3eeffb1 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -100,12 +100,13 @@ func (mq *Queries) Find(node *yaml.Node) []*yaml.Node {
 }
 
 func (mq *Queries) Set(val string) error {
-	var q Query
-	if err := yaml.Unmarshal([]byte(val), &q); err != nil {
-		return fmt.Errorf("%w", err)
+	// the option is a query as it stands, not YAML
+	p, err := yamlpath.NewPath(val)
+	if err != nil {
+		return fmt.Errorf("failed to parse the query path %s due to %w", val, err)
 	}
 
-	*mq = append(*mq, q)
+	*mq = append(*mq, Query{yamlPath: p, queryString: val})
 
 	return nil
 }
-- 
2.43.0


From 22d06cd64ce562b6cd297c6c9429bc3d478ad220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 36/64] fix: a text that a block style would change is written
 in another style

---
 internal/actions/style.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 95c83eb..1370e08 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -78,11 +78,34 @@ func setStyle(s Style, n ...*yaml.Node) {
 
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
-			nv.Style = yaml.Style(s)
+			nv.Style = yaml.Style(s.forText(nv.Value))
 		}
 	}
 }
 
+// forText is the style to write a text in, which is another one if the encoder would change the text in this style.
+func (s Style) forText(text string) Style {
+	const block = LiteralStyle | FoldedStyle
+
+	switch {
+	case s&(DoubleQuotedStyle|SingleQuotedStyle) != 0:
+		return s
+	case s&block == 0 && !strings.Contains(text, "\n"):
+		return s
+	case strings.HasPrefix(text, "\n"), strings.HasPrefix(text, "\t"):
+		// a block loses the line break at the start, and must not start with a tab
+		return s&^block | DoubleQuotedStyle
+	case s&FoldedStyle == 0:
+		return s
+	case strings.HasPrefix(text, " "), strings.Contains(text, "\n "), strings.Contains(text, "\n\t"),
+		strings.HasSuffix(text, "\n\n"):
+		// folding adds line breaks around indented lines and at the end
+		return s&^block | LiteralStyle
+	}
+
+	return s
+}
+
 func GetStyleFromConfig(v ...string) Styles {
 	var result Styles
 
-- 
2.43.0


From 86450c2e2ee0e448f36b7ae5eaaad83ba8be73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 37/64] fix: template values are the values as they were read

---
 internal/instructions/values.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index d0920c0..61c83c6 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -41,12 +41,7 @@ func getValues(fileNames []string) (interface{}, error) {
 			return nil, fmt.Errorf("failed to merge yaml values: %w", err)
 		}
 
-		b, err := yaml.Marshal(yamlValues[0])
-		if err != nil {
-			return nil, fmt.Errorf("failed to marshal yaml values: %w", err)
-		}
-
-		if err := yaml.Unmarshal(b, &values); err != nil {
+		if err := yamlValues[0].Decode(&values); err != nil {
 			return nil, fmt.Errorf("failed to unmarshal yaml values: %w", err)
 		}
 	}
-- 
2.43.0


From 69cdde1341994253c33e12aaef7064b0031d9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 38/64] fix: the text << is quoted, as it is a merge otherwise

---
 internal/actions/style.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 1370e08..27895d6 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -79,6 +79,11 @@ func setStyle(s Style, n ...*yaml.Node) {
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(s.forText(nv.Value))
+
+			if nv.Value == "<<" && nv.ShortTag() == "!!str" && s&SingleQuotedStyle == 0 {
+				// the text, not the merge of a map
+				nv.Style |= yaml.DoubleQuotedStyle
+			}
 		}
 	}
 }
-- 
2.43.0


From 0f0bcf5b07c9e6ac57278be97c8f8c9c13fae0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:44 +0000
Subject: [PATCH 39/64] fix: malformed YAML on which the YAML library panics is
 reported

---
 internal/instructions/config.go       |  2 +-
 internal/instructions/instructions.go |  2 +-
 internal/instructions/utils.go        | 14 ++++++++++++++
 internal/instructions/values.go       |  2 +-
 internal/instructions/yamlfile.go     |  2 +-
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b1cc9f7..c49a732 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -184,7 +184,7 @@ func (cfg *Config) ReadAdHocPaths(i *Instructions) error {
 
 func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
 	if cfg.Overlay.Query != nil {
-		if err := yaml.Unmarshal([]byte(cfg.Value), &cfg.Overlay.Value); err != nil {
+		if err := recovered(func() error { return yaml.Unmarshal([]byte(cfg.Value), &cfg.Overlay.Value) }); err != nil {
 			return fmt.Errorf("unable to read overlay value from flag, %w", err)
 		}
 
diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 29ed858..4f871b9 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -102,7 +102,7 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 	}
 
 	dc := yaml.NewDecoder(reader)
-	if err := dc.Decode(&instructions); err != nil {
+	if err := recovered(func() error { return dc.Decode(&instructions) }); err != nil {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 8f4c619..661efdb 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -5,6 +5,7 @@ package instructions
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -13,6 +14,8 @@ import (
 	"strings"
 )
 
+var ErrMalformedYAML = errors.New("malformed YAML")
+
 func ReadStream(fileName string) (io.Reader, error) {
 	if fileName == "-" {
 		return bufio.NewReader(os.Stdin), nil
@@ -33,6 +36,17 @@ func CloseFile(file *os.File) {
 	}
 }
 
+// recovered calls the YAML library, which panics on some malformed texts.
+func recovered(read func() error) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", ErrMalformedYAML, r)
+		}
+	}()
+
+	return read()
+}
+
 // GetCommonPrefix determines the longest common prefix in a set of paths.
 func GetCommonPrefix(sep byte, paths ...string) string {
 	switch len(paths) {
diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 61c83c6..8ea43dc 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -25,7 +25,7 @@ func getValues(fileNames []string) (interface{}, error) {
 
 		yd := yaml.NewDecoder(reader)
 
-		if err := yd.Decode(&yamlValue); err != nil {
+		if err := recovered(func() error { return yd.Decode(&yamlValue) }); err != nil {
 			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
 		}
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 50ec724..6d860ce 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -121,7 +121,7 @@ func (yf *YamlFile) readYamlFile() error {
 	for {
 		var y yaml.Node
 
-		if err := dc.Decode(&y); errors.Is(err, io.EOF) {
+		if err := recovered(func() error { return dc.Decode(&y) }); errors.Is(err, io.EOF) {
 			if reader, ok := reader.(*os.File); ok {
 				CloseFile(reader)
 			}
-- 
2.43.0


From 2953e5a6ba255041244d6b6985496d0643687132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:36 +0000
Subject: [PATCH 40/64] fix: a comment on the line of a map or sequence stays
 there, and the output can be read

---
 internal/instructions/config.go | 37 +++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index c49a732..1eead2b 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -10,6 +10,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/op/go-logging"
 	"github.com/spf13/viper"
@@ -142,6 +143,7 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 
 		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
+		placeComments(node)
 
 		err := ye.Encode(node)
 		if err != nil {
@@ -154,6 +156,41 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 	return output, nil
 }
 
+// placeComments moves the comment on the line of a map or sequence, or of its key, to where the encoder can write it:
+// behind what is on a single line, behind the key of what is below it, and above anything else.
+func placeComments(node *yaml.Node) {
+	for i, v := range node.Content {
+		placeComments(v)
+
+		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode || node.Kind == yaml.MappingNode && i%2 == 0 {
+			continue
+		}
+
+		k := &yaml.Node{}
+		above := v
+
+		if node.Kind == yaml.MappingNode {
+			k = node.Content[i-1]
+			above = k
+		}
+
+		comment := strings.TrimSpace(k.LineComment + " " + v.LineComment)
+		tag := v.ShortTag()
+		plain := v.Anchor == "" && v.Style&yaml.TaggedStyle == 0 && (tag == "!!map" || tag == "!!seq")
+		k.LineComment, v.LineComment = "", ""
+
+		switch {
+		case comment == "":
+		case len(v.Content) == 0 || v.Style&yaml.FlowStyle != 0:
+			v.LineComment = comment
+		case node.Kind == yaml.MappingNode && plain:
+			k.LineComment = comment
+		default:
+			above.HeadComment = strings.TrimSpace(above.HeadComment + "\n" + comment)
+		}
+	}
+}
+
 func (cfg *Config) ReadAdHocPaths(i *Instructions) error {
 	if cfg.Path != "" {
 		yfs := YamlFiles{
-- 
2.43.0


From b8785eac6cf1ad43eba5a7f372d666c0ef0e5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 41/64] fix: a null without text stays null as a key and in
 flow style

---
 internal/instructions/config.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 1eead2b..f9ea13f 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -144,6 +144,7 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
 		placeComments(node)
+		spellNulls(node)
 
 		err := ye.Encode(node)
 		if err != nil {
@@ -191,6 +192,23 @@ func placeComments(node *yaml.Node) {
 	}
 }
 
+// spellNulls spells out the nulls that would be written as an empty text: keys and what is in flow style.
+func spellNulls(node *yaml.Node) {
+	const quoted = yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle
+
+	for i, v := range node.Content {
+		spellNulls(v)
+
+		if key := node.Kind == yaml.MappingNode && i%2 == 0; !key && node.Style&yaml.FlowStyle == 0 {
+			continue
+		}
+
+		if v.Kind == yaml.ScalarNode && v.Value == "" && v.ShortTag() == "!!null" && v.Style&quoted == 0 {
+			v.Value = "null"
+		}
+	}
+}
+
 func (cfg *Config) ReadAdHocPaths(i *Instructions) error {
 	if cfg.Path != "" {
 		yfs := YamlFiles{
-- 
2.43.0


From 2dd99bc8b8ac936203b7b20b9ebeae39f95c245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:31 +0000
Subject: [PATCH 42/64] fix: a text with a space at the start is quoted, as
 blocks in lists would be indented wrongly

---
 internal/actions/style.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 27895d6..743219b 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -97,13 +97,13 @@ func (s Style) forText(text string) Style {
 		return s
 	case s&block == 0 && !strings.Contains(text, "\n"):
 		return s
-	case strings.HasPrefix(text, "\n"), strings.HasPrefix(text, "\t"):
-		// a block loses the line break at the start, and must not start with a tab
+	case strings.HasPrefix(text, "\n"), strings.HasPrefix(text, "\t"), strings.HasPrefix(text, " "):
+		// a block loses the line break at the start, must not start with a tab,
+		// and is indented wrongly in a list if it starts with a space and the indent level is not 2
 		return s&^block | DoubleQuotedStyle
 	case s&FoldedStyle == 0:
 		return s
-	case strings.HasPrefix(text, " "), strings.Contains(text, "\n "), strings.Contains(text, "\n\t"),
-		strings.HasSuffix(text, "\n\n"):
+	case strings.Contains(text, "\n "), strings.Contains(text, "\n\t"), strings.HasSuffix(text, "\n\n"):
 		// folding adds line breaks around indented lines and at the end
 		return s&^block | LiteralStyle
 	}
-- 
2.43.0


From b778d72cb16dc182d59ad1dd9d9305f0f6ff2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 43/64] fix: empty lines at the end of a text are kept if a
 comment follows

---
 internal/instructions/config.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index f9ea13f..fd708d2 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -144,6 +144,7 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
 		placeComments(node)
+		keepLineBreaks(node)
 		spellNulls(node)
 
 		err := ye.Encode(node)
@@ -192,6 +193,33 @@ func placeComments(node *yaml.Node) {
 	}
 }
 
+// keepLineBreaks quotes a text that ends with empty lines if a comment follows, as the encoder would add another line.
+func keepLineBreaks(node *yaml.Node) {
+	for i, v := range node.Content {
+		keepLineBreaks(v)
+
+		if node.Kind == yaml.MappingNode && i%2 == 0 {
+			quoteLastText(v.FootComment, node.Content[i+1])
+		} else {
+			quoteLastText(v.FootComment, v)
+		}
+	}
+
+	if node.Kind == yaml.DocumentNode {
+		quoteLastText(node.FootComment, node)
+	}
+}
+
+func quoteLastText(comment string, node *yaml.Node) {
+	for len(node.Content) != 0 {
+		node = node.Content[len(node.Content)-1]
+	}
+
+	if comment != "" && node.Kind == yaml.ScalarNode && strings.HasSuffix(node.Value, "\n\n") {
+		node.Style = node.Style&^(yaml.LiteralStyle|yaml.FoldedStyle) | yaml.DoubleQuotedStyle
+	}
+}
+
 // spellNulls spells out the nulls that would be written as an empty text: keys and what is in flow style.
 func spellNulls(node *yaml.Node) {
 	const quoted = yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle
-- 
2.43.0


From d0edc6d663fded85034fabb962660fc74163b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 44/64] fix: a text with other line breaks is not written as a
 block, which would change them

---
 internal/actions/style.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 743219b..1625a27 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -97,9 +97,11 @@ func (s Style) forText(text string) Style {
 		return s
 	case s&block == 0 && !strings.Contains(text, "\n"):
 		return s
-	case strings.HasPrefix(text, "\n"), strings.HasPrefix(text, "\t"), strings.HasPrefix(text, " "):
+	case strings.HasPrefix(text, "\n"), strings.HasPrefix(text, "\t"), strings.HasPrefix(text, " "),
+		strings.ContainsAny(text, "\u0085\u2028\u2029"):
 		// a block loses the line break at the start, must not start with a tab,
-		// and is indented wrongly in a list if it starts with a space and the indent level is not 2
+		// is indented wrongly in a list if it starts with a space and the indent level is not 2,
+		// and the encoder takes other line breaks for \n
 		return s&^block | DoubleQuotedStyle
 	case s&FoldedStyle == 0:
 		return s
-- 
2.43.0


From b15d3c0261a127e9eff5b1aa5baf4dd049247e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:18 +0000
Subject: [PATCH 45/64] fix: names in inject paths are not format markers

---
 internal/actions/merge.go      | 51 ++++++++++++++++++++++++++++++++++
 internal/builder/path.go       |  6 ++--
 internal/overlays/onmissing.go |  2 +-
 3 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index f35c547..3e4727a 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -223,6 +223,57 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 	}
 }
 
+// AddPath creates what a document does not have of a path. The names of a path stand for themselves, format markers
+// have no meaning in them.
+func AddPath(document, path *yaml.Node) error {
+	if err := resolveAlias(document); err != nil {
+		return err
+	}
+
+	switch path.Kind {
+	case yaml.DocumentNode:
+		// an overlay may have replaced the document itself
+		if document.Kind != yaml.DocumentNode {
+			return AddPath(document, path.Content[0])
+		}
+
+		if len(document.Content) == 0 {
+			document.Content = path.Content
+
+			return nil
+		}
+
+		return AddPath(document.Content[0], path.Content[0])
+	case yaml.MappingNode:
+		if document.Kind != yaml.MappingNode {
+			document.Kind = yaml.MappingNode
+			document.Tag = "!!map"
+			document.Value = ""
+			document.Content = []*yaml.Node{}
+		}
+
+		for i := 0; i < len(path.Content)-1; i += 2 {
+			if err := addPathEntry(document, path.Content[i], path.Content[i+1]); err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
+func addPathEntry(mapping, key, value *yaml.Node) error {
+	for i := 0; i < len(mapping.Content)-1; i += 2 {
+		if mapping.Content[i].Value == key.Value {
+			return AddPath(mapping.Content[i+1], value)
+		}
+	}
+
+	mapping.Content = append(mapping.Content, key, value)
+
+	return nil
+}
+
 func addNode(o *yaml.Node, nv ...*yaml.Node) error {
 	temp := make([]*yaml.Node, len(nv))
 
diff --git a/internal/builder/path.go b/internal/builder/path.go
index 3a5fd10..4c39f06 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -127,8 +127,10 @@ func (paths *Paths) BuildPaths() (*yaml.Node, error) {
 		yamlNodes[i] = yamlNode
 	}
 
-	if err := actions.MergeNode(yamlNodes...); err != nil {
-		return nil, fmt.Errorf("%w", err)
+	for _, yamlNode := range yamlNodes[1:] {
+		if err := actions.AddPath(yamlNodes[0], yamlNode); err != nil {
+			return nil, fmt.Errorf("%w", err)
+		}
 	}
 
 	return yamlNodes[0], nil
diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index e562aea..1d783c9 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -71,7 +71,7 @@ func (o *Overlay) doInjectPath(ip Queries, node *yaml.Node) error {
 
 	y, _ := bps.BuildPaths()
 
-	err = actions.MergeNode(node, y)
+	err = actions.AddPath(node, y)
 	if err != nil {
 		return fmt.Errorf("failed to merge injectpath scaffolding %s with document, %w", ip, err)
 	}
-- 
2.43.0


From bc00e32bf69ef92ae1cfe1b1992f765bf77c4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:19 +0000
Subject: [PATCH 46/64] fix: map keys that are maps, sequences or aliases are
 compared by what they are

---
 internal/actions/merge.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 3e4727a..7d7c169 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -99,7 +99,7 @@ func mergeMap(o, n *yaml.Node) error {
 			var foundMarker bool
 
 			if foundMarker = checkForMarkers(n.Content[ni].Value); !foundMarker {
-				if o.Content[oi].Value != n.Content[ni].Value {
+				if !sameKey(o.Content[oi], n.Content[ni]) {
 					continue
 				}
 			}
@@ -223,6 +223,29 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 	}
 }
 
+// sameKey compares the keys of maps, which may be aliases, or maps and sequences themselves.
+func sameKey(a, b *yaml.Node) bool {
+	if a.Kind == yaml.AliasNode {
+		a = a.Alias
+	}
+
+	if b.Kind == yaml.AliasNode {
+		b = b.Alias
+	}
+
+	if a.Kind != b.Kind || a.Value != b.Value || len(a.Content) != len(b.Content) {
+		return false
+	}
+
+	for i := range a.Content {
+		if !sameKey(a.Content[i], b.Content[i]) {
+			return false
+		}
+	}
+
+	return true
+}
+
 // AddPath creates what a document does not have of a path. The names of a path stand for themselves, format markers
 // have no meaning in them.
 func AddPath(document, path *yaml.Node) error {
@@ -264,7 +287,7 @@ func AddPath(document, path *yaml.Node) error {
 
 func addPathEntry(mapping, key, value *yaml.Node) error {
 	for i := 0; i < len(mapping.Content)-1; i += 2 {
-		if mapping.Content[i].Value == key.Value {
+		if sameKey(mapping.Content[i], key) {
 			return AddPath(mapping.Content[i+1], value)
 		}
 	}
-- 
2.43.0


From a535bb95d2fd9ea77bcc3e80ae2505ff2e7d8dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:20 +0000
Subject: [PATCH 47/64] fix: the keys a path creates are texts

---
 internal/builder/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index 4c39f06..822fa74 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -182,7 +182,7 @@ func childThen(l *lexer, childName string) (*Path, error) {
 				{
 					Kind:        yaml.ScalarNode,
 					Style:       0,
-					Tag:         "",
+					Tag:         "!!str",
 					Value:       childName,
 					Anchor:      "",
 					Alias:       nil,
@@ -302,7 +302,7 @@ func bracketChildThen(l *lexer, childNames string) (*Path, error) {
 				{
 					Kind:        yaml.ScalarNode,
 					Style:       0,
-					Tag:         "",
+					Tag:         "!!str",
 					Value:       childName,
 					Anchor:      "",
 					Alias:       nil,
-- 
2.43.0


From 4aefbbc3281d457ebe5dc0330f189f40977ed99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:39 +0000
Subject: [PATCH 48/64] fix: a comment below a flow map or sequence in a list
 stays there when it is written as a block

---
 internal/instructions/config.go | 34 +++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index fd708d2..b43d0f6 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -168,6 +168,10 @@ func placeComments(node *yaml.Node) {
 			continue
 		}
 
+		if node.Kind == yaml.SequenceNode {
+			placeFootComment(v)
+		}
+
 		k := &yaml.Node{}
 		above := v
 
@@ -193,6 +197,36 @@ func placeComments(node *yaml.Node) {
 	}
 }
 
+// placeFootComment moves the comment below a block in a list to the last entry of the block, as the encoder would write it
+// after the start of the next item.
+func placeFootComment(node *yaml.Node) {
+	if node.FootComment == "" || !isBlock(node) {
+		return
+	}
+
+	last := node
+
+	for isBlock(last) {
+		entry := last.Content[len(last.Content)-1]
+
+		if last.Kind == yaml.MappingNode && !isBlock(entry) {
+			// the comment below an entry is kept with its key
+			last = last.Content[len(last.Content)-2]
+
+			break
+		}
+
+		last = entry
+	}
+
+	last.FootComment = strings.TrimSpace(last.FootComment + "\n\n" + node.FootComment)
+	node.FootComment = ""
+}
+
+func isBlock(node *yaml.Node) bool {
+	return len(node.Content) != 0 && node.Style&yaml.FlowStyle == 0
+}
+
 // keepLineBreaks quotes a text that ends with empty lines if a comment follows, as the encoder would add another line.
 func keepLineBreaks(node *yaml.Node) {
 	for i, v := range node.Content {
-- 
2.43.0


From d18eea1a620e66405f04f94fe43a321dcaa34b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:15 +0000
Subject: [PATCH 49/64] fix: a comment beside a key that is a map or sequence
 is written above it

---
 internal/instructions/config.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b43d0f6..a7375fc 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -164,7 +164,15 @@ func placeComments(node *yaml.Node) {
 	for i, v := range node.Content {
 		placeComments(v)
 
-		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode || node.Kind == yaml.MappingNode && i%2 == 0 {
+		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
+			continue
+		}
+
+		if node.Kind == yaml.MappingNode && i%2 == 0 {
+			// nothing can be written beside such a key
+			v.HeadComment = strings.TrimSpace(v.HeadComment + "\n" + v.LineComment)
+			v.LineComment = ""
+
 			continue
 		}
 
@@ -189,7 +197,7 @@ func placeComments(node *yaml.Node) {
 		case comment == "":
 		case len(v.Content) == 0 || v.Style&yaml.FlowStyle != 0:
 			v.LineComment = comment
-		case node.Kind == yaml.MappingNode && plain:
+		case plain && (k.Kind == yaml.ScalarNode || k.Kind == yaml.AliasNode):
 			k.LineComment = comment
 		default:
 			above.HeadComment = strings.TrimSpace(above.HeadComment + "\n" + comment)
-- 
2.43.0


From 60dcdd8f8993369a30507437a974a252e865a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:24 +0000
Subject: [PATCH 50/64] fix: the comments beside a tag or anchor and beside its
 text are written on one line

---
 internal/instructions/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index a7375fc..e821870 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -164,6 +164,9 @@ func placeComments(node *yaml.Node) {
 	for i, v := range node.Content {
 		placeComments(v)
 
+		// the line of a tag or anchor may have had a comment of its own
+		v.LineComment = strings.ReplaceAll(v.LineComment, "\n", " ")
+
 		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
 			continue
 		}
-- 
2.43.0


From cdcc51738d5145713ca132a639c01acebb55dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:25 +0000
Subject: [PATCH 51/64] fix: a comment is not written beside the key of a map
 tagged as a sequence, which would cut them apart

---
 internal/instructions/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index e821870..389aba4 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -192,8 +192,8 @@ func placeComments(node *yaml.Node) {
 		}
 
 		comment := strings.TrimSpace(k.LineComment + " " + v.LineComment)
-		tag := v.ShortTag()
-		plain := v.Anchor == "" && v.Style&yaml.TaggedStyle == 0 && (tag == "!!map" || tag == "!!seq")
+		tag := map[yaml.Kind]string{yaml.MappingNode: "!!map", yaml.SequenceNode: "!!seq"}[v.Kind]
+		plain := v.Anchor == "" && v.Style&yaml.TaggedStyle == 0 && v.ShortTag() == tag
 		k.LineComment, v.LineComment = "", ""
 
 		switch {
-- 
2.43.0


From ce939fcac8310ce0b3e7b4c46000c5fadd160cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:37 +0000
Subject: [PATCH 52/64] fix: the comments beside a key and beside its text do
 not take each other's place

---
 internal/instructions/config.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 389aba4..23a6313 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -168,13 +168,17 @@ func placeComments(node *yaml.Node) {
 		v.LineComment = strings.ReplaceAll(v.LineComment, "\n", " ")
 
 		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
+			if node.Kind == yaml.MappingNode && i%2 != 0 && v.LineComment != "" {
+				// there is only one place for both
+				placeAbove(node.Content[i-1])
+			}
+
 			continue
 		}
 
 		if node.Kind == yaml.MappingNode && i%2 == 0 {
 			// nothing can be written beside such a key
-			v.HeadComment = strings.TrimSpace(v.HeadComment + "\n" + v.LineComment)
-			v.LineComment = ""
+			placeAbove(v)
 
 			continue
 		}
@@ -208,6 +212,15 @@ func placeComments(node *yaml.Node) {
 	}
 }
 
+func placeAbove(node *yaml.Node) {
+	if node.LineComment == "" {
+		return
+	}
+
+	node.HeadComment = strings.TrimSpace(node.HeadComment + "\n" + node.LineComment)
+	node.LineComment = ""
+}
+
 // placeFootComment moves the comment below a block in a list to the last entry of the block, as the encoder would write it
 // after the start of the next item.
 func placeFootComment(node *yaml.Node) {
-- 
2.43.0


From 81c4917299deaa8a196b14d7ac1e6a07154d57df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:56 +0000
Subject: [PATCH 53/64] fix: a comment beside the key of an alias is written

---
 internal/instructions/config.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 23a6313..ac24a6f 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -168,9 +168,8 @@ func placeComments(node *yaml.Node) {
 		v.LineComment = strings.ReplaceAll(v.LineComment, "\n", " ")
 
 		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
-			if node.Kind == yaml.MappingNode && i%2 != 0 && v.LineComment != "" {
-				// there is only one place for both
-				placeAbove(node.Content[i-1])
+			if node.Kind == yaml.MappingNode && i%2 != 0 {
+				placeKeyComment(node.Content[i-1], v)
 			}
 
 			continue
@@ -212,6 +211,17 @@ func placeComments(node *yaml.Node) {
 	}
 }
 
+// placeKeyComment moves the comment beside a key if its value has one as well, or cannot have the one of the key.
+func placeKeyComment(key, value *yaml.Node) {
+	switch {
+	case value.LineComment != "":
+		placeAbove(key)
+	case value.Kind == yaml.AliasNode:
+		value.LineComment = key.LineComment
+		key.LineComment = ""
+	}
+}
+
 func placeAbove(node *yaml.Node) {
 	if node.LineComment == "" {
 		return
-- 
2.43.0


From c55f57c93ed863ffbc0b05f33888f93e05b6b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:07 +0000
Subject: [PATCH 54/64] fix: a comment below an entry is written if the next
 key is a map, sequence or alias

---
 internal/instructions/config.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index ac24a6f..dd7f142 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -167,17 +167,25 @@ func placeComments(node *yaml.Node) {
 		// the line of a tag or anchor may have had a comment of its own
 		v.LineComment = strings.ReplaceAll(v.LineComment, "\n", " ")
 
-		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
-			if node.Kind == yaml.MappingNode && i%2 != 0 {
-				placeKeyComment(node.Content[i-1], v)
+		if node.Kind == yaml.MappingNode && i%2 == 0 && v.Kind != yaml.ScalarNode {
+			if v.Kind != yaml.AliasNode {
+				// nothing can be written beside such a key
+				placeAbove(v)
+			}
+
+			if i > 0 && node.Content[i-2].FootComment != "" {
+				// nor what is below the entry before it
+				v.HeadComment = strings.TrimSpace(node.Content[i-2].FootComment + "\n\n" + v.HeadComment)
+				node.Content[i-2].FootComment = ""
 			}
 
 			continue
 		}
 
-		if node.Kind == yaml.MappingNode && i%2 == 0 {
-			// nothing can be written beside such a key
-			placeAbove(v)
+		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
+			if node.Kind == yaml.MappingNode && i%2 != 0 {
+				placeKeyComment(node.Content[i-1], v)
+			}
 
 			continue
 		}
-- 
2.43.0


From 8293ce2f01cca1fbead6f143e45abc750c503a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:38 +0000
Subject: [PATCH 55/64] fix: a comment between a key and its text is kept if
 the next entry has one

---
 internal/instructions/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index dd7f142..659f5c8 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -182,6 +182,13 @@ func placeComments(node *yaml.Node) {
 			continue
 		}
 
+		if node.Kind == yaml.MappingNode && i%2 != 0 && v.HeadComment != "" && !isBlock(v) {
+			// it is written on the line of its key
+			k := node.Content[i-1]
+			k.HeadComment = strings.TrimSpace(k.HeadComment + "\n" + v.HeadComment)
+			v.HeadComment = ""
+		}
+
 		if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
 			if node.Kind == yaml.MappingNode && i%2 != 0 {
 				placeKeyComment(node.Content[i-1], v)
-- 
2.43.0


From 1180f7d8ba3b76e959a18e71c0494c98ab1b5ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:28 +0000
Subject: [PATCH 56/64] fix: what null, a float or a date is combined into has
 the type of the joined text

---
 internal/actions/combine.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 11ca4d8..7911517 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -36,6 +36,8 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 
 	originalValue.Value = value
 
+	setType(originalValue)
+
 	return nil
 }
 
@@ -80,3 +82,11 @@ func combineScalars(originalValue, newValue *yaml.Node) (string, error) {
 func parseInt(s string) (int64, error) {
 	return strconv.ParseInt(strings.ReplaceAll(s, "_", ""), 0, 64)
 }
+
+// setType gives what is not text by its look, and whose text was changed, the type its new text has.
+func setType(n *yaml.Node) {
+	switch n.Tag {
+	case "!!null", "!!bool", "!!int", "!!float", "!!timestamp", "!!merge":
+		n.Tag = (&yaml.Node{Kind: yaml.ScalarNode, Value: n.Value}).ShortTag()
+	}
+}
-- 
2.43.0


From 9be4c14792183e142960386cfb871fdf9eda6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:29 +0000
Subject: [PATCH 57/64] fix: keys that format markers rename keep no type their
 new text does not have, and keys without a text are kept

---
 internal/actions/merge.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 7d7c169..64f3ace 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -125,7 +125,9 @@ func mergeMap(o, n *yaml.Node) error {
 				break
 			}
 
-			mergeScalar(o.Content[oi], n.Content[ni], value, keyName)
+			if err := mergeKey(o.Content[oi], n.Content[ni], value, keyName); err != nil {
+				return err
+			}
 		}
 
 		if !resultFound {
@@ -138,6 +140,23 @@ func mergeMap(o, n *yaml.Node) error {
 	return nil
 }
 
+// mergeKey renames a key. Only scalars have a text that format markers stand for, other keys are kept.
+func mergeKey(o, n *yaml.Node, value, keyName string) error {
+	if err := resolveAlias(o); err != nil {
+		return err
+	}
+
+	if o.Kind == yaml.ScalarNode {
+		mergeScalar(o, n, value, keyName)
+
+		if o.Value != keyName {
+			setType(o)
+		}
+	}
+
+	return nil
+}
+
 func mergeArray(o, n *yaml.Node) error {
 	if o.Kind != yaml.SequenceNode {
 		o.Kind = yaml.SequenceNode
-- 
2.43.0


From 3b54ff709e6d07bdf3da5dbad426210cda163119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:30 +0000
Subject: [PATCH 58/64] fix: format markers stand for the text of an alias, not
 for the name of its anchor

---
 internal/actions/merge.go   | 11 ++++++++++-
 internal/actions/replace.go |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 64f3ace..098003e 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -110,7 +110,7 @@ func mergeMap(o, n *yaml.Node) error {
 				return err
 			}
 
-			keyName := o.Content[oi].Value
+			keyName := scalarText(o.Content[oi])
 			value := o.Content[oi+1].Value
 
 			if !foundMarker {
@@ -242,6 +242,15 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 	}
 }
 
+// scalarText is the text of a scalar, which may be an alias.
+func scalarText(n *yaml.Node) string {
+	if n.Kind == yaml.AliasNode {
+		return n.Alias.Value
+	}
+
+	return n.Value
+}
+
 // sameKey compares the keys of maps, which may be aliases, or maps and sequences themselves.
 func sameKey(a, b *yaml.Node) bool {
 	if a.Kind == yaml.AliasNode {
diff --git a/internal/actions/replace.go b/internal/actions/replace.go
index 7255b45..270b1c3 100644
--- a/internal/actions/replace.go
+++ b/internal/actions/replace.go
@@ -12,6 +12,7 @@ import (
 
 func ReplaceNode(original, replace *yaml.Node) error {
 	ov := *original
+	ov.Value = scalarText(original)
 
 	if replace.Kind == 0 {
 		// a value that was not given is null, a node without a kind cannot be written
-- 
2.43.0


From 4bdb700f13e612094f27fc998285e1c6a27e15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:31 +0000
Subject: [PATCH 59/64] fix: format markers in values files are kept when the
 files are merged

---
 internal/actions/merge.go       | 29 +++++++++++++++++++++++++++++
 internal/instructions/values.go |  4 ++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 098003e..7b8cc26 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -325,6 +325,35 @@ func addPathEntry(mapping, key, value *yaml.Node) error {
 	return nil
 }
 
+// MergeValues merges values for templates over others. They have no aliases, and format markers have no meaning in them.
+func MergeValues(o, n *yaml.Node) {
+	switch {
+	case n.Kind == yaml.DocumentNode && len(n.Content) == 0:
+	case o.Kind != n.Kind, n.Kind == yaml.ScalarNode, len(o.Content) == 0:
+		*o = *n
+	case n.Kind == yaml.DocumentNode:
+		MergeValues(o.Content[0], n.Content[0])
+	case n.Kind == yaml.SequenceNode:
+		o.Content = append(o.Content, n.Content...)
+	case n.Kind == yaml.MappingNode:
+		for i := 0; i < len(n.Content)-1; i += 2 {
+			mergeValue(o, n.Content[i], n.Content[i+1])
+		}
+	}
+}
+
+func mergeValue(mapping, key, value *yaml.Node) {
+	for i := 0; i < len(mapping.Content)-1; i += 2 {
+		if sameKey(mapping.Content[i], key) {
+			MergeValues(mapping.Content[i+1], value)
+
+			return
+		}
+	}
+
+	mapping.Content = append(mapping.Content, key, value)
+}
+
 func addNode(o *yaml.Node, nv ...*yaml.Node) error {
 	temp := make([]*yaml.Node, len(nv))
 
diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 8ea43dc..acdc42e 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -37,8 +37,8 @@ func getValues(fileNames []string) (interface{}, error) {
 	}
 
 	if len(yamlValues) != 0 {
-		if err := actions.MergeNode(yamlValues...); err != nil {
-			return nil, fmt.Errorf("failed to merge yaml values: %w", err)
+		for _, v := range yamlValues[1:] {
+			actions.MergeValues(yamlValues[0], v)
 		}
 
 		if err := yamlValues[0].Decode(&values); err != nil {
-- 
2.43.0


From fa3ef6872e459810cce33872b4cef785de37968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:51 +0000
Subject: [PATCH 60/64] fix: merging no value keeps the type of what is there

---
 internal/actions/merge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 7b8cc26..4761e54 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -42,6 +42,9 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 	}
 
 	switch n.Kind {
+	case 0:
+		// a value that was not given changes nothing
+		return nil
 	case yaml.DocumentNode:
 		return mergeDocument(o, n)
 	case yaml.MappingNode:
-- 
2.43.0


From dd50f33c3ab9336a8c0556383c03d87b21be44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:55 +0000
Subject: [PATCH 61/64] fix: a document query compares the maps a path created
 as maps

---
 internal/builder/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index 822fa74..c09dc8f 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -174,7 +174,7 @@ func childThen(l *lexer, childName string) (*Path, error) {
 		return &yaml.Node{
 			Kind:   yaml.MappingNode,
 			Style:  0,
-			Tag:    "",
+			Tag:    "!!map",
 			Value:  "",
 			Anchor: "",
 			Alias:  nil,
@@ -285,7 +285,7 @@ func bracketChildThen(l *lexer, childNames string) (*Path, error) {
 		node := &yaml.Node{
 			Kind:        yaml.MappingNode,
 			Style:       0,
-			Tag:         "",
+			Tag:         "!!map",
 			Value:       "",
 			Anchor:      "",
 			Alias:       nil,
-- 
2.43.0


From a8be046f2221c0e1f4d127486e1decb81da9c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:16 +0000
Subject: [PATCH 62/64] fix: comments of merged maps and lists know the
 previous value and the key

The comments were formatted after the value was emptied, and with the value
in place of the name of the key.
---
 internal/actions/merge.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 4761e54..9d4f8fd 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -48,9 +48,9 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 	case yaml.DocumentNode:
 		return mergeDocument(o, n)
 	case yaml.MappingNode:
-		return mergeMap(o, n)
+		return mergeMap(o, n, keyName...)
 	case yaml.SequenceNode:
-		return mergeArray(o, n)
+		return mergeArray(o, n, keyName...)
 	case yaml.ScalarNode:
 		mergeScalar(o, n, keyName...)
 	case yaml.AliasNode:
@@ -85,7 +85,9 @@ func mergeDocument(o, n *yaml.Node) error {
 	return nil
 }
 
-func mergeMap(o, n *yaml.Node) error {
+func mergeMap(o, n *yaml.Node, keyName ...string) error {
+	mergeComments(o, n, keyName...)
+
 	if o.Kind != yaml.MappingNode {
 		o.Kind = yaml.MappingNode
 		o.Tag = "!!map"
@@ -93,8 +95,6 @@ func mergeMap(o, n *yaml.Node) error {
 		o.Content = []*yaml.Node{}
 	}
 
-	mergeComments(o, n)
-
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
 
@@ -160,7 +160,9 @@ func mergeKey(o, n *yaml.Node, value, keyName string) error {
 	return nil
 }
 
-func mergeArray(o, n *yaml.Node) error {
+func mergeArray(o, n *yaml.Node, keyName ...string) error {
+	mergeComments(o, n, keyName...)
+
 	if o.Kind != yaml.SequenceNode {
 		o.Kind = yaml.SequenceNode
 		o.Tag = "!!seq"
@@ -168,8 +170,6 @@ func mergeArray(o, n *yaml.Node) error {
 		o.Content = []*yaml.Node{}
 	}
 
-	mergeComments(o, n, o.Value)
-
 	if n.Content != nil {
 		if err := addNode(o, n.Content...); err != nil {
 			return err
-- 
2.43.0


From c49080d7e71d532232e9be6e4edb2636878ac7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:11 +0000
Subject: [PATCH 63/64] fix: walk a listed directory that is a symbolic link

filepath.Walk does not follow a link, so that none of its files were processed.
---
 internal/instructions/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 661efdb..3d0b211 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -99,7 +99,8 @@ func isDirectory(p string) (bool, error) {
 func getFileNames(p string) ([]string, error) {
 	var results []string
 
-	err := filepath.Walk(p,
+	// the separator makes it walk what a symbolic link leads to
+	err := filepath.Walk(p+string(os.PathSeparator),
 		func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				return err
-- 
2.43.0


From d46c84bf9efd9cf826ef52ba2267181cdcca3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:11 +0000
Subject: [PATCH 64/64] fix: output paths that end in . or .. are directories

They were taken for files with an extension, which cannot be opened.
---
 internal/instructions/instructions.go | 2 +-
 internal/instructions/utils.go        | 7 +++++++
 internal/instructions/yamlfile.go     | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 4f871b9..db9dc25 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -137,7 +137,7 @@ func (i *Instructions) setOutputPath() {
 	for _, yf := range i.YamlFiles {
 		if yf.OutputPath == "" {
 			yf.OutputPath = strings.TrimPrefix(yf.Path, pathPrefix)
-		} else if path.Ext(yf.OutputPath) == "" {
+		} else if !namesFile(yf.OutputPath) {
 			yf.OutputPath = path.Join(yf.OutputPath, path.Base(yf.Path))
 		}
 	}
diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 3d0b211..9c2beec 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -85,6 +85,13 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 	return c + string(os.PathSeparator)
 }
 
+// namesFile determines if an output path names a file, which has an extension, and not a directory.
+func namesFile(p string) bool {
+	_, name := path.Split(p)
+
+	return name != "." && name != ".." && path.Ext(name) != ""
+}
+
 // isDirectory determines if the given path is a directory.
 func isDirectory(p string) (bool, error) {
 	fileInfo, err := os.Stat(p)
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 6d860ce..411d77b 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -157,7 +157,7 @@ func (yfs *YamlFiles) expandDirectories() error {
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-			if path.Ext(y[i].OutputPath) != "" {
+			if namesFile(y[i].OutputPath) {
 				return fmt.Errorf("%w, provide a directory for outputPath instead", ErrFoundDirectoryWithPathOutput)
 			}
 			paths, err = getFileNames(y[i].Path)
-- 
2.43.0

