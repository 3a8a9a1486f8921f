From 918af9723358f85af86b3cded3815fb99e784cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:48 +0000
Subject: [PATCH 01/17] fix: list append and prepend no longer share memory
 with the source list or the arguments

---
 collections/implementation/list_helper.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index abac497..0d1ad37 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -17,14 +17,16 @@ type ListHelper struct {
 
 // Add adds elements at the end of the supplied list.
 func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) baseIList {
-	array := list.AsArray()
+	source, added := list.AsArray(), make([]interface{}, len(objects))
 	for i := range objects {
-		objects[i] = lh.Convert(objects[i])
+		added[i] = lh.Convert(objects[i])
 	}
 	if prepend {
-		array, objects = objects, array
+		source, added = added, source
 	}
-	return lh.AsList(append(array, objects...))
+	// The result must not share its memory with the list nor with the supplied objects
+	result := make([]interface{}, 0, len(source)+len(added))
+	return lh.AsList(append(append(result, source...), added...))
 }
 
 // Clone returns a copy of the supplied list.
-- 
2.43.0


From d0ad57134f6089a370eddb90bb89a635d19ef4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 02/17] fix: cloning a list holding a single list no longer
 flattens it

---
 collections/implementation/list_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 0d1ad37..cbc1c40 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -31,7 +31,7 @@ func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) b
 
 // Clone returns a copy of the supplied list.
 func (lh ListHelper) Clone(list baseIList) baseIList {
-	return lh.NewList(list.AsArray()...)
+	return lh.Add(lh.CreateList(), false, list.AsArray()...)
 }
 
 // Contains indicates if the list contains all specified elements
-- 
2.43.0


From 6899d324c33b11efc42714c3831515c7cfa80eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:54 +0000
Subject: [PATCH 03/17] fix: removing list positions no longer alters the
 caller's indexes

---
 collections/implementation/list_helper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index cbc1c40..a82fab7 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -168,12 +168,14 @@ func (lh ListHelper) Intersect(list baseIList, values ...interface{}) baseIList
 
 // Remove returns a new list without the element specified.
 func (lh ListHelper) Remove(list baseIList, indexes ...int) baseIList {
+	positions := make([]int, len(indexes))
 	for i, index := range indexes {
 		if index < 0 {
-			indexes[i] += list.Len()
+			index += list.Len()
 		}
+		positions[i] = index
 	}
-	discard := collections.AsList(indexes)
+	discard := collections.AsList(positions)
 	target := list.Create(0, list.Len())
 	for i := range list.AsArray() {
 		if !discard.Contains(i) {
-- 
2.43.0


From 148781da404337ef6316bc6a53f33f671ff414e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:58 +0000
Subject: [PATCH 04/17] fix: merging several dictionaries no longer alters
 nested dictionaries of the sources

---
 collections/implementation/dict_helper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index e2dfc6a..f24744f 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -144,6 +144,10 @@ func (dh DictHelper) deepMerge(target baseIDict, source baseIDict) baseIDict {
 		targetValue, targetHasKey := targetMap[key]
 
 		if sourceHasKey && !targetHasKey {
+			if sourceDict, isDict := sourceValue.(baseIDict); isDict {
+				// The nested dictionary is copied, otherwise merging the following sources would alter this one
+				sourceValue = dh.Clone(sourceDict, nil)
+			}
 			targetMap[key] = sourceValue
 			continue
 		}
-- 
2.43.0


From 5c02794eb01b621c87845cf0c95f6e7dd642d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 05/17] fix: cloning a dictionary also copies the collections
 nested in its lists

---
 collections/implementation/dict_helper.go | 24 +++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index f24744f..470d4c9 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -35,17 +35,25 @@ func (dh DictHelper) Clone(dict baseIDict, keys []interface{}) baseIDict {
 	}
 	newDict := dh.CreateDictionary(dict.Len())
 	for i := range keys {
-		value := dict.Get(keys[i])
-		if value != nil {
-			if v, err := dh.TryAsDictionary(value); err == nil {
-				value = dh.Clone(v, nil)
-			} else if v, err := dh.TryAsList(value); err == nil {
-				value = dh.ConvertList(v.Clone())
+		newDict.Set(keys[i], dh.cloneValue(dict.Get(keys[i])))
+	}
+	return newDict
+}
+
+// cloneValue returns a distinct copy of dictionaries and lists (at any depth), other values are returned as is.
+func (dh DictHelper) cloneValue(value interface{}) interface{} {
+	if value != nil {
+		if v, err := dh.TryAsDictionary(value); err == nil {
+			return dh.Clone(v, nil)
+		} else if v, err := dh.TryAsList(value); err == nil {
+			result := dh.CreateList(v.Len())
+			for i, item := range v.AsArray() {
+				result.Set(i, dh.cloneValue(item))
 			}
+			return result
 		}
-		newDict.Set(keys[i], value)
 	}
-	return newDict
+	return value
 }
 
 // Default returns defVal if dictionary doesn't contain key, otherwise, simply returns entry corresponding to key.
-- 
2.43.0


From af42d8780d4c6f0ae7093c81e68af17f1c67fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 06/17] fix: numbers out of the int range keep their value when
 JSON or XML is read

---
 json/json.go | 3 ++-
 xml/xml.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/json/json.go b/json/json.go
index 6ebaa08..d9b8559 100644
--- a/json/json.go
+++ b/json/json.go
@@ -68,7 +68,8 @@ func transformElement(source interface{}) interface{} {
 		source = value
 	} else if value, ok := source.(float64); ok {
 		// json.Unmarshal returns all int values as float64
-		if math.Floor(value) == value {
+		// Those that an int cannot represent remain float64
+		if math.Floor(value) == value && value >= math.MinInt64 && value < -math.MinInt64 {
 			source = int(value)
 		}
 	}
diff --git a/xml/xml.go b/xml/xml.go
index 8cd2afe..0056c04 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -67,7 +67,8 @@ func transformElement(source interface{}) interface{} {
 		source = value
 	} else if value, ok := source.(float64); ok {
 		// xml.Unmarshal returns all int values as float64
-		if math.Floor(value) == value {
+		// Those that an int cannot represent remain float64
+		if math.Floor(value) == value && value >= math.MinInt64 && value < -math.MinInt64 {
 			source = int(value)
 		}
 	}
-- 
2.43.0


From 2e94dc737288486a98beb2ccc3af260bcb033109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 07/17] fix: simplify keeps the float results that an int64
 cannot represent

---
 template/math_utilities.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/template/math_utilities.go b/template/math_utilities.go
index 86df30e..f35eda3 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -127,7 +127,9 @@ func convertArgs(arg1 interface{}, args ...interface{}) (result collections.IGen
 }
 
 func simplify(value float64) interface{} {
-	return iif(math.Floor(value) == value, int64(value), value)
+	// Only the integral values that an int64 can represent are converted
+	isInt := math.Floor(value) == value && value >= math.MinInt64 && value < -math.MinInt64
+	return iif(isInt, int64(value), value)
 }
 
 func compareNumerics(values []interface{}, useMinFunc bool) interface{} {
-- 
2.43.0


From 1abff698c5d453e2d34e648067106d28c75e8e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:55 +0000
Subject: [PATCH 08/17] fix: slicing entirely out of the limits gives an empty
 result instead of an error

---
 template/slice.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/slice.go b/template/slice.go
index de7ed0e..052f5b8 100644
--- a/template/slice.go
+++ b/template/slice.go
@@ -122,8 +122,8 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 	}
 
 	// For slice operation, there is no error if the index are of limit
-	end = int(min(end, length).(int64))
-	begin = int(max(begin, 0).(int64))
+	end = int(max(min(end, length), 0).(int64))
+	begin = int(min(max(begin, 0), end).(int64))
 
 	if value.Kind() == reflect.String {
 		// String slices are returned as string instead of array of runes
-- 
2.43.0


From 33db11832a86f3009990c577b40a58257ab702ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:58 +0000
Subject: [PATCH 09/17] fix: restoring a text whose tokens were not made by
 Protect no longer fails

---
 collections/string.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/string.go b/collections/string.go
index 0b3e895..109ebe9 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -445,7 +445,11 @@ func (s String) Protect() (result String, array StringArray) {
 // RestoreProtected restores a string transformed by ProtectString to its original value.
 func (s String) RestoreProtected(array StringArray) String {
 	return String(replacementRegex.ReplaceAllStringFunc(s.Str(), func(match string) string {
-		index := must(strconv.Atoi(replacementRegex.FindStringSubmatch(match)[1])).(int)
+		index, err := strconv.Atoi(replacementRegex.FindStringSubmatch(match)[1])
+		if err != nil || index >= len(array) {
+			// This is not a token generated by Protect
+			return match
+		}
 		return array[index].Str()
 	}))
 }
-- 
2.43.0


From ed361d3fdee814ec33744c16c3eb568fe0d0130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:58 +0000
Subject: [PATCH 10/17] fix: a command line context made only of unnamed values
 no longer fails

---
 context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/context.go b/context.go
index 20c0620..a7bf102 100644
--- a/context.go
+++ b/context.go
@@ -152,6 +152,10 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 	}
 
 	if len(unnamed) > 0 {
+		if context == nil {
+			// There are only unnamed values, so we create the context with the default collection type
+			context = collections.CreateDictionary()
+		}
 		context.Set("ARGS", unnamed)
 	}
 	return context, nil
-- 
2.43.0


From 60fa4c2829fa1eb96fb15e6a01b07da7c19b44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:27 +0000
Subject: [PATCH 11/17] fix: pluck returns the values it finds

---
 template/extra_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index df47fb3..a9ed3ea 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -546,7 +546,7 @@ func pluck(key interface{}, dicts ...iDictionary) iList {
 	result := collections.CreateList(0, len(dicts))
 	for i := range dicts {
 		if dicts[i].Has(key) {
-			result.Append(dicts[i].Get(key))
+			result = result.Append(dicts[i].Get(key))
 		}
 	}
 	return result
-- 
2.43.0


From 3d8c0668e8a943d41e1c7788e6ae0f720997df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 12/17] fix: int, min and max no longer panic on values that
 are not numbers or on empty lists

---
 template/extra_math.go     | 5 ++++-
 template/math_utilities.go | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/template/extra_math.go b/template/extra_math.go
index 84dbda7..49c9b1a 100644
--- a/template/extra_math.go
+++ b/template/extra_math.go
@@ -33,7 +33,10 @@ var mathBaseFuncs = dictionary{
 	"sub":   subtract,
 	"trunc": trunc,
 
-	"int": func(v interface{}) int { return int(errors.Must(floor(v)).(int64)) },
+	"int": func(v interface{}) (r int, err error) {
+		defer func() { err = trapError(err, recover()) }()
+		return int(errors.Must(floor(v)).(int64)), nil
+	},
 }
 
 var mathStatFuncs = dictionary{
diff --git a/template/math_utilities.go b/template/math_utilities.go
index f35eda3..5c6382a 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -140,6 +140,9 @@ func compareNumerics(values []interface{}, useMinFunc bool) interface{} {
 	if err != nil {
 		return compareStrings(values, useMinFunc)
 	}
+	if len(numerics) == 0 {
+		return nil
+	}
 	result := numerics[0]
 	comp := iif(useMinFunc, math.Min, math.Max).(func(a, b float64) float64)
 	for _, value := range numerics[1:] {
@@ -150,6 +153,9 @@ func compareNumerics(values []interface{}, useMinFunc bool) interface{} {
 
 func compareStrings(values []interface{}, useMinFunc bool) (result string) {
 	sa := collections.ToStrings(values)
+	if len(sa) == 0 {
+		return
+	}
 	result = sa[0]
 	for _, value := range sa[1:] {
 		if (useMinFunc && value < result) || (!useMinFunc && value > result) {
-- 
2.43.0


From 978545cf3064d62a1e05ff8e789d4a5987e454fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:57 +0000
Subject: [PATCH 13/17] fix: deriving a context no longer alters the functions
 of its parent

---
 template/func_table.go | 16 +++++++++++-----
 template/template.go   |  1 +
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/template/func_table.go b/template/func_table.go
index 1cb2b1d..39c01d8 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -232,15 +232,21 @@ func (t *Template) addFunctions(funcMap funcTableMap) *Template {
 	if t.functions == nil {
 		t.functions = make(funcTableMap)
 	}
+	// The supplied map may be shared, so the aliases are added to a copy of it
+	added := make(funcTableMap, len(funcMap))
 	for key, value := range funcMap {
 		value.name = key
-		t.functions[key] = value
-		for i := range value.aliases {
-			funcMap[value.aliases[i]] = &FuncInfo{alias: value, function: value.function, name: value.aliases[i]}
-			t.functions[value.aliases[i]] = funcMap[value.aliases[i]]
+		added[key] = value
+	}
+	for _, value := range funcMap {
+		for _, alias := range value.aliases {
+			added[alias] = &FuncInfo{alias: value, function: value.function, name: alias}
 		}
 	}
-	t.Funcs(funcMap.convert())
+	for key, value := range added {
+		t.functions[key] = value
+	}
+	t.Funcs(added.convert())
 	return t
 }
 
diff --git a/template/template.go b/template/template.go
index 070ebb8..2c55940 100644
--- a/template/template.go
+++ b/template/template.go
@@ -197,6 +197,7 @@ func (t *Template) GetNewContext(folder string, useCache bool) *Template {
 
 	newTemplate := Template(*t)
 	newTemplate.Template = template.New(folder)
+	newTemplate.functions = nil // The new context has its own table, it must not alter the one of its parent
 	newTemplate.addFunctions(t.functions)
 	newTemplate.addFunctions(t.aliases)
 	newTemplate.init(folder)
-- 
2.43.0


From 44bb09d96b0def37ff425669a215f2c59c7aa5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:00 +0000
Subject: [PATCH 14/17] fix: failing to write one file or printing a Terraform
 file no longer stops the processing

---
 template/template_handler.go | 14 +++++++++++---
 template/template_process.go |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 44e1b68..305bab5 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -108,14 +108,22 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	mode := must(os.Stat(template)).(os.FileInfo).Mode()
+	info, err := os.Stat(template)
+	if err != nil {
+		return
+	}
+	mode := info.Mode()
 
 	if sourceFolder != targetFolder {
-		must(os.MkdirAll(filepath.Dir(resultFile), 0777))
+		if err = os.MkdirAll(filepath.Dir(resultFile), 0777); err != nil {
+			return
+		}
 	} else if !isTemplate && !t.options[Overwrite] {
 		newName := template + ".original"
 		InternalLog.Infof("%s => %s", utils.Relative(t.folder, template), utils.Relative(t.folder, newName))
-		must(os.Rename(template, template+".original"))
+		if err = os.Rename(template, newName); err != nil {
+			return
+		}
 	}
 	InternalLog.Infoln("Writing file", utils.Relative(t.folder, resultFile))
 
diff --git a/template/template_process.go b/template/template_process.go
index 3f60442..7b36f29 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -53,7 +53,7 @@ func (t *Template) ProcessTemplates(sourceFolder, targetFolder string, templates
 func (t *Template) printResult(source, target, result string, changed bool) (err error) {
 	if utils.IsTerraformFile(target) {
 		base := filepath.Base(target)
-		tempFolder := must(os.CreateTemp(t.tempFolder, base)).(string)
+		tempFolder := must(os.MkdirTemp(t.tempFolder, base)).(string)
 		tempFile := filepath.Join(tempFolder, base)
 		err = os.WriteFile(tempFile, []byte(result), 0644)
 		if err != nil {
-- 
2.43.0


From e30133dadef0d12cde6ef3bb2c82a20dd8c00091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:32 +0000
Subject: [PATCH 15/17] fix: splitting an empty text at an empty separator no
 longer panics

---
 collections/string_util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/string_util.go b/collections/string_util.go
index 0c75575..29a8507 100644
--- a/collections/string_util.go
+++ b/collections/string_util.go
@@ -111,7 +111,9 @@ func JoinLines(objects ...interface{}) string {
 // Split2 returns left and right part of a split.
 func Split2(source, sep string) (left, right string) {
 	split := strings.SplitN(source, sep, 2)
-	left = split[0]
+	if len(split) > 0 {
+		left = split[0]
+	}
 	if len(split) > 1 {
 		right = split[1]
 	}
-- 
2.43.0


From 70d815296fa6ae920e3289733115d7cd927cd677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 16/17] fix: a document that only repeats its error was
 rendered again forever

---
 template/template_error_handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 67241fc..a1db11a 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -22,6 +22,7 @@ type errorHandler struct {
 }
 
 func (t errorHandler) Handler(err error) (string, bool, error) {
+	initialErr := err
 	if t.Lines == nil {
 		t.Lines = strings.Split(t.Source, "\n")
 	}
@@ -157,7 +158,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		if err != nil {
 			err = fmt.Errorf("%s%s%s", color.WhiteString(matches[tagLocation]), errorText, errorLine)
 		}
-		if lines[faultyLine] != currentLine.Str() || strings.Contains(err.Error(), noValueError) {
+		if lines[faultyLine] != currentLine.Str() {
 			// If we changed something in the current text, we try to continue the evaluation to get further errors
 			newCode := strings.Join(lines, "\n")
 			if err != nil {
@@ -178,6 +179,10 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			}
 			return result, changed, err
 		}
+		if err == nil {
+			// The error was ignored, but there was nothing to change to get rid of it
+			err = initialErr
+		}
 	}
 	return "", true, err
 }
-- 
2.43.0


From b60881a94118fe35c66ca201757564603da854a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:23 +0000
Subject: [PATCH 17/17] fix: center a text in widths beyond the limit of fmt

---
 collections/string_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/string_util.go b/collections/string_util.go
index 29a8507..ceabbc3 100644
--- a/collections/string_util.go
+++ b/collections/string_util.go
@@ -21,7 +21,7 @@ func CenterString(s string, width int) string {
 	}
 	left := (width - l) / 2
 	right := width - left - l
-	return fmt.Sprintf("%[2]*[1]s%[4]s%[3]*[1]s", "", left, right, s)
+	return strings.Repeat(" ", left) + s + strings.Repeat(" ", right)
 }
 
 // WrapString wraps long string according to the supplied width
-- 
2.43.0

