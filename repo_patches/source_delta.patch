From a6aa49668014b5ce231cf5946f4af620186b91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 01/58] fix: read env files with lines longer than 64K and
 report read errors

bufio.Scanner stops at a line over 64K; its error was ignored, so every value
from that line on was silently lost.
---
 pkg/core/model/proto.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1db1472..c459394 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -35,6 +36,8 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	scanner := bufio.NewScanner(reader)
+	// The default limit (64K) would silently drop the rest of the file after a long value
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		text := scanner.Text()
@@ -55,7 +58,7 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
-- 
2.43.0


From 55fbcf0cfcc891abf278917ef5943960ca0bd470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 02/58] fix: splitting after an escaped separator skipped a
 character or crashed

Removing the backslash of '\:' shortens the argument, but the search index was
not moved back: the next separator was missed, and an argument ending in '\:'
made the search start past its end.
---
 pkg/core/parser/sequence.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index cda7e53..58fca79 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -43,6 +43,8 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			//  2. this is a workaround, we also need to handle '\\', '\\\', ... things like that
 			if searchIdx >= 1 && "\\" == arg[searchIdx-1:searchIdx] {
 				arg = arg[0:searchIdx-1] + arg[searchIdx:]
+				// The removed '\' moved the rest of the arg one byte to the front
+				searchIdx -= 1
 				continue
 			}
 			unbreakable := false
-- 
2.43.0


From d2c1aa41975b9fe21f1c5ab7bc472f517ce9dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 03/58] fix: an escaped separator standing alone was taken as a
 separator

Parse told separators from arguments by their text, so an argument that is just
'\:' (or one with nothing around it, like in 'a:\:') still split the commands.
---
 pkg/core/parser/sequence.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index 58fca79..4cee1c2 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -23,8 +23,15 @@ func NewSequenceParser(
 }
 
 func (self *SequenceParser) Normalize(argv []string) []string {
+	res, _ := self.normalize(argv)
+	return res
+}
+
+// An escaped separator could be the whole text of an arg, so the real separators are marked in isSep
+func (self *SequenceParser) normalize(argv []string) (res []string, isSep map[int]bool) {
 	sepN := len(self.sep)
-	res := []string{}
+	res = []string{}
+	isSep = map[int]bool{}
 	for _, arg := range argv {
 		if len(arg) == 0 {
 			res = append(res, arg)
@@ -71,25 +78,23 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			if handledIdx != searchIdx {
 				res = append(res, arg[handledIdx:searchIdx])
 			}
+			isSep[len(res)] = true
 			res = append(res, self.sep)
 			handledIdx = searchIdx + sepN
 		}
 	}
-	return res
+	return
 }
 
 func (self *SequenceParser) Parse(argv []string) (parsed [][]string, firstIsGlobal bool) {
-	argv = self.Normalize(argv)
+	argv, isSep := self.normalize(argv)
 
-	firstIsGlobal = true
-	if len(argv) != 0 && argv[0] == self.sep {
-		firstIsGlobal = false
-	}
+	firstIsGlobal = !isSep[0]
 
 	parsed = [][]string{}
 	curr := []string{}
-	for _, arg := range argv {
-		if arg != self.sep {
+	for i, arg := range argv {
+		if !isSep[i] {
 			arg = strings.TrimSpace(arg)
 			//if len(arg) != 0 {
 			curr = append(curr, arg)
-- 
2.43.0


From e93532cd166a815cea3ad36ed24a60d97e0fb2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 04/58] fix: the unparsed rest of arguments was cut out of the
 wrong list

genResult used the offset inside a string as an index of the argument list, so
leftover text (e.g. in 'c a=b c=d=' or '{a= b=c}') was dropped silently or
crashed the parser with a slice error.
---
 pkg/core/parser/env.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index 9a6ce2b..c17664f 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -79,7 +79,7 @@ func (self *EnvParser) TryParseRaw(
 		}
 		originIdx := normalized.originIdx[normalizedIdx]
 		originStrIdx := normalized.originStrIdx[normalizedIdx]
-		return tryTrimStrings(input[originIdx:][originStrIdx:])
+		return tryTrimStrings(append([]string{input[originIdx][originStrIdx:]}, input[originIdx+1:]...))
 	}
 
 	// It's non-args env definition
-- 
2.43.0


From 36a0427791b78021227bfc849cfcc6cc6d34025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 05/58] fix: text between a system argument and its value was
 dropped

'%delay <text> <value>' was accepted whatever stood where the '=' should be.
---
 pkg/core/parser/env.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index c17664f..ae1f2c0 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -138,6 +138,9 @@ func (self *EnvParser) TryParseRaw(
 		}
 	} else {
 		for ; i+2 < len(rest); i += 3 {
+			if rest[i+1] != self.kvSep {
+				return tryTrimParsedEnv(env), genResult(i)
+			}
 			value := rest[i+2]
 			key, normalized := model.SysArgRealnameAndNormalizedValue(rest[i], self.sysArgPrefix, value)
 			if len(key) != 0 {
@@ -145,7 +148,7 @@ func (self *EnvParser) TryParseRaw(
 				continue
 			}
 			key = args.Realname(rest[i])
-			if len(key) == 0 || rest[i+1] != self.kvSep {
+			if len(key) == 0 {
 				return tryTrimParsedEnv(env), genResult(i)
 			}
 			env[key] = model.NewParsedEnvArgv(rest[i], value)
-- 
2.43.0


From 73c6957de43a841d78fa069e03e24250c30f9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 06/58] fix: registering a taken command name or abbreviation
 replaced or half-registered a command

---
 pkg/core/model/cmds.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmds.go b/pkg/core/model/cmds.go
index 16aa5b9..b30d3f0 100644
--- a/pkg/core/model/cmds.go
+++ b/pkg/core/model/cmds.go
@@ -248,7 +248,7 @@ func (self *CmdTree) ReplaceCmdWithPowerCmd(cmd PowerCmd) (old *Cmd) {
 }
 
 func (self *CmdTree) AddSub(name string, abbrs ...string) *CmdTree {
-	if old, ok := self.subs[name]; ok && old.name != name {
+	if old, ok := self.subs[name]; ok {
 		err := &CmdTreeErrSubCmdConflicted{
 			fmt.Sprintf("sub-cmd name conflicted: %s", name),
 			self.Path(),
@@ -257,12 +257,13 @@ func (self *CmdTree) AddSub(name string, abbrs ...string) *CmdTree {
 		}
 		panic(err)
 	}
+	// Nothing is registered if the name or an abbr is already taken
+	self.addSubAbbrs(name, abbrs...)
 	sub := NewCmdTree(self.Strs)
 	sub.name = name
 	sub.parent = self
 	self.subs[name] = sub
 	self.subOrderedNames = append(self.subOrderedNames, name)
-	self.addSubAbbrs(name, abbrs...)
 	self.subAbbrsRevIdx[name] = name
 	return sub
 }
@@ -508,6 +509,11 @@ func (self *CmdTree) addSubAbbrs(name string, abbrs ...string) {
 			}
 			panic(err)
 		}
+	}
+	for _, abbr := range append([]string{name}, abbrs...) {
+		if len(abbr) == 0 || self.subAbbrsRevIdx[abbr] == name {
+			continue
+		}
 		self.subAbbrsRevIdx[abbr] = name
 		olds, _ := self.subAbbrs[name]
 		self.subAbbrs[name] = append(olds, abbr)
-- 
2.43.0


From a708e9c8e0a8498248c1bef88d7c33e5f191e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 07/58] fix: registering a taken env key name or abbreviation
 replaced or half-registered a key

---
 pkg/core/model/env_abbr.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/env_abbr.go b/pkg/core/model/env_abbr.go
index d40a378..445b91b 100644
--- a/pkg/core/model/env_abbr.go
+++ b/pkg/core/model/env_abbr.go
@@ -29,16 +29,17 @@ func NewEnvAbbrs(rootDisplayName string) *EnvAbbrs {
 }
 
 func (self *EnvAbbrs) AddSub(name string, abbrs ...string) *EnvAbbrs {
-	if old, ok := self.subs[name]; ok && old.name != name {
+	if _, ok := self.subs[name]; ok {
 		panic(fmt.Errorf("[EnvAbbrs.AddSub] %s: sub-node name conflicted: %s",
 			self.DisplayPath(), name))
 	}
+	// Nothing is registered if the name or an abbr is already taken
+	self.AddSubAbbrs(name, abbrs...)
 	sub := NewEnvAbbrs(self.rootDisplayName)
 	sub.name = name
 	sub.parent = self
 	self.subs[name] = sub
 	self.subOrderedNames = append(self.subOrderedNames, name)
-	self.AddSubAbbrs(name, abbrs...)
 	self.subAbbrsRevIdx[name] = name
 	return sub
 }
@@ -58,6 +59,11 @@ func (self *EnvAbbrs) AddSubAbbrs(name string, abbrs ...string) {
 					"old for '%s', new for '%s'",
 				self.DisplayPath(), abbr, old, name))
 		}
+	}
+	for _, abbr := range append([]string{name}, abbrs...) {
+		if len(abbr) == 0 || self.subAbbrsRevIdx[abbr] == name {
+			continue
+		}
 		self.subAbbrsRevIdx[abbr] = name
 		olds, _ := self.subAbbrs[name]
 		self.subAbbrs[name] = append(olds, abbr)
-- 
2.43.0


From e626c8b3aa050d4a21b6f8d2dfe3bac213e57eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 08/58] fix: argument values with quotes, backslashes or shell
 characters broke the saved flow

---
 pkg/core/model/flow.go | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 5bbb3b8..8f28e5f 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -6,8 +6,6 @@ import (
 	"io"
 	"sort"
 	"strings"
-
-	"github.com/innerr/ticat/pkg/utils"
 )
 
 func SaveFlowToStr(flow *ParsedCmds, cmdPathSep string, trivialMark string, env *Env) string {
@@ -107,8 +105,7 @@ func SaveFlowEnv(
 		if strings.HasPrefix(k, prefix) && len(k) != len(prefix) {
 			k = strings.Join(v.MatchedPath[len(prefixPath):], pathSep)
 		}
-		val := normalizeEnvVal(v.Val, seqSep)
-		kv := fmt.Sprintf("%v%s%v", k, envKeyValSep, utils.QuoteStrIfHasSpace(val))
+		kv := normalizeEnvStr(k, seqSep) + envKeyValSep + normalizeEnvStr(v.Val, seqSep)
 		kvs = append(kvs, kv)
 	}
 
@@ -120,24 +117,14 @@ func SaveFlowEnv(
 	return true
 }
 
-func normalizeEnvVal(v string, seqSep string) string {
-	i := 0
-	for i < len(v) {
-		origin := i
-		i = strings.Index(v[i:], seqSep)
-		if i < 0 {
-			break
-		}
-		i += origin
-		if i > len(BackSlash) && v[i-len(BackSlash):i] == BackSlash {
-			i += len(seqSep)
-			continue
-		}
-		// NOTE: shellwords in 'cmd.go#FlowStrToStrs' will eat the single '\', so double '\\' is needed
-		v = v[0:i] + BackSlash + BackSlash + seqSep + v[i+len(seqSep):]
-		i += len(BackSlash)*2 + len(seqSep)
+// Escape the sequence-sep, then quote the string for shellwords, which splits the saved text in 'cmd.go#FlowStrToStrs'
+func normalizeEnvStr(v string, seqSep string) string {
+	v = strings.ReplaceAll(v, seqSep, BackSlash+seqSep)
+	v = strings.ReplaceAll(v, BackSlash, BackSlash+BackSlash)
+	if strings.IndexAny(v, " \t\r\n\"'`();&|<>") < 0 {
+		return v
 	}
-	return v
+	return "\"" + strings.ReplaceAll(v, "\"", BackSlash+"\"") + "\""
 }
 
 // TODO: put '\' to env
-- 
2.43.0


From a083ddee81d1e6ff3cc467d9031023c2cfcffb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 09/58] fix: a setting whose key starts with a registered key
 lost the rest of the key when its flow was saved

---
 pkg/core/parser/env.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index ae1f2c0..bb32a5b 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -98,8 +98,10 @@ func (self *EnvParser) TryParseRaw(
 				matchedEnvPath, matched := envAbbrs.TryMatch(key, self.envPathSep)
 				if matched {
 					key = strings.Join(matchedEnvPath, self.envPathSep)
+					env[key] = model.ParsedEnvVal{value, false, false, matchedEnvPath, key}
+				} else {
+					env[key] = model.NewParsedEnvVal(key, value)
 				}
-				env[key] = model.ParsedEnvVal{value, false, false, matchedEnvPath, strings.Join(matchedEnvPath, self.envPathSep)}
 			} else {
 				env[key] = model.NewParsedEnvVal(key, value)
 			}
-- 
2.43.0


From 6509f83c9dadebc58a48410902a7d3fb5c57a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 10/58] fix: a repeated section of a meta file dropped the
 first one, and a meta file that was read could not be saved

---
 pkg/mods/persist/meta_file/meta_file.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 6ae526d..c5f8f87 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -137,10 +137,8 @@ func (self *MetaFile) GetAll() SectionMap {
 }
 
 func (self *MetaFile) parse(lines []string) {
-	var sectionName string
-	section := NewSection()
+	section := self.GetGlobalSection()
 	global := section
-	self.sections[sectionName] = section
 
 	var multiLineKey string
 	var multiLineValue []string
@@ -225,9 +223,7 @@ func (self *MetaFile) parse(lines []string) {
 				}
 				global.SetMultiLineVal(k, v)
 			} else {
-				sectionName = line[1 : size-1]
-				section = NewSection()
-				self.sections[sectionName] = section
+				section = self.NewOrGetSection(line[1 : size-1])
 			}
 			continue
 		}
-- 
2.43.0


From 346098dd1469f4563ee436c459879abb48118f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 11/58] fix: a multi-line value at the end of a meta file was
 lost

---
 pkg/mods/persist/meta_file/meta_file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index c5f8f87..4b42aa0 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -240,6 +240,11 @@ func (self *MetaFile) parse(lines []string) {
 		}
 		section.Set(k, v)
 	}
+
+	// The file ends inside a multi-line value
+	if len(multiLineKey) != 0 {
+		section.Set(multiLineKey, strings.Join(multiLineValue, "\n"))
+	}
 }
 
 func (self *MetaFile) Save() {
-- 
2.43.0


From 2fd0132214a803e9d0df020238e48eb75963b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 12/58] fix: a saved value with blank lines at its end
 swallowed the keys behind it

---
 pkg/mods/persist/meta_file/meta_file.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 4b42aa0..97683d2 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -259,9 +259,10 @@ func (self *MetaFile) Save() {
 
 func (self *MetaFile) save(w io.Writer) {
 	saveKey := func(key string, val string) (multiLine bool) {
-		lines := strings.Split(val, self.lineSep)
+		// Blank lines at the end can't be the last line of a multi-line value
+		lines := strings.Split(strings.TrimRight(val, self.lineSep), self.lineSep)
 		if len(lines) == 1 {
-			fmt.Fprintf(w, "%s %s %s\n", key, self.kvSep, val)
+			fmt.Fprintf(w, "%s %s %s\n", key, self.kvSep, lines[0])
 			return false
 		} else {
 			fmt.Fprintf(w, "%s %s %s %c\n", key, self.kvSep, lines[0], MultiLineBreaker)
-- 
2.43.0


From 6ab6afdd8be54aef35206e578d95c9b7450970da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 13/58] fix: global keys of a meta file were saved into the
 section before them

---
 pkg/mods/persist/meta_file/meta_file.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 97683d2..3d1ed8e 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -278,7 +278,18 @@ func (self *MetaFile) save(w io.Writer) {
 		}
 	}
 
-	for i, name := range self.orderedKeys {
+	// The global section has no title line, it could only be the first one
+	names := []string{}
+	if _, ok := self.sections[GlobalSectionName]; ok {
+		names = append(names, GlobalSectionName)
+	}
+	for _, name := range self.orderedKeys {
+		if name != GlobalSectionName {
+			names = append(names, name)
+		}
+	}
+
+	for i, name := range names {
 		section := self.sections[name]
 		keys := section.Keys()
 		if len(name) != 0 {
@@ -290,7 +301,7 @@ func (self *MetaFile) save(w io.Writer) {
 				fmt.Fprintf(w, "\n")
 			}
 		}
-		if i != len(self.orderedKeys)-1 {
+		if i != len(names)-1 {
 			fmt.Fprintf(w, "\n")
 		}
 	}
-- 
2.43.0


From 1982435e50420717f92df46c86889d402ea4adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 14/58] fix: setting the help text of a flow dropped its tags,
 args and other declarations

---
 pkg/mods/builtin/flow.go                |  4 ++--
 pkg/mods/persist/flow_file/flow_file.go | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 2855106..1198913 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -285,8 +285,8 @@ func SetFlowHelpStr(
 
 	help := argv.GetRaw("help-str")
 	argCmdPath, cmdPath, filePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "cmd-path")
-	flowStrs, oldHelp, abbrsStr, trivial, autoArgs, packSub := flow_file.LoadFlowFile(filePath)
-	flow_file.SaveFlowFile(filePath, flowStrs, help, abbrsStr, trivial, autoArgs, packSub)
+	flowStrs, oldHelp, _, _, _, _ := flow_file.LoadFlowFile(filePath)
+	flow_file.SetFlowFileHelpStr(filePath, help)
 
 	realCmdStr := ""
 	if argCmdPath != cmdPath {
diff --git a/pkg/mods/persist/flow_file/flow_file.go b/pkg/mods/persist/flow_file/flow_file.go
index 4a74455..06869bb 100644
--- a/pkg/mods/persist/flow_file/flow_file.go
+++ b/pkg/mods/persist/flow_file/flow_file.go
@@ -32,6 +32,17 @@ func LoadFlowFile(path string) (flow []string, help string, abbrs string,
 	return
 }
 
+// Set the help string and keep all other things in the file
+func SetFlowFileHelpStr(path string, help string) {
+	metas := meta_file.NewMetaFile(path)
+	if len(metas) != 1 {
+		panic(fmt.Errorf("can't load content for edit from a combined flow file"))
+	}
+	meta := metas[0].Meta
+	meta.GetGlobalSection().Set("help", help)
+	meta.Save()
+}
+
 func SaveFlowFile(path string, flow []string, help string, abbrs string,
 	trivial string, autoArgs string, packSub string) {
 
-- 
2.43.0


From 3af4b9baaea1319a7271401a285503a0589fc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 15/58] fix: a command with a trailing '::' was rejected and a
 marked command behind which a separator stood was not moved

---
 pkg/core/execute/executor.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e4e0d61..afa4ef8 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -344,17 +344,9 @@ func checkTailModeCalls(flow *model.ParsedCmds) {
 	}
 }
 
-// TODO: trim the empty cmds at tail, like: '<cmd> : <cmd> ::'
 func moveLastPriorityCmdToFront(
 	flow []model.ParsedCmd) (reordered []model.ParsedCmd, doMove bool, tailModeCall bool, attempTailModeCall bool) {
 
-	cnt := len(flow)
-	if cnt <= 1 {
-		return flow, false, false, false
-	}
-
-	last := flow[cnt-1]
-
 	trim := func(flow []model.ParsedCmd) []model.ParsedCmd {
 		for {
 			if len(flow) == 0 {
@@ -368,6 +360,16 @@ func moveLastPriorityCmdToFront(
 		return flow
 	}
 
+	// The empty cmds at tail are not tail-mode marks, eg: '<cmd> : <cmd> ::'
+	flow = trim(flow)
+
+	cnt := len(flow)
+	if cnt <= 1 {
+		return flow, false, false, false
+	}
+
+	last := flow[cnt-1]
+
 	if cnt >= 2 && len(flow[cnt-2].ParseResult.Input) == 0 {
 		flow = trim(flow[:cnt-2])
 	} else if last.IsPriority() {
-- 
2.43.0


From b05943828dc14b9769ebbe231c6313c7fd5a1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 16/58] fix: a failed flow whose error is tolerated left the
 call stack and the forest mode behind

---
 pkg/core/execute/executor.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index afa4ef8..9c359fd 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -83,7 +83,7 @@ func (self *Executor) Execute(caller string, innerCall bool, cc *model.Cli, env
 }
 
 func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, masks []*model.ExecuteMask,
-	bootstrap bool, innerCall bool, input ...string) bool {
+	bootstrap bool, innerCall bool, input ...string) (succeeded bool) {
 
 	if !innerCall && env.GetBool("sys.env.use-cmd-abbrs") {
 		useCmdsAbbrs(cc.EnvAbbrs, cc.Cmds)
@@ -170,15 +170,24 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 		}
 	}
 
-	if !bootstrap && !crossProcessInnerCall {
-		stackStepIn(caller, env)
+	if bootstrap || crossProcessInnerCall {
+		return self.executeFlow(cc, bootstrap, flow, env, masks, input)
 	}
+
+	stackEnv := env.GetLayer(model.EnvLayerSession)
+	stack, stackDepth := stackEnv.GetRaw("sys.stack"), stackEnv.GetRaw("sys.stack-depth")
+	stackStepIn(caller, env)
+	defer func() {
+		// The error may be tolerated by a caller
+		if !succeeded {
+			stackEnv.Set("sys.stack", stack)
+			stackEnv.Set("sys.stack-depth", stackDepth)
+		}
+	}()
 	if !self.executeFlow(cc, bootstrap, flow, env, masks, input) {
 		return false
 	}
-	if !bootstrap && !crossProcessInnerCall {
-		stackStepOut(caller, self.callerNameEntry, env)
-	}
+	stackStepOut(caller, self.callerNameEntry, env)
 	return true
 }
 
@@ -190,6 +199,13 @@ func (self *Executor) executeFlow(
 	masks []*model.ExecuteMask,
 	input []string) bool {
 
+	// Also leave forest-mode when failed, the error may be tolerated by a caller
+	defer func() {
+		if cc.ForestMode.AtForestTopLvl(env) {
+			cc.ForestMode.Pop(env)
+		}
+	}()
+
 	breakAtNext := false
 	for i := 0; i < len(flow.Cmds); i++ {
 		cmd := flow.Cmds[i]
@@ -208,9 +224,6 @@ func (self *Executor) executeFlow(
 			return false
 		}
 	}
-	if cc.ForestMode.AtForestTopLvl(env) {
-		cc.ForestMode.Pop(env)
-	}
 	return true
 }
 
-- 
2.43.0


From a58c44cdede84b2384913b367d70214fd6e9be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 17/58] fix: a tolerated error restarted the flow from its
 second command, or was not tolerated without a session

---
 pkg/core/model/cmd.go | 44 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index db61fae..b141dff 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -242,28 +242,36 @@ func (self *Cmd) execute(
 
 	logFilePath := self.genLogFilePath(env)
 
+	// If an error is tolerated, the flow goes on with the command after this one
+	newCurrCmdIdx = currCmdIdx
+
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnCmdStart(flow, currCmdIdx, env, logFilePath)
-		defer func() {
-			r := recover()
-			handledErr := false
-			var err error
-			isAbort := false
-			if r != nil {
-				handledErr = cc.HandledErrors[r]
-				err = r.(error)
-				_, isAbort = err.(*AbortByUserErr)
+	}
+	defer func() {
+		r := recover()
+		handledErr := false
+		var err error
+		isAbort := false
+		if r != nil {
+			handledErr = cc.HandledErrors[r]
+			var isErr bool
+			err, isErr = r.(error)
+			if !isErr {
+				err = fmt.Errorf("%v", r)
 			}
+			_, isAbort = err.(*AbortByUserErr)
+		}
 
-			if (r == nil || !handledErr) && !isAbort {
-				cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
-				cc.HandledErrors[r] = true
-			}
-			if r != nil && !self.flags.quietError && !allowError {
-				panic(r)
-			}
-		}()
-	}
+		if cc.FlowStatus != nil && (r == nil || !handledErr) && !isAbort {
+			cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
+			cc.HandledErrors[r] = true
+		}
+		tolerated := (self.flags.quietError || allowError) && !isAbort
+		if r != nil && !tolerated {
+			panic(r)
+		}
+	}()
 
 	if mask != nil && mask.OverWriteFinishEnv != nil {
 		p := env
-- 
2.43.0


From 597d9bb245cfe96b302ee7147f92d9a75cb7d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 18/58] fix: a quiet flow that failed left the session quiet
 when the error was tolerated

---
 pkg/core/model/cmd.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index b141dff..0ead4ef 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -290,14 +290,12 @@ func (self *Cmd) execute(
 	shouldQuietSubFlow := self.HasSubFlow(true) && self.flags.quietSubFlow
 	if shouldQuietSubFlow {
 		envSession.SetBool(disableQuietKey, false)
+		// Also restore when failed, the error may be tolerated
+		defer envSession.Set(disableQuietKey, originQuiet)
 	}
 
 	newCurrCmdIdx, succeeded = self.executeByType(argv, cc, env, mask, flow,
 		allowError, currCmdIdx, logFilePath, tryBreakInsideFileNFlow)
-
-	if shouldQuietSubFlow {
-		envSession.Set(disableQuietKey, originQuiet)
-	}
 	return
 }
 
-- 
2.43.0


From 2c1f6051a20af23b629a6af77195fee870b2976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 19/58] fix: the env-ops check blamed writers and may-readers
 for earlier reads, and took a sure write as unsure after a may-write

---
 pkg/core/model/env_ops.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index 859f161..64fbcd9 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -173,32 +173,31 @@ func (self EnvOpsChecker) OnCallCmd(
 		for _, curr := range ops.Ops(origins[i]) {
 			before, _ := self[key]
 
-			if (curr&EnvOpTypeWrite) == 0 && (curr&EnvOpTypeMayWrite) != 0 {
-				before.mayWriteCmds = append(before.mayWriteCmds, MayWriteCmd{matched, cmd})
-			}
-			before.val = before.val | curr
-			self[key] = before
-
 			var res EnvOpsCheckResult
 			res.Key = key
 			res.CmdDisplayPath = displayPath
 			res.Cmd = cmd.Owner()
-			if (before.val&EnvOpTypeWrite) == 0 &&
-				(before.val&EnvOpTypeMayWrite) == 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
-					res.ReadNotExist = true
-				} else if (before.val & EnvOpTypeMayRead) != 0 {
-					res.MayReadNotExist = true
+			// Only reading could fail, and only when no command surely wrote the key before
+			if (before.val & EnvOpTypeWrite) == 0 {
+				mayWritten := (before.val & EnvOpTypeMayWrite) != 0
+				if (curr & EnvOpTypeRead) != 0 {
+					res.ReadNotExist = !mayWritten
+					res.ReadMayWrite = mayWritten
+				} else if (curr & EnvOpTypeMayRead) != 0 {
+					res.MayReadNotExist = !mayWritten
+					res.MayReadMayWrite = mayWritten
 				}
-			} else if (before.val & EnvOpTypeMayWrite) != 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
-					res.ReadMayWrite = true
-					res.MayWriteCmdsBefore = before.mayWriteCmds
-				} else if (before.val & EnvOpTypeMayRead) != 0 {
-					res.MayReadMayWrite = true
+				if res.ReadMayWrite || res.MayReadMayWrite {
 					res.MayWriteCmdsBefore = before.mayWriteCmds
 				}
 			}
+
+			if (curr&EnvOpTypeWrite) == 0 && (curr&EnvOpTypeMayWrite) != 0 {
+				before.mayWriteCmds = append(before.mayWriteCmds, MayWriteCmd{matched, cmd})
+			}
+			before.val = before.val | curr
+			self[key] = before
+
 			var passCheck bool
 			if ignoreMaybe {
 				passCheck = !res.ReadNotExist
-- 
2.43.0


From bf5e6f82be887e1a6fe5d20574d5f478f24f23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 20/58] fix: the env-ops check simulated resetting and removing
 env values differently from what the commands do

---
 pkg/mods/builtin/misc.go | 61 ++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/pkg/mods/builtin/misc.go b/pkg/mods/builtin/misc.go
index 95c99b9..806d4e3 100644
--- a/pkg/mods/builtin/misc.go
+++ b/pkg/mods/builtin/misc.go
@@ -179,22 +179,8 @@ func Dummy(
 
 func EnvOpCmds() []model.EnvOpCmd {
 	return []model.EnvOpCmd{
-		model.EnvOpCmd{
-			ResetSessionEnv,
-			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
-				if checker != nil {
-					checker.Reset()
-				}
-				env.GetLayer(model.EnvLayerSession).Clear(false)
-			}},
-		model.EnvOpCmd{
-			ResetLocalEnv,
-			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
-				if checker != nil {
-					checker.Reset()
-				}
-				env.GetLayer(model.EnvLayerSession).Clear(false)
-			}},
+		model.EnvOpCmd{ResetSessionEnv,
+			opCheckResetSessionEnv},
 		model.EnvOpCmd{RemoveEnvValAndSaveToLocal,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
 				key := argv.GetRaw("key")
@@ -245,15 +231,23 @@ func EnvOpCmds() []model.EnvOpCmd {
 				if checker != nil {
 					checker.RemoveKeyStat(key)
 				}
-				env.GetLayer(model.EnvLayerSession).Delete(key)
+				env.DeleteEx(key, model.EnvLayerDefault)
 			}},
-		model.EnvOpCmd{RemoveEnvValAndSaveToLocal,
+		model.EnvOpCmd{RemoveEnvValHavePrefixNotSave,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
-				key := argv.GetRaw("key")
+				prefix := argv.GetRaw("prefix")
 				if checker != nil {
-					checker.RemoveKeyStat(key)
+					for key, _ := range *checker {
+						if strings.HasPrefix(key, prefix) {
+							checker.RemoveKeyStat(key)
+						}
+					}
+				}
+				for key, _ := range env.FlattenAll() {
+					if strings.HasPrefix(key, prefix) {
+						env.DeleteEx(key, model.EnvLayerDefault)
+					}
 				}
-				env.GetLayer(model.EnvLayerSession).Delete(key)
 			}},
 		model.EnvOpCmd{EnvLoadFromSnapshot,
 			opCheckEnvLoadFromSnapshot},
@@ -262,6 +256,31 @@ func EnvOpCmds() []model.EnvOpCmd {
 	}
 }
 
+// The excluded keys are kept, so are the info about them
+func opCheckResetSessionEnv(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
+	sessionEnv := env.GetLayer(model.EnvLayerSession)
+	excludes := map[string]bool{}
+	excludedVals := map[string]string{}
+	for _, key := range strings.Split(argv.GetRaw("exclude-keys"), env.GetRaw("strs.list-sep")) {
+		excludes[key] = true
+		if val, ok := env.GetEx(key); ok {
+			excludedVals[key] = val.Raw
+		}
+	}
+
+	if checker != nil {
+		for key, _ := range *checker {
+			if !excludes[key] {
+				checker.RemoveKeyStat(key)
+			}
+		}
+	}
+	sessionEnv.Clear(false)
+	for key, val := range excludedVals {
+		sessionEnv.Set(key, val)
+	}
+}
+
 func opCheckEnvLoadFromSnapshot(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
 	name := argv.GetRaw("snapshot-name")
 	if len(name) == 0 {
-- 
2.43.0


From 42d7cfdaba016162116ff46bc6abee7bc8e38028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 21/58] fix: a flow that calls itself crashed ticat with a
 stack overflow

Expanding a flow for checking, dependency collecting or executing recursed
without end when the flow called itself. Limit the depth and report it.
---
 pkg/core/model/cmd.go | 8 ++++++++
 pkg/core/model/env.go | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 0ead4ef..8898482 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -873,9 +873,17 @@ func StripFlowForExecute(flow []string, sequenceSep string) []string {
 	return output
 }
 
+// A flow calling itself never ends, report it before the stack is used up
+const MaxFlowDepth = 100
+
 func (self *Cmd) Flow(argv ArgVals, cc *Cli, env *Env,
 	allowFlowTemplateRenderError bool, forChecking bool) (flow []string, masks []*ExecuteMask, rendered bool) {
 
+	if env.CountLayers(EnvLayerSubFlow) >= MaxFlowDepth {
+		panic(fmt.Errorf("flow '%s' is nested too deep (%d levels), it may call itself",
+			self.owner.DisplayPath(), MaxFlowDepth))
+	}
+
 	flow, masks, rendered = self.RenderedFlowStrs(argv, cc, env, allowFlowTemplateRenderError, forChecking)
 	if len(flow) == 0 {
 		return
diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 9aa42db..19d9f3b 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -196,6 +196,15 @@ func (self *Env) SetEx(name string, val string, isArg bool, isSysArg bool) (old
 	return
 }
 
+func (self *Env) CountLayers(ty EnvLayerType) (count int) {
+	for it := self; it != nil; it = it.parent {
+		if it.ty == ty {
+			count += 1
+		}
+	}
+	return
+}
+
 func (self *Env) Parent() *Env {
 	return self.parent
 }
-- 
2.43.0


From 494835e038331dee08ba970b40f9cc34224041b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 22/58] fix: rendering a template never ended when a value held
 brackets

Values were scanned again after being put in, so a value holding a reference
to its own key was replaced for ever. '[[*]]' crashed on a slice bound, and
one line of a repeated part that failed left the others unrendered.
---
 pkg/core/model/template.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/pkg/core/model/template.go b/pkg/core/model/template.go
index 7b6686f..fcef149 100644
--- a/pkg/core/model/template.go
+++ b/pkg/core/model/template.go
@@ -40,13 +40,10 @@ func renderTemplateStr(
 	env *Env,
 	allowError bool) (rendered []string, fullyRendered bool) {
 
-	fullyRendered = true
-
-	lines, hasError := tryRenderMultiplyTemplate(in, targetName, cmd, argv, env, allowError)
+	lines, multiplyHasError := tryRenderMultiplyTemplate(in, targetName, cmd, argv, env, allowError)
+	fullyRendered = !multiplyHasError
 	for _, line := range lines {
-		if !hasError {
-			line, hasError = tryRenderTemplate(line, targetName, cmd, argv, env, allowError)
-		}
+		line, hasError := tryRenderTemplate(line, targetName, cmd, argv, env, allowError)
 		fullyRendered = fullyRendered && !hasError
 		rendered = append(rendered, line)
 	}
@@ -77,11 +74,11 @@ func tryRenderMultiplyTemplate(
 		return
 	}
 
-	valEnd := strings.Index(in[valBegin:], mr)
-	if valEnd <= 0 {
+	valEnd := strings.Index(in[valBegin+len(ml):], mr)
+	if valEnd < 0 {
 		return
 	}
-	valEnd += valBegin
+	valEnd += valBegin + len(ml)
 
 	tempBegin := strings.Index(in[:valBegin], mm)
 	if tempBegin < 0 {
@@ -143,14 +140,14 @@ func tryRenderTemplate(
 	templBracketLeft := cmd.owner.Strs.FlowTemplateBracketLeft
 	templBracketRight := cmd.owner.Strs.FlowTemplateBracketRight
 
-	findPos := 0
+	origin := in
+	// The values are not scanned again, they could contain brackets
 	for {
-		str := in[findPos:]
-		i := strings.Index(str, templBracketLeft)
+		i := strings.Index(in, templBracketLeft)
 		if i < 0 {
 			break
 		}
-		tail := str[i+len(templBracketLeft):]
+		tail := in[i+len(templBracketLeft):]
 		j := strings.Index(tail, templBracketRight)
 		if j < 0 {
 			break
@@ -169,15 +166,15 @@ func tryRenderTemplate(
 		}
 		if !ok {
 			hasError = true
-			if allowError {
-				findPos += j + len(templBracketRight)
-				continue
+			if !allowError {
+				templateRenderPanic(origin, cmd, targetName, key, false)
 			}
-			templateRenderPanic(in, cmd, targetName, key, false)
+			valStr = templBracketLeft + key + templBracketRight
 		}
-		in = in[:findPos] + str[0:i] + valStr + tail[j+len(templBracketRight):]
+		out += in[:i] + valStr
+		in = tail[j+len(templBracketRight):]
 	}
-	return in, hasError
+	return out + in, hasError
 }
 
 func tryRenderSystemVars(key string) (val string, ok bool) {
-- 
2.43.0


From 9ec68ec5fb26e43f5e13a17f1343f26fd07c53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 23/58] fix: the session status file keeps its nesting when a
 sub-flow fails

---
 pkg/core/model/cmd.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 8898482..9c1bf35 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -263,7 +263,11 @@ func (self *Cmd) execute(
 			_, isAbort = err.(*AbortByUserErr)
 		}
 
-		if cc.FlowStatus != nil && (r == nil || !handledErr) && !isAbort {
+		if cc.FlowStatus != nil && !isAbort {
+			if handledErr {
+				// The error is already recorded by the inner command
+				err = nil
+			}
 			cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
 			cc.HandledErrors[r] = true
 		}
@@ -944,10 +948,15 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnSubFlowStart(flowEnv, flowStr)
+		// Also finish it when failed, or the following records will be inside of it
 		defer func() {
-			if succeeded {
+			r := recover()
+			if _, isAbort := r.(*AbortByUserErr); !isAbort {
 				cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded, skipped)
 			}
+			if r != nil {
+				panic(r)
+			}
 		}()
 	}
 	if mask != nil && len(mask.SubFlow) != 0 {
-- 
2.43.0


From fe6428458f8d039c916c247d1a290ac444923de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 24/58] fix: a directory command is recorded in the session
 status, so a retry matches commands by position

---
 pkg/core/execute/executor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 9c359fd..01354c8 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -282,6 +282,11 @@ func (self *Executor) executeCmd(
 		if last.IsNoExecutableCmd() {
 			display.PrintEmptyDirCmdHint(cc.Screen, env, cmd)
 			newCurrCmdIdx, succeeded = currCmdIdx, true
+			// Retrying a session matches the records to the commands of the flow by their positions
+			if cc.FlowStatus != nil {
+				cc.FlowStatus.OnCmdStart(flow, currCmdIdx, env, "")
+				cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, nil, false)
+			}
 		} else {
 			if !sysArgv.IsDelay() {
 				// This cmdEnv is different from env, it included values from 'val2env' and 'arg2env'
-- 
2.43.0


From 22ba2309b5253997a345a3718a0a9eefdac2be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 25/58] fix: a retried command starts from its own env, skipped
 commands are recorded as skipped or succeeded

---
 pkg/core/model/cmd.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 9c1bf35..31b047c 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -277,17 +277,6 @@ func (self *Cmd) execute(
 		}
 	}()
 
-	if mask != nil && mask.OverWriteFinishEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteFinishEnv.WriteCurrLayerTo(p)
-		}
-	}
-
 	disableQuietKey := "display.executor"
 	envSession := env.GetLayer(EnvLayerSession)
 	originQuiet := envSession.GetRaw(disableQuietKey)
@@ -300,6 +289,19 @@ func (self *Cmd) execute(
 
 	newCurrCmdIdx, succeeded = self.executeByType(argv, cc, env, mask, flow,
 		allowError, currCmdIdx, logFilePath, tryBreakInsideFileNFlow)
+
+	// The result env is for a skipped command, an executed one makes its own result
+	if succeeded && mask != nil && mask.OverWriteFinishEnv != nil &&
+		(!shouldExecByMask(mask) || mask.FileNFlowExecPolicy == ExecPolicySkip) {
+		p := env
+		for p != nil && p.LayerType() != EnvLayerSession {
+			p.CleanCurrLayer()
+			p = p.Parent()
+		}
+		if p != nil {
+			mask.OverWriteFinishEnv.WriteCurrLayerTo(p)
+		}
+	}
 	return
 }
 
@@ -1105,5 +1107,5 @@ func shouldExecByMask(mask *ExecuteMask) bool {
 }
 
 func executedAndSucceeded(mask *ExecuteMask) bool {
-	return (mask != nil || mask.ResultIfExecuted == ExecutedResultSucceeded)
+	return (mask != nil && mask.ResultIfExecuted == ExecutedResultSucceeded)
 }
-- 
2.43.0


From 53e9a4a75fbdfc0c6d89c0059f8ed8fc3ef4b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 26/58] fix: a status file of a stopped process keeps the
 interrupted command and its half-written line is ignored

---
 pkg/core/model/executed.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index db692b3..18480a0 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -111,10 +111,9 @@ func ParseExecutedFlow(path ExecutedStatusFilePath) (lastActiveTs time.Time, exe
 		panic(fmt.Errorf("[ParseExecutedFlow] read executed status file '%s' failed: %v", path.Short(), err))
 	}
 
+	// What is after the last "\n" is a line not completely written, the process could be stopped at any time
 	lines := strings.Split(string(data), "\n")
-	if len(lines) > 0 && lines[len(lines)-1] == "" {
-		lines = lines[:len(lines)-1]
-	}
+	lines = lines[:len(lines)-1]
 
 	// Consider it's normal if ok=false but all lines are parsed
 	executed, lines, lastActiveTs, ok := parseExecutedFlow(path, lines, 0)
@@ -259,19 +258,19 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 			cmd.FinishTs = cmdLastActiveTs
 		}
 		if !ok {
+			// Keep the incompleted command
+			if cmd != nil {
+				cmds = append(cmds, cmd)
+			}
 			if _, _, ok := parseMarkedOneLineContent(path, lines, "flow-finish-time", level); ok {
 				break
 			}
-			if len(lines) != 0 {
-				return cmds, hasDelayCmd, lines, lastActiveTs, false
-			}
+			return cmds, hasDelayCmd, lines, lastActiveTs, len(lines) == 0
 		}
 		if cmd.IsDelay {
 			hasDelayCmd = true
 		}
-		if cmd != nil {
-			cmds = append(cmds, cmd)
-		}
+		cmds = append(cmds, cmd)
 	}
 	return cmds, hasDelayCmd, lines, lastActiveTs, true
 }
@@ -344,11 +343,11 @@ func parseExecutedCmd(path ExecutedStatusFilePath, lines []string,
 	}
 	lastActiveTs = cmd.FinishTs
 
-	cmd.Result, lines, ok = parseCmdOrFlowResult(path, lines, "cmd-result", level, ExecutedResultError)
-	cmd.CalResultInCaseIncompleted()
+	cmd.Result, lines, ok = parseCmdOrFlowResult(path, lines, "cmd-result", level, ExecutedResultIncompleted)
 	if !ok {
 		return cmd, lines, lastActiveTs, false
 	}
+	cmd.CalResultInCaseIncompleted()
 
 	errLines, lines, ok := parseMarkedContent(path, lines, "error", level)
 	if ok {
-- 
2.43.0


From b19020083c64e11e46f19dccd836c83beb879fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 27/58] fix: values, errors and flows of any content are kept
 in the session status file

---
 pkg/core/model/executed.go  |  9 +++++----
 pkg/core/model/executing.go | 20 +++++++++++++++++---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 18480a0..fd00b17 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -220,6 +220,7 @@ func tryParseExecutedFlow(path ExecutedStatusFilePath, lines []string,
 	if !ok {
 		return executed, hasDelayCmd, lines, lastActiveTs, false
 	}
+	executed.Flow = strings.TrimPrefix(executed.Flow, strings.Repeat(StatusFileIndent, level))
 	executed.StartTs, lines, ok = parseMarkedTime(path, lines, "flow-start-time", level)
 	if !ok {
 		return executed, hasDelayCmd, lines, lastActiveTs, false
@@ -352,7 +353,7 @@ func parseExecutedCmd(path ExecutedStatusFilePath, lines []string,
 	errLines, lines, ok := parseMarkedContent(path, lines, "error", level)
 	if ok {
 		for _, line := range errLines {
-			cmd.ErrStrs = append(cmd.ErrStrs, strings.TrimSpace(line))
+			cmd.ErrStrs = append(cmd.ErrStrs, strings.TrimSpace(unescapeStatusLine(line)))
 		}
 	}
 
@@ -399,9 +400,9 @@ func parseEnvLines(path ExecutedStatusFilePath, lines []string, level int) (env
 		if !strings.HasPrefix(line, indent) {
 			panic(fmt.Errorf("[ParseExecutedFlow] bad indent of env line '%s' in status file '%s'", line, path.Short()))
 		}
-		line = line[len(indent):]
+		line = unescapeStatusLine(line[len(indent):])
 		i := strings.Index(line, "=")
-		if i <= 0 {
+		if i < 0 {
 			panic(fmt.Errorf("[ParseExecutedFlow] bad format of env line '%s' in status file '%s'", line, path.Short()))
 		}
 		env.Set(line[0:i], line[i+1:])
@@ -434,7 +435,7 @@ func parseMarkedOneLineContent(path ExecutedStatusFilePath, lines []string,
 	if len(res) != 1 {
 		panic(fmt.Errorf("[ParseExecutedFlow] expect only one line for mark '%s' in status file '%s'", mark, path.Short()))
 	}
-	return res[0], remain, ok
+	return unescapeStatusLine(res[0]), remain, ok
 }
 
 func parseMarkedContent(path ExecutedStatusFilePath, lines []string,
diff --git a/pkg/core/model/executing.go b/pkg/core/model/executing.go
index 0bdeaea..93ba312 100644
--- a/pkg/core/model/executing.go
+++ b/pkg/core/model/executing.go
@@ -196,7 +196,7 @@ func writeCmdEnv(w io.Writer, env *Env, mark string, level int) {
 	buf := bytes.NewBuffer(nil)
 	indent := strings.Repeat(StatusFileIndent, level)
 	for k, v := range kvs {
-		fprintf(buf, "%s%s=%s\n", indent, k, v)
+		fprintf(buf, "%s%s\n", indent, escapeStatusLine(k+"="+v))
 	}
 	if len(kvs) > 0 {
 		fprintf(w, "%s\n%s%s\n", markStartStr(mark, level), buf.String(), markFinishStr(mark, level))
@@ -237,7 +237,7 @@ func markedContent(mark string, level int, lines ...string) (content string) {
 	indent := strings.Repeat(StatusFileIndent, level)
 	content += indent + StatusFileMarkBracketLeft + mark + StatusFileMarkBracketRight + "\n"
 	for _, line := range lines {
-		content += indent + line + "\n"
+		content += indent + escapeStatusLine(line) + "\n"
 	}
 	content += indent + StatusFileMarkBracketLeft + StatusFileMarkFinishMark + mark + StatusFileMarkBracketRight + "\n"
 	return
@@ -246,11 +246,25 @@ func markedContent(mark string, level int, lines ...string) (content string) {
 func markedOneLineContent(mark string, level int, line string) (content string) {
 	indent := strings.Repeat(StatusFileIndent, level)
 	content += indent + StatusFileMarkBracketLeft + mark + StatusFileMarkBracketRight
-	content += line
+	content += escapeStatusLine(line)
 	content += StatusFileMarkBracketLeft + StatusFileMarkFinishMark + mark + StatusFileMarkBracketRight + "\n"
 	return
 }
 
+// A value is always kept in one line, and this line never looks like a mark
+func escapeStatusLine(line string) string {
+	line = strings.ReplaceAll(line, "\\", "\\\\")
+	line = strings.ReplaceAll(line, "\n", "\\n")
+	return strings.ReplaceAll(line, StatusFileMarkBracketLeft, "\\"+StatusFileMarkBracketLeft)
+}
+
+func unescapeStatusLine(line string) string {
+	return statusLineUnescaper.Replace(line)
+}
+
+var statusLineUnescaper = strings.NewReplacer("\\\\", "\\", "\\n", "\n",
+	"\\"+StatusFileMarkBracketLeft, StatusFileMarkBracketLeft)
+
 func markStartStr(mark string, level int) string {
 	return strings.Repeat(StatusFileIndent, level) + StatusFileMarkBracketLeft + mark + StatusFileMarkBracketRight
 }
-- 
2.43.0


From 244ef7cc63b14bf101d726464cdf174c5e499a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 28/58] fix: a retry skips a delayed command that succeeded

---
 pkg/core/model/executed.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index fd00b17..4a17c41 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -128,7 +128,13 @@ func ParseExecutedFlow(path ExecutedStatusFilePath) (lastActiveTs time.Time, exe
 }
 
 func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
-	for _, cmd := range self.Cmds {
+	for i, cmd := range self.Cmds {
+		if cmd.IsDelay {
+			// The record of a delayed command is in the flow of its thread
+			if executed := self.GetCmd(i); executed != nil {
+				cmd = executed
+			}
+		}
 		var subMasks []*ExecuteMask
 		if cmd.SubFlow != nil {
 			subMasks = cmd.SubFlow.GenExecMasks()
-- 
2.43.0


From 412046e5f0daf8f15066ba7ae1c0354f2129a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 29/58] fix: waiting for a background task that is not the
 earliest, or was waited for before

---
 pkg/core/model/bg_tasks.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pkg/core/model/bg_tasks.go b/pkg/core/model/bg_tasks.go
index 94f7839..129ac85 100644
--- a/pkg/core/model/bg_tasks.go
+++ b/pkg/core/model/bg_tasks.go
@@ -139,7 +139,7 @@ func (self *BgTask) WaitForFinish() error {
 type BgTasks struct {
 	tids      []string
 	tasks     map[string]*BgTask
-	name2task map[string]*BgTask
+	realNames map[string]string
 	lock      sync.Mutex
 }
 
@@ -147,7 +147,7 @@ func NewBgTasks() *BgTasks {
 	return &BgTasks{
 		tids:      []string{},
 		tasks:     map[string]*BgTask{},
-		name2task: map[string]*BgTask{},
+		realNames: map[string]string{},
 	}
 }
 
@@ -161,8 +161,7 @@ func (self *BgTasks) GetOrAddTask(tid string, displayName string, realName strin
 	self.tids = append(self.tids, tid)
 	task = NewBgTask(tid, displayName, stdout)
 	self.tasks[tid] = task
-	println(realName)
-	self.name2task[realName] = task
+	self.realNames[tid] = realName
 	return task
 }
 
@@ -180,14 +179,13 @@ func (self *BgTasks) GetEarliestTask() (tid string, task *BgTask, ok bool) {
 func (self *BgTasks) GetTaskByCmd(cmd string) (tid string, task *BgTask, ok bool) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
-	if len(self.tids) == 0 {
-		return
-	}
-	task, ok = self.name2task[cmd]
-	if ok {
-		tid = task.info.Tid
+	for i := len(self.tids) - 1; i >= 0; i-- {
+		tid = self.tids[i]
+		if self.realNames[tid] == cmd {
+			return tid, self.tasks[tid], true
+		}
 	}
-	return
+	return "", nil, false
 }
 
 func (self *BgTasks) GetLatestTask() (tid string, task *BgTask, ok bool) {
@@ -228,10 +226,13 @@ func (self *BgTasks) RemoveTask(tid string) {
 	if len(self.tids) == 0 || !ok {
 		panic(fmt.Errorf("[BgTasks.RemoveTask] task '%s' not found", tid))
 	}
-	if self.tids[0] != tid {
-		panic(fmt.Errorf("[BgTasks.RemoveTask] removing task '%s' is not the earliest", tid))
+	var tids []string
+	for _, it := range self.tids {
+		if it != tid {
+			tids = append(tids, it)
+		}
 	}
-	self.tids = self.tids[1:]
+	self.tids = tids
 	delete(self.tasks, tid)
-	// TODO: remove it from name2task
+	delete(self.realNames, tid)
 }
-- 
2.43.0


From b4c3a92a84dc96f84137cc5803952c4bf04935b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:48 +0000
Subject: [PATCH 30/58] fix: a background command that failed with a text
 crashed ticat

---
 pkg/core/execute/executor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 01354c8..7a80246 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -559,7 +559,11 @@ func asyncExecute(
 				// TODO: not sure how to handle if config is not-recover
 			} else {
 				if r := recover(); r != nil {
-					err = r.(error)
+					var isErr bool
+					err, isErr = r.(error)
+					if !isErr {
+						err = fmt.Errorf("%v", r)
+					}
 				}
 			}
 			task.OnFinish(err)
-- 
2.43.0


From bff585327da3deac802be513d0c5b315d75e6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 31/58] fix: two flow replacements doubled the commands, and
 counts of the blender were not kept

---
 pkg/core/model/blender.go | 91 ++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/pkg/core/model/blender.go b/pkg/core/model/blender.go
index cc80245..e7bd3fd 100644
--- a/pkg/core/model/blender.go
+++ b/pkg/core/model/blender.go
@@ -6,6 +6,7 @@ import (
 )
 
 type BlenderInvoker interface {
+	Clone() BlenderInvoker
 	Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool)
 }
 
@@ -15,7 +16,12 @@ type BlenderInvokerReplace struct {
 	dest ParsedCmd
 }
 
-func (self BlenderInvokerReplace) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerReplace) Clone() BlenderInvoker {
+	cloned := *self
+	return &cloned
+}
+
+func (self *BlenderInvokerReplace) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.src.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -30,7 +36,12 @@ type BlenderInvokerRemove struct {
 	target ParsedCmd
 }
 
-func (self BlenderInvokerRemove) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerRemove) Clone() BlenderInvoker {
+	cloned := *self
+	return &cloned
+}
+
+func (self *BlenderInvokerRemove) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -46,14 +57,19 @@ type BlenderInvokerInsert struct {
 	newCmd ParsedCmd
 }
 
-func (self BlenderInvokerInsert) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerInsert) Clone() BlenderInvoker {
+	cloned := *self
+	return &cloned
+}
+
+func (self *BlenderInvokerInsert) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
 	if self.cnt > 0 {
 		self.cnt -= 1
 	}
-	return []ParsedCmd{self.newCmd, cmd}, true, 1, self.cnt == 0
+	return []ParsedCmd{self.newCmd, cmd}, false, 1, self.cnt == 0
 }
 
 type BlenderInvokerInsertAfter struct {
@@ -62,7 +78,12 @@ type BlenderInvokerInsertAfter struct {
 	newCmd ParsedCmd
 }
 
-func (self BlenderInvokerInsertAfter) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerInsertAfter) Clone() BlenderInvoker {
+	cloned := *self
+	return &cloned
+}
+
+func (self *BlenderInvokerInsertAfter) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -85,7 +106,7 @@ func NewBlender() *Blender {
 func (self *Blender) Clone() *Blender {
 	invokers := []BlenderInvoker{}
 	for _, info := range self.invokers {
-		invokers = append(invokers, info)
+		invokers = append(invokers, info.Clone())
 	}
 	return &Blender{
 		invokers,
@@ -122,6 +143,7 @@ func (self *Blender) IsEmpty() bool {
 
 func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool) {
 	result := []ParsedCmd{}
+	globalCmdIdx := -1
 	stackDepth := env.GetInt("sys.stack-depth")
 
 	for i := 0; i < len(flow.Cmds); i++ {
@@ -132,6 +154,9 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 		//}
 		cmd := parsedCmd.LastCmdNode()
 		if cmd == nil {
+			if i == flow.GlobalCmdIdx {
+				globalCmdIdx = len(result)
+			}
 			result = append(result, parsedCmd)
 			continue
 		}
@@ -147,53 +172,31 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 			continue
 		}
 
-		if len(self.invokers) == 0 {
-			result = append(result, parsedCmd)
-			continue
-		}
-
+		// What this command turns into, the origin one is at 'originPos'
+		cmds := []ParsedCmd{parsedCmd}
+		originPos := 0
 		originDeleted := false
-		originPosDelta := 0
-		addedCmdCnt := 0
-		for j := 0; j < len(self.invokers); j++ {
-			invoker := self.invokers[j]
-			cmds, deleted, posDelta, finished := invoker.Invoke(parsedCmd)
+		for j := 0; j < len(self.invokers) && !originDeleted; j++ {
+			blended, deleted, posDelta, finished := self.invokers[j].Invoke(parsedCmd)
 			if finished {
-				if j == len(self.invokers)-1 {
-					self.invokers = self.invokers[0:j]
-				} else {
-					self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
-				}
-				j += 1
+				self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
+				j -= 1
 			}
-
-			addedCmdCnt += len(cmds) - 1
-			if len(cmds) > 0 {
-				result = append(result, cmds...)
+			changed = changed || deleted || len(blended) != 1
+			cmds = append(append(append([]ParsedCmd{}, cmds[:originPos]...), blended...), cmds[originPos+1:]...)
+			originDeleted = deleted
+			if !deleted {
+				originPos += posDelta
 			}
-			if deleted {
-				originDeleted = true
-				break
-			} else {
-				originPosDelta += posDelta
-			}
-		}
-
-		if originDeleted || originPosDelta != 0 {
-			changed = true
 		}
-		if i == flow.GlobalCmdIdx {
-			if originDeleted {
-				flow.GlobalCmdIdx = -1
-			} else {
-				flow.GlobalCmdIdx += originPosDelta
-			}
-		} else if i < flow.GlobalCmdIdx {
-			flow.GlobalCmdIdx += addedCmdCnt
+		if i == flow.GlobalCmdIdx && !originDeleted {
+			globalCmdIdx = len(result) + originPos
 		}
+		result = append(result, cmds...)
 	}
 
 	flow.Cmds = result
+	flow.GlobalCmdIdx = globalCmdIdx
 	return
 }
 
-- 
2.43.0


From 7ca1f3aa764e4f1d7585cd02417149fe0378027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 32/58] fix: values of sensitive arguments and keys were shown
 in flow descriptions and by env.assert

---
 pkg/cli/display/args.go  | 4 ++--
 pkg/cli/display/utils.go | 4 ++++
 pkg/mods/builtin/env.go  | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/cli/display/args.go b/pkg/cli/display/args.go
index 7395118..5e0b51d 100644
--- a/pkg/cli/display/args.go
+++ b/pkg/cli/display/args.go
@@ -50,7 +50,7 @@ func DumpEffectedArgs(
 		line := ColorArg(k, env) + " " + ColorSymbol("=", env) + " "
 		v, provided := argv[k]
 		if provided && v.Provided {
-			line += mayQuoteStr(v.Raw)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, v.Raw))
 		} else {
 			if len(defV) == 0 {
 				continue
@@ -63,7 +63,7 @@ func DumpEffectedArgs(
 			if hasMapping && writtenKeys[key] {
 				continue
 			}
-			line += mayQuoteStr(defV)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, defV))
 		}
 		output = append(output, line)
 	}
diff --git a/pkg/cli/display/utils.go b/pkg/cli/display/utils.go
index 0d2dae1..06cba28 100644
--- a/pkg/cli/display/utils.go
+++ b/pkg/cli/display/utils.go
@@ -58,6 +58,10 @@ func rpt(char string, count int) string {
 	return strings.Repeat(char, count)
 }
 
+func MayMaskSensitiveVal(env *model.Env, key string, val string) string {
+	return mayMaskSensitiveVal(env, key, val)
+}
+
 func mayMaskSensitiveVal(env *model.Env, key string, val string) string {
 	if env.GetBool("display.sensitive") {
 		return val
diff --git a/pkg/mods/builtin/env.go b/pkg/mods/builtin/env.go
index 95efeba..ba7a267 100644
--- a/pkg/mods/builtin/env.go
+++ b/pkg/mods/builtin/env.go
@@ -357,7 +357,8 @@ func EnvAssertEqual(
 	envVal := env.GetRaw(key)
 
 	if val != envVal {
-		panic(fmt.Errorf("assert env '%s' = '%s' failed, is '%s'", key, val, envVal))
+		panic(fmt.Errorf("assert env '%s' = '%s' failed, is '%s'", key,
+			display.MayMaskSensitiveVal(env, key, val), display.MayMaskSensitiveVal(env, key, envVal)))
 	}
 	cc.Screen.Print(display.KeyValueDisplayStr(key, val, env) + "\n")
 	return currCmdIdx, true
-- 
2.43.0


From 07e30269ca2fdcc81c9497fdd7a62ac54dc40716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 33/58] fix: joins looped on bad ranges, missed the last
 fraction, ignored failed runs and broke values with separators

---
 pkg/mods/builtin/join.go | 87 ++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 29 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 92aabcf..3852c62 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -3,6 +3,7 @@ package builtin
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -35,34 +36,12 @@ func JoinNew(
 			"need key or values"))
 	}
 
-	vals := []string{}
+	var vals []string
 	if strings.HasPrefix(val, "[") && strings.HasSuffix(val, "]") && strings.Count(val, ",") <= 2 && strings.Count(val, ",") >= 1 {
-		i := strings.Index(val, ",")
-		j := strings.LastIndex(val, ",")
-		var startStr, endStr, stepStr string
-		if i != j {
-			startStr = val[1:i]
-			endStr = val[i+1 : j]
-			stepStr = val[j+1 : len(val)-1]
-		} else {
-			startStr = val[1:j]
-			endStr = val[j+1 : len(val)-1]
-			stepStr = "1"
-		}
-		if strings.Contains(val, ".") {
-			start, _ := strconv.ParseFloat(startStr, 64)
-			end, _ := strconv.ParseFloat(endStr, 64)
-			step, _ := strconv.ParseFloat(stepStr, 64)
-			for ; start <= end; start += step {
-				vals = append(vals, fmt.Sprintf("%f", start))
-			}
-		} else {
-			start, _ := strconv.Atoi(startStr)
-			end, _ := strconv.Atoi(endStr)
-			step, _ := strconv.Atoi(stepStr)
-			for ; start <= end; start += step {
-				vals = append(vals, strconv.Itoa(start))
-			}
+		var err error
+		vals, err = joinRangeVals(val)
+		if err != nil {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx], err.Error()))
 		}
 	} else {
 		vals = strings.Split(val, env.GetRaw("strs.list-sep"))
@@ -90,6 +69,49 @@ func JoinNew(
 	return currCmdIdx, true
 }
 
+// Values of '[start,end]' or '[start,end,step]', both ends are included
+func joinRangeVals(val string) (vals []string, err error) {
+	fields := strings.Split(val[1:len(val)-1], ",")
+	if len(fields) == 2 {
+		fields = append(fields, "1")
+	}
+	if strings.Contains(val, ".") {
+		var nums [3]float64
+		for i, field := range fields {
+			if nums[i], err = strconv.ParseFloat(strings.TrimSpace(field), 64); err != nil {
+				return nil, fmt.Errorf("range '%s' is not numbers: %v", val, err)
+			}
+		}
+		start, end, step := nums[0], nums[1], nums[2]
+		// No accumulating of rounding errors
+		cnt := (end-start)/step + 1e-9
+		if !(step > 0) || !(cnt >= 0) || math.IsInf(cnt, 0) {
+			return nil, fmt.Errorf("range '%s' has no values", val)
+		}
+		for i := 0; float64(i) <= cnt; i++ {
+			vals = append(vals, fmt.Sprintf("%f", start+float64(i)*step))
+		}
+		return vals, nil
+	}
+	var nums [3]int
+	for i, field := range fields {
+		if nums[i], err = strconv.Atoi(strings.TrimSpace(field)); err != nil {
+			return nil, fmt.Errorf("range '%s' is not numbers: %v", val, err)
+		}
+	}
+	start, end, step := nums[0], nums[1], nums[2]
+	if step <= 0 || start > end {
+		return nil, fmt.Errorf("range '%s' has no values", val)
+	}
+	for {
+		vals = append(vals, strconv.Itoa(start))
+		if end-start < step {
+			return vals, nil
+		}
+		start += step
+	}
+}
+
 func JoinRun(
 	argv model.ArgVals,
 	cc *model.Cli,
@@ -110,15 +132,22 @@ func JoinRun(
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
 			"can't execute null ticat command"))
 	}
+	seqSep := env.GetRaw("strs.seq-sep")
 	iter := newJoinKvsIter(kvs)
 	for {
 		args := []string{cmd}
 		keys, vals := iter.get()
 		for i, key := range keys {
-			args = append(args, key+"="+vals[i])
+			// An empty value equals to not set
+			if len(vals[i]) != 0 {
+				args = append(args, key+"="+strings.ReplaceAll(vals[i], seqSep, model.BackSlash+seqSep))
+			}
 		}
-		cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
+		ok := cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
 			true, cc, env, nil, args...)
+		if !ok {
+			return currCmdIdx, false
+		}
 		if !iter.next() {
 			break
 		}
-- 
2.43.0


From 7f95034150158981d22dd76810a716390f0c75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 34/58] fix: hub lists with tabs, line breaks or long lines
 were unreadable or cut, addresses could leave the hub

---
 pkg/mods/persist/hub_meta/hub_meta.go | 34 ++++++++++++++++++++++++---
 pkg/mods/persist/hub_meta/hub_repo.go | 31 ++++++++++++++++++++----
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a8520be..c4f7d91 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -24,6 +24,10 @@ func (self RepoAddr) Str() string {
 }
 
 func ParseRepoAddr(addr string) RepoAddr {
+	// An empty branch is not a branch
+	for len(addr) > len(RepoAddrBranchSep) && strings.HasSuffix(addr, RepoAddrBranchSep) {
+		addr = addr[:len(addr)-len(RepoAddrBranchSep)]
+	}
 	branch := ""
 	i := strings.LastIndex(addr, RepoAddrBranchSep)
 	if i > 0 {
@@ -50,6 +54,16 @@ func WriteReposInfoFile(
 	path string,
 	infos []RepoInfo, sep string) {
 
+	// Check before the old list is touched
+	for _, info := range infos {
+		for _, field := range []string{info.Addr.Str(), info.Path, info.OnOff} {
+			if strings.Contains(field, sep) || strings.ContainsAny(field, "\r\n") {
+				panic(fmt.Errorf("[WriteReposInfoFile] can't save '%s' to file '%s': has line-break or field separator",
+					field, path))
+			}
+		}
+	}
+
 	os.MkdirAll(filepath.Dir(path), os.ModePerm)
 	tmp := path + ".tmp"
 	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
@@ -59,8 +73,8 @@ func WriteReposInfoFile(
 	defer file.Close()
 
 	for _, info := range infos {
-		_, err = fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
-			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
+		_, err = fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, textToField(info.AddReason, sep), sep,
+			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, textToField(info.HelpStr, sep), sep, info.OnOff)
 		if err != nil {
 			panic(fmt.Errorf("[WriteReposInfoFile] write file '%s' failed: %v", tmp, err))
 		}
@@ -92,6 +106,7 @@ func ReadReposInfoFile(
 	defer file.Close()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, maxLineLen)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.Trim(scanner.Text(), "\n\r")
@@ -110,11 +125,22 @@ func ReadReposInfoFile(
 		infos = append(infos, info)
 		list[info.Addr.Str()] = true
 	}
+	if err := scanner.Err(); err != nil {
+		panic(fmt.Errorf("[ReadReposInfoFile] read file '%s' failed: %v", path, err))
+	}
 	return
 }
 
+// A text for displaying only, the field separator and line-breaks in it become blanks
+func textToField(text string, sep string) string {
+	for _, it := range []string{sep, "\r", "\n"} {
+		text = strings.ReplaceAll(text, it, " ")
+	}
+	return text
+}
+
 func tryConvAbsPathToRelPath(hubRootPath string, path string) string {
-	if strings.HasPrefix(path, hubRootPath) {
+	if path == hubRootPath || strings.HasPrefix(path, hubRootPath+string(filepath.Separator)) {
 		return HubRootPathMark + path[len(hubRootPath):]
 	}
 	return path
@@ -156,4 +182,6 @@ func ExtractAddrFromList(
 const (
 	RepoAddrBranchSep = "#"
 	HubRootPathMark   = "<hub>:"
+
+	maxLineLen = 1 << 30
 )
diff --git a/pkg/mods/persist/hub_meta/hub_repo.go b/pkg/mods/persist/hub_meta/hub_repo.go
index f845216..31a7d4c 100644
--- a/pkg/mods/persist/hub_meta/hub_repo.go
+++ b/pkg/mods/persist/hub_meta/hub_repo.go
@@ -70,21 +70,42 @@ func AddrDisplayName(addr RepoAddr) string {
 
 func GetRepoPath(hubPath string, originGitAddr RepoAddr) string {
 	addr := strings.ToLower(originGitAddr.Addr)
+	isUrl := false
 	for _, prefix := range []string{"http://", "https://"} {
-		addr = strings.TrimPrefix(addr, prefix)
+		if strings.HasPrefix(addr, prefix) {
+			addr = addr[len(prefix):]
+			isUrl = true
+			break
+		}
 	}
 
-	symAt := strings.Index(strings.ToLower(addr), "@")
-	if symAt >= 0 {
+	// Strip the user, the path could also have '@'
+	host := addr
+	if i := strings.Index(host, "/"); i >= 0 {
+		host = host[:i]
+	}
+	if symAt := strings.Index(host, "@"); symAt >= 0 {
 		addr = addr[symAt+1:]
-		symCl := strings.LastIndex(strings.ToLower(addr), ":")
+	}
+	if !isUrl && strings.Contains(host, "@") {
+		symCl := strings.Index(addr, ":")
 		if symCl <= 0 {
 			panic(fmt.Errorf("ill-format repo address '%v'", originGitAddr.Addr))
 		}
 		addr = addr[0:symCl] + "/" + addr[symCl+1:]
 	}
 
-	if len(originGitAddr.Branch) != 0 {
+	// The path must be inside the hub
+	for _, seg := range append(strings.Split(addr, "/"), strings.Split(originGitAddr.Branch, "/")...) {
+		if seg == "." || seg == ".." {
+			panic(fmt.Errorf("ill-format repo address '%v'", originGitAddr.Str()))
+		}
+	}
+
+	if originGitAddr.Branch == "default" {
+		// Not the default one, '..' is illegal in a branch name
+		addr = filepath.Join(addr, "default..branch")
+	} else if len(originGitAddr.Branch) != 0 {
 		addr = filepath.Join(addr, originGitAddr.Branch+".branch")
 	} else {
 		addr = filepath.Join(addr, "default.branch")
-- 
2.43.0


From 4a1f906b95ce91a9924db0105211419aaa86efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 35/58] fix: purging could drop or delete other repos of the
 hub, and a repo listed twice was added twice

---
 pkg/mods/builtin/hub.go               | 20 +++++++++++++++++---
 pkg/mods/persist/hub_meta/hub_meta.go |  4 +++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 92a6d28..5e1bcc6 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -314,6 +314,8 @@ func UpdateHub(
 			if oldList[addr.Str()] {
 				continue
 			}
+			// A repo could be listed by more than one repos
+			oldList[addr.Str()] = true
 			repoPath := meta.GetRepoPath(path, addr)
 			infos = append(infos, meta.RepoInfo{addr, info.Addr.Str(), repoPath, helpStrs[i], "on"})
 		}
@@ -645,7 +647,9 @@ func exactMatchHubRepo(infos []meta.RepoInfo, findStrs ...string) (info meta.Rep
 	}
 	for i, info := range infos {
 		if info.Addr.Str() == findStr {
-			return info, append(infos[:i], infos[i+1:]...), true
+			// Don't change 'infos'
+			rest = append(rest, infos[:i]...)
+			return info, append(rest, infos[i+1:]...), true
 		}
 	}
 	return
@@ -718,10 +722,18 @@ func purgeInactiveRepoFromHub(findStr string, cc *model.Cli, env *model.Env, cmd
 	var unlinkeds int
 	var removeds int
 
+	// Different spellings of an address share the same dir
+	usings := map[string]bool{}
+	for _, info := range rest {
+		usings[info.Path] = true
+	}
+
 	for _, info := range extracted {
 		if !info.IsLocal() {
-			osRemoveDir(info.Path, cmd)
-			removeds += 1
+			if !usings[info.Path] {
+				osRemoveDir(info.Path, cmd)
+				removeds += 1
+			}
 		} else {
 			unlinkeds += 1
 		}
@@ -832,6 +844,8 @@ func addRepoToHubAndLoadMods(
 		if oldList[addr.Str()] {
 			continue
 		}
+		// A repo could be listed by more than one repos
+		oldList[addr.Str()] = true
 		repoPath := meta.GetRepoPath(path, addr)
 		info := meta.RepoInfo{addr, gitAddr.Str(), repoPath, helpStrs[i], "on"}
 		loadRepoMods(cc, env, info)
diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index c4f7d91..df7e484 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -168,7 +168,9 @@ func ExtractAddrFromList(
 			findInStr = info.Path
 		}
 		if findInStr == findStr {
-			return []RepoInfo{info}, append(infos[:i], infos[i+1:]...)
+			// Don't change 'infos'
+			rest = append([]RepoInfo{}, infos[:i]...)
+			return []RepoInfo{info}, append(rest, infos[i+1:]...)
 		}
 		if strings.Index(findInStr, findStr) >= 0 {
 			extracted = append(extracted, info)
-- 
2.43.0


From d1b061195aee49bbadeabc5edee53c3e3d3973ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 36/58] fix: an argument declaration that is refused leaves no
 names behind, and args.auto lists never stop the program

---
 pkg/core/model/args.go          | 23 ++++++++++++++++++++---
 pkg/core/model/args_auto_map.go | 25 ++++++++++++++++---------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/pkg/core/model/args.go b/pkg/core/model/args.go
index 590301f..a548947 100644
--- a/pkg/core/model/args.go
+++ b/pkg/core/model/args.go
@@ -39,20 +39,32 @@ func (self *Args) IsEmpty() bool {
 }
 
 func (self *Args) AddArg(owner *CmdTree, name string, defVal string, abbrs ...string) {
+	if len(name) == 0 {
+		panic(fmt.Errorf("[Args.AddArg] %s: arg name is empty", owner.DisplayPath()))
+	}
 	if _, ok := self.names[name]; ok {
 		panic(fmt.Errorf("[Args.AddArg] %s: arg name conflicted: %s",
 			owner.DisplayPath(), name))
 	}
 	abbrs = append([]string{name}, abbrs...)
+	// Check all of them before registering any
+	met := map[string]bool{}
 	for _, abbr := range abbrs {
 		if len(abbr) == 0 {
 			continue
 		}
-		if old, ok := self.abbrsRevIdx[abbr]; ok {
+		old, ok := self.abbrsRevIdx[abbr]
+		if !ok && met[abbr] {
+			old, ok = name, true
+		}
+		if ok {
 			panic(fmt.Errorf("[Args.AddArg] %s: arg abbr name '%s' conflicted,"+
 				" old for '%s', new for '%s'",
 				owner.DisplayPath(), abbr, old, name))
 		}
+		met[abbr] = true
+	}
+	for abbr, _ := range met {
 		self.abbrsRevIdx[abbr] = name
 	}
 	self.abbrs[name] = abbrs
@@ -107,13 +119,18 @@ func (self *Args) Reorder(owner *Cmd, names []string) {
 	if len(names) != len(self.orderedList) {
 		changed()
 	}
+	indexes := map[string]int{}
 	for i, name := range names {
 		if _, ok := self.names[name]; !ok {
 			changed()
 		}
-		self.names[name] = i
+		if _, ok := indexes[name]; ok {
+			changed()
+		}
+		indexes[name] = i
 	}
-	self.orderedList = names
+	self.names = indexes
+	self.orderedList = append([]string{}, names...)
 }
 
 func (self *Args) DefVal(name string, stackDepth int) string {
diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 6a1e9e7..89f2301 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -143,8 +143,11 @@ func (self *ArgsAutoMapStatus) AddDefinitions(owner *Cmd, args ...string) {
 
 	keyValSep := owner.Owner().Strs.EnvKeyValSep
 
-	for i, argDefinition := range args {
+	for _, argDefinition := range args {
 		argDefinition = strings.TrimSpace(argDefinition)
+		if _, ok := self.argSet[argDefinition]; ok {
+			continue
+		}
 		fields := strings.Split(argDefinition, keyValSep)
 		if len(fields) == 1 {
 			if argDefinition == "*" {
@@ -156,14 +159,12 @@ func (self *ArgsAutoMapStatus) AddDefinitions(owner *Cmd, args ...string) {
 				self.reorderedArgs = append(self.reorderedArgs, argDefinition)
 			}
 		} else {
-			self.notAutoArgs[i] = true
+			self.notAutoArgs[len(self.argList)] = true
 			argName := self.addNotAutoArg(owner, argDefinition)
 			self.reorderedArgs = append(self.reorderedArgs, argName)
 		}
-		if _, ok := self.argSet[argDefinition]; !ok {
-			self.argList = append(self.argList, argDefinition)
-			self.argSet[argDefinition] = true
-		}
+		self.argList = append(self.argList, argDefinition)
+		self.argSet[argDefinition] = true
 	}
 }
 
@@ -236,6 +237,10 @@ func (self *ArgsAutoMapStatus) FullyMapped() bool {
 
 func (self *ArgsAutoMapStatus) MarkAndCacheMapping(srcCmd *Cmd, key string, argName string, defVal string, abbrs []string, shouldMarkMapped bool) {
 	self.MarkMet(srcCmd)
+	if self.mapped[argName] {
+		// A listed arg is already mapped, '*' or '**' should not replace it
+		return
+	}
 	self.cache[argName] = Arg2EnvMappingEntry{srcCmd, key, argName, defVal, abbrs}
 	if shouldMarkMapped {
 		self.mapped[argName] = true
@@ -285,13 +290,15 @@ func (self *ArgsAutoMapStatus) FlushCache(owner *Cmd) {
 func (self *ArgsAutoMapStatus) reorderArgs(owner *Cmd) {
 	ownerArgs := owner.Args()
 	origin := ownerArgs.Names()[:self.originArgCnt]
+	// The origin args, or an arg being listed more than once, should not be counted twice
+	met := map[string]bool{}
 	var reorderedArgs []string
-	for _, it := range self.reorderedArgs {
-		if ownerArgs.Has(it) {
+	for _, it := range append(append([]string{}, origin...), self.reorderedArgs...) {
+		if ownerArgs.Has(it) && !met[it] {
+			met[it] = true
 			reorderedArgs = append(reorderedArgs, it)
 		}
 	}
-	reorderedArgs = append(origin, reorderedArgs...)
 	owner.ReorderArgs(reorderedArgs)
 }
 
-- 
2.43.0


From c03a7c27c4a8d7e2b290fb8186e8dc297d41f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 37/58] fix: a module's declarations are registered as written
 or reported

---
 pkg/mods/builtin/mod.go                 | 29 ++++++++------
 pkg/mods/persist/meta_file/meta_file.go | 12 +++++-
 pkg/mods/persist/mod_meta/mod_reg.go    | 51 +++++++++++++++++++------
 3 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 0482ded..054697a 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -45,14 +45,18 @@ func loadLocalMods(
 
 	// TODO: return filepath.SkipDir to avoid some non-sense scanning
 	filepath.Walk(root, func(metaPath string, info fs.FileInfo, err error) error {
+		// Skip hidden file or dir, but not the specified one
+		base := filepath.Base(metaPath)
+		hidden := metaPath != root && len(base) > 0 && base[0] == '.'
 		if info != nil && info.IsDir() {
-			// Skip hidden file or dir
-			base := filepath.Base(metaPath)
-			if len(base) > 0 && base[0] == '.' {
+			if hidden {
 				return filepath.SkipDir
 			}
 			return nil
 		}
+		if hidden {
+			return nil
+		}
 		if metaPath == filepath.Join(root, reposFileName) {
 			return nil
 		}
@@ -76,15 +80,17 @@ func loadLocalMods(
 		}
 		targetPath := metaPath[0 : len(metaPath)-len(ext)]
 
-		// Note: strip all ext(s) from cmd-path
-		cmdPath := targetPath[len(root)+1:]
-		for {
-			ext := filepath.Ext(cmdPath)
-			if len(ext) == 0 {
-				break
-			} else {
-				cmdPath = cmdPath[0 : len(cmdPath)-len(ext)]
+		// Note: strip all ext(s) from each part of the cmd-path, they can't be in a cmd name
+		cmdPaths := strings.Split(targetPath[len(root)+1:], string(filepath.Separator))
+		for i, name := range cmdPaths {
+			for {
+				ext := filepath.Ext(name)
+				if len(ext) == 0 {
+					break
+				}
+				name = name[0 : len(name)-len(ext)]
 			}
+			cmdPaths[i] = name
 		}
 
 		isDir := false
@@ -95,7 +101,6 @@ func loadLocalMods(
 			isDir = info.IsDir()
 		}
 
-		cmdPaths := strings.Split(cmdPath, string(filepath.Separator))
 		mod_meta.RegMod(cc, metaPath, targetPath, isDir, false, cmdPaths,
 			flowExt, abbrsSep, envPathSep, source, panicRecover)
 		return nil
diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 3d1ed8e..412179b 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -58,7 +58,8 @@ func parseCombinedFile(path string, data []byte, lineSep string) (paths []string
 			if strings.HasPrefix(cand, CombinedFilePrefix1) {
 				cand = strings.TrimSpace(cand[len(CombinedFilePrefix1):])
 				if strings.HasPrefix(cand, CombinedFilePrefix2) {
-					if !(currPath == path && len(currLines) == 0) {
+					// The lines before the first virtual file could be blanks or comments
+					if !(notVirtual && isAllBlankOrComment(currLines)) {
 						paths = append(paths, currPath)
 						contents = append(contents, currLines)
 						notVirtuals = append(notVirtuals, notVirtual)
@@ -77,6 +78,15 @@ func parseCombinedFile(path string, data []byte, lineSep string) (paths []string
 	return
 }
 
+func isAllBlankOrComment(lines []string) bool {
+	for _, line := range lines {
+		if len(line) != 0 && line[0] != CommentPrefix {
+			return false
+		}
+	}
+	return true
+}
+
 func CreateMetaFile(path string) (meta *MetaFile) {
 	meta = &MetaFile{
 		make(SectionMap),
diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 499c954..c5ab424 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -422,7 +422,14 @@ func regModAbbrs(meta *meta_file.MetaFile, mod *model.CmdTree) {
 		return
 	}
 	abbrsSep := mod.Strs.AbbrsSep
-	mod.AddAbbrs(strings.Split(abbrs, abbrsSep)...)
+	mod.AddAbbrs(splitAndTrim(abbrs, abbrsSep)...)
+}
+
+func splitAndTrim(str string, sep string) (fields []string) {
+	for _, field := range strings.Split(str, sep) {
+		fields = append(fields, strings.TrimSpace(field))
+	}
+	return
 }
 
 func regFlowAbbrs(meta *meta_file.MetaFile, cmds *model.CmdTree, cmdPath []string) {
@@ -439,8 +446,7 @@ func regFlowAbbrs(meta *meta_file.MetaFile, cmds *model.CmdTree, cmdPath []strin
 
 	var abbrs [][]string
 	for _, abbrSeg := range strings.Split(abbrsStr, pathSep) {
-		abbrList := strings.Split(abbrSeg, abbrsSep)
-		abbrs = append(abbrs, abbrList)
+		abbrs = append(abbrs, splitAndTrim(abbrSeg, abbrsSep))
 	}
 
 	mod := cmds
@@ -477,7 +483,7 @@ func regArgs(meta *meta_file.MetaFile, cmd *model.Cmd, abbrsSep string) {
 				if strings.HasPrefix(enumsStr, "enum:") {
 					enumsStr = strings.TrimSpace(enumsStr[5:])
 				}
-				enums = strings.Split(enumsStr, enumSep)
+				enums = splitAndTrim(enumsStr, enumSep)
 				defVal = strings.TrimSpace(defVal[:i])
 			}
 		}
@@ -604,14 +610,37 @@ func regEnvKeyAbbrs(
 }
 
 func regEnvOp(cmd *model.Cmd, key string, opOrigin string) {
-	op := strings.ToLower(opOrigin)
-	may := strings.Index(op, "may") >= 0 || strings.Index(op, "opt") >= 0
-	write := strings.Index(op, "w") >= 0
-	read := strings.Index(op, "rd") >= 0 ||
-		strings.Index(op, "read") >= 0 || op == "r"
-	if write && read {
+	bad := func() {
 		panic(fmt.Errorf("[LoadLocalMods.regEnvOp] "+
-			"parse env r|w definition failed: %v", opOrigin))
+			"parse env r|w definition failed: key '%s', op '%s'", key, opOrigin))
+	}
+
+	may := false
+	write := false
+	read := false
+	words := strings.FieldsFunc(strings.ToLower(opOrigin), func(c rune) bool {
+		return strings.ContainsRune("-_. \t", c)
+	})
+	for _, word := range words {
+		for _, mark := range []string{"maybe", "may", "optional", "opt"} {
+			if strings.HasPrefix(word, mark) {
+				may = true
+				word = word[len(mark):]
+				break
+			}
+		}
+		switch word {
+		case "":
+		case "r", "rd", "read":
+			read = true
+		case "w", "wr", "wt", "write":
+			write = true
+		default:
+			bad()
+		}
+	}
+	if write == read {
+		bad()
 	}
 	if write {
 		if may {
-- 
2.43.0


From ae98d220b793e5f59600592fdfff21c34b56d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:37 +0000
Subject: [PATCH 38/58] fix: flow.rename, flow.save and flow.move never go over
 another command or flow unasked

---
 pkg/mods/builtin/flow.go  | 54 ++++++++++++++++++++++-----------------
 pkg/mods/builtin/hub.go   | 11 ++++++++
 pkg/mods/builtin/utils.go |  4 +--
 3 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 1198913..0881226 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -102,7 +102,7 @@ func RenameFlow(
 	assertNotTailMode(flow, currCmdIdx)
 
 	argSrcCmdPath, srcCmdPath, srcFilePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "src")
-	argDestCmdPath, destCmdPath, destFilePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, false, "dest")
+	argDestCmdPath, destCmdPath, destFilePath, destExists := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, false, "dest")
 
 	_, err := os.Stat(srcFilePath)
 	if os.IsNotExist(err) {
@@ -110,6 +110,15 @@ func RenameFlow(
 			fmt.Sprintf("path '%s' does not exist", srcFilePath)))
 	}
 
+	if destFilePath != srcFilePath {
+		if fileExists(destFilePath) {
+			confirmOverwriteFlow(argDestCmdPath, destFilePath, cc, env, flow.Cmds[currCmdIdx])
+		} else if destExists {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+				fmt.Sprintf("cmd '%s' exists but it is not a saved flow", argDestCmdPath)))
+		}
+	}
+
 	err = os.Rename(srcFilePath, destFilePath)
 	if err != nil {
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
@@ -223,21 +232,9 @@ func SaveFlow(
 	}
 	screen := display.NewCacheScreen()
 
-	_, err := os.Stat(filePath)
-	if !os.IsNotExist(err) {
-		if quietOverwrite {
-			// do nothing
-		} else {
-			if !env.GetBool("sys.confirm.ask") {
-				panic(model.NewCmdError(flow.Cmds[currCmdIdx],
-					fmt.Sprintf("path '%s' exists", filePath)))
-			} else {
-				cc.Screen.Print(fmt.Sprintf(display.ColorTip("[confirm]", env)+
-					" flow file of '%s'"+realCmdStr+" exists, "+
-					"type "+display.ColorWarn("'y'", env)+" and press enter to "+
-					display.ColorWarn("overwrite:", env)+"\n", argCmdPath))
-				utils.UserConfirm()
-			}
+	if fileExists(filePath) {
+		if !quietOverwrite {
+			confirmOverwriteFlow(argCmdPath+realCmdStr, filePath, cc, env, flow.Cmds[currCmdIdx])
 		}
 	} else if cmdExists {
 		display.PrintErrTitle(cc.Screen, env,
@@ -450,6 +447,12 @@ func getFlowCmdPath(
 		}
 	}
 
+	// The name of a saved flow is its file name
+	if strings.ContainsRune(cmdPath, filepath.Separator) {
+		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+			fmt.Sprintf("arg '%s' is not a cmd path: %s", argName, originCmd)))
+	}
+
 	if expectExists && !cmdExists {
 		if originCmd == cmdPath {
 			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
@@ -474,14 +477,6 @@ func getFlowCmdPath(
 	flowExt := env.GetRaw("strs.flow-ext")
 
 	filePath = filepath.Join(root, cmdPath) + flowExt
-	if !expectExists && fileExists(filePath) {
-		if !env.GetBool("sys.confirm.ask") {
-			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
-				fmt.Sprintf("flow '%s' file '%s' exists", cmdPath, filePath)))
-		} else {
-			return
-		}
-	}
 	if expectExists && !fileExists(filePath) {
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
 			fmt.Sprintf("flow '%s' file '%s' not exists", cmdPath, filePath)))
@@ -489,6 +484,17 @@ func getFlowCmdPath(
 	return
 }
 
+func confirmOverwriteFlow(cmdDesc string, filePath string, cc *model.Cli, env *model.Env, cmd model.ParsedCmd) {
+	if !env.GetBool("sys.confirm.ask") {
+		panic(model.NewCmdError(cmd, fmt.Sprintf("path '%s' exists", filePath)))
+	}
+	cc.Screen.Print(display.ColorTip("[confirm]", env) +
+		" flow file of '" + cmdDesc + "' exists, " +
+		"type " + display.ColorWarn("'y'", env) + " and press enter to " +
+		display.ColorWarn("overwrite:", env) + "\n")
+	utils.UserConfirm()
+}
+
 func checkAndConfirmIfFlowHasParseError(screen model.Screen, flow *model.ParsedCmds, env *model.Env) bool {
 	for _, cmd := range flow.Cmds {
 		if cmd.ParseResult.Error == nil {
diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 5e1bcc6..a4ef5c9 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -762,6 +762,17 @@ func moveSavedFlowsToLocalDir(toDir string, cc *model.Cli, env *model.Env, cmd m
 	flowExt := env.GetRaw("strs.flow-ext")
 	root := getFlowRoot(env, cmd)
 
+	filepath.Walk(root, func(path string, info fs.FileInfo, err error) error {
+		if err != nil || info.IsDir() || !strings.HasSuffix(path, flowExt) {
+			return nil
+		}
+		destPath := filepath.Join(toDir, filepath.Base(path))
+		if destPath != path && fileExists(destPath) {
+			panic(model.NewCmdError(cmd, fmt.Sprintf("can't move '%s', path '%s' exists", path, destPath)))
+		}
+		return nil
+	})
+
 	var count int
 	filepath.Walk(root, func(path string, info fs.FileInfo, err error) error {
 		if err != nil {
diff --git a/pkg/mods/builtin/utils.go b/pkg/mods/builtin/utils.go
index 177f5be..b438ef4 100644
--- a/pkg/mods/builtin/utils.go
+++ b/pkg/mods/builtin/utils.go
@@ -188,10 +188,10 @@ func osRemoveDir(path string, cmd model.ParsedCmd) {
 
 func fileExists(path string) bool {
 	info, err := os.Stat(path)
-	return !os.IsNotExist(err) && !info.IsDir()
+	return err == nil && !info.IsDir()
 }
 
 func dirExists(path string) bool {
 	info, err := os.Stat(path)
-	return !os.IsNotExist(err) && info.IsDir()
+	return err == nil && info.IsDir()
 }
-- 
2.43.0


From 07057f5fb636fd419228d82f081af0d0a22bfa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:52 +0000
Subject: [PATCH 39/58] fix: saving a flow or its help text never leaves a
 half-written file

---
 pkg/mods/persist/meta_file/meta_file.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 412179b..605e04f 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -258,13 +258,20 @@ func (self *MetaFile) parse(lines []string) {
 }
 
 func (self *MetaFile) Save() {
-	file, err := os.OpenFile(self.path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	buf := &bytes.Buffer{}
+	self.save(buf)
+
+	// Never leave a half-written file
+	tmp := self.path + ".tmp"
+	err := os.WriteFile(tmp, buf.Bytes(), 0644)
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] write mod meta file '%s' failed: %v", tmp, err))
+	}
+	err = os.Rename(tmp, self.path)
 	if err != nil {
-		panic(fmt.Errorf("[MetaFile.Save] open mod meta file '%s' for save failed: %v",
-			self.path, err))
+		panic(fmt.Errorf("[MetaFile.Save] rename mod meta file '%s' to '%s' failed: %v",
+			tmp, self.path, err))
 	}
-	defer file.Close()
-	self.save(file)
 }
 
 func (self *MetaFile) save(w io.Writer) {
-- 
2.43.0


From 42e6d60d85c18f7d5a0891172c97ad5d840c74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 40/58] fix: settings of a command branch are not lost when
 their keys overlap

---
 pkg/core/model/parsing.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index daedb31..7b8d498 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -383,6 +383,10 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		keys = append(keys, k)
 		vals = append(vals, v)
 	}
+	// A new key could be the same as another old one
+	for _, k := range keys {
+		delete(self, k)
+	}
 
 	prefixPath := strings.Join(prefix, sep) + sep
 	for i, k := range keys {
@@ -395,7 +399,6 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		}
 		matchedPath := append(prefixClone, v.MatchedPath...)
 		self[prefixPath+k] = ParsedEnvVal{v.Val, v.IsArg, v.IsSysArg, matchedPath, strings.Join(matchedPath, sep)}
-		delete(self, k)
 		v = self[prefixPath+k]
 
 		// If not deep copy, the v.MatchedPath will be the last value of this loop
-- 
2.43.0


From 0d31e2af9581ac0c62dde41669805df309526b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 41/58] fix: env key abbreviations also expand behind an
 abbreviated command

---
 pkg/core/parser/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/parser/cmd.go b/pkg/core/parser/cmd.go
index 1380811..eb3067c 100644
--- a/pkg/core/parser/cmd.go
+++ b/pkg/core/parser/cmd.go
@@ -173,7 +173,7 @@ func (self *CmdParser) parse(
 			if sub != nil {
 				curr = sub
 				if currEnvAbbrs != nil {
-					currEnvAbbrs = currEnvAbbrs.GetSub(input[0])
+					currEnvAbbrs = currEnvAbbrs.GetSub(sub.Name())
 				}
 				parsed = append(parsed, parsedSeg{parsedSegTypeCmd, model.MatchedCmd{input[0], sub}})
 				matchedCmdPath = append(matchedCmdPath, input[0])
-- 
2.43.0


From 3f8df5abda72c40d92e022560007951092f31915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:26 +0000
Subject: [PATCH 42/58] fix: record the end of a failed background command

---
 pkg/core/execute/executor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 7a80246..1308f1f 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -569,6 +569,12 @@ func asyncExecute(
 			task.OnFinish(err)
 		}()
 
+		// Also record the end of a failed task, or it looks like not finished
+		ok := false
+		defer func() {
+			cc.FlowStatus.OnFlowFinish(env, ok)
+		}()
+
 		stackLines := display.PrintCmdStack(false, cc.Screen, cmd, mask,
 			env, cc.EnvKeysInfo, flow.Cmds, currCmdIdx, cc.Cmds.Strs, nil, false)
 		var width int
@@ -580,7 +586,7 @@ func asyncExecute(
 			env.SetInt("display.executor.displayed", env.GetInt("sys.stack-depth"))
 		}
 		start := time.Now()
-		_, ok := cic.Execute(argv, cc, env, mask, flow, allowError, currCmdIdx, nil)
+		_, ok = cic.Execute(argv, cc, env, mask, flow, allowError, currCmdIdx, nil)
 		elapsed := time.Now().Sub(start)
 		env.SetInt("display.executor.displayed", 0)
 		if !ok {
@@ -593,7 +599,6 @@ func asyncExecute(
 				env, ok, elapsed, flow.Cmds, currCmdIdx, cc.Cmds.Strs)
 			display.RenderCmdResult(resultLines, env, cc.Screen, width)
 		}
-		cc.FlowStatus.OnFlowFinish(env, ok)
 
 	}(dur, argv, cc, env, flow, currCmdIdx)
 
-- 
2.43.0


From 53ce5a53fad57d33487a0f04ed61f94afc92c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 43/58] fix: env.reset-session doesn't set the keys to keep
 that have no value

---
 pkg/mods/builtin/env.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/env.go b/pkg/mods/builtin/env.go
index ba7a267..c42fdbd 100644
--- a/pkg/mods/builtin/env.go
+++ b/pkg/mods/builtin/env.go
@@ -321,7 +321,10 @@ func ResetSessionEnv(
 	if len(excludeStr) != 0 {
 		listSep := env.GetRaw("strs.list-sep")
 		for _, key := range strings.Split(excludeStr, listSep) {
-			excludes[key] = env.GetRaw(key)
+			// A key without value doesn't get one by being kept
+			if val, ok := env.GetEx(key); ok {
+				excludes[key] = val.Raw
+			}
 		}
 	}
 
-- 
2.43.0


From 9fe5314fea98887fa5b6f5fc3e1f50ccabc38a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 44/58] fix: saved settings don't include the args of the
 running commands

---
 pkg/core/model/proto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index c459394..7464c27 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -14,7 +14,8 @@ import (
 func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDefault bool) error {
 	defEnv := env.GetLayer(EnvLayerDefault)
 
-	flatten := env.Flatten(true, filtered, false)
+	// The args of the running commands are not settings
+	flatten := env.Flatten(true, filtered, true)
 	var keys []string
 	for k, v := range flatten {
 		if skipDefault && defEnv.GetRaw(k) == v {
@@ -25,8 +26,7 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 	sort.Strings(keys)
 	for _, k := range keys {
-		v := env.GetRaw(k)
-		_, err := fmt.Fprintf(writer, "%s%s%s\n", k, sep, v)
+		_, err := fmt.Fprintf(writer, "%s%s%s\n", k, sep, flatten[k])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6a877784557be33fac42ecb01d89e55d8e44f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:55 +0000
Subject: [PATCH 45/58] fix: settings with an empty value are saved too

---
 pkg/core/model/proto.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 7464c27..218e068 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -18,8 +18,11 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 	flatten := env.Flatten(true, filtered, true)
 	var keys []string
 	for k, v := range flatten {
-		if skipDefault && defEnv.GetRaw(k) == v {
-			continue
+		if skipDefault {
+			// An empty value is not the same as no default value
+			if def, ok := defEnv.GetEx(k); ok && def.Raw == v {
+				continue
+			}
 		}
 		keys = append(keys, k)
 	}
-- 
2.43.0


From 31e69aa920ed3e56493e061331debba0cf16281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 46/58] fix: report modules that panic with a text instead of
 crashing

---
 pkg/mods/builtin/interactive.go |  6 +++++-
 pkg/ticat/ticat.go              | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/builtin/interactive.go b/pkg/mods/builtin/interactive.go
index 7377ec3..a28a277 100644
--- a/pkg/mods/builtin/interactive.go
+++ b/pkg/mods/builtin/interactive.go
@@ -185,7 +185,11 @@ func executorSafeExecute(caller string, cc *model.Cli, env *model.Env, masks []*
 			return
 		}
 		if r := recover(); r != nil {
-			display.PrintError(cc, env, r.(error))
+			err, isErr := r.(error)
+			if !isErr {
+				err = fmt.Errorf("%v", r)
+			}
+			display.PrintError(cc, env, err)
 		}
 	}()
 
diff --git a/pkg/ticat/ticat.go b/pkg/ticat/ticat.go
index c8b3dee..87eb3df 100644
--- a/pkg/ticat/ticat.go
+++ b/pkg/ticat/ticat.go
@@ -200,7 +200,7 @@ func (ticat *TiCat) run(args ...string) bool {
 			return
 		}
 		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recovered.(error))
+			display.PrintError(ticat.cc, env, panicToErr(recovered))
 		}
 		// Exit point: panic
 		ticat.exitEventHook("sys.event.hook.error")
@@ -252,7 +252,7 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 		// Exit point: panic when executing exit-event-hook
 		// TODO: need to check this flag doesn't from user-level persisted env
 		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recovered.(error))
+			display.PrintError(ticat.cc, env, panicToErr(recovered))
 			os.Exit(-2)
 		} else {
 			// Re-throw
@@ -268,3 +268,11 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 
 	return true
 }
+
+// A module may panic with any value
+func panicToErr(recovered interface{}) error {
+	if err, ok := recovered.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", recovered)
+}
-- 
2.43.0


From 88bd400f93add3804f17670b543769d0f556c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 47/58] fix: background commands run without a session too

---
 pkg/core/execute/executor.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 1308f1f..64f6228 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -531,16 +531,19 @@ func asyncExecute(
 		realName := cmd.LastCmdNode().DisplayPath()
 		tid := utils.GoRoutineIdStr()
 
-		sessionDir := env.GetRaw("session")
-		sessionDir = filepath.Join(sessionDir, tid)
-		os.MkdirAll(sessionDir, os.ModePerm)
+		bgSessionEnv := env.GetLayer(model.EnvLayerSession)
 
-		statusFileName := env.GetRaw("strs.session-status-file")
-		statusPath := filepath.Join(sessionDir, statusFileName)
-		cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
+		// Nothing is recorded when running without a session
+		if sessionDir := env.GetRaw("session"); len(sessionDir) != 0 {
+			sessionDir = filepath.Join(sessionDir, tid)
+			os.MkdirAll(sessionDir, os.ModePerm)
 
-		bgSessionEnv := env.GetLayer(model.EnvLayerSession)
-		bgSessionEnv.Set("session", sessionDir)
+			statusFileName := env.GetRaw("strs.session-status-file")
+			statusPath := filepath.Join(sessionDir, statusFileName)
+			cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
+
+			bgSessionEnv.Set("session", sessionDir)
+		}
 		bgSessionEnv.SetBool("display.one-cmd", true)
 		bgSessionEnv.SetBool("sys.in-bg-task", true)
 
@@ -572,7 +575,9 @@ func asyncExecute(
 		// Also record the end of a failed task, or it looks like not finished
 		ok := false
 		defer func() {
-			cc.FlowStatus.OnFlowFinish(env, ok)
+			if cc.FlowStatus != nil {
+				cc.FlowStatus.OnFlowFinish(env, ok)
+			}
 		}()
 
 		stackLines := display.PrintCmdStack(false, cc.Screen, cmd, mask,
-- 
2.43.0


From 52abb06237ed55b2b327c6c5d6987a7b5f1c261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:10 +0000
Subject: [PATCH 48/58] fix: a line of only a separator is no internal error

---
 pkg/core/execute/cmd_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/execute/cmd_type.go b/pkg/core/execute/cmd_type.go
index ac86176..7b17dd9 100644
--- a/pkg/core/execute/cmd_type.go
+++ b/pkg/core/execute/cmd_type.go
@@ -105,7 +105,7 @@ func noSessionCmds(flow *model.ParsedCmds) bool {
 		}
 		ignore := false
 		for _, it := range funcs {
-			if cmd.Cmd() != nil && cmd.Cmd().IsTheSameFunc(it) {
+			if cmd != nil && cmd.Cmd() != nil && cmd.Cmd().IsTheSameFunc(it) {
 				ignore = true
 				break
 			}
-- 
2.43.0


From 9fd280f87df367bb6a39d1a32fa6e3294f14866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:02 +0000
Subject: [PATCH 49/58] fix: refuse a session id of only brackets

---
 pkg/mods/builtin/sessions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 5dbeb18..edf3c85 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -698,5 +698,10 @@ func retrySession(session model.SessionStatus, errSessionOnly bool) (flow []stri
 
 func normalizeSid(id string) string {
 	// TODO: put brackets to env?
-	return strings.TrimRight(strings.TrimLeft(id, "["), "]")
+	normalized := strings.TrimRight(strings.TrimLeft(id, "["), "]")
+	if len(normalized) == 0 && len(id) != 0 {
+		// An empty id means any session
+		panic(fmt.Errorf("invalid session id '%s'", id))
+	}
+	return normalized
 }
-- 
2.43.0


From eb97a2f759fca16a9f0904c9b812c1a4e7af9973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 50/58] fix: error messages are no formats

---
 pkg/core/model/errs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/errs.go b/pkg/core/model/errs.go
index dab6d8d..d557476 100644
--- a/pkg/core/model/errs.go
+++ b/pkg/core/model/errs.go
@@ -1,7 +1,7 @@
 package model
 
 import (
-	"fmt"
+	"errors"
 )
 
 type CmdError struct {
@@ -14,7 +14,7 @@ func WrapCmdError(cmd ParsedCmd, err error) *CmdError {
 }
 
 func NewCmdError(cmd ParsedCmd, err string) *CmdError {
-	return &CmdError{cmd, fmt.Errorf(err)}
+	return &CmdError{cmd, errors.New(err)}
 }
 
 func (self CmdError) Error() string {
-- 
2.43.0


From 34ae666e78599beb2a066a8f14e7dbe1b64c1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:54 +0000
Subject: [PATCH 51/58] fix: remove all the sessions that match the keywords

---
 pkg/mods/builtin/sessions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index edf3c85..18a2d78 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -339,7 +339,7 @@ func FindAndRemoveSessions(
 	force := argv.GetBool("remove-running")
 
 	findStrs := getFindStrsFromArgvAndFlow(flow, currCmdIdx, argv)
-	sessions, _ := findSessions(findStrs, "", cc, env, 1, true, true, true)
+	sessions, _ := findSessions(findStrs, "", cc, env, 0, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
 	}
-- 
2.43.0


From e8cacbf5fb1009c76a0e4bf9f64c4418626e3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:07 +0000
Subject: [PATCH 52/58] fix: choices at pauses are read one by one

---
 pkg/core/execute/interactive.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 4e5c8cc..72d30e0 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -1,7 +1,6 @@
 package execute
 
 import (
-	"bufio"
 	"fmt"
 	"os"
 	"strings"
@@ -234,9 +233,8 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 
 	showTitle()
 
-	buf := bufio.NewReader(os.Stdin)
 	for {
-		lineBytes, err := buf.ReadBytes('\n')
+		lineBytes, err := readStdinLine()
 		if err != nil {
 			panic(fmt.Errorf("[readFromStdin] read from stdin failed: %v", err))
 		}
@@ -272,6 +270,23 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 	}
 }
 
+// Not use a buffer here, what is after this line is for others (eg: the next choice)
+func readStdinLine() (line []byte, err error) {
+	char := make([]byte, 1)
+	for {
+		n, err := os.Stdin.Read(char)
+		if n > 0 {
+			line = append(line, char[0])
+			if char[0] == '\n' {
+				return line, nil
+			}
+		}
+		if err != nil {
+			return line, err
+		}
+	}
+}
+
 func getAllBPAs() BPAs {
 	return BPAs{
 		"c": BPAContinue,
-- 
2.43.0


From a9d3cba9dc45cf361fde2b8e743449647ff196cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:08 +0000
Subject: [PATCH 53/58] fix: only the listed choices are accepted at a pause

---
 pkg/core/execute/interactive.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 72d30e0..b586017 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -245,7 +245,7 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 		if lowerInput {
 			line = strings.ToLower(line)
 		}
-		if action, ok := actions[line]; ok {
+		if action, ok := actions[line]; ok && isChoice(line, choices) {
 			if action == BPAQuit {
 				panic(model.NewAbortByUserErr())
 			} else if action == BPAInteract {
@@ -287,6 +287,15 @@ func readStdinLine() (line []byte, err error) {
 	}
 }
 
+func isChoice(line string, choices []string) bool {
+	for _, choice := range choices {
+		if line == choice {
+			return true
+		}
+	}
+	return false
+}
+
 func getAllBPAs() BPAs {
 	return BPAs{
 		"c": BPAContinue,
-- 
2.43.0


From 79da4facc1a79ceb2802c4b940c8f3928a9c39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:09 +0000
Subject: [PATCH 54/58] fix: quiet commands and env definitions don't swallow a
 pause

---
 pkg/core/execute/executor.go    | 3 +++
 pkg/core/execute/interactive.go | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 64f6228..f491602 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -272,6 +272,9 @@ func (self *Executor) executeCmd(
 			breakAtNext = true
 		} else if bpa != BPAContinue {
 			return
+		} else if neverPause(cmd) {
+			// It never pauses, so the pause is for the command after it
+			breakAtNext = breakByPrev
 		}
 	} else {
 		// TODO: need to do anything for bg cmd?
diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index b586017..ad6193b 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -32,7 +32,7 @@ func tryWaitSecAndBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd
 
 	// Not sure why we need to checke "sys.breakpoint.here.now" originally, it cause a bug
 	//if cmd.IsQuiet() && !env.GetBool("sys.breakpoint.here.now") {
-	if cmd.IsQuiet() {
+	if neverPause(cmd) {
 		return BPAContinue
 	}
 
@@ -56,6 +56,11 @@ func tryWaitSecAndBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd
 	return bpa
 }
 
+// Quiet commands and env definitions without a command
+func neverPause(cmd model.ParsedCmd) bool {
+	return cmd.IsQuiet() || cmd.LastCmdNode() == nil
+}
+
 func tryBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *model.ExecuteMask,
 	breakByPrev bool, showStack func()) BreakPointAction {
 
-- 
2.43.0


From 9047acdc56fce2578016d73fda04ae834598fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:11 +0000
Subject: [PATCH 55/58] fix: the choice between sub flow and file of a command

---
 pkg/core/execute/executor.go    |  2 +-
 pkg/core/execute/interactive.go | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index f491602..e70000b 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -299,7 +299,7 @@ func (self *Executor) executeCmd(
 					cmdEnv.SetInt("display.executor.displayed", cmdEnv.GetInt("sys.stack-depth"))
 				}
 				tryBreakInsideFileNFlowWrap := func(cc *model.Cli, env *model.Env, cmd *model.Cmd) bool {
-					return tryBreakInsideFileNFlow(cc, env, cmd, breakByPrev, showStack)
+					return tryBreakInsideFileNFlow(cc, env, cmd, showStack)
 				}
 				newCurrCmdIdx, succeeded = last.Execute(argv, sysArgv, cc, cmdEnv, mask, flow, currCmdIdx, tryBreakInsideFileNFlowWrap)
 				cmdEnv.SetInt("display.executor.displayed", 0)
diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index ad6193b..e3acb5f 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -179,9 +179,7 @@ func tryWaitSec(cc *model.Cli, env *model.Env, waitSecKey string) {
 	}
 }
 
-func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, breakByPrev bool, showStack func()) (shouldExec bool) {
-	breakByPrev = breakByPrev || env.GetBool("sys.breakpoint.at-next")
-
+func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, showStack func()) (shouldExec bool) {
 	if env.GetBool("sys.in-bg-task") {
 		return true
 	}
@@ -193,7 +191,8 @@ func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, brea
 	}
 
 	// TODO: BUG: too soon to delete 'sys.breakpoint.status.step-in', here env.GetBool("sys.breakpoint.status.step-in") will be always false
-	if !breakByPrev && !env.GetBool("sys.breakpoint.status.step-in") && !env.GetBool("sys.breakpoint.status.step-out") {
+	if !env.GetBool("sys.breakpoint.at-next") &&
+		!env.GetBool("sys.breakpoint.status.step-in") && !env.GetBool("sys.breakpoint.status.step-out") {
 		return true
 	}
 
@@ -207,14 +206,16 @@ func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, brea
 		cc,
 		env,
 		showStack)
+
+	sessionEnv := env.GetLayer(model.EnvLayerSession)
+	sessionEnv.Delete("sys.breakpoint.status.step-in")
+	sessionEnv.Delete("sys.breakpoint.status.step-out")
 	if bpa == BPAContinue {
-		env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
 		return true
 	}
-	if bpa == BPAStepOver {
-		return true
-	}
-	return false
+	// There is no more subflow in the current command, so this only affects the next command
+	sessionEnv.SetBool("sys.breakpoint.at-next", true)
+	return bpa == BPAStepOver
 }
 
 func clearBreakPointStatusInEnv(env *model.Env) {
-- 
2.43.0


From d167e104f36f6cfe53bb5833108bd403fa0b7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:17 +0000
Subject: [PATCH 56/58] fix: a choice at a pause replaces the earlier ones

---
 pkg/core/execute/executor.go    | 10 ++++++++--
 pkg/core/execute/interactive.go | 19 +++++++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e70000b..f4cab4e 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -338,14 +338,20 @@ func (self *Executor) executeCmd(
 	}
 
 	if !sysArgv.IsDelay() {
-		bpa := tryWaitSecAndBreakAfter(cc, env, cmd, bootstrap, lastCmdInFlow, showStack)
+		bpa := tryWaitSecAndBreakAfter(cc, env, cmd, bootstrap, showStack)
 		if bpa == BPAStepOver {
 			// Use `breakAtNext = true` to do step-over to not affect subflow
 			breakAtNext = true
-		} else if bpa != BPAContinue {
+		} else if bpa == BPAContinue {
+			breakAtNext = false
+		} else if bpa != BPANotAsked {
 			return
 		}
 	}
+	if breakAtNext && lastCmdInFlow {
+		// The next command is in the caller flow
+		env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.status.step-out", true)
+	}
 	return
 }
 
diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index e3acb5f..78421b3 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -21,6 +21,7 @@ const (
 	BPASkip       = "skip current, pause before next command"
 	BPAInteract   = "interactive mode"
 	BPAQuit       = "quit executing"
+	BPANotAsked   = ""
 )
 
 func tryWaitSecAndBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *model.ExecuteMask,
@@ -113,13 +114,9 @@ func tryBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *mo
 	return readUserBPAChoice(reason, choices, bpas, true, cc, env, showStack)
 }
 
-func tryWaitSecAndBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, bootstrap bool, lastCmdInFlow bool, showStack func()) BreakPointAction {
-	bpa := tryBreakAfter(cc, env, cmd, showStack)
-	if bpa == BPAStepOver {
-		if lastCmdInFlow && (cmd.LastCmd() == nil || !cmd.LastCmd().HasSubFlow(false)) {
-			env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.status.step-out", true)
-		}
-	} else if bpa == BPAContinue && !bootstrap && cmd.LastCmdNode() != nil && !cmd.LastCmdNode().IsQuiet() {
+func tryWaitSecAndBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, bootstrap bool, showStack func()) (bpa BreakPointAction) {
+	bpa = tryBreakAfter(cc, env, cmd, showStack)
+	if (bpa == BPAContinue || bpa == BPANotAsked) && !bootstrap && cmd.LastCmdNode() != nil && !cmd.LastCmdNode().IsQuiet() {
 		tryWaitSec(cc, env, "sys.execute-wait-sec.at-end")
 	}
 	return bpa
@@ -128,7 +125,7 @@ func tryWaitSecAndBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd,
 func tryBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, showStack func()) BreakPointAction {
 	name := strings.Join(cmd.Path(), cc.Cmds.Strs.PathSep)
 	if !cc.BreakPoints.BreakAfter(name) {
-		return BPAContinue
+		return BPANotAsked
 	}
 	reason := display.ColorTip("break-point: after command ", env) + display.ColorCmd("["+name+"]", env)
 	bpas := getAllBPAs()
@@ -268,6 +265,12 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 				showTitle()
 				continue
 			} else if action == BPAContinue {
+				sessionEnv := env.GetLayer(model.EnvLayerSession)
+				sessionEnv.SetBool("sys.breakpoint.at-next", false)
+				sessionEnv.Delete("sys.breakpoint.status.step-in")
+				sessionEnv.Delete("sys.breakpoint.status.step-out")
+			} else if action == BPAStepOver {
+				// A previous skipping should not pause inside the subflow of this command
 				env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.at-next", false)
 			}
 			return action
-- 
2.43.0


From 28f1c01fc668f5792a421f5b4a38d53c7f5e0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:55 +0000
Subject: [PATCH 57/58] fix: logs of deeply nested commands are shown in a
 narrow space

---
 pkg/cli/display/flow.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 218e132..ed74ff5 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -414,6 +414,11 @@ func dumpCmdExecutedLog(
 
 	padLen := padLenCal(2)
 	limit := lineLimit - padLen
+	// The screen could be too narrow for a deep command
+	const minLimit = 16
+	if limit < minLimit {
+		limit = minLimit
+	}
 
 	if !args.MonitorMode {
 		if executedCmd.Result == model.ExecutedResultSucceeded {
@@ -443,7 +448,7 @@ func dumpCmdExecutedLog(
 			return -1
 		}, line)
 		line = stripTermStyle(line)
-		if len(line) > 2*lineLimit {
+		if len(line) > 2*lineLimit && len(line) > limit {
 			line = line[0:limit]
 		}
 		for {
-- 
2.43.0


From dae607570505cd572e1a8a2a3a14e57cf6cf2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:56 +0000
Subject: [PATCH 58/58] fix: an empty command does not shift the results in a
 session description

---
 pkg/cli/display/flow.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index ed74ff5..9767325 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -113,14 +113,18 @@ func dumpFlow(
 
 	metFailedOrRunning := false
 
+	// Empty commands are not executed, so they are not in the executed flow
+	executedIdx := -1
+
 	for i, cmd := range flow.Cmds[fromCmdIdx:] {
 		if cmd.IsEmpty() {
 			continue
 		}
+		executedIdx += 1
 		var executedCmd *model.ExecutedCmd
 		if executedFlow != nil {
-			if i < len(executedFlow.Cmds) {
-				executedCmd = executedFlow.GetCmd(i)
+			if executedIdx < len(executedFlow.Cmds) {
+				executedCmd = executedFlow.GetCmd(executedIdx)
 			} else {
 				// TODO: better display
 				name := strings.Join(cmd.Path(), sep)
-- 
2.43.0

