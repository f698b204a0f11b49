From 30cc031286b77d27a4649df5b85d287993910b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 01/28] fix: XN64 must not panic when the plural index equals
 the number of msgstr forms

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 81617c4..0c21a7b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -58,7 +58,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	index := plural.fn(n)
-	if index < 0 || index >= int(plural.totalForms) || index > len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
+	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
 		// 超出范围
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
-- 
2.43.0


From 53930037df758df4b07886d9900d33c5f2de89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 02/28] fix: plural expressions treat every non-zero value as
 true, as C does

---
 plurals/exp.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 80a1bd7..7fceddf 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -112,10 +112,10 @@ func (s *myListener) handleExpPrefix(prefix antlr.Token) {
 		s.stack.Push(^num) // go 使用 ^ 表示按位取反
 	case "!":
 		num, _ := s.stack.Pop()
-		if num == _TRUE {
-			s.stack.Push(_FALSE)
-		} else {
+		if num == _FALSE {
 			s.stack.Push(_TRUE)
+		} else {
+			s.stack.Push(_FALSE)
 		}
 	default:
 		panic("assert error: unexpected text(prefix): " + prefixText)
@@ -254,7 +254,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE && right == _TRUE {
+		if left != _FALSE && right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -264,7 +264,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE || right == _TRUE {
+		if left != _FALSE || right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -276,7 +276,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 			cond, _  = s.stack.Pop()
 		)
-		if cond == _TRUE {
+		if cond != _FALSE {
 			s.stack.Push(left)
 		} else {
 			s.stack.Push(right)
-- 
2.43.0


From 7f7e50f31ff072a325e950504d2319c338aea535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 03/28] fix: Translations.MostMatchLocale uses its receiver,
 not the global instance

---
 translations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translations.go b/translations.go
index 3ab42b2..967a3b1 100644
--- a/translations.go
+++ b/translations.go
@@ -134,8 +134,8 @@ func (ts *Translations) Locales() (locales []string) {
 
 // MostMatchLocale return the most match language 返回最匹配的语言
 func (ts *Translations) MostMatchLocale() string {
-	var supported = Locales()
-	_, index, _ := Match(supported, []string{Locale()})
+	var supported = ts.Locales()
+	_, index, _ := Match(supported, []string{ts.Locale()})
 	return supported[index]
 }
 
-- 
2.43.0


From ed8108571d44924cc50e6bd6ce71d3323fc8b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 04/28] fix: ReadPot returns an error on malformed input
 instead of panicking

---
 translator/po.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index d4d1368..b9be797 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -33,7 +33,7 @@ func readPo(content []byte, pot bool) (*File, error) {
 	file := new(File)
 	for {
 		entry, err := readEntry(r)
-		if pot || entry.isValid() {
+		if entry != nil && (pot || entry.isValid()) {
 			file.AddEntry(entry)
 		}
 		if errors.Is(err, io.EOF) {
-- 
2.43.0


From 00f2e280288546219c457e9e362c2dcde855c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 05/28] fix: ReadPot must not turn trailing comments into an
 empty header entry

---
 translator/po.go     | 14 +++++++++++++-
 translator/reader.go | 12 ++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index b9be797..ffdff64 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -32,8 +32,9 @@ func readPo(content []byte, pot bool) (*File, error) {
 	r := newReader(strings.Split(data, "\n"))
 	file := new(File)
 	for {
+		start := r.lineNo + 1
 		entry, err := readEntry(r)
-		if entry != nil && (pot || entry.isValid()) {
+		if entry.isValid() || (pot && entry != nil && hasField(r.linesFrom(start))) {
 			file.AddEntry(entry)
 		}
 		if errors.Is(err, io.EOF) {
@@ -225,6 +226,17 @@ func readEntry(r *reader) (*Entry, error) {
 	}
 }
 
+// hasField 返回这些行中是否有空行、注释之外的内容，
+// 文件末尾可能只剩注释，它们不构成一个条目，不能当作空 msgid 覆盖 header。
+func hasField(lines []string) bool {
+	for _, line := range lines {
+		if strings.TrimSpace(line) != "" && !strings.HasPrefix(line, "#") {
+			return true
+		}
+	}
+	return false
+}
+
 func equalsAny(data string, args ...string) bool {
 	for _, arg := range args {
 		if data == arg {
diff --git a/translator/reader.go b/translator/reader.go
index 598f0b0..5f68706 100644
--- a/translator/reader.go
+++ b/translator/reader.go
@@ -42,3 +42,15 @@ func (r *reader) unGetLine() error {
 	r.lineNo--
 	return nil
 }
+
+// linesFrom returns the lines that have been read since line number start
+func (r *reader) linesFrom(start int) []string {
+	end := r.lineNo + 1
+	if end > r.totalLine {
+		end = r.totalLine
+	}
+	if start >= end {
+		return nil
+	}
+	return r.lines[start:end]
+}
-- 
2.43.0


From cdadb04722d7dcfdbbe99ad3824645e3ef83eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 06/28] fix: adding a header entry refreshes the cached headers
 and plural rule

---
 translator/file.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/translator/file.go b/translator/file.go
index 0c21a7b..3ad3c45 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -85,6 +85,7 @@ func (file *File) AddEntry(e *Entry) {
 	}
 	file.entries[e.Key()] = e
 	if e.isHeader() {
+		file.headers, file.plural = nil, nil // 重新解析，避免沿用旧 header
 		file.initHeader()
 		file.initPlural()
 	}
-- 
2.43.0


From 68bc20690d3c5f1af41c768a377e45d48e7589c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 07/28] fix: ReadMo checks string bounds before allocating the
 length a file claims

---
 translator/mo.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 77cba35..3f0962f 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -151,7 +151,15 @@ func ReadMo(content []byte) (*File, error) {
 	}
 
 	// 5 开始读取
+	var size = uint64(len(content))
 	for i := uint32(0); i < n; i++ {
+		// 长度来自文件内容，分配内存之前先检查是否越界
+		for _, lo := range []lenOff{msgIDMeta[i], msgStrMeta[i]} {
+			if uint64(lo.OffSet)+uint64(lo.Length) > size {
+				return nil, errors.WithSecondaryError(errReadMo,
+					errors.Errorf("string[%d] out of range: offset=%d length=%d", i, lo.OffSet, lo.Length))
+			}
+		}
 		// 5.1 跳转到第 i 条 msg_id 偏移处
 		if _, err := r.Seek(int64(msgIDMeta[i].OffSet), io.SeekStart); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
-- 
2.43.0


From 809574cb5d2fbf93656d595011728cf753c8e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 08/28] fix: Format neither writes to the caller's argument
 slice nor mangles a trailing percent sign

---
 f/format.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/f/format.go b/f/format.go
index 6394180..f7431fb 100644
--- a/f/format.go
+++ b/f/format.go
@@ -14,12 +14,13 @@ func Format(format string, args ...any) string {
 	if length == 0 {
 		return format
 	}
-	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
-	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
+	// 在 args 后拼接一个空白字符串（拷贝一份，不能改写调用方的底层数组）
+	args = append(args[:length:length], "")
+	// 原理：只要使用过索引指定参数位置，fmt 就不会检查多余的参数。
+	// %[1]% 输出一个百分号且不消耗参数，放在最前面不影响后面的动词，再把它输出的 % 去掉。
+	// 如果放在最后面，format 以不完整的动词结尾（如 100%）时会和它混在一起。
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args, "")
-	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
-	return fmt.Sprintf(format, args...)
+	return fmt.Sprintf("%[1]%"+format, args...)[1:]
 }
 
 // DefaultPlural 根据 n 选择单数或复数形式。
-- 
2.43.0


From 752e219b87471a60c9a7f0d201d05caf3267a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 09/28] fix: an unreadable directory must not stop loading the
 remaining catalogs

---
 translaton.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translaton.go b/translaton.go
index c0a3b3e..6a03282 100644
--- a/translaton.go
+++ b/translaton.go
@@ -69,7 +69,7 @@ func (tr *Translation) LoadFS(f fs.FS) bool {
 	fn := func(ext string) func(path string, d fs.DirEntry, err error) error {
 		return func(path string, d fs.DirEntry, err error) error {
 			if err != nil {
-				return err
+				return nil // 某个目录读取失败不影响其他文件
 			}
 			if d != nil && !d.IsDir() {
 				if strings.HasSuffix(d.Name(), ext) { // 这里应该使用 d.Name;
-- 
2.43.0


From 863364225a3e414e1fc82da6c25bfbbbdd928fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 10/28] fix: SortedEntry orders entries with equal sort keys
 deterministically

---
 translator/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 3ad3c45..c471ac3 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -73,7 +73,11 @@ func (file *File) SortedEntry() (entries []*Entry) {
 	sort.Slice(entries, func(i, j int) bool {
 		left := entries[i]
 		right := entries[j]
-		return left.getSortKey() < right.getSortKey()
+		leftKey, rightKey := left.getSortKey(), right.getSortKey()
+		if leftKey == rightKey { // 排序键相同时按条目 key 排，保证结果稳定
+			return left.Key() < right.Key()
+		}
+		return leftKey < rightKey
 	})
 	return
 }
-- 
2.43.0


From 6fe4e3442f06aa041b4e941cca02b9399c488089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 11/28] fix: lookups in a file without a header entry no longer
 write caches (data race)

---
 translator/file.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/translator/file.go b/translator/file.go
index c471ac3..7ec92bb 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -97,11 +97,20 @@ func (file *File) AddEntry(e *Entry) {
 
 // GetHeader get header value by key
 func (file *File) GetHeader(key string) (value string, ok bool) {
+	if file.headers == nil {
+		file = file.snapshot()
+	}
 	file.initHeader()
 	value, ok = file.headers[key]
 	return
 }
 
+// snapshot 返回一个浅拷贝，查询方法在它上面初始化缓存，
+// 没有 header 条目的文件也可能被多个 goroutine 同时查询，所以查询时不能写 file 本身
+func (file *File) snapshot() *File {
+	return &File{entries: file.entries, headers: file.headers, plural: file.plural}
+}
+
 func (file *File) initHeader() {
 	if file.headers == nil {
 		headers := make(map[string]string)
@@ -128,6 +137,9 @@ func (file *File) initHeader() {
 }
 
 func (file *File) getPlural() *plural {
+	if file.plural == nil {
+		file = file.snapshot()
+	}
 	file.initPlural()
 	return file.plural
 }
-- 
2.43.0


From 451775ca6dd8772317ff7d7667df0a928f6d022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 12/28] fix: xtemplate must not let an empty msgid replace the
 pot header

---
 cmd/xtemplate/internal/run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6bc846b..bfc6d76 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -334,6 +334,11 @@ func extract(ctx *Context, line, name string, kw Keyword, m map[int]string) (*tr
 
 	}
 	entry.MsgID = txt
+	if entry.MsgID == "" && entry.MsgCtxt == "" {
+		// 空 msgid 是 pot 的 header 条目，不能被模板中的空字符串覆盖
+		ctx.debugPrint("  >  >  >  ID=%v empty msg id", name)
+		return nil, false
+	}
 
 	if kw.MsgID2 > 0 {
 		txt, ok := m[kw.MsgID2]
-- 
2.43.0


From 2b8733ada8f18f0d8eaddff42748c13c9dda18f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 13/28] fix: xtemplate honours keyword positions that skip
 arguments, like T:2

---
 cmd/xtemplate/internal/run.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index bfc6d76..c0c4d91 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -250,13 +250,7 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			argCount := 1 // MsgID 始终需要
-			if kw.MsgCtxt > 0 && kw.MsgCtxt != kw.MsgID {
-				argCount++
-			}
-			if kw.MsgID2 > 0 && kw.MsgID2 != kw.MsgID && kw.MsgID2 != kw.MsgCtxt {
-				argCount++
-			}
+			argCount := max(kw.MsgID, kw.MsgCtxt, kw.MsgID2) // 用到的最后一个参数
 			lastIndex := argCount + nameIndex
 			if lastIndex >= argLength {
 				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
@@ -265,6 +259,10 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 			argOK := true
 			m := make(map[int]string)
 			for i := nameIndex + 1; i <= lastIndex; i++ {
+				pos := i - nameIndex
+				if pos != kw.MsgID && pos != kw.MsgCtxt && pos != kw.MsgID2 {
+					continue // 关键字声明里没有用到的参数不要求是字符串
+				}
 				arg := args[i]
 				text, ok := stringLiteral(arg)
 				if !ok {
-- 
2.43.0


From ab877b3def55dbaf2df1c94edffb846f32cc9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 14/28] fix: xtemplate extracts calls inside a parenthesised
 pipeline followed by a field

---
 cmd/xtemplate/internal/run.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index c0c4d91..4e6c187 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -218,6 +218,7 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.ChainNode:
+				resolveChain(filename, line, ctx, arg)
 				if len(arg.Field) == 0 {
 					continue
 				}
@@ -228,6 +229,13 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 	}
 }
 
+// resolveChain 处理 (T "foo").Field 括号内的管道
+func resolveChain(filename string, line int, ctx *Context, chain *parse.ChainNode) {
+	if pipe, ok := chain.Node.(*parse.PipeNode); ok {
+		resolvePipe(filename, line, ctx, pipe)
+	}
+}
+
 // pipedStringArg 处理 "foo" | T 这类管道写法。
 // 在模板 AST 中，前一个 command 的输出并不会直接出现在后一个 command 的 Args 里，
 // 因此这里把上一段单字符串字面量补回当前命令参数中，统一复用后面的提取逻辑。
-- 
2.43.0


From b09c3fbd085cd432b1fe65550cb47b0d7802f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 15/28] fix: xtemplate visits the templates of a file in a
 fixed order

---
 cmd/xtemplate/internal/run.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 4e6c187..97e83a2 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -110,7 +111,11 @@ func resolveOneFile(filename string, ctx *Context) error {
 		return errors.Wrapf(err, t.T("failed to parse file %v"), filename)
 	}
 	// 一个文件可能有多个模板
-	for _, tmpl := range tmpl.Templates() {
+	tmpls := tmpl.Templates()
+	sort.Slice(tmpls, func(i, j int) bool { // Templates 返回的顺序不定，排序以保证每次结果一致
+		return tmpls[i].Name() < tmpls[j].Name()
+	})
+	for _, tmpl := range tmpls {
 		resolveTmpl(filename, ctx, tmpl)
 	}
 	return nil
-- 
2.43.0


From 2d35bfd62e26e753d74adcea4351ec614a31f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 16/28] fix: xtemplate keeps the existing output file when
 extraction fails

---
 cmd/xtemplate/internal/param.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 1a2a7f3..f77c4b9 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -41,7 +41,7 @@ type Context struct {
 	entries   map[string]*translator.Entry
 }
 
-// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function/output 的初始化。
+// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function 的初始化。
 func newCtx(param *Param) (*Context, error) {
 	ctx := &Context{
 		Param:     param,
@@ -56,11 +56,6 @@ func newCtx(param *Param) (*Context, error) {
 	for _, k := range kw {
 		ctx.Functions[k.Name] = noopFun
 	}
-	wr, err := Writer(param.OutputFile)
-	if err != nil {
-		return nil, err
-	}
-	ctx.Output = wr
 
 	if ctx.Function != "" {
 		fun := strings.Split(ctx.Function, ",")
@@ -96,7 +91,13 @@ func (ctx *Context) Add(entry *translator.Entry) error {
 }
 
 // Write 将当前收集到的条目写入 POT。
+// 到这里才打开（截断）输出文件，提取失败时已有的文件保持不变。
 func (ctx *Context) Write() error {
+	wr, err := Writer(ctx.OutputFile)
+	if err != nil {
+		return err
+	}
+	ctx.Output = wr
 	pot := ctx.pot()
 	return pot.SaveAsPot(ctx.Output)
 }
-- 
2.43.0


From 9b5a276ccd13f4c3b3d88ec252b2cae0babf1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 17/28] fix: plural expressions evaluate only the branch C
 would evaluate

---
 plurals/exp.go | 87 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 33 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 7fceddf..7e02c54 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -42,7 +42,7 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	// 4 遍历语法树计算表达式
 	l := newListener(ctx, n)
 	tree := p.Start_()
-	antlr.ParseTreeWalkerDefault.Walk(l, tree)
+	l.walk(tree)
 	return l.result, errListener.err
 }
 
@@ -72,6 +72,59 @@ func newListener(ctx context.Context, n int64) *myListener {
 	}
 }
 
+// walk 后序遍历语法树，和 C 语言一样，&& || ?: 只计算需要的分支，
+// 这样 n==0 ? 0 : 100/n 在 n=0 时不会除以零
+func (s *myListener) walk(tree antlr.Tree) {
+	if exp, ok := tree.(*parser.ExpContext); ok && s.walkLazy(exp) {
+		return
+	}
+	for _, child := range tree.GetChildren() {
+		s.walk(child)
+	}
+	if rule, ok := tree.(antlr.ParserRuleContext); ok {
+		rule.ExitRule(s)
+	}
+}
+
+// walkLazy 计算 && || ?: 返回 false 表示不是这几种运算
+func (s *myListener) walkLazy(exp *parser.ExpContext) bool {
+	var (
+		bop      = exp.GetBop()
+		operands = exp.AllExp()
+	)
+	if bop == nil || len(operands) < 2 {
+		return false
+	}
+	bopText := bop.GetText()
+	if bopText != "&&" && bopText != "||" && bopText != "?" {
+		return false
+	}
+	s.walk(operands[0])
+	left, _ := s.stack.Pop()
+	switch {
+	case bopText == "?" && left == _FALSE:
+		s.walk(operands[len(operands)-1])
+	case bopText == "?":
+		s.walk(operands[1])
+	case (bopText == "||") == (left != _FALSE): // 左边已经能确定结果
+		s.pushBool(left != _FALSE)
+	default:
+		s.walk(operands[1])
+		right, _ := s.stack.Pop()
+		s.pushBool(right != _FALSE)
+	}
+	return true
+}
+
+// pushBool 真为 1 假为 0
+func (s *myListener) pushBool(b bool) {
+	if b {
+		s.stack.Push(_TRUE)
+	} else {
+		s.stack.Push(_FALSE)
+	}
+}
+
 // ExitStart override
 func (s *myListener) ExitStart(ctx *parser.StartContext) {
 	s.result, _ = s.stack.Pop()
@@ -249,38 +302,6 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 		)
 		s.stack.Push(left & right) // 作为二元操作符，是异或
-	case "&&":
-		var (
-			right, _ = s.stack.Pop()
-			left, _  = s.stack.Pop()
-		)
-		if left != _FALSE && right != _FALSE {
-			s.stack.Push(_TRUE)
-		} else {
-			s.stack.Push(_FALSE)
-		}
-	case "||":
-		var (
-			right, _ = s.stack.Pop()
-			left, _  = s.stack.Pop()
-		)
-		if left != _FALSE || right != _FALSE {
-			s.stack.Push(_TRUE)
-		} else {
-			s.stack.Push(_FALSE)
-		}
-	case "?":
-		s.debug("%v", s.stack)
-		var (
-			right, _ = s.stack.Pop()
-			left, _  = s.stack.Pop()
-			cond, _  = s.stack.Pop()
-		)
-		if cond != _FALSE {
-			s.stack.Push(left)
-		} else {
-			s.stack.Push(right)
-		}
 	default:
 		panic("assert error: unexpected text(bop): " + bopText)
 	}
-- 
2.43.0


From 5a00e734b710e1be3f6dc223bbc88ae9f6db07f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 18/28] fix: saved PO/POT strings use only escapes gettext
 tools understand

---
 translator/pot.go  |  2 +-
 translator/util.go | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/translator/pot.go b/translator/pot.go
index 3490dea..67c563f 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -17,7 +17,7 @@ const (
 func writeString(buf *bytes.Buffer, key, content string) {
 	buf.WriteString(key + " ")
 	for _, line := range split(content, lineThreshold) {
-		fmt.Fprintf(buf, "%q\n", line)
+		buf.WriteString(quote(line) + "\n")
 	}
 }
 
diff --git a/translator/util.go b/translator/util.go
index 8800dd2..0436729 100644
--- a/translator/util.go
+++ b/translator/util.go
@@ -1,8 +1,10 @@
 package translator
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // key helper function, return message key
@@ -16,3 +18,27 @@ func removePrefixAndUnquote(line, prefix string) (string, error) {
 	line = strings.TrimSpace(line)
 	return strconv.Unquote(line)
 }
+
+var poEscapes = map[rune]string{
+	'"': `\"`, '\\': `\\`, '\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`,
+}
+
+// quote 返回 po 格式的带引号的字符串，是 strconv.Unquote 的逆操作。
+// 不能用 %q: 它会把不换行空格等字符写成 \u00a0, 而 gettext 工具不支持 \u 转义
+func quote(s string) string {
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		if esc, ok := poEscapes[r]; ok {
+			sb.WriteString(esc)
+		} else if r < ' ' || r == 0x7f || (r == utf8.RuneError && size == 1) {
+			fmt.Fprintf(&sb, `\%03o`, s[0])
+		} else {
+			sb.WriteString(s[:size])
+		}
+		s = s[size:]
+	}
+	sb.WriteByte('"')
+	return sb.String()
+}
-- 
2.43.0


From 2585a6c22d4b4ccaf916cfebbe848739a4cceb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 19/28] fix: saved PO entries without a translation still get
 their msgstr line

---
 translator/po.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index ffdff64..29c4867 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -61,7 +61,9 @@ func (f *File) SaveAsPo(w io.Writer) error {
 		if entry.IsPlural {
 			writeString(buf, msgidPlural, entry.MsgID2)
 		}
-		if entry.MsgStr != "" {
+		if len(entry.MsgStrN) == 0 && entry.IsPlural && entry.MsgStr == "" {
+			writeString(buf, fmt.Sprintf(msgstrN, 0), "") // 没有 msgstr 的条目 gettext 工具会报错
+		} else if len(entry.MsgStrN) == 0 || entry.MsgStr != "" {
 			writeString(buf, msgstr, entry.MsgStr)
 		}
 		for i, str := range entry.MsgStrN {
-- 
2.43.0


From 28fd5d3b6638572273a4f8c84cce327cce99681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 20/28] fix: a blank inside an operator or number is not
 skipped for common plural formulas

---
 plurals/exp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 7e02c54..2804a13 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -3,6 +3,7 @@ package plurals
 import (
 	"context"
 	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -11,6 +12,9 @@ import (
 	"github.com/youthlin/t/plurals/parser"
 )
 
+// reSplitToken 匹配被空格隔开的数字或操作符(如 1 0, ! =)，去掉空格会变成另外的表达式
+var reSplitToken = regexp.MustCompile(`\d +\d|[=!<>&|] +[=&|]`)
+
 // Eval 传入复数表达式，返回 n 应该使用哪种复数形式
 func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	defer func() {
@@ -22,7 +26,7 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	// 1 常见表达式直接走函数
 	commonExp := strings.ReplaceAll(exp, " ", "")
 	fun, ok := commons[commonExp]
-	if ok {
+	if ok && !reSplitToken.MatchString(exp) {
 		return fun(n), nil
 	}
 
-- 
2.43.0


From 4420e0b731f13d68ea405f5a196e2ae0bd2167cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 21/28] fix: PO continuation lines may be indented

---
 translator/po.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/translator/po.go b/translator/po.go
index 29c4867..8707614 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -113,6 +113,7 @@ func readEntry(r *reader) (*Entry, error) {
 		if strings.TrimSpace(line) == "" {
 			continue
 		}
+		line = strings.TrimLeft(line, " \t") // msgcat --indent 等工具会缩进续行
 		// 注释
 		if strings.HasPrefix(line, prefixCmt) {
 			if previousLineState != "" {
-- 
2.43.0


From 5468aa1628f6546c8f74d43ff0ef59e3b17fd8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 22/28] fix: an indented comment at the end of a template is
 not an entry

readPo strips the indentation of comment lines, so hasField has to look
past it as well; the empty entry would replace the header.
---
 translator/po.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 8707614..f447274 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -233,7 +233,8 @@ func readEntry(r *reader) (*Entry, error) {
 // 文件末尾可能只剩注释，它们不构成一个条目，不能当作空 msgid 覆盖 header。
 func hasField(lines []string) bool {
 	for _, line := range lines {
-		if strings.TrimSpace(line) != "" && !strings.HasPrefix(line, "#") {
+		line = strings.TrimSpace(line)
+		if line != "" && !strings.HasPrefix(line, "#") {
 			return true
 		}
 	}
-- 
2.43.0


From 09e0b6186f6af293a59fac024473b8b855973333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 23/28] fix: PO strings keep bytes that are not UTF-8 and must
 be double quoted

strconv.Unquote replaces invalid bytes by U+FFFD, which loses the texts of
catalogs in other charsets, and accepts 'x' and `x`, which are not PO.
---
 translator/util.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/translator/util.go b/translator/util.go
index 0436729..325f5fa 100644
--- a/translator/util.go
+++ b/translator/util.go
@@ -16,7 +16,32 @@ func key(ctxt, msgid string) string {
 func removePrefixAndUnquote(line, prefix string) (string, error) {
 	line = strings.TrimPrefix(line, prefix)
 	line = strings.TrimSpace(line)
-	return strconv.Unquote(line)
+	if !strings.HasPrefix(line, `"`) { // strconv.Unquote 也接受单引号、反引号
+		return "", strconv.ErrSyntax
+	}
+	return strconv.Unquote(escapeInvalid(line))
+}
+
+// escapeInvalid 转义不是 UTF-8 的字节，否则 strconv.Unquote 会把它们替换为 U+FFFD
+func escapeInvalid(s string) string {
+	if utf8.ValidString(s) {
+		return s
+	}
+	var sb strings.Builder
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		switch {
+		case r == '\\' && len(s) > 1: // 已有的转义原样保留
+			size = 2
+			sb.WriteString(s[:size])
+		case r == utf8.RuneError && size == 1:
+			fmt.Fprintf(&sb, `\x%02x`, s[0])
+		default:
+			sb.WriteString(s[:size])
+		}
+		s = s[size:]
+	}
+	return sb.String()
 }
 
 var poEscapes = map[rune]string{
-- 
2.43.0


From c7ef962402caa06352b53e3dbb331bdb8382e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 24/28] fix: any blanks may separate a PO keyword from its
 string

A tab, no blank at all, or the first string on the next line are PO too.
---
 translator/po.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/translator/po.go b/translator/po.go
index f447274..9f0cf9d 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -114,6 +114,7 @@ func readEntry(r *reader) (*Entry, error) {
 			continue
 		}
 		line = strings.TrimLeft(line, " \t") // msgcat --indent 等工具会缩进续行
+		line = splitKeyword(line, r)
 		// 注释
 		if strings.HasPrefix(line, prefixCmt) {
 			if previousLineState != "" {
@@ -229,6 +230,29 @@ func readEntry(r *reader) (*Entry, error) {
 	}
 }
 
+// splitKeyword 使关键字和字符串之间恰好有一个空格，
+// PO 格式允许它们之间是任意空白、没有空白，或者字符串从下一行开始
+func splitKeyword(line string, r *reader) string {
+	for _, keyword := range []string{"msgctxt", "msgid_plural", "msgid", "msgstr"} {
+		if !strings.HasPrefix(line, keyword) {
+			continue
+		}
+		end := len(keyword)
+		if index := strings.IndexAny(line, "]\""); keyword == "msgstr" && index > 0 && line[index] == ']' {
+			end = index + 1 // msgstr[N]
+		}
+		str := strings.TrimSpace(line[end:])
+		if next := r.lineNo + 1; str == "" && next < r.totalLine && strings.HasPrefix(strings.TrimLeft(r.lines[next], " \t"), `"`) {
+			str = `""`
+		}
+		if strings.HasPrefix(str, `"`) {
+			return line[:end] + " " + str
+		}
+		break
+	}
+	return line
+}
+
 // hasField 返回这些行中是否有空行、注释之外的内容，
 // 文件末尾可能只剩注释，它们不构成一个条目，不能当作空 msgid 覆盖 header。
 func hasField(lines []string) bool {
-- 
2.43.0


From b68c4c582e6fa017fd32441a763b064d4eb07d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 25/28] fix: octal and hexadecimal escapes in PO strings may be
 short

C escapes have one to three octal digits; \0 is as good as \000.
---
 translator/util.go | 56 ++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/translator/util.go b/translator/util.go
index 325f5fa..1b0aefb 100644
--- a/translator/util.go
+++ b/translator/util.go
@@ -2,6 +2,7 @@ package translator
 
 import (
 	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -16,32 +17,49 @@ func key(ctxt, msgid string) string {
 func removePrefixAndUnquote(line, prefix string) (string, error) {
 	line = strings.TrimPrefix(line, prefix)
 	line = strings.TrimSpace(line)
-	if !strings.HasPrefix(line, `"`) { // strconv.Unquote 也接受单引号、反引号
-		return "", strconv.ErrSyntax
-	}
-	return strconv.Unquote(escapeInvalid(line))
+	return unquote(line)
 }
 
-// escapeInvalid 转义不是 UTF-8 的字节，否则 strconv.Unquote 会把它们替换为 U+FFFD
-func escapeInvalid(s string) string {
-	if utf8.ValidString(s) {
-		return s
+var reNumEscape = regexp.MustCompile(`^\\(?:([0-7]{1,3})|x([0-9a-fA-F]{1,2}))`)
+
+// unquote 返回双引号中的内容。与 strconv.Unquote 相比：不接受其他引号，
+// 不是 UTF-8 的字节原样保留，八进制、十六进制转义可以少于 3 位、2 位
+func unquote(s string) (string, error) {
+	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
+		return "", strconv.ErrSyntax
 	}
+	s = s[1 : len(s)-1]
 	var sb strings.Builder
 	for len(s) > 0 {
-		r, size := utf8.DecodeRuneInString(s)
-		switch {
-		case r == '\\' && len(s) > 1: // 已有的转义原样保留
-			size = 2
-			sb.WriteString(s[:size])
-		case r == utf8.RuneError && size == 1:
-			fmt.Fprintf(&sb, `\x%02x`, s[0])
-		default:
-			sb.WriteString(s[:size])
+		if s[0] == '"' {
+			return "", strconv.ErrSyntax
 		}
-		s = s[size:]
+		if s[0] != '\\' {
+			sb.WriteByte(s[0])
+			s = s[1:]
+			continue
+		}
+		if find := reNumEscape.FindStringSubmatch(s); find != nil {
+			base := 8
+			if find[2] != "" {
+				base = 16
+			}
+			b, err := strconv.ParseUint(find[1]+find[2], base, 8)
+			if err != nil {
+				return "", err
+			}
+			sb.WriteByte(byte(b))
+			s = s[len(find[0]):]
+			continue
+		}
+		r, _, tail, err := strconv.UnquoteChar(s, '"')
+		if err != nil {
+			return "", err
+		}
+		sb.WriteRune(r)
+		s = tail
 	}
-	return sb.String()
+	return sb.String(), nil
 }
 
 var poEscapes = map[rune]string{
-- 
2.43.0


From 19357d0135fa65d0ec0bf07234c8af03ba1b5f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 26/28] fix: an empty message with a context is not the header

SaveAsPot kept its translation, and it could be sorted before the header.
---
 translator/entry.go | 4 ++--
 translator/pot.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/translator/entry.go b/translator/entry.go
index 733b0c7..1ab344c 100644
--- a/translator/entry.go
+++ b/translator/entry.go
@@ -22,9 +22,9 @@ func (e *Entry) Key() string {
 	return key(e.MsgCtxt, e.MsgID)
 }
 
-// isHeader 返回该条目是否是一个 header 条目
+// isHeader 返回该条目是否是一个 header 条目，有 context 的空 msgid 不是
 func (e *Entry) isHeader() bool {
-	return e.MsgID == ""
+	return e.MsgCtxt == "" && e.MsgID == ""
 }
 
 // isValid 是否合法的条目
diff --git a/translator/pot.go b/translator/pot.go
index 67c563f..3047c28 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -35,7 +35,7 @@ func (f *File) SaveAsPot(w io.Writer) error {
 		writeString(buf, msgid, entry.MsgID)
 
 		if !entry.IsPlural {
-			if entry.MsgID == "" { // header
+			if entry.isHeader() {
 				writeString(buf, msgstr, entry.MsgStr)
 			} else {
 				writeString(buf, msgstr, "")
-- 
2.43.0


From a29630ba9d6fc43270689656d65a8dfd85ead684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 27/28] fix: a POSIX encoding or modifier does not hide the
 region of a language code

---
 locale/detect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/locale/detect.go b/locale/detect.go
index 014a218..7046ecf 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -2,6 +2,7 @@ package locale
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/Xuanwo/go-locale"
 	"golang.org/x/text/language"
@@ -19,6 +20,10 @@ func GetDefault() string {
 
 // Normalize return ll_CC code
 func Normalize(lang string) string {
+	// POSIX 风格的语言代码可以带编码和修饰: ll_CC.encoding@modifier
+	if index := strings.IndexAny(lang, ".@"); index >= 0 {
+		lang = lang[:index]
+	}
 	return NormalizeTag(language.Make(lang))
 }
 
-- 
2.43.0


From a2fab09e6914aaabd50a6c216164b723f2223959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:07 +0000
Subject: [PATCH 28/28] fix: xtemplate reports every malformed input pattern

filepath.Glob checks a pattern only as far as it has to match, so a
malformed pattern that names no file was taken for one without files and
the existing output was replaced by an empty template.
---
 cmd/xtemplate/internal/run.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 97e83a2..40461a9 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -4,9 +4,11 @@ import (
 	"fmt"
 	"html/template"
 	"os"
+	"path"
 	"path/filepath"
 	"regexp"
 	"sort"
+	"strings"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -50,7 +52,7 @@ func Run(param *Param) (err error) {
 			err = closeErr
 		}
 	}()
-	filenames, err := filepath.Glob(param.Input)
+	filenames, err := glob(param.Input)
 	param.debugPrint("Glob files=%v err=%+v", filenames, err)
 	if err != nil {
 		return errors.Wrapf(err, t.T("invalid input pattern"))
@@ -78,6 +80,17 @@ func Run(param *Param) (err error) {
 	return ctx.Write()
 }
 
+// glob 返回匹配的文件。filepath.Glob 只检查匹配过程中用到的部分，
+// 这里先检查每一段的格式，否则没有文件匹配时，无效的 pattern 不会报错
+func glob(pattern string) ([]string, error) {
+	for _, segment := range strings.Split(filepath.ToSlash(pattern), "/") {
+		if _, err := path.Match(segment, ""); err != nil {
+			return nil, err
+		}
+	}
+	return filepath.Glob(pattern)
+}
+
 // printErr print message to stderr
 func printErr(format string, args ...any) {
 	fmt.Fprintf(os.Stderr, format+"\n", args...)
-- 
2.43.0

