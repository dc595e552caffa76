From f00ed3af99e2dae649b4f159f10245ed555c5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 01/33] fix: svcparse keeps every rune of a block comment
 containing '*'

The rune after a '*' that did not close the comment was dropped, so '/** x **/'
never terminated and swallowed the rest of the file.
---
 svcdef/svcparse/scanner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 329a8f4..fc88829 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -153,6 +153,8 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 						buf = append(buf, ch)
 						return setReturn(), nil
 					}
+					// Not the end of the comment, the rune may be another '*'
+					rr.UnreadRune()
 				} else {
 					// Add the body of the comment to the buffer
 					buf = append(buf, ch)
-- 
2.43.0


From 95a5c55ae9112be83ad4aa85af410c2ff3bc9a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 02/33] fix: svcparse scanner state belongs to the reader

The brace level and service position were package variables, so an unbalanced or
truncated input changed how every later file in the process was scanned.
---
 svcdef/svcparse/scanner.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index fc88829..d037046 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -15,6 +15,11 @@ type RuneReader struct {
 	ContentLen int
 	RunePos    int
 	LineNo     int
+
+	// Position of the reader relative to service definitions
+	withinBody bool
+	withinDef  bool
+	braceLev   int
 }
 
 func (self *RuneReader) ReadRune() (rune, error) {
@@ -85,12 +90,6 @@ func (self ScanUnit) String() string {
 	return fmt.Sprintf(`{"value": "%v", "InRpcDefinition": %v, "InRpcBody": %v, "BraceLevel": %v, "LineNo": %v},`, cleanval, self.InRpcDefinition, self.InRpcBody, self.BraceLevel, self.LineNo)
 }
 
-var (
-	withinBody bool = false
-	withinDef  bool = false
-	braceLev   int  = 0
-)
-
 func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	rv := &ScanUnit{
 		false,
@@ -102,10 +101,10 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	var ch rune
 	buf := make([]rune, 0)
 	setReturn := func() *ScanUnit {
-		rv.BraceLevel = braceLev
+		rv.BraceLevel = rr.braceLev
 		rv.LineNo = rr.LineNo
-		rv.InRpcBody = withinBody
-		rv.InRpcDefinition = withinDef
+		rv.InRpcBody = rr.withinBody
+		rv.InRpcDefinition = rr.withinDef
 		rv.Value = buf
 		return rv
 	}
@@ -218,22 +217,22 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
 				if string(buf) == "service" {
-					withinDef = true
+					rr.withinDef = true
 				}
 				break
 			}
 			buf = append(buf, ch)
 		}
 	case ch == '{':
-		braceLev += 1
-		if withinDef == true {
-			withinDef = false
-			withinBody = true
+		rr.braceLev += 1
+		if rr.withinDef == true {
+			rr.withinDef = false
+			rr.withinBody = true
 		}
 	case ch == '}':
-		braceLev -= 1
-		if withinBody == true && braceLev == 0 {
-			withinBody = false
+		rr.braceLev -= 1
+		if rr.withinBody == true && rr.braceLev == 0 {
+			rr.withinBody = false
 		}
 	}
 
-- 
2.43.0


From 489870867d8f5f3c8330404ceaf29fe100ba1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 03/33] fix: svcparse does not panic when the input ends after
 a comment

---
 svcdef/svcparse/lexer.go   | 7 +++++--
 svcdef/svcparse/scanner.go | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index ed2e383..ea08827 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -55,7 +55,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 			one_pos := scn.UnitPos
 			one, err := scn.ReadUnit()
 			if err != nil {
-				panic(err)
+				// The input ends right after the comment
+				break
 			}
 			onestr := string(one)
 			if len(one) > 1 && one[0] == '/' {
@@ -64,7 +65,9 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 				if strings.Count(onestr, "\n") == 0 {
 					two, err := scn.ReadUnit()
 					if err != nil {
-						panic(err)
+						// The input ends in whitespace after the comment
+						scn.UnReadToPosition(one_pos)
+						break
 					}
 					twostr := string(two)
 					if len(two) > 1 && two[0] == '/' {
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index d037046..fca8eba 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -341,6 +341,7 @@ func (self *SvcScanner) UnreadUnit() error {
 		self.InDefinition = false
 		self.BraceLevel = 0
 		self.lineNo = 0
+		return nil
 	}
 	self.UnitPos -= 1
 
-- 
2.43.0


From ec09e3dbdd446b95a5a7bf06d9741ba8f54ae6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 04/33] fix: svcparse only takes the service keyword for a
 service definition

A field, package or message named 'service' outside of the service made the
parser start there and fail on valid files.
---
 svcdef/svcparse/scanner.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index fca8eba..78b327b 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -216,7 +216,7 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				return setReturn(), err
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
-				if string(buf) == "service" {
+				if string(buf) == "service" && rr.braceLev == 0 {
 					rr.withinDef = true
 				}
 				break
@@ -297,7 +297,7 @@ func (self *SvcScanner) FastForward() error {
 		if err != nil {
 			return err
 		}
-		if string(buf) == search_str {
+		if string(buf) == search_str && self.startsService() {
 			self.UnitPos -= 1
 			break
 		}
@@ -305,6 +305,24 @@ func (self *SvcScanner) FastForward() error {
 	return nil
 }
 
+// startsService reports whether the "service" unit which was just read is the
+// keyword of a service definition: it is at the top level and followed by the
+// name of the service. Otherwise it's the name of something else, such as a
+// field or a part of the package name.
+func (self *SvcScanner) startsService() bool {
+	if self.BraceLevel != 0 {
+		return false
+	}
+	for _, unit := range self.Buf[self.UnitPos:] {
+		ch := unit.Value[0]
+		if unicode.IsSpace(ch) || (ch == '/' && len(unit.Value) > 1) {
+			continue
+		}
+		return isIdent(ch)
+	}
+	return false
+}
+
 // ReadUnit returns the next "group" of runes found in the input stream. If the
 // end of the stream is reached, io.EOF will be returned as error. No other
 // errors will be returned.
-- 
2.43.0


From a38de1492e59657f416eae1d396383455d12f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 05/33] fix: svcdef finds HTTP fields whose Go name differs
 from their camel-cased proto name

---
 svcdef/consolidate_http.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 3697d00..6d5a3c2 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -168,8 +168,10 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 	pathParams := getPathParams(binding)
 	for _, param := range pathParams {
 		// Have to CamelCase the data from the parser since it may be lowercase
-		// while the name from the Go file will be CamelCased
-		if pkg.GoCamelCase(strings.Split(param, ".")[0]) == field.Name {
+		// while the name from the Go file will be CamelCased. The Go name may
+		// carry a trailing underscore (e.g. Reset_), so the proto name counts too.
+		name := strings.Split(param, ".")[0]
+		if pkg.GoCamelCase(name) == field.Name || name == field.PBFieldName {
 			return "path"
 		}
 	}
@@ -177,7 +179,7 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 		if optField.Kind == "body" {
 			if optField.Value == "*" {
 				return "body"
-			} else if optField.Value == field.Name {
+			} else if optField.Value == field.Name || optField.Value == field.PBFieldName {
 				return "body"
 				// Have to CamelCase the fields from the protobuf file, as they may
 				// be lowercase while the name from the Go file will be CamelCased.
-- 
2.43.0


From 141c75f03d9626c52555c49866aa346e4eeb5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 06/33] fix: path sections use the request field's Go name, and
 the value of optional fields

---
 gengokit/httptransport/httptransport.go | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index bee4811..aae72bd 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -255,11 +255,14 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 //         "fmt.Sprint(req.A)",
 //     }
 func (b *Binding) PathSections() []string {
-	isEnum := make(map[string]struct{})
+	byName := make(map[string]*Field)
 	for _, v := range b.Fields {
-		if v.IsEnum {
-			isEnum[v.CamelName] = struct{}{}
-		}
+		byName[v.CamelName] = v
+	}
+	// The proto name is what the template refers to; the Go name may differ
+	// from its camel-cased form (e.g. Reset_).
+	for _, v := range b.Fields {
+		byName[v.QueryParamName] = v
 	}
 
 	rv := []string{}
@@ -267,13 +270,23 @@ func (b *Binding) PathSections() []string {
 	for _, part := range parts {
 		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
 			name := RemoveBraces(part)
-			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
-				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", req.%v)", pkg.GoCamelCase(name))
-				rv = append(rv, convert)
+			camelName := pkg.GoCamelCase(name)
+			field, ok := byName[name]
+			if !ok {
+				field, ok = byName[camelName]
+			}
+			value := "req." + camelName
+			if ok {
+				value = "req." + field.CamelName
+				if field.StarExpr {
+					value = "req.Get" + field.CamelName + "()"
+				}
+			}
+			if ok && field.IsEnum {
+				rv = append(rv, fmt.Sprintf("fmt.Sprintf(\"%%d\", %v)", value))
 				continue
 			}
-			convert := fmt.Sprintf("fmt.Sprint(req.%v)", pkg.GoCamelCase(name))
-			rv = append(rv, convert)
+			rv = append(rv, fmt.Sprintf("fmt.Sprint(%v)", value))
 		} else {
 			// Add quotes around things which'll be embeded as string literals,
 			// so that the 'fmt.Sprint' lines will be unquoted and thus
-- 
2.43.0


From 7c7659a4362864e7ff13e26511fe5a2467eb40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 07/33] fix: svcdef collects the oneofs of every file, and only
 of this definition

---
 svcdef/svcdef.go | 64 ++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 3fddfbc..a856516 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -206,6 +206,8 @@ var (
 // New 解析 pb.go 和 go-grpc.pb.go 文件, 创建 Svcdef 服务定义相关信息和 HTTP 绑定相关信息
 func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef, error) {
 	rv := Svcdef{}
+	// oneofs found in earlier calls do not belong to this definition
+	oneofs = map[string][]*Field{}
 
 	for path, gofile := range goFiles {
 		fset := token.NewFileSet()
@@ -271,42 +273,40 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 		}
 
 		oneofTypes := map[string]string{}
-		// Find oneof types if they haven't been added already
-		if len(oneofs) == 0 {
-			for _, d := range fileAst.Decls {
-				switch decl := d.(type) {
-				case *ast.FuncDecl:
-					if _, ok := oneofExists[decl.Name.Name]; ok {
-						t := decl.Recv.List[0].Type.(*ast.StarExpr)
-						name := t.X.(*ast.Ident)
-						oneofTypes[name.Name] = decl.Name.Name
-					}
+		// Find oneof types
+		for _, d := range fileAst.Decls {
+			switch decl := d.(type) {
+			case *ast.FuncDecl:
+				if _, ok := oneofExists[decl.Name.Name]; ok {
+					t := decl.Recv.List[0].Type.(*ast.StarExpr)
+					name := t.X.(*ast.Ident)
+					oneofTypes[name.Name] = decl.Name.Name
 				}
 			}
+		}
 
-			// Process and group oneof types
-			for _, t := range typespecs {
-				switch t.Type.(type) {
-				case *ast.StructType:
-					// Non-exported structs do not represent types
-					if !t.Name.IsExported() {
-						break
-					}
-					// Skip all non-oneofs; will be processed later
-					iface, ok := oneofTypes[t.Name.Name]
-					if !ok {
-						break
-					}
-					nmsg, err := NewMessage(t)
-					if err != nil {
-						return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
-					}
-					f := nmsg.Fields[0]
-					f.Type.Message = &Message{
-						Name: nmsg.Name,
-					}
-					oneofs[iface] = append(oneofs[iface], f)
+		// Process and group oneof types
+		for _, t := range typespecs {
+			switch t.Type.(type) {
+			case *ast.StructType:
+				// Non-exported structs do not represent types
+				if !t.Name.IsExported() {
+					break
+				}
+				// Skip all non-oneofs; will be processed later
+				iface, ok := oneofTypes[t.Name.Name]
+				if !ok {
+					break
+				}
+				nmsg, err := NewMessage(t)
+				if err != nil {
+					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
+				}
+				f := nmsg.Fields[0]
+				f.Type.Message = &Message{
+					Name: nmsg.Name,
 				}
+				oneofs[iface] = append(oneofs[iface], f)
 			}
 		}
 
-- 
2.43.0


From 9b8347c05a16e00e2f3f04a53c9910dabedc097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 08/33] fix: svcdef does not take a oneof named server for the
 service

---
 svcdef/svcdef.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index a856516..a97df3c 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -243,12 +243,12 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				// care about, but structured a bit differently. Additionally,
 				// oneof fields are generated as interfaces and captured here
 				// to aid in their generations
+				// is prefixes indicates oneof, we'll use this to form Fields later
+				if strings.HasPrefix(t.Name.Name, "is") {
+					oneofExists[t.Name.Name] = struct{}{}
+					break
+				}
 				if !strings.HasSuffix(t.Name.Name, "Server") {
-					// is prefixes indicates oneof, we'll use this to form Fields later
-					if strings.HasPrefix(t.Name.Name, "is") {
-						oneofExists[t.Name.Name] = struct{}{}
-						break
-					}
 					if !strings.HasSuffix(t.Name.Name, "Client") {
 						// This interface isn't either Server or Client; it may be a oneof
 						// field, which isn't currently supported.  Warn the user and skip.
-- 
2.43.0


From 42490fa53914ae6f0fed086bce28816795eeb1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 09/33] fix: svcdef links enum map values and enum oneof
 alternatives to their enum

---
 gengokit/httptransport/httptransport.go |  3 +++
 svcdef/resolvetypes.go                  | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index aae72bd..f98ce7d 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -525,6 +525,9 @@ func createDecodeTypeConversion(f Field) string {
 }
 
 func getZeroValue(f Field) string {
+	if f.IsEnum && !f.Repeated && !f.StarExpr {
+		return "0"
+	}
 	if !f.IsBaseType || f.Repeated || f.StarExpr {
 		return "nil"
 	}
diff --git a/svcdef/resolvetypes.go b/svcdef/resolvetypes.go
index 57f9ab3..5043f5e 100644
--- a/svcdef/resolvetypes.go
+++ b/svcdef/resolvetypes.go
@@ -28,6 +28,11 @@ func resolveTypes(sd *Svcdef) {
 	for _, m := range sd.Messages {
 		for _, f := range m.Fields {
 			setType(f.Type, tmap)
+			// The Message of a oneof's alternatives is their wrapper type, but
+			// enum alternatives still need their Enum.
+			for _, o := range f.Type.Oneof {
+				o.Type.Enum = tmap[o.Type.Name].Enum
+			}
 		}
 	}
 	if sd.Service != nil {
@@ -40,11 +45,9 @@ func resolveTypes(sd *Svcdef) {
 
 // setType unpacks typeBox value into corresponding FieldType
 func setType(f *FieldType, tmap map[string]typeBox) {
-	// Special case maps with valuetypes pointing to messages
+	// Special case maps with valuetypes which are messages or enums
 	if f.Map != nil {
-		if f.Map.ValueType.StarExpr {
-			f = f.Map.ValueType
-		}
+		f = f.Map.ValueType
 	}
 	entry, ok := tmap[f.Name]
 	if !ok {
-- 
2.43.0


From c671b0ce8cc2dfed0fb026eeaeec202511ed67fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 10/33] fix: svcdef does not panic on HTTP methods whose
 request is imported

---
 svcdef/consolidate_http.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 6d5a3c2..9947b13 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -112,6 +112,11 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 		bind := HTTPBinding{}
 		bind.Verb, bind.Path = getVerb(parsedbind)
 
+		// The fields of a message of another package (e.g. google.protobuf.Empty)
+		// are not known here.
+		if msg == nil {
+			msg = &Message{}
+		}
 		var params []*HTTPParameter
 		for _, field := range msg.Fields {
 			newParam := &HTTPParameter{}
-- 
2.43.0


From effe4635ddf3eb1334f3bec981d435525cec86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 11/33] fix: new handlers are rendered in the order of the
 service definition

---
 gengokit/service/services.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index bb5912a..51ac4c4 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -97,10 +97,13 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 		return h.buffer()
 	}
 
-	for k, v := range h.mMap {
-		log.WithField("Method", k).
+	for _, m := range h.service.Methods {
+		if h.mMap[m.Name] == nil {
+			continue
+		}
+		log.WithField("Method", m.Name).
 			Info("Generating handler from rpc definition")
-		ex.Methods = append(ex.Methods, v)
+		ex.Methods = append(ex.Methods, m)
 	}
 
 	// get the code out of the ast
-- 
2.43.0


From 46e8f53665468d75555cbf48f01e37812e961de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 12/33] fix: an rpc named NewService is a handler like the
 others

---
 gengokit/service/services.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index 51ac4c4..75b9d0a 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -165,7 +165,7 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 		case *ast.FuncDecl:
 			name := x.Name.Name
 			// Special case NewService and ignore unexported
-			if name == ignoredFunc || !ast.IsExported(name) {
+			if (name == ignoredFunc && x.Recv == nil) || !ast.IsExported(name) {
 				log.WithField("Func", name).
 					Debug("Ignoring")
 				newDecls = append(newDecls, x)
-- 
2.43.0


From ec3ed7f00247653f311026256207068577731acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 13/33] fix: svcparse accepts fully qualified request and
 response types

---
 svcdef/svcparse/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index dd2922a..6208292 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -272,7 +272,8 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreWhitespace()
 	}
-	if tk != IDENT {
+	// A fully qualified type starts with a dot (.google.protobuf.Struct)
+	if tk != IDENT && val != "." {
 		return nil, parserErr{
 			expected: "a string identifier in first argument to method",
 			line:     lex.GetLineNumber(),
@@ -323,7 +324,8 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreWhitespace()
 	}
-	if tk != IDENT {
+	// A fully qualified type starts with a dot (.google.protobuf.Struct)
+	if tk != IDENT && val != "." {
 		return nil, parserErr{
 			expected: "a string identifier in return argument to method",
 			line:     lex.GetLineNumber(),
-- 
2.43.0


From 0360617eab14453e5cb1b37ca2a0a4c14a388973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 14/33] fix: decoders of optional 32-bit and enum fields
 compile

---
 gengokit/httptransport/httptransport.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index f98ce7d..ebfe629 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -519,8 +519,16 @@ func createDecodeTypeConversion(f Field) string {
 	// 如果字段是标量类型并且是指针类型
 	// log.Debugf("[createDecodeTypeConversion] field[%v].GoType=%v.IsBaseType=%v, filed.StarExpr=%v\n", f.Name, f.GoType, f.IsBaseType, f.StarExpr)
 	if f.IsBaseType && f.StarExpr {
+		// The address of a conversion cannot be taken
+		switch f.GoType {
+		case "uint32", "int32", "float32":
+			return fmt.Sprintf("proto.%s(%s)", strings.Title(f.GoType), fmt.Sprintf(fType, f.LocalName))
+		}
 		return fmt.Sprintf("&"+fType, f.LocalName)
 	}
+	if f.IsEnum && f.StarExpr {
+		return fmt.Sprintf(fType+".Enum()", f.LocalName)
+	}
 	return fmt.Sprintf(fType, f.LocalName)
 }
 
-- 
2.43.0


From a93e48d562c940f8df1420c95ab58e1aaed6d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 15/33] fix: a repeated string given once or as csv in the
 query is decoded

---
 gengokit/httptransport/httptransport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index ebfe629..fce4642 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -449,7 +449,7 @@ if err != nil {
 var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
 {{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
 if len({{.LocalName}}StrArr) > 1 {
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (eq .GoType "string")}}
 	{{.LocalName}} = {{.LocalName}}StrArr
 	{{- else}}
 	{{.LocalName}} = make([]{{if .StarExpr -}}*{{- end -}}{{.GoType}}, len({{.LocalName}}StrArr))
@@ -460,7 +460,7 @@ if len({{.LocalName}}StrArr) > 1 {
 	{{- end}}
 } else {
 {{- end}}
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (eq .GoType "string")}}
 		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
 	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
-- 
2.43.0


From 0d8ad42dc4af85769786b939e2624366e5d814ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 16/33] fix: repeated enums in the query are decoded like other
 repeated values

---
 gengokit/httptransport/httptransport.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index fce4642..2599f28 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -445,9 +445,13 @@ if err != nil {
 		case "uint32", "int32", "float32":
 			convertedVar = repeatedFieldType + "(converted)"
 		}
+		if f.IsEnum {
+			fType = "%s, err := strconv.ParseInt(%s, 10, 32)"
+			convertedVar = repeatedFieldType + "(converted)"
+		}
 		repeatedUnmarshalTmpl := `
 var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
+{{- if and (or .IsBaseType .IsEnum) (not (Contains .GoType "[]byte"))}}
 if len({{.LocalName}}StrArr) > 1 {
 	{{- if (eq .GoType "string")}}
 	{{.LocalName}} = {{.LocalName}}StrArr
@@ -462,7 +466,7 @@ if len({{.LocalName}}StrArr) > 1 {
 {{- end}}
 	{{- if (eq .GoType "string")}}
 		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
-	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
+	{{- else if and (and (or .IsBaseType .IsEnum) .Repeated) (not (Contains .GoType "[]byte"))}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
 	if err != nil {
 		{{.LocalName}}Str = "[" + {{.LocalName}}Str + "]"
@@ -471,7 +475,7 @@ if len({{.LocalName}}StrArr) > 1 {
 	{{- else}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
 	{{- end}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
+{{- if and (or .IsBaseType .IsEnum) (not (Contains .GoType "[]byte"))}}
 }
 {{- end}}`
 
-- 
2.43.0


From 6e47ae9ad63800fd3c068efa43926b575693324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 17/33] fix: clients leave unset optional enums out of the
 query

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 4 ++++
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 04ac98c..ff4ab88 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -646,6 +646,10 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 						values.Add("{{$field.QueryParamName}}", fmt.Sprint(v))
 					}
 					{{- end}}
+				{{else if and $field.IsEnum $field.StarExpr}}
+					if req.{{$field.CamelName}} != nil {
+						values.Add("{{$field.QueryParamName}}", fmt.Sprintf("%d", *req.{{$field.CamelName}}))
+					}
 				{{else if or (not $field.IsBaseType) $field.Repeated}}
 					tmp, err = json.Marshal(req.{{$field.CamelName}})
 					if err != nil {
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index e258ccf..6eecb0f 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (26.964kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.155kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\x1b\x39\x76\xf0\xb3\xf4\x2b\x38\x85\x99\xb1\xd4\x9f\xba\x34\x5f\x80\x04\x9b\x1e\x74\x00\x4f\xdb\x73\xd9\x1d\xdb\xbd\x76\x7b\x06\x88\x61\x78\x29\x15\x25\x71\xbb\xaa\x58\x26\x59\x7d\x59\xa5\x5f\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\x9c\x43\xb2\x58\x52\x95\x2e\x9e\xd9\x60\x11\x64\x80\xc4\xea\x22\x79\x78\x78\x78\x78\xee\xe4\x4e\xa7\xec\x42\x65\x82\x2d\x45\x29\x34\xb7\x22\x63\xb3\x7b\x36\xe3\x5a\x95\x29\x7b\xf2\x82\x3d\x7f\x71\xc5\x9e\x3e\xf9\xe6\x2a\x1d\x4e\xa7\xec\xa5\xd0\x75\x59\xca\x72\x49\x1d\xd8\xad\xcc\x73\xa6\x6e\x84\xbe\xd5\xd2\x0a\x66\x57\xd2\xb0\x85\xcc\x05\x76\xfe\x4e\x68\x23\x55\x79\xc6\xd6\xeb\xd4\xfd\x7e\x78\x88\x1a\xd8\x13\x6e\x45\xdc\x0a\x7f\x3f\x3c\x0c\x87\x15\x9f\x5f\xf3\xa5\x80\x96\x4b\xfa\xf9\x9c\x17\xd8\x32\x9d\xb2\x2b\x3f\x07\x9b\xab\xd2\x72\x59\x1a\x56\x08\xbb\x52\x99\x61\x56\xb1\x82\x5f\x0b\x26\xcb\x4c\xde\xc8\xac\xe6\x39\x13\x65\x56\x29\x59\x5a\xc3\x16\x5a\x15\xcc\x08\x7d\x23\xe7\xc2\x4c\x00\x92\x16\xef\x6b\x61\x2c\xe3\x65\xc6\xb4\x30\x95\x2a\x8d\x60\xf6\xbe\x12\x08\x09\xba\xc2\x8a\x94\x11\x0d\x94\x09\xe3\x86\xdd\x8a\x3c\x87\x7f\x45\x39\x57\x99\xd0\x06\x00\x00\xbc\x4c\xb8\xbf\x17\x4a\xbb\x81\x08\x6d\x82\x1f\x38\x50\x6a\xc1\x54\xad\x99\xa9\xab\x4a\x69\xa0\xb4\xd5\xbc\x34\xf0\x1b\xa6\x93\x3c\x97\xbf\xe1\x56\xaa\x12\xa0\x2d\x94\x2e\xb8\x35\xe9\x70\x28\x0b\xec\x31\x1a\x0e\x92\xd9\xbd\x15\x26\x19\x0e\x12\x58\xbb\xb8\xb3\xf0\x13\xd1\x90\xe5\x72\xfa\x6b\xa3\x4a\xf8\xb0\x28\xf0\xbb\x54\xf4\xff\xa7\x52\xd5\x56\xe6\xf0\x47\x29\xec\x74\x65\x6d\xe5\x7f\xd7\x1a\x3f\x1b\xab\xe7\xaa\xbc\x71\x3f\x65\xb9\x34\xc9\x70\x38\x48\x96\xd2\xae\xea\x59\x3a\x57\xc5\x74\xa9\x4e\xaf\xa5\x9d\xc2\xff\x79\x5a\x24\xc3\x01\x2f\xef\xab\x19\x4b\x96\x4a\x2d\x73\x91\x2e\x55\xce\xcb\x65\xaa\xf4\x72\x5a\x69\x65\xd5\xac\x5e\x4c\x71\xfd\xd3\xeb\x52\xdd\x96\x53\xec\x9d\x0c\x07\x59\xad\x71\x91\x47\x0c\x6d\x86\x24\xc3\x81\x28\x2a\x7b\xcc\xbc\xae\x7f\x32\x1c\x2c\xa4\xc8\xb3\x82\x9b\xeb\x23\x46\x47\x63\x92\xe1\xc0\x58\x5d\xcf\xed\x11\xc3\xfd\x80\x64\x38\xb0\xb2\x10\xc6\xf2\xa2\x3a\x62\x78\x34\x26\x19\x0e\x6e\x35\xaf\x2a\xa1\xcd\x11\x00\x9a\x21\xdb\x5b\xaa\x65\x9e\xf3\x69\x51\xdf\x25\xed\x96\xea\x7a\x39\x15\x5a\x2b\x8d\x9c\xb6\x63\xa2\xc0\x79\xf8\xc5\xb3\xdf\x8e\x01\xf8\x03\x10\x59\xaf\x4f\x99\x5c\x30\xf1\x9e\xa5\x17\xaa\x5c\xc8\x65\x7a\x15\x4e\x42\xc2\xf3\x3c\x61\x49\xc9\xad\x49\xd8\xc3\x43\x1b\x37\xf8\x7a\x2a\x15\xfe\x9b\x2e\x81\xc3\x01\x94\x28\x33\xe8\x78\x00\xd4\xa5\xae\xe6\x1e\xea\x16\x9e\xd8\xd8\xdb\x32\x2d\x84\xe5\x19\xb7\x7c\x73\xd2\x83\xa7\x84\x5f\xcd\x89\xef\x39\x5f\xa1\x83\x47\x27\x9a\x0b\xce\xee\x11\x00\xdc\x51\x3f\x8a\xd8\xf0\xeb\x88\x29\x70\x60\x8c\xe3\x78\x38\x1c\xde\x70\x0d\xd2\xea\x1d\x3b\x67\x8b\xc2\xa6\xaf\x2a\x2d\x4b\x4b\x7f\xa3\x00\x4b\x2f\x54\x51\x71\x2d\xe8\x93\x93\x3e\xe9\x63\xab\x24\x7d\x69\x2d\x33\x7d\x2e\x6e\x5f\x81\x2c\xd6\xd4\x48\xd2\x2c\x7d\xae\xaa\x8b\x5c\x99\xe6\x6b\x7a\xa1\xaa\x7b\xfa\x83\x98\x37\xfd\x5e\xf3\x6a\x38\x98\x4e\x99\xdb\x4f\xcf\x86\x24\x95\xa1\x2b\x8a\xa4\xf4\x71\x89\xe3\x1a\x21\x93\x3e\x71\x3f\xe1\xb3\x13\x1f\xe9\x53\xf8\x17\x3e\xf8\x23\x9d\xbe\xc2\x1f\xf0\x29\x3a\xa6\xe9\x95\xff\x0d\x0d\xcd\xf1\x83\xde\xb2\x5c\x7e\xc7\xf3\x1a\xd7\x1d\xc9\x95\xf4\x4b\xf8\xfd\x8c\x9b\x6b\xa0\xde\xf4\xe4\xa0\xff\xd8\xd3\xa0\xd9\x0e\x1b\x00\xff\x4d\x51\x83\x7e\x53\x32\x4e\xea\x4d\x4f\x98\xb4\x8f\x0c\xab\x8d\x58\xd4\x39\xaa\xa9\x45\x5d\xce\x61\xe9\x86\xd9\x15\xb7\xac\x14\xa0\xa5\x14\x53\x15\xda\x06\x4c\xc1\xd8\x4a\xe8\x53\xaf\x06\x00\xe0\x8c\x1b\x69\x52\xf6\xa5\xd2\x4c\xdc\xf1\xa2\xca\xc5\x84\xdd\xab\x9a\x15\x72\xb9\xb2\xac\xe2\x06\x54\x64\x84\xb0\x55\x8c\x87\x89\x68\x9e\x4a\xab\xac\x9e\x0b\x03\xe0\x78\x89\x1c\x90\x7e\xcd\xcb\x2c\x07\x1c\x6f\xa5\x5d\x31\xc1\xe7\x2b\xa7\xe9\xd9\xc8\xcf\x3e\x66\xb7\x52\x8b\x8c\xd5\x15\x01\x35\x95\x98\xcb\x85\x9c\xb3\x8a\xdb\x55\xca\x46\xdf\x20\x7e\xd2\x00\xfc\x19\x9f\xe5\xf7\x8c\xb3\x42\x1a\x4b\x56\x02\xcb\x84\x91\xcb\x12\x86\xca\xf2\x46\x5d\x83\xba\x17\xec\x15\xd9\x08\xc1\xaa\x40\x14\x05\xc0\x69\x56\x40\x3c\x00\x20\x3c\x25\xd3\xf1\x70\x3a\x0d\xd4\x9d\xe7\x52\x94\xb6\x4d\x5d\xab\xd8\x5c\xe5\xb9\xc0\x71\xde\x40\xc9\xef\xc1\x8c\x21\x70\x22\x8b\xcc\x15\x59\xc2\x82\x00\xa0\x91\xe5\x32\x27\x53\x82\x68\x25\x81\xc2\x85\x40\x4a\x46\xf8\xca\xd2\x0a\xbd\xe0\x73\xd1\xb7\x13\x00\x2c\x4c\xd6\x6d\x24\xd5\x30\x19\x6b\x4b\x10\x38\x80\x17\x6e\x3d\x73\x55\xcc\x64\x89\x74\x2a\x1c\x8a\xd1\xc6\x4e\x9c\x29\x65\x6b\x5d\x32\x69\x61\xc5\x80\xe0\x9c\xe7\xb9\xd0\x60\x31\x71\x8f\x6c\x3a\xc4\xe5\x6c\x11\x74\x3d\x1c\xbc\x2e\xc3\xfa\x44\xb6\x5e\xa7\x7e\x04\x99\x80\x4e\x12\xac\xd7\x9a\x97\x4b\xc1\x3e\x96\xec\xec\x9c\x85\x3e\xcf\x68\xcb\x48\x2c\x7f\x2c\xdd\x18\x3f\x0b\x63\x2c\x2c\x35\xf5\x1f\x87\xeb\x35\x09\x2e\xb2\x2e\x03\x46\xfb\xa7\x00\x06\x66\xa3\x68\x11\x63\x16\x4d\x3a\x9a\xdb\x3b\xe6\xac\x34\x10\xbb\xf0\xef\x04\x18\xe6\x64\xbd\xfe\x4a\x41\x1f\xf6\xb1\x4c\x5f\x92\x09\x7a\x75\x5f\xf9\x05\x8e\xd9\x68\xa3\x07\x19\xa6\x51\x97\x09\x09\xb8\x31\x50\xcb\xdb\xad\xf8\x0d\x10\x15\x69\xc7\xca\x01\x19\x98\x7c\x3c\x1c\x80\x22\xd0\x9a\x7d\x74\xce\x4a\x99\x03\x84\x81\xdb\xaf\x52\xe6\x08\x64\x38\x78\x18\xfa\x6f\x1e\x7a\xba\x17\xa7\xf1\x04\x00\x0c\x1f\x02\x39\x81\x98\xcf\xe0\x98\xc5\x14\xc5\x83\xfc\xb1\x15\x48\xd1\x07\xe8\x7c\xca\x62\x2a\x7f\x6c\x45\x1f\xa1\x01\x56\xd7\xca\x0c\x10\x3d\x1a\x16\xb3\xc9\x78\x7b\xbb\x89\x66\xb8\x38\x00\xdb\xbd\x4b\xde\x31\x08\x27\x6a\x0d\xdb\x12\x5c\x84\xe8\x33\x91\xbd\xd9\x8e\x81\x16\xef\x61\x21\x0e\xc2\x16\xdd\xb6\x76\x7b\x38\x18\xdc\x84\xbd\x33\xe9\x06\x03\x21\x2a\xd0\x67\x7b\xd7\xb6\xb7\x0d\xf6\xcd\x7f\xbd\xa1\xed\x18\x3c\x0c\x89\xc8\xb4\x27\xf1\xde\x80\x72\x7c\x9c\xe7\x4f\xef\xe6\xa2\xb2\xa8\xa7\x0c\x89\xd8\x40\x29\xd4\x50\xe0\xb2\xb8\xb3\xd9\x1c\x56\xdc\x46\x94\x4d\x1d\x7e\x41\xfa\x4c\x66\x59\x2e\x6e\xb9\x26\x2f\xf0\xb5\xf1\x7e\x21\x38\x41\x55\x95\xdf\x83\x88\x01\xb1\x69\x01\x78\x11\x7a\xa3\x5e\x10\x37\x42\xdf\x87\x6d\x83\xf3\x02\x12\xc4\x78\xa9\x31\x9d\xb2\x17\x15\x68\x0d\x90\x9c\x93\x48\x70\xcd\x79\xc9\x66\x02\x75\x8d\xc8\x60\xd8\xec\x9e\x95\x40\x76\xab\xe0\xbb\xb8\x9b\xe7\x75\x26\x32\xf2\x02\x67\x02\x50\x20\xdd\x9c\xa5\x5b\xd4\x18\x35\x38\x4d\x58\xf2\xca\x72\x5b\x9b\x64\xc2\x92\x4b\x59\x2e\x93\x71\x38\xf7\x27\xd1\xc1\xef\x1b\xcf\x3a\xa8\x32\x69\xb0\x49\xd3\x94\x1c\x2e\x64\x1e\x59\xba\xcf\x67\xe7\xac\xe0\xd5\x1b\x6a\x7a\x4b\xe4\x5f\x3f\xc0\xae\x6f\x1e\x98\x2e\xc9\x37\x18\x24\x11\x1b\x25\x67\x6c\xfd\x30\x71\x43\x9d\x19\xf9\x30\x1c\x0e\x60\x37\xde\x01\x2a\xc8\xae\x08\x32\xa0\xb5\x26\x8e\x7b\x37\x61\xea\x1a\x9a\x3d\x62\x6f\xc4\xdd\xdb\xcf\xd9\x47\xea\x9a\x38\xb0\xe2\xa5\x9c\x8f\x1a\x0b\x6f\x31\x4a\x9e\x7a\x10\x61\x07\x1f\x7d\x62\x1e\xb1\x4c\x09\xc3\x4a\x65\x99\xb8\x93\xc6\x7e\xce\x8c\x10\xf1\xc6\x07\xde\x41\x93\x1e\x90\x1a\x8f\x1d\x3f\x67\x22\x17\x56\x8c\x3c\x06\xd8\xd6\x2c\x40\x96\xf3\x06\xfd\x40\xbe\xc3\x09\x25\x17\x08\xe2\xfc\x9c\xb5\x48\x46\xcb\x1b\x74\x8a\x52\x76\x1e\x61\x3e\xea\xec\x02\xb8\x23\xf2\x2d\x92\xd3\xb1\xfb\x96\xcf\x44\x2e\xb2\x86\x1b\x28\x84\xb2\x14\xd6\xf3\x2e\xf0\x7b\xa0\x1e\xb2\xf0\xed\x4a\x94\xa1\x55\x45\xec\xea\x80\x11\xd7\x4d\xe8\x94\xb9\x83\x50\x53\x67\x46\x71\x19\x4e\xc1\x1d\x39\x07\xa3\x46\xcb\x39\x9a\x59\x11\x97\xde\xae\xe4\x7c\x85\x43\x8d\x28\xbb\x50\x70\x9a\xdc\x8d\xf6\x76\x8c\xd2\x4e\x8f\x6f\xaf\x0a\x85\x2b\x31\xf0\x64\x5b\x0a\x77\x08\xe6\x61\xdf\xba\x3e\x58\x36\x6d\x21\x35\x71\xeb\x44\x8a\x6b\x31\x17\xf2\x86\x2c\x3e\x5c\xa2\x5a\xb4\xd6\x9d\xb2\x57\x42\x04\x30\x11\x14\x6c\xf0\x86\x68\x38\xf7\x80\x28\x70\x64\x26\x2c\x97\x39\x1a\x8d\xfe\x38\x61\x30\xc7\x19\xbb\x3c\x97\xf6\x3e\xdd\x25\x42\x5a\x6b\x8f\x25\xc9\xd1\x14\xfd\x3f\x39\xf3\xbf\x47\xce\xb4\x86\x4d\xba\x8d\xbc\x3e\xb1\x73\x78\x80\xe2\x50\xd7\xf3\xab\x97\x97\x17\x64\x61\x1d\xed\x7b\x82\x19\x17\x0d\x2f\xf8\xb5\x30\x8d\x31\xd0\xe8\x73\x7e\xc3\x65\xce\x67\xb9\x20\xb7\x61\xf9\xf2\xf2\x82\xf5\x38\x03\x69\x63\x20\x36\x90\x47\x0d\xa8\xc8\x3d\x51\x15\xb9\xb6\x69\x9a\xb6\x62\x31\x29\x0d\x22\xd3\x62\xdc\x37\x11\x6c\x97\x89\x3a\x1a\xd8\xf0\x37\x6f\xfb\x21\xc1\xf6\x76\xb5\x7e\x21\x16\x4a\x8b\x11\x60\xfb\xcc\xc5\x94\xae\x94\xb3\x3e\xc7\x13\x34\xc0\xdb\xf3\x9c\x83\xe1\x24\xca\x6c\xd4\xfa\x1c\xd6\x93\xa6\xe9\x18\x03\x1d\xeb\x35\xbb\x52\xdf\xaa\x5b\xa1\x59\x6b\x05\x18\xd9\x71\xa6\xe1\xa7\x80\x11\xe1\xb1\x06\x37\x69\x2f\xf7\xae\xd7\x1e\x66\x60\xb9\x33\xd6\x5e\x56\x08\xd1\x8c\x80\x07\x9b\x53\xd6\xc1\xa5\x20\x22\x06\x4f\x30\x52\x0e\xeb\x8f\x7a\x38\xeb\x18\x3b\x3c\x2d\x3b\x3b\x38\x5f\x07\x7a\xb4\x28\x91\xa6\x29\x7c\x04\xda\x75\xe8\xdc\x66\xc1\x9b\xae\x73\x30\xce\xbb\xf7\x3b\x18\xfa\xa4\xe5\x22\x38\x7f\x04\x77\x75\x8b\xc8\x8c\x6d\x50\xd9\xc5\x43\x22\x83\xde\xb9\x59\x2e\x50\x01\x92\x2a\xc2\xd1\xaa\x66\xb9\x87\xaf\xf4\x40\xb7\xd7\xb0\x93\x66\xaa\x31\x8b\xbd\x9c\x5d\xfe\x2f\xb8\x47\x3f\xad\x03\xfc\x0e\x80\x56\x2d\x17\x6a\x8b\x92\x74\xec\x80\x9b\x62\xa7\xea\x48\x4f\xb8\xfa\x40\x27\xd8\x51\x98\x58\x7e\x3f\x79\xa7\x53\xb6\xeb\x74\x30\x09\xe2\xb0\x1d\x23\x4e\x69\x80\xeb\xf1\x25\xec\x0f\xc6\x89\xe6\xaa\xbc\x11\x1a\x84\x29\x9e\x02\x12\xa1\xdb\x6c\xe6\xbd\x5d\x0c\xa0\xd5\x46\xe8\xd3\x4c\x15\x5c\x96\xbb\x3a\xa7\xec\x52\xcb\x82\x6b\x99\xdf\xfb\xf0\x56\x1c\x0b\x23\x26\xd9\xb5\x8e\xd1\xbb\x6d\xe6\x80\xb5\xbc\x14\xef\x37\xdc\xee\x4d\x6f\x3b\x04\x3e\xd0\xd1\x76\x63\x0e\x71\xb4\xc3\x4e\xbe\xdf\xb1\x4d\x24\x78\x0e\xda\xa6\x9d\x32\xaa\x73\x9f\x68\x84\xef\xd2\xb7\x51\xfb\xb7\xc0\xa7\x2a\x55\xa3\x19\xbb\xba\x55\xf9\xfd\x41\xfb\xb4\x73\x21\x5d\x1b\xd5\x15\x09\xd9\xb5\x53\xa6\xa2\x98\xc8\xc1\xc1\xa4\x56\x00\xaa\x6b\xb7\xbe\x16\x79\x25\xb4\x19\xd2\x02\x3a\x15\x69\xb7\x00\x2a\x32\xe6\xd3\x38\xe9\xb3\x27\xe3\xcd\x0e\x80\x2f\x88\xd1\xeb\x09\xbb\x69\x2c\xbe\x22\x98\xaa\x37\xad\x10\x0c\x66\xa3\x05\xbb\x16\xf7\xb8\xdd\x19\x18\x85\x33\x65\x57\x40\x63\x3f\x8b\xcb\xe3\xb2\xd1\xf5\xd8\xb9\x1f\xd0\x35\xcf\x59\x0e\xfb\xe5\xa0\x70\xe7\x74\x61\xb8\xf5\x82\x97\xaa\x94\x73\x9e\x7f\x2d\x78\x26\xf4\x2f\xc4\xbd\xf7\x4d\x60\x22\xa3\x5c\x10\xd8\x3a\x57\xcf\x83\x98\xcf\x85\x8f\x7d\x08\x69\x57\x42\xbb\x99\xa1\x1d\x48\x71\x1e\xd6\xfa\xbd\xb4\x2b\xcc\x43\x90\x34\x84\xb5\xbe\xf9\xec\xed\x78\x6f\xc7\x1e\xec\x46\xd7\xe3\x06\x82\xb3\xfa\xdd\xf6\xcd\xed\x1d\xea\xa8\x23\xec\x4a\x8a\x34\x1f\x6d\x57\x3e\x17\xb7\xd1\x68\x9a\x1e\xb3\x0e\x2e\x74\xc4\x66\x7c\x7e\x4d\xa5\x0d\xee\xcc\x50\x88\x1e\xd6\x5a\x0a\xf4\xcd\x52\xf6\x0d\x8a\x57\x17\xec\x77\xec\x2a\x67\x12\x7c\x36\xbf\x05\x2e\x96\x6d\x15\xcb\x24\xcf\x29\xe0\x9d\x73\x2b\x34\x9b\xe7\xca\x88\x09\x75\x6a\x60\x12\x83\xb6\xb0\x1b\x41\x33\xa9\xcf\x94\xbe\x5c\xa8\xb2\xdc\x61\x9c\x52\x27\x6f\x9c\x8e\x7a\x8c\x8c\xf8\xc8\x81\x85\xb0\x19\x6b\x1d\x44\x5f\xab\xeb\x25\x1e\x3f\x17\x72\x6d\x17\x59\x0c\xb6\xbd\x9a\xee\xb8\xec\xe0\x86\xeb\x2e\xd1\x13\x5c\x98\x6d\x27\x7f\xb0\xee\x36\x28\x23\xaf\x67\xcb\xb2\x74\x54\x43\xf6\x04\x42\x79\xcf\xd3\x2d\xe2\xe1\x21\xed\x8a\x00\x27\x93\x2d\x0f\x75\x97\x65\xd9\x98\x9e\x3d\x5a\x2b\x32\x3d\xf7\x48\x2f\x72\x83\x07\xaa\x6d\x9a\x06\x1a\x8c\xd0\xaf\x44\x30\xce\x4e\x6d\x7e\x05\x11\xe7\x0f\x50\xf0\x5d\xf6\x9a\xea\xec\xd4\x81\xda\xa2\xe9\x19\x63\x6c\xd7\x36\x4d\x9a\x79\x07\x0f\x5e\xd8\xc2\x09\x00\x1a\x30\x77\xa2\x7e\xbc\xf9\xb2\x43\x2f\x7a\xfb\x65\xb7\x5e\xdc\xad\xe9\x0e\x35\x5f\x9c\x0e\xea\xd1\x8b\x24\x14\x76\xdb\x2f\xfd\x7a\x91\x8c\x11\x40\xe6\x40\xc5\x08\x5d\x83\x11\x03\xea\xfa\x28\xd5\x58\xe5\xf7\x5d\xba\x31\xde\xb6\x1f\x6f\xce\xf4\x5b\x9d\xde\x9a\xd9\x69\x75\x1e\x68\x4f\xee\xb5\x65\x76\x5a\x9d\xad\x5d\xdb\xb5\x8e\x6e\x63\xa6\x2b\xd9\xb3\xdb\xea\x3c\x22\xbd\xb3\xdb\xea\x74\x58\xa0\x92\x35\x57\x2a\x36\x64\x88\xe6\x5d\x9a\x20\x22\x39\x2d\x79\x07\x94\xd1\xb5\xb8\x37\xec\xcd\x5b\x1f\xfe\xdb\x03\xef\xa0\xf4\x58\x91\xb1\x93\x7d\x46\x14\xea\x86\x8a\x4b\xdd\x4c\x3e\x1c\xf8\x60\xe0\x75\x63\x5a\x21\x7a\x6b\x17\x23\xbb\xf1\x81\xc0\xb9\xbd\x4b\xc9\xf0\xb8\x1e\xa7\x2e\xe8\x39\xfe\x9c\xf9\x80\xe0\x80\x00\x87\xa8\x08\xfe\x49\x86\x4c\x08\x82\x81\x10\x05\x98\xd4\x35\xb6\xda\x4e\x8a\x8c\x9d\x37\x56\xe0\xcf\x95\x2c\x47\x27\x45\x36\x69\x3e\x5d\xc2\x18\x82\x9a\xa6\xa9\x8b\x11\x36\xfe\x21\x58\x35\x2e\xb2\x46\x3b\x79\xa8\x7d\xf3\xf5\xd5\xd5\xe5\x87\xc4\xcd\x30\x69\x4f\x54\x2e\x91\xbd\xd8\x39\x4b\x78\x55\xe5\x72\x8e\x65\x2a\x58\xf9\xf7\x39\x9b\xaf\xb8\x36\xc2\x9e\xd7\x76\x71\xfa\xb3\x24\x84\xdb\x60\x56\x17\x3a\x68\x0c\x23\xb6\x72\x5f\xf0\xcc\xee\x0f\xc3\x01\x30\x55\xb2\x4a\x8b\x4c\x2c\x64\x29\x32\xac\xb0\x30\x51\xec\x2d\x9a\x66\x6f\xf0\xad\x5d\xe0\xd3\x0e\xbe\xc5\xa5\x1f\xde\x96\x91\x0b\x96\x22\x7c\x34\xfb\x5b\xd1\xa9\x8e\x80\x5c\x3f\x74\xdc\xff\xae\x66\x17\x91\xa3\x39\xc0\xae\x35\xad\x80\x5c\xf7\xa0\xa7\x20\x16\x48\xdc\xe8\x91\x88\xfe\xe8\x1f\xf2\x78\x61\x85\x1e\x6d\xb6\xd8\x8b\x66\x6b\x47\xd1\x36\x8f\x11\xd0\xf6\x2a\x0f\x0a\x07\xba\x28\x11\x86\xfe\x0a\x0c\xf5\xd7\x77\x60\x4e\xbd\x54\x35\xe0\x30\x1e\x46\x16\x85\xcb\x66\x80\x6e\xe8\x21\x73\xe8\x3a\x93\x65\x26\xcb\x25\x5a\x85\x34\x2c\xfd\x82\x3e\xb9\x58\x77\xe1\xc7\x61\xd0\xda\x75\x4f\xbf\x13\x7a\xc6\xfe\x86\x5d\xa9\xd7\x55\x25\xf4\xc3\x43\x32\x4e\x2f\xb9\x5d\xb5\xfa\xc0\x87\x2b\x51\x54\x39\x96\x01\x27\x63\xcf\x05\xa3\x9e\x7a\xb0\x11\x45\xcf\xe3\x68\xa3\xc3\xa8\x23\xe4\xe8\xec\x3a\x58\x5e\x34\x25\x66\x5b\xda\xf6\x9f\xb3\x10\xa1\xe3\x57\x94\x34\x6b\x19\x7f\x9d\x81\xc7\x01\xca\x88\x8d\x4a\x44\xf7\xd3\x09\x8d\xc2\x17\x98\x44\x7c\x42\xd9\x39\x0a\x45\x22\xff\xf8\x3c\x9b\x9f\xf1\x7b\x68\xd7\x13\xf0\x5a\x32\xb1\xe0\x75\x6e\x41\xdb\x11\x83\x00\x30\x0c\x4b\xaa\x05\xdb\x94\x05\x13\xc6\xd9\x4c\x65\xe8\xb5\xc0\xdf\x64\xf6\x83\xfb\x98\xe0\x3c\x49\xf0\x38\x6f\xb0\x1e\x6d\x3a\xa5\xf9\x53\xc4\x6e\x34\x26\xbf\x86\x33\x83\xb9\x6f\x06\xc8\x02\xa8\x3f\xff\xec\xb3\x94\x7d\xb3\x88\xf0\x8d\xe2\xa9\x74\x6e\x84\xc6\xd2\x6a\xe8\x51\x69\x75\x23\xc1\x25\x5e\xd1\x89\xa2\xbc\xdb\x4c\x10\xb6\x94\x9e\x84\x7e\x8d\x4d\x16\x83\xc6\xba\xad\x06\x3a\xac\x22\x7d\xc6\xb5\x59\x71\x2c\x09\xf3\xf8\x17\xf4\x09\x38\xd2\xd4\xf3\xb9\x10\x99\x21\x1f\xec\xe7\xaf\x5e\x3c\x77\x15\xda\x99\x2f\xa7\x0e\x39\x3e\xc4\xdd\xa3\x53\x1b\x91\xf5\x2f\x8b\xd2\xff\x17\xb0\x5d\x13\xef\x1a\x86\x95\x35\x8d\x2d\x68\x4c\x96\xc6\x0a\x9e\x79\x9a\x91\x90\x8c\x25\x44\x97\x21\x12\x2a\x49\x26\xec\x96\xa4\x60\x9b\x0d\xd0\x00\x81\x5d\x9d\xb0\x77\x70\xfc\x62\x92\x90\xf8\xf9\x9e\xaa\x0d\xd7\xb8\x8b\x67\x00\xcc\x6f\xe8\x03\xc5\x3b\x8b\x86\x80\xa4\x68\xa1\xcb\xa8\x4d\xdb\x46\xcf\x4a\x62\x9e\x2f\x70\x4a\x37\xf4\x29\x85\x59\x03\x20\x3f\x0e\xc8\x3d\x1a\x7f\x1e\x77\x3b\x8f\x74\x2e\x32\xe3\x79\x00\xe7\x03\x05\x83\xdb\x94\xd8\x66\x34\x06\x31\x38\x4a\x9c\x20\x3c\x05\xe9\x97\x4c\x62\x95\x47\x0b\x58\x79\x26\x8b\xf1\x6f\x8b\x07\xcf\x87\xcd\x3a\x30\xa0\xd3\x98\x1c\x1e\x86\xeb\x69\x46\x54\xb9\xb3\x89\xcb\xf5\xa4\xa3\x67\xfa\x15\xb4\x8c\x43\xa4\x63\x80\x47\xe3\x8c\x4a\x56\x53\x62\x87\x6f\xc0\x74\x2c\x79\x1e\x29\x09\xc4\xdd\xcc\x77\x60\x1d\xb1\x59\x83\x38\x02\x3f\x67\x66\x1e\x35\x3b\xf7\xf1\x36\x45\xa6\x70\x18\x43\xc7\x71\xf8\x38\x02\x6a\x8f\x41\xde\x34\x7c\x47\xd2\x4f\x8f\x66\xf5\x82\xbd\x79\x3b\xbb\xb7\x62\xec\x78\x7d\x4d\x7e\xfc\x2d\x8b\x59\x28\x44\xc7\x3d\x9f\xbd\x2e\xdd\xce\x02\x84\x09\xfb\xf4\x76\xfc\xf9\x66\xf4\x9c\xac\x14\x23\x7f\x03\x38\xff\xec\xff\xff\xe5\x5f\x10\x0b\xe5\xa2\x84\x31\x63\xf6\x57\xd4\x46\xfc\x50\x2f\xd8\x39\x9b\xd5\x8b\x37\x67\xf0\xf1\x6d\xbb\x7a\x69\x51\x58\x62\xdc\xc5\x28\x09\xb1\x46\x64\xa1\x47\x9f\x98\x47\x67\x6c\xce\xcb\x52\x59\x56\x81\xb9\xc3\x4a\x55\x9e\xa2\x8c\xf3\x86\x3c\x74\x4c\x26\x00\x7c\xdc\x0a\x46\xb9\xaa\xe0\xe7\xe2\x76\x74\x4b\xe0\x91\x46\x28\x43\xe3\xb5\x47\xc9\x1d\xec\xc5\xc8\xfe\x64\xbf\x82\x59\xce\x9c\x00\xfd\x95\x13\xe7\xb0\x8b\xae\x17\xb7\xd2\x2c\xa4\x13\xe7\x9e\x0b\x51\x50\x45\x9b\xdb\xb8\x19\x86\x49\xbc\xe7\xe1\x2f\xbb\x1c\x52\xcc\xed\xca\x2d\xa2\x49\x03\xaa\x24\x34\x07\xa6\x91\x48\x18\x6f\xf1\xb2\x97\xb1\x38\xd5\x1f\x4c\x72\xcf\x23\xa3\x55\x03\x74\xcc\x62\x6e\x63\xed\xa2\xb9\x55\xda\xcc\xd0\x33\xba\x39\x56\x64\xca\xe1\x9f\x2d\x10\x0e\xa9\xe1\xce\x04\xc9\x5e\x9b\x24\x0a\x52\xed\x31\x4a\x42\x50\x62\xa7\xf6\xdf\x74\x72\x11\xfb\xee\xd4\x0a\x82\xa4\xeb\x3e\x30\x06\x84\xdf\xa9\xd3\x35\xb1\xff\xda\x18\x36\x1a\xfc\xd3\x0d\x97\x17\x4b\xd1\x90\x57\xae\xae\x2e\xfd\x57\x84\x0c\x1c\xbc\x2f\x72\x3f\x88\x42\x14\x3b\x97\xd5\xe9\xf3\xb2\x13\xa7\x60\xb0\x4b\xbf\xbf\x3b\xc8\xc4\x02\xdc\x86\x14\xa4\x76\x8a\x05\xf7\xa3\xb1\xf3\xee\xc0\x17\x6e\xdc\xdf\x8d\xb5\x46\xbe\x30\x9a\x85\x28\x35\x9c\x40\x71\x15\xfc\x2f\x05\xcf\x1e\xe7\xf9\x88\x80\x1f\x56\xe5\xe8\xcb\xfa\x17\xa0\xf0\x26\x2c\x71\x92\x40\x83\xb2\xf5\x06\x0f\xac\xcc\x93\x33\xf1\xf5\x1d\x6d\x41\xf4\x19\x01\xaf\xbd\x50\x03\x57\xe3\xec\x9c\x85\x6b\x2c\x8d\xb8\x73\x76\x1e\xb9\x9d\x8f\xf3\x5c\xdd\x5e\x72\x6d\x25\xcf\xcf\x18\x63\x56\xd7\xce\x28\x7c\x22\xcd\x9c\xeb\xec\x75\x89\xb7\x6e\xce\x9a\x16\x5f\xfe\x01\xeb\x3a\x67\xf1\x84\x5b\x22\x55\x8b\xf7\xdb\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\xea\xd0\x68\x11\x33\x1c\xd8\x75\x07\x59\x63\x51\x7a\xac\xcc\x25\x82\x0c\x22\x85\xf8\x05\xcf\x5a\x06\xf6\x00\x10\x68\xd0\x0a\xde\x3a\x78\x94\x97\x5c\xf3\xc2\x78\x77\xe5\x3b\xae\xcd\x48\xc3\x1e\xbe\x63\xe7\xac\x69\x87\xde\xef\x6b\xa1\xef\x9b\xee\x3a\x7d\xfd\xf2\xdb\xf4\x97\xf0\x71\xe4\x07\x44\x5d\x86\xb1\x0f\x43\xd5\x63\x20\x2c\x3c\xd7\xe2\x0d\x0c\xe3\x83\xdf\x72\xc1\x4a\xdf\x2d\xfd\x56\x91\x61\xcd\x12\x5c\x24\xf5\x19\xac\xd7\xae\xf9\x2b\x51\xe2\xa4\x61\x37\xc1\xbb\xe9\x0e\xef\xee\x46\xe1\x45\x29\xd4\x62\x0b\x0f\xf1\x7e\x1b\x0f\x5c\xd6\x8f\x41\x24\x70\xc2\xa7\x18\x96\xf2\xa9\x6e\xef\x31\x9e\x6e\x94\x0a\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\x49\xf2\xd1\x78\xef\x20\xe8\x75\x6e\xc8\x56\xdf\xf0\x06\xc8\x37\xd2\x47\x24\x30\x3b\x10\xec\x92\x7d\x9d\xb6\x75\x5f\x4e\x33\x98\x48\x7d\x82\xe2\xd9\x96\x98\xd8\x14\x12\x41\x16\xbc\x36\xe2\x12\xc6\x81\xbc\x34\x67\xed\x86\xa7\x65\x5d\x3c\xaf\x8b\x99\xd0\xd0\xe2\x1b\x9e\x16\xd2\xbe\x2e\x2b\x55\xd5\xe0\x12\x67\x41\xac\x3c\x0c\x5b\xf2\x34\x92\x29\xde\x1d\x68\x72\xad\x88\x6a\xfa\x4c\x18\xc3\x97\x62\xbc\xab\xec\xc1\xb3\xc1\xbb\x89\x93\x56\xc1\x9c\x44\x4b\x2a\xea\x15\xe7\x60\x9b\x0b\x43\xce\x18\xe8\x8a\xa1\xf4\x14\x83\x6c\x6a\xa1\xbe\x64\x6c\x63\xbb\xeb\xc8\x9c\xd8\x99\x7e\x45\x25\xb0\x95\x7a\x5d\x71\xc3\x56\x3c\xa3\xb1\x7d\xc9\x56\x4c\xf1\x65\x4c\xe1\x15\x16\x59\x46\x77\x74\xa3\xbb\xbf\xe0\x09\x22\x14\x77\x61\x36\xf5\x4a\x3f\xe4\x78\x81\x99\x97\xba\x9a\x6f\x65\x82\x5b\xc9\x5c\x02\xd2\xce\xe8\xee\xcc\xe5\xee\x4b\xe5\x7a\x0a\x45\x9e\xca\xce\x21\x1b\xf8\x63\x32\x77\x1b\x06\x08\x2f\x20\x77\x5d\x8a\xe6\x8e\xd5\x7c\x05\x7b\x92\x62\x0b\xcf\x8d\x82\x2d\x70\x67\x98\xb4\x42\xad\xf3\xe1\xee\xd9\xbd\xa6\x39\xad\x75\x9e\x4c\x9c\x10\xbf\xe4\x76\x35\xde\x37\x30\xec\x4a\x32\x61\x09\xf0\x1c\x08\x91\x64\xfc\xc1\xb9\x67\x00\xf1\xe1\xb9\xe7\x68\x74\x13\x62\xed\x48\x3d\x97\x64\xec\x91\xf4\x62\xb9\xbc\xc1\xbb\x10\xd6\x51\xad\x50\x16\xe3\x0b\xb2\x34\x96\x97\x73\x91\xb2\xef\x05\x13\x77\x15\x5d\x19\xa3\x6f\x74\x8d\xac\x10\x64\x3e\x36\x93\x64\xd2\xcc\x15\x5e\x9e\x30\xf7\xc6\x8a\x62\x02\xcc\x35\x9d\xb2\x5c\x5e\x8b\x3c\xa4\xaf\x31\x0a\x92\xac\x94\xb1\x67\x48\xbb\x26\x3f\xdd\xac\x60\x14\xa6\xf2\xd5\xc6\xbd\x91\xdb\xe3\x33\xd3\x72\xc1\x3e\xf2\x2c\xf7\x35\x37\x97\x5a\x2c\xe4\x5d\x98\x71\xc2\x12\xbc\xb3\x4a\xb6\x67\xc0\xe3\x9c\x3e\x9f\x4d\xa7\x09\xfb\x7f\x81\x12\x28\xac\xea\x20\x05\x6b\x9d\x83\xf1\x69\x44\x80\x76\x70\x8d\x17\xd8\x0a\xf5\xd0\x5d\xe5\x05\x2b\xa7\xc3\xe3\x70\xf9\x55\xaa\x45\x4e\x9e\x2b\xda\xc8\x28\xbc\x4d\xd5\xf7\xc4\x03\x18\x0c\x02\x40\xb7\x4a\x5f\x4f\x18\x85\xcc\x99\xd3\xf4\xe0\xf8\xb1\x7b\x55\x6b\x52\x23\xd4\x2a\x81\x84\xc9\x38\x8e\x1c\x1e\x19\x9f\x65\x72\xb1\xe5\xfc\x38\xa4\xa1\x95\x12\xff\x91\xa3\x24\xcb\x4c\xdc\x6d\x8f\xf8\xcc\x8f\x71\xd9\xfd\x4d\xaf\x62\x57\x72\x1f\x66\x22\x0b\x6f\xc7\xb8\x8e\xeb\xbd\x51\x86\xdf\xe5\xec\x7b\xc3\xc6\xce\x82\x1c\xcc\x55\x75\xff\xfa\xe5\xb7\xa3\x7a\xc2\xe2\xfe\x5f\x70\x23\x40\x7c\x3c\x3c\x24\xde\x10\x8d\xe2\xb9\x7b\x02\xbf\x1b\x31\xe2\x56\x2c\xb9\x1d\x03\xde\xcc\xee\x0f\x36\x13\xfc\xde\xb6\x8d\xe2\xc0\xdd\xe1\xe1\xdd\x99\xfe\x9d\xfb\x1e\x32\xfe\x3f\xf9\xce\xf7\x05\xd2\x5d\x25\x41\xdf\xd6\x4e\x36\xad\xcd\xae\x70\x78\x53\x61\x80\x92\xc7\xef\xe3\x8c\x1b\xc1\x4e\xe0\x0c\xbf\x7e\xf9\xed\x04\x4d\x7d\xe6\x73\x96\xfe\x33\x9c\xdf\x12\xec\x82\xb3\x73\x76\x02\x03\xe8\x4f\xd4\x17\xce\x3d\x68\xaa\x9c\xa1\xc5\x19\x2a\x17\xf6\xce\xa7\x46\x5f\x81\x7d\x3b\xc7\x3a\xf8\x5a\xbb\x50\x0d\x9a\x0a\xee\xe0\x5a\xc5\xaa\x3a\xcf\xe9\xd2\x19\xe9\x39\x91\x51\x92\x52\xd5\xa0\xba\xbd\xf9\xea\xd4\x12\xc5\xc9\x49\xed\x15\xde\x84\x8d\x1d\x50\xb0\x15\x5c\xb8\x23\x65\xec\xb9\xb2\xee\x0e\x2f\x80\x04\x58\x28\x29\x56\xfc\x46\x30\xff\x36\xc7\x6e\x93\x04\xe7\x99\x61\xb6\xca\x5d\x63\xc3\x1b\x3b\x20\xf9\x3d\x6a\xb7\x52\x0b\x17\x1f\xe7\xbe\xa0\x89\x04\xbf\x5d\x89\xfb\x26\x0a\x1f\x2a\xec\xa3\x4b\x76\x42\x07\x85\xeb\x52\xcb\x6d\xda\x51\x3a\x39\xba\x4e\xd2\xaf\x0f\xe2\x88\x4f\x47\x27\x97\x71\xdb\x71\x09\xf3\x00\xeb\xf0\x27\x4b\x28\x07\x8b\xc7\x45\x7e\xe3\x3c\xf2\x46\xde\x17\x83\x86\x68\xff\x82\x02\xe8\x29\x8f\xd9\x2b\xb0\x37\x43\x52\x9d\xc2\x66\x67\x44\x6a\xd3\xbf\x72\xe1\x28\xb2\xc6\x36\x43\x52\x3e\x4a\xe3\xa6\x89\x0b\x4b\xe2\x8a\xd2\xcd\x90\x54\x14\x7a\x25\x33\xcf\x65\x49\x42\xcb\x0a\x6f\x67\x94\xaa\x3c\xfd\xb3\xcf\x3e\x8b\xd3\x45\x13\x76\xeb\x72\x22\xe8\x4f\x55\x5a\x58\x42\x13\x06\x94\x08\x8b\x7c\x2b\x3c\x40\xd6\x8a\xa2\xc2\xd3\x47\xab\x88\xcf\x9f\x0b\x60\xb3\x82\x5c\x98\x06\x47\x8f\xc4\xde\x90\x99\x2f\x0f\xe9\x08\x99\x75\x92\x7d\x77\xc4\x8c\xfa\x1c\x1f\x32\x3b\x26\x02\x76\x8e\x0f\x5a\x3c\x7d\xf1\x65\x6f\x10\xec\xb9\xb8\x8d\x62\xe3\x28\x71\x30\x58\x83\xaf\x55\xc4\x51\xaf\x03\x03\x6a\x1d\xf1\xb4\x00\x34\x19\x47\xf5\x14\x3a\xca\x45\x00\xe0\x28\xce\xf3\xe2\x17\xfb\x63\x76\xad\x4c\xc4\x78\xc2\x92\x88\x67\xce\xd8\xa3\x4f\xb2\x47\xe8\x06\x34\x73\x84\xb9\x29\xe4\x68\xaa\x7d\xdc\x3c\x3c\x3a\xae\xd7\x1b\xd6\xeb\x8b\xea\x45\xa4\xdd\x1b\xd3\x33\x55\x47\x50\x6f\x8b\x42\x31\x51\x36\xaa\x4d\x3e\x6d\x6a\xa0\x07\x1b\x45\xd0\x91\x00\xda\x2c\xf4\x3a\x20\x7a\xbe\x3f\x76\x4e\x06\x41\x2b\x02\x74\x5c\xf4\x7c\xab\x44\x6c\x18\xbc\x5d\x17\x0e\x62\xfc\xf0\x80\x39\xbe\x37\x41\x49\x6b\x2d\x55\x6d\x18\x4c\x84\x8e\x89\x5a\x38\xc0\x1b\xca\x77\x04\x36\xc1\x84\xe2\x80\x94\x33\xc6\xd4\x98\x17\x05\x07\x2c\xeb\x80\xe8\x79\x4f\x09\x59\x08\x1d\x0d\x8c\xd5\x37\x3c\x07\x02\x27\x89\x8b\x4c\xd2\xa7\xdd\xef\x05\xec\x8a\xa8\xfb\x08\xa7\x16\xef\x91\x55\x62\xf5\xd5\xeb\x1a\x6f\xf6\xeb\xf7\xbd\x29\x2a\xf1\x4a\x90\x63\x8a\xc6\x58\xc5\x35\x2f\x84\x15\xda\xb8\x48\x2d\xde\xb6\x71\x9e\x1c\xd6\x50\xf9\xa4\xd2\xc6\xb5\x48\x43\x95\xd0\xad\x58\x27\xcc\xf2\x8a\xbe\x87\x60\xa7\xef\xf8\xb0\x79\x8b\x14\x4c\xc6\x64\x8a\xf8\x77\x79\x7b\x15\x45\x0b\x76\xc8\xba\xae\xbc\x81\xaa\xf3\xac\x7c\x64\x9b\xd3\x4b\xab\xfc\xe4\x7d\x42\xc6\xa7\x97\xa0\x44\x95\x97\xfc\xd6\x19\x99\xb5\xff\x1d\xda\x42\x03\x7e\x6d\x53\x0e\x19\xaf\x4d\x3a\x2c\xb8\xe8\x8c\x58\x83\x80\xb3\x45\xe5\xd2\xb3\x6e\x83\x6d\x51\xb5\xc9\xd9\x17\xbb\x66\x4d\xe5\xf6\x61\x61\x63\xb9\xc0\x03\xe1\xba\xbd\x14\x95\xc0\xb7\xff\xdc\xdf\xdf\x18\x70\xa5\x82\x44\x6d\x20\x8f\x2e\xfc\xab\x7b\x3e\xee\xac\xb0\x22\x2d\xf1\xdb\x9f\x8c\xfd\x08\x5a\xea\x9b\x24\x84\xa8\x7f\x19\xe2\xf1\xae\x22\xfb\x2d\xb1\x70\x1a\x7a\x5c\xf0\x42\xe4\x4d\x1d\xba\xe3\x83\xdc\x84\xbf\x9d\xc1\x17\x5d\xce\xe8\x1b\xef\xf3\x21\x0e\x8d\xf4\x71\x96\x8d\x76\xa0\x32\x89\x9e\xaa\x1a\xdd\x8c\xc9\x87\x1b\xc4\x58\x38\x6e\x44\x17\x27\x07\xe3\x6c\xc1\x94\x66\x23\xd0\x97\x5b\x44\x1b\x6f\xd2\xd5\xe3\x6f\x8b\xca\x87\x57\x5b\xf5\x1b\x7d\xab\x70\x78\x74\x30\x77\x27\x7f\x3b\xf6\x5e\x70\x99\x53\x81\x8d\xe7\xee\x3e\xf8\x49\x7b\xa1\x4e\x54\xf9\x93\x3d\xb2\x45\x35\x1e\x1e\x45\x45\x82\x30\x8e\x08\xd5\x6c\xe5\xf4\xe4\xf7\xff\xf6\xb7\x3f\xfc\xee\x5f\x7e\xf8\xe7\x7f\xff\xe1\x1f\x7e\xfb\x87\x7f\xfa\xbb\xff\xfa\x8f\xff\xfc\xfd\xef\xfe\xfe\x87\x7f\xfd\xed\x1f\x7e\xfb\x8f\x27\xd3\xe0\x7f\x12\x77\xba\x39\x5e\x59\xae\x9f\xde\x55\xda\xb7\x81\x0d\xd2\xb7\xe5\x1f\x9d\xc7\xe4\xf9\x80\x8d\x3f\xe9\xdd\x87\x4d\x86\x88\x57\xf6\x01\x13\xed\x9b\xa7\x71\xa3\x07\xad\x4a\xbe\x8d\xbf\x36\xe3\x0b\x4e\x48\xa8\x52\xa8\x45\x5f\x76\x69\x5b\x52\x60\xf7\x7e\x49\xd1\x80\xad\x82\x24\xa7\x21\xbe\x20\xb1\xb5\x6f\xe1\x50\x50\xf7\xf6\xa9\x70\xdf\x36\x8f\x05\x3a\x6b\xa4\x23\x81\x32\x5f\x09\xbb\x5e\xfb\xbe\xee\x3e\xe9\xf8\x73\xec\xf1\xd1\x39\x6b\x9a\xfe\x5a\x68\x85\x6e\x5d\x74\xdc\x77\x1e\xb1\x4e\xc0\x63\x3f\xb2\xfb\x94\x1d\x7d\xce\x3a\x27\x49\xc2\x2c\x7e\xc9\x3b\x0e\xdb\x16\x4b\x39\x60\x7b\xce\x5b\x0f\x7b\xfe\x94\xc4\x3d\x18\xaf\x58\x9a\xf2\x7c\xbc\x85\x60\xcc\xd2\x87\x71\x78\xac\x8d\x71\x42\x76\xce\x1c\x3a\x64\xc8\x61\x4d\xab\xe7\xeb\x32\xb2\xa0\x30\x8a\x98\x2c\x85\xa5\x27\x0e\x63\x0d\x8d\x4e\x53\x4b\x41\x5b\xf5\x52\xd8\x0f\xb5\xc9\x0e\x51\xd4\xa7\x7b\xd2\xbb\xed\x34\xf3\xf4\x84\xbd\x28\xf3\x7b\x2c\xcd\xc6\x40\x0e\x01\xa1\x34\x93\x59\x81\x1d\xc3\x66\x21\x86\x43\xe5\x81\x46\x31\x9e\xe7\x08\x40\xd9\x55\x5c\x7a\xa9\x0a\x69\x41\xcb\x67\x35\x26\x12\xc0\x5b\x94\xa5\x30\x86\x9d\x4c\xdd\x8c\xb8\xfc\x6e\xe9\xba\x5b\x57\x6f\x05\xfe\x88\xd6\x21\x19\xbd\x2f\x6f\xda\x9f\x38\xed\xcf\x9c\xf6\xa7\x4e\x7b\x73\xa7\xf4\xda\x07\xb7\x7c\x33\x7d\xda\xca\x9e\xee\x79\x74\x6b\x97\x45\x49\x8e\x0d\x31\x16\xa7\xc2\x55\xf6\xc9\x4d\x32\x61\x48\xd9\xc6\xae\xfc\x82\x4a\x22\x37\x9f\xb3\x1c\xd1\x0b\x99\xcf\xc5\xed\x17\xf5\x62\x21\xf4\x08\x70\x8d\xcb\x8b\x59\x9c\xc0\x77\x5e\xe1\x60\xfb\x8d\xaf\xbd\xaf\x7e\x84\x27\x3f\x0f\xcd\x90\x3d\x7f\x7c\xf5\xea\x03\x5f\xfd\xc0\x61\x30\x9e\x51\x54\x31\xfc\xed\xee\x42\xe2\x6b\xae\x74\x0b\xd2\xe8\x1b\xfa\x3b\x3c\xe1\xe6\xfc\xa8\xed\xd7\xe3\x0e\xbd\xa6\xd8\x75\xe1\xf0\x55\x3d\x0b\x0c\x00\x38\x80\x08\xab\xc5\xab\x7a\x66\xe6\x5a\xce\xe8\xc1\x95\xad\x3b\x85\x69\xfb\x15\x96\xce\x3e\x09\x2e\x21\xee\x49\xa5\xff\xcf\xcc\x12\x17\x3b\xde\xcb\x59\x8e\x43\xc0\xfa\xef\x46\x3c\xba\xaf\x17\xb1\x41\xfb\x1d\xc3\x67\xfc\x5a\x44\x1b\x76\xe8\x3b\x2b\xb8\x47\xfb\xdf\x59\x69\x20\xef\xbd\xea\xd1\x7a\x4f\x36\x0d\x04\x0e\xd7\x3d\xa2\xbd\xee\x79\x5f\x65\x37\x04\x57\x08\xf0\xa7\xf7\xcc\x4a\xb3\xae\x43\x9f\x59\x89\x9e\x57\x69\xaf\xf9\xb9\xb8\x6d\x96\x7d\xd4\x13\x2b\xb0\x51\x3d\xf7\x5c\x43\x58\x67\xab\x4f\x94\xe9\x6a\x7a\x74\xdd\x85\x38\xe2\x0d\x96\x68\x97\x7f\xd4\x1b\x2c\x11\x9c\x50\xfb\x7a\xd4\x63\xa0\x8c\x11\xcb\x75\x71\xd4\xd6\xcb\x2a\x47\xbe\xdd\x11\xc5\x97\x89\xa8\x1b\xb7\x0f\xbb\x6f\xd3\x99\xa5\x13\x80\xcf\xcc\xb2\x3f\xac\xbc\x5d\x71\xd9\x75\xe1\x70\x47\xdd\x76\x61\x96\xe9\x13\xd4\x7b\xdd\x95\x86\x3b\x1e\x3f\xf9\xf4\xa0\x37\x33\x86\x2d\x8e\xda\x53\x2a\x86\x0b\x3e\xa0\x54\x0c\x4b\xc3\xd4\xec\xd7\x62\x1e\x9e\x93\x35\x61\xbf\xfc\x1b\x17\xcf\x78\x79\x4f\x19\x0f\x85\x8c\xe1\x1e\xf9\xc7\x72\x9a\x1a\xe6\xb6\x8c\xd3\xcb\xc2\xcc\x88\xd2\x48\x10\x77\xee\x3e\x4d\xab\x82\xac\x03\xef\xbe\x67\x6c\x2a\x30\xc9\x5c\x79\x44\x39\x6f\x69\xb0\x3d\x95\x64\x9e\xce\x2d\x1e\xa4\xf9\x61\x09\xf1\xc4\x93\x70\xc9\x77\xde\x80\x1d\x1f\x53\xd5\x02\x2b\xfa\xf0\xaa\x96\x68\xf4\x9e\x17\x15\x60\x35\xff\xd3\x2f\x2a\x34\xd8\x6d\x5b\x11\xbd\x0a\xe8\xb2\x9e\xe5\xd2\xac\x1a\xfd\xf3\xe3\x9e\x53\x38\xc4\xfa\xf8\x90\x67\x12\x7c\x21\xc5\xee\xa7\x12\xb6\xb4\x44\x58\x9d\xab\xa5\x08\xef\x25\x50\x55\xc5\x1e\x83\x66\x18\x95\x4b\xb4\x8e\x42\x5c\x23\xd1\xa3\x57\x5a\xd5\x11\x9b\xc5\x11\x9b\xb5\x11\x7f\xc2\x6f\x1e\xa0\x01\xf4\xa1\x6f\x1e\xf4\x50\xa5\x53\xf6\x1d\xf6\xe6\x81\xd7\x0b\x7f\xb4\xd7\x0d\x7a\x50\x3e\x40\x55\xb1\x7e\x5d\x35\x9d\xb2\x43\xd4\x90\xd0\x3a\xa4\x53\x37\xd5\xd1\x74\xca\xb6\x35\xd2\x74\xca\x1e\x22\xe8\x7e\x30\x5d\xe6\xf1\x83\x3f\xfd\x74\xbb\x2d\xc5\x6c\xe5\xf9\x39\x4b\xde\x49\x77\x3b\xeb\x5d\xd2\x33\x8d\xcf\xae\x6e\x03\xf1\x45\xb4\x1e\x91\x8e\x8c\x64\xe7\x9b\x0d\x87\x2a\xe5\xae\x54\xe1\x6e\xad\xdc\xfd\x38\x52\xcc\xc3\x4e\x37\x77\xab\xe6\xce\xc4\x5d\x4b\x33\x6f\xbc\xed\xe0\xff\x47\x6a\x5c\xe5\x4c\x54\xe3\xc2\x7b\x94\x35\x2c\xce\x4b\xfa\x67\x66\xb9\xa9\xab\x4f\x11\xd7\x9f\x46\x61\x1f\x6a\x63\xed\xcb\xd7\xed\x55\xd0\x61\x22\x04\x1c\xc0\x8d\xa3\x6d\xf8\xef\x00\x00\x00\xff\xff\x9b\xf7\x11\x8f\x54\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\x1c\x47\x76\xe7\xaa\xaf\x08\x15\x24\x32\xb3\x5d\x9d\x45\x1b\xb0\x31\x6e\xa1\x0d\x70\x69\x49\x9c\x11\x97\x61\x37\x25\xc0\x04\xc1\xc9\xaa\x8a\xea\xca\xe9\xac\xcc\x64\x2e\xbd\x4c\xbb\x2f\xbe\xc8\x80\x0d\x18\xf0\xc9\x07\x63\xe0\x93\xaf\x86\xcf\xfe\x9e\x91\x31\x7f\xe1\xb7\xc4\x96\x6b\x55\x35\x35\x83\x81\x61\x02\x22\xb3\x32\x23\x5e\xbc\x78\xf1\xe2\xed\x11\x9a\xcd\xc4\xd3\x74\x29\xc5\xb9\x4c\x64\x1e\x96\x72\x29\xe6\x37\x62\x1e\xe6\x69\x12\x88\x67\xaf\xc4\xcb\x57\x67\xe2\xe4\xd9\xf3\xb3\x60\x3c\x9b\x89\x37\x32\xaf\x92\x24\x4a\xce\xb9\x81\xb8\x8a\xe2\x58\xa4\x97\x32\xbf\xca\xa3\x52\x8a\x72\x1d\x15\x62\x15\xc5\x92\x1a\x7f\x27\xf3\x22\x4a\x93\x23\x71\x7b\x1b\xa8\xe7\xbb\x3b\xe7\x83\x78\x06\xa3\xb9\x5f\xf1\x37\xb4\x18\x67\xe1\xe2\x22\x3c\x97\xf8\xe5\x35\x3f\xbe\x0c\x37\xf4\x05\x3a\x9f\xe9\x31\xc4\x22\x4d\xca\x30\x4a\x0a\xb1\x91\xe5\x3a\x5d\x16\xa2\x4c\xc5\x26\xbc\x90\x22\x4a\x96\xd1\x65\xb4\xac\xc2\x58\xc8\x64\x99\xa5\x51\x52\x42\x97\x3c\xdd\x88\x42\xe6\x97\xd1\x42\x16\x53\x84\x94\xcb\x8f\x95\x2c\x4a\x11\x26\x4b\x78\x2e\xb2\x34\x29\x60\x0a\x37\x99\x24\x48\xd8\x14\x67\x94\xc2\x4b\x03\x65\x2a\xc2\x42\x5c\x49\x98\x34\xfc\x2b\x93\x05\xd0\x2d\x2f\x10\x00\xc2\x5b\x4a\xf5\x7b\x95\xe6\xaa\x23\x41\x9b\xd2\x8b\x10\x29\xb5\x12\x69\x95\x8b\xa2\xca\xb2\x34\x47\x4a\x97\x79\x98\x14\xf8\x8c\xc3\x45\x61\x1c\xfd\x26\x2c\x81\x10\x08\x0d\xfa\x6c\xc2\xb2\x08\xc6\xe3\x68\x43\x2d\xbc\xf1\x68\x32\xbf\x29\x65\x31\x81\x07\x9c\xbb\xbc\x2e\xf1\x91\xd0\x80\x25\x99\xfd\xba\x48\x13\x7c\xb1\xda\xd0\xfb\x28\xe5\xbf\x67\x51\x5a\x95\x51\x8c\x3f\x12\x59\xce\xd6\x65\x99\xe9\xe7\x2a\xa7\xd7\x45\x99\x03\xbc\x4b\xf5\x08\xa0\x60\x08\x78\x3e\x8f\xca\x75\x35\x0f\x16\xe9\x66\x76\x9e\x1e\x5e\x44\xe5\x0c\xff\xd3\xb4\x80\xd6\x61\x72\x93\xcd\xc5\xe4\x3c\x4d\xcf\x61\xc9\xcf\xd3\x38\x4c\xce\x83\x34\x3f\x9f\x65\x79\x5a\xa6\xf3\x6a\x35\xa3\xf9\xcf\x2e\x92\xf4\x2a\x99\x51\x6b\xe8\xb5\xac\x72\x9a\xe4\x1e\x5d\x6d\x17\xe8\x2f\x37\x59\xb9\xcf\xb8\xaa\x3d\xf4\x5c\x45\x32\x5e\x6e\xc2\xe2\x62\x8f\xde\x4e\x1f\x80\x00\xe4\xa9\x16\xe5\x1e\xdd\x75\x07\xe8\x5b\x46\x1b\xe0\xb6\x70\x93\xed\xd1\xdd\xe9\x03\x10\xae\xf2\x30\xcb\x80\xc1\xf6\x00\x60\xbb\xb4\x97\x34\x87\xcd\x1b\xce\x36\xd5\xf5\xa4\xfe\x25\xbb\x38\x9f\xc9\x3c\x4f\x73\xe2\xb4\x81\x81\x0c\xe7\xd1\x1b\xcd\x7e\x03\x1d\xe8\x01\x11\xb9\xbd\x3d\x14\xd1\x4a\xc8\x8f\x22\x78\x9a\x26\xab\xe8\x3c\x38\x33\x3b\x61\x02\x3b\x65\x22\x26\x09\x30\xff\x44\xc0\xa6\xaf\xe1\x86\x6f\x0f\x81\xa7\xf1\x5f\x18\x62\xc2\xa0\x80\x27\xb1\xe1\x0e\x50\xcf\xf3\x6c\xa1\xa1\xb6\xf0\xa4\x8f\xbd\x5f\x66\x20\x66\xc2\x65\x58\x86\xcd\x41\x77\x1e\x12\x9f\xec\x8e\xef\xd9\x5f\xa6\x81\x46\xc7\x19\x0b\xf7\xee\x1e\x00\xd4\x56\xdf\x8b\xd8\xf8\xb4\xc7\x10\xd4\xd1\xc5\xd1\x1f\x8f\xc7\x97\x61\x8e\xd2\xea\x83\x38\x16\x20\x8b\x82\xd3\x0c\x64\x4a\xc9\xbf\x49\x80\x01\x1a\x9b\x2c\xcc\x25\xbf\x52\xd2\x27\x78\x5c\xa6\x11\xbf\xa9\x4d\x33\x78\x29\xaf\x4e\x51\x16\xe7\xfc\x91\xa5\x59\xf0\x32\xcd\x9e\xc6\x20\x62\xcd\x5b\x00\x9a\xdd\xf0\x0f\x66\xde\xe0\x7b\xe0\xfd\xf1\x08\x44\xa9\x5a\x4f\xcd\x86\x2c\x95\xb1\x29\x89\xa4\xe0\x71\x42\xfd\xac\x90\x09\x9e\xa9\x47\x7c\xad\xc4\x47\x70\x82\xff\xe2\x0b\xbd\xa5\x83\x53\x7a\xc0\x57\xce\x36\x0d\xce\xf4\x33\x7e\xb0\xdb\x0f\x5b\xc3\x56\xf9\x2e\x8c\x2b\x9a\xb7\x23\x57\x82\xaf\xf0\xf9\x05\x3c\x23\xf5\x66\x07\x3b\xfd\x11\x27\x46\xb3\x1d\xec\xfc\x67\x46\x1a\xf4\x79\x22\x42\x56\x6f\xf9\x54\x44\xe5\xc3\x42\x54\x85\x5c\x55\x31\xa9\xa9\x55\x95\x2c\x70\xea\xa0\x03\xd7\x61\x29\x12\x89\x5a\x2a\x15\x69\x46\xb6\x81\x48\xb1\x2f\x3c\x1f\x6a\x35\x80\x00\xe7\x61\x11\x15\x81\xf8\x0a\xba\xcb\x6b\x98\x79\x2c\xa7\xe2\x26\xad\xc4\x26\x3a\x5f\x97\x22\x0b\x0b\x54\x91\x0e\xc2\x00\x2f\x34\x03\xf1\x38\xb0\x36\xcb\x0a\x14\x33\x82\x83\xb6\xc8\x01\xc1\x37\xa0\x57\x63\xc4\xf1\x0a\x98\x50\xc8\x70\xb1\x56\x9a\x5e\x78\x7a\x74\x1f\xbe\xe5\x80\x61\x95\x31\xd0\x22\x93\x8b\x68\x15\x2d\x60\xd0\x72\x1d\x08\xef\x39\xe1\x07\x06\x03\xc0\x9f\x87\xf3\xf8\x06\xda\x6c\x22\x58\x1e\xb2\x12\x40\x63\x17\xd1\x79\x82\x5d\xa3\xe4\x32\xbd\x40\x75\x2f\xc5\x29\xdb\x08\xc6\xaa\x20\x14\x25\xc2\xb1\x33\x60\x1e\x40\x10\x9a\x92\x81\x0f\x2d\x0c\x75\x17\x71\x24\x93\xb2\x4e\x5d\x18\x65\x91\xc6\xb1\xa4\x7e\xda\x40\x01\x8c\x80\xf9\x19\x1c\xcc\xc3\x9a\x2b\xf0\x17\x4c\x08\x01\x16\xc0\x36\x31\x9b\x12\x4c\xab\x08\x29\xbc\x91\x44\x49\x07\x5f\xe8\x21\xf3\x55\xb8\x90\x7d\x2b\x81\xc0\xcc\x60\xdd\x46\x52\x85\x83\x89\xba\x04\xc1\x0d\xf8\x54\xcd\x07\xe4\xc0\x3c\x4a\x88\x4e\x1b\x85\xa2\xb3\xb0\x53\x65\x4a\x95\x55\x9e\xc0\xd4\x71\xc6\x88\xe0\x02\xa6\x29\x73\xb4\x98\x42\x8d\x6c\x30\xa6\xe9\xb4\x08\x7a\x3b\x1e\xbd\x4d\xcc\xfc\xe4\x12\x2c\x40\xdd\x83\x4d\x40\x25\x09\x6e\x6f\x01\x45\xb0\x10\x3f\x8f\xc4\xd1\xb1\x30\x6d\x5e\xf0\x92\xb1\x58\xfe\x3c\x52\x7d\xf4\x28\x02\xfe\xe8\xa9\x06\xfa\x25\x80\x62\xc1\xc5\xd6\xa5\xc1\x68\xfb\x10\xc8\xc0\xc0\x89\xb6\x8b\x2f\x9c\x41\xbd\x45\x79\x2d\x94\x95\x86\x62\x17\xff\x9d\x22\xc3\x1c\xdc\xde\x7e\x9d\x62\x1b\x80\x1c\xbc\x61\x13\xf4\x0c\x88\xa1\xfa\xf9\xc2\x6b\xb4\x60\xc3\xd4\x69\x32\x65\x01\xe7\x23\xb5\xb4\xdd\x4a\xef\x10\x51\x19\x74\xcc\x1c\x91\xc1\xc1\xfd\xf1\x08\x15\x01\xb4\xfc\xec\x58\x24\x51\x8c\x10\x46\x6a\xbd\xe0\x27\x01\x19\x8f\xee\xc6\xfa\x9d\x86\x1e\x6c\xc5\xc9\x9f\x22\x00\x20\xa2\x26\x27\x12\xf3\x05\x6e\x33\x97\xa2\xb4\x91\x3f\x07\x31\x82\x14\xbd\xc3\xc6\x87\xc2\xa5\x32\x7c\xea\x23\x34\xc2\xea\x9a\x59\x81\x44\x77\xba\xb9\x6c\xe2\xb7\x97\x9b\x69\x46\x93\x43\xb0\xdd\xab\xa4\x1d\x03\xb3\xa3\x6e\x71\x59\x8c\x8b\xe0\xbc\x66\xb2\xdb\xe5\x00\xd8\x1f\x71\x22\x0a\x42\x8b\x6e\xad\xd5\x86\x2e\x97\x66\xed\x8a\xa0\xc1\x40\x84\x0a\xb6\x69\xaf\x5a\x7b\xd9\x70\xdd\xf4\xdb\x4b\x5e\x8e\xd1\xdd\x98\x89\xcc\x6b\xe2\xae\x0d\x2a\xc7\xc7\x71\x7c\x72\xbd\x90\x59\x49\x7a\xaa\x60\x11\x6b\x28\x45\x1a\x0a\x5d\x16\xb5\x37\xed\x66\xa5\x65\x24\xd9\xd4\xe1\x17\x04\x2f\xa2\x25\x88\xed\x2b\xd0\xef\xe4\x05\xbe\x2d\xb4\x5f\x88\x4e\x50\x96\xc5\x37\x28\x62\x50\x6c\x96\x08\x7c\x63\x5a\x93\x5e\x90\xb0\x6c\x37\x66\xd9\x70\xbf\xa0\x04\x29\xb4\xd4\x00\x78\xaf\x32\xd4\x1a\x28\x39\xa7\x8e\xe0\x5a\x80\x1c\x9a\x4b\xd2\x35\x20\x46\xa1\x1b\xf8\xb0\x09\x92\x1d\x60\xc2\x7b\x79\xbd\x88\xab\x25\x7c\x21\x2f\x70\x2e\x11\x05\xd6\xcd\xcb\xa0\x45\x0d\xcf\xe2\x34\x15\x93\xd3\x32\x2c\xab\x62\x02\x4f\xaf\xa1\xd7\xc4\x37\xfb\xfe\xc0\xd9\xf8\x7d\xfd\x45\x07\x55\xa6\x16\x9b\x20\x08\xd8\xe1\x22\xe6\x89\x12\xf5\x1a\x58\x61\x13\x66\xef\xf8\xd3\x7b\x26\xff\xed\x1d\xae\x7a\x73\xc3\x74\x49\xbe\xd1\x68\xe2\xb0\xd1\x04\x1c\xec\xbb\xa9\xea\xaa\xcc\x48\xe0\x80\x11\xae\xc6\x07\x44\x85\xd8\x95\x40\x1a\xb4\x6e\x99\xe3\xe0\x73\x7a\x81\x9f\x35\x62\xef\xe4\xf5\xfb\x2f\xc5\x67\xf0\x92\x38\x30\x0b\x93\x68\xe1\x59\x0b\x6f\xe5\x4d\x4e\x34\x08\xb3\x82\x0f\xbf\x28\x1e\x8a\x65\x0a\xab\x9b\xa4\x25\x0c\x01\xca\xf7\x4b\x58\x4f\xe9\x2e\xbc\xe1\x1d\x32\xe9\x11\x29\xdf\x57\xfc\xbc\x94\xb1\x2c\xa5\xa7\x31\xa0\x6f\x76\x02\xf0\xda\xa2\x6f\xc8\xb7\x3b\xa1\x60\x92\x08\xe2\xf8\x58\xd4\x48\xc6\xd3\x1b\x75\x8a\x52\x30\x2f\x2d\xe6\x5e\x67\x13\xc4\x9d\x90\xaf\x91\x9c\xb7\xdd\xb7\xe1\x1c\x66\xb4\xb4\xdc\xc0\x21\x94\x73\x59\x6a\xde\x45\x7e\x37\xd4\x23\x16\xbe\x5a\xcb\xc4\x7c\x4d\x1d\x76\x55\xc0\x98\xeb\xa6\xbc\xcb\xd4\x46\xa8\xb8\xb1\xe0\xb8\x4c\xc8\xc1\x1d\xb0\x8b\xc0\xa8\x81\x7f\xc8\xcc\x72\xb8\xf4\x6a\x1d\xc1\xce\xc7\xae\x05\x0c\xdd\x81\x82\xd2\xe4\xaa\xb7\xb6\x63\xd2\x5c\xe9\xf1\xf6\xac\x48\xb8\x32\x03\x4f\xdb\x52\xb8\x43\x30\x8f\xfb\xe6\x75\x6f\xd9\xd4\x42\x6a\xaa\xe6\x49\x14\xcf\xe5\x42\x46\x97\x6c\xf1\xd1\x14\x01\x98\x3b\xef\x00\x4c\x15\x69\xc0\x38\x50\xe8\x83\x36\x44\xcd\xbe\x47\x44\x91\x23\x97\xe0\x23\x46\x31\x19\x8d\x7a\x3b\x51\x30\x47\x19\xbb\x61\x1c\x95\x37\xc1\x90\x08\xa9\xcd\xdd\x95\x24\x7b\x53\xf4\xff\xe5\xcc\xff\x1d\x39\x53\xeb\x36\x15\x7b\x89\x9d\xdd\x03\x14\xbb\xba\x9e\x5f\xbf\x79\xfd\x94\x2d\xac\xbd\x7d\x4f\x34\xe3\x9c\xee\x18\xae\x2d\xac\x31\x60\xf5\x79\x78\x09\xdb\x08\x1c\x36\xc9\x6e\xc3\x39\x74\x11\x3d\xce\x40\x60\x0d\x44\x0b\xd9\xb3\xa0\x1c\xf7\x24\xcd\xd8\xb5\x85\xfd\x50\x8b\xc5\x04\xdc\x89\x4d\x0b\xbf\x6f\x20\x5c\xae\xc2\x69\x58\xe0\x82\xbf\x7b\xdf\x0f\x09\x97\xb7\xeb\xeb\x13\x09\x4c\x25\x3d\xc4\xf6\x85\x8a\x29\x9d\xa5\xca\xfa\xf4\xa7\x64\x80\xd7\xc7\x39\x46\xc3\x09\x66\xe4\xd5\x5e\x9b\xf9\xc0\x74\x7c\x0a\x74\xdc\xde\x8a\xb3\xf4\xdb\xf4\x0a\x70\xad\xcd\x80\x22\x3b\xca\x34\x7c\x80\x18\x31\x1e\xb7\xe8\x26\x6d\xe5\xde\xdb\x5b\x0d\xd3\xb0\xdc\x91\xa8\x4f\xcb\x84\x68\x3c\xe4\x41\xbb\xcb\x3a\xb8\x14\x45\xc4\xe8\x19\x45\xca\x71\xfe\x4e\x0b\x65\x1d\x53\x83\x93\xa4\xb3\x81\xf2\x75\xb0\x45\x8d\x12\x40\x00\x7c\x89\xb4\xeb\xd0\xb9\x76\xc2\x4d\xd7\xd9\x18\xe7\xdd\xeb\x6d\x0c\x7d\xd6\x72\x0e\x9c\x3f\x80\xbb\xda\x22\x32\x78\xab\x75\x2a\xab\x78\x88\x63\xd0\x2b\x37\x4b\x05\x2a\x50\x52\x39\x38\x62\x54\x43\xa3\xb6\xfb\x4c\x77\x74\x7b\x0b\x71\x60\x87\xf2\x85\xeb\xe5\x0c\xf9\xbf\xe8\x1e\xfd\xb4\x0e\xf0\x07\x04\x9a\xd5\x5c\xa8\x16\x25\x79\xdb\x21\x37\xb9\x4e\xd5\x9e\x9e\x70\x76\x4f\x27\x58\x51\x98\x59\x7e\x3b\x79\xa1\xc7\xd0\xee\xc0\x58\x56\x28\xea\x31\xe2\x80\x3b\xa8\x16\x5f\xe1\xfa\x50\x9c\x08\xa3\xaa\x32\x47\x61\x4a\xbb\x80\x45\x68\x9b\xcd\xb4\xb7\x4b\x01\x34\xb0\x1b\xf3\xc3\x65\xba\x09\xc1\x85\x1a\x68\x1c\x88\xd7\x79\xb4\x09\xf3\x28\xbe\xd1\xe1\x2d\x37\x16\xc6\x4c\x32\x34\x0f\xef\x43\x9b\x39\x70\x2e\xf0\xb9\xe1\x76\x37\xbd\x6d\x13\xf8\x20\x47\x5b\xf5\xd9\xc5\xd1\x36\x2b\xf9\x71\x60\x99\x58\xf0\xec\xb4\x4c\x83\x32\xaa\x73\x9d\xb8\x87\x6e\xd2\xb7\x50\xdb\x97\x40\xa7\x2a\x53\xab\x19\xbb\x9a\x81\xab\xbd\xd3\x3a\x0d\x4e\xa4\x6b\xa1\xba\x22\x21\x43\x2b\x55\x64\x1c\x13\xd9\x39\x98\x54\x0b\x40\x75\xad\xd6\x37\x32\xc6\xb0\xfa\x98\x27\xd0\xa9\x48\xbb\x05\xd0\x66\x29\x74\x1a\x27\x78\xf1\xcc\x6f\x36\x40\x7c\x51\x8c\x5e\x4c\xc5\xa5\xb5\xf8\x36\xc6\x54\xbd\xac\x85\x60\x28\x1b\x2d\xc5\x85\xbc\xa1\xe5\x5e\xa2\x51\x38\x4f\xc1\xff\x00\x1a\xeb\x51\x54\x1e\x57\x78\x17\xbe\x72\x3f\xb0\x29\x38\x20\x31\xae\x97\x82\x12\x2a\xa7\x8b\xc2\xad\x4f\xc3\x24\x05\x83\x37\x8c\xbf\x91\xe1\x52\xe6\xbf\x00\xe8\xca\x37\xc1\x81\x8a\x54\x05\x81\x4b\xe5\xea\x69\x10\x8b\x85\xd4\xb1\x0f\x09\x3e\x10\xf0\x02\x8f\x8c\xdf\x91\x14\xc7\x66\xae\xdf\xc3\x67\xca\x43\xb0\x34\xc4\xb9\xbe\x7b\xf4\xde\xdf\xda\xb0\x07\x3b\x98\x99\x85\xa0\xac\x7e\xb5\x7c\xd0\x8d\x74\xd4\x1e\x76\x25\x47\x9a\xf7\xb6\x2b\xc1\x02\x71\x7a\xf3\xf0\x94\x75\x50\xa1\x23\x31\x0f\x17\x17\x5c\xda\xa0\xf6\x0c\x87\xe8\x71\xae\x89\x24\xdf\x2c\x10\xcf\x49\xbc\xaa\x60\xbf\x62\xd7\x68\x1e\xa1\xcf\xa6\x97\x40\xc5\xb2\x61\xeb\x2d\xa3\x30\xe6\x80\x77\x1c\x02\xdf\x03\xbc\x14\xc3\xb0\xd4\xc8\xc2\x64\x06\xad\x61\xe7\xe1\x67\x56\x9f\x01\xbf\x01\xe6\x4b\x06\x8c\x53\x6e\xa4\x8d\x53\xaf\xc7\xc8\x70\xb7\x1c\x5a\x08\xcd\x58\xeb\xc8\x79\x9b\x5d\x9c\xd3\xf6\x53\x21\xd7\x7a\x91\xc5\xa8\xed\xd5\x74\xc7\x65\x47\x98\xe7\xeb\x10\x3d\xc6\x85\x69\x3b\xf9\xa3\xdb\x6e\x83\xd2\xf1\x7a\x5a\x96\xa5\xa2\x1a\xb1\x27\x12\x4a\x7b\x9e\x6a\x12\xa0\xde\xbb\x22\xc0\x93\x69\xcb\x43\x1d\xb2\x2c\xad\xe9\xd9\xa3\xb5\x1c\xd3\x73\x8b\xf4\x62\x37\x78\x94\xd6\x4d\x53\x43\x03\x8f\xfc\x4a\x02\xa3\xec\x54\xfb\x64\x44\x9c\xde\x40\xc6\x77\xd9\x6a\xaa\x8b\x43\x05\xaa\x45\xd3\x23\xcc\x7b\x0c\xd0\x7c\x6a\xc7\x1d\xdd\x69\x61\x8b\x3b\x00\x69\x20\xd4\x8e\xfa\x74\xf3\x65\x40\x2f\x6a\xfb\x65\x58\x2f\x0e\x6b\xba\x5d\xcd\x17\xa5\x83\x7a\xf4\x22\x0b\x85\x61\xfb\xa5\x5f\x2f\xb2\x31\x82\xc8\xec\xa8\x18\xb1\xa9\x31\x62\x50\x5d\xef\xa5\x1a\x33\x0c\x81\xb7\x75\xa3\xbb\x6c\x9f\x6e\xce\xf4\x5b\x9d\xda\x9a\x19\xb4\x3a\x77\xb4\x27\xb7\xda\x32\x83\x56\x67\x6d\xd5\x86\xe6\xd1\x6d\xcc\x74\x25\x7b\x86\xad\xce\x3d\xd2\x3b\xc3\x56\xa7\xc2\x82\x94\x6c\x71\x96\xba\x86\x0c\xd3\xbc\x4b\x13\x38\x24\xe7\x29\x0f\x40\xf1\xc0\x66\x28\xc4\xbb\xf7\x3a\xfc\xb7\x05\xde\x4e\xe9\x31\x30\x87\x0e\xb6\x19\x51\xa4\x1b\xb2\x30\xca\xed\xe0\xf0\x52\x05\x03\x2f\xac\x69\x45\xe8\xdd\xaa\x18\xd9\xa5\x0e\x04\xc2\xb0\x01\x1b\x1e\x17\x7e\xa0\x82\x9e\xfe\x97\x42\x07\x04\x47\x0c\xd8\x44\x45\xe8\x27\x1b\x32\x26\x08\x86\x42\x14\x61\x72\x53\xd7\x6a\x3b\x00\xfc\x8f\xad\x15\xf8\x73\x90\x81\x1e\xbc\x9b\xda\x57\xaf\xb1\x0f\x43\xc5\xd0\x8a\xaf\xc1\x39\x56\x8d\x8a\xac\xf1\x4a\xee\x6a\xdf\x7c\x73\x76\xf6\xfa\x3e\x71\x33\x4a\xda\x33\x95\x13\x62\x2f\xc0\x7f\x82\xa9\x34\xb0\xc3\x50\xc9\x50\xe5\xdf\x97\x62\xb1\x0e\xf3\x42\x96\xc7\x55\xb9\x3a\xfc\xd9\xc4\x84\xdb\x70\x54\x15\x3a\xb0\x86\x91\x58\xab\x37\xb4\x67\xb7\x87\xe1\x10\x58\x9a\x88\x2c\x97\x4b\xb9\x8a\x12\xb0\xa4\xb0\xc2\xa2\x70\x62\x6f\xce\x30\x5b\x83\x6f\xf5\x02\x9f\x7a\xf0\xcd\x2d\xfd\xd0\xb6\x0c\xac\x63\x40\xf0\xc9\xec\xaf\x45\xa7\x3a\x02\x72\xfd\xd0\x69\xfd\xbb\x3e\xab\x88\x1c\x8f\x81\x76\x6d\x51\x0b\xc8\x75\x77\x3a\x41\xb1\xc0\xe2\x06\xa6\xec\xfc\xe8\xef\xf2\x78\x05\x62\xc5\x6b\x7e\x29\x9f\xda\xa5\xf5\x9c\x65\xf6\x09\x50\x7b\x96\x3b\x85\x03\x55\x94\x88\x42\x7f\x1b\x0a\xf5\x57\xd7\x68\x4e\xbd\x49\x2b\xc4\xc1\x1f\x3b\x16\x85\xca\x66\xa0\x6e\xe8\x21\xb3\x69\x3a\xc7\xba\x91\xe4\x9c\xac\x42\xee\x16\x3c\xe1\x57\x2a\xd6\xbd\xd1\xfd\x28\x68\xad\x9a\x63\x85\xef\x5c\xfc\x9d\x38\x4b\xdf\x62\x3d\x14\x18\x63\x3e\xec\xb2\x72\x5d\x6b\x83\x2f\xce\xe4\x26\x8b\xa9\x0c\x18\x5a\x68\x76\xea\xa9\x07\xf3\x38\x7a\xee\x46\x1b\x15\x46\x1d\x21\x47\x65\xd7\xe1\xf4\x9c\x21\x29\xdb\x52\xb7\xff\x94\x85\x88\x0d\xbf\xe6\xa4\x59\xcd\xf8\xeb\x0c\x3c\x8e\x48\x46\x34\x2a\x11\xd5\xa3\x12\x1a\x1b\x5d\x60\xe2\xf0\x09\x67\xe7\x38\x14\x49\xfc\xa3\xf3\x6c\x7a\xc4\xef\xf1\x3b\x58\xf6\xe0\xb5\xc0\xb6\x0b\xab\xb8\x44\x6d\xc7\x0c\x82\xc0\x28\x2c\x09\x1b\xb6\x29\x0b\xc0\x2f\x01\x47\x74\x49\x5e\x0b\xfe\x66\xb3\x1f\xdd\xc7\x09\x8d\x33\x31\x1e\xe7\x25\xd5\xa3\x01\x28\x7a\x1f\x10\x76\x9e\xcf\x7e\x0d\xc8\x03\xca\x7d\x0b\x44\x16\x41\xfd\xe5\xa3\x47\xe0\x24\xad\x1c\x7c\x9d\x78\x2a\xef\x1b\xc0\x96\x10\x83\x16\x59\x9e\x5e\x46\xe8\x12\xaf\x79\x47\x71\xde\x6d\x2e\x19\x5b\x4e\x4f\x62\x3b\x6b\x93\xb9\xa0\xa9\x6e\xcb\x42\xc7\x59\x04\x2f\x40\xbe\xad\x43\x2a\x09\xd3\xf8\x6f\xf8\x15\x72\x64\x51\x81\x0b\x2c\x97\x05\xfb\x60\x3f\x3f\x7d\xf5\x52\x55\x68\x2f\x75\x39\xb5\xc9\xf1\x11\xee\x1a\x1d\x4c\x95\xf6\x4f\x8b\xd3\xff\x58\x20\x9f\x4f\xb5\x6b\x68\x66\x66\x3f\xd6\xa0\x81\x2d\x51\x94\x30\x69\x4d\x33\x16\x92\xae\x84\xe8\x32\x44\x4c\x25\xc9\x54\x5c\xb1\x14\xac\xb3\x01\x19\x20\xb8\xaa\x53\xf1\x01\xb7\x9f\x4b\x12\x16\x3f\xdf\x73\xb5\xe1\x2d\xad\xe2\x11\x02\xd3\x0b\x7a\xc7\xf1\xce\x8d\x25\x20\x2b\x5a\x6c\xe2\xd5\x69\x6b\xf5\x6c\xc4\xcc\xf3\x84\x86\x54\x5d\x4f\x38\xcc\x6a\x00\xe9\x7e\x48\x6e\x0f\xba\x3a\xcd\x8e\x1d\x9d\x4b\xcc\x78\x6c\xc0\xe9\x40\xc1\xe8\x2a\x60\xb6\xf1\x7c\x14\x83\xde\x44\x09\xc2\x43\x94\x7e\x93\xa9\xab\xf2\x78\x02\x6b\xcd\x64\x2e\xfe\x75\xf1\xa0\xf9\xd0\xce\x83\x02\x3a\xd6\xe4\xd0\x30\x54\xcb\xc2\xe3\xca\x9d\x26\x2e\x60\x4d\xb4\x5b\x06\x5f\xe3\x17\xdf\x44\x3a\x46\xb4\x35\x8e\xb8\x64\x35\x60\x76\x78\x8e\xa6\x63\x12\xc6\x8e\x92\x20\xdc\x8b\xc5\x00\xd6\x0e\x9b\x59\xc4\x09\xf8\x31\x74\x74\x3e\x2b\xf7\xf1\x2a\x20\xa6\x50\x18\x63\x43\xdf\xbc\xf4\x90\xda\x3e\xca\x1b\xcb\x77\x2c\xfd\x72\x0f\xcb\x5f\xdf\xbd\xc7\x2a\x5c\x5f\xf1\xfa\x2d\xfb\xf1\x57\xc2\x65\x21\x13\x1d\xd7\x7c\xf6\x36\x51\x2b\x8b\x10\xa6\xe2\xc1\x15\x60\xd9\x88\x9e\xb3\x95\x52\x44\xbf\x41\x9c\x7f\xf6\xe7\x7f\xfd\x57\xcc\x42\xb1\x4c\xb0\x8f\x2f\xfe\x86\xbf\x31\x3f\x00\x1a\xc7\x02\xfe\x7e\x77\x84\x2f\xdf\xd7\xab\x97\x30\xd5\x4b\x74\x5b\x79\x13\x13\x6b\x24\x16\xc2\x2c\xef\x11\x06\xbe\x30\xc9\x9b\xa1\xb9\x23\x92\x34\x39\x24\x19\xa7\x0d\x79\x6c\x08\xbc\x83\x63\xd6\x82\x51\xaa\x2a\x18\xd4\x87\x77\xc5\xe0\x89\x46\x24\x43\xdd\xb9\x3b\xc9\x1d\x6a\x25\xd8\xfe\x14\xbf\xc2\x51\x8e\x94\x00\xfd\x95\x12\xe7\xb8\x8a\xaa\x15\x88\xdf\x62\x15\x29\x71\xae\xb9\x90\x04\x95\xb3\xb8\xd6\xcd\xc0\x12\x4f\x12\x26\xea\xb0\xcb\x2e\xc5\xdc\xaa\xdc\xc2\x19\xd4\xa0\xca\x42\x73\x54\x58\x89\x44\xf1\x16\x2d\x7b\xe1\x8f\x93\xea\x37\x26\xb9\xe6\x11\x6f\x6d\x81\xfa\xc2\xe5\x36\x51\x2f\x9a\x5b\x07\x76\x84\x9e\xde\x76\x5b\xb1\x29\x47\x3f\x6b\x20\x14\x52\xe3\xc1\x04\xc9\x56\x9b\xc4\x09\x52\x6d\x31\x4a\x4c\x50\x62\x50\xfb\x37\x9d\x5c\xc2\xbe\x3b\xb5\x42\x20\xf9\xb8\x0f\xf6\x41\xe1\x77\xa8\x74\x8d\xeb\xbf\x5a\xc3\x26\x47\xff\xb4\xe1\xf2\x52\x29\x1a\xf1\x0a\x60\xa5\xdf\x12\x64\xe4\xe0\x6d\x91\xfb\x91\x13\xa2\x18\x9c\x56\xa7\xcf\x2b\x0e\x94\x82\xa1\x26\xfd\xfe\xee\x08\xcc\x0e\x74\x1b\x02\x94\xda\x01\x15\xdc\x7b\xbe\xf2\xee\xd0\x17\xb6\xee\x6f\x63\xae\x8e\x2f\x4c\x66\x21\x49\x0d\x25\x50\x54\x05\xff\x1b\xe0\x82\xc7\x71\xec\x31\xf0\xdd\xaa\x1c\x75\x59\xff\x0a\x15\xde\x54\x4c\x94\x24\xc8\x51\xd9\x6a\x83\x07\x67\xa6\xc9\x39\xd1\xf5\x1d\x75\x41\xf4\x88\x81\x57\x5a\xa8\xa1\xab\x01\x88\x99\x63\x2c\x56\xdc\x29\x3b\x8f\xdd\x4e\xc0\x36\xbd\x82\x09\x96\x51\x18\x63\x54\x0d\x36\x9f\x32\x0a\x9f\x45\xc5\x22\xcc\x97\x6f\x13\x3a\x75\x73\x64\xbf\xe8\xf2\x0f\x9c\xd7\xb1\x70\x07\x6c\x89\x54\xcc\x4a\xb6\x84\x6a\xb7\x58\xed\x17\xac\x9d\xa2\x55\xa1\x51\x23\xa6\xd9\xb0\xb7\x1d\x64\x75\x45\xe9\xbe\x32\x97\x09\x32\x72\x14\xe2\x93\x70\x59\x33\xb0\x47\x88\x80\x45\xcb\x78\xeb\xe8\x51\x02\x75\xc3\x4d\xa1\xdd\x95\xef\x60\x34\x2f\xc7\x35\xc4\x63\x1d\xf6\x3b\xb6\x06\x80\xf9\x8d\x6d\x0e\xf4\x7c\xf3\x6d\xf0\x4b\x7c\xe9\xe9\x0e\x4e\x93\xb1\xeb\xc3\x70\xf5\x18\x0a\x0b\xcd\xb5\x74\x02\xa3\xd0\xc1\x6f\x20\x6e\xa2\x9b\x05\xdf\xa6\x6c\x58\x8b\x09\x4d\x92\xdb\x60\x9c\x95\x3f\x83\x8f\x40\x83\x9a\xd5\x44\xef\xa6\x3b\xbc\x3b\x8c\xc2\xab\x44\xa6\xab\x16\x1e\xb0\xc7\x5a\x78\xd0\xb4\x3e\x05\x11\xc3\x09\x0f\x28\x2c\xa5\x53\xdd\xda\x63\x3c\x6c\x94\x0a\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\xc9\xf2\xb1\xd0\xde\x81\xd1\xeb\x61\xc1\xb6\x7a\xc3\x1b\x60\xdf\x28\xdf\x23\x81\xd9\x81\x60\x97\xec\xeb\xb4\xad\xfb\x72\x9a\xc6\x44\xea\x13\x14\x2f\x5a\x62\xa2\x29\x24\x8c\x2c\x78\x5b\xc8\xd7\xd8\x0f\xe5\x65\x71\x54\xff\x70\x92\x54\x9b\x97\xd5\x66\x0e\x5a\xf1\xc8\x7e\x38\xd9\x44\xe5\xdb\x24\x4b\xb3\x0a\x5d\xe2\xa5\x11\x2b\xb0\x56\xae\x3c\x75\x64\x8a\x76\x07\x6c\xae\x95\x50\x05\xb5\x59\x14\x60\x64\xf8\x43\x65\x0f\x9a\x0d\x3e\x4c\x95\xb4\x32\xe6\x24\x59\x52\x4e\x2b\x37\x07\x6b\x0f\x0c\x29\x63\xa0\x2b\x86\xd2\x53\x0c\xd2\xd4\x42\x7d\xc9\x58\x6b\xbb\xe7\x8e\x39\x31\x98\x7e\x25\x25\xd0\x4a\xbd\xae\x81\xd9\xd6\xe1\x92\xfb\xf6\x25\x5b\x29\xc5\xb7\xc4\x68\x57\xc4\x05\xe8\xa6\x5e\xce\x39\xfb\x8b\x9e\x20\x41\x51\x07\x66\x03\xad\xf4\x4d\x8e\x17\x99\x19\xa3\xad\xad\x4c\x70\x2d\x99\xcb\x40\xea\x19\xdd\xc1\x5c\xee\xb6\x54\xae\xa6\x90\xe3\xa9\x0c\x76\x69\xe0\x4f\xc9\xdc\x36\x0c\x14\x5e\x48\xee\x0a\xe4\xa2\x39\x63\xb5\x58\xe3\x9a\x04\xf4\x25\x8c\x8b\x14\x97\x40\xed\x61\xd6\x0a\x55\x1e\x8f\x87\x47\xd7\x9a\xe6\x10\x4f\x22\x4f\x95\x10\xc7\x38\x90\xbf\xad\xa3\x59\x15\xac\xcc\x47\x9e\x43\x21\x32\xf1\xef\x9d\x7b\x46\x10\xf7\xcf\x3d\x3b\xbd\x6d\x88\xb5\x23\xf5\x9c\xb0\xb1\xc7\xd2\x4b\xc4\xd1\x25\x9d\x85\x28\x15\xd5\x36\x69\x49\xf1\x05\x0c\x1f\x84\x09\x1e\xe4\xfa\x1e\xab\x65\x33\x3e\x32\xc6\xef\xf8\x18\x19\x58\x5c\x64\x3e\xda\x41\x96\x60\x81\xa4\x74\x78\xa2\xb8\x29\x4a\xb9\x99\x22\x73\x01\xac\x38\xba\x90\xb1\x49\x5f\x53\x14\x64\xb2\x4e\x8b\xf2\x88\x68\x67\xf3\xd3\x76\x06\x9e\x19\x4a\x57\x1b\xf7\x46\x6e\xf7\xcf\x4c\x83\xf4\xf9\x4c\xb3\xdc\x37\x61\xf1\x3a\x97\xab\xe8\xda\x8c\x08\x4b\x49\x67\x56\xd9\xf6\x34\x78\x1c\xf3\xeb\xa3\xd9\x6c\x22\xfe\xcc\x50\x82\x84\x55\x65\xa4\x20\x70\x10\x1a\x9f\x85\x34\xd0\x76\xae\xf1\x42\x5b\xa1\x1a\xab\xa3\xbc\x68\xe5\x74\x78\x1c\x2a\xbf\xca\xb5\xc8\x93\x97\x29\x2f\xa4\x13\xde\xe6\xea\x7b\xe6\x01\x0a\x06\x21\xa0\xab\x34\x87\x3d\xc9\x21\x73\xa1\x34\x3d\x3a\x7e\x78\x28\x2f\x67\x35\xc2\x5f\x23\x24\xe1\xc4\x77\x23\x87\x7b\xc6\x67\x31\x48\xde\x74\x7e\x14\xd2\xf8\x95\x13\xff\x8e\xa3\x04\x4f\xf2\xba\xdd\xe3\x91\xee\xa3\xb2\xfb\x4d\xaf\x62\x28\xb9\x8f\x23\xb1\x85\x37\xd0\xaf\xe3\x78\xaf\x93\xe1\x57\x39\xfb\xde\xb0\xb1\xb2\x20\xc1\x2a\xce\x6e\x40\x56\x78\xb0\xfe\x6e\xfb\x27\x21\x28\x59\x10\x1f\x18\x3e\xd6\x4d\xad\x75\xb0\x25\xf0\xdb\x88\x11\xd7\x62\xc9\xf5\x18\x70\x33\xbb\x3f\x6a\x26\xf8\xb5\x6d\xeb\xc4\x81\xbb\xc3\xc3\xc3\x99\xfe\xc1\x75\x37\x19\xff\x9f\x7c\xe5\xfb\x02\xe9\xaa\x92\xa0\x6f\x69\xa7\x4d\x6b\xb3\x2b\x1c\x6e\x2b\x0c\x48\xf2\xe8\x75\x9c\xc3\xc2\x89\x03\xdc\xc3\xf0\x6b\x4a\xa6\xbe\xd0\x39\x4b\xfd\x1a\xf7\x6f\x82\x76\x01\xcc\xe1\x00\x3b\xf0\x4f\xd2\x17\xca\x3d\xb0\x55\xce\xf8\x45\x19\x2a\x4f\xcb\x6b\x9d\x1a\x3d\x45\xfb\x76\x41\x75\xf0\x55\xae\x42\x35\x64\x2a\xa8\x8d\x0b\xdb\x11\x8c\xad\x98\x0f\x9d\xb1\x9e\x03\xc9\x4d\x49\x4a\x70\x5a\x41\x8a\x6a\xf3\x55\xa9\x25\x8e\x93\xb3\xda\xdb\x68\x13\xd6\x75\x40\xd1\x56\x50\xe1\x8e\x40\x88\x97\x69\xa9\xce\xf0\x22\x48\x84\x45\x92\x62\x1d\x5e\x82\x4f\xa5\xee\xe6\x18\x36\x49\x68\x9c\x39\x65\xab\xd4\x31\x36\x3a\xb1\x83\x92\x5f\xa3\x86\x27\xa2\x55\x7c\x3c\xd4\x05\x4d\x2c\xf8\xe1\xe1\xc6\x46\xe1\x4d\x85\xbd\x73\xc8\x0e\xeb\x98\x94\xc2\x55\xa9\xe5\x3a\xed\x38\x9d\xec\x1c\x27\xe9\xd7\x07\x6e\xc4\xa7\xa3\x91\xca\xb8\x0d\x1c\xc2\xdc\xc1\x3a\xfc\xc9\x12\xca\xc6\xe2\x51\x91\x5f\x37\x8f\xdc\xc8\xfb\x52\xd0\x90\xec\x5f\x54\x00\x3d\xe5\x31\x5b\x05\x76\x33\x24\xd5\x29\x6c\x06\x23\x52\x4d\xff\x4a\x85\xa3\xd8\x1a\x6b\x86\xa4\x74\x94\x46\x0d\xe3\x16\x96\xb8\x15\xa5\xcd\x90\x94\x13\x7a\x65\x33\x4f\x65\x49\xcc\x97\x35\x9d\xce\xc0\x70\xc0\x5f\x3c\x7a\xe4\xa6\x8b\xc0\xcf\x52\x39\x11\xf2\xa7\x32\x20\x21\xa3\x89\x1d\x12\x82\xc5\xbe\x15\x6d\xa0\xb2\xc4\x5b\x16\xa8\xaa\x8e\x66\xe1\xee\x3f\x15\xc0\x06\x33\x9a\x5c\x18\x8b\xa3\x46\x62\x6b\xc8\x4c\x97\x87\x74\x84\xcc\x3a\xc9\x3e\x1c\x31\xe3\x36\xfb\x87\xcc\xf6\x89\x80\x1d\xd3\x85\x16\x27\xaf\xbe\xea\x0d\x82\x61\x14\xdb\xc6\xc6\x49\xe2\x50\xb0\x86\x6e\xab\x70\xa3\x5e\x3b\x06\xd4\x3a\xe2\x69\x06\xe8\xc4\x77\xea\x29\x72\x27\x17\x81\x80\x9d\x38\xcf\xab\x5f\x6c\x8f\xd9\xd5\x32\x11\xe0\x6a\x4c\x1c\x9e\x39\x12\x0f\xbf\x58\x3e\x24\x37\xc0\x8e\x61\xc6\xe6\x90\x63\x91\x6d\xe3\xe6\xf1\xde\x71\xbd\xde\xb0\x5e\x5f\x54\xcf\x21\xed\xd6\x98\x5e\x91\x75\x04\xf5\x5a\x14\x72\x89\xd2\xa8\x36\x79\x60\x6b\xa0\x47\x8d\x22\x68\x47\x00\x35\x0b\xbd\x76\x88\x9e\x6f\x8f\x9d\xb3\x41\x50\x8b\x00\xed\x17\x3d\x6f\x95\x88\x8d\x8d\xb7\xab\xc2\x41\xd0\x67\xe7\x80\x39\xdd\x37\xc1\x49\xeb\x1c\x76\x50\x21\x70\x20\x72\x4c\x40\x2f\x8f\x94\xf6\xab\x29\x5f\x0f\x6d\x82\x29\xc7\x01\x39\x67\x4c\xa9\x31\x2d\x0a\x76\x98\xd6\x0e\xd1\xf3\x9e\x12\x32\x13\x3a\xc2\x4b\xa3\x2e\xc3\x18\x09\x3c\x99\xa8\xc8\x24\xbf\x1a\xbe\x2f\x60\x28\xa2\xae\x23\x9c\xd0\x8f\x58\xc5\x55\x5f\xbd\xae\x71\xb3\x5d\xbf\xef\xcd\x51\x89\x53\xc9\x8e\x29\x19\x63\x19\x86\x51\x65\x89\x69\x1b\x8e\xd4\xd2\x69\x1b\xe5\xc9\x51\x0d\x95\x4e\x2a\x35\x8e\x45\x16\x5c\x09\x5d\x8b\x75\xe2\x28\xa7\xfc\xde\x04\x3b\x75\xc3\xbb\xe6\x29\x52\x34\x19\x27\x33\xc2\xbf\xcb\xdb\xcb\x38\x5a\x30\x20\xeb\xba\xf2\x06\x69\x15\x2f\x93\x87\xa5\xdd\xbd\x3c\xcb\x2f\x3e\x4e\xd8\xf8\xd4\x12\x94\xa9\xf2\x26\xbc\x52\x46\x66\xa5\x9f\xcd\x37\xf3\x81\xde\xd6\x29\x47\x8c\x57\x27\x1d\x15\x5c\x74\x46\xac\x51\xc0\x95\x9b\x4c\xa5\x67\xd5\x02\x97\x78\x8f\x90\x4b\xce\xbe\xd8\xb5\xb0\x95\xdb\xbb\x85\x8d\xa1\x15\x6e\x08\xd5\xec\x8d\xcc\x24\xdd\xfd\xa7\x7e\x3f\x2f\xd0\x95\x32\x12\xd5\x42\xf6\x9e\xea\x5b\xf7\x74\xdc\x39\xa5\x8a\xb4\x89\x5e\xfe\x89\xaf\x7b\xf0\x54\xdf\x4d\x4c\x88\xfa\x97\x26\x1e\xaf\x2a\xb2\xdf\x33\x0b\x07\xa6\xc5\x53\x78\x1f\xdb\x3a\x74\xc5\x07\x71\x61\x7e\x2b\x83\xcf\x39\x9c\xd1\xd7\x5f\xe7\x43\x14\x1a\xc1\xe3\xe5\xd2\x1b\x40\x65\xea\x5c\x55\xe5\x5d\xfa\xec\xc3\x8d\x5c\x2c\x14\x37\x92\x8b\x13\xa3\x71\x56\x23\xe0\xf3\x02\x63\xb8\xfa\x17\xe8\xaf\xfc\xe4\x3a\xcb\x35\xda\xa8\x38\xfb\xf0\xac\x65\x7b\xee\x83\xee\xca\x9b\x7c\xb1\x84\x37\x07\x7d\x43\xd4\x67\x63\xd1\x07\x5a\x7a\xa8\xee\x5b\x6b\xee\x37\xd9\x42\xcf\x03\xd8\x51\x47\x87\x6b\xe5\x27\xbd\x23\x9b\xe9\xb7\xf2\x5a\x5d\xdb\x53\xed\xce\x15\x78\x26\x5c\x1f\xa4\x37\x67\x1f\xfc\x49\x7d\x9d\x94\xa4\xd5\x82\xc9\x03\x74\xfd\xf1\x5e\x54\x65\x08\xbe\x43\x28\xcb\x89\xb3\x83\xdf\xfd\xc7\xdf\xff\xf8\xdb\x7f\xfb\xf1\x5f\xff\xf3\xc7\x7f\xfa\xe1\xf7\xff\xf2\x0f\xff\xf3\x5f\xff\xfd\xbb\xdf\xfe\xe3\x8f\xff\xfe\xc3\xef\x7f\xf8\xe7\x83\x99\x71\x9f\x79\x73\xdd\x8b\x13\x3e\x8d\x11\xbc\x1d\x39\xa0\x31\xb3\x7b\x0c\xb4\x6d\x1c\x1b\x05\x18\xd5\x0a\x11\x1b\xbf\x9a\xe1\x11\x25\xe3\x52\x4c\x85\xf5\x25\xc7\xda\x82\x8e\x9a\xf7\x0b\x3a\x0b\x36\x33\x8a\x88\xbb\xe8\x7a\xca\xda\xba\x99\x4d\xc1\xcd\xeb\xbb\x42\xbd\x6b\x6e\x0b\xf2\x35\x59\xc5\x23\x65\xbe\x96\x25\x10\x47\xb5\x55\xc7\x61\xc1\x0a\xc4\x16\xb0\x05\xec\xa7\xbf\x95\x79\x4a\x5e\xa9\x23\xad\x06\xb7\x58\x27\x60\x5f\xf7\xec\xde\x65\x7b\xef\xb3\xce\x41\x26\x66\x14\x3d\xe5\x81\xcd\xd6\x62\x29\x05\x6c\xcb\x7e\xeb\x61\xcf\x9f\x92\xb8\x3b\xe3\xe5\x2a\x03\xc0\xaf\x85\xa0\xcb\xd2\xbb\x71\xb8\x6b\x4c\xd0\x80\x40\x39\x85\x0e\xdb\xa1\x54\x92\xab\xf9\x3a\x71\x0c\x40\x0a\x82\x4e\xce\x65\xc9\x37\x34\xba\x06\x06\xf9\x7c\x35\xfb\xa2\x4c\xdf\xc8\xf2\xbe\x26\xe5\x2e\x76\xc6\xe1\x96\xec\x74\x3d\x4b\x3e\x3b\x10\xaf\x12\xf0\xc7\x0b\x85\xf0\x8a\x81\x70\x96\xac\x58\xa3\x19\x86\xc1\x28\x15\x82\xe2\xea\x46\xcc\x24\xc5\x31\x01\x48\x31\xf9\x65\x2b\x47\xd3\x4d\x54\xa2\x91\xb2\xac\x28\x0f\x82\xce\x6e\x94\xc8\xa2\x10\x07\x33\x35\x22\x4d\xbf\x5b\xba\x0e\x9b\x1a\xad\xb8\x25\xd3\xda\xe4\xd2\xb7\xa5\x7d\xfb\xf3\xbe\xfd\x89\xdf\xfe\xcc\x6f\x6f\xea\x97\x2f\x2b\x09\xcb\xb0\x99\xfd\xad\x25\x7f\x3f\xde\xdf\x20\x66\xbf\x8c\x19\x2b\xe4\xba\x5b\xf1\xc5\x25\xec\x08\xa2\xac\x35\x8b\x9f\x70\x45\x67\xf3\x36\x4e\x8f\x2f\xf8\x7c\x29\xaf\x9e\x54\xab\x15\xfc\x46\x5c\xdd\xea\x68\xe1\xd6\x1f\x28\xa7\x76\xd4\xbe\xa2\x6c\xeb\xa5\x25\xe6\xc6\xd2\x5d\x13\x7c\x2f\x1f\x9f\x9d\xde\xf3\xd2\x12\xea\x86\xfd\x05\x07\x45\xcd\x6f\x75\x94\x93\x2e\xa3\xe5\x43\x9c\x45\x7e\xc9\xbf\xcd\x0d\x74\xca\x0d\x6c\x5f\x7e\xb7\xeb\x29\xcb\xae\xf3\x92\xa7\xd5\xdc\x30\x00\xe2\x80\x22\xac\x92\xf0\xb6\x58\xe4\xd1\x9c\xef\x8b\x69\x1d\x89\x0c\xea\x97\xc8\x4c\xba\x8f\x4d\xe2\x14\xdc\x96\x7c\x72\xe1\x45\x71\x4e\x93\xf5\xb7\x72\x96\xe2\x10\x74\x5e\xba\x11\x77\x8e\x1b\x3a\x6c\x50\xbf\x86\x11\x0f\x94\x38\x0b\xb6\xeb\x35\x31\xb4\x46\xdb\xaf\x89\xb1\x90\xb7\x9e\x54\xa9\x5d\x87\x1b\x18\x02\x9b\xd3\x2a\xce\x5a\xf7\x5c\x0f\x33\x0c\x41\xd5\x31\xfc\xe9\xdd\x12\x63\xe7\xb5\xeb\x2d\x31\xce\xed\x30\xf5\x39\xe3\x81\x0d\x33\xed\xbd\x6e\x88\xc1\x85\xea\x39\xa6\x6b\xa2\x52\xad\x36\x4e\xa2\xce\xb6\xe8\x3a\xca\xb1\xc7\x15\x32\xce\x2a\x7f\xd2\x15\x32\x0e\x1c\x53\xba\xbb\xd7\x5d\xa6\xa0\x3d\x0e\xfa\x38\xaa\x75\x31\xcc\x9e\x57\x8f\x38\xe1\x71\x26\x6a\xe3\xf0\x64\xf7\x61\xc0\xe2\x5c\x09\x40\x10\x11\xfd\x51\xf1\x76\xc1\x68\xd7\x79\xc9\x81\xb2\x73\x18\x27\x78\x46\x7a\xaf\xbb\x50\x72\xe0\xee\x96\x07\x3b\x5d\xf9\x31\xae\x71\xd4\x96\x4a\x37\x9a\xf0\x0e\x95\x6e\x54\xd9\x96\xce\x7f\x8d\x15\x1c\x2a\x78\x59\x98\xf5\xd2\x57\x74\xbc\x08\x93\x1b\x4e\xd8\xa4\xc4\x18\xea\xff\x51\x40\xd5\x40\x15\x8e\x8d\x59\x13\xba\x18\x19\x93\x7d\x45\x84\xe2\x4e\x1d\x07\xaa\x15\xc0\x75\xe0\xdd\x77\x0b\x0f\x1e\x3c\xd6\xd5\x1d\xd0\xdf\xd5\x60\x5b\x0a\xe1\x34\x9d\x6b\x3c\xc8\xe3\xe3\x14\xdc\x81\xa7\xe6\x8c\xf2\xc2\x82\xf5\xf7\x29\xca\xc1\x19\xdd\xbf\x28\xc7\xe9\xbd\xe5\x42\x08\x9c\xcd\x1f\xfb\x42\x08\x8b\x5d\xdb\x8a\xe8\x55\x40\xaf\xab\x79\x1c\x15\x6b\xab\x7f\x3e\xed\x36\x88\x5d\xac\x8f\xfb\xdc\xf2\xa0\xeb\x40\x86\x6f\x7a\x68\x69\x09\x33\x3b\x55\x0a\x62\xae\x7b\xe0\xa2\x90\x2d\x06\xcd\xd8\xa9\xf6\xa8\x6d\x05\xb7\xc4\xa3\x47\xaf\xd4\x8a\x3b\x9a\xb5\x1d\xcd\xd2\x8e\x3f\xe1\x2b\x1b\xc8\x00\xba\xef\x95\x0d\x3d\x54\xe9\x94\x7d\xbb\x5d\xd9\xa0\xf5\xc2\x1f\xec\x72\x86\x1e\x94\x77\x50\x55\xa2\x5f\x57\x61\x05\xde\x0e\x6a\x08\x1a\x98\x6c\x70\x53\x1d\x01\x88\xb6\x46\x82\x97\x77\x0e\x74\xdd\x99\xcf\x22\xe9\xce\x0f\x1e\xb4\xbf\x05\x94\x6c\xc5\xdb\x23\x3f\x44\xea\x70\xd9\x87\x49\xcf\x30\x3a\x39\xdc\x06\xa2\x6b\x80\x35\x22\x1d\x09\xd5\xce\x2b\x27\x76\x55\xca\x5d\x99\xce\x61\xad\xdc\x7d\xb7\x93\xcb\xc3\x4a\x37\x77\xab\xe6\xce\xbc\x63\x4d\x33\x37\xae\xa6\xd0\xff\x8f\x1d\x55\xf8\xe3\x94\xe8\x84\x3d\xca\x1a\x27\xa7\x25\x3d\x30\x4d\x53\x57\x1f\x12\xae\x3f\x8d\xc2\xde\xd5\xc6\xda\x96\x6e\xdc\xaa\xa0\xcd\x40\x04\xd8\x80\xf3\x9d\x65\xf8\x5f\x0b\x8a\x7d\x1e\x13\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26964, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x2c, 0xfb, 0xd0, 0x4c, 0xde, 0x28, 0x43, 0x54, 0xd, 0xef, 0x47, 0x92, 0xf, 0x80, 0x30, 0xf9, 0xa2, 0x7, 0xd6, 0x6a, 0x3e, 0x92, 0x21, 0xc7, 0xe1, 0x4c, 0x5, 0x87, 0x60, 0x9a, 0x20, 0xee}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27155, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x5f, 0x34, 0x47, 0xd7, 0xb4, 0x3c, 0x72, 0x1a, 0xd1, 0x60, 0x46, 0x3c, 0x71, 0x35, 0xd, 0xe4, 0x77, 0xec, 0x18, 0x4f, 0xe4, 0xaa, 0x70, 0x91, 0x53, 0xce, 0x41, 0xf9, 0x2a, 0xf2, 0x82, 0xf6}}
 	return a, nil
 }
 
-- 
2.43.0


From 7dc87ed0bf6c826b32313d12a0b226016dcbc245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 18/33] fix: all values of the headers of an error reach the
 response

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 7 +++++--
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index ff4ab88..cbf761b 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -367,8 +367,11 @@ func errorEncoder(_ context.Context, err error, w http.ResponseWriter) {
 	}
 	w.Header().Set("Content-Type", contentType)
 	if headerer, ok := err.(httptransport.Headerer); ok {
-		for k := range headerer.Headers() {
-			w.Header().Set(k, headerer.Headers().Get(k))
+		for k, values := range headerer.Headers() {
+			w.Header().Del(k)
+			for _, v := range values {
+				w.Header().Add(k, v)
+			}
 		}
 	}
 	code := http.StatusInternalServerError
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 6eecb0f..ffe1bac 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.155kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.196kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\x1c\x47\x76\xe7\xaa\xaf\x08\x15\x24\x32\xb3\x5d\x9d\x45\x1b\xb0\x31\x6e\xa1\x0d\x70\x69\x49\x9c\x11\x97\x61\x37\x25\xc0\x04\xc1\xc9\xaa\x8a\xea\xca\xe9\xac\xcc\x64\x2e\xbd\x4c\xbb\x2f\xbe\xc8\x80\x0d\x18\xf0\xc9\x07\x63\xe0\x93\xaf\x86\xcf\xfe\x9e\x91\x31\x7f\xe1\xb7\xc4\x96\x6b\x55\x35\x35\x83\x81\x61\x02\x22\xb3\x32\x23\x5e\xbc\x78\xf1\xe2\xed\x11\x9a\xcd\xc4\xd3\x74\x29\xc5\xb9\x4c\x64\x1e\x96\x72\x29\xe6\x37\x62\x1e\xe6\x69\x12\x88\x67\xaf\xc4\xcb\x57\x67\xe2\xe4\xd9\xf3\xb3\x60\x3c\x9b\x89\x37\x32\xaf\x92\x24\x4a\xce\xb9\x81\xb8\x8a\xe2\x58\xa4\x97\x32\xbf\xca\xa3\x52\x8a\x72\x1d\x15\x62\x15\xc5\x92\x1a\x7f\x27\xf3\x22\x4a\x93\x23\x71\x7b\x1b\xa8\xe7\xbb\x3b\xe7\x83\x78\x06\xa3\xb9\x5f\xf1\x37\xb4\x18\x67\xe1\xe2\x22\x3c\x97\xf8\xe5\x35\x3f\xbe\x0c\x37\xf4\x05\x3a\x9f\xe9\x31\xc4\x22\x4d\xca\x30\x4a\x0a\xb1\x91\xe5\x3a\x5d\x16\xa2\x4c\xc5\x26\xbc\x90\x22\x4a\x96\xd1\x65\xb4\xac\xc2\x58\xc8\x64\x99\xa5\x51\x52\x42\x97\x3c\xdd\x88\x42\xe6\x97\xd1\x42\x16\x53\x84\x94\xcb\x8f\x95\x2c\x4a\x11\x26\x4b\x78\x2e\xb2\x34\x29\x60\x0a\x37\x99\x24\x48\xd8\x14\x67\x94\xc2\x4b\x03\x65\x2a\xc2\x42\x5c\x49\x98\x34\xfc\x2b\x93\x05\xd0\x2d\x2f\x10\x00\xc2\x5b\x4a\xf5\x7b\x95\xe6\xaa\x23\x41\x9b\xd2\x8b\x10\x29\xb5\x12\x69\x95\x8b\xa2\xca\xb2\x34\x47\x4a\x97\x79\x98\x14\xf8\x8c\xc3\x45\x61\x1c\xfd\x26\x2c\x81\x10\x08\x0d\xfa\x6c\xc2\xb2\x08\xc6\xe3\x68\x43\x2d\xbc\xf1\x68\x32\xbf\x29\x65\x31\x81\x07\x9c\xbb\xbc\x2e\xf1\x91\xd0\x80\x25\x99\xfd\xba\x48\x13\x7c\xb1\xda\xd0\xfb\x28\xe5\xbf\x67\x51\x5a\x95\x51\x8c\x3f\x12\x59\xce\xd6\x65\x99\xe9\xe7\x2a\xa7\xd7\x45\x99\x03\xbc\x4b\xf5\x08\xa0\x60\x08\x78\x3e\x8f\xca\x75\x35\x0f\x16\xe9\x66\x76\x9e\x1e\x5e\x44\xe5\x0c\xff\xd3\xb4\x80\xd6\x61\x72\x93\xcd\xc5\xe4\x3c\x4d\xcf\x61\xc9\xcf\xd3\x38\x4c\xce\x83\x34\x3f\x9f\x65\x79\x5a\xa6\xf3\x6a\x35\xa3\xf9\xcf\x2e\x92\xf4\x2a\x99\x51\x6b\xe8\xb5\xac\x72\x9a\xe4\x1e\x5d\x6d\x17\xe8\x2f\x37\x59\xb9\xcf\xb8\xaa\x3d\xf4\x5c\x45\x32\x5e\x6e\xc2\xe2\x62\x8f\xde\x4e\x1f\x80\x00\xe4\xa9\x16\xe5\x1e\xdd\x75\x07\xe8\x5b\x46\x1b\xe0\xb6\x70\x93\xed\xd1\xdd\xe9\x03\x10\xae\xf2\x30\xcb\x80\xc1\xf6\x00\x60\xbb\xb4\x97\x34\x87\xcd\x1b\xce\x36\xd5\xf5\xa4\xfe\x25\xbb\x38\x9f\xc9\x3c\x4f\x73\xe2\xb4\x81\x81\x0c\xe7\xd1\x1b\xcd\x7e\x03\x1d\xe8\x01\x11\xb9\xbd\x3d\x14\xd1\x4a\xc8\x8f\x22\x78\x9a\x26\xab\xe8\x3c\x38\x33\x3b\x61\x02\x3b\x65\x22\x26\x09\x30\xff\x44\xc0\xa6\xaf\xe1\x86\x6f\x0f\x81\xa7\xf1\x5f\x18\x62\xc2\xa0\x80\x27\xb1\xe1\x0e\x50\xcf\xf3\x6c\xa1\xa1\xb6\xf0\xa4\x8f\xbd\x5f\x66\x20\x66\xc2\x65\x58\x86\xcd\x41\x77\x1e\x12\x9f\xec\x8e\xef\xd9\x5f\xa6\x81\x46\xc7\x19\x0b\xf7\xee\x1e\x00\xd4\x56\xdf\x8b\xd8\xf8\xb4\xc7\x10\xd4\xd1\xc5\xd1\x1f\x8f\xc7\x97\x61\x8e\xd2\xea\x83\x38\x16\x20\x8b\x82\xd3\x0c\x64\x4a\xc9\xbf\x49\x80\x01\x1a\x9b\x2c\xcc\x25\xbf\x52\xd2\x27\x78\x5c\xa6\x11\xbf\xa9\x4d\x33\x78\x29\xaf\x4e\x51\x16\xe7\xfc\x91\xa5\x59\xf0\x32\xcd\x9e\xc6\x20\x62\xcd\x5b\x00\x9a\xdd\xf0\x0f\x66\xde\xe0\x7b\xe0\xfd\xf1\x08\x44\xa9\x5a\x4f\xcd\x86\x2c\x95\xb1\x29\x89\xa4\xe0\x71\x42\xfd\xac\x90\x09\x9e\xa9\x47\x7c\xad\xc4\x47\x70\x82\xff\xe2\x0b\xbd\xa5\x83\x53\x7a\xc0\x57\xce\x36\x0d\xce\xf4\x33\x7e\xb0\xdb\x0f\x5b\xc3\x56\xf9\x2e\x8c\x2b\x9a\xb7\x23\x57\x82\xaf\xf0\xf9\x05\x3c\x23\xf5\x66\x07\x3b\xfd\x11\x27\x46\xb3\x1d\xec\xfc\x67\x46\x1a\xf4\x79\x22\x42\x56\x6f\xf9\x54\x44\xe5\xc3\x42\x54\x85\x5c\x55\x31\xa9\xa9\x55\x95\x2c\x70\xea\xa0\x03\xd7\x61\x29\x12\x89\x5a\x2a\x15\x69\x46\xb6\x81\x48\xb1\x2f\x3c\x1f\x6a\x35\x80\x00\xe7\x61\x11\x15\x81\xf8\x0a\xba\xcb\x6b\x98\x79\x2c\xa7\xe2\x26\xad\xc4\x26\x3a\x5f\x97\x22\x0b\x0b\x54\x91\x0e\xc2\x00\x2f\x34\x03\xf1\x38\xb0\x36\xcb\x0a\x14\x33\x82\x83\xb6\xc8\x01\xc1\x37\xa0\x57\x63\xc4\xf1\x0a\x98\x50\xc8\x70\xb1\x56\x9a\x5e\x78\x7a\x74\x1f\xbe\xe5\x80\x61\x95\x31\xd0\x22\x93\x8b\x68\x15\x2d\x60\xd0\x72\x1d\x08\xef\x39\xe1\x07\x06\x03\xc0\x9f\x87\xf3\xf8\x06\xda\x6c\x22\x58\x1e\xb2\x12\x40\x63\x17\xd1\x79\x82\x5d\xa3\xe4\x32\xbd\x40\x75\x2f\xc5\x29\xdb\x08\xc6\xaa\x20\x14\x25\xc2\xb1\x33\x60\x1e\x40\x10\x9a\x92\x81\x0f\x2d\x0c\x75\x17\x71\x24\x93\xb2\x4e\x5d\x18\x65\x91\xc6\xb1\xa4\x7e\xda\x40\x01\x8c\x80\xf9\x19\x1c\xcc\xc3\x9a\x2b\xf0\x17\x4c\x08\x01\x16\xc0\x36\x31\x9b\x12\x4c\xab\x08\x29\xbc\x91\x44\x49\x07\x5f\xe8\x21\xf3\x55\xb8\x90\x7d\x2b\x81\xc0\xcc\x60\xdd\x46\x52\x85\x83\x89\xba\x04\xc1\x0d\xf8\x54\xcd\x07\xe4\xc0\x3c\x4a\x88\x4e\x1b\x85\xa2\xb3\xb0\x53\x65\x4a\x95\x55\x9e\xc0\xd4\x71\xc6\x88\xe0\x02\xa6\x29\x73\xb4\x98\x42\x8d\x6c\x30\xa6\xe9\xb4\x08\x7a\x3b\x1e\xbd\x4d\xcc\xfc\xe4\x12\x2c\x40\xdd\x83\x4d\x40\x25\x09\x6e\x6f\x01\x45\xb0\x10\x3f\x8f\xc4\xd1\xb1\x30\x6d\x5e\xf0\x92\xb1\x58\xfe\x3c\x52\x7d\xf4\x28\x02\xfe\xe8\xa9\x06\xfa\x25\x80\x62\xc1\xc5\xd6\xa5\xc1\x68\xfb\x10\xc8\xc0\xc0\x89\xb6\x8b\x2f\x9c\x41\xbd\x45\x79\x2d\x94\x95\x86\x62\x17\xff\x9d\x22\xc3\x1c\xdc\xde\x7e\x9d\x62\x1b\x80\x1c\xbc\x61\x13\xf4\x0c\x88\xa1\xfa\xf9\xc2\x6b\xb4\x60\xc3\xd4\x69\x32\x65\x01\xe7\x23\xb5\xb4\xdd\x4a\xef\x10\x51\x19\x74\xcc\x1c\x91\xc1\xc1\xfd\xf1\x08\x15\x01\xb4\xfc\xec\x58\x24\x51\x8c\x10\x46\x6a\xbd\xe0\x27\x01\x19\x8f\xee\xc6\xfa\x9d\x86\x1e\x6c\xc5\xc9\x9f\x22\x00\x20\xa2\x26\x27\x12\xf3\x05\x6e\x33\x97\xa2\xb4\x91\x3f\x07\x31\x82\x14\xbd\xc3\xc6\x87\xc2\xa5\x32\x7c\xea\x23\x34\xc2\xea\x9a\x59\x81\x44\x77\xba\xb9\x6c\xe2\xb7\x97\x9b\x69\x46\x93\x43\xb0\xdd\xab\xa4\x1d\x03\xb3\xa3\x6e\x71\x59\x8c\x8b\xe0\xbc\x66\xb2\xdb\xe5\x00\xd8\x1f\x71\x22\x0a\x42\x8b\x6e\xad\xd5\x86\x2e\x97\x66\xed\x8a\xa0\xc1\x40\x84\x0a\xb6\x69\xaf\x5a\x7b\xd9\x70\xdd\xf4\xdb\x4b\x5e\x8e\xd1\xdd\x98\x89\xcc\x6b\xe2\xae\x0d\x2a\xc7\xc7\x71\x7c\x72\xbd\x90\x59\x49\x7a\xaa\x60\x11\x6b\x28\x45\x1a\x0a\x5d\x16\xb5\x37\xed\x66\xa5\x65\x24\xd9\xd4\xe1\x17\x04\x2f\xa2\x25\x88\xed\x2b\xd0\xef\xe4\x05\xbe\x2d\xb4\x5f\x88\x4e\x50\x96\xc5\x37\x28\x62\x50\x6c\x96\x08\x7c\x63\x5a\x93\x5e\x90\xb0\x6c\x37\x66\xd9\x70\xbf\xa0\x04\x29\xb4\xd4\x00\x78\xaf\x32\xd4\x1a\x28\x39\xa7\x8e\xe0\x5a\x80\x1c\x9a\x4b\xd2\x35\x20\x46\xa1\x1b\xf8\xb0\x09\x92\x1d\x60\xc2\x7b\x79\xbd\x88\xab\x25\x7c\x21\x2f\x70\x2e\x11\x05\xd6\xcd\xcb\xa0\x45\x0d\xcf\xe2\x34\x15\x93\xd3\x32\x2c\xab\x62\x02\x4f\xaf\xa1\xd7\xc4\x37\xfb\xfe\xc0\xd9\xf8\x7d\xfd\x45\x07\x55\xa6\x16\x9b\x20\x08\xd8\xe1\x22\xe6\x89\x12\xf5\x1a\x58\x61\x13\x66\xef\xf8\xd3\x7b\x26\xff\xed\x1d\xae\x7a\x73\xc3\x74\x49\xbe\xd1\x68\xe2\xb0\xd1\x04\x1c\xec\xbb\xa9\xea\xaa\xcc\x48\xe0\x80\x11\xae\xc6\x07\x44\x85\xd8\x95\x40\x1a\xb4\x6e\x99\xe3\xe0\x73\x7a\x81\x9f\x35\x62\xef\xe4\xf5\xfb\x2f\xc5\x67\xf0\x92\x38\x30\x0b\x93\x68\xe1\x59\x0b\x6f\xe5\x4d\x4e\x34\x08\xb3\x82\x0f\xbf\x28\x1e\x8a\x65\x0a\xab\x9b\xa4\x25\x0c\x01\xca\xf7\x4b\x58\x4f\xe9\x2e\xbc\xe1\x1d\x32\xe9\x11\x29\xdf\x57\xfc\xbc\x94\xb1\x2c\xa5\xa7\x31\xa0\x6f\x76\x02\xf0\xda\xa2\x6f\xc8\xb7\x3b\xa1\x60\x92\x08\xe2\xf8\x58\xd4\x48\xc6\xd3\x1b\x75\x8a\x52\x30\x2f\x2d\xe6\x5e\x67\x13\xc4\x9d\x90\xaf\x91\x9c\xb7\xdd\xb7\xe1\x1c\x66\xb4\xb4\xdc\xc0\x21\x94\x73\x59\x6a\xde\x45\x7e\x37\xd4\x23\x16\xbe\x5a\xcb\xc4\x7c\x4d\x1d\x76\x55\xc0\x98\xeb\xa6\xbc\xcb\xd4\x46\xa8\xb8\xb1\xe0\xb8\x4c\xc8\xc1\x1d\xb0\x8b\xc0\xa8\x81\x7f\xc8\xcc\x72\xb8\xf4\x6a\x1d\xc1\xce\xc7\xae\x05\x0c\xdd\x81\x82\xd2\xe4\xaa\xb7\xb6\x63\xd2\x5c\xe9\xf1\xf6\xac\x48\xb8\x32\x03\x4f\xdb\x52\xb8\x43\x30\x8f\xfb\xe6\x75\x6f\xd9\xd4\x42\x6a\xaa\xe6\x49\x14\xcf\xe5\x42\x46\x97\x6c\xf1\xd1\x14\x01\x98\x3b\xef\x00\x4c\x15\x69\xc0\x38\x50\xe8\x83\x36\x44\xcd\xbe\x47\x44\x91\x23\x97\xe0\x23\x46\x31\x19\x8d\x7a\x3b\x51\x30\x47\x19\xbb\x61\x1c\x95\x37\xc1\x90\x08\xa9\xcd\xdd\x95\x24\x7b\x53\xf4\xff\xe5\xcc\xff\x1d\x39\x53\xeb\x36\x15\x7b\x89\x9d\xdd\x03\x14\xbb\xba\x9e\x5f\xbf\x79\xfd\x94\x2d\xac\xbd\x7d\x4f\x34\xe3\x9c\xee\x18\xae\x2d\xac\x31\x60\xf5\x79\x78\x09\xdb\x08\x1c\x36\xc9\x6e\xc3\x39\x74\x11\x3d\xce\x40\x60\x0d\x44\x0b\xd9\xb3\xa0\x1c\xf7\x24\xcd\xd8\xb5\x85\xfd\x50\x8b\xc5\x04\xdc\x89\x4d\x0b\xbf\x6f\x20\x5c\xae\xc2\x69\x58\xe0\x82\xbf\x7b\xdf\x0f\x09\x97\xb7\xeb\xeb\x13\x09\x4c\x25\x3d\xc4\xf6\x85\x8a\x29\x9d\xa5\xca\xfa\xf4\xa7\x64\x80\xd7\xc7\x39\x46\xc3\x09\x66\xe4\xd5\x5e\x9b\xf9\xc0\x74\x7c\x0a\x74\xdc\xde\x8a\xb3\xf4\xdb\xf4\x0a\x70\xad\xcd\x80\x22\x3b\xca\x34\x7c\x80\x18\x31\x1e\xb7\xe8\x26\x6d\xe5\xde\xdb\x5b\x0d\xd3\xb0\xdc\x91\xa8\x4f\xcb\x84\x68\x3c\xe4\x41\xbb\xcb\x3a\xb8\x14\x45\xc4\xe8\x19\x45\xca\x71\xfe\x4e\x0b\x65\x1d\x53\x83\x93\xa4\xb3\x81\xf2\x75\xb0\x45\x8d\x12\x40\x00\x7c\x89\xb4\xeb\xd0\xb9\x76\xc2\x4d\xd7\xd9\x18\xe7\xdd\xeb\x6d\x0c\x7d\xd6\x72\x0e\x9c\x3f\x80\xbb\xda\x22\x32\x78\xab\x75\x2a\xab\x78\x88\x63\xd0\x2b\x37\x4b\x05\x2a\x50\x52\x39\x38\x62\x54\x43\xa3\xb6\xfb\x4c\x77\x74\x7b\x0b\x71\x60\x87\xf2\x85\xeb\xe5\x0c\xf9\xbf\xe8\x1e\xfd\xb4\x0e\xf0\x07\x04\x9a\xd5\x5c\xa8\x16\x25\x79\xdb\x21\x37\xb9\x4e\xd5\x9e\x9e\x70\x76\x4f\x27\x58\x51\x98\x59\x7e\x3b\x79\xa1\xc7\xd0\xee\xc0\x58\x56\x28\xea\x31\xe2\x80\x3b\xa8\x16\x5f\xe1\xfa\x50\x9c\x08\xa3\xaa\x32\x47\x61\x4a\xbb\x80\x45\x68\x9b\xcd\xb4\xb7\x4b\x01\x34\xb0\x1b\xf3\xc3\x65\xba\x09\xc1\x85\x1a\x68\x1c\x88\xd7\x79\xb4\x09\xf3\x28\xbe\xd1\xe1\x2d\x37\x16\xc6\x4c\x32\x34\x0f\xef\x43\x9b\x39\x70\x2e\xf0\xb9\xe1\x76\x37\xbd\x6d\x13\xf8\x20\x47\x5b\xf5\xd9\xc5\xd1\x36\x2b\xf9\x71\x60\x99\x58\xf0\xec\xb4\x4c\x83\x32\xaa\x73\x9d\xb8\x87\x6e\xd2\xb7\x50\xdb\x97\x40\xa7\x2a\x53\xab\x19\xbb\x9a\x81\xab\xbd\xd3\x3a\x0d\x4e\xa4\x6b\xa1\xba\x22\x21\x43\x2b\x55\x64\x1c\x13\xd9\x39\x98\x54\x0b\x40\x75\xad\xd6\x37\x32\xc6\xb0\xfa\x98\x27\xd0\xa9\x48\xbb\x05\xd0\x66\x29\x74\x1a\x27\x78\xf1\xcc\x6f\x36\x40\x7c\x51\x8c\x5e\x4c\xc5\xa5\xb5\xf8\x36\xc6\x54\xbd\xac\x85\x60\x28\x1b\x2d\xc5\x85\xbc\xa1\xe5\x5e\xa2\x51\x38\x4f\xc1\xff\x00\x1a\xeb\x51\x54\x1e\x57\x78\x17\xbe\x72\x3f\xb0\x29\x38\x20\x31\xae\x97\x82\x12\x2a\xa7\x8b\xc2\xad\x4f\xc3\x24\x05\x83\x37\x8c\xbf\x91\xe1\x52\xe6\xbf\x00\xe8\xca\x37\xc1\x81\x8a\x54\x05\x81\x4b\xe5\xea\x69\x10\x8b\x85\xd4\xb1\x0f\x09\x3e\x10\xf0\x02\x8f\x8c\xdf\x91\x14\xc7\x66\xae\xdf\xc3\x67\xca\x43\xb0\x34\xc4\xb9\xbe\x7b\xf4\xde\xdf\xda\xb0\x07\x3b\x98\x99\x85\xa0\xac\x7e\xb5\x7c\xd0\x8d\x74\xd4\x1e\x76\x25\x47\x9a\xf7\xb6\x2b\xc1\x02\x71\x7a\xf3\xf0\x94\x75\x50\xa1\x23\x31\x0f\x17\x17\x5c\xda\xa0\xf6\x0c\x87\xe8\x71\xae\x89\x24\xdf\x2c\x10\xcf\x49\xbc\xaa\x60\xbf\x62\xd7\x68\x1e\xa1\xcf\xa6\x97\x40\xc5\xb2\x61\xeb\x2d\xa3\x30\xe6\x80\x77\x1c\x02\xdf\x03\xbc\x14\xc3\xb0\xd4\xc8\xc2\x64\x06\xad\x61\xe7\xe1\x67\x56\x9f\x01\xbf\x01\xe6\x4b\x06\x8c\x53\x6e\xa4\x8d\x53\xaf\xc7\xc8\x70\xb7\x1c\x5a\x08\xcd\x58\xeb\xc8\x79\x9b\x5d\x9c\xd3\xf6\x53\x21\xd7\x7a\x91\xc5\xa8\xed\xd5\x74\xc7\x65\x47\x98\xe7\xeb\x10\x3d\xc6\x85\x69\x3b\xf9\xa3\xdb\x6e\x83\xd2\xf1\x7a\x5a\x96\xa5\xa2\x1a\xb1\x27\x12\x4a\x7b\x9e\x6a\x12\xa0\xde\xbb\x22\xc0\x93\x69\xcb\x43\x1d\xb2\x2c\xad\xe9\xd9\xa3\xb5\x1c\xd3\x73\x8b\xf4\x62\x37\x78\x94\xd6\x4d\x53\x43\x03\x8f\xfc\x4a\x02\xa3\xec\x54\xfb\x64\x44\x9c\xde\x40\xc6\x77\xd9\x6a\xaa\x8b\x43\x05\xaa\x45\xd3\x23\xcc\x7b\x0c\xd0\x7c\x6a\xc7\x1d\xdd\x69\x61\x8b\x3b\x00\x69\x20\xd4\x8e\xfa\x74\xf3\x65\x40\x2f\x6a\xfb\x65\x58\x2f\x0e\x6b\xba\x5d\xcd\x17\xa5\x83\x7a\xf4\x22\x0b\x85\x61\xfb\xa5\x5f\x2f\xb2\x31\x82\xc8\xec\xa8\x18\xb1\xa9\x31\x62\x50\x5d\xef\xa5\x1a\x33\x0c\x81\xb7\x75\xa3\xbb\x6c\x9f\x6e\xce\xf4\x5b\x9d\xda\x9a\x19\xb4\x3a\x77\xb4\x27\xb7\xda\x32\x83\x56\x67\x6d\xd5\x86\xe6\xd1\x6d\xcc\x74\x25\x7b\x86\xad\xce\x3d\xd2\x3b\xc3\x56\xa7\xc2\x82\x94\x6c\x71\x96\xba\x86\x0c\xd3\xbc\x4b\x13\x38\x24\xe7\x29\x0f\x40\xf1\xc0\x66\x28\xc4\xbb\xf7\x3a\xfc\xb7\x05\xde\x4e\xe9\x31\x30\x87\x0e\xb6\x19\x51\xa4\x1b\xb2\x30\xca\xed\xe0\xf0\x52\x05\x03\x2f\xac\x69\x45\xe8\xdd\xaa\x18\xd9\xa5\x0e\x04\xc2\xb0\x01\x1b\x1e\x17\x7e\xa0\x82\x9e\xfe\x97\x42\x07\x04\x47\x0c\xd8\x44\x45\xe8\x27\x1b\x32\x26\x08\x86\x42\x14\x61\x72\x53\xd7\x6a\x3b\x00\xfc\x8f\xad\x15\xf8\x73\x90\x81\x1e\xbc\x9b\xda\x57\xaf\xb1\x0f\x43\xc5\xd0\x8a\xaf\xc1\x39\x56\x8d\x8a\xac\xf1\x4a\xee\x6a\xdf\x7c\x73\x76\xf6\xfa\x3e\x71\x33\x4a\xda\x33\x95\x13\x62\x2f\xc0\x7f\x82\xa9\x34\xb0\xc3\x50\xc9\x50\xe5\xdf\x97\x62\xb1\x0e\xf3\x42\x96\xc7\x55\xb9\x3a\xfc\xd9\xc4\x84\xdb\x70\x54\x15\x3a\xb0\x86\x91\x58\xab\x37\xb4\x67\xb7\x87\xe1\x10\x58\x9a\x88\x2c\x97\x4b\xb9\x8a\x12\xb0\xa4\xb0\xc2\xa2\x70\x62\x6f\xce\x30\x5b\x83\x6f\xf5\x02\x9f\x7a\xf0\xcd\x2d\xfd\xd0\xb6\x0c\xac\x63\x40\xf0\xc9\xec\xaf\x45\xa7\x3a\x02\x72\xfd\xd0\x69\xfd\xbb\x3e\xab\x88\x1c\x8f\x81\x76\x6d\x51\x0b\xc8\x75\x77\x3a\x41\xb1\xc0\xe2\x06\xa6\xec\xfc\xe8\xef\xf2\x78\x05\x62\xc5\x6b\x7e\x29\x9f\xda\xa5\xf5\x9c\x65\xf6\x09\x50\x7b\x96\x3b\x85\x03\x55\x94\x88\x42\x7f\x1b\x0a\xf5\x57\xd7\x68\x4e\xbd\x49\x2b\xc4\xc1\x1f\x3b\x16\x85\xca\x66\xa0\x6e\xe8\x21\xb3\x69\x3a\xc7\xba\x91\xe4\x9c\xac\x42\xee\x16\x3c\xe1\x57\x2a\xd6\xbd\xd1\xfd\x28\x68\xad\x9a\x63\x85\xef\x5c\xfc\x9d\x38\x4b\xdf\x62\x3d\x14\x18\x63\x3e\xec\xb2\x72\x5d\x6b\x83\x2f\xce\xe4\x26\x8b\xa9\x0c\x18\x5a\x68\x76\xea\xa9\x07\xf3\x38\x7a\xee\x46\x1b\x15\x46\x1d\x21\x47\x65\xd7\xe1\xf4\x9c\x21\x29\xdb\x52\xb7\xff\x94\x85\x88\x0d\xbf\xe6\xa4\x59\xcd\xf8\xeb\x0c\x3c\x8e\x48\x46\x34\x2a\x11\xd5\xa3\x12\x1a\x1b\x5d\x60\xe2\xf0\x09\x67\xe7\x38\x14\x49\xfc\xa3\xf3\x6c\x7a\xc4\xef\xf1\x3b\x58\xf6\xe0\xb5\xc0\xb6\x0b\xab\xb8\x44\x6d\xc7\x0c\x82\xc0\x28\x2c\x09\x1b\xb6\x29\x0b\xc0\x2f\x01\x47\x74\x49\x5e\x0b\xfe\x66\xb3\x1f\xdd\xc7\x09\x8d\x33\x31\x1e\xe7\x25\xd5\xa3\x01\x28\x7a\x1f\x10\x76\x9e\xcf\x7e\x0d\xc8\x03\xca\x7d\x0b\x44\x16\x41\xfd\xe5\xa3\x47\xe0\x24\xad\x1c\x7c\x9d\x78\x2a\xef\x1b\xc0\x96\x10\x83\x16\x59\x9e\x5e\x46\xe8\x12\xaf\x79\x47\x71\xde\x6d\x2e\x19\x5b\x4e\x4f\x62\x3b\x6b\x93\xb9\xa0\xa9\x6e\xcb\x42\xc7\x59\x04\x2f\x40\xbe\xad\x43\x2a\x09\xd3\xf8\x6f\xf8\x15\x72\x64\x51\x81\x0b\x2c\x97\x05\xfb\x60\x3f\x3f\x7d\xf5\x52\x55\x68\x2f\x75\x39\xb5\xc9\xf1\x11\xee\x1a\x1d\x4c\x95\xf6\x4f\x8b\xd3\xff\x58\x20\x9f\x4f\xb5\x6b\x68\x66\x66\x3f\xd6\xa0\x81\x2d\x51\x94\x30\x69\x4d\x33\x16\x92\xae\x84\xe8\x32\x44\x4c\x25\xc9\x54\x5c\xb1\x14\xac\xb3\x01\x19\x20\xb8\xaa\x53\xf1\x01\xb7\x9f\x4b\x12\x16\x3f\xdf\x73\xb5\xe1\x2d\xad\xe2\x11\x02\xd3\x0b\x7a\xc7\xf1\xce\x8d\x25\x20\x2b\x5a\x6c\xe2\xd5\x69\x6b\xf5\x6c\xc4\xcc\xf3\x84\x86\x54\x5d\x4f\x38\xcc\x6a\x00\xe9\x7e\x48\x6e\x0f\xba\x3a\xcd\x8e\x1d\x9d\x4b\xcc\x78\x6c\xc0\xe9\x40\xc1\xe8\x2a\x60\xb6\xf1\x7c\x14\x83\xde\x44\x09\xc2\x43\x94\x7e\x93\xa9\xab\xf2\x78\x02\x6b\xcd\x64\x2e\xfe\x75\xf1\xa0\xf9\xd0\xce\x83\x02\x3a\xd6\xe4\xd0\x30\x54\xcb\xc2\xe3\xca\x9d\x26\x2e\x60\x4d\xb4\x5b\x06\x5f\xe3\x17\xdf\x44\x3a\x46\xb4\x35\x8e\xb8\x64\x35\x60\x76\x78\x8e\xa6\x63\x12\xc6\x8e\x92\x20\xdc\x8b\xc5\x00\xd6\x0e\x9b\x59\xc4\x09\xf8\x31\x74\x74\x3e\x2b\xf7\xf1\x2a\x20\xa6\x50\x18\x63\x43\xdf\xbc\xf4\x90\xda\x3e\xca\x1b\xcb\x77\x2c\xfd\x72\x0f\xcb\x5f\xdf\xbd\xc7\x2a\x5c\x5f\xf1\xfa\x2d\xfb\xf1\x57\xc2\x65\x21\x13\x1d\xd7\x7c\xf6\x36\x51\x2b\x8b\x10\xa6\xe2\xc1\x15\x60\xd9\x88\x9e\xb3\x95\x52\x44\xbf\x41\x9c\x7f\xf6\xe7\x7f\xfd\x57\xcc\x42\xb1\x4c\xb0\x8f\x2f\xfe\x86\xbf\x31\x3f\x00\x1a\xc7\x02\xfe\x7e\x77\x84\x2f\xdf\xd7\xab\x97\x30\xd5\x4b\x74\x5b\x79\x13\x13\x6b\x24\x16\xc2\x2c\xef\x11\x06\xbe\x30\xc9\x9b\xa1\xb9\x23\x92\x34\x39\x24\x19\xa7\x0d\x79\x6c\x08\xbc\x83\x63\xd6\x82\x51\xaa\x2a\x18\xd4\x87\x77\xc5\xe0\x89\x46\x24\x43\xdd\xb9\x3b\xc9\x1d\x6a\x25\xd8\xfe\x14\xbf\xc2\x51\x8e\x94\x00\xfd\x95\x12\xe7\xb8\x8a\xaa\x15\x88\xdf\x62\x15\x29\x71\xae\xb9\x90\x04\x95\xb3\xb8\xd6\xcd\xc0\x12\x4f\x12\x26\xea\xb0\xcb\x2e\xc5\xdc\xaa\xdc\xc2\x19\xd4\xa0\xca\x42\x73\x54\x58\x89\x44\xf1\x16\x2d\x7b\xe1\x8f\x93\xea\x37\x26\xb9\xe6\x11\x6f\x6d\x81\xfa\xc2\xe5\x36\x51\x2f\x9a\x5b\x07\x76\x84\x9e\xde\x76\x5b\xb1\x29\x47\x3f\x6b\x20\x14\x52\xe3\xc1\x04\xc9\x56\x9b\xc4\x09\x52\x6d\x31\x4a\x4c\x50\x62\x50\xfb\x37\x9d\x5c\xc2\xbe\x3b\xb5\x42\x20\xf9\xb8\x0f\xf6\x41\xe1\x77\xa8\x74\x8d\xeb\xbf\x5a\xc3\x26\x47\xff\xb4\xe1\xf2\x52\x29\x1a\xf1\x0a\x60\xa5\xdf\x12\x64\xe4\xe0\x6d\x91\xfb\x91\x13\xa2\x18\x9c\x56\xa7\xcf\x2b\x0e\x94\x82\xa1\x26\xfd\xfe\xee\x08\xcc\x0e\x74\x1b\x02\x94\xda\x01\x15\xdc\x7b\xbe\xf2\xee\xd0\x17\xb6\xee\x6f\x63\xae\x8e\x2f\x4c\x66\x21\x49\x0d\x25\x50\x54\x05\xff\x1b\xe0\x82\xc7\x71\xec\x31\xf0\xdd\xaa\x1c\x75\x59\xff\x0a\x15\xde\x54\x4c\x94\x24\xc8\x51\xd9\x6a\x83\x07\x67\xa6\xc9\x39\xd1\xf5\x1d\x75\x41\xf4\x88\x81\x57\x5a\xa8\xa1\xab\x01\x88\x99\x63\x2c\x56\xdc\x29\x3b\x8f\xdd\x4e\xc0\x36\xbd\x82\x09\x96\x51\x18\x63\x54\x0d\x36\x9f\x32\x0a\x9f\x45\xc5\x22\xcc\x97\x6f\x13\x3a\x75\x73\x64\xbf\xe8\xf2\x0f\x9c\xd7\xb1\x70\x07\x6c\x89\x54\xcc\x4a\xb6\x84\x6a\xb7\x58\xed\x17\xac\x9d\xa2\x55\xa1\x51\x23\xa6\xd9\xb0\xb7\x1d\x64\x75\x45\xe9\xbe\x32\x97\x09\x32\x72\x14\xe2\x93\x70\x59\x33\xb0\x47\x88\x80\x45\xcb\x78\xeb\xe8\x51\x02\x75\xc3\x4d\xa1\xdd\x95\xef\x60\x34\x2f\xc7\x35\xc4\x63\x1d\xf6\x3b\xb6\x06\x80\xf9\x8d\x6d\x0e\xf4\x7c\xf3\x6d\xf0\x4b\x7c\xe9\xe9\x0e\x4e\x93\xb1\xeb\xc3\x70\xf5\x18\x0a\x0b\xcd\xb5\x74\x02\xa3\xd0\xc1\x6f\x20\x6e\xa2\x9b\x05\xdf\xa6\x6c\x58\x8b\x09\x4d\x92\xdb\x60\x9c\x95\x3f\x83\x8f\x40\x83\x9a\xd5\x44\xef\xa6\x3b\xbc\x3b\x8c\xc2\xab\x44\xa6\xab\x16\x1e\xb0\xc7\x5a\x78\xd0\xb4\x3e\x05\x11\xc3\x09\x0f\x28\x2c\xa5\x53\xdd\xda\x63\x3c\x6c\x94\x0a\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\xc9\xf2\xb1\xd0\xde\x81\xd1\xeb\x61\xc1\xb6\x7a\xc3\x1b\x60\xdf\x28\xdf\x23\x81\xd9\x81\x60\x97\xec\xeb\xb4\xad\xfb\x72\x9a\xc6\x44\xea\x13\x14\x2f\x5a\x62\xa2\x29\x24\x8c\x2c\x78\x5b\xc8\xd7\xd8\x0f\xe5\x65\x71\x54\xff\x70\x92\x54\x9b\x97\xd5\x66\x0e\x5a\xf1\xc8\x7e\x38\xd9\x44\xe5\xdb\x24\x4b\xb3\x0a\x5d\xe2\xa5\x11\x2b\xb0\x56\xae\x3c\x75\x64\x8a\x76\x07\x6c\xae\x95\x50\x05\xb5\x59\x14\x60\x64\xf8\x43\x65\x0f\x9a\x0d\x3e\x4c\x95\xb4\x32\xe6\x24\x59\x52\x4e\x2b\x37\x07\x6b\x0f\x0c\x29\x63\xa0\x2b\x86\xd2\x53\x0c\xd2\xd4\x42\x7d\xc9\x58\x6b\xbb\xe7\x8e\x39\x31\x98\x7e\x25\x25\xd0\x4a\xbd\xae\x81\xd9\xd6\xe1\x92\xfb\xf6\x25\x5b\x29\xc5\xb7\xc4\x68\x57\xc4\x05\xe8\xa6\x5e\xce\x39\xfb\x8b\x9e\x20\x41\x51\x07\x66\x03\xad\xf4\x4d\x8e\x17\x99\x19\xa3\xad\xad\x4c\x70\x2d\x99\xcb\x40\xea\x19\xdd\xc1\x5c\xee\xb6\x54\xae\xa6\x90\xe3\xa9\x0c\x76\x69\xe0\x4f\xc9\xdc\x36\x0c\x14\x5e\x48\xee\x0a\xe4\xa2\x39\x63\xb5\x58\xe3\x9a\x04\xf4\x25\x8c\x8b\x14\x97\x40\xed\x61\xd6\x0a\x55\x1e\x8f\x87\x47\xd7\x9a\xe6\x10\x4f\x22\x4f\x95\x10\xc7\x38\x90\xbf\xad\xa3\x59\x15\xac\xcc\x47\x9e\x43\x21\x32\xf1\xef\x9d\x7b\x46\x10\xf7\xcf\x3d\x3b\xbd\x6d\x88\xb5\x23\xf5\x9c\xb0\xb1\xc7\xd2\x4b\xc4\xd1\x25\x9d\x85\x28\x15\xd5\x36\x69\x49\xf1\x05\x0c\x1f\x84\x09\x1e\xe4\xfa\x1e\xab\x65\x33\x3e\x32\xc6\xef\xf8\x18\x19\x58\x5c\x64\x3e\xda\x41\x96\x60\x81\xa4\x74\x78\xa2\xb8\x29\x4a\xb9\x99\x22\x73\x01\xac\x38\xba\x90\xb1\x49\x5f\x53\x14\x64\xb2\x4e\x8b\xf2\x88\x68\x67\xf3\xd3\x76\x06\x9e\x19\x4a\x57\x1b\xf7\x46\x6e\xf7\xcf\x4c\x83\xf4\xf9\x4c\xb3\xdc\x37\x61\xf1\x3a\x97\xab\xe8\xda\x8c\x08\x4b\x49\x67\x56\xd9\xf6\x34\x78\x1c\xf3\xeb\xa3\xd9\x6c\x22\xfe\xcc\x50\x82\x84\x55\x65\xa4\x20\x70\x10\x1a\x9f\x85\x34\xd0\x76\xae\xf1\x42\x5b\xa1\x1a\xab\xa3\xbc\x68\xe5\x74\x78\x1c\x2a\xbf\xca\xb5\xc8\x93\x97\x29\x2f\xa4\x13\xde\xe6\xea\x7b\xe6\x01\x0a\x06\x21\xa0\xab\x34\x87\x3d\xc9\x21\x73\xa1\x34\x3d\x3a\x7e\x78\x28\x2f\x67\x35\xc2\x5f\x23\x24\xe1\xc4\x77\x23\x87\x7b\xc6\x67\x31\x48\xde\x74\x7e\x14\xd2\xf8\x95\x13\xff\x8e\xa3\x04\x4f\xf2\xba\xdd\xe3\x91\xee\xa3\xb2\xfb\x4d\xaf\x62\x28\xb9\x8f\x23\xb1\x85\x37\xd0\xaf\xe3\x78\xaf\x93\xe1\x57\x39\xfb\xde\xb0\xb1\xb2\x20\xc1\x2a\xce\x6e\x40\x56\x78\xb0\xfe\x6e\xfb\x27\x21\x28\x59\x10\x1f\x18\x3e\xd6\x4d\xad\x75\xb0\x25\xf0\xdb\x88\x11\xd7\x62\xc9\xf5\x18\x70\x33\xbb\x3f\x6a\x26\xf8\xb5\x6d\xeb\xc4\x81\xbb\xc3\xc3\xc3\x99\xfe\xc1\x75\x37\x19\xff\x9f\x7c\xe5\xfb\x02\xe9\xaa\x92\xa0\x6f\x69\xa7\x4d\x6b\xb3\x2b\x1c\x6e\x2b\x0c\x48\xf2\xe8\x75\x9c\xc3\xc2\x89\x03\xdc\xc3\xf0\x6b\x4a\xa6\xbe\xd0\x39\x4b\xfd\x1a\xf7\x6f\x82\x76\x01\xcc\xe1\x00\x3b\xf0\x4f\xd2\x17\xca\x3d\xb0\x55\xce\xf8\x45\x19\x2a\x4f\xcb\x6b\x9d\x1a\x3d\x45\xfb\x76\x41\x75\xf0\x55\xae\x42\x35\x64\x2a\xa8\x8d\x0b\xdb\x11\x8c\xad\x98\x0f\x9d\xb1\x9e\x03\xc9\x4d\x49\x4a\x70\x5a\x41\x8a\x6a\xf3\x55\xa9\x25\x8e\x93\xb3\xda\xdb\x68\x13\xd6\x75\x40\xd1\x56\x50\xe1\x8e\x40\x88\x97\x69\xa9\xce\xf0\x22\x48\x84\x45\x92\x62\x1d\x5e\x82\x4f\xa5\xee\xe6\x18\x36\x49\x68\x9c\x39\x65\xab\xd4\x31\x36\x3a\xb1\x83\x92\x5f\xa3\x86\x27\xa2\x55\x7c\x3c\xd4\x05\x4d\x2c\xf8\xe1\xe1\xc6\x46\xe1\x4d\x85\xbd\x73\xc8\x0e\xeb\x98\x94\xc2\x55\xa9\xe5\x3a\xed\x38\x9d\xec\x1c\x27\xe9\xd7\x07\x6e\xc4\xa7\xa3\x91\xca\xb8\x0d\x1c\xc2\xdc\xc1\x3a\xfc\xc9\x12\xca\xc6\xe2\x51\x91\x5f\x37\x8f\xdc\xc8\xfb\x52\xd0\x90\xec\x5f\x54\x00\x3d\xe5\x31\x5b\x05\x76\x33\x24\xd5\x29\x6c\x06\x23\x52\x4d\xff\x4a\x85\xa3\xd8\x1a\x6b\x86\xa4\x74\x94\x46\x0d\xe3\x16\x96\xb8\x15\xa5\xcd\x90\x94\x13\x7a\x65\x33\x4f\x65\x49\xcc\x97\x35\x9d\xce\xc0\x70\xc0\x5f\x3c\x7a\xe4\xa6\x8b\xc0\xcf\x52\x39\x11\xf2\xa7\x32\x20\x21\xa3\x89\x1d\x12\x82\xc5\xbe\x15\x6d\xa0\xb2\xc4\x5b\x16\xa8\xaa\x8e\x66\xe1\xee\x3f\x15\xc0\x06\x33\x9a\x5c\x18\x8b\xa3\x46\x62\x6b\xc8\x4c\x97\x87\x74\x84\xcc\x3a\xc9\x3e\x1c\x31\xe3\x36\xfb\x87\xcc\xf6\x89\x80\x1d\xd3\x85\x16\x27\xaf\xbe\xea\x0d\x82\x61\x14\xdb\xc6\xc6\x49\xe2\x50\xb0\x86\x6e\xab\x70\xa3\x5e\x3b\x06\xd4\x3a\xe2\x69\x06\xe8\xc4\x77\xea\x29\x72\x27\x17\x81\x80\x9d\x38\xcf\xab\x5f\x6c\x8f\xd9\xd5\x32\x11\xe0\x6a\x4c\x1c\x9e\x39\x12\x0f\xbf\x58\x3e\x24\x37\xc0\x8e\x61\xc6\xe6\x90\x63\x91\x6d\xe3\xe6\xf1\xde\x71\xbd\xde\xb0\x5e\x5f\x54\xcf\x21\xed\xd6\x98\x5e\x91\x75\x04\xf5\x5a\x14\x72\x89\xd2\xa8\x36\x79\x60\x6b\xa0\x47\x8d\x22\x68\x47\x00\x35\x0b\xbd\x76\x88\x9e\x6f\x8f\x9d\xb3\x41\x50\x8b\x00\xed\x17\x3d\x6f\x95\x88\x8d\x8d\xb7\xab\xc2\x41\xd0\x67\xe7\x80\x39\xdd\x37\xc1\x49\xeb\x1c\x76\x50\x21\x70\x20\x72\x4c\x40\x2f\x8f\x94\xf6\xab\x29\x5f\x0f\x6d\x82\x29\xc7\x01\x39\x67\x4c\xa9\x31\x2d\x0a\x76\x98\xd6\x0e\xd1\xf3\x9e\x12\x32\x13\x3a\xc2\x4b\xa3\x2e\xc3\x18\x09\x3c\x99\xa8\xc8\x24\xbf\x1a\xbe\x2f\x60\x28\xa2\xae\x23\x9c\xd0\x8f\x58\xc5\x55\x5f\xbd\xae\x71\xb3\x5d\xbf\xef\xcd\x51\x89\x53\xc9\x8e\x29\x19\x63\x19\x86\x51\x65\x89\x69\x1b\x8e\xd4\xd2\x69\x1b\xe5\xc9\x51\x0d\x95\x4e\x2a\x35\x8e\x45\x16\x5c\x09\x5d\x8b\x75\xe2\x28\xa7\xfc\xde\x04\x3b\x75\xc3\xbb\xe6\x29\x52\x34\x19\x27\x33\xc2\xbf\xcb\xdb\xcb\x38\x5a\x30\x20\xeb\xba\xf2\x06\x69\x15\x2f\x93\x87\xa5\xdd\xbd\x3c\xcb\x2f\x3e\x4e\xd8\xf8\xd4\x12\x94\xa9\xf2\x26\xbc\x52\x46\x66\xa5\x9f\xcd\x37\xf3\x81\xde\xd6\x29\x47\x8c\x57\x27\x1d\x15\x5c\x74\x46\xac\x51\xc0\x95\x9b\x4c\xa5\x67\xd5\x02\x97\x78\x8f\x90\x4b\xce\xbe\xd8\xb5\xb0\x95\xdb\xbb\x85\x8d\xa1\x15\x6e\x08\xd5\xec\x8d\xcc\x24\xdd\xfd\xa7\x7e\x3f\x2f\xd0\x95\x32\x12\xd5\x42\xf6\x9e\xea\x5b\xf7\x74\xdc\x39\xa5\x8a\xb4\x89\x5e\xfe\x89\xaf\x7b\xf0\x54\xdf\x4d\x4c\x88\xfa\x97\x26\x1e\xaf\x2a\xb2\xdf\x33\x0b\x07\xa6\xc5\x53\x78\x1f\xdb\x3a\x74\xc5\x07\x71\x61\x7e\x2b\x83\xcf\x39\x9c\xd1\xd7\x5f\xe7\x43\x14\x1a\xc1\xe3\xe5\xd2\x1b\x40\x65\xea\x5c\x55\xe5\x5d\xfa\xec\xc3\x8d\x5c\x2c\x14\x37\x92\x8b\x13\xa3\x71\x56\x23\xe0\xf3\x02\x63\xb8\xfa\x17\xe8\xaf\xfc\xe4\x3a\xcb\x35\xda\xa8\x38\xfb\xf0\xac\x65\x7b\xee\x83\xee\xca\x9b\x7c\xb1\x84\x37\x07\x7d\x43\xd4\x67\x63\xd1\x07\x5a\x7a\xa8\xee\x5b\x6b\xee\x37\xd9\x42\xcf\x03\xd8\x51\x47\x87\x6b\xe5\x27\xbd\x23\x9b\xe9\xb7\xf2\x5a\x5d\xdb\x53\xed\xce\x15\x78\x26\x5c\x1f\xa4\x37\x67\x1f\xfc\x49\x7d\x9d\x94\xa4\xd5\x82\xc9\x03\x74\xfd\xf1\x5e\x54\x65\x08\xbe\x43\x28\xcb\x89\xb3\x83\xdf\xfd\xc7\xdf\xff\xf8\xdb\x7f\xfb\xf1\x5f\xff\xf3\xc7\x7f\xfa\xe1\xf7\xff\xf2\x0f\xff\xf3\x5f\xff\xfd\xbb\xdf\xfe\xe3\x8f\xff\xfe\xc3\xef\x7f\xf8\xe7\x83\x99\x71\x9f\x79\x73\xdd\x8b\x13\x3e\x8d\x11\xbc\x1d\x39\xa0\x31\xb3\x7b\x0c\xb4\x6d\x1c\x1b\x05\x18\xd5\x0a\x11\x1b\xbf\x9a\xe1\x11\x25\xe3\x52\x4c\x85\xf5\x25\xc7\xda\x82\x8e\x9a\xf7\x0b\x3a\x0b\x36\x33\x8a\x88\xbb\xe8\x7a\xca\xda\xba\x99\x4d\xc1\xcd\xeb\xbb\x42\xbd\x6b\x6e\x0b\xf2\x35\x59\xc5\x23\x65\xbe\x96\x25\x10\x47\xb5\x55\xc7\x61\xc1\x0a\xc4\x16\xb0\x05\xec\xa7\xbf\x95\x79\x4a\x5e\xa9\x23\xad\x06\xb7\x58\x27\x60\x5f\xf7\xec\xde\x65\x7b\xef\xb3\xce\x41\x26\x66\x14\x3d\xe5\x81\xcd\xd6\x62\x29\x05\x6c\xcb\x7e\xeb\x61\xcf\x9f\x92\xb8\x3b\xe3\xe5\x2a\x03\xc0\xaf\x85\xa0\xcb\xd2\xbb\x71\xb8\x6b\x4c\xd0\x80\x40\x39\x85\x0e\xdb\xa1\x54\x92\xab\xf9\x3a\x71\x0c\x40\x0a\x82\x4e\xce\x65\xc9\x37\x34\xba\x06\x06\xf9\x7c\x35\xfb\xa2\x4c\xdf\xc8\xf2\xbe\x26\xe5\x2e\x76\xc6\xe1\x96\xec\x74\x3d\x4b\x3e\x3b\x10\xaf\x12\xf0\xc7\x0b\x85\xf0\x8a\x81\x70\x96\xac\x58\xa3\x19\x86\xc1\x28\x15\x82\xe2\xea\x46\xcc\x24\xc5\x31\x01\x48\x31\xf9\x65\x2b\x47\xd3\x4d\x54\xa2\x91\xb2\xac\x28\x0f\x82\xce\x6e\x94\xc8\xa2\x10\x07\x33\x35\x22\x4d\xbf\x5b\xba\x0e\x9b\x1a\xad\xb8\x25\xd3\xda\xe4\xd2\xb7\xa5\x7d\xfb\xf3\xbe\xfd\x89\xdf\xfe\xcc\x6f\x6f\xea\x97\x2f\x2b\x09\xcb\xb0\x99\xfd\xad\x25\x7f\x3f\xde\xdf\x20\x66\xbf\x8c\x19\x2b\xe4\xba\x5b\xf1\xc5\x25\xec\x08\xa2\xac\x35\x8b\x9f\x70\x45\x67\xf3\x36\x4e\x8f\x2f\xf8\x7c\x29\xaf\x9e\x54\xab\x15\xfc\x46\x5c\xdd\xea\x68\xe1\xd6\x1f\x28\xa7\x76\xd4\xbe\xa2\x6c\xeb\xa5\x25\xe6\xc6\xd2\x5d\x13\x7c\x2f\x1f\x9f\x9d\xde\xf3\xd2\x12\xea\x86\xfd\x05\x07\x45\xcd\x6f\x75\x94\x93\x2e\xa3\xe5\x43\x9c\x45\x7e\xc9\xbf\xcd\x0d\x74\xca\x0d\x6c\x5f\x7e\xb7\xeb\x29\xcb\xae\xf3\x92\xa7\xd5\xdc\x30\x00\xe2\x80\x22\xac\x92\xf0\xb6\x58\xe4\xd1\x9c\xef\x8b\x69\x1d\x89\x0c\xea\x97\xc8\x4c\xba\x8f\x4d\xe2\x14\xdc\x96\x7c\x72\xe1\x45\x71\x4e\x93\xf5\xb7\x72\x96\xe2\x10\x74\x5e\xba\x11\x77\x8e\x1b\x3a\x6c\x50\xbf\x86\x11\x0f\x94\x38\x0b\xb6\xeb\x35\x31\xb4\x46\xdb\xaf\x89\xb1\x90\xb7\x9e\x54\xa9\x5d\x87\x1b\x18\x02\x9b\xd3\x2a\xce\x5a\xf7\x5c\x0f\x33\x0c\x41\xd5\x31\xfc\xe9\xdd\x12\x63\xe7\xb5\xeb\x2d\x31\xce\xed\x30\xf5\x39\xe3\x81\x0d\x33\xed\xbd\x6e\x88\xc1\x85\xea\x39\xa6\x6b\xa2\x52\xad\x36\x4e\xa2\xce\xb6\xe8\x3a\xca\xb1\xc7\x15\x32\xce\x2a\x7f\xd2\x15\x32\x0e\x1c\x53\xba\xbb\xd7\x5d\xa6\xa0\x3d\x0e\xfa\x38\xaa\x75\x31\xcc\x9e\x57\x8f\x38\xe1\x71\x26\x6a\xe3\xf0\x64\xf7\x61\xc0\xe2\x5c\x09\x40\x10\x11\xfd\x51\xf1\x76\xc1\x68\xd7\x79\xc9\x81\xb2\x73\x18\x27\x78\x46\x7a\xaf\xbb\x50\x72\xe0\xee\x96\x07\x3b\x5d\xf9\x31\xae\x71\xd4\x96\x4a\x37\x9a\xf0\x0e\x95\x6e\x54\xd9\x96\xce\x7f\x8d\x15\x1c\x2a\x78\x59\x98\xf5\xd2\x57\x74\xbc\x08\x93\x1b\x4e\xd8\xa4\xc4\x18\xea\xff\x51\x40\xd5\x40\x15\x8e\x8d\x59\x13\xba\x18\x19\x93\x7d\x45\x84\xe2\x4e\x1d\x07\xaa\x15\xc0\x75\xe0\xdd\x77\x0b\x0f\x1e\x3c\xd6\xd5\x1d\xd0\xdf\xd5\x60\x5b\x0a\xe1\x34\x9d\x6b\x3c\xc8\xe3\xe3\x14\xdc\x81\xa7\xe6\x8c\xf2\xc2\x82\xf5\xf7\x29\xca\xc1\x19\xdd\xbf\x28\xc7\xe9\xbd\xe5\x42\x08\x9c\xcd\x1f\xfb\x42\x08\x8b\x5d\xdb\x8a\xe8\x55\x40\xaf\xab\x79\x1c\x15\x6b\xab\x7f\x3e\xed\x36\x88\x5d\xac\x8f\xfb\xdc\xf2\xa0\xeb\x40\x86\x6f\x7a\x68\x69\x09\x33\x3b\x55\x0a\x62\xae\x7b\xe0\xa2\x90\x2d\x06\xcd\xd8\xa9\xf6\xa8\x6d\x05\xb7\xc4\xa3\x47\xaf\xd4\x8a\x3b\x9a\xb5\x1d\xcd\xd2\x8e\x3f\xe1\x2b\x1b\xc8\x00\xba\xef\x95\x0d\x3d\x54\xe9\x94\x7d\xbb\x5d\xd9\xa0\xf5\xc2\x1f\xec\x72\x86\x1e\x94\x77\x50\x55\xa2\x5f\x57\x61\x05\xde\x0e\x6a\x08\x1a\x98\x6c\x70\x53\x1d\x01\x88\xb6\x46\x82\x97\x77\x0e\x74\xdd\x99\xcf\x22\xe9\xce\x0f\x1e\xb4\xbf\x05\x94\x6c\xc5\xdb\x23\x3f\x44\xea\x70\xd9\x87\x49\xcf\x30\x3a\x39\xdc\x06\xa2\x6b\x80\x35\x22\x1d\x09\xd5\xce\x2b\x27\x76\x55\xca\x5d\x99\xce\x61\xad\xdc\x7d\xb7\x93\xcb\xc3\x4a\x37\x77\xab\xe6\xce\xbc\x63\x4d\x33\x37\xae\xa6\xd0\xff\x8f\x1d\x55\xf8\xe3\x94\xe8\x84\x3d\xca\x1a\x27\xa7\x25\x3d\x30\x4d\x53\x57\x1f\x12\xae\x3f\x8d\xc2\xde\xd5\xc6\xda\x96\x6e\xdc\xaa\xa0\xcd\x40\x04\xd8\x80\xf3\x9d\x65\xf8\x5f\x0b\x8a\x7d\x1e\x13\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\x1c\xc9\x75\xe7\xaa\xaf\x88\x29\xcc\x90\x99\xed\xea\x2c\xda\x80\x0d\xb9\x07\x6d\x80\x4b\xcf\x0c\xa5\xe1\x22\x76\x73\x06\x30\x41\x50\x59\x55\x51\x5d\xa9\xce\xca\x4c\xe6\xd2\x8b\xda\x7d\xf1\x65\x0c\xd8\x80\x01\x9f\x7c\x30\x04\x9f\x7c\x35\x7c\xf6\xf7\x68\x0c\xfd\x85\xdf\x12\x5b\xae\x55\xd5\x1c\x09\x82\x61\x42\x22\xb3\x32\x23\x5e\xbc\x78\xf1\xe2\xed\x11\x33\x9b\x89\xa7\xe9\x52\x8a\x73\x99\xc8\x3c\x2c\xe5\x52\xcc\x6f\xc4\x3c\xcc\xd3\x24\x10\xcf\x5e\x89\x97\xaf\xce\xc4\xc9\xb3\xe7\x67\xc1\x78\x36\x13\x6f\x64\x5e\x25\x49\x94\x9c\x73\x03\x71\x15\xc5\xb1\x48\x2f\x65\x7e\x95\x47\xa5\x14\xe5\x3a\x2a\xc4\x2a\x8a\x25\x35\xfe\x4e\xe6\x45\x94\x26\x47\xe2\xf6\x36\x50\xcf\x77\x77\xce\x07\xf1\x0c\x46\x73\xbf\xe2\x6f\x68\x31\xce\xc2\xc5\x45\x78\x2e\xf1\xcb\x6b\x7e\x7c\x19\x6e\xe8\x0b\x74\x3e\xd3\x63\x88\x45\x9a\x94\x61\x94\x14\x62\x23\xcb\x75\xba\x2c\x44\x99\x8a\x4d\x78\x21\x45\x94\x2c\xa3\xcb\x68\x59\x85\xb1\x90\xc9\x32\x4b\xa3\xa4\x84\x2e\x79\xba\x11\x85\xcc\x2f\xa3\x85\x2c\xa6\x08\x29\x97\x1f\x2b\x59\x94\x22\x4c\x96\xf0\x5c\x64\x69\x52\xc0\x14\x6e\x32\x49\x90\xb0\x29\xce\x28\x85\x97\x06\xca\x54\x84\x85\xb8\x92\x30\x69\xf8\x57\x26\x0b\xa0\x5b\x5e\x20\x00\x84\xb7\x94\xea\xf7\x2a\xcd\x55\x47\x82\x36\xa5\x17\x21\x52\x6a\x25\xd2\x2a\x17\x45\x95\x65\x69\x8e\x94\x2e\xf3\x30\x29\xf0\x19\x87\x8b\xc2\x38\xfa\x4d\x58\x02\x21\x10\x1a\xf4\xd9\x84\x65\x11\x8c\xc7\xd1\x86\x5a\x78\xe3\xd1\x64\x7e\x53\xca\x62\x02\x0f\x38\x77\x79\x5d\xe2\x23\xa1\x01\x4b\x32\xfb\x75\x91\x26\xf8\x62\xb5\xa1\xf7\x51\xca\x7f\xcf\xa2\xb4\x2a\xa3\x18\x7f\x24\xb2\x9c\xad\xcb\x32\xd3\xcf\x55\x4e\xaf\x8b\x32\x07\x78\x97\xea\x11\x40\xc1\x10\xf0\x7c\x1e\x95\xeb\x6a\x1e\x2c\xd2\xcd\xec\x3c\x3d\xbc\x88\xca\x19\xfe\x5f\xd3\x02\x5a\x87\xc9\x4d\x36\x17\x93\xf3\x34\x3d\x87\x25\x3f\x4f\xe3\x30\x39\x0f\xd2\xfc\x7c\x96\xe5\x69\x99\xce\xab\xd5\x8c\xe6\x3f\xbb\x48\xd2\xab\x64\x46\xad\xa1\xd7\xb2\xca\x69\x92\x7b\x74\xb5\x5d\xa0\xbf\xdc\x64\xe5\x3e\xe3\xaa\xf6\xd0\x73\x15\xc9\x78\xb9\x09\x8b\x8b\x3d\x7a\x3b\x7d\x00\x02\x90\xa7\x5a\x94\x7b\x74\xd7\x1d\xa0\x6f\x19\x6d\x80\xdb\xc2\x4d\xb6\x47\x77\xa7\x0f\x40\xb8\xca\xc3\x2c\x03\x06\xdb\x03\x80\xed\xd2\x5e\xd2\x1c\x36\x6f\x38\xdb\x54\xd7\x93\xfa\x97\xec\xe2\x7c\x26\xf3\x3c\xcd\x89\xd3\x06\x06\x32\x9c\x47\x6f\x34\xfb\x0d\x74\xa0\x07\x44\xe4\xf6\xf6\x50\x44\x2b\x21\x3f\x8a\xe0\x69\x9a\xac\xa2\xf3\xe0\xcc\xec\x84\x09\xec\x94\x89\x98\x24\xc0\xfc\x13\x01\x9b\xbe\x86\x1b\xbe\x3d\x04\x9e\xc6\x7f\x61\x88\x09\x83\x02\x9e\xc4\x86\x3b\x40\x3d\xcf\xb3\x85\x86\xda\xc2\x93\x3e\xf6\x7e\x99\x81\x98\x09\x97\x61\x19\x36\x07\xdd\x79\x48\x7c\xb2\x3b\xbe\x67\x7f\x99\x06\x1a\x1d\x67\x2c\xdc\xbb\x7b\x00\x50\x5b\x7d\x2f\x62\xe3\xd3\x1e\x43\x50\x47\x17\x47\x7f\x3c\x1e\x5f\x86\x39\x4a\xab\x0f\xe2\x58\x80\x2c\x0a\x4e\x33\x90\x29\x25\xff\x26\x01\x06\x68\x6c\xb2\x30\x97\xfc\x4a\x49\x9f\xe0\x71\x99\x46\xfc\xa6\x36\xcd\xe0\xa5\xbc\x3a\x45\x59\x9c\xf3\x47\x96\x66\xc1\xcb\x34\x7b\x1a\x83\x88\x35\x6f\x01\x68\x76\xc3\x3f\x98\x79\x83\xef\x81\xf7\xc7\x23\x10\xa5\x6a\x3d\x35\x1b\xb2\x54\xc6\xa6\x24\x92\x82\xc7\x09\xf5\xb3\x42\x26\x78\xa6\x1e\xf1\xb5\x12\x1f\xc1\x09\xfe\x8b\x2f\xf4\x96\x0e\x4e\xe9\x01\x5f\x39\xdb\x34\x38\xd3\xcf\xf8\xc1\x6e\x3f\x6c\x0d\x5b\xe5\xbb\x30\xae\x68\xde\x8e\x5c\x09\xbe\xc2\xe7\x17\xf0\x8c\xd4\x9b\x1d\xec\xf4\x47\x9c\x18\xcd\x76\xb0\xf3\x9f\x19\x69\xd0\xe7\x89\x08\x59\xbd\xe5\x53\x11\x95\x0f\x0b\x51\x15\x72\x55\xc5\xa4\xa6\x56\x55\xb2\xc0\xa9\x83\x0e\x5c\x87\xa5\x48\x24\x6a\xa9\x54\xa4\x19\xd9\x06\x22\xc5\xbe\xf0\x7c\xa8\xd5\x00\x02\x9c\x87\x45\x54\x04\xe2\x2b\xe8\x2e\xaf\x61\xe6\xb1\x9c\x8a\x9b\xb4\x12\x9b\xe8\x7c\x5d\x8a\x2c\x2c\x50\x45\x3a\x08\x03\xbc\xd0\x0c\xc4\xe3\xc0\xda\x2c\x2b\x50\xcc\x08\x0e\xda\x22\x07\x04\xdf\x80\x5e\x8d\x11\xc7\x2b\x60\x42\x21\xc3\xc5\x5a\x69\x7a\xe1\xe9\xd1\x7d\xf8\x96\x03\x86\x55\xc6\x40\x8b\x4c\x2e\xa2\x55\xb4\x80\x41\xcb\x75\x20\xbc\xe7\x84\x1f\x18\x0c\x00\x7f\x1e\xce\xe3\x1b\x68\xb3\x89\x60\x79\xc8\x4a\x00\x8d\x5d\x44\xe7\x09\x76\x8d\x92\xcb\xf4\x02\xd5\xbd\x14\xa7\x6c\x23\x18\xab\x82\x50\x94\x08\xc7\xce\x80\x79\x00\x41\x68\x4a\x06\x3e\xb4\x30\xd4\x5d\xc4\x91\x4c\xca\x3a\x75\x61\x94\x45\x1a\xc7\x92\xfa\x69\x03\x05\x30\x02\xe6\x67\x70\x30\x0f\x6b\xae\xc0\x5f\x30\x21\x04\x58\x00\xdb\xc4\x6c\x4a\x30\xad\x22\xa4\xf0\x46\x12\x25\x1d\x7c\xa1\x87\xcc\x57\xe1\x42\xf6\xad\x04\x02\x33\x83\x75\x1b\x49\x15\x0e\x26\xea\x12\x04\x37\xe0\x53\x35\x1f\x90\x03\xf3\x28\x21\x3a\x6d\x14\x8a\xce\xc2\x4e\x95\x29\x55\x56\x79\x02\x53\xc7\x19\x23\x82\x0b\x98\xa6\xcc\xd1\x62\x0a\x35\xb2\xc1\x98\xa6\xd3\x22\xe8\xed\x78\xf4\x36\x31\xf3\x93\x4b\xb0\x00\x75\x0f\x36\x01\x95\x24\xb8\xbd\x05\x14\xc1\x42\xfc\x3c\x12\x47\xc7\xc2\xb4\x79\xc1\x4b\xc6\x62\xf9\xf3\x48\xf5\xd1\xa3\x08\xf8\xa3\xa7\x1a\xe8\x97\x00\x8a\x05\x17\x5b\x97\x06\xa3\xed\x43\x20\x03\x03\x27\xda\x2e\xbe\x70\x06\xf5\x16\xe5\xb5\x50\x56\x1a\x8a\x5d\xfc\x77\x8a\x0c\x73\x70\x7b\xfb\x75\x8a\x6d\x00\x72\xf0\x86\x4d\xd0\x33\x20\x86\xea\xe7\x0b\xaf\xd1\x82\x0d\x53\xa7\xc9\x94\x05\x9c\x8f\xd4\xd2\x76\x2b\xbd\x43\x44\x65\xd0\x31\x73\x44\x06\x07\xf7\xc7\x23\x54\x04\xd0\xf2\xb3\x63\x91\x44\x31\x42\x18\xa9\xf5\x82\x9f\x04\x64\x3c\xba\x1b\xeb\x77\x1a\x7a\xb0\x15\x27\x7f\x8a\x00\x80\x88\x9a\x9c\x48\xcc\x17\xb8\xcd\x5c\x8a\xd2\x46\xfe\x1c\xc4\x08\x52\xf4\x0e\x1b\x1f\x0a\x97\xca\xf0\xa9\x8f\xd0\x08\xab\x6b\x66\x05\x12\xdd\xe9\xe6\xb2\x89\xdf\x5e\x6e\xa6\x19\x4d\x0e\xc1\x76\xaf\x92\x76\x0c\xcc\x8e\xba\xc5\x65\x31\x2e\x82\xf3\x9a\xc9\x6e\x97\x03\x60\x7f\xc4\x89\x28\x08\x2d\xba\xb5\x56\x1b\xba\x5c\x9a\xb5\x2b\x82\x06\x03\x11\x2a\xd8\xa6\xbd\x6a\xed\x65\xc3\x75\xd3\x6f\x2f\x79\x39\x46\x77\x63\x26\x32\xaf\x89\xbb\x36\xa8\x1c\x1f\xc7\xf1\xc9\xf5\x42\x66\x25\xe9\xa9\x82\x45\xac\xa1\x14\x69\x28\x74\x59\xd4\xde\xb4\x9b\x95\x96\x91\x64\x53\x87\x5f\x10\xbc\x88\x96\x20\xb6\xaf\x40\xbf\x93\x17\xf8\xb6\xd0\x7e\x21\x3a\x41\x59\x16\xdf\xa0\x88\x41\xb1\x59\x22\xf0\x8d\x69\x4d\x7a\x41\xc2\xb2\xdd\x98\x65\xc3\xfd\x82\x12\xa4\xd0\x52\x03\xe0\xbd\xca\x50\x6b\xa0\xe4\x9c\x3a\x82\x6b\x01\x72\x68\x2e\x49\xd7\x80\x18\x85\x6e\xe0\xc3\x26\x48\x76\x80\x09\xef\xe5\xf5\x22\xae\x96\xf0\x85\xbc\xc0\xb9\x44\x14\x58\x37\x2f\x83\x16\x35\x3c\x8b\xd3\x54\x4c\x4e\xcb\xb0\xac\x8a\x09\x3c\xbd\x86\x5e\x13\xdf\xec\xfb\x03\x67\xe3\xf7\xf5\x17\x1d\x54\x99\x5a\x6c\x82\x20\x60\x87\x8b\x98\x27\x4a\xd4\x6b\x60\x85\x4d\x98\xbd\xe3\x4f\xef\x99\xfc\xb7\x77\xb8\xea\xcd\x0d\xd3\x25\xf9\x46\xa3\x89\xc3\x46\x13\x70\xb0\xef\xa6\xaa\xab\x32\x23\x81\x03\x46\xb8\x1a\x1f\x10\x15\x62\x57\x02\x69\xd0\xba\x65\x8e\x83\xcf\xe9\x05\x7e\xd6\x88\xbd\x93\xd7\xef\xbf\x14\x9f\xc1\x4b\xe2\xc0\x2c\x4c\xa2\x85\x67\x2d\xbc\x95\x37\x39\xd1\x20\xcc\x0a\x3e\xfc\xa2\x78\x28\x96\x29\xac\x6e\x92\x96\x30\x04\x28\xdf\x2f\x61\x3d\xa5\xbb\xf0\x86\x77\xc8\xa4\x47\xa4\x7c\x5f\xf1\xf3\x52\xc6\xb2\x94\x9e\xc6\x80\xbe\xd9\x09\xc0\x6b\x8b\xbe\x21\xdf\xee\x84\x82\x49\x22\x88\xe3\x63\x51\x23\x19\x4f\x6f\xd4\x29\x4a\xc1\xbc\xb4\x98\x7b\x9d\x4d\x10\x77\x42\xbe\x46\x72\xde\x76\xdf\x86\x73\x98\xd1\xd2\x72\x03\x87\x50\xce\x65\xa9\x79\x17\xf9\xdd\x50\x8f\x58\xf8\x6a\x2d\x13\xf3\x35\x75\xd8\x55\x01\x63\xae\x9b\xf2\x2e\x53\x1b\xa1\xe2\xc6\x82\xe3\x32\x21\x07\x77\xc0\x2e\x02\xa3\x06\xfe\x21\x33\xcb\xe1\xd2\xab\x75\x04\x3b\x1f\xbb\x16\x30\x74\x07\x0a\x4a\x93\xab\xde\xda\x8e\x49\x73\xa5\xc7\xdb\xb3\x22\xe1\xca\x0c\x3c\x6d\x4b\xe1\x0e\xc1\x3c\xee\x9b\xd7\xbd\x65\x53\x0b\xa9\xa9\x9a\x27\x51\x3c\x97\x0b\x19\x5d\xb2\xc5\x47\x53\x04\x60\xee\xbc\x03\x30\x55\xa4\x01\xe3\x40\xa1\x0f\xda\x10\x35\xfb\x1e\x11\x45\x8e\x5c\x82\x8f\x18\xc5\x64\x34\xea\xed\x44\xc1\x1c\x65\xec\x86\x71\x54\xde\x04\x43\x22\xa4\x36\x77\x57\x92\xec\x4d\xd1\xff\x97\x33\xff\x77\xe4\x4c\xad\xdb\x54\xec\x25\x76\x76\x0f\x50\xec\xea\x7a\x7e\xfd\xe6\xf5\x53\xb6\xb0\xf6\xf6\x3d\xd1\x8c\x73\xba\x63\xb8\xb6\xb0\xc6\x80\xd5\xe7\xe1\x25\x6c\x23\x70\xd8\x24\xbb\x0d\xe7\xd0\x45\xf4\x38\x03\x81\x35\x10\x2d\x64\xcf\x82\x72\xdc\x93\x34\x63\xd7\x16\xf6\x43\x2d\x16\x13\x70\x27\x36\x2d\xfc\xbe\x81\x70\xb9\x0a\xa7\x61\x81\x0b\xfe\xee\x7d\x3f\x24\x5c\xde\xae\xaf\x4f\x24\x30\x95\xf4\x10\xdb\x17\x2a\xa6\x74\x96\x2a\xeb\xd3\x9f\x92\x01\x5e\x1f\xe7\x18\x0d\x27\x98\x91\x57\x7b\x6d\xe6\x03\xd3\xf1\x29\xd0\x71\x7b\x2b\xce\xd2\x6f\xd3\x2b\xc0\xb5\x36\x03\x8a\xec\x28\xd3\xf0\x01\x62\xc4\x78\xdc\xa2\x9b\xb4\x95\x7b\x6f\x6f\x35\x4c\xc3\x72\x47\xa2\x3e\x2d\x13\xa2\xf1\x90\x07\xed\x2e\xeb\xe0\x52\x14\x11\xa3\x67\x14\x29\xc7\xf9\x3b\x2d\x94\x75\x4c\x0d\x4e\x92\xce\x06\xca\xd7\xc1\x16\x35\x4a\x00\x01\xf0\x25\xd2\xae\x43\xe7\xda\x09\x37\x5d\x67\x63\x9c\x77\xaf\xb7\x31\xf4\x59\xcb\x39\x70\xfe\x00\xee\x6a\x8b\xc8\xe0\xad\xd6\xa9\xac\xe2\x21\x8e\x41\xaf\xdc\x2c\x15\xa8\x40\x49\xe5\xe0\x88\x51\x0d\x8d\xda\xee\x33\xdd\xd1\xed\x2d\xc4\x81\x1d\xca\x17\xae\x97\x33\xe4\xff\xa2\x7b\xf4\xd3\x3a\xc0\x1f\x10\x68\x56\x73\xa1\x5a\x94\xe4\x6d\x87\xdc\xe4\x3a\x55\x7b\x7a\xc2\xd9\x3d\x9d\x60\x45\x61\x66\xf9\xed\xe4\x85\x1e\x43\xbb\x03\x63\x59\xa1\xa8\xc7\x88\x03\xee\xa0\x5a\x7c\x85\xeb\x43\x71\x22\x8c\xaa\xca\x1c\x85\x29\xed\x02\x16\xa1\x6d\x36\xd3\xde\x2e\x05\xd0\xc0\x6e\xcc\x0f\x97\xe9\x26\x04\x17\x6a\xa0\x71\x20\x5e\xe7\xd1\x26\xcc\xa3\xf8\x46\x87\xb7\xdc\x58\x18\x33\xc9\xd0\x3c\xbc\x0f\x6d\xe6\xc0\xb9\xc0\xe7\x86\xdb\xdd\xf4\xb6\x4d\xe0\x83\x1c\x6d\xd5\x67\x17\x47\xdb\xac\xe4\xc7\x81\x65\x62\xc1\xb3\xd3\x32\x0d\xca\xa8\xce\x75\xe2\x1e\xba\x49\xdf\x42\x6d\x5f\x02\x9d\xaa\x4c\xad\x66\xec\x6a\x06\xae\xf6\x4e\xeb\x34\x38\x91\xae\x85\xea\x8a\x84\x0c\xad\x54\x91\x71\x4c\x64\xe7\x60\x52\x2d\x00\xd5\xb5\x5a\xdf\xc8\x18\xc3\xea\x63\x9e\x40\xa7\x22\xed\x16\x40\x9b\xa5\xd0\x69\x9c\xe0\xc5\x33\xbf\xd9\x00\xf1\x45\x31\x7a\x31\x15\x97\xd6\xe2\xdb\x18\x53\xf5\xb2\x16\x82\xa1\x6c\xb4\x14\x17\xf2\x86\x96\x7b\x89\x46\xe1\x3c\x05\xff\x03\x68\xac\x47\x51\x79\x5c\xe1\x5d\xf8\xca\xfd\xc0\xa6\xe0\x80\xc4\xb8\x5e\x0a\x4a\xa8\x9c\x2e\x0a\xb7\x3e\x0d\x93\x14\x0c\xde\x30\xfe\x46\x86\x4b\x99\xff\x02\xa0\x2b\xdf\x04\x07\x2a\x52\x15\x04\x2e\x95\xab\xa7\x41\x2c\x16\x52\xc7\x3e\x24\xf8\x40\xc0\x0b\x3c\x32\x7e\x47\x52\x1c\x9b\xb9\x7e\x0f\x9f\x29\x0f\xc1\xd2\x10\xe7\xfa\xee\xd1\x7b\x7f\x6b\xc3\x1e\xec\x60\x66\x16\x82\xb2\xfa\xd5\xf2\x41\x37\xd2\x51\x7b\xd8\x95\x1c\x69\xde\xdb\xae\x04\x0b\xc4\xe9\xcd\xc3\x53\xd6\x41\x85\x8e\xc4\x3c\x5c\x5c\x70\x69\x83\xda\x33\x1c\xa2\xc7\xb9\x26\x92\x7c\xb3\x40\x3c\x27\xf1\xaa\x82\xfd\x8a\x5d\xa3\x79\x84\x3e\x9b\x5e\x02\x15\xcb\x86\xad\xb7\x8c\xc2\x98\x03\xde\x71\x08\x7c\x0f\xf0\x52\x0c\xc3\x52\x23\x0b\x93\x19\xb4\x86\x9d\x87\x9f\x59\x7d\x06\xfc\x06\x98\x2f\x19\x30\x4e\xb9\x91\x36\x4e\xbd\x1e\x23\xc3\xdd\x72\x68\x21\x34\x63\xad\x23\xe7\x6d\x76\x71\x4e\xdb\x4f\x85\x5c\xeb\x45\x16\xa3\xb6\x57\xd3\x1d\x97\x1d\x61\x9e\xaf\x43\xf4\x18\x17\xa6\xed\xe4\x8f\x6e\xbb\x0d\x4a\xc7\xeb\x69\x59\x96\x8a\x6a\xc4\x9e\x48\x28\xed\x79\xaa\x49\x80\x7a\xef\x8a\x00\x4f\xa6\x2d\x0f\x75\xc8\xb2\xb4\xa6\x67\x8f\xd6\x72\x4c\xcf\x2d\xd2\x8b\xdd\xe0\x51\x5a\x37\x4d\x0d\x0d\x3c\xf2\x2b\x09\x8c\xb2\x53\xed\x93\x11\x71\x7a\x03\x19\xdf\x65\xab\xa9\x2e\x0e\x15\xa8\x16\x4d\x8f\x30\xef\x31\x40\xf3\xa9\x1d\x77\x74\xa7\x85\x2d\xee\x00\xa4\x81\x50\x3b\xea\xd3\xcd\x97\x01\xbd\xa8\xed\x97\x61\xbd\x38\xac\xe9\x76\x35\x5f\x94\x0e\xea\xd1\x8b\x2c\x14\x86\xed\x97\x7e\xbd\xc8\xc6\x08\x22\xb3\xa3\x62\xc4\xa6\xc6\x88\x41\x75\xbd\x97\x6a\xcc\x30\x04\xde\xd6\x8d\xee\xb2\x7d\xba\x39\xd3\x6f\x75\x6a\x6b\x66\xd0\xea\xdc\xd1\x9e\xdc\x6a\xcb\x0c\x5a\x9d\xb5\x55\x1b\x9a\x47\xb7\x31\xd3\x95\xec\x19\xb6\x3a\xf7\x48\xef\x0c\x5b\x9d\x0a\x0b\x52\xb2\xc5\x59\xea\x1a\x32\x4c\xf3\x2e\x4d\xe0\x90\x9c\xa7\x3c\x00\xc5\x03\x9b\xa1\x10\xef\xde\xeb\xf0\xdf\x16\x78\x3b\xa5\xc7\xc0\x1c\x3a\xd8\x66\x44\x91\x6e\xc8\xc2\x28\xb7\x83\xc3\x4b\x15\x0c\xbc\xb0\xa6\x15\xa1\x77\xab\x62\x64\x97\x3a\x10\x08\xc3\x06\x6c\x78\x5c\xf8\x81\x0a\x7a\xfa\x5f\x0a\x1d\x10\x1c\x31\x60\x13\x15\xa1\x9f\x6c\xc8\x98\x20\x18\x0a\x51\x84\xc9\x4d\x5d\xab\xed\x00\xf0\x3f\xb6\x56\xe0\xcf\x41\x06\x7a\xf0\x6e\x6a\x5f\xbd\xc6\x3e\x0c\x15\x43\x2b\xbe\x06\xe7\x58\x35\x2a\xb2\xc6\x2b\xb9\xab\x7d\xf3\xcd\xd9\xd9\xeb\xfb\xc4\xcd\x28\x69\xcf\x54\x4e\x88\xbd\x00\xff\x09\xa6\xd2\xc0\x0e\x43\x25\x43\x95\x7f\x5f\x8a\xc5\x3a\xcc\x0b\x59\x1e\x57\xe5\xea\xf0\x67\x13\x13\x6e\xc3\x51\x55\xe8\xc0\x1a\x46\x62\xad\xde\xd0\x9e\xdd\x1e\x86\x43\x60\x69\x22\xb2\x5c\x2e\xe5\x2a\x4a\xc0\x92\xc2\x0a\x8b\xc2\x89\xbd\x39\xc3\x6c\x0d\xbe\xd5\x0b\x7c\xea\xc1\x37\xb7\xf4\x43\xdb\x32\xb0\x8e\x01\xc1\x27\xb3\xbf\x16\x9d\xea\x08\xc8\xf5\x43\xa7\xf5\xef\xfa\xac\x22\x72\x3c\x06\xda\xb5\x45\x2d\x20\xd7\xdd\xe9\x04\xc5\x02\x8b\x1b\x98\xb2\xf3\xa3\xbf\xcb\xe3\x15\x88\x15\xaf\xf9\xa5\x7c\x6a\x97\xd6\x73\x96\xd9\x27\x40\xed\x59\xee\x14\x0e\x54\x51\x22\x0a\xfd\x6d\x28\xd4\x5f\x5d\xa3\x39\xf5\x26\xad\x10\x07\x7f\xec\x58\x14\x2a\x9b\x81\xba\xa1\x87\xcc\xa6\xe9\x1c\xeb\x46\x92\x73\xb2\x0a\xb9\x5b\xf0\x84\x5f\xa9\x58\xf7\x46\xf7\xa3\xa0\xb5\x6a\x8e\x15\xbe\x73\xf1\x77\xe2\x2c\x7d\x8b\xf5\x50\x60\x8c\xf9\xb0\xcb\xca\x75\xad\x0d\xbe\x38\x93\x9b\x2c\xa6\x32\x60\x68\xa1\xd9\xa9\xa7\x1e\xcc\xe3\xe8\xb9\x1b\x6d\x54\x18\x75\x84\x1c\x95\x5d\x87\xd3\x73\x86\xa4\x6c\x4b\xdd\xfe\x53\x16\x22\x36\xfc\x9a\x93\x66\x35\xe3\xaf\x33\xf0\x38\x22\x19\xd1\xa8\x44\x54\x8f\x4a\x68\x6c\x74\x81\x89\xc3\x27\x9c\x9d\xe3\x50\x24\xf1\x8f\xce\xb3\xe9\x11\xbf\xc7\xef\x60\xd9\x83\xd7\x02\xdb\x2e\xac\xe2\x12\xb5\x1d\x33\x08\x02\xa3\xb0\x24\x6c\xd8\xa6\x2c\x00\xbf\x04\x1c\xd1\x25\x79\x2d\xf8\x9b\xcd\x7e\x74\x1f\x27\x34\xce\xc4\x78\x9c\x97\x54\x8f\x06\xa0\xe8\x7d\x40\xd8\x79\x3e\xfb\x35\x20\x0f\x28\xf7\x2d\x10\x59\x04\xf5\x97\x8f\x1e\x81\x93\xb4\x72\xf0\x75\xe2\xa9\xbc\x6f\x00\x5b\x42\x0c\x5a\x64\x79\x7a\x19\xa1\x4b\xbc\xe6\x1d\xc5\x79\xb7\xb9\x64\x6c\x39\x3d\x89\xed\xac\x4d\xe6\x82\xa6\xba\x2d\x0b\x1d\x67\x11\xbc\x00\xf9\xb6\x0e\xa9\x24\x4c\xe3\xbf\xe1\x57\xc8\x91\x45\x05\x2e\xb0\x5c\x16\xec\x83\xfd\xfc\xf4\xd5\x4b\x55\xa1\xbd\xd4\xe5\xd4\x26\xc7\x47\xb8\x6b\x74\x30\x55\xda\x3f\x2d\x4e\xff\x63\x81\x7c\x3e\xd5\xae\xa1\x99\x99\xfd\x58\x83\x06\xb6\x44\x51\xc2\xa4\x35\xcd\x58\x48\xba\x12\xa2\xcb\x10\x31\x95\x24\x53\x71\xc5\x52\xb0\xce\x06\x64\x80\xe0\xaa\x4e\xc5\x07\xdc\x7e\x2e\x49\x58\xfc\x7c\xcf\xd5\x86\xb7\xb4\x8a\x47\x08\x4c\x2f\xe8\x1d\xc7\x3b\x37\x96\x80\xac\x68\xb1\x89\x57\xa7\xad\xd5\xb3\x11\x33\xcf\x13\x1a\x52\x75\x3d\xe1\x30\xab\x01\xa4\xfb\x21\xb9\x3d\xe8\xea\x34\x3b\x76\x74\x2e\x31\xe3\xb1\x01\xa7\x03\x05\xa3\xab\x80\xd9\xc6\xf3\x51\x0c\x7a\x13\x25\x08\x0f\x51\xfa\x4d\xa6\xae\xca\xe3\x09\xac\x35\x93\xb9\xf8\xd7\xc5\x83\xe6\x43\x3b\x0f\x1d\xd0\x21\xf3\xc8\x9a\x1e\x1a\x96\xea\x51\x78\x5c\xc1\xe3\xe2\xf4\x4c\xc6\x60\x81\xe0\x4b\x65\xb9\x38\x41\x21\x05\x8e\x0d\x12\xa7\xcf\xe3\xe5\xd2\x6b\x58\x22\xf8\x3f\xda\x43\x47\x5c\xdb\x1a\x30\xdf\x3c\x47\x1b\x33\x09\x63\x47\x9b\xd0\x24\x8b\xc5\xc0\xf4\x1c\x7e\xb4\x33\x24\xe0\xc7\xd0\xd1\xf9\xac\xfc\xcc\xab\x80\xb8\x47\xa1\x87\x0d\x7d\xf3\xd2\xc3\x65\xf1\x51\x30\x59\x06\x65\x31\x99\x7b\x58\x27\xfb\xee\x3d\x96\xeb\xfa\x6a\x53\xdc\xb2\xc3\x7f\x25\x5c\x5e\x33\x61\x74\xcd\x90\x6f\x13\xc5\x02\x08\x61\x2a\x1e\x5c\x01\x96\x8d\x30\x3b\x9b\x33\x45\xf4\x1b\xc4\xf9\x67\x7f\xfe\xd7\x7f\xc5\xbc\x16\xcb\x04\xfb\xf8\xe2\x6f\xf8\x1b\x33\x0e\xa0\x71\x2c\xe0\xef\x77\x47\xf8\xf2\x7d\xbd\xcc\x09\x73\xc2\x44\xb7\x95\x37\x31\x41\x49\xe2\x35\x4c\x07\x1f\x61\x84\x0c\xb3\xc1\x19\xda\x45\x22\x49\x93\x43\x12\x86\xda\xe2\xc7\x86\xc0\x64\x38\x66\x2d\x6a\xa5\xca\x87\x41\xcf\x78\x57\x0c\x9e\x68\x44\xc2\xd6\x9d\xbb\x93\x05\xa2\x56\x82\x0d\x55\xf1\x2b\x1c\xe5\x48\x49\xda\x5f\x29\xb9\x8f\xab\xa8\x5a\x81\x9c\x2e\x56\x91\x92\xfb\x9a\x5d\x49\xa2\x39\x8b\x6b\xfd\x11\xac\x05\x25\xa9\xa3\x4e\xc5\xec\x52\xf5\xad\xea\x32\x9c\x41\x0d\xaa\x2c\x5d\x47\x85\x15\x5d\x14\x98\xd1\x42\x1a\xfe\x38\x35\x01\xc6\x76\xd7\x3c\xe2\xad\x2d\x50\x5f\xb8\xdc\x26\xea\xd5\x75\xeb\xc0\x8e\xd0\xd3\xdb\xee\x3b\xb6\xf9\xe8\x67\x0d\x84\x42\x6a\x3c\x98\x49\xd9\x6a\xbc\x38\xd1\xac\x2d\xd6\x8b\x89\x5e\x0c\x9a\x09\x4d\x6f\x98\xb0\xef\xce\xc1\x10\x48\x3e\x17\x84\x7d\x50\x4a\x1e\x2a\xa5\xe4\x3a\xba\xd6\x02\xca\xd1\x91\x6d\xf8\xc6\x54\xb3\x46\xbc\x02\x58\xe9\xb7\x04\x19\x39\x78\x5b\x88\x7f\xe4\xc4\x32\x06\xa7\xd5\xe9\x1c\x8b\x03\xa5\x89\xa8\x49\xbf\x63\x3c\x02\xfb\x04\xfd\x8b\x00\xc5\x7b\x40\x95\xf9\x9e\xaf\xdc\x40\x74\x9a\xad\x9f\xdc\x98\xab\xe3\x34\x93\xfd\x48\x52\x43\x09\x14\x55\xea\xff\x06\xb8\xe0\x71\x1c\x7b\x0c\x7c\xb7\x72\x48\x5d\xff\xbf\x42\xcd\x38\x15\x13\x25\x09\x72\xd4\xca\xda\x32\xc2\x99\x69\x72\x4e\x74\x21\x48\x5d\x10\x3d\x62\xe0\x95\x16\x6a\xe8\x93\x00\x62\xe6\xbc\x8b\x15\x77\xca\x20\x64\x75\x00\xd8\xa6\x57\x30\xc1\x32\x0a\x63\x0c\xbf\xc1\xe6\x53\xd6\xe3\xb3\xa8\x58\x84\xf9\xf2\x6d\x42\xc7\x73\x8e\xec\x17\x5d\x27\x82\xf3\x3a\x16\xee\x80\x2d\x91\x8a\xe9\xcb\x96\x50\xed\x16\xab\xfd\x82\xb5\x53\xb4\x2a\x34\x6a\xc4\x34\x1b\xf6\xb6\x83\xac\xae\x28\xdd\x57\xe6\x32\x41\x46\x8e\x42\x7c\x12\x2e\x6b\x96\xf8\x08\x11\xb0\x68\x19\xb7\x1e\x5d\x4f\xa0\x6e\xb8\x29\xb4\x5f\xf3\x1d\x8c\xe6\xe5\xb8\x86\x78\xfe\xc3\x7e\xc7\xd6\x00\x30\xbf\xb1\xcd\x81\x9e\x6f\xbe\x0d\x7e\x89\x2f\x3d\xdd\xc1\x69\x32\x76\x9d\x1d\x2e\x33\x43\x61\xa1\xb9\x96\x8e\x6a\x14\x3a\x4a\x0e\xc4\x4d\x74\xb3\xe0\xdb\x94\x2d\x70\x31\xa1\x49\x72\x1b\x0c\xc8\xf2\x67\x70\x26\x68\x50\xb3\x9a\xe8\x06\x75\xc7\x81\x87\x51\x78\x95\xc8\x74\xd5\xc2\x03\xf6\x58\x0b\x0f\x9a\xd6\xa7\x20\x62\x38\xe1\x01\xc5\xaf\x74\x4e\x5c\xbb\x96\x87\x8d\x9a\xe2\x5e\xcf\xa9\x53\x62\xf6\x65\x43\x59\x3e\x16\xda\x8d\x30\x7a\x3d\x2c\xd8\xa8\x6f\xb8\x0d\xec\x44\xe5\x7b\x64\x3a\x3b\x10\xec\x92\x7d\x9d\x46\x78\x5f\xf2\xd3\x98\x48\x7d\x82\xe2\x45\x4b\x4c\x34\x85\x84\x91\x05\x6f\x0b\xf9\x1a\xfb\xa1\xbc\x2c\x8e\xea\x1f\x4e\x92\x6a\xf3\xb2\xda\xcc\x41\x2b\x1e\xd9\x0f\x27\x9b\xa8\x7c\x9b\x64\x69\x56\xa1\xef\xbc\x34\x62\x05\xd6\xca\x95\xa7\x8e\x4c\xd1\x7e\x83\x4d\xca\x12\xaa\xa0\x36\x8b\x02\x8c\x0c\x7f\xa8\x3e\x42\xb3\xc1\x87\xa9\x92\x56\xc6\x9c\x24\x4b\xca\x69\xe5\x26\x6b\xed\xc9\x22\x65\x0c\x74\x05\x5b\x7a\xaa\x46\x9a\x5a\xa8\x2f\x6b\x6b\xad\xf3\xdc\x31\x27\x06\xf3\xb4\xa4\x04\x5a\x39\xda\x35\x30\xdb\x3a\x5c\x72\xdf\xbe\xac\x2c\xe5\x02\x97\x18\x16\x8b\xb8\x52\xdd\x14\xd6\x39\x87\x84\xd1\x65\x24\x28\xea\x64\x6d\xa0\x95\xbe\x49\x06\x23\x33\x63\x58\xb6\x95\x32\xae\x65\x7d\x19\x48\x3d\xf5\x3b\x98\xf4\xdd\x96\xf3\xd5\x14\x02\x79\x50\xc2\xc4\xfd\x6d\x5d\x1a\xf8\x53\xd6\xb7\x0d\x03\x85\x17\x92\xbb\x02\xb9\x68\x0e\x63\x2d\xd6\xb8\x26\x01\x7d\x09\xe3\x22\xc5\x25\x50\x7b\x98\xb5\x42\x95\xc7\xe3\xe1\xd1\xb5\xa6\x39\xc4\x23\xcb\x53\x25\xc4\x31\x60\xe4\x6f\xeb\x68\x56\x05\x4b\xf8\x91\xe7\x50\x88\x4c\xfc\x7b\x27\xa9\x11\xc4\xfd\x93\xd4\x4e\x6f\x1b\x8b\xed\xc8\x51\x27\x6c\xec\xb1\xf4\x12\x71\x74\x49\x87\x26\x4a\x45\xb5\x4d\x5a\x52\x20\x02\xe3\x0c\x61\x82\x27\xbe\xbe\xc7\xb2\xda\x8c\xcf\x96\xf1\x3b\x3e\x6f\x06\x16\x17\x99\x8f\x76\x90\x25\x58\x20\x29\x9d\xb2\x28\x6e\x8a\x52\x6e\xa6\xc8\x5c\x00\x2b\x8e\x2e\x64\x6c\xf2\xdc\x14\x2e\x99\xac\xd3\xa2\x3c\x22\xda\xd9\x44\xb6\x9d\x81\x67\x86\xd2\x65\xc9\xbd\x21\xde\xfd\x53\xd8\x20\x7d\x3e\xd3\x2c\xf7\x4d\x58\xbc\xce\xe5\x2a\xba\x36\x23\xc2\x52\xd2\xe1\x56\xb6\x3d\x0d\x1e\xc7\xfc\xfa\x68\x36\x9b\x88\x3f\x33\x94\x20\x61\x55\x19\x29\x08\x1c\x84\xc6\x67\x21\x0d\xb4\x9d\x8b\xc1\xd0\x56\xa8\xc6\xea\xcc\x2f\x5a\x39\x1d\x1e\x87\x4a\xc4\x72\xd1\xf2\xe4\x65\xca\x0b\xe9\xc4\xc1\xb9\x4c\x9f\x79\x80\xa2\x46\x08\xe8\x2a\xcd\x61\x4f\x72\x6c\x5d\x28\x4d\x8f\x8e\x1f\x9e\xde\xcb\x59\x8d\xf0\xd7\x08\x49\x38\xf1\xdd\x10\xe3\x9e\x81\x5c\x8c\xa6\x37\x9d\x1f\x85\x34\x7e\xe5\x0a\x01\xc7\x51\x82\x27\x79\xdd\xee\xf1\x48\xf7\x51\x65\x00\x4d\xaf\x62\xa8\x0a\x00\x47\x62\x0b\x6f\xa0\x5f\xc7\x39\x60\xa7\x14\x40\x25\xf7\x7b\xe3\xcb\xca\x82\x04\xab\x38\xbb\x01\x59\xe1\xc1\xfa\xbb\xed\x9f\x84\xa0\x64\x41\x7c\x60\x9c\x59\x37\xb5\xd6\xc1\x96\x08\x71\x23\x98\x5c\x0b\x3a\xd7\x83\xc5\xcd\x32\x80\x51\xb3\x12\x40\xdb\xb6\x4e\xc0\xb8\x3b\x8e\x3c\x5c\x12\x30\xb8\xee\xa6\x34\xe0\x27\x5f\xf9\xbe\x88\xbb\x2a\x39\xe8\x5b\xda\x69\xd3\xda\xec\x8a\x9b\xdb\x52\x04\x92\x3c\x7a\x1d\xe7\xb0\x70\xe2\x00\xf7\x30\xfc\x9a\x92\xa9\x2f\x74\x72\x53\xbf\xc6\xfd\x9b\xa0\x5d\x00\x73\x38\xc0\x0e\xfc\x93\xf4\x85\x72\x0f\x6c\x39\x34\x7e\x51\x86\xca\xd3\xf2\x5a\xe7\x50\x4f\xd1\xbe\x5d\x50\xc1\x7c\x95\xab\x50\x0d\x99\x0a\x6a\xe3\xc2\x76\x04\x63\x2b\xe6\xd3\x69\xac\xe7\x40\x72\x53\x36\x13\x9c\x56\x90\xa2\xda\x7c\x55\x6a\x89\x03\xea\xac\xf6\x36\xda\x84\x75\x1d\x50\xb4\x15\x54\xb8\x23\x10\xe2\x65\x5a\xaa\xc3\xbe\x08\x12\x61\x91\xa4\x58\x87\x97\xe0\x53\xa9\x4b\x3c\x86\x4d\x12\x1a\x67\x4e\x69\x2d\x75\xde\x8d\x8e\xf6\xa0\xe4\xd7\xa8\xe1\xd1\x69\x15\x48\x0f\x75\xe5\x13\x0b\x7e\x78\xb8\xb1\xe1\x7a\x53\x8a\xef\x9c\xc6\xc3\x82\x27\xa5\x70\x55\x0e\xba\x4e\x3b\xce\x3b\x3b\xe7\x4e\xfa\xf5\x81\x1b\xf1\xe9\x68\xa4\x52\x73\x03\xa7\x35\x77\xb0\x0e\x7f\xb2\xcc\xb3\xb1\x78\x30\x5c\xdd\x0c\xf3\xd6\x13\xc4\x14\x34\x24\xfb\x17\x15\x40\x4f\x1d\xcd\x56\x81\xdd\x0c\x49\x75\x0a\x9b\xc1\x88\x54\xd3\xbf\x52\xe1\x28\xb6\xc6\x9a\x21\x29\x1d\xa5\x51\xc3\xb8\x15\x28\x6e\xe9\x69\x33\x24\xe5\x84\x5e\xd9\xcc\x53\xe9\x14\xf3\x65\x4d\xc7\x38\x30\x1c\xf0\x17\x8f\x1e\xb9\x79\x25\xf0\xb3\x54\xf2\x84\xfc\xa9\x0c\x48\xc8\x68\x62\x87\x84\x60\xb1\x6f\x45\x1b\xa8\x2c\xf1\x3a\x06\x2a\xbf\xa3\x59\xb8\xfb\x4f\x05\xb0\xc1\x8c\x26\x17\xc6\xe2\xa8\x91\xd8\x1a\x32\xd3\x75\x24\x1d\x21\xb3\x4e\xb2\x0f\x47\xcc\xb8\xcd\xfe\x21\xb3\x7d\x22\x60\xc7\x74\xf3\xc5\xc9\xab\xaf\x7a\x83\x60\x18\xc5\xb6\xb1\x71\x92\x38\x14\xac\xa1\x6b\x2d\xdc\xa8\xd7\x8e\x01\xb5\x8e\x78\x9a\x01\x3a\xf1\x9d\xc2\x8b\xdc\xc9\x45\x20\x60\x27\xce\xf3\xea\x17\xdb\x63\x76\xb5\x4c\x04\xb8\x1a\x13\x87\x67\x8e\xc4\xc3\x2f\x96\x0f\xc9\x0d\xb0\x63\x98\xb1\x39\xe4\x58\x64\xdb\xb8\x79\xbc\x77\x5c\xaf\x37\xac\xd7\x17\xd5\x73\x48\xbb\x35\xa6\x57\x64\x1d\x41\xbd\x16\x85\x5c\xa2\x34\xca\x52\x1e\xd8\x62\xe9\x51\xa3\x5a\xda\x11\x40\xcd\x8a\xb0\x1d\xa2\xe7\xdb\x63\xe7\x6c\x10\xd4\x22\x40\xfb\x45\xcf\x5b\xb5\x64\x63\xe3\xed\xaa\x70\x10\xf4\xd9\x39\x60\x4e\x17\x53\x70\x76\x3b\x87\x1d\x54\x08\x1c\x88\x1c\x13\xd0\xcb\x23\xa5\xfd\x6a\xca\xd7\x43\x9b\x60\xca\x71\x40\x4e\x2e\x53\x6a\x4c\x8b\x82\x1d\xa6\xb5\x43\xf4\xbc\xa7\xd6\xcc\x84\x8e\xf0\x76\xa9\xcb\x30\x46\x02\x4f\x26\x2a\x32\xc9\xaf\x86\x2f\x16\x18\x8a\xa8\xeb\x08\x27\xf4\x23\x56\x71\xd5\x57\xaf\x6b\xdc\x6c\xd7\xef\x7b\x73\x54\xe2\x54\xb2\x63\x4a\xc6\x58\x86\x61\x54\x59\x62\xda\x86\x23\xb5\x74\x2c\x47\x79\x72\x54\x6c\xa5\x93\x4a\x8d\xf3\x93\x05\x97\x4c\xd7\x62\x9d\x38\xca\x29\xbf\x37\xc1\x4e\xdd\xf0\xae\x79\xdc\x14\x4d\xc6\xc9\x8c\xf0\xef\xf2\xf6\x32\x8e\x16\x0c\xc8\xba\xae\xbc\x41\x5a\xc5\xcb\xe4\x61\x69\x77\x2f\xcf\xf2\x8b\x8f\x13\x36\x3e\xb5\x04\x65\xaa\xbc\x09\xaf\x94\x91\x59\xe9\x67\xf3\xcd\x7c\xa0\xb7\x75\xca\x11\xe3\xd5\x49\xe7\xa4\xab\x1b\x11\x6b\x14\x70\xe5\x26\x53\xe9\x59\xb5\xc0\x25\x5e\x38\xe4\x92\xb3\x2f\x76\x2d\x6c\x89\xf7\x6e\x61\x63\x68\x85\x1b\x42\x35\x7b\x23\x33\x49\x97\x04\xaa\xdf\xcf\x0b\x74\xa5\x8c\x44\xb5\x90\xbd\xa7\xfa\x7a\x3e\x1d\x77\x4e\xa9\x74\x6d\xa2\x97\x7f\xe2\xeb\x1e\x3c\xd5\x77\x13\x13\xa2\xfe\xa5\x89\xc7\xab\xd2\xed\xf7\xcc\xc2\x81\x69\xf1\x14\xde\xc7\xb6\x60\x5d\xf1\x41\x5c\x98\xdf\xed\x84\x7d\x5f\x7f\x9d\x0f\x51\x68\x50\x02\x7f\x00\x95\xa9\x73\xa7\x95\x77\xe9\xb3\x0f\x37\x72\xb1\x50\xdc\x48\x2e\x4e\x8c\xc6\x59\x8d\x80\xcf\x0b\x8c\xe1\xea\x5f\xa0\xbf\xf2\x93\xeb\x2c\xd7\x68\xa3\xe2\xec\xc3\xb3\x96\xed\xb9\x0f\xba\x2b\x6f\xf2\xc5\x12\xde\x1c\xf4\x0d\x51\x9f\x8d\x45\x1f\x68\xe9\xa1\xba\x6f\xad\xb9\xdf\x64\x0b\x3d\x0f\x60\x47\x1d\x1d\xae\xd5\xa9\xf4\x8e\x6c\xa6\xdf\xca\x6b\x75\x6d\x4f\xb5\x3b\x57\xe0\x99\x70\x21\x91\xde\x9c\x7d\xf0\x27\xf5\x75\x52\x92\x56\x0b\x26\x0f\xd0\xf5\xc7\x7b\x51\x95\x21\xf8\x0e\xa1\x2c\x27\xce\x0e\x7e\xf7\x1f\x7f\xff\xe3\x6f\xff\xed\xc7\x7f\xfd\xcf\x1f\xff\xe9\x87\xdf\xff\xcb\x3f\xfc\xcf\x7f\xfd\xf7\xef\x7e\xfb\x8f\x3f\xfe\xfb\x0f\xbf\xff\xe1\x9f\x0f\x66\xc6\x7d\xe6\xcd\x75\x2f\x4e\xf8\x34\x46\xf0\x76\xe4\x80\xc6\xcc\xee\x31\xd0\xb6\x71\x6c\x14\x60\x54\xab\x58\x6c\xfc\x6a\x86\x47\x94\x8c\x4b\x31\x15\xd6\x97\x1c\x6b\x0b\x3a\x6a\xde\x2f\xe8\x2c\xd8\xcc\x28\x22\xee\xa2\x0b\x2f\x6b\xeb\x66\x36\x05\x37\xaf\xef\x0a\xf5\xae\xb9\x2d\xc8\xd7\x64\x15\x8f\x94\xf9\x5a\x96\x40\x1c\xd5\x56\x9d\x9b\x05\x2b\x10\x5b\xc0\x16\xb0\x9f\xfe\x56\xe6\x29\x79\xa5\x8e\xb4\x1a\xdc\x62\x9d\x80\x7d\xdd\xb3\x7b\x97\xed\xbd\xcf\x3a\x07\x99\x98\x51\xf4\x94\x07\x36\x5b\x8b\xa5\x14\xb0\x2d\xfb\xad\x87\x3d\x7f\x4a\xe2\xee\x8c\x97\xab\x0c\x00\xbf\x16\x82\x2e\x4b\xef\xc6\xe1\xae\x31\x41\x03\x02\xe5\x14\x3a\x6c\x87\x52\xed\xae\xe6\xeb\xc4\x31\x00\x29\x08\x3a\x39\x97\x25\x5f\xe5\xe8\x1a\x18\xe4\xf3\xd5\xec\x8b\x32\x7d\x23\xcb\xfb\x9a\x94\xbb\xd8\x19\x87\x5b\xb2\xd3\xf5\x2c\xf9\xec\x40\xbc\x4a\xc0\x1f\x2f\x14\xc2\x2b\x06\xc2\x59\xb2\x62\x8d\x66\x18\x06\xa3\x54\x08\x8a\xcb\x20\x31\x93\x14\xc7\x04\x20\xc5\xe4\x97\x2d\x31\x4d\x37\x51\x89\x46\xca\xb2\xa2\x3c\x08\x3a\xbb\x51\x22\x8b\x42\x1c\xcc\xd4\x88\x34\xfd\x6e\xe9\x3a\x6c\x6a\xb4\xe2\x96\x4c\x6b\x93\x4b\xdf\x96\xf6\xed\xcf\xfb\xf6\x27\x7e\xfb\x33\xbf\xbd\xa9\x5f\xbe\xd5\x24\x2c\xc3\x66\xf6\xb7\x96\xfc\xfd\x78\x7f\x83\x98\xfd\x32\x66\xac\x90\x0b\x74\xc5\x17\x97\xb0\x23\x88\xb2\xd6\x2c\x7e\xc2\xa5\x9f\xcd\x6b\x3b\x3d\xbe\x09\xf4\xa5\xbc\x7a\x52\xad\x56\xf0\x1b\x71\x75\xcb\xa8\x85\x5b\x7f\xa0\x9c\xda\x51\xfb\x2e\xb3\xad\xb7\x9b\x98\xab\x4d\x77\x4d\xf0\xbd\x7c\x7c\x76\x7a\xcf\xdb\x4d\xa8\x1b\xf6\x17\x1c\x14\x35\xbf\xd5\x99\x4f\xba\xb5\x96\x4f\x7b\x16\xf9\x25\xff\x36\x57\xd5\x29\x37\xb0\x7d\x4b\xde\xae\xc7\x31\xbb\x0e\x56\x9e\x56\x73\xc3\x00\x88\x03\x8a\xb0\x4a\xc2\xdb\x62\x91\x47\x73\xbe\x58\xa6\x75\x76\x32\xa8\xdf\x36\x33\xe9\x3e\x5f\x89\x53\x70\x5b\xf2\x11\x87\x17\xc5\x39\x4d\xd6\xdf\xca\x59\x8a\x43\xd0\x79\xe9\x46\xdc\x39\x97\xe8\xb0\x41\xfd\xbe\x46\x3c\x79\xe2\x2c\xd8\xae\xf7\xc9\xd0\x1a\x6d\xbf\x4f\xc6\x42\xde\x7a\xa4\xa5\x76\x6f\x6e\x60\x08\x6c\x8e\xb5\x38\x6b\xdd\x73\x8f\xcc\x30\x04\x55\xc7\xf0\xa7\x77\x9d\x8c\x9d\xd7\xae\xd7\xc9\x38\xd7\xc8\xd4\xe7\x8c\x27\x3b\xcc\xb4\xf7\xba\x4a\x06\x17\xaa\xe7\x3c\xaf\x89\x4a\xb5\xda\x38\x89\x3a\xdb\xa2\xeb\xcc\xc7\x1e\x77\xcd\x38\xab\xfc\x49\x77\xcd\x38\x70\x4c\xe9\xee\x5e\x97\x9e\x82\xf6\x38\xe8\xe3\xa8\xd6\x0d\x32\x7b\xde\x51\xe2\x84\xc7\x99\xa8\x8d\x53\x96\xdd\xa7\x06\x8b\x73\x25\x00\x41\x44\xf4\x47\xc5\xdb\x05\xa3\x5d\x07\x2b\x07\xca\xce\x61\x9c\xe0\x19\xe9\xbd\xee\x42\xc9\x81\x4b\x5e\x1e\xec\x74\x37\xc8\xb8\xc6\x51\x5b\x2a\xdd\x68\xc2\x3b\x54\xba\x51\x65\x5b\x3a\xff\x35\x56\x70\xa8\xe0\x65\x61\xd6\x4b\xdf\xe5\xf1\x22\x4c\x6e\x38\x61\x93\x12\x63\xa8\xff\x98\x01\x55\x03\x55\x38\x36\x66\x4d\xe8\x06\x65\x4c\xf6\x15\x11\x8a\x3b\x75\x6e\xa8\x56\x00\xd7\x81\x77\xdf\x75\x3d\x78\x42\x59\x57\x77\x40\x7f\x57\x83\x6d\x29\x84\xd3\x74\xae\xf1\x20\x8f\x8f\x53\x70\x07\x9e\x9a\xc3\xcc\x0b\x0b\xd6\xdf\xa7\x28\x07\x67\x74\xff\xa2\x1c\xa7\xf7\x96\x9b\x23\x70\x36\x7f\xec\x9b\x23\x2c\x76\x6d\x2b\xa2\x57\x01\xbd\xae\xe6\x71\x54\xac\xad\xfe\xf9\xb4\x6b\x23\x76\xb1\x3e\xee\x73\x1d\x84\xae\x03\x19\xbe\x12\xa2\xa5\x25\xcc\xec\x54\x29\x88\xb9\x17\x82\x8b\x42\xb6\x18\x34\x63\xa7\xda\xa3\xb6\x15\xdc\x12\x8f\x1e\xbd\x52\x2b\xee\x68\xd6\x76\x34\x4b\x3b\xfe\x84\xef\x76\x20\x03\xe8\xbe\x77\x3b\xf4\x50\xa5\x53\xf6\xed\x76\xb7\x83\xd6\x0b\x7f\xb0\x5b\x1c\x7a\x50\xde\x41\x55\x89\x7e\x5d\x85\x15\x78\x3b\xa8\x21\x68\x60\xb2\xc1\x4d\x75\x04\x20\xda\x1a\x09\x5e\xde\x39\xd0\x75\x67\x3e\x8b\xa4\x3b\x3f\x78\xd0\xfe\x16\x50\xb2\x15\xaf\x99\xfc\x10\xa9\xc3\x65\x1f\x26\x3d\xc3\xe8\xe4\x70\x1b\x88\xae\x01\xd6\x88\x74\x24\x54\x3b\xef\xa6\xd8\x55\x29\x77\x65\x3a\x87\xb5\x72\xf7\x25\x50\x2e\x0f\x2b\xdd\xdc\xad\x9a\x3b\xf3\x8e\x35\xcd\xdc\xb8\xc3\x42\xff\xc7\x78\x54\xe1\x8f\x53\xa2\x13\xf6\x28\x6b\x9c\x9c\x96\xf4\xc0\x34\x4d\x5d\x7d\x48\xb8\xfe\x34\x0a\x7b\x57\x1b\x6b\x5b\xba\x71\xab\x82\x36\x03\x11\x60\x03\xce\x77\x96\xe1\x7f\x01\x9f\x90\xa4\xd8\x3c\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27155, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x5f, 0x34, 0x47, 0xd7, 0xb4, 0x3c, 0x72, 0x1a, 0xd1, 0x60, 0x46, 0x3c, 0x71, 0x35, 0xd, 0xe4, 0x77, 0xec, 0x18, 0x4f, 0xe4, 0xaa, 0x70, 0x91, 0x53, 0xce, 0x41, 0xf9, 0x2a, 0xf2, 0x82, 0xf6}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27196, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x67, 0x23, 0x72, 0xe2, 0x16, 0x7a, 0x98, 0x5e, 0xf, 0xdc, 0x88, 0x0, 0x65, 0x9b, 0x6b, 0x81, 0x37, 0xbe, 0x31, 0x93, 0x8a, 0x4a, 0xf4, 0x6c, 0xd3, 0x21, 0x50, 0x1f, 0xeb, 0xa5, 0x87, 0xb3}}
 	return a, nil
 }
 
-- 
2.43.0


From 915d1351a9af5f677e163c65340c8a5638dd2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 19/33] fix: clients send the set alternative of a oneof even
 if it is zero

---
 gengokit/httptransport/httptransport.go                   | 1 +
 gengokit/httptransport/types.go                           | 4 ++++
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 6 +++---
 gengokit/template/template.go                             | 8 ++++----
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 2599f28..50a4184 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -119,6 +119,7 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 			}
 			option.TypeConversion = fmt.Sprintf(typeConvStr, oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
 			option.ZeroValue = getZeroValue(option)
+			option.OneofType = oneofType.Type.Message.Name
 
 			oneofField.Options = append(oneofField.Options, option)
 		}
diff --git a/gengokit/httptransport/types.go b/gengokit/httptransport/types.go
index 5eaf9a4..4b1ee16 100644
--- a/gengokit/httptransport/types.go
+++ b/gengokit/httptransport/types.go
@@ -77,6 +77,10 @@ type Field struct {
 	Repeated bool
 
 	ZeroValue string
+
+	// OneofType is the name of the Go type that wraps this field if it is an
+	// alternative of a oneof
+	OneofType string
 }
 
 // OneofField contains the distillation of information within an []*svcdef.Field
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index cbf761b..e8208b6 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -676,7 +676,7 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 			{{- if eq $oneof.Location "query"}}
 				{{- range $option := $oneof.Options }}
 					{{if or (not $option.IsBaseType) $option.Repeated}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
+						if _, ok := req.{{$option.CamelName}}.(*{{$option.OneofType}}); ok {
 							tmp, err = json.Marshal(req.Get{{$option.Name}}())
 							if err != nil {
 								return errors.Wrap(err, "failed to marshal req.Get{{$option.Name}}()")
@@ -685,8 +685,8 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 							values.Add("{{$option.QueryParamName}}", strval)
 						}
 					{{else}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
-							values.Add("{{$option.QueryParamName}}", fmt.Sprint(val))
+						if _, ok := req.{{$option.CamelName}}.(*{{$option.OneofType}}); ok {
+							values.Add("{{$option.QueryParamName}}", fmt.Sprint(req.Get{{$option.Name}}()))
 						}
 					{{- end }}
 				{{- end }}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index ffe1bac..55c9552 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.196kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.220kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\x1c\xc9\x75\xe7\xaa\xaf\x88\x29\xcc\x90\x99\xed\xea\x2c\xda\x80\x0d\xb9\x07\x6d\x80\x4b\xcf\x0c\xa5\xe1\x22\x76\x73\x06\x30\x41\x50\x59\x55\x51\x5d\xa9\xce\xca\x4c\xe6\xd2\x8b\xda\x7d\xf1\x65\x0c\xd8\x80\x01\x9f\x7c\x30\x04\x9f\x7c\x35\x7c\xf6\xf7\x68\x0c\xfd\x85\xdf\x12\x5b\xae\x55\xd5\x1c\x09\x82\x61\x42\x22\xb3\x32\x23\x5e\xbc\x78\xf1\xe2\xed\x11\x33\x9b\x89\xa7\xe9\x52\x8a\x73\x99\xc8\x3c\x2c\xe5\x52\xcc\x6f\xc4\x3c\xcc\xd3\x24\x10\xcf\x5e\x89\x97\xaf\xce\xc4\xc9\xb3\xe7\x67\xc1\x78\x36\x13\x6f\x64\x5e\x25\x49\x94\x9c\x73\x03\x71\x15\xc5\xb1\x48\x2f\x65\x7e\x95\x47\xa5\x14\xe5\x3a\x2a\xc4\x2a\x8a\x25\x35\xfe\x4e\xe6\x45\x94\x26\x47\xe2\xf6\x36\x50\xcf\x77\x77\xce\x07\xf1\x0c\x46\x73\xbf\xe2\x6f\x68\x31\xce\xc2\xc5\x45\x78\x2e\xf1\xcb\x6b\x7e\x7c\x19\x6e\xe8\x0b\x74\x3e\xd3\x63\x88\x45\x9a\x94\x61\x94\x14\x62\x23\xcb\x75\xba\x2c\x44\x99\x8a\x4d\x78\x21\x45\x94\x2c\xa3\xcb\x68\x59\x85\xb1\x90\xc9\x32\x4b\xa3\xa4\x84\x2e\x79\xba\x11\x85\xcc\x2f\xa3\x85\x2c\xa6\x08\x29\x97\x1f\x2b\x59\x94\x22\x4c\x96\xf0\x5c\x64\x69\x52\xc0\x14\x6e\x32\x49\x90\xb0\x29\xce\x28\x85\x97\x06\xca\x54\x84\x85\xb8\x92\x30\x69\xf8\x57\x26\x0b\xa0\x5b\x5e\x20\x00\x84\xb7\x94\xea\xf7\x2a\xcd\x55\x47\x82\x36\xa5\x17\x21\x52\x6a\x25\xd2\x2a\x17\x45\x95\x65\x69\x8e\x94\x2e\xf3\x30\x29\xf0\x19\x87\x8b\xc2\x38\xfa\x4d\x58\x02\x21\x10\x1a\xf4\xd9\x84\x65\x11\x8c\xc7\xd1\x86\x5a\x78\xe3\xd1\x64\x7e\x53\xca\x62\x02\x0f\x38\x77\x79\x5d\xe2\x23\xa1\x01\x4b\x32\xfb\x75\x91\x26\xf8\x62\xb5\xa1\xf7\x51\xca\x7f\xcf\xa2\xb4\x2a\xa3\x18\x7f\x24\xb2\x9c\xad\xcb\x32\xd3\xcf\x55\x4e\xaf\x8b\x32\x07\x78\x97\xea\x11\x40\xc1\x10\xf0\x7c\x1e\x95\xeb\x6a\x1e\x2c\xd2\xcd\xec\x3c\x3d\xbc\x88\xca\x19\xfe\x5f\xd3\x02\x5a\x87\xc9\x4d\x36\x17\x93\xf3\x34\x3d\x87\x25\x3f\x4f\xe3\x30\x39\x0f\xd2\xfc\x7c\x96\xe5\x69\x99\xce\xab\xd5\x8c\xe6\x3f\xbb\x48\xd2\xab\x64\x46\xad\xa1\xd7\xb2\xca\x69\x92\x7b\x74\xb5\x5d\xa0\xbf\xdc\x64\xe5\x3e\xe3\xaa\xf6\xd0\x73\x15\xc9\x78\xb9\x09\x8b\x8b\x3d\x7a\x3b\x7d\x00\x02\x90\xa7\x5a\x94\x7b\x74\xd7\x1d\xa0\x6f\x19\x6d\x80\xdb\xc2\x4d\xb6\x47\x77\xa7\x0f\x40\xb8\xca\xc3\x2c\x03\x06\xdb\x03\x80\xed\xd2\x5e\xd2\x1c\x36\x6f\x38\xdb\x54\xd7\x93\xfa\x97\xec\xe2\x7c\x26\xf3\x3c\xcd\x89\xd3\x06\x06\x32\x9c\x47\x6f\x34\xfb\x0d\x74\xa0\x07\x44\xe4\xf6\xf6\x50\x44\x2b\x21\x3f\x8a\xe0\x69\x9a\xac\xa2\xf3\xe0\xcc\xec\x84\x09\xec\x94\x89\x98\x24\xc0\xfc\x13\x01\x9b\xbe\x86\x1b\xbe\x3d\x04\x9e\xc6\x7f\x61\x88\x09\x83\x02\x9e\xc4\x86\x3b\x40\x3d\xcf\xb3\x85\x86\xda\xc2\x93\x3e\xf6\x7e\x99\x81\x98\x09\x97\x61\x19\x36\x07\xdd\x79\x48\x7c\xb2\x3b\xbe\x67\x7f\x99\x06\x1a\x1d\x67\x2c\xdc\xbb\x7b\x00\x50\x5b\x7d\x2f\x62\xe3\xd3\x1e\x43\x50\x47\x17\x47\x7f\x3c\x1e\x5f\x86\x39\x4a\xab\x0f\xe2\x58\x80\x2c\x0a\x4e\x33\x90\x29\x25\xff\x26\x01\x06\x68\x6c\xb2\x30\x97\xfc\x4a\x49\x9f\xe0\x71\x99\x46\xfc\xa6\x36\xcd\xe0\xa5\xbc\x3a\x45\x59\x9c\xf3\x47\x96\x66\xc1\xcb\x34\x7b\x1a\x83\x88\x35\x6f\x01\x68\x76\xc3\x3f\x98\x79\x83\xef\x81\xf7\xc7\x23\x10\xa5\x6a\x3d\x35\x1b\xb2\x54\xc6\xa6\x24\x92\x82\xc7\x09\xf5\xb3\x42\x26\x78\xa6\x1e\xf1\xb5\x12\x1f\xc1\x09\xfe\x8b\x2f\xf4\x96\x0e\x4e\xe9\x01\x5f\x39\xdb\x34\x38\xd3\xcf\xf8\xc1\x6e\x3f\x6c\x0d\x5b\xe5\xbb\x30\xae\x68\xde\x8e\x5c\x09\xbe\xc2\xe7\x17\xf0\x8c\xd4\x9b\x1d\xec\xf4\x47\x9c\x18\xcd\x76\xb0\xf3\x9f\x19\x69\xd0\xe7\x89\x08\x59\xbd\xe5\x53\x11\x95\x0f\x0b\x51\x15\x72\x55\xc5\xa4\xa6\x56\x55\xb2\xc0\xa9\x83\x0e\x5c\x87\xa5\x48\x24\x6a\xa9\x54\xa4\x19\xd9\x06\x22\xc5\xbe\xf0\x7c\xa8\xd5\x00\x02\x9c\x87\x45\x54\x04\xe2\x2b\xe8\x2e\xaf\x61\xe6\xb1\x9c\x8a\x9b\xb4\x12\x9b\xe8\x7c\x5d\x8a\x2c\x2c\x50\x45\x3a\x08\x03\xbc\xd0\x0c\xc4\xe3\xc0\xda\x2c\x2b\x50\xcc\x08\x0e\xda\x22\x07\x04\xdf\x80\x5e\x8d\x11\xc7\x2b\x60\x42\x21\xc3\xc5\x5a\x69\x7a\xe1\xe9\xd1\x7d\xf8\x96\x03\x86\x55\xc6\x40\x8b\x4c\x2e\xa2\x55\xb4\x80\x41\xcb\x75\x20\xbc\xe7\x84\x1f\x18\x0c\x00\x7f\x1e\xce\xe3\x1b\x68\xb3\x89\x60\x79\xc8\x4a\x00\x8d\x5d\x44\xe7\x09\x76\x8d\x92\xcb\xf4\x02\xd5\xbd\x14\xa7\x6c\x23\x18\xab\x82\x50\x94\x08\xc7\xce\x80\x79\x00\x41\x68\x4a\x06\x3e\xb4\x30\xd4\x5d\xc4\x91\x4c\xca\x3a\x75\x61\x94\x45\x1a\xc7\x92\xfa\x69\x03\x05\x30\x02\xe6\x67\x70\x30\x0f\x6b\xae\xc0\x5f\x30\x21\x04\x58\x00\xdb\xc4\x6c\x4a\x30\xad\x22\xa4\xf0\x46\x12\x25\x1d\x7c\xa1\x87\xcc\x57\xe1\x42\xf6\xad\x04\x02\x33\x83\x75\x1b\x49\x15\x0e\x26\xea\x12\x04\x37\xe0\x53\x35\x1f\x90\x03\xf3\x28\x21\x3a\x6d\x14\x8a\xce\xc2\x4e\x95\x29\x55\x56\x79\x02\x53\xc7\x19\x23\x82\x0b\x98\xa6\xcc\xd1\x62\x0a\x35\xb2\xc1\x98\xa6\xd3\x22\xe8\xed\x78\xf4\x36\x31\xf3\x93\x4b\xb0\x00\x75\x0f\x36\x01\x95\x24\xb8\xbd\x05\x14\xc1\x42\xfc\x3c\x12\x47\xc7\xc2\xb4\x79\xc1\x4b\xc6\x62\xf9\xf3\x48\xf5\xd1\xa3\x08\xf8\xa3\xa7\x1a\xe8\x97\x00\x8a\x05\x17\x5b\x97\x06\xa3\xed\x43\x20\x03\x03\x27\xda\x2e\xbe\x70\x06\xf5\x16\xe5\xb5\x50\x56\x1a\x8a\x5d\xfc\x77\x8a\x0c\x73\x70\x7b\xfb\x75\x8a\x6d\x00\x72\xf0\x86\x4d\xd0\x33\x20\x86\xea\xe7\x0b\xaf\xd1\x82\x0d\x53\xa7\xc9\x94\x05\x9c\x8f\xd4\xd2\x76\x2b\xbd\x43\x44\x65\xd0\x31\x73\x44\x06\x07\xf7\xc7\x23\x54\x04\xd0\xf2\xb3\x63\x91\x44\x31\x42\x18\xa9\xf5\x82\x9f\x04\x64\x3c\xba\x1b\xeb\x77\x1a\x7a\xb0\x15\x27\x7f\x8a\x00\x80\x88\x9a\x9c\x48\xcc\x17\xb8\xcd\x5c\x8a\xd2\x46\xfe\x1c\xc4\x08\x52\xf4\x0e\x1b\x1f\x0a\x97\xca\xf0\xa9\x8f\xd0\x08\xab\x6b\x66\x05\x12\xdd\xe9\xe6\xb2\x89\xdf\x5e\x6e\xa6\x19\x4d\x0e\xc1\x76\xaf\x92\x76\x0c\xcc\x8e\xba\xc5\x65\x31\x2e\x82\xf3\x9a\xc9\x6e\x97\x03\x60\x7f\xc4\x89\x28\x08\x2d\xba\xb5\x56\x1b\xba\x5c\x9a\xb5\x2b\x82\x06\x03\x11\x2a\xd8\xa6\xbd\x6a\xed\x65\xc3\x75\xd3\x6f\x2f\x79\x39\x46\x77\x63\x26\x32\xaf\x89\xbb\x36\xa8\x1c\x1f\xc7\xf1\xc9\xf5\x42\x66\x25\xe9\xa9\x82\x45\xac\xa1\x14\x69\x28\x74\x59\xd4\xde\xb4\x9b\x95\x96\x91\x64\x53\x87\x5f\x10\xbc\x88\x96\x20\xb6\xaf\x40\xbf\x93\x17\xf8\xb6\xd0\x7e\x21\x3a\x41\x59\x16\xdf\xa0\x88\x41\xb1\x59\x22\xf0\x8d\x69\x4d\x7a\x41\xc2\xb2\xdd\x98\x65\xc3\xfd\x82\x12\xa4\xd0\x52\x03\xe0\xbd\xca\x50\x6b\xa0\xe4\x9c\x3a\x82\x6b\x01\x72\x68\x2e\x49\xd7\x80\x18\x85\x6e\xe0\xc3\x26\x48\x76\x80\x09\xef\xe5\xf5\x22\xae\x96\xf0\x85\xbc\xc0\xb9\x44\x14\x58\x37\x2f\x83\x16\x35\x3c\x8b\xd3\x54\x4c\x4e\xcb\xb0\xac\x8a\x09\x3c\xbd\x86\x5e\x13\xdf\xec\xfb\x03\x67\xe3\xf7\xf5\x17\x1d\x54\x99\x5a\x6c\x82\x20\x60\x87\x8b\x98\x27\x4a\xd4\x6b\x60\x85\x4d\x98\xbd\xe3\x4f\xef\x99\xfc\xb7\x77\xb8\xea\xcd\x0d\xd3\x25\xf9\x46\xa3\x89\xc3\x46\x13\x70\xb0\xef\xa6\xaa\xab\x32\x23\x81\x03\x46\xb8\x1a\x1f\x10\x15\x62\x57\x02\x69\xd0\xba\x65\x8e\x83\xcf\xe9\x05\x7e\xd6\x88\xbd\x93\xd7\xef\xbf\x14\x9f\xc1\x4b\xe2\xc0\x2c\x4c\xa2\x85\x67\x2d\xbc\x95\x37\x39\xd1\x20\xcc\x0a\x3e\xfc\xa2\x78\x28\x96\x29\xac\x6e\x92\x96\x30\x04\x28\xdf\x2f\x61\x3d\xa5\xbb\xf0\x86\x77\xc8\xa4\x47\xa4\x7c\x5f\xf1\xf3\x52\xc6\xb2\x94\x9e\xc6\x80\xbe\xd9\x09\xc0\x6b\x8b\xbe\x21\xdf\xee\x84\x82\x49\x22\x88\xe3\x63\x51\x23\x19\x4f\x6f\xd4\x29\x4a\xc1\xbc\xb4\x98\x7b\x9d\x4d\x10\x77\x42\xbe\x46\x72\xde\x76\xdf\x86\x73\x98\xd1\xd2\x72\x03\x87\x50\xce\x65\xa9\x79\x17\xf9\xdd\x50\x8f\x58\xf8\x6a\x2d\x13\xf3\x35\x75\xd8\x55\x01\x63\xae\x9b\xf2\x2e\x53\x1b\xa1\xe2\xc6\x82\xe3\x32\x21\x07\x77\xc0\x2e\x02\xa3\x06\xfe\x21\x33\xcb\xe1\xd2\xab\x75\x04\x3b\x1f\xbb\x16\x30\x74\x07\x0a\x4a\x93\xab\xde\xda\x8e\x49\x73\xa5\xc7\xdb\xb3\x22\xe1\xca\x0c\x3c\x6d\x4b\xe1\x0e\xc1\x3c\xee\x9b\xd7\xbd\x65\x53\x0b\xa9\xa9\x9a\x27\x51\x3c\x97\x0b\x19\x5d\xb2\xc5\x47\x53\x04\x60\xee\xbc\x03\x30\x55\xa4\x01\xe3\x40\xa1\x0f\xda\x10\x35\xfb\x1e\x11\x45\x8e\x5c\x82\x8f\x18\xc5\x64\x34\xea\xed\x44\xc1\x1c\x65\xec\x86\x71\x54\xde\x04\x43\x22\xa4\x36\x77\x57\x92\xec\x4d\xd1\xff\x97\x33\xff\x77\xe4\x4c\xad\xdb\x54\xec\x25\x76\x76\x0f\x50\xec\xea\x7a\x7e\xfd\xe6\xf5\x53\xb6\xb0\xf6\xf6\x3d\xd1\x8c\x73\xba\x63\xb8\xb6\xb0\xc6\x80\xd5\xe7\xe1\x25\x6c\x23\x70\xd8\x24\xbb\x0d\xe7\xd0\x45\xf4\x38\x03\x81\x35\x10\x2d\x64\xcf\x82\x72\xdc\x93\x34\x63\xd7\x16\xf6\x43\x2d\x16\x13\x70\x27\x36\x2d\xfc\xbe\x81\x70\xb9\x0a\xa7\x61\x81\x0b\xfe\xee\x7d\x3f\x24\x5c\xde\xae\xaf\x4f\x24\x30\x95\xf4\x10\xdb\x17\x2a\xa6\x74\x96\x2a\xeb\xd3\x9f\x92\x01\x5e\x1f\xe7\x18\x0d\x27\x98\x91\x57\x7b\x6d\xe6\x03\xd3\xf1\x29\xd0\x71\x7b\x2b\xce\xd2\x6f\xd3\x2b\xc0\xb5\x36\x03\x8a\xec\x28\xd3\xf0\x01\x62\xc4\x78\xdc\xa2\x9b\xb4\x95\x7b\x6f\x6f\x35\x4c\xc3\x72\x47\xa2\x3e\x2d\x13\xa2\xf1\x90\x07\xed\x2e\xeb\xe0\x52\x14\x11\xa3\x67\x14\x29\xc7\xf9\x3b\x2d\x94\x75\x4c\x0d\x4e\x92\xce\x06\xca\xd7\xc1\x16\x35\x4a\x00\x01\xf0\x25\xd2\xae\x43\xe7\xda\x09\x37\x5d\x67\x63\x9c\x77\xaf\xb7\x31\xf4\x59\xcb\x39\x70\xfe\x00\xee\x6a\x8b\xc8\xe0\xad\xd6\xa9\xac\xe2\x21\x8e\x41\xaf\xdc\x2c\x15\xa8\x40\x49\xe5\xe0\x88\x51\x0d\x8d\xda\xee\x33\xdd\xd1\xed\x2d\xc4\x81\x1d\xca\x17\xae\x97\x33\xe4\xff\xa2\x7b\xf4\xd3\x3a\xc0\x1f\x10\x68\x56\x73\xa1\x5a\x94\xe4\x6d\x87\xdc\xe4\x3a\x55\x7b\x7a\xc2\xd9\x3d\x9d\x60\x45\x61\x66\xf9\xed\xe4\x85\x1e\x43\xbb\x03\x63\x59\xa1\xa8\xc7\x88\x03\xee\xa0\x5a\x7c\x85\xeb\x43\x71\x22\x8c\xaa\xca\x1c\x85\x29\xed\x02\x16\xa1\x6d\x36\xd3\xde\x2e\x05\xd0\xc0\x6e\xcc\x0f\x97\xe9\x26\x04\x17\x6a\xa0\x71\x20\x5e\xe7\xd1\x26\xcc\xa3\xf8\x46\x87\xb7\xdc\x58\x18\x33\xc9\xd0\x3c\xbc\x0f\x6d\xe6\xc0\xb9\xc0\xe7\x86\xdb\xdd\xf4\xb6\x4d\xe0\x83\x1c\x6d\xd5\x67\x17\x47\xdb\xac\xe4\xc7\x81\x65\x62\xc1\xb3\xd3\x32\x0d\xca\xa8\xce\x75\xe2\x1e\xba\x49\xdf\x42\x6d\x5f\x02\x9d\xaa\x4c\xad\x66\xec\x6a\x06\xae\xf6\x4e\xeb\x34\x38\x91\xae\x85\xea\x8a\x84\x0c\xad\x54\x91\x71\x4c\x64\xe7\x60\x52\x2d\x00\xd5\xb5\x5a\xdf\xc8\x18\xc3\xea\x63\x9e\x40\xa7\x22\xed\x16\x40\x9b\xa5\xd0\x69\x9c\xe0\xc5\x33\xbf\xd9\x00\xf1\x45\x31\x7a\x31\x15\x97\xd6\xe2\xdb\x18\x53\xf5\xb2\x16\x82\xa1\x6c\xb4\x14\x17\xf2\x86\x96\x7b\x89\x46\xe1\x3c\x05\xff\x03\x68\xac\x47\x51\x79\x5c\xe1\x5d\xf8\xca\xfd\xc0\xa6\xe0\x80\xc4\xb8\x5e\x0a\x4a\xa8\x9c\x2e\x0a\xb7\x3e\x0d\x93\x14\x0c\xde\x30\xfe\x46\x86\x4b\x99\xff\x02\xa0\x2b\xdf\x04\x07\x2a\x52\x15\x04\x2e\x95\xab\xa7\x41\x2c\x16\x52\xc7\x3e\x24\xf8\x40\xc0\x0b\x3c\x32\x7e\x47\x52\x1c\x9b\xb9\x7e\x0f\x9f\x29\x0f\xc1\xd2\x10\xe7\xfa\xee\xd1\x7b\x7f\x6b\xc3\x1e\xec\x60\x66\x16\x82\xb2\xfa\xd5\xf2\x41\x37\xd2\x51\x7b\xd8\x95\x1c\x69\xde\xdb\xae\x04\x0b\xc4\xe9\xcd\xc3\x53\xd6\x41\x85\x8e\xc4\x3c\x5c\x5c\x70\x69\x83\xda\x33\x1c\xa2\xc7\xb9\x26\x92\x7c\xb3\x40\x3c\x27\xf1\xaa\x82\xfd\x8a\x5d\xa3\x79\x84\x3e\x9b\x5e\x02\x15\xcb\x86\xad\xb7\x8c\xc2\x98\x03\xde\x71\x08\x7c\x0f\xf0\x52\x0c\xc3\x52\x23\x0b\x93\x19\xb4\x86\x9d\x87\x9f\x59\x7d\x06\xfc\x06\x98\x2f\x19\x30\x4e\xb9\x91\x36\x4e\xbd\x1e\x23\xc3\xdd\x72\x68\x21\x34\x63\xad\x23\xe7\x6d\x76\x71\x4e\xdb\x4f\x85\x5c\xeb\x45\x16\xa3\xb6\x57\xd3\x1d\x97\x1d\x61\x9e\xaf\x43\xf4\x18\x17\xa6\xed\xe4\x8f\x6e\xbb\x0d\x4a\xc7\xeb\x69\x59\x96\x8a\x6a\xc4\x9e\x48\x28\xed\x79\xaa\x49\x80\x7a\xef\x8a\x00\x4f\xa6\x2d\x0f\x75\xc8\xb2\xb4\xa6\x67\x8f\xd6\x72\x4c\xcf\x2d\xd2\x8b\xdd\xe0\x51\x5a\x37\x4d\x0d\x0d\x3c\xf2\x2b\x09\x8c\xb2\x53\xed\x93\x11\x71\x7a\x03\x19\xdf\x65\xab\xa9\x2e\x0e\x15\xa8\x16\x4d\x8f\x30\xef\x31\x40\xf3\xa9\x1d\x77\x74\xa7\x85\x2d\xee\x00\xa4\x81\x50\x3b\xea\xd3\xcd\x97\x01\xbd\xa8\xed\x97\x61\xbd\x38\xac\xe9\x76\x35\x5f\x94\x0e\xea\xd1\x8b\x2c\x14\x86\xed\x97\x7e\xbd\xc8\xc6\x08\x22\xb3\xa3\x62\xc4\xa6\xc6\x88\x41\x75\xbd\x97\x6a\xcc\x30\x04\xde\xd6\x8d\xee\xb2\x7d\xba\x39\xd3\x6f\x75\x6a\x6b\x66\xd0\xea\xdc\xd1\x9e\xdc\x6a\xcb\x0c\x5a\x9d\xb5\x55\x1b\x9a\x47\xb7\x31\xd3\x95\xec\x19\xb6\x3a\xf7\x48\xef\x0c\x5b\x9d\x0a\x0b\x52\xb2\xc5\x59\xea\x1a\x32\x4c\xf3\x2e\x4d\xe0\x90\x9c\xa7\x3c\x00\xc5\x03\x9b\xa1\x10\xef\xde\xeb\xf0\xdf\x16\x78\x3b\xa5\xc7\xc0\x1c\x3a\xd8\x66\x44\x91\x6e\xc8\xc2\x28\xb7\x83\xc3\x4b\x15\x0c\xbc\xb0\xa6\x15\xa1\x77\xab\x62\x64\x97\x3a\x10\x08\xc3\x06\x6c\x78\x5c\xf8\x81\x0a\x7a\xfa\x5f\x0a\x1d\x10\x1c\x31\x60\x13\x15\xa1\x9f\x6c\xc8\x98\x20\x18\x0a\x51\x84\xc9\x4d\x5d\xab\xed\x00\xf0\x3f\xb6\x56\xe0\xcf\x41\x06\x7a\xf0\x6e\x6a\x5f\xbd\xc6\x3e\x0c\x15\x43\x2b\xbe\x06\xe7\x58\x35\x2a\xb2\xc6\x2b\xb9\xab\x7d\xf3\xcd\xd9\xd9\xeb\xfb\xc4\xcd\x28\x69\xcf\x54\x4e\x88\xbd\x00\xff\x09\xa6\xd2\xc0\x0e\x43\x25\x43\x95\x7f\x5f\x8a\xc5\x3a\xcc\x0b\x59\x1e\x57\xe5\xea\xf0\x67\x13\x13\x6e\xc3\x51\x55\xe8\xc0\x1a\x46\x62\xad\xde\xd0\x9e\xdd\x1e\x86\x43\x60\x69\x22\xb2\x5c\x2e\xe5\x2a\x4a\xc0\x92\xc2\x0a\x8b\xc2\x89\xbd\x39\xc3\x6c\x0d\xbe\xd5\x0b\x7c\xea\xc1\x37\xb7\xf4\x43\xdb\x32\xb0\x8e\x01\xc1\x27\xb3\xbf\x16\x9d\xea\x08\xc8\xf5\x43\xa7\xf5\xef\xfa\xac\x22\x72\x3c\x06\xda\xb5\x45\x2d\x20\xd7\xdd\xe9\x04\xc5\x02\x8b\x1b\x98\xb2\xf3\xa3\xbf\xcb\xe3\x15\x88\x15\xaf\xf9\xa5\x7c\x6a\x97\xd6\x73\x96\xd9\x27\x40\xed\x59\xee\x14\x0e\x54\x51\x22\x0a\xfd\x6d\x28\xd4\x5f\x5d\xa3\x39\xf5\x26\xad\x10\x07\x7f\xec\x58\x14\x2a\x9b\x81\xba\xa1\x87\xcc\xa6\xe9\x1c\xeb\x46\x92\x73\xb2\x0a\xb9\x5b\xf0\x84\x5f\xa9\x58\xf7\x46\xf7\xa3\xa0\xb5\x6a\x8e\x15\xbe\x73\xf1\x77\xe2\x2c\x7d\x8b\xf5\x50\x60\x8c\xf9\xb0\xcb\xca\x75\xad\x0d\xbe\x38\x93\x9b\x2c\xa6\x32\x60\x68\xa1\xd9\xa9\xa7\x1e\xcc\xe3\xe8\xb9\x1b\x6d\x54\x18\x75\x84\x1c\x95\x5d\x87\xd3\x73\x86\xa4\x6c\x4b\xdd\xfe\x53\x16\x22\x36\xfc\x9a\x93\x66\x35\xe3\xaf\x33\xf0\x38\x22\x19\xd1\xa8\x44\x54\x8f\x4a\x68\x6c\x74\x81\x89\xc3\x27\x9c\x9d\xe3\x50\x24\xf1\x8f\xce\xb3\xe9\x11\xbf\xc7\xef\x60\xd9\x83\xd7\x02\xdb\x2e\xac\xe2\x12\xb5\x1d\x33\x08\x02\xa3\xb0\x24\x6c\xd8\xa6\x2c\x00\xbf\x04\x1c\xd1\x25\x79\x2d\xf8\x9b\xcd\x7e\x74\x1f\x27\x34\xce\xc4\x78\x9c\x97\x54\x8f\x06\xa0\xe8\x7d\x40\xd8\x79\x3e\xfb\x35\x20\x0f\x28\xf7\x2d\x10\x59\x04\xf5\x97\x8f\x1e\x81\x93\xb4\x72\xf0\x75\xe2\xa9\xbc\x6f\x00\x5b\x42\x0c\x5a\x64\x79\x7a\x19\xa1\x4b\xbc\xe6\x1d\xc5\x79\xb7\xb9\x64\x6c\x39\x3d\x89\xed\xac\x4d\xe6\x82\xa6\xba\x2d\x0b\x1d\x67\x11\xbc\x00\xf9\xb6\x0e\xa9\x24\x4c\xe3\xbf\xe1\x57\xc8\x91\x45\x05\x2e\xb0\x5c\x16\xec\x83\xfd\xfc\xf4\xd5\x4b\x55\xa1\xbd\xd4\xe5\xd4\x26\xc7\x47\xb8\x6b\x74\x30\x55\xda\x3f\x2d\x4e\xff\x63\x81\x7c\x3e\xd5\xae\xa1\x99\x99\xfd\x58\x83\x06\xb6\x44\x51\xc2\xa4\x35\xcd\x58\x48\xba\x12\xa2\xcb\x10\x31\x95\x24\x53\x71\xc5\x52\xb0\xce\x06\x64\x80\xe0\xaa\x4e\xc5\x07\xdc\x7e\x2e\x49\x58\xfc\x7c\xcf\xd5\x86\xb7\xb4\x8a\x47\x08\x4c\x2f\xe8\x1d\xc7\x3b\x37\x96\x80\xac\x68\xb1\x89\x57\xa7\xad\xd5\xb3\x11\x33\xcf\x13\x1a\x52\x75\x3d\xe1\x30\xab\x01\xa4\xfb\x21\xb9\x3d\xe8\xea\x34\x3b\x76\x74\x2e\x31\xe3\xb1\x01\xa7\x03\x05\xa3\xab\x80\xd9\xc6\xf3\x51\x0c\x7a\x13\x25\x08\x0f\x51\xfa\x4d\xa6\xae\xca\xe3\x09\xac\x35\x93\xb9\xf8\xd7\xc5\x83\xe6\x43\x3b\x0f\x1d\xd0\x21\xf3\xc8\x9a\x1e\x1a\x96\xea\x51\x78\x5c\xc1\xe3\xe2\xf4\x4c\xc6\x60\x81\xe0\x4b\x65\xb9\x38\x41\x21\x05\x8e\x0d\x12\xa7\xcf\xe3\xe5\xd2\x6b\x58\x22\xf8\x3f\xda\x43\x47\x5c\xdb\x1a\x30\xdf\x3c\x47\x1b\x33\x09\x63\x47\x9b\xd0\x24\x8b\xc5\xc0\xf4\x1c\x7e\xb4\x33\x24\xe0\xc7\xd0\xd1\xf9\xac\xfc\xcc\xab\x80\xb8\x47\xa1\x87\x0d\x7d\xf3\xd2\xc3\x65\xf1\x51\x30\x59\x06\x65\x31\x99\x7b\x58\x27\xfb\xee\x3d\x96\xeb\xfa\x6a\x53\xdc\xb2\xc3\x7f\x25\x5c\x5e\x33\x61\x74\xcd\x90\x6f\x13\xc5\x02\x08\x61\x2a\x1e\x5c\x01\x96\x8d\x30\x3b\x9b\x33\x45\xf4\x1b\xc4\xf9\x67\x7f\xfe\xd7\x7f\xc5\xbc\x16\xcb\x04\xfb\xf8\xe2\x6f\xf8\x1b\x33\x0e\xa0\x71\x2c\xe0\xef\x77\x47\xf8\xf2\x7d\xbd\xcc\x09\x73\xc2\x44\xb7\x95\x37\x31\x41\x49\xe2\x35\x4c\x07\x1f\x61\x84\x0c\xb3\xc1\x19\xda\x45\x22\x49\x93\x43\x12\x86\xda\xe2\xc7\x86\xc0\x64\x38\x66\x2d\x6a\xa5\xca\x87\x41\xcf\x78\x57\x0c\x9e\x68\x44\xc2\xd6\x9d\xbb\x93\x05\xa2\x56\x82\x0d\x55\xf1\x2b\x1c\xe5\x48\x49\xda\x5f\x29\xb9\x8f\xab\xa8\x5a\x81\x9c\x2e\x56\x91\x92\xfb\x9a\x5d\x49\xa2\x39\x8b\x6b\xfd\x11\xac\x05\x25\xa9\xa3\x4e\xc5\xec\x52\xf5\xad\xea\x32\x9c\x41\x0d\xaa\x2c\x5d\x47\x85\x15\x5d\x14\x98\xd1\x42\x1a\xfe\x38\x35\x01\xc6\x76\xd7\x3c\xe2\xad\x2d\x50\x5f\xb8\xdc\x26\xea\xd5\x75\xeb\xc0\x8e\xd0\xd3\xdb\xee\x3b\xb6\xf9\xe8\x67\x0d\x84\x42\x6a\x3c\x98\x49\xd9\x6a\xbc\x38\xd1\xac\x2d\xd6\x8b\x89\x5e\x0c\x9a\x09\x4d\x6f\x98\xb0\xef\xce\xc1\x10\x48\x3e\x17\x84\x7d\x50\x4a\x1e\x2a\xa5\xe4\x3a\xba\xd6\x02\xca\xd1\x91\x6d\xf8\xc6\x54\xb3\x46\xbc\x02\x58\xe9\xb7\x04\x19\x39\x78\x5b\x88\x7f\xe4\xc4\x32\x06\xa7\xd5\xe9\x1c\x8b\x03\xa5\x89\xa8\x49\xbf\x63\x3c\x02\xfb\x04\xfd\x8b\x00\xc5\x7b\x40\x95\xf9\x9e\xaf\xdc\x40\x74\x9a\xad\x9f\xdc\x98\xab\xe3\x34\x93\xfd\x48\x52\x43\x09\x14\x55\xea\xff\x06\xb8\xe0\x71\x1c\x7b\x0c\x7c\xb7\x72\x48\x5d\xff\xbf\x42\xcd\x38\x15\x13\x25\x09\x72\xd4\xca\xda\x32\xc2\x99\x69\x72\x4e\x74\x21\x48\x5d\x10\x3d\x62\xe0\x95\x16\x6a\xe8\x93\x00\x62\xe6\xbc\x8b\x15\x77\xca\x20\x64\x75\x00\xd8\xa6\x57\x30\xc1\x32\x0a\x63\x0c\xbf\xc1\xe6\x53\xd6\xe3\xb3\xa8\x58\x84\xf9\xf2\x6d\x42\xc7\x73\x8e\xec\x17\x5d\x27\x82\xf3\x3a\x16\xee\x80\x2d\x91\x8a\xe9\xcb\x96\x50\xed\x16\xab\xfd\x82\xb5\x53\xb4\x2a\x34\x6a\xc4\x34\x1b\xf6\xb6\x83\xac\xae\x28\xdd\x57\xe6\x32\x41\x46\x8e\x42\x7c\x12\x2e\x6b\x96\xf8\x08\x11\xb0\x68\x19\xb7\x1e\x5d\x4f\xa0\x6e\xb8\x29\xb4\x5f\xf3\x1d\x8c\xe6\xe5\xb8\x86\x78\xfe\xc3\x7e\xc7\xd6\x00\x30\xbf\xb1\xcd\x81\x9e\x6f\xbe\x0d\x7e\x89\x2f\x3d\xdd\xc1\x69\x32\x76\x9d\x1d\x2e\x33\x43\x61\xa1\xb9\x96\x8e\x6a\x14\x3a\x4a\x0e\xc4\x4d\x74\xb3\xe0\xdb\x94\x2d\x70\x31\xa1\x49\x72\x1b\x0c\xc8\xf2\x67\x70\x26\x68\x50\xb3\x9a\xe8\x06\x75\xc7\x81\x87\x51\x78\x95\xc8\x74\xd5\xc2\x03\xf6\x58\x0b\x0f\x9a\xd6\xa7\x20\x62\x38\xe1\x01\xc5\xaf\x74\x4e\x5c\xbb\x96\x87\x8d\x9a\xe2\x5e\xcf\xa9\x53\x62\xf6\x65\x43\x59\x3e\x16\xda\x8d\x30\x7a\x3d\x2c\xd8\xa8\x6f\xb8\x0d\xec\x44\xe5\x7b\x64\x3a\x3b\x10\xec\x92\x7d\x9d\x46\x78\x5f\xf2\xd3\x98\x48\x7d\x82\xe2\x45\x4b\x4c\x34\x85\x84\x91\x05\x6f\x0b\xf9\x1a\xfb\xa1\xbc\x2c\x8e\xea\x1f\x4e\x92\x6a\xf3\xb2\xda\xcc\x41\x2b\x1e\xd9\x0f\x27\x9b\xa8\x7c\x9b\x64\x69\x56\xa1\xef\xbc\x34\x62\x05\xd6\xca\x95\xa7\x8e\x4c\xd1\x7e\x83\x4d\xca\x12\xaa\xa0\x36\x8b\x02\x8c\x0c\x7f\xa8\x3e\x42\xb3\xc1\x87\xa9\x92\x56\xc6\x9c\x24\x4b\xca\x69\xe5\x26\x6b\xed\xc9\x22\x65\x0c\x74\x05\x5b\x7a\xaa\x46\x9a\x5a\xa8\x2f\x6b\x6b\xad\xf3\xdc\x31\x27\x06\xf3\xb4\xa4\x04\x5a\x39\xda\x35\x30\xdb\x3a\x5c\x72\xdf\xbe\xac\x2c\xe5\x02\x97\x18\x16\x8b\xb8\x52\xdd\x14\xd6\x39\x87\x84\xd1\x65\x24\x28\xea\x64\x6d\xa0\x95\xbe\x49\x06\x23\x33\x63\x58\xb6\x95\x32\xae\x65\x7d\x19\x48\x3d\xf5\x3b\x98\xf4\xdd\x96\xf3\xd5\x14\x02\x79\x50\xc2\xc4\xfd\x6d\x5d\x1a\xf8\x53\xd6\xb7\x0d\x03\x85\x17\x92\xbb\x02\xb9\x68\x0e\x63\x2d\xd6\xb8\x26\x01\x7d\x09\xe3\x22\xc5\x25\x50\x7b\x98\xb5\x42\x95\xc7\xe3\xe1\xd1\xb5\xa6\x39\xc4\x23\xcb\x53\x25\xc4\x31\x60\xe4\x6f\xeb\x68\x56\x05\x4b\xf8\x91\xe7\x50\x88\x4c\xfc\x7b\x27\xa9\x11\xc4\xfd\x93\xd4\x4e\x6f\x1b\x8b\xed\xc8\x51\x27\x6c\xec\xb1\xf4\x12\x71\x74\x49\x87\x26\x4a\x45\xb5\x4d\x5a\x52\x20\x02\xe3\x0c\x61\x82\x27\xbe\xbe\xc7\xb2\xda\x8c\xcf\x96\xf1\x3b\x3e\x6f\x06\x16\x17\x99\x8f\x76\x90\x25\x58\x20\x29\x9d\xb2\x28\x6e\x8a\x52\x6e\xa6\xc8\x5c\x00\x2b\x8e\x2e\x64\x6c\xf2\xdc\x14\x2e\x99\xac\xd3\xa2\x3c\x22\xda\xd9\x44\xb6\x9d\x81\x67\x86\xd2\x65\xc9\xbd\x21\xde\xfd\x53\xd8\x20\x7d\x3e\xd3\x2c\xf7\x4d\x58\xbc\xce\xe5\x2a\xba\x36\x23\xc2\x52\xd2\xe1\x56\xb6\x3d\x0d\x1e\xc7\xfc\xfa\x68\x36\x9b\x88\x3f\x33\x94\x20\x61\x55\x19\x29\x08\x1c\x84\xc6\x67\x21\x0d\xb4\x9d\x8b\xc1\xd0\x56\xa8\xc6\xea\xcc\x2f\x5a\x39\x1d\x1e\x87\x4a\xc4\x72\xd1\xf2\xe4\x65\xca\x0b\xe9\xc4\xc1\xb9\x4c\x9f\x79\x80\xa2\x46\x08\xe8\x2a\xcd\x61\x4f\x72\x6c\x5d\x28\x4d\x8f\x8e\x1f\x9e\xde\xcb\x59\x8d\xf0\xd7\x08\x49\x38\xf1\xdd\x10\xe3\x9e\x81\x5c\x8c\xa6\x37\x9d\x1f\x85\x34\x7e\xe5\x0a\x01\xc7\x51\x82\x27\x79\xdd\xee\xf1\x48\xf7\x51\x65\x00\x4d\xaf\x62\xa8\x0a\x00\x47\x62\x0b\x6f\xa0\x5f\xc7\x39\x60\xa7\x14\x40\x25\xf7\x7b\xe3\xcb\xca\x82\x04\xab\x38\xbb\x01\x59\xe1\xc1\xfa\xbb\xed\x9f\x84\xa0\x64\x41\x7c\x60\x9c\x59\x37\xb5\xd6\xc1\x96\x08\x71\x23\x98\x5c\x0b\x3a\xd7\x83\xc5\xcd\x32\x80\x51\xb3\x12\x40\xdb\xb6\x4e\xc0\xb8\x3b\x8e\x3c\x5c\x12\x30\xb8\xee\xa6\x34\xe0\x27\x5f\xf9\xbe\x88\xbb\x2a\x39\xe8\x5b\xda\x69\xd3\xda\xec\x8a\x9b\xdb\x52\x04\x92\x3c\x7a\x1d\xe7\xb0\x70\xe2\x00\xf7\x30\xfc\x9a\x92\xa9\x2f\x74\x72\x53\xbf\xc6\xfd\x9b\xa0\x5d\x00\x73\x38\xc0\x0e\xfc\x93\xf4\x85\x72\x0f\x6c\x39\x34\x7e\x51\x86\xca\xd3\xf2\x5a\xe7\x50\x4f\xd1\xbe\x5d\x50\xc1\x7c\x95\xab\x50\x0d\x99\x0a\x6a\xe3\xc2\x76\x04\x63\x2b\xe6\xd3\x69\xac\xe7\x40\x72\x53\x36\x13\x9c\x56\x90\xa2\xda\x7c\x55\x6a\x89\x03\xea\xac\xf6\x36\xda\x84\x75\x1d\x50\xb4\x15\x54\xb8\x23\x10\xe2\x65\x5a\xaa\xc3\xbe\x08\x12\x61\x91\xa4\x58\x87\x97\xe0\x53\xa9\x4b\x3c\x86\x4d\x12\x1a\x67\x4e\x69\x2d\x75\xde\x8d\x8e\xf6\xa0\xe4\xd7\xa8\xe1\xd1\x69\x15\x48\x0f\x75\xe5\x13\x0b\x7e\x78\xb8\xb1\xe1\x7a\x53\x8a\xef\x9c\xc6\xc3\x82\x27\xa5\x70\x55\x0e\xba\x4e\x3b\xce\x3b\x3b\xe7\x4e\xfa\xf5\x81\x1b\xf1\xe9\x68\xa4\x52\x73\x03\xa7\x35\x77\xb0\x0e\x7f\xb2\xcc\xb3\xb1\x78\x30\x5c\xdd\x0c\xf3\xd6\x13\xc4\x14\x34\x24\xfb\x17\x15\x40\x4f\x1d\xcd\x56\x81\xdd\x0c\x49\x75\x0a\x9b\xc1\x88\x54\xd3\xbf\x52\xe1\x28\xb6\xc6\x9a\x21\x29\x1d\xa5\x51\xc3\xb8\x15\x28\x6e\xe9\x69\x33\x24\xe5\x84\x5e\xd9\xcc\x53\xe9\x14\xf3\x65\x4d\xc7\x38\x30\x1c\xf0\x17\x8f\x1e\xb9\x79\x25\xf0\xb3\x54\xf2\x84\xfc\xa9\x0c\x48\xc8\x68\x62\x87\x84\x60\xb1\x6f\x45\x1b\xa8\x2c\xf1\x3a\x06\x2a\xbf\xa3\x59\xb8\xfb\x4f\x05\xb0\xc1\x8c\x26\x17\xc6\xe2\xa8\x91\xd8\x1a\x32\xd3\x75\x24\x1d\x21\xb3\x4e\xb2\x0f\x47\xcc\xb8\xcd\xfe\x21\xb3\x7d\x22\x60\xc7\x74\xf3\xc5\xc9\xab\xaf\x7a\x83\x60\x18\xc5\xb6\xb1\x71\x92\x38\x14\xac\xa1\x6b\x2d\xdc\xa8\xd7\x8e\x01\xb5\x8e\x78\x9a\x01\x3a\xf1\x9d\xc2\x8b\xdc\xc9\x45\x20\x60\x27\xce\xf3\xea\x17\xdb\x63\x76\xb5\x4c\x04\xb8\x1a\x13\x87\x67\x8e\xc4\xc3\x2f\x96\x0f\xc9\x0d\xb0\x63\x98\xb1\x39\xe4\x58\x64\xdb\xb8\x79\xbc\x77\x5c\xaf\x37\xac\xd7\x17\xd5\x73\x48\xbb\x35\xa6\x57\x64\x1d\x41\xbd\x16\x85\x5c\xa2\x34\xca\x52\x1e\xd8\x62\xe9\x51\xa3\x5a\xda\x11\x40\xcd\x8a\xb0\x1d\xa2\xe7\xdb\x63\xe7\x6c\x10\xd4\x22\x40\xfb\x45\xcf\x5b\xb5\x64\x63\xe3\xed\xaa\x70\x10\xf4\xd9\x39\x60\x4e\x17\x53\x70\x76\x3b\x87\x1d\x54\x08\x1c\x88\x1c\x13\xd0\xcb\x23\xa5\xfd\x6a\xca\xd7\x43\x9b\x60\xca\x71\x40\x4e\x2e\x53\x6a\x4c\x8b\x82\x1d\xa6\xb5\x43\xf4\xbc\xa7\xd6\xcc\x84\x8e\xf0\x76\xa9\xcb\x30\x46\x02\x4f\x26\x2a\x32\xc9\xaf\x86\x2f\x16\x18\x8a\xa8\xeb\x08\x27\xf4\x23\x56\x71\xd5\x57\xaf\x6b\xdc\x6c\xd7\xef\x7b\x73\x54\xe2\x54\xb2\x63\x4a\xc6\x58\x86\x61\x54\x59\x62\xda\x86\x23\xb5\x74\x2c\x47\x79\x72\x54\x6c\xa5\x93\x4a\x8d\xf3\x93\x05\x97\x4c\xd7\x62\x9d\x38\xca\x29\xbf\x37\xc1\x4e\xdd\xf0\xae\x79\xdc\x14\x4d\xc6\xc9\x8c\xf0\xef\xf2\xf6\x32\x8e\x16\x0c\xc8\xba\xae\xbc\x41\x5a\xc5\xcb\xe4\x61\x69\x77\x2f\xcf\xf2\x8b\x8f\x13\x36\x3e\xb5\x04\x65\xaa\xbc\x09\xaf\x94\x91\x59\xe9\x67\xf3\xcd\x7c\xa0\xb7\x75\xca\x11\xe3\xd5\x49\xe7\xa4\xab\x1b\x11\x6b\x14\x70\xe5\x26\x53\xe9\x59\xb5\xc0\x25\x5e\x38\xe4\x92\xb3\x2f\x76\x2d\x6c\x89\xf7\x6e\x61\x63\x68\x85\x1b\x42\x35\x7b\x23\x33\x49\x97\x04\xaa\xdf\xcf\x0b\x74\xa5\x8c\x44\xb5\x90\xbd\xa7\xfa\x7a\x3e\x1d\x77\x4e\xa9\x74\x6d\xa2\x97\x7f\xe2\xeb\x1e\x3c\xd5\x77\x13\x13\xa2\xfe\xa5\x89\xc7\xab\xd2\xed\xf7\xcc\xc2\x81\x69\xf1\x14\xde\xc7\xb6\x60\x5d\xf1\x41\x5c\x98\xdf\xed\x84\x7d\x5f\x7f\x9d\x0f\x51\x68\x50\x02\x7f\x00\x95\xa9\x73\xa7\x95\x77\xe9\xb3\x0f\x37\x72\xb1\x50\xdc\x48\x2e\x4e\x8c\xc6\x59\x8d\x80\xcf\x0b\x8c\xe1\xea\x5f\xa0\xbf\xf2\x93\xeb\x2c\xd7\x68\xa3\xe2\xec\xc3\xb3\x96\xed\xb9\x0f\xba\x2b\x6f\xf2\xc5\x12\xde\x1c\xf4\x0d\x51\x9f\x8d\x45\x1f\x68\xe9\xa1\xba\x6f\xad\xb9\xdf\x64\x0b\x3d\x0f\x60\x47\x1d\x1d\xae\xd5\xa9\xf4\x8e\x6c\xa6\xdf\xca\x6b\x75\x6d\x4f\xb5\x3b\x57\xe0\x99\x70\x21\x91\xde\x9c\x7d\xf0\x27\xf5\x75\x52\x92\x56\x0b\x26\x0f\xd0\xf5\xc7\x7b\x51\x95\x21\xf8\x0e\xa1\x2c\x27\xce\x0e\x7e\xf7\x1f\x7f\xff\xe3\x6f\xff\xed\xc7\x7f\xfd\xcf\x1f\xff\xe9\x87\xdf\xff\xcb\x3f\xfc\xcf\x7f\xfd\xf7\xef\x7e\xfb\x8f\x3f\xfe\xfb\x0f\xbf\xff\xe1\x9f\x0f\x66\xc6\x7d\xe6\xcd\x75\x2f\x4e\xf8\x34\x46\xf0\x76\xe4\x80\xc6\xcc\xee\x31\xd0\xb6\x71\x6c\x14\x60\x54\xab\x58\x6c\xfc\x6a\x86\x47\x94\x8c\x4b\x31\x15\xd6\x97\x1c\x6b\x0b\x3a\x6a\xde\x2f\xe8\x2c\xd8\xcc\x28\x22\xee\xa2\x0b\x2f\x6b\xeb\x66\x36\x05\x37\xaf\xef\x0a\xf5\xae\xb9\x2d\xc8\xd7\x64\x15\x8f\x94\xf9\x5a\x96\x40\x1c\xd5\x56\x9d\x9b\x05\x2b\x10\x5b\xc0\x16\xb0\x9f\xfe\x56\xe6\x29\x79\xa5\x8e\xb4\x1a\xdc\x62\x9d\x80\x7d\xdd\xb3\x7b\x97\xed\xbd\xcf\x3a\x07\x99\x98\x51\xf4\x94\x07\x36\x5b\x8b\xa5\x14\xb0\x2d\xfb\xad\x87\x3d\x7f\x4a\xe2\xee\x8c\x97\xab\x0c\x00\xbf\x16\x82\x2e\x4b\xef\xc6\xe1\xae\x31\x41\x03\x02\xe5\x14\x3a\x6c\x87\x52\xed\xae\xe6\xeb\xc4\x31\x00\x29\x08\x3a\x39\x97\x25\x5f\xe5\xe8\x1a\x18\xe4\xf3\xd5\xec\x8b\x32\x7d\x23\xcb\xfb\x9a\x94\xbb\xd8\x19\x87\x5b\xb2\xd3\xf5\x2c\xf9\xec\x40\xbc\x4a\xc0\x1f\x2f\x14\xc2\x2b\x06\xc2\x59\xb2\x62\x8d\x66\x18\x06\xa3\x54\x08\x8a\xcb\x20\x31\x93\x14\xc7\x04\x20\xc5\xe4\x97\x2d\x31\x4d\x37\x51\x89\x46\xca\xb2\xa2\x3c\x08\x3a\xbb\x51\x22\x8b\x42\x1c\xcc\xd4\x88\x34\xfd\x6e\xe9\x3a\x6c\x6a\xb4\xe2\x96\x4c\x6b\x93\x4b\xdf\x96\xf6\xed\xcf\xfb\xf6\x27\x7e\xfb\x33\xbf\xbd\xa9\x5f\xbe\xd5\x24\x2c\xc3\x66\xf6\xb7\x96\xfc\xfd\x78\x7f\x83\x98\xfd\x32\x66\xac\x90\x0b\x74\xc5\x17\x97\xb0\x23\x88\xb2\xd6\x2c\x7e\xc2\xa5\x9f\xcd\x6b\x3b\x3d\xbe\x09\xf4\xa5\xbc\x7a\x52\xad\x56\xf0\x1b\x71\x75\xcb\xa8\x85\x5b\x7f\xa0\x9c\xda\x51\xfb\x2e\xb3\xad\xb7\x9b\x98\xab\x4d\x77\x4d\xf0\xbd\x7c\x7c\x76\x7a\xcf\xdb\x4d\xa8\x1b\xf6\x17\x1c\x14\x35\xbf\xd5\x99\x4f\xba\xb5\x96\x4f\x7b\x16\xf9\x25\xff\x36\x57\xd5\x29\x37\xb0\x7d\x4b\xde\xae\xc7\x31\xbb\x0e\x56\x9e\x56\x73\xc3\x00\x88\x03\x8a\xb0\x4a\xc2\xdb\x62\x91\x47\x73\xbe\x58\xa6\x75\x76\x32\xa8\xdf\x36\x33\xe9\x3e\x5f\x89\x53\x70\x5b\xf2\x11\x87\x17\xc5\x39\x4d\xd6\xdf\xca\x59\x8a\x43\xd0\x79\xe9\x46\xdc\x39\x97\xe8\xb0\x41\xfd\xbe\x46\x3c\x79\xe2\x2c\xd8\xae\xf7\xc9\xd0\x1a\x6d\xbf\x4f\xc6\x42\xde\x7a\xa4\xa5\x76\x6f\x6e\x60\x08\x6c\x8e\xb5\x38\x6b\xdd\x73\x8f\xcc\x30\x04\x55\xc7\xf0\xa7\x77\x9d\x8c\x9d\xd7\xae\xd7\xc9\x38\xd7\xc8\xd4\xe7\x8c\x27\x3b\xcc\xb4\xf7\xba\x4a\x06\x17\xaa\xe7\x3c\xaf\x89\x4a\xb5\xda\x38\x89\x3a\xdb\xa2\xeb\xcc\xc7\x1e\x77\xcd\x38\xab\xfc\x49\x77\xcd\x38\x70\x4c\xe9\xee\x5e\x97\x9e\x82\xf6\x38\xe8\xe3\xa8\xd6\x0d\x32\x7b\xde\x51\xe2\x84\xc7\x99\xa8\x8d\x53\x96\xdd\xa7\x06\x8b\x73\x25\x00\x41\x44\xf4\x47\xc5\xdb\x05\xa3\x5d\x07\x2b\x07\xca\xce\x61\x9c\xe0\x19\xe9\xbd\xee\x42\xc9\x81\x4b\x5e\x1e\xec\x74\x37\xc8\xb8\xc6\x51\x5b\x2a\xdd\x68\xc2\x3b\x54\xba\x51\x65\x5b\x3a\xff\x35\x56\x70\xa8\xe0\x65\x61\xd6\x4b\xdf\xe5\xf1\x22\x4c\x6e\x38\x61\x93\x12\x63\xa8\xff\x98\x01\x55\x03\x55\x38\x36\x66\x4d\xe8\x06\x65\x4c\xf6\x15\x11\x8a\x3b\x75\x6e\xa8\x56\x00\xd7\x81\x77\xdf\x75\x3d\x78\x42\x59\x57\x77\x40\x7f\x57\x83\x6d\x29\x84\xd3\x74\xae\xf1\x20\x8f\x8f\x53\x70\x07\x9e\x9a\xc3\xcc\x0b\x0b\xd6\xdf\xa7\x28\x07\x67\x74\xff\xa2\x1c\xa7\xf7\x96\x9b\x23\x70\x36\x7f\xec\x9b\x23\x2c\x76\x6d\x2b\xa2\x57\x01\xbd\xae\xe6\x71\x54\xac\xad\xfe\xf9\xb4\x6b\x23\x76\xb1\x3e\xee\x73\x1d\x84\xae\x03\x19\xbe\x12\xa2\xa5\x25\xcc\xec\x54\x29\x88\xb9\x17\x82\x8b\x42\xb6\x18\x34\x63\xa7\xda\xa3\xb6\x15\xdc\x12\x8f\x1e\xbd\x52\x2b\xee\x68\xd6\x76\x34\x4b\x3b\xfe\x84\xef\x76\x20\x03\xe8\xbe\x77\x3b\xf4\x50\xa5\x53\xf6\xed\x76\xb7\x83\xd6\x0b\x7f\xb0\x5b\x1c\x7a\x50\xde\x41\x55\x89\x7e\x5d\x85\x15\x78\x3b\xa8\x21\x68\x60\xb2\xc1\x4d\x75\x04\x20\xda\x1a\x09\x5e\xde\x39\xd0\x75\x67\x3e\x8b\xa4\x3b\x3f\x78\xd0\xfe\x16\x50\xb2\x15\xaf\x99\xfc\x10\xa9\xc3\x65\x1f\x26\x3d\xc3\xe8\xe4\x70\x1b\x88\xae\x01\xd6\x88\x74\x24\x54\x3b\xef\xa6\xd8\x55\x29\x77\x65\x3a\x87\xb5\x72\xf7\x25\x50\x2e\x0f\x2b\xdd\xdc\xad\x9a\x3b\xf3\x8e\x35\xcd\xdc\xb8\xc3\x42\xff\xc7\x78\x54\xe1\x8f\x53\xa2\x13\xf6\x28\x6b\x9c\x9c\x96\xf4\xc0\x34\x4d\x5d\x7d\x48\xb8\xfe\x34\x0a\x7b\x57\x1b\x6b\x5b\xba\x71\xab\x82\x36\x03\x11\x60\x03\xce\x77\x96\xe1\x7f\x01\x9f\x90\xa4\xd8\x3c\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\xdc\x48\x76\xe7\xcc\xaf\x88\x26\xa6\x25\xb2\x9c\xc5\x94\x0d\xd8\x18\x57\xa3\x0c\x68\xa9\xee\xd6\x4c\x6b\x19\xa9\xd4\x7d\x10\x04\x0d\x33\x33\xb2\x92\x53\x4c\x92\xe2\x52\xa5\x9a\xb2\x2e\xbe\xb4\x01\x1b\x30\xe0\x93\x0f\xc6\xc0\x27\x5f\x0d\x9f\xfd\x3d\xd3\xc6\xfc\x85\xdf\x12\x1b\xd7\xcc\xac\xee\x31\x06\x86\x85\x19\x89\x49\x46\xbc\x78\xf1\xe2\xc5\xdb\x23\x7a\x3e\x17\x8f\xb3\x95\x14\x17\x32\x95\x45\x54\xc9\x95\x58\xdc\x88\x45\x54\x64\x69\x28\x9e\xbc\x10\xcf\x5f\x9c\x8b\xb3\x27\x4f\xcf\xc3\xe9\x7c\x2e\x5e\xc9\xa2\x4e\xd3\x38\xbd\xe0\x06\xe2\x3a\x4e\x12\x91\x5d\xc9\xe2\xba\x88\x2b\x29\xaa\x4d\x5c\x8a\x75\x9c\x48\x6a\xfc\xad\x2c\xca\x38\x4b\x4f\xc4\xed\x6d\xa8\x9e\x3f\x7d\x72\x3e\x88\x27\x30\x9a\xfb\x15\x7f\x43\x8b\x69\x1e\x2d\x2f\xa3\x0b\x89\x5f\x5e\xf2\xe3\xf3\x68\x4b\x5f\xa0\xf3\xb9\x1e\x43\x2c\xb3\xb4\x8a\xe2\xb4\x14\x5b\x59\x6d\xb2\x55\x29\xaa\x4c\x6c\xa3\x4b\x29\xe2\x74\x15\x5f\xc5\xab\x3a\x4a\x84\x4c\x57\x79\x16\xa7\x15\x74\x29\xb2\xad\x28\x65\x71\x15\x2f\x65\x39\x43\x48\x85\xfc\x50\xcb\xb2\x12\x51\xba\x82\xe7\x32\xcf\xd2\x12\xa6\x70\x93\x4b\x82\x84\x4d\x71\x46\x19\xbc\x34\x50\x66\x22\x2a\xc5\xb5\x84\x49\xc3\xbf\x32\x5d\x02\xdd\x8a\x12\x01\x20\xbc\x95\x54\xbf\xd7\x59\xa1\x3a\x12\xb4\x19\xbd\x88\x90\x52\x6b\x91\xd5\x85\x28\xeb\x3c\xcf\x0a\xa4\x74\x55\x44\x69\x89\xcf\x38\x5c\x1c\x25\xf1\x6f\xa3\x0a\x08\x81\xd0\xa0\xcf\x36\xaa\xca\x70\x3a\x8d\xb7\xd4\xc2\x9f\x4e\xbc\xc5\x4d\x25\x4b\x0f\x1e\x70\xee\xf2\x63\x85\x8f\x84\x06\x2c\xc9\xfc\x37\x65\x96\xe2\x8b\xf5\x96\xde\xc7\x19\xff\x3d\x8f\xb3\xba\x8a\x13\xfc\x91\xca\x6a\xbe\xa9\xaa\x5c\x3f\xd7\x05\xbd\x2e\xab\x02\xe0\x5d\xa9\x47\x00\x05\x43\xc0\xf3\x45\x5c\x6d\xea\x45\xb8\xcc\xb6\xf3\x8b\xec\xf8\x32\xae\xe6\xf8\x7f\x4d\x0b\x68\x1d\xa5\x37\xf9\x42\x78\x17\x59\x76\x01\x4b\x7e\x91\x25\x51\x7a\x11\x66\xc5\xc5\x3c\x2f\xb2\x2a\x5b\xd4\xeb\x39\xcd\x7f\x7e\x99\x66\xd7\xe9\x9c\x5a\x43\xaf\x55\x5d\xd0\x24\x0f\xe8\x6a\xbb\x40\x7f\xb9\xcd\xab\x43\xc6\x55\xed\xa1\xe7\x3a\x96\xc9\x6a\x1b\x95\x97\x07\xf4\x76\xfa\x00\x04\x20\x4f\xbd\xac\x0e\xe8\xae\x3b\x40\xdf\x2a\xde\x02\xb7\x45\xdb\xfc\x80\xee\x4e\x1f\x80\x70\x5d\x44\x79\x0e\x0c\x76\x00\x00\xdb\xa5\xbb\xa4\x05\x6c\xde\x68\xbe\xad\x3f\x7a\xcd\x2f\xf9\xe5\xc5\x5c\x16\x45\x56\x10\xa7\x8d\x0c\x64\x38\x8f\xde\x68\xf6\x1b\xe9\x40\x0f\x88\xc8\xed\xed\xb1\x88\xd7\x42\x7e\x10\xe1\xe3\x2c\x5d\xc7\x17\xe1\xb9\xd9\x09\x1e\xec\x14\x4f\x78\x29\x30\xbf\x27\x60\xd3\x37\x70\xc3\xb7\xc7\xc0\xd3\xf8\x2f\x0c\xe1\x31\x28\xe0\x49\x6c\xb8\x07\xd4\x8b\x22\x5f\x6a\xa8\x1d\x3c\xe9\xe3\xe0\x97\x39\x88\x99\x68\x15\x55\x51\x7b\xd0\xbd\x87\xc4\x27\xbb\xe3\x07\xf6\x97\x69\xa0\xd1\x71\xc6\xc2\xbd\x7b\x00\x00\xb5\xd5\x0f\x22\x36\x3e\x1d\x30\x04\x75\x74\x71\x0c\xa6\xd3\xe9\x55\x54\xa0\xb4\x7a\x2f\x4e\x05\xc8\xa2\xf0\x75\x0e\x32\xa5\xe2\xdf\x24\xc0\x00\x8d\x6d\x1e\x15\x92\x5f\x29\xe9\x13\x3e\xac\xb2\x98\xdf\x34\xa6\x19\x3e\x97\xd7\xaf\x51\x16\x17\xfc\x91\xa5\x59\xf8\x3c\xcb\x1f\x27\x20\x62\xcd\x5b\x00\x9a\xdf\xf0\x0f\x66\xde\xf0\x3b\xe0\xfd\xe9\x04\x44\xa9\x5a\x4f\xcd\x86\x2c\x95\xb1\x29\x89\xa4\xf0\x61\x4a\xfd\xac\x90\x09\x9f\xa8\x47\x7c\xad\xc4\x47\x78\x86\xff\xe2\x0b\xbd\xa5\xc3\xd7\xf4\x80\xaf\x9c\x6d\x1a\x9e\xeb\x67\xfc\x60\xb7\x1f\xb6\x86\xad\xf2\x6d\x94\xd4\x34\x6f\x47\xae\x84\x5f\xe2\xf3\x33\x78\x46\xea\xcd\x8f\xf6\xfa\x23\xce\x8c\x66\x3b\xda\xfb\xcf\x9c\x34\xe8\xd3\x54\x44\xac\xde\x8a\x99\x88\xab\xfb\xa5\xa8\x4b\xb9\xae\x13\x52\x53\xeb\x3a\x5d\xe2\xd4\x41\x07\x6e\xa2\x4a\xa4\x12\xb5\x54\x26\xb2\x9c\x6c\x03\x91\x61\x5f\x78\x3e\xd6\x6a\x00\x01\x2e\xa2\x32\x2e\x43\xf1\x25\x74\x97\x1f\x61\xe6\x89\x9c\x89\x9b\xac\x16\xdb\xf8\x62\x53\x89\x3c\x2a\x51\x45\x3a\x08\x03\xbc\xc8\x0c\xc4\xe3\xc0\xda\xac\x6a\x50\xcc\x08\x0e\xda\x22\x07\x84\x5f\x83\x5e\x4d\x10\xc7\x6b\x60\x42\x21\xa3\xe5\x46\x69\x7a\xe1\xeb\xd1\x03\xf8\x56\x00\x86\x75\xce\x40\xcb\x5c\x2e\xe3\x75\xbc\x84\x41\xab\x4d\x28\xfc\xa7\x84\x1f\x18\x0c\x00\x7f\x11\x2d\x92\x1b\x68\xb3\x8d\x61\x79\xc8\x4a\x00\x8d\x5d\xc6\x17\x29\x76\x8d\xd3\xab\xec\x12\xd5\xbd\x14\xaf\xd9\x46\x30\x56\x05\xa1\x28\x11\x8e\x9d\x01\xf3\x00\x82\xd0\x94\x0c\x03\x68\x61\xa8\xbb\x4c\x62\x99\x56\x4d\xea\xc2\x28\xcb\x2c\x49\x24\xf5\xd3\x06\x0a\x60\x04\xcc\xcf\xe0\x60\x1e\xd6\x5c\x81\xbf\x60\x42\x08\xb0\x04\xb6\x49\xd8\x94\x60\x5a\xc5\x48\xe1\xad\x24\x4a\x3a\xf8\x42\x0f\x59\xac\xa3\xa5\x1c\x5a\x09\x04\x66\x06\xeb\x37\x92\x6a\x1c\x4c\x34\x25\x08\x6e\xc0\xc7\x6a\x3e\x20\x07\x16\x71\x4a\x74\xda\x2a\x14\x9d\x85\x9d\x29\x53\xaa\xaa\x8b\x14\xa6\x8e\x33\x46\x04\x97\x30\x4d\x59\xa0\xc5\x14\x69\x64\xc3\x29\x4d\xa7\x43\xd0\xdb\xe9\xe4\x4d\x6a\xe6\x27\x57\x60\x01\xea\x1e\x6c\x02\x2a\x49\x70\x7b\x0b\x28\x82\x85\xf8\xb3\x58\x9c\x9c\x0a\xd3\xe6\x19\x2f\x19\x8b\xe5\x9f\xc5\xaa\x8f\x1e\x45\xc0\x1f\x3d\xd5\x50\xbf\x04\x50\x2c\xb8\xd8\xba\x34\x18\xed\x1e\x02\x19\x18\x38\xd1\x76\x09\x84\x33\xa8\xbf\xac\x3e\x0a\x65\xa5\xa1\xd8\xc5\x7f\x67\xc8\x30\x47\xb7\xb7\x5f\x65\xd8\x06\x20\x87\xaf\xd8\x04\x3d\x07\x62\xa8\x7e\x81\xf0\x5b\x2d\xd8\x30\x75\x9a\xcc\x58\xc0\x05\x48\x2d\x6d\xb7\xd2\x3b\x44\x54\x86\x3d\x33\x47\x64\x70\xf0\x60\x3a\x41\x45\x00\x2d\x3f\x3b\x15\x69\x9c\x20\x84\x89\x5a\x2f\xf8\x49\x40\xa6\x93\x4f\x53\xfd\x4e\x43\x0f\x77\xe2\x14\xcc\x10\x00\x10\x51\x93\x13\x89\xf9\x0c\xb7\x99\x4b\x51\xda\xc8\x3f\x03\x31\x82\x14\xfd\x84\x8d\x8f\x85\x4b\x65\xf8\x34\x44\x68\x84\xd5\x37\xb3\x12\x89\xee\x74\x73\xd9\x24\xe8\x2e\x37\xd3\x8c\x26\x87\x60\xfb\x57\x49\x3b\x06\x66\x47\xdd\xe2\xb2\x18\x17\xc1\x79\xcd\x64\xb7\xcb\x01\xb0\x3f\xe0\x44\x14\x84\x0e\xdd\x3a\xab\x0d\x5d\xae\xcc\xda\x95\x61\x8b\x81\x08\x15\x6c\xd3\x5d\xb5\xee\xb2\xe1\xba\xe9\xb7\x57\xbc\x1c\x93\x4f\x53\x26\x32\xaf\x89\xbb\x36\xa8\x1c\x1f\x26\xc9\xd9\xc7\xa5\xcc\x2b\xd2\x53\x25\x8b\x58\x43\x29\xd2\x50\xe8\xb2\xa8\xbd\x69\x37\x2b\x2d\x23\xc9\xa6\x1e\xbf\x20\x7c\x16\xaf\x40\x6c\x5f\x83\x7e\x27\x2f\xf0\x4d\xa9\xfd\x42\x74\x82\xf2\x3c\xb9\x41\x11\x83\x62\xb3\x42\xe0\x5b\xd3\x9a\xf4\x82\x84\x65\xbb\x31\xcb\x86\xfb\x05\x25\x48\xa9\xa5\x06\xc0\x7b\x91\xa3\xd6\x40\xc9\x39\x73\x04\xd7\x12\xe4\xd0\x42\x92\xae\x01\x31\x0a\xdd\xc0\x87\x4d\x91\xec\x00\x13\xde\xcb\x8f\xcb\xa4\x5e\xc1\x17\xf2\x02\x17\x12\x51\x60\xdd\xbc\x0a\x3b\xd4\xf0\x2d\x4e\x33\xe1\xbd\xae\xa2\xaa\x2e\x3d\x78\x7a\x09\xbd\xbc\xc0\xec\xfb\x23\x67\xe3\x0f\xf5\x17\x3d\x54\x99\x59\x6c\xc2\x30\x64\x87\x8b\x98\x27\x4e\xd5\x6b\x60\x85\x6d\x94\xbf\xe5\x4f\xef\x98\xfc\xb7\x9f\x70\xd5\xdb\x1b\xa6\x4f\xf2\x4d\x26\x9e\xc3\x46\x1e\x38\xd8\x9f\x66\xaa\xab\x32\x23\x81\x03\x26\xb8\x1a\xef\x11\x15\x62\x57\x02\x69\xd0\xba\x65\x8e\x83\xcf\xd9\x25\x7e\xd6\x88\xbd\x95\x1f\xdf\x7d\x21\x3e\x83\x97\xc4\x81\x79\x94\xc6\x4b\xdf\x5a\x78\x6b\xdf\x3b\xd3\x20\xcc\x0a\xde\xff\xbc\xbc\x2f\x56\x19\xac\x6e\x9a\x55\x30\x04\x28\xdf\x2f\x60\x3d\xa5\xbb\xf0\x86\x77\xc8\xa4\x47\xa4\x82\x40\xf1\xf3\x4a\x26\xb2\x92\xbe\xc6\x80\xbe\xd9\x09\xc0\x6b\x8b\xbe\x21\xdf\xfe\x84\x82\x49\x22\x88\xd3\x53\xd1\x20\x19\x4f\x6f\xd2\x2b\x4a\xc1\xbc\xb4\x98\xfb\xbd\x4d\x10\x77\x42\xbe\x41\x72\xde\x76\xdf\x44\x0b\x98\xd1\xca\x72\x03\x87\x50\x2e\x64\xa5\x79\x17\xf9\xdd\x50\x8f\x58\xf8\x7a\x23\x53\xf3\x35\x73\xd8\x55\x01\x63\xae\x9b\xf1\x2e\x53\x1b\xa1\xe6\xc6\x82\xe3\x32\x11\x07\x77\xc0\x2e\x02\xa3\x06\xfe\x21\x33\xcb\xe1\xd2\xeb\x4d\x0c\x3b\x1f\xbb\x96\x30\x74\x0f\x0a\x4a\x93\xab\xde\xda\x8e\xc9\x0a\xa5\xc7\xbb\xb3\x22\xe1\xca\x0c\x3c\xeb\x4a\xe1\x1e\xc1\x3c\x1d\x9a\xd7\x9d\x65\x53\x07\xa9\x99\x9a\x27\x51\xbc\x90\x4b\x19\x5f\xb1\xc5\x47\x53\x04\x60\xee\xbc\x43\x30\x55\xa4\x01\xe3\x40\xa1\x0f\xda\x10\x35\xfb\x1e\x11\x45\x8e\x5c\x81\x8f\x18\x27\x64\x34\xea\xed\x44\xc1\x1c\x65\xec\x46\x49\x5c\xdd\x84\x63\x22\xa4\x31\x77\x57\x92\x1c\x4c\xd1\xff\x97\x33\xff\x77\xe4\x4c\xa3\xdb\x4c\x1c\x24\x76\xf6\x0f\x50\xec\xeb\x7a\x7e\xf5\xea\xe5\x63\xb6\xb0\x0e\xf6\x3d\xd1\x8c\x73\xba\x63\xb8\xb6\xb4\xc6\x80\xd5\xe7\xd1\x15\x6c\x23\x70\xd8\x24\xbb\x0d\x17\xd0\x45\x0c\x38\x03\xa1\x35\x10\x2d\x64\xdf\x82\x72\xdc\x93\x2c\x67\xd7\x16\xf6\x43\x23\x16\x13\x72\x27\x36\x2d\x82\xa1\x81\x70\xb9\x4a\xa7\x61\x89\x0b\xfe\xf6\xdd\x30\x24\x5c\xde\xbe\xaf\x8f\x24\x30\x95\xf4\x11\xdb\x67\x2a\xa6\x74\x9e\x29\xeb\x33\x98\x91\x01\xde\x1c\xe7\x14\x0d\x27\x98\x91\xdf\x78\x6d\xe6\x03\xd3\x09\x28\xd0\x71\x7b\x2b\xce\xb3\x6f\xb2\x6b\xc0\xb5\x31\x03\x8a\xec\x28\xd3\xf0\x1e\x62\xc4\x78\xdc\xa2\x9b\xb4\x93\x7b\x6f\x6f\x35\x4c\xc3\x72\x27\xa2\x39\x2d\x13\xa2\xf1\x91\x07\xed\x2e\xeb\xe1\x52\x14\x11\x93\x27\x14\x29\xc7\xf9\x3b\x2d\x94\x75\x4c\x0d\xce\xd2\xde\x06\xca\xd7\xc1\x16\x0d\x4a\x00\x01\xf0\x25\xd2\xae\x47\xe7\xda\x09\xb7\x5d\x67\x63\x9c\xf7\xaf\xb7\x31\xf4\x59\xcb\x39\x70\xfe\x08\xee\x6a\x87\xc8\xe0\xad\x36\xa9\xac\xe2\x21\x8e\x41\xaf\xdc\x2c\x15\xa8\x40\x49\xe5\xe0\x88\x51\x0d\x8d\xda\xfe\x33\xdd\xd3\xed\x2d\xc5\x91\x1d\x2a\x10\xae\x97\x33\xe6\xff\xa2\x7b\xf4\xd3\x3a\xc0\xef\x11\x68\xde\x70\xa1\x3a\x94\xe4\x6d\x87\xdc\xe4\x3a\x55\x07\x7a\xc2\xf9\x1d\x9d\x60\x45\x61\x66\xf9\xdd\xe4\x85\x1e\x63\xbb\x03\x63\x59\x91\x68\xc6\x88\x43\xee\xa0\x5a\x7c\x89\xeb\x43\x71\x22\x8c\xaa\xca\x02\x85\x29\xed\x02\x16\xa1\x5d\x36\xd3\xde\x2e\x05\xd0\xc0\x6e\x2c\x8e\x57\xd9\x36\x02\x17\x6a\xa4\x71\x28\x5e\x16\xf1\x36\x2a\xe2\xe4\x46\x87\xb7\xdc\x58\x18\x33\xc9\xd8\x3c\xfc\xf7\x5d\xe6\xc0\xb9\xc0\xe7\x96\xdb\xdd\xf6\xb6\x4d\xe0\x83\x1c\x6d\xd5\x67\x1f\x47\xdb\xac\xe4\x87\x91\x65\x62\xc1\xb3\xd7\x32\x8d\xca\xa8\xde\x75\xe2\x1e\xba\xc9\xd0\x42\xed\x5e\x02\x9d\xaa\xcc\xac\x66\xec\x6b\x06\xae\xf6\x5e\xeb\x34\x3a\x91\xbe\x85\xea\x8b\x84\x8c\xad\x54\x99\x73\x4c\x64\xef\x60\x52\x23\x00\xd5\xb7\x5a\x5f\xcb\x04\xc3\xea\x53\x9e\x40\xaf\x22\xed\x17\x40\xdb\x95\xd0\x69\x9c\xf0\xd9\x93\xa0\xdd\x00\xf1\x45\x31\x7a\x39\x13\x57\xd6\xe2\xdb\x1a\x53\xf5\xaa\x11\x82\xa1\x6c\xb4\x14\x97\xf2\x86\x96\x7b\x85\x46\xe1\x22\x03\xff\x03\x68\xac\x47\x51\x79\x5c\xe1\x5f\x06\xca\xfd\xc0\xa6\xe0\x80\x24\xb8\x5e\x0a\x4a\xa4\x9c\x2e\x0a\xb7\x3e\x8e\xd2\x0c\x0c\xde\x28\xf9\x5a\x46\x2b\x59\xfc\x12\xa0\x2b\xdf\x04\x07\x2a\x33\x15\x04\xae\x94\xab\xa7\x41\x2c\x97\x52\xc7\x3e\x24\xf8\x40\xc0\x0b\x3c\x32\x7e\x47\x52\x9c\x9a\xb9\x7e\x07\x9f\x29\x0f\xc1\xd2\x10\xe7\xfa\xf6\xc1\xbb\x60\x67\xc3\x01\xec\x60\x66\x16\x82\xb2\xfa\xd5\xf2\x41\x37\xd2\x51\x07\xd8\x95\x1c\x69\x3e\xd8\xae\x04\x0b\xc4\xe9\xcd\xc3\x53\xd6\x41\x85\x8e\xc4\x22\x5a\x5e\x72\x69\x83\xda\x33\x1c\xa2\xc7\xb9\xa6\x92\x7c\xb3\x50\x3c\x25\xf1\xaa\x82\xfd\x8a\x5d\xe3\x45\x8c\x3e\x9b\x5e\x02\x15\xcb\x86\xad\xb7\x8a\xa3\x84\x03\xde\x49\x04\x7c\x0f\xf0\x32\x0c\xc3\x52\x23\x0b\x93\x19\xb4\x81\x9d\x8f\x9f\x59\x7d\x86\xfc\x06\x98\x2f\x1d\x31\x4e\xb9\x91\x36\x4e\xfd\x01\x23\xc3\xdd\x72\x68\x21\xb4\x63\xad\x13\xe7\x6d\x7e\x79\x41\xdb\x4f\x85\x5c\x9b\x45\x16\x93\xae\x57\xd3\x1f\x97\x9d\x60\x9e\xaf\x47\xf4\x18\x17\xa6\xeb\xe4\x4f\x6e\xfb\x0d\x4a\xc7\xeb\xe9\x58\x96\x8a\x6a\xc4\x9e\x48\x28\xed\x79\xaa\x49\x80\x7a\xef\x8b\x00\x7b\xb3\x8e\x87\x3a\x66\x59\x5a\xd3\x73\x40\x6b\x39\xa6\xe7\x0e\xe9\xc5\x6e\xf0\x24\x6b\x9a\xa6\x86\x06\x3e\xf9\x95\x04\x46\xd9\xa9\xf6\xc9\x88\x38\xbd\x81\x8c\xef\xb2\xd3\x54\x17\xc7\x0a\x54\x87\xa6\x27\x98\xf7\x18\xa1\xf9\xcc\x8e\x3b\xf9\xa4\x85\x2d\xee\x00\xa4\x81\x50\x3b\xea\xc7\x9b\x2f\x23\x7a\x51\xdb\x2f\xe3\x7a\x71\x5c\xd3\xed\x6b\xbe\x28\x1d\x34\xa0\x17\x59\x28\x8c\xdb\x2f\xc3\x7a\x91\x8d\x11\x44\x66\x4f\xc5\x88\x4d\x8d\x11\x83\xea\xfa\x20\xd5\x98\x63\x08\xbc\xab\x1b\xdd\x65\xfb\xf1\xe6\xcc\xb0\xd5\xa9\xad\x99\x51\xab\x73\x4f\x7b\x72\xa7\x2d\x33\x6a\x75\x36\x56\x6d\x6c\x1e\xfd\xc6\x4c\x5f\xb2\x67\xdc\xea\x3c\x20\xbd\x33\x6e\x75\x2a\x2c\x48\xc9\x96\xe7\x99\x6b\xc8\x30\xcd\xfb\x34\x81\x43\x72\x9e\xf2\x08\x14\x1f\x6c\x86\x52\xbc\x7d\xa7\xc3\x7f\x3b\xe0\xed\x95\x1e\x03\x73\xe8\x68\x97\x11\x45\xba\x21\x8f\xe2\xc2\x0e\x0e\x2f\x55\x30\xf0\xd2\x9a\x56\x84\xde\xad\x8a\x91\x5d\xe9\x40\x20\x0c\x1b\xb2\xe1\x71\x19\x84\x2a\xe8\x19\x7c\x21\x74\x40\x70\xc2\x80\x4d\x54\x84\x7e\xb2\x21\x63\x82\x60\x28\x44\x11\x26\x37\x75\xad\xb6\x23\xc0\xff\xd4\x5a\x81\xbf\x00\x19\xe8\xc3\xbb\x99\x7d\xf5\x12\xfb\x30\x54\x0c\xad\x04\x1a\x9c\x63\xd5\xa8\xc8\x1a\xaf\xe4\xbe\xf6\xcd\xd7\xe7\xe7\x2f\xef\x12\x37\xa3\xa4\x3d\x53\x39\x25\xf6\x02\xfc\x3d\x4c\xa5\x81\x1d\x86\x4a\x86\x2a\xff\xbe\x10\xcb\x4d\x54\x94\xb2\x3a\xad\xab\xf5\xf1\xcf\x3d\x13\x6e\xc3\x51\x55\xe8\xc0\x1a\x46\x62\xa3\xde\xd0\x9e\xdd\x1d\x86\x43\x60\x59\x2a\xf2\x42\xae\xe4\x3a\x4e\xc1\x92\xc2\x0a\x8b\xd2\x89\xbd\x39\xc3\xec\x0c\xbe\x35\x0b\x7c\x9a\xc1\x37\xb7\xf4\x43\xdb\x32\xb0\x8e\x21\xc1\x27\xb3\xbf\x11\x9d\xea\x09\xc8\x0d\x43\xa7\xf5\xef\xfb\xac\x22\x72\x3c\x06\xda\xb5\x65\x23\x20\xd7\xdf\xe9\x0c\xc5\x02\x8b\x1b\x98\xb2\xf3\x63\xb8\xcb\xc3\x35\x88\x15\xbf\xfd\xa5\x7a\x6c\x97\xd6\x77\x96\x39\x20\x40\xdd\x59\xee\x15\x0e\x54\x51\x22\x0a\xfd\x6d\x29\xd4\x5f\x7f\x44\x73\xea\x55\x56\x23\x0e\xc1\xd4\xb1\x28\x54\x36\x03\x75\xc3\x00\x99\x4d\xd3\x05\xd6\x8d\xa4\x17\x64\x15\x72\xb7\xf0\x11\xbf\x52\xb1\xee\xad\xee\x47\x41\x6b\xd5\x1c\x2b\x7c\x17\xe2\x6f\xc5\x79\xf6\x06\xeb\xa1\xc0\x18\x0b\x60\x97\x55\x9b\x46\x1b\x7c\x71\x2e\xb7\x79\x42\x65\xc0\xd0\x42\xb3\xd3\x40\x3d\x98\xcf\xd1\x73\x37\xda\xa8\x30\xea\x09\x39\x2a\xbb\x0e\xa7\xe7\x0c\x49\xd9\x96\xa6\xfd\xa7\x2c\x44\x6c\xf8\x15\x27\xcd\x1a\xc6\x5f\x6f\xe0\x71\x42\x32\xa2\x55\x89\xa8\x1e\x95\xd0\xd8\xea\x02\x13\x87\x4f\x38\x3b\xc7\xa1\x48\xe2\x1f\x9d\x67\xd3\x23\x7e\x87\xdf\xc1\xb2\x07\xaf\x05\xb6\x5d\x54\x27\x15\x6a\x3b\x66\x10\x04\x46\x61\x49\xd8\xb0\x6d\x59\x00\x7e\x09\x38\xa2\x2b\xf2\x5a\xf0\x37\x9b\xfd\xe8\x3e\x7a\x34\x8e\x67\x3c\xce\x2b\xaa\x47\x03\x50\xf4\x3e\x24\xec\xfc\x80\xfd\x1a\x90\x07\x94\xfb\x16\x88\x2c\x82\xfa\xcb\x07\x0f\xc0\x49\x5a\x3b\xf8\x3a\xf1\x54\xde\x37\x80\x2d\x21\x06\x2d\xf2\x22\xbb\x8a\xd1\x25\xde\xf0\x8e\xe2\xbc\xdb\x42\x32\xb6\x9c\x9e\xc4\x76\xd6\x26\x73\x41\x53\xdd\x96\x85\x8e\xb3\x08\x9f\x81\x7c\xdb\x44\x54\x12\xa6\xf1\xdf\xf2\x2b\xe4\xc8\xb2\x06\x17\x58\xae\x4a\xf6\xc1\x7e\xf1\xfa\xc5\x73\x55\xa1\xbd\xd2\xe5\xd4\x26\xc7\x47\xb8\x6b\x74\x30\x55\x3a\x3c\x2d\x4e\xff\x63\x81\x7c\x31\xd3\xae\xa1\x99\x99\xfd\xd8\x80\x06\xb6\x44\x59\xc1\xa4\x35\xcd\x58\x48\xba\x12\xa2\xcf\x10\x31\x95\x24\x33\x71\xcd\x52\xb0\xc9\x06\x64\x80\xe0\xaa\xce\xc4\x7b\xdc\x7e\x2e\x49\x58\xfc\x7c\xc7\xd5\x86\xb7\xb4\x8a\x27\x08\x4c\x2f\xe8\x27\x8e\x77\x6e\x2d\x01\x59\xd1\x62\x13\xbf\x49\x5b\xab\x67\x63\x66\x9e\x47\x34\xa4\xea\x7a\xc6\x61\x56\x03\x48\xf7\x43\x72\xfb\xd0\xd5\x69\x76\xea\xe8\x5c\x62\xc6\x53\x03\x4e\x07\x0a\x26\xd7\x21\xb3\x8d\x1f\xa0\x18\xf4\x3d\x25\x08\x8f\x51\xfa\x79\x33\x57\xe5\xf1\x04\x36\x9a\xc9\x5c\xfc\x9b\xe2\x41\xf3\xa1\x9d\x87\x0e\xe8\x90\x79\x64\x4d\x0f\x0d\x4b\xf5\x28\x7d\xae\xe0\x71\x71\x7a\x22\x13\xb0\x40\xf0\xa5\xb2\x5c\x9c\xa0\x90\x02\xc7\x06\x89\xd3\xe7\xe1\x6a\xe5\xb7\x2c\x11\xfc\x1f\xed\xa1\x13\xae\x6d\x0d\x99\x6f\x9e\xa2\x8d\x99\x46\x89\xa3\x4d\x68\x92\xe5\x72\x64\x7a\x0e\x3f\xda\x19\x12\xf0\x53\xe8\xe8\x7c\x56\x7e\xe6\x75\x48\xdc\xa3\xd0\xc3\x86\x81\x79\xe9\xe3\xb2\x04\x28\x98\x2c\x83\xb2\x98\x2c\x7c\xac\x93\x7d\xfb\x0e\xcb\x75\x03\xb5\x29\x6e\xd9\xe1\xbf\x16\x2e\xaf\x99\x30\xba\x66\xc8\x37\xa9\x62\x01\x84\x30\x13\xf7\xae\x01\xcb\x56\x98\x9d\xcd\x99\x32\xfe\x2d\xe2\xfc\xf3\x3f\xff\xeb\xbf\x62\x5e\x4b\x64\x8a\x7d\x02\xf1\x37\xfc\x8d\x19\x07\xd0\x38\x15\xf0\xf7\xdb\x13\x7c\xf9\xae\x59\xe6\x84\x39\x61\xa2\xdb\xda\xf7\x4c\x50\x92\x78\x0d\xd3\xc1\x27\x18\x21\xc3\x6c\x70\x8e\x76\x91\x48\xb3\xf4\x98\x84\xa1\xb6\xf8\xb1\x21\x30\x19\x8e\xd9\x88\x5a\xa9\xf2\x61\xd0\x33\xfe\x35\x83\x27\x1a\x91\xb0\x75\xe7\xee\x64\x81\xa8\x95\x60\x43\x55\xfc\x1a\x47\x39\x51\x92\xf6\xd7\x4a\xee\xe3\x2a\xaa\x56\x20\xa7\xcb\x75\xac\xe4\xbe\x66\x57\x92\x68\xce\xe2\x5a\x7f\x04\x6b\x41\x49\xea\xa8\x53\x31\xfb\x54\x7d\xab\xba\x0c\x67\x50\x83\x2a\x4b\xd7\x49\x69\x45\x17\x05\x66\xb4\x90\x86\x3f\x4e\x4d\x80\xb1\xdd\x35\x8f\xf8\x1b\x0b\x34\x10\x2e\xb7\x89\x66\x75\xdd\x26\xb4\x23\x0c\xf4\xb6\xfb\x8e\x6d\x3e\xfa\xd9\x00\xa1\x90\x9a\x8e\x66\x52\x76\x1a\x2f\x4e\x34\x6b\x87\xf5\x62\xa2\x17\xa3\x66\x42\xdb\x1b\x26\xec\xfb\x73\x30\x04\x92\xcf\x05\x61\x1f\x94\x92\xc7\x4a\x29\xb9\x8e\xae\xb5\x80\x0a\x74\x64\x5b\xbe\x31\xd5\xac\x11\xaf\x00\x56\xfa\x2d\x41\x46\x0e\xde\x15\xe2\x9f\x38\xb1\x8c\xd1\x69\xf5\x3a\xc7\xe2\x48\x69\x22\x6a\x32\xec\x18\x4f\xc0\x3e\x41\xff\x22\x44\xf1\x1e\x52\x65\xbe\x1f\x28\x37\x10\x9d\x66\xeb\x27\xb7\xe6\xea\x38\xcd\x64\x3f\x92\xd4\x50\x02\x45\x95\xfa\xbf\x02\x2e\x78\x98\x24\x3e\x03\xdf\xaf\x1c\x52\xd7\xff\xaf\x51\x33\xce\x84\xa7\x24\x41\x81\x5a\x59\x5b\x46\x38\x33\x4d\x4e\x4f\x17\x82\x34\x05\xd1\x03\x06\x5e\x6b\xa1\x86\x3e\x09\x20\x66\xce\xbb\x58\x71\xa7\x0c\x42\x56\x07\x80\x6d\x76\x0d\x13\xac\xe2\x28\xc1\xf0\x1b\x6c\x3e\x65\x3d\x3e\x89\xcb\x65\x54\xac\xde\xa4\x74\x3c\xe7\xc4\x7e\xd1\x75\x22\x38\xaf\x53\xe1\x0e\xd8\x11\xa9\x98\xbe\xec\x08\xd5\x7e\xb1\x3a\x2c\x58\x7b\x45\xab\x42\xa3\x41\x4c\xb3\x61\x6f\x7b\xc8\xea\x8a\xd2\x43\x65\x2e\x13\x64\xe2\x28\xc4\x47\xd1\xaa\x61\x89\x4f\x10\x01\x8b\x96\x71\xeb\xd1\xf5\x04\xea\x46\xdb\x52\xfb\x35\xdf\xc2\x68\x7e\x81\x6b\x88\xe7\x3f\xec\x77\x6c\x0d\x00\x8b\x1b\xdb\x1c\xe8\xf9\xea\x9b\xf0\x57\xf8\xd2\xd7\x1d\x9c\x26\x53\xd7\xd9\xe1\x32\x33\x14\x16\x9a\x6b\xe9\xa8\x46\xa9\xa3\xe4\x40\xdc\x54\x37\x0b\xbf\xc9\xd8\x02\x17\x1e\x4d\x92\xdb\x60\x40\x96\x3f\x83\x33\x41\x83\x9a\xd5\x44\x37\xa8\x3f\x0e\x3c\x8e\xc2\x8b\x54\x66\xeb\x0e\x1e\xb0\xc7\x3a\x78\xd0\xb4\x7e\x0c\x22\x86\x13\xee\x51\xfc\x4a\xe7\xc4\xb5\x6b\x79\xdc\xaa\x29\x1e\xf4\x9c\x7a\x25\xe6\x50\x36\x94\xe5\x63\xa9\xdd\x08\xa3\xd7\xa3\x92\x8d\xfa\x96\xdb\xc0\x4e\x54\x71\x40\xa6\xb3\x07\xc1\x3e\xd9\xd7\x6b\x84\x0f\x25\x3f\x8d\x89\x34\x24\x28\x9e\x75\xc4\x44\x5b\x48\x18\x59\xf0\xa6\x94\x2f\xb1\x1f\xca\xcb\xf2\xa4\xf9\xe1\x2c\xad\xb7\xcf\xeb\xed\x02\xb4\xe2\x89\xfd\x70\xb6\x8d\xab\x37\x69\x9e\xe5\x35\xfa\xce\x2b\x23\x56\x60\xad\x5c\x79\xea\xc8\x14\xed\x37\xd8\xa4\x2c\xa1\x0a\x6a\xb3\x2c\xc1\xc8\x08\xc6\xea\x23\x34\x1b\xbc\x9f\x29\x69\x65\xcc\x49\xb2\xa4\x9c\x56\x6e\xb2\xd6\x9e\x2c\x52\xc6\x40\x5f\xb0\x65\xa0\x6a\xa4\xad\x85\x86\xb2\xb6\xd6\x3a\x2f\x1c\x73\x62\x34\x4f\x4b\x4a\xa0\x93\xa3\xdd\x00\xb3\x6d\xa2\x15\xf7\x1d\xca\xca\x52\x2e\x70\x85\x61\xb1\x98\x2b\xd5\x4d\x61\x9d\x73\x48\x18\x5d\x46\x82\xa2\x4e\xd6\x86\x5a\xe9\x9b\x64\x30\x32\x33\x86\x65\x3b\x29\xe3\x46\xd6\x97\x81\x34\x53\xbf\xa3\x49\xdf\x5d\x39\x5f\x4d\x21\x90\x07\x15\x4c\x3c\xd8\xd5\xa5\x85\x3f\x65\x7d\xbb\x30\x50\x78\x21\xb9\x6b\x90\x8b\xe6\x30\xd6\x72\x83\x6b\x12\xd2\x97\x28\x29\x33\x5c\x02\xb5\x87\x59\x2b\xd4\x45\x32\x1d\x1f\x5d\x6b\x9a\x63\x3c\xb2\x3c\x53\x42\x1c\x03\x46\xc1\xae\x8e\x66\x55\xb0\x84\x1f\x79\x0e\x85\x88\x17\xdc\x39\x49\x8d\x20\xee\x9e\xa4\x76\x7a\xdb\x58\x6c\x4f\x8e\x3a\x65\x63\x8f\xa5\x97\x48\xe2\x2b\x3a\x34\x51\x29\xaa\x6d\xb3\x8a\x02\x11\x18\x67\x88\x52\x3c\xf1\xf5\x1d\x96\xd5\xe6\x7c\xb6\x8c\xdf\xf1\x79\x33\xb0\xb8\xc8\x7c\xb4\x83\xac\xc0\x02\xc9\xe8\x94\x45\x79\x53\x56\x72\x3b\x43\xe6\x02\x58\x49\x7c\x29\x13\x93\xe7\xa6\x70\x89\xb7\xc9\xca\xea\x84\x68\x67\x13\xd9\x76\x06\xbe\x19\x4a\x97\x25\x0f\x86\x78\x0f\x4f\x61\x83\xf4\xf9\x4c\xb3\xdc\xd7\x51\xf9\xb2\x90\xeb\xf8\xa3\x19\x11\x96\x92\x0e\xb7\xb2\xed\x69\xf0\x38\xe5\xd7\x27\xf3\xb9\x27\xfe\xcc\x50\x82\x84\x55\x6d\xa4\x20\x70\x10\x1a\x9f\xa5\x34\xd0\xf6\x2e\x06\x43\x5b\xa1\x9e\xaa\x33\xbf\x68\xe5\xf4\x78\x1c\x2a\x11\xcb\x45\xcb\xde\xf3\x8c\x17\xd2\x89\x83\x73\x99\x3e\xf3\x00\x45\x8d\x10\xd0\x75\x56\xc0\x9e\xe4\xd8\xba\x50\x9a\x1e\x1d\x3f\x3c\xbd\x57\xb0\x1a\xe1\xaf\x31\x92\xd0\x0b\xdc\x10\xe3\x81\x81\x5c\x8c\xa6\xb7\x9d\x1f\x85\x34\x7e\xe5\x0a\x01\xc7\x51\x82\x27\xf9\xb1\xdb\xe3\x81\xee\xa3\xca\x00\xda\x5e\xc5\x58\x15\x00\x8e\xc4\x16\xde\x48\xbf\x9e\x73\xc0\x4e\x29\x80\x4a\xee\x0f\xc6\x97\x95\x05\x09\x56\x71\x7e\x03\xb2\xc2\x87\xf5\x77\xdb\x3f\x8a\x40\xc9\x82\xf8\xc0\x38\xb3\x6e\x6a\xad\x83\x1d\x11\xe2\x56\x30\xb9\x11\x74\x6e\x06\x8b\xdb\x65\x00\x93\x76\x25\x80\xb6\x6d\x9d\x80\x71\x7f\x1c\x79\xbc\x24\x60\x74\xdd\x4d\x69\xc0\x4f\xbe\xf2\x43\x11\x77\x55\x72\x30\xb4\xb4\xb3\xb6\xb5\xd9\x17\x37\xb7\xa5\x08\x24\x79\xf4\x3a\x2e\x60\xe1\xc4\x11\xee\x61\xf8\x35\x23\x53\x5f\xe8\xe4\xa6\x7e\x8d\xfb\x37\x45\xbb\x00\xe6\x70\x84\x1d\xf8\x27\xe9\x0b\xe5\x1e\xd8\x72\x68\xfc\xa2\x0c\x95\xc7\xd5\x47\x9d\x43\x7d\x8d\xf6\xed\x92\x0a\xe6\xeb\x42\x85\x6a\xc8\x54\x50\x1b\x17\xb6\x23\x18\x5b\x09\x9f\x4e\x63\x3d\x07\x92\x9b\xb2\x99\xe0\xb4\x82\x14\xd5\xe6\xab\x52\x4b\x1c\x50\x67\xb5\xb7\xd5\x26\xac\xeb\x80\xa2\xad\xa0\xc2\x1d\xa1\x10\xcf\xb3\x4a\x1d\xf6\x45\x90\x08\x8b\x24\xc5\x26\xba\x02\x9f\x4a\x5d\xe2\x31\x6e\x92\xd0\x38\x0b\x4a\x6b\xa9\xf3\x6e\x74\xb4\x07\x25\xbf\x46\x0d\x8f\x4e\xab\x40\x7a\xa4\x2b\x9f\x58\xf0\xc3\xc3\x8d\x0d\xd7\x9b\x52\x7c\xe7\x34\x1e\x16\x3c\x29\x85\xab\x72\xd0\x4d\xda\x71\xde\xd9\x39\x77\x32\xac\x0f\xdc\x88\x4f\x4f\x23\x95\x9a\x1b\x39\xad\xb9\x87\x75\xf8\x93\x65\x9e\x8d\xc5\x83\xe1\xea\x76\x98\xb7\x99\x20\xa6\xa0\x21\xd9\xbf\xa8\x00\x06\xea\x68\x76\x0a\xec\x76\x48\xaa\x57\xd8\x8c\x46\xa4\xda\xfe\x95\x0a\x47\xb1\x35\xd6\x0e\x49\xe9\x28\x8d\x1a\xc6\xad\x40\x71\x4b\x4f\xdb\x21\x29\x27\xf4\xca\x66\x9e\x4a\xa7\x98\x2f\x1b\x3a\xc6\x81\xe1\x80\xbf\x78\xf0\xc0\xcd\x2b\x81\x9f\xa5\x92\x27\xe4\x4f\xe5\x40\x42\x46\x13\x3b\xa4\x04\x8b\x7d\x2b\xda\x40\x55\x85\xd7\x31\x50\xf9\x1d\xcd\xc2\xdd\x7f\x2a\x80\x0d\x66\x34\xb9\x30\x16\x47\x8d\xc4\xce\x90\x99\xae\x23\xe9\x09\x99\xf5\x92\x7d\x3c\x62\xc6\x6d\x0e\x0f\x99\x1d\x12\x01\x3b\xa5\x9b\x2f\xce\x5e\x7c\x39\x18\x04\xc3\x28\xb6\x8d\x8d\x93\xc4\xa1\x60\x0d\x5d\x6b\xe1\x46\xbd\xf6\x0c\xa8\xf5\xc4\xd3\x0c\x50\x2f\x70\x0a\x2f\x0a\x27\x17\x81\x80\x9d\x38\xcf\x8b\x5f\xee\x8e\xd9\x35\x32\x11\xe0\x6a\x78\x0e\xcf\x9c\x88\xfb\x9f\xaf\xee\x93\x1b\x60\xc7\x30\x63\x73\xc8\xb1\xcc\x77\x71\xf3\xf4\xe0\xb8\xde\x60\x58\x6f\x28\xaa\xe7\x90\x76\x67\x4c\xaf\xcc\x7b\x82\x7a\x1d\x0a\xb9\x44\x69\x95\xa5\xdc\xb3\xc5\xd2\x93\x56\xb5\xb4\x23\x80\xda\x15\x61\x7b\x44\xcf\x77\xc7\xce\xd9\x20\x68\x44\x80\x0e\x8b\x9e\x77\x6a\xc9\xa6\xc6\xdb\x55\xe1\x20\xe8\xb3\x77\xc0\x9c\x2e\xa6\xe0\xec\x76\x01\x3b\xa8\x14\x38\x10\x39\x26\xa0\x97\x27\x4a\xfb\x35\x94\xaf\x8f\x36\xc1\x8c\xe3\x80\x9c\x5c\xa6\xd4\x98\x16\x05\x7b\x4c\x6b\x8f\xe8\xf9\x40\xad\x99\x09\x1d\xe1\xed\x52\x57\x51\x82\x04\xf6\x3c\x15\x99\xe4\x57\xe3\x17\x0b\x8c\x45\xd4\x75\x84\x13\xfa\x11\xab\xb8\xea\x6b\xd0\x35\x6e\xb7\x1b\xf6\xbd\x39\x2a\xf1\x5a\xb2\x63\x4a\xc6\x58\x8e\x61\x54\x59\x61\xda\x86\x23\xb5\x74\x2c\x47\x79\x72\x54\x6c\xa5\x93\x4a\xad\xf3\x93\x25\x97\x4c\x37\x62\x9d\x38\xca\x6b\x7e\x6f\x82\x9d\xba\xe1\xa7\xf6\x71\x53\x34\x19\xbd\x39\xe1\xdf\xe7\xed\xe5\x1c\x2d\x18\x91\x75\x7d\x79\x83\xac\x4e\x56\xe9\xfd\xca\xee\x5e\x9e\xe5\xe7\x1f\x3c\x36\x3e\xb5\x04\x65\xaa\xbc\x8a\xae\x95\x91\x59\xeb\x67\xf3\xcd\x7c\xa0\xb7\x4d\xca\x11\xe3\x35\x49\xe7\xa4\xab\x5b\x11\x6b\x14\x70\xd5\x36\x57\xe9\x59\xb5\xc0\x15\x5e\x38\xe4\x92\x73\x28\x76\x2d\x6c\x89\xf7\x7e\x61\x63\x68\x85\x1b\x42\x35\x7b\x25\x73\x49\x97\x04\xaa\xdf\x4f\x4b\x74\xa5\x8c\x44\xb5\x90\xfd\xc7\xfa\x7a\x3e\x1d\x77\xce\xa8\x74\xcd\xd3\xcb\xef\x05\xba\x07\x4f\xf5\xad\x67\x42\xd4\xbf\x32\xf1\x78\x55\xba\xfd\x8e\x59\x38\x34\x2d\x1e\xc3\xfb\xc4\x16\xac\x2b\x3e\x48\x4a\xf3\xbb\x9b\xb0\x1f\xea\xaf\xf3\x21\x0a\x0d\x4a\xe0\x8f\xa0\x32\x73\xee\xb4\xf2\xaf\x02\xf6\xe1\x26\x2e\x16\x8a\x1b\xc9\xc5\x49\xd0\x38\x6b\x10\xf0\x69\x89\x31\x5c\xfd\x0b\xf4\x57\x71\xf6\x31\x2f\x34\xda\xa8\x38\x87\xf0\x6c\x64\x7b\xee\x82\xee\xda\xf7\x3e\x5f\xc1\x9b\xa3\xa1\x21\x9a\xb3\xb1\xe8\x03\x2d\x7d\x54\xf7\x9d\x35\x0f\xda\x6c\xa1\xe7\x01\xec\xa8\xa3\xc3\x8d\x3a\x95\xc1\x91\xcd\xf4\x3b\x79\xad\xbe\xed\xa9\x76\xe7\x1a\x3c\x13\x2e\x24\xd2\x9b\x73\x08\xbe\xd7\x5c\x27\x25\x69\xb5\x60\xf2\x01\xdd\x60\x7a\x10\x55\x19\x42\xe0\x10\xca\x72\xe2\xfc\xe8\xf7\xff\xfe\x77\x3f\xfc\xee\x5f\x7f\xf8\x97\xff\xf8\xe1\x1f\xbf\xff\xc3\x3f\xff\xfd\x7f\xff\xe7\x7f\xfd\xfe\x77\xff\xf0\xc3\xbf\x7d\xff\x87\xef\xff\xe9\x68\x6e\xdc\x67\xde\x5c\x77\xe2\x84\x1f\xc7\x08\xfe\x9e\x1c\xd0\x9a\xd9\x1d\x06\xda\x35\x8e\x8d\x02\x4c\x1a\x15\x8b\xad\x5f\xed\xf0\x88\x92\x71\x19\xa6\xc2\x86\x92\x63\x5d\x41\x47\xcd\x87\x05\x9d\x05\x9b\x1b\x45\xc4\x5d\x74\xe1\x65\x63\xdd\xcc\xa6\xe0\xe6\xcd\x5d\xa1\xde\xb5\xb7\x45\xe3\xba\x03\x45\x1b\xd5\xd4\x21\x0e\x69\x77\xfd\x9e\x66\xa4\x94\xb9\xe3\x88\xee\xd8\x63\x5f\xc9\xca\x82\x50\x27\x72\x35\xcd\x87\xb6\xd9\xc1\x1b\xad\x77\x10\xcf\x8c\xa2\xe7\x3c\xb2\xdb\x3a\x3c\xa5\x80\xed\xd8\x70\x03\xfc\xf9\x93\x52\x77\x6f\xc4\x5a\xdc\xde\x4f\xf9\x0e\xde\x2e\xab\xef\xc7\xf9\xae\x91\x41\x68\x00\x41\x15\x92\x6c\x9f\x52\x4d\xaf\xe6\xf7\xd4\x31\x0c\x29\x38\xea\x5d\xc8\x8a\xaf\x78\x74\x0d\x0f\xf2\x05\x1b\x76\x47\x95\xbd\x92\xd5\x5d\x4d\xcd\x7d\xec\x8f\xe3\x1d\x59\xeb\x66\xf6\x7c\x7e\x24\x5e\xa4\xe0\xa7\x97\x0a\xe1\x35\x03\xe1\xec\x59\xb9\x41\xf3\x0c\x83\x54\x2a\x34\xc5\xe5\x91\x98\x61\x4a\x12\x02\x90\x61\x52\xcc\x96\x9e\x66\xdb\xb8\x42\xe3\x65\x55\x53\x7e\x04\x9d\xe0\x38\x95\x65\x29\x8e\xe6\x6a\x44\x9a\x7e\xbf\xd4\x1d\x37\x41\x3a\xf1\x4c\xa6\xb5\xc9\xb1\xef\x4a\x07\x0f\xe7\x83\x87\x13\xc2\xc3\x19\xe1\xc1\x94\x30\xdf\x76\x12\x55\x51\x3b\x2b\xdc\x48\x0a\x7f\xb8\xbb\xa1\xcc\xfe\x1a\x33\x56\xc4\x85\xbb\xe2\xf3\x2b\xd8\x27\x44\x59\x6b\x2e\x3f\xe2\x92\xd0\xf6\x75\x9e\x3e\xdf\x10\xfa\x5c\x5e\x3f\xaa\xd7\x6b\xf8\x8d\xb8\xba\xe5\xd5\xc2\xad\x4b\x50\xce\xee\xa4\x7b\xc7\xd9\xce\x5b\x4f\xcc\x95\xa7\xfb\x26\xfe\x9e\x3f\x3c\x7f\x7d\xc7\x5b\x4f\xa8\x1b\xf6\x17\x1c\x2c\x35\xbf\xd5\x59\x50\xba\xcd\x96\x4f\x81\x96\xc5\x15\xff\x36\x57\xd8\x29\xf7\xb0\x7b\x7b\xde\xbe\xc7\x34\xfb\x0e\x5c\xbe\xae\x17\x86\x01\x10\x07\x14\x6c\xb5\x84\xb7\xe5\xb2\x88\x17\x7c\xe1\x4c\xe7\x4c\x65\xd8\xbc\x85\xc6\xeb\x3f\x77\x89\x53\x70\x5b\xf2\xd1\x87\x67\xe5\x05\x4d\x36\xd8\xc9\x59\x8a\x43\xd0\xa9\xe9\x47\xdc\x39\xaf\xe8\xb0\x41\xf3\x1e\x47\x3c\x91\xe2\x2c\xd8\xbe\xf7\xcc\xd0\x1a\xed\xbe\x67\xc6\x42\xde\x79\xd4\xa5\x71\x9f\x6e\x68\x08\x6c\x8e\xbb\x38\x6b\x3d\x70\xbf\xcc\x38\x04\x55\xdf\xf0\xa7\x77\xcd\x8c\x9d\xd7\xbe\xd7\xcc\x38\xd7\xcb\x34\xe7\x8c\x27\x3e\xcc\xb4\x0f\xba\x62\x06\x17\x6a\xe0\x9c\xaf\x89\x56\x75\xda\x38\x09\x3c\xdb\xa2\xef\x2c\xc8\x01\x77\xd0\x38\xab\xfc\xa3\xee\xa0\x71\xe0\x98\x92\xde\x83\x2e\x43\x05\xed\x71\x34\xc4\x51\x9d\x9b\x65\x0e\xbc\xbb\xc4\x09\x9b\x33\x51\x5b\xa7\x2f\xfb\x4f\x13\x96\x17\x4a\x00\x82\x88\x18\x8e\x96\x77\x0b\x49\xfb\x0e\x5c\x8e\x94\xa3\xc3\x38\xe1\x13\xd2\x7b\xfd\x05\x94\x23\x97\xbf\xdc\xdb\xeb\xce\x90\x69\x83\xa3\x76\x54\xc0\xd1\x84\xf7\xa8\x80\xa3\x8a\xb7\x6c\xf1\x1b\xac\xec\x50\x41\xcd\xd2\xac\x97\xbe\xe3\xe3\x59\x94\xde\x70\x22\x27\x23\xc6\x50\xff\x91\x03\xaa\x12\xaa\x71\x6c\xcc\xa6\xd0\xcd\xca\x98\x04\x2c\x63\x14\x77\xea\x3c\x51\xa3\x30\xae\x07\xef\xa1\x6b\x7c\xf0\xe4\xb2\xae\xfa\x80\xfe\xae\x06\xdb\x51\x20\xa7\xe9\xdc\xe0\x41\x1e\x1f\xa7\xe0\x0e\x3c\x33\x87\x9c\x97\x16\x6c\x70\x48\xb1\x0e\xce\xe8\xee\xc5\x3a\x4e\xef\x1d\x37\x4a\xe0\x6c\xfe\xb7\x6f\x94\xb0\xd8\x75\xad\x88\x41\x05\xf4\xb2\x5e\x24\x71\xb9\xb1\xfa\xe7\xc7\x5d\x27\xb1\x8f\xf5\x71\x97\x6b\x22\x74\x7d\xc8\xf8\x55\x11\x1d\x2d\x61\x66\xa7\x4a\x44\xcc\x7d\x11\x5c\x2c\xb2\xc3\xa0\x99\x3a\x55\x20\x8d\xad\xe0\x96\x7e\x0c\xe8\x95\x46\xd1\x47\xbb\xe6\xa3\x5d\xf2\xf1\x27\x7c\xe7\x03\x19\x40\x77\xbd\xf3\x61\x80\x2a\xbd\xb2\x6f\xbf\x3b\x1f\xb4\x5e\xf8\xa3\xdd\xee\x30\x80\xf2\x1e\xaa\x4a\x0c\xeb\x2a\xac\xcc\xdb\x43\x0d\x41\x03\x93\x25\x6e\xab\x23\x00\xd1\xd5\x48\xf0\xf2\x93\x03\x5d\x77\xe6\x33\x4a\xba\xf3\xbd\x7b\xdd\x6f\x21\x25\x61\xf1\xfa\xc9\xf7\xb1\x3a\x74\xf6\xde\x1b\x18\x46\x27\x8d\xbb\x40\x74\x6d\xb0\x46\xa4\x27\xd1\xda\x7b\x67\xc5\xbe\x4a\xb9\x2f\x03\x3a\xae\x95\xfb\x2f\x87\x72\x79\x58\xe9\xe6\x7e\xd5\xdc\x9b\x8f\x6c\x68\xe6\xd6\xdd\x16\xfa\x3f\xd2\xa3\x0a\x82\x9c\xd2\x9d\x68\x40\x59\xe3\xe4\xb4\xa4\x07\xa6\x69\xeb\xea\x63\xc2\xf5\xa7\x51\xd8\xfb\xda\x58\xbb\xd2\x90\x3b\x15\xb4\x19\x88\x00\x1b\x70\x81\xb3\x0c\xff\x03\xcf\x3d\x30\x82\x54\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27196, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x67, 0x23, 0x72, 0xe2, 0x16, 0x7a, 0x98, 0x5e, 0xf, 0xdc, 0x88, 0x0, 0x65, 0x9b, 0x6b, 0x81, 0x37, 0xbe, 0x31, 0x93, 0x8a, 0x4a, 0xf4, 0x6c, 0xd3, 0x21, 0x50, 0x1f, 0xeb, 0xa5, 0x87, 0xb3}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27220, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xac, 0x46, 0x18, 0xb4, 0x78, 0x34, 0x15, 0x6f, 0xeb, 0xe4, 0xbf, 0x58, 0xc4, 0xa5, 0xc6, 0x1c, 0x8e, 0x41, 0xc1, 0x20, 0x2c, 0x49, 0x3, 0x78, 0x9, 0x48, 0xb2, 0xad, 0xf4, 0xf5, 0xfd, 0xfe}}
 	return a, nil
 }
 
-- 
2.43.0


From 1ad7f70bde3ff5071a3c2d3d5ccfe263081e82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 20/33] fix: clients escape strings in the path

---
 gengokit/httptransport/httptransport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 50a4184..736b530 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -287,6 +287,10 @@ func (b *Binding) PathSections() []string {
 				rv = append(rv, fmt.Sprintf("fmt.Sprintf(\"%%d\", %v)", value))
 				continue
 			}
+			if ok && field.GoType == "string" {
+				rv = append(rv, fmt.Sprintf("url.PathEscape(%v)", value))
+				continue
+			}
 			rv = append(rv, fmt.Sprintf("fmt.Sprint(%v)", value))
 		} else {
 			// Add quotes around things which'll be embeded as string literals,
-- 
2.43.0


From ee4e7e762c3575e1d1d7a39b5d03f75aafbbb8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:24 +0000
Subject: [PATCH 21/33] fix: message and bytes alternatives of a oneof in the
 query compile

---
 gengokit/httptransport/httptransport.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 736b530..8523cec 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -91,9 +91,10 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 				LowCamelName:   LowCamelName(oneofType.Name),
 				Repeated:       oneofType.Type.ArrayType,
 				GoType:         oneofType.Type.Name,
+				StarExpr:       oneofType.Type.StarExpr,
 				LocalName:      fmt.Sprintf("%s%s", pkg.GoCamelCase(oneofType.Name), pkg.GoCamelCase(meth.Name)),
 			}
-			if oneofType.Type.Enum == nil && oneofType.Type.Map == nil {
+			if oneofType.Type.Enum == nil && oneofType.Type.Map == nil && pkg.IsGoBaseType(option.GoType) {
 				option.IsBaseType = true
 			}
 			// else {
@@ -113,10 +114,6 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 			option.ConvertFunc, option.ConvertFuncNeedsErrorCheck = createDecodeConvertFunc(option)
 			// option.TypeConversion = fmt.Sprintf("&pb.%s{%s: %s}", oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
 			typeConvStr := "&%s{%s: %s}"
-			// 如果是指针类型
-			if oneofType.Type.StarExpr {
-				typeConvStr = "%s{%s: %s}"
-			}
 			option.TypeConversion = fmt.Sprintf(typeConvStr, oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
 			option.ZeroValue = getZeroValue(option)
 			option.OneofType = oneofType.Type.Message.Name
-- 
2.43.0


From ce16e709f2cf31f00d8025f992bd0186fa5cb497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 22/33] fix: clients fill in path parameters that have text
 next to them

---
 gengokit/httptransport/httptransport.go | 64 +++++++++++++++----------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 8523cec..735f620 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -263,38 +263,50 @@ func (b *Binding) PathSections() []string {
 		byName[v.QueryParamName] = v
 	}
 
+	param := func(name string) string {
+		camelName := pkg.GoCamelCase(name)
+		field, ok := byName[name]
+		if !ok {
+			field, ok = byName[camelName]
+		}
+		value := "req." + camelName
+		if ok {
+			value = "req." + field.CamelName
+			if field.StarExpr {
+				value = "req.Get" + field.CamelName + "()"
+			}
+		}
+		if ok && field.IsEnum {
+			return fmt.Sprintf("fmt.Sprintf(\"%%d\", %v)", value)
+		}
+		if ok && field.GoType == "string" {
+			return fmt.Sprintf("url.PathEscape(%v)", value)
+		}
+		return fmt.Sprintf("fmt.Sprint(%v)", value)
+	}
+
 	rv := []string{}
 	parts := strings.Split(b.PathTemplate, "/")
 	for _, part := range parts {
-		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
-			name := RemoveBraces(part)
-			camelName := pkg.GoCamelCase(name)
-			field, ok := byName[name]
-			if !ok {
-				field, ok = byName[camelName]
-			}
-			value := "req." + camelName
-			if ok {
-				value = "req." + field.CamelName
-				if field.StarExpr {
-					value = "req.Get" + field.CamelName + "()"
-				}
+		// A section may have text next to its parameters, as in "{id}:cancel".
+		// Add quotes around things which'll be embeded as string literals,
+		// so that the 'fmt.Sprint' lines will be unquoted and thus
+		// evaluated as code.
+		exprs := []string{}
+		for part != "" || len(exprs) == 0 {
+			open := strings.Index(part, "{")
+			end := strings.Index(part, "}")
+			if open == -1 || end <= open+1 {
+				exprs = append(exprs, `"`+part+`"`)
+				break
 			}
-			if ok && field.IsEnum {
-				rv = append(rv, fmt.Sprintf("fmt.Sprintf(\"%%d\", %v)", value))
-				continue
+			if open > 0 {
+				exprs = append(exprs, `"`+part[:open]+`"`)
 			}
-			if ok && field.GoType == "string" {
-				rv = append(rv, fmt.Sprintf("url.PathEscape(%v)", value))
-				continue
-			}
-			rv = append(rv, fmt.Sprintf("fmt.Sprint(%v)", value))
-		} else {
-			// Add quotes around things which'll be embeded as string literals,
-			// so that the 'fmt.Sprint' lines will be unquoted and thus
-			// evaluated as code.
-			rv = append(rv, `"`+part+`"`)
+			exprs = append(exprs, param(part[open+1:end]))
+			part = part[end+1:]
 		}
+		rv = append(rv, strings.Join(exprs, " + "))
 	}
 	return rv
 }
-- 
2.43.0


From ba05bb9976dc925ac72154f1328cb303069eea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:40 +0000
Subject: [PATCH 23/33] fix: RPC names that are Go keywords in lower case, or
 differ in case only, compile

The generated transport and server code named its variables and fields after
the lower-case RPC name, so Select, Import or Type gave code that does not
parse, and GetURL next to GetUrl declared the same name twice.
---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 22 +++++++++----------
 .../NAME-service/server/server.go.tmpl        |  4 ++--
 gengokit/template/template.go                 | 16 +++++++-------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index e8208b6..ad01a64 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -187,7 +187,7 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 	// {{ ToLower .Service.Name }}
 	return &grpcServer{
 	{{range $i := .Service.Methods}}
-		{{ToLower $i.Name}}: grpctransport.NewServer(
+		handle{{$i.Name}}: grpctransport.NewServer(
 			endpoints.{{$i.Name}}Endpoint,
 			DecodeGRPC{{$i.Name}}Request,
 			EncodeGRPC{{$i.Name}}Response,
@@ -201,14 +201,14 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 type grpcServer struct {
 	Unimplemented{{.Service.Name}}Server
 {{range $i := .Service.Methods}}
-	{{ToLower $i.Name}}   grpctransport.Handler
+	handle{{$i.Name}}   grpctransport.Handler
 {{- end}}
 }
 
 // Methods for grpcServer to implement {{GoName .Service.Name}}Server interface
 {{range $i := .Service.Methods}}
 func (s *grpcServer) {{GoName $i.Name}}(ctx context.Context, req *{{GoName $i.RequestType.Name}}) (*{{GoName $i.ResponseType.Name}}, error) {
-	_, rep, err := s.{{ToLower $i.Name}}.ServeGRPC(ctx, req)
+	_, rep, err := s.handle{{$i.Name}}.ServeGRPC(ctx, req)
 	if err != nil {
 		return nil, err
 	}
@@ -260,9 +260,9 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 	{{- with $te := .}}
 		{{- with $pkgName := $te.PackageName}}
 			{{- range $i := $te.Service.Methods}}
-	var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
+	var endpoint{{$i.Name}} endpoint.Endpoint
 	{
-		{{ToLower $i.Name}}Endpoint = grpctransport.NewClient(
+		endpoint{{$i.Name}} = grpctransport.NewClient(
 			conn,
 			"{{$pkgName}}.{{$te.Service.Name}}",
 			"{{$i.Name}}",
@@ -278,7 +278,7 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 
 	return Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}, nil
 }
@@ -728,11 +728,11 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 func ServeNATS(conn *nats.Conn, srv *natsServer) error {
 {{with $te := .}}
 	{{- range $i := $te.Service.Methods}}
-		{{ToLower $i.Name}}Sub, err := conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}", "{{$te.Service.Name}}", srv.{{$i.Name}}.ServeMsg(conn))
+		sub{{$i.Name}}, err := conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}", "{{$te.Service.Name}}", srv.{{$i.Name}}.ServeMsg(conn))
 		if err != nil {
 			return err
 		}
-		_ = {{ToLower $i.Name}}Sub
+		_ = sub{{$i.Name}}
 	{{end}}
 	return nil
 {{end}}
@@ -792,9 +792,9 @@ func EncodeNATSGenericResponse(ctx context.Context, reply string, nc *nats.Conn,
 func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({{.Service.Name}}Server, error) {
 	{{- with $te := .}}
 		{{- range $i := $te.Service.Methods}}
-			var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
+			var endpoint{{$i.Name}} endpoint.Endpoint
 			{
-				{{ToLower $i.Name}}Endpoint = natstransport.NewPublisher(
+				endpoint{{$i.Name}} = natstransport.NewPublisher(
 					conn,
 					"{{$te.Service.Name}}.{{$i.Name}}",
 					EncodeNATSGenericRequest,
@@ -807,7 +807,7 @@ func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({
 
 	return Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}, nil
 }
diff --git a/gengokit/template/NAME-service/server/server.go.tmpl b/gengokit/template/NAME-service/server/server.go.tmpl
index 863b683..a4dcf54 100644
--- a/gengokit/template/NAME-service/server/server.go.tmpl
+++ b/gengokit/template/NAME-service/server/server.go.tmpl
@@ -128,13 +128,13 @@ func NewEndpoints(svc pb.{{.Service.Name}}Server) pb.Endpoints {
 	// Endpoint domain
 	var (
 	{{range $i := .Service.Methods -}}
-		{{ToLower $i.Name}}Endpoint = pb.Make{{$i.Name}}Endpoint(svc)
+		endpoint{{$i.Name}} = pb.Make{{$i.Name}}Endpoint(svc)
 	{{end}}
 	)
 
 	endpoints := pb.Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}
 	// Wrap selected Endpoints with middlewares
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 55c9552..25d612d 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,11 +1,11 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.220kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.150kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
 // NAME-service/server/interrupt.go.tmpl (332B)
-// NAME-service/server/server.go.tmpl (3.202kB)
+// NAME-service/server/server.go.tmpl (3.186kB)
 // NAME-service/server/wrapper.go.tmpl (1.078kB)
 // NAME-service/service/service.go.tmpl (572B)
 // NAME-service/service/service_methods.go.tmpl (291B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\xdc\x48\x76\xe7\xcc\xaf\x88\x26\xa6\x25\xb2\x9c\xc5\x94\x0d\xd8\x18\x57\xa3\x0c\x68\xa9\xee\xd6\x4c\x6b\x19\xa9\xd4\x7d\x10\x04\x0d\x33\x33\xb2\x92\x53\x4c\x92\xe2\x52\xa5\x9a\xb2\x2e\xbe\xb4\x01\x1b\x30\xe0\x93\x0f\xc6\xc0\x27\x5f\x0d\x9f\xfd\x3d\xd3\xc6\xfc\x85\xdf\x12\x1b\xd7\xcc\xac\xee\x31\x06\x86\x85\x19\x89\x49\x46\xbc\x78\xf1\xe2\xc5\xdb\x23\x7a\x3e\x17\x8f\xb3\x95\x14\x17\x32\x95\x45\x54\xc9\x95\x58\xdc\x88\x45\x54\x64\x69\x28\x9e\xbc\x10\xcf\x5f\x9c\x8b\xb3\x27\x4f\xcf\xc3\xe9\x7c\x2e\x5e\xc9\xa2\x4e\xd3\x38\xbd\xe0\x06\xe2\x3a\x4e\x12\x91\x5d\xc9\xe2\xba\x88\x2b\x29\xaa\x4d\x5c\x8a\x75\x9c\x48\x6a\xfc\xad\x2c\xca\x38\x4b\x4f\xc4\xed\x6d\xa8\x9e\x3f\x7d\x72\x3e\x88\x27\x30\x9a\xfb\x15\x7f\x43\x8b\x69\x1e\x2d\x2f\xa3\x0b\x89\x5f\x5e\xf2\xe3\xf3\x68\x4b\x5f\xa0\xf3\xb9\x1e\x43\x2c\xb3\xb4\x8a\xe2\xb4\x14\x5b\x59\x6d\xb2\x55\x29\xaa\x4c\x6c\xa3\x4b\x29\xe2\x74\x15\x5f\xc5\xab\x3a\x4a\x84\x4c\x57\x79\x16\xa7\x15\x74\x29\xb2\xad\x28\x65\x71\x15\x2f\x65\x39\x43\x48\x85\xfc\x50\xcb\xb2\x12\x51\xba\x82\xe7\x32\xcf\xd2\x12\xa6\x70\x93\x4b\x82\x84\x4d\x71\x46\x19\xbc\x34\x50\x66\x22\x2a\xc5\xb5\x84\x49\xc3\xbf\x32\x5d\x02\xdd\x8a\x12\x01\x20\xbc\x95\x54\xbf\xd7\x59\xa1\x3a\x12\xb4\x19\xbd\x88\x90\x52\x6b\x91\xd5\x85\x28\xeb\x3c\xcf\x0a\xa4\x74\x55\x44\x69\x89\xcf\x38\x5c\x1c\x25\xf1\x6f\xa3\x0a\x08\x81\xd0\xa0\xcf\x36\xaa\xca\x70\x3a\x8d\xb7\xd4\xc2\x9f\x4e\xbc\xc5\x4d\x25\x4b\x0f\x1e\x70\xee\xf2\x63\x85\x8f\x84\x06\x2c\xc9\xfc\x37\x65\x96\xe2\x8b\xf5\x96\xde\xc7\x19\xff\x3d\x8f\xb3\xba\x8a\x13\xfc\x91\xca\x6a\xbe\xa9\xaa\x5c\x3f\xd7\x05\xbd\x2e\xab\x02\xe0\x5d\xa9\x47\x00\x05\x43\xc0\xf3\x45\x5c\x6d\xea\x45\xb8\xcc\xb6\xf3\x8b\xec\xf8\x32\xae\xe6\xf8\x7f\x4d\x0b\x68\x1d\xa5\x37\xf9\x42\x78\x17\x59\x76\x01\x4b\x7e\x91\x25\x51\x7a\x11\x66\xc5\xc5\x3c\x2f\xb2\x2a\x5b\xd4\xeb\x39\xcd\x7f\x7e\x99\x66\xd7\xe9\x9c\x5a\x43\xaf\x55\x5d\xd0\x24\x0f\xe8\x6a\xbb\x40\x7f\xb9\xcd\xab\x43\xc6\x55\xed\xa1\xe7\x3a\x96\xc9\x6a\x1b\x95\x97\x07\xf4\x76\xfa\x00\x04\x20\x4f\xbd\xac\x0e\xe8\xae\x3b\x40\xdf\x2a\xde\x02\xb7\x45\xdb\xfc\x80\xee\x4e\x1f\x80\x70\x5d\x44\x79\x0e\x0c\x76\x00\x00\xdb\xa5\xbb\xa4\x05\x6c\xde\x68\xbe\xad\x3f\x7a\xcd\x2f\xf9\xe5\xc5\x5c\x16\x45\x56\x10\xa7\x8d\x0c\x64\x38\x8f\xde\x68\xf6\x1b\xe9\x40\x0f\x88\xc8\xed\xed\xb1\x88\xd7\x42\x7e\x10\xe1\xe3\x2c\x5d\xc7\x17\xe1\xb9\xd9\x09\x1e\xec\x14\x4f\x78\x29\x30\xbf\x27\x60\xd3\x37\x70\xc3\xb7\xc7\xc0\xd3\xf8\x2f\x0c\xe1\x31\x28\xe0\x49\x6c\xb8\x07\xd4\x8b\x22\x5f\x6a\xa8\x1d\x3c\xe9\xe3\xe0\x97\x39\x88\x99\x68\x15\x55\x51\x7b\xd0\xbd\x87\xc4\x27\xbb\xe3\x07\xf6\x97\x69\xa0\xd1\x71\xc6\xc2\xbd\x7b\x00\x00\xb5\xd5\x0f\x22\x36\x3e\x1d\x30\x04\x75\x74\x71\x0c\xa6\xd3\xe9\x55\x54\xa0\xb4\x7a\x2f\x4e\x05\xc8\xa2\xf0\x75\x0e\x32\xa5\xe2\xdf\x24\xc0\x00\x8d\x6d\x1e\x15\x92\x5f\x29\xe9\x13\x3e\xac\xb2\x98\xdf\x34\xa6\x19\x3e\x97\xd7\xaf\x51\x16\x17\xfc\x91\xa5\x59\xf8\x3c\xcb\x1f\x27\x20\x62\xcd\x5b\x00\x9a\xdf\xf0\x0f\x66\xde\xf0\x3b\xe0\xfd\xe9\x04\x44\xa9\x5a\x4f\xcd\x86\x2c\x95\xb1\x29\x89\xa4\xf0\x61\x4a\xfd\xac\x90\x09\x9f\xa8\x47\x7c\xad\xc4\x47\x78\x86\xff\xe2\x0b\xbd\xa5\xc3\xd7\xf4\x80\xaf\x9c\x6d\x1a\x9e\xeb\x67\xfc\x60\xb7\x1f\xb6\x86\xad\xf2\x6d\x94\xd4\x34\x6f\x47\xae\x84\x5f\xe2\xf3\x33\x78\x46\xea\xcd\x8f\xf6\xfa\x23\xce\x8c\x66\x3b\xda\xfb\xcf\x9c\x34\xe8\xd3\x54\x44\xac\xde\x8a\x99\x88\xab\xfb\xa5\xa8\x4b\xb9\xae\x13\x52\x53\xeb\x3a\x5d\xe2\xd4\x41\x07\x6e\xa2\x4a\xa4\x12\xb5\x54\x26\xb2\x9c\x6c\x03\x91\x61\x5f\x78\x3e\xd6\x6a\x00\x01\x2e\xa2\x32\x2e\x43\xf1\x25\x74\x97\x1f\x61\xe6\x89\x9c\x89\x9b\xac\x16\xdb\xf8\x62\x53\x89\x3c\x2a\x51\x45\x3a\x08\x03\xbc\xc8\x0c\xc4\xe3\xc0\xda\xac\x6a\x50\xcc\x08\x0e\xda\x22\x07\x84\x5f\x83\x5e\x4d\x10\xc7\x6b\x60\x42\x21\xa3\xe5\x46\x69\x7a\xe1\xeb\xd1\x03\xf8\x56\x00\x86\x75\xce\x40\xcb\x5c\x2e\xe3\x75\xbc\x84\x41\xab\x4d\x28\xfc\xa7\x84\x1f\x18\x0c\x00\x7f\x11\x2d\x92\x1b\x68\xb3\x8d\x61\x79\xc8\x4a\x00\x8d\x5d\xc6\x17\x29\x76\x8d\xd3\xab\xec\x12\xd5\xbd\x14\xaf\xd9\x46\x30\x56\x05\xa1\x28\x11\x8e\x9d\x01\xf3\x00\x82\xd0\x94\x0c\x03\x68\x61\xa8\xbb\x4c\x62\x99\x56\x4d\xea\xc2\x28\xcb\x2c\x49\x24\xf5\xd3\x06\x0a\x60\x04\xcc\xcf\xe0\x60\x1e\xd6\x5c\x81\xbf\x60\x42\x08\xb0\x04\xb6\x49\xd8\x94\x60\x5a\xc5\x48\xe1\xad\x24\x4a\x3a\xf8\x42\x0f\x59\xac\xa3\xa5\x1c\x5a\x09\x04\x66\x06\xeb\x37\x92\x6a\x1c\x4c\x34\x25\x08\x6e\xc0\xc7\x6a\x3e\x20\x07\x16\x71\x4a\x74\xda\x2a\x14\x9d\x85\x9d\x29\x53\xaa\xaa\x8b\x14\xa6\x8e\x33\x46\x04\x97\x30\x4d\x59\xa0\xc5\x14\x69\x64\xc3\x29\x4d\xa7\x43\xd0\xdb\xe9\xe4\x4d\x6a\xe6\x27\x57\x60\x01\xea\x1e\x6c\x02\x2a\x49\x70\x7b\x0b\x28\x82\x85\xf8\xb3\x58\x9c\x9c\x0a\xd3\xe6\x19\x2f\x19\x8b\xe5\x9f\xc5\xaa\x8f\x1e\x45\xc0\x1f\x3d\xd5\x50\xbf\x04\x50\x2c\xb8\xd8\xba\x34\x18\xed\x1e\x02\x19\x18\x38\xd1\x76\x09\x84\x33\xa8\xbf\xac\x3e\x0a\x65\xa5\xa1\xd8\xc5\x7f\x67\xc8\x30\x47\xb7\xb7\x5f\x65\xd8\x06\x20\x87\xaf\xd8\x04\x3d\x07\x62\xa8\x7e\x81\xf0\x5b\x2d\xd8\x30\x75\x9a\xcc\x58\xc0\x05\x48\x2d\x6d\xb7\xd2\x3b\x44\x54\x86\x3d\x33\x47\x64\x70\xf0\x60\x3a\x41\x45\x00\x2d\x3f\x3b\x15\x69\x9c\x20\x84\x89\x5a\x2f\xf8\x49\x40\xa6\x93\x4f\x53\xfd\x4e\x43\x0f\x77\xe2\x14\xcc\x10\x00\x10\x51\x93\x13\x89\xf9\x0c\xb7\x99\x4b\x51\xda\xc8\x3f\x03\x31\x82\x14\xfd\x84\x8d\x8f\x85\x4b\x65\xf8\x34\x44\x68\x84\xd5\x37\xb3\x12\x89\xee\x74\x73\xd9\x24\xe8\x2e\x37\xd3\x8c\x26\x87\x60\xfb\x57\x49\x3b\x06\x66\x47\xdd\xe2\xb2\x18\x17\xc1\x79\xcd\x64\xb7\xcb\x01\xb0\x3f\xe0\x44\x14\x84\x0e\xdd\x3a\xab\x0d\x5d\xae\xcc\xda\x95\x61\x8b\x81\x08\x15\x6c\xd3\x5d\xb5\xee\xb2\xe1\xba\xe9\xb7\x57\xbc\x1c\x93\x4f\x53\x26\x32\xaf\x89\xbb\x36\xa8\x1c\x1f\x26\xc9\xd9\xc7\xa5\xcc\x2b\xd2\x53\x25\x8b\x58\x43\x29\xd2\x50\xe8\xb2\xa8\xbd\x69\x37\x2b\x2d\x23\xc9\xa6\x1e\xbf\x20\x7c\x16\xaf\x40\x6c\x5f\x83\x7e\x27\x2f\xf0\x4d\xa9\xfd\x42\x74\x82\xf2\x3c\xb9\x41\x11\x83\x62\xb3\x42\xe0\x5b\xd3\x9a\xf4\x82\x84\x65\xbb\x31\xcb\x86\xfb\x05\x25\x48\xa9\xa5\x06\xc0\x7b\x91\xa3\xd6\x40\xc9\x39\x73\x04\xd7\x12\xe4\xd0\x42\x92\xae\x01\x31\x0a\xdd\xc0\x87\x4d\x91\xec\x00\x13\xde\xcb\x8f\xcb\xa4\x5e\xc1\x17\xf2\x02\x17\x12\x51\x60\xdd\xbc\x0a\x3b\xd4\xf0\x2d\x4e\x33\xe1\xbd\xae\xa2\xaa\x2e\x3d\x78\x7a\x09\xbd\xbc\xc0\xec\xfb\x23\x67\xe3\x0f\xf5\x17\x3d\x54\x99\x59\x6c\xc2\x30\x64\x87\x8b\x98\x27\x4e\xd5\x6b\x60\x85\x6d\x94\xbf\xe5\x4f\xef\x98\xfc\xb7\x9f\x70\xd5\xdb\x1b\xa6\x4f\xf2\x4d\x26\x9e\xc3\x46\x1e\x38\xd8\x9f\x66\xaa\xab\x32\x23\x81\x03\x26\xb8\x1a\xef\x11\x15\x62\x57\x02\x69\xd0\xba\x65\x8e\x83\xcf\xd9\x25\x7e\xd6\x88\xbd\x95\x1f\xdf\x7d\x21\x3e\x83\x97\xc4\x81\x79\x94\xc6\x4b\xdf\x5a\x78\x6b\xdf\x3b\xd3\x20\xcc\x0a\xde\xff\xbc\xbc\x2f\x56\x19\xac\x6e\x9a\x55\x30\x04\x28\xdf\x2f\x60\x3d\xa5\xbb\xf0\x86\x77\xc8\xa4\x47\xa4\x82\x40\xf1\xf3\x4a\x26\xb2\x92\xbe\xc6\x80\xbe\xd9\x09\xc0\x6b\x8b\xbe\x21\xdf\xfe\x84\x82\x49\x22\x88\xd3\x53\xd1\x20\x19\x4f\x6f\xd2\x2b\x4a\xc1\xbc\xb4\x98\xfb\xbd\x4d\x10\x77\x42\xbe\x41\x72\xde\x76\xdf\x44\x0b\x98\xd1\xca\x72\x03\x87\x50\x2e\x64\xa5\x79\x17\xf9\xdd\x50\x8f\x58\xf8\x7a\x23\x53\xf3\x35\x73\xd8\x55\x01\x63\xae\x9b\xf1\x2e\x53\x1b\xa1\xe6\xc6\x82\xe3\x32\x11\x07\x77\xc0\x2e\x02\xa3\x06\xfe\x21\x33\xcb\xe1\xd2\xeb\x4d\x0c\x3b\x1f\xbb\x96\x30\x74\x0f\x0a\x4a\x93\xab\xde\xda\x8e\xc9\x0a\xa5\xc7\xbb\xb3\x22\xe1\xca\x0c\x3c\xeb\x4a\xe1\x1e\xc1\x3c\x1d\x9a\xd7\x9d\x65\x53\x07\xa9\x99\x9a\x27\x51\xbc\x90\x4b\x19\x5f\xb1\xc5\x47\x53\x04\x60\xee\xbc\x43\x30\x55\xa4\x01\xe3\x40\xa1\x0f\xda\x10\x35\xfb\x1e\x11\x45\x8e\x5c\x81\x8f\x18\x27\x64\x34\xea\xed\x44\xc1\x1c\x65\xec\x46\x49\x5c\xdd\x84\x63\x22\xa4\x31\x77\x57\x92\x1c\x4c\xd1\xff\x97\x33\xff\x77\xe4\x4c\xa3\xdb\x4c\x1c\x24\x76\xf6\x0f\x50\xec\xeb\x7a\x7e\xf5\xea\xe5\x63\xb6\xb0\x0e\xf6\x3d\xd1\x8c\x73\xba\x63\xb8\xb6\xb4\xc6\x80\xd5\xe7\xd1\x15\x6c\x23\x70\xd8\x24\xbb\x0d\x17\xd0\x45\x0c\x38\x03\xa1\x35\x10\x2d\x64\xdf\x82\x72\xdc\x93\x2c\x67\xd7\x16\xf6\x43\x23\x16\x13\x72\x27\x36\x2d\x82\xa1\x81\x70\xb9\x4a\xa7\x61\x89\x0b\xfe\xf6\xdd\x30\x24\x5c\xde\xbe\xaf\x8f\x24\x30\x95\xf4\x11\xdb\x67\x2a\xa6\x74\x9e\x29\xeb\x33\x98\x91\x01\xde\x1c\xe7\x14\x0d\x27\x98\x91\xdf\x78\x6d\xe6\x03\xd3\x09\x28\xd0\x71\x7b\x2b\xce\xb3\x6f\xb2\x6b\xc0\xb5\x31\x03\x8a\xec\x28\xd3\xf0\x1e\x62\xc4\x78\xdc\xa2\x9b\xb4\x93\x7b\x6f\x6f\x35\x4c\xc3\x72\x27\xa2\x39\x2d\x13\xa2\xf1\x91\x07\xed\x2e\xeb\xe1\x52\x14\x11\x93\x27\x14\x29\xc7\xf9\x3b\x2d\x94\x75\x4c\x0d\xce\xd2\xde\x06\xca\xd7\xc1\x16\x0d\x4a\x00\x01\xf0\x25\xd2\xae\x47\xe7\xda\x09\xb7\x5d\x67\x63\x9c\xf7\xaf\xb7\x31\xf4\x59\xcb\x39\x70\xfe\x08\xee\x6a\x87\xc8\xe0\xad\x36\xa9\xac\xe2\x21\x8e\x41\xaf\xdc\x2c\x15\xa8\x40\x49\xe5\xe0\x88\x51\x0d\x8d\xda\xfe\x33\xdd\xd3\xed\x2d\xc5\x91\x1d\x2a\x10\xae\x97\x33\xe6\xff\xa2\x7b\xf4\xd3\x3a\xc0\xef\x11\x68\xde\x70\xa1\x3a\x94\xe4\x6d\x87\xdc\xe4\x3a\x55\x07\x7a\xc2\xf9\x1d\x9d\x60\x45\x61\x66\xf9\xdd\xe4\x85\x1e\x63\xbb\x03\x63\x59\x91\x68\xc6\x88\x43\xee\xa0\x5a\x7c\x89\xeb\x43\x71\x22\x8c\xaa\xca\x02\x85\x29\xed\x02\x16\xa1\x5d\x36\xd3\xde\x2e\x05\xd0\xc0\x6e\x2c\x8e\x57\xd9\x36\x02\x17\x6a\xa4\x71\x28\x5e\x16\xf1\x36\x2a\xe2\xe4\x46\x87\xb7\xdc\x58\x18\x33\xc9\xd8\x3c\xfc\xf7\x5d\xe6\xc0\xb9\xc0\xe7\x96\xdb\xdd\xf6\xb6\x4d\xe0\x83\x1c\x6d\xd5\x67\x1f\x47\xdb\xac\xe4\x87\x91\x65\x62\xc1\xb3\xd7\x32\x8d\xca\xa8\xde\x75\xe2\x1e\xba\xc9\xd0\x42\xed\x5e\x02\x9d\xaa\xcc\xac\x66\xec\x6b\x06\xae\xf6\x5e\xeb\x34\x3a\x91\xbe\x85\xea\x8b\x84\x8c\xad\x54\x99\x73\x4c\x64\xef\x60\x52\x23\x00\xd5\xb7\x5a\x5f\xcb\x04\xc3\xea\x53\x9e\x40\xaf\x22\xed\x17\x40\xdb\x95\xd0\x69\x9c\xf0\xd9\x93\xa0\xdd\x00\xf1\x45\x31\x7a\x39\x13\x57\xd6\xe2\xdb\x1a\x53\xf5\xaa\x11\x82\xa1\x6c\xb4\x14\x97\xf2\x86\x96\x7b\x85\x46\xe1\x22\x03\xff\x03\x68\xac\x47\x51\x79\x5c\xe1\x5f\x06\xca\xfd\xc0\xa6\xe0\x80\x24\xb8\x5e\x0a\x4a\xa4\x9c\x2e\x0a\xb7\x3e\x8e\xd2\x0c\x0c\xde\x28\xf9\x5a\x46\x2b\x59\xfc\x12\xa0\x2b\xdf\x04\x07\x2a\x33\x15\x04\xae\x94\xab\xa7\x41\x2c\x97\x52\xc7\x3e\x24\xf8\x40\xc0\x0b\x3c\x32\x7e\x47\x52\x9c\x9a\xb9\x7e\x07\x9f\x29\x0f\xc1\xd2\x10\xe7\xfa\xf6\xc1\xbb\x60\x67\xc3\x01\xec\x60\x66\x16\x82\xb2\xfa\xd5\xf2\x41\x37\xd2\x51\x07\xd8\x95\x1c\x69\x3e\xd8\xae\x04\x0b\xc4\xe9\xcd\xc3\x53\xd6\x41\x85\x8e\xc4\x22\x5a\x5e\x72\x69\x83\xda\x33\x1c\xa2\xc7\xb9\xa6\x92\x7c\xb3\x50\x3c\x25\xf1\xaa\x82\xfd\x8a\x5d\xe3\x45\x8c\x3e\x9b\x5e\x02\x15\xcb\x86\xad\xb7\x8a\xa3\x84\x03\xde\x49\x04\x7c\x0f\xf0\x32\x0c\xc3\x52\x23\x0b\x93\x19\xb4\x81\x9d\x8f\x9f\x59\x7d\x86\xfc\x06\x98\x2f\x1d\x31\x4e\xb9\x91\x36\x4e\xfd\x01\x23\xc3\xdd\x72\x68\x21\xb4\x63\xad\x13\xe7\x6d\x7e\x79\x41\xdb\x4f\x85\x5c\x9b\x45\x16\x93\xae\x57\xd3\x1f\x97\x9d\x60\x9e\xaf\x47\xf4\x18\x17\xa6\xeb\xe4\x4f\x6e\xfb\x0d\x4a\xc7\xeb\xe9\x58\x96\x8a\x6a\xc4\x9e\x48\x28\xed\x79\xaa\x49\x80\x7a\xef\x8b\x00\x7b\xb3\x8e\x87\x3a\x66\x59\x5a\xd3\x73\x40\x6b\x39\xa6\xe7\x0e\xe9\xc5\x6e\xf0\x24\x6b\x9a\xa6\x86\x06\x3e\xf9\x95\x04\x46\xd9\xa9\xf6\xc9\x88\x38\xbd\x81\x8c\xef\xb2\xd3\x54\x17\xc7\x0a\x54\x87\xa6\x27\x98\xf7\x18\xa1\xf9\xcc\x8e\x3b\xf9\xa4\x85\x2d\xee\x00\xa4\x81\x50\x3b\xea\xc7\x9b\x2f\x23\x7a\x51\xdb\x2f\xe3\x7a\x71\x5c\xd3\xed\x6b\xbe\x28\x1d\x34\xa0\x17\x59\x28\x8c\xdb\x2f\xc3\x7a\x91\x8d\x11\x44\x66\x4f\xc5\x88\x4d\x8d\x11\x83\xea\xfa\x20\xd5\x98\x63\x08\xbc\xab\x1b\xdd\x65\xfb\xf1\xe6\xcc\xb0\xd5\xa9\xad\x99\x51\xab\x73\x4f\x7b\x72\xa7\x2d\x33\x6a\x75\x36\x56\x6d\x6c\x1e\xfd\xc6\x4c\x5f\xb2\x67\xdc\xea\x3c\x20\xbd\x33\x6e\x75\x2a\x2c\x48\xc9\x96\xe7\x99\x6b\xc8\x30\xcd\xfb\x34\x81\x43\x72\x9e\xf2\x08\x14\x1f\x6c\x86\x52\xbc\x7d\xa7\xc3\x7f\x3b\xe0\xed\x95\x1e\x03\x73\xe8\x68\x97\x11\x45\xba\x21\x8f\xe2\xc2\x0e\x0e\x2f\x55\x30\xf0\xd2\x9a\x56\x84\xde\xad\x8a\x91\x5d\xe9\x40\x20\x0c\x1b\xb2\xe1\x71\x19\x84\x2a\xe8\x19\x7c\x21\x74\x40\x70\xc2\x80\x4d\x54\x84\x7e\xb2\x21\x63\x82\x60\x28\x44\x11\x26\x37\x75\xad\xb6\x23\xc0\xff\xd4\x5a\x81\xbf\x00\x19\xe8\xc3\xbb\x99\x7d\xf5\x12\xfb\x30\x54\x0c\xad\x04\x1a\x9c\x63\xd5\xa8\xc8\x1a\xaf\xe4\xbe\xf6\xcd\xd7\xe7\xe7\x2f\xef\x12\x37\xa3\xa4\x3d\x53\x39\x25\xf6\x02\xfc\x3d\x4c\xa5\x81\x1d\x86\x4a\x86\x2a\xff\xbe\x10\xcb\x4d\x54\x94\xb2\x3a\xad\xab\xf5\xf1\xcf\x3d\x13\x6e\xc3\x51\x55\xe8\xc0\x1a\x46\x62\xa3\xde\xd0\x9e\xdd\x1d\x86\x43\x60\x59\x2a\xf2\x42\xae\xe4\x3a\x4e\xc1\x92\xc2\x0a\x8b\xd2\x89\xbd\x39\xc3\xec\x0c\xbe\x35\x0b\x7c\x9a\xc1\x37\xb7\xf4\x43\xdb\x32\xb0\x8e\x21\xc1\x27\xb3\xbf\x11\x9d\xea\x09\xc8\x0d\x43\xa7\xf5\xef\xfb\xac\x22\x72\x3c\x06\xda\xb5\x65\x23\x20\xd7\xdf\xe9\x0c\xc5\x02\x8b\x1b\x98\xb2\xf3\x63\xb8\xcb\xc3\x35\x88\x15\xbf\xfd\xa5\x7a\x6c\x97\xd6\x77\x96\x39\x20\x40\xdd\x59\xee\x15\x0e\x54\x51\x22\x0a\xfd\x6d\x29\xd4\x5f\x7f\x44\x73\xea\x55\x56\x23\x0e\xc1\xd4\xb1\x28\x54\x36\x03\x75\xc3\x00\x99\x4d\xd3\x05\xd6\x8d\xa4\x17\x64\x15\x72\xb7\xf0\x11\xbf\x52\xb1\xee\xad\xee\x47\x41\x6b\xd5\x1c\x2b\x7c\x17\xe2\x6f\xc5\x79\xf6\x06\xeb\xa1\xc0\x18\x0b\x60\x97\x55\x9b\x46\x1b\x7c\x71\x2e\xb7\x79\x42\x65\xc0\xd0\x42\xb3\xd3\x40\x3d\x98\xcf\xd1\x73\x37\xda\xa8\x30\xea\x09\x39\x2a\xbb\x0e\xa7\xe7\x0c\x49\xd9\x96\xa6\xfd\xa7\x2c\x44\x6c\xf8\x15\x27\xcd\x1a\xc6\x5f\x6f\xe0\x71\x42\x32\xa2\x55\x89\xa8\x1e\x95\xd0\xd8\xea\x02\x13\x87\x4f\x38\x3b\xc7\xa1\x48\xe2\x1f\x9d\x67\xd3\x23\x7e\x87\xdf\xc1\xb2\x07\xaf\x05\xb6\x5d\x54\x27\x15\x6a\x3b\x66\x10\x04\x46\x61\x49\xd8\xb0\x6d\x59\x00\x7e\x09\x38\xa2\x2b\xf2\x5a\xf0\x37\x9b\xfd\xe8\x3e\x7a\x34\x8e\x67\x3c\xce\x2b\xaa\x47\x03\x50\xf4\x3e\x24\xec\xfc\x80\xfd\x1a\x90\x07\x94\xfb\x16\x88\x2c\x82\xfa\xcb\x07\x0f\xc0\x49\x5a\x3b\xf8\x3a\xf1\x54\xde\x37\x80\x2d\x21\x06\x2d\xf2\x22\xbb\x8a\xd1\x25\xde\xf0\x8e\xe2\xbc\xdb\x42\x32\xb6\x9c\x9e\xc4\x76\xd6\x26\x73\x41\x53\xdd\x96\x85\x8e\xb3\x08\x9f\x81\x7c\xdb\x44\x54\x12\xa6\xf1\xdf\xf2\x2b\xe4\xc8\xb2\x06\x17\x58\xae\x4a\xf6\xc1\x7e\xf1\xfa\xc5\x73\x55\xa1\xbd\xd2\xe5\xd4\x26\xc7\x47\xb8\x6b\x74\x30\x55\x3a\x3c\x2d\x4e\xff\x63\x81\x7c\x31\xd3\xae\xa1\x99\x99\xfd\xd8\x80\x06\xb6\x44\x59\xc1\xa4\x35\xcd\x58\x48\xba\x12\xa2\xcf\x10\x31\x95\x24\x33\x71\xcd\x52\xb0\xc9\x06\x64\x80\xe0\xaa\xce\xc4\x7b\xdc\x7e\x2e\x49\x58\xfc\x7c\xc7\xd5\x86\xb7\xb4\x8a\x27\x08\x4c\x2f\xe8\x27\x8e\x77\x6e\x2d\x01\x59\xd1\x62\x13\xbf\x49\x5b\xab\x67\x63\x66\x9e\x47\x34\xa4\xea\x7a\xc6\x61\x56\x03\x48\xf7\x43\x72\xfb\xd0\xd5\x69\x76\xea\xe8\x5c\x62\xc6\x53\x03\x4e\x07\x0a\x26\xd7\x21\xb3\x8d\x1f\xa0\x18\xf4\x3d\x25\x08\x8f\x51\xfa\x79\x33\x57\xe5\xf1\x04\x36\x9a\xc9\x5c\xfc\x9b\xe2\x41\xf3\xa1\x9d\x87\x0e\xe8\x90\x79\x64\x4d\x0f\x0d\x4b\xf5\x28\x7d\xae\xe0\x71\x71\x7a\x22\x13\xb0\x40\xf0\xa5\xb2\x5c\x9c\xa0\x90\x02\xc7\x06\x89\xd3\xe7\xe1\x6a\xe5\xb7\x2c\x11\xfc\x1f\xed\xa1\x13\xae\x6d\x0d\x99\x6f\x9e\xa2\x8d\x99\x46\x89\xa3\x4d\x68\x92\xe5\x72\x64\x7a\x0e\x3f\xda\x19\x12\xf0\x53\xe8\xe8\x7c\x56\x7e\xe6\x75\x48\xdc\xa3\xd0\xc3\x86\x81\x79\xe9\xe3\xb2\x04\x28\x98\x2c\x83\xb2\x98\x2c\x7c\xac\x93\x7d\xfb\x0e\xcb\x75\x03\xb5\x29\x6e\xd9\xe1\xbf\x16\x2e\xaf\x99\x30\xba\x66\xc8\x37\xa9\x62\x01\x84\x30\x13\xf7\xae\x01\xcb\x56\x98\x9d\xcd\x99\x32\xfe\x2d\xe2\xfc\xf3\x3f\xff\xeb\xbf\x62\x5e\x4b\x64\x8a\x7d\x02\xf1\x37\xfc\x8d\x19\x07\xd0\x38\x15\xf0\xf7\xdb\x13\x7c\xf9\xae\x59\xe6\x84\x39\x61\xa2\xdb\xda\xf7\x4c\x50\x92\x78\x0d\xd3\xc1\x27\x18\x21\xc3\x6c\x70\x8e\x76\x91\x48\xb3\xf4\x98\x84\xa1\xb6\xf8\xb1\x21\x30\x19\x8e\xd9\x88\x5a\xa9\xf2\x61\xd0\x33\xfe\x35\x83\x27\x1a\x91\xb0\x75\xe7\xee\x64\x81\xa8\x95\x60\x43\x55\xfc\x1a\x47\x39\x51\x92\xf6\xd7\x4a\xee\xe3\x2a\xaa\x56\x20\xa7\xcb\x75\xac\xe4\xbe\x66\x57\x92\x68\xce\xe2\x5a\x7f\x04\x6b\x41\x49\xea\xa8\x53\x31\xfb\x54\x7d\xab\xba\x0c\x67\x50\x83\x2a\x4b\xd7\x49\x69\x45\x17\x05\x66\xb4\x90\x86\x3f\x4e\x4d\x80\xb1\xdd\x35\x8f\xf8\x1b\x0b\x34\x10\x2e\xb7\x89\x66\x75\xdd\x26\xb4\x23\x0c\xf4\xb6\xfb\x8e\x6d\x3e\xfa\xd9\x00\xa1\x90\x9a\x8e\x66\x52\x76\x1a\x2f\x4e\x34\x6b\x87\xf5\x62\xa2\x17\xa3\x66\x42\xdb\x1b\x26\xec\xfb\x73\x30\x04\x92\xcf\x05\x61\x1f\x94\x92\xc7\x4a\x29\xb9\x8e\xae\xb5\x80\x0a\x74\x64\x5b\xbe\x31\xd5\xac\x11\xaf\x00\x56\xfa\x2d\x41\x46\x0e\xde\x15\xe2\x9f\x38\xb1\x8c\xd1\x69\xf5\x3a\xc7\xe2\x48\x69\x22\x6a\x32\xec\x18\x4f\xc0\x3e\x41\xff\x22\x44\xf1\x1e\x52\x65\xbe\x1f\x28\x37\x10\x9d\x66\xeb\x27\xb7\xe6\xea\x38\xcd\x64\x3f\x92\xd4\x50\x02\x45\x95\xfa\xbf\x02\x2e\x78\x98\x24\x3e\x03\xdf\xaf\x1c\x52\xd7\xff\xaf\x51\x33\xce\x84\xa7\x24\x41\x81\x5a\x59\x5b\x46\x38\x33\x4d\x4e\x4f\x17\x82\x34\x05\xd1\x03\x06\x5e\x6b\xa1\x86\x3e\x09\x20\x66\xce\xbb\x58\x71\xa7\x0c\x42\x56\x07\x80\x6d\x76\x0d\x13\xac\xe2\x28\xc1\xf0\x1b\x6c\x3e\x65\x3d\x3e\x89\xcb\x65\x54\xac\xde\xa4\x74\x3c\xe7\xc4\x7e\xd1\x75\x22\x38\xaf\x53\xe1\x0e\xd8\x11\xa9\x98\xbe\xec\x08\xd5\x7e\xb1\x3a\x2c\x58\x7b\x45\xab\x42\xa3\x41\x4c\xb3\x61\x6f\x7b\xc8\xea\x8a\xd2\x43\x65\x2e\x13\x64\xe2\x28\xc4\x47\xd1\xaa\x61\x89\x4f\x10\x01\x8b\x96\x71\xeb\xd1\xf5\x04\xea\x46\xdb\x52\xfb\x35\xdf\xc2\x68\x7e\x81\x6b\x88\xe7\x3f\xec\x77\x6c\x0d\x00\x8b\x1b\xdb\x1c\xe8\xf9\xea\x9b\xf0\x57\xf8\xd2\xd7\x1d\x9c\x26\x53\xd7\xd9\xe1\x32\x33\x14\x16\x9a\x6b\xe9\xa8\x46\xa9\xa3\xe4\x40\xdc\x54\x37\x0b\xbf\xc9\xd8\x02\x17\x1e\x4d\x92\xdb\x60\x40\x96\x3f\x83\x33\x41\x83\x9a\xd5\x44\x37\xa8\x3f\x0e\x3c\x8e\xc2\x8b\x54\x66\xeb\x0e\x1e\xb0\xc7\x3a\x78\xd0\xb4\x7e\x0c\x22\x86\x13\xee\x51\xfc\x4a\xe7\xc4\xb5\x6b\x79\xdc\xaa\x29\x1e\xf4\x9c\x7a\x25\xe6\x50\x36\x94\xe5\x63\xa9\xdd\x08\xa3\xd7\xa3\x92\x8d\xfa\x96\xdb\xc0\x4e\x54\x71\x40\xa6\xb3\x07\xc1\x3e\xd9\xd7\x6b\x84\x0f\x25\x3f\x8d\x89\x34\x24\x28\x9e\x75\xc4\x44\x5b\x48\x18\x59\xf0\xa6\x94\x2f\xb1\x1f\xca\xcb\xf2\xa4\xf9\xe1\x2c\xad\xb7\xcf\xeb\xed\x02\xb4\xe2\x89\xfd\x70\xb6\x8d\xab\x37\x69\x9e\xe5\x35\xfa\xce\x2b\x23\x56\x60\xad\x5c\x79\xea\xc8\x14\xed\x37\xd8\xa4\x2c\xa1\x0a\x6a\xb3\x2c\xc1\xc8\x08\xc6\xea\x23\x34\x1b\xbc\x9f\x29\x69\x65\xcc\x49\xb2\xa4\x9c\x56\x6e\xb2\xd6\x9e\x2c\x52\xc6\x40\x5f\xb0\x65\xa0\x6a\xa4\xad\x85\x86\xb2\xb6\xd6\x3a\x2f\x1c\x73\x62\x34\x4f\x4b\x4a\xa0\x93\xa3\xdd\x00\xb3\x6d\xa2\x15\xf7\x1d\xca\xca\x52\x2e\x70\x85\x61\xb1\x98\x2b\xd5\x4d\x61\x9d\x73\x48\x18\x5d\x46\x82\xa2\x4e\xd6\x86\x5a\xe9\x9b\x64\x30\x32\x33\x86\x65\x3b\x29\xe3\x46\xd6\x97\x81\x34\x53\xbf\xa3\x49\xdf\x5d\x39\x5f\x4d\x21\x90\x07\x15\x4c\x3c\xd8\xd5\xa5\x85\x3f\x65\x7d\xbb\x30\x50\x78\x21\xb9\x6b\x90\x8b\xe6\x30\xd6\x72\x83\x6b\x12\xd2\x97\x28\x29\x33\x5c\x02\xb5\x87\x59\x2b\xd4\x45\x32\x1d\x1f\x5d\x6b\x9a\x63\x3c\xb2\x3c\x53\x42\x1c\x03\x46\xc1\xae\x8e\x66\x55\xb0\x84\x1f\x79\x0e\x85\x88\x17\xdc\x39\x49\x8d\x20\xee\x9e\xa4\x76\x7a\xdb\x58\x6c\x4f\x8e\x3a\x65\x63\x8f\xa5\x97\x48\xe2\x2b\x3a\x34\x51\x29\xaa\x6d\xb3\x8a\x02\x11\x18\x67\x88\x52\x3c\xf1\xf5\x1d\x96\xd5\xe6\x7c\xb6\x8c\xdf\xf1\x79\x33\xb0\xb8\xc8\x7c\xb4\x83\xac\xc0\x02\xc9\xe8\x94\x45\x79\x53\x56\x72\x3b\x43\xe6\x02\x58\x49\x7c\x29\x13\x93\xe7\xa6\x70\x89\xb7\xc9\xca\xea\x84\x68\x67\x13\xd9\x76\x06\xbe\x19\x4a\x97\x25\x0f\x86\x78\x0f\x4f\x61\x83\xf4\xf9\x4c\xb3\xdc\xd7\x51\xf9\xb2\x90\xeb\xf8\xa3\x19\x11\x96\x92\x0e\xb7\xb2\xed\x69\xf0\x38\xe5\xd7\x27\xf3\xb9\x27\xfe\xcc\x50\x82\x84\x55\x6d\xa4\x20\x70\x10\x1a\x9f\xa5\x34\xd0\xf6\x2e\x06\x43\x5b\xa1\x9e\xaa\x33\xbf\x68\xe5\xf4\x78\x1c\x2a\x11\xcb\x45\xcb\xde\xf3\x8c\x17\xd2\x89\x83\x73\x99\x3e\xf3\x00\x45\x8d\x10\xd0\x75\x56\xc0\x9e\xe4\xd8\xba\x50\x9a\x1e\x1d\x3f\x3c\xbd\x57\xb0\x1a\xe1\xaf\x31\x92\xd0\x0b\xdc\x10\xe3\x81\x81\x5c\x8c\xa6\xb7\x9d\x1f\x85\x34\x7e\xe5\x0a\x01\xc7\x51\x82\x27\xf9\xb1\xdb\xe3\x81\xee\xa3\xca\x00\xda\x5e\xc5\x58\x15\x00\x8e\xc4\x16\xde\x48\xbf\x9e\x73\xc0\x4e\x29\x80\x4a\xee\x0f\xc6\x97\x95\x05\x09\x56\x71\x7e\x03\xb2\xc2\x87\xf5\x77\xdb\x3f\x8a\x40\xc9\x82\xf8\xc0\x38\xb3\x6e\x6a\xad\x83\x1d\x11\xe2\x56\x30\xb9\x11\x74\x6e\x06\x8b\xdb\x65\x00\x93\x76\x25\x80\xb6\x6d\x9d\x80\x71\x7f\x1c\x79\xbc\x24\x60\x74\xdd\x4d\x69\xc0\x4f\xbe\xf2\x43\x11\x77\x55\x72\x30\xb4\xb4\xb3\xb6\xb5\xd9\x17\x37\xb7\xa5\x08\x24\x79\xf4\x3a\x2e\x60\xe1\xc4\x11\xee\x61\xf8\x35\x23\x53\x5f\xe8\xe4\xa6\x7e\x8d\xfb\x37\x45\xbb\x00\xe6\x70\x84\x1d\xf8\x27\xe9\x0b\xe5\x1e\xd8\x72\x68\xfc\xa2\x0c\x95\xc7\xd5\x47\x9d\x43\x7d\x8d\xf6\xed\x92\x0a\xe6\xeb\x42\x85\x6a\xc8\x54\x50\x1b\x17\xb6\x23\x18\x5b\x09\x9f\x4e\x63\x3d\x07\x92\x9b\xb2\x99\xe0\xb4\x82\x14\xd5\xe6\xab\x52\x4b\x1c\x50\x67\xb5\xb7\xd5\x26\xac\xeb\x80\xa2\xad\xa0\xc2\x1d\xa1\x10\xcf\xb3\x4a\x1d\xf6\x45\x90\x08\x8b\x24\xc5\x26\xba\x02\x9f\x4a\x5d\xe2\x31\x6e\x92\xd0\x38\x0b\x4a\x6b\xa9\xf3\x6e\x74\xb4\x07\x25\xbf\x46\x0d\x8f\x4e\xab\x40\x7a\xa4\x2b\x9f\x58\xf0\xc3\xc3\x8d\x0d\xd7\x9b\x52\x7c\xe7\x34\x1e\x16\x3c\x29\x85\xab\x72\xd0\x4d\xda\x71\xde\xd9\x39\x77\x32\xac\x0f\xdc\x88\x4f\x4f\x23\x95\x9a\x1b\x39\xad\xb9\x87\x75\xf8\x93\x65\x9e\x8d\xc5\x83\xe1\xea\x76\x98\xb7\x99\x20\xa6\xa0\x21\xd9\xbf\xa8\x00\x06\xea\x68\x76\x0a\xec\x76\x48\xaa\x57\xd8\x8c\x46\xa4\xda\xfe\x95\x0a\x47\xb1\x35\xd6\x0e\x49\xe9\x28\x8d\x1a\xc6\xad\x40\x71\x4b\x4f\xdb\x21\x29\x27\xf4\xca\x66\x9e\x4a\xa7\x98\x2f\x1b\x3a\xc6\x81\xe1\x80\xbf\x78\xf0\xc0\xcd\x2b\x81\x9f\xa5\x92\x27\xe4\x4f\xe5\x40\x42\x46\x13\x3b\xa4\x04\x8b\x7d\x2b\xda\x40\x55\x85\xd7\x31\x50\xf9\x1d\xcd\xc2\xdd\x7f\x2a\x80\x0d\x66\x34\xb9\x30\x16\x47\x8d\xc4\xce\x90\x99\xae\x23\xe9\x09\x99\xf5\x92\x7d\x3c\x62\xc6\x6d\x0e\x0f\x99\x1d\x12\x01\x3b\xa5\x9b\x2f\xce\x5e\x7c\x39\x18\x04\xc3\x28\xb6\x8d\x8d\x93\xc4\xa1\x60\x0d\x5d\x6b\xe1\x46\xbd\xf6\x0c\xa8\xf5\xc4\xd3\x0c\x50\x2f\x70\x0a\x2f\x0a\x27\x17\x81\x80\x9d\x38\xcf\x8b\x5f\xee\x8e\xd9\x35\x32\x11\xe0\x6a\x78\x0e\xcf\x9c\x88\xfb\x9f\xaf\xee\x93\x1b\x60\xc7\x30\x63\x73\xc8\xb1\xcc\x77\x71\xf3\xf4\xe0\xb8\xde\x60\x58\x6f\x28\xaa\xe7\x90\x76\x67\x4c\xaf\xcc\x7b\x82\x7a\x1d\x0a\xb9\x44\x69\x95\xa5\xdc\xb3\xc5\xd2\x93\x56\xb5\xb4\x23\x80\xda\x15\x61\x7b\x44\xcf\x77\xc7\xce\xd9\x20\x68\x44\x80\x0e\x8b\x9e\x77\x6a\xc9\xa6\xc6\xdb\x55\xe1\x20\xe8\xb3\x77\xc0\x9c\x2e\xa6\xe0\xec\x76\x01\x3b\xa8\x14\x38\x10\x39\x26\xa0\x97\x27\x4a\xfb\x35\x94\xaf\x8f\x36\xc1\x8c\xe3\x80\x9c\x5c\xa6\xd4\x98\x16\x05\x7b\x4c\x6b\x8f\xe8\xf9\x40\xad\x99\x09\x1d\xe1\xed\x52\x57\x51\x82\x04\xf6\x3c\x15\x99\xe4\x57\xe3\x17\x0b\x8c\x45\xd4\x75\x84\x13\xfa\x11\xab\xb8\xea\x6b\xd0\x35\x6e\xb7\x1b\xf6\xbd\x39\x2a\xf1\x5a\xb2\x63\x4a\xc6\x58\x8e\x61\x54\x59\x61\xda\x86\x23\xb5\x74\x2c\x47\x79\x72\x54\x6c\xa5\x93\x4a\xad\xf3\x93\x25\x97\x4c\x37\x62\x9d\x38\xca\x6b\x7e\x6f\x82\x9d\xba\xe1\xa7\xf6\x71\x53\x34\x19\xbd\x39\xe1\xdf\xe7\xed\xe5\x1c\x2d\x18\x91\x75\x7d\x79\x83\xac\x4e\x56\xe9\xfd\xca\xee\x5e\x9e\xe5\xe7\x1f\x3c\x36\x3e\xb5\x04\x65\xaa\xbc\x8a\xae\x95\x91\x59\xeb\x67\xf3\xcd\x7c\xa0\xb7\x4d\xca\x11\xe3\x35\x49\xe7\xa4\xab\x5b\x11\x6b\x14\x70\xd5\x36\x57\xe9\x59\xb5\xc0\x15\x5e\x38\xe4\x92\x73\x28\x76\x2d\x6c\x89\xf7\x7e\x61\x63\x68\x85\x1b\x42\x35\x7b\x25\x73\x49\x97\x04\xaa\xdf\x4f\x4b\x74\xa5\x8c\x44\xb5\x90\xfd\xc7\xfa\x7a\x3e\x1d\x77\xce\xa8\x74\xcd\xd3\xcb\xef\x05\xba\x07\x4f\xf5\xad\x67\x42\xd4\xbf\x32\xf1\x78\x55\xba\xfd\x8e\x59\x38\x34\x2d\x1e\xc3\xfb\xc4\x16\xac\x2b\x3e\x48\x4a\xf3\xbb\x9b\xb0\x1f\xea\xaf\xf3\x21\x0a\x0d\x4a\xe0\x8f\xa0\x32\x73\xee\xb4\xf2\xaf\x02\xf6\xe1\x26\x2e\x16\x8a\x1b\xc9\xc5\x49\xd0\x38\x6b\x10\xf0\x69\x89\x31\x5c\xfd\x0b\xf4\x57\x71\xf6\x31\x2f\x34\xda\xa8\x38\x87\xf0\x6c\x64\x7b\xee\x82\xee\xda\xf7\x3e\x5f\xc1\x9b\xa3\xa1\x21\x9a\xb3\xb1\xe8\x03\x2d\x7d\x54\xf7\x9d\x35\x0f\xda\x6c\xa1\xe7\x01\xec\xa8\xa3\xc3\x8d\x3a\x95\xc1\x91\xcd\xf4\x3b\x79\xad\xbe\xed\xa9\x76\xe7\x1a\x3c\x13\x2e\x24\xd2\x9b\x73\x08\xbe\xd7\x5c\x27\x25\x69\xb5\x60\xf2\x01\xdd\x60\x7a\x10\x55\x19\x42\xe0\x10\xca\x72\xe2\xfc\xe8\xf7\xff\xfe\x77\x3f\xfc\xee\x5f\x7f\xf8\x97\xff\xf8\xe1\x1f\xbf\xff\xc3\x3f\xff\xfd\x7f\xff\xe7\x7f\xfd\xfe\x77\xff\xf0\xc3\xbf\x7d\xff\x87\xef\xff\xe9\x68\x6e\xdc\x67\xde\x5c\x77\xe2\x84\x1f\xc7\x08\xfe\x9e\x1c\xd0\x9a\xd9\x1d\x06\xda\x35\x8e\x8d\x02\x4c\x1a\x15\x8b\xad\x5f\xed\xf0\x88\x92\x71\x19\xa6\xc2\x86\x92\x63\x5d\x41\x47\xcd\x87\x05\x9d\x05\x9b\x1b\x45\xc4\x5d\x74\xe1\x65\x63\xdd\xcc\xa6\xe0\xe6\xcd\x5d\xa1\xde\xb5\xb7\x45\xe3\xba\x03\x45\x1b\xd5\xd4\x21\x0e\x69\x77\xfd\x9e\x66\xa4\x94\xb9\xe3\x88\xee\xd8\x63\x5f\xc9\xca\x82\x50\x27\x72\x35\xcd\x87\xb6\xd9\xc1\x1b\xad\x77\x10\xcf\x8c\xa2\xe7\x3c\xb2\xdb\x3a\x3c\xa5\x80\xed\xd8\x70\x03\xfc\xf9\x93\x52\x77\x6f\xc4\x5a\xdc\xde\x4f\xf9\x0e\xde\x2e\xab\xef\xc7\xf9\xae\x91\x41\x68\x00\x41\x15\x92\x6c\x9f\x52\x4d\xaf\xe6\xf7\xd4\x31\x0c\x29\x38\xea\x5d\xc8\x8a\xaf\x78\x74\x0d\x0f\xf2\x05\x1b\x76\x47\x95\xbd\x92\xd5\x5d\x4d\xcd\x7d\xec\x8f\xe3\x1d\x59\xeb\x66\xf6\x7c\x7e\x24\x5e\xa4\xe0\xa7\x97\x0a\xe1\x35\x03\xe1\xec\x59\xb9\x41\xf3\x0c\x83\x54\x2a\x34\xc5\xe5\x91\x98\x61\x4a\x12\x02\x90\x61\x52\xcc\x96\x9e\x66\xdb\xb8\x42\xe3\x65\x55\x53\x7e\x04\x9d\xe0\x38\x95\x65\x29\x8e\xe6\x6a\x44\x9a\x7e\xbf\xd4\x1d\x37\x41\x3a\xf1\x4c\xa6\xb5\xc9\xb1\xef\x4a\x07\x0f\xe7\x83\x87\x13\xc2\xc3\x19\xe1\xc1\x94\x30\xdf\x76\x12\x55\x51\x3b\x2b\xdc\x48\x0a\x7f\xb8\xbb\xa1\xcc\xfe\x1a\x33\x56\xc4\x85\xbb\xe2\xf3\x2b\xd8\x27\x44\x59\x6b\x2e\x3f\xe2\x92\xd0\xf6\x75\x9e\x3e\xdf\x10\xfa\x5c\x5e\x3f\xaa\xd7\x6b\xf8\x8d\xb8\xba\xe5\xd5\xc2\xad\x4b\x50\xce\xee\xa4\x7b\xc7\xd9\xce\x5b\x4f\xcc\x95\xa7\xfb\x26\xfe\x9e\x3f\x3c\x7f\x7d\xc7\x5b\x4f\xa8\x1b\xf6\x17\x1c\x2c\x35\xbf\xd5\x59\x50\xba\xcd\x96\x4f\x81\x96\xc5\x15\xff\x36\x57\xd8\x29\xf7\xb0\x7b\x7b\xde\xbe\xc7\x34\xfb\x0e\x5c\xbe\xae\x17\x86\x01\x10\x07\x14\x6c\xb5\x84\xb7\xe5\xb2\x88\x17\x7c\xe1\x4c\xe7\x4c\x65\xd8\xbc\x85\xc6\xeb\x3f\x77\x89\x53\x70\x5b\xf2\xd1\x87\x67\xe5\x05\x4d\x36\xd8\xc9\x59\x8a\x43\xd0\xa9\xe9\x47\xdc\x39\xaf\xe8\xb0\x41\xf3\x1e\x47\x3c\x91\xe2\x2c\xd8\xbe\xf7\xcc\xd0\x1a\xed\xbe\x67\xc6\x42\xde\x79\xd4\xa5\x71\x9f\x6e\x68\x08\x6c\x8e\xbb\x38\x6b\x3d\x70\xbf\xcc\x38\x04\x55\xdf\xf0\xa7\x77\xcd\x8c\x9d\xd7\xbe\xd7\xcc\x38\xd7\xcb\x34\xe7\x8c\x27\x3e\xcc\xb4\x0f\xba\x62\x06\x17\x6a\xe0\x9c\xaf\x89\x56\x75\xda\x38\x09\x3c\xdb\xa2\xef\x2c\xc8\x01\x77\xd0\x38\xab\xfc\xa3\xee\xa0\x71\xe0\x98\x92\xde\x83\x2e\x43\x05\xed\x71\x34\xc4\x51\x9d\x9b\x65\x0e\xbc\xbb\xc4\x09\x9b\x33\x51\x5b\xa7\x2f\xfb\x4f\x13\x96\x17\x4a\x00\x82\x88\x18\x8e\x96\x77\x0b\x49\xfb\x0e\x5c\x8e\x94\xa3\xc3\x38\xe1\x13\xd2\x7b\xfd\x05\x94\x23\x97\xbf\xdc\xdb\xeb\xce\x90\x69\x83\xa3\x76\x54\xc0\xd1\x84\xf7\xa8\x80\xa3\x8a\xb7\x6c\xf1\x1b\xac\xec\x50\x41\xcd\xd2\xac\x97\xbe\xe3\xe3\x59\x94\xde\x70\x22\x27\x23\xc6\x50\xff\x91\x03\xaa\x12\xaa\x71\x6c\xcc\xa6\xd0\xcd\xca\x98\x04\x2c\x63\x14\x77\xea\x3c\x51\xa3\x30\xae\x07\xef\xa1\x6b\x7c\xf0\xe4\xb2\xae\xfa\x80\xfe\xae\x06\xdb\x51\x20\xa7\xe9\xdc\xe0\x41\x1e\x1f\xa7\xe0\x0e\x3c\x33\x87\x9c\x97\x16\x6c\x70\x48\xb1\x0e\xce\xe8\xee\xc5\x3a\x4e\xef\x1d\x37\x4a\xe0\x6c\xfe\xb7\x6f\x94\xb0\xd8\x75\xad\x88\x41\x05\xf4\xb2\x5e\x24\x71\xb9\xb1\xfa\xe7\xc7\x5d\x27\xb1\x8f\xf5\x71\x97\x6b\x22\x74\x7d\xc8\xf8\x55\x11\x1d\x2d\x61\x66\xa7\x4a\x44\xcc\x7d\x11\x5c\x2c\xb2\xc3\xa0\x99\x3a\x55\x20\x8d\xad\xe0\x96\x7e\x0c\xe8\x95\x46\xd1\x47\xbb\xe6\xa3\x5d\xf2\xf1\x27\x7c\xe7\x03\x19\x40\x77\xbd\xf3\x61\x80\x2a\xbd\xb2\x6f\xbf\x3b\x1f\xb4\x5e\xf8\xa3\xdd\xee\x30\x80\xf2\x1e\xaa\x4a\x0c\xeb\x2a\xac\xcc\xdb\x43\x0d\x41\x03\x93\x25\x6e\xab\x23\x00\xd1\xd5\x48\xf0\xf2\x93\x03\x5d\x77\xe6\x33\x4a\xba\xf3\xbd\x7b\xdd\x6f\x21\x25\x61\xf1\xfa\xc9\xf7\xb1\x3a\x74\xf6\xde\x1b\x18\x46\x27\x8d\xbb\x40\x74\x6d\xb0\x46\xa4\x27\xd1\xda\x7b\x67\xc5\xbe\x4a\xb9\x2f\x03\x3a\xae\x95\xfb\x2f\x87\x72\x79\x58\xe9\xe6\x7e\xd5\xdc\x9b\x8f\x6c\x68\xe6\xd6\xdd\x16\xfa\x3f\xd2\xa3\x0a\x82\x9c\xd2\x9d\x68\x40\x59\xe3\xe4\xb4\xa4\x07\xa6\x69\xeb\xea\x63\xc2\xf5\xa7\x51\xd8\xfb\xda\x58\xbb\xd2\x90\x3b\x15\xb4\x19\x88\x00\x1b\x70\x81\xb3\x0c\xff\x03\xcf\x3d\x30\x82\x54\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\x1c\xc9\x75\xe7\xaa\xaf\x88\x29\x68\xc8\xcc\x76\x75\x16\x6d\xc0\x86\xdc\x83\x36\xc0\xa5\x67\x86\xd2\x70\x11\xbb\x39\x73\x20\x08\x2a\xab\x2a\xaa\x2b\xd5\x59\x99\xc9\x5c\x7a\x51\xbb\x2f\xbe\x8c\x01\x1b\x30\xe0\x93\x0f\x86\xe0\x93\xaf\x86\xcf\xfe\x1e\x8d\xa1\xbf\xf0\x5b\x62\xcb\xb5\xaa\x9a\xb4\x21\x08\x26\x24\x32\x2b\x33\xe2\xc5\x8b\x17\x2f\xde\x1e\x31\xb3\x99\x78\x9a\x2e\xa5\x38\x97\x89\xcc\xc3\x52\x2e\xc5\xfc\x46\xcc\xc3\x3c\x4d\x02\xf1\xec\x95\x78\xf9\xea\x4c\x9c\x3c\x7b\x7e\x16\x8c\x67\x33\xf1\x46\xe6\x55\x92\x44\xc9\x39\x37\x10\x57\x51\x1c\x8b\xf4\x52\xe6\x57\x79\x54\x4a\x51\xae\xa3\x42\xac\xa2\x58\x52\xe3\xef\x65\x5e\x44\x69\x72\x24\x6e\x6f\x03\xf5\x7c\x77\xe7\x7c\x10\xcf\x60\x34\xf7\x2b\xfe\x86\x16\xe3\x2c\x5c\x5c\x84\xe7\x12\xbf\xbc\xe6\xc7\x97\xe1\x86\xbe\x40\xe7\x33\x3d\x86\x58\xa4\x49\x19\x46\x49\x21\x36\xb2\x5c\xa7\xcb\x42\x94\xa9\xd8\x84\x17\x52\x44\xc9\x32\xba\x8c\x96\x55\x18\x0b\x99\x2c\xb3\x34\x4a\x4a\xe8\x92\xa7\x1b\x51\xc8\xfc\x32\x5a\xc8\x62\x8a\x90\x72\xf9\xb1\x92\x45\x29\xc2\x64\x09\xcf\x45\x96\x26\x05\x4c\xe1\x26\x93\x04\x09\x9b\xe2\x8c\x52\x78\x69\xa0\x4c\x45\x58\x88\x2b\x09\x93\x86\x7f\x65\xb2\x00\xba\xe5\x05\x02\x40\x78\x4b\xa9\x7e\xaf\xd2\x5c\x75\x24\x68\x53\x7a\x11\x22\xa5\x56\x22\xad\x72\x51\x54\x59\x96\xe6\x48\xe9\x32\x0f\x93\x02\x9f\x71\xb8\x28\x8c\xa3\xdf\x86\x25\x10\x02\xa1\x41\x9f\x4d\x58\x16\xc1\x78\x1c\x6d\xa8\x85\x37\x1e\x4d\xe6\x37\xa5\x2c\x26\xf0\x80\x73\x97\xd7\x25\x3e\x12\x1a\xb0\x24\xb3\xdf\x14\x69\x82\x2f\x56\x1b\x7a\x1f\xa5\xfc\xf7\x2c\x4a\xab\x32\x8a\xf1\x47\x22\xcb\xd9\xba\x2c\x33\xfd\x5c\xe5\xf4\xba\x28\x73\x80\x77\xa9\x1e\x01\x14\x0c\x01\xcf\xe7\x51\xb9\xae\xe6\xc1\x22\xdd\xcc\xce\xd3\xc3\x8b\xa8\x9c\xe1\xff\x35\x2d\xa0\x75\x98\xdc\x64\x73\x31\x39\x4f\xd3\x73\x58\xf2\xf3\x34\x0e\x93\xf3\x20\xcd\xcf\x67\x59\x9e\x96\xe9\xbc\x5a\xcd\x68\xfe\xb3\x8b\x24\xbd\x4a\x66\xd4\x1a\x7a\x2d\xab\x9c\x26\xb9\x47\x57\xdb\x05\xfa\xcb\x4d\x56\xee\x33\xae\x6a\x0f\x3d\x57\x91\x8c\x97\x9b\xb0\xb8\xd8\xa3\xb7\xd3\x07\x20\x00\x79\xaa\x45\xb9\x47\x77\xdd\x01\xfa\x96\xd1\x06\xb8\x2d\xdc\x64\x7b\x74\x77\xfa\x00\x84\xab\x3c\xcc\x32\x60\xb0\x3d\x00\xd8\x2e\xed\x25\xcd\x61\xf3\x86\xb3\x4d\x75\x3d\xa9\x7f\xc9\x2e\xce\x67\x32\xcf\xd3\x9c\x38\x6d\x60\x20\xc3\x79\xf4\x46\xb3\xdf\x40\x07\x7a\x40\x44\x6e\x6f\x0f\x45\xb4\x12\xf2\xa3\x08\x9e\xa6\xc9\x2a\x3a\x0f\xce\xcc\x4e\x98\xc0\x4e\x99\x88\x49\x02\xcc\x3f\x11\xb0\xe9\x6b\xb8\xe1\xdb\x43\xe0\x69\xfc\x17\x86\x98\x30\x28\xe0\x49\x6c\xb8\x03\xd4\xf3\x3c\x5b\x68\xa8\x2d\x3c\xe9\x63\xef\x97\x19\x88\x99\x70\x19\x96\x61\x73\xd0\x9d\x87\xc4\x27\xbb\xe3\x7b\xf6\x97\x69\xa0\xd1\x71\xc6\xc2\xbd\xbb\x07\x00\xb5\xd5\xf7\x22\x36\x3e\xed\x31\x04\x75\x74\x71\xf4\xc7\xe3\xf1\x65\x98\xa3\xb4\xfa\x20\x8e\x05\xc8\xa2\xe0\x34\x03\x99\x52\xf2\x6f\x12\x60\x80\xc6\x26\x0b\x73\xc9\xaf\x94\xf4\x09\x1e\x97\x69\xc4\x6f\x6a\xd3\x0c\x5e\xca\xab\x53\x94\xc5\x39\x7f\x64\x69\x16\xbc\x4c\xb3\xa7\x31\x88\x58\xf3\x16\x80\x66\x37\xfc\x83\x99\x37\xf8\x01\x78\x7f\x3c\x02\x51\xaa\xd6\x53\xb3\x21\x4b\x65\x6c\x4a\x22\x29\x78\x9c\x50\x3f\x2b\x64\x82\x67\xea\x11\x5f\x2b\xf1\x11\x9c\xe0\xbf\xf8\x42\x6f\xe9\xe0\x94\x1e\xf0\x95\xb3\x4d\x83\x33\xfd\x8c\x1f\xec\xf6\xc3\xd6\xb0\x55\xbe\x0f\xe3\x8a\xe6\xed\xc8\x95\xe0\x6b\x7c\x7e\x01\xcf\x48\xbd\xd9\xc1\x4e\x7f\xc4\x89\xd1\x6c\x07\x3b\xff\x99\x91\x06\x7d\x9e\x88\x90\xd5\x5b\x3e\x15\x51\xf9\xb0\x10\x55\x21\x57\x55\x4c\x6a\x6a\x55\x25\x0b\x9c\x3a\xe8\xc0\x75\x58\x8a\x44\xa2\x96\x4a\x45\x9a\x91\x6d\x20\x52\xec\x0b\xcf\x87\x5a\x0d\x20\xc0\x79\x58\x44\x45\x20\xbe\x86\xee\xf2\x1a\x66\x1e\xcb\xa9\xb8\x49\x2b\xb1\x89\xce\xd7\xa5\xc8\xc2\x02\x55\xa4\x83\x30\xc0\x0b\xcd\x40\x3c\x0e\xac\xcd\xb2\x02\xc5\x8c\xe0\xa0\x2d\x72\x40\xf0\x2d\xe8\xd5\x18\x71\xbc\x02\x26\x14\x32\x5c\xac\x95\xa6\x17\x9e\x1e\xdd\x87\x6f\x39\x60\x58\x65\x0c\xb4\xc8\xe4\x22\x5a\x45\x0b\x18\xb4\x5c\x07\xc2\x7b\x4e\xf8\x81\xc1\x00\xf0\xe7\xe1\x3c\xbe\x81\x36\x9b\x08\x96\x87\xac\x04\xd0\xd8\x45\x74\x9e\x60\xd7\x28\xb9\x4c\x2f\x50\xdd\x4b\x71\xca\x36\x82\xb1\x2a\x08\x45\x89\x70\xec\x0c\x98\x07\x10\x84\xa6\x64\xe0\x43\x0b\x43\xdd\x45\x1c\xc9\xa4\xac\x53\x17\x46\x59\xa4\x71\x2c\xa9\x9f\x36\x50\x00\x23\x60\x7e\x06\x07\xf3\xb0\xe6\x0a\xfc\x05\x13\x42\x80\x05\xb0\x4d\xcc\xa6\x04\xd3\x2a\x42\x0a\x6f\x24\x51\xd2\xc1\x17\x7a\xc8\x7c\x15\x2e\x64\xdf\x4a\x20\x30\x33\x58\xb7\x91\x54\xe1\x60\xa2\x2e\x41\x70\x03\x3e\x55\xf3\x01\x39\x30\x8f\x12\xa2\xd3\x46\xa1\xe8\x2c\xec\x54\x99\x52\x65\x95\x27\x30\x75\x9c\x31\x22\xb8\x80\x69\xca\x1c\x2d\xa6\x50\x23\x1b\x8c\x69\x3a\x2d\x82\xde\x8e\x47\x6f\x13\x33\x3f\xb9\x04\x0b\x50\xf7\x60\x13\x50\x49\x82\xdb\x5b\x40\x11\x2c\xc4\x9f\x45\xe2\xe8\x58\x98\x36\x2f\x78\xc9\x58\x2c\xff\x2c\x52\x7d\xf4\x28\x02\xfe\xe8\xa9\x06\xfa\x25\x80\x62\xc1\xc5\xd6\xa5\xc1\x68\xfb\x10\xc8\xc0\xc0\x89\xb6\x8b\x2f\x9c\x41\xbd\x45\x79\x2d\x94\x95\x86\x62\x17\xff\x9d\x22\xc3\x1c\xdc\xde\x7e\x93\x62\x1b\x80\x1c\xbc\x61\x13\xf4\x0c\x88\xa1\xfa\xf9\xc2\x6b\xb4\x60\xc3\xd4\x69\x32\x65\x01\xe7\x23\xb5\xb4\xdd\x4a\xef\x10\x51\x19\x74\xcc\x1c\x91\xc1\xc1\xfd\xf1\x08\x15\x01\xb4\xfc\xe2\x58\x24\x51\x8c\x10\x46\x6a\xbd\xe0\x27\x01\x19\x8f\xee\xc6\xfa\x9d\x86\x1e\x6c\xc5\xc9\x9f\x22\x00\x20\xa2\x26\x27\x12\xf3\x05\x6e\x33\x97\xa2\xb4\x91\x7f\x06\x62\x04\x29\x7a\x87\x8d\x0f\x85\x4b\x65\xf8\xd4\x47\x68\x84\xd5\x35\xb3\x02\x89\xee\x74\x73\xd9\xc4\x6f\x2f\x37\xd3\x8c\x26\x87\x60\xbb\x57\x49\x3b\x06\x66\x47\xdd\xe2\xb2\x18\x17\xc1\x79\xcd\x64\xb7\xcb\x01\xb0\x3f\xe2\x44\x14\x84\x16\xdd\x5a\xab\x0d\x5d\x2e\xcd\xda\x15\x41\x83\x81\x08\x15\x6c\xd3\x5e\xb5\xf6\xb2\xe1\xba\xe9\xb7\x97\xbc\x1c\xa3\xbb\x31\x13\x99\xd7\xc4\x5d\x1b\x54\x8e\x8f\xe3\xf8\xe4\x7a\x21\xb3\x92\xf4\x54\xc1\x22\xd6\x50\x8a\x34\x14\xba\x2c\x6a\x6f\xda\xcd\x4a\xcb\x48\xb2\xa9\xc3\x2f\x08\x5e\x44\x4b\x10\xdb\x57\xa0\xdf\xc9\x0b\x7c\x5b\x68\xbf\x10\x9d\xa0\x2c\x8b\x6f\x50\xc4\xa0\xd8\x2c\x11\xf8\xc6\xb4\x26\xbd\x20\x61\xd9\x6e\xcc\xb2\xe1\x7e\x41\x09\x52\x68\xa9\x01\xf0\x5e\x65\xa8\x35\x50\x72\x4e\x1d\xc1\xb5\x00\x39\x34\x97\xa4\x6b\x40\x8c\x42\x37\xf0\x61\x13\x24\x3b\xc0\x84\xf7\xf2\x7a\x11\x57\x4b\xf8\x42\x5e\xe0\x5c\x22\x0a\xac\x9b\x97\x41\x8b\x1a\x9e\xc5\x69\x2a\x26\xa7\x65\x58\x56\xc5\x04\x9e\x5e\x43\xaf\x89\x6f\xf6\xfd\x81\xb3\xf1\xfb\xfa\x8b\x0e\xaa\x4c\x2d\x36\x41\x10\xb0\xc3\x45\xcc\x13\x25\xea\x35\xb0\xc2\x26\xcc\xde\xf1\xa7\xf7\x4c\xfe\xdb\x3b\x5c\xf5\xe6\x86\xe9\x92\x7c\xa3\xd1\xc4\x61\xa3\x09\x38\xd8\x77\x53\xd5\x55\x99\x91\xc0\x01\x23\x5c\x8d\x0f\x88\x0a\xb1\x2b\x81\x34\x68\xdd\x32\xc7\xc1\xe7\xf4\x02\x3f\x6b\xc4\xde\xc9\xeb\xf7\x5f\x89\x2f\xe0\x25\x71\x60\x16\x26\xd1\xc2\xb3\x16\xde\xca\x9b\x9c\x68\x10\x66\x05\x1f\x7e\x59\x3c\x14\xcb\x14\x56\x37\x49\x4b\x18\x02\x94\xef\x57\xb0\x9e\xd2\x5d\x78\xc3\x3b\x64\xd2\x23\x52\xbe\xaf\xf8\x79\x29\x63\x59\x4a\x4f\x63\x40\xdf\xec\x04\xe0\xb5\x45\xdf\x90\x6f\x77\x42\xc1\x24\x11\xc4\xf1\xb1\xa8\x91\x8c\xa7\x37\xea\x14\xa5\x60\x5e\x5a\xcc\xbd\xce\x26\x88\x3b\x21\x5f\x23\x39\x6f\xbb\xef\xc2\x39\xcc\x68\x69\xb9\x81\x43\x28\xe7\xb2\xd4\xbc\x8b\xfc\x6e\xa8\x47\x2c\x7c\xb5\x96\x89\xf9\x9a\x3a\xec\xaa\x80\x31\xd7\x4d\x79\x97\xa9\x8d\x50\x71\x63\xc1\x71\x99\x90\x83\x3b\x60\x17\x81\x51\x03\xff\x90\x99\xe5\x70\xe9\xd5\x3a\x82\x9d\x8f\x5d\x0b\x18\xba\x03\x05\xa5\xc9\x55\x6f\x6d\xc7\xa4\xb9\xd2\xe3\xed\x59\x91\x70\x65\x06\x9e\xb6\xa5\x70\x87\x60\x1e\xf7\xcd\xeb\xde\xb2\xa9\x85\xd4\x54\xcd\x93\x28\x9e\xcb\x85\x8c\x2e\xd9\xe2\xa3\x29\x02\x30\x77\xde\x01\x98\x2a\xd2\x80\x71\xa0\xd0\x07\x6d\x88\x9a\x7d\x8f\x88\x22\x47\x2e\xc1\x47\x8c\x62\x32\x1a\xf5\x76\xa2\x60\x8e\x32\x76\xc3\x38\x2a\x6f\x82\x21\x11\x52\x9b\xbb\x2b\x49\xf6\xa6\xe8\xff\xcb\x99\x3f\x1d\x39\x53\xeb\x36\x15\x7b\x89\x9d\xdd\x03\x14\xbb\xba\x9e\xdf\xbc\x79\xfd\x94\x2d\xac\xbd\x7d\x4f\x34\xe3\x9c\xee\x18\xae\x2d\xac\x31\x60\xf5\x79\x78\x09\xdb\x08\x1c\x36\xc9\x6e\xc3\x39\x74\x11\x3d\xce\x40\x60\x0d\x44\x0b\xd9\xb3\xa0\x1c\xf7\x24\xcd\xd8\xb5\x85\xfd\x50\x8b\xc5\x04\xdc\x89\x4d\x0b\xbf\x6f\x20\x5c\xae\xc2\x69\x58\xe0\x82\xbf\x7b\xdf\x0f\x09\x97\xb7\xeb\xeb\x13\x09\x4c\x25\x3d\xc4\xf6\x85\x8a\x29\x9d\xa5\xca\xfa\xf4\xa7\x64\x80\xd7\xc7\x39\x46\xc3\x09\x66\xe4\xd5\x5e\x9b\xf9\xc0\x74\x7c\x0a\x74\xdc\xde\x8a\xb3\xf4\xbb\xf4\x0a\x70\xad\xcd\x80\x22\x3b\xca\x34\x7c\x80\x18\x31\x1e\xb7\xe8\x26\x6d\xe5\xde\x35\xb9\xe1\x0e\xc3\x1d\x89\xfa\xa4\x4c\x80\xc6\x43\x0e\xb4\x7b\xac\x83\x47\x51\x40\x8c\x9e\x51\x9c\x1c\x67\xef\xb4\x50\xb6\x31\x35\x38\x49\x3a\x1b\x28\x4f\x07\x5b\xd4\xe8\x00\xd3\xc7\x97\x48\xb9\x0e\x8d\x6b\xa7\xdb\x74\x9c\x8d\x69\xde\xbd\xda\xc6\xcc\x67\x1d\xe7\xc0\xf9\xec\xce\x6a\x8b\xc4\xe0\xa9\xd6\x69\xac\x62\x21\x8e\x31\xaf\x5c\x2c\x15\xa4\x40\x29\xe5\x60\x88\x11\x0d\x8d\xd8\xee\xf3\xdc\xd1\xe5\x2d\xc4\x81\x1d\xca\x17\xae\x87\x33\xe4\xfb\xa2\x6b\xf4\x79\x9d\xdf\x0f\x08\x34\x73\xdc\xa7\x16\x1d\x79\xc3\x21\x27\xb9\xee\xd4\x9e\x3e\x70\x76\x4f\xf7\x57\xd1\x97\xd9\x7d\x3b\x71\xa1\xc7\xd0\xce\xc0\x28\x56\x28\xea\xd1\xe1\x80\x3b\xa8\x16\x5f\xe3\xea\x50\x84\x08\xe3\xa9\x32\x47\x31\x4a\x3b\x80\x85\xa7\x96\x0c\x96\xc9\xb4\x9f\x4b\xa1\x33\xb0\x18\xf3\xc3\x65\xba\x09\xc1\x79\x1a\x68\x1c\x88\xd7\x79\xb4\x09\xf3\x28\xbe\xd1\x81\x2d\x37\x0a\xc6\x2c\x32\x34\x0f\xef\x43\x9b\x35\x70\x2e\xf0\xb9\xe1\x70\x37\xfd\x6c\x13\xf2\x20\x17\x5b\xf5\xd9\xc5\xc5\x36\x2b\xf9\x71\x60\x99\x58\xe8\xec\xb4\x4c\x83\xf2\xa9\x73\x9d\xb8\x87\x6e\xd2\xb7\x50\xdb\x97\x40\x27\x29\x53\xab\x13\xbb\x9a\x81\x93\xbd\xd3\x3a\x0d\x4e\xa4\x6b\xa1\xba\x62\x20\x43\x2b\x55\x64\x1c\x0d\xd9\x39\x8c\x54\x0b\x3d\x75\xad\xd6\xb7\x32\xc6\x80\xfa\x98\x27\xd0\xa9\x42\xbb\xc5\xcf\x66\x29\x74\x02\x27\x78\xf1\xcc\x6f\x36\x40\x7c\x51\x88\x5e\x4c\xc5\xa5\xb5\xf5\x36\xc6\x48\xbd\xac\x05\x5f\x28\x0f\x2d\xc5\x85\xbc\xa1\xe5\x5e\xa2\x39\x38\x4f\xc1\xf3\x00\x1a\xeb\x51\x54\x06\x57\x78\x17\xbe\x72\x3c\xb0\x29\xb8\x1e\x31\xae\x97\x82\x12\x2a\x77\x8b\x02\xad\x4f\xc3\x24\x05\x53\x37\x8c\xbf\x95\xe1\x52\xe6\xbf\x04\xe8\xca\x2b\xc1\x81\x8a\x54\x85\x7f\x4b\xe5\xe4\x69\x10\x8b\x85\xd4\x51\x0f\x09\xde\x0f\xf0\x02\x8f\x8c\xdf\x91\x14\xc7\x66\xae\x3f\xc0\x67\xca\x40\xb0\x34\xc4\xb9\xbe\x7b\xf4\xde\xdf\xda\xb0\x07\x3b\x98\x99\x85\xa0\xec\x7d\xb5\x7c\xd0\x8d\x34\xd4\x1e\x16\x25\xc7\x98\xf7\xb6\x28\xc1\xfa\x70\x7a\xf3\xf0\x94\x6f\x50\x41\x23\x31\x0f\x17\x17\x5c\xd4\xa0\xf6\x0c\x07\xe7\x71\xae\x89\x24\xaf\x2c\x10\xcf\x49\xbc\xaa\x30\xbf\x62\xd7\x68\x1e\xa1\xb7\xa6\x97\x40\x45\xb1\x61\xeb\x2d\xa3\x30\xe6\x50\x77\x1c\x02\xdf\x03\xbc\x14\x03\xb0\xd4\xc8\xc2\x64\x06\xad\x61\xe7\xe1\x67\x56\x9e\x01\xbf\x01\xe6\x4b\x06\xcc\x52\x6e\xa4\xcd\x52\xaf\xc7\xc0\x70\xb7\x1c\xda\x07\xcd\x28\xeb\xc8\x79\x9b\x5d\x9c\xd3\xf6\x53\xc1\xd6\x7a\x79\xc5\xa8\xed\xcf\x74\x47\x64\x47\x98\xe1\xd3\x86\x9e\x6b\xb6\xb4\xdd\xfa\x11\xee\x97\xae\xa6\xc7\x6d\x2b\x52\x51\x89\xd8\x11\x09\xa3\x7d\x4c\x85\x34\xa8\xf3\xae\x58\xef\x64\xda\xf2\x45\x87\xac\x48\x6b\x66\xf6\x68\x29\xc7\xcc\xdc\x22\xad\xd8\xe1\x1d\xa5\x75\x33\xd4\xcc\xdd\x23\x0f\x92\xc0\x28\x9b\xd4\x3e\x19\x91\xa6\x37\x8c\xf1\x52\xb6\x1a\xe5\xe2\x50\x81\x6a\x59\xd7\x47\x6e\x86\xc3\xf9\x3e\xb5\xe3\x8d\xee\xb4\x50\x45\x4e\xc7\xb9\x0b\xb5\x73\x3e\xdd\x4c\x19\xd0\x7f\xda\x4e\x19\xd6\x7f\xc3\x1a\x6d\x57\x33\x45\xe9\x9a\x1e\xfd\xc7\x9b\x7f\xd8\x4e\xe9\xd7\x7f\x6c\x74\x20\x32\x3b\x2a\x40\x6c\x6a\x8c\x15\x54\xcb\x7b\xa9\xc0\x0c\x83\xdc\x6d\x1d\xe8\x2e\xdb\xa7\x9b\x2d\xfd\xd6\xa5\xb6\x5a\x06\xad\xcb\x1d\xed\xc6\xad\x36\xcb\xa0\x75\x59\x5b\xb5\xa1\x79\x74\x1b\x2d\x5d\xe9\x9c\x61\xeb\x72\x8f\x04\xce\xb0\x75\xa9\xb0\x20\x65\x5a\x9c\xa5\xae\xc1\xc2\x34\xef\x92\xf8\x0e\xc9\x79\xca\x03\x50\x3c\xb0\x0d\x0a\xf1\xee\xbd\x0e\xf0\x6d\x81\xb7\x53\x02\x0c\xcc\x9e\x83\x6d\xc6\x12\xe9\x80\x2c\x8c\x72\x3b\x38\xbc\x54\xe1\xbe\x0b\x6b\x42\x11\x7a\xb7\x2a\x0a\x76\xa9\x43\x7d\x30\x6c\xc0\x06\xc6\x85\x1f\xa8\xb0\xa6\xff\x95\xd0\x21\xbf\x11\x03\x36\x71\x0f\xfa\xc9\x06\x8b\x09\x73\xa1\xf0\x44\x98\xdc\xd4\xb5\xce\x0e\x00\xff\x63\x6b\xed\xfd\x02\xc4\xa1\x07\xef\xa6\xf6\xd5\x6b\xec\xc3\x50\x31\x78\xe2\x6b\x70\x8e\xf5\xa2\x62\x67\xbc\x92\xbb\xda\x31\xdf\x9e\x9d\xbd\xbe\x4f\x64\x8c\xd2\xf2\x4c\xe5\x84\xd8\x0b\xf0\x9f\x60\xb2\x0c\xec\x2d\x54\x2e\x54\xdb\xf7\x95\x58\xac\xc3\xbc\x90\xe5\x71\x55\xae\x0e\x7f\x3e\x31\x01\x35\x1c\x55\x05\x08\xac\x01\x24\xd6\xea\x0d\xed\xd9\xed\x81\x36\x04\x96\x26\x22\xcb\xe5\x52\xae\xa2\x04\x2c\x26\xac\xa1\x28\x9c\xe8\x9a\x33\xcc\xd6\xf0\x5a\xbd\x84\xa7\x1e\x5e\x73\x8b\x3b\xb4\xcd\x02\xeb\x18\x10\x7c\x32\xef\x6b\xf1\xa7\x8e\x90\x5b\x3f\x74\x5a\xff\xae\xcf\x2a\xe6\xc6\x63\xa0\xfd\x5a\xd4\x42\x6e\xdd\x9d\x4e\x50\x2c\xb0\xb8\x81\x29\x3b\x3f\xfa\xbb\x3c\x5e\x81\x58\xf1\x9a\x5f\xca\xa7\x76\x69\x3d\x67\x99\x7d\x02\xd4\x9e\xe5\x4e\x01\x3f\x15\x0b\xa2\xe0\xde\x86\x82\xf9\xd5\x35\x9a\x51\x6f\xd2\x0a\x71\xf0\xc7\x8e\x25\xa1\xf2\x15\xa8\x1b\x7a\xc8\x6c\x9a\xce\xb1\x32\x24\x39\x27\xeb\x8f\xbb\x05\x4f\xf8\x95\x8a\x66\x6f\x74\x3f\x0a\x4b\xab\xe6\x58\xc3\x3b\x17\x7f\x2b\xce\xd2\xb7\x58\xf1\x04\x46\x98\x0f\xbb\xac\x5c\xd7\xda\xe0\x8b\x33\xb9\xc9\x62\x2a\xf4\x85\x16\x9a\x9d\x7a\x2a\xbe\x3c\x8e\x8f\xbb\x11\x45\x85\x51\x47\x58\x51\xd9\x73\x38\x3d\x67\x48\xca\xa7\xd4\xed\x3e\x65\x19\x62\xc3\x6f\x38\x2d\x56\x33\xfa\x3a\x83\x8b\x23\x92\x11\x8d\x5a\x43\xf5\xa8\x84\xc6\x46\x97\x90\x38\x7c\xc2\xf9\x37\x0e\x37\x12\xff\xe8\x4c\x9a\x1e\xf1\x07\xfc\x0e\x16\x3c\x78\x27\xb0\xed\xc2\x2a\x2e\x51\xdb\x31\x83\x20\x30\x0a\x3d\xc2\x86\x6d\xca\x02\xf0\x3f\xc0\xe1\x5c\x92\x77\x82\xbf\xd9\xbc\x47\x37\x71\x42\xe3\x4c\x8c\x67\x79\x49\x15\x67\x00\x8a\xde\x07\x84\x9d\xe7\xb3\xff\x02\xf2\x80\xb2\xdb\x02\x91\x45\x50\x7f\xf9\xe8\x11\x38\x43\x2b\x07\x5f\x27\x66\xca\xfb\x06\xb0\x25\xc4\xa0\x45\x96\xa7\x97\x11\xba\xbe\x6b\xde\x51\x9c\x59\x9b\x4b\xc6\x96\x13\x90\xd8\xce\xda\x64\x2e\x68\xaa\xcc\xb2\xd0\x71\x16\xc1\x0b\x90\x6f\xeb\x90\x8a\xbe\x34\xfe\x1b\x7e\x85\x1c\x59\x54\xe0\xea\xca\x65\xc1\xbe\xd6\x2f\x4e\x5f\xbd\x54\x35\xd8\x4b\x5d\x30\x6d\xb2\x78\x84\xbb\x46\x07\x93\xa1\xfd\xd3\xe2\x04\x3f\x96\xc0\xe7\x53\xed\x02\x9a\x99\xd9\x8f\x35\x68\x60\x4b\x14\x25\x4c\x5a\xd3\x8c\x85\xa4\x2b\x21\xba\x0c\x11\x53\x2b\x32\x15\x57\x2c\x05\xeb\x6c\x40\x06\x08\xae\xea\x54\x7c\xc0\xed\xe7\x92\x84\xc5\xcf\x0f\x5c\x4f\x78\x4b\xab\x78\x84\xc0\xf4\x82\xde\x71\x5c\x73\x63\x09\xc8\x8a\x16\x9b\x78\x75\xda\x5a\x3d\x1b\x31\xf3\x3c\xa1\x21\x55\xd7\x13\x0e\xa6\x1a\x40\xba\x1f\x92\xdb\x83\xae\x4e\xb3\x63\x47\xe7\x12\x33\x1e\x1b\x70\x3a\x20\x30\xba\x0a\x98\x6d\x3c\x1f\xc5\xa0\x37\x51\x82\xf0\x10\xa5\xdf\x64\xea\xaa\x3c\x9e\xc0\x5a\x33\x99\x8b\x7f\x5d\x3c\x68\x3e\xb4\xf3\xd0\x81\x1b\x32\x8f\xac\xe9\xa1\x61\xa9\x1e\x85\xc7\x35\x3a\x2e\x4e\xcf\x64\x0c\x16\x08\xbe\x54\x96\x8b\x13\xfc\x51\xe0\xd8\x20\x71\xfa\x3c\x5e\x2e\xbd\x86\x25\x82\xff\xa3\x3d\x74\xc4\xd5\xab\x01\xf3\xcd\x73\xb4\x31\x93\x30\x76\xb4\x09\x4d\xb2\x58\x0c\x4c\xcf\xe1\x47\x3b\x43\x02\x7e\x0c\x1d\x9d\xcf\xca\xbf\xbc\x0a\x88\x7b\x14\x7a\xd8\xd0\x37\x2f\x3d\x5c\x16\x1f\x05\x93\x65\x50\x16\x93\xb9\x87\x95\xb0\xef\xde\x63\x41\xae\xaf\x36\xc5\x2d\x3b\xf6\x57\xc2\xe5\x35\x13\x2e\xd7\x0c\xf9\x36\x51\x2c\x80\x10\xa6\xe2\xc1\x15\x60\xd9\x08\xa7\xb3\x39\x53\x44\xbf\x45\x9c\x7f\xfe\xe7\x7f\xfd\x57\xcc\x6b\xb1\x4c\xb0\x8f\x2f\xfe\x86\xbf\x31\xe3\x00\x1a\xc7\x02\xfe\x7e\x77\x84\x2f\xdf\xd7\x0b\x99\x30\xeb\x4b\x74\x5b\x79\x13\x13\x7c\x24\x5e\xc3\x84\xef\x11\x46\xc2\x30\xdf\x9b\xa1\x5d\x24\x92\x34\x39\x24\x61\xa8\x2d\x7e\x6c\x08\x4c\x86\x63\xd6\xa2\x53\xaa\x40\x18\xf4\x8c\x77\xc5\xe0\x89\x46\x24\x6c\xdd\xb9\x3b\x99\x1e\x6a\x25\xd8\x50\x15\xbf\xc6\x51\x8e\x94\xa4\xfd\xb5\x92\xfb\xb8\x8a\xaa\x15\xc8\xe9\x62\x15\x29\xb9\xaf\xd9\x95\x24\x9a\xb3\xb8\xd6\x1f\xc1\x6a\x4f\x92\x3a\xea\xdc\xcb\x2e\x75\xdd\xaa\xf2\xc2\x19\xd4\xa0\xca\xd2\x75\x54\x58\xd1\x45\x81\x18\x2d\xa4\xe1\x8f\x93\xf5\x37\xb6\xbb\xe6\x11\x6f\x6d\x81\xfa\xc2\xe5\x36\x51\xaf\x9f\x5b\x07\x76\x84\x9e\xde\x76\xdf\xb1\xcd\x47\x3f\x6b\x20\x14\x52\xe3\xc1\x8c\xc9\x56\xe3\xc5\x89\x5a\x6d\xb1\x5e\x4c\xf4\x62\xd0\x4c\x68\x7a\xc3\x84\x7d\x77\xae\x85\x40\xf2\xc9\x1f\xec\x83\x52\xf2\x50\x29\x25\xd7\xd1\xb5\x16\x50\x8e\x8e\x6c\xc3\x37\xa6\xaa\x34\xe2\x15\xc0\x4a\xbf\x25\xc8\xc8\xc1\xdb\x42\xf9\x23\x27\x96\x31\x38\xad\x4e\xe7\x58\x1c\x28\x4d\x44\x4d\xfa\x1d\xe3\x11\xd8\x27\xe8\x5f\x04\x28\xde\x03\xaa\xbd\xf7\x7c\xe5\x06\xa2\xd3\x6c\xfd\xe4\xc6\x5c\x1d\xa7\x99\xec\x47\x92\x1a\x4a\xa0\xa8\x62\xfe\x37\xc0\x05\x8f\xe3\xd8\x63\xe0\xbb\x15\x3c\xea\x0a\xff\x15\x6a\xc6\xa9\x98\x28\x49\x90\xa3\x56\xd6\x96\x11\xce\x4c\x93\x73\xa2\x4b\x3d\xea\x82\xe8\x11\x03\xaf\xb4\x50\x43\x9f\x04\x10\x33\x27\x5a\xac\xb8\x53\x06\x21\xab\x03\xc0\x36\xbd\x82\x09\x96\x51\x18\x63\xd8\x0d\x36\x9f\xb2\x1e\x9f\x45\xc5\x22\xcc\x97\x6f\x13\x3a\x80\x73\x64\xbf\xe8\x4a\x10\x9c\xd7\xb1\x70\x07\x6c\x89\x54\x4c\x53\xb6\x84\x6a\xb7\x58\xed\x17\xac\x9d\xa2\x55\xa1\x51\x23\xa6\xd9\xb0\xb7\x1d\x64\x75\x45\xe9\xbe\x32\x97\x09\x32\x72\x14\xe2\x93\x70\x59\xb3\xc4\x47\x88\x80\x45\xcb\xb8\xf5\xe8\x7a\x02\x75\xc3\x4d\xa1\xfd\x9a\xef\x61\x34\x2f\xc7\x35\xc4\x13\x1e\xf6\x3b\xb6\x06\x80\xf9\x8d\x6d\x0e\xf4\x7c\xf3\x5d\xf0\x2b\x7c\xe9\xe9\x0e\x4e\x93\xb1\xeb\xec\x70\x21\x19\x0a\x0b\xcd\xb5\x74\x18\xa3\xd0\xd1\x70\x20\x6e\xa2\x9b\x05\xdf\xa5\x6c\x81\x8b\x09\x4d\x92\xdb\x60\x20\x96\x3f\x83\x33\x41\x83\x9a\xd5\x44\x37\xa8\x3b\xfe\x3b\x8c\xc2\xab\x44\xa6\xab\x16\x1e\xb0\xc7\x5a\x78\xd0\xb4\x3e\x05\x11\xc3\x09\x0f\x28\x7e\xa5\x73\xdf\xda\xb5\x3c\x6c\x54\x0d\xf7\x7a\x4e\x9d\x12\xb3\x2f\xeb\xc9\xf2\xb1\xd0\x6e\x84\xd1\xeb\x61\xc1\x46\x7d\xc3\x6d\x60\x27\x2a\xdf\x23\xa3\xd9\x81\x60\x97\xec\xeb\x34\xc2\xfb\x92\x9c\xc6\x44\xea\x13\x14\x2f\x5a\x62\xa2\x29\x24\x8c\x2c\x78\x5b\xc8\xd7\xd8\x0f\xe5\x65\x71\x54\xff\x70\x92\x54\x9b\x97\xd5\x66\x0e\x5a\xf1\xc8\x7e\x38\xd9\x44\xe5\xdb\x24\x4b\xb3\x0a\x7d\xe7\xa5\x11\x2b\xb0\x56\xae\x3c\x75\x64\x8a\xf6\x1b\x6c\xf2\x95\x50\x05\xb5\x59\x14\x60\x64\xf8\x43\x75\x10\x9a\x0d\x3e\x4c\x95\xb4\x32\xe6\x24\x59\x52\x4e\x2b\x37\x29\x6b\xcf\x0e\x29\x63\xa0\x2b\xd8\xd2\x53\x1b\xd2\xd4\x42\x7d\xd9\x59\x6b\x9d\xe7\x8e\x39\x31\x98\x8f\x25\x25\xd0\xca\xc5\xae\x81\xd9\xd6\xe1\x92\xfb\xf6\x65\x5f\x29\xe7\xb7\xc4\xb0\x58\xc4\xb5\xe8\xa6\x74\xce\x39\x06\x8c\x2e\x23\x41\x51\x67\x67\x03\xad\xf4\x4d\xd2\x17\x99\x19\xc3\xb2\xad\xd4\x70\x2d\xbb\xcb\x40\xea\x29\xde\xc1\xe4\xee\xb6\xdc\xae\xa6\x10\xc8\x83\x12\x26\xee\x6f\xeb\xd2\xc0\x9f\xb2\xbb\x6d\x18\x28\xbc\x90\xdc\x15\xc8\x45\x73\xdc\x6a\xb1\xc6\x35\x09\xe8\x4b\x18\x17\x29\x2e\x81\xda\xc3\xac\x15\xaa\x3c\x1e\x0f\x8f\xae\x35\xcd\x21\x1e\x4a\x9e\x2a\x21\x8e\x01\x23\x7f\x5b\x47\xb3\x2a\x58\xa4\x8f\x3c\x87\x42\x64\xe2\xdf\x3b\x19\x8d\x20\xee\x9f\x8c\x76\x7a\xdb\x58\x6c\x47\x2e\x3a\x61\x63\x8f\xa5\x97\x88\xa3\x4b\x3a\x16\x51\x2a\xaa\x6d\xd2\x92\x02\x11\x18\x67\x08\x13\x3c\xd3\xf5\x03\x16\xce\x66\x7c\x7a\x8c\xdf\xf1\x89\x32\xb0\xb8\xc8\x7c\xb4\x83\x2c\xc1\x02\x49\xe9\x1c\x45\x71\x53\x94\x72\x33\x45\xe6\x02\x58\x71\x74\x21\x63\x93\xcf\xa6\x70\xc9\x64\x9d\x16\xe5\x11\xd1\xce\x26\xac\xed\x0c\x3c\x33\x94\x2e\x3c\xee\x0d\xf1\xee\x9f\xaa\x06\xe9\xf3\x85\x66\xb9\x6f\xc3\xe2\x75\x2e\x57\xd1\xb5\x19\x11\x96\x92\x8e\xaf\xb2\xed\x69\xf0\x38\xe6\xd7\x47\xb3\xd9\x44\xfc\x99\xa1\x04\x09\xab\xca\x48\x41\xe0\x20\x34\x3e\x0b\x69\xa0\xed\x5c\xf4\x85\xb6\x42\x35\x56\xa7\x7a\xd1\xca\xe9\xf0\x38\x54\x02\x96\xcb\x92\x27\x2f\x53\x5e\x48\x27\x0e\xce\x85\xf8\xcc\x03\x14\x35\x42\x40\x57\x69\x0e\x7b\x92\x63\xeb\x42\x69\x7a\x74\xfc\xf0\x7c\x5e\xce\x6a\x84\xbf\x46\x48\xc2\x89\xef\x86\x18\xf7\x0c\xe4\x62\x34\xbd\xe9\xfc\x28\xa4\xf1\x2b\x57\x02\x38\x8e\x12\x3c\xc9\xeb\x76\x8f\x47\xba\x0f\xd9\xf8\x6d\xaf\xc2\x94\x2a\x77\x64\xfd\x71\x24\xb6\xf0\x06\xfa\x75\x9c\xf4\x75\x4a\x00\x54\x52\xbf\x37\xbe\xac\x2c\x48\xb0\x8a\xb3\x1b\x90\x15\x1e\xac\xbf\xdb\xfe\x49\x08\x4a\x16\xc4\x07\xc6\x99\x75\x53\x6b\x1d\x6c\x89\x10\x37\x82\xc9\xb5\xa0\x73\x3d\x58\xdc\x4c\xff\x8f\x9a\x15\x00\xda\xb6\x75\x02\xc6\xdd\x71\xe4\xe1\x52\x80\xc1\x75\x37\x25\x01\x9f\x7d\xe5\xfb\x22\xee\x64\xce\xf4\x2f\xed\xb4\x69\x6d\x76\xc5\xcd\x6d\x29\x02\x49\x1e\xbd\x8e\x73\x58\x38\x71\x80\x7b\x18\x7e\x4d\xc9\xd4\x17\x3a\xb9\xa9\x5f\xe3\xfe\x4d\xd0\x2e\x80\x39\x1c\x60\x07\xfe\x49\xfa\x42\xb9\x07\xb6\xe0\x19\xbf\x28\x43\xe5\x69\x79\xad\x73\xa8\xa7\x68\xdf\x2e\xa8\x24\xbe\xca\x55\xa8\x86\x4c\x05\xb5\x71\x61\x3b\x82\xb1\x15\xf3\xf9\x33\xd6\x73\x20\xb9\x29\x9b\x09\x4e\x2b\x48\x51\x6d\xbe\x2a\xb5\xc4\x01\x75\x56\x7b\x1b\x6d\xc2\xba\x0e\x28\xda\x0a\x2a\xdc\x11\x08\xf1\x32\x2d\xd5\x71\x5e\x04\x89\xb0\x48\x52\xac\xc3\x4b\xf0\xa9\xd4\x35\x1d\xc3\x26\x09\x8d\x33\xa7\xb4\x96\x3a\xd1\x46\x87\x77\x50\xf2\x6b\xd4\xf0\x70\xb4\x0a\xa4\x87\xba\xc2\x89\x05\x3f\x3c\xdc\xd8\x70\xbd\x29\xb6\x77\xce\xdb\x61\x61\x93\x52\xb8\x2a\x07\x5d\xa7\x1d\xe7\x9d\x9d\x93\x25\xfd\xfa\xc0\x8d\xf8\x74\x34\x52\xa9\xb9\x81\xf3\x98\x3b\x58\x87\x9f\x2d\xf3\x6c\x2c\x1e\x0c\x57\x37\xc3\xbc\xf5\x04\x31\x05\x0d\xc9\xfe\x45\x05\xd0\x53\x47\xb3\x55\x60\x37\x43\x52\x9d\xc2\x66\x30\x22\xd5\xf4\xaf\x54\x38\x8a\xad\xb1\x66\x48\x4a\x47\x69\xd4\x30\x6e\x05\x8a\x5b\x62\xda\x0c\x49\x39\xa1\x57\x36\xf3\x54\x3a\xc5\x7c\x59\xd3\x41\x0d\x0c\x07\xfc\xc5\xa3\x47\x6e\x5e\x09\xfc\x2c\x95\x3c\x21\x7f\x2a\x03\x12\x32\x9a\xd8\x21\x21\x58\xec\x5b\xd1\x06\x2a\x4b\xbc\x70\x81\xca\xec\x68\x16\xee\xfe\x53\x01\x6c\x30\xa3\xc9\x85\xb1\x38\x6a\x24\xb6\x86\xcc\x74\x1d\x49\x47\xc8\xac\x93\xec\xc3\x11\x33\x6e\xb3\x7f\xc8\x6c\x9f\x08\xd8\x31\xdd\x6d\x71\xf2\xea\xeb\xde\x20\x18\x46\xb1\x6d\x6c\x9c\x24\x0e\x05\x6b\xe8\xe2\x0a\x37\xea\xb5\x63\x40\xad\x23\x9e\x66\x80\x4e\x7c\xa7\xf0\x22\x77\x72\x11\x08\xd8\x89\xf3\xbc\xfa\xe5\xf6\x98\x5d\x2d\x13\x01\xae\xc6\xc4\xe1\x99\x23\xf1\xf0\xcb\xe5\x43\x72\x03\xec\x18\x66\x6c\x0e\x39\x16\xd9\x36\x6e\x1e\xef\x1d\xd7\xeb\x0d\xeb\xf5\x45\xf5\x1c\xd2\x6e\x8d\xe9\x15\x59\x47\x50\xaf\x45\x21\x97\x28\x8d\xb2\x94\x07\xb6\x28\x7a\xd4\xa8\x8a\x76\x04\x50\xb3\x22\x6c\x87\xe8\xf9\xf6\xd8\x39\x1b\x04\xb5\x08\xd0\x7e\xd1\xf3\x56\x2d\xd9\xd8\x78\xbb\x2a\x1c\x04\x7d\x76\x0e\x98\xd3\xd5\x13\x9c\xdd\xce\x61\x07\x15\x02\x07\x22\xc7\x04\xf4\xf2\x48\x69\xbf\x9a\xf2\xf5\xd0\x26\x98\x72\x1c\x90\x93\xcb\x94\x1a\xd3\xa2\x60\x87\x69\xed\x10\x3d\xef\xa9\x35\x33\xa1\x23\xbc\x3f\xea\x32\x8c\x91\xc0\x93\x89\x8a\x4c\xf2\xab\xe1\xab\x03\x86\x22\xea\x3a\xc2\x09\xfd\x88\x55\x5c\xf5\xd5\xeb\x1a\x37\xdb\xf5\xfb\xde\x1c\x95\x38\x95\xec\x98\x92\x31\x96\x61\x18\x55\x96\x98\xb6\xe1\x48\x2d\x1d\xbe\x51\x9e\x1c\x15\x5b\xe9\xa4\x52\xe3\x84\x64\xc1\xa5\xd1\xb5\x58\x27\x8e\x72\xca\xef\x4d\xb0\x53\x37\xbc\x6b\x1e\x28\x45\x93\x71\x32\x23\xfc\xbb\xbc\xbd\x8c\xa3\x05\x03\xb2\xae\x2b\x6f\x90\x56\xf1\x32\x79\x58\xda\xdd\xcb\xb3\xfc\xf2\xe3\x84\x8d\x4f\x2d\x41\x99\x2a\x6f\xc2\x2b\x65\x64\x56\xfa\xd9\x7c\x33\x1f\xe8\x6d\x9d\x72\xc4\x78\x75\xd2\x39\xe9\xea\x46\xc4\x1a\x05\x5c\xb9\xc9\x54\x7a\x56\x2d\x70\x89\x57\x0a\xb9\xe4\xec\x8b\x5d\x0b\x5b\xca\xbd\x5b\xd8\x18\x5a\xe1\x86\x50\xcd\xde\xc8\x4c\xd2\x35\x80\xea\xf7\xf3\x02\x5d\x29\x23\x51\x2d\x64\xef\xa9\xbe\x80\x4f\xc7\x9d\x53\x2a\x5d\x9b\xe8\xe5\x9f\xf8\xba\x07\x4f\xf5\xdd\xc4\x84\xa8\x7f\x65\xe2\xf1\xaa\x64\xfb\x3d\xb3\x70\x60\x5a\x3c\x85\xf7\xb1\x2d\x4c\x57\x7c\x10\x17\xe6\x77\x3b\x61\xdf\xd7\x5f\xe7\x43\x14\x1a\x94\xc0\x1f\x40\x65\xea\xdc\x5a\xe5\x5d\xfa\xec\xc3\x8d\x5c\x2c\x14\x37\x92\x8b\x13\xa3\x71\x56\x23\xe0\xf3\x02\x63\xb8\xfa\x17\xe8\xaf\xfc\xe4\x3a\xcb\x35\xda\xa8\x38\xfb\xf0\xac\x65\x7b\xee\x83\xee\xca\x9b\x7c\xb9\x84\x37\x07\x7d\x43\xd4\x67\x63\xd1\x07\x5a\x7a\xa8\xee\x5b\x6b\xee\x37\xd9\x42\xcf\x03\xd8\x51\x47\x87\x6b\x75\x2a\xbd\x23\x9b\xe9\xb7\xf2\x5a\x5d\xdb\x53\xed\xce\x15\x78\x26\x5c\x48\xa4\x37\x67\x1f\xfc\x49\x7d\x9d\x94\xa4\xd5\x82\xc9\x03\x74\xfd\xf1\x5e\x54\x65\x08\xbe\x43\x28\xcb\x89\xb3\x83\xdf\xff\xfb\xdf\xfd\xf4\xbb\x7f\xfd\xe9\x5f\xfe\xe3\xa7\x7f\xfc\xf1\x0f\xff\xfc\xf7\xff\xfd\x9f\xff\xf5\xfb\xdf\xfd\xc3\x4f\xff\xf6\xe3\x1f\x7e\xfc\xa7\x83\x99\x71\x9f\x79\x73\xdd\x8b\x13\x3e\x8d\x11\xbc\x1d\x39\xa0\x31\xb3\x7b\x0c\xb4\x6d\x1c\x1b\x05\x18\xd5\x2a\x16\x1b\xbf\x9a\xe1\x11\x25\xe3\x52\x4c\x85\xf5\x25\xc7\xda\x82\x8e\x9a\xf7\x0b\x3a\x0b\x36\x33\x8a\x88\xbb\xe8\xc2\xcb\xda\xba\x99\x4d\xc1\xcd\xeb\xbb\x42\xbd\x6b\x6e\x8b\xda\x85\x06\x8a\x36\xaa\xa9\x43\x1c\xd2\xee\xfa\x3d\xcd\x48\x29\x73\xc7\x11\xdd\xb2\xc7\xbe\x91\xa5\x05\xa1\xce\xdd\x6a\x9a\xf7\x6d\xb3\xbd\x37\x5a\xe7\x20\x13\x33\x8a\x9e\xf3\xc0\x6e\x6b\xf1\x94\x02\xb6\x65\xc3\xf5\xf0\xe7\x67\xa5\xee\xce\x88\x35\xb8\xbd\x9b\xf2\x2d\xbc\x5d\x56\xdf\x8d\xf3\x5d\x23\x83\xd0\x00\x82\x2a\x24\xd9\x3e\xa5\x9a\x5e\xcd\xef\x89\x63\x18\x52\x70\x74\x72\x2e\x4b\xbe\xc4\xd1\x35\x3c\xc8\x17\xac\xd9\x1d\x65\xfa\x46\x96\xf7\x35\x35\x77\xb1\x3f\x0e\xb7\x64\xad\xeb\xd9\xf3\xd9\x81\x78\x95\x80\x9f\x5e\x28\x84\x57\x0c\x84\xb3\x67\xc5\x1a\xcd\x33\x0c\x52\xa9\xd0\x14\x97\x47\x62\x86\x29\x8e\x09\x40\x8a\x49\x31\x5b\x7a\x9a\x6e\xa2\x12\x8d\x97\x65\x45\xf9\x11\x74\x82\xa3\x44\x16\x85\x38\x98\xa9\x11\x69\xfa\xdd\x52\x77\xd8\x04\x69\xc5\x33\x99\xd6\x26\xc7\xbe\x2d\x1d\xdc\x9f\x0f\xee\x4f\x08\xf7\x67\x84\x7b\x53\xc2\x7c\x9f\x49\x58\x86\xcd\xac\x70\x2d\x29\xfc\xf1\xfe\x86\x32\xfb\x6b\xcc\x58\x21\x17\xee\x8a\x2f\x2f\x61\x9f\x10\x65\xad\xb9\xfc\x84\x4b\x42\x9b\x17\x76\x7a\x7c\x07\xe8\x4b\x79\xf5\xa4\x5a\xad\xe0\x37\xe2\xea\x96\x57\x0b\xb7\x2e\x41\x39\xbb\xa3\xf6\x2d\x66\x5b\xef\x35\x31\x97\x9a\xee\x9a\xf8\x7b\xf9\xf8\xec\xf4\x9e\xf7\x9a\x50\x37\xec\x2f\x38\x58\x6a\x7e\xab\x33\x9f\x74\x5f\x2d\x9f\xf6\x2c\xf2\x4b\xfe\x6d\x2e\xa9\x53\xee\x61\xfb\x7e\xbc\x5d\x8f\x63\x8e\x8a\x6a\xee\x9e\xf7\xd3\x0b\x8f\x63\xa3\x40\xab\xe4\x69\x35\x2f\x16\x79\x34\xe7\xab\x64\x5a\x67\x28\x83\xfa\xfd\x32\x93\xee\x73\x96\x88\x7a\xd0\xba\x5d\xe1\x45\x71\x4e\x93\xf4\xb7\x72\x94\xe2\x0c\xf2\x7a\x6b\x08\x3b\xe7\x13\x9d\x65\xaf\xdf\xcc\x88\x27\x50\x9c\x05\xda\xf5\xe6\x18\x5a\x93\xed\x37\xc7\x58\xc8\x5b\x8f\xb6\xd4\x6e\xc8\x0d\x0c\x61\xcd\xf1\x16\x67\x6d\x7b\x6e\x8c\x19\x86\xa0\xea\x19\xfe\xf8\x2e\x8e\xb1\xf3\xda\xed\xe2\x98\xda\x95\x31\xf5\x39\xe3\x09\x0f\x33\xed\xbd\xae\x8d\xc1\x85\xea\x39\xcf\x6b\xa2\x53\xad\x36\x4e\xc2\xce\xb6\xe8\x3a\xfb\xb1\xc7\xbd\x32\xce\x2a\x7f\xd2\xbd\x32\x0e\x1c\x53\xc2\xbb\xd7\xf5\xa6\xa0\x2d\x0e\xfa\x38\xaa\x75\x5f\xcc\x9e\x77\x92\x38\x61\x72\x26\x6a\xe3\xb4\x65\xf7\xe9\xc1\xe2\x5c\x09\x3c\x10\x0d\xfd\xd1\xf1\x76\xe1\x68\xd7\x01\xcb\x81\xf2\x73\x18\x27\x78\x46\x7a\xae\xbb\x60\x72\xe0\x52\x97\x07\x3b\xdd\x05\x32\xae\x71\xd4\x96\x8a\x37\x9a\xf0\x0e\x15\x6f\x54\xe1\x96\xce\x7f\x83\x95\x1c\x2a\x88\x59\x98\xf5\xd2\x77\x77\xbc\x08\x93\x1b\x4e\xdc\xa4\xc4\x18\xea\x3f\x5b\x40\x55\x41\x15\x8e\x8d\xd9\x13\xba\x2b\x19\x93\x7e\x45\x84\xe2\x4e\x9d\x1f\xaa\x15\xc2\x75\xe0\xdd\x77\x39\x0f\x9e\x54\xd6\x55\x1e\xd0\xdf\xd5\x58\x5b\x0a\xe2\x34\x9d\x6b\x3c\xc8\xe3\xe3\x14\xdc\x81\xa7\xe6\x50\xf3\xc2\x82\xf5\xf7\x29\xce\xc1\x19\xdd\xbf\x38\xc7\xe9\xbd\xe5\xa6\x08\x9c\xcd\xff\xf5\x4d\x11\x16\xbb\xb6\xd5\xd0\xab\x80\x5e\x57\xf3\x38\x2a\xd6\x56\xff\x7c\xda\x35\x11\xbb\x58\x1b\xfb\x5c\xff\xa0\xeb\x40\xba\xaf\x80\x68\x69\x05\x33\x1b\x55\x02\x62\xee\x81\xe0\x62\x90\x2d\x86\xcb\xd8\xa9\xf2\xa8\xb1\xbe\x5b\xda\xd1\xa3\x47\x6a\x45\x1d\xcd\x9a\x8e\x66\x49\xc7\x1f\xe1\x5d\x0e\x64\xe8\xdc\xf7\x2e\x87\x1e\x6a\x74\xca\xb8\xdd\xee\x72\xd0\xf2\xff\x7f\xed\xd6\x86\x1e\x94\x77\x50\x49\xa2\x5f\x27\x61\xc5\xdd\x0e\xea\x06\x1a\x98\xec\x6f\x53\xed\x00\x88\xb6\xe6\x81\x97\x77\x0e\x74\xdd\x99\xcf\x1e\xe9\xce\x0f\x1e\xb4\xbf\x05\x94\x5c\xc5\x8b\x23\x3f\x44\xea\x30\xd9\x87\x49\xcf\x30\x3a\x19\xdc\x06\xa2\x6b\x7e\x35\x22\x1d\x09\xd4\xce\xbb\x28\x76\x55\xbe\x5d\x99\xcd\x61\xed\xdb\x7d\xb9\x93\xcb\xc3\x4a\x07\x77\xab\xe0\xce\x3c\x63\x4d\x03\x37\xee\xac\xd0\xff\x79\x1d\x55\xe8\xe3\x94\xe4\x84\x3d\x4a\x19\x27\xa7\x25\x3a\x30\x4d\x53\x27\x1f\x12\xae\x9f\x47\x31\xef\x6a\x4b\x6d\x4b\x2f\x6e\x55\xc4\x66\x20\x02\x6c\xc0\xf9\xce\x32\xfc\x0f\xb5\x60\xad\x2b\x0e\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27220, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xac, 0x46, 0x18, 0xb4, 0x78, 0x34, 0x15, 0x6f, 0xeb, 0xe4, 0xbf, 0x58, 0xc4, 0xa5, 0xc6, 0x1c, 0x8e, 0x41, 0xc1, 0x20, 0x2c, 0x49, 0x3, 0x78, 0x9, 0x48, 0xb2, 0xad, 0xf4, 0xf5, 0xfd, 0xfe}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27150, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xec, 0x26, 0xa4, 0xe1, 0x42, 0x3e, 0x47, 0x16, 0x62, 0x82, 0xe1, 0xc5, 0x67, 0x4, 0xfc, 0x87, 0x9f, 0xda, 0x5d, 0xfe, 0xc8, 0x5a, 0x81, 0xbf, 0x7c, 0x48, 0x44, 0x70, 0x46, 0xd5, 0x2f, 0x4d}}
 	return a, nil
 }
 
@@ -178,7 +178,7 @@ func serverInterruptGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9c\x57\x41\x6f\xdb\x38\x13\x3d\x8b\xbf\x62\x3e\xa1\x07\xe9\x83\x43\xdd\x8b\xf6\x90\x3a\xe9\x36\x40\x9b\x1a\x89\xb1\x7b\x5c\xd0\xd2\x58\x26\x4a\x93\x2a\x49\xd9\xe9\x0a\xfa\xef\x8b\x21\x25\xd9\xae\x53\x6f\x93\x4b\x2c\x91\xc3\xc7\x37\xef\xcd\x90\x4a\x51\xc0\xdc\x54\x08\x35\x6a\xb4\xc2\x63\x05\xab\x1f\xb0\x12\xd6\x68\x0e\x37\x5f\xe1\xfe\xeb\x12\x6e\x6f\xee\x96\x9c\x15\x05\x3c\xa0\x6d\xb5\x96\xba\x8e\x01\xb0\x97\x4a\x81\xd9\xa1\xdd\x5b\xe9\x11\xfc\x46\x3a\x58\x4b\x85\x21\xf8\x4f\xb4\x4e\x1a\xfd\x16\xba\x8e\x0f\xcf\x7d\x7f\x34\x01\x37\xc2\xe3\xf1\x2c\xbd\xf7\x3d\x63\x8d\x28\xbf\x89\x1a\xc1\xa1\xdd\xa1\x65\x4c\x6e\x1b\x63\x3d\x64\x2c\x49\x95\xa9\x53\x96\xa4\x1a\xfd\xf0\x53\x6c\xbc\x6f\x8e\x9f\x8b\xa6\xb1\x66\x4d\x23\xb6\xd5\x5e\x6e\x31\x65\x2c\xe9\x3a\xb9\x06\xfc\x0e\x7c\x6e\xf4\x5a\xd6\x7c\x69\x85\x76\x01\x34\x15\x4a\xa5\x90\x6a\xe1\x5d\x0a\x7d\xcf\x92\xb4\x96\x7e\xd3\xae\x78\x69\xb6\x05\x8d\x5e\x49\x13\x7e\x79\x6d\x52\x02\x42\x5d\x51\xd8\x7f\x22\xd6\xb6\x29\x47\x44\x63\x6a\x85\xbc\x36\x4a\xe8\x9a\x1b\x5b\x17\x61\xf2\x80\xc6\x92\x66\x05\x69\xd7\xf1\xc5\x87\xbb\x90\xeb\x42\xf8\x0d\x5c\xf5\x3d\xa5\xd1\x75\xfc\x74\xb0\x20\x5d\x64\x89\x29\xcb\x19\xdb\x09\x4b\xc2\xfc\x0d\x43\xb6\xfc\xd6\x5a\x63\x69\x40\xa3\x1f\x5e\x72\xc6\x82\xc9\x44\x14\x4a\xa3\xbd\x90\xda\x81\xdf\x20\x58\xfc\xde\x4a\x8b\x15\xac\x25\xaa\xca\xc1\xda\x58\x18\x1d\x16\xa3\xfe\xfe\x47\x83\xe3\x6a\xe7\x6d\x5b\x7a\xe8\x58\xf2\x69\xb9\x5c\x5c\x57\x95\xa5\x21\xa9\x6b\x96\xdc\xe0\xaa\xad\x4f\x46\xfe\x78\x58\xcc\x4f\x06\xee\xaf\x97\x8f\xe7\x6b\x60\x65\x8c\x62\x7d\x20\xf9\xd0\x6a\x70\x5e\x58\xef\x40\x80\xc6\x3d\x90\xa5\x03\x91\x19\xd4\x0f\x8b\xf9\xf4\x22\x74\x05\x02\xaa\x80\x10\xc7\x60\x2f\xfd\x86\xf2\x22\xa4\x46\x38\x87\x15\xa5\x4b\xbc\x29\x58\x99\xba\x46\xcb\xd6\xad\x2e\x69\x9f\xac\x5c\xd7\x43\x5a\x39\x25\x54\x14\x70\xdd\x34\x4a\x96\xc2\x53\x71\x56\x66\x2b\xa4\x66\x09\xea\xaa\x31\x52\x7b\x07\x6f\xdf\xc3\xed\xf8\x92\xe5\x2c\xac\x58\x90\xe3\x53\xa8\xb5\x25\x45\x6d\xc5\x37\xcc\xca\x8d\xd0\x80\xa4\xff\x10\xfa\x18\x39\xde\x69\x8f\xd6\xb6\x8d\x07\x96\xd4\xe6\xf0\x9a\xd1\xea\x21\x34\xca\xa2\xa4\xf3\xd4\x93\x2c\x91\x6b\x28\xd7\x35\x8f\xc3\x1d\x4b\x68\x21\xa5\x91\x05\xe2\x49\xa2\x4c\xcd\x17\x56\x6a\xaf\x74\x96\xfa\xb1\x12\xd3\x19\xa4\x41\x1e\x7a\x10\x55\x65\xd3\xd9\x01\x86\x6c\xa0\xdd\x92\x64\x4b\x94\x49\x66\x7e\x8f\xfb\x40\xf2\x4b\xfb\x94\xe5\x61\x8a\x7f\x12\xba\x52\x98\xa5\x45\x00\x8a\xbd\x55\xa4\xb3\x18\x1f\x27\xed\x47\x62\x12\x66\xf8\x9d\xae\xf0\x29\xbf\xb4\xb6\xdc\x56\x4a\x6a\xfc\x35\xc4\x3c\x06\x5c\x04\xa1\x3f\x52\x5d\x00\x59\xc4\x80\x8b\x20\xee\xc7\x76\x65\xd4\xaf\x31\x1e\xc3\xfc\x45\x08\x6f\x45\x79\x81\xc5\x92\xa6\xf3\xa8\x72\xa8\x8d\x77\x57\x31\xf4\x73\x70\xf6\x5a\x57\x41\xee\xec\xc4\x94\x19\x6c\x69\xcb\x9e\x1c\x18\xcf\x19\x4e\xcd\xf6\x09\x55\x83\x96\x7f\x41\xbf\x31\x95\xa3\x83\xa5\x28\x80\x26\x60\x72\x7c\xaa\x94\xa9\x39\xff\xf7\x1e\xd2\xf4\x65\x25\x43\x6b\x7f\xaa\x98\x11\x2e\x68\xb1\xa1\x7a\x69\x56\xfc\x8b\xf8\x86\x81\x57\xcc\x3b\x9b\x1a\x65\x16\x58\xc5\x72\xff\xda\x50\x33\xb9\x2c\xe7\x9c\xe7\xbf\xa3\xc3\xb8\xd5\x0c\x36\xa7\x32\xbc\xfc\xdc\x2d\x8a\x78\x60\x9c\xcb\x33\x1d\x4c\xaf\x90\x87\x20\xd3\xd9\xb1\x3a\x23\x5a\xc8\x4f\xe9\x19\x75\x3d\x69\x44\x07\x70\xcc\x30\x4b\x7d\xd9\x3c\x17\x4d\xb9\xd8\x40\x43\x4b\x15\x77\x9e\x14\x42\x6b\xc3\xbb\x45\xdf\x5a\x4d\x8f\x7d\xa8\x24\x67\x77\x47\x0e\x10\x5c\x94\xfa\xd8\x80\xc3\xe8\x99\x01\xe1\x1c\x23\x91\xa6\x76\xb7\xb1\xd9\x9b\x15\x7f\xc0\x9a\xf8\xda\xae\xe3\x8f\xf1\x8e\xe1\xf7\x62\x8b\x7d\x3f\xc4\xb9\x19\x38\xbb\x3b\x2d\x68\xc7\xa3\x79\x4a\xbf\xce\xaf\xc3\xcd\x5b\x14\x40\x17\xc4\x33\x7e\x4d\xf7\xc6\x2b\xfc\xa2\xb5\xa7\x7e\x8d\x68\x21\xeb\xd2\xe8\x23\xc7\xe8\x9e\x9f\x1b\xad\xb1\xf4\xd9\x59\xe8\x4b\xcd\x22\x74\x65\x1c\x12\x20\xa1\x07\xbe\x25\xfc\x7f\xda\x65\xe0\x9e\x94\x7c\x4e\x71\xd1\x86\xb0\x6e\xbc\xcc\x1f\xd1\x7f\x94\x5a\x28\xf9\x0f\xda\x2c\x52\x9d\x20\xf3\x67\xaa\x81\xf8\x9e\x57\x43\x18\x6d\x57\xae\xb4\x72\xf5\x7c\x4b\x42\x40\x08\x2b\x29\x78\xd8\x2a\x78\xfd\xaa\xc4\x7f\x2e\x83\x60\xee\xed\x93\xf4\xec\xd4\x29\x7c\x92\x64\xd2\xbb\xab\x78\xf9\xf5\x2c\xde\xce\xf7\xb8\x3f\xdc\xb4\x6e\x57\x12\xb9\x5f\xd4\x64\x4e\x73\x53\xf0\x70\x8f\x7f\x68\x9d\xd4\xe8\xdc\x74\x33\x13\xc6\x7b\x18\xbe\x9b\xf8\x5f\x56\x34\x03\x16\xa1\xe7\x91\xdd\x80\x31\xad\x19\xbe\xac\xba\xce\x0a\x5d\x23\xbc\x91\xa4\xf3\xc4\x61\x38\x86\xe9\x7b\x8c\x25\x49\xd7\x2d\xcd\x67\xb3\x47\x0b\x6f\xe4\x40\x6f\xc2\x9b\xcc\xe9\xba\xb3\xc9\x61\xfb\xa9\x5b\xc8\xd3\x93\x0f\x8e\xe3\xe4\xba\xdf\x26\x73\xb6\xcf\x5b\x00\x80\x0b\x24\x67\x47\x1c\x62\x27\x92\x46\xe0\x50\x61\x49\xff\x11\x1c\x04\x0e\x9f\x58\x5b\x59\x55\x0a\xf7\xc2\xa2\x3b\xe6\x7b\xaa\xf0\xc1\xc1\x29\x82\xd2\x8b\x85\x02\xd3\x18\xeb\xd9\xbf\x01\x00\x00\xff\xff\xbf\x27\xcc\x30\x82\x0c\x00\x00")
+var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9d\x56\x4d\x6f\xdb\x38\x10\x3d\x4b\xbf\x82\x15\x7a\x90\x0b\x87\xba\x07\xcd\x21\x75\xd2\x4d\x80\x4d\x62\x24\xc6\xee\x71\x41\x4b\xb4\x4c\x94\x22\x55\x92\xca\xc7\x1a\xfe\xef\x3b\x43\x4a\xb4\xdc\x38\xde\x26\x39\x44\x16\x39\x7c\x7c\xf3\xde\x90\xa3\xa2\x20\x33\x5d\x71\x52\x73\xc5\x0d\x73\xbc\x22\xcb\x17\xb2\x64\x46\x2b\x4a\x2e\xee\xc8\xed\xdd\x82\x5c\x5e\x5c\x2f\x68\x5a\x14\xe4\x9e\x9b\x4e\x29\xa1\xea\x10\x40\x9e\x84\x94\x44\x3f\x72\xf3\x64\x84\xe3\xc4\xad\x85\x25\x2b\x21\xb9\x0f\xfe\x8b\x1b\x2b\xb4\x3a\x25\x9b\x0d\xed\x7f\x6f\xb7\xa3\x09\x72\x01\xbb\x8d\x67\xf1\x1d\x22\xd2\x96\x95\x3f\x58\xcd\x89\xe5\x06\xa0\xd3\x54\x34\xad\x36\x8e\xe4\x69\x92\x49\x5d\x67\xf0\x50\xdc\xf5\x8f\x62\xed\x5c\x3b\xfe\x5d\xb4\xad\xd1\x2b\x1c\x01\xaa\x4e\x34\x3c\x4b\xd3\x64\xb3\x11\x2b\xc2\x7f\x12\x3a\xd3\x6a\x25\x6a\xba\x30\x4c\x59\x0f\x9a\x31\x29\x33\x92\x29\xe6\x6c\x46\x60\xf3\x24\xab\x85\x5b\x77\x4b\x5a\xea\xa6\xc0\xd1\x13\xa1\xfd\x93\xd6\x3a\x43\x20\xae\x2a\x0c\xfb\x5f\xc4\xda\xb4\xe5\x80\xa8\x75\x0d\x9a\xd4\x5a\x32\x55\x53\x6d\xea\xc2\x4f\xee\xd0\xd2\xa4\x5d\x92\x0c\x84\x98\x7f\xbb\xf6\xb9\xce\x99\x5b\x93\x93\xed\x16\xd3\x80\xe1\xfd\xc1\x02\x75\x11\x25\x24\x36\x49\xd3\x47\x66\x50\x98\x7f\x48\x9f\x2d\xbd\x34\x46\x1b\x1c\x00\x41\xfa\x17\x08\x2b\xd0\x64\x24\x4a\x4a\xad\x1c\x13\xca\x82\x59\x9c\x18\xfe\xb3\x13\x06\x2c\x5f\x09\x2e\x2b\xf0\x4e\x1b\x32\x38\xcc\x06\xfd\xdd\x4b\xcb\x87\xd5\xd6\x99\xae\x74\x64\x93\x26\x57\x8b\xc5\xfc\xbc\xaa\x0c\x0e\x41\x78\x9a\x5c\xf0\x65\x57\xef\x8d\xfc\x71\x3f\x9f\xed\x0d\xdc\x9e\x2f\x1e\x5e\xaf\x21\x4b\xad\x65\xba\xf5\x24\xef\x3b\x05\x93\xcc\x38\x0b\xfb\x2b\xfe\x44\xd0\xd2\x9e\xc8\x94\xd4\x00\x18\x5f\x98\xaa\x20\xa6\xf2\x08\x61\x0c\xca\x11\x14\x82\xbc\x10\xa9\x65\xd6\x42\x62\x65\xe0\x8d\xc1\x50\x3b\x35\xa4\xb3\xea\x54\x89\xfb\xe4\xe5\xaa\xee\xd3\x9a\x60\x42\xb0\xe6\xbc\x6d\xa5\x28\x99\xc3\xe2\xac\x74\x03\x32\xa5\x09\x38\xd4\x6a\xa1\x80\xd0\xe9\x19\xb9\x1c\x5e\x72\xd0\x14\x57\xcc\xd1\xf1\x18\x6a\x4c\x89\x51\x0d\xfb\xc1\xf3\x72\xcd\x14\xe1\xa8\x7f\x1f\xfa\x10\x38\x5e\x2b\x07\xa3\x5d\xeb\x48\x9a\xd4\x7a\xf7\x9a\xe3\xea\x3e\x34\xc8\x22\x85\x75\x78\x26\xd3\x04\x4a\x0d\xc8\xd2\x30\x0c\x54\x71\x21\xa6\x91\x7b\xe2\x49\x02\x99\xd1\x39\x28\xea\xa4\xca\x33\x37\x54\x62\x36\x25\x99\x97\x07\x7f\x30\x90\x1d\x9e\x11\x06\x6d\xc0\xdd\x92\xa4\x41\xca\x28\x33\xbd\xe5\x4f\x9e\xe4\x4d\xf7\x0c\xf9\xe1\x14\xbd\x02\xe1\x24\xcf\xb3\xc2\x03\x85\xb3\x55\x00\x8e\x8f\x0f\x93\xe6\x3b\x32\xf1\x33\xf4\x5a\x55\xfc\x79\x72\x6c\x6d\xd9\x54\x52\x28\xfe\x36\xc4\x2c\x04\x1c\x05\xc1\x7f\x70\xcb\xbc\x0d\x32\x0f\x01\x47\x41\xec\x4b\xb3\xd4\xf2\x6d\x8c\x07\x3f\x7f\x14\x02\xa4\x2e\x8f\xb0\x58\xe0\xf4\x24\xa8\xec\x6b\xe3\xeb\x49\x08\xfd\xd3\x3b\x7b\xae\x2a\x2f\x77\xbe\x67\xca\x94\x34\xb8\xe5\x16\x1d\x18\xee\x19\x8a\x87\xed\x8a\xcb\x96\x1b\x7a\xc3\xdd\x5a\x57\x16\x2f\x16\xa8\x14\x9c\x20\xd1\xf1\x58\x29\xf1\x70\x7e\x3a\x23\x59\xf6\xbe\x92\xc1\xb5\xbf\x54\xcc\x00\xe7\xb5\x58\x63\xbd\xb4\x4b\x7a\x03\x55\xee\x79\x85\xbc\xf3\x78\x50\xa6\x9e\x55\x28\xf7\xbb\x16\x0f\x13\x1c\x17\x4a\xe9\xe4\x77\x74\x18\xb6\x02\x51\xf7\x65\x78\xff\xbd\x0b\xf2\xf8\x0b\xe3\xb5\x3c\xf1\x62\xfa\x80\x3c\x08\x99\x4d\xc7\xea\x0c\x68\x3e\x3f\xa9\xa6\x78\xea\x51\x23\xbc\x80\x43\x86\x00\x51\xb6\x87\xa2\x31\x17\xe3\x69\x28\x21\xc3\xce\x51\x21\x78\xfa\x77\xc3\x5d\x67\x14\xfe\xdc\xfa\x4a\xb2\xe6\x71\xe4\x00\xc2\x05\xa9\xc7\x06\xec\x46\x5f\x19\xe0\xef\x31\x14\x29\x1e\x77\x13\x0e\x3b\x00\xde\xf3\x1a\xf9\x1a\x68\x39\x0f\xa1\xc7\xd0\x5b\xd6\x40\x4f\xee\xe3\x00\x19\x76\xdf\x2f\x68\x4b\x83\x79\x52\x7d\xcc\xaf\x5d\xe7\x05\xbf\xb0\x41\x1c\xf0\x2b\xf6\x8d\x0f\xf8\x85\x6b\xf7\xfd\x1a\xd0\x7c\xd6\xd0\x1f\x46\x8e\x61\x9f\x07\xa2\x8a\x97\x2e\x7f\x15\xfa\x5e\xb3\x10\x5d\x6a\xcb\x11\x10\xd1\x3d\xdf\x92\x7c\x89\xbb\xf4\xdc\x93\x92\xce\x30\x2e\xd8\xe0\xd7\x0d\xcd\xfc\x81\xbb\xef\x42\x31\x29\xfe\x05\xf5\x03\xd5\x08\x39\x39\x50\x0d\xc8\xf7\x75\x35\xf8\xd1\x6e\x69\x4b\x23\x96\x87\x8f\x24\xf1\x08\x7e\x25\x06\xf7\x5b\x79\xaf\x3f\x94\xf8\xaf\x65\xe0\xcd\xbd\x7c\x16\x60\xe9\x9e\x53\x1c\x86\xc0\x95\xaf\x27\xa1\xf9\x41\xa0\xef\xce\x50\x99\xbb\x4e\x6b\x1f\x4b\x24\xf7\x46\x4d\x4e\x70\x2e\x06\xf7\x7d\xfc\x5b\x67\xa1\x85\x58\x1b\x3b\x33\x62\x9c\x91\xfe\xbb\x89\xfe\x6d\x58\xdb\x63\x21\xfa\x24\xb0\xeb\x31\xe2\x9a\xfe\xcb\x6a\xb3\x81\x6a\x82\x8f\xd1\xcf\x02\x75\x8e\x1c\xfa\x6b\x18\xbf\xc7\x20\xdf\x41\xec\xcd\xe6\xb3\xe8\xe9\x91\x68\xca\x68\x70\xd8\xa4\xdf\x36\x9e\x12\xf4\x72\xef\x43\x63\x9c\xd4\xe6\x37\x49\x1c\xd8\xe7\x94\xc0\xdf\x01\x72\xd3\xd1\xde\xe1\xe4\xa1\x26\x20\x90\x84\xca\x87\xaf\xa6\x9d\xa0\xfe\x93\xaa\x11\x15\x5c\xf1\x4f\xcc\x70\x3b\xe6\xb9\xaf\xe8\xce\xb1\x18\x81\x69\x85\xc2\x88\x24\x2c\x98\xfc\x1f\xff\x78\xa5\xd2\x72\x0c\x00\x00")
 
 func serverServerGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -193,8 +193,8 @@ func serverServerGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3202, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xb7, 0xbe, 0x7f, 0xc4, 0xf4, 0x24, 0x4a, 0xd, 0x74, 0xa5, 0xcb, 0x3a, 0x7e, 0x5e, 0xda, 0xd5, 0x13, 0x5f, 0xc, 0x2a, 0x75, 0xd0, 0x4a, 0x3a, 0x15, 0xb3, 0xbd, 0xcb, 0x36, 0x4d, 0x52, 0xc0}}
+	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3186, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x22, 0x4b, 0x84, 0x8c, 0xef, 0x9d, 0xb4, 0x1d, 0xd1, 0x7, 0x43, 0xda, 0x37, 0x33, 0xe4, 0x3, 0x6e, 0x34, 0xd6, 0xdd, 0x28, 0xec, 0x2, 0xd9, 0x66, 0xe9, 0xc, 0xb0, 0xae, 0xe4, 0xc0, 0x34}}
 	return a, nil
 }
 
-- 
2.43.0


From 6988b689732540fceceaaaaeb2f31457dcdf841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 24/33] fix: unset messages in the query arrive unset

---
 gengokit/httptransport/httptransport.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 735f620..7694c30 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -427,17 +427,17 @@ func createDecodeConvertFunc(f Field) (string, bool) {
 		// type so that the variable LocalName is declared as a pointer.
 
 		// var PageBaseStatsList *PageBase
-		// PageBaseStatsList = &PageBase{}
-		// err = json.Unmarshal([]byte(PageBaseStatsListStr), PageBaseStatsList)
+		// err = json.Unmarshal([]byte(PageBaseStatsListStr), &PageBaseStatsList)
 		// if err != nil {
 		// 	return nil, errors.Wrapf(err, "couldn't decode PageBaseStatsList from %v", PageBaseStatsListStr)
 		// }
 		// req.PageBase = PageBaseStatsList
+		//
+		// A message that is not set is sent as null, which leaves the pointer nil.
 
 		singleCustomTypeUnmarshalTmpl := `
 var {{.LocalName}} {{if .StarExpr -}}*{{- end -}}{{.GoType}}
-{{.LocalName}} = {{if .StarExpr -}}&{{- end -}}{{.GoType}}{}
-err = json.Unmarshal([]byte({{.LocalName}}Str), {{.LocalName}})`
+err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})`
 
 		errorCheckingTmpl := `
 if err != nil {
-- 
2.43.0


From c359696af46949eeb40f5fa64330531f418b2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:31 +0000
Subject: [PATCH 25/33] fix: definitions with other options, empty statements,
 separators and comments are parsed

---
 svcdef/svcparse/parser.go | 107 ++++++++++++++++++++++++++++++++------
 1 file changed, 91 insertions(+), 16 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 6208292..35bd9e5 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/pkg/errors"
 )
@@ -67,6 +68,50 @@ func fastForwardTill(lex *SvcLexer, delim string) error {
 	}
 }
 
+// skipOption moves the lexer past the semicolon which ends an option that has
+// no meaning for http bindings (deprecated, idempotency_level, ...).
+func skipOption(lex *SvcLexer) error {
+	depth := 0
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		switch {
+		case tk == EOF || tk == ILLEGAL:
+			return parserErr{
+				expected: "';' after declaration of an option",
+				line:     lex.GetLineNumber(),
+				val:      val,
+			}
+		case tk == OPEN_BRACE:
+			depth++
+		case tk == CLOSE_BRACE:
+			depth--
+		case tk == SYMBOL && val == ";" && depth <= 0:
+			return nil
+		}
+	}
+}
+
+// isHTTPOption reads the name of an option and tells whether it is
+// (google.api.http), or a part of it.
+func isHTTPOption(lex *SvcLexer) bool {
+	good_position := lex.GetPosition()
+	tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+	if tk != OPEN_PAREN {
+		lex.UnGetToPosition(good_position)
+		return false
+	}
+	name := ""
+	for {
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+		if tk != IDENT && (tk != SYMBOL || val != ".") {
+			break
+		}
+		name += val
+	}
+	lex.UnGetToPosition(good_position)
+	return strings.TrimPrefix(name, ".") == "google.api.http"
+}
+
 // Each of the following structs exists as a distillation of a corresponding
 // deftree struct, only including what's necessary for this parser. The reason
 // we define these structs instead of using the ones within deftree is because
@@ -164,7 +209,7 @@ type Field struct {
 // ParseService will parse a proto file and return the the struct
 // representation of that service.
 func ParseService(lex *SvcLexer) (*Service, error) {
-	tk, val := lex.GetTokenIgnoreWhitespace()
+	tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk == EOF {
 		return nil, io.ErrUnexpectedEOF
 	}
@@ -178,7 +223,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 
 	toret := &Service{}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -188,7 +233,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 	}
 	toret.Name = val
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_BRACE {
 		return nil, parserErr{
 			expected: "'{'",
@@ -233,6 +278,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// Hit the end of the service definition, so return a nil method
 	case tk == CLOSE_BRACE:
 		return nil, ErrSvcDefEnd
+	// Options of the service, and empty statements, are no methods
+	case tk == IDENT && val == "option":
+		return nil, skipOption(lex)
+	case tk == SYMBOL && val == ";":
+		return nil, nil
 	case tk != IDENT || val != "rpc":
 		return nil, parserErr{
 			expected: "identifier 'rpc'",
@@ -244,7 +294,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	toret := &Method{}
 	toret.Description = desc
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -257,7 +307,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// TODO Add some kind of lookup of the existing messages instead of
 	// creating a new message
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -266,11 +316,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	// A fully qualified type starts with a dot (.google.protobuf.Struct)
 	if tk != IDENT && val != "." {
@@ -286,7 +336,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -300,7 +350,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT || val != "returns" {
 		return nil, parserErr{
 			expected: "'returns' keyword",
@@ -309,7 +359,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -318,11 +368,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	// A fully qualified type starts with a dot (.google.protobuf.Struct)
 	if tk != IDENT && val != "." {
@@ -338,7 +388,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -352,7 +402,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if val == ";" {
 		// No http options defined
 		return nil, nil
@@ -385,7 +435,19 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
+	// Other options may follow
 	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	for tk == SYMBOL && val == ";" || tk == IDENT && val == "option" {
+		if val == "option" {
+			if isHTTPOption(lex) {
+				break
+			}
+			if err := skipOption(lex); err != nil {
+				return nil, err
+			}
+		}
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	}
 	if tk != CLOSE_BRACE {
 		return nil, parserErr{
 			expected: "'}' after declaration of http options marking end of rpc declarations",
@@ -423,6 +485,14 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 				line:     lex.GetLineNumber(),
 				val:      tk.String(),
 			}
+		} else if val == "option" && !isHTTPOption(lex) {
+			if err := skipOption(lex); err != nil {
+				return nil, err
+			}
+			new_opt.Description = ""
+			tk, val = lex.GetTokenIgnoreWhitespace()
+		} else if tk == SYMBOL && val == ";" {
+			tk, val = lex.GetTokenIgnoreWhitespace()
 		} else {
 			break
 		}
@@ -448,6 +518,8 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 				return append(rv, new_opt), nil
 			} else if tk == COMMENT {
 				good_position = lex.GetPosition()
+			} else if tk == SYMBOL && (val == "," || val == ";") {
+				good_position = lex.GetPosition()
 			} else if val == "additional_bindings" {
 				lex.UnGetToPosition(good_position)
 				more_bindings, err := ParseHttpBindings(lex)
@@ -511,6 +583,9 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 					line:     lex.GetLineNumber(),
 					val:      val,
 				}
+			} else if tk == SYMBOL && (val == "," || val == ";") {
+				// Fields may be separated
+				tk, val = lex.GetTokenIgnoreWhitespace()
 			} else {
 				break
 			}
@@ -546,7 +621,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 		field.Kind = val
 		field.Name = val
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != SYMBOL || val != ":" {
 			return nil, nil, parserErr{
 				expected: "symbol ':'",
@@ -555,7 +630,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != STRING_LITERAL {
 			return nil, nil, parserErr{
 				expected: "string literal",
-- 
2.43.0


From 1698969dadcc03d10a0281581bc1a7ad0775875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:34 +0000
Subject: [PATCH 26/33] fix: strings in single quotes are parsed

---
 svcdef/svcparse/lexer.go   |  2 +-
 svcdef/svcparse/parser.go  | 26 +++++++++++++++++++++++++-
 svcdef/svcparse/scanner.go |  5 +++--
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index ea08827..6116c43 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -37,7 +37,7 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 		return &TokenGroup{WHITESPACE, string(unit), scn.GetLineNumber()}
 	case isIdent(unit[0]):
 		return &TokenGroup{IDENT, string(unit), scn.GetLineNumber()}
-	case unit[0] == '"':
+	case unit[0] == '"' || unit[0] == '\'':
 		return &TokenGroup{STRING_LITERAL, string(unit), scn.GetLineNumber()}
 	case unit[0] == '(':
 		return &TokenGroup{OPEN_PAREN, string(unit), scn.GetLineNumber()}
diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 35bd9e5..0a903de 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -112,6 +112,30 @@ func isHTTPOption(lex *SvcLexer) bool {
 	return strings.TrimPrefix(name, ".") == "google.api.http"
 }
 
+// unquote gives the value of a string literal, which may be enclosed in single
+// or double quotes.
+func unquote(literal string) (string, error) {
+	if len(literal) < 2 {
+		return "", strconv.ErrSyntax
+	}
+	buf := []byte{'"'}
+	inner := literal[1 : len(literal)-1]
+	for i := 0; i < len(inner); i++ {
+		switch {
+		case inner[i] == '\\' && i+1 < len(inner):
+			i++
+			// Escapes which Go knows in rune literals only, or not at all
+			if inner[i] != '\'' && inner[i] != '?' {
+				buf = append(buf, '\\')
+			}
+		case inner[i] == '"':
+			buf = append(buf, '\\')
+		}
+		buf = append(buf, inner[i])
+	}
+	return strconv.Unquote(string(append(buf, '"')))
+}
+
 // Each of the following structs exists as a distillation of a corresponding
 // deftree struct, only including what's necessary for this parser. The reason
 // we define these structs instead of using the ones within deftree is because
@@ -639,7 +663,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		noqoute, err := strconv.Unquote(val)
+		noqoute, err := unquote(val)
 		if err != nil {
 			return nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)
 		}
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 78b327b..bb13d2f 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -164,8 +164,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			rr.UnreadRune()
 			return setReturn(), nil
 		}
-	case ch == '"':
+	case ch == '"' || ch == '\'':
 		// Handle strings
+		quote := ch
 		for {
 			ch, err = rr.ReadRune()
 			if err != nil {
@@ -179,7 +180,7 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				} else {
 					buf = append(buf, ch)
 				}
-			} else if ch == '"' {
+			} else if ch == quote {
 				// Closing quotation
 				buf = append(buf, ch)
 				return setReturn(), nil
-- 
2.43.0


From 21d3802c2e9e0f963915b1d32667aef694875c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:36 +0000
Subject: [PATCH 27/33] fix: unknown transports are refused

---
 cmd/baron/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 77afc40..ff3c2af 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -170,6 +170,12 @@ func parseInput() (*config.Config, error) {
 		Svcdef:    *svcdefFlag,
 	}
 
+	switch cfg.Transport {
+	case "all", "grpc", "nats", "http":
+	default:
+		return nil, errors.Errorf("unknown transport protocol %q", cfg.Transport)
+	}
+
 	// GOPATH
 	cfg.GoPath = filepath.SplitList(os.Getenv("GOPATH"))
 	if len(cfg.GoPath) == 0 {
-- 
2.43.0


From af89edda64ef45205734892a7df4716941ea55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:38 +0000
Subject: [PATCH 28/33] fix: what is generated for a service without methods
 compiles

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  |  2 ++
 .../NAME-service/cmd/NAME-client/main.go.tmpl |  8 +++++
 .../NAME-service/server/server.go.tmpl        |  1 +
 .../NAME-service/service/service.go.tmpl      |  2 ++
 gengokit/template/template.go                 | 32 +++++++++----------
 5 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index ad01a64..4c71119 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -136,6 +136,7 @@ func (e *Endpoints) WrapAllExcept(middleware endpoint.Middleware, excluded ...st
 	}
 
 	for inc := range included {
+		_ = inc // a service may have no methods
 		{{- range $i := .Service.Methods}}
 			if inc == "{{$i.Name}}" {
 				e.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)
@@ -168,6 +169,7 @@ func (e *Endpoints) WrapAllLabeledExcept(middleware func(string, endpoint.Endpoi
 	}
 
 	for inc := range included {
+		_ = inc // a service may have no methods
 		{{- range $i := .Service.Methods}}
 			if inc == "{{$i.Name}}" {
 				e.{{$i.Name}}Endpoint = middleware("{{$i.Name}}", e.{{$i.Name}}Endpoint)
diff --git a/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl b/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
index 71beb66..d841c60 100644
--- a/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
+++ b/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
@@ -14,6 +14,12 @@ import (
 	{{end}}
 )
 
+// A service may have no methods
+var (
+	_ = context.Background
+	_ pb.Endpoints
+)
+
 var (
 	grpcAddr string
 	httpAddr string
@@ -46,6 +52,7 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	_ = baronGRPCClient
 	{{range $i := $te.Service.Methods}}
 	// GRPC.{{$te.Service.Name}}.{{$i.Name}}
 	{
@@ -97,6 +104,7 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	_ = baronNATSClient
 	{{range $i := $te.Service.Methods}}
 	// NATS.{{$te.Service.Name}}.{{$i.Name}}
 	{
diff --git a/gengokit/template/NAME-service/server/server.go.tmpl b/gengokit/template/NAME-service/server/server.go.tmpl
index a4dcf54..40a059b 100644
--- a/gengokit/template/NAME-service/server/server.go.tmpl
+++ b/gengokit/template/NAME-service/server/server.go.tmpl
@@ -42,6 +42,7 @@ type Config struct {
 func Run(cfg Config) {
 	// Application domain
 	endpoints := Endpoints()
+	_ = endpoints // served by the transports below
 
 	// Port domain
 	errc := make(chan error)
diff --git a/gengokit/template/NAME-service/service/service.go.tmpl b/gengokit/template/NAME-service/service/service.go.tmpl
index 709cbdf..b1b0330 100644
--- a/gengokit/template/NAME-service/service/service.go.tmpl
+++ b/gengokit/template/NAME-service/service/service.go.tmpl
@@ -6,6 +6,8 @@ import (
 	pb "{{.PBImportPath -}}"
 )
 
+var _ context.Context
+
 func NewService() *{{ToLower .Service.Name}}Service {
 	return &{{ToLower .Service.Name}}Service{}
 }
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 25d612d..dbb76f9 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,13 +1,13 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.150kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.236kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
-// NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
+// NAME-service/cmd/NAME-client/main.go.tmpl (3.047kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
 // NAME-service/server/interrupt.go.tmpl (332B)
-// NAME-service/server/server.go.tmpl (3.186kB)
+// NAME-service/server/server.go.tmpl (3.235kB)
 // NAME-service/server/wrapper.go.tmpl (1.078kB)
-// NAME-service/service/service.go.tmpl (572B)
+// NAME-service/service/service.go.tmpl (595B)
 // NAME-service/service/service_methods.go.tmpl (291B)
 // NAME-service/service/wrapper.go.tmpl (1.366kB)
 
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\x1c\xc9\x75\xe7\xaa\xaf\x88\x29\x68\xc8\xcc\x76\x75\x16\x6d\xc0\x86\xdc\x83\x36\xc0\xa5\x67\x86\xd2\x70\x11\xbb\x39\x73\x20\x08\x2a\xab\x2a\xaa\x2b\xd5\x59\x99\xc9\x5c\x7a\x51\xbb\x2f\xbe\x8c\x01\x1b\x30\xe0\x93\x0f\x86\xe0\x93\xaf\x86\xcf\xfe\x1e\x8d\xa1\xbf\xf0\x5b\x62\xcb\xb5\xaa\x9a\xb4\x21\x08\x26\x24\x32\x2b\x33\xe2\xc5\x8b\x17\x2f\xde\x1e\x31\xb3\x99\x78\x9a\x2e\xa5\x38\x97\x89\xcc\xc3\x52\x2e\xc5\xfc\x46\xcc\xc3\x3c\x4d\x02\xf1\xec\x95\x78\xf9\xea\x4c\x9c\x3c\x7b\x7e\x16\x8c\x67\x33\xf1\x46\xe6\x55\x92\x44\xc9\x39\x37\x10\x57\x51\x1c\x8b\xf4\x52\xe6\x57\x79\x54\x4a\x51\xae\xa3\x42\xac\xa2\x58\x52\xe3\xef\x65\x5e\x44\x69\x72\x24\x6e\x6f\x03\xf5\x7c\x77\xe7\x7c\x10\xcf\x60\x34\xf7\x2b\xfe\x86\x16\xe3\x2c\x5c\x5c\x84\xe7\x12\xbf\xbc\xe6\xc7\x97\xe1\x86\xbe\x40\xe7\x33\x3d\x86\x58\xa4\x49\x19\x46\x49\x21\x36\xb2\x5c\xa7\xcb\x42\x94\xa9\xd8\x84\x17\x52\x44\xc9\x32\xba\x8c\x96\x55\x18\x0b\x99\x2c\xb3\x34\x4a\x4a\xe8\x92\xa7\x1b\x51\xc8\xfc\x32\x5a\xc8\x62\x8a\x90\x72\xf9\xb1\x92\x45\x29\xc2\x64\x09\xcf\x45\x96\x26\x05\x4c\xe1\x26\x93\x04\x09\x9b\xe2\x8c\x52\x78\x69\xa0\x4c\x45\x58\x88\x2b\x09\x93\x86\x7f\x65\xb2\x00\xba\xe5\x05\x02\x40\x78\x4b\xa9\x7e\xaf\xd2\x5c\x75\x24\x68\x53\x7a\x11\x22\xa5\x56\x22\xad\x72\x51\x54\x59\x96\xe6\x48\xe9\x32\x0f\x93\x02\x9f\x71\xb8\x28\x8c\xa3\xdf\x86\x25\x10\x02\xa1\x41\x9f\x4d\x58\x16\xc1\x78\x1c\x6d\xa8\x85\x37\x1e\x4d\xe6\x37\xa5\x2c\x26\xf0\x80\x73\x97\xd7\x25\x3e\x12\x1a\xb0\x24\xb3\xdf\x14\x69\x82\x2f\x56\x1b\x7a\x1f\xa5\xfc\xf7\x2c\x4a\xab\x32\x8a\xf1\x47\x22\xcb\xd9\xba\x2c\x33\xfd\x5c\xe5\xf4\xba\x28\x73\x80\x77\xa9\x1e\x01\x14\x0c\x01\xcf\xe7\x51\xb9\xae\xe6\xc1\x22\xdd\xcc\xce\xd3\xc3\x8b\xa8\x9c\xe1\xff\x35\x2d\xa0\x75\x98\xdc\x64\x73\x31\x39\x4f\xd3\x73\x58\xf2\xf3\x34\x0e\x93\xf3\x20\xcd\xcf\x67\x59\x9e\x96\xe9\xbc\x5a\xcd\x68\xfe\xb3\x8b\x24\xbd\x4a\x66\xd4\x1a\x7a\x2d\xab\x9c\x26\xb9\x47\x57\xdb\x05\xfa\xcb\x4d\x56\xee\x33\xae\x6a\x0f\x3d\x57\x91\x8c\x97\x9b\xb0\xb8\xd8\xa3\xb7\xd3\x07\x20\x00\x79\xaa\x45\xb9\x47\x77\xdd\x01\xfa\x96\xd1\x06\xb8\x2d\xdc\x64\x7b\x74\x77\xfa\x00\x84\xab\x3c\xcc\x32\x60\xb0\x3d\x00\xd8\x2e\xed\x25\xcd\x61\xf3\x86\xb3\x4d\x75\x3d\xa9\x7f\xc9\x2e\xce\x67\x32\xcf\xd3\x9c\x38\x6d\x60\x20\xc3\x79\xf4\x46\xb3\xdf\x40\x07\x7a\x40\x44\x6e\x6f\x0f\x45\xb4\x12\xf2\xa3\x08\x9e\xa6\xc9\x2a\x3a\x0f\xce\xcc\x4e\x98\xc0\x4e\x99\x88\x49\x02\xcc\x3f\x11\xb0\xe9\x6b\xb8\xe1\xdb\x43\xe0\x69\xfc\x17\x86\x98\x30\x28\xe0\x49\x6c\xb8\x03\xd4\xf3\x3c\x5b\x68\xa8\x2d\x3c\xe9\x63\xef\x97\x19\x88\x99\x70\x19\x96\x61\x73\xd0\x9d\x87\xc4\x27\xbb\xe3\x7b\xf6\x97\x69\xa0\xd1\x71\xc6\xc2\xbd\xbb\x07\x00\xb5\xd5\xf7\x22\x36\x3e\xed\x31\x04\x75\x74\x71\xf4\xc7\xe3\xf1\x65\x98\xa3\xb4\xfa\x20\x8e\x05\xc8\xa2\xe0\x34\x03\x99\x52\xf2\x6f\x12\x60\x80\xc6\x26\x0b\x73\xc9\xaf\x94\xf4\x09\x1e\x97\x69\xc4\x6f\x6a\xd3\x0c\x5e\xca\xab\x53\x94\xc5\x39\x7f\x64\x69\x16\xbc\x4c\xb3\xa7\x31\x88\x58\xf3\x16\x80\x66\x37\xfc\x83\x99\x37\xf8\x01\x78\x7f\x3c\x02\x51\xaa\xd6\x53\xb3\x21\x4b\x65\x6c\x4a\x22\x29\x78\x9c\x50\x3f\x2b\x64\x82\x67\xea\x11\x5f\x2b\xf1\x11\x9c\xe0\xbf\xf8\x42\x6f\xe9\xe0\x94\x1e\xf0\x95\xb3\x4d\x83\x33\xfd\x8c\x1f\xec\xf6\xc3\xd6\xb0\x55\xbe\x0f\xe3\x8a\xe6\xed\xc8\x95\xe0\x6b\x7c\x7e\x01\xcf\x48\xbd\xd9\xc1\x4e\x7f\xc4\x89\xd1\x6c\x07\x3b\xff\x99\x91\x06\x7d\x9e\x88\x90\xd5\x5b\x3e\x15\x51\xf9\xb0\x10\x55\x21\x57\x55\x4c\x6a\x6a\x55\x25\x0b\x9c\x3a\xe8\xc0\x75\x58\x8a\x44\xa2\x96\x4a\x45\x9a\x91\x6d\x20\x52\xec\x0b\xcf\x87\x5a\x0d\x20\xc0\x79\x58\x44\x45\x20\xbe\x86\xee\xf2\x1a\x66\x1e\xcb\xa9\xb8\x49\x2b\xb1\x89\xce\xd7\xa5\xc8\xc2\x02\x55\xa4\x83\x30\xc0\x0b\xcd\x40\x3c\x0e\xac\xcd\xb2\x02\xc5\x8c\xe0\xa0\x2d\x72\x40\xf0\x2d\xe8\xd5\x18\x71\xbc\x02\x26\x14\x32\x5c\xac\x95\xa6\x17\x9e\x1e\xdd\x87\x6f\x39\x60\x58\x65\x0c\xb4\xc8\xe4\x22\x5a\x45\x0b\x18\xb4\x5c\x07\xc2\x7b\x4e\xf8\x81\xc1\x00\xf0\xe7\xe1\x3c\xbe\x81\x36\x9b\x08\x96\x87\xac\x04\xd0\xd8\x45\x74\x9e\x60\xd7\x28\xb9\x4c\x2f\x50\xdd\x4b\x71\xca\x36\x82\xb1\x2a\x08\x45\x89\x70\xec\x0c\x98\x07\x10\x84\xa6\x64\xe0\x43\x0b\x43\xdd\x45\x1c\xc9\xa4\xac\x53\x17\x46\x59\xa4\x71\x2c\xa9\x9f\x36\x50\x00\x23\x60\x7e\x06\x07\xf3\xb0\xe6\x0a\xfc\x05\x13\x42\x80\x05\xb0\x4d\xcc\xa6\x04\xd3\x2a\x42\x0a\x6f\x24\x51\xd2\xc1\x17\x7a\xc8\x7c\x15\x2e\x64\xdf\x4a\x20\x30\x33\x58\xb7\x91\x54\xe1\x60\xa2\x2e\x41\x70\x03\x3e\x55\xf3\x01\x39\x30\x8f\x12\xa2\xd3\x46\xa1\xe8\x2c\xec\x54\x99\x52\x65\x95\x27\x30\x75\x9c\x31\x22\xb8\x80\x69\xca\x1c\x2d\xa6\x50\x23\x1b\x8c\x69\x3a\x2d\x82\xde\x8e\x47\x6f\x13\x33\x3f\xb9\x04\x0b\x50\xf7\x60\x13\x50\x49\x82\xdb\x5b\x40\x11\x2c\xc4\x9f\x45\xe2\xe8\x58\x98\x36\x2f\x78\xc9\x58\x2c\xff\x2c\x52\x7d\xf4\x28\x02\xfe\xe8\xa9\x06\xfa\x25\x80\x62\xc1\xc5\xd6\xa5\xc1\x68\xfb\x10\xc8\xc0\xc0\x89\xb6\x8b\x2f\x9c\x41\xbd\x45\x79\x2d\x94\x95\x86\x62\x17\xff\x9d\x22\xc3\x1c\xdc\xde\x7e\x93\x62\x1b\x80\x1c\xbc\x61\x13\xf4\x0c\x88\xa1\xfa\xf9\xc2\x6b\xb4\x60\xc3\xd4\x69\x32\x65\x01\xe7\x23\xb5\xb4\xdd\x4a\xef\x10\x51\x19\x74\xcc\x1c\x91\xc1\xc1\xfd\xf1\x08\x15\x01\xb4\xfc\xe2\x58\x24\x51\x8c\x10\x46\x6a\xbd\xe0\x27\x01\x19\x8f\xee\xc6\xfa\x9d\x86\x1e\x6c\xc5\xc9\x9f\x22\x00\x20\xa2\x26\x27\x12\xf3\x05\x6e\x33\x97\xa2\xb4\x91\x7f\x06\x62\x04\x29\x7a\x87\x8d\x0f\x85\x4b\x65\xf8\xd4\x47\x68\x84\xd5\x35\xb3\x02\x89\xee\x74\x73\xd9\xc4\x6f\x2f\x37\xd3\x8c\x26\x87\x60\xbb\x57\x49\x3b\x06\x66\x47\xdd\xe2\xb2\x18\x17\xc1\x79\xcd\x64\xb7\xcb\x01\xb0\x3f\xe2\x44\x14\x84\x16\xdd\x5a\xab\x0d\x5d\x2e\xcd\xda\x15\x41\x83\x81\x08\x15\x6c\xd3\x5e\xb5\xf6\xb2\xe1\xba\xe9\xb7\x97\xbc\x1c\xa3\xbb\x31\x13\x99\xd7\xc4\x5d\x1b\x54\x8e\x8f\xe3\xf8\xe4\x7a\x21\xb3\x92\xf4\x54\xc1\x22\xd6\x50\x8a\x34\x14\xba\x2c\x6a\x6f\xda\xcd\x4a\xcb\x48\xb2\xa9\xc3\x2f\x08\x5e\x44\x4b\x10\xdb\x57\xa0\xdf\xc9\x0b\x7c\x5b\x68\xbf\x10\x9d\xa0\x2c\x8b\x6f\x50\xc4\xa0\xd8\x2c\x11\xf8\xc6\xb4\x26\xbd\x20\x61\xd9\x6e\xcc\xb2\xe1\x7e\x41\x09\x52\x68\xa9\x01\xf0\x5e\x65\xa8\x35\x50\x72\x4e\x1d\xc1\xb5\x00\x39\x34\x97\xa4\x6b\x40\x8c\x42\x37\xf0\x61\x13\x24\x3b\xc0\x84\xf7\xf2\x7a\x11\x57\x4b\xf8\x42\x5e\xe0\x5c\x22\x0a\xac\x9b\x97\x41\x8b\x1a\x9e\xc5\x69\x2a\x26\xa7\x65\x58\x56\xc5\x04\x9e\x5e\x43\xaf\x89\x6f\xf6\xfd\x81\xb3\xf1\xfb\xfa\x8b\x0e\xaa\x4c\x2d\x36\x41\x10\xb0\xc3\x45\xcc\x13\x25\xea\x35\xb0\xc2\x26\xcc\xde\xf1\xa7\xf7\x4c\xfe\xdb\x3b\x5c\xf5\xe6\x86\xe9\x92\x7c\xa3\xd1\xc4\x61\xa3\x09\x38\xd8\x77\x53\xd5\x55\x99\x91\xc0\x01\x23\x5c\x8d\x0f\x88\x0a\xb1\x2b\x81\x34\x68\xdd\x32\xc7\xc1\xe7\xf4\x02\x3f\x6b\xc4\xde\xc9\xeb\xf7\x5f\x89\x2f\xe0\x25\x71\x60\x16\x26\xd1\xc2\xb3\x16\xde\xca\x9b\x9c\x68\x10\x66\x05\x1f\x7e\x59\x3c\x14\xcb\x14\x56\x37\x49\x4b\x18\x02\x94\xef\x57\xb0\x9e\xd2\x5d\x78\xc3\x3b\x64\xd2\x23\x52\xbe\xaf\xf8\x79\x29\x63\x59\x4a\x4f\x63\x40\xdf\xec\x04\xe0\xb5\x45\xdf\x90\x6f\x77\x42\xc1\x24\x11\xc4\xf1\xb1\xa8\x91\x8c\xa7\x37\xea\x14\xa5\x60\x5e\x5a\xcc\xbd\xce\x26\x88\x3b\x21\x5f\x23\x39\x6f\xbb\xef\xc2\x39\xcc\x68\x69\xb9\x81\x43\x28\xe7\xb2\xd4\xbc\x8b\xfc\x6e\xa8\x47\x2c\x7c\xb5\x96\x89\xf9\x9a\x3a\xec\xaa\x80\x31\xd7\x4d\x79\x97\xa9\x8d\x50\x71\x63\xc1\x71\x99\x90\x83\x3b\x60\x17\x81\x51\x03\xff\x90\x99\xe5\x70\xe9\xd5\x3a\x82\x9d\x8f\x5d\x0b\x18\xba\x03\x05\xa5\xc9\x55\x6f\x6d\xc7\xa4\xb9\xd2\xe3\xed\x59\x91\x70\x65\x06\x9e\xb6\xa5\x70\x87\x60\x1e\xf7\xcd\xeb\xde\xb2\xa9\x85\xd4\x54\xcd\x93\x28\x9e\xcb\x85\x8c\x2e\xd9\xe2\xa3\x29\x02\x30\x77\xde\x01\x98\x2a\xd2\x80\x71\xa0\xd0\x07\x6d\x88\x9a\x7d\x8f\x88\x22\x47\x2e\xc1\x47\x8c\x62\x32\x1a\xf5\x76\xa2\x60\x8e\x32\x76\xc3\x38\x2a\x6f\x82\x21\x11\x52\x9b\xbb\x2b\x49\xf6\xa6\xe8\xff\xcb\x99\x3f\x1d\x39\x53\xeb\x36\x15\x7b\x89\x9d\xdd\x03\x14\xbb\xba\x9e\xdf\xbc\x79\xfd\x94\x2d\xac\xbd\x7d\x4f\x34\xe3\x9c\xee\x18\xae\x2d\xac\x31\x60\xf5\x79\x78\x09\xdb\x08\x1c\x36\xc9\x6e\xc3\x39\x74\x11\x3d\xce\x40\x60\x0d\x44\x0b\xd9\xb3\xa0\x1c\xf7\x24\xcd\xd8\xb5\x85\xfd\x50\x8b\xc5\x04\xdc\x89\x4d\x0b\xbf\x6f\x20\x5c\xae\xc2\x69\x58\xe0\x82\xbf\x7b\xdf\x0f\x09\x97\xb7\xeb\xeb\x13\x09\x4c\x25\x3d\xc4\xf6\x85\x8a\x29\x9d\xa5\xca\xfa\xf4\xa7\x64\x80\xd7\xc7\x39\x46\xc3\x09\x66\xe4\xd5\x5e\x9b\xf9\xc0\x74\x7c\x0a\x74\xdc\xde\x8a\xb3\xf4\xbb\xf4\x0a\x70\xad\xcd\x80\x22\x3b\xca\x34\x7c\x80\x18\x31\x1e\xb7\xe8\x26\x6d\xe5\xde\x35\xb9\xe1\x0e\xc3\x1d\x89\xfa\xa4\x4c\x80\xc6\x43\x0e\xb4\x7b\xac\x83\x47\x51\x40\x8c\x9e\x51\x9c\x1c\x67\xef\xb4\x50\xb6\x31\x35\x38\x49\x3a\x1b\x28\x4f\x07\x5b\xd4\xe8\x00\xd3\xc7\x97\x48\xb9\x0e\x8d\x6b\xa7\xdb\x74\x9c\x8d\x69\xde\xbd\xda\xc6\xcc\x67\x1d\xe7\xc0\xf9\xec\xce\x6a\x8b\xc4\xe0\xa9\xd6\x69\xac\x62\x21\x8e\x31\xaf\x5c\x2c\x15\xa4\x40\x29\xe5\x60\x88\x11\x0d\x8d\xd8\xee\xf3\xdc\xd1\xe5\x2d\xc4\x81\x1d\xca\x17\xae\x87\x33\xe4\xfb\xa2\x6b\xf4\x79\x9d\xdf\x0f\x08\x34\x73\xdc\xa7\x16\x1d\x79\xc3\x21\x27\xb9\xee\xd4\x9e\x3e\x70\x76\x4f\xf7\x57\xd1\x97\xd9\x7d\x3b\x71\xa1\xc7\xd0\xce\xc0\x28\x56\x28\xea\xd1\xe1\x80\x3b\xa8\x16\x5f\xe3\xea\x50\x84\x08\xe3\xa9\x32\x47\x31\x4a\x3b\x80\x85\xa7\x96\x0c\x96\xc9\xb4\x9f\x4b\xa1\x33\xb0\x18\xf3\xc3\x65\xba\x09\xc1\x79\x1a\x68\x1c\x88\xd7\x79\xb4\x09\xf3\x28\xbe\xd1\x81\x2d\x37\x0a\xc6\x2c\x32\x34\x0f\xef\x43\x9b\x35\x70\x2e\xf0\xb9\xe1\x70\x37\xfd\x6c\x13\xf2\x20\x17\x5b\xf5\xd9\xc5\xc5\x36\x2b\xf9\x71\x60\x99\x58\xe8\xec\xb4\x4c\x83\xf2\xa9\x73\x9d\xb8\x87\x6e\xd2\xb7\x50\xdb\x97\x40\x27\x29\x53\xab\x13\xbb\x9a\x81\x93\xbd\xd3\x3a\x0d\x4e\xa4\x6b\xa1\xba\x62\x20\x43\x2b\x55\x64\x1c\x0d\xd9\x39\x8c\x54\x0b\x3d\x75\xad\xd6\xb7\x32\xc6\x80\xfa\x98\x27\xd0\xa9\x42\xbb\xc5\xcf\x66\x29\x74\x02\x27\x78\xf1\xcc\x6f\x36\x40\x7c\x51\x88\x5e\x4c\xc5\xa5\xb5\xf5\x36\xc6\x48\xbd\xac\x05\x5f\x28\x0f\x2d\xc5\x85\xbc\xa1\xe5\x5e\xa2\x39\x38\x4f\xc1\xf3\x00\x1a\xeb\x51\x54\x06\x57\x78\x17\xbe\x72\x3c\xb0\x29\xb8\x1e\x31\xae\x97\x82\x12\x2a\x77\x8b\x02\xad\x4f\xc3\x24\x05\x53\x37\x8c\xbf\x95\xe1\x52\xe6\xbf\x04\xe8\xca\x2b\xc1\x81\x8a\x54\x85\x7f\x4b\xe5\xe4\x69\x10\x8b\x85\xd4\x51\x0f\x09\xde\x0f\xf0\x02\x8f\x8c\xdf\x91\x14\xc7\x66\xae\x3f\xc0\x67\xca\x40\xb0\x34\xc4\xb9\xbe\x7b\xf4\xde\xdf\xda\xb0\x07\x3b\x98\x99\x85\xa0\xec\x7d\xb5\x7c\xd0\x8d\x34\xd4\x1e\x16\x25\xc7\x98\xf7\xb6\x28\xc1\xfa\x70\x7a\xf3\xf0\x94\x6f\x50\x41\x23\x31\x0f\x17\x17\x5c\xd4\xa0\xf6\x0c\x07\xe7\x71\xae\x89\x24\xaf\x2c\x10\xcf\x49\xbc\xaa\x30\xbf\x62\xd7\x68\x1e\xa1\xb7\xa6\x97\x40\x45\xb1\x61\xeb\x2d\xa3\x30\xe6\x50\x77\x1c\x02\xdf\x03\xbc\x14\x03\xb0\xd4\xc8\xc2\x64\x06\xad\x61\xe7\xe1\x67\x56\x9e\x01\xbf\x01\xe6\x4b\x06\xcc\x52\x6e\xa4\xcd\x52\xaf\xc7\xc0\x70\xb7\x1c\xda\x07\xcd\x28\xeb\xc8\x79\x9b\x5d\x9c\xd3\xf6\x53\xc1\xd6\x7a\x79\xc5\xa8\xed\xcf\x74\x47\x64\x47\x98\xe1\xd3\x86\x9e\x6b\xb6\xb4\xdd\xfa\x11\xee\x97\xae\xa6\xc7\x6d\x2b\x52\x51\x89\xd8\x11\x09\xa3\x7d\x4c\x85\x34\xa8\xf3\xae\x58\xef\x64\xda\xf2\x45\x87\xac\x48\x6b\x66\xf6\x68\x29\xc7\xcc\xdc\x22\xad\xd8\xe1\x1d\xa5\x75\x33\xd4\xcc\xdd\x23\x0f\x92\xc0\x28\x9b\xd4\x3e\x19\x91\xa6\x37\x8c\xf1\x52\xb6\x1a\xe5\xe2\x50\x81\x6a\x59\xd7\x47\x6e\x86\xc3\xf9\x3e\xb5\xe3\x8d\xee\xb4\x50\x45\x4e\xc7\xb9\x0b\xb5\x73\x3e\xdd\x4c\x19\xd0\x7f\xda\x4e\x19\xd6\x7f\xc3\x1a\x6d\x57\x33\x45\xe9\x9a\x1e\xfd\xc7\x9b\x7f\xd8\x4e\xe9\xd7\x7f\x6c\x74\x20\x32\x3b\x2a\x40\x6c\x6a\x8c\x15\x54\xcb\x7b\xa9\xc0\x0c\x83\xdc\x6d\x1d\xe8\x2e\xdb\xa7\x9b\x2d\xfd\xd6\xa5\xb6\x5a\x06\xad\xcb\x1d\xed\xc6\xad\x36\xcb\xa0\x75\x59\x5b\xb5\xa1\x79\x74\x1b\x2d\x5d\xe9\x9c\x61\xeb\x72\x8f\x04\xce\xb0\x75\xa9\xb0\x20\x65\x5a\x9c\xa5\xae\xc1\xc2\x34\xef\x92\xf8\x0e\xc9\x79\xca\x03\x50\x3c\xb0\x0d\x0a\xf1\xee\xbd\x0e\xf0\x6d\x81\xb7\x53\x02\x0c\xcc\x9e\x83\x6d\xc6\x12\xe9\x80\x2c\x8c\x72\x3b\x38\xbc\x54\xe1\xbe\x0b\x6b\x42\x11\x7a\xb7\x2a\x0a\x76\xa9\x43\x7d\x30\x6c\xc0\x06\xc6\x85\x1f\xa8\xb0\xa6\xff\x95\xd0\x21\xbf\x11\x03\x36\x71\x0f\xfa\xc9\x06\x8b\x09\x73\xa1\xf0\x44\x98\xdc\xd4\xb5\xce\x0e\x00\xff\x63\x6b\xed\xfd\x02\xc4\xa1\x07\xef\xa6\xf6\xd5\x6b\xec\xc3\x50\x31\x78\xe2\x6b\x70\x8e\xf5\xa2\x62\x67\xbc\x92\xbb\xda\x31\xdf\x9e\x9d\xbd\xbe\x4f\x64\x8c\xd2\xf2\x4c\xe5\x84\xd8\x0b\xf0\x9f\x60\xb2\x0c\xec\x2d\x54\x2e\x54\xdb\xf7\x95\x58\xac\xc3\xbc\x90\xe5\x71\x55\xae\x0e\x7f\x3e\x31\x01\x35\x1c\x55\x05\x08\xac\x01\x24\xd6\xea\x0d\xed\xd9\xed\x81\x36\x04\x96\x26\x22\xcb\xe5\x52\xae\xa2\x04\x2c\x26\xac\xa1\x28\x9c\xe8\x9a\x33\xcc\xd6\xf0\x5a\xbd\x84\xa7\x1e\x5e\x73\x8b\x3b\xb4\xcd\x02\xeb\x18\x10\x7c\x32\xef\x6b\xf1\xa7\x8e\x90\x5b\x3f\x74\x5a\xff\xae\xcf\x2a\xe6\xc6\x63\xa0\xfd\x5a\xd4\x42\x6e\xdd\x9d\x4e\x50\x2c\xb0\xb8\x81\x29\x3b\x3f\xfa\xbb\x3c\x5e\x81\x58\xf1\x9a\x5f\xca\xa7\x76\x69\x3d\x67\x99\x7d\x02\xd4\x9e\xe5\x4e\x01\x3f\x15\x0b\xa2\xe0\xde\x86\x82\xf9\xd5\x35\x9a\x51\x6f\xd2\x0a\x71\xf0\xc7\x8e\x25\xa1\xf2\x15\xa8\x1b\x7a\xc8\x6c\x9a\xce\xb1\x32\x24\x39\x27\xeb\x8f\xbb\x05\x4f\xf8\x95\x8a\x66\x6f\x74\x3f\x0a\x4b\xab\xe6\x58\xc3\x3b\x17\x7f\x2b\xce\xd2\xb7\x58\xf1\x04\x46\x98\x0f\xbb\xac\x5c\xd7\xda\xe0\x8b\x33\xb9\xc9\x62\x2a\xf4\x85\x16\x9a\x9d\x7a\x2a\xbe\x3c\x8e\x8f\xbb\x11\x45\x85\x51\x47\x58\x51\xd9\x73\x38\x3d\x67\x48\xca\xa7\xd4\xed\x3e\x65\x19\x62\xc3\x6f\x38\x2d\x56\x33\xfa\x3a\x83\x8b\x23\x92\x11\x8d\x5a\x43\xf5\xa8\x84\xc6\x46\x97\x90\x38\x7c\xc2\xf9\x37\x0e\x37\x12\xff\xe8\x4c\x9a\x1e\xf1\x07\xfc\x0e\x16\x3c\x78\x27\xb0\xed\xc2\x2a\x2e\x51\xdb\x31\x83\x20\x30\x0a\x3d\xc2\x86\x6d\xca\x02\xf0\x3f\xc0\xe1\x5c\x92\x77\x82\xbf\xd9\xbc\x47\x37\x71\x42\xe3\x4c\x8c\x67\x79\x49\x15\x67\x00\x8a\xde\x07\x84\x9d\xe7\xb3\xff\x02\xf2\x80\xb2\xdb\x02\x91\x45\x50\x7f\xf9\xe8\x11\x38\x43\x2b\x07\x5f\x27\x66\xca\xfb\x06\xb0\x25\xc4\xa0\x45\x96\xa7\x97\x11\xba\xbe\x6b\xde\x51\x9c\x59\x9b\x4b\xc6\x96\x13\x90\xd8\xce\xda\x64\x2e\x68\xaa\xcc\xb2\xd0\x71\x16\xc1\x0b\x90\x6f\xeb\x90\x8a\xbe\x34\xfe\x1b\x7e\x85\x1c\x59\x54\xe0\xea\xca\x65\xc1\xbe\xd6\x2f\x4e\x5f\xbd\x54\x35\xd8\x4b\x5d\x30\x6d\xb2\x78\x84\xbb\x46\x07\x93\xa1\xfd\xd3\xe2\x04\x3f\x96\xc0\xe7\x53\xed\x02\x9a\x99\xd9\x8f\x35\x68\x60\x4b\x14\x25\x4c\x5a\xd3\x8c\x85\xa4\x2b\x21\xba\x0c\x11\x53\x2b\x32\x15\x57\x2c\x05\xeb\x6c\x40\x06\x08\xae\xea\x54\x7c\xc0\xed\xe7\x92\x84\xc5\xcf\x0f\x5c\x4f\x78\x4b\xab\x78\x84\xc0\xf4\x82\xde\x71\x5c\x73\x63\x09\xc8\x8a\x16\x9b\x78\x75\xda\x5a\x3d\x1b\x31\xf3\x3c\xa1\x21\x55\xd7\x13\x0e\xa6\x1a\x40\xba\x1f\x92\xdb\x83\xae\x4e\xb3\x63\x47\xe7\x12\x33\x1e\x1b\x70\x3a\x20\x30\xba\x0a\x98\x6d\x3c\x1f\xc5\xa0\x37\x51\x82\xf0\x10\xa5\xdf\x64\xea\xaa\x3c\x9e\xc0\x5a\x33\x99\x8b\x7f\x5d\x3c\x68\x3e\xb4\xf3\xd0\x81\x1b\x32\x8f\xac\xe9\xa1\x61\xa9\x1e\x85\xc7\x35\x3a\x2e\x4e\xcf\x64\x0c\x16\x08\xbe\x54\x96\x8b\x13\xfc\x51\xe0\xd8\x20\x71\xfa\x3c\x5e\x2e\xbd\x86\x25\x82\xff\xa3\x3d\x74\xc4\xd5\xab\x01\xf3\xcd\x73\xb4\x31\x93\x30\x76\xb4\x09\x4d\xb2\x58\x0c\x4c\xcf\xe1\x47\x3b\x43\x02\x7e\x0c\x1d\x9d\xcf\xca\xbf\xbc\x0a\x88\x7b\x14\x7a\xd8\xd0\x37\x2f\x3d\x5c\x16\x1f\x05\x93\x65\x50\x16\x93\xb9\x87\x95\xb0\xef\xde\x63\x41\xae\xaf\x36\xc5\x2d\x3b\xf6\x57\xc2\xe5\x35\x13\x2e\xd7\x0c\xf9\x36\x51\x2c\x80\x10\xa6\xe2\xc1\x15\x60\xd9\x08\xa7\xb3\x39\x53\x44\xbf\x45\x9c\x7f\xfe\xe7\x7f\xfd\x57\xcc\x6b\xb1\x4c\xb0\x8f\x2f\xfe\x86\xbf\x31\xe3\x00\x1a\xc7\x02\xfe\x7e\x77\x84\x2f\xdf\xd7\x0b\x99\x30\xeb\x4b\x74\x5b\x79\x13\x13\x7c\x24\x5e\xc3\x84\xef\x11\x46\xc2\x30\xdf\x9b\xa1\x5d\x24\x92\x34\x39\x24\x61\xa8\x2d\x7e\x6c\x08\x4c\x86\x63\xd6\xa2\x53\xaa\x40\x18\xf4\x8c\x77\xc5\xe0\x89\x46\x24\x6c\xdd\xb9\x3b\x99\x1e\x6a\x25\xd8\x50\x15\xbf\xc6\x51\x8e\x94\xa4\xfd\xb5\x92\xfb\xb8\x8a\xaa\x15\xc8\xe9\x62\x15\x29\xb9\xaf\xd9\x95\x24\x9a\xb3\xb8\xd6\x1f\xc1\x6a\x4f\x92\x3a\xea\xdc\xcb\x2e\x75\xdd\xaa\xf2\xc2\x19\xd4\xa0\xca\xd2\x75\x54\x58\xd1\x45\x81\x18\x2d\xa4\xe1\x8f\x93\xf5\x37\xb6\xbb\xe6\x11\x6f\x6d\x81\xfa\xc2\xe5\x36\x51\xaf\x9f\x5b\x07\x76\x84\x9e\xde\x76\xdf\xb1\xcd\x47\x3f\x6b\x20\x14\x52\xe3\xc1\x8c\xc9\x56\xe3\xc5\x89\x5a\x6d\xb1\x5e\x4c\xf4\x62\xd0\x4c\x68\x7a\xc3\x84\x7d\x77\xae\x85\x40\xf2\xc9\x1f\xec\x83\x52\xf2\x50\x29\x25\xd7\xd1\xb5\x16\x50\x8e\x8e\x6c\xc3\x37\xa6\xaa\x34\xe2\x15\xc0\x4a\xbf\x25\xc8\xc8\xc1\xdb\x42\xf9\x23\x27\x96\x31\x38\xad\x4e\xe7\x58\x1c\x28\x4d\x44\x4d\xfa\x1d\xe3\x11\xd8\x27\xe8\x5f\x04\x28\xde\x03\xaa\xbd\xf7\x7c\xe5\x06\xa2\xd3\x6c\xfd\xe4\xc6\x5c\x1d\xa7\x99\xec\x47\x92\x1a\x4a\xa0\xa8\x62\xfe\x37\xc0\x05\x8f\xe3\xd8\x63\xe0\xbb\x15\x3c\xea\x0a\xff\x15\x6a\xc6\xa9\x98\x28\x49\x90\xa3\x56\xd6\x96\x11\xce\x4c\x93\x73\xa2\x4b\x3d\xea\x82\xe8\x11\x03\xaf\xb4\x50\x43\x9f\x04\x10\x33\x27\x5a\xac\xb8\x53\x06\x21\xab\x03\xc0\x36\xbd\x82\x09\x96\x51\x18\x63\xd8\x0d\x36\x9f\xb2\x1e\x9f\x45\xc5\x22\xcc\x97\x6f\x13\x3a\x80\x73\x64\xbf\xe8\x4a\x10\x9c\xd7\xb1\x70\x07\x6c\x89\x54\x4c\x53\xb6\x84\x6a\xb7\x58\xed\x17\xac\x9d\xa2\x55\xa1\x51\x23\xa6\xd9\xb0\xb7\x1d\x64\x75\x45\xe9\xbe\x32\x97\x09\x32\x72\x14\xe2\x93\x70\x59\xb3\xc4\x47\x88\x80\x45\xcb\xb8\xf5\xe8\x7a\x02\x75\xc3\x4d\xa1\xfd\x9a\xef\x61\x34\x2f\xc7\x35\xc4\x13\x1e\xf6\x3b\xb6\x06\x80\xf9\x8d\x6d\x0e\xf4\x7c\xf3\x5d\xf0\x2b\x7c\xe9\xe9\x0e\x4e\x93\xb1\xeb\xec\x70\x21\x19\x0a\x0b\xcd\xb5\x74\x18\xa3\xd0\xd1\x70\x20\x6e\xa2\x9b\x05\xdf\xa5\x6c\x81\x8b\x09\x4d\x92\xdb\x60\x20\x96\x3f\x83\x33\x41\x83\x9a\xd5\x44\x37\xa8\x3b\xfe\x3b\x8c\xc2\xab\x44\xa6\xab\x16\x1e\xb0\xc7\x5a\x78\xd0\xb4\x3e\x05\x11\xc3\x09\x0f\x28\x7e\xa5\x73\xdf\xda\xb5\x3c\x6c\x54\x0d\xf7\x7a\x4e\x9d\x12\xb3\x2f\xeb\xc9\xf2\xb1\xd0\x6e\x84\xd1\xeb\x61\xc1\x46\x7d\xc3\x6d\x60\x27\x2a\xdf\x23\xa3\xd9\x81\x60\x97\xec\xeb\x34\xc2\xfb\x92\x9c\xc6\x44\xea\x13\x14\x2f\x5a\x62\xa2\x29\x24\x8c\x2c\x78\x5b\xc8\xd7\xd8\x0f\xe5\x65\x71\x54\xff\x70\x92\x54\x9b\x97\xd5\x66\x0e\x5a\xf1\xc8\x7e\x38\xd9\x44\xe5\xdb\x24\x4b\xb3\x0a\x7d\xe7\xa5\x11\x2b\xb0\x56\xae\x3c\x75\x64\x8a\xf6\x1b\x6c\xf2\x95\x50\x05\xb5\x59\x14\x60\x64\xf8\x43\x75\x10\x9a\x0d\x3e\x4c\x95\xb4\x32\xe6\x24\x59\x52\x4e\x2b\x37\x29\x6b\xcf\x0e\x29\x63\xa0\x2b\xd8\xd2\x53\x1b\xd2\xd4\x42\x7d\xd9\x59\x6b\x9d\xe7\x8e\x39\x31\x98\x8f\x25\x25\xd0\xca\xc5\xae\x81\xd9\xd6\xe1\x92\xfb\xf6\x65\x5f\x29\xe7\xb7\xc4\xb0\x58\xc4\xb5\xe8\xa6\x74\xce\x39\x06\x8c\x2e\x23\x41\x51\x67\x67\x03\xad\xf4\x4d\xd2\x17\x99\x19\xc3\xb2\xad\xd4\x70\x2d\xbb\xcb\x40\xea\x29\xde\xc1\xe4\xee\xb6\xdc\xae\xa6\x10\xc8\x83\x12\x26\xee\x6f\xeb\xd2\xc0\x9f\xb2\xbb\x6d\x18\x28\xbc\x90\xdc\x15\xc8\x45\x73\xdc\x6a\xb1\xc6\x35\x09\xe8\x4b\x18\x17\x29\x2e\x81\xda\xc3\xac\x15\xaa\x3c\x1e\x0f\x8f\xae\x35\xcd\x21\x1e\x4a\x9e\x2a\x21\x8e\x01\x23\x7f\x5b\x47\xb3\x2a\x58\xa4\x8f\x3c\x87\x42\x64\xe2\xdf\x3b\x19\x8d\x20\xee\x9f\x8c\x76\x7a\xdb\x58\x6c\x47\x2e\x3a\x61\x63\x8f\xa5\x97\x88\xa3\x4b\x3a\x16\x51\x2a\xaa\x6d\xd2\x92\x02\x11\x18\x67\x08\x13\x3c\xd3\xf5\x03\x16\xce\x66\x7c\x7a\x8c\xdf\xf1\x89\x32\xb0\xb8\xc8\x7c\xb4\x83\x2c\xc1\x02\x49\xe9\x1c\x45\x71\x53\x94\x72\x33\x45\xe6\x02\x58\x71\x74\x21\x63\x93\xcf\xa6\x70\xc9\x64\x9d\x16\xe5\x11\xd1\xce\x26\xac\xed\x0c\x3c\x33\x94\x2e\x3c\xee\x0d\xf1\xee\x9f\xaa\x06\xe9\xf3\x85\x66\xb9\x6f\xc3\xe2\x75\x2e\x57\xd1\xb5\x19\x11\x96\x92\x8e\xaf\xb2\xed\x69\xf0\x38\xe6\xd7\x47\xb3\xd9\x44\xfc\x99\xa1\x04\x09\xab\xca\x48\x41\xe0\x20\x34\x3e\x0b\x69\xa0\xed\x5c\xf4\x85\xb6\x42\x35\x56\xa7\x7a\xd1\xca\xe9\xf0\x38\x54\x02\x96\xcb\x92\x27\x2f\x53\x5e\x48\x27\x0e\xce\x85\xf8\xcc\x03\x14\x35\x42\x40\x57\x69\x0e\x7b\x92\x63\xeb\x42\x69\x7a\x74\xfc\xf0\x7c\x5e\xce\x6a\x84\xbf\x46\x48\xc2\x89\xef\x86\x18\xf7\x0c\xe4\x62\x34\xbd\xe9\xfc\x28\xa4\xf1\x2b\x57\x02\x38\x8e\x12\x3c\xc9\xeb\x76\x8f\x47\xba\x0f\xd9\xf8\x6d\xaf\xc2\x94\x2a\x77\x64\xfd\x71\x24\xb6\xf0\x06\xfa\x75\x9c\xf4\x75\x4a\x00\x54\x52\xbf\x37\xbe\xac\x2c\x48\xb0\x8a\xb3\x1b\x90\x15\x1e\xac\xbf\xdb\xfe\x49\x08\x4a\x16\xc4\x07\xc6\x99\x75\x53\x6b\x1d\x6c\x89\x10\x37\x82\xc9\xb5\xa0\x73\x3d\x58\xdc\x4c\xff\x8f\x9a\x15\x00\xda\xb6\x75\x02\xc6\xdd\x71\xe4\xe1\x52\x80\xc1\x75\x37\x25\x01\x9f\x7d\xe5\xfb\x22\xee\x64\xce\xf4\x2f\xed\xb4\x69\x6d\x76\xc5\xcd\x6d\x29\x02\x49\x1e\xbd\x8e\x73\x58\x38\x71\x80\x7b\x18\x7e\x4d\xc9\xd4\x17\x3a\xb9\xa9\x5f\xe3\xfe\x4d\xd0\x2e\x80\x39\x1c\x60\x07\xfe\x49\xfa\x42\xb9\x07\xb6\xe0\x19\xbf\x28\x43\xe5\x69\x79\xad\x73\xa8\xa7\x68\xdf\x2e\xa8\x24\xbe\xca\x55\xa8\x86\x4c\x05\xb5\x71\x61\x3b\x82\xb1\x15\xf3\xf9\x33\xd6\x73\x20\xb9\x29\x9b\x09\x4e\x2b\x48\x51\x6d\xbe\x2a\xb5\xc4\x01\x75\x56\x7b\x1b\x6d\xc2\xba\x0e\x28\xda\x0a\x2a\xdc\x11\x08\xf1\x32\x2d\xd5\x71\x5e\x04\x89\xb0\x48\x52\xac\xc3\x4b\xf0\xa9\xd4\x35\x1d\xc3\x26\x09\x8d\x33\xa7\xb4\x96\x3a\xd1\x46\x87\x77\x50\xf2\x6b\xd4\xf0\x70\xb4\x0a\xa4\x87\xba\xc2\x89\x05\x3f\x3c\xdc\xd8\x70\xbd\x29\xb6\x77\xce\xdb\x61\x61\x93\x52\xb8\x2a\x07\x5d\xa7\x1d\xe7\x9d\x9d\x93\x25\xfd\xfa\xc0\x8d\xf8\x74\x34\x52\xa9\xb9\x81\xf3\x98\x3b\x58\x87\x9f\x2d\xf3\x6c\x2c\x1e\x0c\x57\x37\xc3\xbc\xf5\x04\x31\x05\x0d\xc9\xfe\x45\x05\xd0\x53\x47\xb3\x55\x60\x37\x43\x52\x9d\xc2\x66\x30\x22\xd5\xf4\xaf\x54\x38\x8a\xad\xb1\x66\x48\x4a\x47\x69\xd4\x30\x6e\x05\x8a\x5b\x62\xda\x0c\x49\x39\xa1\x57\x36\xf3\x54\x3a\xc5\x7c\x59\xd3\x41\x0d\x0c\x07\xfc\xc5\xa3\x47\x6e\x5e\x09\xfc\x2c\x95\x3c\x21\x7f\x2a\x03\x12\x32\x9a\xd8\x21\x21\x58\xec\x5b\xd1\x06\x2a\x4b\xbc\x70\x81\xca\xec\x68\x16\xee\xfe\x53\x01\x6c\x30\xa3\xc9\x85\xb1\x38\x6a\x24\xb6\x86\xcc\x74\x1d\x49\x47\xc8\xac\x93\xec\xc3\x11\x33\x6e\xb3\x7f\xc8\x6c\x9f\x08\xd8\x31\xdd\x6d\x71\xf2\xea\xeb\xde\x20\x18\x46\xb1\x6d\x6c\x9c\x24\x0e\x05\x6b\xe8\xe2\x0a\x37\xea\xb5\x63\x40\xad\x23\x9e\x66\x80\x4e\x7c\xa7\xf0\x22\x77\x72\x11\x08\xd8\x89\xf3\xbc\xfa\xe5\xf6\x98\x5d\x2d\x13\x01\xae\xc6\xc4\xe1\x99\x23\xf1\xf0\xcb\xe5\x43\x72\x03\xec\x18\x66\x6c\x0e\x39\x16\xd9\x36\x6e\x1e\xef\x1d\xd7\xeb\x0d\xeb\xf5\x45\xf5\x1c\xd2\x6e\x8d\xe9\x15\x59\x47\x50\xaf\x45\x21\x97\x28\x8d\xb2\x94\x07\xb6\x28\x7a\xd4\xa8\x8a\x76\x04\x50\xb3\x22\x6c\x87\xe8\xf9\xf6\xd8\x39\x1b\x04\xb5\x08\xd0\x7e\xd1\xf3\x56\x2d\xd9\xd8\x78\xbb\x2a\x1c\x04\x7d\x76\x0e\x98\xd3\xd5\x13\x9c\xdd\xce\x61\x07\x15\x02\x07\x22\xc7\x04\xf4\xf2\x48\x69\xbf\x9a\xf2\xf5\xd0\x26\x98\x72\x1c\x90\x93\xcb\x94\x1a\xd3\xa2\x60\x87\x69\xed\x10\x3d\xef\xa9\x35\x33\xa1\x23\xbc\x3f\xea\x32\x8c\x91\xc0\x93\x89\x8a\x4c\xf2\xab\xe1\xab\x03\x86\x22\xea\x3a\xc2\x09\xfd\x88\x55\x5c\xf5\xd5\xeb\x1a\x37\xdb\xf5\xfb\xde\x1c\x95\x38\x95\xec\x98\x92\x31\x96\x61\x18\x55\x96\x98\xb6\xe1\x48\x2d\x1d\xbe\x51\x9e\x1c\x15\x5b\xe9\xa4\x52\xe3\x84\x64\xc1\xa5\xd1\xb5\x58\x27\x8e\x72\xca\xef\x4d\xb0\x53\x37\xbc\x6b\x1e\x28\x45\x93\x71\x32\x23\xfc\xbb\xbc\xbd\x8c\xa3\x05\x03\xb2\xae\x2b\x6f\x90\x56\xf1\x32\x79\x58\xda\xdd\xcb\xb3\xfc\xf2\xe3\x84\x8d\x4f\x2d\x41\x99\x2a\x6f\xc2\x2b\x65\x64\x56\xfa\xd9\x7c\x33\x1f\xe8\x6d\x9d\x72\xc4\x78\x75\xd2\x39\xe9\xea\x46\xc4\x1a\x05\x5c\xb9\xc9\x54\x7a\x56\x2d\x70\x89\x57\x0a\xb9\xe4\xec\x8b\x5d\x0b\x5b\xca\xbd\x5b\xd8\x18\x5a\xe1\x86\x50\xcd\xde\xc8\x4c\xd2\x35\x80\xea\xf7\xf3\x02\x5d\x29\x23\x51\x2d\x64\xef\xa9\xbe\x80\x4f\xc7\x9d\x53\x2a\x5d\x9b\xe8\xe5\x9f\xf8\xba\x07\x4f\xf5\xdd\xc4\x84\xa8\x7f\x65\xe2\xf1\xaa\x64\xfb\x3d\xb3\x70\x60\x5a\x3c\x85\xf7\xb1\x2d\x4c\x57\x7c\x10\x17\xe6\x77\x3b\x61\xdf\xd7\x5f\xe7\x43\x14\x1a\x94\xc0\x1f\x40\x65\xea\xdc\x5a\xe5\x5d\xfa\xec\xc3\x8d\x5c\x2c\x14\x37\x92\x8b\x13\xa3\x71\x56\x23\xe0\xf3\x02\x63\xb8\xfa\x17\xe8\xaf\xfc\xe4\x3a\xcb\x35\xda\xa8\x38\xfb\xf0\xac\x65\x7b\xee\x83\xee\xca\x9b\x7c\xb9\x84\x37\x07\x7d\x43\xd4\x67\x63\xd1\x07\x5a\x7a\xa8\xee\x5b\x6b\xee\x37\xd9\x42\xcf\x03\xd8\x51\x47\x87\x6b\x75\x2a\xbd\x23\x9b\xe9\xb7\xf2\x5a\x5d\xdb\x53\xed\xce\x15\x78\x26\x5c\x48\xa4\x37\x67\x1f\xfc\x49\x7d\x9d\x94\xa4\xd5\x82\xc9\x03\x74\xfd\xf1\x5e\x54\x65\x08\xbe\x43\x28\xcb\x89\xb3\x83\xdf\xff\xfb\xdf\xfd\xf4\xbb\x7f\xfd\xe9\x5f\xfe\xe3\xa7\x7f\xfc\xf1\x0f\xff\xfc\xf7\xff\xfd\x9f\xff\xf5\xfb\xdf\xfd\xc3\x4f\xff\xf6\xe3\x1f\x7e\xfc\xa7\x83\x99\x71\x9f\x79\x73\xdd\x8b\x13\x3e\x8d\x11\xbc\x1d\x39\xa0\x31\xb3\x7b\x0c\xb4\x6d\x1c\x1b\x05\x18\xd5\x2a\x16\x1b\xbf\x9a\xe1\x11\x25\xe3\x52\x4c\x85\xf5\x25\xc7\xda\x82\x8e\x9a\xf7\x0b\x3a\x0b\x36\x33\x8a\x88\xbb\xe8\xc2\xcb\xda\xba\x99\x4d\xc1\xcd\xeb\xbb\x42\xbd\x6b\x6e\x8b\xda\x85\x06\x8a\x36\xaa\xa9\x43\x1c\xd2\xee\xfa\x3d\xcd\x48\x29\x73\xc7\x11\xdd\xb2\xc7\xbe\x91\xa5\x05\xa1\xce\xdd\x6a\x9a\xf7\x6d\xb3\xbd\x37\x5a\xe7\x20\x13\x33\x8a\x9e\xf3\xc0\x6e\x6b\xf1\x94\x02\xb6\x65\xc3\xf5\xf0\xe7\x67\xa5\xee\xce\x88\x35\xb8\xbd\x9b\xf2\x2d\xbc\x5d\x56\xdf\x8d\xf3\x5d\x23\x83\xd0\x00\x82\x2a\x24\xd9\x3e\xa5\x9a\x5e\xcd\xef\x89\x63\x18\x52\x70\x74\x72\x2e\x4b\xbe\xc4\xd1\x35\x3c\xc8\x17\xac\xd9\x1d\x65\xfa\x46\x96\xf7\x35\x35\x77\xb1\x3f\x0e\xb7\x64\xad\xeb\xd9\xf3\xd9\x81\x78\x95\x80\x9f\x5e\x28\x84\x57\x0c\x84\xb3\x67\xc5\x1a\xcd\x33\x0c\x52\xa9\xd0\x14\x97\x47\x62\x86\x29\x8e\x09\x40\x8a\x49\x31\x5b\x7a\x9a\x6e\xa2\x12\x8d\x97\x65\x45\xf9\x11\x74\x82\xa3\x44\x16\x85\x38\x98\xa9\x11\x69\xfa\xdd\x52\x77\xd8\x04\x69\xc5\x33\x99\xd6\x26\xc7\xbe\x2d\x1d\xdc\x9f\x0f\xee\x4f\x08\xf7\x67\x84\x7b\x53\xc2\x7c\x9f\x49\x58\x86\xcd\xac\x70\x2d\x29\xfc\xf1\xfe\x86\x32\xfb\x6b\xcc\x58\x21\x17\xee\x8a\x2f\x2f\x61\x9f\x10\x65\xad\xb9\xfc\x84\x4b\x42\x9b\x17\x76\x7a\x7c\x07\xe8\x4b\x79\xf5\xa4\x5a\xad\xe0\x37\xe2\xea\x96\x57\x0b\xb7\x2e\x41\x39\xbb\xa3\xf6\x2d\x66\x5b\xef\x35\x31\x97\x9a\xee\x9a\xf8\x7b\xf9\xf8\xec\xf4\x9e\xf7\x9a\x50\x37\xec\x2f\x38\x58\x6a\x7e\xab\x33\x9f\x74\x5f\x2d\x9f\xf6\x2c\xf2\x4b\xfe\x6d\x2e\xa9\x53\xee\x61\xfb\x7e\xbc\x5d\x8f\x63\x8e\x8a\x6a\xee\x9e\xf7\xd3\x0b\x8f\x63\xa3\x40\xab\xe4\x69\x35\x2f\x16\x79\x34\xe7\xab\x64\x5a\x67\x28\x83\xfa\xfd\x32\x93\xee\x73\x96\x88\x7a\xd0\xba\x5d\xe1\x45\x71\x4e\x93\xf4\xb7\x72\x94\xe2\x0c\xf2\x7a\x6b\x08\x3b\xe7\x13\x9d\x65\xaf\xdf\xcc\x88\x27\x50\x9c\x05\xda\xf5\xe6\x18\x5a\x93\xed\x37\xc7\x58\xc8\x5b\x8f\xb6\xd4\x6e\xc8\x0d\x0c\x61\xcd\xf1\x16\x67\x6d\x7b\x6e\x8c\x19\x86\xa0\xea\x19\xfe\xf8\x2e\x8e\xb1\xf3\xda\xed\xe2\x98\xda\x95\x31\xf5\x39\xe3\x09\x0f\x33\xed\xbd\xae\x8d\xc1\x85\xea\x39\xcf\x6b\xa2\x53\xad\x36\x4e\xc2\xce\xb6\xe8\x3a\xfb\xb1\xc7\xbd\x32\xce\x2a\x7f\xd2\xbd\x32\x0e\x1c\x53\xc2\xbb\xd7\xf5\xa6\xa0\x2d\x0e\xfa\x38\xaa\x75\x5f\xcc\x9e\x77\x92\x38\x61\x72\x26\x6a\xe3\xb4\x65\xf7\xe9\xc1\xe2\x5c\x09\x3c\x10\x0d\xfd\xd1\xf1\x76\xe1\x68\xd7\x01\xcb\x81\xf2\x73\x18\x27\x78\x46\x7a\xae\xbb\x60\x72\xe0\x52\x97\x07\x3b\xdd\x05\x32\xae\x71\xd4\x96\x8a\x37\x9a\xf0\x0e\x15\x6f\x54\xe1\x96\xce\x7f\x83\x95\x1c\x2a\x88\x59\x98\xf5\xd2\x77\x77\xbc\x08\x93\x1b\x4e\xdc\xa4\xc4\x18\xea\x3f\x5b\x40\x55\x41\x15\x8e\x8d\xd9\x13\xba\x2b\x19\x93\x7e\x45\x84\xe2\x4e\x9d\x1f\xaa\x15\xc2\x75\xe0\xdd\x77\x39\x0f\x9e\x54\xd6\x55\x1e\xd0\xdf\xd5\x58\x5b\x0a\xe2\x34\x9d\x6b\x3c\xc8\xe3\xe3\x14\xdc\x81\xa7\xe6\x50\xf3\xc2\x82\xf5\xf7\x29\xce\xc1\x19\xdd\xbf\x38\xc7\xe9\xbd\xe5\xa6\x08\x9c\xcd\xff\xf5\x4d\x11\x16\xbb\xb6\xd5\xd0\xab\x80\x5e\x57\xf3\x38\x2a\xd6\x56\xff\x7c\xda\x35\x11\xbb\x58\x1b\xfb\x5c\xff\xa0\xeb\x40\xba\xaf\x80\x68\x69\x05\x33\x1b\x55\x02\x62\xee\x81\xe0\x62\x90\x2d\x86\xcb\xd8\xa9\xf2\xa8\xb1\xbe\x5b\xda\xd1\xa3\x47\x6a\x45\x1d\xcd\x9a\x8e\x66\x49\xc7\x1f\xe1\x5d\x0e\x64\xe8\xdc\xf7\x2e\x87\x1e\x6a\x74\xca\xb8\xdd\xee\x72\xd0\xf2\xff\x7f\xed\xd6\x86\x1e\x94\x77\x50\x49\xa2\x5f\x27\x61\xc5\xdd\x0e\xea\x06\x1a\x98\xec\x6f\x53\xed\x00\x88\xb6\xe6\x81\x97\x77\x0e\x74\xdd\x99\xcf\x1e\xe9\xce\x0f\x1e\xb4\xbf\x05\x94\x5c\xc5\x8b\x23\x3f\x44\xea\x30\xd9\x87\x49\xcf\x30\x3a\x19\xdc\x06\xa2\x6b\x7e\x35\x22\x1d\x09\xd4\xce\xbb\x28\x76\x55\xbe\x5d\x99\xcd\x61\xed\xdb\x7d\xb9\x93\xcb\xc3\x4a\x07\x77\xab\xe0\xce\x3c\x63\x4d\x03\x37\xee\xac\xd0\xff\x79\x1d\x55\xe8\xe3\x94\xe4\x84\x3d\x4a\x19\x27\xa7\x25\x3a\x30\x4d\x53\x27\x1f\x12\xae\x9f\x47\x31\xef\x6a\x4b\x6d\x4b\x2f\x6e\x55\xc4\x66\x20\x02\x6c\xc0\xf9\xce\x32\xfc\x0f\xb5\x60\xad\x2b\x0e\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\x1c\xc9\x75\xe7\xaa\xaf\x88\x29\x68\xc8\xcc\x76\x75\x16\x6d\xc0\x86\xdc\x83\x36\xc0\xa5\x67\x86\xd2\x70\x11\xbb\x39\x73\x20\x08\x2a\xab\x2a\xaa\x2b\xd5\x59\x99\xc9\x5c\x7a\x51\xbb\x2f\xbe\x8c\x01\x1b\x30\xe0\x93\x0f\x86\xe0\x93\xaf\x86\xcf\xfe\x1e\x8d\xa1\xbf\xf0\x5b\x62\xcb\xb5\xaa\x9a\xb4\x21\x40\x26\x24\x32\x2b\x33\xe2\xc5\x8b\x17\x2f\xde\x1e\x31\xb3\x99\x78\x9a\x2e\xa5\x38\x97\x89\xcc\xc3\x52\x2e\xc5\xfc\x46\xcc\xc3\x3c\x4d\x02\xf1\xec\x95\x78\xf9\xea\x4c\x9c\x3c\x7b\x7e\x16\x8c\x67\x33\xf1\x46\xe6\x55\x92\x44\xc9\x39\x37\x10\x57\x51\x1c\x8b\xf4\x52\xe6\x57\x79\x54\x4a\x51\xae\xa3\x42\xac\xa2\x58\x52\xe3\xef\x65\x5e\x44\x69\x72\x24\x6e\x6f\x03\xf5\x7c\x77\xe7\x7c\x10\xcf\x60\x34\xf7\x2b\xfe\x86\x16\xe3\x2c\x5c\x5c\x84\xe7\x12\xbf\xbc\xe6\xc7\x97\xe1\x86\xbe\x40\xe7\x33\x3d\x86\x58\xa4\x49\x19\x46\x49\x21\x36\xb2\x5c\xa7\xcb\x42\x94\xa9\xd8\x84\x17\x52\x44\xc9\x32\xba\x8c\x96\x55\x18\x0b\x99\x2c\xb3\x34\x4a\x4a\xe8\x92\xa7\x1b\x51\xc8\xfc\x32\x5a\xc8\x62\x8a\x90\x72\xf9\xb1\x92\x45\x29\xc2\x64\x09\xcf\x45\x96\x26\x05\x4c\xe1\x26\x93\x04\x09\x9b\xe2\x8c\x52\x78\x69\xa0\x4c\x45\x58\x88\x2b\x09\x93\x86\x7f\x65\xb2\x00\xba\xe5\x05\x02\x40\x78\x4b\xa9\x7e\xaf\xd2\x5c\x75\x24\x68\x53\x7a\x11\x22\xa5\x56\x22\xad\x72\x51\x54\x59\x96\xe6\x48\xe9\x32\x0f\x93\x02\x9f\x71\xb8\x28\x8c\xa3\xdf\x86\x25\x10\x02\xa1\x41\x9f\x4d\x58\x16\xc1\x78\x1c\x6d\xa8\x85\x37\x1e\x4d\xe6\x37\xa5\x2c\x26\xf0\x80\x73\x97\xd7\x25\x3e\x12\x1a\xb0\x24\xb3\xdf\x14\x69\x82\x2f\x56\x1b\x7a\x1f\xa5\xfc\xf7\x2c\x4a\xab\x32\x8a\xf1\x47\x22\xcb\xd9\xba\x2c\x33\xfd\x5c\xe5\xf4\xba\x28\x73\x80\x77\xa9\x1e\x01\x14\x0c\x01\xcf\xe7\x51\xb9\xae\xe6\xc1\x22\xdd\xcc\xce\xd3\xc3\x8b\xa8\x9c\xe1\xff\x35\x2d\xa0\x75\x98\xdc\x64\x73\x31\x39\x4f\xd3\x73\x58\xf2\xf3\x34\x0e\x93\xf3\x20\xcd\xcf\x67\x59\x9e\x96\xe9\xbc\x5a\xcd\x68\xfe\xb3\x8b\x24\xbd\x4a\x66\xd4\x1a\x7a\x2d\xab\x9c\x26\xb9\x47\x57\xdb\x05\xfa\xcb\x4d\x56\xee\x33\xae\x6a\x0f\x3d\x57\x91\x8c\x97\x9b\xb0\xb8\xd8\xa3\xb7\xd3\x07\x20\x00\x79\xaa\x45\xb9\x47\x77\xdd\x01\xfa\x96\xd1\x06\xb8\x2d\xdc\x64\x7b\x74\x77\xfa\x00\x84\xab\x3c\xcc\x32\x60\xb0\x3d\x00\xd8\x2e\xed\x25\xcd\x61\xf3\x86\xb3\x4d\x75\x3d\xa9\x7f\xc9\x2e\xce\x67\x32\xcf\xd3\x9c\x38\x6d\x60\x20\xc3\x79\xf4\x46\xb3\xdf\x40\x07\x7a\x40\x44\x6e\x6f\x0f\x45\xb4\x12\xf2\xa3\x08\x9e\xa6\xc9\x2a\x3a\x0f\xce\xcc\x4e\x98\xc0\x4e\x99\x88\x49\x02\xcc\x3f\x11\xb0\xe9\x6b\xb8\xe1\xdb\x43\xe0\x69\xfc\x17\x86\x98\x30\x28\xe0\x49\x6c\xb8\x03\xd4\xf3\x3c\x5b\x68\xa8\x2d\x3c\xe9\x63\xef\x97\x19\x88\x99\x70\x19\x96\x61\x73\xd0\x9d\x87\xc4\x27\xbb\xe3\x7b\xf6\x97\x69\xa0\xd1\x71\xc6\xc2\xbd\xbb\x07\x00\xb5\xd5\xf7\x22\x36\x3e\xed\x31\x04\x75\x74\x71\xf4\xc7\xe3\xf1\x65\x98\xa3\xb4\xfa\x20\x8e\x05\xc8\xa2\xe0\x34\x03\x99\x52\xf2\x6f\x12\x60\x80\xc6\x26\x0b\x73\xc9\xaf\x94\xf4\x09\x1e\x97\x69\xc4\x6f\x6a\xd3\x0c\x5e\xca\xab\x53\x94\xc5\x39\x7f\x64\x69\x16\xbc\x4c\xb3\xa7\x31\x88\x58\xf3\x16\x80\x66\x37\xfc\x83\x99\x37\xf8\x01\x78\x7f\x3c\x02\x51\xaa\xd6\x53\xb3\x21\x4b\x65\x6c\x4a\x22\x29\x78\x9c\x50\x3f\x2b\x64\x82\x67\xea\x11\x5f\x2b\xf1\x11\x9c\xe0\xbf\xf8\x42\x6f\xe9\xe0\x94\x1e\xf0\x95\xb3\x4d\x83\x33\xfd\x8c\x1f\xec\xf6\xc3\xd6\xb0\x55\xbe\x0f\xe3\x8a\xe6\xed\xc8\x95\xe0\x6b\x7c\x7e\x01\xcf\x48\xbd\xd9\xc1\x4e\x7f\xc4\x89\xd1\x6c\x07\x3b\xff\x99\x91\x06\x7d\x9e\x88\x90\xd5\x5b\x3e\x15\x51\xf9\xb0\x10\x55\x21\x57\x55\x4c\x6a\x6a\x55\x25\x0b\x9c\x3a\xe8\xc0\x75\x58\x8a\x44\xa2\x96\x4a\x45\x9a\x91\x6d\x20\x52\xec\x0b\xcf\x87\x5a\x0d\x20\xc0\x79\x58\x44\x45\x20\xbe\x86\xee\xf2\x1a\x66\x1e\xcb\xa9\xb8\x49\x2b\xb1\x89\xce\xd7\xa5\xc8\xc2\x02\x55\xa4\x83\x30\xc0\x0b\xcd\x40\x3c\x0e\xac\xcd\xb2\x02\xc5\x8c\xe0\xa0\x2d\x72\x40\xf0\x2d\xe8\xd5\x18\x71\xbc\x02\x26\x14\x32\x5c\xac\x95\xa6\x17\x9e\x1e\xdd\x87\x6f\x39\x60\x58\x65\x0c\xb4\xc8\xe4\x22\x5a\x45\x0b\x18\xb4\x5c\x07\xc2\x7b\x4e\xf8\x81\xc1\x00\xf0\xe7\xe1\x3c\xbe\x81\x36\x9b\x08\x96\x87\xac\x04\xd0\xd8\x45\x74\x9e\x60\xd7\x28\xb9\x4c\x2f\x50\xdd\x4b\x71\xca\x36\x82\xb1\x2a\x08\x45\x89\x70\xec\x0c\x98\x07\x10\x84\xa6\x64\xe0\x43\x0b\x43\xdd\x45\x1c\xc9\xa4\xac\x53\x17\x46\x59\xa4\x71\x2c\xa9\x9f\x36\x50\x00\x23\x60\x7e\x06\x07\xf3\xb0\xe6\x0a\xfc\x05\x13\x42\x80\x05\xb0\x4d\xcc\xa6\x04\xd3\x2a\x42\x0a\x6f\x24\x51\xd2\xc1\x17\x7a\xc8\x7c\x15\x2e\x64\xdf\x4a\x20\x30\x33\x58\xb7\x91\x54\xe1\x60\xa2\x2e\x41\x70\x03\x3e\x55\xf3\x01\x39\x30\x8f\x12\xa2\xd3\x46\xa1\xe8\x2c\xec\x54\x99\x52\x65\x95\x27\x30\x75\x9c\x31\x22\xb8\x80\x69\xca\x1c\x2d\xa6\x50\x23\x1b\x8c\x69\x3a\x2d\x82\xde\x8e\x47\x6f\x13\x33\x3f\xb9\x04\x0b\x50\xf7\x60\x13\x50\x49\x82\xdb\x5b\x40\x11\x2c\xc4\x9f\x45\xe2\xe8\x58\x98\x36\x2f\x78\xc9\x58\x2c\xff\x2c\x52\x7d\xf4\x28\x02\xfe\xe8\xa9\x06\xfa\x25\x80\x62\xc1\xc5\xd6\xa5\xc1\x68\xfb\x10\xc8\xc0\xc0\x89\xb6\x8b\x2f\x9c\x41\xbd\x45\x79\x2d\x94\x95\x86\x62\x17\xff\x9d\x22\xc3\x1c\xdc\xde\x7e\x93\x62\x1b\x80\x1c\xbc\x61\x13\xf4\x0c\x88\xa1\xfa\xf9\xc2\x6b\xb4\x60\xc3\xd4\x69\x32\x65\x01\xe7\x23\xb5\xb4\xdd\x4a\xef\x10\x51\x19\x74\xcc\x1c\x91\xc1\xc1\xfd\xf1\x08\x15\x01\xb4\xfc\xe2\x58\x24\x51\x8c\x10\x46\x6a\xbd\xe0\x27\x01\x19\x8f\xee\xc6\xfa\x9d\x86\x1e\x6c\xc5\xc9\x9f\x22\x00\x20\xa2\x26\x27\x12\xf3\x05\x6e\x33\x97\xa2\xb4\x91\x7f\x06\x62\x04\x29\x7a\x87\x8d\x0f\x85\x4b\x65\xf8\xd4\x47\x68\x84\xd5\x35\xb3\x02\x89\xee\x74\x73\xd9\xc4\x6f\x2f\x37\xd3\x8c\x26\x87\x60\xbb\x57\x49\x3b\x06\x66\x47\xdd\xe2\xb2\x18\x17\xc1\x79\xcd\x64\xb7\xcb\x01\xb0\x3f\xe2\x44\x14\x84\x16\xdd\x5a\xab\x0d\x5d\x2e\xcd\xda\x15\x41\x83\x81\x08\x15\x6c\xd3\x5e\xb5\xf6\xb2\xe1\xba\xe9\xb7\x97\xbc\x1c\xa3\xbb\x31\x13\x99\xd7\xc4\x5d\x1b\x54\x8e\x8f\xe3\xf8\xe4\x7a\x21\xb3\x92\xf4\x54\xc1\x22\xd6\x50\x8a\x34\x14\xba\x2c\x6a\x6f\xda\xcd\x4a\xcb\x48\xb2\xa9\xc3\x2f\x08\x5e\x44\x4b\x10\xdb\x57\xa0\xdf\xc9\x0b\x7c\x5b\x68\xbf\x10\x9d\xa0\x2c\x8b\x6f\x50\xc4\xa0\xd8\x2c\x11\xf8\xc6\xb4\x26\xbd\x20\x61\xd9\x6e\xcc\xb2\xe1\x7e\x41\x09\x52\x68\xa9\x01\xf0\x5e\x65\xa8\x35\x50\x72\x4e\x1d\xc1\xb5\x00\x39\x34\x97\xa4\x6b\x40\x8c\x42\x37\xf0\x61\x13\x24\x3b\xc0\x84\xf7\xf2\x7a\x11\x57\x4b\xf8\x42\x5e\xe0\x5c\x22\x0a\xac\x9b\x97\x41\x8b\x1a\x9e\xc5\x69\x2a\x26\xa7\x65\x58\x56\xc5\x04\x9e\x5e\x43\xaf\x89\x6f\xf6\xfd\x81\xb3\xf1\xfb\xfa\x8b\x0e\xaa\x4c\x2d\x36\x41\x10\xb0\xc3\x45\xcc\x13\x25\xea\x35\xb0\xc2\x26\xcc\xde\xf1\xa7\xf7\x4c\xfe\xdb\x3b\x5c\xf5\xe6\x86\xe9\x92\x7c\xa3\xd1\xc4\x61\xa3\x09\x38\xd8\x77\x53\xd5\x55\x99\x91\xc0\x01\x23\x5c\x8d\x0f\x88\x0a\xb1\x2b\x81\x34\x68\xdd\x32\xc7\xc1\xe7\xf4\x02\x3f\x6b\xc4\xde\xc9\xeb\xf7\x5f\x89\x2f\xe0\x25\x71\x60\x16\x26\xd1\xc2\xb3\x16\xde\xca\x9b\x9c\x68\x10\x66\x05\x1f\x7e\x59\x3c\x14\xcb\x14\x56\x37\x49\x4b\x18\x02\x94\xef\x57\xb0\x9e\xd2\x5d\x78\xc3\x3b\x64\xd2\x23\x52\xbe\xaf\xf8\x79\x29\x63\x59\x4a\x4f\x63\x40\xdf\xec\x04\xe0\xb5\x45\xdf\x90\x0f\x91\x23\x9b\x10\xbe\xa2\x39\xa1\xd9\x07\x88\x7a\x23\xd6\x21\x78\xf5\x49\xaa\xb5\xfb\xce\x34\x05\x7a\x20\xbc\xe3\x63\x51\xa3\x2e\x53\x62\xd4\x29\x75\x01\x05\x3b\x49\xaf\xb3\x09\x4e\x93\xe6\x59\x5b\x1d\xde\xa1\xdf\x85\x73\x98\xfc\xd2\x32\x0e\x47\x5b\xce\x65\xa9\xd9\x1c\xb7\x86\x21\x34\x71\xfb\xd5\x5a\x26\xe6\x6b\xea\x70\xb6\x02\xc6\x0c\x3a\xe5\x0d\xa9\xf6\x4c\xc5\x8d\x05\x87\x70\x42\x8e\x03\x81\x09\x05\x14\x82\x7f\xc8\x22\x73\x18\xfa\x6a\x1d\x81\x90\xc0\xae\x05\x0c\xdd\x81\x82\x52\xfa\xaa\xb7\x36\x79\xd2\x5c\xa9\xfc\xf6\xac\x48\x0e\x33\xaf\x4f\xdb\x02\xbb\x43\x86\x8f\xfb\xe6\x75\x6f\x31\xd6\x42\x6a\xaa\xe6\x49\x14\xcf\xe5\x42\x46\x97\x6c\x1c\xd2\x14\x01\x98\x3b\xef\x00\xac\x1a\x69\xc0\x38\x50\xe8\x83\xb6\x59\x8d\x88\x40\x44\x91\x79\x97\xe0\x4e\x46\x31\xd9\x97\x7a\xe7\x51\xdc\x47\xd9\xc5\x61\x1c\x95\x37\xc1\x90\xb4\xa9\xcd\xdd\x15\x3a\x7b\x53\xf4\xff\x45\xd2\x9f\xa4\x48\xaa\x75\x9b\x8a\xbd\x24\xd4\xee\x61\x8f\x5d\x1d\xda\x6f\xde\xbc\x7e\xca\x76\xdb\xde\x1e\x2d\x1a\x87\x4e\x77\x0c\x02\x17\xd6\xc4\xb0\x56\x42\x78\x09\x3b\x0e\xdc\x40\xc9\xce\xc8\x39\x74\x11\x3d\x2e\x46\x60\xcd\x4e\x0b\xd9\xb3\xa0\x1c\xa7\x27\xcd\xd8\x61\x86\xad\x53\x8b\xf0\x04\xdc\x89\x0d\x16\xbf\x6f\x20\x5c\xae\xc2\x69\x58\xe0\x82\xbf\x7b\xdf\x0f\x09\x97\xb7\xeb\xeb\x13\x09\xfc\x27\x3d\xc4\xf6\x85\x8a\x54\x9d\xa5\xca\xa6\xf5\xa7\x64\xd6\xd7\xc7\x39\x46\x73\x0c\x66\xe4\xd5\x5e\x9b\xf9\xc0\x74\x7c\x0a\x9f\xdc\xde\x8a\xb3\xf4\xbb\xf4\x0a\x70\xad\xcd\x80\xe2\x45\xca\xe0\x7c\x80\x18\x31\x1e\xb7\xe8\x7c\x6d\xe5\xde\x35\x39\xf7\x0e\xc3\x1d\x89\xfa\xa4\x4c\xd8\xc7\x43\x0e\xb4\xdb\xb1\x83\x47\x51\x96\x8c\x9e\x51\xf4\x1d\x67\xef\xb4\x50\x16\x37\x35\x38\x49\x3a\x1b\x28\xff\x09\x5b\xd4\xe8\x00\xd3\xc7\x97\x48\xb9\x0e\xe5\x6c\xa7\xdb\x74\xc7\x8d\xc1\xdf\xbd\xda\xc6\x79\x60\x75\xe8\xc0\xf9\xec\x2e\x70\x8b\xc4\xe0\xff\xd6\x69\xac\x22\x2c\x8e\x8b\xa0\x1c\x37\x15\xfa\x40\x81\xe6\x60\x88\x71\x12\x8d\xd8\xee\xf3\xdc\xd1\x91\x2e\xc4\x81\x1d\xca\x17\xae\xdf\x34\xe4\x51\xa3\xc3\xf5\x79\x5d\xea\x0f\x08\x34\x73\x9c\xb2\x16\x1d\x79\xc3\x21\x27\xb9\x4e\xda\x9e\x9e\x75\x76\x4f\xa7\x5a\xd1\x97\xd9\x7d\x3b\x71\xa1\xc7\xd0\xce\xc0\xd8\x58\x28\xea\x31\xe7\x80\x3b\xa8\x16\x5f\xe3\xea\x50\xdc\x09\xa3\xb4\x32\x47\x31\x4a\x3b\x80\x85\xa7\x96\x0c\x96\xc9\xb4\xf7\x4c\x01\x39\x30\x2e\xf3\xc3\x65\xba\x09\xc1\x25\x1b\x68\x1c\x88\xd7\x79\xb4\x09\xf3\x28\xbe\xd1\xe1\x32\x37\xb6\xc6\x2c\x32\x34\x0f\xef\x43\x9b\x35\x70\x2e\xf0\xb9\xe1\xc6\x37\xbd\x77\x13\x48\x21\xc7\x5d\xf5\xd9\xc5\x71\x37\x2b\xf9\x71\x60\x99\x58\xe8\xec\xb4\x4c\x83\xf2\xa9\x73\x9d\xb8\x87\x6e\xd2\xb7\x50\xdb\x97\x40\xa7\x3e\x53\xab\x13\xbb\x9a\x81\xeb\xbe\xd3\x3a\x0d\x4e\xa4\x6b\xa1\xba\x22\x2b\x43\x2b\x55\x64\x1c\x63\xd9\x39\x38\x55\x0b\x68\x75\xad\xd6\xb7\x32\xc6\x30\xfd\x98\x27\xd0\xa9\x42\xbb\xc5\xcf\x66\x29\x74\x5a\x28\x78\xf1\xcc\x6f\x36\x40\x7c\x51\x88\x5e\x4c\xc5\xa5\x35\x0b\x37\xc6\x9e\xbd\xac\x85\x74\x28\xbb\x2d\xc5\x85\xbc\xa1\xe5\x5e\xa2\xe5\x38\x4f\xc1\x49\x01\x1a\xeb\x51\x54\x5e\x58\x78\x17\xbe\xf2\x51\xb0\x29\x78\x29\x31\xae\x97\x82\x12\x2a\xcf\x8c\xc2\xb7\x4f\xc3\x24\x05\xab\x38\x8c\xbf\x95\xe1\x52\xe6\xbf\x04\xe8\xca\x81\xc1\x81\x8a\x54\x05\x95\x4b\xe5\x0f\x6a\x10\x8b\x85\xd4\xb1\x14\x09\x8e\x12\xf0\x02\x8f\x8c\xdf\x91\x14\xc7\x66\xae\x3f\xc0\x67\xca\x6b\xb0\x34\xc4\xb9\xbe\x7b\xf4\xde\xdf\xda\xb0\x07\x3b\x98\x99\x85\xa0\x5c\x03\xb5\x7c\xd0\x8d\x34\xd4\x1e\x16\x25\x47\xae\xf7\xb6\x28\xc1\xfa\x70\x7a\xf3\xf0\x94\xc5\xd0\x86\xfb\x3c\x5c\x5c\x70\xa9\x84\xda\x33\x1c\xf2\xc7\xb9\x26\x92\x1c\xb8\x40\x3c\x27\xf1\xaa\x92\x07\x8a\x5d\xa3\x79\x84\x8e\x9d\x5e\x02\x15\x1b\x87\xad\xb7\x8c\xc2\x98\x03\xe8\x71\x08\x7c\x0f\xf0\x52\x0c\xeb\x52\x23\x0b\x93\x19\xb4\x86\x9d\x87\x9f\x59\x79\x06\xfc\x06\x98\x2f\x19\x30\x4b\xb9\x91\x36\x4b\xbd\x1e\x03\xc3\xdd\x72\x68\x1f\x34\x63\xb7\x23\xe7\x6d\x76\x71\x4e\xdb\x4f\x85\x70\xeb\x45\x1b\xa3\xb6\x3f\xd3\x1d\xe7\x1d\x61\xde\x50\x1b\x7a\xae\xd9\xd2\x8e\x00\x8c\x70\xbf\x74\x35\x3d\x6e\x5b\x91\x8a\x4a\xc4\x8e\x48\x18\xed\x8e\x2a\xa4\x41\x9d\x77\x45\x90\x27\xd3\x96\xdb\x3a\x64\x45\x5a\x33\xb3\x47\x4b\x39\x66\xe6\x16\x69\xc5\xbe\xf1\x28\xad\x9b\xa1\x66\xee\x1e\x39\x9b\x04\x46\xd9\xa4\xf6\xc9\x88\x34\xbd\x61\x8c\x97\xb2\xd5\x28\x17\x87\x0a\x54\xcb\xba\x3e\x72\xf3\x26\xce\xf7\xa9\x1d\x6f\x74\xa7\x85\x2a\x72\x3a\xce\x5d\xa8\x9d\xf3\xe9\x66\xca\x80\xfe\xd3\x76\xca\xb0\xfe\x1b\xd6\x68\xbb\x9a\x29\x4a\xd7\xf4\xe8\x3f\xde\xfc\xc3\x76\x4a\xbf\xfe\x63\xa3\x03\x91\xd9\x51\x01\x62\x53\x63\xac\xa0\x5a\xde\x4b\x05\x66\x18\x3a\x6f\xeb\x40\x77\xd9\x3e\xdd\x6c\xe9\xb7\x2e\xb5\xd5\x32\x68\x5d\xee\x68\x37\x6e\xb5\x59\x06\xad\xcb\xda\xaa\x0d\xcd\xa3\xdb\x68\xe9\x4a\x12\x0d\x5b\x97\x7b\xa4\x85\x86\xad\x4b\x85\x05\x29\xd3\xe2\x2c\x75\x0d\x16\xa6\x79\x97\xc4\x77\x48\xce\x53\x1e\x80\xe2\x81\x6d\x50\x88\x77\xef\x75\x2c\x70\x0b\xbc\x9d\xd2\x6a\x60\xf6\x1c\x6c\x33\x96\x48\x07\x64\x61\x94\xdb\xc1\xe1\xa5\x8a\x0c\x5e\x58\x13\x8a\xd0\xbb\x55\x51\xb0\x4b\x1d\x15\x84\x61\x03\x36\x30\x2e\xfc\x40\x45\x40\xfd\xaf\x84\x8e\x0e\x8e\x18\xb0\x89\x7b\xd0\x4f\x36\x58\x4c\x98\x0b\x85\x27\xc2\xe4\xa6\xae\x75\x76\x00\xf8\x1f\x5b\x6b\xef\x17\x20\x0e\x3d\x78\x37\xb5\xaf\x5e\x63\x1f\x86\x8a\xc1\x13\x5f\x83\x73\xac\x17\x15\x3b\xe3\x95\xdc\xd5\x8e\xf9\xf6\xec\xec\xf5\x7d\x22\x63\x94\xec\x67\x2a\x27\xc4\x5e\x80\xff\x04\x53\x70\x60\x6f\xa1\x72\xa1\x8a\xc1\xaf\xc4\x62\x1d\xe6\x85\x2c\x8f\xab\x72\x75\xf8\xf3\x89\x09\xa8\xe1\xa8\x2a\x40\x60\x0d\x20\xb1\x56\x6f\x68\xcf\x6e\x0f\xb4\x21\xb0\x34\x11\x59\x2e\x97\x72\x15\x25\x60\x31\x61\x65\x46\xe1\x44\xd7\x9c\x61\xb6\x86\xd7\xea\x85\x41\xf5\xf0\x9a\x5b\x32\xa2\x6d\x16\x58\xc7\x80\xe0\x93\x79\x5f\x8b\x3f\x75\x84\xdc\xfa\xa1\xd3\xfa\x77\x7d\x56\x31\x37\x1e\x03\xed\xd7\xa2\x16\x72\xeb\xee\x74\x82\x62\x81\xc5\x0d\x4c\xd9\xf9\xd1\xdf\xe5\xf1\x0a\xc4\x8a\xd7\xfc\x52\x3e\xb5\x4b\xeb\x39\xcb\xec\x13\xa0\xf6\x2c\x77\x0a\xf8\xa9\x58\x10\x05\xf7\x36\x14\xf7\xaf\xae\xd1\x8c\x7a\x93\x56\x88\x83\x3f\x76\x2c\x09\x95\xda\x40\xdd\xd0\x43\x66\xd3\x74\x8e\xf5\x26\xc9\x39\x59\x7f\xdc\x2d\x78\xc2\xaf\x54\x34\x7b\xa3\xfb\x51\x58\x5a\x35\xc7\xca\xe0\xb9\xf8\x5b\x71\x96\xbe\xc5\x3a\x2a\x30\xc2\x7c\xd8\x65\xe5\xba\xd6\x06\x5f\x9c\xc9\x4d\x16\x53\xf9\x30\xb4\xd0\xec\xd4\x53\x47\xe6\x71\x7c\xdc\x8d\x28\x2a\x8c\x3a\xc2\x8a\xca\x9e\xc3\xe9\x39\x43\x52\xea\xa5\x6e\xf7\x29\xcb\x10\x1b\x7e\xc3\x19\xb4\x9a\xd1\xd7\x19\x5c\x1c\x91\x8c\x68\x54\x30\xaa\x47\x25\x34\x36\xba\x30\xc5\xe1\x13\x4e\xd5\x71\xb8\x91\xf8\x47\x27\xdd\xf4\x88\x3f\xe0\x77\xb0\xe0\xc1\x3b\x81\x6d\x17\x56\x71\x89\xda\x8e\x19\x04\x81\x51\xe8\x11\x36\x6c\x53\x16\x80\xff\x01\x0e\xe7\x92\xbc\x13\xfc\xcd\xe6\x3d\xba\x89\x13\x1a\x67\x62\x3c\xcb\x4b\xaa\x63\x03\x50\xf4\x3e\x20\xec\x3c\x9f\xfd\x17\x90\x07\x94\x33\x17\x88\x2c\x82\xfa\xcb\x47\x8f\xc0\x19\x5a\x39\xf8\x3a\x31\x53\xde\x37\x80\x2d\x21\x06\x2d\xb2\x3c\xbd\x8c\xd0\xf5\x5d\xf3\x8e\xe2\x24\xdc\x5c\x32\xb6\x9c\xab\xc4\x76\xd6\x26\x73\x41\x53\xbd\x97\x85\x8e\xb3\x08\x5e\x80\x7c\x5b\x87\x54\x4a\xa6\xf1\xdf\xf0\x2b\xe4\xc8\xa2\x02\x57\x57\x2e\x0b\xf6\xb5\x7e\x71\xfa\xea\xa5\xaa\xec\x5e\xea\x32\x6c\x93\xf0\x23\xdc\x35\x3a\x98\x37\xed\x9f\x16\x97\x0d\x60\x61\x7d\x3e\xd5\x2e\xa0\x99\x99\xfd\x58\x83\x06\xb6\x44\x51\xc2\xa4\x35\xcd\x58\x48\xba\x12\xa2\xcb\x10\x31\x15\x28\x53\x71\xc5\x52\xb0\xce\x06\x64\x80\xe0\xaa\x4e\xc5\x07\xdc\x7e\x2e\x49\x58\xfc\xfc\xc0\x55\x8a\xb7\xb4\x8a\x47\x08\x4c\x2f\xe8\x1d\xc7\x35\x37\x96\x80\xac\x68\xb1\x89\x57\xa7\xad\xd5\xb3\x11\x33\xcf\x13\x1a\x52\x75\x3d\xe1\x60\xaa\x01\xa4\xfb\x21\xb9\x3d\xe8\xea\x34\x3b\x76\x74\x2e\x31\xe3\xb1\x01\xa7\x03\x02\xa3\xab\x80\xd9\xc6\xf3\x51\x0c\x7a\x13\x25\x08\x0f\x51\xfa\x4d\xa6\xae\xca\xe3\x09\xac\x35\x93\xb9\xf8\xd7\xc5\x83\xe6\x43\x3b\x0f\x1d\xb8\x21\xf3\xc8\x9a\x1e\x1a\x96\xea\x51\x78\x5c\xf9\xe3\xe2\xf4\x4c\xc6\x60\x81\xe0\x4b\x65\xb9\x38\xc1\x1f\x05\x8e\x0d\x12\xa7\xcf\xe3\xe5\xd2\x6b\x58\x22\xf8\x3f\xda\x43\x47\x5c\x13\x1b\x30\xdf\x3c\x47\x1b\x33\x09\x63\x47\x9b\xd0\x24\x8b\xc5\xc0\xf4\x1c\x7e\xb4\x33\x24\xe0\xc7\xd0\xd1\xf9\xac\xfc\xcb\xab\x80\xb8\x47\xa1\x87\x0d\x7d\xf3\xd2\xc3\x65\xf1\x51\x30\x59\x06\x65\x31\x99\x7b\x58\x5f\xfb\xee\x3d\x96\xf9\xfa\x6a\x53\xdc\xb2\x63\x7f\x25\x5c\x5e\x33\xe1\x72\xcd\x90\x6f\x13\xc5\x02\x08\x61\x2a\x1e\x5c\x01\x96\x8d\x70\x3a\x9b\x33\x45\xf4\x5b\xc4\xf9\xe7\x7f\xfe\xd7\x7f\xc5\xbc\x16\xcb\x04\xfb\xf8\xe2\x6f\xf8\x1b\x33\x0e\xa0\x71\x2c\xe0\xef\x77\x47\xf8\xf2\x7d\xbd\x3c\x0a\x13\xc4\x44\xb7\x95\x37\x31\xc1\x47\xe2\x35\xcc\x0d\x1f\x61\x24\x0c\x53\xc3\x19\xda\x45\x22\x49\x93\x43\x12\x86\xda\xe2\xc7\x86\xc0\x64\x38\x66\x2d\x3a\xa5\xca\x8e\x41\xcf\x78\x57\x0c\x9e\x68\x44\xc2\xd6\x9d\xbb\x93\xe9\xa1\x56\x82\x0d\x55\xf1\x6b\x1c\xe5\x48\x49\xda\x5f\x2b\xb9\x8f\xab\xa8\x5a\x81\x9c\x2e\x56\x91\x92\xfb\x9a\x5d\x49\xa2\x39\x8b\x6b\xfd\x11\xac\x21\x25\xa9\xa3\x4e\xd3\xec\x52\x2d\xae\x8a\x34\x9c\x41\x0d\xaa\x2c\x5d\x47\x85\x15\x5d\x14\x88\xd1\x42\x1a\xfe\x38\x05\x02\xc6\x76\xd7\x3c\xe2\xad\x2d\x50\x5f\xb8\xdc\x26\xea\x55\x79\xeb\xc0\x8e\xd0\xd3\xdb\xee\x3b\xb6\xf9\xe8\x67\x0d\x84\x42\x6a\x3c\x98\x31\xd9\x6a\xbc\x38\x51\xab\x2d\xd6\x8b\x89\x5e\x0c\x9a\x09\x4d\x6f\x98\xb0\xef\xce\xb5\x10\x48\x3e\x4f\x84\x7d\x50\x4a\x1e\x2a\xa5\xe4\x3a\xba\xd6\x02\xca\xd1\x91\x6d\xf8\xc6\x54\xeb\x46\xbc\x02\x58\xe9\xb7\x04\x19\x39\x78\x5b\x28\x7f\xe4\xc4\x32\x06\xa7\xd5\xe9\x1c\x8b\x03\xa5\x89\xa8\x49\xbf\x63\x3c\x02\xfb\x04\xfd\x8b\x00\xc5\x7b\x40\x15\xfd\x9e\xaf\xdc\x40\x74\x9a\xad\x9f\xdc\x98\xab\xe3\x34\x93\xfd\x48\x52\x43\x09\x14\x75\x44\xe0\x0d\x70\xc1\xe3\x38\xf6\x18\xf8\x6e\x65\x94\xfa\xdc\xc0\x0a\x35\xe3\x54\x4c\x94\x24\xc8\x51\x2b\x6b\xcb\x08\x67\xa6\xc9\x39\xd1\x55\x21\x75\x41\xf4\x88\x81\x57\x5a\xa8\xa1\x4f\x02\x88\x99\x73\x32\x56\xdc\x29\x83\x90\xd5\x01\x60\x9b\x5e\xc1\x04\xcb\x28\x8c\x31\xec\x06\x9b\x4f\x59\x8f\xcf\xa2\x62\x11\xe6\xcb\xb7\x09\x1d\xeb\x39\xb2\x5f\x74\x25\x08\xce\xeb\x58\xb8\x03\xb6\x44\x2a\xa6\x29\x5b\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\xaa\xd0\xa8\x11\xd3\x6c\xd8\xdb\x0e\xb2\xba\xa2\x74\x5f\x99\xcb\x04\x19\x39\x0a\xf1\x49\xb8\xac\x59\xe2\x23\x44\xc0\xa2\x65\xdc\x7a\x74\x3d\x81\xba\xe1\xa6\xd0\x7e\xcd\xf7\x30\x9a\x97\xfb\xaa\x3a\xc7\x7e\xc7\xd6\x00\x30\xbf\xb1\xcd\x81\x9e\x6f\xbe\x0b\x7e\x85\x2f\x3d\xdd\xc1\x69\x32\x76\x9d\x1d\xae\x39\x43\x61\xa1\xb9\x96\x8e\x78\x14\x3a\x1a\x0e\xc4\x4d\x74\xb3\xe0\xbb\x94\x2d\x70\x31\xa1\x49\x72\x1b\x0c\xc4\xf2\x67\x70\x26\x68\x50\xb3\x9a\xe8\x06\x75\xc7\x7f\x87\x51\x78\x95\xc8\x74\xd5\xc2\x03\xf6\x58\x0b\x0f\x9a\xd6\xa7\x20\x62\x38\xe1\x01\xc5\xaf\x74\xee\x5b\xbb\x96\x87\x8d\x5a\xe4\x5e\xcf\xa9\x53\x62\xf6\x65\x3d\x59\x3e\x16\xda\x8d\x30\x7a\x3d\x2c\xd8\xa8\x6f\xb8\x0d\xec\x44\xe5\x7b\x64\x34\x3b\x10\xec\x92\x7d\x9d\x46\x78\x5f\x92\xd3\x98\x48\x7d\x82\xe2\x45\x4b\x4c\x34\x85\x84\x91\x05\x6f\x0b\xf9\x1a\xfb\xa1\xbc\x2c\x8e\xea\x1f\x4e\x92\x6a\xf3\xb2\xda\xcc\x41\x2b\x1e\xd9\x0f\x27\x9b\xa8\x7c\x9b\x64\x69\x56\xa1\xef\xbc\x34\x62\x05\xd6\xca\x95\xa7\x8e\x4c\xd1\x7e\x83\x4d\xbe\x12\xaa\xa0\x36\x8b\x02\x8c\x0c\x7f\xa8\x0e\x42\xb3\xc1\x87\xa9\x92\x56\xc6\x9c\x24\x4b\xca\x69\xe5\x26\x65\xed\x89\x24\x65\x0c\x74\x05\x5b\x7a\x6a\x43\x9a\x5a\xa8\x2f\x3b\x6b\xad\xf3\xdc\x31\x27\x06\xf3\xb1\xa4\x04\x5a\xb9\xd8\x35\x30\xdb\x3a\x5c\x72\xdf\xbe\xec\x2b\xe5\xfc\x96\x18\x16\x8b\xb8\xc2\xdd\x94\xce\x39\x87\x8b\xd1\x65\x24\x28\xea\x44\x6e\xa0\x95\xbe\x49\xfa\x22\x33\x63\x58\xb6\x95\x1a\xae\x65\x77\x19\x48\x3d\xc5\x3b\x98\xdc\xdd\x96\xdb\xd5\x14\x02\x79\x50\xc2\xc4\xfd\x6d\x5d\x1a\xf8\x53\x76\xb7\x0d\x03\x85\x17\x92\xbb\x02\xb9\x68\x0e\x71\x2d\xd6\xb8\x26\x01\x7d\x09\xe3\x22\xc5\x25\x50\x7b\x98\xb5\x42\x95\xc7\xe3\xe1\xd1\xb5\xa6\x39\xc4\xa3\xce\x53\x25\xc4\x31\x60\xe4\x6f\xeb\x68\x56\x05\x4b\xff\x91\xe7\x50\x88\x4c\xfc\x7b\x27\xa3\x11\xc4\xfd\x93\xd1\x4e\x6f\x1b\x8b\xed\xc8\x45\x27\x6c\xec\xb1\xf4\x12\x71\x74\x49\x87\x2d\x4a\x45\xb5\x4d\x5a\x52\x20\x02\xe3\x0c\x61\x82\x27\xc5\x7e\xc0\x1a\xdb\x8c\xcf\xa4\xf1\x3b\x3e\xa7\x06\x16\x17\x99\x8f\x76\x90\x25\x58\x20\x29\x9d\xce\x28\x6e\x8a\x52\x6e\xa6\xc8\x5c\x00\x2b\x8e\x2e\x64\x6c\xf2\xd9\x14\x2e\x99\xac\xd3\xa2\x3c\x22\xda\xd9\x84\xb5\x9d\x81\x67\x86\xd2\x35\xca\xbd\x21\xde\xfd\x53\xd5\x20\x7d\xbe\xd0\x2c\xf7\x6d\x58\xbc\xce\xe5\x2a\xba\x36\x23\xc2\x52\xd2\xa1\x58\xb6\x3d\x0d\x1e\xc7\xfc\xfa\x68\x36\x9b\x88\x3f\x33\x94\x20\x61\x55\x19\x29\x08\x1c\x84\xc6\x67\x21\x0d\xb4\x9d\x8b\xbe\xd0\x56\xa8\xc6\xea\xac\x30\x5a\x39\x1d\x1e\x87\x4a\xc0\x72\x05\xf3\xe4\x65\xca\x0b\xe9\xc4\xc1\xb9\x66\x9f\x79\x80\xa2\x46\x08\xe8\x2a\xcd\x61\x4f\x72\x6c\x5d\x28\x4d\x8f\x8e\x1f\x9e\xfa\xcb\x59\x8d\xf0\xd7\x08\x49\x38\xf1\xdd\x10\xe3\x9e\x81\x5c\x8c\xa6\x37\x9d\x1f\x85\x34\x7e\xe5\x4a\x00\xc7\x51\x82\x27\x79\xdd\xee\xf1\x48\xf7\x21\x1b\xbf\xed\x55\x98\x52\xe5\x8e\xac\x3f\x8e\xc4\x16\xde\x40\xbf\x8e\xf3\xc3\x4e\x09\x80\x4a\xea\xf7\xc6\x97\x95\x05\x09\x56\x71\x76\x03\xb2\xc2\x83\xf5\x77\xdb\x3f\x09\x41\xc9\x82\xf8\xc0\x38\xb3\x6e\x6a\xad\x83\x2d\x11\xe2\x46\x30\xb9\x16\x74\xae\x07\x8b\x9b\xe9\xff\x51\xb3\x02\x40\xdb\xb6\x4e\xc0\xb8\x3b\x8e\x3c\x5c\x0a\x30\xb8\xee\xa6\x24\xe0\xb3\xaf\x7c\x5f\xc4\x9d\xcc\x99\xfe\xa5\x9d\x36\xad\xcd\xae\xb8\xb9\x2d\x45\x20\xc9\xa3\xd7\x71\x0e\x0b\x27\x0e\x70\x0f\xc3\xaf\x29\x99\xfa\x42\x27\x37\xf5\x6b\xdc\xbf\x09\xda\x05\x30\x87\x03\xec\xc0\x3f\x49\x5f\x28\xf7\xc0\x16\x3c\xe3\x17\x65\xa8\x3c\x2d\xaf\x75\x0e\xf5\x14\xed\xdb\x05\x95\xc4\x57\xb9\x0a\xd5\x90\xa9\xa0\x36\x2e\x6c\x47\x30\xb6\x62\x3e\xd5\xc6\x7a\x0e\x24\x37\x65\x33\xc1\x69\x05\x29\xaa\xcd\x57\xa5\x96\x38\xa0\xce\x6a\x6f\xa3\x4d\x58\xd7\x01\x45\x5b\x41\x85\x3b\x02\x21\x5e\xa6\xa5\x3a\x24\x8c\x20\x11\x16\x49\x0a\x3e\x61\xa0\x2e\xff\x18\x36\x49\x68\x9c\x39\xa5\xb5\xd4\x39\x39\x3a\xe7\x83\x92\x5f\xa3\x86\x47\xae\x55\x20\x3d\xd4\x15\x4e\x2c\xf8\xe1\xe1\xc6\x86\xeb\x4d\xb1\xbd\x73\x8a\x0f\x0b\x9b\x94\xc2\x55\x39\xe8\x3a\xed\x38\xef\xec\x1c\x42\xe9\xd7\x07\x6e\xc4\xa7\xa3\x91\x4a\xcd\x0d\x9c\xf2\xdc\xc1\x3a\xfc\x6c\x99\x67\x63\xf1\x60\xb8\xba\x19\xe6\xad\x27\x88\x29\x68\x48\xf6\x2f\x2a\x80\x9e\x3a\x9a\xad\x02\xbb\x19\x92\xea\x14\x36\x83\x11\xa9\xa6\x7f\xa5\xc2\x51\x6c\x8d\x35\x43\x52\x3a\x4a\xa3\x86\x71\x2b\x50\xdc\x12\xd3\x66\x48\xca\x09\xbd\xb2\x99\xa7\xd2\x29\xe6\xcb\x9a\x0e\x6a\x60\x38\xe0\x2f\x1e\x3d\x72\xf3\x4a\xe0\x67\xa9\xe4\x09\xf9\x53\x19\x90\x90\xd1\xc4\x0e\x09\xc1\x62\xdf\x8a\x36\x50\x59\xe2\x35\x0e\x54\x66\x47\xb3\x70\xf7\x9f\x0a\x60\x83\x19\x4d\x2e\x8c\xc5\x51\x23\xb1\x35\x64\xa6\xeb\x48\x3a\x42\x66\x9d\x64\x1f\x8e\x98\x71\x9b\xfd\x43\x66\xfb\x44\xc0\x8e\xe9\xc6\x8c\x93\x57\x5f\xf7\x06\xc1\x30\x8a\x6d\x63\xe3\x24\x71\x28\x58\x43\xd7\x61\xb8\x51\xaf\x1d\x03\x6a\x1d\xf1\x34\x03\x74\xe2\x3b\x85\x17\xb9\x93\x8b\x40\xc0\x4e\x9c\xe7\xd5\x2f\xb7\xc7\xec\x6a\x99\x08\x70\x35\x26\x0e\xcf\x1c\x89\x87\x5f\x2e\x1f\x92\x1b\x60\xc7\x30\x63\x73\xc8\xb1\xc8\xb6\x71\xf3\x78\xef\xb8\x5e\x6f\x58\xaf\x2f\xaa\xe7\x90\x76\x6b\x4c\xaf\xc8\x3a\x82\x7a\x2d\x0a\xb9\x44\x69\x94\xa5\x3c\xb0\x45\xd1\xa3\x46\x55\xb4\x23\x80\x9a\x15\x61\x3b\x44\xcf\xb7\xc7\xce\xd9\x20\xa8\x45\x80\xf6\x8b\x9e\xb7\x6a\xc9\xc6\xc6\xdb\x55\xe1\x20\xe8\xb3\x73\xc0\x9c\x2e\xb4\xe0\xec\x76\x0e\x3b\xa8\x10\x38\x10\x39\x26\xa0\x97\x47\x4a\xfb\xd5\x94\xaf\x87\x36\xc1\x94\xe3\x80\x9c\x5c\xa6\xd4\x98\x16\x05\x3b\x4c\x6b\x87\xe8\x79\x4f\xad\x99\x09\x1d\xe1\xad\x54\x97\x61\x8c\x04\x9e\x4c\x54\x64\x92\x5f\x0d\x5f\x48\x30\x14\x51\xd7\x11\x4e\xe8\x47\xac\xe2\xaa\xaf\x5e\xd7\xb8\xd9\xae\xdf\xf7\xe6\xa8\xc4\xa9\x64\xc7\x94\x8c\xb1\x0c\xc3\xa8\xb2\xc4\xb4\x0d\x47\x6a\xe9\xf0\x8d\xf2\xe4\xa8\xd8\x4a\x27\x95\x1a\xa7\x4e\x0b\x2e\x8d\xae\xc5\x3a\x71\x94\x53\x7e\x6f\x82\x9d\xba\xe1\x5d\xf3\xec\x29\x9a\x8c\x93\x19\xe1\xdf\xe5\xed\x65\x1c\x2d\x18\x90\x75\x5d\x79\x83\xb4\x8a\x97\xc9\xc3\xd2\xee\x5e\x9e\xe5\x97\x1f\x27\x6c\x7c\x6a\x09\xca\x54\x79\x13\x5e\x29\x23\xb3\xd2\xcf\xe6\x9b\xf9\x40\x6f\xeb\x94\x23\xc6\xab\x93\xce\x49\x57\x37\x22\xd6\x28\xe0\xca\x4d\xa6\xd2\xb3\x6a\x81\x4b\xbc\xa8\xc8\x25\x67\x5f\xec\x5a\xd8\x52\xee\xdd\xc2\xc6\xd0\x0a\x37\x84\x6a\xf6\x46\x66\x92\x2e\x17\x54\xbf\x9f\x17\xe8\x4a\x19\x89\x6a\x21\x7b\x4f\xf5\xb5\x7e\x3a\xee\x9c\x52\xe9\xda\x44\x2f\xff\xc4\xd7\x3d\x78\xaa\xef\x26\x26\x44\xfd\x2b\x13\x8f\x57\x25\xdb\xef\x99\x85\x03\xd3\xe2\x29\xbc\x8f\x6d\x61\xba\xe2\x83\xb8\x30\xbf\xdb\x09\xfb\xbe\xfe\x3a\x1f\xa2\xd0\xa0\x04\xfe\x00\x2a\x53\xe7\x2e\x2c\xef\xd2\x67\x1f\x6e\xe4\x62\xa1\xb8\x91\x5c\x9c\x18\x8d\xb3\x1a\x01\x9f\x17\x18\xc3\xd5\xbf\x40\x7f\xe5\x27\xd7\x59\xae\xd1\x46\xc5\xd9\x87\x67\x2d\xdb\x73\x1f\x74\x57\xde\xe4\xcb\x25\xbc\x39\xe8\x1b\xa2\x3e\x1b\x8b\x3e\xd0\xd2\x43\x75\xdf\x5a\x73\xbf\xc9\x16\x7a\x1e\xc0\x8e\x3a\x3a\x5c\xab\x53\xe9\x1d\xd9\x4c\xbf\x95\xd7\xea\xda\x9e\x6a\x77\xae\xc0\x33\xe1\x42\x22\xbd\x39\xfb\xe0\x4f\xea\xeb\xa4\x24\xad\x16\x4c\x1e\xa0\xeb\x8f\xf7\xa2\x2a\x43\xf0\x1d\x42\x59\x4e\x9c\x1d\xfc\xfe\xdf\xff\xee\xa7\xdf\xfd\xeb\x4f\xff\xf2\x1f\x3f\xfd\xe3\x8f\x7f\xf8\xe7\xbf\xff\xef\xff\xfc\xaf\xdf\xff\xee\x1f\x7e\xfa\xb7\x1f\xff\xf0\xe3\x3f\x1d\xcc\x8c\xfb\xcc\x9b\xeb\x5e\x9c\xf0\x69\x8c\xe0\xed\xc8\x01\x8d\x99\xdd\x63\xa0\x6d\xe3\xd8\x28\xc0\xa8\x56\xb1\xd8\xf8\xd5\x0c\x8f\x28\x19\x97\x62\x2a\xac\x2f\x39\xd6\x16\x74\xd4\xbc\x5f\xd0\x59\xb0\x99\x51\x44\xdc\x45\x17\x5e\xd6\xd6\xcd\x6c\x0a\x6e\x5e\xdf\x15\xea\x5d\x73\x5b\xd4\xee\x3e\x50\xb4\x51\x4d\x1d\xe2\x90\x76\xd7\xef\x69\x46\x4a\x99\x3b\x8e\xe8\x96\x3d\xf6\x8d\x2c\x2d\x08\x75\xee\x56\xd3\xbc\x6f\x9b\xed\xbd\xd1\x3a\x07\x99\x98\x51\xf4\x9c\x07\x76\x5b\x8b\xa7\x14\xb0\x2d\x1b\xae\x87\x3f\x3f\x2b\x75\x77\x46\xac\xc1\xed\xdd\x94\x6f\xe1\xed\xb2\xfa\x6e\x9c\xef\x1a\x19\x84\x06\x10\x54\x21\xc9\xf6\x29\xd5\xf4\x6a\x7e\x4f\x1c\xc3\x90\x82\xa3\x93\x73\x59\xf2\xd5\x90\xae\xe1\x41\xbe\x60\xcd\xee\x28\xd3\x37\xb2\xbc\xaf\xa9\xb9\x8b\xfd\x71\xb8\x25\x6b\x5d\xcf\x9e\xcf\x0e\xc4\xab\x04\xfc\xf4\x42\x21\xbc\x62\x20\x9c\x3d\x2b\xd6\x68\x9e\x61\x90\x4a\x85\xa6\xb8\x3c\x12\x33\x4c\x71\x4c\x00\x52\x4c\x8a\xd9\xd2\xd3\x74\x13\x95\x68\xbc\x2c\x2b\xca\x8f\xa0\x13\x1c\x25\xb2\x28\xc4\xc1\x4c\x8d\x48\xd3\xef\x96\xba\xc3\x26\x48\x2b\x9e\xc9\xb4\x36\x39\xf6\x6d\xe9\xe0\xfe\x7c\x70\x7f\x42\xb8\x3f\x23\xdc\x9b\x12\xe6\xab\x4f\xc2\x32\x6c\x66\x85\x6b\x49\xe1\x8f\xf7\x37\x94\xd9\x5f\x63\xc6\x0a\xb9\x70\x57\x7c\x79\x09\xfb\x84\x28\x6b\xcd\xe5\x27\x5c\x12\xda\xbc\x06\xd4\xe3\x9b\x45\x5f\xca\xab\x27\xd5\x6a\x05\xbf\x11\x57\xb7\xbc\x5a\xb8\x75\x09\xca\xd9\x1d\xb5\xef\x46\xdb\x7a\xaf\x89\xb9\x2a\x75\xd7\xc4\xdf\xcb\xc7\x67\xa7\xf7\xbc\xd7\x84\xba\x61\x7f\xc1\xc1\x52\xf3\x5b\x9d\xf9\xa4\x5b\x70\xf9\xb4\x67\x91\x5f\xf2\x6f\x73\xf5\x9d\x72\x0f\xdb\xb7\xee\xed\x7a\x1c\x73\x54\x54\x73\xf7\xbc\x9f\x5e\x78\x1c\x1b\x05\x5a\x25\x4f\xab\x79\xb1\xc8\xa3\x39\x5f\x25\xd3\x3a\x43\x19\xd4\xef\x97\x99\x74\x9f\xb3\x44\xd4\x83\xd6\xed\x0a\x2f\x8a\x73\x9a\xa4\xbf\x95\xa3\x14\x67\x90\xd7\x5b\x43\xd8\x39\x9f\xe8\x2c\x7b\xfd\xbe\x47\x3c\x81\xe2\x2c\xd0\xae\x37\xc7\xd0\x9a\x6c\xbf\x39\xc6\x42\xde\x7a\xb4\xa5\x76\xef\x6e\x60\x08\x6b\x8e\xb7\x38\x6b\xdb\x73\x63\xcc\x30\x04\x55\xcf\xf0\xc7\x77\x71\x8c\x9d\xd7\x6e\x17\xc7\xd4\xae\x8c\xa9\xcf\x19\x4f\x78\x98\x69\xef\x75\x6d\x0c\x2e\x54\xcf\x79\x5e\x13\x9d\x6a\xb5\x71\x12\x76\xb6\x45\xd7\xd9\x8f\x3d\xee\x95\x71\x56\xf9\x93\xee\x95\x71\xe0\x98\x12\xde\xbd\x2e\x4d\x05\x6d\x71\xd0\xc7\x51\xad\xfb\x62\xf6\xbc\x93\xc4\x09\x93\x33\x51\x1b\xa7\x2d\xbb\x4f\x0f\x16\xe7\x4a\xe0\x81\x68\xe8\x8f\x8e\xb7\x0b\x47\xbb\x0e\x58\x0e\x94\x9f\xc3\x38\xc1\x33\xd2\x73\xdd\x05\x93\x03\x97\xba\x3c\xd8\xe9\x2e\x90\x71\x8d\xa3\xb6\x54\xbc\xd1\x84\x77\xa8\x78\xa3\x0a\xb7\x74\xfe\x1b\xac\xe4\x50\x41\xcc\xc2\xac\x97\xbe\xbb\xe3\x45\x98\xdc\x70\xe2\x26\x25\xc6\x50\xff\x31\x04\xaa\x0a\xaa\x70\x6c\xcc\x9e\x8c\xd5\xfd\x64\x78\x55\x01\x88\x3b\x75\x7e\xa8\x56\x08\xd7\x81\x77\xdf\xe5\x3c\x78\x52\x59\x57\x79\x40\x7f\x57\x63\x6d\x29\x88\xd3\x74\xae\xf1\x20\x8f\x8f\x53\x70\x07\x9e\x9a\x43\xcd\x0b\x0b\xd6\xdf\xa7\x38\x07\x67\x74\xff\xe2\x1c\xa7\xf7\x96\x9b\x22\x70\x36\xff\xd7\x37\x45\x58\xec\xda\x56\x43\xaf\x02\x7a\x5d\xcd\xe3\xa8\x58\x5b\xfd\xf3\x69\xd7\x44\xec\x62\x6d\xec\x73\xfd\x83\xae\x03\xe9\xbe\x02\xa2\xa5\x15\xcc\x6c\x54\x09\x88\xb9\x07\x82\x8b\x41\xb6\x18\x2e\x63\xa7\xca\xa3\xc6\xfa\x6e\x69\x47\x8f\x1e\xa9\x15\x75\x34\x6b\x3a\x9a\x25\x1d\x7f\x84\x77\x39\x90\xa1\x73\xdf\xbb\x1c\x7a\xa8\xd1\x29\xe3\x76\xbb\xcb\x41\xcb\xff\xff\xb5\x5b\x1b\x7a\x50\xde\x41\x25\x89\x7e\x9d\x84\x15\x77\x3b\xa8\x1b\x68\x60\xb2\xbf\x4d\xb5\x03\x20\xda\x9a\x07\x5e\xde\x39\xd0\x75\x67\x3e\x7b\xa4\x3b\x3f\x78\xd0\xfe\x16\x50\x72\x15\x2f\x8e\xfc\x10\xa9\xc3\x64\x1f\x26\x3d\xc3\xe8\x64\x70\x1b\x88\xae\xf9\xd5\x88\x74\x24\x50\x3b\xef\xa2\xd8\x55\xf9\x76\x65\x36\x87\xb5\x6f\xf7\xe5\x4e\x2e\x0f\x2b\x1d\xdc\xad\x82\x3b\xf3\x8c\x35\x0d\xdc\xb8\xb3\x42\xff\x47\x7b\x54\xa1\x8f\x53\x92\x13\xf6\x28\x65\x9c\x9c\x96\xe8\xc0\x34\x4d\x9d\x7c\x48\xb8\x7e\x1e\xc5\xbc\xab\x2d\xb5\x2d\xbd\xb8\x55\x11\x9b\x81\x08\xb0\x01\xe7\x3b\xcb\xf0\x3f\xd3\x77\x4a\x53\x64\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27150, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xec, 0x26, 0xa4, 0xe1, 0x42, 0x3e, 0x47, 0x16, 0x62, 0x82, 0xe1, 0xc5, 0x67, 0x4, 0xfc, 0x87, 0x9f, 0xda, 0x5d, 0xfe, 0xc8, 0x5a, 0x81, 0xbf, 0x7c, 0x48, 0x44, 0x70, 0x46, 0xd5, 0x2f, 0x4d}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27236, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xe5, 0xd8, 0x11, 0x5a, 0x88, 0x9d, 0x84, 0x54, 0x98, 0x43, 0xa, 0x53, 0x49, 0x39, 0x23, 0xbe, 0x23, 0xb1, 0x82, 0x2d, 0xf7, 0x9a, 0xe4, 0xcb, 0xb5, 0xa9, 0xc8, 0xff, 0x38, 0x2b, 0x3a, 0xa1}}
 	return a, nil
 }
 
@@ -118,7 +118,7 @@ func cmdNameMainGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _cmdNameClientMainGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xbc\x56\x4d\x6f\xe3\x36\x10\x3d\x8b\xbf\x82\x25\xbc\x0b\xaa\x75\xe8\x45\xb0\x7b\x59\xc0\x87\xb5\x8b\xee\xe6\xd0\xc0\x48\x8c\xf6\x90\xe6\x40\x53\xb4\x4c\x84\x26\x15\x8a\x4a\x52\x08\xfa\xef\xc5\x50\x92\xe5\xcf\xd8\x75\xd2\xfa\x22\x82\x63\xbe\x37\x6f\xf8\x66\xa4\x8c\x8b\x07\x9e\x4a\xbc\xe4\xca\x20\xa4\x96\x99\x75\x1e\x53\x14\x11\x61\x8d\x97\x2f\x9e\xa0\x88\xcc\x35\x4f\xe1\xa9\x2d\x3c\xca\x52\xcd\xb1\x7c\xc4\x6c\x6c\xcd\x5c\xa5\x6c\xea\xb8\xc9\xc3\x31\xc2\xb5\x26\x98\x18\xee\x73\x82\xab\x0a\x45\x24\x55\x7e\x51\xcc\x98\xb0\xcb\x01\xec\x5e\x28\x1b\x9e\x2c\xb5\x01\x48\x9a\xa4\xaa\x10\x8a\xb2\x19\x26\x65\xc9\x26\xa3\xab\xc0\x3f\xe1\x7e\x81\x2f\xaa\xea\x14\xb2\xd4\x65\xa2\x25\xb3\x36\xd5\x92\xa5\x56\x73\x93\x32\xeb\xd2\x41\x08\x76\x44\x31\x42\x4f\xdc\x81\x3a\x08\x7c\x4b\x12\x87\x73\xef\x94\x49\x51\xb4\xf0\x3e\xdb\xd8\x80\x34\xd7\x37\x62\x84\xe6\x85\x11\x58\x19\xe5\x69\x8c\x4b\x14\x41\x55\xd8\x6d\x88\xfe\xc1\x1d\xfd\xd8\x62\xf6\xeb\xa4\x18\x4f\x12\x47\xfa\x98\x7c\xfd\xf2\xe9\xf3\x27\x58\xa4\x37\x93\x31\xa6\x3f\xa6\xd3\x49\x8c\xb5\xca\xbd\x34\x18\xfe\x23\xf3\x9c\xc4\xbb\x70\x6d\x46\x7d\x4c\x60\xb9\x0e\xf7\x25\xc0\x01\xd0\x09\x38\xad\x90\x7e\x7d\x31\x1d\xce\xe7\xcb\xcb\x4b\x58\x5c\x7f\x9b\xde\xee\xe2\x54\x8d\x5e\xf0\xc5\x9a\xde\x09\x77\xb9\xa4\x31\xd4\xf4\x59\xf9\x05\xee\x79\x89\xbf\x0e\x31\x0b\x37\xd0\x5e\x56\xcf\xcb\x13\xee\x6b\x30\xc0\x23\xee\xac\xc1\xdf\xa1\x2e\x63\xad\xa4\xf1\x28\xd2\x36\x65\x13\xa7\x8c\xd7\x86\x92\x3b\x08\xb1\xb2\x04\xc0\x5b\xe9\x9e\x94\x90\xec\x9a\x2f\x65\x55\xdd\x83\xd4\x4c\x1b\x48\x45\x58\x63\xfa\x58\x3a\x07\x99\x84\xd2\xff\xaa\xb8\xa6\x28\x5a\x5d\x73\xbf\x59\xb3\x3f\x95\x5f\x5c\x99\x5c\x8a\xc2\x49\x1a\x6f\x6c\x8f\xb4\x15\x0f\x61\x2f\x46\x11\xe8\x70\x0e\xff\x34\xc4\x46\x69\x10\x1f\xf2\xfa\x8d\x7b\xae\xa9\x74\x2e\x46\x51\x85\xa2\x44\xce\xa5\xc3\xc0\xce\xc6\xda\xd6\x65\x99\x81\x22\xc8\xba\xd6\xb3\x4a\x2b\x9b\xb1\x6b\xf9\xdc\x05\x28\x1c\x3b\x95\xa8\x2c\x1d\x37\xa9\xc4\x3d\x05\x50\xeb\xc5\xf8\x5d\xfa\x85\x4d\xf2\xa6\x9c\x07\xab\x05\x9b\xaa\x59\xa3\x08\x58\x84\x7f\x01\xac\xa6\xc9\xd9\x88\x8b\x87\xd4\xd9\xc2\x24\x20\x22\x82\x2e\x51\x06\x92\x2e\xcb\xef\x16\xce\xe1\x9e\x62\x37\xf2\xb1\x90\xb9\x9f\xfe\x9d\xc9\x15\x56\x64\x8b\x4e\xe4\x96\xf8\x8d\xc3\xf5\x01\x2a\xfc\x4b\x1f\x7f\x54\x20\x7d\x8f\xf6\x4e\xfc\x9c\x92\xbb\xe0\x0e\xd6\xe1\xdd\xe3\x03\xda\xb6\x59\x00\x76\xf8\xe1\xe9\x2f\x43\x42\x6a\xc0\x55\x35\x95\x0d\xd6\x7a\x1b\xb8\x93\x79\xa1\xfd\xf0\xc3\x2f\x35\xc1\xcf\xb6\xf0\xc0\xd0\x98\xb1\xea\xc6\xcd\xda\x80\x0b\x9d\x01\xf0\xd0\xb4\x3f\xa4\xce\xa4\xdb\xba\xbb\xba\x15\x42\x4f\xef\x6f\x05\x08\xdd\xdf\x1d\xeb\x85\x95\x55\x96\x01\xbd\xf5\xcb\x41\x5a\x08\x1c\xb4\x4c\x8d\xf1\x46\xdf\x34\x20\x6b\xe6\x09\xbe\x09\x5e\x01\xf6\xbd\x8d\xd2\x05\x68\x3b\x07\x8f\x39\x86\xae\xdd\xf4\x8e\x29\x3b\xbc\xdd\xcc\xce\x76\x66\x07\x7a\xd4\x3c\x1b\x54\xa7\xdb\xf3\x6c\x86\xd7\x3d\xfa\x9a\x49\x8f\x8c\xef\xf0\x6e\xdf\xb0\x6c\x78\x7d\xec\xb7\x2c\x84\x8e\x4e\x6f\x23\x56\x57\x15\xde\x4f\x63\x6b\x8c\x14\x9e\xb6\xef\xad\x7f\x37\x8d\x8d\xd8\x9a\xc5\x90\xc3\x5e\x8b\x75\x01\x6a\xc4\x7b\x4f\xe2\x83\xca\xff\xcf\x49\xdc\x29\x7c\x9f\x49\xdc\xe1\xfd\x07\x93\xf8\x1c\xf0\xf3\x26\x71\xbd\xaa\xea\xcf\x9b\xf0\x5f\x50\xbc\xe1\xdc\x8b\xf7\xfe\x85\x0f\xaa\x7f\x02\x00\x00\xff\xff\x06\x3c\xfd\x90\x6b\x0b\x00\x00")
+var _cmdNameClientMainGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xbd\x56\xdf\x4f\xdb\x30\x10\x7e\x6e\xfe\x0a\x2f\x02\x94\x6e\xc5\x45\x08\x5e\x90\xfa\x40\xbb\x0d\x78\x18\xaa\xa0\xda\x1e\x18\x9a\xdc\xc4\x4d\x2d\x52\x3b\x38\x6e\x01\x45\xf9\xdf\x77\xe7\x24\x4d\x7f\xd2\x52\xd8\xfa\x12\xd7\xf6\x7d\x77\xdf\xdd\x77\x97\xc4\xcc\x7f\x60\x21\x27\x23\x26\xa4\xe3\x88\x51\xac\xb4\x21\x9e\x53\x73\x7d\x25\x0d\x7f\x36\x2e\x2c\x07\x11\x0b\xf1\x19\x29\x7c\xa4\xa9\x18\x10\xfe\x48\x68\x47\xc9\x81\x08\x69\x4f\x33\x99\x58\x33\x97\x45\x91\x4b\x5c\xc9\x4c\xe2\x92\x2c\x03\x8b\x50\x98\xe1\xb8\x4f\x7d\x35\x6a\xe2\xee\xa1\x50\xf6\x49\x43\x65\x81\xb8\x0c\xe0\x9a\x53\x8b\xfb\xc4\x4d\x53\xda\x6d\x5f\x59\xff\x5d\x66\x86\xe4\x30\xcb\xb6\x71\x16\xea\xd8\x2f\x9d\x29\x15\x46\x1c\xb0\x23\x26\x43\xaa\x74\xd8\xb4\x87\x95\xa3\xba\xe3\x34\x9b\xe4\x9c\x24\x5c\x4f\x84\x8f\x9c\x5f\xc8\x90\x4d\x38\x91\x8a\x8c\xb8\x19\xaa\x20\x71\x26\x4c\x23\xfd\x3f\xa4\x45\x8a\x0c\xd0\x36\xa4\x28\xd4\x6a\x2c\x03\xdc\x8f\xfb\xf4\x9b\x0c\x62\x25\xa4\x49\x10\xb1\x30\x40\x57\xe7\x41\xa0\x49\x62\xb4\x90\xa1\x53\x1b\x1a\x13\xcf\x6d\x20\xf1\xd9\x0d\xb0\x1d\x8c\xa5\x4f\x84\x14\xc6\xab\x93\xd4\xa9\x61\x9e\xe9\xad\x3d\xfd\xc9\xb4\x77\x50\x62\x36\x72\x9a\x94\xc1\xda\x85\x3f\x67\xa7\x47\x27\x47\xb8\x08\x6f\xba\x1d\xe2\x5d\xf6\x7a\xdd\x3a\x89\x44\x62\xb8\x24\x78\x87\x27\x89\x5b\x5f\x86\x2b\x23\x02\x43\x5c\xce\xc2\x9d\x5a\x38\x04\xda\x02\xa7\x24\xd2\xc8\x4b\x5d\xe1\x9c\x1c\x1f\x1f\xe3\xe2\xfa\xbc\x77\xbb\x8c\x93\x15\x7c\x51\x69\x33\x7c\xbb\x4c\x27\xdc\xab\x63\x95\x9e\x40\x2d\x64\xcf\x70\x72\xd6\x22\xd4\xd6\xb4\x2c\x3f\x6c\x6e\xa1\x00\x28\x6e\x9b\x69\x25\xc9\x05\xe6\xa5\x13\x09\x2e\x8d\x53\x03\xd5\xd2\x2e\x04\x6f\x22\xe9\xb9\x77\x78\x44\xd3\x14\x01\x6f\x73\x19\xd0\x6b\x36\xe2\x59\x76\x8f\x54\x63\xb8\x03\x0f\xa8\xbc\x6c\x10\xae\x35\x46\x62\x53\xff\x55\xb0\x08\xaa\x3c\x2d\x73\xa3\x58\xd3\x5f\x10\xf3\x95\x4c\xb8\x3f\xd6\xc0\x62\x6e\xbb\x1d\x29\xff\xc1\xee\x01\x24\xf2\x00\xbc\x4f\x2d\x22\x45\x84\xe4\x6d\x5c\xdf\x99\x01\x5c\x38\x80\x1b\x40\x20\xe0\x03\xae\x51\x77\x92\x76\x22\x95\xa7\xa5\x8f\x8c\x30\xea\x9c\xcf\x34\x2c\xd0\xe1\x35\x7f\xaa\x0e\x3c\x34\xdb\xd6\x11\xca\x7b\x01\x18\x93\x0d\xa9\x85\x51\xb0\x27\x10\x7f\x36\x43\x3f\xf2\xe6\x28\x72\xbc\x36\x85\xb8\x29\x8a\x35\xc0\x81\x6b\xdf\x3c\x23\xd6\x72\x27\x21\xb3\x1a\xb6\x8e\x90\xc8\x24\x4d\x2f\x14\xda\x81\x6f\x7a\xc3\x1f\xc7\x3c\x31\xbd\x97\x98\x4f\xb1\x6a\x6a\x5c\x31\x5f\x08\x7c\xce\x38\x37\xf0\xc0\x6f\x83\x1c\x08\xcc\xc7\x8a\x84\x54\x19\x19\x80\x22\xac\x64\x68\x85\x77\x4f\xd6\x70\x5b\xf4\x82\xb0\xad\xfd\xc9\x6f\xe9\xda\xd0\xd0\x57\x56\xa4\xdb\xea\xed\x7d\xe0\xd0\x35\xe3\xc8\xb4\xf6\xbf\xe4\x0e\x3e\x43\x06\xd0\x43\xa1\xd0\xac\x9a\x6a\x33\x73\xd4\xb6\x0b\xc2\x63\x27\x5f\xf2\x28\xe6\x7a\xa1\x76\x79\x7f\xd8\x46\x5f\xdd\x1f\x78\x74\x7f\xb7\xa9\x41\xa6\x52\xc9\xc7\x66\xa9\x97\xb5\x6e\xf1\x60\xad\x64\x72\x8c\x77\xea\xa6\x00\x99\x11\x8f\xd5\x8d\xd5\x0a\x7a\x5f\xd9\x3d\xd5\x81\x57\x0e\xc7\x4d\x8a\xf1\x66\x2a\xbd\x24\xca\x0a\x6f\x39\xb2\x9d\x95\x59\x81\x6e\x14\xcf\x9c\xab\xed\xe5\xb9\xb3\x87\xd7\x35\xfa\x9a\x48\x37\xcc\x74\xfb\x09\x31\x27\x59\xfb\x4e\x59\x2d\x59\x3c\xda\x38\xd2\xa5\x3f\x2d\x95\x7d\x69\x81\x67\xc9\x7d\xe3\x95\x2f\xb3\xb7\x8d\x68\xe9\x2f\x0c\x68\x8c\x61\xa5\xc4\xaa\x03\x4f\xfa\x6f\x1e\xcf\x95\xf5\xf6\xe3\x79\x6d\x3a\xfe\xe7\x78\xae\x02\xff\x98\xf1\x5c\xe1\xfd\x83\xf1\xbc\x0b\xf8\x6e\xe3\x39\x5f\x65\xf9\x87\x90\xbd\x8b\x8c\xe7\xe4\x7c\xf8\xd1\x3f\xfb\xe9\xf5\x17\xe0\x15\x96\xb5\xe7\x0b\x00\x00")
 
 func cmdNameClientMainGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -133,8 +133,8 @@ func cmdNameClientMainGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "cmd/NAME-client/main.go.tmpl", size: 2923, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xc2, 0xcd, 0x51, 0x79, 0x9a, 0x4c, 0xcc, 0x37, 0xb0, 0xb7, 0x60, 0x7c, 0x1d, 0x9f, 0xa5, 0x53, 0x53, 0x2e, 0xf6, 0x2, 0xf2, 0x9c, 0x5c, 0x8c, 0x6d, 0x31, 0xc4, 0x35, 0xab, 0x44, 0x75, 0xee}}
+	info := bindataFileInfo{name: "cmd/NAME-client/main.go.tmpl", size: 3047, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x63, 0x6, 0xf7, 0x8a, 0x88, 0xd8, 0x33, 0x29, 0xc, 0x0, 0x6f, 0x7d, 0x0, 0x5, 0xf9, 0xef, 0xf0, 0x99, 0xd4, 0x72, 0x4, 0xf2, 0xd8, 0xf9, 0xd7, 0x26, 0xe0, 0x29, 0xc1, 0xd, 0x6e, 0x57}}
 	return a, nil
 }
 
@@ -178,7 +178,7 @@ func serverInterruptGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9d\x56\x4d\x6f\xdb\x38\x10\x3d\x4b\xbf\x82\x15\x7a\x90\x0b\x87\xba\x07\xcd\x21\x75\xd2\x4d\x80\x4d\x62\x24\xc6\xee\x71\x41\x4b\xb4\x4c\x94\x22\x55\x92\xca\xc7\x1a\xfe\xef\x3b\x43\x4a\xb4\xdc\x38\xde\x26\x39\x44\x16\x39\x7c\x7c\xf3\xde\x90\xa3\xa2\x20\x33\x5d\x71\x52\x73\xc5\x0d\x73\xbc\x22\xcb\x17\xb2\x64\x46\x2b\x4a\x2e\xee\xc8\xed\xdd\x82\x5c\x5e\x5c\x2f\x68\x5a\x14\xe4\x9e\x9b\x4e\x29\xa1\xea\x10\x40\x9e\x84\x94\x44\x3f\x72\xf3\x64\x84\xe3\xc4\xad\x85\x25\x2b\x21\xb9\x0f\xfe\x8b\x1b\x2b\xb4\x3a\x25\x9b\x0d\xed\x7f\x6f\xb7\xa3\x09\x72\x01\xbb\x8d\x67\xf1\x1d\x22\xd2\x96\x95\x3f\x58\xcd\x89\xe5\x06\xa0\xd3\x54\x34\xad\x36\x8e\xe4\x69\x92\x49\x5d\x67\xf0\x50\xdc\xf5\x8f\x62\xed\x5c\x3b\xfe\x5d\xb4\xad\xd1\x2b\x1c\x01\xaa\x4e\x34\x3c\x4b\xd3\x64\xb3\x11\x2b\xc2\x7f\x12\x3a\xd3\x6a\x25\x6a\xba\x30\x4c\x59\x0f\x9a\x31\x29\x33\x92\x29\xe6\x6c\x46\x60\xf3\x24\xab\x85\x5b\x77\x4b\x5a\xea\xa6\xc0\xd1\x13\xa1\xfd\x93\xd6\x3a\x43\x20\xae\x2a\x0c\xfb\x5f\xc4\xda\xb4\xe5\x80\xa8\x75\x0d\x9a\xd4\x5a\x32\x55\x53\x6d\xea\xc2\x4f\xee\xd0\xd2\xa4\x5d\x92\x0c\x84\x98\x7f\xbb\xf6\xb9\xce\x99\x5b\x93\x93\xed\x16\xd3\x80\xe1\xfd\xc1\x02\x75\x11\x25\x24\x36\x49\xd3\x47\x66\x50\x98\x7f\x48\x9f\x2d\xbd\x34\x46\x1b\x1c\x00\x41\xfa\x17\x08\x2b\xd0\x64\x24\x4a\x4a\xad\x1c\x13\xca\x82\x59\x9c\x18\xfe\xb3\x13\x06\x2c\x5f\x09\x2e\x2b\xf0\x4e\x1b\x32\x38\xcc\x06\xfd\xdd\x4b\xcb\x87\xd5\xd6\x99\xae\x74\x64\x93\x26\x57\x8b\xc5\xfc\xbc\xaa\x0c\x0e\x41\x78\x9a\x5c\xf0\x65\x57\xef\x8d\xfc\x71\x3f\x9f\xed\x0d\xdc\x9e\x2f\x1e\x5e\xaf\x21\x4b\xad\x65\xba\xf5\x24\xef\x3b\x05\x93\xcc\x38\x0b\xfb\x2b\xfe\x44\xd0\xd2\x9e\xc8\x94\xd4\x00\x18\x5f\x98\xaa\x20\xa6\xf2\x08\x61\x0c\xca\x11\x14\x82\xbc\x10\xa9\x65\xd6\x42\x62\x65\xe0\x8d\xc1\x50\x3b\x35\xa4\xb3\xea\x54\x89\xfb\xe4\xe5\xaa\xee\xd3\x9a\x60\x42\xb0\xe6\xbc\x6d\xa5\x28\x99\xc3\xe2\xac\x74\x03\x32\xa5\x09\x38\xd4\x6a\xa1\x80\xd0\xe9\x19\xb9\x1c\x5e\x72\xd0\x14\x57\xcc\xd1\xf1\x18\x6a\x4c\x89\x51\x0d\xfb\xc1\xf3\x72\xcd\x14\xe1\xa8\x7f\x1f\xfa\x10\x38\x5e\x2b\x07\xa3\x5d\xeb\x48\x9a\xd4\x7a\xf7\x9a\xe3\xea\x3e\x34\xc8\x22\x85\x75\x78\x26\xd3\x04\x4a\x0d\xc8\xd2\x30\x0c\x54\x71\x21\xa6\x91\x7b\xe2\x49\x02\x99\xd1\x39\x28\xea\xa4\xca\x33\x37\x54\x62\x36\x25\x99\x97\x07\x7f\x30\x90\x1d\x9e\x11\x06\x6d\xc0\xdd\x92\xa4\x41\xca\x28\x33\xbd\xe5\x4f\x9e\xe4\x4d\xf7\x0c\xf9\xe1\x14\xbd\x02\xe1\x24\xcf\xb3\xc2\x03\x85\xb3\x55\x00\x8e\x8f\x0f\x93\xe6\x3b\x32\xf1\x33\xf4\x5a\x55\xfc\x79\x72\x6c\x6d\xd9\x54\x52\x28\xfe\x36\xc4\x2c\x04\x1c\x05\xc1\x7f\x70\xcb\xbc\x0d\x32\x0f\x01\x47\x41\xec\x4b\xb3\xd4\xf2\x6d\x8c\x07\x3f\x7f\x14\x02\xa4\x2e\x8f\xb0\x58\xe0\xf4\x24\xa8\xec\x6b\xe3\xeb\x49\x08\xfd\xd3\x3b\x7b\xae\x2a\x2f\x77\xbe\x67\xca\x94\x34\xb8\xe5\x16\x1d\x18\xee\x19\x8a\x87\xed\x8a\xcb\x96\x1b\x7a\xc3\xdd\x5a\x57\x16\x2f\x16\xa8\x14\x9c\x20\xd1\xf1\x58\x29\xf1\x70\x7e\x3a\x23\x59\xf6\xbe\x92\xc1\xb5\xbf\x54\xcc\x00\xe7\xb5\x58\x63\xbd\xb4\x4b\x7a\x03\x55\xee\x79\x85\xbc\xf3\x78\x50\xa6\x9e\x55\x28\xf7\xbb\x16\x0f\x13\x1c\x17\x4a\xe9\xe4\x77\x74\x18\xb6\x02\x51\xf7\x65\x78\xff\xbd\x0b\xf2\xf8\x0b\xe3\xb5\x3c\xf1\x62\xfa\x80\x3c\x08\x99\x4d\xc7\xea\x0c\x68\x3e\x3f\xa9\xa6\x78\xea\x51\x23\xbc\x80\x43\x86\x00\x51\xb6\x87\xa2\x31\x17\xe3\x69\x28\x21\xc3\xce\x51\x21\x78\xfa\x77\xc3\x5d\x67\x14\xfe\xdc\xfa\x4a\xb2\xe6\x71\xe4\x00\xc2\x05\xa9\xc7\x06\xec\x46\x5f\x19\xe0\xef\x31\x14\x29\x1e\x77\x13\x0e\x3b\x00\xde\xf3\x1a\xf9\x1a\x68\x39\x0f\xa1\xc7\xd0\x5b\xd6\x40\x4f\xee\xe3\x00\x19\x76\xdf\x2f\x68\x4b\x83\x79\x52\x7d\xcc\xaf\x5d\xe7\x05\xbf\xb0\x41\x1c\xf0\x2b\xf6\x8d\x0f\xf8\x85\x6b\xf7\xfd\x1a\xd0\x7c\xd6\xd0\x1f\x46\x8e\x61\x9f\x07\xa2\x8a\x97\x2e\x7f\x15\xfa\x5e\xb3\x10\x5d\x6a\xcb\x11\x10\xd1\x3d\xdf\x92\x7c\x89\xbb\xf4\xdc\x93\x92\xce\x30\x2e\xd8\xe0\xd7\x0d\xcd\xfc\x81\xbb\xef\x42\x31\x29\xfe\x05\xf5\x03\xd5\x08\x39\x39\x50\x0d\xc8\xf7\x75\x35\xf8\xd1\x6e\x69\x4b\x23\x96\x87\x8f\x24\xf1\x08\x7e\x25\x06\xf7\x5b\x79\xaf\x3f\x94\xf8\xaf\x65\xe0\xcd\xbd\x7c\x16\x60\xe9\x9e\x53\x1c\x86\xc0\x95\xaf\x27\xa1\xf9\x41\xa0\xef\xce\x50\x99\xbb\x4e\x6b\x1f\x4b\x24\xf7\x46\x4d\x4e\x70\x2e\x06\xf7\x7d\xfc\x5b\x67\xa1\x85\x58\x1b\x3b\x33\x62\x9c\x91\xfe\xbb\x89\xfe\x6d\x58\xdb\x63\x21\xfa\x24\xb0\xeb\x31\xe2\x9a\xfe\xcb\x6a\xb3\x81\x6a\x82\x8f\xd1\xcf\x02\x75\x8e\x1c\xfa\x6b\x18\xbf\xc7\x20\xdf\x41\xec\xcd\xe6\xb3\xe8\xe9\x91\x68\xca\x68\x70\xd8\xa4\xdf\x36\x9e\x12\xf4\x72\xef\x43\x63\x9c\xd4\xe6\x37\x49\x1c\xd8\xe7\x94\xc0\xdf\x01\x72\xd3\xd1\xde\xe1\xe4\xa1\x26\x20\x90\x84\xca\x87\xaf\xa6\x9d\xa0\xfe\x93\xaa\x11\x15\x5c\xf1\x4f\xcc\x70\x3b\xe6\xb9\xaf\xe8\xce\xb1\x18\x81\x69\x85\xc2\x88\x24\x2c\x98\xfc\x1f\xff\x78\xa5\xd2\x72\x0c\x00\x00")
+var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9d\x56\x4d\x53\xe3\x38\x10\x3d\xdb\xbf\xa2\xd7\x35\x87\x64\x2b\xc8\x77\x6a\x38\x30\xc0\x2c\x54\x2d\x90\x82\xd4\xee\x71\x4b\xb1\x15\x47\x35\xb2\xe4\x91\x64\xc2\x6c\x2a\xff\x7d\xbb\x25\xdb\x71\x86\xc0\x0e\xe4\x10\xdb\xad\xd6\xeb\xee\xf7\x5a\x1f\x79\x0e\x17\xa6\x14\x50\x09\x2d\x2c\xf7\xa2\x84\xe5\x0f\x58\x72\x6b\x34\x83\xcb\x7b\xb8\xbb\x5f\xc0\xd5\xe5\xcd\x82\xa5\x79\x0e\x0f\xc2\xb6\x5a\x4b\x5d\x45\x07\xd8\x48\xa5\xc0\x3c\x09\xbb\xb1\xd2\x0b\xf0\x6b\xe9\x60\x25\x95\x08\xce\x7f\x09\xeb\xa4\xd1\xa7\xb0\xdd\xb2\xee\x7d\xb7\x1b\x0d\xc0\x25\x46\x1b\x8f\xd2\x37\x7a\xa4\x0d\x2f\xbe\xf1\x4a\x80\x13\x16\xa1\xd3\x54\xd6\x8d\xb1\x1e\x26\x69\x92\x29\x53\x65\xf8\xd0\xc2\x77\x8f\x7c\xed\x7d\x33\x7e\xcf\x9b\xc6\x9a\x15\x59\x30\x55\x2f\x6b\x91\xa5\x69\xb2\xdd\xca\x15\x88\xef\xc0\x2e\x8c\x5e\xc9\x8a\x2d\x2c\xd7\x2e\x80\x66\x5c\xa9\x0c\x32\xcd\xbd\xcb\x00\x83\x27\x59\x25\xfd\xba\x5d\xb2\xc2\xd4\x39\x59\x4f\xa4\x09\x4f\x56\x99\x8c\x80\x84\x2e\xc9\xed\x7f\x11\x2b\xdb\x14\x3d\xa2\x31\x15\x72\x52\x19\xc5\x75\xc5\x8c\xad\xf2\x30\xb8\x47\x4b\x93\x66\x09\x19\x12\x31\xff\x72\x13\x6a\x9d\x73\xbf\x86\x93\xdd\x8e\xca\x40\xf3\xa1\x31\x27\x5e\x64\x81\x85\x4d\xd3\xf4\x89\x5b\x22\xe6\x1f\xe8\xaa\x65\x57\xd6\x1a\x4b\x06\x24\xa4\xfb\x40\xb7\x9c\x44\xa6\x44\xa1\x30\xda\x73\xa9\x1d\x8a\x25\xc0\x8a\xef\xad\xb4\x28\xf9\x4a\x0a\x55\xa2\x76\xc6\x42\xaf\x30\xef\xf9\xf7\x3f\x1a\xd1\xcf\x76\xde\xb6\x85\x87\x6d\x9a\x5c\x2f\x16\xf3\xf3\xb2\xb4\x64\x42\xf7\x34\xb9\x14\xcb\xb6\x3a\xb0\xfc\xf1\x30\xbf\x38\x30\xdc\x9d\x2f\x1e\x5f\xce\x81\xa5\x31\x2a\xdd\x85\x24\x1f\x5a\x8d\x83\xdc\x7a\x87\xf1\xb5\xd8\x00\x49\xda\x25\x32\x83\x0a\x01\x87\x0f\xae\x4b\xf4\x29\x03\x42\xb4\x61\x3b\x22\x43\x58\x17\x21\x35\xdc\x39\x2c\xac\x88\x79\x93\x33\xf6\x4e\x85\xe5\xac\x5a\x5d\x50\x9c\x49\xb1\xaa\xba\xb2\xa6\x54\x10\xce\x39\x6f\x1a\x25\x0b\xee\xa9\x39\x4b\x53\x23\x4d\x69\x82\x0a\x35\x46\x6a\x4c\xe8\xf4\x0c\xae\xfa\x8f\xc9\x94\x28\x3e\x83\xfd\x28\x4e\x0f\x59\x84\xe5\x43\xdc\xfa\xbe\x23\x1c\x2c\x85\x32\x9b\x34\x84\x98\x53\x8b\x0c\xd8\xd6\x16\x04\x5b\xf3\x6f\x62\x52\xac\xb9\x06\x41\x82\x4d\xa3\xeb\x63\x2c\xea\x46\x7b\xb4\xb6\x8d\x87\x34\xa9\xcc\xfe\x73\x42\xb3\x3b\xd7\xc8\xa3\x92\xce\xd3\x22\x4e\x13\xec\x4d\xac\x8e\x45\x33\xd6\x46\x13\xa9\xee\x49\xa8\x34\x49\x90\x0a\x36\x47\x09\xbc\xd2\x93\x6c\x48\x34\x9b\x41\x16\xf8\xa4\x17\x8e\x3a\xe1\x73\x80\x21\xdd\x28\x5a\x92\xd4\x94\x32\xe9\xc2\xee\xc4\x26\x24\x79\xdb\x3e\x13\x21\x38\xc4\xae\x91\x69\x25\x26\x59\x1e\x80\xe2\x62\xcc\x11\x27\xf8\xc7\x41\xfb\x95\x32\x09\x23\xec\x46\x97\xe2\x79\xfa\xd6\xdc\xa2\x2e\x95\xd4\xe2\x75\x88\x8b\xe8\xf0\x26\x08\xfd\xe1\xb6\xf4\x3a\xc8\x3c\x3a\xbc\x09\xe2\x7e\xd4\x4b\xa3\x5e\xc7\x78\x0c\xe3\x6f\x42\x20\xd5\xc5\x1b\x59\x2c\x68\x78\x1a\x59\x0e\xbd\xf1\xf9\x24\xba\xfe\x19\x94\x3d\xd7\x65\xa0\x7b\x72\x20\xca\x0c\x6a\x0a\xb9\x23\x05\xfa\x8d\x89\xd1\xea\xbc\x16\xaa\x11\x96\xdd\x0a\xbf\x36\xa5\xa3\x9d\x08\x3b\x85\x06\xf6\xad\x39\x74\xca\xb0\x9a\x7f\x3b\x83\x2c\x7b\x5f\xcb\xd0\xdc\x9f\x3a\xa6\x87\x0b\x5c\xac\xa9\x5f\x9a\x25\xbb\xc5\x2e\x0f\x79\xc5\xba\x27\xc3\xda\x99\x85\xac\x62\xbb\xdf\x37\xb4\xfa\x70\x7d\x31\xc6\xa6\xbf\xc2\x43\x1f\x0a\x49\x3d\xa4\xe1\xfd\x1b\x35\xd2\x13\x76\x98\x97\xf4\x0c\x3b\xd9\x07\xe8\x21\xc8\x6c\x36\x66\xa7\x47\x0b\xf5\x29\x3d\xa3\x55\x4f\x1c\xd1\x8e\x1d\x2b\x44\x88\xa2\x39\xe6\x4d\xb5\xd8\x90\x86\x96\x2a\x46\x1e\x18\xc2\x67\xf8\xb6\xc2\xb7\x56\xd3\xeb\x2e\x74\x92\xb3\x4f\x23\x05\x08\x2e\x52\x3d\x16\x60\x6f\x7d\x21\x40\xd8\xf8\x88\xa4\x61\xb9\xdb\xb8\xd8\x11\xf0\x41\x54\x94\xaf\xc5\x33\xea\x31\x1e\x4a\xec\x8e\xd7\x78\x88\x77\x7e\x88\x8c\xd1\x0f\x1b\xda\xb1\x28\x9e\xd2\x1f\xd3\x6b\x7f\x54\xa3\x5e\x74\xa2\x1c\xd1\x6b\x38\x68\x3e\xa0\x17\xcd\x3d\xd4\xab\x47\x0b\x55\xe3\x81\x32\x52\x8c\x2e\x06\x98\xa8\x16\x85\x9f\xbc\x70\x7d\xaf\x58\x84\xae\x8c\x13\x04\x48\xe8\x21\xdf\x02\x7e\x1f\xa2\x74\xb9\x27\x05\xbb\x20\xbf\x28\x43\x98\xd7\x9f\xfe\x8f\xc2\x7f\x95\x9a\x2b\xf9\x2f\xb2\x1f\x53\x1d\x20\xa7\x47\xba\x81\xf2\x7d\xd9\x0d\xc1\xda\x2e\x5d\x61\xe5\xf2\xf8\x92\x84\x80\x10\x66\x92\x73\x17\x2a\x68\xfd\xa1\xc2\x7f\x6e\x83\x20\xee\xd5\xb3\x44\x49\x0f\x94\x12\x68\x42\x55\x3e\x9f\xc4\xc3\x0f\x1d\xc3\x71\x8e\x9d\xb9\x3f\x9a\xdd\x53\x41\xc9\xbd\xd2\x93\x53\x1a\x1b\x9c\xbb\x83\xff\x4b\xeb\xf0\x08\x71\x6e\x38\x99\x09\xe3\x0c\xba\x8b\x16\xfb\xdb\xf2\xa6\xc3\x22\xf4\x69\xcc\xae\xc3\x18\xe6\x74\x57\xb1\xed\x16\xbb\x09\x6f\xaf\x9f\x24\xf1\x3c\xe4\xd0\x6d\xc3\x74\x81\xc3\x7a\x7b\xb2\xb7\xdb\x4f\xb2\x4b\x0f\x06\x51\x46\xc6\x3e\x48\x17\x76\x58\x25\xa4\xe5\xc1\xcd\x64\x5c\xd4\xf6\x17\x93\x38\x12\xe7\x14\xf0\x77\x24\xb9\xd9\x28\x76\x5c\x79\xc4\x09\x12\xa4\xb0\xf3\xf1\xce\xb3\x27\x34\xdc\xc1\x6a\x59\xe2\x16\xbf\xe1\x56\xb8\x71\x9e\x87\x8c\xee\x15\x1b\x3c\xa8\xac\xd8\x18\xfb\x9b\x15\x8a\xfc\x1f\x41\xdd\x81\x79\xa3\x0c\x00\x00")
 
 func serverServerGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -193,8 +193,8 @@ func serverServerGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3186, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x22, 0x4b, 0x84, 0x8c, 0xef, 0x9d, 0xb4, 0x1d, 0xd1, 0x7, 0x43, 0xda, 0x37, 0x33, 0xe4, 0x3, 0x6e, 0x34, 0xd6, 0xdd, 0x28, 0xec, 0x2, 0xd9, 0x66, 0xe9, 0xc, 0xb0, 0xae, 0xe4, 0xc0, 0x34}}
+	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3235, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x69, 0xe, 0x8f, 0x2e, 0xe3, 0x4d, 0xbd, 0x25, 0xdb, 0x62, 0xb6, 0xc9, 0xe9, 0xab, 0x2c, 0x25, 0x3a, 0xef, 0xef, 0x60, 0x8b, 0x87, 0xf0, 0x3f, 0xa, 0x75, 0xd4, 0x8e, 0x90, 0x9d, 0xe5, 0xfe}}
 	return a, nil
 }
 
@@ -218,7 +218,7 @@ func serverWrapperGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serviceServiceGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x84\x91\x5f\x4a\x03\x31\x10\x87\x9f\x33\xa7\x18\x96\x45\x76\x4b\x9b\x03\x08\xbe\xe8\x83\x08\x5a\x8a\xd6\x03\x6c\xb7\x63\x1b\xec\x26\x31\x99\xed\x1f\x86\xdc\x5d\xd2\x6e\xa5\xa2\xd0\xa7\x24\x93\xef\xf7\x91\x99\xf8\xa6\xfd\x6c\x56\x84\x91\xc2\xd6\xb4\x04\x60\x3a\xef\x02\x63\x05\xaa\x68\x9d\x65\xda\x73\x01\xa0\xfc\x02\x0b\x11\x3d\xbb\x7f\x3a\x5e\xcf\x1a\x5e\xe3\x24\xa5\x02\x6a\x80\x8f\xde\xb6\x38\xa5\xdd\xdb\x49\x51\xd5\x38\x12\x99\xbb\x67\xb7\xa3\x80\x7a\xa8\xea\x69\xd3\x51\x4a\xc3\x09\x05\x54\x20\xee\x83\xc5\x9b\x6b\xac\x24\x48\x00\x7c\xf0\x84\x57\xb5\x91\x43\xdf\x72\xb6\xfb\x85\x7e\xb7\xa6\xf3\x1b\xea\xc8\x32\x2d\x45\xfe\x89\x50\xc8\x6a\x91\x9d\xe1\x35\x96\x4c\x78\x7b\x87\x1a\x53\x02\x25\x12\x1a\xbb\x22\x2c\x4d\xae\x95\x4c\x3f\xe9\x17\xe2\xb5\x5b\xc6\x0c\xa9\x63\xe7\x55\xbc\xec\xf7\x12\xfd\xf5\xb6\x1a\x45\x4a\x33\xd4\xaa\x96\xf7\x38\x8c\x57\x3f\x9c\xd6\x31\x1a\x8b\x23\xbf\xd0\x22\x8f\x2e\x63\x58\x1a\xfd\x4a\x5f\x3d\x45\x9e\x1f\xfc\x59\x57\x63\xf5\x17\x8a\xde\xd9\x48\x17\xd4\x18\x29\x04\x17\x6a\x01\xa5\xd4\xb6\x09\x18\x28\x7a\xbc\x9e\xcb\xf8\xf9\x63\x72\x64\x8c\xd6\x6c\x40\xa9\xe3\x48\xc8\x2e\x53\x02\x91\x09\x9e\x76\xdf\x01\x00\x00\xff\xff\xb2\xb4\x55\x6e\x3c\x02\x00\x00")
+var _serviceServiceGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x85\x91\xc1\x4e\x02\x31\x10\x86\xcf\x9d\xa7\x98\x6c\x88\xd9\x25\xd0\x07\x30\xf1\xa2\x07\x63\xa2\x84\x28\x9e\xcd\xb2\x8c\xd2\x08\xed\xda\x76\x01\x33\xe9\xbb\x3b\x85\xd5\x20\x1c\x38\xb5\x9d\xf9\xfe\xe9\xfc\x33\x6d\xdd\x7c\xd6\x1f\x84\x81\xfc\xc6\x34\x04\x60\xd6\xad\xf3\x11\x4b\x50\x45\xe3\x6c\xa4\x5d\x2c\x00\x54\x3b\xc7\x82\x59\x4f\x6f\x1f\xf6\xe9\x69\x1d\x97\x38\x4e\xa9\x80\x0a\x60\x53\x7b\x7c\xc3\x1e\xd6\x77\x87\x13\xe0\xbd\xb3\x0d\x4e\x68\xfb\x72\xa8\x5c\x56\x38\x64\x9e\xb9\x47\xb7\x25\x8f\xba\x8f\xea\x49\xbd\xa6\x94\xfa\x17\x32\x28\x4f\xb1\xf3\x16\xaf\x2e\xb1\x9c\x20\x01\xc4\xef\x56\x54\x97\xca\x86\xe8\xbb\x26\xe6\xea\xed\x5c\xbf\x5a\xb1\xb8\xa2\x35\x49\x9f\x0b\xf1\x74\x2e\x21\x9f\x4b\x33\x6f\x8d\xb8\x1c\x44\xc2\xeb\x1b\xd4\x98\x12\x28\x66\x5f\x5b\x99\xd6\xc0\xe4\x98\xa4\xfe\xd4\x4f\x14\x97\x6e\x11\x32\xa4\xf6\xce\xcb\x70\xec\xf7\x18\xfd\xd7\x5b\x25\xdd\x0f\x4c\x1f\x2b\x9b\xb8\x3b\x1d\xe4\x08\x8d\xc5\xa1\xf4\xcd\x7c\xef\x32\x26\x9f\xeb\x67\xfa\xea\x28\xc4\x99\xb8\xef\xa5\x15\x96\xe7\x50\x68\x9d\x0d\x74\x44\x8d\x90\xbc\x77\xbe\x92\x49\x28\x95\xf7\xe6\x85\xc1\xcb\xba\x8c\xff\x2e\x26\x4b\x46\x68\xcd\x4a\x82\xfb\x91\x90\x5d\x08\xc1\x3c\xc6\xc3\xed\x07\xfa\xc8\xfd\xb9\x53\x02\x00\x00")
 
 func serviceServiceGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -233,8 +233,8 @@ func serviceServiceGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "service/service.go.tmpl", size: 572, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xcf, 0x67, 0xd4, 0x35, 0x7d, 0x82, 0xea, 0x92, 0x9a, 0xdd, 0x29, 0x78, 0xfd, 0xb4, 0xc4, 0xb4, 0x66, 0xb4, 0x58, 0x32, 0x35, 0x9a, 0x5d, 0xa7, 0xfa, 0x9a, 0x94, 0xe, 0x89, 0xcc, 0xfd, 0xcb}}
+	info := bindataFileInfo{name: "service/service.go.tmpl", size: 595, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x85, 0xc7, 0x2a, 0x16, 0xa7, 0x52, 0x58, 0x83, 0xf3, 0x54, 0x5b, 0x8, 0xa0, 0x97, 0x1c, 0x90, 0x75, 0x16, 0x30, 0xba, 0x77, 0xbd, 0xe4, 0xaa, 0x75, 0x70, 0x52, 0x55, 0xb2, 0x77, 0xa0, 0xed}}
 	return a, nil
 }
 
-- 
2.43.0


From 3bf5a94dade31b47d45b6c568f28a4251701df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:51 +0000
Subject: [PATCH 29/33] fix: additional bindings in lists, or before fields of
 the main binding, are parsed

---
 svcdef/svcparse/parser.go | 59 +++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 0a903de..a34619c 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -552,6 +552,18 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 				}
 				rv = append(rv, more_bindings...)
 				good_position = lex.GetPosition()
+			} else if tk == IDENT {
+				// Fields of the main binding after additional ones
+				lex.UnGetToPosition(good_position)
+				fields, custom, err := ParseBindingFields(lex)
+				if err != nil {
+					return nil, err
+				}
+				new_opt.Fields = append(new_opt.Fields, fields...)
+				if custom != nil {
+					new_opt.CustomHTTPPattern = custom
+				}
+				good_position = lex.GetPosition()
 			} else if tk == EOF || tk == ILLEGAL {
 				return nil, parserErr{
 					expected: "legal token while parsing HttpBindings",
@@ -568,21 +580,40 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 			tk, val = lex.GetTokenIgnoreWhitespace()
 		}
 	case val == "additional_bindings":
-		err := fastForwardTill(lex, "{")
-		if err != nil {
-			return nil, err
-		}
-		fields, custom, err := ParseBindingFields(lex)
-		if err != nil {
-			return nil, err
-		}
-		new_opt.Fields = fields
-		new_opt.CustomHTTPPattern = custom
-		err = fastForwardTill(lex, "}")
-		if err != nil {
-			return nil, err
+		// One binding, or a list of them in brackets
+		list := false
+		for {
+			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+			for tk == SYMBOL && (val == ":" || val == "[" || list && val == ",") {
+				list = list || val == "["
+				tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+			}
+			if list && tk == SYMBOL && val == "]" {
+				return rv, nil
+			}
+			if tk != OPEN_BRACE {
+				return nil, parserErr{
+					expected: "'{' of additional bindings",
+					line:     lex.GetLineNumber(),
+					val:      tk.String() + val,
+				}
+			}
+			fields, custom, err := ParseBindingFields(lex)
+			if err != nil {
+				return nil, err
+			}
+			new_opt.Fields = fields
+			new_opt.CustomHTTPPattern = custom
+			err = fastForwardTill(lex, "}")
+			if err != nil {
+				return nil, err
+			}
+			rv = append(rv, new_opt)
+			if !list {
+				return rv, nil
+			}
+			new_opt = &HTTPBinding{}
 		}
-		return append(rv, new_opt), nil
 	case val == "}":
 		// End of RPC
 		return nil, nil
-- 
2.43.0


From 21de012c43460ca78ec2881808d0221fa4b2b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 30/33] fix: clients take host names beginning with http for
 host names

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 2 +-
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 4c71119..978ad86 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -512,7 +512,7 @@ func HTTPHeadersToContext(ctx context.Context, r *http.Request) context.Context
 // instance. We expect instance to come from a service discovery system, so
 // likely of the form "host:port".
 func NewHTTPClient(instance string, options ...httptransport.ClientOption) ({{.Service.Name}}Server, error) {
-	if !strings.HasPrefix(instance, "http") {
+	if !strings.Contains(instance, "://") {
 		instance = "http://" + instance
 	}
 	u, err := url.Parse(instance)
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index dbb76f9..5d3d3b2 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.236kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.234kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (3.047kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\x1c\xc9\x75\xe7\xaa\xaf\x88\x29\x68\xc8\xcc\x76\x75\x16\x6d\xc0\x86\xdc\x83\x36\xc0\xa5\x67\x86\xd2\x70\x11\xbb\x39\x73\x20\x08\x2a\xab\x2a\xaa\x2b\xd5\x59\x99\xc9\x5c\x7a\x51\xbb\x2f\xbe\x8c\x01\x1b\x30\xe0\x93\x0f\x86\xe0\x93\xaf\x86\xcf\xfe\x1e\x8d\xa1\xbf\xf0\x5b\x62\xcb\xb5\xaa\x9a\xb4\x21\x40\x26\x24\x32\x2b\x33\xe2\xc5\x8b\x17\x2f\xde\x1e\x31\xb3\x99\x78\x9a\x2e\xa5\x38\x97\x89\xcc\xc3\x52\x2e\xc5\xfc\x46\xcc\xc3\x3c\x4d\x02\xf1\xec\x95\x78\xf9\xea\x4c\x9c\x3c\x7b\x7e\x16\x8c\x67\x33\xf1\x46\xe6\x55\x92\x44\xc9\x39\x37\x10\x57\x51\x1c\x8b\xf4\x52\xe6\x57\x79\x54\x4a\x51\xae\xa3\x42\xac\xa2\x58\x52\xe3\xef\x65\x5e\x44\x69\x72\x24\x6e\x6f\x03\xf5\x7c\x77\xe7\x7c\x10\xcf\x60\x34\xf7\x2b\xfe\x86\x16\xe3\x2c\x5c\x5c\x84\xe7\x12\xbf\xbc\xe6\xc7\x97\xe1\x86\xbe\x40\xe7\x33\x3d\x86\x58\xa4\x49\x19\x46\x49\x21\x36\xb2\x5c\xa7\xcb\x42\x94\xa9\xd8\x84\x17\x52\x44\xc9\x32\xba\x8c\x96\x55\x18\x0b\x99\x2c\xb3\x34\x4a\x4a\xe8\x92\xa7\x1b\x51\xc8\xfc\x32\x5a\xc8\x62\x8a\x90\x72\xf9\xb1\x92\x45\x29\xc2\x64\x09\xcf\x45\x96\x26\x05\x4c\xe1\x26\x93\x04\x09\x9b\xe2\x8c\x52\x78\x69\xa0\x4c\x45\x58\x88\x2b\x09\x93\x86\x7f\x65\xb2\x00\xba\xe5\x05\x02\x40\x78\x4b\xa9\x7e\xaf\xd2\x5c\x75\x24\x68\x53\x7a\x11\x22\xa5\x56\x22\xad\x72\x51\x54\x59\x96\xe6\x48\xe9\x32\x0f\x93\x02\x9f\x71\xb8\x28\x8c\xa3\xdf\x86\x25\x10\x02\xa1\x41\x9f\x4d\x58\x16\xc1\x78\x1c\x6d\xa8\x85\x37\x1e\x4d\xe6\x37\xa5\x2c\x26\xf0\x80\x73\x97\xd7\x25\x3e\x12\x1a\xb0\x24\xb3\xdf\x14\x69\x82\x2f\x56\x1b\x7a\x1f\xa5\xfc\xf7\x2c\x4a\xab\x32\x8a\xf1\x47\x22\xcb\xd9\xba\x2c\x33\xfd\x5c\xe5\xf4\xba\x28\x73\x80\x77\xa9\x1e\x01\x14\x0c\x01\xcf\xe7\x51\xb9\xae\xe6\xc1\x22\xdd\xcc\xce\xd3\xc3\x8b\xa8\x9c\xe1\xff\x35\x2d\xa0\x75\x98\xdc\x64\x73\x31\x39\x4f\xd3\x73\x58\xf2\xf3\x34\x0e\x93\xf3\x20\xcd\xcf\x67\x59\x9e\x96\xe9\xbc\x5a\xcd\x68\xfe\xb3\x8b\x24\xbd\x4a\x66\xd4\x1a\x7a\x2d\xab\x9c\x26\xb9\x47\x57\xdb\x05\xfa\xcb\x4d\x56\xee\x33\xae\x6a\x0f\x3d\x57\x91\x8c\x97\x9b\xb0\xb8\xd8\xa3\xb7\xd3\x07\x20\x00\x79\xaa\x45\xb9\x47\x77\xdd\x01\xfa\x96\xd1\x06\xb8\x2d\xdc\x64\x7b\x74\x77\xfa\x00\x84\xab\x3c\xcc\x32\x60\xb0\x3d\x00\xd8\x2e\xed\x25\xcd\x61\xf3\x86\xb3\x4d\x75\x3d\xa9\x7f\xc9\x2e\xce\x67\x32\xcf\xd3\x9c\x38\x6d\x60\x20\xc3\x79\xf4\x46\xb3\xdf\x40\x07\x7a\x40\x44\x6e\x6f\x0f\x45\xb4\x12\xf2\xa3\x08\x9e\xa6\xc9\x2a\x3a\x0f\xce\xcc\x4e\x98\xc0\x4e\x99\x88\x49\x02\xcc\x3f\x11\xb0\xe9\x6b\xb8\xe1\xdb\x43\xe0\x69\xfc\x17\x86\x98\x30\x28\xe0\x49\x6c\xb8\x03\xd4\xf3\x3c\x5b\x68\xa8\x2d\x3c\xe9\x63\xef\x97\x19\x88\x99\x70\x19\x96\x61\x73\xd0\x9d\x87\xc4\x27\xbb\xe3\x7b\xf6\x97\x69\xa0\xd1\x71\xc6\xc2\xbd\xbb\x07\x00\xb5\xd5\xf7\x22\x36\x3e\xed\x31\x04\x75\x74\x71\xf4\xc7\xe3\xf1\x65\x98\xa3\xb4\xfa\x20\x8e\x05\xc8\xa2\xe0\x34\x03\x99\x52\xf2\x6f\x12\x60\x80\xc6\x26\x0b\x73\xc9\xaf\x94\xf4\x09\x1e\x97\x69\xc4\x6f\x6a\xd3\x0c\x5e\xca\xab\x53\x94\xc5\x39\x7f\x64\x69\x16\xbc\x4c\xb3\xa7\x31\x88\x58\xf3\x16\x80\x66\x37\xfc\x83\x99\x37\xf8\x01\x78\x7f\x3c\x02\x51\xaa\xd6\x53\xb3\x21\x4b\x65\x6c\x4a\x22\x29\x78\x9c\x50\x3f\x2b\x64\x82\x67\xea\x11\x5f\x2b\xf1\x11\x9c\xe0\xbf\xf8\x42\x6f\xe9\xe0\x94\x1e\xf0\x95\xb3\x4d\x83\x33\xfd\x8c\x1f\xec\xf6\xc3\xd6\xb0\x55\xbe\x0f\xe3\x8a\xe6\xed\xc8\x95\xe0\x6b\x7c\x7e\x01\xcf\x48\xbd\xd9\xc1\x4e\x7f\xc4\x89\xd1\x6c\x07\x3b\xff\x99\x91\x06\x7d\x9e\x88\x90\xd5\x5b\x3e\x15\x51\xf9\xb0\x10\x55\x21\x57\x55\x4c\x6a\x6a\x55\x25\x0b\x9c\x3a\xe8\xc0\x75\x58\x8a\x44\xa2\x96\x4a\x45\x9a\x91\x6d\x20\x52\xec\x0b\xcf\x87\x5a\x0d\x20\xc0\x79\x58\x44\x45\x20\xbe\x86\xee\xf2\x1a\x66\x1e\xcb\xa9\xb8\x49\x2b\xb1\x89\xce\xd7\xa5\xc8\xc2\x02\x55\xa4\x83\x30\xc0\x0b\xcd\x40\x3c\x0e\xac\xcd\xb2\x02\xc5\x8c\xe0\xa0\x2d\x72\x40\xf0\x2d\xe8\xd5\x18\x71\xbc\x02\x26\x14\x32\x5c\xac\x95\xa6\x17\x9e\x1e\xdd\x87\x6f\x39\x60\x58\x65\x0c\xb4\xc8\xe4\x22\x5a\x45\x0b\x18\xb4\x5c\x07\xc2\x7b\x4e\xf8\x81\xc1\x00\xf0\xe7\xe1\x3c\xbe\x81\x36\x9b\x08\x96\x87\xac\x04\xd0\xd8\x45\x74\x9e\x60\xd7\x28\xb9\x4c\x2f\x50\xdd\x4b\x71\xca\x36\x82\xb1\x2a\x08\x45\x89\x70\xec\x0c\x98\x07\x10\x84\xa6\x64\xe0\x43\x0b\x43\xdd\x45\x1c\xc9\xa4\xac\x53\x17\x46\x59\xa4\x71\x2c\xa9\x9f\x36\x50\x00\x23\x60\x7e\x06\x07\xf3\xb0\xe6\x0a\xfc\x05\x13\x42\x80\x05\xb0\x4d\xcc\xa6\x04\xd3\x2a\x42\x0a\x6f\x24\x51\xd2\xc1\x17\x7a\xc8\x7c\x15\x2e\x64\xdf\x4a\x20\x30\x33\x58\xb7\x91\x54\xe1\x60\xa2\x2e\x41\x70\x03\x3e\x55\xf3\x01\x39\x30\x8f\x12\xa2\xd3\x46\xa1\xe8\x2c\xec\x54\x99\x52\x65\x95\x27\x30\x75\x9c\x31\x22\xb8\x80\x69\xca\x1c\x2d\xa6\x50\x23\x1b\x8c\x69\x3a\x2d\x82\xde\x8e\x47\x6f\x13\x33\x3f\xb9\x04\x0b\x50\xf7\x60\x13\x50\x49\x82\xdb\x5b\x40\x11\x2c\xc4\x9f\x45\xe2\xe8\x58\x98\x36\x2f\x78\xc9\x58\x2c\xff\x2c\x52\x7d\xf4\x28\x02\xfe\xe8\xa9\x06\xfa\x25\x80\x62\xc1\xc5\xd6\xa5\xc1\x68\xfb\x10\xc8\xc0\xc0\x89\xb6\x8b\x2f\x9c\x41\xbd\x45\x79\x2d\x94\x95\x86\x62\x17\xff\x9d\x22\xc3\x1c\xdc\xde\x7e\x93\x62\x1b\x80\x1c\xbc\x61\x13\xf4\x0c\x88\xa1\xfa\xf9\xc2\x6b\xb4\x60\xc3\xd4\x69\x32\x65\x01\xe7\x23\xb5\xb4\xdd\x4a\xef\x10\x51\x19\x74\xcc\x1c\x91\xc1\xc1\xfd\xf1\x08\x15\x01\xb4\xfc\xe2\x58\x24\x51\x8c\x10\x46\x6a\xbd\xe0\x27\x01\x19\x8f\xee\xc6\xfa\x9d\x86\x1e\x6c\xc5\xc9\x9f\x22\x00\x20\xa2\x26\x27\x12\xf3\x05\x6e\x33\x97\xa2\xb4\x91\x7f\x06\x62\x04\x29\x7a\x87\x8d\x0f\x85\x4b\x65\xf8\xd4\x47\x68\x84\xd5\x35\xb3\x02\x89\xee\x74\x73\xd9\xc4\x6f\x2f\x37\xd3\x8c\x26\x87\x60\xbb\x57\x49\x3b\x06\x66\x47\xdd\xe2\xb2\x18\x17\xc1\x79\xcd\x64\xb7\xcb\x01\xb0\x3f\xe2\x44\x14\x84\x16\xdd\x5a\xab\x0d\x5d\x2e\xcd\xda\x15\x41\x83\x81\x08\x15\x6c\xd3\x5e\xb5\xf6\xb2\xe1\xba\xe9\xb7\x97\xbc\x1c\xa3\xbb\x31\x13\x99\xd7\xc4\x5d\x1b\x54\x8e\x8f\xe3\xf8\xe4\x7a\x21\xb3\x92\xf4\x54\xc1\x22\xd6\x50\x8a\x34\x14\xba\x2c\x6a\x6f\xda\xcd\x4a\xcb\x48\xb2\xa9\xc3\x2f\x08\x5e\x44\x4b\x10\xdb\x57\xa0\xdf\xc9\x0b\x7c\x5b\x68\xbf\x10\x9d\xa0\x2c\x8b\x6f\x50\xc4\xa0\xd8\x2c\x11\xf8\xc6\xb4\x26\xbd\x20\x61\xd9\x6e\xcc\xb2\xe1\x7e\x41\x09\x52\x68\xa9\x01\xf0\x5e\x65\xa8\x35\x50\x72\x4e\x1d\xc1\xb5\x00\x39\x34\x97\xa4\x6b\x40\x8c\x42\x37\xf0\x61\x13\x24\x3b\xc0\x84\xf7\xf2\x7a\x11\x57\x4b\xf8\x42\x5e\xe0\x5c\x22\x0a\xac\x9b\x97\x41\x8b\x1a\x9e\xc5\x69\x2a\x26\xa7\x65\x58\x56\xc5\x04\x9e\x5e\x43\xaf\x89\x6f\xf6\xfd\x81\xb3\xf1\xfb\xfa\x8b\x0e\xaa\x4c\x2d\x36\x41\x10\xb0\xc3\x45\xcc\x13\x25\xea\x35\xb0\xc2\x26\xcc\xde\xf1\xa7\xf7\x4c\xfe\xdb\x3b\x5c\xf5\xe6\x86\xe9\x92\x7c\xa3\xd1\xc4\x61\xa3\x09\x38\xd8\x77\x53\xd5\x55\x99\x91\xc0\x01\x23\x5c\x8d\x0f\x88\x0a\xb1\x2b\x81\x34\x68\xdd\x32\xc7\xc1\xe7\xf4\x02\x3f\x6b\xc4\xde\xc9\xeb\xf7\x5f\x89\x2f\xe0\x25\x71\x60\x16\x26\xd1\xc2\xb3\x16\xde\xca\x9b\x9c\x68\x10\x66\x05\x1f\x7e\x59\x3c\x14\xcb\x14\x56\x37\x49\x4b\x18\x02\x94\xef\x57\xb0\x9e\xd2\x5d\x78\xc3\x3b\x64\xd2\x23\x52\xbe\xaf\xf8\x79\x29\x63\x59\x4a\x4f\x63\x40\xdf\xec\x04\xe0\xb5\x45\xdf\x90\x0f\x91\x23\x9b\x10\xbe\xa2\x39\xa1\xd9\x07\x88\x7a\x23\xd6\x21\x78\xf5\x49\xaa\xb5\xfb\xce\x34\x05\x7a\x20\xbc\xe3\x63\x51\xa3\x2e\x53\x62\xd4\x29\x75\x01\x05\x3b\x49\xaf\xb3\x09\x4e\x93\xe6\x59\x5b\x1d\xde\xa1\xdf\x85\x73\x98\xfc\xd2\x32\x0e\x47\x5b\xce\x65\xa9\xd9\x1c\xb7\x86\x21\x34\x71\xfb\xd5\x5a\x26\xe6\x6b\xea\x70\xb6\x02\xc6\x0c\x3a\xe5\x0d\xa9\xf6\x4c\xc5\x8d\x05\x87\x70\x42\x8e\x03\x81\x09\x05\x14\x82\x7f\xc8\x22\x73\x18\xfa\x6a\x1d\x81\x90\xc0\xae\x05\x0c\xdd\x81\x82\x52\xfa\xaa\xb7\x36\x79\xd2\x5c\xa9\xfc\xf6\xac\x48\x0e\x33\xaf\x4f\xdb\x02\xbb\x43\x86\x8f\xfb\xe6\x75\x6f\x31\xd6\x42\x6a\xaa\xe6\x49\x14\xcf\xe5\x42\x46\x97\x6c\x1c\xd2\x14\x01\x98\x3b\xef\x00\xac\x1a\x69\xc0\x38\x50\xe8\x83\xb6\x59\x8d\x88\x40\x44\x91\x79\x97\xe0\x4e\x46\x31\xd9\x97\x7a\xe7\x51\xdc\x47\xd9\xc5\x61\x1c\x95\x37\xc1\x90\xb4\xa9\xcd\xdd\x15\x3a\x7b\x53\xf4\xff\x45\xd2\x9f\xa4\x48\xaa\x75\x9b\x8a\xbd\x24\xd4\xee\x61\x8f\x5d\x1d\xda\x6f\xde\xbc\x7e\xca\x76\xdb\xde\x1e\x2d\x1a\x87\x4e\x77\x0c\x02\x17\xd6\xc4\xb0\x56\x42\x78\x09\x3b\x0e\xdc\x40\xc9\xce\xc8\x39\x74\x11\x3d\x2e\x46\x60\xcd\x4e\x0b\xd9\xb3\xa0\x1c\xa7\x27\xcd\xd8\x61\x86\xad\x53\x8b\xf0\x04\xdc\x89\x0d\x16\xbf\x6f\x20\x5c\xae\xc2\x69\x58\xe0\x82\xbf\x7b\xdf\x0f\x09\x97\xb7\xeb\xeb\x13\x09\xfc\x27\x3d\xc4\xf6\x85\x8a\x54\x9d\xa5\xca\xa6\xf5\xa7\x64\xd6\xd7\xc7\x39\x46\x73\x0c\x66\xe4\xd5\x5e\x9b\xf9\xc0\x74\x7c\x0a\x9f\xdc\xde\x8a\xb3\xf4\xbb\xf4\x0a\x70\xad\xcd\x80\xe2\x45\xca\xe0\x7c\x80\x18\x31\x1e\xb7\xe8\x7c\x6d\xe5\xde\x35\x39\xf7\x0e\xc3\x1d\x89\xfa\xa4\x4c\xd8\xc7\x43\x0e\xb4\xdb\xb1\x83\x47\x51\x96\x8c\x9e\x51\xf4\x1d\x67\xef\xb4\x50\x16\x37\x35\x38\x49\x3a\x1b\x28\xff\x09\x5b\xd4\xe8\x00\xd3\xc7\x97\x48\xb9\x0e\xe5\x6c\xa7\xdb\x74\xc7\x8d\xc1\xdf\xbd\xda\xc6\x79\x60\x75\xe8\xc0\xf9\xec\x2e\x70\x8b\xc4\xe0\xff\xd6\x69\xac\x22\x2c\x8e\x8b\xa0\x1c\x37\x15\xfa\x40\x81\xe6\x60\x88\x71\x12\x8d\xd8\xee\xf3\xdc\xd1\x91\x2e\xc4\x81\x1d\xca\x17\xae\xdf\x34\xe4\x51\xa3\xc3\xf5\x79\x5d\xea\x0f\x08\x34\x73\x9c\xb2\x16\x1d\x79\xc3\x21\x27\xb9\x4e\xda\x9e\x9e\x75\x76\x4f\xa7\x5a\xd1\x97\xd9\x7d\x3b\x71\xa1\xc7\xd0\xce\xc0\xd8\x58\x28\xea\x31\xe7\x80\x3b\xa8\x16\x5f\xe3\xea\x50\xdc\x09\xa3\xb4\x32\x47\x31\x4a\x3b\x80\x85\xa7\x96\x0c\x96\xc9\xb4\xf7\x4c\x01\x39\x30\x2e\xf3\xc3\x65\xba\x09\xc1\x25\x1b\x68\x1c\x88\xd7\x79\xb4\x09\xf3\x28\xbe\xd1\xe1\x32\x37\xb6\xc6\x2c\x32\x34\x0f\xef\x43\x9b\x35\x70\x2e\xf0\xb9\xe1\xc6\x37\xbd\x77\x13\x48\x21\xc7\x5d\xf5\xd9\xc5\x71\x37\x2b\xf9\x71\x60\x99\x58\xe8\xec\xb4\x4c\x83\xf2\xa9\x73\x9d\xb8\x87\x6e\xd2\xb7\x50\xdb\x97\x40\xa7\x3e\x53\xab\x13\xbb\x9a\x81\xeb\xbe\xd3\x3a\x0d\x4e\xa4\x6b\xa1\xba\x22\x2b\x43\x2b\x55\x64\x1c\x63\xd9\x39\x38\x55\x0b\x68\x75\xad\xd6\xb7\x32\xc6\x30\xfd\x98\x27\xd0\xa9\x42\xbb\xc5\xcf\x66\x29\x74\x5a\x28\x78\xf1\xcc\x6f\x36\x40\x7c\x51\x88\x5e\x4c\xc5\xa5\x35\x0b\x37\xc6\x9e\xbd\xac\x85\x74\x28\xbb\x2d\xc5\x85\xbc\xa1\xe5\x5e\xa2\xe5\x38\x4f\xc1\x49\x01\x1a\xeb\x51\x54\x5e\x58\x78\x17\xbe\xf2\x51\xb0\x29\x78\x29\x31\xae\x97\x82\x12\x2a\xcf\x8c\xc2\xb7\x4f\xc3\x24\x05\xab\x38\x8c\xbf\x95\xe1\x52\xe6\xbf\x04\xe8\xca\x81\xc1\x81\x8a\x54\x05\x95\x4b\xe5\x0f\x6a\x10\x8b\x85\xd4\xb1\x14\x09\x8e\x12\xf0\x02\x8f\x8c\xdf\x91\x14\xc7\x66\xae\x3f\xc0\x67\xca\x6b\xb0\x34\xc4\xb9\xbe\x7b\xf4\xde\xdf\xda\xb0\x07\x3b\x98\x99\x85\xa0\x5c\x03\xb5\x7c\xd0\x8d\x34\xd4\x1e\x16\x25\x47\xae\xf7\xb6\x28\xc1\xfa\x70\x7a\xf3\xf0\x94\xc5\xd0\x86\xfb\x3c\x5c\x5c\x70\xa9\x84\xda\x33\x1c\xf2\xc7\xb9\x26\x92\x1c\xb8\x40\x3c\x27\xf1\xaa\x92\x07\x8a\x5d\xa3\x79\x84\x8e\x9d\x5e\x02\x15\x1b\x87\xad\xb7\x8c\xc2\x98\x03\xe8\x71\x08\x7c\x0f\xf0\x52\x0c\xeb\x52\x23\x0b\x93\x19\xb4\x86\x9d\x87\x9f\x59\x79\x06\xfc\x06\x98\x2f\x19\x30\x4b\xb9\x91\x36\x4b\xbd\x1e\x03\xc3\xdd\x72\x68\x1f\x34\x63\xb7\x23\xe7\x6d\x76\x71\x4e\xdb\x4f\x85\x70\xeb\x45\x1b\xa3\xb6\x3f\xd3\x1d\xe7\x1d\x61\xde\x50\x1b\x7a\xae\xd9\xd2\x8e\x00\x8c\x70\xbf\x74\x35\x3d\x6e\x5b\x91\x8a\x4a\xc4\x8e\x48\x18\xed\x8e\x2a\xa4\x41\x9d\x77\x45\x90\x27\xd3\x96\xdb\x3a\x64\x45\x5a\x33\xb3\x47\x4b\x39\x66\xe6\x16\x69\xc5\xbe\xf1\x28\xad\x9b\xa1\x66\xee\x1e\x39\x9b\x04\x46\xd9\xa4\xf6\xc9\x88\x34\xbd\x61\x8c\x97\xb2\xd5\x28\x17\x87\x0a\x54\xcb\xba\x3e\x72\xf3\x26\xce\xf7\xa9\x1d\x6f\x74\xa7\x85\x2a\x72\x3a\xce\x5d\xa8\x9d\xf3\xe9\x66\xca\x80\xfe\xd3\x76\xca\xb0\xfe\x1b\xd6\x68\xbb\x9a\x29\x4a\xd7\xf4\xe8\x3f\xde\xfc\xc3\x76\x4a\xbf\xfe\x63\xa3\x03\x91\xd9\x51\x01\x62\x53\x63\xac\xa0\x5a\xde\x4b\x05\x66\x18\x3a\x6f\xeb\x40\x77\xd9\x3e\xdd\x6c\xe9\xb7\x2e\xb5\xd5\x32\x68\x5d\xee\x68\x37\x6e\xb5\x59\x06\xad\xcb\xda\xaa\x0d\xcd\xa3\xdb\x68\xe9\x4a\x12\x0d\x5b\x97\x7b\xa4\x85\x86\xad\x4b\x85\x05\x29\xd3\xe2\x2c\x75\x0d\x16\xa6\x79\x97\xc4\x77\x48\xce\x53\x1e\x80\xe2\x81\x6d\x50\x88\x77\xef\x75\x2c\x70\x0b\xbc\x9d\xd2\x6a\x60\xf6\x1c\x6c\x33\x96\x48\x07\x64\x61\x94\xdb\xc1\xe1\xa5\x8a\x0c\x5e\x58\x13\x8a\xd0\xbb\x55\x51\xb0\x4b\x1d\x15\x84\x61\x03\x36\x30\x2e\xfc\x40\x45\x40\xfd\xaf\x84\x8e\x0e\x8e\x18\xb0\x89\x7b\xd0\x4f\x36\x58\x4c\x98\x0b\x85\x27\xc2\xe4\xa6\xae\x75\x76\x00\xf8\x1f\x5b\x6b\xef\x17\x20\x0e\x3d\x78\x37\xb5\xaf\x5e\x63\x1f\x86\x8a\xc1\x13\x5f\x83\x73\xac\x17\x15\x3b\xe3\x95\xdc\xd5\x8e\xf9\xf6\xec\xec\xf5\x7d\x22\x63\x94\xec\x67\x2a\x27\xc4\x5e\x80\xff\x04\x53\x70\x60\x6f\xa1\x72\xa1\x8a\xc1\xaf\xc4\x62\x1d\xe6\x85\x2c\x8f\xab\x72\x75\xf8\xf3\x89\x09\xa8\xe1\xa8\x2a\x40\x60\x0d\x20\xb1\x56\x6f\x68\xcf\x6e\x0f\xb4\x21\xb0\x34\x11\x59\x2e\x97\x72\x15\x25\x60\x31\x61\x65\x46\xe1\x44\xd7\x9c\x61\xb6\x86\xd7\xea\x85\x41\xf5\xf0\x9a\x5b\x32\xa2\x6d\x16\x58\xc7\x80\xe0\x93\x79\x5f\x8b\x3f\x75\x84\xdc\xfa\xa1\xd3\xfa\x77\x7d\x56\x31\x37\x1e\x03\xed\xd7\xa2\x16\x72\xeb\xee\x74\x82\x62\x81\xc5\x0d\x4c\xd9\xf9\xd1\xdf\xe5\xf1\x0a\xc4\x8a\xd7\xfc\x52\x3e\xb5\x4b\xeb\x39\xcb\xec\x13\xa0\xf6\x2c\x77\x0a\xf8\xa9\x58\x10\x05\xf7\x36\x14\xf7\xaf\xae\xd1\x8c\x7a\x93\x56\x88\x83\x3f\x76\x2c\x09\x95\xda\x40\xdd\xd0\x43\x66\xd3\x74\x8e\xf5\x26\xc9\x39\x59\x7f\xdc\x2d\x78\xc2\xaf\x54\x34\x7b\xa3\xfb\x51\x58\x5a\x35\xc7\xca\xe0\xb9\xf8\x5b\x71\x96\xbe\xc5\x3a\x2a\x30\xc2\x7c\xd8\x65\xe5\xba\xd6\x06\x5f\x9c\xc9\x4d\x16\x53\xf9\x30\xb4\xd0\xec\xd4\x53\x47\xe6\x71\x7c\xdc\x8d\x28\x2a\x8c\x3a\xc2\x8a\xca\x9e\xc3\xe9\x39\x43\x52\xea\xa5\x6e\xf7\x29\xcb\x10\x1b\x7e\xc3\x19\xb4\x9a\xd1\xd7\x19\x5c\x1c\x91\x8c\x68\x54\x30\xaa\x47\x25\x34\x36\xba\x30\xc5\xe1\x13\x4e\xd5\x71\xb8\x91\xf8\x47\x27\xdd\xf4\x88\x3f\xe0\x77\xb0\xe0\xc1\x3b\x81\x6d\x17\x56\x71\x89\xda\x8e\x19\x04\x81\x51\xe8\x11\x36\x6c\x53\x16\x80\xff\x01\x0e\xe7\x92\xbc\x13\xfc\xcd\xe6\x3d\xba\x89\x13\x1a\x67\x62\x3c\xcb\x4b\xaa\x63\x03\x50\xf4\x3e\x20\xec\x3c\x9f\xfd\x17\x90\x07\x94\x33\x17\x88\x2c\x82\xfa\xcb\x47\x8f\xc0\x19\x5a\x39\xf8\x3a\x31\x53\xde\x37\x80\x2d\x21\x06\x2d\xb2\x3c\xbd\x8c\xd0\xf5\x5d\xf3\x8e\xe2\x24\xdc\x5c\x32\xb6\x9c\xab\xc4\x76\xd6\x26\x73\x41\x53\xbd\x97\x85\x8e\xb3\x08\x5e\x80\x7c\x5b\x87\x54\x4a\xa6\xf1\xdf\xf0\x2b\xe4\xc8\xa2\x02\x57\x57\x2e\x0b\xf6\xb5\x7e\x71\xfa\xea\xa5\xaa\xec\x5e\xea\x32\x6c\x93\xf0\x23\xdc\x35\x3a\x98\x37\xed\x9f\x16\x97\x0d\x60\x61\x7d\x3e\xd5\x2e\xa0\x99\x99\xfd\x58\x83\x06\xb6\x44\x51\xc2\xa4\x35\xcd\x58\x48\xba\x12\xa2\xcb\x10\x31\x15\x28\x53\x71\xc5\x52\xb0\xce\x06\x64\x80\xe0\xaa\x4e\xc5\x07\xdc\x7e\x2e\x49\x58\xfc\xfc\xc0\x55\x8a\xb7\xb4\x8a\x47\x08\x4c\x2f\xe8\x1d\xc7\x35\x37\x96\x80\xac\x68\xb1\x89\x57\xa7\xad\xd5\xb3\x11\x33\xcf\x13\x1a\x52\x75\x3d\xe1\x60\xaa\x01\xa4\xfb\x21\xb9\x3d\xe8\xea\x34\x3b\x76\x74\x2e\x31\xe3\xb1\x01\xa7\x03\x02\xa3\xab\x80\xd9\xc6\xf3\x51\x0c\x7a\x13\x25\x08\x0f\x51\xfa\x4d\xa6\xae\xca\xe3\x09\xac\x35\x93\xb9\xf8\xd7\xc5\x83\xe6\x43\x3b\x0f\x1d\xb8\x21\xf3\xc8\x9a\x1e\x1a\x96\xea\x51\x78\x5c\xf9\xe3\xe2\xf4\x4c\xc6\x60\x81\xe0\x4b\x65\xb9\x38\xc1\x1f\x05\x8e\x0d\x12\xa7\xcf\xe3\xe5\xd2\x6b\x58\x22\xf8\x3f\xda\x43\x47\x5c\x13\x1b\x30\xdf\x3c\x47\x1b\x33\x09\x63\x47\x9b\xd0\x24\x8b\xc5\xc0\xf4\x1c\x7e\xb4\x33\x24\xe0\xc7\xd0\xd1\xf9\xac\xfc\xcb\xab\x80\xb8\x47\xa1\x87\x0d\x7d\xf3\xd2\xc3\x65\xf1\x51\x30\x59\x06\x65\x31\x99\x7b\x58\x5f\xfb\xee\x3d\x96\xf9\xfa\x6a\x53\xdc\xb2\x63\x7f\x25\x5c\x5e\x33\xe1\x72\xcd\x90\x6f\x13\xc5\x02\x08\x61\x2a\x1e\x5c\x01\x96\x8d\x70\x3a\x9b\x33\x45\xf4\x5b\xc4\xf9\xe7\x7f\xfe\xd7\x7f\xc5\xbc\x16\xcb\x04\xfb\xf8\xe2\x6f\xf8\x1b\x33\x0e\xa0\x71\x2c\xe0\xef\x77\x47\xf8\xf2\x7d\xbd\x3c\x0a\x13\xc4\x44\xb7\x95\x37\x31\xc1\x47\xe2\x35\xcc\x0d\x1f\x61\x24\x0c\x53\xc3\x19\xda\x45\x22\x49\x93\x43\x12\x86\xda\xe2\xc7\x86\xc0\x64\x38\x66\x2d\x3a\xa5\xca\x8e\x41\xcf\x78\x57\x0c\x9e\x68\x44\xc2\xd6\x9d\xbb\x93\xe9\xa1\x56\x82\x0d\x55\xf1\x6b\x1c\xe5\x48\x49\xda\x5f\x2b\xb9\x8f\xab\xa8\x5a\x81\x9c\x2e\x56\x91\x92\xfb\x9a\x5d\x49\xa2\x39\x8b\x6b\xfd\x11\xac\x21\x25\xa9\xa3\x4e\xd3\xec\x52\x2d\xae\x8a\x34\x9c\x41\x0d\xaa\x2c\x5d\x47\x85\x15\x5d\x14\x88\xd1\x42\x1a\xfe\x38\x05\x02\xc6\x76\xd7\x3c\xe2\xad\x2d\x50\x5f\xb8\xdc\x26\xea\x55\x79\xeb\xc0\x8e\xd0\xd3\xdb\xee\x3b\xb6\xf9\xe8\x67\x0d\x84\x42\x6a\x3c\x98\x31\xd9\x6a\xbc\x38\x51\xab\x2d\xd6\x8b\x89\x5e\x0c\x9a\x09\x4d\x6f\x98\xb0\xef\xce\xb5\x10\x48\x3e\x4f\x84\x7d\x50\x4a\x1e\x2a\xa5\xe4\x3a\xba\xd6\x02\xca\xd1\x91\x6d\xf8\xc6\x54\xeb\x46\xbc\x02\x58\xe9\xb7\x04\x19\x39\x78\x5b\x28\x7f\xe4\xc4\x32\x06\xa7\xd5\xe9\x1c\x8b\x03\xa5\x89\xa8\x49\xbf\x63\x3c\x02\xfb\x04\xfd\x8b\x00\xc5\x7b\x40\x15\xfd\x9e\xaf\xdc\x40\x74\x9a\xad\x9f\xdc\x98\xab\xe3\x34\x93\xfd\x48\x52\x43\x09\x14\x75\x44\xe0\x0d\x70\xc1\xe3\x38\xf6\x18\xf8\x6e\x65\x94\xfa\xdc\xc0\x0a\x35\xe3\x54\x4c\x94\x24\xc8\x51\x2b\x6b\xcb\x08\x67\xa6\xc9\x39\xd1\x55\x21\x75\x41\xf4\x88\x81\x57\x5a\xa8\xa1\x4f\x02\x88\x99\x73\x32\x56\xdc\x29\x83\x90\xd5\x01\x60\x9b\x5e\xc1\x04\xcb\x28\x8c\x31\xec\x06\x9b\x4f\x59\x8f\xcf\xa2\x62\x11\xe6\xcb\xb7\x09\x1d\xeb\x39\xb2\x5f\x74\x25\x08\xce\xeb\x58\xb8\x03\xb6\x44\x2a\xa6\x29\x5b\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\xaa\xd0\xa8\x11\xd3\x6c\xd8\xdb\x0e\xb2\xba\xa2\x74\x5f\x99\xcb\x04\x19\x39\x0a\xf1\x49\xb8\xac\x59\xe2\x23\x44\xc0\xa2\x65\xdc\x7a\x74\x3d\x81\xba\xe1\xa6\xd0\x7e\xcd\xf7\x30\x9a\x97\xfb\xaa\x3a\xc7\x7e\xc7\xd6\x00\x30\xbf\xb1\xcd\x81\x9e\x6f\xbe\x0b\x7e\x85\x2f\x3d\xdd\xc1\x69\x32\x76\x9d\x1d\xae\x39\x43\x61\xa1\xb9\x96\x8e\x78\x14\x3a\x1a\x0e\xc4\x4d\x74\xb3\xe0\xbb\x94\x2d\x70\x31\xa1\x49\x72\x1b\x0c\xc4\xf2\x67\x70\x26\x68\x50\xb3\x9a\xe8\x06\x75\xc7\x7f\x87\x51\x78\x95\xc8\x74\xd5\xc2\x03\xf6\x58\x0b\x0f\x9a\xd6\xa7\x20\x62\x38\xe1\x01\xc5\xaf\x74\xee\x5b\xbb\x96\x87\x8d\x5a\xe4\x5e\xcf\xa9\x53\x62\xf6\x65\x3d\x59\x3e\x16\xda\x8d\x30\x7a\x3d\x2c\xd8\xa8\x6f\xb8\x0d\xec\x44\xe5\x7b\x64\x34\x3b\x10\xec\x92\x7d\x9d\x46\x78\x5f\x92\xd3\x98\x48\x7d\x82\xe2\x45\x4b\x4c\x34\x85\x84\x91\x05\x6f\x0b\xf9\x1a\xfb\xa1\xbc\x2c\x8e\xea\x1f\x4e\x92\x6a\xf3\xb2\xda\xcc\x41\x2b\x1e\xd9\x0f\x27\x9b\xa8\x7c\x9b\x64\x69\x56\xa1\xef\xbc\x34\x62\x05\xd6\xca\x95\xa7\x8e\x4c\xd1\x7e\x83\x4d\xbe\x12\xaa\xa0\x36\x8b\x02\x8c\x0c\x7f\xa8\x0e\x42\xb3\xc1\x87\xa9\x92\x56\xc6\x9c\x24\x4b\xca\x69\xe5\x26\x65\xed\x89\x24\x65\x0c\x74\x05\x5b\x7a\x6a\x43\x9a\x5a\xa8\x2f\x3b\x6b\xad\xf3\xdc\x31\x27\x06\xf3\xb1\xa4\x04\x5a\xb9\xd8\x35\x30\xdb\x3a\x5c\x72\xdf\xbe\xec\x2b\xe5\xfc\x96\x18\x16\x8b\xb8\xc2\xdd\x94\xce\x39\x87\x8b\xd1\x65\x24\x28\xea\x44\x6e\xa0\x95\xbe\x49\xfa\x22\x33\x63\x58\xb6\x95\x1a\xae\x65\x77\x19\x48\x3d\xc5\x3b\x98\xdc\xdd\x96\xdb\xd5\x14\x02\x79\x50\xc2\xc4\xfd\x6d\x5d\x1a\xf8\x53\x76\xb7\x0d\x03\x85\x17\x92\xbb\x02\xb9\x68\x0e\x71\x2d\xd6\xb8\x26\x01\x7d\x09\xe3\x22\xc5\x25\x50\x7b\x98\xb5\x42\x95\xc7\xe3\xe1\xd1\xb5\xa6\x39\xc4\xa3\xce\x53\x25\xc4\x31\x60\xe4\x6f\xeb\x68\x56\x05\x4b\xff\x91\xe7\x50\x88\x4c\xfc\x7b\x27\xa3\x11\xc4\xfd\x93\xd1\x4e\x6f\x1b\x8b\xed\xc8\x45\x27\x6c\xec\xb1\xf4\x12\x71\x74\x49\x87\x2d\x4a\x45\xb5\x4d\x5a\x52\x20\x02\xe3\x0c\x61\x82\x27\xc5\x7e\xc0\x1a\xdb\x8c\xcf\xa4\xf1\x3b\x3e\xa7\x06\x16\x17\x99\x8f\x76\x90\x25\x58\x20\x29\x9d\xce\x28\x6e\x8a\x52\x6e\xa6\xc8\x5c\x00\x2b\x8e\x2e\x64\x6c\xf2\xd9\x14\x2e\x99\xac\xd3\xa2\x3c\x22\xda\xd9\x84\xb5\x9d\x81\x67\x86\xd2\x35\xca\xbd\x21\xde\xfd\x53\xd5\x20\x7d\xbe\xd0\x2c\xf7\x6d\x58\xbc\xce\xe5\x2a\xba\x36\x23\xc2\x52\xd2\xa1\x58\xb6\x3d\x0d\x1e\xc7\xfc\xfa\x68\x36\x9b\x88\x3f\x33\x94\x20\x61\x55\x19\x29\x08\x1c\x84\xc6\x67\x21\x0d\xb4\x9d\x8b\xbe\xd0\x56\xa8\xc6\xea\xac\x30\x5a\x39\x1d\x1e\x87\x4a\xc0\x72\x05\xf3\xe4\x65\xca\x0b\xe9\xc4\xc1\xb9\x66\x9f\x79\x80\xa2\x46\x08\xe8\x2a\xcd\x61\x4f\x72\x6c\x5d\x28\x4d\x8f\x8e\x1f\x9e\xfa\xcb\x59\x8d\xf0\xd7\x08\x49\x38\xf1\xdd\x10\xe3\x9e\x81\x5c\x8c\xa6\x37\x9d\x1f\x85\x34\x7e\xe5\x4a\x00\xc7\x51\x82\x27\x79\xdd\xee\xf1\x48\xf7\x21\x1b\xbf\xed\x55\x98\x52\xe5\x8e\xac\x3f\x8e\xc4\x16\xde\x40\xbf\x8e\xf3\xc3\x4e\x09\x80\x4a\xea\xf7\xc6\x97\x95\x05\x09\x56\x71\x76\x03\xb2\xc2\x83\xf5\x77\xdb\x3f\x09\x41\xc9\x82\xf8\xc0\x38\xb3\x6e\x6a\xad\x83\x2d\x11\xe2\x46\x30\xb9\x16\x74\xae\x07\x8b\x9b\xe9\xff\x51\xb3\x02\x40\xdb\xb6\x4e\xc0\xb8\x3b\x8e\x3c\x5c\x0a\x30\xb8\xee\xa6\x24\xe0\xb3\xaf\x7c\x5f\xc4\x9d\xcc\x99\xfe\xa5\x9d\x36\xad\xcd\xae\xb8\xb9\x2d\x45\x20\xc9\xa3\xd7\x71\x0e\x0b\x27\x0e\x70\x0f\xc3\xaf\x29\x99\xfa\x42\x27\x37\xf5\x6b\xdc\xbf\x09\xda\x05\x30\x87\x03\xec\xc0\x3f\x49\x5f\x28\xf7\xc0\x16\x3c\xe3\x17\x65\xa8\x3c\x2d\xaf\x75\x0e\xf5\x14\xed\xdb\x05\x95\xc4\x57\xb9\x0a\xd5\x90\xa9\xa0\x36\x2e\x6c\x47\x30\xb6\x62\x3e\xd5\xc6\x7a\x0e\x24\x37\x65\x33\xc1\x69\x05\x29\xaa\xcd\x57\xa5\x96\x38\xa0\xce\x6a\x6f\xa3\x4d\x58\xd7\x01\x45\x5b\x41\x85\x3b\x02\x21\x5e\xa6\xa5\x3a\x24\x8c\x20\x11\x16\x49\x0a\x3e\x61\xa0\x2e\xff\x18\x36\x49\x68\x9c\x39\xa5\xb5\xd4\x39\x39\x3a\xe7\x83\x92\x5f\xa3\x86\x47\xae\x55\x20\x3d\xd4\x15\x4e\x2c\xf8\xe1\xe1\xc6\x86\xeb\x4d\xb1\xbd\x73\x8a\x0f\x0b\x9b\x94\xc2\x55\x39\xe8\x3a\xed\x38\xef\xec\x1c\x42\xe9\xd7\x07\x6e\xc4\xa7\xa3\x91\x4a\xcd\x0d\x9c\xf2\xdc\xc1\x3a\xfc\x6c\x99\x67\x63\xf1\x60\xb8\xba\x19\xe6\xad\x27\x88\x29\x68\x48\xf6\x2f\x2a\x80\x9e\x3a\x9a\xad\x02\xbb\x19\x92\xea\x14\x36\x83\x11\xa9\xa6\x7f\xa5\xc2\x51\x6c\x8d\x35\x43\x52\x3a\x4a\xa3\x86\x71\x2b\x50\xdc\x12\xd3\x66\x48\xca\x09\xbd\xb2\x99\xa7\xd2\x29\xe6\xcb\x9a\x0e\x6a\x60\x38\xe0\x2f\x1e\x3d\x72\xf3\x4a\xe0\x67\xa9\xe4\x09\xf9\x53\x19\x90\x90\xd1\xc4\x0e\x09\xc1\x62\xdf\x8a\x36\x50\x59\xe2\x35\x0e\x54\x66\x47\xb3\x70\xf7\x9f\x0a\x60\x83\x19\x4d\x2e\x8c\xc5\x51\x23\xb1\x35\x64\xa6\xeb\x48\x3a\x42\x66\x9d\x64\x1f\x8e\x98\x71\x9b\xfd\x43\x66\xfb\x44\xc0\x8e\xe9\xc6\x8c\x93\x57\x5f\xf7\x06\xc1\x30\x8a\x6d\x63\xe3\x24\x71\x28\x58\x43\xd7\x61\xb8\x51\xaf\x1d\x03\x6a\x1d\xf1\x34\x03\x74\xe2\x3b\x85\x17\xb9\x93\x8b\x40\xc0\x4e\x9c\xe7\xd5\x2f\xb7\xc7\xec\x6a\x99\x08\x70\x35\x26\x0e\xcf\x1c\x89\x87\x5f\x2e\x1f\x92\x1b\x60\xc7\x30\x63\x73\xc8\xb1\xc8\xb6\x71\xf3\x78\xef\xb8\x5e\x6f\x58\xaf\x2f\xaa\xe7\x90\x76\x6b\x4c\xaf\xc8\x3a\x82\x7a\x2d\x0a\xb9\x44\x69\x94\xa5\x3c\xb0\x45\xd1\xa3\x46\x55\xb4\x23\x80\x9a\x15\x61\x3b\x44\xcf\xb7\xc7\xce\xd9\x20\xa8\x45\x80\xf6\x8b\x9e\xb7\x6a\xc9\xc6\xc6\xdb\x55\xe1\x20\xe8\xb3\x73\xc0\x9c\x2e\xb4\xe0\xec\x76\x0e\x3b\xa8\x10\x38\x10\x39\x26\xa0\x97\x47\x4a\xfb\xd5\x94\xaf\x87\x36\xc1\x94\xe3\x80\x9c\x5c\xa6\xd4\x98\x16\x05\x3b\x4c\x6b\x87\xe8\x79\x4f\xad\x99\x09\x1d\xe1\xad\x54\x97\x61\x8c\x04\x9e\x4c\x54\x64\x92\x5f\x0d\x5f\x48\x30\x14\x51\xd7\x11\x4e\xe8\x47\xac\xe2\xaa\xaf\x5e\xd7\xb8\xd9\xae\xdf\xf7\xe6\xa8\xc4\xa9\x64\xc7\x94\x8c\xb1\x0c\xc3\xa8\xb2\xc4\xb4\x0d\x47\x6a\xe9\xf0\x8d\xf2\xe4\xa8\xd8\x4a\x27\x95\x1a\xa7\x4e\x0b\x2e\x8d\xae\xc5\x3a\x71\x94\x53\x7e\x6f\x82\x9d\xba\xe1\x5d\xf3\xec\x29\x9a\x8c\x93\x19\xe1\xdf\xe5\xed\x65\x1c\x2d\x18\x90\x75\x5d\x79\x83\xb4\x8a\x97\xc9\xc3\xd2\xee\x5e\x9e\xe5\x97\x1f\x27\x6c\x7c\x6a\x09\xca\x54\x79\x13\x5e\x29\x23\xb3\xd2\xcf\xe6\x9b\xf9\x40\x6f\xeb\x94\x23\xc6\xab\x93\xce\x49\x57\x37\x22\xd6\x28\xe0\xca\x4d\xa6\xd2\xb3\x6a\x81\x4b\xbc\xa8\xc8\x25\x67\x5f\xec\x5a\xd8\x52\xee\xdd\xc2\xc6\xd0\x0a\x37\x84\x6a\xf6\x46\x66\x92\x2e\x17\x54\xbf\x9f\x17\xe8\x4a\x19\x89\x6a\x21\x7b\x4f\xf5\xb5\x7e\x3a\xee\x9c\x52\xe9\xda\x44\x2f\xff\xc4\xd7\x3d\x78\xaa\xef\x26\x26\x44\xfd\x2b\x13\x8f\x57\x25\xdb\xef\x99\x85\x03\xd3\xe2\x29\xbc\x8f\x6d\x61\xba\xe2\x83\xb8\x30\xbf\xdb\x09\xfb\xbe\xfe\x3a\x1f\xa2\xd0\xa0\x04\xfe\x00\x2a\x53\xe7\x2e\x2c\xef\xd2\x67\x1f\x6e\xe4\x62\xa1\xb8\x91\x5c\x9c\x18\x8d\xb3\x1a\x01\x9f\x17\x18\xc3\xd5\xbf\x40\x7f\xe5\x27\xd7\x59\xae\xd1\x46\xc5\xd9\x87\x67\x2d\xdb\x73\x1f\x74\x57\xde\xe4\xcb\x25\xbc\x39\xe8\x1b\xa2\x3e\x1b\x8b\x3e\xd0\xd2\x43\x75\xdf\x5a\x73\xbf\xc9\x16\x7a\x1e\xc0\x8e\x3a\x3a\x5c\xab\x53\xe9\x1d\xd9\x4c\xbf\x95\xd7\xea\xda\x9e\x6a\x77\xae\xc0\x33\xe1\x42\x22\xbd\x39\xfb\xe0\x4f\xea\xeb\xa4\x24\xad\x16\x4c\x1e\xa0\xeb\x8f\xf7\xa2\x2a\x43\xf0\x1d\x42\x59\x4e\x9c\x1d\xfc\xfe\xdf\xff\xee\xa7\xdf\xfd\xeb\x4f\xff\xf2\x1f\x3f\xfd\xe3\x8f\x7f\xf8\xe7\xbf\xff\xef\xff\xfc\xaf\xdf\xff\xee\x1f\x7e\xfa\xb7\x1f\xff\xf0\xe3\x3f\x1d\xcc\x8c\xfb\xcc\x9b\xeb\x5e\x9c\xf0\x69\x8c\xe0\xed\xc8\x01\x8d\x99\xdd\x63\xa0\x6d\xe3\xd8\x28\xc0\xa8\x56\xb1\xd8\xf8\xd5\x0c\x8f\x28\x19\x97\x62\x2a\xac\x2f\x39\xd6\x16\x74\xd4\xbc\x5f\xd0\x59\xb0\x99\x51\x44\xdc\x45\x17\x5e\xd6\xd6\xcd\x6c\x0a\x6e\x5e\xdf\x15\xea\x5d\x73\x5b\xd4\xee\x3e\x50\xb4\x51\x4d\x1d\xe2\x90\x76\xd7\xef\x69\x46\x4a\x99\x3b\x8e\xe8\x96\x3d\xf6\x8d\x2c\x2d\x08\x75\xee\x56\xd3\xbc\x6f\x9b\xed\xbd\xd1\x3a\x07\x99\x98\x51\xf4\x9c\x07\x76\x5b\x8b\xa7\x14\xb0\x2d\x1b\xae\x87\x3f\x3f\x2b\x75\x77\x46\xac\xc1\xed\xdd\x94\x6f\xe1\xed\xb2\xfa\x6e\x9c\xef\x1a\x19\x84\x06\x10\x54\x21\xc9\xf6\x29\xd5\xf4\x6a\x7e\x4f\x1c\xc3\x90\x82\xa3\x93\x73\x59\xf2\xd5\x90\xae\xe1\x41\xbe\x60\xcd\xee\x28\xd3\x37\xb2\xbc\xaf\xa9\xb9\x8b\xfd\x71\xb8\x25\x6b\x5d\xcf\x9e\xcf\x0e\xc4\xab\x04\xfc\xf4\x42\x21\xbc\x62\x20\x9c\x3d\x2b\xd6\x68\x9e\x61\x90\x4a\x85\xa6\xb8\x3c\x12\x33\x4c\x71\x4c\x00\x52\x4c\x8a\xd9\xd2\xd3\x74\x13\x95\x68\xbc\x2c\x2b\xca\x8f\xa0\x13\x1c\x25\xb2\x28\xc4\xc1\x4c\x8d\x48\xd3\xef\x96\xba\xc3\x26\x48\x2b\x9e\xc9\xb4\x36\x39\xf6\x6d\xe9\xe0\xfe\x7c\x70\x7f\x42\xb8\x3f\x23\xdc\x9b\x12\xe6\xab\x4f\xc2\x32\x6c\x66\x85\x6b\x49\xe1\x8f\xf7\x37\x94\xd9\x5f\x63\xc6\x0a\xb9\x70\x57\x7c\x79\x09\xfb\x84\x28\x6b\xcd\xe5\x27\x5c\x12\xda\xbc\x06\xd4\xe3\x9b\x45\x5f\xca\xab\x27\xd5\x6a\x05\xbf\x11\x57\xb7\xbc\x5a\xb8\x75\x09\xca\xd9\x1d\xb5\xef\x46\xdb\x7a\xaf\x89\xb9\x2a\x75\xd7\xc4\xdf\xcb\xc7\x67\xa7\xf7\xbc\xd7\x84\xba\x61\x7f\xc1\xc1\x52\xf3\x5b\x9d\xf9\xa4\x5b\x70\xf9\xb4\x67\x91\x5f\xf2\x6f\x73\xf5\x9d\x72\x0f\xdb\xb7\xee\xed\x7a\x1c\x73\x54\x54\x73\xf7\xbc\x9f\x5e\x78\x1c\x1b\x05\x5a\x25\x4f\xab\x79\xb1\xc8\xa3\x39\x5f\x25\xd3\x3a\x43\x19\xd4\xef\x97\x99\x74\x9f\xb3\x44\xd4\x83\xd6\xed\x0a\x2f\x8a\x73\x9a\xa4\xbf\x95\xa3\x14\x67\x90\xd7\x5b\x43\xd8\x39\x9f\xe8\x2c\x7b\xfd\xbe\x47\x3c\x81\xe2\x2c\xd0\xae\x37\xc7\xd0\x9a\x6c\xbf\x39\xc6\x42\xde\x7a\xb4\xa5\x76\xef\x6e\x60\x08\x6b\x8e\xb7\x38\x6b\xdb\x73\x63\xcc\x30\x04\x55\xcf\xf0\xc7\x77\x71\x8c\x9d\xd7\x6e\x17\xc7\xd4\xae\x8c\xa9\xcf\x19\x4f\x78\x98\x69\xef\x75\x6d\x0c\x2e\x54\xcf\x79\x5e\x13\x9d\x6a\xb5\x71\x12\x76\xb6\x45\xd7\xd9\x8f\x3d\xee\x95\x71\x56\xf9\x93\xee\x95\x71\xe0\x98\x12\xde\xbd\x2e\x4d\x05\x6d\x71\xd0\xc7\x51\xad\xfb\x62\xf6\xbc\x93\xc4\x09\x93\x33\x51\x1b\xa7\x2d\xbb\x4f\x0f\x16\xe7\x4a\xe0\x81\x68\xe8\x8f\x8e\xb7\x0b\x47\xbb\x0e\x58\x0e\x94\x9f\xc3\x38\xc1\x33\xd2\x73\xdd\x05\x93\x03\x97\xba\x3c\xd8\xe9\x2e\x90\x71\x8d\xa3\xb6\x54\xbc\xd1\x84\x77\xa8\x78\xa3\x0a\xb7\x74\xfe\x1b\xac\xe4\x50\x41\xcc\xc2\xac\x97\xbe\xbb\xe3\x45\x98\xdc\x70\xe2\x26\x25\xc6\x50\xff\x31\x04\xaa\x0a\xaa\x70\x6c\xcc\x9e\x8c\xd5\xfd\x64\x78\x55\x01\x88\x3b\x75\x7e\xa8\x56\x08\xd7\x81\x77\xdf\xe5\x3c\x78\x52\x59\x57\x79\x40\x7f\x57\x63\x6d\x29\x88\xd3\x74\xae\xf1\x20\x8f\x8f\x53\x70\x07\x9e\x9a\x43\xcd\x0b\x0b\xd6\xdf\xa7\x38\x07\x67\x74\xff\xe2\x1c\xa7\xf7\x96\x9b\x22\x70\x36\xff\xd7\x37\x45\x58\xec\xda\x56\x43\xaf\x02\x7a\x5d\xcd\xe3\xa8\x58\x5b\xfd\xf3\x69\xd7\x44\xec\x62\x6d\xec\x73\xfd\x83\xae\x03\xe9\xbe\x02\xa2\xa5\x15\xcc\x6c\x54\x09\x88\xb9\x07\x82\x8b\x41\xb6\x18\x2e\x63\xa7\xca\xa3\xc6\xfa\x6e\x69\x47\x8f\x1e\xa9\x15\x75\x34\x6b\x3a\x9a\x25\x1d\x7f\x84\x77\x39\x90\xa1\x73\xdf\xbb\x1c\x7a\xa8\xd1\x29\xe3\x76\xbb\xcb\x41\xcb\xff\xff\xb5\x5b\x1b\x7a\x50\xde\x41\x25\x89\x7e\x9d\x84\x15\x77\x3b\xa8\x1b\x68\x60\xb2\xbf\x4d\xb5\x03\x20\xda\x9a\x07\x5e\xde\x39\xd0\x75\x67\x3e\x7b\xa4\x3b\x3f\x78\xd0\xfe\x16\x50\x72\x15\x2f\x8e\xfc\x10\xa9\xc3\x64\x1f\x26\x3d\xc3\xe8\x64\x70\x1b\x88\xae\xf9\xd5\x88\x74\x24\x50\x3b\xef\xa2\xd8\x55\xf9\x76\x65\x36\x87\xb5\x6f\xf7\xe5\x4e\x2e\x0f\x2b\x1d\xdc\xad\x82\x3b\xf3\x8c\x35\x0d\xdc\xb8\xb3\x42\xff\x47\x7b\x54\xa1\x8f\x53\x92\x13\xf6\x28\x65\x9c\x9c\x96\xe8\xc0\x34\x4d\x9d\x7c\x48\xb8\x7e\x1e\xc5\xbc\xab\x2d\xb5\x2d\xbd\xb8\x55\x11\x9b\x81\x08\xb0\x01\xe7\x3b\xcb\xf0\x3f\xd3\x77\x4a\x53\x64\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xed\x3d\xc9\x8e\xdc\x48\x76\xe7\xcc\xaf\x88\x26\xa6\x25\xb2\x9c\xc5\x94\x0d\xd8\x18\x57\xa3\x0c\x68\xeb\x6e\xcd\xb4\x96\x91\x4a\xdd\x07\x41\xd0\x30\x33\x23\x2b\x39\xc5\x24\x29\x2e\x55\xaa\x29\xeb\xe2\x4b\x1b\xb0\x01\x03\x3e\xf9\x60\x0c\x7c\xf2\xd5\xf0\xd9\xdf\x33\x6d\xcc\x5f\xf8\x2d\xb1\x71\xcd\xcc\x92\x6c\x0c\x30\x16\x66\x24\x26\x19\xf1\xe2\xc5\x8b\x17\x6f\x8f\xe8\xf9\x5c\x3c\xcc\x56\x52\x9c\xcb\x54\x16\x51\x25\x57\x62\x71\x2d\x16\x51\x91\xa5\xa1\x78\xf4\x5c\x3c\x7b\x7e\x26\x1e\x3f\x7a\x72\x16\x4e\xe7\x73\xf1\x52\x16\x75\x9a\xc6\xe9\x39\x37\x10\x57\x71\x92\x88\xec\x52\x16\x57\x45\x5c\x49\x51\x6d\xe2\x52\xac\xe3\x44\x52\xe3\xef\x65\x51\xc6\x59\x7a\x22\x6e\x6e\x42\xf5\xfc\xf1\xa3\xf3\x41\x3c\x82\xd1\xdc\xaf\xf8\x1b\x5a\x4c\xf3\x68\x79\x11\x9d\x4b\xfc\xf2\x82\x1f\x9f\x45\x5b\xfa\x02\x9d\xcf\xf4\x18\x62\x99\xa5\x55\x14\xa7\xa5\xd8\xca\x6a\x93\xad\x4a\x51\x65\x62\x1b\x5d\x48\x11\xa7\xab\xf8\x32\x5e\xd5\x51\x22\x64\xba\xca\xb3\x38\xad\xa0\x4b\x91\x6d\x45\x29\x8b\xcb\x78\x29\xcb\x19\x42\x2a\xe4\xfb\x5a\x96\x95\x88\xd2\x15\x3c\x97\x79\x96\x96\x30\x85\xeb\x5c\x12\x24\x6c\x8a\x33\xca\xe0\xa5\x81\x32\x13\x51\x29\xae\x24\x4c\x1a\xfe\x95\xe9\x12\xe8\x56\x94\x08\x00\xe1\xad\xa4\xfa\xbd\xce\x0a\xd5\x91\xa0\xcd\xe8\x45\x84\x94\x5a\x8b\xac\x2e\x44\x59\xe7\x79\x56\x20\xa5\xab\x22\x4a\x4b\x7c\xc6\xe1\xe2\x28\x89\x7f\x1b\x55\x40\x08\x84\x06\x7d\xb6\x51\x55\x86\xd3\x69\xbc\xa5\x16\xfe\x74\xe2\x2d\xae\x2b\x59\x7a\xf0\x80\x73\x97\x1f\x2a\x7c\x24\x34\x60\x49\xe6\xbf\x29\xb3\x14\x5f\xac\xb7\xf4\x3e\xce\xf8\xef\x79\x9c\xd5\x55\x9c\xe0\x8f\x54\x56\xf3\x4d\x55\xe5\xfa\xb9\x2e\xe8\x75\x59\x15\x00\xef\x52\x3d\x02\x28\x18\x02\x9e\xcf\xe3\x6a\x53\x2f\xc2\x65\xb6\x9d\x9f\x67\xc7\x17\x71\x35\xc7\xff\x6b\x5a\x40\xeb\x28\xbd\xce\x17\xc2\x3b\xcf\xb2\x73\x58\xf2\xf3\x2c\x89\xd2\xf3\x30\x2b\xce\xe7\x79\x91\x55\xd9\xa2\x5e\xcf\x69\xfe\xf3\x8b\x34\xbb\x4a\xe7\xd4\x1a\x7a\xad\xea\x82\x26\x79\x40\x57\xdb\x05\xfa\xcb\x6d\x5e\x1d\x32\xae\x6a\x0f\x3d\xd7\xb1\x4c\x56\xdb\xa8\xbc\x38\xa0\xb7\xd3\x07\x20\x00\x79\xea\x65\x75\x40\x77\xdd\x01\xfa\x56\xf1\x16\xb8\x2d\xda\xe6\x07\x74\x77\xfa\x00\x84\xab\x22\xca\x73\x60\xb0\x03\x00\xd8\x2e\xdd\x25\x2d\x60\xf3\x46\xf3\x6d\xfd\xc1\x6b\x7e\xc9\x2f\xce\xe7\xb2\x28\xb2\x82\x38\x6d\x64\x20\xc3\x79\xf4\x46\xb3\xdf\x48\x07\x7a\x40\x44\x6e\x6e\x8e\x45\xbc\x16\xf2\xbd\x08\x1f\x66\xe9\x3a\x3e\x0f\xcf\xcc\x4e\xf0\x60\xa7\x78\xc2\x4b\x81\xf9\x3d\x01\x9b\xbe\x81\x1b\xbe\x3d\x06\x9e\xc6\x7f\x61\x08\x8f\x41\x01\x4f\x62\xc3\x3d\xa0\x9e\x17\xf9\x52\x43\xed\xe0\x49\x1f\x07\xbf\xcc\x41\xcc\x44\xab\xa8\x8a\xda\x83\xee\x3d\x24\x3e\xd9\x1d\x3f\xb0\xbf\x4c\x03\x8d\x8e\x33\x16\xee\xdd\x03\x00\xa8\xad\x7e\x10\xb1\xf1\xe9\x80\x21\xa8\xa3\x8b\x63\x30\x9d\x4e\x2f\xa3\x02\xa5\xd5\x3b\x71\x2a\x40\x16\x85\xaf\x72\x90\x29\x15\xff\x26\x01\x06\x68\x6c\xf3\xa8\x90\xfc\x4a\x49\x9f\xf0\x7e\x95\xc5\xfc\xa6\x31\xcd\xf0\x99\xbc\x7a\x85\xb2\xb8\xe0\x8f\x2c\xcd\xc2\x67\x59\xfe\x30\x01\x11\x6b\xde\x02\xd0\xfc\x9a\x7f\x30\xf3\x86\x3f\x00\xef\x4f\x27\x20\x4a\xd5\x7a\x6a\x36\x64\xa9\x8c\x4d\x49\x24\x85\xf7\x53\xea\x67\x85\x4c\xf8\x48\x3d\xe2\x6b\x25\x3e\xc2\xc7\xf8\x2f\xbe\xd0\x5b\x3a\x7c\x45\x0f\xf8\xca\xd9\xa6\xe1\x99\x7e\xc6\x0f\x76\xfb\x61\x6b\xd8\x2a\xdf\x47\x49\x4d\xf3\x76\xe4\x4a\xf8\x35\x3e\x3f\x85\x67\xa4\xde\xfc\x68\xaf\x3f\xe2\xb1\xd1\x6c\x47\x7b\xff\x99\x93\x06\x7d\x92\x8a\x88\xd5\x5b\x31\x13\x71\x75\xb7\x14\x75\x29\xd7\x75\x42\x6a\x6a\x5d\xa7\x4b\x9c\x3a\xe8\xc0\x4d\x54\x89\x54\xa2\x96\xca\x44\x96\x93\x6d\x20\x32\xec\x0b\xcf\xc7\x5a\x0d\x20\xc0\x45\x54\xc6\x65\x28\xbe\x86\xee\xf2\x03\xcc\x3c\x91\x33\x71\x9d\xd5\x62\x1b\x9f\x6f\x2a\x91\x47\x25\xaa\x48\x07\x61\x80\x17\x99\x81\x78\x1c\x58\x9b\x55\x0d\x8a\x19\xc1\x41\x5b\xe4\x80\xf0\x5b\xd0\xab\x09\xe2\x78\x05\x4c\x28\x64\xb4\xdc\x28\x4d\x2f\x7c\x3d\x7a\x00\xdf\x0a\xc0\xb0\xce\x19\x68\x99\xcb\x65\xbc\x8e\x97\x30\x68\xb5\x09\x85\xff\x84\xf0\x03\x83\x01\xe0\x2f\xa2\x45\x72\x0d\x6d\xb6\x31\x2c\x0f\x59\x09\xa0\xb1\xcb\xf8\x3c\xc5\xae\x71\x7a\x99\x5d\xa0\xba\x97\xe2\x15\xdb\x08\xc6\xaa\x20\x14\x25\xc2\xb1\x33\x60\x1e\x40\x10\x9a\x92\x61\x00\x2d\x0c\x75\x97\x49\x2c\xd3\xaa\x49\x5d\x18\x65\x99\x25\x89\xa4\x7e\xda\x40\x01\x8c\x80\xf9\x19\x1c\xcc\xc3\x9a\x2b\xf0\x17\x4c\x08\x01\x96\xc0\x36\x09\x9b\x12\x4c\xab\x18\x29\xbc\x95\x44\x49\x07\x5f\xe8\x21\x8b\x75\xb4\x94\x43\x2b\x81\xc0\xcc\x60\xfd\x46\x52\x8d\x83\x89\xa6\x04\xc1\x0d\xf8\x50\xcd\x07\xe4\xc0\x22\x4e\x89\x4e\x5b\x85\xa2\xb3\xb0\x33\x65\x4a\x55\x75\x91\xc2\xd4\x71\xc6\x88\xe0\x12\xa6\x29\x0b\xb4\x98\x22\x8d\x6c\x38\xa5\xe9\x74\x08\x7a\x33\x9d\xbc\x4e\xcd\xfc\xe4\x0a\x2c\x40\xdd\x83\x4d\x40\x25\x09\x6e\x6e\x00\x45\xb0\x10\x7f\x16\x8b\x93\x53\x61\xda\x3c\xe5\x25\x63\xb1\xfc\xb3\x58\xf5\xd1\xa3\x08\xf8\xa3\xa7\x1a\xea\x97\x00\x8a\x05\x17\x5b\x97\x06\xa3\xdd\x43\x20\x03\x03\x27\xda\x2e\x81\x70\x06\xf5\x97\xd5\x07\xa1\xac\x34\x14\xbb\xf8\xef\x0c\x19\xe6\xe8\xe6\xe6\x9b\x0c\xdb\x00\xe4\xf0\x25\x9b\xa0\x67\x40\x0c\xd5\x2f\x10\x7e\xab\x05\x1b\xa6\x4e\x93\x19\x0b\xb8\x00\xa9\xa5\xed\x56\x7a\x87\x88\xca\xb0\x67\xe6\x88\x0c\x0e\x1e\x4c\x27\xa8\x08\xa0\xe5\x17\xa7\x22\x8d\x13\x84\x30\x51\xeb\x05\x3f\x09\xc8\x74\xf2\x71\xaa\xdf\x69\xe8\xe1\x4e\x9c\x82\x19\x02\x00\x22\x6a\x72\x22\x31\x9f\xe2\x36\x73\x29\x4a\x1b\xf9\x67\x20\x46\x90\xa2\x1f\xb1\xf1\xb1\x70\xa9\x0c\x9f\x86\x08\x8d\xb0\xfa\x66\x56\x22\xd1\x9d\x6e\x2e\x9b\x04\xdd\xe5\x66\x9a\xd1\xe4\x10\x6c\xff\x2a\x69\xc7\xc0\xec\xa8\x1b\x5c\x16\xe3\x22\x38\xaf\x99\xec\x76\x39\x00\xf6\x7b\x9c\x88\x82\xd0\xa1\x5b\x67\xb5\xa1\xcb\xa5\x59\xbb\x32\x6c\x31\x10\xa1\x82\x6d\xba\xab\xd6\x5d\x36\x5c\x37\xfd\xf6\x92\x97\x63\xf2\x71\xca\x44\xe6\x35\x71\xd7\x06\x95\xe3\xfd\x24\x79\xfc\x61\x29\xf3\x8a\xf4\x54\xc9\x22\xd6\x50\x8a\x34\x14\xba\x2c\x6a\x6f\xda\xcd\x4a\xcb\x48\xb2\xa9\xc7\x2f\x08\x9f\xc6\x2b\x10\xdb\x57\xa0\xdf\xc9\x0b\x7c\x5d\x6a\xbf\x10\x9d\xa0\x3c\x4f\xae\x51\xc4\xa0\xd8\xac\x10\xf8\xd6\xb4\x26\xbd\x20\x61\xd9\xae\xcd\xb2\xe1\x7e\x41\x09\x52\x6a\xa9\x01\xf0\x9e\xe7\xa8\x35\x50\x72\xce\x1c\xc1\xb5\x04\x39\xb4\x90\xa4\x6b\x40\x8c\x42\x37\xf0\x61\x53\x24\x3b\xc0\x84\xf7\xf2\xc3\x32\xa9\x57\xf0\x85\xbc\xc0\x85\x44\x14\x58\x37\xaf\xc2\x0e\x35\x7c\x8b\xd3\x4c\x78\xaf\xaa\xa8\xaa\x4b\x0f\x9e\x5e\x40\x2f\x2f\x30\xfb\xfe\xc8\xd9\xf8\x43\xfd\x45\x0f\x55\x66\x16\x9b\x30\x0c\xd9\xe1\x22\xe6\x89\x53\xf5\x1a\x58\x61\x1b\xe5\x6f\xf8\xd3\x5b\x26\xff\xcd\x47\x5c\xf5\xf6\x86\xe9\x93\x7c\x93\x89\xe7\xb0\x91\x07\x0e\xf6\xc7\x99\xea\xaa\xcc\x48\xe0\x80\x09\xae\xc6\x3b\x44\x85\xd8\x95\x40\x1a\xb4\x6e\x98\xe3\xe0\x73\x76\x81\x9f\x35\x62\x6f\xe4\x87\xb7\x5f\x89\x2f\xe0\x25\x71\x60\x1e\xa5\xf1\xd2\xb7\x16\xde\xda\xf7\x1e\x6b\x10\x66\x05\xef\x7e\x59\xde\x15\xab\x0c\x56\x37\xcd\x2a\x18\x02\x94\xef\x57\xb0\x9e\xd2\x5d\x78\xc3\x3b\x64\xd2\x23\x52\x41\xa0\xf8\x79\x25\x13\x59\x49\x5f\x63\x40\xdf\xec\x04\xe0\xb5\x45\xdf\x90\x0f\x91\x23\x9b\x10\xbe\xa2\x39\xa1\xd9\x07\x88\x7a\x2d\x36\x11\x78\xf5\x69\xa6\xb5\xfb\xde\x34\x05\x7a\x20\xbc\xd3\x53\xd1\xa0\x2e\x53\x62\xd2\x2b\x75\x01\x05\x3b\x49\xbf\xb7\x09\x4e\x93\xe6\xd9\x58\x1d\xde\xa1\xdf\x45\x0b\x98\xfc\xca\x32\x0e\x47\x5b\xce\x65\xa5\xd9\x1c\xb7\x86\x21\x34\x71\xfb\xd5\x46\xa6\xe6\x6b\xe6\x70\xb6\x02\xc6\x0c\x3a\xe3\x0d\xa9\xf6\x4c\xcd\x8d\x05\x87\x70\x22\x8e\x03\x81\x09\x05\x14\x82\x7f\xc8\x22\x73\x18\xfa\x6a\x13\x83\x90\xc0\xae\x25\x0c\xdd\x83\x82\x52\xfa\xaa\xb7\x36\x79\xb2\x42\xa9\xfc\xee\xac\x48\x0e\x33\xaf\xcf\xba\x02\xbb\x47\x86\x4f\x87\xe6\x75\x6b\x31\xd6\x41\x6a\xa6\xe6\x49\x14\x2f\xe4\x52\xc6\x97\x6c\x1c\xd2\x14\x01\x98\x3b\xef\x10\xac\x1a\x69\xc0\x38\x50\xe8\x83\xb6\x59\x8d\x88\x40\x44\x91\x79\x57\xe0\x4e\xc6\x09\xd9\x97\x7a\xe7\x51\xdc\x47\xd9\xc5\x51\x12\x57\xd7\xe1\x98\xb4\x69\xcc\xdd\x15\x3a\x07\x53\xf4\xff\x45\xd2\x9f\xa4\x48\x6a\x74\x9b\x89\x83\x24\xd4\xfe\x61\x8f\x7d\x1d\xda\x6f\x5e\xbe\x78\xc8\x76\xdb\xc1\x1e\x2d\x1a\x87\x4e\x77\x0c\x02\x97\xd6\xc4\xb0\x56\x42\x74\x09\x3b\x0e\xdc\x40\xc9\xce\xc8\x39\x74\x11\x03\x2e\x46\x68\xcd\x4e\x0b\xd9\xb7\xa0\x1c\xa7\x27\xcb\xd9\x61\x86\xad\xd3\x88\xf0\x84\xdc\x89\x0d\x96\x60\x68\x20\x5c\xae\xd2\x69\x58\xe2\x82\xbf\x79\x3b\x0c\x09\x97\xb7\xef\xeb\x03\x09\xfc\x27\x7d\xc4\xf6\xa9\x8a\x54\x9d\x65\xca\xa6\x0d\x66\x64\xd6\x37\xc7\x39\x45\x73\x0c\x66\xe4\x37\x5e\x9b\xf9\xc0\x74\x02\x0a\x9f\xdc\xdc\x88\xb3\xec\xbb\xec\x0a\x70\x6d\xcc\x80\xe2\x45\xca\xe0\xbc\x83\x18\x31\x1e\x37\xe8\x7c\xed\xe4\xde\x0d\x39\xf7\x0e\xc3\x9d\x88\xe6\xa4\x4c\xd8\xc7\x47\x0e\xb4\xdb\xb1\x87\x47\x51\x96\x4c\x1e\x51\xf4\x1d\x67\xef\xb4\x50\x16\x37\x35\x78\x9c\xf6\x36\x50\xfe\x13\xb6\x68\xd0\x01\xa6\x8f\x2f\x91\x72\x3d\xca\xd9\x4e\xb7\xed\x8e\x1b\x83\xbf\x7f\xb5\x8d\xf3\xc0\xea\xd0\x81\xf3\xd9\x5d\xe0\x0e\x89\xc1\xff\x6d\xd2\x58\x45\x58\x1c\x17\x41\x39\x6e\x2a\xf4\x81\x02\xcd\xc1\x10\xe3\x24\x1a\xb1\xfd\xe7\xb9\xa7\x23\x5d\x8a\x23\x3b\x54\x20\x5c\xbf\x69\xcc\xa3\x46\x87\xeb\xf3\xba\xd4\xef\x10\x68\xee\x38\x65\x1d\x3a\xf2\x86\x43\x4e\x72\x9d\xb4\x03\x3d\xeb\xfc\x96\x4e\xb5\xa2\x2f\xb3\xfb\x6e\xe2\x42\x8f\xb1\x9d\x81\xb1\xb1\x48\x34\x63\xce\x21\x77\x50\x2d\xbe\xc6\xd5\xa1\xb8\x13\x46\x69\x65\x81\x62\x94\x76\x00\x0b\x4f\x2d\x19\x2c\x93\x69\xef\x99\x02\x72\x60\x5c\x16\xc7\xab\x6c\x1b\x81\x4b\x36\xd2\x38\x14\x2f\x8a\x78\x1b\x15\x71\x72\xad\xc3\x65\x6e\x6c\x8d\x59\x64\x6c\x1e\xfe\xbb\x2e\x6b\xe0\x5c\xe0\x73\xcb\x8d\x6f\x7b\xef\x26\x90\x42\x8e\xbb\xea\xb3\x8f\xe3\x6e\x56\xf2\xfd\xc8\x32\xb1\xd0\xd9\x6b\x99\x46\xe5\x53\xef\x3a\x71\x0f\xdd\x64\x68\xa1\x76\x2f\x81\x4e\x7d\x66\x56\x27\xf6\x35\x03\xd7\x7d\xaf\x75\x1a\x9d\x48\xdf\x42\xf5\x45\x56\xc6\x56\xaa\xcc\x39\xc6\xb2\x77\x70\xaa\x11\xd0\xea\x5b\xad\x6f\x65\x82\x61\xfa\x29\x4f\xa0\x57\x85\xf6\x8b\x9f\xed\x4a\xe8\xb4\x50\xf8\xf4\x51\xd0\x6e\x80\xf8\xa2\x10\xbd\x98\x89\x4b\x6b\x16\x6e\x8d\x3d\x7b\xd9\x08\xe9\x50\x76\x5b\x8a\x0b\x79\x4d\xcb\xbd\x42\xcb\x71\x91\x81\x93\x02\x34\xd6\xa3\xa8\xbc\xb0\xf0\x2f\x02\xe5\xa3\x60\x53\xf0\x52\x12\x5c\x2f\x05\x25\x52\x9e\x19\x85\x6f\x1f\x46\x69\x06\x56\x71\x94\x7c\x2b\xa3\x95\x2c\x7e\x09\xd0\x95\x03\x83\x03\x95\x99\x0a\x2a\x57\xca\x1f\xd4\x20\x96\x4b\xa9\x63\x29\x12\x1c\x25\xe0\x05\x1e\x19\xbf\x23\x29\x4e\xcd\x5c\x7f\x80\xcf\x94\xd7\x60\x69\x88\x73\x7d\x73\xef\x6d\xb0\xb3\xe1\x00\x76\x30\x33\x0b\x41\xb9\x06\x6a\xf9\xa0\x1b\x69\xa8\x03\x2c\x4a\x8e\x5c\x1f\x6c\x51\x82\xf5\xe1\xf4\xe6\xe1\x29\x8b\xa1\x0d\xf7\x45\xb4\xbc\xe0\x52\x09\xb5\x67\x38\xe4\x8f\x73\x4d\x25\x39\x70\xa1\x78\x42\xe2\x55\x25\x0f\x14\xbb\xc6\x8b\x18\x1d\x3b\xbd\x04\x2a\x36\x0e\x5b\x6f\x15\x47\x09\x07\xd0\x93\x08\xf8\x1e\xe0\x65\x18\xd6\xa5\x46\x16\x26\x33\x68\x03\x3b\x1f\x3f\xb3\xf2\x0c\xf9\x0d\x30\x5f\x3a\x62\x96\x72\x23\x6d\x96\xfa\x03\x06\x86\xbb\xe5\xd0\x3e\x68\xc7\x6e\x27\xce\xdb\xfc\xe2\x9c\xb6\x9f\x0a\xe1\x36\x8b\x36\x26\x5d\x7f\xa6\x3f\xce\x3b\xc1\xbc\xa1\x36\xf4\x5c\xb3\xa5\x1b\x01\x98\xe0\x7e\xe9\x6b\x7a\xda\xb5\x22\x15\x95\x88\x1d\x91\x30\xda\x1d\x55\x48\x83\x3a\xef\x8b\x20\x7b\xb3\x8e\xdb\x3a\x66\x45\x5a\x33\x73\x40\x4b\x39\x66\xe6\x0e\x69\xc5\xbe\xf1\x24\x6b\x9a\xa1\x66\xee\x3e\x39\x9b\x04\x46\xd9\xa4\xf6\xc9\x88\x34\xbd\x61\x8c\x97\xb2\xd3\x28\x17\xc7\x0a\x54\xc7\xba\x3e\x71\xf3\x26\xce\xf7\x99\x1d\x6f\xf2\x51\x0b\x55\xe4\x74\x9c\xbb\x50\x3b\xe7\xd3\xcd\x94\x11\xfd\xa7\xed\x94\x71\xfd\x37\xae\xd1\xf6\x35\x53\x94\xae\x19\xd0\x7f\xbc\xf9\xc7\xed\x94\x61\xfd\xc7\x46\x07\x22\xb3\xa7\x02\xc4\xa6\xc6\x58\x41\xb5\x7c\x90\x0a\xcc\x31\x74\xde\xd5\x81\xee\xb2\x7d\xba\xd9\x32\x6c\x5d\x6a\xab\x65\xd4\xba\xdc\xd3\x6e\xdc\x69\xb3\x8c\x5a\x97\x8d\x55\x1b\x9b\x47\xbf\xd1\xd2\x97\x24\x1a\xb7\x2e\x0f\x48\x0b\x8d\x5b\x97\x0a\x0b\x52\xa6\xe5\x59\xe6\x1a\x2c\x4c\xf3\x3e\x89\xef\x90\x9c\xa7\x3c\x02\xc5\x07\xdb\xa0\x14\x6f\xde\xea\x58\xe0\x0e\x78\x7b\xa5\xd5\xc0\xec\x39\xda\x65\x2c\x91\x0e\xc8\xa3\xb8\xb0\x83\xc3\x4b\x15\x19\xbc\xb0\x26\x14\xa1\x77\xa3\xa2\x60\x97\x3a\x2a\x08\xc3\x86\x6c\x60\x5c\x04\xa1\x8a\x80\x06\x5f\x09\x1d\x1d\x9c\x30\x60\x13\xf7\xa0\x9f\x6c\xb0\x98\x30\x17\x0a\x4f\x84\xc9\x4d\x5d\xeb\xec\x08\xf0\x3f\xb5\xd6\xde\x2f\x40\x1c\xfa\xf0\x6e\x66\x5f\xbd\xc0\x3e\x0c\x15\x83\x27\x81\x06\xe7\x58\x2f\x2a\x76\xc6\x2b\xb9\xaf\x1d\xf3\xed\xd9\xd9\x8b\xdb\x44\xc6\x28\xd9\xcf\x54\x4e\x89\xbd\x00\x7f\x0f\x53\x70\x60\x6f\xa1\x72\xa1\x8a\xc1\xaf\xc4\x72\x13\x15\xa5\xac\x4e\xeb\x6a\x7d\xfc\x73\xcf\x04\xd4\x70\x54\x15\x20\xb0\x06\x90\xd8\xa8\x37\xb4\x67\x77\x07\xda\x10\x58\x96\x8a\xbc\x90\x2b\xb9\x8e\x53\xb0\x98\xb0\x32\xa3\x74\xa2\x6b\xce\x30\x3b\xc3\x6b\xcd\xc2\xa0\x66\x78\xcd\x2d\x19\xd1\x36\x0b\xac\x63\x48\xf0\xc9\xbc\x6f\xc4\x9f\x7a\x42\x6e\xc3\xd0\x69\xfd\xfb\x3e\xab\x98\x1b\x8f\x81\xf6\x6b\xd9\x08\xb9\xf5\x77\x7a\x8c\x62\x81\xc5\x0d\x4c\xd9\xf9\x31\xdc\xe5\xfe\x1a\xc4\x8a\xdf\xfe\x52\x3d\xb4\x4b\xeb\x3b\xcb\x1c\x10\xa0\xee\x2c\xf7\x0a\xf8\xa9\x58\x10\x05\xf7\xb6\x14\xf7\xaf\x3f\xa0\x19\xf5\x32\xab\x11\x87\x60\xea\x58\x12\x2a\xb5\x81\xba\x61\x80\xcc\xa6\xe9\x02\xeb\x4d\xd2\x73\xb2\xfe\xb8\x5b\xf8\x80\x5f\xa9\x68\xf6\x56\xf7\xa3\xb0\xb4\x6a\x8e\x95\xc1\x0b\xf1\xb7\xe2\x2c\x7b\x8d\x75\x54\x60\x84\x05\xb0\xcb\xaa\x4d\xa3\x0d\xbe\x38\x93\xdb\x3c\xa1\xf2\x61\x68\xa1\xd9\x69\xa0\x8e\xcc\xe7\xf8\xb8\x1b\x51\x54\x18\xf5\x84\x15\x95\x3d\x87\xd3\x73\x86\xa4\xd4\x4b\xd3\xee\x53\x96\x21\x36\xfc\x86\x33\x68\x0d\xa3\xaf\x37\xb8\x38\x21\x19\xd1\xaa\x60\x54\x8f\x4a\x68\x6c\x75\x61\x8a\xc3\x27\x9c\xaa\xe3\x70\x23\xf1\x8f\x4e\xba\xe9\x11\x7f\xc0\xef\x60\xc1\x83\x77\x02\xdb\x2e\xaa\x93\x0a\xb5\x1d\x33\x08\x02\xa3\xd0\x23\x6c\xd8\xb6\x2c\x00\xff\x03\x1c\xce\x15\x79\x27\xf8\x9b\xcd\x7b\x74\x13\x3d\x1a\xc7\x33\x9e\xe5\x25\xd5\xb1\x01\x28\x7a\x1f\x12\x76\x7e\xc0\xfe\x0b\xc8\x03\xca\x99\x0b\x44\x16\x41\xfd\xe5\xbd\x7b\xe0\x0c\xad\x1d\x7c\x9d\x98\x29\xef\x1b\xc0\x96\x10\x83\x16\x79\x91\x5d\xc6\xe8\xfa\x6e\x78\x47\x71\x12\x6e\x21\x19\x5b\xce\x55\x62\x3b\x6b\x93\xb9\xa0\xa9\xde\xcb\x42\xc7\x59\x84\x4f\x41\xbe\x6d\x22\x2a\x25\xd3\xf8\x6f\xf9\x15\x72\x64\x59\x83\xab\x2b\x57\x25\xfb\x5a\xbf\x78\xf5\xfc\x99\xaa\xec\x5e\xe9\x32\x6c\x93\xf0\x23\xdc\x35\x3a\x98\x37\x1d\x9e\x16\x97\x0d\x60\x61\x7d\x31\xd3\x2e\xa0\x99\x99\xfd\xd8\x80\x06\xb6\x44\x59\xc1\xa4\x35\xcd\x58\x48\xba\x12\xa2\xcf\x10\x31\x15\x28\x33\x71\xc5\x52\xb0\xc9\x06\x64\x80\xe0\xaa\xce\xc4\x3b\xdc\x7e\x2e\x49\x58\xfc\xfc\xc0\x55\x8a\x37\xb4\x8a\x27\x08\x4c\x2f\xe8\x47\x8e\x6b\x6e\x2d\x01\x59\xd1\x62\x13\xbf\x49\x5b\xab\x67\x63\x66\x9e\x07\x34\xa4\xea\xfa\x98\x83\xa9\x06\x90\xee\x87\xe4\xf6\xa1\xab\xd3\xec\xd4\xd1\xb9\xc4\x8c\xa7\x06\x9c\x0e\x08\x4c\xae\x42\x66\x1b\x3f\x40\x31\xe8\x7b\x4a\x10\x1e\xa3\xf4\xf3\x66\xae\xca\xe3\x09\x6c\x34\x93\xb9\xf8\x37\xc5\x83\xe6\x43\x3b\x0f\x1d\xb8\x21\xf3\xc8\x9a\x1e\x1a\x96\xea\x51\xfa\x5c\xf9\xe3\xe2\xf4\x48\x26\x60\x81\xe0\x4b\x65\xb9\x38\xc1\x1f\x05\x8e\x0d\x12\xa7\xcf\xfd\xd5\xca\x6f\x59\x22\xf8\x3f\xda\x43\x27\x5c\x13\x1b\x32\xdf\x3c\x41\x1b\x33\x8d\x12\x47\x9b\xd0\x24\xcb\xe5\xc8\xf4\x1c\x7e\xb4\x33\x24\xe0\xa7\xd0\xd1\xf9\xac\xfc\xcb\xab\x90\xb8\x47\xa1\x87\x0d\x03\xf3\xd2\xc7\x65\x09\x50\x30\x59\x06\x65\x31\x59\xf8\x58\x5f\xfb\xe6\x2d\x96\xf9\x06\x6a\x53\xdc\xb0\x63\x7f\x25\x5c\x5e\x33\xe1\x72\xcd\x90\xaf\x53\xc5\x02\x08\x61\x26\xee\x5c\x01\x96\xad\x70\x3a\x9b\x33\x65\xfc\x5b\xc4\xf9\xe7\x7f\xfe\xd7\x7f\xc5\xbc\x96\xc8\x14\xfb\x04\xe2\x6f\xf8\x1b\x33\x0e\xa0\x71\x2a\xe0\xef\x37\x27\xf8\xf2\x6d\xb3\x3c\x0a\x13\xc4\x44\xb7\xb5\xef\x99\xe0\x23\xf1\x1a\xe6\x86\x4f\x30\x12\x86\xa9\xe1\x1c\xed\x22\x91\x66\xe9\x31\x09\x43\x6d\xf1\x63\x43\x60\x32\x1c\xb3\x11\x9d\x52\x65\xc7\xa0\x67\xfc\x2b\x06\x4f\x34\x22\x61\xeb\xce\xdd\xc9\xf4\x50\x2b\xc1\x86\xaa\xf8\x35\x8e\x72\xa2\x24\xed\xaf\x95\xdc\xc7\x55\x54\xad\x40\x4e\x97\xeb\x58\xc9\x7d\xcd\xae\x24\xd1\x9c\xc5\xb5\xfe\x08\xd6\x90\x92\xd4\x51\xa7\x69\xf6\xa9\x16\x57\x45\x1a\xce\xa0\x06\x55\x96\xae\x93\xd2\x8a\x2e\x0a\xc4\x68\x21\x0d\x7f\x9c\x02\x01\x63\xbb\x6b\x1e\xf1\x37\x16\x68\x20\x5c\x6e\x13\xcd\xaa\xbc\x4d\x68\x47\x18\xe8\x6d\xf7\x1d\xdb\x7c\xf4\xb3\x01\x42\x21\x35\x1d\xcd\x98\xec\x34\x5e\x9c\xa8\xd5\x0e\xeb\xc5\x44\x2f\x46\xcd\x84\xb6\x37\x4c\xd8\xf7\xe7\x5a\x08\x24\x9f\x27\xc2\x3e\x28\x25\x8f\x95\x52\x72\x1d\x5d\x6b\x01\x15\xe8\xc8\xb6\x7c\x63\xaa\x75\x23\x5e\x01\xac\xf4\x5b\x82\x8c\x1c\xbc\x2b\x94\x3f\x71\x62\x19\xa3\xd3\xea\x75\x8e\xc5\x91\xd2\x44\xd4\x64\xd8\x31\x9e\x80\x7d\x82\xfe\x45\x88\xe2\x3d\xa4\x8a\x7e\x3f\x50\x6e\x20\x3a\xcd\xd6\x4f\x6e\xcd\xd5\x71\x9a\xc9\x7e\x24\xa9\xa1\x04\x8a\x3a\x22\xf0\x12\xb8\xe0\x7e\x92\xf8\x0c\x7c\xbf\x32\x4a\x7d\x6e\x60\x8d\x9a\x71\x26\x3c\x25\x09\x0a\xd4\xca\xda\x32\xc2\x99\x69\x72\x7a\xba\x2a\xa4\x29\x88\xee\x31\xf0\x5a\x0b\x35\xf4\x49\x00\x31\x73\x4e\xc6\x8a\x3b\x65\x10\xb2\x3a\x00\x6c\xb3\x2b\x98\x60\x15\x47\x09\x86\xdd\x60\xf3\x29\xeb\xf1\x51\x5c\x2e\xa3\x62\xf5\x3a\xa5\x63\x3d\x27\xf6\x8b\xae\x04\xc1\x79\x9d\x0a\x77\xc0\x8e\x48\xc5\x34\x65\x47\xa8\xf6\x8b\xd5\x61\xc1\xda\x2b\x5a\x15\x1a\x0d\x62\x9a\x0d\x7b\xd3\x43\x56\x57\x94\x1e\x2a\x73\x99\x20\x13\x47\x21\x3e\x88\x56\x0d\x4b\x7c\x82\x08\x58\xb4\x8c\x5b\x8f\xae\x27\x50\x37\xda\x96\xda\xaf\xf9\x1e\x46\xf3\x8b\x40\x55\xe7\xd8\xef\xd8\x1a\x00\x16\xd7\xb6\x39\xd0\xf3\xe5\x77\xe1\xaf\xf0\xa5\xaf\x3b\x38\x4d\xa6\xae\xb3\xc3\x35\x67\x28\x2c\x34\xd7\xd2\x11\x8f\x52\x47\xc3\x81\xb8\xa9\x6e\x16\x7e\x97\xb1\x05\x2e\x3c\x9a\x24\xb7\xc1\x40\x2c\x7f\x06\x67\x82\x06\x35\xab\x89\x6e\x50\x7f\xfc\x77\x1c\x85\xe7\xa9\xcc\xd6\x1d\x3c\x60\x8f\x75\xf0\xa0\x69\x7d\x0a\x22\x86\x13\xee\x50\xfc\x4a\xe7\xbe\xb5\x6b\x79\xdc\xaa\x45\x1e\xf4\x9c\x7a\x25\xe6\x50\xd6\x93\xe5\x63\xa9\xdd\x08\xa3\xd7\xa3\x92\x8d\xfa\x96\xdb\xc0\x4e\x54\x71\x40\x46\xb3\x07\xc1\x3e\xd9\xd7\x6b\x84\x0f\x25\x39\x8d\x89\x34\x24\x28\x9e\x76\xc4\x44\x5b\x48\x18\x59\xf0\xba\x94\x2f\xb0\x1f\xca\xcb\xf2\xa4\xf9\xe1\x71\x5a\x6f\x9f\xd5\xdb\x05\x68\xc5\x13\xfb\xe1\xf1\x36\xae\x5e\xa7\x79\x96\xd7\xe8\x3b\xaf\x8c\x58\x81\xb5\x72\xe5\xa9\x23\x53\xb4\xdf\x60\x93\xaf\x84\x2a\xa8\xcd\xb2\x04\x23\x23\x18\xab\x83\xd0\x6c\xf0\x6e\xa6\xa4\x95\x31\x27\xc9\x92\x72\x5a\xb9\x49\x59\x7b\x22\x49\x19\x03\x7d\xc1\x96\x81\xda\x90\xb6\x16\x1a\xca\xce\x5a\xeb\xbc\x70\xcc\x89\xd1\x7c\x2c\x29\x81\x4e\x2e\x76\x03\xcc\xb6\x89\x56\xdc\x77\x28\xfb\x4a\x39\xbf\x15\x86\xc5\x62\xae\x70\x37\xa5\x73\xce\xe1\x62\x74\x19\x09\x8a\x3a\x91\x1b\x6a\xa5\x6f\x92\xbe\xc8\xcc\x18\x96\xed\xa4\x86\x1b\xd9\x5d\x06\xd2\x4c\xf1\x8e\x26\x77\x77\xe5\x76\x35\x85\x40\x1e\x54\x30\xf1\x60\x57\x97\x16\xfe\x94\xdd\xed\xc2\x40\xe1\x85\xe4\xae\x41\x2e\x9a\x43\x5c\xcb\x0d\xae\x49\x48\x5f\xa2\xa4\xcc\x70\x09\xd4\x1e\x66\xad\x50\x17\xc9\x74\x7c\x74\xad\x69\x8e\xf1\xa8\xf3\x4c\x09\x71\x0c\x18\x05\xbb\x3a\x9a\x55\xc1\xd2\x7f\xe4\x39\x14\x22\x5e\x70\xeb\x64\x34\x82\xb8\x7d\x32\xda\xe9\x6d\x63\xb1\x3d\xb9\xe8\x94\x8d\x3d\x96\x5e\x22\x89\x2f\xe9\xb0\x45\xa5\xa8\xb6\xcd\x2a\x0a\x44\x60\x9c\x21\x4a\xf1\xa4\xd8\x0f\x58\x63\x9b\xf3\x99\x34\x7e\xc7\xe7\xd4\xc0\xe2\x22\xf3\xd1\x0e\xb2\x02\x0b\x24\xa3\xd3\x19\xe5\x75\x59\xc9\xed\x0c\x99\x0b\x60\x25\xf1\x85\x4c\x4c\x3e\x9b\xc2\x25\xde\x26\x2b\xab\x13\xa2\x9d\x4d\x58\xdb\x19\xf8\x66\x28\x5d\xa3\x3c\x18\xe2\x3d\x3c\x55\x0d\xd2\xe7\x0b\xcd\x72\x0f\xd5\x05\x01\x66\x40\x58\xc9\x93\xf9\xdc\x63\xcb\xd3\x60\x71\x0a\x08\xc3\xa8\xf8\x45\xfc\x99\xa1\x03\x89\xaa\xda\xc8\x40\xe0\x1f\x34\x3d\x4b\x69\x80\xed\x5d\xf2\x85\x96\x42\x3d\x55\x27\x85\xd1\xc6\xe9\xf1\x37\x54\xfa\x95\xeb\x97\xbd\x67\x19\x2f\xa3\x13\x05\xe7\x8a\x7d\xe6\x00\x8a\x19\x21\xa0\xab\xac\x80\x1d\xc9\x91\x75\xa1\xf4\x3c\xba\x7d\x78\xe6\xaf\x60\x25\xc2\x5f\x63\x24\xa0\x17\xb8\x01\xc6\x03\xc3\xb8\x18\x4b\x6f\xbb\x3e\x0a\x69\xfc\xca\x75\x00\x8e\x9b\x04\x4f\xf2\x43\xb7\xc7\x3d\xdd\x87\x2c\xfc\xae\x4f\x61\x0a\x95\x7b\x72\xfe\x38\x12\xdb\x77\x23\xfd\x7a\x4e\x0f\x3b\x05\x00\x2a\xa5\x3f\x18\x5d\x56\xf6\x23\xd8\xc4\xf9\x35\x48\x0a\x1f\xd6\xdf\x6d\xff\x20\x02\x15\x0b\xc2\x03\xa3\xcc\xba\xa9\xb5\x0d\x76\xc4\x87\x5b\xa1\xe4\x46\xc8\xb9\x19\x2a\x6e\x27\xff\x27\xed\xfc\xbf\xb6\x6c\x9d\x70\x71\x7f\x14\x79\xbc\x10\x60\x74\xdd\x4d\x41\xc0\x67\x5f\xf9\xa1\x78\x3b\x19\x33\xc3\x4b\x3b\x6b\xdb\x9a\x7d\x51\x73\x5b\x88\x40\x72\x47\xaf\xe3\x02\x16\x4e\x1c\xe1\x1e\x86\x5f\x33\x32\xf4\x85\x4e\x6d\xea\xd7\xb8\x7f\x53\xb4\x0a\x60\x0e\x47\xd8\x81\x7f\x92\xb6\x50\xce\x81\x2d\x77\xc6\x2f\xca\x4c\x79\x58\x7d\xd0\x19\xd4\x57\x68\xdd\x2e\xa9\x20\xbe\x2e\x54\xa0\x86\x0c\x05\xb5\x71\x61\x3b\x82\xa9\x95\xf0\x99\x36\xd6\x72\x20\xb7\x29\x97\x09\x2e\x2b\xc8\x50\x6d\xbc\x2a\xa5\xc4\xe1\x74\x56\x7a\x5b\x6d\xc0\xba\xee\x27\x5a\x0a\x2a\xd8\x11\x0a\xf1\x2c\xab\xd4\x11\x61\x04\x89\xb0\x48\x52\xf0\xf9\x02\x75\xf5\xc7\xb8\x41\x42\xe3\x2c\x28\xa9\xa5\x4e\xc9\xd1\x29\x1f\x94\xfb\x1a\x35\x3c\x70\xad\xc2\xe8\x91\xae\x6f\x62\xb1\x0f\x0f\xd7\x36\x58\x6f\x4a\xed\x9d\x33\x7c\x58\xd6\xa4\xd4\xad\xca\x40\x37\x69\xc7\x59\x67\xe7\x08\xca\xb0\x36\x70\xe3\x3d\x3d\x8d\x54\x62\x6e\xe4\x8c\xe7\x1e\xb6\xe1\x67\xcb\x3b\x1b\x7b\x07\x83\xd5\xed\x20\x6f\x33\x3d\x4c\x21\x43\xb2\x7e\x51\x01\x0c\x54\xd1\xec\x14\xd8\xed\x80\x54\xaf\xb0\x19\x8d\x47\xb5\xbd\x2b\x15\x8c\x62\x5b\xac\x1d\x90\xd2\x31\x1a\x35\x8c\x5b\x7f\xe2\x16\x98\xb6\x03\x52\x4e\xe0\x95\x8d\x3c\x95\x4c\x31\x5f\x36\x74\x4c\x03\x83\x01\x7f\x71\xef\x9e\x9b\x55\x02\x2f\x4b\xa5\x4e\xc8\x9b\xca\x81\x84\x8c\x26\x76\x48\x09\x16\x7b\x56\xb4\x81\xaa\x0a\x2f\x71\xa0\x22\x3b\x9a\x85\xbb\xff\x54\xf8\x1a\x8c\x68\x72\x60\x2c\x8e\x1a\x89\x9d\x01\x33\x5d\x45\xd2\x13\x30\xeb\x25\xfb\x78\xbc\x8c\xdb\x1c\x1e\x30\x3b\x24\xfe\x75\x4a\xf7\x65\x3c\x7e\xfe\xf5\x60\x08\x0c\x63\xd8\x36\x32\x4e\x12\x87\x42\x35\x74\x19\x86\x1b\xf3\xda\x33\x9c\xd6\x13\x4d\x33\x40\xbd\xc0\x29\xbb\x28\x9c\x4c\x04\x02\x76\xa2\x3c\xcf\x7f\xb9\x3b\x62\xd7\xc8\x43\x80\xa3\xe1\x39\x3c\x73\x22\xee\x7e\xb9\xba\x4b\x4e\x80\x1d\xc3\x8c\xcd\x01\xc7\x32\xdf\xc5\xcd\xd3\x83\xa3\x7a\x83\x41\xbd\xa1\x98\x9e\x43\xda\x9d\x11\xbd\x32\xef\x09\xe9\x75\x28\xe4\x12\xa5\x55\x94\x72\xc7\x96\x44\x4f\x5a\x35\xd1\x8e\x00\x6a\xd7\x83\xed\x11\x3b\xdf\x1d\x39\x67\x83\xa0\x11\xff\x39\x2c\x76\xde\xa9\x24\x9b\x1a\x5f\x57\x05\x83\xa0\xcf\xde\xe1\x72\xba\xce\x82\x73\xdb\x05\xec\xa0\x52\xe0\x40\xe4\x96\x80\x5e\x9e\x28\xed\xd7\x50\xbe\x3e\xda\x04\x33\x8e\x02\x72\x6a\x99\x12\x63\x5a\x14\xec\x31\xad\x3d\x62\xe7\x03\x95\x66\x26\x70\x84\x77\x52\x5d\x46\x09\x12\xd8\xf3\x54\x5c\x92\x5f\x8d\x5f\x47\x30\x16\x4f\xd7\xf1\x4d\xe8\x47\xac\xe2\xaa\xaf\x41\xc7\xb8\xdd\x6e\xd8\xf3\xe6\x98\xc4\x2b\xc9\x6e\x29\x19\x63\x39\x06\x51\x65\x85\x49\x1b\x8e\xd3\xd2\xd1\x1b\xe5\xc7\x51\xa9\x95\x4e\x29\xb5\xce\x9c\x96\x5c\x18\xdd\x88\x74\xe2\x28\xaf\xf8\xbd\x09\x75\xea\x86\x1f\xdb\x27\x4f\xd1\x64\xf4\xe6\x84\x7f\x9f\xb7\x97\x73\xac\x60\x44\xd6\xf5\x65\x0d\xb2\x3a\x59\xa5\x77\x2b\xbb\x7b\x79\x96\x5f\xbe\xf7\xd8\xf8\xd4\x12\x94\xa9\xf2\x32\xba\x52\x46\x66\xad\x9f\xcd\x37\xf3\x81\xde\x36\x29\x47\x8c\xd7\x24\x9d\x93\xac\x6e\xc5\xab\x51\xc0\x55\xdb\x5c\x25\x67\xd5\x02\x57\x78\x4d\x91\x4b\xce\xa1\xc8\xb5\xb0\x85\xdc\xfb\x05\x8d\xa1\x15\x6e\x08\xd5\xec\xa5\xcc\x25\x5d\x2d\xa8\x7e\x3f\x29\xd1\x95\x32\x12\xd5\x42\xf6\xb5\xcf\xae\x5b\x7e\x93\x51\xe1\x9a\xa7\x97\xdf\x0b\x74\x0f\x9e\xea\x1b\xcf\x04\xa8\x7f\x65\xa2\xf1\xaa\x60\xfb\x2d\xb3\x70\x68\x5a\x3c\x84\xf7\x89\x2d\x4b\x57\x7c\x90\x94\xe6\x77\x37\x5d\x3f\xd4\x5f\x67\x43\x14\x1a\x94\xbe\x1f\x41\x65\xe6\xdc\x84\xe5\x5f\x06\xec\xc3\x4d\x5c\x2c\x14\x37\x92\x8b\x93\xa0\x71\xd6\x20\xe0\x93\x12\x23\xb8\xfa\x17\xe8\xaf\xe2\xf1\x87\xbc\xd0\x68\xa3\xe2\x1c\xc2\xb3\x91\xeb\xb9\x0d\xba\x6b\xdf\xfb\x72\x05\x6f\x8e\x86\x86\x68\xce\xc6\xa2\x0f\xb4\xf4\x51\xdd\x77\xd6\x3c\x68\xb3\x85\x9e\x07\xb0\xa3\x8e\x0d\x37\xaa\x54\x06\x47\x36\xd3\xef\x64\xb5\xfa\xb6\xa7\xda\x9d\x6b\xf0\x4c\xb8\x8c\x48\x6f\xce\x21\xf8\x5e\x73\x9d\x94\xa4\xd5\x82\xc9\x07\x74\x83\xe9\x41\x54\x65\x08\x81\x43\x28\xcb\x89\xf3\xa3\xdf\xff\xfb\xdf\xfd\xf4\xbb\x7f\xfd\xe9\x5f\xfe\xe3\xa7\x7f\xfc\xf1\x0f\xff\xfc\xf7\xff\xfd\x9f\xff\xf5\xfb\xdf\xfd\xc3\x4f\xff\xf6\xe3\x1f\x7e\xfc\xa7\xa3\xb9\x71\x9f\x79\x73\xdd\x8a\x13\x3e\x8d\x11\xfc\x3d\x39\xa0\x35\xb3\x5b\x0c\xb4\x6b\x1c\x1b\x05\x98\x34\xea\x15\x5b\xbf\xda\xe1\x11\x25\xe3\x32\x4c\x84\x0d\xa5\xc6\xba\x82\x8e\x9a\x0f\x0b\x3a\x0b\x36\x37\x8a\x88\xbb\xe8\xb2\xcb\xc6\xba\x99\x4d\xc1\xcd\x9b\xbb\x42\xbd\x6b\x6f\x8b\xc6\xcd\x07\x8a\x36\xaa\xa9\x43\x1c\xd2\xee\xfa\x3d\xcd\x48\x29\x73\xc7\x11\xdd\xb1\xc7\xbe\x91\x95\x05\xa1\x4e\xdd\x6a\x9a\x0f\x6d\xb3\x83\x37\x5a\xef\x20\x9e\x19\x45\xcf\x79\x64\xb7\x75\x78\x4a\x01\xdb\xb1\xe1\x06\xf8\xf3\xb3\x52\x77\x6f\xc4\x5a\xdc\xde\x4f\xf9\x0e\xde\x2e\xab\xef\xc7\xf9\xae\x91\x41\x68\x00\x41\x15\x92\x6c\x9f\x52\x45\xaf\xe6\xf7\xd4\x31\x0c\x29\x38\xea\x9d\xcb\x8a\x2f\x86\x74\x0d\x0f\xf2\x05\x1b\x76\x47\x95\xbd\x94\xd5\x6d\x4d\xcd\x7d\xec\x8f\xe3\x1d\x39\xeb\x66\xee\x7c\x7e\x24\x9e\xa7\xe0\xa7\x97\x0a\xe1\x35\x03\xe1\xdc\x59\xb9\x41\xf3\x0c\x83\x54\x2a\x34\xc5\xc5\x91\x98\x5f\x4a\x12\x02\x90\x61\x4a\xcc\x16\x9e\x66\xdb\xb8\x42\xe3\x65\x55\x53\x76\x04\x9d\xe0\x38\x95\x65\x29\x8e\xe6\x6a\x44\x9a\x7e\xbf\xd4\x1d\x37\x41\x3a\xf1\x4c\xa6\xb5\xc9\xb0\xef\x4a\x06\x0f\x67\x83\x87\xd3\xc1\xc3\xf9\xe0\xc1\x84\x30\x5f\x7c\x12\x55\x51\x3b\x27\xdc\x48\x09\xbf\xbf\xbd\xa1\xcc\xfe\x1a\x33\x56\xc4\x65\xbb\xe2\xcb\x4b\xd8\x27\x44\x59\x6b\x2e\x3f\xe0\x82\xd0\xf6\x25\xa0\x3e\xdf\x2b\xfa\x4c\x5e\x3d\xa8\xd7\x6b\xf8\x8d\xb8\xba\xc5\xd5\xc2\xad\x4a\x50\xce\xee\xa4\x7b\x33\xda\xce\x5b\x4d\xcc\x45\xa9\xfb\xa6\xfd\x9e\xdd\x3f\x7b\x75\xcb\x5b\x4d\xa8\x1b\xf6\x17\x1c\x2c\x35\xbf\xd5\x89\x4f\xba\x03\x97\xcf\x7a\x96\xc5\x25\xff\x36\x17\xdf\x29\xf7\xb0\x7b\xe7\xde\xbe\x87\x31\x27\x65\xbd\x70\x4f\xfb\xe9\x85\xc7\xb1\x51\xa0\xd5\xf2\x55\xbd\x28\x97\x45\xbc\xe0\x8b\x64\x3a\x27\x28\xc3\xe6\xed\x32\x5e\xff\x29\x4b\x44\x3d\xec\xdc\xad\xf0\xb4\x3c\xa7\x49\x06\x3b\x39\x4a\x71\x06\x79\xbd\x0d\x84\x9d\xd3\x89\xce\xb2\x37\x6f\x7b\xc4\xf3\x27\xce\x02\xed\x7b\x6f\x0c\xad\xc9\xee\x7b\x63\x2c\xe4\x9d\x07\x5b\x1a\xb7\xee\x86\x86\xb0\xe6\x70\x8b\xb3\xb6\x03\xf7\xc5\x8c\x43\x50\xd5\x0c\x7f\x7c\xd7\xc6\xd8\x79\xed\x77\x6d\x4c\xe3\xc2\x98\xe6\x9c\xf1\x7c\x87\x99\xf6\x41\x97\xc6\xe0\x42\x0d\x9c\xe6\x35\xd1\xa9\x4e\x1b\x27\x61\x67\x5b\xf4\x9d\xfc\x38\xe0\x56\x19\x67\x95\x3f\xe9\x56\x19\x07\x8e\x29\xe0\x3d\xe8\xca\x54\xd0\x16\x47\x43\x1c\xd5\xb9\x2d\xe6\xc0\x1b\x49\x9c\x30\x39\x13\xb5\x75\xd6\xb2\xff\xec\x60\x79\xae\x04\x1e\x88\x86\xe1\xe8\x78\xb7\x6c\xb4\xef\x78\xe5\x48\xf1\x39\x8c\x13\x3e\x22\x3d\xd7\x5f\x2e\x39\x72\xa5\xcb\x9d\xbd\x6e\x02\x99\x36\x38\x6a\x47\xbd\x1b\x4d\x78\x8f\x7a\x37\xaa\x6f\xcb\x16\xbf\xc1\x3a\x0e\x15\xc4\x2c\xcd\x7a\xe9\x9b\x3b\x9e\x46\xe9\x35\x27\x6e\x32\x62\x0c\xf5\x9f\x42\xa0\x9a\xa0\x1a\xc7\xc6\xec\xc9\x54\xdd\x4e\x86\x17\x15\x80\xb8\x53\xa7\x87\x1a\x65\x70\x3d\x78\x0f\x5d\xcd\x83\xe7\x94\x75\x8d\x07\xf4\x77\x35\xd6\x8e\x72\x38\x4d\xe7\x06\x0f\xf2\xf8\x38\x05\x77\xe0\x99\x39\xd2\xbc\xb4\x60\x83\x43\x4a\x73\x70\x46\xb7\x2f\xcd\x71\x7a\xef\xb8\x27\x02\x67\xf3\x7f\x7d\x4f\x84\xc5\xae\x6b\x35\x0c\x2a\xa0\x17\xf5\x22\x89\xcb\x8d\xd5\x3f\x9f\x76\x49\xc4\x3e\xd6\xc6\x21\x97\x3f\xe8\x3a\x90\xfe\x0b\x20\x3a\x5a\xc1\xcc\x46\x95\x80\x98\x5b\x20\xb8\x18\x64\x87\xe1\x32\x75\xaa\x3c\x1a\xac\xef\x96\x76\x0c\xe8\x91\x46\x51\x47\xbb\xa6\xa3\x5d\xd2\xf1\x47\x78\x93\x03\x19\x3a\xb7\xbd\xc9\x61\x80\x1a\xbd\x32\x6e\xbf\x9b\x1c\xb4\xfc\xff\x5f\xbb\xb3\x61\x00\xe5\x3d\x54\x92\x18\xd6\x49\x58\x6f\xb7\x87\xba\x81\x06\x26\xfb\xdb\x56\x3b\x00\xa2\xab\x79\xe0\xe5\x47\x07\xba\xee\xcc\x27\x8f\x74\xe7\x3b\x77\xba\xdf\x42\x4a\xae\xe2\xb5\x91\xef\x62\x75\x94\xec\x9d\x37\x30\x8c\x4e\x06\x77\x81\xe8\x8a\x5f\x8d\x48\x4f\x02\xb5\xf7\x26\x8a\x7d\x95\x6f\x5f\x66\x73\x5c\xfb\xf6\x5f\xed\xe4\xf2\xb0\xd2\xc1\xfd\x2a\xb8\x37\xcf\xd8\xd0\xc0\xad\x1b\x2b\xf4\x7f\xb2\x47\x15\xfa\x38\x25\x39\xd1\x80\x52\xc6\xc9\x69\x89\x0e\x4c\xd3\xd6\xc9\xc7\x84\xeb\xe7\x51\xcc\xfb\xda\x52\xbb\xd2\x8b\x3b\x15\xb1\x19\x88\x00\x1b\x70\x81\xb3\x0c\xff\x03\xaf\xf9\x52\x86\x62\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27236, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xe5, 0xd8, 0x11, 0x5a, 0x88, 0x9d, 0x84, 0x54, 0x98, 0x43, 0xa, 0x53, 0x49, 0x39, 0x23, 0xbe, 0x23, 0xb1, 0x82, 0x2d, 0xf7, 0x9a, 0xe4, 0xcb, 0xb5, 0xa9, 0xc8, 0xff, 0x38, 0x2b, 0x3a, 0xa1}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27234, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x15, 0x60, 0x3c, 0x1e, 0xbc, 0x60, 0xe6, 0x8c, 0x15, 0xd0, 0x23, 0x32, 0xdd, 0x82, 0xca, 0xfb, 0x4e, 0x15, 0x50, 0x13, 0x33, 0x4, 0x37, 0xe2, 0xf3, 0x12, 0x74, 0x92, 0xce, 0x55, 0x94, 0x7c}}
 	return a, nil
 }
 
-- 
2.43.0


From d0dfc42cec283cef3ea7167a4a7728de1ac9a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:33 +0000
Subject: [PATCH 31/33] fix: map values of imported message types and bytes get
 their type

---
 svcdef/svcdef.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index a97df3c..bf7c55e 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -398,8 +398,9 @@ func NewMap(m ast.Expr) (*Map, error) {
 		ValueType: &FieldType{},
 	}
 	mp := m.(*ast.MapType)
-	// KeyType will always be an ast.Ident, ValueType may be an ast.Ident or an
-	// ast.StarExpr->ast.Ident
+	// KeyType will always be an ast.Ident, ValueType may be an ast.Ident, an
+	// ast.StarExpr->ast.Ident, an ast.StarExpr->ast.SelectorExpr for messages
+	// of other packages, or an ast.ArrayType->ast.Ident for bytes
 	key := mp.Key.(*ast.Ident)
 	rv.KeyType.Name = key.Name
 	var keyFollower func(ast.Expr)
@@ -410,6 +411,14 @@ func NewMap(m ast.Expr) (*Map, error) {
 		case *ast.StarExpr:
 			rv.ValueType.StarExpr = true
 			keyFollower(ex.X)
+		case *ast.ArrayType:
+			rv.ValueType.ArrayType = true
+			keyFollower(ex.Elt)
+		case *ast.SelectorExpr:
+			if pkg, ok := ex.X.(*ast.Ident); ok {
+				rv.ValueType.Name = pkg.Name + "."
+			}
+			rv.ValueType.Name += ex.Sel.Name
 		}
 	}
 	keyFollower(mp.Value)
-- 
2.43.0


From c0a5d181cd69909277ede944839c18ace3ee4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:10 +0000
Subject: [PATCH 32/33] fix: find services whose name starts with Unsafe

---
 svcdef/svcdef.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index bf7c55e..4729e6a 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -234,8 +234,9 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			// log.Printf("range ast.TypeSpec item = %+v, type=%v", t, t.Type)
 			switch t.Type.(type) {
 			case *ast.InterfaceType:
-				// Exclude Unsave{NAME}Server interface
-				if strings.HasPrefix(t.Name.Name, "Unsafe") {
+				// Exclude Unsafe{NAME}Server interface, but not the
+				// {NAME}Server interface of a service named Unsafe...
+				if isUnsafeServer(t) {
 					break
 				}
 				// Each service will have two interfaces ("{SVCNAME}Server" and
@@ -346,6 +347,21 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 	return &rv, nil
 }
 
+// isUnsafeServer tells whether an interface is the Unsafe{NAME}Server that
+// protoc-gen-go-grpc makes for the service {NAME}.
+func isUnsafeServer(t *ast.TypeSpec) bool {
+	server := strings.TrimPrefix(t.Name.Name, "Unsafe")
+	if server == t.Name.Name {
+		return false
+	}
+	for _, m := range t.Type.(*ast.InterfaceType).Methods.List {
+		if len(m.Names) == 1 && m.Names[0].Name == "mustEmbedUnimplemented"+server {
+			return true
+		}
+	}
+	return false
+}
+
 func NewEnum(e *ast.TypeSpec) (*Enum, error) {
 	return &Enum{
 		Name: e.Name.Name,
-- 
2.43.0


From ee7d9fc66819b56ffb3d260ac1a300da599f013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:30 +0000
Subject: [PATCH 33/33] fix: keep declared fields whose name starts with XXX_

---
 svcdef/svcdef.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 4729e6a..c761931 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -377,7 +377,8 @@ func NewMessage(m *ast.TypeSpec) (*Message, error) {
 
 	strct := m.Type.(*ast.StructType)
 	for _, f := range strct.Fields.List {
-		if strings.HasPrefix(f.Names[0].Name, "XXX_") {
+		// Internal fields of protoc-gen-go, which are not declared in the proto
+		if strings.HasPrefix(f.Names[0].Name, "XXX_") && !hasProtobufTag(f) {
 			continue
 		}
 		// 如果不是可导出字段, 跳过
@@ -394,6 +395,11 @@ func NewMessage(m *ast.TypeSpec) (*Message, error) {
 	return rv, nil
 }
 
+// hasProtobufTag tells whether a field of a struct is a field of the message.
+func hasProtobufTag(f *ast.Field) bool {
+	return f.Tag != nil && strings.Contains(f.Tag.Value, "protobuf:\"")
+}
+
 // NewMap returns a new Map struct derived from an ast.Expr interface
 // implemented by an *ast.MapType struct. This code cannot accept an arbitrary
 // MapType, only one which follows the conventions of Go code generated by
-- 
2.43.0

